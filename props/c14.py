"""C14: ensemble statistics of a series equal direct evaluation."""
import numpy as np
from IMTreatment.core import (ScalarField, TemporalScalarFields, TemporalVectorFields)
from vh.core import scenario, Skip
from vh import gen as G
from props.c13 import comps, struct

RULE = ('Random temporal scalar and vector series with per-instant masks (from none to dense, including points that '
        'are masked at the first or at every instant), every required-minimum setting.')
ASSUMPTIONS = ['reference: per-point numpy evaluation over the instants at which the point is valid',
               'turbulence intensity is sqrt(2/3 tke)/|V| instant by instant, as documented']


def series(rng, kind=None, **k):
    k.setdefault('lo', 1)
    k.setdefault('hi', 7)
    t = G.tf(rng, kind=kind, maskkind=G.pick(rng, ['none', 'sparse', 'dense', 'dense', 'block', 'lines']), **k)
    if rng.random() < .3:
        # a point masked at every instant, one masked at the first only
        i, j = int(rng.integers(t.shape[0])), int(rng.integers(t.shape[1]))
        for q, f in enumerate(t.fields):
            mk = np.array(f.mask)
            mk[i, j] = True
            if q == 0:
                mk[(i + 1) % t.shape[0], j] = True
            f.mask = mk
    return t


def stack(t):
    M = np.array([f.mask for f in t.fields])
    A = [np.where(M, np.nan, np.array([getattr(f, c) for f in t.fields])) for c in comps(t.fields[0])]
    return A, M, (~M).sum(axis=0)


def nanmean(a):
    n = (~np.isnan(a)).sum(axis=0)
    with np.errstate(all='ignore'):
        return np.nansum(a, axis=0)/n


def field_is(m, f, t, values, mask, sig, upow=1, rtol=1e-8, scale=None):
    G.chk_field(m, f, sig)
    m.close(f.axe_x, t.axe_x, sig + '-axes')
    m.close(f.axe_y, t.axe_y, sig + '-axes')
    m.check(G.si(f.unit_x) == G.si(t.unit_x) and G.si(f.unit_y) == G.si(t.unit_y), sig + '-axes-units',
            lambda: '%s %s' % (f.unit_x, f.unit_y))
    m.check(np.array_equal(f.mask, mask), sig + '-mask', lambda: '%s want %s' % (f.mask*1, mask*1))
    u = G.si(t.unit_values)
    k = u[0]**upow
    m.check(G.dim(f.unit_values) == {a: b*upow for a, b in u[1].items() if b*upow}, sig + '-unit',
            lambda: '%s from %s' % (f.unit_values, t.unit_values))
    at = 1e-9
    for c, w in zip(comps(f), values):
        g = np.where(mask, np.nan, getattr(f, c))*G.fac(f.unit_values)
        w = np.where(mask, np.nan, w)*k
        if scale is None:
            m.close(g, w, sig + '-value', rtol=rtol, atol=at)
        else:
            m.check(g.shape == w.shape and np.array_equal(np.isnan(g), np.isnan(w)) and
                    np.all(np.abs(np.nan_to_num(g - w)) <= 1e-9*scale*k + 1e-300), sig + '-value',
                    lambda: '%s want %s' % (g, w))


@scenario('C14', 500, 15000)
def mean(m):
    rng = m.rng
    t = series(rng)
    A, M, n = stack(t)
    k = int(rng.integers(1, len(t) + 2))
    m.case(G.tdesc(t), 'nmb_min', k)
    s = G.snap(t)
    f = t.get_mean_field() if k == 1 and rng.random() < .5 else t.get_mean_field(nmb_min=k)
    m.check(G.diff(G.snap(t), s) is None, 'mean-touched-the-series')
    sc = max(np.nanmax(np.abs(a)) if np.any(~np.isnan(a)) else 0. for a in A)
    field_is(m, f, t, [nanmean(a) for a in A], n < k, 'mean', scale=sc)
    # mean of identical fields is that field
    r = type(t)()
    for q in range(int(rng.integers(1, 5))):
        r.add_field(t.fields[0], time=float(q))
    d = G.diff(G.snap(r.get_mean_field()), G.snap(t.fields[0]), exact=False)
    m.check(d is None, 'mean-of-identical-fields', d)
    # order of the fields does not matter
    o = type(t)()
    for q in rng.permutation(len(t)):
        o.add_field(t.fields[q], time=float(-t.times[q]), unit_times=t.unit_times)
    field_is(m, o.get_mean_field(nmb_min=k), t, [nanmean(a) for a in A], n < k, 'mean-any-order', scale=sc)


@scenario('C14', 400, 12000)
def extrema(m):
    rng = m.rng
    t = series(rng, kind='s')
    A, M, n = stack(t)
    k = int(rng.integers(1, len(t) + 2))
    m.case(G.tdesc(t), 'nmb_min', k)
    s = G.snap(t)
    a = A[0]
    lo = np.nanmin(np.where(np.isnan(a), np.inf, a), axis=0)
    hi = np.nanmax(np.where(np.isnan(a), -np.inf, a), axis=0)
    field_is(m, t.get_min_field(nmb_min=k), t, [lo], n < k, 'min')
    field_is(m, t.get_max_field(nmb_min=k), t, [hi], n < k, 'max')
    m.check(G.diff(G.snap(t), s) is None, 'extrema-touched-the-series')


@scenario('C14', 400, 12000)
def fluctuations(m):
    rng = m.rng
    t = series(rng)
    A, M, n = stack(t)
    k = int(rng.integers(1, len(t) + 1))
    m.case(G.tdesc(t), 'nmb_min', k)
    s = G.snap(t)
    r = t.get_fluctuant_fields() if k == 1 else t.get_fluctuant_fields(nmb_min_mean=k)
    m.check(G.diff(G.snap(t), s) is None, 'fluctuations-touched-the-series')
    struct(m, r)
    m.close(r.times, t.times, 'fluctuation-times')
    m.check(G.si_or_str(r.unit_times) == G.si_or_str(t.unit_times), 'fluctuation-time-unit')
    sc = np.nan_to_num(max(np.nanmax(np.abs(a)) for a in A))
    mu = [nanmean(a) for a in A]
    for q, f in enumerate(r.fields):
        field_is(m, f, t, [a[q] - w for a, w in zip(A, mu)], M[q] | (n < k), 'fluctuation', scale=sc)
    full = n == len(t)
    for c in comps(r.fields[0]):
        tot = np.sum([getattr(f, c) for f in r.fields], axis=0)[full]
        m.check(np.all(np.abs(tot) <= 1e-9*sc*len(t) + 1e-300), 'fluctuations-average-to-zero')


@scenario('C14', 400, 12000)
def energies(m):
    rng = m.rng
    t = series(rng, kind='v')
    (u, v), M, n = stack(t)
    m.case(G.tdesc(t))
    s = G.snap(t)
    mu, mv = nanmean(u), nanmean(v)
    sc = np.nan_to_num(max(np.nanmax(np.abs(u)), np.nanmax(np.abs(v))))**2
    up, vp = u - mu, v - mv
    tke = t.get_tke()
    struct(m, tke)
    m.close(tke.times, t.times, 'tke-times')
    m.check(G.si_or_str(tke.unit_times) == G.si_or_str(t.unit_times), 'tke-time-unit')
    for q, f in enumerate(tke.fields):
        field_is(m, f, t, [.5*(up[q]**2 + vp[q]**2)], M[q], 'tke', 2, scale=sc)
    field_is(m, t.get_mean_tke(), t, [nanmean(.5*(up**2 + vp**2))], n == 0, 'mean-tke', 2, scale=sc)
    field_is(m, t.get_mean_kinetic_energy(), t, [.5*(mu**2 + mv**2)], n == 0, 'mean-kinetic-energy', 2, scale=sc)
    k = int(rng.integers(1, len(t) + 2))
    rs = t.get_reynolds_stress(nmb_val_min=k) if k > 1 or rng.random() < .5 else t.get_reynolds_stress()
    for f, w, nm in zip(rs, (up**2, vp**2, up*vp), ('xx', 'yy', 'xy')):
        field_is(m, f, t, [nanmean(w)], n < k, 'reynolds-' + nm, 2, scale=sc)
    m.check(G.diff(G.snap(t), s) is None, 'energies-touched-the-series')


@scenario('C14', 250, 8000)
def intensity(m):
    rng = m.rng
    t = series(rng, kind='v')
    (u, v), M, n = stack(t)
    if np.nanmin(np.hypot(u, v)) == 0:
        raise Skip
    m.case(G.tdesc(t))
    up, vp = u - nanmean(u), v - nanmean(v)
    ti = t.get_turbulent_intensity()
    struct(m, ti)
    m.close(ti.times, t.times, 'intensity-times')
    want = (2./3*.5*(up**2 + vp**2))**.5/np.hypot(u, v)
    for q, f in enumerate(ti.fields):
        m.check(np.array_equal(f.mask, M[q]), 'intensity-mask', lambda: '%s want %s' % (f.mask*1, M[q]*1))
        g = np.where(M[q], np.nan, f.values)*G.fac(f.unit_values)
        sc = np.nan_to_num(np.nanmax(np.abs(np.hypot(u, v)))/np.nanmin(np.hypot(u, v)))
        m.check(np.array_equal(np.isnan(g), M[q]) and np.all(np.abs(np.nan_to_num(g - want[q])) <= 1e-7*sc),
                'intensity-value', lambda: '%s want %s' % (g, want[q]))
        m.check(G.dim(f.unit_values) == {}, 'intensity-dimensionless', lambda: f.unit_values)
