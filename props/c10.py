"""C10: reductions over a field ignore masked points and are exact."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random masked scalar and vector fields on even and uneven grids with any units; statistics, norms, histograms, integrals along grid lines and '
        'over windows, zones and extrema, each evaluated again sample by sample from the unmasked data in SI.')
ASSUMPTIONS = ['surface integral: mean of the samples times the covered area, as documented; integrals over a masked zone are refused',
               'the unit of integrate_over_line along y is a known finding (stored result of the test suite)']


@scenario('C10', 300, 9000)
def statistics(m):
    rng = m.rng
    f = G.sf(rng, lo=2)
    m.case(G.tdesc(f))
    v = f.values[~f.mask]
    m.check(f.min == v.min(), 'min')
    m.check(f.max == v.max(), 'max')
    m.close(f.mean, v.mean(), 'mean', atol=1e-12*np.max(np.abs(v))/(abs(v.mean()) + 1e-300))
    m.close(f.median, np.median(v), 'median')
    for n in (1, 2, 3):
        m.close(f.get_norm(n, normalized=None), np.sum(np.abs(v)**n)**(1./n), 'norm')
        m.close(f.get_norm(n), np.sum(np.abs(v)**n)**(1./n)/len(v), 'norm-per-point')
    # masked content is irrelevant
    w = f.values.copy()
    w[f.mask] = rng.normal(size=int(f.mask.sum()))*1e6
    g = ScalarField()
    g.import_from_arrays(f.axe_x, f.axe_y, w, mask=f.mask, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
    for a in ('min', 'max', 'mean', 'median'):
        m.close(getattr(g, a), getattr(f, a), 'statistics-depend-on-masked', rtol=1e-12)
    m.close(g.get_norm(), f.get_norm(), 'statistics-depend-on-masked', rtol=1e-12)


@scenario('C10', 300, 9000)
def vector_statistics(m):
    rng = m.rng
    f = G.vf(rng, lo=2)
    if rng.random() < .3:
        f.comp_x[0, 0] = 0.
        f.comp_y[0, 0] = 0.
        f.mask[0, 0] = False
    m.case(G.tdesc(f))
    ok = ~f.mask
    mag = np.sqrt(f.comp_x**2 + f.comp_y**2)
    m.close(f.magnitude, np.where(f.mask, np.nan, mag), 'magnitude')
    m.close(f.magnitude_as_sf.values, np.where(f.mask, np.nan, mag), 'magnitude-field')
    m.close(f.min, mag[ok].min(), 'vector-min')
    m.close(f.max, mag[ok].max(), 'vector-max')
    th = f.theta
    for h in (f.theta_as_sf, f.magnitude_as_sf):
        m.check(np.array_equal(h.axe_x, f.axe_x) and np.array_equal(h.axe_y, f.axe_y), 'derived-field-axes')
        m.check(G.si(h.unit_x) == G.si(f.unit_x) and G.si(h.unit_y) == G.si(f.unit_y), 'derived-field-axes-units')
    m.check(G.si(f.magnitude_as_sf.unit_values) == G.si(f.unit_values), 'magnitude-unit')
    g = f.theta_as_sf.values
    for t in (th, g):
        m.check(np.all(t[ok] >= 0) and np.all(t[ok] <= 2*np.pi + 1e-12), 'angle-range')
        nz = ok & (mag > 0)
        m.check(np.all(np.abs(np.cos(t[nz])*mag[nz] - f.comp_x[nz]) <= 1e-5*mag[nz]), 'angle-cosine', lambda: '%s %s' % (t, f.comp_x))
        m.check(np.all(np.abs(np.sin(t[nz])*mag[nz] - f.comp_y[nz]) <= 1e-5*mag[nz]), 'angle-sine', lambda: '%s %s' % (t, f.comp_y))
        m.check(np.all(t[ok & (mag == 0)] == 0), 'angle-of-zero')
    c = np.concatenate([f.comp_x[ok], f.comp_y[ok]])
    for n in (1, 2, 3):
        m.close(f.get_norm(n, normalized=None), np.sum(np.abs(c)**n)**(1./n), 'vector-norm')
        m.close(f.get_norm(n), np.sum(np.abs(c)**n)**(1./n)/ok.sum(), 'vector-norm-per-point')


@scenario('C10', 200, 6000)
def histogram(m):
    rng = m.rng
    f = G.sf(rng, lo=3)
    v = f.values[~f.mask]
    bins = int(rng.integers(2, 15))
    kw = {}
    if rng.random() < .7:
        kw['bins'] = bins
    else:
        bins = 10
    if rng.random() < .3:
        kw['range'] = (float(v.min() - .3), float(v.max() + .7))
    cum = bool(rng.random() < .3)
    nor = bool(rng.random() < .3)
    m.case(G.tdesc(f), kw, cum, nor)
    p = f.get_histogram(cum=cum, normalized=nor, **kw)
    lo, hi = kw.get('range', (v.min(), v.max()))
    if lo == hi:
        raise Skip()
    e = np.linspace(lo, hi, bins + 1)
    m.close(p.x, (e[1:] + e[:-1])/2, 'histogram-bins', rtol=1e-9)
    m.check(G.si(p.unit_x) == G.si(f.unit_values), 'histogram-unit')
    # counted independently, away from rounding at the bin edges
    if np.min(np.abs(v[:, None] - e[1:-1][None, :])) < 1e-9*(hi - lo):
        return
    cnt = np.array([np.sum((v >= a) & (v < b)) for a, b in zip(e[:-1], e[1:])], dtype=float)
    cnt[-1] += np.sum(v == e[-1])
    if nor:
        cnt = cnt/len(v)/(e[1] - e[0])
    if cum:
        cnt = np.cumsum(cnt)
    m.close(p.y, cnt, 'histogram-counts', rtol=1e-9)


@scenario('C10', 300, 9000)
def line_integral(m):
    rng = m.rng
    f = G.sf(rng, lo=2, maskkind=G.pick(rng, ['none', 'none', 'sparse', 'block']))
    d = G.pick(rng, 'xy')
    ax, oax = (f.axe_x, f.axe_y) if d == 'x' else (f.axe_y, f.axe_x)
    c, mk = (f.values, f.mask) if d == 'x' else (f.values.T, f.mask.T)
    a = int(rng.integers(len(ax)))
    b = int(rng.integers(a, len(ax)))
    if rng.random() < .5:
        b = a
    pos = float(ax[a]) if (a == b and rng.random() < .7) else [float(ax[a]), float(ax[b])]
    m.case(G.tdesc(f), 'line', d, pos)
    if np.any(mk[a:b + 1]):
        m.raises(lambda: f.integrate_over_line(d, pos), 'line-integral-over-masked')
        return
    q = f.integrate_over_line(d, pos)
    prof = np.mean(c[a:b + 1], axis=0)
    want = np.sum((prof[1:] + prof[:-1])/2*np.diff(oax))
    n, dm = G.si(q)
    along = f.unit_y if d == 'x' else f.unit_x
    wq = want*G.fac(f.unit_values)*G.fac(along)
    s = np.sum(np.abs(prof))*np.ptp(oax)*G.fac(f.unit_values)*1e-9
    wdim = G.dimmul(G.dim(f.unit_values), G.dim(along))
    if d == 'x' and G.si(f.unit_x) != G.si(f.unit_y):
        # the value in the units returned must be the physical integral
        ok = dm == wdim and abs(n - wq) <= s*G.fac(along) + 1e-9*abs(wq)
        wx = want*G.fac(f.unit_values)*G.fac(f.unit_x)
        xdim = G.dimmul(G.dim(f.unit_values), G.dim(f.unit_x))
        if not ok and dm == xdim and abs(n - wx) <= s*G.fac(f.unit_x) + 1e-9*abs(wx):
            # (known finding) right number, unit of the x axis attached
            m.check(False, 'line-integral-along-y-has-unit-of-x', '%s want %s %s' % (q, wq, wdim))
        else:
            m.check(ok, 'line-integral-along-y', lambda: '%s want %s %s' % (q, wq, wdim))
    else:
        m.check(dm == wdim, 'line-integral-dimension', lambda: '%s want %s' % (dm, wdim))
        m.check(abs(n - wq) <= s*G.fac(along) + 1e-9*abs(wq), 'line-integral', lambda: '%s want %s' % (n, wq))


@scenario('C10', 300, 9000)
def surface_integral(m):
    rng = m.rng
    f = G.sf(rng, lo=2, maskkind=G.pick(rng, ['none', 'none', 'sparse', 'block']))
    a, b = sorted(int(v) for v in rng.integers(0, f.shape[0], 2))
    c, d = sorted(int(v) for v in rng.integers(0, f.shape[1], 2))
    kw = {}
    if rng.random() < .6:
        kw['intervx'] = [float(f.axe_x[a]), float(f.axe_x[b])]
    else:
        a, b = 0, f.shape[0] - 1
    if rng.random() < .6:
        kw['intervy'] = [float(f.axe_y[c]), float(f.axe_y[d])]
    else:
        c, d = 0, f.shape[1] - 1
    sl = slice(a, b + 1), slice(c, d + 1)
    m.case(G.tdesc(f), 'surface', kw)
    if np.any(f.mask[sl]):
        m.raises(lambda: f.integrate_over_surface(**kw), 'surface-integral-over-masked')
        return
    q = f.integrate_over_surface(**kw)
    v = f.values[sl]
    area = (f.axe_x[b] - f.axe_x[a])*(f.axe_y[d] - f.axe_y[c])
    uf = G.fac(f.unit_values)*G.fac(f.unit_x)*G.fac(f.unit_y)
    n, dm = G.si(q)
    m.check(dm == G.dimmul(G.dimmul(G.dim(f.unit_values), G.dim(f.unit_x)), G.dim(f.unit_y)), 'surface-integral-dimension')
    m.check(abs(n - v.mean()*area*uf) <= 1e-9*np.max(np.abs(v))*abs(area)*uf, 'surface-integral', lambda: '%s want %s' % (n, v.mean()*area*uf))


@scenario('C10', 200, 6000)
def zones(m):
    """Blobs planted on a flat background: one centre per blob, where the data put it."""
    rng = m.rng
    n0, n1 = int(rng.integers(12, 22)), int(rng.integers(12, 22))
    ax, ay = G.axis(rng, n0, uniform=True), G.axis(rng, n1, uniform=True)
    v = np.zeros((n0, n1))
    blobs = []
    for bx in range(2):
        for by in range(2):
            if rng.random() < .3:
                continue
            # one blob per quarter, never touching another
            i0, j0 = bx*(n0//2) + 1, by*(n1//2) + 1
            w, h = int(rng.integers(1, n0//2 - 1)), int(rng.integers(1, n1//2 - 1))
            i0 += int(rng.integers(0, n0//2 - 1 - w + 1)) if n0//2 - 1 - w > 0 else 0
            j0 += int(rng.integers(0, n1//2 - 1 - h + 1)) if n1//2 - 1 - h > 0 else 0
            w, h = min(w, (bx + 1)*(n0//2) - 1 - i0 + 1), min(h, (by + 1)*(n1//2) - 1 - j0 + 1)
            w, h = max(w, 1), max(h, 1)
            v[i0:i0 + w, j0:j0 + h] = rng.uniform(8., 10., (w, h))
            blobs.append((slice(i0, i0 + w), slice(j0, j0 + h)))
    if not blobs:
        raise Skip()
    lab = np.zeros((n0, n1), dtype=int)
    for k, b in enumerate(blobs):
        lab[b] += 1
    if lab.max() > 1:
        raise Skip()
    from scipy.ndimage import label
    if label(lab)[1] != len(blobs):
        raise Skip()
    sgn = G.pick(rng, [1, -1])
    u = G.unit_lv(rng)
    f = ScalarField()
    f.import_from_arrays(ax, ay, sgn*v, unit_x=u[0], unit_y=u[1], unit_values=u[2])
    kind = G.pick(rng, ['center', 'ponderated', 'extremum'])
    rel = bool(rng.random() < .5)
    if rel:
        bornes = [.75, 1] if sgn > 0 else [-1, -.75]
    else:
        bornes = [7., 11.] if sgn > 0 else [-11., -7.]
    m.case(G.tdesc(f), 'zones', kind, rel, sgn, len(blobs))
    p = f.get_zones_centers(bornes=bornes, rel=rel, kind=kind)
    m.check(p is not None and len(p.xy) == len(blobs), 'zones-number', lambda: '%s for %d' % (p, len(blobs)))
    if p is None or len(p.xy) != len(blobs):
        return
    m.check(G.si(p.unit_x) == G.si(f.unit_x) and G.si(p.unit_y) == G.si(f.unit_y), 'zones-units')
    X, Y = np.meshgrid(ax, ay, indexing='ij')
    want = []
    for b in blobs:
        w = v[b]
        if kind == 'center':
            want.append([X[b].mean(), Y[b].mean()])
        elif kind == 'ponderated':
            want.append([np.sum(w*X[b])/w.sum(), np.sum(w*Y[b])/w.sum()])
        else:
            i, j = np.unravel_index(np.argmax(w), w.shape)
            want.append([X[b][i, j], Y[b][i, j]])
    # nothing there: nothing found
    none = f.get_zones_centers(bornes=[20., 30.] if sgn > 0 else [-30., -20.], rel=False, kind=kind)
    m.check(none is None, 'zones-found-nowhere', lambda: str(none))
    got = np.array(sorted(p.xy.tolist()))
    want = np.array(want)
    dx, dy = ax[1] - ax[0], ay[1] - ay[0]
    for w in want:
        e = np.min(np.hypot((got[:, 0] - w[0])/dx, (got[:, 1] - w[1])/dy))
        m.check(e < 1e-6, 'zones-centre', lambda: 'no centre at %s in %s' % (w, got))


@scenario('C10', 100, 3000)
def zones_of_any_values(m):
    """Any values in range, of either sign, on any grid, next to masked samples: one centre per connected zone."""
    rng = m.rng
    n0, n1 = int(rng.integers(4, 14)), int(rng.integers(4, 14))
    even = bool(rng.random() < .5)
    ax, ay = G.axis(rng, n0, uniform=even), G.axis(rng, n1, uniform=even)
    v = rng.choice([-1, 1], size=(n0, n1))*rng.uniform(5., 9., (n0, n1))
    inz = rng.random((n0, n1)) < rng.uniform(.05, .6)
    v[inz] = rng.uniform(-3, 3, int(inz.sum()))
    mask = rng.random((n0, n1)) < G.pick(rng, [0., .1, .3])
    if mask.all() or not np.any(~mask & inz):
        raise Skip()
    u = G.unit_lv(rng)
    f = ScalarField()
    f.import_from_arrays(ax, ay, v, mask=mask, unit_x=u[0], unit_y=u[1], unit_values=u[2])
    kind = G.pick(rng, ['center', 'ponderated', 'extremum'])
    bornes = G.pick(rng, [[-3., 3.], [-4., 3.5], [-3.5, 4.]])
    m.case(G.tdesc(f), 'any zones', kind, even, bornes)
    before = G.snap(f)
    p = f.get_zones_centers(bornes=bornes, rel=False, kind=kind)
    from scipy.ndimage import label
    lab, k = label(inz & ~mask)
    m.event('connected-zones', k)
    m.check(p is not None and len(p.xy) == k, 'zones-number', lambda: '%s for %d' % (p, k))
    m.check(G.diff(G.snap(f), before) is None, 'zones-search-changed-field')
    if p is None or len(p.xy) != k:
        return
    left = [list(q) for q in p.xy]
    low = abs(bornes[0]) >= abs(bornes[1])
    I, J = np.meshgrid(np.arange(n0), np.arange(n1), indexing='ij')
    for z in range(1, k + 1):
        b = lab == z
        w = np.abs(v[b]) if kind == 'ponderated' else np.ones(b.sum())
        i, j = np.sum(w*I[b])/w.sum(), np.sum(w*J[b])/w.sum()
        if kind == 'extremum':
            e = np.argmin(v[b]) if low else np.argmax(v[b])
            i, j = I[b][e], J[b][e]
        want = [np.interp(i, np.arange(n0), ax), np.interp(j, np.arange(n1), ay)]
        d = [np.hypot((q[0] - want[0])/np.diff(ax).min(), (q[1] - want[1])/np.diff(ay).min()) for q in left]
        if kind == 'extremum' and np.abs(bornes[0]) == np.abs(bornes[1]):
            # either extremum of a zone does
            e = np.argmax(v[b])
            o = [ax[I[b][e]], ay[J[b][e]]]
            d = np.minimum(d, [np.hypot((q[0] - o[0])/np.diff(ax).min(), (q[1] - o[1])/np.diff(ay).min()) for q in left])
        m.check(np.min(d) < 1e-6, 'zones-centre', lambda: 'no centre at %s in %s (%s)' % (want, p.xy, kind))
        left.pop(int(np.argmin(d)))


@scenario('C10', 60, 1500)
def nearest_extremum(m):
    """On a paraboloid the nearest extremum of any point is the top (or bottom)."""
    rng = m.rng
    n0, n1 = int(rng.integers(15, 22)), int(rng.integers(15, 22))
    d = float(10**rng.uniform(-1, 1))
    ax, ay = d*np.arange(n0), d*np.arange(n1)
    cx, cy = d*rng.uniform(.4, .6)*(n0 - 1), d*rng.uniform(.4, .6)*(n1 - 1)
    X, Y = np.meshgrid(ax, ay, indexing='ij')
    sgn = G.pick(rng, [1, -1])
    f = ScalarField()
    f.import_from_arrays(ax, ay, -sgn*((X - cx)**2 + (Y - cy)**2)/d**2, unit_x='m', unit_y='m', unit_values='Pa')
    pts = [[float(rng.uniform(2*d, ax[-3])), float(rng.uniform(2*d, ay[-3]))] for _ in range(2)]
    m.case('paraboloid', sgn, (cx, cy), pts)
    snap = G.snap(f)
    r = f.get_nearest_extrema(pts, extrema='max' if sgn > 0 else 'min')
    m.check(np.shape(r) == (2, 2), 'extremum-shape', lambda: str(r))
    for q in np.reshape(r, (-1, 2)):
        m.check(np.hypot(q[0] - cx, q[1] - cy) < 1.5*d, 'extremum-position', lambda: '%s want %s step %s' % (q, (cx, cy), d))
    m.check(G.diff(G.snap(f), snap) is None, 'extremum-search-changed-field')
