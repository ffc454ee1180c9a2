"""C08: value look-up and interpolation reproduce the sampled field."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random scalar and vector fields (uniform or not, up to 45 samples a side, masked, random units); queries at samples, on cell edges, inside '
        'cells, on and beyond the borders, as numbers, indices and quantities; line and interval profiles in both directions; '
        'every answer is compared with the samples around it or with the affine function they come from.')
ASSUMPTIONS = ['inside a cell only bounds and exactness on affine fields are claimed, along cell edges the linear interpolation',
               'a query in a cell with a masked corner is not claimed unless it falls on a sample']


def comps(f):
    return [f.values] if isinstance(f, ScalarField) else [f.comp_x, f.comp_y]


def num(v):
    return np.atleast_1d(np.asarray(v, dtype=float))


def outside(m, f):
    rng = m.rng
    x0, x1, y0, y1 = f.axe_x[0], f.axe_x[-1], f.axe_y[0], f.axe_y[-1]
    d = float(10**rng.uniform(-3, 1))
    for x, y in ((x0 - d, y0), (x1 + d, y0), (x0, y0 - d), (x1, y1 + d)):
        m.raises(lambda: f.get_value(float(x), float(y)), 'outside-read')
    n0, n1 = f.shape
    for i, j in ((n0, 0), (0, n1), (-1, 0), (0, -1)):
        m.raises(lambda: f.get_value(i, j, ind=True), 'outside-index-read')


@scenario('C08', 200, 6000)
def at_samples(m):
    rng = m.rng
    f = G.field(rng, lo=2)
    m.case(G.tdesc(f))
    snap = G.snap(f)
    for _ in range(12):
        i, j = int(rng.integers(f.shape[0])), int(rng.integers(f.shape[1]))
        want = [c[i, j] for c in comps(f)]
        m.close(num(f.get_value(i, j, ind=True)), want, 'sample-by-index', rtol=0)
        m.close(num(f.get_value(float(f.axe_x[i]), float(f.axe_y[j]))), want, 'sample-by-position', rtol=1e-12)
        q = f.get_value(i, j, ind=True, unit=True)
        if not f.mask[i, j] and isinstance(f, ScalarField):
            m.close(G.si(q)[0], want[0]*G.fac(f.unit_values), 'sample-with-unit')
            m.check(G.si(q)[1] == G.dim(f.unit_values), 'sample-with-unit-dimension')
    outside(m, f)
    m.check(G.diff(G.snap(f), snap) is None, 'query-changed-field')
    # iteration lists every unmasked sample once
    seen = set()
    for it in f:
        (i, j), (x, y), v = it[0], it[1], it[2]
        seen.add((int(i), int(j)))
        m.check(x == f.axe_x[i] and y == f.axe_y[j], 'iteration-position')
        vv = num(v)
        m.close(vv, [c[i, j] for c in comps(f)], 'iteration-value', rtol=0)
    want = set((int(i), int(j)) for i, j in zip(*np.where(~f.mask)))
    m.check(seen == want, 'iteration-count', lambda: '%s want %s' % (seen, want))


def splits(c, i, j, u, v):
    f00, f10, f01, f11 = c[i, j], c[i + 1, j], c[i, j + 1], c[i + 1, j + 1]
    if u >= v:
        a = f00 + u*(f10 - f00) + v*(f11 - f10)
        ca = [f00, f10, f11]
    else:
        a = f00 + v*(f01 - f00) + u*(f11 - f01)
        ca = [f00, f01, f11]
    if u + v <= 1:
        b = f00 + u*(f10 - f00) + v*(f01 - f00)
    else:
        b = f11 + (1 - u)*(f01 - f11) + (1 - v)*(f10 - f11)
    return a, b


@scenario('C08', 300, 9000)
def between_samples(m):
    """Linear along the edges of a cell; inside it, linear on one of the triangles of the
    cell (so between the two splits of the cell; bilinear also lies between them)."""
    rng = m.rng
    f = G.field(rng, lo=2)
    m.case(G.tdesc(f))
    for _ in range(15):
        i, j = int(rng.integers(f.shape[0] - 1)), int(rng.integers(f.shape[1] - 1))
        u, v = float(rng.uniform(.02, .98)), float(rng.uniform(.02, .98))
        x0, x1, y0, y1 = f.axe_x[i], f.axe_x[i + 1], f.axe_y[j], f.axe_y[j + 1]
        x, y = float(x0 + u*(x1 - x0)), float(y0 + v*(y1 - y0))
        kind = rng.random()
        if rng.random() < .3 and isinstance(f, ScalarField):
            px, py = G.pick(rng, [(x, float(y0)), (float(x0), y), (x, y), (float(x0), float(y0))])
            q, w = f.get_value(px, py, unit=True), f.get_value(px, py)
            if not np.isnan(w):
                m.check(G.si(q)[1] == G.dim(f.unit_values), 'value-with-unit-dimension', lambda: '%s at %s' % (q, (px, py)))
                m.close(G.si(q)[0], w*G.fac(f.unit_values), 'value-with-unit')
                m.event('with-unit')
        if kind < .25:
            got = num(f.get_value(x, float(y0)))
            m.close(got, [c[i, j]*(1 - u) + c[i + 1, j]*u for c in comps(f)], 'between-on-x-edge', rtol=1e-6, atol=1e-7)
            m.event('x-edge')
        elif kind < .5:
            got = num(f.get_value(float(x0), y))
            m.close(got, [c[i, j]*(1 - v) + c[i, j + 1]*v for c in comps(f)], 'between-on-y-edge', rtol=1e-6, atol=1e-7)
            m.event('y-edge')
        else:
            if abs(u - v) < .02 or abs(u + v - 1) < .02:
                continue
            got = num(f.get_value(x, y))
            nm = int(np.sum(f.mask[i:i + 2, j:j + 2]))
            m.event('inside-cell')
            m.event('masked-corners:%d' % nm)
            for g, c in zip(got, comps(f)):
                a, b = splits(c, i, j, u, v)
                if nm == 0:
                    s = np.max(np.abs(c[i:i + 2, j:j + 2]))*1e-6
                    m.check(min(a, b) - s <= g <= max(a, b) + s, 'between-in-cell', lambda: '%s not in %s %s' % (g, a, b))
                elif np.isnan(g):
                    m.check(True, 'between-next-to-masked')
                else:
                    m.check(any(np.isclose(g, w, rtol=1e-5, atol=1e-9) for w in (a, b)), 'between-next-to-masked',
                            lambda: 'got %s want nan or %s %s' % (g, a, b))


def affine(rng, f):
    """Set the values of a field to an affine function of the position."""
    fs = []
    X, Y = np.meshgrid(f.axe_x, f.axe_y, indexing='ij')
    sx, sy = np.ptp(f.axe_x), np.ptp(f.axe_y)
    out = []
    for _ in comps(f):
        a, b, c = rng.normal(), rng.normal()/sx, rng.normal()/sy
        fs.append(lambda x, y, a=a, b=b, c=c: a + b*(x - f.axe_x[0]) + c*(y - f.axe_y[0]))
        out.append(fs[-1](X, Y))
    g = ScalarField() if len(out) == 1 else VectorField()
    g.import_from_arrays(f.axe_x, f.axe_y, *out, mask=f.mask, unit_x=f.unit_x, unit_y=f.unit_y,
                         unit_values=f.unit_values)
    return g, fs


@scenario('C08', 200, 6000)
def affine_fields(m):
    rng = m.rng
    f, fs = affine(rng, G.field(rng, lo=2))
    m.case('affine', G.tdesc(f))
    for _ in range(12):
        x = float(rng.uniform(f.axe_x[0], f.axe_x[-1]))
        y = float(rng.uniform(f.axe_y[0], f.axe_y[-1]))
        got = num(f.get_value(x, y))
        i = int(np.searchsorted(f.axe_x, x)) - 1
        j = int(np.searchsorted(f.axe_y, y)) - 1
        want = np.array([h(x, y) for h in fs])
        if np.any(np.isnan(got)):
            m.check(np.any(f.mask[i:i + 2, j:j + 2]) and np.all(np.isnan(got)), 'affine-lost',
                    lambda: 'nan at %s' % ((x, y),))
        else:
            m.close(got, want, 'affine-value', rtol=1e-5, atol=1e-6)
    if not np.any(f.mask) and isinstance(f, ScalarField):
        it = f.get_interpolator()
        for _ in range(5):
            x = float(rng.uniform(f.axe_x[0], f.axe_x[-1]))
            y = float(rng.uniform(f.axe_y[0], f.axe_y[-1]))
            m.close(num(it(x, y)), [fs[0](x, y)], 'interpolator', rtol=1e-5, atol=1e-6)
    if not np.any(f.mask):
        g = f.copy()
        res = G.pick(rng, [1, 2, 3])
        if min(np.ptp(f.axe_x)/np.min(np.diff(f.axe_x))*res, np.ptp(f.axe_y)/np.min(np.diff(f.axe_y))*res) >= 3:
            g.make_evenly_spaced(res=res)
            for a, b in ((g.axe_x, f.axe_x), (g.axe_y, f.axe_y)):
                m.check(np.isclose(a[0], b[0]) and np.isclose(a[-1], b[-1]), 'even-spacing-range')
                m.close(np.diff(a), np.full(len(a) - 1, a[1] - a[0]), 'even-spacing-step', rtol=1e-6)
            X, Y = np.meshgrid(g.axe_x, g.axe_y, indexing='ij')
            for c, h in zip(comps(g), fs):
                m.close(c, h(X, Y), 'even-spacing-values', rtol=1e-5, atol=1e-6)
            m.check(G.si(g.unit_x) == G.si(f.unit_x) and G.si(g.unit_y) == G.si(f.unit_y) and
                    G.si(g.unit_values) == G.si(f.unit_values), 'even-spacing-units')


@scenario('C08', 60, 3000)
def polynomial_resampling(m):
    """Resampling reproduces, with each kind of interpolation, the polynomials
    that this kind represents exactly, for every component."""
    rng = m.rng
    kind = G.pick(rng, ['linear', 'cubic', 'cubic', 'quintic'])
    deg = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
    f = G.field(rng, lo=deg + 2, hi=11, maskkind='none')
    res = G.pick(rng, [1, 1.5, 2])
    x0, y0, lx, ly = f.axe_x[0], f.axe_y[0], np.ptp(f.axe_x), np.ptp(f.axe_y)
    fs = []
    for _ in comps(f):
        c = rng.normal(size=(deg + 1, deg + 1))
        fs.append(lambda x, y, c=c: np.polynomial.polynomial.polyval2d((x - x0)/lx, (y - y0)/ly, c))
    X, Y = np.meshgrid(f.axe_x, f.axe_y, indexing='ij')
    g = type(f)()
    g.import_from_arrays(f.axe_x, f.axe_y, *[h(X, Y) for h in fs], unit_x=f.unit_x, unit_y=f.unit_y,
                         unit_values=f.unit_values)
    m.case(G.tdesc(g), kind, res)
    if min(lx/np.min(np.diff(f.axe_x))*res, ly/np.min(np.diff(f.axe_y))*res) < 3:
        raise Skip()
    if max(lx/np.min(np.diff(f.axe_x))*res, ly/np.min(np.diff(f.axe_y))*res) > 60:
        raise Skip()
    if isinstance(g, ScalarField):
        it = g.get_interpolator(interp=kind)
        for _ in range(5):
            x = float(rng.uniform(g.axe_x[0], g.axe_x[-1]))
            y = float(rng.uniform(g.axe_y[0], g.axe_y[-1]))
            m.close(num(it(x, y)), [fs[0](x, y)], 'polynomial-interpolator', rtol=1e-5, atol=1e-5)
    if kind == 'linear':
        # between the samples the bilinear cell is the answer
        fs = [lambda x, y, c=c: bilinear(g.axe_x, g.axe_y, c, x, y) for c in comps(g.copy())]
    h = g.copy()
    h.make_evenly_spaced(interp=kind, res=res)
    X, Y = np.meshgrid(h.axe_x, h.axe_y, indexing='ij')
    m.event('resampled-' + kind)
    for c, w in zip(comps(h), fs):
        want = w(X, Y)
        m.close(c, want, 'polynomial-even-spacing', rtol=1e-5, atol=1e-5)


def bilinear(ax, ay, v, x, y):
    i = np.clip(np.searchsorted(ax, x, side='right') - 1, 0, len(ax) - 2)
    j = np.clip(np.searchsorted(ay, y, side='right') - 1, 0, len(ay) - 2)
    s, t = (x - ax[i])/(ax[i + 1] - ax[i]), (y - ay[j])/(ay[j + 1] - ay[j])
    return (v[i, j]*(1 - s)*(1 - t) + v[i + 1, j]*s*(1 - t) + v[i, j + 1]*(1 - s)*t + v[i + 1, j + 1]*s*t)


@scenario('C08', 200, 6000)
def index_lookup(m):
    rng = m.rng
    f = G.field(rng, lo=2, hi=14)
    m.case(G.tdesc(f))
    for _ in range(20):
        d = int(rng.integers(1, 3))
        ax = f.axe_x if d == 1 else f.axe_y
        if rng.random() < .3:
            k = int(rng.integers(len(ax)))
            v = float(ax[k])
            m.check(list(f.get_indice_on_axe(d, v)) == [k, k], 'bounds-on-sample')
            m.check(f.get_indice_on_axe(d, v, kind='nearest') == k, 'nearest-on-sample')
            m.check(np.isclose(f.get_indice_on_axe(d, v, kind='decimal'), k), 'decimal-on-sample')
            continue
        v = float(rng.uniform(ax[0], ax[-1]))
        b = f.get_indice_on_axe(d, v)
        m.check(b[1] == b[0] + 1 and ax[b[0]] < v < ax[b[1]], 'bounds', lambda: '%s %s in %s' % (b, v, ax))
        n = f.get_indice_on_axe(d, v, kind='nearest')
        m.check(np.isclose(abs(ax[n] - v), np.min(np.abs(ax - v)), rtol=1e-9), 'nearest', lambda: '%s %s in %s' % (n, v, ax))
        w = f.get_indice_on_axe(d, v, kind='decimal')
        m.close(w, np.interp(v, ax, np.arange(len(ax))), 'decimal', rtol=1e-7)
    for d, ax in ((1, f.axe_x), (2, f.axe_y)):
        for v in (ax[0] - 1e-3*np.ptp(ax), ax[-1] + 1e-3*np.ptp(ax)):
            m.raises(lambda: f.get_indice_on_axe(d, float(v)), 'index-outside')


@scenario('C08', 120, 3000)
def points_around(m):
    rng = m.rng
    n0, n1 = int(rng.integers(9, 14)), int(rng.integers(9, 14))
    d = float(10**rng.uniform(-1, 1))
    f = G.sf(rng, axes=(d*np.arange(n0) + rng.normal(), d*np.arange(n1) + rng.normal()))
    r = float(rng.uniform(.6, 3.6))
    c = np.array([rng.uniform(r + .1, n0 - 1 - r - .1), rng.uniform(r + .1, n1 - 1 - r - .1)])
    if rng.random() < .4:
        c = np.round(c)
        c = np.clip(c, np.ceil(r), [n0 - 1 - np.ceil(r), n1 - 1 - np.ceil(r)])
    I, J = np.meshgrid(np.arange(n0), np.arange(n1), indexing='ij')
    dist = np.hypot(I - c[0], J - c[1])
    if np.any(np.abs(dist - r) < 1e-6):
        raise Skip()
    want = set(zip(*[a.tolist() for a in np.where(dist <= r)]))
    m.case(G.tdesc(f), 'around', c, r)
    got = [tuple(int(v) for v in e) for e in f.get_points_around(c, r, ind=True)]
    m.check(len(got) == len(set(got)) and set(got) == want, 'points-around-index', lambda: '%s want %s' % (sorted(got), sorted(want)))
    c2 = np.array([f.axe_x[0] + d*c[0], f.axe_y[0] + d*c[1]])
    got = [tuple(int(v) for v in e) for e in f.get_points_around(c2, r*d)]
    m.check(len(got) == len(set(got)) and set(got) == want, 'points-around', lambda: '%s want %s' % (sorted(got), sorted(want)))


def getp(f, k, *a, **kw):
    if isinstance(f, ScalarField):
        return f.get_profile(*a, **kw)
    return f.get_profile(['vx', 'vy'][k], *a, **kw)


def chk_prof(m, p, ax, y, mask, ux, uy, sig, rtol=1e-6):
    m.close(p.x, ax, sig + '-x', rtol=1e-12)
    y = np.where(mask, np.nan, y)
    m.close(np.where(p.mask, np.nan, np.array(p.y, dtype=float)), y, sig + '-y', rtol=rtol, atol=1e-7)
    m.check(np.array_equal(np.asarray(p.mask, dtype=bool), mask), sig + '-mask', lambda: '%s want %s' % (p.mask, mask))
    m.check(G.si(p.unit_x) == G.si(ux) and G.si(p.unit_y) == G.si(uy), sig + '-units', lambda: '%s %s want %s %s' % (p.unit_x, p.unit_y, ux, uy))


@scenario('C08', 400, 12000)
def profiles(m):
    rng = m.rng
    f = G.field(rng, lo=2)
    d = G.pick(rng, 'xy')
    ax = f.axe_x if d == 'x' else f.axe_y
    oax = f.axe_y if d == 'x' else f.axe_x
    ux = f.unit_y if d == 'x' else f.unit_x
    uy = f.unit_values
    k = 0 if isinstance(f, ScalarField) else int(rng.integers(2))
    c = comps(f)[k]
    mk = f.mask
    if d == 'y':
        c, mk = c.T, mk.T
    n = len(ax)
    i = int(rng.integers(n))
    m.case(G.tdesc(f), d, i)
    # by index and at the position of a grid line, both interpolations
    for interp in ('linear', 'nearest'):
        for p in (getp(f, k, d, i, ind=True, interp=interp), getp(f, k, d, float(ax[i]), interp=interp)):
            chk_prof(m, p, oax, c[i], mk[i], ux, uy, 'profile-on-line-' + interp)
    # between lines
    i = int(rng.integers(n - 1))
    u = float(rng.uniform(.02, .98))
    pos = float(ax[i] + u*(ax[i + 1] - ax[i]))
    p = getp(f, k, d, pos)
    chk_prof(m, p, oax, c[i]*(1 - u) + c[i + 1]*u, mk[i] | mk[i + 1], ux, uy, 'profile-between-lines')
    if abs(u - .5) > .01:
        p = getp(f, k, d, pos, interp='nearest')
        j = i if u < .5 else i + 1
        chk_prof(m, p, oax, c[j], mk[j], ux, uy, 'profile-nearest-line')
    # over an interval
    a = int(rng.integers(n))
    b = int(rng.integers(a, n))
    wm = np.any(mk[a:b + 1], axis=0)
    wy = np.mean(c[a:b + 1], axis=0)
    p = getp(f, k, d, [a, b], ind=True)
    chk_prof(m, p, oax, wy, wm, ux, uy, 'profile-interval-index')
    lo = ax[a] if rng.random() < .5 else (ax[a] - .4*(ax[a] - ax[a - 1]) if a > 0 else ax[0] - 1.)
    hi = ax[b] if rng.random() < .5 else (ax[b] + .4*(ax[b + 1] - ax[b]) if b < n - 1 else ax[-1] + 1.)
    p = getp(f, k, d, [lo, hi])
    chk_prof(m, p, oax, wy, wm, ux, uy, 'profile-interval')
    p = getp(f, k, d, 'all')
    chk_prof(m, p, oax, np.mean(c, axis=0), np.any(mk, axis=0), ux, uy, 'profile-all')
    # outside
    m.raises(lambda: getp(f, k, d, float(ax[-1] + 1)), 'profile-outside')
    m.raises(lambda: getp(f, k, d, float(ax[0] - 1)), 'profile-outside')
    m.raises(lambda: getp(f, k, d, n, ind=True), 'profile-outside-index')
    m.raises(lambda: getp(f, k, d, -1, ind=True), 'profile-outside-index')


@scenario('C08', 150, 4000)
def scatter_and_parts(m):
    rng = m.rng
    f = G.sf(rng, lo=2)
    extra = rng.random(f.shape) < .2 if rng.random() < .5 else None
    allm = f.mask if extra is None else (f.mask | extra)
    if allm.all():
        raise Skip()
    m.case(G.tdesc(f), 'scatter', extra is not None)
    p = f.export_to_scatter() if extra is None else f.export_to_scatter(mask=extra)
    I, J = np.where(~allm)
    want = sorted(zip(f.axe_x[I], f.axe_y[J], f.values[I, J]))
    got = sorted((x, y, v) for (x, y), v in zip(p.xy, p.v))
    m.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-12), 'scatter', lambda: '%s want %s' % (got[:4], want[:4]))
    m.check(G.si(p.unit_x) == G.si(f.unit_x) and G.si(p.unit_y) == G.si(f.unit_y) and
            G.si(p.unit_v) == G.si(f.unit_values), 'scatter-units')
    v = G.vf(rng, lo=2)
    for g, c in ((v.comp_x_as_sf, v.comp_x), (v.comp_y_as_sf, v.comp_y), (v.magnitude_as_sf, np.hypot(v.comp_x, v.comp_y))):
        m.close(g.values, c, 'component-field')
        m.check(np.array_equal(g.mask, v.mask), 'component-field-mask')
        m.close(g.axe_x, v.axe_x, 'component-field-axis')
        m.close(g.axe_y, v.axe_y, 'component-field-axis')
        m.check(G.si(g.unit_x) == G.si(v.unit_x) and G.si(g.unit_y) == G.si(v.unit_y) and
                G.si(g.unit_values) == G.si(v.unit_values), 'component-field-units')
    for g in (f, v):
        k = g.mask_as_sf
        m.check(np.array_equal(np.asarray(k.values, dtype=bool), g.mask), 'mask-field')
        m.close(k.axe_x, g.axe_x, 'mask-field-axes')
        m.close(k.axe_y, g.axe_y, 'mask-field-axes')
        m.check(G.si(k.unit_x) == G.si(g.unit_x) and G.si(k.unit_y) == G.si(g.unit_y), 'mask-field-axes-units')
