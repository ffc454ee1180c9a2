"""C26: collections of spatially adjacent fields."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField, SpatialScalarFields, SpatialVectorFields
from vh.core import scenario, Skip
from vh import gen as G
from props.c07 import turn

RULE = ('Collections of one to four scalar or vector fields, apart, touching or overlapping, with masks and each in its own units; '
        'queries inside, on edges and corners, in overlaps and outside; members compared with the fields added, queries with the '
        'affine function they sample and with the answers of the members.')
ASSUMPTIONS = ['a field is stored without its fully masked border rows and columns',
               'where several members cover a position their mean is returned',
               'a position where a covering member is masked is not claimed']


def members(rng, kind=None, affine=None):
    """(kind, list of fields, function in SI or None)."""
    kind = kind or G.pick(rng, ['s', 'v'])
    n = int(rng.integers(1, 5))
    fam = G.pick(rng, [G.LEN, G.VEL])
    affine = rng.random() < .6 if affine is None else affine
    c = rng.normal(size=(2, 3))
    S = 10**rng.uniform(-2, 2)          # physical size
    out = []
    lay = G.pick(rng, ['row', 'column', 'overlap', 'apart'])
    px = py = 0.
    for k in range(n):
        nx, ny = G.shape(rng, 3, 7)
        x = np.concatenate([[0.], np.cumsum(rng.uniform(.5, 1.5, nx - 1))])
        y = np.concatenate([[0.], np.cumsum(rng.uniform(.5, 1.5, ny - 1))])
        x, y = x + px, y + py
        if lay == 'row':
            px = x[-1]
        elif lay == 'column':
            py = y[-1]
        elif lay == 'overlap':
            px, py = x[-1] - rng.uniform(.2, 2.), y[0] + rng.uniform(-1, 1)
        else:
            px, py = x[-1] + 1., y[0] + rng.uniform(-5, 5)
        X, Y = np.meshgrid(x, y, indexing='ij')
        V = [(q[0] + q[1]*X + q[2]*Y) if affine else rng.normal(size=X.shape) for q in c]
        mask = np.zeros(X.shape, dtype=bool)
        r = rng.random()
        if r < .15:
            mask[0] = True
            if nx > 4 and rng.random() < .5:
                mask[1] = True
        elif r < .3:
            mask[:, -1] = True
        elif r < .4:
            mask[1:-1, 1:-1] = rng.random((nx - 2, ny - 2)) < .3
        ux, uy, uv = G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, fam)
        ux, uy, uv = G.make_unit(ux), G.make_unit(uy), G.make_unit(uv)
        f = ScalarField() if kind == 's' else VectorField()
        a = [S*x/G.fac(ux), S*y/G.fac(uy)]
        w = [v/G.fac(uv) for v in V]
        f.import_from_arrays(*(a + (w[:1] if kind == 's' else w)), mask=mask, unit_x=ux, unit_y=uy, unit_values=uv)
        out.append(f)
    fn = None
    if affine:
        fn = lambda X, Y: np.array([q[0] + q[1]*X/S + q[2]*Y/S for q in (c[:1] if kind == 's' else c)])
    return kind, out, fn, S


def comps(f):
    return [f.values] if isinstance(f, ScalarField) else [f.comp_x, f.comp_y]


def collect(kind, fs):
    c = SpatialScalarFields() if kind == 's' else SpatialVectorFields()
    for f in fs:
        c.add_field(f)
    return c


def cropped(f):
    k = np.asarray(f.mask)
    i = np.where(~k.all(axis=1))[0]
    j = np.where(~k.all(axis=0))[0]
    i, j = slice(i[0], i[-1] + 1), slice(j[0], j[-1] + 1)
    return f.axe_x[i], f.axe_y[j], [c[i, j] for c in comps(f)], k[i, j]


def snapc(c):
    return [G.snap(f) for f in c.fields] + [G.snap(c.unit_x), G.snap(c.unit_y), G.snap(c.unit_values)]


def samec(a, b):
    return len(a) == len(b) and not any(G.diff(p, q) for p, q in zip(a, b))


def cover(c, x, y):
    return [f for f in c.fields if f.axe_x[0] <= x <= f.axe_x[-1] and f.axe_y[0] <= y <= f.axe_y[-1]]


def one(f, x, y):
    return np.atleast_1d(np.array(f.get_value(x, y), dtype=float)).ravel()


def place(rng, c):
    """A position: inside, on a sample, on an edge, at a corner, outside."""
    f = c.fields[int(rng.integers(len(c.fields)))]
    def coord(ax):
        r = rng.random()
        if r < .5:
            return float(rng.uniform(ax[0], ax[-1]))
        if r < .7:
            return float(rng.choice(ax))
        if r < .9:
            return float(ax[0] if rng.random() < .5 else ax[-1])
        return float(rng.uniform(ax[0] - 2*(ax[-1] - ax[0]), ax[-1] + 2*(ax[-1] - ax[0])))
    return coord(f.axe_x), coord(f.axe_y)


@scenario('C26', 150)
def adding(m):
    rng = m.rng
    kind, fs, fn, S = members(rng)
    c = SpatialScalarFields() if kind == 's' else SpatialVectorFields()
    m.case(kind, len(fs))
    for i, f in enumerate(fs):
        b = G.snap(f)
        c.add_field(f)
        m.event('added')
        m.check(not G.diff(b, G.snap(f)), 'added-field-changed')
    m.check(len(c) == len(fs), 'number-of-members')
    u = fs[0]
    for got, f in zip(c.fields, fs):
        m.check(all(p.strUnit() == q.strUnit() for p, q in ((got.unit_x, u.unit_x), (got.unit_y, u.unit_y), (got.unit_values, u.unit_values))),
                'units-of-the-members')
        x, y, vs, k = cropped(f)
        m.close(got.axe_x*G.fac(got.unit_x), x*G.fac(f.unit_x), 'axes-of-the-member', rtol=1e-9)
        m.close(got.axe_y*G.fac(got.unit_y), y*G.fac(f.unit_y), 'axes-of-the-member', rtol=1e-9)
        m.check(np.array_equal(got.mask, k), 'mask-of-the-member')
        for a, b in zip(comps(got), vs):
            m.close(a*G.fac(got.unit_values), b*G.fac(f.unit_values), 'values-of-the-member', rtol=1e-9)
    m.close([c.x_min, c.x_max, c.y_min, c.y_max], [min(f.axe_x[0] for f in c.fields), max(f.axe_x[-1] for f in c.fields),
                                                   min(f.axe_y[0] for f in c.fields), max(f.axe_y[-1] for f in c.fields)], 'extent')
    # the members do not share data with the fields given
    b = snapc(c)
    for f in fs:
        for q in comps(f):
            q[...] = 7.
        f.axe_x = f.axe_x + 1.
    m.check(samec(b, snapc(c)), 'member-follows-the-added-field')
    # refused
    w = VectorField() if kind == 's' else ScalarField()
    z = np.ones((2, 2))
    w.import_from_arrays([0., 1.], [0., 1.], *([z]*(2 if kind == 's' else 1)))
    m.raises(lambda: c.add_field(w), 'other-kind')
    g = ScalarField() if kind == 's' else VectorField()
    bad = [u.unit_x, u.unit_y, u.unit_values]
    bad[int(rng.integers(3))] = 'kg'
    g.import_from_arrays([0., 1.], [0., 1.], *([z]*(1 if kind == 's' else 2)), unit_x=bad[0], unit_y=bad[1], unit_values=bad[2])
    gb = G.snap(g)
    m.raises(lambda: c.add_field(g), 'other-dimension')
    m.check(samec(b, snapc(c)), 'refused-field-changed-the-collection')
    m.check(not G.diff(gb, G.snap(g)), 'refused-field-changed')


@scenario('C26', 200)
def queries(m):
    rng = m.rng
    kind, fs, fn, S = members(rng)
    c = collect(kind, fs)
    b = snapc(c)
    fx, fy, fv = G.fac(c.unit_x), G.fac(c.unit_y), G.fac(c.unit_values)
    for _ in range(8):
        x, y = place(rng, c)
        cov = cover(c, x, y)
        m.case(kind, len(cov), x, y)
        m.event('query:%d' % min(len(cov), 3))
        if not cov:
            m.raises(lambda: c.get_value(x, y), 'value-outside')
            m.check(c.get_value(x, y, error=False) is None, 'value-outside')
            continue
        ref = [one(f, x, y) for f in cov]
        if not np.all(np.isfinite(ref)):
            if len(cov) == 1:
                m.check(not np.all(np.isfinite(np.array(c.get_value(x, y), dtype=float))), 'value-where-masked')
            continue
        got = np.array(c.get_value(x, y), dtype=float).ravel()
        m.close(got, np.mean(ref, axis=0), 'value-of-the-covering-fields', rtol=1e-9)
        if fn is not None and not any(f.mask.any() for f in cov):
            m.close(got*fv, fn(x*fx, y*fy), 'value-of-the-sampled-function', rtol=1e-6, atol=1e-6)
        q = c.get_value(x, y, unit=True)
        q = np.array([G.si(e)[0] for e in np.atleast_1d(np.array(q, dtype=object)).ravel()], dtype=float)
        m.close(q, got*fv, 'value-with-its-unit', rtol=1e-9)
    # on a grid
    nx, ny = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    ax = np.linspace(c.x_min - .3*(c.x_max - c.x_min), c.x_max + .1*(c.x_max - c.x_min), nx)
    ay = np.linspace(c.y_min, c.y_max, ny)
    if rng.random() < .3:
        ax, ay = list(ax), list(ay)
    g = c.get_values_on_grid(ax, ay)
    m.event('grid')
    m.check(type(g) is (ScalarField if kind == 's' else VectorField), 'kind-of-the-grid')
    m.close(g.axe_x, ax, 'axes-of-the-grid')
    m.close(g.axe_y, ay, 'axes-of-the-grid')
    m.check(all(p.strUnit() == q.strUnit() for p, q in ((g.unit_x, c.unit_x), (g.unit_y, c.unit_y), (g.unit_values, c.unit_values))), 'units-of-the-grid')
    for i in range(nx):
        for j in range(ny):
            cov = cover(c, ax[i], ay[j])
            if not cov:
                m.check(bool(g.mask[i, j]), 'grid-outside-the-fields')
                continue
            ref = [one(f, ax[i], ay[j]) for f in cov]
            if np.all(np.isfinite(ref)):
                m.check(not g.mask[i, j], 'grid-inside-the-fields')
                m.close([q[i, j] for q in comps(g)], np.mean(ref, axis=0), 'values-on-the-grid', rtol=1e-9)
    m.check(samec(b, snapc(c)), 'query-changed-the-collection')


@scenario('C26', 150)
def profiles(m):
    rng = m.rng
    kind, fs, fn, S = members(rng)
    c = collect(kind, fs)
    b = snapc(c)
    d = int(rng.integers(1, 3))
    f = c.fields[int(rng.integers(len(c.fields)))]
    ax = f.axe_x if d == 1 else f.axe_y
    pos = float(rng.uniform(ax[0], ax[-1])) if rng.random() < .7 else float(rng.choice(ax))
    comp = None if rng.random() < .4 else G.pick(rng, ['values'] if kind == 's' else ['Vx', 'Vy', 'magnitude'])
    p = c.get_profile(d, pos, component=comp)
    get = {None: (lambda f: f if kind == 's' else f.magnitude_as_sf), 'values': lambda f: f, 'Vx': lambda f: f.comp_x_as_sf,
           'Vy': lambda f: f.comp_y_as_sf, 'magnitude': lambda f: f.magnitude_as_sf}[comp]
    rows = []
    for f in c.fields:
        a, o = (f.axe_x, f.axe_y) if d == 1 else (f.axe_y, f.axe_x)
        if not a[0] <= pos <= a[-1]:
            continue
        s = get(f)
        for q in o:
            v = s.get_value(*((pos, q) if d == 1 else (q, pos)))
            rows.append((q, float(v)))
    m.case(kind, d, comp, len(rows))
    m.event('profile:%s:%s' % (d, comp))
    rows.sort(key=lambda r: (r[0], np.isnan(r[1]), r[1]))
    got = sorted(zip(p.x, np.where(p.mask, np.nan, p.y)), key=lambda r: (r[0], np.isnan(r[1]), r[1]))
    if m.check(len(got) == len(rows), 'number-of-samples', '%s %s' % (len(got), len(rows))):
        m.close(np.array(got), np.array(rows), 'profile-samples', rtol=1e-9)
    m.check(np.all(np.diff(p.x) >= 0), 'profile-not-sorted')
    m.check(p.unit_x.strUnit() == (c.unit_y if d == 1 else c.unit_x).strUnit() and p.unit_y.strUnit() == c.unit_values.strUnit(), 'units-of-the-profile')
    far = float((c.x_max if d == 1 else c.y_max) + 10*S/G.fac(c.unit_x if d == 1 else c.unit_y))
    m.check(c.get_profile(d, far, component=comp) is None, 'profile-outside')
    # interval covering everything
    lo, hi = ((c.x_min, c.x_max) if d == 1 else (c.y_min, c.y_max))
    if fn is not None and comp != 'magnitude' and not (comp is None and kind == 'v') and not any(f.mask.any() for f in c.fields):
        q = c.get_profile(d, [lo, hi], component=comp)
        k = {'Vy': 1}.get(comp, 0)
        want = []
        for f in c.fields:
            a, o = (f.axe_x, f.axe_y) if d == 1 else (f.axe_y, f.axe_x)
            v = comps(f)[k]
            want += list(zip(o, np.mean(v, axis=0 if d == 1 else 1)))
        m.event('interval')
        m.close(np.array(sorted(zip(q.x, q.y))), np.array(sorted(want)), 'interval-profile', rtol=1e-7)
    m.check(samec(b, snapc(c)), 'query-changed-the-collection')


@scenario('C26', 200)
def operations(m):
    rng = m.rng
    kind, fs, fn, S = members(rng)
    c = collect(kind, fs)
    b = snapc(c)
    old = [f.copy() for f in c.fields]
    ou = c.unit_x, c.unit_y, c.unit_values
    op = G.pick(rng, ['neg', 'mul', 'rmul', 'div', 'pow', 'mulq', 'divq', 'scale', 'scaleq', 'rotate', 'origin', 'remove', 'copy', 'unit', 'smooth', 'iter'])
    m.case(kind, op, len(fs))
    m.event('operation:' + op)
    k = float(rng.uniform(.5, 3)*rng.choice([-1, 1]))
    q = G.make_unit(G.pick(rng, G.TIM))*k
    ref = None
    new = True
    if op == 'neg':
        r, ref = -c, [-f for f in old]
    elif op == 'mul':
        r, ref = c*k, [f*k for f in old]
    elif op == 'rmul':
        r, ref = k*c, [f*k for f in old]
    elif op == 'div':
        r, ref = c/k, [f/k for f in old]
    elif op == 'mulq':
        r, ref = c*q, [f*q for f in old]
    elif op == 'divq':
        r, ref = c/q, [f/q for f in old]
    elif op == 'pow':
        n = int(rng.integers(1, 4))
        r, ref = c**n, [f**n for f in old]
    elif op in ('scale', 'scaleq'):
        kw = {a: (abs(k) if op == 'scale' else q*np.sign(k)) for a in ('scalex', 'scaley', 'scalev') if rng.random() < .5}
        ref = [f.scale(**kw) for f in old]
        if rng.random() < .5:
            r = c.scale(**kw)
        else:
            r = c.copy()
            r.scale(inplace=True, **kw)
    elif op == 'rotate':
        a = int(rng.choice([-270, -180, -90, 0, 90, 180, 270]))
        ref = []
        for f in old:
            x, y, cs, mk, us = turn(f, a//90)
            g = ScalarField() if kind == 's' else VectorField()
            g.import_from_arrays(x, y, *cs, mask=mk, unit_x=us[0], unit_y=us[1], unit_values=f.unit_values)
            ref.append(g)
        if rng.random() < .5:
            r = c.rotate(a)
        else:
            r = c.copy()
            r.rotate(a, inplace=True)
    elif op == 'origin':
        x, y = (float(rng.normal()) if rng.random() < .7 else None for _ in range(2))
        r = c.copy()
        r.set_origin(x, y)
        ref = []
        for f in old:
            f = f.copy()
            f.axe_x, f.axe_y = f.axe_x - (x or 0), f.axe_y - (y or 0)
            ref.append(f)
    elif op == 'remove':
        i = int(rng.integers(len(fs)))
        r = c.copy()
        r.remove_field(i)
        ref = [f for j, f in enumerate(old) if j != i]
    elif op == 'copy':
        r, ref = c.copy(), old
    elif op == 'unit':
        r = c.copy()
        r.unit_x, r.unit_values = G.make_unit('km'), G.make_unit('kg')
        ref = []
        for f in old:
            f = f.copy()
            f.unit_x, f.unit_values = G.make_unit('km'), G.make_unit('kg')
            ref.append(f)
    elif op == 'smooth':
        if any(f.mask.any() for f in old):
            raise Skip
        ref = [f.smooth(tos='uniform', size=3) for f in old]
        r = c.smooth(tos='uniform', size=3)
    else:
        r, ref = list(c), old
        m.check(all(not G.diff(G.snap(c[j]), G.snap(f)) for j, f in enumerate(old)), 'indexing')
        m.check(len(c.mask) == len(old) and all(np.array_equal(p, f.mask) for p, f in zip(c.mask, old)), 'masks')
        m.check(all(np.array_equal(p.values.astype(bool), f.mask) for p, f in zip(c.mask_as_sf, old)), 'masks')
    rf = r if op == 'iter' else r.fields
    if m.check(len(rf) == len(ref), 'number-of-members#' + op):
        for p, f in zip(rf, ref):
            d = G.diff(G.snap(p), G.snap(f), exact=False)
            m.check(not d, 'member-of-the-result#' + op, d)
    if op != 'iter' and len(rf):
        m.check(type(r) is type(c), 'kind-of-the-result')
        u = ref[0]
        for p, w in ((r.unit_x, u.unit_x), (r.unit_y, u.unit_y), (r.unit_values, u.unit_values)):
            m.check(p.strUnit() == w.strUnit(), 'units-of-the-result#' + op, '%s %s' % (p, w))
    m.check(samec(b, snapc(c)), 'collection-changed-by#' + op)
    # independence
    if op not in ('iter', 'remove'):
        for p in r.fields:
            for w in comps(p):
                w[...] = 5.
        m.check(samec(b, snapc(c)), 'result-shares-its-data#' + op)
    m.raises(lambda: c*'a', 'multiplied-by-text')
    m.raises(lambda: c/[1, 2], 'divided-by-a-list')
