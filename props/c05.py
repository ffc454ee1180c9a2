"""C05: field arithmetic is pointwise, mask-propagating and unit-correct."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField
from vh.core import scenario
from vh import gen as G

RULE = ('Random pairs (field, operand) over +,-,*,/,**,neg,abs with operand a number, an array, a '
        'quantity with unit, or a field on the same, an overlapping or a foreign grid; random units and masks.')
ASSUMPTIONS = ['a bare number is understood in the unit of the field (documented behaviour)',
               'reference: numpy on SI-valued arrays, with an independent unit table']


def phys(f):
    k = G.fac(f.unit_values)
    if isinstance(f, ScalarField):
        return [np.array(f.values, dtype=float)*k]
    return [np.array(f.comp_x, dtype=float)*k, np.array(f.comp_y, dtype=float)*k]


def expect(m, res, like, want, mask, dims, sig):
    """res is a field with the grid of `like`, physical values `want`."""
    ok = m.check(type(res) is type(like), sig + '-type', lambda: repr(type(res)))
    if not ok:
        return
    G.chk_field(m, res, sig)
    m.close(res.axe_x, like.axe_x, sig + '-grid')
    m.close(res.axe_y, like.axe_y, sig + '-grid')
    m.check(G.si(res.unit_x) == G.si(like.unit_x) and G.si(res.unit_y) == G.si(like.unit_y), sig + '-axis-unit')
    m.check(G.dim(res.unit_values) == dims, sig + '-dimension',
            lambda: '%s want %s' % (G.dim(res.unit_values), dims))
    m.check(np.array_equal(res.mask, mask), sig + '-mask', lambda: '%s want %s' % (res.mask*1, mask*1))
    for g, w in zip(phys(res), want):
        if g.shape == w.shape:
            w = np.where(mask, np.nan, w)
            m.close(g, w, sig + '-value', rtol=1e-7, atol=1e-10)


def nz(rng, f):
    """give the field non zero values."""
    if isinstance(f, ScalarField):
        mk = f.mask.copy()
        f.values = np.where(np.abs(f.values) < .3, 1.7, f.values)
        f.mask = mk
    else:
        f.comp_x = np.where(np.abs(f.comp_x) < .3, 1.7, f.comp_x)
        f.comp_y = np.where(np.abs(f.comp_y) < .3, -1.3, f.comp_y)
        f.mask = f.mask
    return f


def second(rng, f, uv=None):
    u = (f.unit_x.strUnit()[1:-1], f.unit_y.strUnit()[1:-1], uv)
    mk = G.pick(rng, ['none', 'sparse', 'border', 'dense'])
    g = G.sf if isinstance(f, ScalarField) else G.vf
    return g(rng, axes=(f.axe_x.copy(), f.axe_y.copy()), units=u, maskkind=mk)


def ustr(rng):
    return G.pick(rng, [x for fam in G.FAMILIES for x in fam])


def num(rng):
    x = float(rng.uniform(.3, 5)*(1 if rng.random() < .5 else -1))
    return G.pick(rng, [x, int(rng.integers(1, 6)), -int(rng.integers(1, 6)), np.float64(x)])


def mk(rng, vec):
    u = G.unit_lv(rng)
    uv = ustr(rng)
    return (G.vf if vec else G.sf)(rng, units=(u[0], u[1], uv)), uv


def both(m, f):
    f(m, False)
    f(m, True)


@scenario('C05', 250, 8000)
def with_number(m):
    rng = m.rng
    vec = rng.random() < .5
    f, uv = mk(rng, vec)
    n = num(rng)
    k = G.fac(f.unit_values)
    d = G.dim(f.unit_values)
    m.case(G.tdesc(f), 'number', repr(n))
    x = float(n)
    expect(m, f + n, f, [p + x*k for p in phys(f)], f.mask, d, 'add-number')
    expect(m, f - n, f, [p - x*k for p in phys(f)], f.mask, d, 'sub-number')
    expect(m, f*n, f, [p*x for p in phys(f)], f.mask, d, 'mul-number')
    expect(m, f/n, f, [p/x for p in phys(f)], f.mask, d, 'div-number')
    if type(n) in (int, float):
        expect(m, n + f, f, [p + x*k for p in phys(f)], f.mask, d, 'add-number')
        expect(m, n - f, f, [x*k - p for p in phys(f)], f.mask, d, 'rsub-number')
        expect(m, n*f, f, [p*x for p in phys(f)], f.mask, d, 'mul-number')
        g = nz(rng, f)
        expect(m, n/g, g, [x/p for p in phys(g)], g.mask, G.dimmul({}, d, -1), 'rdiv-number')
        if not vec:
            g = g.copy()
            z = (rng.random(g.shape) < .15) & ~g.mask
            if not (z | g.mask).all():
                mk_ = g.mask.copy()
                g.values = np.where(z, 0., g.values)
                g.mask = mk_
                num_ = rng.integers(-3, 4, g.shape)*1.
                w = [np.where(z, 1., p) for p in phys(g)]
                expect(m, n/g, g, [x/p for p in w], g.mask | z, G.dimmul({}, d, -1), 'rdiv-number-by-zero')
                expect(m, num_.tolist()/g, g, [num_/p for p in w], g.mask | z, G.dimmul({}, d, -1), 'rdiv-array')
                m.event('zeros-of-a-divisor', int(z.sum()))
    expect(m, -f, f, [-p for p in phys(f)], f.mask, d, 'neg')
    expect(m, abs(f), f, [np.abs(p) for p in phys(f)], f.mask, d, 'abs')


@scenario('C05', 200, 6000)
def power(m):
    rng = m.rng
    f, uv = mk(rng, rng.random() < .5)
    f = nz(rng, f)
    e = G.pick(rng, [2, 3, 1, -1, -2, 2., .5, 1.5, 0])
    if e in (.5, 1.5):
        f = abs(f)
    m.case(G.tdesc(f), '**', e)
    want = [np.power(p, float(e)) for p in phys(f)]
    dims = {k: round(v*e, 9) for k, v in G.dim(f.unit_values).items() if v*e}
    expect(m, f**e, f, want, f.mask, dims, 'pow')


@scenario('C05', 250, 8000)
def with_quantity(m):
    rng = m.rng
    vec = rng.random() < .5
    f, uv = mk(rng, vec)
    x = float(rng.uniform(.3, 5)*(1 if rng.random() < .5 else -1))
    q1 = x*G.make_unit(G.pick(rng, G.family_of(uv)))
    q2 = x*G.make_unit(ustr(rng))
    d = G.dim(f.unit_values)
    m.case(G.tdesc(f), 'quantity', q1, q2)
    a = G.fac(q1)
    expect(m, f + q1, f, [p + a for p in phys(f)], f.mask, d, 'add-quantity')
    expect(m, f - q1, f, [p - a for p in phys(f)], f.mask, d, 'sub-quantity')
    b = G.fac(q2)
    expect(m, f*q2, f, [p*b for p in phys(f)], f.mask, G.dimmul(d, G.dim(q2)), 'mul-quantity')
    expect(m, f/q2, f, [p/b for p in phys(f)], f.mask, G.dimmul(d, G.dim(q2), -1), 'div-quantity')
    if G.dim(q2) != d:
        m.raises(lambda: f + q2, 'add-incompatible-quantity', detail='%s + %s' % (f.unit_values, q2))


@scenario('C05', 200, 6000)
def with_array(m):
    rng = m.rng
    vec = rng.random() < .5
    f, uv = mk(rng, vec)
    arr = rng.uniform(.5, 3, f.shape)*np.where(rng.random(f.shape) < .5, -1, 1)
    d = G.dim(f.unit_values)
    k = G.fac(f.unit_values)
    m.case(G.tdesc(f), 'array', arr[0, 0])
    expect(m, f*arr, f, [p*arr for p in phys(f)], f.mask, d, 'mul-array')
    z = arr.copy()
    zero = rng.random(f.shape) < .1
    z[zero] = 0.
    if not (f.mask | zero).all():
        expect(m, f/z, f, [p/np.where(zero, 1., z) for p in phys(f)], f.mask | zero, d, 'div-array')
    if vec:
        expect(m, f + arr, f, [p + arr*k for p in phys(f)], f.mask, d, 'add-array')
        expect(m, f - arr, f, [p - arr*k for p in phys(f)], f.mask, d, 'sub-array')
        v2 = rng.normal(size=2)
        expect(m, f + v2, f, [p + c*k for p, c in zip(phys(f), v2)], f.mask, d, 'add-vector')
        expect(m, f + list(v2), f, [p + c*k for p, c in zip(phys(f), v2)], f.mask, d, 'add-vector')
        expect(m, f - v2, f, [p - c*k for p, c in zip(phys(f), v2)], f.mask, d, 'sub-vector')
    bad = rng.normal(size=(f.shape[0] + 1, f.shape[1]))
    # arrays with masked elements
    am_ = G.mask(rng, f.shape)
    am = np.ma.masked_array(arr.copy(), am_)
    pf = phys(f)
    expect(m, f*am, f, [p*arr for p in pf], f.mask | am_, d, 'mul-masked-array')
    if np.all(arr[~am_] != 0):
        expect(m, f/am, f, [p/np.where(arr == 0, 1., arr) for p in pf], f.mask | am_, d, 'div-masked-array')
    if isinstance(f, VectorField):
        k = G.fac(f.unit_values)
        expect(m, f + am, f, [p + arr*k for p in pf], f.mask | am_, d, 'add-masked-array')
        expect(m, f - am, f, [p - arr*k for p in pf], f.mask | am_, d, 'sub-masked-array')
    m.check(np.array_equal(am.mask, am_) and np.array_equal(am.data, arr), 'masked-array-changed')
    m.raises(lambda: f*bad, 'array-shape-refused')
    m.raises(lambda: f/bad, 'array-shape-refused')


@scenario('C05', 300, 10000)
def with_field(m):
    rng = m.rng
    vec = rng.random() < .5
    f, uv = mk(rng, vec)
    g = second(rng, f, G.pick(rng, G.family_of(uv)))
    d = G.dim(f.unit_values)
    m.case(G.tdesc(f), G.tdesc(g))
    mk_ = f.mask | g.mask
    if not mk_.all():
        expect(m, f + g, f, [p + q for p, q in zip(phys(f), phys(g))], mk_, d, 'add-field')
        expect(m, f - g, f, [p - q for p, q in zip(phys(f), phys(g))], mk_, d, 'sub-field')
        expect(m, g - f, f, [q - p for p, q in zip(phys(f), phys(g))], mk_, d, 'sub-field')
    h = second(rng, f, ustr(rng))
    if G.dim(h.unit_values) != d:
        m.raises(lambda: f + h, 'add-incompatible-field')
        m.raises(lambda: f - h, 'add-incompatible-field')
    # products by a scalar field
    s = h if not vec else G.sf(rng, axes=(f.axe_x.copy(), f.axe_y.copy()), maskkind=G.pick(rng, ['none', 'sparse']),
                               units=(f.unit_x.strUnit()[1:-1], f.unit_y.strUnit()[1:-1], ustr(rng)))
    sp = phys(s)[0]
    mk2 = f.mask | s.mask
    if mk2.all():
        return
    dm = G.dimmul(d, G.dim(s.unit_values))
    expect(m, f*s, f, [p*sp for p in phys(f)], mk2, dm, 'mul-field')
    if not vec:
        expect(m, s*f, f, [p*sp for p in phys(f)], mk2, dm, 'mul-field')
        zero = (s.values == 0) | (rng.random(f.shape) < .1)
        sm = s.mask.copy()
        s.values = np.where(zero, 0., s.values)
        s.mask = sm
        sp = phys(s)[0]
        mk3 = mk2 | (zero & ~s.mask)
        if not mk3.all():
            expect(m, f/s, f, [p/np.where(sp == 0, 1., sp) for p in phys(f)], mk3,
                   G.dimmul(d, G.dim(s.unit_values), -1), 'div-field')


@scenario('C05', 200, 6000)
def other_grids(m):
    rng = m.rng
    vec = rng.random() < .5
    f, uv = mk(rng, vec)
    g = second(rng, f, G.pick(rng, G.family_of(uv)))
    how = G.pick(rng, ['overlap', 'overlap', 'foreign', 'shifted', 'units'])
    if how == 'overlap' and rng.random() < .3:
        # far from the origin: the grid step is tiny before the coordinates
        o = [float(-s*10**rng.uniform(3, 6)*np.min(np.diff(a))) for a, s in ((f.axe_x, 1), (f.axe_y, -1))]
        f.set_origin(x=o[0], y=o[1])
        g.set_origin(x=o[0], y=o[1])
        m.event('far-from-origin')
    m.case(G.tdesc(f), G.tdesc(g), how)
    if how == 'overlap':
        nx, ny = f.shape
        a, b = int(rng.integers(0, nx - 1)), int(rng.integers(0, ny - 1))
        c, e = int(rng.integers(a + 2, nx + 1)), int(rng.integers(b + 2, ny + 1))
        sub = (VectorField if vec else ScalarField)()
        comps = [g.comp_x, g.comp_y] if vec else [g.values]
        sub.import_from_arrays(g.axe_x[a:c], g.axe_y[b:e], *[q[a:c, b:e] for q in comps],
                               mask=g.mask[a:c, b:e], unit_x=g.unit_x, unit_y=g.unit_y,
                               unit_values=g.unit_values)
        mk_ = (f.mask | g.mask)[a:c, b:e]
        want = [(p + q)[a:c, b:e] for p, q in zip(phys(f), phys(g))]
        if mk_.all():
            return
        expect(m, f + sub, sub, want, mk_, G.dim(f.unit_values), 'add-overlap')
        expect(m, sub + f, sub, want, mk_, G.dim(f.unit_values), 'add-overlap')
        want = [(p - q)[a:c, b:e] for p, q in zip(phys(f), phys(g))]
        expect(m, f - sub, sub, want, mk_, G.dim(f.unit_values), 'sub-overlap')
        if sub.shape != f.shape and not vec:
            m.raises(lambda: f*sub, 'mul-foreign-refused')
        # two windows of the same grid, shifted along one or both axes
        if nx >= 4 and ny >= 4:
            wx, wy = int(rng.integers(2, nx)), int(rng.integers(2, ny))
            if rng.random() < .5:
                vx, vy = wx, wy
            else:
                vx, vy = int(rng.integers(2, nx)), int(rng.integers(2, ny))
            i0, j0 = int(rng.integers(0, nx - wx + 1)), int(rng.integers(0, ny - wy + 1))
            i1, j1 = int(rng.integers(0, nx - vx + 1)), int(rng.integers(0, ny - vy + 1))
            a, c = max(i0, i1), min(i0 + wx, i1 + vx)
            b, e = max(j0, j1), min(j0 + wy, j1 + vy)
            if c - a >= 1 and e - b >= 1:
                w1 = f.crop(intervx=[i0, i0 + wx - 1], intervy=[j0, j0 + wy - 1], ind=True)
                w2 = g.crop(intervx=[i1, i1 + vx - 1], intervy=[j1, j1 + vy - 1], ind=True)
                mk_ = (f.mask | g.mask)[a:c, b:e]
                like = f.crop(intervx=[a, c - 1], intervy=[b, e - 1], ind=True) if c - a > 1 and e - b > 1 else None
                if like is not None and not mk_.all():
                    m.event('shifted-windows')
                    want = [(p + q)[a:c, b:e] for p, q in zip(phys(f), phys(g))]
                    expect(m, w1 + w2, like, want, mk_, G.dim(f.unit_values), 'add-shifted-windows')
    elif how == 'foreign':
        h = g.copy()
        h.set_origin(x=float(-2*(f.axe_x[-1] - f.axe_x[0]) - 1.2345))
        m.raises(lambda: f + h, 'add-foreign-refused')
        m.raises(lambda: f - h, 'add-foreign-refused')
    elif how == 'shifted':
        h = g.copy()
        if rng.random() < .5:
            h.set_origin(x=float(.377*np.min(np.diff(f.axe_x))))
        else:
            h.set_origin(y=float(.377*np.min(np.diff(f.axe_y))))
        if vec:
            h = h.magnitude_as_sf
        m.raises(lambda: f*h, 'mul-foreign-refused')
        if not vec:
            m.raises(lambda: f/h, 'mul-foreign-refused')
    else:
        # same numbers on axes in another length unit: not the same grid
        ux = f.unit_x.strUnit()[1:-1]
        if ux not in G.LEN:
            ux = 'm'
            f.unit_x = 'm'
        h = g.copy()
        h.unit_x = G.pick(rng, [u for u in G.LEN if u != ux])
        m.raises(lambda: f + h, 'add-other-axis-unit-refused')
        if vec:
            h = h.magnitude_as_sf
        m.raises(lambda: f*h, 'mul-other-axis-unit-refused')


@scenario('C05', 120, 4000)
def algebra(m):
    """Relations between operators, on unmasked points."""
    rng = m.rng
    vec = rng.random() < .5
    f, uv = mk(rng, vec)
    g = second(rng, f, G.pick(rng, G.family_of(uv)))
    h = second(rng, f, uv)
    m.case(G.tdesc(f), G.tdesc(g), G.tdesc(h))
    if (f.mask | g.mask | h.mask).all():
        return
    a = phys((f + g) + h)
    b = phys(f + (g + h))
    for p, q in zip(a, b):
        m.close(p, q, 'associative', rtol=1e-7, atol=1e-9)
    r = (f + g) - g
    for p, q in zip(phys(r), phys(f)):
        sc = np.nan_to_num(max(np.nanmax(np.abs(phys(g)[0])), np.nanmax(np.abs(phys(g)[-1])), 1e-300))
        ok = np.abs(p - q)[~r.mask] <= 1e-8*(np.abs(q)[~r.mask] + sc)
        m.check(ok.all(), 'add-sub-cancel')
    for p, q in zip(phys((f*3.) - f - f), phys(f)):
        m.close(p, q, 'mul-is-repeated-add', rtol=1e-7, atol=1e-9)
    if not vec:
        g = nz(rng, g)
        r = (f*g)/g
        w = np.where(r.mask, np.nan, phys(f)[0])
        m.close(phys(r)[0], w, 'mul-div-cancel', rtol=1e-7, atol=1e-10)
