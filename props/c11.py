"""C11: profiles behave as sampled functions."""
import numpy as np
import unum
from IMTreatment.core import Profile
from IMTreatment.utils import make_unit
from vh.core import scenario, Skip
from vh import gen as G
from props.c07 import run

RULE = ('Random profiles (2 to 40 samples, even or uneven, masked, any units); arithmetic with numbers, quantities and profiles, crops in every form, '
        'interpolation, value look-up, calculus, edits and resampling; reference: the list of (x, y, mask) triples in SI.')
ASSUMPTIONS = ['the sample dropped by a crop that starts between two samples is a known finding (stored result of the test suite)']


def like(m, p, q, sig):
    """q keeps the abscissa and its unit."""
    m.close(q.x, p.x, sig + '-x', rtol=1e-12)
    m.check(G.si(q.unit_x) == G.si(p.unit_x), sig + '-unit-x')
    struct(m, q, sig)


def struct(m, p, sig):
    n = len(p.x)
    ok = len(p.y) == n and np.shape(p.mask) == (n,) and np.asarray(p.mask).dtype == bool
    m.check(ok, sig + '-lengths', lambda: '%d %d %s' % (n, len(p.y), np.shape(p.mask)))
    m.check(np.all(np.diff(p.x) >= 0), sig + '-order', lambda: str(p.x))
    if ok:
        m.check(np.array_equal(np.isnan(p.y), p.mask), sig + '-masked-is-nan', lambda: '%s %s' % (p.y, p.mask))


def phy(p):
    return np.array(p.y)*G.fac(p.unit_y)


def cmp(m, r, want, wdim, mask, sig, rtol=1e-7):
    """Physical ordinate, dimension and mask of a result."""
    m.check(G.dim(r.unit_y) == wdim, sig + '-dimension', lambda: '%s want %s' % (G.dim(r.unit_y), wdim))
    m.check(np.array_equal(r.mask, mask), sig + '-mask', lambda: '%s want %s' % (r.mask*1, mask*1))
    m.close(phy(r), np.where(mask, np.nan, want), sig, rtol=rtol, atol=1e-9)
    m.check(abs(r.unit_y.asNumber() - 1) < 1e-9, sig + '-unit-normalised')


def quantity(rng, ustr):
    v = float(rng.normal()*3)
    return v*make_unit(ustr)


@scenario('C11', 350, 10000)
def arithmetic_scalar(m):
    rng = m.rng
    p = G.profile(rng)
    op = G.pick(rng, ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'neg', 'pow', 'uadd', 'usub', 'urefuse', 'umul', 'udiv'])
    a = float(rng.normal()*3) + .1
    m.case(G.tdesc(p), op, a)
    y, k, mk, d = np.array(p.y), G.fac(p.unit_y), np.array(p.mask), G.dim(p.unit_y)
    fam = G.family_of(p.unit_y.strUnit()[1:-1]) if p.unit_y.strUnit() != '[]' else ['']
    sn = G.snap(p)
    if op == 'add':
        r, w = p + a, y + a
    elif op == 'radd':
        r, w = a + p, y + a
    elif op == 'sub':
        r, w = p - a, y - a
    elif op == 'rsub':
        r, w = a - p, a - y
    elif op == 'mul':
        r, w = p*a, y*a
    elif op == 'rmul':
        r, w = a*p, y*a
    elif op == 'div':
        r, w = p/a, y/a
    elif op == 'neg':
        r, w = -p, -y
    elif op == 'pow':
        e = G.pick(rng, [1, 2, 3, 0])
        r, w = p**e, y**e
        like(m, p, r, 'power')
        cmp(m, r, w*k**e, G.dimmul({}, d, e), mk, 'power')
        return
    elif op in ('uadd', 'usub'):
        u = G.pick(rng, fam)
        q = a*make_unit(u)
        s = 1 if op == 'uadd' else -1
        r = p + q if s > 0 else p - q
        like(m, p, r, 'quantity-sum')
        cmp(m, r, y*k + s*a*G.fac(make_unit(u)), d, mk, 'quantity-sum')
        return
    elif op == 'urefuse':
        bad = [f for f in G.FAMILIES if G.dim(make_unit(f[0])) != d]
        q = a*make_unit(G.pick(rng, G.pick(rng, bad)))
        m.raises(lambda: p + q, 'incompatible-sum-accepted')
        m.raises(lambda: p - q, 'incompatible-sum-accepted')
        m.check(G.diff(G.snap(p), sn) is None, 'refused-sum-changed-profile')
        return
    else:
        u = make_unit(G.pick(rng, G.pick(rng, G.FAMILIES)))
        q = a*u
        if op == 'umul':
            r = p*q
            cmp(m, r, y*k*a*G.fac(u), G.dimmul(d, G.dim(u)), mk, 'quantity-product')
        else:
            r = p/q
            cmp(m, r, y*k/(a*G.fac(u)), G.dimmul(d, G.dim(u), -1), mk, 'quantity-quotient')
        like(m, p, r, 'quantity-product')
        return
    like(m, p, r, op)
    cmp(m, r, w*k, d, mk, 'number-' + op)
    m.check(G.diff(G.snap(p), sn) is None, 'operand-changed')


@scenario('C11', 350, 10000)
def arithmetic_profiles(m):
    rng = m.rng
    p = G.profile(rng)
    fam = G.family_of(p.unit_y.strUnit()[1:-1]) if p.unit_y.strUnit() != '[]' else ['']
    op = G.pick(rng, ['add', 'sub', 'mul', 'div'])
    uy = G.pick(rng, fam) if op in ('add', 'sub') else G.pick(rng, G.pick(rng, G.FAMILIES))
    n = len(p.x)
    y2 = G.values(rng, (n,))
    if op == 'div' and rng.random() < .7:
        y2[y2 == 0] = 1.
    mk2 = rng.random(n) < .15
    if rng.random() < .4:
        mk2[:] = False
    q = Profile(p.x, y2, mask=mk2, unit_x=p.unit_x, unit_y=uy)
    m.case(G.tdesc(p), op, G.tdesc(q))
    sp, sq = G.snap(p), G.snap(q)
    A, B = phy(p), phy(q)
    mk = p.mask | q.mask
    d1, d2 = G.dim(p.unit_y), G.dim(q.unit_y)
    if op == 'add':
        r, w, d = p + q, A + B, d1
    elif op == 'sub':
        r, w, d = p - q, A - B, d1
    elif op == 'mul':
        r, w, d = p*q, A*B, G.dimmul(d1, d2)
    else:
        z = (y2 == 0)
        mk = mk | z
        r, w, d = p/q, A/np.where(z, 1, B), G.dimmul(d1, d2, -1)
    like(m, p, r, op)
    cmp(m, r, w, d, mk, 'profiles-' + op)
    m.check(G.diff(G.snap(p), sp) is None and G.diff(G.snap(q), sq) is None, 'operand-changed')
    # other abscissae, other dimensions
    if n > 2:
        o = Profile(p.x + .5*np.ptp(p.x), y2, unit_x=p.unit_x, unit_y=p.unit_y)
        s = Profile(p.x[:-1], y2[:-1], unit_x=p.unit_x, unit_y=p.unit_y)
        for bad in (o, s):
            m.raises(lambda: p + bad, 'sum-of-other-abscissa')
            m.raises(lambda: p/bad, 'quotient-of-other-abscissa')
        m.raises(lambda: p*o, 'product-of-other-abscissa')
    bad = [f for f in G.FAMILIES if G.dim(make_unit(f[0])) != d1]
    o = Profile(p.x, y2, unit_x=p.unit_x, unit_y=G.pick(rng, G.pick(rng, bad)))
    m.raises(lambda: p + o, 'incompatible-sum-accepted')
    m.raises(lambda: p - o, 'incompatible-sum-accepted')
    # equality
    m.check(p == p.copy(), 'equal-to-its-copy')
    c = p.copy()
    i = int(rng.integers(n))
    if not c.mask[i]:
        y = np.array(c.y)
        y[i] += 1.
        c.y = y
        m.check(not (p == c), 'equal-to-other')


@scenario('C11', 400, 12000)
def crop(m):
    rng = m.rng
    p = G.profile(rng, lo=3)
    n = len(p.x)
    mode = G.pick(rng, ['x', 'ind', 'y', 'xy'])
    i = int(rng.integers(0, n - 1))
    j = int(rng.integers(i + 1, n))

    def bound(k, side):
        if rng.random() < .5:
            return float(p.x[k])
        if side < 0:
            lo = p.x[k - 1] if k else p.x[0] - 2.
            return float(lo + (p.x[k] - lo)*rng.uniform(.2, .9))
        hi = p.x[k + 1] if k < n - 1 else p.x[-1] + 2.
        return float(p.x[k] + (hi - p.x[k])*rng.uniform(.1, .8))
    kw = {}
    keep = np.ones(n, dtype=bool)
    offset = False
    if mode in ('x', 'xy'):
        lo, hi = bound(i, -1), bound(j, 1)
        kw['intervx'] = [lo, hi]
        keep &= (p.x >= lo) & (p.x <= hi)
        # (known finding) lower bound strictly between two samples
        offset = p.x[0] < lo and lo not in p.x
    if mode == 'ind':
        kw = dict(intervx=[i, j], ind=True)
        keep[:] = False
        keep[i:j] = True
    if mode in ('y', 'xy'):
        v = np.sort(p.y[~p.mask])
        a, b = v[0] - .5, v[-1] + .5
        if len(v) > 2:
            mid = (v[1:] + v[:-1])/2
            c, e = sorted([float(G.pick(rng, mid)), float(G.pick(rng, list(mid) + [v[-1] + .5]))])
            if c < e and np.min(np.abs(v - c)) > 0 and np.min(np.abs(v - e)) > 0:
                a, b = c, e
        kw['intervy'] = [float(a), float(b)]
        with np.errstate(all='ignore'):
            keep &= (p.y > a) & (p.y < b)
    if not keep.any():
        raise Skip()
    m.case(G.tdesc(p), 'crop', kw)
    g = run(rng, p, 'crop', **kw)
    if offset:
        lo = kw['intervx'][0]
        less = keep & (p.x > p.x[p.x >= lo][0])
        if len(g.x) == less.sum() and np.array_equal(g.x, p.x[less]) and less.sum() < keep.sum():
            m.check(False, 'crop-from-between-samples-drops-first', 'x=%s interval %s kept %s' % (p.x, kw['intervx'], g.x))
            keep = less
    m.check(len(g.x) == keep.sum() and np.array_equal(g.x, p.x[keep]), 'crop-' + mode + '-x', lambda: '%s want %s' % (g.x, p.x[keep]))
    if len(g.x) == keep.sum():
        m.close(g.y, p.y[keep], 'crop-y', rtol=0)
        m.check(np.array_equal(g.mask, p.mask[keep]), 'crop-mask')
    m.check(G.si(g.unit_x) == G.si(p.unit_x) and G.si(g.unit_y) == G.si(p.unit_y) and g.name == p.name, 'crop-units')
    struct(m, g, 'crop')
    m.raises(lambda: p.crop(intervx=[p.x[-1] + 1, p.x[-1] + 2]), 'crop-outside')
    m.raises(lambda: p.crop(intervx=[p.x[1], p.x[0]]), 'crop-decreasing')


@scenario('C11', 300, 9000)
def interpolation(m):
    rng = m.rng
    p = G.profile(rng, lo=2)
    n = len(p.x)
    m.case(G.tdesc(p))
    xs = []
    for _ in range(8):
        i = int(rng.integers(n - 1))
        u = float(rng.uniform(.01, .99))
        x = float(p.x[i] + u*(p.x[i + 1] - p.x[i]))
        r = p.get_interpolated_values(x=x)
        if p.mask[i] or p.mask[i + 1]:
            m.check(len(r) == 0 or np.all(np.ma.getmaskarray(np.ma.masked_invalid(np.ma.array(r, dtype=float)))), 'interpolated-from-masked', lambda: str(r))
        else:
            w = p.y[i]*(1 - u) + p.y[i + 1]*u
            s = abs(p.y[i]) + abs(p.y[i + 1])
            m.check(len(r) == 1 and abs(float(r[0]) - w) <= 1e-7*s, 'interpolated-between', lambda: '%s want %s' % (r, w))
            r = p.get_interpolated_values(x=i + u, ind=True)
            m.check(len(r) == 1 and abs(float(r[0]) - w) <= 1e-7*s, 'interpolated-by-index', lambda: '%s want %s' % (r, w))
            xs.append((x, w, s))
        i = int(rng.integers(n))
        if not p.mask[i]:
            m.check(float(p.get_interpolated_values(x=float(p.x[i]))[0]) == p.y[i], 'interpolated-on-sample')
            m.check(float(p.get_interpolated_values(x=i, ind=True)[0]) == p.y[i], 'interpolated-on-index')
    if xs:
        r = p.get_interpolated_values(x=[x[0] for x in xs])
        m.check(np.shape(r) == (len(xs),) and all(abs(float(a) - w) <= 1e-7*s for a, (_, w, s) in zip(r, xs)), 'interpolated-several')
    for x in (p.x[0] - 1., p.x[-1] + 1.):
        m.check(len(p.get_interpolated_values(x=float(x))) == 0, 'interpolated-outside')
    ok = ~p.mask
    if ok.sum() >= 2:
        f = p.get_interpolator()
        x = rng.uniform(p.x[ok][0], p.x[ok][-1], 6)
        m.close(f(x), np.interp(x, p.x[ok], p.y[ok]), 'interpolator', rtol=1e-6, atol=1e-8)


def crossings(p, v):
    """(position, index) of every place where the sampled function takes value v."""
    res = []
    n = len(p.x)
    for i in range(n):
        if p.mask[i]:
            continue
        if p.y[i] == v:
            res.append((p.x[i], i))
        elif i < n - 1 and not p.mask[i + 1] and (p.y[i] - v)*(p.y[i + 1] - v) < 0:
            u = (v - p.y[i])/(p.y[i + 1] - p.y[i])
            res.append((p.x[i] + u*(p.x[i + 1] - p.x[i]), i + u))
    return res


@scenario('C11', 300, 9000)
def value_positions(m):
    rng = m.rng
    p = G.profile(rng, lo=3)
    ok = p.y[~p.mask]
    v = float(G.pick(rng, ok)) if rng.random() < .4 else float(rng.uniform(ok.min() - .1, ok.max() + .1))
    if rng.random() < .15:
        v = 0.
    m.case(G.tdesc(p), 'value', v)
    c = crossings(p, v)
    sx = np.ptp(p.x)
    sn = G.snap(p)
    for got, want, s, sig in ((p.get_value_position(v), [a for a, _ in c], sx, 'position-of-value'),
                              (p.get_value_position(v, ind=True), [b for _, b in c], len(p.x), 'index-of-value'),
                              (p.get_interpolated_values(y=v), [a for a, _ in c], sx, 'abscissa-of-ordinate'),
                              (p.get_interpolated_values(y=v, ind=True), [b for _, b in c], len(p.x), 'index-of-ordinate')):
        got = np.array([float(g) for g in got])
        m.check(len(got) == len(want) and np.allclose(np.sort(got), want, rtol=0, atol=1e-7*s), sig, lambda: '%s want %s' % (got, want))
    m.event('crossings', len(c))
    m.check(G.diff(G.snap(p), sn) is None, 'look-up-changed-profile')


@scenario('C11', 300, 9000)
def calculus(m):
    rng = m.rng
    # integral: trapezoids over valid samples
    p = G.profile(rng, lo=2)
    m.case(G.tdesc(p))
    ok = ~p.mask
    v, u = p.get_integral()
    x, y = p.x[ok], p.y[ok]
    w = np.sum((y[1:] + y[:-1])/2*np.diff(x))*G.fac(p.unit_x)*G.fac(p.unit_y)
    s = np.sum(np.abs(y))*np.ptp(p.x)*G.fac(p.unit_x)*G.fac(p.unit_y)
    m.check(abs(v*G.fac(u) - w) <= 1e-9*s, 'integral', lambda: '%s %s want %s' % (v, u, w))
    m.check(G.dim(u) == G.dimmul(G.dim(p.unit_x), G.dim(p.unit_y)), 'integral-dimension')
    m.check(p.min == y.min() and p.max == y.max(), 'extremum')
    m.check(abs(p.mean - y.mean()) <= 1e-12*np.max(np.abs(y)), 'mean')
    # gradient
    q = G.profile(rng, lo=3, uniform=True, masked=False)
    a, b = float(rng.normal()), float(rng.normal())
    lin = Profile(q.x, a + b*q.x, unit_x=q.unit_x, unit_y=q.unit_y)
    g = lin.get_gradient()
    k = G.fac(q.unit_y)/G.fac(q.unit_x)
    sc = (abs(a) + abs(b)*np.max(np.abs(q.x)))/(q.x[1] - q.x[0])*k
    m.check(np.all(np.abs(phy(g) - b*k) <= 1e-9*sc), 'gradient-of-line')
    m.check(G.dim(g.unit_y) == G.dimmul(G.dim(q.unit_y), G.dim(q.unit_x), -1), 'gradient-dimension')
    like(m, q, g, 'gradient')
    g = q.get_gradient()
    dx = q.x[1] - q.x[0]
    w = (q.y[2:] - q.y[:-2])/(2*dx)*k
    m.check(np.all(np.abs(phy(g)[1:-1] - w) <= 1e-7*np.max(np.abs(q.y))/dx*k), 'gradient-centred')
    pos = float(rng.uniform(q.x[0], q.x[-1]))
    m.check(abs(lin.get_gradient(position=pos) - b) <= 1e-6*sc/k, 'gradient-at-position')
    u = q.copy()
    xx = np.array(q.x)
    xx[-1] += 3*dx
    u.x = xx
    if len(xx) > 2:
        m.raises(lambda: u.get_gradient(), 'gradient-on-uneven-abscissa')


@scenario('C11', 300, 9000)
def edits(m):
    """A sequence of edits against a list of (x, y) with masked marked by nan."""
    rng = m.rng
    p = G.profile(rng, lo=2, hi=8)
    model = [(float(a), float(b)) for a, b in zip(p.x, p.y)]
    ux, uy = G.si(p.unit_x), G.si(p.unit_y)
    m.case(G.tdesc(p))
    for step in range(int(rng.integers(1, 7))):
        op = G.pick(rng, ['add', 'adds', 'remove', 'nans', 'border', 'maskone', 'setx', 'sety'])
        m.case(op)
        m.event(op)
        if op == 'add':
            x, y = float(rng.normal()*5), float(rng.normal())
            p.add_point(x, y)
            model.append((x, y))
        elif op == 'adds':
            q = G.profile(rng, lo=2, hi=4, units=('m', 'm'))
            q = Profile(q.x, q.y, mask=q.mask, unit_x=p.unit_x, unit_y=p.unit_y)
            s = G.snap(q)
            p.add_points(q)
            m.check(G.diff(G.snap(q), s) is None, 'edit-changed-argument')
            model += [(float(a), float(b)) for a, b in zip(q.x, q.y)]
        elif op == 'remove' and len(model) > 2:
            i = int(rng.integers(len(model)))
            model.sort(key=lambda t: t[0])
            if len(set(t[0] for t in model)) != len(model):
                continue
            p.remove_point(i)
            model.pop(i)
        elif op == 'nans' and sum(np.isfinite(t[1]) for t in model) > 1:
            p = run(rng, p, 'remove_nans')
            model = [t for t in model if np.isfinite(t[1])]
        elif op == 'border' and sum(np.isfinite(t[1]) for t in model) > 1:
            p = run(rng, p, 'crop_masked_border')
            model.sort(key=lambda t: t[0])
            fin = [i for i, t in enumerate(model) if np.isfinite(t[1])]
            model = model[fin[0]:fin[-1] + 1]
        elif op == 'maskone' and len(model) > 2:
            i = int(rng.integers(len(model)))
            mk = np.array(p.mask)
            x = p.x[i]
            if sum(t[0] == x for t in model) != 1:
                continue
            mk[i] = True
            p.mask = mk
            model = [(t[0], np.nan if t[0] == x else t[1]) for t in model]
        elif op == 'setx':
            model.sort(key=lambda t: t[0])
            if len(set(t[0] for t in model)) != len(model):
                continue
            x = rng.normal(size=len(model))*4
            p.x = x
            model = [(float(a), t[1]) for a, t in zip(x, model)]
        elif op == 'sety':
            y = rng.normal(size=len(model))
            if len(set(t[0] for t in model)) != len(model):
                continue
            model.sort(key=lambda t: t[0])
            p.y = y
            model = [(t[0], float(a)) for a, t in zip(y, model)]
        struct(m, p, 'edit')
        got = sorted((float(a), -1e300 if np.isnan(b) else float(b)) for a, b in zip(p.x, p.y))
        want = sorted((a, -1e300 if np.isnan(b) else b) for a, b in model)
        if not m.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-12), 'edit-' + op, lambda: '%s want %s' % (got, want)):
            return
        m.check(G.si(p.unit_x) == ux and G.si(p.unit_y) == uy, 'edit-units')


@scenario('C11', 200, 6000)
def resampling(m):
    rng = m.rng
    p = G.profile(rng, lo=4, masked=False)
    m.case(G.tdesc(p))
    f = int(rng.integers(2, 5))
    g = run(rng, p, 'augment_resolution', f)
    struct(m, g, 'augment')
    m.check(len(g.x) == (len(p.x) - 1)*f + 1, 'augment-length')
    s = np.max(np.abs(p.y))
    m.check(np.allclose(g.x[::f], p.x, rtol=1e-9, atol=1e-9*np.ptp(p.x)) and np.allclose(g.y[::f], p.y, atol=1e-9*s), 'augment-keeps-samples')
    m.check(np.allclose(g.y, np.interp(g.x, p.x, p.y), rtol=0, atol=1e-6*s), 'augment-linear')
    m.check(G.si(g.unit_x) == G.si(p.unit_x) and G.si(g.unit_y) == G.si(p.unit_y), 'augment-units')
    e = p.evenly_space()
    struct(m, e, 'evenly')
    d = np.diff(e.x)
    m.check(np.allclose(d, d[0], rtol=1e-5), 'evenly-step')
    m.check(np.isclose(e.x[0], p.x[0]) and np.isclose(e.x[-1], p.x[-1]), 'evenly-range')
    m.check(np.allclose(e.y, np.interp(e.x, p.x, p.y), rtol=0, atol=1e-6*s), 'evenly-linear')
    # masked samples are bridged, and nothing is invented beyond the valid ones
    mk = rng.random(len(p.x)) < .35
    if np.sum(~mk) >= 2:
        k = Profile(p.x, p.y, mask=mk, unit_x=p.unit_x, unit_y=p.unit_y)
        e = k.evenly_space()
        struct(m, e, 'evenly-masked')
        lo, hi = p.x[~mk][0], p.x[~mk][-1]
        eps = 1e-9*np.ptp(p.x)
        out = (e.x < lo - eps) | (e.x > hi + eps)
        ins = (e.x > lo + eps) & (e.x < hi - eps)
        if not np.allclose(np.diff(p.x), p.x[1] - p.x[0], rtol=1e-5, atol=0):
            m.check(np.all(e.mask[out]) and not np.any(e.mask[ins]), 'evenly-mask')
            m.check(np.allclose(e.y[ins], np.interp(e.x[ins], p.x[~mk], p.y[~mk]), rtol=0, atol=1e-6*s), 'evenly-masked-linear')
            m.event('evenly-spaced-with-masked-samples')
    # smoothing keeps constants, stays in range
    tos = G.pick(rng, ['uniform', 'gaussian'])
    g = run(rng, p, 'smooth', tos=tos)
    like(m, p, g, 'smooth')
    m.check(g.min >= p.min - 1e-9*s and g.max <= p.max + 1e-9*s, 'smooth-range')
    if tos == 'uniform' and len(p.x) > 4:
        w = (p.y[2:] + p.y[1:-1] + p.y[:-2])/3
        m.check(np.allclose(g.y[1:-1], w, rtol=0, atol=1e-9*s), 'smooth-average')
    # rotation keeps distances and is undone by the opposite angle
    a = float(rng.uniform(-.4, .4))
    q = Profile(p.x, p.y*.1*np.ptp(p.x)/s, unit_x=p.unit_x, unit_y=p.unit_x)
    r = q.rotate(a)
    got = np.sort(np.hypot(r.x, r.y))
    want = np.sort(np.hypot(q.x, q.y))
    m.close(got, want, 'rotation-distances', rtol=1e-6, atol=1e-9)
    b = r.rotate(-a)
    m.check(np.max(np.hypot(b.x - q.x, b.y - q.y)) < 1e-9*(np.max(np.abs(q.x)) + np.ptp(q.x)), 'rotation-inverse')
    z = Profile([0.]*2, [1., 3.], unit_x=p.unit_x).remove_doublons()
    m.check(list(z.x) == [0.] and list(z.y) == [2.], 'doubles-at-zero', lambda: '%s %s' % (z.x, z.y))
    # doubles
    i = int(rng.integers(len(p.x)))
    v = float(rng.normal())
    dd = p.copy()
    dd.add_point(float(p.x[i]), v)
    meth = G.pick(rng, ['average', 'min', 'max'])
    c = run(rng, dd, 'remove_doublons', method=meth)
    if np.min(np.diff(p.x)) > 1e-4*np.max(np.abs(p.x)):
        w = np.array(p.y)
        w[i] = dict(average=(w[i] + v)/2, min=min(w[i], v), max=max(w[i], v))[meth]
        m.check(len(c.x) == len(p.x), 'doubles-number', lambda: '%s %s' % (c.x, p.x))
        if len(c.x) == len(p.x):
            m.check(np.allclose(c.x, p.x, rtol=0, atol=1e-5*np.max(np.abs(p.x))) and np.allclose(c.y, w, rtol=1e-9, atol=1e-9*s), 'doubles-values')


@scenario('C11', 150, 4000)
def spectra(m):
    """A sine over whole periods: one peak, at its frequency, with its amplitude."""
    rng = m.rng
    n = int(rng.integers(32, 90))
    k = int(rng.integers(5, n//4 + 1))
    d = float(10**rng.uniform(-2, 1))
    A, B, ph = float(rng.uniform(.5, 3)), float(rng.normal()), float(rng.uniform(0, 6))
    x = d*np.arange(n) + float(rng.normal())
    ux, uy = G.pick(rng, ['s', 'ms', 'm', 'mm']), G.pick(rng, ['m/s', 'Pa', ''])
    p = Profile(x, B + A*np.sin(2*np.pi*k*np.arange(n)/n + ph), unit_x=ux, unit_y=uy)
    m.case('sine', n, k, d, A)
    for sc, amp, e in (('base', A/np.sqrt(2), 1), ('spectrum', A**2/2, 2)):
        s = p.get_spectrum(scaling=sc)
        i = int(np.argmax(s.y))
        m.check(abs(s.x[i] - k/(n*d)) < .51/(n*d), 'spectrum-frequency', lambda: '%s want %s' % (s.x[i], k/(n*d)))
        m.check(abs(s.y[i] - amp) < .15*amp, 'spectrum-amplitude', lambda: '%s want %s' % (s.y[i], amp))
        m.check(G.dim(s.unit_x) == G.dimmul({}, G.dim(p.unit_x), -1), 'spectrum-frequency-unit')
        m.check(np.isclose(G.fac(s.unit_x), 1/G.fac(p.unit_x)), 'spectrum-frequency-unit')
        m.check(G.dim(s.unit_y) == G.dimmul({}, G.dim(p.unit_y), e), 'spectrum-unit')
    # convolution against the definition
    q = G.profile(rng, lo=3, hi=8, uniform=True, masked=False)
    h = Profile(q.x, G.values(rng, (len(q.x),)), unit_x=q.unit_x, unit_y='m')
    try:
        c = q.get_convolution(h)
    except Exception:
        return                   # the even spacing test refuses some rounded abscissae
    w = np.zeros(2*len(q.x) - 1)
    for i, a in enumerate(q.y):
        for j, b in enumerate(h.y):
            w[i + j] += a*b
    m.close(c.y, w, 'convolution', rtol=1e-7, atol=1e-9)
    m.check(G.dim(c.unit_y) == G.dimmul(G.dim(q.unit_y), {'L': 1}), 'convolution-dimension')


@scenario('C11', 200, 5000)
def other_options(m):
    """Less used options: several ordinates at once, gradients over a given length or next to the borders,
    smoothing along x, resampling at a given step, filling with a crop, empty and fully masked profiles."""
    rng = m.rng
    p = G.profile(rng, lo=4, masked=False)
    x, y = np.array(p.x), np.array(p.y)
    n, s = len(x), np.max(np.abs(y))
    m.case(G.tdesc(p), 'options')
    # first position of each of several ordinates, not-a-number when there is none
    mk = rng.random(n) < .2
    mk[:2] = False
    q = Profile(x, y, mask=mk, unit_x=p.unit_x, unit_y=p.unit_y)
    vs = [float(v) for v in rng.uniform(q.min - .2*s, q.max + .2*s, 4)] + [float(q.max + s)]
    for ind in (False, True):
        got = q.get_interpolated_values(y=vs, ind=ind)
        m.check(np.shape(got) == (len(vs),), 'ordinates-number')
        for v, g in zip(vs, got):
            c = [t[ind] for t in crossings(q, v)]
            m.check(np.isnan(g) if not c else np.isclose(g, min(c), rtol=0, atol=1e-7*(n if ind else np.ptp(x))), 'first-position-of-ordinate',
                    lambda: '%s: %s want %s' % (v, g, c))
    o = float(np.ptp(x))
    r = q.get_interpolated_values(x=[x[0] - o, x[1], x[-1] + o])
    m.check(np.isnan(r[0]) and r[1] == y[1] and np.isnan(r[2]), 'several-abscissae-with-outside', lambda: str(r))
    # gradient of a line over any length and beyond the borders
    k = G.profile(rng, lo=4, uniform=True, masked=False)
    kx = np.array(k.x)
    dx = kx[1] - kx[0]
    a, b = float(rng.normal()), float(rng.normal())
    lin = Profile(kx, a + b*kx, unit_x=k.unit_x, unit_y=k.unit_y)
    sc = (abs(a) + abs(b)*np.max(np.abs(kx)))/dx
    for pos in (float(rng.uniform(kx[0], kx[-1])), float(kx[0] - .3*dx), float(kx[-1] + .7*dx), float(kx[0]), float(kx[-1])):
        for w in (None, .5*dx, 1.5*dx):
            m.check(abs(lin.get_gradient(position=pos, wanted_dx=w) - b) <= 1e-6*sc, 'gradient-over-length', lambda: '%s %s' % (pos, w))
    i = int(rng.integers(1, len(kx) - 1))
    g = k.get_gradient(position=float(kx[i]))
    m.check(abs(g - (k.y[i + 1] - k.y[i - 1])/(2*dx)) <= 1e-6*np.max(np.abs(k.y))/dx, 'gradient-at-sample')
    if len(kx) > 6:
        i = int(rng.integers(2, len(kx) - 2))
        g = k.get_gradient(position=float(kx[i]), wanted_dx=float(2*dx))
        m.check(abs(g - (k.y[i + 2] - k.y[i - 2])/(4*dx)) <= 1e-6*np.max(np.abs(k.y))/dx, 'gradient-over-two-steps')
    # smoothing directions
    dr, tos = G.pick(rng, ['x', 'y', 'xy']), G.pick(rng, ['uniform', 'gaussian'])
    size = None if rng.random() < .5 else int(G.pick(rng, [3, 5])) if tos == 'uniform' else float(G.pick(rng, [.7, 2.]))
    g = run(rng, p, 'smooth', tos=tos, size=size, direction=dr)
    struct(m, g, 'smooth-direction')
    base = G.pick(rng, ['x', 'y'])
    sx = p.smooth(tos=tos, size=size, direction='x')
    sy = p.smooth(tos=tos, size=size, direction='y')
    m.close(g.x, sx.x if 'x' in dr else x, 'smooth-direction-x', rtol=1e-12)
    m.close(g.y, sy.y if 'y' in dr else y, 'smooth-direction-y', rtol=1e-12)
    # the abscissa is smoothed as an ordinate would be
    w = Profile(np.arange(float(n)), x).smooth(tos=tos, size=size)
    m.close(sx.x, w.y, 'smooth-abscissa', rtol=1e-9, atol=1e-12)
    # given step
    if not np.allclose(np.diff(x), x[1] - x[0], rtol=1e-5, atol=0):
        st = float(np.ptp(x)/(int(rng.integers(2, 3*n)) + .5))
        e = run_(rng, p, 'evenly_space', dx=st)
        struct(m, e, 'step')
        m.check(len(e.x) == int(np.ptp(x)/st) + 1 and np.allclose(np.diff(e.x), np.ptp(x)/int(np.ptp(x)/st), rtol=1e-6), 'step-asked',
                lambda: '%s for %s' % (np.diff(e.x), st))
        m.check(np.allclose(e.y, np.interp(e.x, x, y), rtol=0, atol=1e-6*s), 'step-linear')
    # filling with a crop: the masked ends go, the rest is filled
    mk = rng.random(n) < .4
    mk[int(rng.integers(n))] = False
    if np.sum(~mk) >= 2:
        f = Profile(x, y, mask=mk, unit_x=p.unit_x, unit_y=p.unit_y)
        g = run(rng, f, 'fill', kind='linear', crop=True)
        ok = np.where(~mk)[0]
        sl = slice(ok[0], ok[-1] + 1)
        struct(m, g, 'fill-crop')
        m.close(g.x, x[sl], 'fill-crop-abscissa', rtol=1e-12)
        m.check(not np.any(g.mask), 'fill-crop-masked')
        m.check(np.allclose(g.y, np.interp(x[sl], x[ok], y[ok]), rtol=1e-9, atol=1e-9*s), 'fill-crop-values')
    # nothing valid, nothing at all
    z = Profile(x, y, mask=np.ones(n, dtype=bool), unit_x=p.unit_x, unit_y=p.unit_y)
    m.check(z.max is None and z.min is None and z.mean is None, 'extrema-of-nothing', lambda: '%s %s %s' % (z.max, z.min, z.mean))
    z = Profile()
    z.add_points(q)
    d = G.diff(G.snap(z), G.snap(q))
    m.check(d is None, 'points-added-to-empty', d)
    # ordinates given as a masked array
    z = p.copy()
    z.y = np.ma.masked_array(y*2, q.mask)
    m.check(np.array_equal(z.mask, q.mask) and np.allclose(z.y[~q.mask], 2*y[~q.mask]), 'masked-ordinates')
    # turned in place or not
    an = float(rng.uniform(-.3, .3))
    q2 = Profile(x, y*.1*np.ptp(x)/(s or 1.), unit_x=p.unit_x, unit_y=p.unit_x)
    r1, r2 = q2.rotate(an), q2.copy()
    r2.rotate(an, inplace=True)
    d = G.diff(G.snap(r1), G.snap(r2))
    m.check(d is None, 'rotate-in-place', d)
    m.check(np.allclose(r1.x, np.sort(x*np.cos(an) - q2.y*np.sin(an)), rtol=0, atol=1e-9*np.max(np.abs(x))) or
            np.allclose(r1.x, np.sort(x*np.cos(an) + q2.y*np.sin(an)), rtol=0, atol=1e-9*np.max(np.abs(x))), 'rotate-abscissa')


def run_(rng, p, name, *a, **k):
    """For operations returning the object they worked on."""
    if rng.random() < .4:
        g = p.copy()
        r = getattr(g, name)(*a, inplace=True, **k)
        return g
    return getattr(p, name)(*a, **k)
