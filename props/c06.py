"""C06: changing units or scaling preserves the physical quantity."""
import numpy as np
from IMTreatment.core import (ScalarField, VectorField, Profile, Points, OrientedPoints, TemporalPoints,
                              TemporalScalarFields, TemporalVectorFields)
from IMTreatment.utils import make_unit
from vh.core import scenario
from vh import gen as G

RULE = ('Random objects of every container type, random compatible / incompatible target units on every axis, '
        'and scale factors (positive and negative numbers, quantities with units) on every combination of axes.')
ASSUMPTIONS = ['reference: independent SI unit table applied to (number, unit) pairs before and after',
               'negative spatial scaling of a vector field also reverses the component along the flipped axis '
               '(documented behaviour)']

ALLU = [u for f in G.FAMILIES for u in f]


def phys(o):
    """Observable content in SI: dict name -> (array, dims)."""
    def q(a, u):
        return np.asarray(a, dtype=float)*G.fac(u), tuple(sorted(G.dim(u).items()))
    if isinstance(o, ScalarField):
        return dict(x=q(o.axe_x, o.unit_x), y=q(o.axe_y, o.unit_y), v=q(o.values, o.unit_values), m=(o.mask*1., ()))
    if isinstance(o, VectorField):
        return dict(x=q(o.axe_x, o.unit_x), y=q(o.axe_y, o.unit_y), v=q(o.comp_x, o.unit_values),
                    w=q(o.comp_y, o.unit_values), m=(o.mask*1., ()))
    if isinstance(o, Profile):
        return dict(x=q(o.x, o.unit_x), y=q(o.y, o.unit_y), m=(o.mask*1., ()))
    if isinstance(o, Points):
        d = dict(x=q(o.xy[:, 0], o.unit_x), y=q(o.xy[:, 1], o.unit_y), v=q(o.v, o.unit_v))
        if isinstance(o, OrientedPoints):
            d['o'] = (np.array(o.orientations, dtype=float), ())
        return d
    if isinstance(o, (TemporalScalarFields, TemporalVectorFields)):
        d = dict(t=q(o.times, o.unit_times), x=q(o.axe_x, o.unit_x), y=q(o.axe_y, o.unit_y))
        for i, f in enumerate(o.fields):
            for k, v in phys(f).items():
                d['%s%d' % (k, i)] = v
        return d
    if isinstance(o, TemporalPoints):
        d = dict(t=q(o.times, o.unit_times))
        for i, p in enumerate(o.point_sets):
            for k, v in phys(p).items():
                d['%s%d' % (k, i)] = v
        return d
    raise TypeError(o)


def same(m, a, b, sig, rtol=1e-8):
    if not m.check(set(a) == set(b), sig + '-content', lambda: '%s vs %s' % (sorted(a), sorted(b))):
        return
    for k in a:
        m.check(a[k][1] == b[k][1], sig + '-dimension', lambda: '%s: %s want %s' % (k, a[k][1], b[k][1]))
        m.close(a[k][0], b[k][0], sig + '-quantity', rtol=rtol, atol=1e-9, detail=k)


def oriented(rng, **k):
    p = G.points(rng, **k)
    n = len(p.xy)
    return OrientedPoints(p.xy, rng.normal(size=(n, 2, 2)), v=p.v, unit_x=p.unit_x, unit_y=p.unit_y,
                          unit_v=p.unit_v, name='o')


def tpoints(rng, units=None, ut=None):
    t = TemporalPoints()
    units = units or G.unit_lv(rng)
    ut = G.pick(rng, G.TIM) if ut is None else ut
    for ti in rng.permutation(G.times(rng, int(rng.integers(1, 5)))):
        t.add_pts(G.points(rng, units=units, withv=True), time=float(ti), unit_times=ut)
    return t


def obj(rng, kind=None):
    """(object, {axis name: unit string})."""
    kind = kind or G.pick(rng, ['sf', 'vf', 'prof', 'pts', 'opts', 'tsf', 'tvf', 'tpts'])
    ux, uy, uv, ut = G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, ALLU), G.pick(rng, G.TIM)
    u = dict(x=ux, y=uy, values=uv)
    if kind in ('sf', 'vf'):
        return getattr(G, kind)(rng, units=(ux, uy, uv), uniform=rng.random() < .6), u
    if kind == 'prof':
        ux = G.pick(rng, ALLU)
        return G.profile(rng, units=(ux, uv)), dict(x=ux, y=uv)
    if kind in ('pts', 'opts'):
        f = G.points if kind == 'pts' else oriented
        return f(rng, units=(ux, uy, uv)), dict(x=ux, y=uy, v=uv)
    if kind in ('tsf', 'tvf'):
        return G.tf(rng, kind=kind[1], units=(ux, uy, uv), ut=ut), dict(u, time=ut)
    return tpoints(rng, (ux, uy, uv), ut), dict(u, time=ut)


@scenario('C06', 700, 20000)
def change_unit(m):
    rng = m.rng
    o, units = obj(rng)
    axe = G.pick(rng, sorted(units))
    fam = G.family_of(units[axe])
    new = G.pick(rng, fam)
    m.case(type(o).__name__, G.tdesc(o), axe, units[axe], '->', new)
    before, numbers = phys(o), G.snap(o)
    o.change_unit(axe, new if rng.random() < .5 else make_unit(new))
    same(m, phys(o), before, 'change-unit')
    got = unit_of(o, axe)
    m.check(np.isclose(G.fac(got), G.fac(make_unit(new)), rtol=1e-9), 'unit-is-the-asked-one',
            lambda: '%s asked %s' % (got, new))
    # exactly the asked axis changes
    s2 = G.snap(o)
    check_others(m, o, numbers, s2, axe)
    # in two steps or in one
    via = G.pick(rng, fam)
    o.change_unit(axe, via)
    same(m, phys(o), before, 'change-unit-again')
    o.change_unit(axe, units[axe])
    m.check(G.diff(G.snap(o), numbers, exact=False, rtol=1e-8) is None, 'change-back-restores-numbers',
            lambda: G.diff(G.snap(o), numbers, exact=False, rtol=1e-8))


def unit_of(o, axe):
    if axe == 'time':
        return o.unit_times
    if axe == 'values':
        return o.point_sets[0].unit_v if isinstance(o, TemporalPoints) else o.unit_values
    return getattr(o, 'unit_' + axe)


def strip(s, axe, kind):
    """Drop from a snapshot what belongs to the axis."""
    drop = {'x': ['x', 'ux'], 'y': ['y', 'uy'], 'values': ['v', 'vx', 'vy', 'uv'], 'v': ['v', 'uv'],
            'time': ['t', 'ut']}[axe]
    k, d = s
    if k == 'l':
        return (k, [strip(e, axe, kind) for e in d])
    if not isinstance(d, dict):
        return s
    out = {}
    for n, v in d.items():
        if k in ('ScalarField', 'VectorField') and axe == 'time':
            out[n] = v
        elif n in drop:
            continue
        elif k == 'Points' and n == 'xy' and axe in 'xy':
            a = v[1].copy()
            a[:, 'xy'.index(axe)] = 0
            out[n] = ('a', a)
        else:
            out[n] = strip(v, axe, kind)
    return (k, out)


def check_others(m, o, a, b, axe):
    d = G.diff(strip(a, axe, 0), strip(b, axe, 0))
    m.check(d is None, 'other-axes-untouched', d)


@scenario('C06', 250, 6000)
def incompatible_unit_refused(m):
    rng = m.rng
    o, units = obj(rng)
    axe = G.pick(rng, sorted(units))
    bad = [u for u in ALLU if G.dim(make_unit(u)) != G.dim(make_unit(units[axe]))]
    new = G.pick(rng, bad)
    m.case(type(o).__name__, axe, units[axe], '->', new)
    s = G.snap(o)
    m.raises(lambda: o.change_unit(axe, new), 'incompatible-unit-accepted', detail='%s to %s' % (units[axe], new))
    m.check(G.diff(s, G.snap(o)) is None, 'refusal-leaves-object-unchanged', lambda: G.diff(s, G.snap(o)))
    m.raises(lambda: o.change_unit('nope', 'm'), 'unknown-axis-accepted')


def factor(rng):
    """(argument, SI factor, dims)."""
    k = float(G.pick(rng, [2., .5, 3., -1., -2., 10., .1, -.25, float(rng.uniform(.2, 5))]))
    r = rng.random()
    if r < .15:
        return int(np.sign(k)*max(1, abs(int(k)))), float(np.sign(k)*max(1, abs(int(k)))), {}
    if r < .5:
        return k, k, {}
    u = make_unit(G.pick(rng, ['m', 'mm', 's', 'Hz', '1/s', 'km', 'm/s', 'kg', '']))
    return k*u, k*G.fac(u), G.dim(u)


def mul(p, f, d, flip=False, axis=0):
    return p[0]*f, tuple(sorted(G.dimmul(dict(p[1]), d).items()))


@scenario('C06', 700, 20000)
def scale(m):
    rng = m.rng
    o, units = obj(rng)
    names = {'sf': 'xyv'}
    args = {}
    fs = {}
    avail = dict(x='scalex', y='scaley', v='scalev', t='scalet')
    if isinstance(o, Profile):
        del avail['v'], avail['t']
    elif isinstance(o, (ScalarField, VectorField, Points)):
        del avail['t']
    for k, a in avail.items():
        if rng.random() < .6:
            arg, f, d = factor(rng)
            args[a] = arg
            fs[k] = (f, d)
    m.case(type(o).__name__, G.tdesc(o), args)
    exp = expected_scale(o, fs)
    inplace = rng.random() < .5
    if inplace:
        r = o.copy()
        r.scale(inplace=True, **args)
    else:
        s = G.snap(o)
        r = o.scale(inplace=False, **args)
        m.check(G.diff(s, G.snap(o)) is None, 'original-untouched')
    same(m, phys(r), exp, 'scale')
    if isinstance(r, (ScalarField, VectorField)):
        G.chk_field(m, r, 'scaled')
    for n, u in [(n, unit_of(r, n)) for n in units]:
        m.check(np.isclose(u.asNumber(), 1), 'unit-not-normalised', lambda: '%s %s' % (n, u))


def expected_scale(o, fs):
    one = (1., {})
    fx, fy, fv, ft = (fs.get(k, one) for k in 'xyvt')
    p = phys(o)
    if isinstance(o, (ScalarField, VectorField)):
        sl = (slice(None, None, -1 if fx[0] < 0 else 1), slice(None, None, -1 if fy[0] < 0 else 1))
        out = dict(x=mul((p['x'][0][sl[0]], p['x'][1]), *fx), y=mul((p['y'][0][sl[1]], p['y'][1]), *fy),
                   m=(p['m'][0][sl], ()))
        sx = sy = 1.
        if isinstance(o, VectorField):
            sx, sy = np.sign(fx[0]), np.sign(fy[0])
            out['w'] = mul((p['w'][0][sl]*sy, p['w'][1]), *fv)
        out['v'] = mul((p['v'][0][sl]*sx, p['v'][1]), *fv)
        return out
    if isinstance(o, Profile):
        sl = slice(None, None, -1 if fx[0] < 0 else 1)
        return dict(x=mul((p['x'][0][sl], p['x'][1]), *fx), y=mul((p['y'][0][sl], p['y'][1]), *fy),
                    m=(p['m'][0][sl], ()))
    if isinstance(o, Points):
        out = dict(p, x=mul(p['x'], *fx), y=mul(p['y'], *fy), v=mul(p['v'], *fv))
        return out
    subs = o.fields if not isinstance(o, TemporalPoints) else o.point_sets
    order = range(len(subs))
    if ft[0] < 0:
        order = list(order)[::-1]
    out = dict(t=mul((p['t'][0][list(order)], p['t'][1]), *ft))
    for i, j in enumerate(order):
        e = expected_scale(subs[j], fs)
        for k, v in e.items():
            out['%s%d' % (k, i)] = v
    if not isinstance(o, TemporalPoints):
        out['x'], out['y'] = out['x0'], out['y0']
    return out


@scenario('C06', 150, 4000)
def scale_back(m):
    """Scaling by f then 1/f restores the object; scaling composes."""
    rng = m.rng
    o, units = obj(rng)
    f, g = float(rng.uniform(.2, 4)), float(rng.uniform(.2, 4))*(1 if rng.random() < .5 else -1)
    axes = [a for a in ('scalex', 'scaley') if rng.random() < .7] or ['scalex']
    m.case(type(o).__name__, axes, f, g)
    a = o.scale(inplace=False, **{k: f for k in axes}).scale(inplace=False, **{k: g for k in axes})
    b = o.scale(inplace=False, **{k: f*g for k in axes})
    same(m, phys(a), phys(b), 'scalings-compose')
    c = b.scale(inplace=False, **{k: 1/(f*g) for k in axes})
    same(m, phys(c), phys(o), 'scale-back')
