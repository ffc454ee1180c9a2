"""C30: equality of objects."""
import numpy as np
from IMTreatment.core import (Points, OrientedPoints, Profile, ScalarField, VectorField,
                              TemporalScalarFields, TemporalVectorFields)
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random fields, series, profiles and point sets, compared with their copies and rebuilt twins (equal) and with versions '
        'in which exactly one thing differs: one sample, one mask bit, one coordinate, one instant, one unit (same or other '
        'dimension), the size, the class (not equal, never an error), in both orders.')
ASSUMPTIONS = ['scalar fields compare with a tolerance: changed samples differ by more than a thousandth of themselves',
               'orientations of points do not count (stored results of the test suite differ by them)',
               'what lies under a mask, names and display settings do not count']


def both(m, a, b, eq, sig):
    for x, y in ((a, b), (b, a)):
        r = (x == y)
        m.check(bool(r) is eq, sig, lambda: 'gave %r' % (r,))
        m.check(bool(x != y) is (not eq), sig + '-ne')


def bump(rng, a, ok=None):
    """Copy of a with one (allowed) element visibly changed."""
    a = np.array(a, dtype=float)
    idx = np.argwhere(np.ones(a.shape, bool) if ok is None else ok)
    if len(idx) == 0:
        raise Skip
    i = tuple(idx[int(rng.integers(len(idx)))])
    a[i] += (abs(a[i]) + 1.)*float(rng.uniform(.01, 2))*G.pick(rng, [-1, 1])
    return a


def otherunit(rng, u, fam):
    o = [w for w in fam if w != u]
    return G.pick(rng, o)


def build(d):
    if 'vy' in d:
        f = VectorField()
        f.import_from_arrays(d['x'], d['y'], d['v'], d['vy'], mask=d['mask'], unit_x=d['ux'], unit_y=d['uy'], unit_values=d['uv'])
    else:
        f = ScalarField()
        f.import_from_arrays(d['x'], d['y'], d['v'], mask=d['mask'], unit_x=d['ux'], unit_y=d['uy'], unit_values=d['uv'])
    return f


def mk(rng, vec, sh=None, ax=None, us=None):
    sh = sh or G.shape(rng, 2, 7)
    x, y = ax or (G.axis(rng, sh[0]), G.axis(rng, sh[1]))
    us = us or (G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.VEL))
    val = (lambda: np.full(sh, 1.5)) if rng.random() < .25 else (lambda: rng.normal(size=sh))
    d = dict(x=x, y=y, v=val(), ux=us[0], uy=us[1], uv=us[2],
             mask=rng.random(sh) < G.pick(rng, [0, .2]))
    if d['mask'].all():
        d['mask'][:] = False
    if vec:
        d['vy'] = val()
    return d


def visible(a, b, ok=True):
    return np.any(ok & (np.abs(a - b) > 1e-2*(np.abs(a) + np.abs(b))))


def stretch(rng, a):
    """Same axis with another last coordinate."""
    a = np.array(a)
    how = int(rng.integers(3))
    if how == 0 and len(a) > 2:
        # an inner coordinate, between its neighbours
        i = int(rng.integers(1, len(a) - 1))
        g = a[i + 1] - a[i] if rng.random() < .5 else a[i - 1] - a[i]
        a[i] += g*float(rng.uniform(.2, .8))
        if abs(g) > 1e-3*np.max(np.abs(a)):
            return a
        raise Skip
    if how == 1:
        return a + (np.max(np.abs(a)) + 1.)*float(rng.uniform(.01, 1))
    a[-1] += (abs(a[-1] - a[0]) + .1)*float(rng.uniform(.1, 1))
    return a


def change(rng, d):
    e = dict(d)
    what = G.pick(rng, ['v', 'mask', 'x', 'y', 'ux', 'uy', 'uv', 'dim', 'size', 'moved-mask', 'exchanged-samples', 'scaled', 'exchanged-units', 'transposed', 'turned'] +
                  (['vy', 'exchanged-components'] if 'vy' in d else []))
    ok = ~d['mask']
    if what == 'moved-mask':
        # as many masked points, elsewhere
        if not d['mask'].any():
            raise Skip
        i, j = G.pick(rng, np.argwhere(~ok)), G.pick(rng, np.argwhere(ok))
        k = np.array(d['mask'])
        k[tuple(i)], k[tuple(j)] = False, True
        e['mask'] = k
    elif what == 'exchanged-samples':
        if ok.sum() < 2:
            raise Skip
        q = np.argwhere(ok)
        i, j = [tuple(q[int(k)]) for k in rng.choice(len(q), 2, replace=False)]
        for n in ('v', 'vy') if 'vy' in d else ('v',):
            a = np.array(d[n])
            a[i], a[j] = a[j], a[i]
            e[n] = a
        if not visible(e['v'], d['v']):
            raise Skip
    elif what == 'scaled':
        k = G.pick(rng, [-1., 2., .5])
        n = G.pick(rng, ['v', 'vy']) if 'vy' in d else 'v'
        e[n] = d[n]*k
        if not visible(e[n], d[n], ok):
            raise Skip
    elif what == 'exchanged-units':
        if d['ux'] == d['uy']:
            raise Skip
        e['ux'], e['uy'] = d['uy'], d['ux']
    elif what == 'exchanged-components':
        e['v'], e['vy'] = d['vy'], d['v']
        if not visible(e['v'], d['v'], ok):
            raise Skip
    elif what in ('transposed', 'turned'):
        t = (lambda a: a.T.copy()) if what == 'transposed' else (lambda a: a[::-1].copy())
        if what == 'transposed' and len(d['x']) != len(d['y']):
            raise Skip
        for n in ('v', 'vy', 'mask'):
            if n in d:
                e[n] = t(d[n])
        if not (np.any(e['mask'] != d['mask']) or visible(e['v'], d['v'], ok)):
            raise Skip
    elif what in ('v', 'vy'):
        e[what] = bump(rng, d[what], ~d['mask'])
    elif what == 'mask':
        k = np.array(d['mask'])
        i = tuple(int(rng.integers(n)) for n in k.shape)
        k[i] = not k[i]
        if k.all():
            raise Skip
        e['mask'] = k
    elif what in ('x', 'y'):
        e[what] = stretch(rng, d[what])
    elif what in ('ux', 'uy'):
        e[what] = otherunit(rng, d[what], G.LEN)
    elif what == 'uv':
        e[what] = otherunit(rng, d[what], G.VEL)
    elif what == 'dim':
        e[G.pick(rng, ['ux', 'uy', 'uv'])] = G.pick(rng, ['K', 'kg', ''])
    else:
        if len(d['x']) < 3:
            raise Skip
        for k in ('v', 'vy', 'mask', 'x'):
            if k in d:
                e[k] = d[k][:-1]
        if e['mask'].all():
            raise Skip
    return what, e


@scenario('C30', 500)
def fields(m):
    rng = m.rng
    vec = bool(rng.random() < .5)
    d = mk(rng, vec)
    f = build(d)
    m.case('field', vec, d['v'].shape, d['ux'], d['uy'], d['uv'], float(d['v'][0, 0]))
    both(m, f, f.copy(), True, 'copy-differs')
    both(m, f, build(d), True, 'twin-differs')
    # what lies under the mask does not count
    e = dict(d, v=np.where(d['mask'], 7., d['v']))
    both(m, f, build(e), True, 'masked-sample-counts')
    what, e = change(rng, d)
    m.event('field:' + what)
    both(m, f, build(e), False, 'field-equal-despite-' + what)
    for o in (1., None, 'a', d['v'], f.axe_x):
        m.check(not np.any(f == o) or o is d['v'], 'field-equals-other-thing')
        break
    m.check(not (f == build(mk(rng, not vec, f.shape, (d['x'], d['y']), (d['ux'], d['uy'], d['uv'])))), 'scalar-field-equals-vector-field')


@scenario('C30', 300)
def series(m):
    rng = m.rng
    vec = bool(rng.random() < .5)
    n = int(rng.integers(1, 5))
    d0 = mk(rng, vec)
    us = (d0['ux'], d0['uy'], d0['uv'])
    ds = [mk(rng, vec, d0['v'].shape, (d0['x'], d0['y']), us) for _ in range(n)]
    ts = np.cumsum(rng.uniform(.1, 2, n))
    ut = G.pick(rng, G.TIM)

    def mks(ds, ts, ut):
        t = TemporalVectorFields() if vec else TemporalScalarFields()
        for d, tm in zip(ds, ts):
            t.add_field(build(d), float(tm), ut)
        return t
    t = mks(ds, ts, ut)
    m.case('series', vec, n, ut, float(ts[0]))
    both(m, t, t.copy(), True, 'series-copy-differs')
    both(m, t, mks(ds, ts, ut), True, 'series-twin-differs')
    what = G.pick(rng, ['field', 'field', 'time', 'unit', 'number', 'order'])
    if what == 'field':
        i = int(rng.integers(n))
        for _ in range(20):
            w, e = change(rng, ds[i])
            if w in ('v', 'vy', 'mask', 'moved-mask', 'exchanged-samples', 'scaled', 'exchanged-components', 'transposed', 'turned'):
                break
        else:
            raise Skip
        o = mks(ds[:i] + [e] + ds[i + 1:], ts, ut)
    elif what == 'time':
        o = mks(ds, stretch(rng, ts), ut)
    elif what == 'unit':
        o = mks(ds, ts, otherunit(rng, ut, G.TIM))
    elif what == 'number':
        if n < 2:
            raise Skip
        o = mks(ds[:-1], ts[:-1], ut)
    else:
        if n < 2:
            raise Skip
        if all(np.array_equal(a['mask'], b['mask']) and np.array_equal(a['v'], b['v']) for a, b in zip(ds, ds[::-1])):
            raise Skip
        o = mks(ds[::-1], ts, ut)
    m.event('series:' + what)
    both(m, t, o, False, 'series-equal-despite-' + what)
    m.check(not (t == t.fields[0]), 'series-equals-field')


@scenario('C30', 400)
def profiles(m):
    rng = m.rng
    n = int(rng.integers(1, 12))
    x = np.cumsum(rng.uniform(.1, 2, n))
    d = dict(x=x, y=rng.normal(size=n) if rng.random() < .7 else np.full(n, 2.), mask=rng.random(n) < .2, unit_x=G.pick(rng, G.LEN), unit_y=G.pick(rng, G.VEL))
    if d['mask'].all():
        d['mask'][:] = False
    p = Profile(**d)
    m.case('profile', n, d['unit_x'], float(x[0]))
    both(m, p, p.copy(), True, 'profile-copy-differs')
    both(m, p, Profile(**d), True, 'profile-twin-differs')
    e = dict(d)
    what = G.pick(rng, ['x', 'y', 'mask', 'unit_x', 'unit_y', 'dim', 'size', 'moved-mask', 'turned', 'exchanged-units'])
    if what == 'moved-mask':
        if not d['mask'].any():
            raise Skip
        i, j = int(G.pick(rng, np.where(d['mask'])[0])), int(G.pick(rng, np.where(~d['mask'])[0]))
        k = d['mask'].copy()
        k[i], k[j] = False, True
        e['mask'] = k
    elif what == 'turned':
        e['y'], e['mask'] = d['y'][::-1], d['mask'][::-1]
        if not (np.any(e['mask'] != d['mask']) or visible(e['y'], d['y'], ~d['mask'])):
            raise Skip
    elif what == 'exchanged-units':
        e['unit_x'], e['unit_y'] = d['unit_y'], d['unit_x']
    elif what == 'x':
        if d['mask'].any():
            raise Skip
        e['x'] = stretch(rng, x)
    elif what == 'y':
        e['y'] = bump(rng, d['y'], ~d['mask'])
    elif what == 'mask':
        k = d['mask'].copy()
        i = int(rng.integers(n))
        k[i] = not k[i]
        if k.all():
            raise Skip
        e['mask'] = k
    elif what == 'unit_x':
        e['unit_x'] = otherunit(rng, d['unit_x'], G.LEN)
    elif what == 'unit_y':
        e['unit_y'] = otherunit(rng, d['unit_y'], G.VEL)
    elif what == 'dim':
        e[G.pick(rng, ['unit_x', 'unit_y'])] = G.pick(rng, ['K', 'kg', ''])
    else:
        if n < 2:
            raise Skip
        for k in ('x', 'y', 'mask'):
            e[k] = d[k][:-1]
    m.event('profile:' + what)
    both(m, p, Profile(**e), False, 'profile-equal-despite-' + what)
    m.check(not (p == 3) and not (p == 'a'), 'profile-equals-other-thing')


@scenario('C30', 400)
def point_sets(m):
    rng = m.rng
    n = int(rng.integers(1, 8))
    ori = bool(rng.random() < .4)
    withv = bool(rng.random() < .6)
    d = dict(xy=rng.normal(size=(n, 2)), v=rng.normal(size=n) if withv else [], unit_x=G.pick(rng, G.LEN),
             unit_y=G.pick(rng, G.LEN), unit_v=G.pick(rng, G.VEL))
    if rng.random() < .2:
        d['xy'][:] = d['xy'][0]
    if ori:
        d['orientations'] = rng.normal(size=(n, 2, 2))
    cls = OrientedPoints if ori else Points
    p = cls(**d)
    m.case('points', n, ori, withv, float(d['xy'][0, 0]))
    both(m, p, p.copy(), True, 'points-copy-differ')
    both(m, p, cls(**d), True, 'points-twin-differ')
    e = dict(d)
    what = G.pick(rng, ['xy', 'v', 'unit_x', 'unit_y', 'unit_v', 'dim', 'size', 'empty', 'permuted', 'values-permuted', 'exchanged-units'])
    if what == 'permuted':
        q = np.roll(np.arange(n), 1)
        for k in ('xy', 'v', 'orientations'):
            if k in d and len(d[k]):
                e[k] = np.array(d[k])[q]
        if np.array_equal(e['xy'], d['xy']):
            raise Skip
    elif what == 'values-permuted':
        if not withv or n < 2:
            raise Skip
        e['v'] = np.roll(d['v'], 1)
    elif what == 'exchanged-units':
        if d['unit_x'] == d['unit_y']:
            raise Skip
        e['unit_x'], e['unit_y'] = d['unit_y'], d['unit_x']
    elif what == 'v' and not withv:
        e['v'] = rng.normal(size=n)
    elif what in ('xy', 'v', 'orientations'):
        e[what] = bump(rng, d[what])
    elif what in ('unit_x', 'unit_y'):
        e[what] = otherunit(rng, d[what], G.LEN)
    elif what == 'unit_v':
        e[what] = otherunit(rng, d[what], G.VEL)
    elif what == 'dim':
        e[G.pick(rng, ['unit_x', 'unit_y', 'unit_v'])] = 'K'
    elif what in ('size', 'empty'):
        k = 1 if what == 'size' else n
        if what == 'size' and n < 2:
            raise Skip
        for q in ('xy', 'v', 'orientations'):
            if q in d:
                e[q] = d[q][:n - k]
    m.event('points:' + what)
    if what == 'empty':
        o = Points(unit_x=d['unit_x'], unit_y=d['unit_y'], unit_v=d['unit_v'])
    else:
        o = cls(**e)
    both(m, p, o, False, 'points-equal-despite-' + what)
    m.check(not (p == 3) and not (p == 'a'), 'points-equal-other-thing')
    # repeated point
    xy = np.repeat(d['xy'][:1], n + 1, axis=0)
    v = [2.]*(n + 1) if withv else []
    us = {k: d[k] for k in ('unit_x', 'unit_y', 'unit_v')}
    both(m, Points(xy, v=v, **us), Points(xy[:1], v=v[:1], **us), False, 'repeated-point-equals-single-one')
