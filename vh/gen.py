"""Seeded generators of library objects, an SI reference model of units, and
snapshots of the observable state of objects."""
import numpy as np
import unum
from IMTreatment.core import (ScalarField, VectorField, Profile, Points,
                              OrientedPoints, TemporalScalarFields,
                              TemporalVectorFields)
from IMTreatment.core import TemporalPoints
from IMTreatment.utils import make_unit

# ---------------------------------------------------------------- units (SI)
_T = {'m': (1., 'L'), 'mm': (1e-3, 'L'), 'cm': (1e-2, 'L'), 'km': (1e3, 'L'),
      'um': (1e-6, 'L'), 's': (1., 'T'), 'ms': (1e-3, 'T'), 'min': (60., 'T'),
      'h': (3600., 'T'), 'us': (1e-6, 'T'), 'kg': (1., 'M'), 'g': (1e-3, 'M'),
      'K': (1., 'K'), 'counts': (1., 'C'), 'px': (1., 'P')}
_D = {'rad': (1., {}), 'deg': (np.pi/180., {}), 'Hz': (1., {'T': -1}),
      'N': (1., {'M': 1, 'L': 1, 'T': -2}),
      'Pa': (1., {'M': 1, 'L': -1, 'T': -2}),
      'kPa': (1e3, {'M': 1, 'L': -1, 'T': -2}),
      'J': (1., {'M': 1, 'L': 2, 'T': -2}),
      'W': (1., {'M': 1, 'L': 2, 'T': -3})}


def si(u):
    """(number, dimensions) of a Unum in SI, from an independent table."""
    if not isinstance(u, unum.Unum):
        return float(u), {}
    f, dims = 1., {}
    val = u._value
    for name, e in u._unit.items():
        if name in _T:
            ff, d = _T[name][0], {_T[name][1]: 1}
        else:
            ff, d = _D[name]
        f *= ff**e
        for k, v in d.items():
            dims[k] = dims.get(k, 0) + v*e
    dims = {k: round(v, 9) for k, v in dims.items() if abs(v) > 1e-9}
    return val*f, dims


def fac(u):
    return si(u)[0]


def dim(u):
    return si(u)[1]


def dimmul(a, b, p=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = round(r.get(k, 0) + p*v, 9)
    return {k: v for k, v in r.items() if abs(v) > 1e-9}


LEN = ['m', 'mm', 'cm', 'km', 'um']
TIM = ['s', 'ms', 'min', 'h']
VEL = ['m/s', 'mm/s', 'km/h', 'cm/s', 'm/min']
ANG = ['rad', '']
OTH = ['Pa', 'K', 'kg', 'm**2/s', '1/s', 'counts', 'px']
FAMILIES = [LEN, TIM, VEL, ANG, ['Pa', 'N/m**2'], ['1/s', '1/ms', 'Hz', '1/min'],
            ['m**2/s', 'mm**2/s'], ['kg', 'g']]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def family_of(ustr):
    for f in FAMILIES:
        if ustr in f:
            return f
    return [ustr]


def unit_lv(rng):
    """(unit_x, unit_y, unit_values) strings."""
    ux = pick(rng, LEN + ['', 'px'])
    uy = ux if rng.random() < .5 else pick(rng, LEN)
    if ux in ('', 'px'):
        uy = ux
    uv = pick(rng, VEL + ['', 'Pa', 'm', 'K', '1/s'])
    return ux, uy, uv


# ---------------------------------------------------------------- grids
def axis(rng, n, uniform=None, nice=None):
    if uniform is None:
        uniform = rng.random() < .7
    if nice is None:
        nice = rng.random() < .3
    if nice:
        d = float(pick(rng, [1, 2, .5, .25, 4]))
        a0 = float(rng.integers(-6, 7))*d
    else:
        d = float(10**rng.uniform(-1.5, 1.5))
        a0 = float(rng.uniform(-4, 4)*d)
    if uniform:
        return a0 + d*np.arange(n)
    return a0 + np.concatenate([[0.], np.cumsum(d*rng.uniform(.3, 1.7, n - 1))])


def shape(rng, lo=3, hi=10):
    if (lo, hi) == (3, 10) and rng.random() < .03:
        # now and then a larger grid (size-dependent branches)
        hi = 45
    return int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))


def mask(rng, sh, kind=None, p=None):
    """Mask patterns: none, sparse, block, border, row/col."""
    if kind is None:
        kind = pick(rng, ['none', 'sparse', 'sparse', 'block', 'border', 'lines', 'dense'])
    m = np.zeros(sh, dtype=bool)
    if kind == 'sparse':
        m = rng.random(sh) < .15
    elif kind == 'dense':
        m = rng.random(sh) < .45
    elif kind == 'block':
        i, j = int(rng.integers(sh[0])), int(rng.integers(sh[1]))
        big = 1 + max(sh)//10
        m[i:i + int(rng.integers(1, 4))*big, j:j + int(rng.integers(1, 4))*big] = True
    elif kind == 'border':
        b = rng.integers(0, 2, 4)
        if b[0]:
            m[0] = True
        if b[1]:
            m[-1] = True
        if b[2]:
            m[:, 0] = True
        if b[3]:
            m[:, -1] = True
    elif kind == 'lines':
        m[int(rng.integers(sh[0]))] = True
        m |= rng.random(sh) < .05
    if m.all():
        m[sh[0]//2, sh[1]//2] = False
    return m


def values(rng, sh):
    k = rng.random()
    if k < .6:
        return rng.normal(size=sh)*10**rng.uniform(-2, 2)
    if k < .8:
        return rng.integers(-5, 6, size=sh).astype(float)
    return rng.uniform(.5, 3., size=sh)


def grid(rng, lo, hi, sh, uniform, nice):
    free = sh is None
    sh = sh or shape(rng, lo, hi)
    ax, ay = axis(rng, sh[0], uniform, nice), axis(rng, sh[1], uniform, nice)
    if free and rng.random() < .06:
        # a square domain: both axes hold the same numbers
        return (sh[0], sh[0]), ax, ax.copy()
    return sh, ax, ay


def sf(rng, lo=3, hi=10, maskkind=None, units=None, uniform=None, nice=None,
       sh=None, axes=None):
    if axes is not None:
        ax, ay = axes
        sh = len(ax), len(ay)
    else:
        sh, ax, ay = grid(rng, lo, hi, sh, uniform, nice)
    ux, uy, uv = units or unit_lv(rng)
    f = ScalarField()
    f.import_from_arrays(ax, ay, values(rng, sh), mask=mask(rng, sh, maskkind),
                         unit_x=ux, unit_y=uy, unit_values=uv)
    return f


def vf(rng, lo=3, hi=10, maskkind=None, units=None, uniform=None, nice=None,
       sh=None, axes=None):
    if axes is not None:
        ax, ay = axes
        sh = len(ax), len(ay)
    else:
        sh, ax, ay = grid(rng, lo, hi, sh, uniform, nice)
    ux, uy, uv = units or unit_lv(rng)
    f = VectorField()
    f.import_from_arrays(ax, ay, values(rng, sh), values(rng, sh),
                         mask=mask(rng, sh, maskkind), unit_x=ux, unit_y=uy,
                         unit_values=uv)
    return f


def field(rng, **k):
    return sf(rng, **k) if rng.random() < .5 else vf(rng, **k)


def profile(rng, lo=2, hi=25, masked=None, units=None, uniform=None):
    n = int(rng.integers(lo, hi + 1))
    x = axis(rng, n, uniform)
    y = values(rng, (n,))
    if masked is None:
        masked = rng.random() < .5
    mk = rng.random(n) < .2 if masked else np.zeros(n, dtype=bool)
    if mk.all():
        mk[0] = False
    ux, uy = units or (pick(rng, LEN + TIM + ['']), pick(rng, VEL + ['', 'Pa', 'm']))
    return Profile(x, y, mask=mk, unit_x=ux, unit_y=uy, name='p')


def points(rng, lo=1, hi=12, withv=None, units=None):
    n = int(rng.integers(lo, hi + 1))
    xy = rng.normal(size=(n, 2))*10**rng.uniform(-1, 1)
    if withv is None:
        withv = rng.random() < .6
    v = rng.normal(size=n) if withv else None
    ux, uy, uv = units or unit_lv(rng)
    return Points(xy, v=v, unit_x=ux, unit_y=uy, unit_v=uv, name='pts')


def times(rng, n, uniform=None):
    if uniform is None:
        uniform = rng.random() < .5
    t0 = float(rng.uniform(-2, 5)) if rng.random() < .7 else 0.
    d = float(10**rng.uniform(-1, 1))
    if uniform:
        return t0 + d*np.arange(n)
    return t0 + np.concatenate([[0.], np.cumsum(d*rng.uniform(.3, 1.7, n - 1))])


def tf(rng, kind=None, lo=1, hi=6, maskkind=None, units=None, ut=None,
       uniform=None, samemask=None, nlo=3, nhi=7, tuniform=None):
    kind = kind or pick(rng, ['s', 'v'])
    n = int(rng.integers(lo, hi + 1))
    sh = shape(rng, nlo, nhi)
    axes = axis(rng, sh[0], uniform), axis(rng, sh[1], uniform)
    units = units or unit_lv(rng)
    ut = pick(rng, TIM + ['']) if ut is None else ut
    t = times(rng, n, tuniform)
    res = TemporalScalarFields() if kind == 's' else TemporalVectorFields()
    if samemask is None:
        samemask = rng.random() < .4
    mk = mask(rng, sh, maskkind)
    for i in range(n):
        f = (sf if kind == 's' else vf)(rng, axes=axes, units=units,
                                        maskkind='none' if samemask else maskkind)
        if samemask:
            f.mask = mk
        res.add_field(f, time=float(t[i]), unit_times=ut)
    return res


# ---------------------------------------------------------------- snapshots
def _arr(a):
    return np.array(a, copy=True)


def snap(o, depth=0):
    """Observable state of an object as nested plain data (own copies)."""
    if o is None or isinstance(o, (str, bool)):
        return ('c', o)
    if isinstance(o, unum.Unum):
        return ('u', si_or_str(o))
    if isinstance(o, (int, float, complex, np.number, np.bool_)):
        return ('n', np.array(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('l', [snap(e) for e in o.ravel()])
        return ('a', _arr(o))
    if isinstance(o, (list, tuple)):
        return ('l', [snap(e) for e in o])
    if isinstance(o, ScalarField):
        return ('ScalarField', dict(x=snap(o.axe_x), y=snap(o.axe_y), ux=snap(o.unit_x),
                                    uy=snap(o.unit_y), v=('a', _arr(o.values)),
                                    m=('a', _arr(o.mask)), uv=snap(o.unit_values)))
    if isinstance(o, VectorField):
        return ('VectorField', dict(x=snap(o.axe_x), y=snap(o.axe_y), ux=snap(o.unit_x),
                                    uy=snap(o.unit_y), vx=('a', _arr(o.comp_x)),
                                    vy=('a', _arr(o.comp_y)), m=('a', _arr(o.mask)),
                                    uv=snap(o.unit_values)))
    if isinstance(o, Profile):
        return ('Profile', dict(x=('a', _arr(o.x)), y=('a', _arr(o.y)), m=('a', _arr(o.mask)),
                                ux=snap(o.unit_x), uy=snap(o.unit_y), name=snap(o.name)))
    if isinstance(o, Points):
        d = dict(xy=('a', _arr(o.xy)), v=snap(o.v), ux=snap(o.unit_x), uy=snap(o.unit_y),
                 uv=snap(o.unit_v))
        if hasattr(o, 'orientations'):
            d['or'] = ('a', _arr(o.orientations))
        return ('Points', d)
    if isinstance(o, (TemporalScalarFields, TemporalVectorFields)):
        return (type(o).__name__, dict(
            t=('a', _arr(o.times)), ut=snap(o.unit_times), x=snap(o.axe_x), y=snap(o.axe_y),
            ux=snap(o.unit_x), uy=snap(o.unit_y), uv=snap(o.unit_values),
            f=('l', [snap(f) for f in o.fields])))
    if isinstance(o, TemporalPoints):
        return ('TemporalPoints', dict(t=('a', _arr(o.times)), ut=snap(o.unit_times),
                                       p=('l', [snap(p) for p in o.point_sets])))
    if isinstance(o, dict):
        return ('d', {k: snap(v) for k, v in o.items()})
    return ('o', type(o).__name__)


def si_or_str(u):
    try:
        f, d = si(u)
        return (float(f), tuple(sorted(d.items())))
    except KeyError:
        return str(u)


def diff(a, b, exact=True, rtol=1e-9, path='', sc=0.):
    """First difference between two snapshots, or None."""
    if a[0] != b[0]:
        return '%s: kind %s != %s' % (path, a[0], b[0])
    k, x, y = a[0], a[1], b[1]
    if k in ('a', 'n'):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return '%s: shape %s != %s' % (path, x.shape, y.shape)
        if x.size == 0:
            return None
        if exact or x.dtype == bool or y.dtype == bool:
            with np.errstate(all='ignore'):
                same = (x == y)
                if x.dtype.kind in 'fc' and y.dtype.kind in 'fc':
                    same = same | (np.isnan(x) & np.isnan(y))
            if not np.all(same):
                return '%s: %s != %s' % (path, str(x)[:300], str(y)[:300])
        else:
            fin = np.abs(x[np.isfinite(x)]) if x.dtype.kind in 'fciu' else np.zeros(0)
            sc = max(sc, fin.max() if fin.size else 0.)
            if not np.allclose(x, y, rtol=rtol, atol=rtol*sc + 1e-300, equal_nan=True):
                return '%s: %s !~ %s' % (path, str(x)[:300], str(y)[:300])
        return None
    if k == 'l':
        if len(x) != len(y):
            return '%s: length %d != %d' % (path, len(x), len(y))
        for i, (e, f) in enumerate(zip(x, y)):
            d = diff(e, f, exact, rtol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(x, dict):
        if set(x) != set(y):
            return '%s: keys' % path
        vs = 0.
        if 'vx' in x and 'vy' in x and not exact:       # components of one vector: one scale
            vs = [np.abs(np.asarray(x[q][1], dtype=float)) for q in ('vx', 'vy')]
            vs = max([float(v[np.isfinite(v)].max()) for v in vs if np.isfinite(v).any()] or [0.])
        for kk in x:
            d = diff(x[kk], y[kk], exact, rtol, path + '.' + str(kk), vs if kk in ('vx', 'vy') else 0.)
            if d:
                return d
        return None
    if k == 'u':
        if isinstance(x, str) or isinstance(y, str):
            return None if x == y else '%s: unit %s != %s' % (path, x, y)
        if x[1] != y[1] or not np.isclose(x[0], y[0], rtol=1e-9):
            return '%s: unit %s != %s' % (path, x, y)
        return None
    return None if x == y else '%s: %r != %r' % (path, x, y)


def tdesc(o):
    """Short description of an object for evidence."""
    if isinstance(o, (ScalarField, VectorField)):
        return '%s%s mask=%d ux=%s uy=%s uv=%s x0=%.4g' % (
            type(o).__name__, o.shape, int(np.sum(o.mask)), o.unit_x.strUnit(),
            o.unit_y.strUnit(), o.unit_values.strUnit(), o.axe_x[0])
    if isinstance(o, Profile):
        return 'Profile(%d) masked=%d ux=%s uy=%s x0=%.4g' % (
            len(o.x), int(np.sum(o.mask)), o.unit_x.strUnit(), o.unit_y.strUnit(), o.x[0])
    if isinstance(o, Points):
        return '%s(%d) v=%s ux=%s x0=%s' % (type(o).__name__, len(o.xy), o.v is not None and len(o.v),
                                            o.unit_x.strUnit(), o.xy[:1])
    if isinstance(o, (TemporalScalarFields, TemporalVectorFields)):
        return '%s n=%d times=%s ut=%s first=%s' % (
            type(o).__name__, len(o.fields), np.round(o.times, 4), o.unit_times.strUnit(),
            tdesc(o.fields[0]) if len(o.fields) else '-')
    if isinstance(o, TemporalPoints):
        return 'TemporalPoints n=%d times=%s' % (len(o.point_sets), o.times)
    return repr(o)[:120]


def chk_field(m, f, sig='field'):
    """Structural invariants of a scalar or vector field."""
    sh = (len(f.axe_x), len(f.axe_y))
    ok = (isinstance(f.axe_x, np.ndarray) and isinstance(f.axe_y, np.ndarray) and
          f.axe_x.ndim == 1 and f.axe_y.ndim == 1 and f.shape == sh)
    m.check(ok, sig + '-axes', lambda: 'axes %r %r' % (f.axe_x, f.axe_y))
    m.check(np.all(np.diff(f.axe_x) > 0) and np.all(np.diff(f.axe_y) > 0),
            sig + '-axes-increasing', lambda: '%s %s' % (f.axe_x, f.axe_y))
    mk = np.asarray(f.mask)
    m.check(mk.shape == sh and mk.dtype == bool, sig + '-mask-shape',
            lambda: 'mask %s %s, axes %s' % (mk.shape, mk.dtype, sh))
    comps = [f.values] if isinstance(f, ScalarField) else [f.comp_x, f.comp_y]
    for c in comps:
        c = np.asarray(c)
        if not m.check(c.shape == sh, sig + '-values-shape', lambda: '%s vs axes %s' % (c.shape, sh)):
            continue
        if mk.shape == sh and c.dtype.kind == 'f':
            m.check(np.array_equal(np.isnan(c), mk), sig + '-masked-is-nan',
                    lambda: 'mask %s values %s' % (mk, c))
    for u in (f.unit_x, f.unit_y, f.unit_values):
        m.check(isinstance(u, unum.Unum) and abs(u.asNumber() - 1) < 1e-9, sig + '-unit',
                lambda: repr(u))
