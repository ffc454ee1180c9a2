"""C01: operations that return a new object never touch their inputs."""
import numpy as np
from vh.core import scenario, Skip
from vh import gen as G
from vh import ops as O

RULE = ('Every public operation of the container classes (operation table in vh/ops.py), drawn at random with valid '
        'arguments on random objects; then every array reachable from the result is overwritten and the inputs are '
        'observed again, and the other way round.')
ASSUMPTIONS = ['observable state: axes, values, mask, units, times, orientations and sub-objects read through the '
               'public attributes; array-valued attributes returned by property reads are not results']

# attribute reads hand out the array itself: reading, not an operation returning a new object
VIEWS = ('values', 'Vx', 'magnitude', 'theta', 'mask')


@scenario('C01', 3000, 60000)
def preserved(m):
    rng = m.rng
    o = O.make(rng)
    op = G.pick(rng, [e for e in O.table(o) if e.how != 'mut'])
    a, k = op.call(rng, o)
    m.case(G.tdesc(o), op.name, a, k)
    s = G.snap(o)
    sa = [G.snap(e) for e in a] + [G.snap(e) for e in k.values()]
    what = '%s.%s' % (type(o).__name__, op.name)
    try:
        r = op.apply(o, a, k, inplace=False)
    except Exception as e:
        r = e
        m.event('refused:' + what)
    d = G.diff(G.snap(o), s)
    m.check(d is None, 'input-changed#' + what, d)
    for e, b in zip(list(a) + list(k.values()), sa):
        d = G.diff(G.snap(e), b)
        m.check(d is None, 'argument-changed#' + what, d)
    if isinstance(r, Exception):
        return
    m.event('op:' + what)
    m.check(r is not o, 'result-is-the-input#' + what)
    if op.name in VIEWS:
        return
    sr = G.snap(r)
    # changing the input (and arguments) afterwards does not reach the result
    c = o.copy()
    O.scribble(o, rng)
    for e in list(a) + list(k.values()):
        if not isinstance(e, (tuple, list)):
            O.scribble(e, rng)
    d = G.diff(G.snap(r), sr)
    m.check(d is None, 'result-shares-state-with-input#' + what, d)
    # and changing the result does not reach the input
    s = G.snap(c)
    try:
        r = op.apply(c, *op.call(rng, c), inplace=False)
    except (Skip, Exception):
        return
    s = G.snap(c)
    O.scribble(r, rng)
    d = G.diff(G.snap(c), s)
    m.check(d is None, 'input-shares-state-with-result#' + what, d)


@scenario('C01', 800, 20000)
def copies(m):
    """A copy equals the original and lives its own life through in-place operations."""
    rng = m.rng
    o = O.make(rng)
    c = o.copy()
    m.case(G.tdesc(o))
    s = G.snap(o)
    m.check(G.diff(G.snap(c), s) is None, 'copy-differs', lambda: G.diff(G.snap(c), s))
    m.check(type(c) is type(o), 'copy-type')
    for step in range(int(rng.integers(1, 4))):
        op = G.pick(rng, [e for e in O.table(c) if e.how != 'pure'])
        m.case(op.name)
        try:
            a, k = op.call(rng, c)
            op.apply(c, a, k, inplace=True)
        except (Skip, Exception):
            break
        m.event('op:%s.%s' % (type(o).__name__, op.name))
        d = G.diff(G.snap(o), s)
        m.check(d is None, 'copy-shares-state#' + op.name, d)
    O.scribble(c, rng)
    d = G.diff(G.snap(o), s)
    m.check(d is None, 'copy-shares-state', d)


@scenario('C01', 500, 10000)
def given_arrays(m):
    """Objects built from arrays, and series built from fields, do not keep references to them."""
    rng = m.rng
    from IMTreatment.core import (ScalarField, VectorField, Profile, Points, TemporalPoints, TemporalScalarFields)
    sh = G.shape(rng, 2, 6)
    x, y = G.axis(rng, sh[0]), G.axis(rng, sh[1])
    v, w, mk = rng.normal(size=sh), rng.normal(size=sh), G.mask(rng, sh)
    kind = G.pick(rng, ['sf', 'vf', 'prof', 'pts', 'ts', 'tp', 'setters', 'psetters', 'vsetters'])
    m.case(kind, sh)
    m.event('build:' + kind)
    arrs = [x, y, v, w, mk]
    if kind == 'sf':
        o = ScalarField()
        o.import_from_arrays(x, y, v, mask=mk)
    elif kind == 'vf':
        o = VectorField()
        o.import_from_arrays(x, y, v, w, mask=mk)
    elif kind == 'prof':
        arrs = [x, v[:, 0].copy(), mk[:, 0].copy()]
        o = Profile(*arrs)
    elif kind == 'pts':
        arrs = [v[:, :2].copy(), w[:, 0].copy()]
        o = Points(*arrs)
    elif kind in ('ts', 'setters'):
        f = ScalarField()
        f.import_from_arrays(x, y, v, mask=False)
        if kind == 'ts':
            o = TemporalScalarFields()
            o.add_field(f, time=1.)
            f2 = f*2
            o.add_field(f2, time=2.)
            t = np.array([3., 4.])
            o.times = t
            arrs = [f, f2, t]
        else:
            o = f
            o.values = w
            o.mask = mk
            x2, y2 = x + 1, y + 1
            o.axe_x = x2
            o.axe_y = y2
            arrs = [w, mk, x2, y2]
    elif kind == 'vsetters':
        o = VectorField()
        o.import_from_arrays(x, y, v, w, mask=False)
        a, b, x2, y2 = v + 1, w + 1, x + 1, y + 1
        o.comp_x = a
        o.comp_y = b
        o.mask = mk
        o.axe_x = x2
        o.axe_y = y2
        arrs = [a, b, mk, x2, y2]
    elif kind == 'psetters':
        o = Profile(x, v[:, 0], mask=False)
        a, b = w[:, 0].copy(), mk[:, 0].copy()
        o.y = a
        o.mask = b
        arrs = [a, b]
    else:
        p = Points(v[:, :2], w[:, 0])
        o = TemporalPoints()
        o.add_pts(p, time=0.)
        arrs = [p]
    s = G.snap(o)
    b = [G.snap(e) for e in arrs]
    for e in arrs:
        O.scribble(e, rng)
    d = G.diff(G.snap(o), s)
    m.check(d is None, 'object-keeps-a-reference-to-given-data#' + kind, d)
    # and the object does not write into given data
    for e in arrs:
        pass
    b = [G.snap(e) for e in arrs]
    O.scribble(o, rng)
    for e, bb in zip(arrs, b):
        m.check(G.diff(G.snap(e), bb) is None, 'object-writes-into-given-data#' + kind)
