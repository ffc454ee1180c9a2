"""C03: objects stay internally consistent through any history of operations."""
import numpy as np
import unum
from IMTreatment.core import (ScalarField, VectorField, Profile, Points, TemporalScalarFields, TemporalVectorFields,
                              TemporalPoints)
from vh.core import scenario, Skip
from vh import gen as G
from vh import ops as O
from props import c11, c12, c13

RULE = ('Random histories (2 to 12 steps) of the public operations of vh/ops.py over random objects of every container '
        'class, results of one step feeding the next one; invariants evaluated after every accepted step; refused steps '
        'roll back to the last accepted state. Refused assignments are drawn from wrong shapes, ranks and types.')
ASSUMPTIONS = ['after a refused multi-step operation only the refusal is observed (refused assignments, in contrast, '
               'must leave the object as it was)']


class Sub:
    """Monitor adding the operation to the violated invariant."""

    def __init__(self, m, what):
        self.m, self.what = m, what

    def check(self, c, sig, detail=''):
        return self.m.check(c, sig + '#' + self.what, detail)


def unit_ok(m, o, names):
    for n in names:
        u = getattr(o, n)
        m.check(isinstance(u, unum.Unum) and abs(u.asNumber() - 1) < 1e-9, 'unit', lambda: '%s %r' % (n, u))


def invariants(m, o, what):
    s = Sub(m, what)
    if isinstance(o, (ScalarField, VectorField)):
        G.chk_field(s, o)
    elif isinstance(o, Profile):
        c11.struct(s, o, 'profile')
        unit_ok(s, o, ('unit_x', 'unit_y'))
    elif isinstance(o, Points):
        c12.struct(s, o, 'points')
        unit_ok(s, o, ('unit_x', 'unit_y', 'unit_v'))
    elif isinstance(o, (TemporalScalarFields, TemporalVectorFields)):
        c13.struct(s, o)
        unit_ok(s, o, ('unit_times',))
        if len(o):
            s.check(np.all(np.diff(o.times) > 0), 'series-times-strictly-ordered', lambda: o.times)
        for f in o.fields:
            G.chk_field(s, f)
    elif isinstance(o, TemporalPoints):
        n = len(o.point_sets)
        s.check(len(o.times) == n and len(o) == n, 'point-series-count', lambda: '%d/%d' % (len(o.times), n))
        s.check(np.all(np.diff(o.times) > 0), 'point-series-times-ordered', lambda: o.times)
        unit_ok(s, o, ('unit_times',))
        for p in o.point_sets:
            c12.struct(s, p, 'points')
            for u in ('unit_x', 'unit_y'):
                s.check(G.si_or_str(getattr(p, u)) == G.si_or_str(getattr(o, u)), 'point-series-units',
                        lambda: '%s %s/%s' % (u, getattr(p, u), getattr(o, u)))


CONT = (ScalarField, VectorField, Profile, Points, TemporalScalarFields, TemporalVectorFields, TemporalPoints)


def history(m, kind=None):
    rng = m.rng
    o = O.make(rng, kind)
    m.case(G.tdesc(o))
    invariants(m, o, 'start')
    hist = ''
    for step in range(int(rng.integers(2, 13))):
        op = G.pick(rng, O.table(o))
        saved = o.copy()
        try:
            a, k = op.call(rng, o)
        except Exception:
            continue
        inp = bool(rng.random() < .5)
        what = '%s.%s' % (type(o).__name__, op.name)
        m.case(op.name, a, k, inp)
        try:
            r = op.apply(o, a, k, inplace=inp)
        except Exception:
            m.event('refused:' + what)
            o = saved
            continue
        m.event('op:' + what)
        if op.how == 'pure' or (op.how == 'switch' and not inp):
            for e in (r if isinstance(r, (list, tuple)) else [r]):
                if isinstance(e, CONT):
                    invariants(m, e, what)
            if type(r) is type(o) and rng.random() < .8:
                o = r
        else:
            invariants(m, o, what)
        hist += op.name[:3]
        if m.viol:
            return
        # an empty object ends the history
        if isinstance(o, (ScalarField, VectorField)) and 0 in o.shape:
            return
        if isinstance(o, CONT[4:6]) and not len(o):
            return
        if isinstance(o, Profile) and not len(o.x):
            return
        if isinstance(o, Points) and not len(o.xy):
            return
        if isinstance(o, TemporalPoints) and not len(o.point_sets):
            return
        # keep magnitudes in a range where rounding stays below the spacing
        for ax in axes(o):
            if len(ax) and not (np.all(np.isfinite(ax)) and np.max(np.abs(ax)) < 1e12):
                return
            d = np.diff(ax)
            if len(d) and np.min(d) < 1e-9*np.max(np.abs(ax)):
                return


def axes(o):
    if isinstance(o, (ScalarField, VectorField)):
        return [o.axe_x, o.axe_y]
    if isinstance(o, Profile):
        return []
    if isinstance(o, CONT[4:6]):
        return [o.axe_x, o.axe_y, np.asarray(o.times)]
    return []


@scenario('C03', 1200, 40000)
def histories(m):
    history(m)


@scenario('C03', 400, 15000)
def series_histories(m):
    history(m, G.pick(m.rng, ['tsf', 'tvf', 'tpts', 'opts']))


def bad_arrays(rng, sh):
    """Values that cannot be a (n, p) table of a field."""
    n, p = sh
    return G.pick(rng, [np.zeros((n + 1, p)), np.zeros((n, p + 1)), np.zeros((n, p, 1)), np.zeros(n*p + 1),
                        np.zeros((max(n - 1, 0), p)), 'abc', np.zeros((p + 1, n + 2))])


@scenario('C03', 800, 20000)
def refused_assignments(m):
    rng = m.rng
    kind = G.pick(rng, ['sf', 'vf', 'prof', 'pts', 'opts', 'tsf', 'tpts'])
    o = O.make(rng, kind)
    # objects large enough for no wrong shape to be a broadcast or another meaning of the input
    if kind in ('sf', 'vf', 'tsf'):
        f = o.fields[0] if kind == 'tsf' else o
        if min(f.shape) < 2:
            raise Skip
        sh = f.shape
        what = G.pick(rng, ['values', 'mask', 'axe', 'unit'] if kind != 'tsf' else
                      ['times', 'field_axes', 'field_kind', 'unit_times'])
        if what == 'values':
            att = 'values' if kind == 'sf' else G.pick(rng, ['comp_x', 'comp_y'])
            v = bad_arrays(rng, sh)
        elif what == 'mask':
            att, v = 'mask', G.pick(rng, [np.zeros((sh[0] + 1, sh[1]), bool), np.zeros((sh[0], sh[1] + 2), bool),
                                          np.zeros(sh[0]*sh[1] + 1, bool)])
        elif what == 'axe':
            att, v = G.pick(rng, ['axe_x', 'axe_y']), G.pick(rng, ['axis', 3.])
        elif what == 'unit':
            att, v = G.pick(rng, ['unit_x', 'unit_y', 'unit_values']), G.pick(rng, [3, [1, 2], np.zeros(2)])
        elif what == 'times':
            n = len(o)
            att, v = 'times', G.pick(rng, [np.arange(n + 1.), np.arange(n + 3.), np.arange(n - 1.)])
        elif what == 'unit_times':
            att, v = 'unit_times', G.pick(rng, [3, [1, 2], np.zeros(2)])
        else:
            g = f.copy()
            if what == 'field_axes':
                g = type(f)()
                ax = np.concatenate((np.asarray(f.axe_x), [f.axe_x[-1] + 1.]))
                sh2 = (len(ax), len(f.axe_y))
                z = [np.zeros(sh2)]*(1 if isinstance(f, ScalarField) else 2)
                g.import_from_arrays(ax, f.axe_y, *z, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
            else:
                g = G.pick(rng, [G.vf(rng) if isinstance(f, ScalarField) else G.sf(rng), 3., None])
            m.case(G.tdesc(o), what)
            s = G.snap(o)
            m.raises(lambda: o.add_field(g, time=float(o.times[-1] + 1), unit_times=o.unit_times),
                     'inconsistent-data-accepted#' + kind + what)
            m.check(G.diff(G.snap(o), s) is None, 'refused-but-changed#' + kind + what, lambda: G.diff(G.snap(o), s))
            return
    elif kind == 'prof':
        n = len(o.x)
        att = G.pick(rng, ['x', 'mask', 'unit_x', 'unit_y'])
        if att.startswith('unit'):
            v = G.pick(rng, [3, [1, 2], np.zeros(2)])
        else:
            v = G.pick(rng, [np.zeros(n + 1), np.zeros(n + 3), np.zeros(n - 1)])
            if att == 'mask':
                v = G.pick(rng, [v, np.zeros((n, 2))]).astype(bool)
    elif kind in ('pts', 'opts'):
        n = len(o.xy)
        att = G.pick(rng, ['xy', 'v', 'unit_x'] + (['orientations'] if kind == 'opts' else []))
        v = dict(xy=G.pick(rng, [np.zeros((n, 3)), np.zeros((n + 1, 3)), np.zeros((2, n + 5))]),
                 v=np.zeros(n + 1), unit_x=3, orientations=np.zeros((n + 1, 1, 2)))[att]
    else:
        n = len(o)
        att, v = 'times', np.arange(n + 2.)
    m.case(G.tdesc(o), att, np.shape(v))
    s = G.snap(o)
    m.event('assign:%s.%s' % (type(o).__name__, att))

    def put():
        setattr(o, att, v)
    what = '%s.%s' % (type(o).__name__, att)
    m.raises(put, 'inconsistent-data-accepted#' + what, detail='%s %r' % (np.shape(v), v if np.size(v) < 5 else ''))
    m.check(G.diff(G.snap(o), s) is None, 'refused-but-changed#' + what, lambda: G.diff(G.snap(o), s))


@scenario('C03', 400, 10000)
def refused_builds(m):
    """Objects cannot be built from inconsistent data; the object under construction is left as it was."""
    rng = m.rng
    sh = G.shape(rng, 2, 6)
    kind = G.pick(rng, ['sf', 'vf', 'prof', 'pts'])
    x, y = G.axis(rng, sh[0]), G.axis(rng, sh[1])
    v, w = rng.normal(size=sh), rng.normal(size=sh)
    mk = np.zeros(sh, bool)
    bad = G.pick(rng, ['x', 'y', 'v', 'm'] + (['w'] if kind == 'vf' else []))
    if bad == 'x':
        x = np.append(x, x[-1] + 1)
    elif bad == 'y':
        y = np.append(y, y[-1] + 1)
    elif bad == 'v':
        v = np.zeros((sh[0] + 1, sh[1]))
    elif bad == 'w':
        w = np.zeros((sh[0], sh[1] + 1))
    else:
        mk = np.zeros((sh[0] + 1, sh[1]), bool)
    m.case(kind, sh, bad)
    m.event('build:%s:%s' % (kind, bad))
    if kind in ('sf', 'vf'):
        o = G.sf(rng) if kind == 'sf' else G.vf(rng)
        s = G.snap(o)
        a = (x, y, v) if kind == 'sf' else (x, y, v, w)
        m.raises(lambda: o.import_from_arrays(*a, mask=mk), 'inconsistent-build-accepted#' + kind + bad)
        m.check(G.diff(G.snap(o), s) is None, 'refused-but-changed#' + kind + bad, lambda: G.diff(G.snap(o), s))
    elif kind == 'prof':
        if bad == 'm':
            m.raises(lambda: Profile(x, v[:, 0], mask=mk[:, 0]), 'inconsistent-build-accepted#prof-mask')
        else:
            m.raises(lambda: Profile(np.append(x, x[-1] + 1), np.zeros(len(x) + 4)),
                     'inconsistent-build-accepted#prof')
    else:
        if bad == 'x':
            m.raises(lambda: Points(np.zeros((sh[0], 3))), 'inconsistent-build-accepted#pts-xy')
        else:
            m.raises(lambda: Points(np.zeros((sh[0], 2)), np.zeros(sh[0] + 1)), 'inconsistent-build-accepted#pts-v')
