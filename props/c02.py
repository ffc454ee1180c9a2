"""C02: the in-place and out-of-place variants of an operation agree."""
import copy
import numpy as np
from vh.core import scenario, Skip
from vh import gen as G
from vh import ops as O

RULE = ('Every operation with an in-place switch (operation table in vh/ops.py) drawn with random valid arguments on '
        'random objects of every container class; applied in place on a copy and out of place on the original.')
ASSUMPTIONS = ['an input refused by both variants (same exception type) agrees; whether it should be refused is decided '
               'by the property on that operation']


def outcome(f):
    try:
        return 'ok', f()
    except Skip:
        raise
    except Exception as e:
        return 'refused', e


def variants(m, o, op, a, k, what):
    c = o.copy()
    a2, k2 = copy.deepcopy(a), copy.deepcopy(k)
    s = G.snap(o)
    w1, r1 = outcome(lambda: op.apply(o, a, k, inplace=False))
    w2, r2 = outcome(lambda: op.apply(c, a2, k2, inplace=True))
    m.check(G.diff(G.snap(o), s) is None, 'out-of-place-touched-the-object#' + what, lambda: G.diff(G.snap(o), s))
    m.check(w1 == w2, 'one-variant-only#' + what, lambda: 'out of place %s %r, in place %s %r' % (w1, r1, w2, r2))
    if w1 != 'ok' or w2 != 'ok':
        m.event('refused:' + what)
        return None
    m.event('op:' + what)
    m.check(r1 is not None and type(r1) is type(o), 'no-result-out-of-place#' + what, lambda: repr(r1))
    m.check(r2 is None or r2 is c, 'in-place-returned-another-object#' + what, lambda: repr(r2))
    d = G.diff(G.snap(c), G.snap(r1), exact=False)
    m.check(d is None, 'variants-differ#' + what, d)
    return r1


@scenario('C02', 3000, 60000)
def variants_agree(m):
    rng = m.rng
    o = O.make(rng)
    op = G.pick(rng, [e for e in O.table(o) if e.how == 'switch'])
    a, k = op.call(rng, o)
    m.case(G.tdesc(o), op.name, a, k)
    variants(m, o, op, a, k, '%s.%s' % (type(o).__name__, op.name))


@scenario('C02', 600, 15000)
def chains(m):
    """A chain of operations out of place reaches the same object as the same chain in place."""
    rng = m.rng
    o = O.make(rng)
    m.case(G.tdesc(o))
    for step in range(int(rng.integers(2, 6))):
        ops = [e for e in O.table(o) if e.how == 'switch']
        op = G.pick(rng, ops)
        try:
            a, k = op.call(rng, o)
        except Exception:
            continue
        m.case(op.name, a, k)
        r = variants(m, o, op, a, k, '%s.%s' % (type(o).__name__, op.name))
        if r is None:
            break
        o = r
