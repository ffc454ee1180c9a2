"""C04: importing arrays keeps every sample at its own position."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField
from vh.core import scenario
from vh import gen as G

RULE = ('Random grids (2..12 x 2..12, uniform or not, each axis increasing or decreasing), random '
        'values, mask given as None / bool / array / list / NaN values, list or array inputs.')
ASSUMPTIONS = ['samples are looked up through the public index and coordinate queries']


def build(rng, vec):
    sh = G.shape(rng, 2, 12)
    ax, ay = G.axis(rng, sh[0]), G.axis(rng, sh[1])
    decx, decy = rng.random() < .5, rng.random() < .5
    if decx:
        ax = ax[::-1].copy()
    if decy:
        ay = ay[::-1].copy()
    vals = [G.values(rng, sh) for _ in range(2 if vec else 1)]
    mk = G.mask(rng, sh)
    form = G.pick(rng, ['none', 'false', 'array', 'nan', 'array+nan', 'list', 'npbool'])
    want = np.zeros(sh, dtype=bool)
    given = None
    if form in ('array', 'list', 'array+nan'):
        given = mk.copy()
        want |= mk
        if form == 'list':
            given = [list(r) for r in mk]
    if form == 'false':
        given = False
    if form == 'npbool':
        given = np.zeros(sh, dtype=bool)
    if form in ('nan', 'array+nan'):
        nk = G.mask(rng, sh, 'sparse')
        vals[0][nk] = np.nan
        if vec:
            nk2 = nk if rng.random() < .5 else G.mask(rng, sh, 'sparse')
            vals[1][nk2] = np.nan
            want |= nk2
        want |= nk
    return sh, ax, ay, vals, given, want, (decx, decy, form)


def drive(m, vec):
    rng = m.rng
    sh, ax, ay, vals, given, want, how = build(rng, vec)
    u = G.unit_lv(rng)
    m.case('vec' if vec else 'sca', sh, how, u, float(ax[0]), float(ay[0]), int(want.sum()))
    aslist = rng.random() < .3
    args = [ax.copy(), ay.copy()] + [v.copy() for v in vals]
    keep = [a.copy() for a in args]
    gkeep = np.array(given, copy=True) if given is not None else None
    f = VectorField() if vec else ScalarField()
    call = list(args)
    # the other layouts accepted: axes as two-dimensional grids, values (and mask) given line by line
    lay = G.pick(rng, ['plain']*5 + ['grid-ij', 'grid-xy', 'lines', 'grid-lines'])
    mgiven = given
    if lay.startswith('grid'):
        call[:2] = np.meshgrid(ax, ay, indexing='ij' if lay == 'grid-ij' else 'xy')
    if lay.endswith('lines') and sh[0] != sh[1]:
        call[2:] = [a.T for a in call[2:]]
        if np.ndim(given) == 2:
            mgiven = np.array(given).T
    m.event('layout-' + lay)
    if rng.random() < .15:
        # an object is reused: nothing of what it held may remain
        o = G.shape(rng, 2, 12)
        f.import_from_arrays(G.axis(rng, o[0]), G.axis(rng, o[1]), *[G.values(rng, o) for _ in vals],
                             mask=G.mask(rng, o), unit_x='kg', unit_y='A', unit_values='K')
    if aslist:
        call = [[list(r) for r in a] if a.ndim == 2 else list(a) for a in call]
    units = [G.make_unit(x) for x in u] if rng.random() < .3 else u
    f.import_from_arrays(*call, mask=mgiven, unit_x=units[0], unit_y=units[1], unit_values=units[2])
    for a, k in zip(args, keep):
        m.check(np.array_equal(a, k, equal_nan=True), 'input-untouched', 'import changed its input array')
    if given is not None:
        m.check(np.array_equal(np.array(given), gkeep), 'input-untouched', 'import changed its mask')
    G.chk_field(m, f)
    m.close(f.axe_x, np.sort(ax), 'axis-values')
    m.close(f.axe_y, np.sort(ay), 'axis-values')
    comps = [f.comp_x, f.comp_y] if vec else [f.values]
    ix = {float(x): i for i, x in enumerate(f.axe_x)}
    iy = {float(y): i for i, y in enumerate(f.axe_y)}
    gm = np.zeros(sh, dtype=bool)
    gv = [np.zeros(sh) for _ in comps]
    for i in range(sh[0]):
        for j in range(sh[1]):
            a, b = ix[float(ax[i])], iy[float(ay[j])]
            gm[i, j] = f.mask[a, b]
            for c in range(len(comps)):
                gv[c][i, j] = comps[c][a, b]
    m.check(np.array_equal(gm, want), 'mask-at-position', lambda: 'got %s want %s' % (gm.astype(int), want.astype(int)))
    for c in range(len(comps)):
        w = np.where(want, np.nan, vals[c])
        m.check(np.array_equal(gv[c], w, equal_nan=True), 'value-at-position', lambda: 'got %s want %s' % (gv[c], w))
    # queries
    for _ in range(4):
        i, j = int(rng.integers(sh[0])), int(rng.integers(sh[1]))
        a, b = ix[float(ax[i])], iy[float(ay[j])]
        r1 = np.ravel(np.array(f.get_value(a, b, ind=True), dtype=float))
        r2 = np.ravel(np.array(f.get_value(float(ax[i]), float(ay[j])), dtype=float))
        w = np.array([np.nan if want[i, j] else v[i, j] for v in vals])
        if want[i, j]:
            m.check(np.all(np.isnan(r1)) and np.all(np.isnan(r2)), 'query-masked', lambda: '%s %s' % (r1, r2))
        else:
            m.close(r1, w, 'query-index')
            m.close(r2, w, 'query-position')
    for got, w in zip((f.unit_x, f.unit_y, f.unit_values), u):
        m.check(G.si(got) == G.si(G.make_unit(w)), 'unit', lambda: '%r want %s' % (got, w))
    # independence from the arrays given
    s0 = G.snap(f)
    for a in args:
        a += 1.
    if isinstance(given, np.ndarray):
        given[:] = ~given
    for a in call:
        if isinstance(a, np.ndarray) and not np.shares_memory(a, args[0]):
            a += 1.
    d = G.diff(s0, G.snap(f))
    m.check(d is None, 'no-alias', d)


@scenario('C04', 400, 12000)
def scalar_import(m):
    drive(m, False)


@scenario('C04', 400, 12000)
def vector_import(m):
    drive(m, True)


@scenario('C04', 120, 2000)
def refused(m):
    rng = m.rng
    vec = rng.random() < .5
    sh = G.shape(rng, 3, 8)
    ax, ay = G.axis(rng, sh[0]), G.axis(rng, sh[1])
    k = G.pick(rng, ['values', 'mask', 'axis', 'comp2'])
    bad = (sh[0] + 1, sh[1] + (2 if sh[0] + 1 == sh[1] else 0))
    v1, v2, mk = np.ones(sh), np.ones(sh), None
    if k == 'values':
        v1 = np.ones(bad)
        v2 = np.ones(bad)
    elif k == 'mask':
        mk = np.zeros(bad, dtype=bool)
    elif k == 'axis':
        ax = np.append(ax, ax[-1] + 1.)
        if len(ax) == sh[1] and len(ay) == sh[0]:
            ax = np.append(ax, ax[-1] + 1.)
    elif k == 'comp2':
        vec = True
        v2 = np.ones(bad)
    m.case('refuse', k, vec, sh)
    f = VectorField() if vec else ScalarField()
    args = (ax, ay, v1, v2) if vec else (ax, ay, v1)
    m.raises(lambda: f.import_from_arrays(*args, mask=mk), 'refused-' + k)


@scenario('C04', 120, 3000)
def kept_type(m):
    """Integer values (images), kept as such or converted, keep their values and positions."""
    rng = m.rng
    vec = bool(rng.random() < .5)
    sh = G.shape(rng, 2, 9)
    ax, ay = G.axis(rng, sh[0]), G.axis(rng, sh[1])
    dt = G.pick(rng, [int, np.int64, np.float32, np.uint8, float])
    if rng.random() < .5:
        ax = ax[::-1].copy()
    vals = [rng.integers(0, 200, size=sh).astype(dt) for _ in range(2 if vec else 1)]
    mk = G.mask(rng, sh)
    m.case('kept type', vec, sh, np.dtype(dt).name)
    f = VectorField() if vec else ScalarField()
    kw = {} if rng.random() < .5 else dict(dtype=float if vec else G.pick(rng, [float, int]))
    if kw.get('dtype') is int:
        # not-a-number has no integer form: fields of integers are those of (whole) images
        mk[:] = False
    f.import_from_arrays(ax, ay, *vals, mask=mk, unit_x='m', unit_y='m', unit_values='m/s', **kw)
    o = np.argsort(ax)
    comps = [f.comp_x, f.comp_y] if vec else [f.values]
    m.check(np.array_equal(f.mask, mk[o]), 'typed-mask')
    for c, v in zip(comps, vals):
        m.check(np.array_equal(np.array(c, dtype=float)[~mk[o]], v[o].astype(float)[~mk[o]]), 'typed-values',
                lambda: '%s want %s' % (c, v[o]))
    new = G.pick(rng, [float, np.float32, np.float64])
    f.change_dtype(new)
    comps = [f.comp_x, f.comp_y] if vec else [f.values]
    for c, v in zip(comps, vals):
        m.check(c.dtype == np.dtype(new), 'changed-type', lambda: '%s want %s' % (c.dtype, new))
        m.check(np.array_equal(np.array(c, dtype=float)[~mk[o]], v[o].astype(float)[~mk[o]]), 'changed-type-values')
    m.check(np.array_equal(f.mask, mk[o]), 'changed-type-mask')
