"""C07: geometric transformations move samples without altering them."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField, TemporalScalarFields, TemporalVectorFields, Points
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random scalar, vector and temporal fields (uniform or not, masked, random units); quarter turns, origin moves, '
        'crops by value and index, extensions, mirrorings, masked-border crops, and compositions of these.')
ASSUMPTIONS = ['reference: an independent dictionary (position -> value) of the samples, transformed pointwise',
               'the number of images a mirroring adds is the library\'s choice; every added sample must be the image '
               'of an existing one and the kept side must be unchanged']


def comps(f):
    return [f.values] if isinstance(f, ScalarField) else [f.comp_x, f.comp_y]


def expect(m, f, x, y, cs, mask, like, sig, units=None, rtol=1e-9):
    G.chk_field(m, f, sig)
    m.close(f.axe_x, x, sig + '-axis', rtol=rtol)
    m.close(f.axe_y, y, sig + '-axis', rtol=rtol)
    ux, uy = units or (like.unit_x, like.unit_y)
    m.check(G.si(f.unit_x) == G.si(ux) and G.si(f.unit_y) == G.si(uy) and
            G.si(f.unit_values) == G.si(like.unit_values), sig + '-units')
    ok = np.shape(f.mask) == np.shape(mask)
    m.check(ok and np.array_equal(f.mask, mask), sig + '-mask', lambda: '%s want %s' % (f.mask*1, mask*1))
    # both components together: a turn may leave a rounding error of one in the other
    m.close(np.array(comps(f)), np.where(mask, np.nan, np.array(cs)), sig + '-value', rtol=rtol, atol=1e-9)


def turn(f, k):
    """Reference for k quarter turns counter-clockwise: (x, y) -> (-y, x)."""
    x, y = f.axe_x.copy(), f.axe_y.copy()
    cs = [np.array(c, dtype=float) for c in comps(f)]
    mask = np.array(f.mask)
    ux, uy = f.unit_x, f.unit_y
    for _ in range(k % 4):
        nx, ny = -y[::-1], x
        # sample at (x_i, y_j) goes to (-y_j, x_i): new[n-1-j, i] = old[i, j]
        def mv(a):
            return a.T[::-1, :]
        cs = [mv(c) for c in cs]
        mask = mv(mask)
        if len(cs) == 2:
            cs = [-cs[1], cs[0]]
        x, y = nx, ny
        ux, uy = uy, ux
    return x, y, cs, mask, (ux, uy)


def run(rng, f, name, *a, **k):
    """In place on a copy, or out of place: same oracle either way."""
    if rng.random() < .4:
        g = f.copy()
        getattr(g, name)(*a, inplace=True, **k)
        return g
    return getattr(f, name)(*a, inplace=False, **k)


@scenario('C07', 350, 10000)
def rotate(m):
    rng = m.rng
    f = G.field(rng, lo=2)
    k = int(rng.integers(-5, 6))
    ang = k*90 if rng.random() < .7 else float(k*90)
    m.case(G.tdesc(f), 'rotate', ang)
    r = run(rng, f, 'rotate', ang)
    x, y, cs, mask, us = turn(f, k)
    expect(m, r, x, y, cs, mask, f, 'rotate', us)
    k2 = int(rng.integers(0, 4))
    r2 = r.rotate(90*k2)
    x, y, cs, mask, us = turn(f, k + k2)
    expect(m, r2, x, y, cs, mask, f, 'rotations-compose', us)
    b = f
    for i in range(4):
        b = b.rotate(90)
    d = G.diff(G.snap(b), G.snap(f), exact=False)
    m.check(d is None, 'four-quarter-turns', d)
    for bad in (45, 1, 89.9):
        m.raises(lambda: f.rotate(bad), 'rotation-by-other-angle-accepted')


@scenario('C07', 150, 4000)
def set_origin(m):
    rng = m.rng
    f = G.field(rng)
    dx = float(rng.normal()) if rng.random() < .8 else None
    dy = float(rng.normal()) if rng.random() < .8 else None
    m.case(G.tdesc(f), 'origin', dx, dy)
    g = f.copy()
    g.set_origin(dx, dy)
    expect(m, g, f.axe_x - (dx or 0), f.axe_y - (dy or 0), comps(f), f.mask, f, 'origin')
    t = G.tf(rng)
    t2 = t.copy()
    t2.set_origin(dx, dy)
    m.close(t2.axe_x, t.axe_x - (dx or 0), 'origin-series-axis')
    m.close(t2.axe_y, t.axe_y - (dy or 0), 'origin-series-axis')
    for a, b in zip(t2.fields, t.fields):
        expect(m, a, b.axe_x - (dx or 0), b.axe_y - (dy or 0), comps(b), b.mask, b, 'origin-series')


def interval(rng, ax):
    """A closed interval holding at least one sample, bounds on or off samples."""
    n = len(ax)
    i = int(rng.integers(0, n))
    j = int(rng.integers(i, n))

    def bound(k, side):
        r = rng.random()
        if r < .4:
            return float(ax[k])
        if side < 0:
            lo = ax[k - 1] if k > 0 else ax[0] - 2.
            return float(lo + (ax[k] - lo)*rng.uniform(.2, .9))
        hi = ax[k + 1] if k < n - 1 else ax[-1] + 2.
        return float(ax[k] + (hi - ax[k])*rng.uniform(.1, .8))
    return [bound(i, -1), bound(j, 1)], i, j


@scenario('C07', 450, 14000)
def crop(m):
    rng = m.rng
    f = G.field(rng, lo=2)
    ix, i0, i1 = interval(rng, f.axe_x)
    iy, j0, j1 = interval(rng, f.axe_y)
    r = rng.random()
    if r < .2:
        ix, i0, i1 = None, 0, f.shape[0] - 1
    elif r < .4:
        iy, j0, j1 = None, 0, f.shape[1] - 1
    kw = dict(intervx=ix, intervy=iy)
    if rng.random() < .4:
        kw = dict(intervx=None if ix is None else [i0, i1], intervy=None if iy is None else [j0, j1], ind=True)
    m.case(G.tdesc(f), 'crop', kw)
    g = run(rng, f, 'crop', **kw)
    sl = slice(i0, i1 + 1), slice(j0, j1 + 1)
    expect(m, g, f.axe_x[sl[0]], f.axe_y[sl[1]], [c[sl] for c in comps(f)], f.mask[sl], f,
           'crop' + ('-ind' if 'ind' in kw else ''), rtol=1e-12)
    m.raises(lambda: f.crop(intervx=[f.axe_x[-1] + 1, f.axe_x[-1] + 2]), 'crop-outside-accepted')
    m.raises(lambda: f.crop(intervx=[f.axe_x[-1], f.axe_x[0]]), 'crop-decreasing-accepted')
    m.raises(lambda: f.crop(intervy=[f.axe_y[0] - 2, f.axe_y[0] - 1]), 'crop-outside-accepted')
    m.raises(lambda: f.crop(intervy=[f.axe_y[-1], f.axe_y[0]]), 'crop-decreasing-accepted')
    m.raises(lambda: f.crop(intervx=[1, 0], ind=True), 'crop-decreasing-indices-accepted')
    m.raises(lambda: f.crop(intervy=[1, 0], ind=True), 'crop-decreasing-indices-accepted')


@scenario('C07', 200, 6000)
def crop_series(m):
    rng = m.rng
    t = G.tf(rng, lo=1, hi=4)
    ix, i0, i1 = interval(rng, t.axe_x)
    iy, j0, j1 = interval(rng, t.axe_y)
    kw = dict(intervx=ix, intervy=iy)
    if rng.random() < .4:
        kw = dict(intervx=[i0, i1], intervy=[j0, j1], ind=True)
    m.case(G.tdesc(t), 'crop', kw)
    g = run(rng, t, 'crop', **kw)
    sl = slice(i0, i1 + 1), slice(j0, j1 + 1)
    m.close(g.axe_x, t.axe_x[sl[0]], 'crop-series-axis')
    m.close(g.axe_y, t.axe_y[sl[1]], 'crop-series-axis')
    m.close(g.times, t.times, 'crop-series-times')
    if m.check(len(g.fields) == len(t.fields), 'crop-series-number'):
        for a, b in zip(g.fields, t.fields):
            expect(m, a, b.axe_x[sl[0]], b.axe_y[sl[1]], [c[sl] for c in comps(b)], b.mask[sl], b, 'crop-series')


@scenario('C07', 200, 6000)
def rotate_extend_series(m):
    rng = m.rng
    t = G.tf(rng, lo=1, hi=4)
    k = int(rng.integers(0, 4))
    m.case(G.tdesc(t), 'rotate', k*90)
    g = run(rng, t, 'rotate', k*90)
    for a, b in zip(g.fields, t.fields):
        x, y, cs, mask, us = turn(b, k)
        expect(m, a, x, y, cs, mask, b, 'rotate-series', us)
        m.close(g.axe_x, x, 'rotate-series-axis')
        m.close(g.axe_y, y, 'rotate-series-axis')
        m.check(G.si(g.unit_x) == G.si(us[0]) and G.si(g.unit_y) == G.si(us[1]), 'rotate-series-unit')
    m.close(g.times, t.times, 'rotate-series-times')
    nb = dict(zip(['nmb_left', 'nmb_right', 'nmb_up', 'nmb_down'], [int(v) for v in rng.integers(0, 3, 4)]))
    h = run(rng, t, 'extend', **nb)
    for a, b in zip(h.fields, t.fields):
        check_extended(m, a, b, nb, 'extend-series')
    m.close(h.axe_x, h.fields[0].axe_x, 'extend-series-axis')
    m.close(h.axe_y, h.fields[0].axe_y, 'extend-series-axis')
    m.close(h.times, t.times, 'extend-series-times')


def check_extended(m, g, f, nb, sig):
    l, r, u, d = nb['nmb_left'], nb['nmb_right'], nb['nmb_up'], nb['nmb_down']
    x, y = f.axe_x, f.axe_y
    nx = np.concatenate([x[0] - (x[1] - x[0])*np.arange(l, 0, -1), x, x[-1] + (x[-1] - x[-2])*np.arange(1, r + 1)])
    ny = np.concatenate([y[0] - (y[1] - y[0])*np.arange(d, 0, -1), y, y[-1] + (y[-1] - y[-2])*np.arange(1, u + 1)])
    mask = np.ones((len(nx), len(ny)), dtype=bool)
    sl = slice(l, l + len(x)), slice(d, d + len(y))
    mask[sl] = f.mask
    cs = []
    for c in comps(f):
        a = np.full(mask.shape, np.nan)
        a[sl] = c
        cs.append(a)
    expect(m, g, nx, ny, cs, mask, f, sig)


@scenario('C07', 250, 7000)
def extend(m):
    rng = m.rng
    f = G.field(rng, lo=2)
    nb = dict(zip(['nmb_left', 'nmb_right', 'nmb_up', 'nmb_down'], [int(v) for v in rng.integers(0, 4, 4)]))
    m.case(G.tdesc(f), 'extend', nb)
    g = run(rng, f, 'extend', **nb)
    check_extended(m, g, f, nb, 'extend')
    # extending then cropping by index gives back the field
    b = g.crop(intervx=[nb['nmb_left'], nb['nmb_left'] + f.shape[0] - 1],
               intervy=[nb['nmb_down'], nb['nmb_down'] + f.shape[1] - 1], ind=True)
    d = G.diff(G.snap(b), G.snap(f), exact=False)
    m.check(d is None, 'extend-crop-identity', d)
    if isinstance(f, ScalarField):
        g = run(rng, f, 'extend', value=2.5, **nb)
        m.check(np.sum(g.mask) == np.sum(f.mask), 'extend-with-value-masked')
        sl = slice(nb['nmb_left'], nb['nmb_left'] + f.shape[0]), slice(nb['nmb_down'], nb['nmb_down'] + f.shape[1])
        m.close(g.values[sl], f.values, 'extend-with-value-old-samples')
        new = np.ones(g.shape, dtype=bool)
        new[sl] = False
        m.check(np.all(g.values[new] == 2.5), 'extend-with-value-new-samples')


def border(mask):
    gx = np.where(~mask.all(axis=1))[0]
    gy = np.where(~mask.all(axis=0))[0]
    return slice(gx[0], gx[-1] + 1), slice(gy[0], gy[-1] + 1)


@scenario('C07', 300, 8000)
def crop_masked_border(m):
    rng = m.rng
    f = G.field(rng, lo=3, maskkind='none')
    mk = G.mask(rng, f.shape, kind=G.pick(rng, ['none', 'sparse', 'lines', 'dense', 'block']))
    for _ in range(int(rng.integers(0, 3))):
        k = int(rng.integers(4))
        n = int(rng.integers(1, 3))
        sl = [slice(0, n), slice(-n, None)][k % 2]
        if k < 2:
            mk[sl] = True
        else:
            mk[:, sl] = True
    if rng.random() < .1:
        mk[:] = True
    if mk.all():
        mk[int(rng.integers(f.shape[0])), int(rng.integers(f.shape[1]))] = False
    f.mask = mk
    m.case(G.tdesc(f), 'crop_masked_border')
    sl = border(mk)
    g = run(rng, f, 'crop_masked_border')
    expect(m, g, f.axe_x[sl[0]], f.axe_y[sl[1]], [c[sl] for c in comps(f)], mk[sl], f, 'crop-masked-border', rtol=1e-12)


@scenario('C07', 120, 3000)
def crop_masked_border_hard(m):
    """hard=True: a fully valid sub-rectangle of the field (the greedy search may
    end empty on thin fields: only fields with a large valid core are tried)."""
    rng = m.rng
    f = G.field(rng, lo=8, hi=12, maskkind='none')
    mk = np.zeros(f.shape, dtype=bool)
    w = 1
    ring = np.ones(f.shape, dtype=bool)
    ring[w:-w, w:-w] = False
    mk[ring] = rng.random(ring.sum()) < rng.uniform(.1, .6)
    f.mask = mk
    m.case(G.tdesc(f), 'hard', w)
    g = run(rng, f, 'crop_masked_border', hard=True)
    m.check(not np.any(g.mask), 'hard-crop-leaves-masked')
    G.chk_field(m, g, 'hard-crop')
    i, j = np.searchsorted(f.axe_x, g.axe_x[0]), np.searchsorted(f.axe_y, g.axe_y[0])
    sl = slice(i, i + g.shape[0]), slice(j, j + g.shape[1])
    expect(m, g, f.axe_x[sl[0]], f.axe_y[sl[1]], [c[sl] for c in comps(f)], mk[sl], f, 'hard-crop', rtol=1e-12)
    # masked samples on one border line only: that line goes, nothing else
    h = G.field(rng, lo=8, hi=12, maskkind='none')
    mk = np.zeros(h.shape, dtype=bool)
    k = int(rng.integers(4))
    line = [np.s_[0, :], np.s_[-1, :], np.s_[:, 0], np.s_[:, -1]][k]
    v = rng.random(mk[line].shape) < .5
    v[1] = v[2] = True
    mk[line] = v
    h.mask = mk
    sl = [np.s_[1:, :], np.s_[:-1, :], np.s_[:, 1:], np.s_[:, :-1]][k]
    g2 = run(rng, h, 'crop_masked_border', hard=True)
    expect(m, g2, h.axe_x[sl[0]], h.axe_y[sl[1]], [c[sl] for c in comps(h)], mk[sl], h, 'hard-crop-of-one-line', rtol=1e-12)
    # the fully valid core is never entirely thrown away
    m.check(g.shape[0] >= 1 and g.shape[1] >= 1, 'hard-crop-empty')


@scenario('C07', 150, 4000)
def crop_masked_border_series(m):
    rng = m.rng
    t = G.tf(rng, lo=1, hi=4, maskkind=G.pick(rng, ['border', 'lines', 'sparse', 'none']))
    common = np.all([f.mask for f in t.fields], axis=0)
    m.case(G.tdesc(t), 'crop_masked_border')
    g = run(rng, t, 'crop_masked_border')
    sl = border(common)
    m.close(g.axe_x, t.axe_x[sl[0]], 'border-series-axis')
    m.close(g.axe_y, t.axe_y[sl[1]], 'border-series-axis')
    m.close(g.times, t.times, 'border-series-times')
    for a, b in zip(g.fields, t.fields):
        expect(m, a, b.axe_x[sl[0]], b.axe_y[sl[1]], [c[sl] for c in comps(b)], b.mask[sl], b, 'border-series')


@scenario('C07', 250, 6000)
def mirroring(m):
    rng = m.rng
    # dyadic grids: mirrored coordinates are exact; on others the image of a sample may
    # fall a rounding error away from it, and next to a masked sample or the edge be masked
    nice = bool(rng.random() < .7)
    f = G.field(rng, lo=4, hi=9, uniform=True, nice=nice)
    sl = border(f.mask)
    if (sl[0].stop - sl[0].start) < 4 or (sl[1].stop - sl[1].start) < 4:
        raise Skip()
    core = f.crop(intervx=[sl[0].start, sl[0].stop - 1], intervy=[sl[1].start, sl[1].stop - 1], ind=True)
    dr = G.pick(rng, 'xy')
    ax = core.axe_x if dr == 'x' else core.axe_y
    d = ax[1] - ax[0]
    n = len(ax)
    # symmetry position on a sample or half-way between samples, inside or (just) outside
    kk = int(rng.integers(0, 2*(n - 1)//2 - 1))/2.
    if rng.random() < .3:
        kk = -float(G.pick(rng, [.5, 1.]))
    right = rng.random() < .5
    if kk < 0:
        pos = float(ax[-1] - kk*d) if right else float(ax[0] + kk*d)
    else:
        k0, k1 = int(np.floor(kk)), int(np.ceil(kk))
        pos = float((ax[-1 - k0] + ax[-1 - k1])/2) if right else float((ax[k0] + ax[k1])/2)
    coef = float(G.pick(rng, [1., 1., -1., .5]))
    if isinstance(f, VectorField) and rng.random() < .3:
        # one coefficient per component: no sign added
        coef = G.pick(rng, [list, tuple, np.array])(np.array([float(G.pick(rng, [1., -1., 2., .5])), float(G.pick(rng, [1., -1., 3., -.5]))]))
    kw = {} if rng.random() < .6 else dict(inds_to_mirror=int(rng.integers(1, n)))
    m.case(G.tdesc(f), 'mirroring', dr, pos, 'coef', coef, kw)
    g = run(rng, f, 'mirroring', dr, pos, mir_coef=coef, **kw)
    G.chk_field(m, g, 'mirrored')
    m.check(G.si(g.unit_x) == G.si(f.unit_x) and G.si(g.unit_y) == G.si(f.unit_y) and
            G.si(g.unit_values) == G.si(f.unit_values), 'mirrored-units')
    if dr == 'x':
        keep = (core.axe_x <= pos + 1e-9*abs(d)) if right else (core.axe_x >= pos - 1e-9*abs(d))
        kept = core.crop(intervx=[int(np.where(keep)[0][0]), int(np.where(keep)[0][-1])], ind=True)
    else:
        keep = (core.axe_y <= pos + 1e-9*abs(d)) if right else (core.axe_y >= pos - 1e-9*abs(d))
        kept = core.crop(intervy=[int(np.where(keep)[0][0]), int(np.where(keep)[0][-1])], ind=True)
    other = 'y' if dr == 'x' else 'x'
    m.close(getattr(g, 'axe_' + other), getattr(kept, 'axe_' + other), 'mirrored-other-axis')
    gx, kx = getattr(g, 'axe_' + dr), getattr(kept, 'axe_' + dr)
    m.close(np.diff(gx), np.full(len(gx) - 1, d), 'mirrored-step', rtol=1e-6)
    cg, ck = comps(g), comps(kept)
    if np.ndim(coef):
        signs = list(coef)
    else:
        signs = [coef] if len(cg) == 1 else ([-coef, coef] if dr == 'x' else [coef, -coef])
    if dr == 'y':
        cg, ck = [c.T for c in cg], [c.T for c in ck]
    scale = np.nan_to_num(max(np.nanmax(np.abs(c)) for c in ck))
    nimg = 0
    for i, xx in enumerate(gx):
        j = int(np.argmin(np.abs(kx - xx)))
        if abs(kx[j] - xx) < 1e-6*d:
            for a, b in zip(cg, ck):
                m.check(np.allclose(a[i], b[j], rtol=1e-9, atol=1e-9*scale, equal_nan=True), 'mirrored-kept-side-changed',
                        lambda: 'x=%s got %s want %s' % (xx, a[i], b[j]))
            continue
        xm = 2*pos - xx
        j = int(np.argmin(np.abs(kx - xm)))
        if abs(kx[j] - xm) < 1e-6*d:
            nimg += 1
            for a, b, s in zip(cg, ck, signs):
                w = b[j]*s
                if not nice:
                    w = np.where(np.isnan(a[i]), np.nan, w)
                m.check(np.allclose(a[i], w, rtol=1e-6, atol=1e-6*scale, equal_nan=True), 'mirrored-image',
                        lambda: 'x=%s image of %s: got %s want %s' % (xx, kx[j], a[i], b[j]*s))
        else:
            m.check(min(abs(xm - kx[0]), abs(xm - kx[-1])) > 0 and (xm < kx[0] or xm > kx[-1]), 'mirrored-off-grid')
            for a in cg:
                m.check(np.all(np.isnan(a[i])), 'mirrored-sample-without-source', lambda: 'x=%s %s' % (xx, a[i]))
    m.event('images', nimg)
    if kw and nice:
        # a row on the wall is its own image
        beyond = int(np.sum(gx > pos + 1e-6*d) if right else np.sum(gx < pos - 1e-6*d))
        m.check(beyond == kw['inds_to_mirror'] - (1 if np.min(np.abs(kx - pos)) < 1e-6*d else 0), 'mirrored-rows',
                lambda: '%d rows beyond the wall at %s for %s; %s from %s' % (beyond, pos, kw, gx, kx))
    if not kw and len(kx) >= 3:
        m.check(nimg >= 1, 'mirrored-no-image')
        m.check(len(gx) == len(kx) + (np.sum((gx < kx[0] - 1e-6*d) | (gx > kx[-1] + 1e-6*d))), 'mirrored-kept-side-lost')


@scenario('C07', 60, 1500)
def mirroring_series(m):
    """A series is mirrored like each of its fields."""
    rng = m.rng
    t = G.tf(rng, lo=1, hi=3, uniform=True, samemask=True, maskkind='none', nlo=4)
    dr = G.pick(rng, 'xy')
    ax = t.axe_x if dr == 'x' else t.axe_y
    pos = float(G.pick(rng, [ax[0], ax[-1], ax[0] - .5*(ax[1] - ax[0])]))
    m.case(G.tdesc(t), 'mirroring', dr, pos)
    g = run(rng, t, 'mirroring', dr, pos)
    for a, b in zip(g.fields, t.fields):
        d = G.diff(G.snap(a), G.snap(b.mirroring(dr, pos)), exact=False)
        m.check(d is None, 'mirrored-series', d)
    m.close(g.axe_x, g.fields[0].axe_x, 'mirrored-series-axis')
    m.close(g.axe_y, g.fields[0].axe_y, 'mirrored-series-axis')
    m.close(g.times, t.times, 'mirrored-series-times')


@scenario('C07', 120, 3000)
def mirroring_filled(m):
    """The gap left next to a symmetry plane lying outside the field is filled as asked; nothing else moves."""
    rng = m.rng
    f = G.field(rng, lo=4, hi=9, uniform=True, nice=True, maskkind='none')
    dr = G.pick(rng, 'xy')
    ax = f.axe_x if dr == 'x' else f.axe_y
    d = ax[1] - ax[0]
    k = float(G.pick(rng, [1., 1.5, 2.]))
    right = bool(rng.random() < .5)
    pos = float(ax[-1] + k*d) if right else float(ax[0] - k*d)
    vec = isinstance(f, VectorField)
    scale = max(np.max(np.abs(c)) for c in comps(f)) or 1.
    val = [float(scale*rng.uniform(-1, 1)), float(scale*rng.uniform(-1, 1))]
    kind = G.pick(rng, ['value', 'linear', 'nearest', 'cubic'])
    m.case(G.tdesc(f), 'mirroring', dr, pos, kind, val)
    g0 = f.mirroring(dr, pos)
    g = run(rng, f, 'mirroring', dr, pos, interp=kind, value=val if vec else val[0])
    G.chk_field(m, g, 'mirror-filled')
    m.close(g.axe_x, g0.axe_x, 'mirror-filled-axis')
    m.close(g.axe_y, g0.axe_y, 'mirror-filled-axis')
    gap = np.array(g0.mask)
    m.check(gap.any(), 'mirror-no-gap')
    m.check(not np.any(g.mask), 'mirror-gap-not-filled')
    m.event('gap-samples', int(gap.sum()))
    gx = g.axe_x if dr == 'x' else g.axe_y
    for c, c0, v in zip(comps(g), comps(g0), val):
        m.close(c[~gap], c0[~gap], 'mirror-filling-changes-samples', atol=1e-9)
        if dr == 'y':
            c, c0, mk = c.T, c0.T, gap.T
        else:
            mk = gap
        cols = np.where(mk[:, 0])[0]
        m.check(np.all(mk[cols]) and np.all(np.diff(cols) == 1) and mk.sum() == len(cols)*mk.shape[1], 'mirror-gap-shape')
        a, b = cols[0] - 1, cols[-1] + 1
        if kind == 'value':
            m.close(c[cols], np.full(c[cols].shape, v), 'mirror-gap-value')
        elif kind == 'linear':
            w = ((gx[cols] - gx[a])/(gx[b] - gx[a]))[:, None]
            m.close(c[cols], c0[a]*(1 - w) + c0[b]*w, 'mirror-gap-linear', atol=1e-9)
        elif kind == 'nearest':
            # a sample of the data or the value at the plane, whichever is closest
            dist = np.abs(gx[cols] - pos)
            for n, col in enumerate(cols):
                da, db = abs(gx[col] - gx[a]), abs(gx[col] - gx[b])
                cand = [(dist[n], np.full(c.shape[1], v)), (da, c0[a]), (db, c0[b])]
                best = min(x[0] for x in cand)
                cand = [x[1] for x in cand if x[0] <= best*(1 + 1e-9) + 1e-12]
                m.check(np.all(np.any([np.isclose(c[col], x, rtol=1e-9, atol=1e-9*scale) for x in cand], axis=0)), 'mirror-gap-nearest')
        else:
            m.check(np.all(np.isfinite(c)), 'mirror-gap-cubic')
            on = np.abs(gx[cols] - pos) < 1e-9*d
            m.close(c[cols][on], np.full(c[cols][on].shape, v), 'mirror-gap-cubic-plane', atol=1e-6)


@scenario('C07', 80, 2000)
def extend_by_lengths(m):
    """ind=False: the extension reaches at least the asked lengths, and not one line more."""
    rng = m.rng
    f = G.sf(rng, lo=3, hi=8, uniform=True)
    dx, dy = f.axe_x[1] - f.axe_x[0], f.axe_y[1] - f.axe_y[0]
    ks = [float(rng.integers(0, 4)) - float(G.pick(rng, [0., .5, .25])) for _ in range(4)]
    ks = [max(0., k) for k in ks]
    # whole multiples of the step, or well between two
    ks = [k if k % 1 else k - 1e-6*(k > 0) for k in ks]
    m.case(G.tdesc(f), 'extend', ks)
    g = run(rng, f, 'extend', nmb_left=ks[0]*dx, nmb_right=ks[1]*dx, nmb_up=ks[2]*dy, nmb_down=ks[3]*dy, ind=False)
    n = [int(np.ceil(k)) for k in ks]
    w = f.extend(nmb_left=n[0], nmb_right=n[1], nmb_up=n[2], nmb_down=n[3])
    d = G.diff(G.snap(g), G.snap(w), exact=False)
    m.check(d is None, 'extend-by-lengths', d)


@scenario('C07', 100, 2500)
def crop_masked_border_hard_series(m):
    """On a series, lines of the border holding a sample masked at every instant go, the fields being cropped alike."""
    rng = m.rng
    t = G.tf(rng, lo=1, hi=4, nlo=8, nhi=11, maskkind="none")
    sh = t.shape
    ring = np.ones(sh, dtype=bool)
    ring[1:-1, 1:-1] = False
    always = ring & (rng.random(sh) < rng.uniform(.1, .6))
    masks = []
    for f in t.fields:
        mk = always | (rng.random(sh) < .1)
        masks.append(mk)
        f.mask = mk
    common = np.all(masks, axis=0)
    if common[1:-1, 1:-1].any():
        raise Skip()
    m.case(G.tdesc(t), 'hard', int(common.sum()))
    g = run(rng, t, 'crop_masked_border', hard=True)
    gm = np.all([f.mask for f in g.fields], axis=0)
    m.check(not np.any(gm), 'hard-series-leaves-masked')
    m.close(g.times, t.times, 'hard-series-times')
    i, j = np.searchsorted(t.axe_x, g.axe_x[0]), np.searchsorted(t.axe_y, g.axe_y[0])
    sl = slice(i, i + len(g.axe_x)), slice(j, j + len(g.axe_y))
    # each line that goes held at least one sample masked at every instant
    m.check(sh[0] - len(g.axe_x) + sh[1] - len(g.axe_y) <= common.sum(), 'hard-series-cuts-valid-lines')
    for a, b, mk in zip(g.fields, t.fields, masks):
        expect(m, a, b.axe_x[sl[0]], b.axe_y[sl[1]], [c[sl] for c in comps(b)], mk[sl], b, 'hard-series', rtol=1e-12)
