"""C09: filling, smoothing and resampling respect existing data."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField
from vh.core import scenario, Skip
from vh import gen as G
from props.c07 import comps, run, border
from props.c08 import affine

RULE = ('Random scalar, vector and temporal fields and profiles with masks of every pattern (isolated, lines, blocks, borders, dense), each filling kind '
        'and option, smoothing kinds and sizes, and reduction factors; the neighbours, blocks and averages are evaluated again from the samples.')
ASSUMPTIONS = ['nearest filling: any of the valid samples at the smallest distance',
               'linear filling is claimed exact inside the hull of the valid samples']


def same_frame(m, g, f, sig):
    m.close(g.axe_x, f.axe_x, sig + '-axis', rtol=1e-12)
    m.close(g.axe_y, f.axe_y, sig + '-axis', rtol=1e-12)
    m.check(G.si(g.unit_x) == G.si(f.unit_x) and G.si(g.unit_y) == G.si(f.unit_y) and
            G.si(g.unit_values) == G.si(f.unit_values), sig + '-units')


def masked_field(rng, lo=4, hi=10, **k):
    """Valid points keep four non-aligned neighbours somewhere."""
    f = G.field(rng, lo=lo, hi=hi, maskkind='none', **k)
    mk = G.mask(rng, f.shape, G.pick(rng, ['sparse', 'block', 'border', 'lines', 'dense']))
    i, j = np.where(~mk)
    if len(i) < 4 or len(set(i.tolist())) < 2 or len(set(j.tolist())) < 2:
        mk[:] = False
        mk[1, 1] = True
    f.mask = mk
    return f


def nearest_ok(f, c, got):
    """Each filled value is the value of a valid sample at the smallest distance."""
    mk = f.mask
    X, Y = np.meshgrid(f.axe_x, f.axe_y, indexing='ij')
    gi, gj = np.where(~mk)
    for i, j in zip(*np.where(mk)):
        d = np.hypot(X[gi, gj] - X[i, j], Y[gi, gj] - Y[i, j])
        cand = c[gi, gj][d <= d.min()*(1 + 1e-9)]
        if not np.any(np.isclose(cand, got[i, j], rtol=1e-12)):
            return '%s at %s not in %s' % (got[i, j], (i, j), cand)


def aligned(f):
    i, j = np.where(~f.mask)
    q = np.array([f.axe_x[i], f.axe_y[j]])
    return len(i) < 3 or np.linalg.matrix_rank(q - q[:, :1]) < 2


@scenario('C09', 350, 10000)
def fill(m):
    rng = m.rng
    f = masked_field(rng)
    kind = G.pick(rng, ['value', 'nearest', 'linear', 'cubic'])
    kw = dict(kind=kind)
    val = [float(rng.normal()), float(rng.normal())]
    if kind == 'value':
        kw['value'] = val[0] if isinstance(f, ScalarField) or rng.random() < .3 else val
    if rng.random() < .5 and kind != 'value':
        kw['reduce_tri'] = bool(rng.random() < .5)
    # the valid neighbours of the masked points must span the plane for a triangulation
    m.case(G.tdesc(f), kw)
    try:
        g = run(rng, f, 'fill', **kw)
    except Exception as e:
        if 'Qhull' in type(e).__name__ and aligned(f):
            raise Skip()
        raise
    m.event('fill-' + kind)
    same_frame(m, g, f, 'fill')
    m.check(not np.any(g.mask), 'fill-leaves-masked')
    for q, (a, b) in enumerate(zip(comps(g), comps(f))):
        m.check(np.all(np.isfinite(a)), 'fill-leaves-nan', lambda: str(a))
        m.check(np.array_equal(a[~f.mask], b[~f.mask]), 'fill-changes-valid-sample', lambda: '%s from %s' % (a, b))
        if kind == 'value':
            w = kw['value'] if np.isscalar(kw['value']) else kw['value'][q]
            m.check(np.all(a[f.mask] == w), 'fill-constant', lambda: '%s want %s' % (a[f.mask], w))
        elif kind == 'nearest':
            e = nearest_ok(f, b, a)
            m.check(e is None, 'fill-nearest', e)
        elif kind == 'linear':
            v = b[~f.mask]
            t = 1e-7*(np.ptp(v) + np.max(np.abs(v)))
            m.check(np.all(a >= v.min() - t) and np.all(a <= v.max() + t), 'fill-linear-range')


@scenario('C09', 250, 7000)
def fill_affine(m):
    """Linear and cubic filling reproduce a linear field where the masked point has valid
    samples all around (inside their convex hull)."""
    rng = m.rng
    base = masked_field(rng, lo=5)
    f, fs = affine(rng, base)
    kind = G.pick(rng, ['linear', 'cubic'])
    m.case(G.tdesc(f), kind)
    try:
        g = run(rng, f, 'fill', kind=kind, reduce_tri=bool(rng.random() < .5))
    except Exception as e:
        if 'Qhull' in type(e).__name__ and aligned(f):
            raise Skip()
        raise
    X, Y = np.meshgrid(f.axe_x, f.axe_y, indexing='ij')
    ok = ~f.mask
    inside = np.zeros(f.shape, dtype=bool)
    for i, j in zip(*np.where(f.mask)):
        # between two valid samples of its line or column: in the hull of valid points
        inside[i, j] = (ok[:i, j].any() and ok[i + 1:, j].any()) or (ok[i, :j].any() and ok[i, j + 1:].any())
    for a, h in zip(comps(g), fs):
        w = h(X, Y)
        s = np.max(np.abs(w)) + np.ptp(w)
        if np.any(inside):
            m.event('filled-inside', int(inside.sum()))
            tol = 1e-6 if kind == 'linear' else 1e-4
            m.check(np.all(np.abs(a - w)[inside] < tol*s), 'fill-%s-affine' % kind, lambda: '%s want %s' % (a, w))


@scenario('C09', 100, 3000)
def fill_crop(m):
    rng = m.rng
    f = G.field(rng, lo=5, maskkind='none')
    mk = G.mask(rng, f.shape, 'sparse')
    n = int(rng.integers(0, 2))
    mk[:n] = True
    if rng.random() < .5:
        mk[:, -1:] = True
    f.mask = mk
    sl = border(mk)
    if sl[0].stop - sl[0].start < 3 or sl[1].stop - sl[1].start < 3:
        raise Skip()
    m.case(G.tdesc(f), 'fill crop')
    try:
        g = run(rng, f, 'fill', kind='nearest', crop=True)
    except Exception as e:
        if 'Qhull' in type(e).__name__ and aligned(f):
            raise Skip()
        raise
    m.close(g.axe_x, f.axe_x[sl[0]], 'fill-crop-axis')
    m.close(g.axe_y, f.axe_y[sl[1]], 'fill-crop-axis')
    m.check(not np.any(g.mask), 'fill-crop-masked')
    for a, b in zip(comps(g), comps(f)):
        m.check(np.array_equal(a[~mk[sl]], b[sl][~mk[sl]]), 'fill-crop-valid-sample')


@scenario('C09', 250, 7000)
def smooth(m):
    rng = m.rng
    masked = rng.random() < .4
    f = masked_field(rng) if masked else G.field(rng, lo=4, maskkind='none')
    tos = G.pick(rng, ['uniform', 'gaussian'])
    kw = dict(tos=tos)
    size = None
    if rng.random() < .7:
        size = G.pick(rng, [1, 2, 3, 5]) if tos == 'uniform' else float(rng.uniform(.3, 2.))
        kw['size'] = size
    m.case(G.tdesc(f), kw)
    try:
        g = run(rng, f, 'smooth', **kw)
        full = f.fill(kind='linear')
    except Exception as e:
        if 'Qhull' in type(e).__name__ and aligned(f):
            raise Skip()
        raise
    same_frame(m, g, f, 'smooth')
    m.check(not np.any(g.mask), 'smooth-masked')
    for a, b in zip(comps(g), comps(full)):
        t = 1e-9*(np.max(np.abs(b)) + np.ptp(b))
        m.check(np.all(a >= b.min() - t) and np.all(a <= b.max() + t), 'smooth-range')
    n = {None: 3}.get(size, size)
    if tos == 'uniform' and n in (1, 3, 5) and min(f.shape) > n:
        h = n//2
        for a, b in zip(comps(g), comps(full)):
            for _ in range(4):
                i = int(rng.integers(h, f.shape[0] - h))
                j = int(rng.integers(h, f.shape[1] - h))
                m.check(abs(a[i, j] - np.mean(b[i - h:i + h + 1, j - h:j + h + 1])) <= 1e-9*np.max(np.abs(b)), 'smooth-uniform-average')
    # constants, and linearity in the field
    c = float(rng.normal()*3)
    k = f*0 + (c if isinstance(f, ScalarField) else np.full(f.shape, c)) if isinstance(f, ScalarField) else f*0
    kk = k.smooth(**kw)
    for a in comps(kk):
        w = c if isinstance(f, ScalarField) else 0.
        m.check(np.allclose(a, w, rtol=1e-9), 'smooth-constant')
    if not masked:
        s2 = (f*2.5).smooth(**kw)
        for a, b in zip(comps(s2), comps(g)):
            m.close(a, b*2.5, 'smooth-linear', rtol=1e-6, atol=1e-7)


@scenario('C09', 350, 9000)
def reduce(m):
    rng = m.rng
    fact = int(rng.integers(1, 5))
    f = G.field(rng, lo=max(3, fact), hi=13)
    m.case(G.tdesc(f), 'reduce', fact)
    g = run(rng, f, 'reduce_spatial_resolution', fact)
    nx, ny = f.shape[0]//fact, f.shape[1]//fact
    m.check(g.shape == (nx, ny), 'reduce-shape', lambda: '%s want %s' % (g.shape, (nx, ny)))
    if g.shape != (nx, ny):
        return
    G.chk_field(m, g, 'reduce')

    def centre(ax, n):
        b = ax[:n*fact].reshape(n, fact)
        return b[:, fact//2] if fact % 2 else (b[:, fact//2 - 1] + b[:, fact//2])/2
    m.close(g.axe_x, centre(f.axe_x, nx), 'reduce-axis')
    m.close(g.axe_y, centre(f.axe_y, ny), 'reduce-axis')
    m.check(G.si(g.unit_x) == G.si(f.unit_x) and G.si(g.unit_y) == G.si(f.unit_y) and
            G.si(g.unit_values) == G.si(f.unit_values), 'reduce-units')
    for a, b in zip(comps(g), comps(f)):
        for i in range(nx):
            for j in range(ny):
                blk = b[i*fact:(i + 1)*fact, j*fact:(j + 1)*fact]
                mk = f.mask[i*fact:(i + 1)*fact, j*fact:(j + 1)*fact]
                if mk.all():
                    m.check(g.mask[i, j], 'reduce-masked-block')
                else:
                    m.check(not g.mask[i, j], 'reduce-valid-block-masked')
                    s = np.max(np.abs(blk[~mk]))
                    m.check(abs(a[i, j] - np.mean(blk[~mk])) <= 1e-9*s, 'reduce-average', lambda: '%s want %s' % (a[i, j], np.mean(blk[~mk])))
    for bad in (0, -1):
        m.raises(lambda: f.reduce_spatial_resolution(bad), 'reduce-bad-factor')


@scenario('C09', 200, 6000)
def series(m):
    """Series: filled, smoothed and reduced field by field, times kept."""
    rng = m.rng
    t = G.tf(rng, lo=1, hi=4, nlo=4, maskkind=G.pick(rng, ['none', 'sparse', 'block']))
    op = G.pick(rng, ['reduce', 'smooth', 'fill'])
    m.case(G.tdesc(t), op)
    if op == 'reduce':
        fact = G.pick(rng, [2, 3])
        f = lambda o: o.reduce_spatial_resolution(fact)
        name, a, k = 'reduce_spatial_resolution', (fact,), {}
    elif op == 'smooth':
        name, a, k = 'smooth', (), dict(tos=G.pick(rng, ['uniform', 'gaussian']))
    else:
        kind = G.pick(rng, ['nearest', 'linear', 'value'])
        name, a, k = 'fill', (), dict(kind=kind)
        if kind == 'value':
            v = float(rng.normal())
            k['value'] = v if t.field_type is ScalarField or rng.random() < .4 else [v, float(rng.normal())]
        k['tof'] = 'spatial'
    ks = {kk: v for kk, v in k.items() if kk != 'tof'}
    try:
        refs = [getattr(fl, name)(*a, **ks) for fl in t.fields]
        g = run(rng, t, name, *a, **k)
    except Exception as e:
        if 'Qhull' in type(e).__name__ and aligned(f):
            raise Skip()
        raise
    m.check(len(g.fields) == len(t.fields), 'series-length')
    m.close(g.times, t.times, 'series-times')
    for x, y in zip(g.fields, refs):
        d = G.diff(G.snap(x), G.snap(y), exact=False)
        m.check(d is None, 'series-' + op, d)
    m.close(g.axe_x, refs[0].axe_x, 'series-axis')
    m.close(g.axe_y, refs[0].axe_y, 'series-axis')


@scenario('C09', 200, 6000)
def profile_fill_smooth(m):
    rng = m.rng
    p = G.profile(rng, lo=4, masked=True)
    if np.sum(~p.mask) < 3:
        raise Skip()
    kind = G.pick(rng, ['slinear', 'nearest', 'value', 'linear', 'cubic'])
    if kind == 'cubic' and np.sum(~p.mask) < 4:
        raise Skip()
    m.case(G.tdesc(p), kind)
    kw = dict(kind=kind)
    if kind == 'value':
        kw['fill_value'] = float(rng.normal())
    ok = ~p.mask
    x, y = p.x, np.array(p.y)
    g = run(rng, p, 'fill', **kw)
    m.close(g.x, x, 'profile-fill-x', rtol=0)
    m.check(np.array_equal(np.array(g.y)[ok], y[ok]), 'profile-fill-changes-valid', lambda: '%s %s' % (g.y, y))
    m.check(G.si(g.unit_x) == G.si(p.unit_x) and G.si(g.unit_y) == G.si(p.unit_y), 'profile-fill-units')
    i0, i1 = np.where(ok)[0][[0, -1]]
    sl = slice(i0, i1 + 1)
    if kind == 'value':
        m.check(np.all(np.array(g.y)[~ok] == kw['fill_value']) and not np.any(g.mask), 'profile-fill-value')
    else:
        m.check(np.all(g.y[:i0] == y[i0]) and np.all(g.y[i1 + 1:] == y[i1]), 'profile-fill-outside-the-valid-samples', lambda: '%s from %s' % (g.y, y))
        m.check(not np.any(g.mask), 'profile-fill-left-masked')
    if kind in ('slinear', 'linear'):
        m.close(np.array(g.y)[sl], np.interp(x, x[ok], y[ok])[sl], 'profile-fill-linear', rtol=1e-6, atol=1e-9)
        m.check(not np.any(np.asarray(g.mask)[sl]), 'profile-fill-left-masked')
    elif kind == 'nearest':
        for i in np.where(~ok)[0]:
            if i0 < i < i1:
                d = np.abs(x[ok] - x[i])
                m.check(np.any(np.isclose(y[ok][d <= d.min()*(1 + 1e-9)], g.y[i], rtol=1e-12)), 'profile-fill-nearest')


@scenario('C09', 200, 6000)
def series_fill_in_time(m):
    """Filling in time: valid samples kept; a point valid at three instants or more is
    interpolated linearly between its valid instants, and left masked outside them."""
    rng = m.rng
    t = G.tf(rng, lo=3, hi=7, samemask=False, maskkind=G.pick(rng, ['sparse', 'dense', 'none', 'block']))
    kind = G.pick(rng, ['linear', 'linear', 'value'])
    kw = dict(tof='temporal', kind=kind)
    sc = t.field_type is ScalarField
    val = [float(rng.normal()), float(rng.normal())]
    if kind == 'value':
        kw['value'] = val[0] if sc else val
    m.case(G.tdesc(t), 'fill', kw)
    g = run(rng, t, 'fill', **kw)
    m.close(g.times, t.times, 'time-fill-times')
    M = np.array([f.mask for f in t.fields])
    MG = np.array([f.mask for f in g.fields])
    n = len(t.fields)
    for k in range(1 if sc else 2):
        V = np.array([comps(f)[k] for f in t.fields])
        VG = np.array([comps(f)[k] for f in g.fields])
        m.check(np.array_equal(VG[~M], V[~M]) and not np.any(MG[~M]), 'time-fill-changes-valid')
        m.check(np.array_equal(np.isnan(VG), MG), 'time-fill-masked-is-nan')
        for i, j in np.argwhere(np.any(M, axis=0)):
            ok = ~M[:, i, j]
            for q in np.where(~ok)[0]:
                if ok.sum() < 3:
                    m.check(MG[q, i, j], 'time-fill-not-enough-instants')
                elif kind == 'value':
                    m.check(VG[q, i, j] == val[k], 'time-fill-value')
                elif np.where(ok)[0][0] < q < np.where(ok)[0][-1]:
                    m.event('interpolated-in-time')
                    w = np.interp(t.times[q], t.times[ok], V[ok, i, j])
                    m.check(not MG[q, i, j] and np.isclose(VG[q, i, j], w, rtol=1e-6, atol=1e-9*np.nanmax(np.abs(V))), 'time-fill-linear',
                            lambda: '%s want %s' % (VG[q, i, j], w))
                else:
                    m.check(MG[q, i, j], 'time-fill-extrapolated', lambda: str(VG[q, i, j]))
    for f in g.fields:
        G.chk_field(m, f, 'time-fill')


@scenario('C09', 80, 2000)
def series_fill_cubic_and_crop(m):
    """Cubic filling in time is exact for cubic evolutions; crop=True drops the borders masked at every instant first."""
    rng = m.rng
    n = int(rng.integers(7, 10))
    t = G.tf(rng, lo=n, hi=n, maskkind='none', nlo=4, nhi=6, tuniform=True)
    sh, sc = t.shape, t.field_type is ScalarField
    tau = (t.times - t.times[0])/np.ptp(t.times)
    co = rng.normal(size=(2, 4) + sh)
    M = np.zeros((n,) + sh, dtype=bool)
    for i in range(sh[0]):
        for j in range(sh[1]):
            k = rng.permutation(np.arange(1, n - 1))[:int(rng.integers(0, 3))]
            M[k, i, j] = True
    full = np.array([[sum(co[c, q]*tau[k]**q for q in range(4)) for c in range(2)] for k in range(n)])
    border = bool(rng.random() < .5)
    if border:
        M[:, 0, :] = True
        if rng.random() < .5:
            M[:, :, -1] = True
    for k, f in enumerate(t.fields):
        u = (f.unit_x, f.unit_y, f.unit_values)
        vs = [full[k, c].copy() for c in range(1 if sc else 2)]
        f.import_from_arrays(f.axe_x, f.axe_y, *vs, mask=M[k], unit_x=u[0], unit_y=u[1], unit_values=u[2])
    crop = border and bool(rng.random() < .6)
    m.case(G.tdesc(t), 'cubic', n, 'crop', crop, border)
    g = run(rng, t, 'fill', tof='temporal', kind='cubic', crop=crop)
    al = M.all(axis=0)
    sx = slice(None) if not crop else slice(np.where(~al.all(axis=1))[0][0], np.where(~al.all(axis=1))[0][-1] + 1)
    sy = slice(None) if not crop else slice(np.where(~al.all(axis=0))[0][0], np.where(~al.all(axis=0))[0][-1] + 1)
    m.close(g.axe_x, t.axe_x[sx], 'cubic-crop-axis')
    m.close(g.axe_y, t.axe_y[sy], 'cubic-crop-axis')
    m.close(g.times, t.times, 'cubic-times')
    for k, f in enumerate(g.fields):
        G.chk_field(m, f, 'time-fill-cubic')
        m.check(np.array_equal(f.mask, al[sx, sy]), 'cubic-left-masked')
        for c, v in enumerate(comps(f)):
            ok = ~al[sx, sy]
            m.close(v[ok], full[k, c][sx, sy][ok], 'time-fill-cubic', rtol=1e-6, atol=1e-7)
    # in space: cropped, then filled, field by field
    if border:
        kind = G.pick(rng, ['nearest', 'value'])
        kw = dict(value=3. if sc else [3., 4.]) if kind == 'value' else {}
        h = run(rng, t, 'fill', tof='spatial', kind=kind, crop=True, **kw)
        ax = np.where(~al.all(axis=1))[0]
        ay = np.where(~al.all(axis=0))[0]
        for a, b in zip(h.fields, t.fields):
            w = b.crop(intervx=[int(ax[0]), int(ax[-1])], intervy=[int(ay[0]), int(ay[-1])], ind=True).fill(kind=kind, **kw)
            d = G.diff(G.snap(a), G.snap(w), exact=False)
            m.check(d is None, 'spatial-fill-after-crop', d)
