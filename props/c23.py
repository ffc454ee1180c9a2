"""C23: proper orthogonal decomposition."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField, TemporalScalarFields, TemporalVectorFields
from IMTreatment.pod import modal_decomposition
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Series of random rank (full, low, low plus noise), scalar or vector, any units and irregular times, with and without masks; '
        'the decomposition is compared with a singular value decomposition of the same data made here.')
ASSUMPTIONS = ['decompositions of kind pod; the dmd and bpod kinds use calls that the installed modred does not have',
               'masked samples are filled before the decomposition: the series given back is compared where it was valid']


def series(rng, kind=None, masked=False, n=None):
    kind = kind or G.pick(rng, ['s', 'v'])
    nx, ny = int(rng.integers(3, 7)), int(rng.integers(3, 7))
    nt = n or int(rng.integers(3, 10))
    if rng.random() < .2:
        nx, ny = 3, 3
        nt = int(rng.integers(10, 20))
    x, y = np.cumsum(rng.uniform(.2, 2, nx)), np.cumsum(rng.uniform(.2, 2, ny))
    c = 2 if kind == 'v' else 1
    how = G.pick(rng, ['full', 'low', 'noisy'])
    r = int(rng.integers(1, max(2, nt - 1)))
    B, S = rng.normal(size=(nt, r)), rng.normal(size=(r, c*nx*ny))
    if how == 'full':
        A = rng.normal(size=(nt, c*nx*ny))
    else:
        A = B @ S
        if how == 'noisy':
            A = A + 1e-2*rng.normal(size=A.shape)
    s = 10**rng.uniform(-3, 3)
    A = s*(A + rng.normal(size=c*nx*ny)*rng.uniform(0, 5))
    t = np.cumsum(rng.choice([.5, 1., 2.], nt))
    if rng.random() < .4:
        t = np.arange(nt)*.25
    V = A.reshape(nt, c, nx, ny)
    tf = TemporalScalarFields() if kind == 's' else TemporalVectorFields()
    un = (G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.VEL), G.pick(rng, G.TIM))
    mask = np.zeros((nt, nx, ny), dtype=bool)
    if masked:
        # isolated interior holes, changing with time
        for k in range(nt):
            for _ in range(int(rng.integers(0, 3))):
                mask[k, int(rng.integers(1, nx - 1)), int(rng.integers(1, ny - 1))] = True
    for k in range(nt):
        if kind == 's':
            f = ScalarField()
            f.import_from_arrays(x, y, V[k, 0], mask=mask[k], unit_x=un[0], unit_y=un[1], unit_values=un[2])
        else:
            f = VectorField()
            f.import_from_arrays(x, y, V[k, 0], V[k, 1], mask=mask[k], unit_x=un[0], unit_y=un[1], unit_values=un[2])
        tf.add_field(f, time=t[k], unit_times=un[3])
    return tf, V, mask, t, un, kind


def data(fields, kind):
    return np.array([[f.values] if kind == 's' else [f.comp_x, f.comp_y] for f in fields])


def near(m, got, want, sig, rtol=1e-7, tol=0.):
    """Absolute tolerance (`close` takes one relative to the largest value)."""
    w = np.asarray(want, dtype=float)
    w = np.abs(w[np.isfinite(w)])
    sc = w.max() if w.size else 0.
    return m.close(got, want, sig, rtol=rtol, atol=tol/sc if sc > 0 else 0.) if sc > 0 or tol == 0 else \
        m.check(np.shape(got) == np.shape(want) and np.all(np.abs(got) <= tol), sig, lambda: 'got %s want zero' % (got,))


def flat(a):
    return np.asarray(a).reshape(len(a), -1)


@scenario('C23', 160)
def pod(m):
    rng = m.rng
    tf, V, mask, t, un, kind = series(rng)
    before = G.snap(tf)
    p = modal_decomposition(tf, verbose=False)
    m.case(kind, V.shape, un)
    m.event('pod:%s' % kind)
    m.check(not G.diff(before, G.snap(tf)), 'input-changed')
    A = flat(V)
    mu = A.mean(axis=0)
    F = A - mu
    U, s, W = np.linalg.svd(F, full_matrices=False)
    lam = np.concatenate([s**2, np.zeros(len(t))])
    tol = 1e-9*lam[0]
    # snapshots method: modes whose energy is at the rounding level are lost
    rec = 1e-6*np.max(np.abs(A)) + 1e-5*s[0]
    n = len(p.modes)
    m.event('modes', n)
    m.check(n == len(p.temp_evo) == len(p.eigvals) == len(p.modes_nmb) and p.eigvects.shape == (len(t), n), 'sizes')
    m.check(n >= np.sum(lam > 1e-7*lam[0]) and n <= len(t), 'number-of-modes', '%d modes, eigenvalues %s' % (n, lam))
    near(m, p.eigvals.y, lam[:n], 'eigenvalues', rtol=1e-7, tol=tol)
    m.check(np.all(np.diff(p.eigvals.y) <= tol) and np.all(p.eigvals.y >= -tol), 'eigenvalues-decreasing')
    near(m, data([p.mean_field], kind)[0], mu.reshape(V.shape[1:]), 'mean-field', rtol=1e-9, tol=1e-9*np.max(np.abs(A)))
    M = flat(data(p.modes, kind))
    big = p.eigvals.y > 1e-7*lam[0]
    q = np.where(big)[0]
    m.close(M[q] @ M[q].T, np.eye(len(q)), 'modes-are-not-orthonormal', atol=1e-4)
    T = np.array([e.y for e in p.temp_evo])
    near(m, T @ T.T, np.diag(p.eigvals.y), 'temporal-coefficients-correlated', tol=1e-6*lam[0])
    near(m, T, M @ F.T, 'temporal-coefficients-are-not-projections', tol=1e-5*s[0])
    for e in p.temp_evo:
        m.close(e.x, t, 'times-of-the-coefficients')
        m.check(e.unit_x.strUnit() == tf.unit_times.strUnit() and e.unit_y.strUnit() == tf.unit_values.strUnit(), 'unit-of-the-coefficients')
    E = p.get_modes_energy(raw=True)
    m.check(abs(np.sum(E)*V.shape[1] - .5*np.mean(F**2)*V.shape[1]**2) <= 1e-7*.5*np.mean(F**2)*V.shape[1]**2, 'total-energy',
            lambda: '%s, fluctuation energy %s' % (np.sum(E), .5*np.mean(F**2)*V.shape[1]))
    C = p.get_modes_energy(cum=True, raw=False)
    m.close(C.y, np.cumsum(E), 'cumulated-energy')
    m.check(G.dim(C.unit_y) == G.dimmul(G.dim(tf.unit_values), G.dim(tf.unit_values)), 'unit-of-the-energy')
    # reconstruction
    r = p.reconstruct()
    near(m, data(r.fields, kind), V, 'full-reconstruction', rtol=1e-6, tol=rec)
    m.close(r.times, t, 'times-of-the-reconstruction')
    m.check(r.unit_times.strUnit() == tf.unit_times.strUnit() and r.unit_values.strUnit() == tf.unit_values.strUnit() and
            r.unit_x.strUnit() == tf.unit_x.strUnit() and r.unit_y.strUnit() == tf.unit_y.strUnit(), 'units-of-the-reconstruction')
    for g in list(p.modes) + [p.mean_field, p]:
        m.close(g.axe_x, tf.axe_x, 'axes-of-the-modes')
        m.close(g.axe_y, tf.axe_y, 'axes-of-the-modes')
        m.check(g.unit_x.strUnit() == tf.unit_x.strUnit() and g.unit_y.strUnit() == tf.unit_y.strUnit(), 'units-of-the-modes')
    m.close(r.axe_x, tf.axe_x, 'axes-of-the-reconstruction')
    m.close(r.axe_y, tf.axe_y, 'axes-of-the-reconstruction')
    k = int(rng.integers(1, n + 1))
    gap = k == n or lam[k - 1] - lam[k] > 1e-5*lam[0]
    best = mu + (U[:, :k]*s[:k]) @ W[:k]
    if gap:
        for how in ('number', 'list'):
            rk = p.reconstruct(k if how == 'number' else list(range(k)))
            near(m, flat(data(rk.fields, kind)), best, 'best-approximation#' + how, tol=1e-4*s[0] + 1e-9*np.max(np.abs(A)))
            m.event('rank-k')
    sub = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
    rs = p.reconstruct([int(i) for i in sub])
    near(m, flat(data(rs.fields, kind)), mu + T[sub].T @ M[sub], 'reconstruction-from-chosen-modes', tol=1e-7*np.max(np.abs(A)))
    # other times: linear in between
    a = float(rng.uniform(0, 1))
    j = int(rng.integers(len(t) - 1))
    tt = t[j] + a*(t[j + 1] - t[j])
    ro = p.reconstruct(times=[float(tt)])
    near(m, flat(data(ro.fields, kind))[0], A[j] + a*(A[j + 1] - A[j]), 'reconstruction-between-instants', tol=rec)
    nt = G.pick(rng, [len(t), len(t), 2, len(t) + 1])
    ts = np.sort(rng.uniform(t[0], t[-1], nt))
    if rng.random() < .5:
        ts[0], ts[-1] = t[0], t[-1]
    ro = p.reconstruct(times=[float(x) for x in ts])
    m.close(ro.times, ts, 'times-of-the-reconstruction-at-other-instants')
    near(m, flat(data(ro.fields, kind)), np.array([np.interp(ts, t, c) for c in A.T]).T, 'reconstruction-at-other-instants', tol=rec)
    m.event('reconstruction-at-other-instants', nt)
    m.raises(lambda: p.reconstruct(times=[float(t[-1] + 1)]), 'reconstruction-outside-the-times')
    m.check(not G.diff(before, G.snap(tf)), 'input-changed-later')
    # chosen modes at the decomposition
    w = [int(i) for i in sub]
    ps = modal_decomposition(tf, wanted_modes=w, verbose=False)
    ok = len(w)
    m.check(len(ps.modes) == ok and list(ps.modes_nmb) == w, 'wanted-modes')
    near(m, ps.eigvals.y, p.eigvals.y[w], 'eigenvalues-of-the-wanted-modes', rtol=1e-7, tol=tol)
    near(m, flat(data(ps.reconstruct().fields, kind)), mu + T[sub].T @ M[sub], 'reconstruction-from-wanted-modes', tol=rec)
    pn = modal_decomposition(tf, wanted_modes=k, verbose=False)
    m.check(len(pn.modes) == k, 'number-of-wanted-modes')


def parts(p, kind):
    return dict(modes=flat(data(p.modes, kind)), evo=np.array([e.y for e in p.temp_evo]), eig=np.array(p.eigvals.y),
                vec=np.array(p.eigvects), times=np.array(p.times), nmb=np.array(p.modes_nmb),
                mean=data([p.mean_field], kind).ravel(), t0=np.array(p.temp_evo[0].x))


def same(m, a, b, sig, tol):
    for k in a:
        if k in b:
            near(m, a[k], b[k], '%s#%s' % (sig, k), rtol=1e-9, tol=tol)


@scenario('C23', 160)
def operations(m):
    rng = m.rng
    tf, V, mask, t, un, kind = series(rng)
    p = modal_decomposition(tf, verbose=False)
    n = len(p.modes)
    if n < 2:
        raise Skip
    sc = np.max(np.abs(V))
    ref = parts(p, kind)
    R = data(p.reconstruct().fields, kind)
    op = G.pick(rng, ['keep', 'remove', 'cropt', 'cropx', 'scale', 'augment', 'coherence', 'smooth', 'copy', 'tf'])
    inplace = bool(rng.random() < .5)
    m.event('operation:%s:%s' % (op, inplace))
    old = p
    tol = 1e-9*sc
    if op in ('keep', 'remove'):
        if rng.random() < .5:
            k = int(rng.integers(1, n))
            arg = k
            kept = np.arange(k) if op == 'keep' else np.arange(n - k)
        else:
            k = np.sort(rng.choice(n, int(rng.integers(1, n)), replace=False))
            if rng.random() < .4:
                # some of them counted from the end
                arg = [int(i) - n if rng.random() < .5 else int(i) for i in k]
                m.event('modes-counted-from-the-end')
            else:
                arg = G.pick(rng, [list(map(int, k)), k])
            kept = k if op == 'keep' else np.delete(np.arange(n), k)
        r = p.crop_modal_base(**{'modes_to_' + op: arg, 'inplace': inplace})
        q = p if inplace else r
        m.case(op, arg)
        want = dict(modes=ref['modes'][kept], evo=ref['evo'][kept], eig=ref['eig'][kept], vec=ref['vec'][:, kept], times=ref['times'],
                    nmb=ref['nmb'][kept], mean=ref['mean'])
        same(m, parts(q, kind), want, 'after-' + op, tol)
        near(m, flat(data(q.reconstruct().fields, kind)), ref['mean'] + ref['evo'][kept].T @ ref['modes'][kept], 'reconstruction-after-' + op, tol=1e-7*sc)
        m.check(q.eigvals.unit_x.strUnit() == tf.unit_times.strUnit() and q.eigvals.unit_y.strUnit() == G.make_unit('').strUnit(), 'units-of-the-eigenvalues-after-' + op)
        m.close(q.eigvals.x, kept, 'numbers-of-the-eigenvalues-after-' + op)
        m.close(q.get_modes_energy(raw=True), [.5*np.mean(a**2)*V.shape[1]*np.mean(b**2) for a, b in zip(ref['modes'][kept], ref['evo'][kept])],
                'energy-after-' + op, rtol=1e-7)
    elif op == 'cropt':
        a, b = sorted(int(i) for i in rng.choice(len(t), 2, replace=False))
        if rng.random() < .5:
            r = p.crop(intervt=[a, b], ind=True, inplace=inplace)
            kept = np.arange(a, b)
        else:
            e = float(rng.choice([0., .1]))
            r = p.crop(intervt=[t[a] - e, t[b] + e], inplace=inplace)
            kept = np.arange(a, b + 1)
        q = p if inplace else r
        same(m, parts(q, kind), dict(modes=ref['modes'], evo=ref['evo'][:, kept], times=t[kept], t0=t[kept], mean=ref['mean'], vec=ref['vec'][kept]), 'after-cropt', tol)
        near(m, data(q.reconstruct().fields, kind), R[kept], 'reconstruction-after-cropt', tol=1e-7*sc)
    elif op == 'cropx':
        x, y = np.array(tf.axe_x), np.array(tf.axe_y)
        i = sorted(int(k) for k in rng.choice(len(x), 2, replace=False))
        j = sorted(int(k) for k in rng.choice(len(y), 2, replace=False))
        wh = G.pick(rng, ['x', 'y', 'xy'])
        if 'x' not in wh:
            i = [0, len(x) - 1]
        if 'y' not in wh:
            j = [0, len(y) - 1]
        r = p.crop(intervx=[x[i[0]], x[i[1]]] if 'x' in wh else None, intervy=[y[j[0]], y[j[1]]] if 'y' in wh else None, inplace=inplace)
        q = p if inplace else r
        s = (slice(None), slice(None), slice(i[0], i[1] + 1), slice(j[0], j[1] + 1))
        near(m, data(q.modes, kind), data_of(ref['modes'], V)[s], 'modes-after-cropx', tol=tol)
        f = q.reconstruct()
        near(m, data(f.fields, kind), R[s], 'reconstruction-after-cropx', tol=1e-7*sc)
        m.close(f.axe_x, x[i[0]:i[1] + 1], 'axes-after-cropx')
        m.close(f.axe_y, y[j[0]:j[1] + 1], 'axes-after-cropx')
    elif op == 'scale':
        kx, ky, kt, kv = [float(k) for k in 10**rng.uniform(-2, 2, 4)]
        if rng.random() < .3:
            kv = kv*G.make_unit('s/mm')
        if rng.random() < .3:
            kt = kt*G.make_unit('ms/s')
        uv, ut = G.si(tf.unit_values), G.si(tf.unit_times)
        r = p.scale(scalex=kx, scaley=ky, scalet=kt, scalev=kv, inplace=inplace)
        q = p if inplace else r
        f = q.reconstruct()
        fv, ft = G.si(kv), G.si(kt)
        nv, nt = G.si(f.unit_values), G.si(f.unit_times)
        m.check(nv[1] == G.dimmul(uv[1], fv[1]) and nt[1] == ut[1], 'dimension-after-scale')
        near(m, data(f.fields, kind)*nv[0], R*uv[0]*fv[0], 'reconstruction-after-scale', tol=1e-7*sc*uv[0]*fv[0])
        m.close(f.times*nt[0], t*ut[0]*ft[0], 'times-after-scale')
        m.close(f.axe_x*G.fac(f.unit_x), np.array(tf.axe_x)*kx*G.fac(tf.unit_x), 'axes-after-scale')
        m.close(f.axe_y*G.fac(f.unit_y), np.array(tf.axe_y)*ky*G.fac(tf.unit_y), 'axes-after-scale')
        for g in list(q.modes) + [q.mean_field, q]:
            m.close(g.axe_x*G.fac(g.unit_x), np.array(tf.axe_x)*kx*G.fac(tf.unit_x), 'axes-of-the-modes-after-scale')
            m.close(g.axe_y*G.fac(g.unit_y), np.array(tf.axe_y)*ky*G.fac(tf.unit_y), 'axes-of-the-modes-after-scale')
        for g in q.temp_evo:
            m.close(g.x*G.fac(g.unit_x), t*ut[0]*ft[0], 'times-of-the-coefficients-after-scale')
        m.close(q.times*G.fac(q.unit_times), t*ut[0]*ft[0], 'times-of-the-decomposition-after-scale')
    elif op == 'augment':
        if not np.allclose(np.diff(t), t[1] - t[0]):
            raise Skip
        k = int(rng.integers(2, 4))
        r = p.augment_temporal_resolution(fact=k, inplace=inplace)
        q = p if inplace else r
        f = q.reconstruct()
        tt = np.array(f.times)
        m.check(abs((tt[1] - tt[0])*k - (t[1] - t[0])) < 1e-9 and abs(tt[0] - t[0]) < 1e-9 and abs(tt[-1] - t[-1]) < 1e-9, 'times-after-augment', lambda: '%s %s' % (tt, t))
        D = flat(data(f.fields, kind))
        want = np.array([np.interp(tt, t, c) for c in flat(R).T]).T
        near(m, D, want, 'reconstruction-after-augment', tol=1e-7*sc)
    elif op == 'coherence':
        if min(V.shape[2:]) < 4 or len(t) < 4 or not np.allclose(np.diff(t), t[1] - t[0]):
            raise Skip
        a = p.get_spatial_coherence()
        m.check(len(a) == n, 'coherence-of-each-mode')
        b = p.get_temporal_coherence()
        m.check(len(b) == n and np.all(np.isfinite(b.y)), 'coherence-of-each-mode')
        same(m, parts(p, kind), ref, 'coherence-changes-the-modes', tol)
    elif op == 'smooth':
        wh = G.pick(rng, ['spatial', 'temporal'])
        f = p.smooth_spatial_evolutions if wh == 'spatial' else p.smooth_temporal_evolutions
        r = f(tos='uniform', size=3, inplace=inplace)
        q = p if inplace else r
        if wh == 'spatial':
            want = flat(data([g.smooth(tos='uniform', size=3, inplace=False) for g in
                              modal_decomposition(tf, verbose=False).modes], kind))
            m.close(np.abs(parts(q, kind)['modes']), np.abs(want), 'smoothed-modes', atol=1e-4)
        else:
            want = np.array([g.smooth(tos='uniform', size=3, inplace=False).y for g in modal_decomposition(tf, verbose=False).temp_evo])
            near(m, np.abs(parts(q, kind)['evo']), np.abs(want), 'smoothed-coefficients', tol=1e-4*np.max(np.abs(want)))
    elif op == 'copy':
        q = p.copy()
        q.scale(scalev=3., scalex=2., scalet=4., inplace=True)
        q.crop_modal_base(1, inplace=True)
        inplace = False
    elif op == 'tf':
        q = p.modes_as_tf
        near(m, flat(data(q.fields, kind)), ref['modes'], 'modes-as-series', tol=tol)
        m.close(q.times, np.arange(n) + 1, 'modes-as-series-are-numbered-from-one')
        m.check(G.dim(q.unit_times) == G.dim(G.make_unit('')), 'unit-of-the-modes-as-series')
        inplace = False
    if not inplace:
        same(m, parts(old, kind), ref, 'out-of-place-operation-changes-the-decomposition:' + op, tol)
        near(m, data(old.reconstruct().fields, kind), R, 'out-of-place-operation-changes-the-reconstruction:' + op, tol=tol)


def data_of(a, V):
    return np.asarray(a).reshape((-1,) + V.shape[1:])


@scenario('C23', 40)
def masked(m):
    rng = m.rng
    tf, V, mask, t, un, kind = series(rng, masked=True)
    p = modal_decomposition(tf, verbose=False)
    before = G.snap(tf)
    m.event('masked', int(mask.sum()))
    r = data(p.reconstruct().fields, kind)
    if not m.check(r.shape == V.shape, 'shape-of-the-reconstruction'):
        return
    ok = ~np.repeat(mask[:, None], V.shape[1], axis=1)
    near(m, r[ok], V[ok], 'valid-samples-not-given-back', tol=1e-5*np.max(np.abs(V)))
    m.check(np.all(np.isfinite(r)), 'filled-samples-missing')
    m.check(not G.diff(before, G.snap(tf)), 'input-changed#masked')
    # a fully masked frame is cropped
    g = TemporalScalarFields() if kind == 's' else TemporalVectorFields()
    nx, ny = V.shape[2:]
    k2 = np.zeros((nx, ny), dtype=bool)
    k2[0] = True
    k2[:, -1] = True
    for k in range(len(t)):
        f = tf.fields[0].__class__()
        a = [V[k, c] for c in range(V.shape[1])]
        f.import_from_arrays(tf.axe_x, tf.axe_y, *a, mask=k2, unit_x=un[0], unit_y=un[1], unit_values=un[2])
        g.add_field(f, time=t[k], unit_times=un[3])
    q = modal_decomposition(g, verbose=False)
    r = q.reconstruct()
    m.event('masked-frame')
    m.close(r.axe_x, tf.axe_x[1:], 'masked-frame-not-cropped')
    m.close(r.axe_y, tf.axe_y[:-1], 'masked-frame-not-cropped')
    near(m, data(r.fields, kind), V[:, :, 1:, :-1], 'reconstruction-inside-the-frame', tol=1e-5*np.max(np.abs(V)))


def kappa(N):
    """ Published critical value: a random coefficient exceeds it in 0.3% of the cases. """
    return np.exp(9.57253208/N**0.92940704) - 0.98559246


def coh_t(p):
    """ Temporal coherence from the coefficients. """
    N = len(p.temp_evo[0].x)
    top = np.zeros(N)
    top[0] = 2.
    k = kappa(N)
    out = []
    for e in p.temp_evo:
        a = np.sqrt(np.asarray(e.get_spectrum(scaling='spectrum').y))
        a = a/np.sum((a[1:] + a[:-1])/2)
        out.append((np.std(a)/np.std(top) - k)/(1 - k))
    return np.array(out)


def spec_std(d):
    from scipy.integrate import simpson
    a = np.abs(np.real(np.fft.rfft2(d - np.mean(d))))
    a = np.fft.fftshift(a)
    return np.std(a/simpson(simpson(a)))


def coh_s(p, kind):
    """ Per mode: spread of the normalised spectrum; the spread of the most coherent one. """
    from scipy.integrate import simpson
    s = np.array([np.mean([spec_std(c) for c in d]) for d in data(p.modes, kind)])
    nx, ny = p.modes[0].shape
    top = np.zeros((nx, ny))
    top[nx//2:nx//2 + 2, ny//2:ny//2 + 2] = 1.
    return s, np.std(top/simpson(simpson(top)))


def chk_coherence(m, p, kind, sig):
    a = p.get_temporal_coherence()
    m.event('coherence')
    m.close(a.x, np.arange(len(p.modes)), 'modes-of-the-coherence' + sig)
    m.close(a.y, coh_t(p), 'temporal-coherence' + sig, rtol=1e-6, atol=1e-7)
    m.close(p.get_temporal_coherence(raw=True), a.y, 'temporal-coherence-raw' + sig)
    b = p.get_spatial_coherence()
    m.close(p.get_spatial_coherence(raw=True), b.y, 'spatial-coherence-raw' + sig)
    m.close(b.x, np.arange(len(p.modes)), 'modes-of-the-coherence' + sig)
    s, top = coh_s(p, kind)
    # b = (s - low)/(top - low) where low is that of random fields
    j = int(np.argmax(top - s))
    m.close((1 - b.y)*(top - s[j]), (1 - b.y[j])*(top - s), 'spatial-coherence' + sig, rtol=1e-6, atol=1e-6)
    den = 1 - b.y[j]
    low = top - (top - s[j])/den if den else np.nan
    ref = np.array([spec_std(m.rng.random(p.modes[0].shape)*2 - 1) for _ in range(60)])
    m.check(abs(low - ref.mean()) <= 6*ref.std()*np.sqrt(1/20. + 1/60.) + 1e-9, 'random-level-of-the-spatial-coherence' + sig,
            lambda: '%s, random fields %s +- %s' % (low, ref.mean(), ref.std()))


@scenario('C23', 60)
def coherence(m):
    """ The coherence describes the modes and coefficients as they are now, whatever was done before. """
    rng = m.rng
    tf, V, mask, t, un, kind = series(rng, n=int(rng.integers(9, 14)))
    if min(V.shape[2:]) < 4:
        raise Skip
    tf2 = tf.__class__()
    for k, f in enumerate(tf.fields):
        tf2.add_field(f, time=.5*k, unit_times=un[3])
    p = modal_decomposition(tf2, wanted_modes=4, verbose=False)
    if len(p.modes) < 3:
        raise Skip
    if rng.random() < .8:
        chk_coherence(m, p, kind, '')
    for _ in range(int(rng.integers(1, 4))):
        op = G.pick(rng, ['keep', 'cropt', 'cropx', 'augment', 'scale', 'smt', 'sms'])
        inplace = bool(rng.random() < .5)
        m.event('then:' + op)
        if op == 'keep' and len(p.modes) > 1:
            kept = [int(i) for i in np.sort(rng.choice(len(p.modes), len(p.modes) - 1, replace=False))]
            r = p.crop_modal_base(modes_to_keep=kept, inplace=inplace)
        elif op == 'cropt' and len(p.times) > 8:
            r = p.crop(intervt=[1, len(p.times)], ind=True, inplace=inplace)
        elif op == 'cropx' and len(p.axe_x) > 4:
            r = p.crop(intervx=[p.axe_x[0], p.axe_x[-2]], inplace=inplace)
        elif op == 'augment' and len(p.times) < 30:
            r = p.augment_temporal_resolution(fact=2, inplace=inplace)
        elif op == 'scale':
            r = p.scale(scalex=2., scalev=3., scalet=.5, inplace=inplace)
        elif op == 'smt':
            r = p.smooth_temporal_evolutions(size=3, inplace=inplace)
        elif op == 'sms':
            r = p.smooth_spatial_evolutions(size=3, inplace=inplace)
        else:
            continue
        q = p if inplace else r
        chk_coherence(m, q, kind, '#after-' + op)
        if not inplace:
            chk_coherence(m, p, kind, '#of-the-original-after-' + op)
        p = q
