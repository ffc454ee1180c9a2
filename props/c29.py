"""C29: spectra, correlations, filters, statistics and fits of profiles, fields and series."""
import numpy as np
from IMTreatment.core import Profile, ScalarField, TemporalScalarFields, TemporalVectorFields, VectorField
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random evenly sampled signals (sums of sines, noise, gaps, trends, any step, origin and units) alone, along the lines of '
        'a field and at every point of a series; each result is compared with a direct evaluation of its definition (explicit '
        'Fourier sums, kernel sums, sliding products) or with the frequency, phase, shift or parameters that were planted.')
ASSUMPTIONS = ['spectra are those of the signal without its mean and trend (signals are generated without trend unless detrending is what is checked)',
               'auto-correlation: the last possible central sample may or may not be counted (a stored result of the test suite leaves it out)',
               'band filters: only the steady response well inside and well outside the band is checked',
               'Gaussian bandwidths given as a number to get_distribution are a known finding (stored result of the test suite)']
UX = ['s', 'ms', 'm', 'mm', '']
UY = ['m/s', 'Pa', '', 'mm']


def flat(y):
    """y without mean nor linear trend."""
    n = len(y)
    A = np.stack([np.ones(n), np.arange(n) - (n - 1)/2.], 1)
    return y - A @ np.linalg.lstsq(A, y, rcond=None)[0]


def signal(rng, lo=8, hi=60, n=None):
    n = n or int(rng.integers(lo, hi + 1))
    y = rng.normal(size=n)*10**rng.uniform(-1, 1)
    for _ in range(int(rng.integers(0, 3))):
        y = y + rng.uniform(.5, 3)*np.sin(2*np.pi*rng.uniform(0, .5)*np.arange(n) + rng.uniform(0, 6))
    return flat(y)


def axis(rng, n, exact=False):
    d = float(10**rng.uniform(-2, 2)) if not exact else float(2.**rng.integers(-4, 5))
    x0 = float(rng.integers(-20, 20))*d if exact else float(rng.normal())*10*d
    return x0 + d*np.arange(n), d


def onesided(y, d, scaling, w=None):
    """Explicit Fourier sums: power at each frequency ('spectrum') or per unit of frequency ('density')."""
    n = len(y)
    w = np.ones(n) if w is None else w
    k = np.arange(n//2 + 1)
    X = np.exp(-2j*np.pi*np.outer(k, np.arange(n))/n) @ (y*w)
    P = np.abs(X)**2/np.sum(w)**2 if scaling != 'density' else np.abs(X)**2*d/np.sum(w**2)
    twice = (k > 0) & (2*k != n)
    P[twice] *= 2
    return k/(n*d), P


def chk_spec(m, s, f, P, scaling, ux, uy, sig, rtol=1e-6):
    m.close(s.x*G.fac(s.unit_x), f/G.fac(ux), sig + '-frequencies', rtol=1e-9)
    if scaling == 'base':
        e, want = 1, np.sqrt(P)*G.fac(uy)
    elif scaling == 'spectrum':
        e, want = 2, P*G.fac(uy)**2
    else:
        e, want = 2, P*G.fac(uy)**2*G.fac(ux)
    got = s.y*G.fac(s.unit_y)
    m.check(len(got) == len(want), sig + '-length', lambda: '%d %d' % (len(got), len(want)))
    if scaling == 'base':           # rounding is on the powers
        got, want = got**2, want**2
    m.close(got, want, sig + '-' + scaling, rtol=rtol, atol=1e-9)
    d = G.dimmul({}, G.dim(uy), e)
    if scaling == 'density':
        d = G.dimmul(d, G.dim(ux))
    m.check(G.dim(s.unit_y) == d, sig + '-unit', lambda: '%s %s' % (s.unit_y, scaling))
    m.check(G.dim(s.unit_x) == G.dimmul({}, G.dim(ux), -1), sig + '-frequency-unit')


@scenario('C29', 300)
def spectrum(m):
    rng = m.rng
    y = signal(rng)
    n = len(y)
    x, d = axis(rng, n)
    ux, uy = G.pick(rng, UX), G.pick(rng, UY)
    sc = G.pick(rng, ['base', 'spectrum', 'density'])
    kw = {} if sc == 'base' and rng.random() < .5 else dict(scaling=sc)
    off = float(rng.normal())*5
    det = G.pick(rng, [None, 'none', 'constant', 'linear'])
    slope = float(rng.normal()) if det == 'linear' else 0.
    if det:
        kw['detrend'] = det
    p = Profile(x, y + off + slope*(np.arange(n) - (n - 1)/2.), unit_x=ux, unit_y=uy)
    before = G.snap(p)
    m.case('spectrum', n, kw, ux, uy)
    s = p.get_spectrum(**kw)
    m.event('spectrum:' + sc)
    f, P = onesided(y, d, sc)
    chk_spec(m, s, f, P, sc, p.unit_x, p.unit_y, 'spectrum')
    m.check(not G.diff(before, G.snap(p)), 'spectrum-changed-the-profile')
    if sc == 'density':             # the density sums to the variance
        m.close(np.sum(s.y)*(s.x[1] - s.x[0]), np.mean(y**2), 'spectrum-parseval', rtol=1e-6)
    # restricted to an interval
    if n > 14 and rng.random() < .5:
        a, b = 3, n - 3
        p2 = Profile(x, np.concatenate([rng.normal(size=a)*10, flat(y[a:b]), rng.normal(size=n - b)*10]), unit_x=ux, unit_y=uy)
        s = p2.get_spectrum(wanted_x=[x[a] - .4*d, x[b - 1] + .4*d], scaling=sc)
        f, P = onesided(flat(y[a:b]), d, sc)
        m.event('spectrum:interval')
        chk_spec(m, s, f, P, sc, p.unit_x, p.unit_y, 'spectrum-interval')


@scenario('C29', 150)
def welch(m):
    rng = m.rng
    y = signal(rng, 24, 90)
    n = len(y)
    x, d = axis(rng, n)
    ux, uy = G.pick(rng, UX), G.pick(rng, UY)
    seg = int(rng.integers(5, n + 8))
    sc = G.pick(rng, ['base', 'spectrum', 'density'])
    p = Profile(x, y, unit_x=ux, unit_y=uy)
    m.case('welch', n, seg, sc)
    s = p.get_spectrum(welch_seglen=seg, scaling=sc)
    if seg >= n:
        f, P = onesided(y, d, sc)
        m.event('welch:single')
    else:
        w = .5 - .5*np.cos(2*np.pi*np.arange(seg)/seg)
        step = seg - seg//2
        Ps = []
        for a in range(0, n - seg + 1, step):
            v = y[a:a + seg]
            f, P1 = onesided(v - np.mean(v), d, sc, w)
            Ps.append(P1)
        P = np.mean(Ps, axis=0)
        m.event('welch:segments', len(Ps))
    chk_spec(m, s, f, P, sc, p.unit_x, p.unit_y, 'welch', rtol=1e-6)


@scenario('C29', 150)
def gaps(m):
    """Missing samples are interpolated, or given the asked value, before the spectrum or transform is computed."""
    rng = m.rng
    y = signal(rng, 12, 40)
    n = len(y)
    x, d = axis(rng, n)
    mk = rng.random(n) < .3
    if mk.all() or not mk.any():
        raise Skip
    if rng.random() < .5:
        mk[0] = mk[-1] = False
        if not mk.any():
            raise Skip
    p = Profile(x, np.where(mk, np.nan, y), mask=mk, unit_x='s', unit_y='m/s')
    m.case('gaps', n, int(mk.sum()))
    before = G.snap(p)
    if rng.random() < .5:
        full = np.where(mk, np.interp(x, x[~mk], y[~mk]), y)
        kw = {} if rng.random() < .5 else dict(fill='linear')
    else:
        v = float(rng.normal())
        full = np.where(mk, v, y)
        kw = dict(fill=v)
    m.event('gaps:%s' % bool(kw))
    f, P = onesided(flat(full), d, 'spectrum')
    chk_spec(m, p.get_spectrum(scaling='spectrum', **kw), f, P, 'spectrum', p.unit_x, p.unit_y, 'filled-spectrum')
    a = p.get_wavelet_transform(widths=[1.5*d, 2.5*d], raw=True, **kw)
    b = Profile(x, full, unit_x='s', unit_y='m/s').get_wavelet_transform(widths=[1.5*d, 2.5*d], raw=True)
    m.close(a, b, 'filled-wavelet', rtol=1e-7)
    m.check(not G.diff(before, G.snap(p)), 'gaps-profile-changed')


@scenario('C29', 100)
def wavelet(m):
    """Ricker wavelet transform: explicit sliding sums, away from the ends."""
    rng = m.rng
    n = int(rng.integers(50, 120))
    y = signal(rng, n=n)
    x, d = axis(rng, n, exact=True)
    ux, uy = G.pick(rng, UX), G.pick(rng, UY)
    p = Profile(x, y + float(rng.normal()), unit_x=ux, unit_y=uy)
    ws = sorted(rng.choice([.5, 1.5, 2.5, 3.5, 4.5], int(rng.integers(1, 4)), replace=False))
    m.case('wavelet', n, ws)
    r = p.get_wavelet_transform(widths=[w*d for w in ws])
    raw = p.get_wavelet_transform(widths=[w*d for w in ws], raw=True)
    m.event('wavelet', len(ws))
    m.check(r.shape == (n, len(ws)), 'wavelet-shape', lambda: str(r.shape))
    m.close(raw, r.values.T, 'wavelet-raw')
    m.close(r.axe_x, x, 'wavelet-abscissa')
    m.close(r.axe_y, np.array(ws)*d, 'wavelet-widths')
    for u, v in ((r.unit_x, p.unit_x), (r.unit_y, p.unit_x), (r.unit_values, p.unit_y)):
        m.check(G.dim(u) == G.dim(v) and np.isclose(G.fac(u), G.fac(v)), 'wavelet-units')
    for j, w in enumerate(ws):
        h = int(5*w)                # the wavelet extends over ten widths
        k = np.arange(-h, h + 1)
        psi = 2/(np.sqrt(3*w)*np.pi**.25)*(1 - (k/w)**2)*np.exp(-k**2/(2*w**2))
        for i in range(h, n - h, 3):
            want = np.sum(y[i - h:i + h + 1]*psi)
            m.check(abs(r.values[i, j] - want) < 1e-3*np.max(np.abs(y))*w, 'wavelet-values', lambda: '%r want %r' % (r.values[i, j], want))
    # one abscissa displaced: no evenly spaced data any more
    k = int(rng.integers(1, n - 1))
    bad = np.array(x, dtype=float)
    bad[k] += d*float(rng.uniform(.05, .5))*(1 if rng.random() < .5 else -1)
    q = Profile(bad, y, unit_x=ux, unit_y=uy)
    m.raises(lambda: q.get_wavelet_transform(widths=[1.5*d]), 'wavelet-of-uneven-data-refused')


def kde(y, at, h):
    return np.array([np.mean(np.exp(-(a - y)**2/(2*h*h)))/(h*np.sqrt(2*np.pi)) for a in at])


@scenario('C29', 200)
def densities(m):
    """Probability density and distribution of the ordinates."""
    rng = m.rng
    n = int(rng.integers(4, 60))
    y = rng.normal(size=n)*10**rng.uniform(-2, 2) + rng.normal()*3
    mk = rng.random(n) < .2
    if (~mk).sum() < 3:
        raise Skip
    uy = G.pick(rng, UY)
    p = Profile(np.arange(n)*1., np.where(mk, np.nan, y), mask=mk, unit_x='s', unit_y=uy)
    v = y[~mk]
    nv = len(v)
    sd = np.std(v, ddof=1)
    bw = G.pick(rng, [None, 'scott', 'silverman', 'number'])
    m.case('density', n, bw)
    fact = {'silverman': (nv*3/4.)**(-.2), None: nv**-.2, 'scott': nv**-.2}
    kw = {}
    if bw == 'number':
        kw['bw_method'] = float(rng.uniform(.05, 1))
        h = kw['bw_method']*sd
    else:
        h = fact[bw]*sd
        if bw:
            kw['bw_method'] = bw
    res = int(rng.integers(2, 200))
    q = p.get_pdf(resolution=res, **kw)
    m.event('pdf:%s' % bw)
    m.check(len(q.x) == res, 'pdf-resolution')
    m.close(q.x, np.linspace(v.min(), v.max(), res), 'pdf-abscissa', rtol=1e-9)
    m.close(q.y, kde(v, q.x, h), 'pdf-values', rtol=1e-7)
    m.check(G.dim(q.unit_x) == G.dim(p.unit_y), 'pdf-unit')
    m.close(p.get_pdf(resolution=res, raw=True, **kw), q.y, 'pdf-raw')
    # distribution
    fo = G.pick(rng, [None, 'normalized', 'ponderated', 'concentration', 'percentage'])
    kw = {} if fo is None else dict(output_format=fo)
    if bw == 'number':
        kw['bw_method'] = h
        sig = 'distribution-number-bandwidth'
    else:
        sig = 'distribution-values'
        if bw:
            kw['bw_method'] = bw
    q = p.get_distribution(resolution=res, **kw)
    m.event('distribution:%s' % fo)
    m.check(len(q.x) == res, 'distribution-resolution')
    f = dict(ponderated=nv, concentration=nv, percentage=100.).get(fo, 1.)
    m.check(q.x[0] <= v.min() and q.x[-1] >= v.max(), 'distribution-does-not-cover-the-values')
    m.close(q.x, np.linspace(q.x[0], q.x[-1], res), 'distribution-abscissa', rtol=1e-9)
    m.close(q.y, f*kde(v, q.x, h), sig, rtol=1e-7)
    m.check(G.dim(q.unit_x) == G.dim(p.unit_y) and np.isclose(G.fac(q.unit_x), G.fac(p.unit_y)), 'distribution-abscissa-unit')
    m.raises(lambda: p.get_distribution(output_format='anything'), 'distribution-unknown-format-accepted')
    m.raises(lambda: p.get_pdf(resolution=0), 'pdf-null-resolution-accepted')


@scenario('C29', 200)
def correlation(m):
    rng = m.rng
    n = int(rng.integers(6, 40))
    y = rng.normal(size=n) + rng.normal()
    x, d = axis(rng, n)
    p = Profile(x, y, unit_x='mm', unit_y='m/s')
    w = int(rng.integers(1, n - 1))
    m.case('autocorrelation', n, w)
    c = p.get_auto_correlation(w)
    m.event('autocorrelation')
    h = w//2
    wants = []
    for last in (n - h - 1, n - h):
        num = np.zeros(2*h + 1)
        den = 0.
        for i in range(h, last):
            num += y[i]*y[i - h:i + h + 1]
            den += y[i]**2
        wants.append(num/den)
    m.check(len(c.y) == 2*h + 1, 'autocorrelation-length')
    m.check(any(np.allclose(c.y, k, rtol=1e-9, atol=1e-12) for k in wants), 'autocorrelation-values', lambda: '%s %s' % (c.y, wants[0]))
    m.close(c.y[h], 1., 'autocorrelation-centre', rtol=1e-12)
    m.close(np.diff(c.x), np.full(2*h, d), 'autocorrelation-abscissa', rtol=1e-9)
    m.check(G.dim(c.unit_x) == {'L': 1} and G.dim(c.unit_y) == {}, 'autocorrelation-units')
    m.close(p.get_auto_correlation(w, raw=True), c.y, 'autocorrelation-raw')
    m.raises(lambda: p.get_auto_correlation(n - 1), 'autocorrelation-too-long-window-accepted')


@scenario('C29', 200)
def convolution(m):
    rng = m.rng
    na, nb = int(rng.integers(2, 30)), int(rng.integers(2, 30))
    x, d = axis(rng, na, exact=True)
    xb = float(rng.integers(-30, 30))*d + d*np.arange(nb)
    a, b = rng.normal(size=na), rng.normal(size=nb)
    ua, ub, ux = G.pick(rng, UY), G.pick(rng, UY), G.pick(rng, UX)
    p, q = Profile(x, a, unit_x=ux, unit_y=ua), Profile(xb, b, unit_x=ux, unit_y=ub)
    mode = G.pick(rng, [None, 'full', 'same', 'valid'])
    m.case('convolution', na, nb, mode)
    c = p.get_convolution(q) if mode is None else p.get_convolution(q, mode=mode)
    m.event('convolution:%s' % mode)
    full = np.zeros(na + nb - 1)
    for i in range(na):
        full[i:i + nb] += a[i]*b
    if mode == 'valid':
        want = full[min(na, nb) - 1:max(na, nb)]
    elif mode == 'same':
        k = (min(na, nb) - 1)//2
        want = full[k:k + max(na, nb)]
    else:
        want = full
    m.check(len(c.y) == len(want), 'convolution-length', lambda: '%s %s %s' % (len(c.y), na, nb))
    if len(c.y) == len(want):
        m.close(c.y, want, 'convolution-values', rtol=1e-9)
    m.close(np.diff(c.x), np.full(len(c.x) - 1, d), 'convolution-step', rtol=1e-9)
    m.check(G.dim(c.unit_y) == G.dimmul(G.dim(p.unit_y), G.dim(q.unit_y)), 'convolution-unit')
    m.close(G.fac(c.unit_y), G.fac(p.unit_y)*G.fac(q.unit_y), 'convolution-unit', rtol=1e-12)
    # refusals: other step, other unit, uneven sampling
    m.raises(lambda: p.get_convolution(Profile(xb*2, b, unit_x=ux, unit_y=ub)), 'convolution-other-step-accepted')
    if nb > 2:
        xu = xb.copy()
        xu[-1] += .5*d
        m.raises(lambda: p.get_convolution(Profile(xu, b, unit_x=ux, unit_y=ub)), 'convolution-uneven-accepted')
        m.raises(lambda: Profile(xu, b, unit_x=ux, unit_y=ub).get_convolution(q), 'convolution-uneven-accepted')


@scenario('C29', 200)
def shift(m):
    """The lag between a signal and a delayed extract of it."""
    rng = m.rng
    n = int(rng.integers(12, 50))
    long_ = rng.normal(size=n) + 3*G.pick(rng, [0, 1, -1])
    k = int(rng.integers(0, n - 8))
    ns = int(rng.integers(6, n - k))
    x, d = axis(rng, n)
    lag = float(rng.normal())*5*d
    # short(x) = long(x + lag)
    xs = x[k:k + ns] - lag
    mk = np.zeros(ns, dtype=bool)
    if rng.random() < .4:
        mk = rng.random(ns) < .2
        if mk.all():
            raise Skip
    ys = long_[k:k + ns].copy()
    uy = G.pick(rng, UY)
    p = Profile(xs, np.where(mk, np.nan, ys), mask=mk, unit_x='s', unit_y=uy)
    q = Profile(x, long_, unit_x='s', unit_y=uy)
    m.case('shift', n, ns, k, int(mk.sum()))
    for norm in (True, False):
        c = p.get_convolution_of_difference(q, normalized=norm)
        m.check(len(c.x) == n + ns - 1, 'difference-length')
        # complete overlaps: mean difference, at the lag between the abscissae
        for s in range(n - ns + 1):
            i = s + ns - 1
            seg = long_[s:s + ns][~mk]
            w = np.mean(np.abs(seg - ys[~mk]))
            if norm:
                w /= np.mean(np.abs(seg))
            m.check(abs(c.x[i] - (x[s] - xs[0])) < 1e-6*d*n + 1e-9*abs(lag), 'difference-abscissa', lambda: '%r %r' % (c.x[i], x[s] - xs[0]))
            m.check(abs(c.y[i] - w) < 1e-9*(1 + abs(w)), 'difference-values', lambda: '%r %r' % (c.y[i], w))
        m.event('difference', n - ns + 1)
    if (~mk).sum() > 4:
        got = p.get_dephasage(q)
        m.event('lag')
        m.check(abs(got - lag) < 1e-6*d*n + 1e-9*abs(lag), 'lag', lambda: 'got %r want %r step %r' % (got, lag, d))


@scenario('C29', 200)
def extrema(m):
    rng = m.rng
    n = int(rng.integers(40, 120))
    per = rng.uniform(12, n/2.)
    ph = rng.uniform(0, 2*np.pi)
    x, d = axis(rng, n)
    A = float(10**rng.uniform(-2, 2))
    y = A*np.cos(2*np.pi*np.arange(n)/per + ph) + float(rng.normal())
    p = Profile(x, y, unit_x='s', unit_y='m/s')
    sm = G.pick(rng, [None, None, 1])
    m.case('extrema', n, per, sm)
    mins, maxs = p.get_extrema_position(**({} if sm is None else dict(smoothing=sm)))
    imin, imax = p.get_extrema_position(ind=True, **({} if sm is None else dict(smoothing=sm)))
    m.event('extrema', len(mins) + len(maxs))
    pos = lambda s: np.array([t for t in (np.arange(-1, n/per + 2)*per - (ph + s)*per/2/np.pi)])
    for name, got, gi, tr in (('max', maxs, imax, pos(0)), ('min', mins, imin, pos(np.pi))):
        got = (np.asarray(got, dtype=float) - x[0])/d
        inside = tr[(tr > 4) & (tr < n - 5)]
        for t in inside:
            m.check(np.sum(np.abs(got - t) < 1.01) == 1, 'extremum-missed', lambda: '%s at %r in %s' % (name, t, got))
        for g in got[(got > 4) & (got < n - 5)]:
            m.check(np.min(np.abs(tr - g)) < 1.01, 'extremum-invented', lambda: '%s at %r of %s' % (name, g, tr))
        m.check(len(gi) == len(got), 'extrema-number-of-indices')
        if len(gi) == len(got):
            m.check(np.all(np.abs(np.asarray(gi) - got) < 1.01), 'extrema-indices', lambda: '%s %s' % (gi, got))


@scenario('C29', 150)
def fitting(m):
    rng = m.rng
    n = int(rng.integers(8, 40))
    x = np.sort(rng.uniform(-2, 2, n))
    if np.min(np.diff(x)) < 1e-3:
        raise Skip
    par = rng.uniform(.5, 2, 3)*G.pick(rng, [1, -1])
    kind = G.pick(rng, ['poly', 'exp'])

    def poly(t, a, b, c):
        return a + b*t + c*t**2

    def expo(t, a, b, c):
        return a + b*np.exp(t/2.) + c*np.cos(t)
    fun = poly if kind == 'poly' else expo
    y = fun(x, *par)
    mk = rng.random(n) < .2 if rng.random() < .5 else np.zeros(n, dtype=bool)
    if (~mk).sum() < 6:
        raise Skip
    p = Profile(x, np.where(mk, np.nan, y), mask=mk, unit_x='s', unit_y='m/s')
    m.case('fitting', n, kind, int(mk.sum()))
    kw = {} if rng.random() < .5 else dict(p0=list(par + rng.normal(size=3)))
    q, got = p.get_fitting(fun, output_param=True, **kw)
    m.event('fitting:' + kind)
    m.close(q.x, x, 'fitted-abscissa')
    if mk.any():
        m.close(got, par, 'fit-with-masked-samples', rtol=1e-4, atol=1e-5)
    else:
        m.close(got, par, 'fitted-parameters', rtol=1e-4, atol=1e-5)
        m.close(q.y, y, 'fitted-values', rtol=1e-4, atol=1e-5)
    m.check(G.dim(q.unit_y) == G.dim(p.unit_y) and G.dim(q.unit_x) == G.dim(p.unit_x), 'fitted-units')
    m.close(p.get_fitting(fun, **kw).y[~mk], q.y[~mk], 'fitted-values', rtol=1e-9)


@scenario('C29', 200)
def outliers(m):
    rng = m.rng
    n = int(rng.integers(10, 60))
    y = rng.normal(size=n)
    for i in rng.integers(0, n, int(rng.integers(0, 4))):
        y[i] += G.pick(rng, [-1, 1])*rng.uniform(3, 30)
    mk = rng.random(n) < .15
    if (~mk).sum() < 3:
        raise Skip
    p = Profile(np.arange(n)*.5, np.where(mk, np.nan, y), mask=mk, unit_x='s', unit_y='m/s')
    f = float(rng.uniform(.5, 4))
    before = G.snap(p)
    m.case('outliers', n, f)
    inp = bool(rng.random() < .5)
    v = y[~mk]
    out = ~mk & (np.abs(y - v.mean()) > f*v.std())
    amb = np.abs(np.abs(y - v.mean()) - f*v.std()) < 1e-9
    r = p.copy()
    q = r.remove_marginal_values(fact=f, inplace=inp)
    if inp:
        q = r
    m.event('outliers', int(out.sum()))
    m.check(np.array_equal((q.mask)[~amb], (mk | out)[~amb]), 'marginal-values-mask', lambda: '%s %s' % (q.mask, mk | out))
    keep = ~(mk | out)
    m.check(np.array_equal(q.y[keep], y[keep]), 'marginal-values-changed-others')
    if not inp:
        m.check(not G.diff(before, G.snap(r)), 'marginal-values-changed-the-profile')
    # local: difference with the smoothed profile
    nb = float(rng.uniform(1, 6))
    s = p.smooth(tos='gaussian', size=nb, inplace=False)
    dlt = y - s.y
    v = dlt[~mk]
    out = ~mk & (np.abs(dlt - v.mean()) > f*v.std())
    amb = np.abs(np.abs(dlt - v.mean()) - f*v.std()) < 1e-9
    r = p.copy()
    q = r.remove_local_marginal_values(fact=f, neighb=nb, inplace=inp)
    if inp:
        q = r
    m.check(np.array_equal((q.mask)[~amb], (mk | out)[~amb]), 'local-marginal-values-mask')
    if not inp:
        m.check(not G.diff(before, G.snap(r)), 'local-marginal-values-changed-the-profile')


def sine_gain(y, k0):
    """amplitude of the last half of y at k0 cycles per sample."""
    v = y[len(y)//2:]
    t = np.arange(len(y)//2, len(y))
    A = np.stack([np.ones(len(v)), np.cos(2*np.pi*k0*t), np.sin(2*np.pi*k0*t)], 1)
    c = np.linalg.lstsq(A, v, rcond=None)[0]
    return np.hypot(c[1], c[2]), c[0]


@scenario('C29', 150)
def band_filter(m):
    """In-band sines go through, out-of-band ones do not; the mean stays."""
    rng = m.rng
    n = 600
    x, d = axis(rng, n)
    lo, hi = .08, .16           # cycles per sample
    kind = G.pick(rng, ['band', 'band', 'low', 'high'])
    inside = dict(band=.115, low=.03, high=.35)[kind]
    outside = dict(band=G.pick(rng, [.008, .42]), low=.42, high=.008)[kind]
    fmin, fmax = dict(band=(lo/d, hi/d), low=(None, hi/d), high=(lo/d, None))[kind]
    order = int(rng.integers(2, 4))
    off = float(rng.normal())*3
    A = float(10**rng.uniform(-1, 1))
    ph = rng.uniform(0, 6)
    sig = lambda f: A*np.sin(2*np.pi*f*np.arange(n) + ph)
    m.case('filter', kind, order, d)
    out = {}
    for name, f in (('in', inside), ('out', outside)):
        p = Profile(x, off + sig(f), unit_x='s', unit_y='m/s')
        before = G.snap(p)
        q = p.spectral_filtering(fmin, fmax, order=order)
        m.event('filter:%s:%s' % (kind, name))
        g, mean = sine_gain(q.y, f)
        out[name] = q.y
        if name == 'in':
            m.check(abs(g/A - 1) < .12, 'band-filter-attenuates-the-band', lambda: 'gain %r' % (g/A))
        else:
            m.check(g/A < .12, 'band-filter-leaves-the-rest', lambda: 'gain %r' % (g/A))
        if kind != 'low':
            m.check(abs(mean - np.mean(p.y)) < .02*A + 1e-6*abs(off), 'filter-mean', lambda: '%r %r' % (mean, off))
        m.close(q.x, x, 'filter-abscissa')
        m.check(G.dim(q.unit_y) == G.dim(p.unit_y), 'filter-unit')
        m.check(not G.diff(before, G.snap(p)), 'filter-changed-the-profile')
    # superposition
    q = Profile(x, off + sig(inside) + sig(outside), unit_x='s', unit_y='m/s').spectral_filtering(fmin, fmax, order=order)
    m.close(q.y - off, out['in'] + out['out'] - 2*off, 'filter-superposition', rtol=1e-6, atol=1e-8)


def wavy(rng, nx, ny, **kw):
    f = ScalarField()
    dx, dy = 2.**rng.integers(-3, 4), 2.**rng.integers(-3, 4)
    ax, ay = dx*(np.arange(nx) + int(rng.integers(-9, 9))), dy*(np.arange(ny) + int(rng.integers(-9, 9)))
    ux, uy, uv = G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, UY)
    f.import_from_arrays(ax, ay, rng.normal(size=(nx, ny)), unit_x=ux, unit_y=uy, unit_values=uv)
    return f, dx, dy


@scenario('C29', 150)
def spatial(m):
    """Spectra and correlations of a field are the averages of those of its lines."""
    rng = m.rng
    nx, ny = int(rng.integers(6, 16)), int(rng.integers(6, 16))
    f, dx, dy = wavy(rng, nx, ny)
    dr = G.pick(rng, ['x', 'y'])
    sc = G.pick(rng, ['base', 'spectrum', 'density'])
    i0, i1 = sorted(rng.choice(nx, 2, replace=False))
    j0, j1 = sorted(rng.choice(ny, 2, replace=False))
    kw = {}
    if i1 - i0 < 4 or rng.random() < .4:
        i0, i1 = 0, nx - 1
    else:
        kw['intervx'] = [f.axe_x[i0], f.axe_x[i1]]
    if j1 - j0 < 4 or rng.random() < .4:
        j0, j1 = 0, ny - 1
    else:
        kw['intervy'] = [f.axe_y[j0], f.axe_y[j1]]
    before = G.snap(f)
    m.case('spatial', nx, ny, dr, sc, kw)
    s = f.get_spatial_spectrum(dr, scaling=sc, **kw)
    m.event('spatial-spectrum:' + dr)
    v = f.values[i0:i1 + 1, j0:j1 + 1]
    lines = v.T if dr == 'x' else v
    d, u = (dx, f.unit_x) if dr == 'x' else (dy, f.unit_y)
    res = [onesided(flat(l), d, sc) for l in lines]
    k = .5 if sc == 'base' else 1
    P = np.mean([r[1]**k for r in res], axis=0)**(1/k)
    chk_spec(m, s, res[0][0], P, sc, u, f.unit_values, 'spatial-spectrum')
    # correlation
    nl = nx if dr == 'x' else ny
    w = G.pick(rng, [None, int(rng.integers(2, nl - 1))])
    c = f.get_spatial_autocorrelation(dr, **({} if w is None else dict(window_len=w)))
    prof = [Profile(np.arange(nl)*d, l).get_auto_correlation(nl - 2 if w is None else w, raw=True) for l in (f.values.T if dr == 'x' else f.values)]
    m.close(c.y, np.mean(prof, axis=0), 'spatial-correlation', rtol=1e-9)
    m.close(np.diff(c.x), np.full(len(c.x) - 1, d), 'spatial-correlation-step')
    m.check(G.dim(c.unit_x) == G.dim(u) and np.isclose(G.fac(c.unit_x), G.fac(u)), 'spatial-correlation-unit')
    m.check(not G.diff(before, G.snap(f)), 'spatial-field-changed')
    # a series: average over the asked times
    n = int(rng.integers(2, 6))
    t = TemporalScalarFields() if rng.random() < .5 else TemporalVectorFields()
    comps = []
    for i in range(n):
        a = rng.normal(size=(nx, ny))
        if isinstance(t, TemporalScalarFields):
            g = ScalarField()
            g.import_from_arrays(f.axe_x, f.axe_y, a, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
        else:
            g = VectorField()
            b = rng.normal(size=(nx, ny))
            g.import_from_arrays(f.axe_x, f.axe_y, a if dr == 'x' else b, b if dr == 'x' else a, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
        comps.append(a)
        t.add_field(g, i*.5, 's')
    co = 'values' if isinstance(t, TemporalScalarFields) else ('comp_x' if dr == 'x' else 'comp_y')
    kt = {}
    a, b = 0, n
    if n > 3 and rng.random() < .5:
        a, b = 1, n - 1
        kt = dict(intervtime=[a*.5, (b - 1)*.5])
    s = t.get_spatial_spectrum(co, dr, scaling=sc, **kt)
    m.event('series-spatial-spectrum')
    res = [onesided(flat(l), d, sc) for c in comps[a:b] for l in (c.T if dr == 'x' else c)]
    P = np.mean([r[1]**k for r in res], axis=0)**(1/k)
    chk_spec(m, s, res[0][0], P, sc, u, f.unit_values, 'series-spatial-spectrum')


def series(rng, n=None, kind=None):
    """Series whose value at each point is an independent sine; returns parameters."""
    nx, ny = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    n = n or int(rng.integers(24, 50))
    dt = float(2.**rng.integers(-4, 4))
    t0 = float(rng.integers(-20, 20))*dt
    k = rng.integers(2, n//2 - 2, (nx, ny))
    A = rng.uniform(.5, 3, (nx, ny))
    ph = rng.uniform(-3, 3, (nx, ny))
    off = rng.normal(size=(nx, ny))
    f, dx, dy = wavy(rng, nx, ny)
    ut = G.pick(rng, ['s', 'ms'])
    kind = kind or G.pick(rng, ['s', 'v'])
    t = TemporalScalarFields() if kind == 's' else TemporalVectorFields()
    comp = G.pick(rng, ['comp_x', 'comp_y']) if kind == 'v' else 'values'
    for i in range(n):
        a = off + A*np.cos(2*np.pi*k*i/n + ph)
        if kind == 's':
            g = ScalarField()
            g.import_from_arrays(f.axe_x, f.axe_y, a, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
        else:
            g = VectorField()
            b = rng.normal(size=(nx, ny))
            g.import_from_arrays(f.axe_x, f.axe_y, a if comp == 'comp_x' else b, b if comp == 'comp_x' else a, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
        t.add_field(g, t0 + i*dt, ut)
    return t, comp, n, dt, k, A, ph, off


@scenario('C29', 60)
def maps(m):
    """Frequency, amplitude and phase maps of a series of planted sines."""
    rng = m.rng
    t, comp, n, dt, k, A, ph, off = series(rng)
    before = G.snap(t)
    m.case('maps', type(t).__name__, n, dt, t.shape)
    fr, ql = t.get_spectrum_map(comp, verbose=False)
    m.event('frequency-map', k.size)
    m.close(fr.values*G.fac(fr.unit_values), k/(n*dt)/G.fac(t.unit_times), 'frequency-map', rtol=1e-9)
    m.check(G.dim(fr.unit_values) == G.dimmul({}, G.dim(t.unit_times), -1), 'frequency-map-unit')
    m.close(fr.axe_x, t.axe_x, 'frequency-map-axes')
    m.close(fr.axe_y, t.axe_y, 'frequency-map-axes')
    m.check(np.all(ql.values > 1), 'frequency-map-quality', lambda: str(ql.values))
    m.check(not G.diff(before, G.snap(t)), 'maps-series-changed')
    # two peaks: the second one is weaker
    f2, q2 = t.get_spectrum_map(comp, nmb_pic=2, verbose=False)
    m.check(len(f2) == 2 and len(q2) == 2, 'frequency-maps-number')
    m.close(f2[0].values, fr.values, 'frequency-maps-first')
    m.check(np.all(f2[1].values != f2[0].values), 'frequency-maps-second-is-the-first')
    # phase
    if comp != 'values':
        return
    f0 = int(k[0, 0])
    nm, p = t.get_phase_map(f0/(n*dt), verbose=False)
    m.event('phase-map')
    on = k == f0
    tt = np.arange(n)
    v = np.array([f.values for f in t.fields])
    want = np.tensordot(np.exp(-2j*np.pi*f0*tt/n), v, (0, 0))
    m.close(nm.values*G.fac(nm.unit_values), np.abs(want)*G.fac(t.unit_values), 'phase-map-norm', rtol=1e-6)
    m.check(G.dim(nm.unit_values) == G.dim(t.unit_values), 'phase-map-norm-unit')
    dphi = np.angle(np.exp(1j*(p.values - np.where(on, ph, p.values))))
    m.check(np.all(np.abs(dphi) < 1e-6), 'phase-map-phase', lambda: '%s %s' % (p.values, ph))
    # first part of the series only
    tf = int(rng.integers(8, n - 1))
    nm, p = t.get_phase_map(0., tf=tf, verbose=False)
    m.close(nm.values*G.fac(nm.unit_values), np.abs(np.sum(v[:tf + 1], axis=0))*G.fac(t.unit_values), 'phase-map-last-instant', rtol=1e-6, atol=1e-9)


@scenario('C29', 60)
def series_filter(m):
    rng = m.rng
    t, comp, n, dt, k, A, ph, off = series(rng, 30)
    m.case('series-filter', type(t).__name__, dt)
    before = G.snap(t)
    fs = 1/dt
    lo, hi = .1*fs, .3*fs
    inp = bool(rng.random() < .5)
    t2 = t.copy()
    r = t2.get_spectral_filtering(lo, hi, inplace=inp)
    if inp:
        r = t2
    else:
        m.check(not G.diff(before, G.snap(t2)), 'series-filter-changed-the-series')
    m.event('series-filter:%s' % inp)
    m.check(type(r) is type(t) and len(r) == n, 'series-filter-kind')
    m.close(r.times, t.times, 'series-filter-times')
    for c in (['values'] if comp == 'values' else ['comp_x', 'comp_y']):
        for i in range(t.shape[0]):
            for j in range(t.shape[1]):
                w = t.get_time_profile(c, [i, j], ind=True).spectral_filtering(lo, hi)
                m.close([getattr(f, c)[i, j] for f in r.fields], w.y, 'series-filter-values', rtol=1e-9)
    f, g = r.fields[0], t.fields[0]
    m.check(all(str(getattr(f, u)) == str(getattr(g, u)) for u in ('unit_x', 'unit_y', 'unit_values')), 'series-filter-units')


@scenario('C29', 100)
def background(m):
    """A steady background under passing objects is recovered; what stands out of it is kept."""
    rng = m.rng
    nx, ny, n = int(rng.integers(2, 6)), int(rng.integers(2, 6)), int(rng.integers(20, 40))
    bg = rng.uniform(0, 100, (nx, ny))
    noise = G.pick(rng, [0., 1.])
    uv = G.pick(rng, UY)
    t = TemporalScalarFields()
    vals = []
    for i in range(n):
        v = bg + noise*rng.uniform(-1, 1, (nx, ny))
        v = np.where(rng.random((nx, ny)) < .08, bg + rng.uniform(80, 200), v)
        vals.append(v)
        f = ScalarField()
        f.import_from_arrays(np.arange(nx)*1., np.arange(ny)*2., v, unit_x='mm', unit_y='mm', unit_values=uv)
        t.add_field(f, i*1., 's')
    vals = np.array(vals)
    m.case('background', nx, ny, n, noise)
    before = G.snap(t)
    b = t.get_background(noise_level=10)
    m.event('background')
    m.check(np.all(np.isfinite(b.values)), 'background-not-a-number')
    m.check(np.all(np.abs(b.values - bg) <= noise + 1e-9), 'background-values', lambda: '%s %s' % (b.values, bg))
    m.check(G.dim(b.unit_values) == G.dim(t.unit_values) and np.isclose(G.fac(b.unit_values), G.fac(t.unit_values)), 'background-unit')
    m.close(b.axe_x, t.axe_x, 'background-axes')
    m.close(b.axe_y, t.axe_y, 'background-axes')
    fill = G.pick(rng, [None, float(rng.normal())])
    r = t.substract_background(b, noise_level=10, blend=False, **({} if fill is None else dict(filling_value=fill)))
    fv = np.mean(b.values) if fill is None else fill
    for f, v in zip(r.fields, vals):
        m.close(f.values, np.where(np.abs(v - b.values) < 10, fv, v), 'substracted-values', rtol=1e-9)
    m.check(not G.diff(before, G.snap(t)), 'background-series-changed')


@scenario('C29', 120)
def spatial_options(m):
    """Areas going beyond the field are cut to it; missing values are interpolated or replaced first."""
    rng = m.rng
    nx, ny = int(rng.integers(7, 14)), int(rng.integers(7, 14))
    f, dx, dy = wavy(rng, nx, ny)
    s0 = G.pick(rng, [0., .5, .25])
    ax, ay = f.axe_x + s0*dx, f.axe_y + s0*dy
    v = f.values.copy()
    mk = np.zeros(v.shape, bool)
    fill = None
    if rng.random() < .6:
        mk = rng.random(v.shape) < .15
        fill = float(np.round(rng.normal(), 2)) if rng.random() < .8 else 0
    if mk.all():
        raise Skip
    g = ScalarField()
    g.import_from_arrays(ax, ay, np.where(mk, np.nan, v), mask=mk, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
    dr = G.pick(rng, ['x', 'y'])
    sc = G.pick(rng, ['base', 'spectrum', 'density'])
    ln = nx if dr == 'x' else ny
    seg = G.pick(rng, [None, int(rng.integers(4, ln + 3))])
    kw = {}
    sl = []
    for nm, a, d in (('intervx', ax, dx), ('intervy', ay, dy)):
        n = len(a)
        lo, hi = 0, n - 1
        if rng.random() < .6:
            k = G.pick(rng, ['lo', 'hi', 'both', 'in'])
            b0, b1 = a[0], a[-1]
            if k in ('lo', 'both'):
                b0 = a[0] - d*rng.uniform(.1, 5)
            if k in ('hi', 'both'):
                b1 = a[-1] + d*rng.uniform(.1, 5)
            if k in ('in', 'hi') and seg is None:
                b0 = a[1] if rng.random() < .5 else a[1] - .3*d
                lo = 1
            if k in ('in', 'lo') and seg is None:
                b1 = a[-2] if rng.random() < .5 else a[-2] + .3*d
                hi = n - 2
            iv = [float(b0), float(b1)]
            if rng.random() < .4:
                # whole numbers
                w = [int(np.floor(b0)), int(np.ceil(b1))]
                e = .001*d
                if w[0] < w[1]:
                    ins = np.where((a >= w[0] - e) & (a <= w[1] + e))[0]
                    if len(ins) >= 5:
                        lo, hi = int(ins[0]), int(ins[-1])
                        iv = w if rng.random() < .5 else np.array(w)
                        m.event('whole-number-area')
            kw[nm] = iv
        sl.append(slice(lo, hi + 1))
    if fill is not None:
        kw['fill'] = fill
    m.case('spatial-options', nx, ny, dr, sc, kw, int(mk.sum()), seg)
    before = G.snap(g)
    s = g.get_spatial_spectrum(dr, scaling=sc, **kw) if seg is None else g.get_spatial_spectrum(dr, scaling=sc, welch_seglen=seg, **kw)
    m.event('spatial-options')
    w = np.where(mk, fill if fill is not None else 0, v)[sl[0], sl[1]]
    lines = w.T if dr == 'x' else w
    d, u = (dx, g.unit_x) if dr == 'x' else (dy, g.unit_y)
    k = .5 if sc == 'base' else 1
    if seg is None:
        res = [onesided(flat(l), d, sc) for l in lines]
        chk_spec(m, s, res[0][0], np.mean([r[1]**k for r in res], axis=0)**(1/k), sc, u, g.unit_values, 'spatial-options')
    else:
        ls = [Profile(np.arange(len(l))*d, l, unit_x=u, unit_y=g.unit_values).get_spectrum(welch_seglen=seg, scaling=sc) for l in lines]
        m.close(s.x, ls[0].x, 'spatial-welch-frequencies', rtol=1e-9)
        m.close(s.y, np.mean([l.y for l in ls], axis=0), 'spatial-welch', rtol=1e-6)
    m.check(not G.diff(before, G.snap(g)), 'spatial-options-field-changed')
    # series: the same area at each of the asked times, even beyond the series
    n = int(rng.integers(2, 6))
    t0 = float(G.pick(rng, [0, .25, .5, -.75]))
    T = TemporalScalarFields()
    fs = []
    for i in range(n):
        h = g.copy()
        h.values = h.values*(i + 1.)
        fs.append(h)
        T.add_field(h, t0 + .5*i, 's')
    kt = dict(kw)
    c = rng.random()
    inn = list(range(n))
    if c < .4:
        kt['intervtime'] = [int(np.floor(t0)) - int(rng.integers(0, 3)), int(np.ceil(t0 + .5*n)) + int(rng.integers(0, 3))]
    elif c < .8 and n > 2:
        kt['intervtime'] = [t0 + .4, t0 + .5*n + 3]
        inn = inn[1:]
    if fill is not None:
        kt['fill'] = fill
    r = T.get_spatial_spectrum('values', dr, scaling=sc, **(kt if seg is None else dict(kt, welch_seglen=seg)))
    k2 = kw if seg is None else dict(kw, welch_seglen=seg)
    ss = [fs[i].get_spatial_spectrum(dr, scaling=sc, **k2) for i in inn]
    m.event('series-spatial-options')
    m.close(r.x, ss[0].x, 'series-spatial-options-frequencies', rtol=1e-9)
    m.close(r.y, np.mean([q.y for q in ss], axis=0), 'series-spatial-options', rtol=1e-6)


@scenario('C29', 60)
def point_spectra(m):
    """Spectra of the time evolution at a point, over an area, and their map, with missing values."""
    rng = m.rng
    t, comp, n, dt, k, A, ph, off = series(rng, kind='s')
    v = np.array([f.values for f in t.fields])
    nx, ny = t.shape
    mk = np.zeros((n, nx, ny), bool)
    bad = np.zeros((nx, ny), bool)
    if rng.random() < .7:
        mk = rng.random((n, nx, ny)) < .05
        bad = rng.random((nx, ny)) < .25
        if bad.all():
            bad[0, 0] = False
        for i, j in zip(*np.where(bad)):
            mk[rng.choice(n, n//2 + 1 + int(rng.integers(0, 3)), replace=False), i, j] = True
    T = TemporalScalarFields()
    for i, f in enumerate(t.fields):
        g = ScalarField()
        g.import_from_arrays(f.axe_x, f.axe_y, np.where(mk[i], np.nan, v[i]), mask=mk[i], unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
        T.add_field(g, t.times[i], t.unit_times)
    before = G.snap(T)
    sc = G.pick(rng, ['base', 'spectrum', 'density'])
    seg = G.pick(rng, [None, int(rng.integers(8, n))])
    det = G.pick(rng, ['constant', 'linear'])
    fill = G.pick(rng, ['linear', float(rng.normal())])
    kw = dict(scaling=sc, welch_seglen=seg, fill=fill, detrend=det)
    m.case('point-spectra', n, dt, T.shape, kw, int(mk.sum()))
    i, j = int(rng.integers(nx)), int(rng.integers(ny))

    def one(i, j):
        p = Profile(T.times, np.where(mk[:, i, j], np.nan, v[:, i, j]), mask=mk[:, i, j], unit_x=T.unit_times, unit_y=T.unit_values)
        return p.get_spectrum(**kw)
    w = one(i, j)
    for s in (T.get_temporal_spectrum('values', [i, j], ind=True, **kw), T.get_temporal_spectrum('values', [T.axe_x[i], T.axe_y[j]], **kw)):
        m.event('point-spectrum')
        m.close(s.x, w.x, 'point-spectrum-frequencies', rtol=1e-9)
        m.close(s.y, w.y, 'point-spectrum', rtol=1e-6)
        m.check(str(s.unit_x) == str(w.unit_x) and str(s.unit_y) == str(w.unit_y), 'point-spectrum-units')
    i2, j2 = int(rng.integers(i, nx)), int(rng.integers(j, ny))
    al = [one(a, b) for a in range(i, i2 + 1) for b in range(j, j2 + 1)]
    for s in (T.get_temporal_spectrum_over_area('values', [i, i2], [j, j2], ind=True, **kw), T.get_temporal_spectrum_over_area('values', [T.axe_x[i], T.axe_x[i2]], [T.axe_y[j], T.axe_y[j2]], **kw)):
        m.event('area-spectrum')
        m.close(s.x, w.x, 'area-spectrum-frequencies', rtol=1e-9)
        m.close(s.y, np.mean([q.y for q in al], axis=0), 'area-spectrum', rtol=1e-6)
    # map
    sm = G.pick(rng, [None, 1., 1.5])
    kk = {} if sm is None else dict(spec_smooth=sm)
    fr, ql = T.get_spectrum_map('values', verbose=False, **kk)
    m.event('frequency-map:holes', int(bad.sum()))
    want = mk.sum(axis=0)/n > .5
    m.check(np.array_equal(fr.mask, want) and np.array_equal(ql.mask, want), 'frequency-map-mask')
    for a in range(nx):
        for b in range(ny):
            if want[a, b]:
                continue
            q = Profile(T.times, np.where(mk[:, a, b], np.nan, v[:, a, b]), mask=mk[:, a, b], unit_x=T.unit_times, unit_y=T.unit_values).get_spectrum()
            if sm is not None:
                q.smooth(tos='gaussian', size=sm, inplace=True)
            m.close(fr.values[a, b], q.x[np.argmax(q.y)], 'frequency-map-peak', rtol=1e-9)
            m.close(ql.values[a, b], (np.max(q.y) - np.mean(q.y))/np.std(q.y), 'frequency-map-peak-quality', rtol=1e-6)
    m.check(not G.diff(before, G.snap(T)), 'point-spectra-series-changed')
