"""C32: displays show the data of the object and leave it alone."""
import types
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from IMTreatment.core import (ScalarField, VectorField, Profile, Points, OrientedPoints, TemporalPoints,
                              SpatialScalarFields, SpatialVectorFields)
from IMTreatment import plotlib as pplt
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Generated fields, profiles, point sets, collections and series (masks, units, grids) are drawn by every display call on an '
        'off-screen canvas; the artists left on the axes are read back and compared with the data of the object; interactive windows '
        'are driven by random histories of keys, buttons, slider moves and timer ticks against a model of the shown index.')
ASSUMPTIONS = ['images (imshow) are claimed on evenly spaced grids only',
               'buffer_size of interactive windows is at least 1',
               'matplotlib draws what its artists hold']


def fig():
    plt.close('all')
    plt.figure(figsize=(3, 3))


def lab(u, pre):
    s = u.strUnit()
    return pre if s == '[]' else pre + ' ' + s


def hidden(a, mask, want, m, sig):
    """The array of an artist: the values, and nothing where masked."""
    a = np.ma.masked_invalid(np.ma.asarray(a))
    got_mask = np.ma.getmaskarray(a)
    if not m.check(a.shape == want.shape, sig + ':shape', '%s %s' % (a.shape, want.shape)):
        return
    m.check(np.array_equal(got_mask, mask), sig + ':masked', 'points drawn although masked, or the reverse')
    ok = ~mask & ~got_mask
    if ok.any():
        m.close(np.asarray(a.data)[ok], want[ok], sig, 1e-12, 0.)


def extent(m, f, im, sig):
    dx, dy = f.axe_x[1] - f.axe_x[0], f.axe_y[1] - f.axe_y[0]
    e = im.get_extent()
    m.close(e, [f.axe_x[0] - dx/2, f.axe_x[-1] + dx/2, f.axe_y[0] - dy/2, f.axe_y[-1] + dy/2], sig + ':extent', 1e-9, 1e-9)
    m.check(im.origin == 'lower', sig + ':origin', im.origin)


def labels(m, ax, f, sig):
    m.check(ax.get_xlabel() == lab(f.unit_x, 'x'), sig + ':xlabel', ax.get_xlabel())
    m.check(ax.get_ylabel() == lab(f.unit_y, 'y'), sig + ':ylabel', ax.get_ylabel())


def on_edge(f, vals, p):
    """Value at a vertex of a contour: on an edge of the grid, linear between its two ends."""
    x, y = f.axe_x, f.axe_y
    sx, sy = x[-1] - x[0], y[-1] - y[0]
    i, j = int(np.argmin(np.abs(x - p[0]))), int(np.argmin(np.abs(y - p[1])))
    onx, ony = abs(x[i] - p[0]) < 1e-9*sx, abs(y[j] - p[1]) < 1e-9*sy
    if onx and ony:
        return vals[i, j]
    if onx:
        j = min(max(int(np.searchsorted(y, p[1])) - 1, 0), len(y) - 2)
        t = (p[1] - y[j])/(y[j + 1] - y[j])
        return vals[i, j]*(1 - t) + vals[i, j + 1]*t
    if ony:
        i = min(max(int(np.searchsorted(x, p[0])) - 1, 0), len(x) - 2)
        t = (p[0] - x[i])/(x[i + 1] - x[i])
        return vals[i, j]*(1 - t) + vals[i + 1, j]*t
    return None


def contours(m, f, vals, mask, cs, levels, filled, sig):
    vals = np.where(mask, np.nan, vals)
    sc = np.nanmax(np.abs(vals))
    n = 0
    for k, segs in enumerate(cs.allsegs):
        for s in segs:
            for p in s[:40]:
                v = on_edge(f, vals, p)
                if v is None and mask.any():
                    continue            # the diagonal cut of a cell with a masked corner
                if v is None:
                    m.check(False, sig + ':vertex-off-grid', '%r' % (p,))
                    return
                if np.isnan(v):
                    # an edge touching a masked point
                    m.check(False, sig + ':vertex-at-masked', '%r' % (p,))
                    return
                n += 1
                if filled:
                    m.check(levels[k] - 1e-6*sc <= v <= levels[k + 1] + 1e-6*sc, sig + ':band',
                            'value %g in band %g..%g' % (v, levels[k], levels[k + 1]))
                else:
                    m.check(abs(v - levels[k]) <= 1e-6*sc, sig + ':level', 'value %g on level %g' % (v, levels[k]))
    m.event('contour vertices', n)
    if not filled:
        # a level crossed by the samples along an unmasked edge is drawn
        a, b = vals[:-1], vals[1:]
        for k, lv in enumerate(levels):
            cross = np.nanmax(np.where((a < lv - 1e-9*sc) & (b > lv + 1e-9*sc), 1., 0.)) if a.size else 0
            if cross and not mask.any():
                m.check(len(cs.allsegs[k]) > 0 and any(len(s) for s in cs.allsegs[k]), sig + ':level-not-drawn', 'level %g' % lv)


def limits(m, ax, f, sig):
    mask = f.mask
    if mask.all():
        return
    ix = np.where(~mask.all(axis=1))[0]
    iy = np.where(~mask.all(axis=0))[0]
    if ix[0] == ix[-1] or iy[0] == iy[-1]:
        return
    m.close(ax.get_xlim(), [f.axe_x[ix[0]], f.axe_x[ix[-1]]], sig + ':xlim', 1e-9, 1e-9)
    m.close(ax.get_ylim(), [f.axe_y[iy[0]], f.axe_y[iy[-1]]], sig + ':ylim', 1e-9, 1e-9)


@scenario('C32', 40)
def scalar(m):
    rng = m.rng
    kind = G.pick(rng, [None, None, 'matrix', 'contour', 'contourf'])
    f = G.sf(rng, 3, 8, uniform=kind in (None, 'matrix') or None)
    if f.mask.all() or np.ptp(f.values[~f.mask]) == 0:
        raise Skip
    comp = G.pick(rng, [None, 'values', 'mask'])
    if comp == 'mask' and kind in ('contour', 'contourf'):
        comp = None
    m.case('%s kind=%s comp=%s' % (G.tdesc(f), kind, comp))
    before = G.snap(f)
    fig()
    args = {}
    v = f.values[~f.mask]
    if kind in ('contour', 'contourf'):
        lv = np.sort(rng.uniform(v.min(), v.max(), int(rng.integers(2, 6))))
        if np.any(np.diff(lv) < 1e-6*np.abs(v).max()):
            raise Skip
        args['levels'] = lv
    im = f.display(comp, kind, **args)
    m.check(not G.diff(before, G.snap(f)), 'display-changed-the-field', G.diff(before, G.snap(f)))
    ax = plt.gcf().axes[0]
    labels(m, ax, f, 'scalar')
    m.event('display %s' % kind)
    if comp == 'mask':
        hidden(np.asarray(im.get_array(), dtype=float), np.zeros(f.shape[::-1], bool), f.mask.T.astype(float), m, 'mask-image')
        extent(m, f, im, 'mask-image')
        return
    m.check(plt.gcf().axes[-1].get_ylabel() == lab(f.unit_values, 'Values'), 'colorbar-label', plt.gcf().axes[-1].get_ylabel())
    if kind in (None, 'matrix'):
        hidden(im.get_array(), f.mask.T, f.values.T, m, 'image')
        extent(m, f, im, 'image')
        m.close(im.get_clim(), [v.min(), v.max()], 'image:colour-range', 1e-9, 0.)
        limits(m, ax, f, 'image')
    else:
        contours(m, f, f.values, f.mask, im, args['levels'], kind == 'contourf', kind)


@scenario('C32', 40)
def vector(m):
    rng = m.rng
    kind, comp = G.pick(rng, [(None, None), ('quiver', None), ('quiver', 'V'), (None, 'x'), (None, 'y'), (None, 'comp_x'),
                              (None, 'comp_y'), (None, 'magnitude'), (None, 'mask'), ('contour', 'x'), ('contourf', 'y')])
    f = G.vf(rng, 3, 8, uniform=(comp not in (None, 'V') and kind is None) or None)
    if rng.random() < .3:
        # stretched axes
        f = f.scale(scalex=float(rng.uniform(.3, 3)), scaley=float(rng.uniform(.3, 3)), inplace=False)
    if f.mask.all() or np.ptp(f.magnitude[~f.mask]) == 0:
        raise Skip
    m.case('%s kind=%s comp=%s' % (G.tdesc(f), kind, comp))
    before = G.snap(f)
    fig()
    args = {}
    want = {'x': f.comp_x, 'comp_x': f.comp_x, 'y': f.comp_y, 'comp_y': f.comp_y,
            'magnitude': (f.comp_x**2 + f.comp_y**2)**.5, 'mask': f.mask.astype(float)}.get(comp)
    if kind in ('contour', 'contourf'):
        v = want[~f.mask]
        lv = np.sort(rng.uniform(v.min(), v.max(), int(rng.integers(2, 6))))
        if np.ptp(v) == 0 or np.any(np.diff(lv) < 1e-6*np.abs(v).max()):
            raise Skip
        args['levels'] = lv
    im = f.display(comp, kind, **args)
    m.check(not G.diff(before, G.snap(f)), 'display-changed-the-field', G.diff(before, G.snap(f)))
    ax = plt.gcf().axes[0]
    labels(m, ax, f, 'vector')
    m.event('display %s %s' % (kind, comp))
    if want is None:
        X, Y = np.meshgrid(f.axe_x, f.axe_y)
        m.close(im.XY, np.column_stack([X.ravel(), Y.ravel()]), 'quiver:positions', 1e-12, 0.)
        mk = f.mask.T.ravel()
        U, V = np.ma.array(im.U, mask=im.Umask), np.ma.array(im.V, mask=im.Umask)
        hidden(U, mk, f.comp_x.T.ravel(), m, 'quiver:x')
        hidden(V, mk, f.comp_y.T.ravel(), m, 'quiver:y')
        hidden(np.ma.asarray(im.get_array()).ravel(), mk, ((f.comp_x**2 + f.comp_y**2)**.5).T.ravel(), m, 'quiver:colour')
        m.check(plt.gcf().axes[-1].get_ylabel() == lab(f.unit_values, 'Magnitude'), 'colorbar-label', plt.gcf().axes[-1].get_ylabel())
    elif kind is None:
        mk = np.zeros(f.shape[::-1], bool) if comp == 'mask' else f.mask.T
        hidden(np.ma.asarray(im.get_array()).astype(float), mk, want.T, m, 'component-image#%s' % comp)
        extent(m, f, im, 'component-image')
    else:
        contours(m, f, want, f.mask, im, args['levels'], kind == 'contourf', 'component-' + kind)


@scenario('C32', 8)
def stream(m):
    """Streamlines drawn follow the (linear) field, whatever its axes."""
    rng = m.rng
    nx, ny = int(rng.integers(8, 16)), int(rng.integers(8, 16))
    ux = uy = G.make_unit(G.pick(rng, G.LEN))
    sx, sy = (rng.uniform(.3, 3., 2) if rng.random() < .5 else (1., 1.))
    x = np.arange(nx)*10**rng.uniform(-2, 2) + rng.normal()
    y = np.arange(ny)*(x[1] - x[0])*rng.uniform(.5, 2.) + rng.normal()
    X, Y = np.meshgrid(x, y, indexing='ij')
    A = rng.normal(size=(2, 2))
    x0, y0 = rng.uniform(x[0], x[-1]), rng.uniform(y[0], y[-1])
    vx, vy = A[0, 0]*(X - x0) + A[0, 1]*(Y - y0), A[1, 0]*(X - x0) + A[1, 1]*(Y - y0)
    f = VectorField()
    f.import_from_arrays(x, y, vx, vy, unit_x=ux, unit_y=uy, unit_values='m/s')
    m.case('linear field %dx%d A=%s scaled by %.2f, %.2f' % (nx, ny, A.round(2).tolist(), sx, sy))
    if sx != 1.:
        f = f.scale(scalex=float(sx), scaley=float(sy))
    before = G.snap(f)
    fig()
    st = f.display(kind='stream', density=.5)
    m.check(not G.diff(before, G.snap(f)), 'display-changed-the-field', '')
    segs = np.array([s for s in st.lines.get_segments() if len(s) == 2])
    if len(segs) == 0:
        raise Skip
    segs = segs/[sx, sy]                # the scaled picture is the picture, scaled
    mid, d = segs.mean(axis=1), segs[:, 1] - segs[:, 0]
    w = np.column_stack([A[0, 0]*(mid[:, 0] - x0) + A[0, 1]*(mid[:, 1] - y0), A[1, 0]*(mid[:, 0] - x0) + A[1, 1]*(mid[:, 1] - y0)])
    nw, nd = np.hypot(*w.T), np.hypot(*d.T)
    ok = (nw > .1*np.hypot(vx, vy).max()) & (nd > 1e-9*(x[-1] - x[0]))
    if ok.sum() < 10:
        raise Skip
    sin = (d[ok, 0]*w[ok, 1] - d[ok, 1]*w[ok, 0])/(nw[ok]*nd[ok])
    m.event('stream segments', int(ok.sum()))
    m.check(np.percentile(np.abs(sin), 90) < .15, 'stream-off-the-flow', 'sines up to %g' % np.abs(sin).max())


@scenario('C32', 30)
def profile(m):
    rng = m.rng
    p = G.profile(rng, 3, 20)
    if p.mask.all():
        raise Skip
    kind = G.pick(rng, ['plot', 'plot', 'semilogx', 'semilogy', 'loglog'])
    if kind != 'plot' and rng.random() < .6:
        p = Profile(np.abs(p.x) + .1, np.abs(p.y) + .1, mask=p.mask, unit_x=p.unit_x, unit_y=p.unit_y, name=p.name)
    rev = bool(rng.random() < .4)
    color = rng.normal(size=len(p)) if rng.random() < .25 else None
    m.case('%s kind=%s reverse=%s colour=%s' % (G.tdesc(p), kind, rev, color is not None))
    before = G.snap(p)
    fig()
    x, y = p.x.copy(), np.where(p.mask, np.nan, p.y)
    if rev:
        x, y = y, x
    okx = x > 0 if kind in ('semilogx', 'loglog') else np.isfinite(x)
    oky = y > 0 if kind in ('semilogy', 'loglog') else np.isfinite(y)
    ok = okx & oky & np.isfinite(x) & np.isfinite(y)
    if ok.sum() < 2:
        raise Skip
    res = p.display(kind, rev, **({} if color is None else dict(color=list(color))))
    m.check(not G.diff(before, G.snap(p)), 'display-changed-the-profile', G.diff(before, G.snap(p)))
    ax = plt.gca()
    ux, uy = p.unit_x.strUnit(), p.unit_y.strUnit()
    m.check((ax.get_xlabel(), ax.get_ylabel()) == ((uy, ux) if rev else (ux, uy)), 'profile:labels', (ax.get_xlabel(), ax.get_ylabel()))
    m.check(ax.get_title() == (p.name or ''), 'profile:title', ax.get_title())
    m.check((ax.get_xscale() == 'log', ax.get_yscale() == 'log') == (kind in ('semilogx', 'loglog'), kind in ('semilogy', 'loglog')),
            'profile:scales', (ax.get_xscale(), ax.get_yscale()))
    m.event('profile %s' % kind)
    if color is None:
        d = res[0].get_xydata()
        gx, gy = d[:, 0], d[:, 1]
        g = np.isfinite(gx) & np.isfinite(gy)
        if kind in ('semilogx', 'loglog'):
            g &= gx > 0
        if kind in ('semilogy', 'loglog'):
            g &= gy > 0
        m.close(d[g], np.column_stack([x[ok], y[ok]]), 'profile:points', 1e-12, 0.)
        if kind == 'plot':
            # gaps are kept: no line joins the two sides of a masked sample
            m.check(np.array_equal(~g, ~ok), 'profile:gaps', '%s %s' % (g, ok))
    else:
        fin = np.isfinite(x) & np.isfinite(y)
        polyline(m, res, x[fin], y[fin], color[fin], 'profile:coloured')


def polyline(m, lc, x, y, z, sig):
    """Vertices of a coloured line lie on the polyline of the points, each at its value."""
    seg = np.array(lc.get_segments())
    v = np.vstack([seg[:, 0], seg[-1:, 1]])
    c = np.asarray(lc.get_array(), dtype=float)
    m.close(v[[0, -1]], [[x[0], y[0]], [x[-1], y[-1]]], sig + ':ends', 1e-9, 1e-9)
    n = len(x)
    if n < 2 or not m.check(len(v) >= n, sig + ':vertices', '%d vertices for %d points' % (len(v), n)):
        return
    t = np.linspace(0, n - 1, len(v))
    k = np.arange(n)
    m.close(v[:, 0], np.interp(t, k, x), sig + ':x', 1e-9, 1e-9)
    m.close(v[:, 1], np.interp(t, k, y), sig + ':y', 1e-9, 1e-9)
    m.close(c, np.interp(t, k, z)[:len(c)], sig + ':colour', 1e-9, 1e-9)
    m.event('coloured vertices', len(v))


@scenario('C32', 40)
def points(m):
    rng = m.rng
    p = G.points(rng, 2, 12, withv=True if rng.random() < .75 else False)
    if len(p) < 2:
        raise Skip
    hasv = len(p.v) == len(p)
    kind = G.pick(rng, [None, 'plot', 'scatter'] + (['colored_plot'] if hasv else []))
    cols = {'x': p.xy[:, 0], 'y': p.xy[:, 1], 'v': p.v}
    units = {'x': p.unit_x, 'y': p.unit_y, 'v': p.unit_v}
    pool = ['x', 'y', 'v'] if hasv else ['x', 'y']
    ax_, ay_ = [str(a) for a in rng.permutation(pool)[:2]]
    args = {}
    if rng.random() < .7:
        args = dict(axe_x=ax_, axe_y=ay_)
    else:
        ax_, ay_ = 'x', 'y'
    rest = [a for a in ('x', 'y', 'v') if a not in (ax_, ay_)][0]
    if hasv and rng.random() < .3:
        rest = args['axe_color'] = str(rng.choice(pool))
    usercol = G.pick(rng, [None, None, 'color', 'c']) if kind != 'colored_plot' else None
    if usercol:
        args[usercol] = 'r'
    m.case('%s kind=%s %s' % (G.tdesc(p), kind, args))
    before = G.snap(p)
    fig()
    if usercol and hasv and kind != 'plot':
        # the colour bar has nothing to show: only the drawing is claimed
        res = p._display(kind, **args)
        lbl = False
    else:
        res = p.display(kind, **args)
        lbl = True
    m.check(not G.diff(before, G.snap(p)), 'display-changed-the-points', G.diff(before, G.snap(p)))
    want = np.column_stack([cols[ax_], cols[ay_]])
    m.event('points %s' % kind)
    if lbl:
        a = plt.gcf().axes[0]
        m.check(a.get_xlabel() == ax_.upper() + ' ' + units[ax_].strUnit(), 'points:xlabel', a.get_xlabel())
        m.check(a.get_ylabel() == ay_.upper() + ' ' + units[ay_].strUnit(), 'points:ylabel', a.get_ylabel())
        if hasv and kind != 'plot':
            m.check(plt.gcf().axes[-1].get_ylabel() == rest.upper() + ' ' + units[rest].strUnit(), 'points:colorbar-label',
                    plt.gcf().axes[-1].get_ylabel())
    if kind == 'plot':
        m.close(res[0].get_xydata(), want, 'points:line', 1e-12, 0.)
        if usercol:
            m.check(mpl.colors.to_rgb(res[0].get_color()) == (1., 0., 0.), 'points:line-colour', res[0].get_color())
    elif kind == 'colored_plot':
        polyline(m, res, want[:, 0], want[:, 1], cols[rest], 'points:coloured')
    else:
        m.close(np.asarray(res.get_offsets()), want, 'points:scatter', 1e-12, 0.)
        if usercol:
            m.check(np.allclose(res.get_facecolor(), [1, 0, 0, 1]), 'points:scatter-colour', res.get_facecolor()[:1])
        elif hasv:
            m.close(np.asarray(res.get_array()), cols[rest], 'points:values', 1e-12, 0.)


@scenario('C32', 10)
def oriented(m):
    rng = m.rng
    n = int(rng.integers(1, 6))
    ori = rng.normal(size=(n, 2, 2))
    ori[rng.random(n) < .2] = 0
    xy = rng.normal(size=(n, 2))*10**rng.uniform(-2, 2)
    p = OrientedPoints(xy, orientations=ori, v=rng.normal(size=n) if rng.random() < .7 else [], unit_x='m', unit_y='m')
    args = dict(color='k') if rng.random() < .5 else {}
    m.case('%d oriented points %s' % (n, args))
    before = G.snap(p)
    fig()
    p._display('scatter', **args)
    m.check(not G.diff(before, G.snap(p)), 'display-changed-the-points', '')
    ls = [l.get_xydata() for l in plt.gca().lines]
    want = [(i, o) for i in range(n) if np.any(ori[i] != 0) for o in ori[i]]
    if m.check(len(ls) == len(want), 'oriented:lines', '%d lines for %d orientations' % (len(ls), len(want))):
        for l, (i, o) in zip(ls, want):
            m.close(l.mean(axis=0), xy[i], 'oriented:centre', 1e-9, 1e-9)
            d = l[1] - l[0]
            m.check(abs(d[0]*o[1] - d[1]*o[0]) <= 1e-9*np.hypot(*d)*np.hypot(*o), 'oriented:direction', '%s %s' % (d, o))
            m.event('orientation lines')


@scenario('C32', 10)
def spatial(m):
    rng = m.rng
    vec = bool(rng.random() < .5)
    S = SpatialVectorFields() if vec else SpatialScalarFields()
    fs = []
    u = [G.make_unit('m'), G.make_unit('m'), G.make_unit('m/s')]
    for k in range(int(rng.integers(1, 4))):
        nx, ny = G.shape(rng, 3, 6)
        x, y = np.arange(nx)*1. + 7*k, np.arange(ny)*rng.uniform(.5, 2)
        f = VectorField() if vec else ScalarField()
        f.import_from_arrays(x, y, *[rng.normal(size=(nx, ny)) for _ in range(2 if vec else 1)], unit_x=u[0], unit_y=u[1], unit_values=u[2])
        fs.append(f)
        S.add_field(f)
    m.case('%d %s' % (len(fs), 'vector' if vec else 'scalar'))
    before = G.snap(S)
    fig()
    S.display()
    m.check(not G.diff(before, G.snap(S)), 'display-changed-the-collection', '')
    ax = plt.gcf().axes[0]
    if vec:
        arts = [c for c in ax.collections if isinstance(c, mpl.quiver.Quiver)]
    else:
        arts = list(ax.images)
    if not m.check(len(arts) == len(fs), 'spatial:members', '%d drawn of %d' % (len(arts), len(fs))):
        return
    for a, f in zip(arts, fs):
        if vec:
            X, Y = np.meshgrid(f.axe_x, f.axe_y)
            m.close(a.XY, np.column_stack([X.ravel(), Y.ravel()]), 'spatial:positions', 1e-12, 0.)
            m.close(np.asarray(a.U), f.comp_x.T.ravel(), 'spatial:x', 1e-12, 0.)
            m.close(np.asarray(a.V), f.comp_y.T.ravel(), 'spatial:y', 1e-12, 0.)
        else:
            m.close(np.asarray(a.get_array()), f.values.T, 'spatial:image', 1e-12, 0.)
            extent(m, f, a, 'spatial')
            m.close(a.get_clim(), [min(g.min for g in fs), max(g.max for g in fs)], 'spatial:common-range', 1e-9, 0.)
        m.event('members')
    m.check(plt.gcf().axes[-1].get_ylabel() == u[2].strUnit(), 'spatial:colorbar-label', plt.gcf().axes[-1].get_ylabel())


def frame(m, T, i, arts, compo, kind, sig):
    """The one frame drawn is the field of index i."""
    if not m.check(len(arts) == 1, sig + ':one-frame', '%d frames drawn at once' % len(arts)):
        return
    a, f = arts[0], T.fields[i]
    if compo is not None:
        v = {'comp_x': lambda: f.comp_x, 'comp_y': lambda: f.comp_y, 'magnitude': lambda: (f.comp_x**2 + f.comp_y**2)**.5}[compo]()
    elif isinstance(f, ScalarField):
        v = f.values
    else:
        mk = f.mask.T.ravel()
        hidden(np.ma.array(a.U, mask=a.Umask), mk, f.comp_x.T.ravel(), m, sig + ':x')
        hidden(np.ma.array(a.V, mask=a.Umask), mk, f.comp_y.T.ravel(), m, sig + ':y')
        return
    if kind in ('contour', 'contourf'):
        m.close([a.zmin, a.zmax], [v[~f.mask].min(), v[~f.mask].max()], sig + ':contour-range', 1e-9, 0.)
    else:
        hidden(a.get_array(), f.mask.T, v.T, m, sig + ':image')


class Window:
    """Model of the index shown by an interactive window of n frames."""

    def __init__(self, n):
        self.n, self.ind, self.incr, self.key = n, 0, 1, None

    def number(self):
        k, self.key = self.key, None
        return k

    def press(self, key):
        last = self.n - 1
        if key.isdigit():
            self.key = int(key) if self.key is None else self.key*10 + int(key)
            return
        if key in (' ', 'right', '+', 'l'):
            k = self.number()
            self.ind = min(self.ind + (self.incr if k is None else k), last)
        elif key in ('left', 'backspace', '-', 'h'):
            k = self.number()
            self.ind = max(self.ind - (self.incr if k is None else k), 0)
        elif key in ('up', 'k'):
            if self.key is None:
                self.ind = last
        elif key in ('down', 'j'):
            if self.key is None:
                self.ind = 0
        elif key in ('enter', 'g'):
            if self.key is not None and 1 <= self.key <= self.n:
                self.ind = self.key - 1
        elif key in ('i', '*'):
            if self.key is not None:
                self.incr = self.key
        self.key = None


def drive(m, bm, w, step):
    """One random user action on the window and on the model."""
    rng = m.rng
    r = rng.random()
    if r < .6:
        key = G.pick(rng, [' ', 'right', '+', 'l', 'left', 'backspace', '-', 'h', 'up', 'down', 'k', 'j', 'N enter', 'N g', 'N right',
                           'N left', 'N i', 'z'])
        keys = key.split(' ') if key != ' ' else [key]
        if keys[0] == 'N':
            num = int(rng.integers(1, w.n + (3 if keys[1] != 'i' else 0))) if keys[1] != 'i' else int(rng.integers(1, 3))
            keys = list(str(num)) + keys[1:]
        for k in keys:
            bm.keyf(types.SimpleNamespace(key=k))
            w.press(k)
        step.append('+'.join(keys))
    elif r < .7:
        bm.nextf(None)
        w.ind = min(w.ind + w.incr, w.n - 1)
        step.append('next')
    elif r < .8:
        bm.prevf(None)
        w.ind = max(w.ind - w.incr, 0)
        step.append('prev')
    elif r < .9:
        k = int(rng.integers(1, w.n + 1))
        bm.bslid.set_val(k)
        w.ind = k - 1
        step.append('slide%d' % k)
    else:
        bm.timer_play()
        w.ind += w.incr
        if w.ind >= w.n:
            w.ind = 0
        step.append('tick')


@scenario('C32', 14)
def window(m):
    rng = m.rng
    long = rng.random() < .3
    T = G.tf(rng, lo=11 if long else 2, hi=24 if long else 7, nlo=3, nhi=6, maskkind=G.pick(rng, ['none', 'sparse']))
    if any(f.mask.all() for f in T.fields):
        raise Skip
    scal = hasattr(T.fields[0], 'values')
    kind = G.pick(rng, [None, None, 'contour', 'contourf'] if scal else [None, 'quiver'])
    compo = None if scal else G.pick(rng, [None, 'comp_x', 'comp_y', 'magnitude'])
    if compo:
        kind = None
    def val(f):
        return (f.values if scal else f.comp_x if compo == 'comp_x' else f.comp_y if compo == 'comp_y' else
                (f.comp_x**2 + f.comp_y**2)**.5)[~f.mask]
    if any(np.ptp(val(f)) == 0 for f in T.fields):
        raise Skip
    share = bool(rng.random() < .6)
    buf = int(G.pick(rng, [1, 2, 3, 100]))
    m.case('%s kind=%s compo=%s share=%s buffer=%d' % (G.tdesc(T), kind, compo, share, buf))
    before = G.snap(T)
    fig()
    db = T.display(compo, kind=kind, sharecb=share, buffer_size=buf)
    bm = db.button_manager
    n = len(T.fields)
    w = Window(n)
    m.check(bm.ax.get_xlabel() == 'X ' + T.unit_x.strUnit(), 'window:xlabel', bm.ax.get_xlabel())
    m.check(bm.ax.get_ylabel() == 'Y ' + T.unit_y.strUnit(), 'window:ylabel', bm.ax.get_ylabel())
    lo, hi = min(val(f).min() for f in T.fields), max(val(f).max() for f in T.fields)
    steps = []
    for s in range(int(rng.integers(3, 12))):
        if s:
            drive(m, bm, w, steps)
        if not m.check(bm.ind == w.ind, 'window:index', 'frame %r instead of %d after %s' % (bm.ind, w.ind, steps)):
            return
        m.check(int(round(bm.bslid.val)) == w.ind + 1, 'window:slider', '%r after %s' % (bm.bslid.val, steps))
        arts = list(bm.ax.images) + list(bm.ax.collections)
        frame(m, T, w.ind, arts, compo, kind, 'window')
        if len(arts) != 1:
            return
        m.event('frames observed')
        if share:
            m.close([bm.cb.norm.vmin, bm.cb.norm.vmax], [lo, hi], 'window:common-range', 1e-9, 0.)
            m.close(arts[0].get_clim(), [lo, hi], 'window:common-colours', 1e-9, 0.)
        else:
            v = val(T.fields[w.ind])
            m.close([bm.cb.norm.vmin, bm.cb.norm.vmax], [v.min(), v.max()], 'window:own-range', 1e-9, 0.)
        # the cursor tells the sample nearest to it
        f = T.fields[w.ind]
        i, j = int(rng.integers(0, len(f.axe_x))), int(rng.integers(0, len(f.axe_y)))
        d = db.get_data_at_point(f.axe_x[i], f.axe_y[j])
        if m.check(d is not None and d['x'] == f.axe_x[i] and d['y'] == f.axe_y[j], 'cursor:position', d) and not f.mask[i, j]:
            if 'value' in d:
                want = f.values if scal else {'comp_x': f.comp_x, 'comp_y': f.comp_y}.get(compo, (f.comp_x**2 + f.comp_y**2)**.5)
                m.close(d['value'], want[i, j], 'cursor:value', 1e-12, 0.)
            else:
                m.close([d['Vx'], d['Vy']], [f.comp_x[i, j], f.comp_y[i, j]], 'cursor:vector', 1e-12, 0.)
    m.check(not G.diff(before, G.snap(T)), 'display-changed-the-series', '')


@scenario('C32', 12)
def points_window(m):
    """Series of point sets: the sets shown while navigating, alone or in two linked windows."""
    rng = m.rng
    n = int(rng.integers(2, 6)) if rng.random() < .6 else int(rng.integers(11, 30))
    def series():
        T = TemporalPoints()
        for k in range(n):
            c = int(rng.integers(1, 5)) if rng.random() < .85 or k == 0 else 0
            T.add_pts(Points(rng.normal(size=(c, 2)), unit_x='m', unit_y='m'), time=float(k), unit_times='s')
        return T
    two = rng.random() < .4
    Ts = [series() for _ in range(2 if two else 1)]
    buf = int(G.pick(rng, [1, 2, 100]))
    kw = G.pick(rng, [{}, {'kind': 'plot'}])
    m.case('%d sets x%d buffer=%d %s' % (n, len(Ts), buf, kw))
    plt.close('all')
    bms, dbs = [], []
    for T in Ts:
        plt.figure(figsize=(3, 3))
        dbs.append(T.display(buffer_size=buf, cpkw=kw))
        bms.append(dbs[-1].button_manager)
    if two:
        bms[0].link_to_other_graph(bms[1])
    w = Window(n)
    steps = []
    for s in range(int(rng.integers(3, 14))):
        if s:
            b = bms[int(rng.integers(0, len(bms)))]
            if two:
                if rng.random() < .6:
                    b.nextf(None)
                    w.ind = min(w.ind + 1, n - 1)
                    steps.append('next in window %d' % bms.index(b))
                else:
                    b.prevf(None)
                    w.ind = max(w.ind - 1, 0)
                    steps.append('previous in window %d' % bms.index(b))
            else:
                drive(m, b, w, steps)
        for T, b in zip(Ts, bms):
            if not m.check(b.ind == w.ind, 'points-window:index', 'frame %r instead of %d after %s' % (b.ind, w.ind, steps)):
                return
            P = T.point_sets[w.ind]
            got = [np.asarray(c.get_offsets()) for c in b.ax.collections] + [l.get_xydata() for l in b.ax.lines]
            got = np.vstack(got) if got else np.empty((0, 2))
            if m.check(len(got) == len(P), 'points-window:points', '%d points shown, %d in the set, after %s' % (len(got), len(P), steps)):
                if len(P):
                    m.close(got, P.xy, 'points-window:positions', 1e-12, 0.)
            m.event('point sets observed')


@scenario('C32', 8)
def multiple(m):
    rng = m.rng
    T = G.tf(rng, lo=2, hi=7, nlo=3, nhi=6, maskkind='none')
    scal = hasattr(T.fields[0], 'values')
    compo = None if scal else G.pick(rng, [None, 'comp_x', 'magnitude'])
    n = len(T.fields)
    if any(np.ptp(f.values if scal else f.magnitude) == 0 for f in T.fields):
        raise Skip
    inds = [int(i) for i in rng.permutation(n)[:int(rng.integers(2, n + 1))]]
    share = bool(rng.random() < .5)
    m.case('%s inds=%s compo=%s share=%s' % (G.tdesc(T), inds, compo, share))
    before = G.snap(T)
    fig()
    f_, axs = T.display_multiple(compo, inds=inds, sharecb=share)
    m.check(not G.diff(before, G.snap(T)), 'display-changed-the-series', '')
    for ax, i in zip(np.asarray(axs).flat, inds):
        arts = list(ax.images) + list(ax.collections)
        frame(m, T, i, arts, compo, None, 'multiple')
        m.event('panels')
        if share and len(arts) == 1:
            v = [T.fields[k].values if scal else T.fields[k].comp_x if compo == 'comp_x' else T.fields[k].magnitude for k in inds]
            m.close(arts[0].get_clim(), [min(x.min() for x in v), max(x.max() for x in v)], 'multiple:common-range', 1e-9, 0.)


@scenario('C32', 20)
def colours(m):
    """Colour maps: each colour where it was asked."""
    rng = m.rng
    from IMTreatment.plotlib.plotlib import make_cmap, make_discrete_cmap, get_color_gradient, make_segments, is_sorted
    n = int(rng.integers(2, 7))
    cols = rng.random((n, 3))
    pos = np.concatenate([[0.], np.sort(rng.uniform(.05, .95, n - 2)), [1.]])
    m.case('%d colours' % n)
    if rng.random() < .5:
        pos = None
    cm = make_cmap(cols, pos)
    p = np.linspace(0, 1, n) if pos is None else pos
    for q in rng.random(5):
        w = [np.interp(q, p, cols[:, k]) for k in range(3)]
        slope = np.abs(np.diff(cols, axis=0)).max()/np.diff(p).min()
        m.check(np.abs(np.array(cm(float(q))[:3]) - w).max() <= slope/200. + 1e-6, 'cmap',
                '%s %s' % (cm(float(q)), w))
    k = int(rng.integers(3, 9))
    cen = rng.normal() + np.arange(k)*10**rng.uniform(-2, 2)
    cm, norm = make_discrete_cmap(cen, 'viridis')
    base = plt.cm.get_cmap('viridis')
    for i, c in enumerate(cen):
        m.close(cm(norm(c)), base(i/float(k - 1)), 'discrete-cmap', 1e-9, 1e-9)
    g = get_color_gradient('jet', k)
    m.close(np.array(g), np.array([plt.cm.get_cmap('jet')(i/(k - 1)) for i in range(k)]), 'gradient', 1e-9, 1e-9)
    x, y = rng.normal(size=k), rng.normal(size=k)
    s = make_segments(x, y)
    m.close(s[:, 0], np.column_stack([x[:-1], y[:-1]]), 'segments:start', 1e-12, 0.)
    m.close(s[:, 1], np.column_stack([x[1:], y[1:]]), 'segments:end', 1e-12, 0.)
    m.check(is_sorted(np.sort(x)) and (is_sorted(x) == bool(np.all(np.diff(x) >= 0))), 'is_sorted', x)
    m.event('colours', n + k)


@scenario('C32', 12)
def critical(m):
    """Critical points and trajectories, as drawn."""
    rng = m.rng
    from IMTreatment.vortex_detection import CritPoints
    n = int(rng.integers(2, 5))
    u = dict(unit_x='m', unit_y='mm')
    cp = CritPoints(unit_time='s')
    kinds = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']
    base = {k: rng.normal(size=(int(rng.integers(0, 3)), 2)) for k in kinds}
    if sum(len(b) for b in base.values()) == 0:
        raise Skip
    for t in range(n):
        pts = {}
        for k in kinds:
            keep = base[k][rng.random(len(base[k])) < .8] + .01*t
            pts[k] = Points(keep, v=[float(t)]*len(keep), unit_v='s', **u)
        cp.add_point(time=float(t), **pts)
    if all(len(p) == 0 for k in cp.iter for p in k):
        raise Skip
    m.case('%d instants %s' % (n, {k: len(b) for k, b in base.items()}))
    plt.close('all')
    plt.figure(figsize=(3, 3))
    dbs = cp.display()
    bm = dbs[0].button_manager
    w = Window(n)
    steps = []
    for s in range(int(rng.integers(2, 8))):
        if s:
            drive(m, bm, w, steps)
        if not m.check(bm.ind == w.ind, 'critical:index', 'frame %r instead of %d after %s' % (bm.ind, w.ind, steps)):
            return
        got = [(tuple(q), l.get_markerfacecolor()) for l in bm.ax.lines for q in l.get_xydata()]
        want = [(tuple(q), cp.colors[i]) for i, k in enumerate(cp.iter) for q in k[w.ind].xy]
        m.check(sorted(got) == sorted(want), 'critical:points', 'shown %s, present %s, after %s' % (got, want, steps))
        m.event('instants observed')
    cp.compute_traj()
    data = G.pick(rng, ['default', 'x', 'y'])
    filt = rng.random(5) < .7
    plt.close('all')
    plt.figure(figsize=(3, 3))
    cp.display_traj(data, filt=filt)
    ax = plt.gca()
    want = []
    for i, k in enumerate(cp.iter_traj):
        for tr in k:
            if filt[i]:
                a = {'default': tr.xy, 'x': np.column_stack([tr.xy[:, 0], tr.v]), 'y': np.column_stack([tr.v, tr.xy[:, 1]])}[data]
                want.append((a.tolist(), cp.colors[i]))
    got = [(l.get_xydata().tolist(), l.get_color()) for l in ax.lines]
    m.check(sorted(got) == sorted(want), 'trajectories:lines', '%s instead of %s' % (got, want))
    lx, ly = {'default': ('x [m]', 'y [mm]'), 'x': ('x [m]', 'time [s]'), 'y': ('time [s]', 'y [mm]')}[data]
    m.check((ax.get_xlabel(), ax.get_ylabel()) == (lx, ly), 'trajectories:labels', (ax.get_xlabel(), ax.get_ylabel()))
    m.event('trajectories', len(want))


@scenario('C32', 3)
def relief(m):
    """Points in three dimensions."""
    rng = m.rng
    p = G.points(rng, 3, 12, withv=True)
    if len(p) < 2 or len(p.v) != len(p):
        raise Skip
    m.case(G.tdesc(p))
    before = G.snap(p)
    fig()
    ax = p.display3D(xlabel='a', ylabel='b', zlabel='c', title='d')
    m.check(not G.diff(before, G.snap(p)), 'display-changed-the-points', '')
    if m.check(len(ax.lines) == 1, '3D:lines', len(ax.lines)):
        m.close(np.array(ax.lines[0].get_data_3d()), np.array([p.xy[:, 0], p.xy[:, 1], p.v]), '3D:points', 1e-12, 0.)
    m.check((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel(), ax.get_title()) == ('a', 'b', 'c', 'd'), '3D:labels', ax.get_zlabel())
    m.event('points', len(p))
