"""C16: foreign file formats place every sample where the file says."""
import contextlib
import io
import os
import sys
import types
import numpy as np
import imageio
from IMTreatment import file_operation as imtio
from IMTreatment.core import (ScalarField, VectorField, Profile, Points, TemporalScalarFields)
from IMTreatment.utils import make_unit
from IMTreatment.vortex_detection import CritPoints
from vh.core import scenario, Skip
from vh import gen as G
from props.c15 import Scratch

RULE = ('Random fields written as text tables by the library or by the harness (every row order, axis direction, '
        'separator, header length, column order, missing rows and not-a-number entries), MATLAB files, pictures, and '
        'DaVis buffers served by a stand-in of the ReadIM reader (both scale signs, all buffer layouts).')
ASSUMPTIONS = ['the ReadIM module and OpenCV are not installed: DaVis buffers come from a stand-in, videos are not covered',
               'picture export rescales grey levels: only the affine, increasing relation of levels is claimed for '
               'floating point fields, exact levels for 8 bit fields']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def table(rng, d, cols, nan='nan'):
    """Write columns as a text table in a random layout; returns path, column numbers (1-based), reader arguments."""
    n = len(cols[0])
    order = rng.permutation(len(cols) + int(rng.integers(0, 2)))
    tab = []
    for c in order:
        tab.append(cols[c] if c < len(cols) else np.arange(n)*1.)
    num = [int(np.where(order == c)[0][0]) + 1 for c in range(len(cols))]
    sep = G.pick(rng, ['\t', ' ', ',', ';', '  '])
    head = int(rng.integers(0, 4))
    k = {}
    if sep in ',;\t' and (sep != '\t' or rng.random() < .5):
        k['delimiter'] = sep
    com = rng.random() < .5
    if head and not com:
        k['skip_header'] = head
    p = os.path.join(d, 'table.txt')
    with open(p, 'w') as f:
        for h in range(head):
            f.write(('# ' if com else '') + 'header line %d\n' % h)
        for r in range(n):
            f.write(sep.join('nan' if np.isnan(c[r]) else repr(float(c[r])) for c in tab) + '\n')
    return p, num, k


def rows(rng, sh):
    """A row order of the (n, p) samples."""
    I, J = [a.ravel() for a in np.indices(sh)]
    kind = G.pick(rng, ['x slow', 'y slow', 'random', 'xrev', 'yrev', 'bothrev', 'yslow yrev', 'yslow xrev'])
    if kind == 'x slow':
        o = np.lexsort((J, I))
    elif kind == 'y slow':
        o = np.lexsort((I, J))
    elif kind == 'random':
        o = rng.permutation(len(I))
    elif kind == 'xrev':
        o = np.lexsort((J, -I))
    elif kind == 'yrev':
        o = np.lexsort((-J, I))
    elif kind == 'bothrev':
        o = np.lexsort((-J, -I))
    elif kind == 'yslow yrev':
        o = np.lexsort((I, -J))
    else:
        o = np.lexsort((-I, J))
    return kind, I[o], J[o]


@scenario('C16', 800, 20000)
def text_tables(m):
    rng = m.rng
    vec = rng.random() < .5
    f = (G.vf if vec else G.sf)(rng, lo=1 if rng.random() < .15 else 2, hi=7,
                                maskkind=G.pick(rng, ['none', 'none', 'sparse', 'dense']))
    kind, I, J = rows(rng, f.shape)
    if len(I) < 2:
        raise Skip
    mk = np.array(f.mask)
    # missing rows: some of the masked samples are not in the file (each line and column keeps one row)
    drop = np.zeros(f.shape, bool)
    if rng.random() < .5:
        cand = mk & (rng.random(f.shape) < .6)
        for i, j in zip(*np.where(cand)):
            drop[i, j] = True
            if np.all(drop[i]) or np.all(drop[:, j]):
                drop[i, j] = False
    keep = ~drop[I, J]
    I, J = I[keep], J[keep]
    if len(I) < 2:
        raise Skip
    comps = [f.comp_x, f.comp_y] if vec else [f.values]
    cols = [f.axe_x[I], f.axe_y[J]] + [np.asarray(c, float)[I, J] for c in comps]
    u = [G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.VEL)]
    conv = (lambda s: s) if rng.random() < .5 else make_unit
    with Scratch() as d:
        p, num, k = table(rng, d, cols)
        m.case(G.tdesc(f), kind, num, k, u, int(drop.sum()))
        m.event('order:' + kind)
        m.event('missing-rows' if drop.any() else 'full')
        names = ['x_col', 'y_col', 'vx_col', 'vy_col'][:len(num)]
        k.update(zip(names, num))
        fn = imtio.import_vf_from_ascii if vec else imtio.import_sf_from_ascii
        r = fn(p, unit_x=conv(u[0]), unit_y=conv(u[1]), unit_values=conv(u[2]), **k)
    placed(m, r, f, u, 'text')


def placed(m, r, f, u=None, sig='', rtol=1e-12):
    G.chk_field(m, r, sig)
    m.close(r.axe_x, f.axe_x, sig + '-axis-x', rtol=rtol)
    m.close(r.axe_y, f.axe_y, sig + '-axis-y', rtol=rtol)
    m.check(np.array_equal(r.mask, f.mask), sig + '-mask', lambda: '%s want %s' % (r.mask*1, f.mask*1))
    for c in (['values'] if isinstance(f, ScalarField) else ['comp_x', 'comp_y']):
        m.close(getattr(r, c), getattr(f, c), sig + '-' + c, rtol=rtol)
    if u is None:
        u = [f.unit_x, f.unit_y, f.unit_values]
    for a, w in zip(('unit_x', 'unit_y', 'unit_values'), u):
        w = make_unit(w) if isinstance(w, str) else w
        m.check(G.si_or_str(getattr(r, a)) == G.si_or_str(w), sig + '-' + a, lambda: '%s want %s' % (getattr(r, a), w))


@scenario('C16', 400, 10000)
def text_round_trip(m):
    rng = m.rng
    kind = G.pick(rng, ['sf', 'vf', 'prof', 'pts', 'ptsv'])
    with Scratch() as d:
        p = os.path.join(d, G.pick(rng, ['f.txt', 'data', 'a b.dat']))
        if kind in ('sf', 'vf'):
            f = (G.sf if kind == 'sf' else G.vf)(rng, lo=2, hi=7)
            m.case(kind, G.tdesc(f))
            s = G.snap(f)
            imtio.export_to_ascii(f, p)
            m.check(G.diff(G.snap(f), s) is None, 'export-changed-the-field')
            fn = imtio.import_sf_from_ascii if kind == 'sf' else imtio.import_vf_from_ascii
            r = fn(p, unit_x=f.unit_x, unit_y=f.unit_y, unit_values=f.unit_values)
            placed(m, r, f, sig='text-trip')
        elif kind == 'prof':
            f = G.profile(rng, lo=2)
            m.case(kind, G.tdesc(f))
            imtio.export_to_ascii(f, p)
            if rng.random() < .5:
                r = imtio.import_profile_from_ascii(p, unit_x=f.unit_x, unit_y=f.unit_y)
            else:
                r = imtio.import_profile_from_ascii(p, x_col=1, y_col=2, unit_x=f.unit_x, unit_y=f.unit_y)
            r.name = f.name
            x = G.diff(G.snap(r), G.snap(f), exact=False, rtol=1e-12)
            m.check(x is None, 'profile-trip', x)
            # swapped columns
            r = imtio.import_profile_from_ascii(p, x_col=2, y_col=1, unit_x=f.unit_y, unit_y=f.unit_x) \
                if not np.any(f.mask) else None
            if r is not None:
                o = np.argsort(f.y, kind='stable')
                if len(np.unique(f.y)) == len(f.y):
                    m.close(r.x, np.asarray(f.y)[o], 'profile-columns')
                    m.close(r.y, np.asarray(f.x)[o], 'profile-columns')
        else:
            f = G.points(rng, lo=2, withv=kind == 'ptsv')
            m.case(kind, G.tdesc(f))
            imtio.export_to_ascii(f, p)
            k = dict(v_col=3) if kind == 'ptsv' else {}
            r = imtio.import_pts_from_ascii(p, unit_x=f.unit_x, unit_y=f.unit_y, unit_v=f.unit_v, **k)
            x = G.diff(G.snap(r), G.snap(f), exact=False, rtol=1e-12)
            m.check(x is None, 'points-trip', x)


@scenario('C16', 400, 10000)
def matlab_round_trip(m):
    rng = m.rng
    kind = G.pick(rng, ['sf', 'vf', 'prof', 'pts', 'ptsv'])
    with Scratch() as d:
        p = os.path.join(d, 'f.mat')
        if kind in ('sf', 'vf'):
            f = (G.sf if kind == 'sf' else G.vf)(rng, lo=2, hi=7)
        elif kind == 'prof':
            f = G.profile(rng, lo=2)
        else:
            f = G.points(rng, lo=2, withv=kind == 'ptsv')
        m.case(kind, G.tdesc(f))
        s = G.snap(f)
        imtio.export_to_matlab(f, p)
        m.check(G.diff(G.snap(f), s) is None, 'export-changed-the-object')
        name = dict(sf='ScalarField', vf='VectorField', prof='Profile').get(kind, 'Points')
        r = quiet(imtio.import_from_matlab, p, name)
        if kind in ('sf', 'vf'):
            placed(m, r, f, sig='matlab')
        else:
            if kind == 'prof':
                r.name = f.name
            x = G.diff(G.snap(r), G.snap(f), exact=False, rtol=1e-12)
            m.check(x is None, 'matlab-' + kind, x)


@scenario('C16', 400, 8000)
def pictures(m):
    rng = m.rng
    sh = G.shape(rng, 2, 9)
    u8 = rng.random() < .5
    v = rng.integers(0, 256, sh)
    f = ScalarField()
    ax, ay = np.arange(sh[0]), np.arange(sh[1])
    f.import_from_arrays(ax, ay, v.astype(np.uint8) if u8 else v*rng.uniform(.1, 9) + rng.normal(),
                         dtype=np.uint8 if u8 else float)
    given = rng.random() < .5
    k = dict(unit_x=G.pick(rng, G.LEN), unit_y=G.pick(rng, G.LEN), unit_values=G.pick(rng, ['counts', 'K', '']))
    if given:
        ax, ay = G.axis(rng, sh[0]), G.axis(rng, sh[1])
        k.update(axe_x=ax, axe_y=ay)
    m.case(sh, u8, k)
    with Scratch() as d:
        p = os.path.join(d, 'im' + G.pick(rng, ['.png', '.bmp', '.PNG']) if u8 or True else '')
        src = G.pick(rng, ['library', 'harness'])
        if src == 'library':
            imtio.export_to_picture(f, p)
        else:
            # row 0 of a picture is its top line
            imageio.imwrite(p, np.asarray(f.values if u8 else v)[:, ::-1].T.astype(np.uint8))
        r = imtio.import_from_picture(p, **k)
        levels(m, r, f, u8 or src == 'harness', v, 'picture')
        m.close(r.axe_x, ax, 'picture-axis')
        m.close(r.axe_y, ay, 'picture-axis')
        for a in ('unit_x', 'unit_y', 'unit_values'):
            m.check(G.si_or_str(getattr(r, a)) == G.si_or_str(make_unit(k[a])), 'picture-' + a)
        m.raises(lambda: imtio.import_from_picture(p, axe_x=np.arange(sh[0] + 1)), 'picture-axis-length')


def levels(m, r, f, exact, v, sig):
    m.check(r.shape == f.shape, sig + '-shape', lambda: '%s %s' % (r.shape, f.shape))
    if r.shape != f.shape:
        return
    if exact:
        m.close(np.asarray(r.values, float), np.asarray(v, float), sig + '-levels', rtol=0, atol=1e-9)
    else:
        a, b = np.asarray(r.values, float).ravel(), np.asarray(f.values, float).ravel()
        lo, hi = b.min(), b.max()
        if hi > lo:
            w = (b - lo)/(hi - lo)*(a.max() - a.min()) + a.min()
            m.check(np.all(np.abs(a - w) <= 1.01) and a.max() > a.min(), sig + '-levels',
                    lambda: 'got %s want %s' % (r.values, w.reshape(f.shape)))


@scenario('C16', 300, 6000)
def picture_series(m):
    rng = m.rng
    sh = G.shape(rng, 2, 7)
    n = int(rng.integers(1, 13))
    vs = [rng.integers(0, 256, sh) for _ in range(n)]
    t = TemporalScalarFields()
    fs = []
    for i, v in enumerate(vs):
        v.flat[0], v.flat[-1] = 0, 255
        f = ScalarField()
        f.import_from_arrays(np.arange(sh[0]), np.arange(sh[1]), v.astype(np.uint8), dtype=np.uint8)
        t.add_field(f, time=float(i))
        fs.append(f)
    tl = G.times(rng, n)
    k = {}
    if rng.random() < .6:
        k.update(times=list(tl))
    else:
        tl = np.arange(n)
    incr = int(rng.integers(1, 4))
    st, en = 0, n
    if rng.random() < .5:
        st = int(rng.integers(0, n))
        en = int(rng.integers(st + 1, n + 3))
        k['fieldnumbers'] = [st, en]
    if incr > 1 or rng.random() < .5:
        k['incr'] = incr
    uc = G.pick(rng, G.TIM)
    m.case(sh, n, k, uc)
    with Scratch() as d:
        imtio.export_to_pictures(G.pick(rng, [t, fs]), os.path.join(d, 'im'))
        m.check(len(os.listdir(d)) == n, 'picture-count')
        kk = dict(k)
        if 'fieldnumbers' in kk:
            kk['fieldnumbers'] = list(kk['fieldnumbers'])
        r = imtio.import_from_pictures(os.path.join(d, 'im_*.png'), unit_times=uc, **kk)
    want = list(range(st, min(en, n), incr))
    if m.check(len(r.fields) == len(want), 'picture-series-count', lambda: '%d want %s' % (len(r.fields), want)):
        m.close(r.times, [tl[i] for i in want], 'picture-series-times')
        m.check(G.si_or_str(r.unit_times) == G.si_or_str(make_unit(uc)), 'picture-series-unit')
        for f, i in zip(r.fields, want):
            levels(m, f, fs[i], True, vs[i], 'picture-series')


@scenario('C16', 250, 6000)
def text_series(m):
    rng = m.rng
    n = int(rng.integers(1, 8))
    t = G.tf(rng, kind='v', lo=n, hi=n, maskkind=G.pick(rng, ['none', 'sparse']))
    n = len(t.fields)
    if min(t.shape) < 2:
        raise Skip
    k = dict(unit_x=t.unit_x, unit_y=t.unit_y, unit_values=t.unit_values)
    tl = G.times(rng, n)
    if rng.random() < .6:
        k['times'] = G.pick(rng, [list(tl), np.array(tl)])
    else:
        tl = np.arange(n)
    uc = G.pick(rng, G.TIM)
    k['unit_time'] = make_unit(uc)
    st, en, incr = 0, n - 1, 1
    if rng.random() < .5:
        st = int(rng.integers(0, n))
        en = int(rng.integers(st, n))
        k['interval'] = [st, en] if rng.random() < .7 else [en, st]
    if rng.random() < .5:
        incr = k['incr'] = int(rng.integers(1, 4))
    m.case(G.tdesc(t), n, {a: b for a, b in k.items() if not a.startswith('unit')})
    with Scratch() as d:
        for i in rng.permutation(n):
            imtio.export_to_ascii(t.fields[i], os.path.join(d, 'f%02d.txt' % i))
        r = imtio.import_vfs_from_ascii(os.path.join(d, 'f*.txt'), **k)
        m.raises(lambda: imtio.import_vfs_from_ascii(os.path.join(d, 'f*.txt'), interval=[0, n]), 'text-series-bounds')
    want = list(range(st, en + 1, incr))
    if m.check(len(r.fields) == len(want), 'text-series-count', lambda: '%d want %s' % (len(r.fields), want)):
        m.close(r.times, [tl[i] for i in want], 'text-series-times')
        m.check(G.si_or_str(r.unit_times) == G.si_or_str(make_unit(uc)), 'text-series-unit')
        for f, i in zip(r.fields, want):
            placed(m, f, t.fields[i], sig='text-series')


# ---------------------------------------------------------------- DaVis files, served by a stand-in of ReadIM
class FakeReadIM:
    def __init__(self):
        self.files = {}

    def install(self):
        mod = types.ModuleType('ReadIM')
        ex = types.ModuleType('ReadIM.extra')
        files = self.files

        class Buf:
            pass

        def get(fn):
            e = files[os.path.basename(str(fn))]
            b = Buf()
            b.image_sub_type, b.vectorGrid, b.arr = e['fmt'], e['grid'], e['arr']
            return b, e['atts']
        ex.get_Buffer_andAttributeList = get
        ex.buffer_as_array = lambda b: (np.array(b.arr), b)
        ex.att2dict = lambda a: dict(a)
        mod.extra = ex
        mod.DestroyBuffer = lambda b: None
        sys.modules['ReadIM'] = mod
        sys.modules['ReadIM.extra'] = ex


def davis(rng, sh, vec):
    """A buffer (frames, rows, columns) with its attributes, and the samples it stands for."""
    dx = float(G.pick(rng, [.5, 2., -1.5, .25, -.75]))
    dy = float(G.pick(rng, [.5, 2., -1.5, .25, -.75]))
    x0, y0 = float(np.round(rng.normal()*5, 3)), float(np.round(rng.normal()*5, 3))
    si, oi = G.pick(rng, [(1, 0), (2, 3), (.5, 0.), (.25, -1.5)])
    u = [G.pick(rng, ['mm', 'm', 'cm']), G.pick(rng, ['mm', 'm', 'cm']), G.pick(rng, ['m/s', 'counts', 'mm/s'])]
    grid = int(rng.integers(1, 4)) if vec else 1
    atts = {'_SCALE_X': '%s %s\n%s\n' % (dx, x0, u[0]), '_SCALE_Y': '%s %s\n%s\n' % (dy, y0, u[1]),
            '_SCALE_I': '%s %s\n%s\n' % (si, oi, u[2])}
    ax = x0 + np.arange(sh[0])*dx*grid
    ay = y0 + np.arange(sh[1])*dy*grid
    raw = [rng.integers(1, 200, sh).astype(float) for _ in range(2 if vec else 1)]
    if vec and rng.random() < .5:
        # one component only may be zero
        z = rng.random(sh) < .2
        raw[int(rng.integers(2))][z] = 0
    return dict(atts=atts, grid=grid), ax, ay, raw, (si, oi), u


def im7_entry(rng, sh):
    e, ax, ay, raw, (s, o), u = davis(rng, sh, False)
    mk = rng.random(sh) < .2
    masked = rng.random() < .5
    fr = [mk.astype(float), raw[0]] if masked else [raw[0]]
    e.update(fmt=0, arr=np.array([a.T for a in fr]))
    f = ScalarField()
    ox, oy = np.argsort(ax), np.argsort(ay)
    f.import_from_arrays(ax[ox], ay[oy], (raw[0]*s + o)[ox][:, oy], mask=(mk & masked)[ox][:, oy],
                         unit_x=u[0], unit_y=u[1], unit_values=u[2])
    return e, f


def vc7_entry(rng, sh):
    e, ax, ay, raw, (s, o), u = davis(rng, sh, True)
    fmt = int(G.pick(rng, [1, 2, 3]))
    mk = np.zeros(sh, bool)
    if fmt == 2:
        fr = raw
        sup = []
    else:
        m1, m2 = rng.random(sh) < .15, rng.random(sh) < .15
        mk = m1 | m2
        fr = [(~m1).astype(float), raw[0], raw[1]] + [rng.integers(1, 99, sh).astype(float) for _ in range(6)] + \
            [(~m2).astype(float)]
        sup = fr[4:]
    z = rng.random(sh) < .1
    raw[0][z] = 0
    raw[1][z] = 0
    mk = mk | z
    e.update(fmt=fmt, arr=np.array([a.T for a in fr]))
    ox, oy = np.argsort(ax), np.argsort(ay)
    sx, sy = (-1 if ax[0] > ax[-1] else 1), (-1 if ay[0] > ay[-1] else 1)
    f = VectorField()
    f.import_from_arrays(ax[ox], ay[oy], sx*(raw[0]*s + o)[ox][:, oy], sy*(raw[1]*s + o)[ox][:, oy],
                         mask=mk[ox][:, oy], unit_x=u[0], unit_y=u[1], unit_values=u[2])
    ss = []
    for q in sup:
        g = ScalarField()
        g.import_from_arrays(ax[ox], ay[oy], q[ox][:, oy], unit_x=u[0], unit_y=u[1])
        ss.append(g)
    return e, f, ss


@scenario('C16', 400, 8000)
def davis_files(m):
    rng = m.rng
    sh = G.shape(rng, 2, 7)
    R = FakeReadIM()
    R.install()
    vec = rng.random() < .5
    with Scratch() as d:
        p = os.path.join(d, 'B0001' + G.pick(rng, ['.vc7', '.VC7'] if vec else ['.im7', '.IM7']))
        open(p, 'w').close()
        if vec:
            e, f, sup = vc7_entry(rng, sh)
            R.files[os.path.basename(p)] = e
            m.case('vc7', sh, e['fmt'], e['grid'], e['atts'])
            r = imtio.import_from_VC7(p)
            placed(m, r, f, sig='vc7', rtol=1e-9)
            if sup:
                r, s2 = imtio.import_from_VC7(p, add_fields=True)
                placed(m, r, f, sig='vc7', rtol=1e-9)
                m.check(len(s2) == len(sup), 'vc7-supplementary-count')
                for a, b in zip(s2, sup):
                    placed(m, a, b, sig='vc7-supplementary', rtol=1e-9)
        else:
            e, f = im7_entry(rng, sh)
            R.files[os.path.basename(p)] = e
            m.case('im7', sh, e['atts'])
            r, at = imtio.import_from_IM7(p, infos=True)
            placed(m, r, f, sig='im7', rtol=1e-9)
            m.check(at == e['atts'], 'im7-attributes')
        out = os.path.join(d, 'out')
        (imtio.VC7_to_imt if vec else imtio.IM7_to_imt)(p, out)
        placed(m, imtio.import_from_file(out + '.cimt'), f, sig='davis-to-imt', rtol=1e-9)


@scenario('C16', 250, 5000)
def davis_series(m):
    rng = m.rng
    sh = G.shape(rng, 2, 6)
    n = int(rng.integers(1, 9))
    R = FakeReadIM()
    R.install()
    vec = rng.random() < .5
    fs = []
    seed = int(rng.integers(1 << 30))
    dt = float(np.round(rng.uniform(.1, 3), 3))
    ut = G.pick(rng, ['s', 'ms'])
    k = {}
    incr = 1
    if rng.random() < .5:
        incr = k['incr'] = int(rng.integers(1, 4))
    st, en = 0, n
    if rng.random() < .5:
        st = int(rng.integers(0, n))
        en = int(rng.integers(st + 1, n + 1))
        k['fieldnumbers'] = [st, en]
    m.case(vec, sh, n, k, dt, ut)
    with Scratch() as d:
        for i in range(n):
            g = np.random.default_rng(seed)     # same axes and units for every file
            e = (vc7_entry if vec else im7_entry)(g, sh)
            f, e = e[1], e[0]
            arr = np.array(e['arr'])
            e['arr'] = arr
            # mark each file through one known offset of the intensity scale
            a, b = e['atts']['_SCALE_I'].split('\n')[0].split(' ')
            un = e['atts']['_SCALE_I'].split('\n')[1]
            e['atts']['_SCALE_I'] = '%s %s\n%s\n' % (a, float(b) + i, un)
            if vec:
                sx = -1 if float(e['atts']['_SCALE_X'].split(' ')[0]) < 0 else 1
                sy = -1 if float(e['atts']['_SCALE_Y'].split(' ')[0]) < 0 else 1
                f = f + np.array([sx*i, sy*i], float)
            else:
                f = f + float(i)
            e['atts']['FrameDt0'] = '%s %s' % (dt, ut)
            fs.append(f)
            nm = 'B%05d.%s' % (i, 'vc7' if vec else 'im7')
            R.files[nm] = e
        for i in rng.permutation(n):
            open(os.path.join(d, 'B%05d.%s' % (i, 'vc7' if vec else 'im7')), 'w').close()
        open(os.path.join(d, 'notes.txt'), 'w').close()
        src = d if rng.random() < .6 else [os.path.join(d, nm) for nm in sorted(R.files)]
        r = quiet(imtio.import_from_VC7s if vec else imtio.import_from_IM7s, src, **k)
    want = list(range(st, en, incr))
    if m.check(len(r.fields) == len(want), 'davis-series-count', lambda: '%d want %s' % (len(r.fields), want)):
        m.close(r.times, [dt*incr*(q + 1) for q in range(len(want))], 'davis-series-times')
        m.check(G.si_or_str(r.unit_times) == G.si_or_str(make_unit(ut)), 'davis-series-unit')
        for f, i in zip(r.fields, want):
            placed(m, f, fs[i], sig='davis-series', rtol=1e-9)


@scenario('C16', 200, 4000)
def davis_collections(m):
    """Collections read from folders of buffers (searched for if needed), converted to the native format or not."""
    rng = m.rng
    sh = G.shape(rng, 2, 6)
    n = int(rng.integers(1, 6))
    R = FakeReadIM()
    R.install()
    vec = bool(rng.random() < .5)
    ext = G.pick(rng, ['vc7', 'VC7'] if vec else ['im7', 'IM7'])
    seed = int(rng.integers(1 << 30))
    fs, sups = [], []
    same = bool(rng.random() < .5)
    dt = G.pick(rng, [None, (.5, 's'), (20., 'ms')])
    with Scratch() as d:
        sub = os.path.join(d, G.pick(rng, ['', 'a', os.path.join('a', 'b')]))
        os.makedirs(sub, exist_ok=True)
        for i in range(n):
            g = np.random.default_rng(seed)
            e = (vc7_entry if vec else im7_entry)(g, sh)
            f, e, sup = e[1], e[0], (e[2] if vec else [])
            if not same:
                # each field has its own place
                for a, k in (('_SCALE_X', 0), ('_SCALE_Y', 1)):
                    q, r = e['atts'][a].split('\n', 1)
                    s, o = q.split(' ')
                    e['atts'][a] = '%s %s\n%s' % (s, float(o) + 100.*i*(k + 1), r)
                for h in [f] + sup:
                    h.axe_x = h.axe_x + 100.*i
                    h.axe_y = h.axe_y + 200.*i
            if dt is not None:
                e['atts']['FrameDt0'] = '%s %s' % dt
            fs.append(f)
            sups.append(sup)
            nm = 'B%05d.%s' % (i, ext)
            R.files[nm] = e
        for i in rng.permutation(n):
            open(os.path.join(sub, 'B%05d.%s' % (i, ext)), 'w').close()
        open(os.path.join(d, 'notes.txt'), 'w').close()
        m.case('davis-collections', vec, sh, n, same, dt, os.path.relpath(sub, d))
        # members of a stack are kept without their masked borders
        if any(f.mask.all() for f in fs):
            raise Skip
        cf = [f.crop_masked_border() for f in fs]
        imp = imtio.import_from_VC7s if vec else imtio.import_from_IM7s
        S = 'SVF' if vec else 'SSF'
        r = quiet(imp, d, kind=S)
        m.event('davis-collection:' + S)
        m.check(type(r).__name__ == ('SpatialVectorFields' if vec else 'SpatialScalarFields'), 'davis-collection-kind')
        if m.check(len(r.fields) == n, 'davis-collection-count'):
            for a, b in zip(r.fields, cf):
                placed(m, a, b, sig='davis-collection', rtol=1e-9)
        conv = imtio.VC7_to_imt if vec else imtio.IM7_to_imt
        comp = bool(rng.random() < .5)
        out = os.path.join(d, 'out')
        quiet(conv, sub, out, kind=S, compressed=comp)
        m.event('davis-conversion')
        q = imtio.import_from_file(out + ('.cimt' if comp else '.imt'))
        if m.check(len(q.fields) == n, 'davis-conversion-count'):
            for a, b in zip(q.fields, cf):
                placed(m, a, b, sig='davis-conversion', rtol=1e-9)
        if same:
            quiet(conv, sub, out + 't', kind='T' + S[1:], compressed=comp)
            q = imtio.import_from_file(out + 't' + ('.cimt' if comp else '.imt'))
            d0, u0 = dt or (1., '')
            if m.check(len(q.fields) == n, 'davis-conversion-count'):
                m.close(q.times, d0*np.arange(1, n + 1), 'davis-conversion-times')
                m.check(G.si_or_str(q.unit_times) == G.si_or_str(make_unit(u0)), 'davis-conversion-time-unit')
                for a, b in zip(q.fields, fs):
                    placed(m, a, b, sig='davis-conversion', rtol=1e-9)
            if vec and sups[0] and dt is not None:
                v, ss = quiet(imp, sub, add_fields=True)
                m.event('davis-supplementary')
                if m.check(len(ss) == len(sups[0]) and all(len(s) == n for s in ss) and len(v) == n, 'davis-supplementary-count'):
                    for j, s in enumerate(ss):
                        m.close(s.times, v.times, 'davis-supplementary-times')
                        for i in range(n):
                            placed(m, s.fields[i], sups[i][j], sig='davis-supplementary', rtol=1e-9)
        # one native file by buffer
        os.makedirs(out, exist_ok=True)
        quiet(conv, sub, out, kind='VF' if vec else 'SF', compressed=comp)
        names = sorted(os.listdir(out))
        m.check(names == ['B%05d.%s' % (i, 'cimt' if comp else 'imt') for i in range(n)], 'davis-files-names', lambda: str(names))
        for i, nm in enumerate(names[:n]):
            placed(m, imtio.import_from_file(os.path.join(out, nm)), fs[i], sig='davis-file', rtol=1e-9)
        # and these files gathered again
        open(os.path.join(out, 'notes.txt'), 'w').close()
        imtio.imts_to_imt(out, os.path.join(d, 'all'), S)
        q = imtio.import_from_file(os.path.join(d, 'all.cimt'))
        m.event('gathered-files')
        if m.check(len(q.fields) == n, 'gathered-files-count'):
            for a, b in zip(q.fields, cf):
                placed(m, a, b, sig='gathered-files', rtol=1e-9)
        # files of the other kind are left out
        imtio.imts_to_imt(out, os.path.join(d, 'none'), 'SSF' if vec else 'SVF')
        m.check(len(imtio.import_from_file(os.path.join(d, 'none.cimt')).fields) == 0, 'gathered-files-of-another-kind')


@scenario('C16', 60, 1200)
def critical_points_to_matlab(m):
    """The points, instants, trajectories and units of critical points are found back in the MATLAB file."""
    import scipy.io as spio
    rng = m.rng
    n = int(rng.integers(1, 5))
    c = CritPoints(unit_time=G.pick(rng, ['s', 'ms']))
    ux, uy = G.pick(rng, ['m', 'mm']), G.pick(rng, ['m', 'mm'])
    kinds = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']
    given = []
    for i in range(n):
        kw = {}
        for k in kinds:
            q = int(rng.integers(0, 4))
            if q or rng.random() < .5:
                kw[k] = Points(np.round(rng.normal(size=(q, 2))*10, 3) if q else [], unit_x=ux, unit_y=uy)
        if 'foc' not in kw:
            kw['foc'] = Points(rng.normal(size=(1, 2)), unit_x=ux, unit_y=uy)
        t = i*.5 + .25
        c.add_point(time=t, **kw)
        given.append(kw)
    eps = None
    if rng.random() < .5:
        eps = float(rng.uniform(.5, 5))
        c.compute_traj(epsilon=eps)
    m.case('crit-to-matlab', n, eps, [[len(g[k].xy) if k in g else 0 for k in kinds] for g in given])
    with Scratch() as d:
        p = os.path.join(d, 'c.mat')
        imtio.export_to_matlab(c, p)
        r = spio.loadmat(p, simplify_cells=True)
    m.event('crit-to-matlab')
    m.close(np.atleast_1d(r['times']), c.times, 'crit-to-matlab-times')
    for nm, u in (('unit_time', c.unit_time), ('unit_x', c.unit_x), ('unit_y', c.unit_y)):
        m.check(G.si_or_str(make_unit(str(r[nm]).strip('[]'))) == G.si_or_str(u), 'crit-to-matlab-units')

    def lst(o):
        return [o] if isinstance(o, dict) else list(np.atleast_1d(o))

    def same(o, pts, sig):
        o = next(iter(o.values()))
        m.close(np.reshape(o['xy'], (-1, 2)), pts.xy if len(pts.xy) else np.zeros((0, 2)), sig + '-positions')
        m.close(np.atleast_1d(o['v']) if np.size(o['v']) else np.zeros(0), pts.v if len(pts.v) else np.zeros(0), sig + '-values')
    for k in kinds:
        got = lst(r[k])
        if m.check(len(got) == n, 'crit-to-matlab-instants'):
            for a, b in zip(got, getattr(c, k)):
                same(a, b, 'crit-to-matlab')
        tr = r[k + '_traj']
        if eps is None:
            m.check(str(tr) == 'None', 'crit-to-matlab-no-trajectory')
            continue
        want = list(getattr(c, k + '_traj'))
        got = lst(tr) if np.size(tr) else []
        if m.check(len(got) == len(want), 'crit-to-matlab-trajectories-count', lambda: '%d %d' % (len(got), len(want))):
            for a, b in zip(got, want):
                same(a, b, 'crit-to-matlab-trajectory')
