"""C15: saving and reloading an object is lossless and failure-safe."""
import gc
import os
import resource
import shutil
import signal
import tempfile
import types
import gzip
import numpy as np
import unum
from IMTreatment import file_operation as imtio
from IMTreatment.core import (ScalarField, VectorField, SpatialScalarFields, SpatialVectorFields)
from IMTreatment import vortex_detection as vd
from IMTreatment import vortex_creation as vc
from IMTreatment import pod
from vh.core import scenario, Skip
from vh import gen as G
from vh import ops as O

RULE = ('Random objects of every container class, critical points, modal decompositions, vortex systems and lists of '
        'objects, written and read back under random names; I/O faults: a full device, a file size limit hit at a '
        'random byte, missing directories, directories in place of files, truncated, corrupted and foreign files, '
        'objects that cannot be written.')
ASSUMPTIONS = ['faults are produced by the operating system (ENOSPC, EFBIG, ENOENT, EISDIR) or by damaged files; a '
               'corrupted uncompressed file may decode to another valid object and is not decided']


def deep(o, memo=None, depth=0):
    """Full state of an object as nested plain data."""
    memo = {} if memo is None else memo
    if o is None or isinstance(o, (str, bool, bytes, type, types.FunctionType, types.BuiltinFunctionType)):
        return ('c', o)
    if isinstance(o, unum.Unum):
        return ('u', (o._value, tuple(sorted(o._unit.items()))))
    if isinstance(o, (int, float, complex, np.number, np.bool_)):
        return ('n', np.array(o))
    if isinstance(o, np.ma.MaskedArray):
        return ('l', [('a', np.array(o.data)), ('a', np.array(np.ma.getmaskarray(o)))])
    if isinstance(o, np.ndarray) and o.dtype != object:
        return ('a', np.array(o))
    if id(o) in memo:
        return ('c', 'ref%d' % memo[id(o)])
    memo[id(o)] = len(memo)
    if isinstance(o, np.ndarray):
        return ('l', [deep(e, memo, depth + 1) for e in o.ravel()])
    if isinstance(o, (list, tuple)):
        return ('l', [deep(e, memo, depth + 1) for e in o])
    if isinstance(o, dict):
        return ('d', {str(k): deep(o[k], memo, depth + 1) for k in sorted(o, key=str)})
    if hasattr(o, '__dict__') and type(o).__module__.startswith('IMTreatment'):
        return (type(o).__name__, {k: deep(o.__dict__[k], memo, depth + 1) for k in sorted(o.__dict__)})
    return ('c', type(o).__name__)


def critpoints(rng):
    import contextlib
    import io
    cp = vd.CritPoints(unit_time=G.pick(rng, ['s', 'ms']))
    n = int(rng.integers(1, 4))
    u, w = G.pick(rng, G.LEN), G.pick(rng, ['', 's'])
    for i in range(n):
        p = [G.points(rng, lo=1, hi=4, withv=False, units=(u, u, w)) for _ in range(5)]
        cp.add_point(*p, time=float(i))
    if rng.random() < .5 and n > 1:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                cp.compute_traj(epsilon=1.)
            except Exception:
                pass
    return cp


def make(rng):
    kind = G.pick(rng, O.KINDS + ['cp', 'sys', 'modal', 'list', 'ssf', 'svf', 'sf', 'vf', 'intsf', 'number'])
    if kind == 'cp':
        return kind, critpoints(rng)
    if kind == 'sys':
        s = vc.VortexSystem()
        for i in range(int(rng.integers(1, 4))):
            v = G.pick(rng, [vc.FreeVortex, vc.SolidVortex, vc.RankineVortex, vc.LambOseenVortex])(
                x0=float(rng.normal()), y0=float(rng.normal()))
            s.add_vortex(v)
        s.add_wall(vc.Wall(x=-3.))
        return kind, s
    if kind == 'modal':
        t = G.tf(rng, kind=G.pick(rng, ['s', 'v']), lo=3, hi=6, maskkind='none')
        return kind, pod.modal_decomposition(t, kind='pod')
    if kind == 'list':
        return kind, [O.make(rng) for _ in range(2)]
    if kind in ('ssf', 'svf'):
        o = SpatialScalarFields() if kind == 'ssf' else SpatialVectorFields()
        f = (G.sf if kind == 'ssf' else G.vf)(rng, maskkind='none')
        o.add_field(f)
        g = f.copy()
        g.axe_x = g.axe_x + 3.
        o.add_field(g)
        return kind, o
    if kind == 'intsf':
        f = ScalarField()
        sh = G.shape(rng, 2, 5)
        f.import_from_arrays(G.axis(rng, sh[0]), G.axis(rng, sh[1]), rng.integers(0, 200, sh), dtype=np.uint8)
        return kind, f
    if kind == 'number':
        return kind, G.pick(rng, [3.5, dict(a=1, b=[1, 2]), np.arange(4.), 'text'])
    o = O.make(rng, kind)
    if kind in ('sf', 'vf') and rng.random() < .3:
        o.xy_scale = unum.Unum.coerceToUnum(2.)
    return kind, o


def name(rng):
    return G.pick(rng, ['a', 'field_01', 'run.v2', 'mon fichier', 'x.imt', 'x.cimt', 'Été', '.hidden', 'a.b.c', 'A.IMT'])


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vc15')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def nfd():
    return len(os.listdir('/proc/self/fd'))


class State:
    """Interpreter state that a call has to leave alone."""

    def __init__(self, rng, m):
        self.m = m
        self.off = bool(rng.random() < .2)
        if self.off:
            gc.disable()
        self.s = (gc.isenabled(), os.getcwd(), nfd())

    def done(self, sig):
        s = (gc.isenabled(), os.getcwd(), nfd())
        self.m.check(s[0] == self.s[0], 'garbage-collector-state#' + sig, '%s -> %s' % (self.s[0], s[0]))
        self.m.check(s[1] == self.s[1], 'working-directory#' + sig)
        if s[2] != self.s[2]:
            gc.collect()
            s = (0, 0, nfd())
        self.m.check(s[2] <= self.s[2], 'file-left-open#' + sig, '%d -> %d' % (self.s[2], s[2]))
        gc.enable()


def where(d, nm, comp):
    ext = '.cimt' if comp else '.imt'
    return os.path.join(d, nm if os.path.splitext(nm)[1] == ext else nm + ext)


def same(m, a, b, sig):
    m.check(type(a) is type(b), sig + '-type', lambda: '%s %s' % (type(a), type(b)))
    d = G.diff(deep(b), deep(a))
    m.check(d is None, sig, d)
    d = G.diff(G.snap(b), G.snap(a))
    m.check(d is None, sig + '-observed', d)


@scenario('C15', 900, 20000)
def round_trip(m):
    rng = m.rng
    kind, o = make(rng)
    comp = bool(rng.random() < .5)
    nm = name(rng)
    m.case(kind, G.tdesc(o), nm, comp)
    m.event('kind:' + kind)
    before = deep(o)
    with Scratch() as d:
        sub = d
        if rng.random() < .4:
            sub = os.path.join(d, 'd 1', 'é')
            os.makedirs(sub)
        p = os.path.join(sub, nm)
        rel = rng.random() < .2
        st = State(rng, m)
        if rel:
            old = os.getcwd()
            os.chdir(sub)
            p = G.pick(rng, [nm, './' + nm, '../' + os.path.basename(sub) + '/' + nm])
        try:
            if comp and rng.random() < .5:
                imtio.export_to_file(o, p)
            else:
                imtio.export_to_file(o, p, compressed=comp)
        finally:
            if rel:
                os.chdir(old)
        st.done('export')
        f = where(sub, nm, comp)
        m.check(os.listdir(sub) == [os.path.basename(f)], 'file-name', lambda: '%s in %s' % (f, os.listdir(sub)))
        m.check(G.diff(deep(o), before) is None, 'export-changed-the-object')
        st = State(rng, m)
        r = imtio.import_from_file(f)
        st.done('import')
        same(m, o, r, 'reloaded')
        # reading again, and writing again over the file, gives the same object
        imtio.export_to_file(r, f, compressed=comp)
        same(m, o, imtio.import_from_file(f), 'reloaded-twice')
        # over an unrelated larger or smaller object
        imtio.export_to_file(np.zeros(int(rng.integers(1, 4000))), f, compressed=comp)
        imtio.export_to_file(o, f, compressed=comp)
        same(m, o, imtio.import_from_file(f), 'overwritten')


class Unwritable:
    def __init__(self, o):
        self.o = o
        self.f = lambda: 0


def attempt(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'refused', type(e).__name__


@scenario('C15', 900, 20000)
def failed_exports(m):
    rng = m.rng
    kind, o = make(rng)
    comp = bool(rng.random() < .5)
    fault = G.pick(rng, ['enospc', 'efbig', 'efbig', 'nodir', 'isdir', 'unwritable', 'badpath', 'badflag'])
    m.case(kind, G.tdesc(o), fault, comp)
    before = deep(o)
    with Scratch() as d:
        p = os.path.join(d, 'a')
        f = where(d, 'a', comp)
        what = o
        lim = None
        if fault == 'enospc':
            os.symlink('/dev/full', f)
        elif fault == 'efbig':
            os.mkdir(os.path.join(d, 'r'))
            imtio.export_to_file(o, os.path.join(d, 'r', 'a'), compressed=comp)
            n = os.path.getsize(where(os.path.join(d, 'r'), 'a', comp)) - 8*comp
            lim = int(rng.integers(0, n))
        elif fault == 'nodir':
            p = os.path.join(d, 'no', 'a')
        elif fault == 'isdir':
            os.mkdir(f)
        elif fault == 'unwritable':
            what = [o, Unwritable(o)] if rng.random() < .5 else Unwritable(o)
        st = State(rng, m)
        if lim is not None:
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            osig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
        try:
            if fault == 'badpath':
                w, r = attempt(lambda: imtio.export_to_file(what, G.pick(rng, [3, None, 2.5]), compressed=comp))
            elif fault == 'badflag':
                w, r = attempt(lambda: imtio.export_to_file(what, p, compressed='yes'))
            else:
                w, r = attempt(lambda: imtio.export_to_file(what, p, compressed=comp))
        finally:
            if lim is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
                signal.signal(signal.SIGXFSZ, osig)
        m.event('fault:%s:%s' % (fault, w))
        m.check(w == 'refused', 'failed-export-is-silent#' + fault, 'fault %s at %s' % (fault, lim))
        st.done('export-' + fault)
        m.check(G.diff(deep(o), before) is None, 'failed-export-changed-the-object#' + fault)
        # what is left on disk never reads back as something else
        if fault in ('efbig', 'unwritable') and os.path.isfile(f):
            w, r = attempt(lambda: imtio.import_from_file(f))
            m.check(w == 'refused' or G.diff(deep(r), before) is None, 'partial-file-read-as-another-object')
        # and the next export works
        if fault in ('efbig', 'unwritable', 'badflag', 'badpath'):
            imtio.export_to_file(o, p, compressed=comp)
            same(m, o, imtio.import_from_file(f), 'export-after-failure')


@scenario('C15', 700, 15000)
def failed_imports(m):
    rng = m.rng
    kind, o = make(rng)
    comp = bool(rng.random() < .5)
    fault = G.pick(rng, ['truncated', 'truncated', 'garbage', 'empty', 'missing', 'extension', 'isdir', 'wrongkind',
                         'corrupt', 'badpath'])
    m.case(kind, fault, comp)
    with Scratch() as d:
        f = where(d, 'a', comp)
        imtio.export_to_file(o, f, compressed=comp)
        data = open(f, 'rb').read()
        if fault == 'truncated':
            n = int(rng.integers(0, len(data)))
            m.case(n, len(data))
            open(f, 'wb').write(data[:n])
        elif fault == 'garbage':
            open(f, 'wb').write(b'\xff' + bytes(rng.integers(0, 256, 50).astype(np.uint8)))
        elif fault == 'empty':
            open(f, 'wb').close()
        elif fault == 'missing':
            f = where(d, 'b', comp)
        elif fault == 'extension':
            os.rename(f, os.path.join(d, 'a.txt'))
            f = os.path.join(d, 'a.txt')
        elif fault == 'isdir':
            os.remove(f)
            os.mkdir(f)
        elif fault == 'wrongkind':
            g = where(d, 'a', not comp)
            if comp:
                open(g, 'wb').write(data)
            else:
                open(g, 'wb').write(data)
            f = g
        elif fault == 'corrupt':
            if not comp:
                raise Skip
            b = bytearray(data)
            i = int(rng.integers(12 if len(b) > 40 else 0, len(b)))
            b[i] ^= 1 << int(rng.integers(8))
            open(f, 'wb').write(bytes(b))
        elif fault == 'badpath':
            f = 3
        st = State(rng, m)
        w, r = attempt(lambda: imtio.import_from_file(f))
        m.event('fault:%s:%s' % (fault, w))
        if fault == 'corrupt':
            # either noticed or harmless (a bit of the header that carries no data)
            m.check(w == 'refused' or G.diff(deep(r), deep(o)) is None, 'corruption-read-as-another-object')
        else:
            m.check(w == 'refused', 'failed-import-is-silent#' + fault, lambda: repr(r))
        st.done('import-' + fault)


@scenario('C15', 150, 3000)
def concatenation(m):
    """imts_to_imt gathers the fields of a folder in file order."""
    rng = m.rng
    kind = G.pick(rng, ['TSF', 'TVF'])
    t = G.tf(rng, kind='s' if kind == 'TSF' else 'v', lo=2, hi=7)
    m.case(kind, G.tdesc(t))
    with Scratch() as d:
        src = os.path.join(d, 'src')
        os.mkdir(src)
        for i in rng.permutation(len(t.fields)):
            imtio.export_to_file(t.fields[i], os.path.join(src, 'f_%03d' % i), compressed=bool(rng.random() < .5))
        if rng.random() < .5:
            imtio.export_to_file(G.profile(rng), os.path.join(src, 'f_001b'))
            open(os.path.join(src, 'notes.txt'), 'w').write('x')
        # mixed extensions sort by name first
        imtio.imts_to_imt(src, os.path.join(d, 'all'), kind)
        r = imtio.import_from_file(os.path.join(d, 'all.cimt'))
        m.check(type(r) is type(t) and len(r.fields) == len(t.fields), 'concatenated-count')
        for a, b in zip(r.fields, t.fields):
            x = G.diff(G.snap(a), G.snap(b))
            m.check(x is None, 'concatenated-order', x)
