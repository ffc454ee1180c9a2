"""C27: units, cache, file sets and console helpers."""
import builtins, contextlib, gzip, io, os, pickle, re, shutil, tempfile, time, warnings
import numpy as np
import unum, unum.units as UN
from IMTreatment.utils import make_unit, Files, remove_files_in_dirs, ProgressCounter, RemoveFortranOutput, memoize_to_file
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Generated unit expressions evaluated independently from a table of scales and dimensions; histories of calls of cached '
        'functions over several lives of the cache file (also truncated or corrupted); random directory trees of scratch folders '
        'listed, selected and deleted with the deleting system calls recorded.')
ASSUMPTIONS = ['products, quotients, integer powers and parentheses of known unit names; no call in an expression',
               'one cache file per function, results that can be pickled',
               'depth 0 and the content of the folders of the first level count as the same depth',
               'no folder is called "files" and no path is listed twice']

# scale in SI, dimension
T = {'m': (1., 'L'), 'mm': (1e-3, 'L'), 'cm': (1e-2, 'L'), 'km': (1e3, 'L'), 'um': (1e-6, 'L'), 's': (1., 'T'), 'ms': (1e-3, 'T'), 'us': (1e-6, 'T'),
     'min': (60., 'T'), 'h': (3600., 'T'), 'kg': (1., 'M'), 'g': (1e-3, 'M'), 'K': (1., 'K'), 'A': (1., 'A')}
D = {'N': (1., {'M': 1, 'L': 1, 'T': -2}), 'Pa': (1., {'M': 1, 'L': -1, 'T': -2}), 'bar': (1e5, {'M': 1, 'L': -1, 'T': -2}),
     'J': (1., {'M': 1, 'L': 2, 'T': -2}), 'W': (1., {'M': 1, 'L': 2, 'T': -3}), 'Hz': (1., {'T': -1})}


def atom(rng):
    if rng.random() < .8:
        n = G.pick(rng, sorted(T))
        return n, T[n][0], {T[n][1]: 1}
    n = G.pick(rng, sorted(D))
    return n, D[n][0], dict(D[n][1])


def comb(a, b, s):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + s*v
    return {k: v for k, v in d.items() if v}


def expr(rng, depth=0):
    """(text, scale, dimension)"""
    n = int(rng.integers(1, 4))
    sp = G.pick(rng, ['', '', ' '])
    out, sc, dm = '', 1., {}
    for i in range(n):
        if depth < 2 and rng.random() < .25:
            t, a, d = expr(rng, depth + 1)
            t = '(' + t + ')'
        else:
            t, a, d = atom(rng)
        if rng.random() < .3:
            p = int(rng.choice([-3, -2, -1, 2, 3]))
            t += sp + G.pick(rng, ['**', '^']) + sp + (str(p) if rng.random() < .7 else '(%d)' % p)
            a, d = a**p, {k: v*p for k, v in d.items()}
        if i == 0:
            if rng.random() < .1:
                out, sc, dm = '1' + sp + '/' + sp + t, 1/a, comb({}, d, -1)
            else:
                out, sc, dm = t, a, d
        elif rng.random() < .5:
            out, sc, dm = out + sp + '*' + sp + t, sc*a, comb(dm, d, 1)
        else:
            out, sc, dm = out + sp + '/' + sp + t, sc/a, comb(dm, d, -1)
    return out, sc, dm


SI = {'L': UN.m, 'T': UN.s, 'M': UN.kg, 'K': UN.K, 'A': UN.A}


@scenario('C27', 300)
def units(m):
    rng = m.rng
    t, a, d = expr(rng)
    m.case(t)
    m.event('unit')
    u = make_unit(t)
    ref = unum.Unum({})
    for k, v in d.items():
        ref = ref*SI[k]**v
    try:
        got = (u/ref).asNumber() if True else None
        ok = True
        (u/ref).copy(True).checkNoUnit()
    except unum.ShouldBeUnitlessError:
        got, ok = 0., False
    m.check(ok, 'dimension-of-the-unit', lambda: '%s -> %s' % (t, u))
    if ok:
        m.close(got, a, 'scale-of-the-unit', rtol=1e-9, detail=t)
    # same text, same unit: nothing kept from one call to the next
    v = make_unit(t)
    m.close((v/u).asNumber(), 1., 'unit-of-the-same-text')
    w = v*3
    del w
    m.close((make_unit(t)/u).asNumber(), 1., 'unit-of-the-same-text')
    e = make_unit('')
    m.check(isinstance(e, unum.Unum) and e.asNumber() == 1, 'no-unit')


@scenario('C27', 60)
def unit_texts(m):
    """Names of the unit library, and text that is no unit."""
    rng = m.rng
    names = [n for n in dir(UN) if isinstance(getattr(UN, n), unum.Unum) and n != 'rem']
    for n in rng.choice(names, 12):
        n = str(n)
        m.event('name')
        m.check(make_unit(n) == getattr(UN, n), 'name-of-the-unit-library', n)
    for bad in ('m*', '/s', 'm s', 'nosuchunit', 'm/nosuchunit', 'm)', '(m', 'm**', '[m]]'):
        m.event('not-a-unit')
        m.raises(lambda: make_unit(bad), 'text-that-is-no-unit#' + bad)
    # no code
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x')
        seen = []
        builtins.vh_probe = lambda *a: seen.append(a) or UN.m
        try:
            for code in ('vh_probe()', 'm*vh_probe()', 'm * vh_probe ()', '(vh_probe)()', 'm;vh_probe()', '[vh_probe][0]()',
                         'm*(s/vh_probe(2))', 'import os', 'm\nvh_probe()'):
                m.event('code')
                m.raises(lambda: make_unit(code), 'code-in-a-unit')
            m.check(not seen, 'code-in-a-unit-was-run', seen)
        finally:
            del builtins.vh_probe


def value(rng, depth=0):
    k = int(rng.integers(0, 8 if depth < 2 else 5))
    if k == 0:
        return int(rng.integers(-5, 5))
    if k == 1:
        return float(np.round(rng.normal(), 2))
    if k == 2:
        return str(rng.choice(['a', 'b', 'ab', '', 'a,b', '1']))
    if k == 3:
        return bool(rng.random() < .5)
    if k == 4:
        return None
    if k == 5:
        return [value(rng, depth + 1) for _ in range(int(rng.integers(0, 3)))]
    if k == 6:
        return tuple(value(rng, depth + 1) for _ in range(int(rng.integers(0, 3))))
    return {str(i): value(rng, depth + 1) for i in range(int(rng.integers(0, 3)))}


@scenario('C27', 80)
def cache(m):
    rng = m.rng
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'cache')
        calls = []

        def plain(*a, **k):
            return ['r', repr(a), repr(sorted(k.items())), [1, 2]]

        def counted(*a, **k):
            calls.append((a, k))
            return plain(*a, **k)
        f = memoize_to_file(path)(counted)
        pool = [(tuple(value(rng) for _ in range(int(rng.integers(0, 3)))), {c: value(rng) for c in 'xyz' if rng.random() < .3}) for _ in range(6)]
        pool += [((1,), {}), ((True,), {}), ((1.,), {}), (('1',), {}), ((1, 2), {}), (((1, 2),), {}), (([1, 2],), {}), ((), {'x': 1}), ((np.arange(3),), {}),
                 ((np.arange(4),), {})]
        done = set()
        for step in range(int(rng.integers(5, 25))):
            r = rng.random()
            if r < .12:
                # another process: the file is read again
                f = memoize_to_file(path)(counted)
                m.event('cache:read-again')
                continue
            if r < .2 and os.path.exists(path):
                # interrupted write, damaged file
                with open(path, 'rb') as g:
                    b = g.read()
                how = G.pick(rng, ['cut', 'empty', 'text'])
                b = {'cut': b[:int(rng.integers(0, len(b) + 1))], 'empty': b'', 'text': b'not a cache'}[how]
                with open(path, 'wb') as g:
                    g.write(b)
                m.event('cache:' + how)
                f = memoize_to_file(path)(counted)
                done = set()
                continue
            a, k = pool[int(rng.integers(len(pool)))]
            key = repr((a, sorted(k.items())))
            n = len(calls)
            got = f(*a, **k)
            m.event('cache:call')
            m.check(got == plain(*a, **k), 'result-of-the-cached-function', lambda: '%s %s: %s' % (a, k, got))
            if key in done:
                m.check(len(calls) == n, 'cached-call-computed-again', key)
            done.add(key)
            if rng.random() < .4:
                # the caller owns the result
                got[3].append(99)
                got[0] = 'changed'
        m.check(f(*a, **k) == plain(*a, **k), 'result-of-the-cached-function#last') if 'a' in locals() else None
        # a failing function stays failing and caches nothing
        g = memoize_to_file(os.path.join(d, 'other'))(lambda x: 1/x)
        m.raises(lambda: g(0), 'error-hidden-by-the-cache')
        m.raises(lambda: g(0), 'error-hidden-by-the-cache')
        m.close(g(4), .25, 'result-of-the-cached-function#after-an-error')


class Guard(object):
    """Scratch directory, answers to prompts, deletions recorded and kept inside."""

    def __init__(self, rng, answers):
        self.answers = list(answers)
        self.rng = rng
        self.escapes = []

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp())
        self.old = os.remove, os.rmdir, shutil.rmtree, builtins.input, os.unlink
        rem, rmd, tree = os.remove, os.rmdir, shutil.rmtree

        def inside(p):
            p = os.path.realpath(p)
            ok = p.startswith(self.dir + os.sep)
            if not ok:
                self.escapes.append(p)
            return ok

        def wrap(f):
            def g(p, *a, **k):
                if 'dir_fd' not in k and not inside(p):
                    raise OSError('outside of the scratch directory: %s' % p)
                return f(p, *a, **k)
            return g
        os.remove, os.rmdir = wrap(rem), wrap(rmd)

        def safe_tree(p, *a, **k):
            if not inside(p):
                raise OSError('outside of the scratch directory: %s' % p)
            os.remove, os.rmdir = rem, rmd
            try:
                return tree(p, *a, **k)
            finally:
                os.remove, os.rmdir = wrap(rem), wrap(rmd)
        shutil.rmtree = safe_tree
        builtins.input = lambda *a: self.answers.pop(0)
        return self

    def __exit__(self, *e):
        os.remove, os.rmdir, shutil.rmtree, builtins.input, os.unlink = self.old
        shutil.rmtree(self.dir, ignore_errors=True)


def grow(rng, top):
    dirs, files = [], []
    nm = ['a', 'b', 'im1', 'im_2', 'x.d', 'run10', 'run2']
    todo = [(top, 0)]
    while todo:
        p, d = todo.pop()
        for _ in range(int(rng.integers(0, 4))):
            q = os.path.join(p, str(rng.choice(['f%d.txt' % i for i in range(4)] + ['im%03d.png' % i for i in range(4)] + ['data', '.hid'])))
            if not os.path.exists(q):
                open(q, 'w').close()
                files.append(q)
        if d < 4:
            for n in rng.choice(nm, int(rng.integers(0, 3)), replace=False):
                q = os.path.join(p, str(n))
                if not os.path.exists(q):
                    os.mkdir(q)
                    dirs.append(q)
                    todo.append((q, d + 1))
    return dirs, files


def tree_of(top):
    out = set()
    for r, ds, fs in os.walk(top):
        out |= set(os.path.join(r, q) for q in ds + fs)
    return out


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


REG = ['.*', r'.*\.txt$', r'.*im\d+\.png', '.*run', '.*/a$', '.*/a/.*', r'.*f[12]\.txt', '.*nothing']


@scenario('C27', 120)
def file_sets(m):
    rng = m.rng
    with Guard(rng, []) as g:
        dirs, files = grow(rng, g.dir)
        reg = g.dir + '/' + G.pick(rng, REG) if rng.random() < .5 else G.pick(rng, REG)
        lf, ld = bool(rng.random() < .7), bool(rng.random() < .7)
        depth = G.pick(rng, ['all', 'all', 0, 1, 2])
        F = Files()
        F.load_files_from_regex(g.dir + ('/' if rng.random() < .3 else ''), reg, load_files=lf, load_dirs=ld, depth=depth)

        def level(p):
            # depth of the folder holding it: the root and its folders are both 0
            r = os.path.relpath(os.path.dirname(p), g.dir)
            return 0 if r == '.' else r.count(os.sep)
        want = [(p, True) for p in dirs if ld] + [(p, False) for p in files if lf]
        want = [(p, q) for p, q in want if re.match(reg, p) and (depth == 'all' or level(p) <= depth)]
        m.case(reg[-8:], lf, ld, depth, len(want))
        m.event('selection', len(want))
        m.check(sorted(zip(F.paths, F.isdir)) == sorted(want), 'selected-files', lambda: '%s %s' % (sorted(F.paths), sorted(want)))
        m.check(len(F.exist) == len(F.paths) and all(F.exist), 'selected-files-exist')
        m.check(tree_of(g.dir) == set(dirs) | set(files), 'selection-changed-the-files')
        # history of changes of the list (nothing on the disk)
        ref = list(zip(F.paths, F.exist, F.isdir))
        for _ in range(int(rng.integers(1, 6))):
            k = G.pick(rng, ['int', 'npint', 'ints', 'regex', 'regexes', 'add', 'new', 'sum', 'copy'])
            n = len(ref)
            m.event('list:' + k)
            if k in ('int', 'npint') and n:
                i = int(rng.integers(n))
                F.remove_files(i if k == 'int' else np.int64(i))
                del ref[i]
            elif k == 'ints' and n:
                ii = sorted(rng.permutation(n)[:int(rng.integers(1, n + 1))].tolist(), key=lambda q: rng.random())
                F.remove_files(ii if rng.random() < .5 else np.array(ii))
                ref = [r for i, r in enumerate(ref) if i not in ii]
            elif k == 'regex':
                q = G.pick(rng, REG[1:])
                quiet(F.remove_files, q)
                ref = [r for r in ref if not re.match(q, r[0])]
            elif k == 'regexes':
                q = [G.pick(rng, REG[1:]) for _ in range(2)]
                quiet(F.remove_files, q)
                ref = [r for r in ref if not any(re.match(w, r[0]) for w in q)]
            elif k == 'add' and dirs + files:
                p = G.pick(rng, dirs + files)
                F.add_file(p)
                ref.append((p, True, p in dirs))
            elif k == 'new':
                p = os.path.join(g.dir, 'new%d' % int(rng.integers(100)))
                F.add_file(p)
                ref.append((p, False, None))
                m.raises(lambda: F.add_file(os.path.join(g.dir, 'no', 'such', 'folder')), 'file-of-a-missing-folder')
            elif k == 'sum':
                H = Files()
                H.load_files_from_regex(g.dir, r'.*\.txt$')
                b = list(H.paths)
                S = F + H
                m.check(list(F.paths) == [r[0] for r in ref] and H.paths == b, 'sum-changed-its-terms')
                m.check(S.paths == [r[0] for r in ref] + b, 'sum-of-lists')
                m.check(len(S.exist) == len(S.paths) == len(S.isdir), 'sum-of-lists')
            elif k == 'copy':
                C = F.copy()
                C.paths.append('x')
                C.exist.append(False)
            m.check(list(zip(F.paths, F.exist, F.isdir)) == ref, 'list-of-files#' + k, lambda: '%s %s' % (list(zip(F.paths, F.exist, F.isdir)), ref))
        m.check(tree_of(g.dir) == set(dirs) | set(files), 'list-changed-the-files')
        # tree
        if all(r[1] for r in ref) and len(set(r[0] for r in ref)) == len(ref):
            F.build_tree()
            seen = []

            def walk(t, p):
                for key, v in t.items():
                    if key == 'files':
                        seen.extend(p + (q,) for q in v)
                    else:
                        walk(v, p + (key,))
            walk(F.tree, ())
            m.check(sorted('/'.join(q) for q in seen) == sorted(r[0] for r in ref if not r[2]), 'tree-of-the-files')
            m.check(isinstance(repr(F), str), 'representation')
        m.check(not g.escapes, 'deleted-outside')


@scenario('C27', 120)
def deletion(m):
    rng = m.rng
    say = G.pick(rng, ['y', 'o', 'Yes', 'oui', 'n', 'No', 'non', 'what'])
    second = G.pick(rng, ['y', 'n'])
    yes = say in ('y', 'o', 'Yes', 'oui')
    with Guard(rng, [say] + (['n'] if say == 'what' else []) + [second]*50) as g:
        dirs, files = grow(rng, g.dir)
        kind = G.pick(rng, ['files', 'dirs', 'both'])
        reg = G.pick(rng, REG)
        F = Files()
        F.load_files_from_regex(g.dir, reg, load_files=kind != 'dirs', load_dirs=kind != 'files')
        if rng.random() < .3 and len(F.paths) > 1:
            F.paths, F.isdir, F.exist = [list(q) for q in zip(*[r for r in sorted(zip(F.paths, F.isdir, F.exist), key=lambda q: rng.random())])]
        if not F.paths:
            raise Skip
        if rng.random() < .3:
            F.add_file(os.path.join(g.dir, 'future'))
        rec = bool(rng.random() < .5)
        before = tree_of(g.dir)
        sel = set(p for p, e in zip(F.paths, F.exist) if e)
        sd = set(p for p, d in zip(F.paths, F.isdir) if d)
        m.case(kind, reg, rec, say, second, len(sel))
        m.event('deletion:%s:%s' % (kind, 'yes' if yes else 'no'), len(sel))
        quiet(F.delete_existing_files, recursive=rec)
        after = tree_of(g.dir)
        m.check(not g.escapes, 'deleted-outside', g.escapes)
        if not yes:
            m.check(after == before, 'deleted-though-refused', before - after)
            return
        under = set(p for p in before if any(p.startswith(d + os.sep) for d in sd))
        gone = before - after
        m.check(not (after - before), 'files-created')
        m.check(gone <= sel | under, 'deleted-other-files', gone - sel - under)
        m.check(not ((sel - sd) & after), 'selected-files-not-deleted', (sel - sd) & after)
        if rec or second == 'y':
            m.check(gone == sel | under, 'selected-folders-not-deleted', (sel | under) - gone)
        else:
            # only empty folders go: what is not selected stays
            m.check(gone <= sel, 'deleted-other-files#declined', gone - sel)
            for d in sd:
                empty = not any(p.startswith(d + os.sep) and p not in sel for p in before)
                m.check((d in gone) == empty, 'empty-folders', d)


@scenario('C27', 60)
def old_deletion(m):
    rng = m.rng
    say = G.pick(rng, ['y', 'n'])
    with Guard(rng, [say]*3) as g:
        dirs, files = grow(rng, g.dir)
        dr, fr = G.pick(rng, ['.*', '.*/a$', '.*run', '.*/b']), G.pick(rng, ['.*', r'f\d\.txt', r'im.*\.png', 'data', 'nothing'])
        before = tree_of(g.dir)
        sel = set(f for f in files if re.match(dr, os.path.dirname(f)) and re.match(fr, os.path.basename(f)))
        m.event('old-deletion', len(sel))
        quiet(remove_files_in_dirs, g.dir, dr, fr)
        m.check(not g.escapes, 'deleted-outside', g.escapes)
        m.check(tree_of(g.dir) == (before - sel if say == 'y' else before), 'deleted-files-of-the-old-helper')


@scenario('C27', 80)
def progress(m):
    rng = m.rng
    n = int(rng.integers(1, 60))
    pi = float(rng.choice([1, 5, 10, 25, 50, 100]))
    dt = float(10**rng.uniform(-3, 5.5))
    bar = int(rng.integers(5, 40))
    now = [1e9]
    old = time.time
    out = io.StringIO()
    try:
        time.time = lambda: now[0]
        pc = ProgressCounter('begin', n, end_mess='over', name_things='bits', perc_interv=pi, pgbar_len=bar)
        with contextlib.redirect_stdout(out):
            for _ in range(n):
                pc.print_progress()
                now[0] += dt
    finally:
        time.time = old
    txt = out.getvalue()
    m.event('progress', n)
    m.check(txt.count('begin') == 1 and txt.count('over') == 1, 'messages')
    lines = re.findall(r'\[(#*)(\.*)\] (\d+)%\s+(\d+)/(\d+) bits\s+(\S+)/(\S+)', txt)
    step = max(1, int(n*pi/100.))
    want = [i for i in range(1, n + 1) if i % step == 0 or i == n]
    m.check([int(q[3]) for q in lines] == want, 'counted', lambda: '%s %s' % ([q[3] for q in lines], want))

    def seconds(t):
        r = re.match(r'^(?:(\d+)j)?(?:(\d+)h)?(?:(\d+)mn)?(\d+)s$', t)
        if r:
            a = [int(q or 0) for q in r.groups()]
            return ((a[0]*24 + a[1])*60 + a[2])*60 + a[3], 1.
        r = re.match(r'^(\d+)ms$', t)
        return (int(r.group(1))*1e-3, 1.1e-3) if r else (np.nan, 0)
    for h, d, p, i, N, t, e in lines:
        i = int(i)
        m.check(int(N) == n and abs(int(p) - 100.*i/n) <= .51, 'percentage')
        m.check(len(h) + len(d) == bar and abs(len(h) - bar*i/n) <= 1 + bar*.006, 'bar', '%s %s' % (len(h), bar*i/n))
        el = (i - 1)*dt
        a, tol = seconds(t)
        m.check(abs(a - el) <= tol + 1e-9*el, 'elapsed-time', lambda: '%s for %s s' % (t, el))
        a, tol = seconds(e)
        m.check(abs(a - el/i*n) <= tol + 1e-6*el*n, 'expected-time', lambda: '%s for %s s' % (e, el/i*n))


@scenario('C27', 20)
def hidden_output(m):
    """The output of compiled code is hidden, then restored; no file descriptor is kept."""
    def fds():
        return len(os.listdir('/proc/self/fd'))
    with tempfile.TemporaryFile() as f:
        keep = os.dup(1), os.dup(2)
        try:
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            n = fds()
            for k in range(4):
                os.write(1, b'<o%d>' % k)
                os.write(2, b'<e%d>' % k)
                try:
                    with RemoveFortranOutput():
                        os.write(1, b'HIDDEN')
                        os.write(2, b'HIDDEN')
                        if k == 2:
                            raise KeyError
                except KeyError:
                    pass
            left = fds() - n
        finally:
            os.dup2(keep[0], 1)
            os.dup2(keep[1], 2)
            os.close(keep[0])
            os.close(keep[1])
        f.seek(0)
        b = f.read()
    m.event('hidden-output')
    m.check(b == b''.join(b'<o%d><e%d>' % (k, k) for k in range(4)), 'output', b)
    m.check(left == 0, 'file-descriptors-left-open', left)


@scenario('C27', 80)
def folders_holding(m):
    """Search of the folders that hold a file matching one of the expressions."""
    from IMTreatment.file_operation.file_operation import find_file_in_path
    rng = m.rng
    with Guard(rng, []) as g:
        dirs, files = grow(rng, g.dir)
        regs = [G.pick(rng, [r'.*\.txt', r'im\d+', r'f[12]\.txt$', 'data$', r'\.hid', 'txt', 'nothing']) for _ in range(int(rng.integers(1, 3)))]
        want = sorted(set(os.path.dirname(p) for p in files if any(re.match(r, os.path.basename(p)) for r in regs)))
        m.case('folders', regs, len(dirs), len(files))
        m.event('folders-found', len(want))
        m.event('folders-without-files', sum(not any(os.path.dirname(p) == d for p in files) for d in dirs + [g.dir]))
        got = quiet(find_file_in_path, regs, g.dir)
        m.check(sorted(got) == want, 'folders-holding-a-match', lambda: '%s: %s want %s' % (regs, got, want))
        m.raises(lambda: quiet(find_file_in_path, regs, os.path.join(g.dir, 'not-there')), 'missing-root-refused')
        if len(want) > 1:
            k = int(rng.integers(1, len(want) + 1))
            answers = iter(['0', 'no', str(k)] if rng.random() < .5 else [str(k)])
            old = builtins.input
            builtins.input = lambda *a: next(answers)
            try:
                one = quiet(find_file_in_path, regs, g.dir, ask=True)
            finally:
                builtins.input = old
            m.check(list(one) == [got[k - 1]], 'asked-folder', lambda: '%s: %s of %s' % (k, one, got))
            m.event('asked')
