"""Development tool: mutation campaign against the monitors (in memory, nothing is written to the repository).

  mutate.py cov            which lines of the library each scenario runs -> /tmp/mut/cov.pkl
  mutate.py run FILE_RE [FUNC_RE] [--max N] [--seed S]  -> appends to /tmp/mut/res.jsonl
A mutant is the code object of one function, swapped in a forked child; scenarios reaching its line are run.
"""
import ast, copy, gc, os, sys, types, time, json, pickle, re, random, signal, subprocess, argparse, select
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vh import core
import numpy as np
import importlib, warnings
OUT = '/tmp/mut'
LIB = os.path.realpath(core.REPO) + '/IMTreatment/'


def load(props):
    core.quiet_import()
    for p in props:
        importlib.import_module('props.' + p)


def allprops():
    return sorted(f[:-3] for f in os.listdir(core.VERIF + '/props') if re.match(r'c\d+\.py', f))


def cov():
    load(allprops())
    jobs = [(p, s) for p in core.SCENARIOS for s in core.SCENARIOS[p]]
    live, res = {}, {}
    while jobs or live:
        while jobs and len(live) < 8:
            p, s = jobs.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1); os.dup2(null, 2)
                mon = sys.monitoring
                mon.use_tool_id(3, 'cov')
                hit = set()
                def line(code, n):
                    if code.co_filename.startswith(LIB):
                        hit.add((code.co_filename[len(LIB):], n))
                    return mon.DISABLE
                mon.register_callback(3, mon.events.LINE, line)
                mon.set_events(3, mon.events.LINE)
                t0 = time.time()
                np.seterr(all='ignore')
                n = max(3, min(s[2], 400))
                for i in range(n):
                    core.run_iter(p, s[0], s[1], '1', i)
                    if time.time() - t0 > 60:
                        break
                dt = (time.time() - t0)/(i + 1)
                d = pickle.dumps((p, s[0], dt, hit))
                with os.fdopen(w, 'wb') as f: f.write(d)
                os._exit(0)
            os.close(w)
            live[r] = (pid, p, s[0], b'')
        rr, _, _ = select.select(list(live), [], [], 1)
        for r in rr:
            b = os.read(r, 1 << 20)
            pid, p, n, acc = live[r]
            if b:
                live[r] = (pid, p, n, acc + b)
            else:
                os.close(r); os.waitpid(pid, 0); del live[r]
                if acc:
                    _, _, dt, hit = pickle.loads(acc)
                    res[(p, n)] = (dt, hit)
                else:
                    print('no result', p, n)
    os.makedirs(OUT, exist_ok=True)
    pickle.dump(res, open(OUT + '/cov.pkl', 'wb'))
    print(len(res), 'scenarios', sum(len(h) for d, h in res.values()))


SWAP = {'x': 'y', 'y': 'x'}
def swapname(n):
    m = re.search(r'(?:^|_|[dvV]|axe)([xy])(?:$|_|\d)', n)
    if not m: return None
    i = m.start(1)
    return n[:i] + SWAP[n[i]] + n[i+1:]

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}

def mutations(fn):
    """yield (lineno, description, apply, undo) for one function node."""
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(getattr(fn.body[0], 'value', None), ast.Constant) else None
    inraise = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and all(isinstance(b, ast.Raise) for b in n.body) and not n.orelse:
            inraise.add(id(n))
            for k in ast.walk(n.test): inraise.add(id(k))
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print'):
            for k in ast.walk(n): inraise.add(id(k))
    def setter(o, a, new):
        old = getattr(o, a)
        return (lambda: setattr(o, a, new)), (lambda: setattr(o, a, old))
    def item(l, i, new):
        old = l[i]
        def ap(): l[i] = new
        def un(): l[i] = old
        return ap, un
    for n in ast.walk(fn):
        if id(n) in inraise or n is doc: continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                c = CMP.get(type(op))
                if c: yield (ln, 'cmp %s->%s' % (type(op).__name__, c.__name__), *item(n.ops, k, c()))
        elif isinstance(n, ast.BinOp):
            c = BIN.get(type(n.op))
            if c and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                yield (ln, 'bin %s->%s' % (type(n.op).__name__, c.__name__), *setter(n, 'op', c()))
        elif isinstance(n, ast.BoolOp):
            yield (ln, 'bool', *setter(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            if isinstance(n.value, bool): vals = [not n.value]
            elif isinstance(n.value, int): vals = [n.value + 1] + ([n.value - 1] if n.value else [])
            else: vals = [n.value*1.3 + (1. if n.value == 0 else 0)]
            for v in vals: yield (ln, 'const %r->%r' % (n.value, v), *setter(n, 'value', v))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield (ln, 'unary', *setter(n, 'op', ast.UAdd() if isinstance(n.op, ast.USub) else ast.UAdd()))
        elif isinstance(n, ast.AugAssign):
            c = BIN.get(type(n.op))
            if c: yield (ln, 'aug %s->%s' % (type(n.op).__name__, c.__name__), *setter(n, 'op', c()))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            s = swapname(n.id)
            if s and s in fn.names: yield (ln, 'name %s->%s' % (n.id, s), *setter(n, 'id', s))
        elif isinstance(n, ast.Attribute):
            s = swapname(n.attr)
            if s: yield (ln, 'attr %s->%s' % (n.attr, s), *setter(n, 'attr', s))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list): continue
            for k, st in enumerate(b):
                if id(st) in inraise: continue
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) or isinstance(st, ast.AugAssign) or (isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Subscript, ast.Attribute))):
                    p = ast.copy_location(ast.Pass(), st)
                    yield (st.lineno, 'del ' + ast.unparse(st)[:50], *item(b, k, p))
                elif isinstance(st, ast.If) and not st.orelse and fld == 'body':
                    p = ast.copy_location(ast.Pass(), st)
                    yield (st.lineno, 'del-if ' + ast.unparse(st.test)[:50], *item(b, k, p))
        for fld, v in ast.iter_fields(n):
            tgt = v if isinstance(v, list) else [v]
            for k, c in enumerate(tgt):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'copy' and not c.args:
                    if isinstance(v, list): yield (c.lineno, 'nocopy', *item(v, k, c.func.value))
                    else: yield (c.lineno, 'nocopy', *setter(n, fld, c.func.value))


SKIPF = re.compile(r'display|plot|__repr__|__str__|^_?disp|animate|print|loadbar|draw')


def functions(tree):
    def rec(node, inside):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef) and not inside:
                c.names = {k.id for k in ast.walk(c) if isinstance(k, ast.Name)} | {a.arg for a in ast.walk(c) if isinstance(a, ast.arg)}
                yield c
            elif isinstance(c, ast.ClassDef):
                yield from rec(c, inside)
            elif not isinstance(c, ast.FunctionDef):
                yield from rec(c, inside)
    yield from rec(tree, False)


def findcode(co, line, name):
    for k in co.co_consts:
        if isinstance(k, types.CodeType):
            if k.co_firstlineno == line and k.co_name == name: return k
            r = findcode(k, line, name)
            if r: return r


def run(a):
    load(allprops())
    cv = pickle.load(open(OUT + '/cov.pkl', 'rb'))
    byline = {}
    for key, (dt, hit) in cv.items():
        for h in hit: byline.setdefault(h, []).append(key)
    scen = {(p, s[0]): s for p in core.SCENARIOS for s in core.SCENARIOS[p]}
    known = {(k['property'], k['key']) for k in core.load_known()}
    funcs = {}
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(LIB):
            funcs.setdefault((o.__code__.co_filename, o.__code__.co_firstlineno, o.__code__.co_name), []).append(o)
    todo = []
    unreached = []
    for root, d, fs in os.walk(LIB):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if not f.endswith('.py') or not re.search(a.file, p[len(LIB):]): continue
            src = open(p).read()
            tree = ast.parse(src)
            for fn in functions(tree):
                if SKIPF.search(fn.name) or (a.func and not re.search(a.func, fn.name)): continue
                first = min([fn.lineno] + [dd.lineno for dd in fn.decorator_list])
                seen = set()
                for ln, desc, ap, un in mutations(fn):
                    keys = byline.get((p[len(LIB):], ln))
                    if not keys:
                        if (fn.name, ln) not in unreached: unreached.append((p[len(LIB):], fn.name, ln))
                        continue
                    ap()
                    try:
                        co = compile(tree, p, 'exec')
                        code = findcode(co, first, fn.name)
                        txt = ast.unparse(fn)
                    except Exception as e:
                        un(); continue
                    un()
                    if code is None: print('no code', p, fn.name); continue
                    if txt in seen: continue
                    seen.add(txt)
                    todo.append(((p, first, fn.name), ln, desc, code, keys))
    random.Random(a.seed).shuffle(todo)
    if a.max: todo = todo[:a.max]
    print(len(todo), 'mutants', flush=True)
    out = open(a.out, 'a')
    live = {}
    cnt = dict(killed=0, survived=0)
    t00 = time.time()
    while todo or live:
        while todo and len(live) < 8:
            fk, ln, desc, code, keys = todo.pop(0)
            if fk not in funcs:
                print('no function', fk); continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1); os.dup2(null, 2)
                core._limits()
                np.seterr(all='ignore')
                res = 'survived'
                try:
                    for o in funcs[fk]: o.__code__ = code
                    order = sorted(keys, key=lambda k: cv[k][0]*scen[k][2] if k in scen else 0)
                    t0 = time.time()
                    nrun = 0
                    for frac in (0.1, 1.):
                        for k in order:
                            if k not in scen: continue
                            n = scen[k][2]
                            rng = range(0, max(1, int(n*.1))) if frac == .1 else range(max(1, int(n*.1)), n)
                            for i in rng:
                                m, sk, hg = core.run_iter(k[0], k[1], scen[k][1], '1', i)
                                nrun += 1
                                v = [s for s in m.viol if (k[0], k[1] + ':' + s[0]) not in known]
                                if v:
                                    res = 'killed %s %s %s' % (k[0], k[1], v[0][0]); raise StopIteration
                                if time.time() - t0 > a.time:
                                    res = 'survived-timeout'; raise StopIteration
                    res = 'survived %d' % nrun
                except StopIteration:
                    pass
                except BaseException as e:
                    res = 'killed harness %r' % e
                os.write(w, res.encode()[:3000]); os._exit(0)
            os.close(w)
            live[r] = (pid, fk, ln, desc, keys, time.time())
        rr, _, _ = select.select(list(live), [], [], 1)
        for r in rr:
            b = os.read(r, 4096)
            pid, fk, ln, desc, keys, t0 = live.pop(r)
            os.close(r); os.waitpid(pid, 0)
            res = b.decode() or 'killed died'
            kind = res.split()[0]
            cnt['killed' if kind == 'killed' else 'survived'] += 1
            out.write(json.dumps(dict(file=fk[0][len(LIB):], func=fk[2], line=ln, desc=desc, res=res, props=sorted({k[0] for k in keys}), t=round(time.time()-t0, 1))) + '\n'); out.flush()
        for r in list(live):
            if time.time() - live[r][5] > a.time + 150:
                os.kill(live[r][0], 9)
    print(cnt, 'in', round(time.time() - t00), 's')
    byf = {}
    for f, fn, ln in unreached: byf.setdefault((f, fn), set()).add(ln)
    json.dump([[f, fn, sorted(l)] for (f, fn), l in sorted(byf.items())], open(a.out + '.unreached.json', 'w'))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd'); ap.add_argument('file', nargs='?', default=''); ap.add_argument('func', nargs='?')
    ap.add_argument('--max', type=int); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=60); ap.add_argument('--out', default=OUT + '/res.jsonl')
    a = ap.parse_args()
    cov() if a.cmd == 'cov' else run(a)
