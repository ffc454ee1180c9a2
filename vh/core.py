"""Run-time monitoring harness: scenario registry, seeded workload driver,
oracle bookkeeping, evidence and replay files, verdicts.

A *scenario* drives the real code with generated input and reports each oracle
evaluation through its monitor (``Mon``).  Verdicts are three-valued:
violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2:
nothing was observed by a scenario, or the harness itself failed).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ITER_TIMEOUT = 60           # bounded work: CPU seconds allowed to one iteration
WORKER_MEM = 4 << 30       # address space of one worker
STALL = 240                # seconds after which a silent worker is ended
MAXREC = 6                  # recorded violations per scenario chunk

SCENARIOS = collections.defaultdict(list)


class Hang(BaseException):
    pass


class Skip(Exception):
    """The generated case does not satisfy a precondition: not counted."""


def scenario(prop, quick, thorough=None):
    """Register a scenario: `quick` and `thorough` are iteration counts."""
    def deco(f):
        SCENARIOS[prop].append((f.__name__, f, quick,
                                thorough if thorough else quick*20))
        return f
    return deco


class Mon:
    """Monitor of one iteration of one scenario."""

    def __init__(self, prop, name, seed, i):
        self.prop, self.name, self.i = prop, name, i
        h = hashlib.sha256(('%s|%s|%s|%d' % (seed, prop, name, i)).encode())
        self.rng = np.random.default_rng(int.from_bytes(h.digest()[:8], 'big'))
        self.nchecks = 0
        self.events = collections.Counter()
        self.viol = []
        self.desc = []

    # workload description
    def case(self, *desc):
        self.desc.append(' '.join(str(d) for d in desc))

    def event(self, kind, n=1):
        self.events[kind] += n

    # oracle
    def check(self, cond, sig, detail=''):
        self.nchecks += 1
        self.events['oracle:' + sig.split('#')[0]] += 1
        if not cond:
            if callable(detail):
                detail = detail()
            self.viol.append((sig, str(detail)[:2000]))
        return bool(cond)

    def close(self, got, want, sig, rtol=1e-7, atol=1e-9, detail=''):
        """Same shape, same nan pattern, close values (scaled tolerance)."""
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.dtype == object:
                got = got.astype(float)
            if want.dtype == object:
                want = want.astype(float)
        except (TypeError, ValueError):
            return self.check(False, sig, '%s: got %r want %r'
                              % (detail, got, want))
        ok = got.shape == want.shape
        if ok and got.size:
            fin = want[np.isfinite(want)]
            scale = np.max(np.abs(fin)) if fin.size else 0.
            ok = np.allclose(got, want, rtol=rtol, atol=atol*(scale + 1e-300) + 1e-300,
                             equal_nan=True)
        return self.check(ok, sig, lambda: '%s: got %s want %s'
                          % (detail, brief(got), brief(want)))

    def raises(self, f, sig, exc=Exception, detail=''):
        try:
            r = f()
        except exc:
            return self.check(True, sig)
        return self.check(False, sig, '%s: accepted, returned %s'
                          % (detail, brief(r)))


def brief(x):
    with np.printoptions(threshold=60, edgeitems=4, precision=10):
        return str(x)[:700]


def _alarm(*a):
    raise Hang()


def run_iter(prop, name, f, seed, i):
    m = Mon(prop, name, seed, i)
    skipped = hang = False
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, ITER_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f(m)
    except Skip:
        skipped = True
    except Hang:
        hang = True
        m.nchecks += 1
        m.viol.append(('no-progress', 'more than %d s of processor time on one '
                       'small input' % ITER_TIMEOUT))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [t for t in tb if '/IMTreatment/' in t.filename]
        where = fr[-1].name if fr else 'harness'
        m.nchecks += 1
        m.viol.append(('exception:%s@%s' % (type(e).__name__, where),
                       '%s: %s\n' % (type(e).__name__, str(e)[:200]) + traceback.format_exc()[-1700:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return m, skipped, hang


def _chunk(args):
    prop, name, seed, lo, hi, deadline = args
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    f = [s for s in SCENARIOS[prop] if s[0] == name][0][1]
    out = dict(name=name, n=0, skipped=0, checks=0, hangs=0, nontrivial=0,
               digests=set(), events=collections.Counter(), viol=[], nviol=0,
               sample=None, left=0)
    for i in range(lo, hi):
        if time.time() > deadline:
            out['left'] += hi - i
            break
        m, skipped, hang = run_iter(prop, name, f, seed, i)
        out['n'] += 1
        out['events'].update(m.events)
        out['checks'] += m.nchecks
        if skipped:
            out['skipped'] += 1
        if hang:
            out['hangs'] += 1
        if m.nchecks:
            out['nontrivial'] += 1
            d = '|'.join(m.desc) or '%s#%d' % (name, i)
            out['digests'].add(hashlib.sha1((name + d).encode()).digest()[:8])
            if out['sample'] is None:
                out['sample'] = dict(scenario=name, index=i,
                                     case=m.desc[:12], oracle_evaluations=m.nchecks)
        if m.viol:
            out['nviol'] += len(m.viol)
            seen = set(v[2] for v in out['viol'])
            for sig, det in m.viol:
                if sig not in seen and len(out['viol']) < MAXREC:
                    seen.add(sig)
                    out['viol'].append((name, i, sig, det, m.desc[:12]))
        if hang:
            out['left'] += hi - i - 1
            break
    return out


def _limits():
    """A worker may not take the whole machine down (damaged input can ask for any amount of memory)."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


def _child(conn, t):
    _limits()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    conn.send(_chunk(t))
    conn.close()
    os._exit(0)


def run_tasks(tasks, jobs):
    """Run every chunk in its own process; the death or the stall of a process is itself an observation."""
    ctx = mp.get_context('fork')
    todo = list(reversed(tasks))
    live, res = {}, []
    while todo or live:
        while todo and len(live) < jobs:
            t = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            sys.stdout.flush()
            sys.stderr.flush()
            p = ctx.Process(target=_child, args=(b, t))
            p.start()
            b.close()
            live[a] = (p, t, time.time())
        for a in mp.connection.wait(list(live), timeout=1.):
            p, t, t0 = live.pop(a)
            try:
                res.append(a.recv())
                p.join()
            except (EOFError, OSError):
                p.join()
                res.append(_died(t, 'process ended with code %s' % p.exitcode))
            a.close()
        now = time.time()
        for a in list(live):
            p, t, t0 = live[a]
            if now > max(t[5], t0) + STALL:
                p.kill()
                p.join()
                live.pop(a)
                a.close()
                res.append(_died(t, 'no answer'))
    return res


def _died(t, why):
    return dict(name=t[1], n=1, skipped=0, checks=1, hangs=0, nontrivial=0, digests=set(),
                events=collections.Counter({'process-died': 1}), nviol=1, sample=None, left=t[4] - t[3] - 1,
                viol=[(t[1], t[3], 'process-died', '%s in iterations %d..%d' % (why, t[3], t[4] - 1), [])])


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('status') == 'known']


def quiet_import():
    sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use('Agg')
    warnings.simplefilter('ignore')
    import IMTreatment
    where = os.path.realpath(IMTreatment.__file__)
    if not where.startswith(os.path.realpath(REPO)):
        raise RuntimeError('IMTreatment imported from ' + where)


# iterations of a quick check, per registered iteration
QUICK = 6


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    quiet_import()
    mod = importlib.import_module('props.' + a.prop.lower())
    if a.replay:
        r = json.load(open(a.replay))
        f = [s for s in SCENARIOS[a.prop] if s[0] == r['scenario']][0][1]
        np.seterr(all='ignore')
        m, _, hang = run_iter(a.prop, r['scenario'], f, r['seed'], r['index'])
        print('\n'.join(m.desc))
        for s, d in m.viol:
            print('FAILED', s, '\n   ', d)
        print('replay:', 'violated' if m.viol else 'held')
        return 1 if m.viol else 0
    budget = 420. if a.tier == 'quick' else 3*3600.
    deadline = t0 + budget
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    tasks = []
    for name, f, q, th in SCENARIOS[a.prop]:
        if a.only and a.only not in name:
            continue
        n = max(1, int((q*QUICK if a.tier == 'quick' else max(th, 2*QUICK*q))*a.scale))
        step = max(1, min(-(-n//(jobs*3)), 400))
        for lo in range(0, n, step):
            tasks.append((a.prop, name, a.seed, lo, min(n, lo + step), deadline))
    # interleave scenarios so that a slow one does not end the run alone
    tasks.sort(key=lambda t: (t[3], t[1]))
    res = [_chunk(t) for t in tasks] if jobs == 1 else run_tasks(tasks, jobs)
    # merge
    per = {}
    ev = collections.Counter()
    dig = set()
    viol, samples = [], []
    for r in res:
        p = per.setdefault(r['name'], collections.Counter())
        for k in ('n', 'skipped', 'checks', 'hangs', 'left', 'nviol', 'nontrivial'):
            p[k] += r[k]
        ev.update(r['events'])
        dig |= r['digests']
        viol += r['viol']
        if r['sample'] and r['name'] not in [s['scenario'] for s in samples]:
            samples.append(r['sample'])
    viol.sort(key=lambda v: (v[0], v[2], v[1]))
    known = [k for k in load_known() if k['property'] == a.prop]
    new, seenk, done = [], set(), set()
    for v in viol:
        key = v[0] + ':' + v[2]
        kk = [k for k in known if k['key'] == key]
        if kk:
            seenk.add(key)
        elif key not in done:
            done.add(key)
            new.append(v)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for k in known:
        if k['key'] in seenk:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
        else:
            print('note: known finding not observed in this run: %s' % k['key'])
    for v in new[:60]:
        name, i, sig, det, desc = v
        path = os.path.join(rdir, '%s-%s-%d-%s.json' % (
            a.prop, name, i, hashlib.sha1(sig.encode()).hexdigest()[:6]))
        json.dump(dict(property=a.prop, scenario=name, index=i, seed=str(a.seed),
                       signature=sig, detail=det, case=desc,
                       how='python run.py %s --replay <this file>' % a.prop),
                  open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('   scenario=%s index=%d failed=%s' % (name, i, sig))
        print('   ' + det.replace('\n', '\n   ')[:1500 if a.v else 350])
    silent = [n for n, p in per.items() if p['checks'] == 0]
    unfinished = sum(p['left'] for p in per.values())
    hangs = sum(p['hangs'] for p in per.values())
    evals = sum(p['n'] - p['skipped'] for p in per.values())
    evidence = dict(
        property=a.prop, tier=a.tier, seed=int(a.seed) if str(a.seed).lstrip('-').isdigit() else 0,
        level='exploration',
        coverage=dict(
            evaluations=int(evals), distinct_nontrivial=len(dig),
            rule=getattr(mod, 'RULE', '') + ' A case is counted as non-trivial when at least one oracle '
            'evaluation was made on it, and distinct by the digest of its written-out description.',
            samples=samples[:12],
            oracle_evaluations=int(sum(p['checks'] for p in per.values())),
            observed_events={k: int(v) for k, v in sorted(ev.items())},
            per_scenario={n: dict(iterations=int(p['n']), skipped=int(p['skipped']),
                                  oracle_evaluations=int(p['checks']),
                                  not_run_for_time=int(p['left']))
                          for n, p in sorted(per.items())}),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.only:
        json.dump(evidence, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    tot = evidence['coverage']
    print('%s %s seed=%s: %d cases, %d distinct, %d oracle evaluations, %d new violation kinds, %.1fs'
          % (a.prop, a.tier, a.seed, evals, len(dig), tot['oracle_evaluations'], len(new), time.time() - t0))
    if a.v:
        for n, p in sorted(per.items()):
            print('   ', n, dict(p))
    if new:
        return 1
    if silent:
        print('INCONCLUSIVE: silent scenarios %s' % silent)
        return 2
    if unfinished:
        print('note: %d iterations not run (time budget)' % unfinished)
    return 0
