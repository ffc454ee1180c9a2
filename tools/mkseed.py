"""Plant a bug: from mkseed import seed.  seed(id, prop, needs, breaks, [(file, old, new[, count])...], demo)
Writes /verif/seeded/<id>/ after confirming tests pass with it and demo 0 -> nonzero.
The patch is confirmed by applying it to /repo and undoing it."""
import json, os, subprocess, sys
SEED = '/verif/seeded'
HEAD = '''import sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, '.')
import numpy as np
import IMTreatment as imt
from IMTreatment import *
'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
. /opt/vp/env.sh
exec $PY -W ignore "$(dirname "$(realpath "$0")")/demo.py"
'''
def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def clean():
    sh('git -C /repo checkout -- .')
def verify(id, tests=True):
    d = os.path.join(SEED, id)
    clean()
    r0 = sh('cd /repo && bash %s/demo.sh' % d)
    ap = sh('git -C /repo apply %s/patch.diff' % d)
    if ap.returncode:
        print(id, 'PATCH DOES NOT APPLY', ap.stdout); clean(); return False
    try:
        r1 = sh('cd /repo && bash %s/demo.sh' % d)
        t = sh('bash /verif/tools/rt.sh').stdout.strip() if tests else 'missing: []'
    finally:
        clean()
    ok = r0.returncode == 0 and r1.returncode != 0 and t.startswith('missing: []')
    print(id, 'ok' if ok else 'BAD', r0.returncode, r1.returncode, t)
    if not ok:
        print(r0.stdout[-800:], '---', r1.stdout[-800:])
    return ok
def seed(id, prop, needs, breaks, edits, demo, check=True):
    d = os.path.join(SEED, id)
    clean()
    assert not sh('git -C /repo status --short').stdout
    for e in edits:
        p = '/repo/IMTreatment/' + e[0]
        s = open(p).read()
        n = s.count(e[1])
        want = e[3] if len(e) > 3 else 1
        if n != want:
            clean(); print(id, 'edit: %d occurrences of %r' % (n, e[1])); return False
        open(p, 'w').write(s.replace(e[1], e[2]))
    diff = sh('git -C /repo diff').stdout
    clean()
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write(SH)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    minus = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
    orig = set(l.strip() for e in edits for l in sh('git -C /repo show d83cc3b:IMTreatment/' + e[0]).stdout.splitlines())
    if not any(l in orig for l in minus):
        print(id, 'NO ORIGINAL LINE CHANGED')
    ok = verify(id)
    if ok and check:
        caught(id)
    return ok
def caught(id):
    d = os.path.join(SEED, id)
    prop = json.load(open(d + '/meta.json'))['property']
    sh('git -C /repo apply %s/patch.diff' % d)
    try:
        r = sh('cd /verif && ./check.sh %s quick' % prop)
    finally:
        clean()
    rf = '/verif/tools/seed_results.json'
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    c = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
    res[id] = 'caught (%s)' % ', '.join(sorted(set(l.split('scenario=')[1].split()[0] for l in r.stdout.splitlines() if 'failed=' in l))[:3]) if c else 'missed'
    json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
    print('   %s %s: exit %d %s' % (id, prop, r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED'))
    for l in r.stdout.splitlines():
        if 'failed=' in l: print('      ', l.strip())
if __name__ == '__main__':
    a = sys.argv[1:]
    for i in (sorted(os.listdir(SEED)) if not a else a):
        if verify(i): caught(i)
