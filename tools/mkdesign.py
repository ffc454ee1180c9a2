"""Writes ../DESIGN.md from design_head.md, the property list, the check modules, the known findings and the planted bugs."""
import ast, glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from techs import T
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
known = json.load(open(root + '/known_findings.json'))
secs = json.load(open(here + '/cost.json')) if os.path.exists(here + '/cost.json') else {}
out = [open(here + '/design_head.md').read().rstrip(), '', '## 4. Property by property', '']
for p in props:
    i = p['id']
    src = open('%s/props/%s.py' % (root, i.lower())).read()
    d = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    sc = re.findall(r"@scenario\('%s', (\d+)[^\n]*\)\ndef (\w+)" % i, src)
    out += ['### %s %s' % (i, p['title']), '',
            '* Technique: %s.' % T[i][0],
            '* Monitored, and oracle: %s' % T[i][1],
            '* Generated: %s' % d.get('RULE', ''),
            '* Scenarios (iterations of a quick run): %s.' % ', '.join('%s (%d)' % (n, 6*int(q)) for q, n in sc)]
    if d.get('ASSUMPTIONS'):
        out.append('* Bounds and assumptions: %s.' % '; '.join(d['ASSUMPTIONS']))
    if i in secs:
        out.append('* Cost: quick about %s on 8 cores; thorough 2 to 20 times the iterations.' % secs[i])
    out.append('* Beyond the tests: %s' % p['why_tests_cant'])
    nf = sum(k['property'] == i and k['status'] == 'fixed' for k in known)
    kn = [k for k in known if k['property'] == i and k['status'] == 'known']
    if nf or kn:
        out.append('* Genuine defects found by this check: %d repaired%s.' % (nf, ', %d recorded' % len(kn) if kn else ''))
    out.append('')
out += ['## 5. Known findings (not repaired)', '', 'Keyed by scenario and signature in known_findings.json; any other signature of the same property is still reported.', '']
out += ['* %s `%s`: %s' % (k['property'], k['key'], k['what']) for k in known if k['status'] == 'known']
out += ['', '## 6. Planted bugs and the checks that catch them', '',
        'Each was confirmed in a scratch copy (builds, stable tests pass, demonstration fails with it and passes without it). “caught” is the quick check of the property on the patched tree.', '',
        '| planted bug | property | needs | quick check |', '|---|---|---|---|']
res = json.load(open(here + '/seed_results.json')) if os.path.exists(here + '/seed_results.json') else {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), res.get(n, '')))
out += ['', open(here + '/design_tail.md').read().rstrip(), '']
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'lines')
