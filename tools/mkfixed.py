"""Rewrites the "fixed" entries of ../known_findings.json from the fix commits of /repo (property by commit below).
A fixed entry suppresses nothing."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONE = dict(l.split() for l in '''fd166fd C04
2814d97 C04
b3a559a C04
dfc550d C06
2b35081 C01
0854077 C07
baa6286 C07
79a6f8c C03
59245b9 C01
0436b99 C07
f0ad419 C09
58a88b0 C02
31a04a3 C10
266e873 C08
c336808 C01
11ca8da C10
1b50a14 C03
08a38c2 C14
1491089 C14
903469e C14
6e1ea75 C14
122b828 C01
5eecc40 C01
93b0644 C03
5a0852c C02
bdb34a3 C03
98f838c C06
ba6a954 C03
1e7d070 C01
483386c C01
e3b602f C09
76de962 C07
ea482fb C07
8f712e3 C07
0d728cd C01
c1782de C03
890dd30 C03
47231af C18
c594119 C06
9200a5a C06
ccaac58 C01
f70ab2b C03
7f40c6d C03
4fa39eb C01
1b3ef06 C03
cb21020 C09
d107a6b C09
f62fbc1 C03
3f07716 C06
5aa3cba C06
9fc65a7 C04
de3adb1 C04
2d2974f C06
5c1a418 C02
8797101 C03
21a9a7e C15
c4f5905 C15
720201b C15
c244038 C09'''.splitlines())
# (first commit of a run, property): the commits from there on that are not in ONE
RUNS = dict(l.split() for l in '''1fa933b C05
e8c05e4 C13
6191a1d C12
71954e1 C11
40205f1 C12
8f31a71 C13
930c340 C16
be920be C17
7cd98ed C18
f3a3763 C19
fb025fc C20
e1f35e3 C21
5562ca8 C22
63731c8 C23
b410034 C24
7eccab9 C25
f1c3ec0 C26
7286ad2 C27'''.splitlines())
LATER = {}
p = os.path.join(ROOT, 'tools', 'fixed_later.txt')
if os.path.exists(p):
    LATER = dict(l.split()[:2] for l in open(p) if l.strip())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--abbrev=7', '--format=%h %s'], capture_output=True, text=True).stdout
f = os.path.join(ROOT, 'known_findings.json')
ent = [e for e in json.load(open(f)) if e['status'] == 'known']
cur = None
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    cur = RUNS.get(h, cur)
    prop = LATER.get(h) or ONE.get(h) or cur
    ent.append(dict(property=prop, status='fixed', commit=h, what='fixed: property=%s %s %s' % (prop, h, s[5:])))
json.dump(ent, open(f, 'w'), indent=1)
import collections
print(len(ent), sorted(collections.Counter(e['property'] for e in ent).items()))
