"""dev: which lines of the library no monitor's workload reaches.  tools/cov.py [SCALE] > report"""
import ast, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if len(sys.argv) > 1 and sys.argv[1].startswith('C') and sys.argv[1][1:].isdigit():
    sys.path.insert(0, V)
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(1, 'cov')
    def line(code, n):
        if '/IMTreatment/' in code.co_filename:
            hit.add((code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    from vh import core
    os.environ['VERIF_TIER'] = 'quick'
    null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1); os.dup2(null, 2)
    core.main([sys.argv[1], '--jobs', '1', '--scale', sys.argv[2]])
    json.dump(sorted(hit), open('/tmp/cov/%s.json' % sys.argv[1], 'w'))
    os._exit(0)
scale = sys.argv[1] if len(sys.argv) > 1 else '.3'
os.makedirs('/tmp/cov', exist_ok=True)
props = ['C%02d' % i for i in range(1, 40) if os.path.exists(V + '/props/c%02d.py' % i)]
env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
live = []
import shutil, time
ev = V + '/evidence'
while props or live:
    while props and len(live) < 6:
        p = props.pop(0)
        d = '/tmp/cov/s' + p; os.makedirs(d, exist_ok=True)
        live.append(subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', __file__, p, scale], cwd=V, env=dict(env, VERIF_SCRATCH=d)))
    live = [l for l in live if l.poll() is None]
    time.sleep(.5)
hit = {}
import glob
for f in glob.glob('/tmp/cov/C*.json'):
    for fn, n in json.load(open(f)):
        hit.setdefault(os.path.realpath(fn), set()).add(n)
for fn in sorted(glob.glob(REPO + '/IMTreatment/**/*.py', recursive=True)):
    h = hit.get(os.path.realpath(fn), set())
    src = open(fn).read()
    tree = ast.parse(src)
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            body = [s for s in ast.walk(node) if isinstance(s, ast.stmt) and s is not node
                    and not isinstance(s, (ast.Raise, ast.FunctionDef))
                    and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            miss = sorted(set(s.lineno for s in body) - h)
            if miss:
                print('%s %s: %d/%d missed: %s' % (fn[len(REPO) + 13:], node.name, len(miss), len(body),
                      'ALL' if len(miss) >= len(set(s.lineno for s in body)) else miss))
