"""dev helper: apply (file, old, new[, count]) edits then commit with a message."""
import subprocess, sys
def fix(msg, *edits):
    for e in edits:
        p, old, new = e[:3]
        n = e[3] if len(e) > 3 else 1
        p = '/repo/IMTreatment/' + p
        s = open(p).read()
        c = s.count(old)
        if c != n:
            sys.exit('%s: %d occurrences (want %d) of\n%s' % (p, c, n, old))
        open(p, 'w').write(s.replace(old, new))
    subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', 'fix: ' + msg])
    print('fix:', msg)
