"""python3 tools/addfix.py PROP COMMIT-SUBSTRING 'what failed' : records a repair"""
import sys, subprocess
p, sub, what = sys.argv[1:4]
ls = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
h = [l for l in ls if sub in l]; assert len(h) == 1, h
open('/verif/known_findings.txt', 'a').write('fixed: property=%s %s %s\n' % (p, h[0].split()[0], what))
