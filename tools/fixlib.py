"""helpers for small repairs: textual replacement inside a function, then a commit"""
import subprocess
F = [None]
def rep(old, new, count=1):
    s = open(F[0]).read(); assert s.count(old) == count, (s.count(old), old)
    open(F[0], 'w').write(s.replace(old, new))
def within(start, end, old, new, count=1):
    s = open(F[0]).read(); i = s.index(start); j = s.index(end, i + 1)
    seg = s[i:j]; assert seg.count(old) == count, (seg.count(old), old)
    open(F[0], 'w').write(s[:i] + seg.replace(old, new) + s[j:])
def commit(m): subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', m])
