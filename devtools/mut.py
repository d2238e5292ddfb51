#!/usr/bin/env python3
"""developer aid: mut.py PID[,PID] FILE OLD NEW [FILE OLD NEW]... runs checks on a scratch copy with text replaced (first occurrence; OLD may be 'N@text' for the Nth)"""
import os, re, shutil, subprocess, sys, tempfile
pids = sys.argv[1].split(',')
d = tempfile.mkdtemp(prefix='mut')
for x in ('src', 'include'):
    shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('*.o', '*.d'))
a = sys.argv[2:]
for i in range(0, len(a), 3):
    f, old, new = a[i:i + 3]
    p = os.path.join(d, f)
    s = open(p).read()
    n = 1
    m = re.match(r'(\d+)@', old)
    if m:
        n, old = int(m.group(1)), old[m.end():]
    old, new = old.replace('\\n', '\n').replace('\\t', '\t'), new.replace('\\n', '\n').replace('\\t', '\t')
    k = -1
    for _ in range(n):
        k = s.find(old, k + 1)
    if k < 0:
        print('NO MATCH', old)
        sys.exit(3)
    s = s[:k] + new + s[k + len(old):]
    open(p, 'w').write(s)
for pid in pids:
    r = subprocess.run(['python3', '/verif/check.py', pid], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    out = r.stdout.strip().split('\n')
    print('rc=%d' % r.returncode, '\n   '.join(l[:260] for l in out[-8:]), r.stderr[-1500:])
shutil.rmtree(d)
