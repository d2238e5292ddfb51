#!/usr/bin/env python3
"""mkseed.py FILE...: each file describes one planted bug:
   property: Cnn / needs: ... / breaks: ...
   --- src file / old text / >>> / new text   (repeated)
   ==== demo.cpp
   ...
Builds it in a scratch copy of /repo, runs the stable tests and the demonstration both ways and, if all is
as it must be, writes /verif/seeded/<name>/."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(path):
    name = os.path.basename(path)[:-4]
    s = open(path).read()
    head, demo = s.split('==== demo.cpp\n', 1)
    meta, muts = head.split('\n--- ', 1)
    m = dict(l.split(': ', 1) for l in meta.strip().split('\n'))
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    c = os.path.join(d, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        for part in ('\n--- ' + muts).split('\n--- ')[1:]:
            f, rest = part.split('\n', 1)
            old, new = rest.split('\n>>>\n', 1)
            new = new.rstrip('\n')
            p = os.path.join(c, f)
            t = open(p).read()
            if t.count(old) != 1:
                return name, 'old text matches %d times in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=c).stdout
        for sc in ('build.sh', 'test.sh'):
            open(os.path.join(d, sc), 'w').write(open('/opt/vp/' + sc).read().replace('/repo', c).replace('/opt/vp/build.sh', os.path.join(d, 'build.sh')))
        dd = os.path.join(d, 'demo')
        os.makedirs(dd)
        for f in ('sim.hpp', 'demo.sh'):
            shutil.copy(os.path.join(V, 'devtools/demo', f), dd)
        open(os.path.join(dd, 'demo.cpp'), 'w').write(demo)
        r = sh('bash %s/demo.sh' % dd, cwd='/repo')
        if r.returncode:
            return name, 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
        r = sh('bash %s/build.sh' % d)
        if r.returncode:
            return name, 'does not build: ' + (r.stdout + r.stderr)[-1500:]
        r = sh('bash %s/demo.sh' % dd, cwd=c)
        if r.returncode == 0:
            return name, 'demo passes with the patch: ' + r.stdout[-300:]
        msg = (r.stdout + r.stderr).strip()[-160:]
        if 'error:' in r.stderr:
            return name, 'demo does not compile: ' + r.stderr[-600:]
        r = sh('bash %s/test.sh %s/out.json' % (d, d))
        want = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [t for t in want if 'PASS ' + t not in r.stdout]
        if bad:
            return name, 'tests fail: %s' % bad
        o = os.path.join(V, 'seeded', name)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        for f in os.listdir(dd):
            shutil.copy(os.path.join(dd, f), o)
        json.dump(dict(property=m['property'], needs=m['needs'], what_it_breaks=m['breaks']), open(o + '/meta.json', 'w'), indent=1)
        pid = m['property']
        r = sh('VERIF_REPO=%s python3 check.py %s' % (c, pid), cwd=V)
        return name, 'kept; demo says: %s; check %s: %d %s' % (msg, pid, r.returncode, r.stdout.strip().split('\n')[0][:200] if r.returncode == 1 else r.stdout[-200:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(one, sys.argv[1:]):
            print(n, '-', r)
