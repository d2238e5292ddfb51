#!/usr/bin/env python3
"""developer aid: muts.py FILE... [-k PATTERN] runs checks on scratch copies with text replaced, in parallel.
Entries:   == PID[,PID] bug|ok LABEL
           --- FILE
           old text (may start with N@)
           >>>
           new text
           (more --- blocks)
'bug' must be reported (exit 1) by at least one of the checks, 'ok' must leave all of them quiet (exit 0)."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor


def parse(path):
    out = []
    cur = None
    blk = None
    for ln in open(path):
        if ln.startswith('== '):
            p = ln[3:].split(None, 2)
            cur = dict(pids=p[0].split(','), kind=p[1], label=p[2].strip(), edits=[])
            out.append(cur)
            blk = None
        elif ln.startswith('--- '):
            blk = [ln[4:].strip(), '', '', 0]
            cur['edits'].append(blk)
        elif ln.strip() == '>>>':
            blk[3] = 1
        elif blk is not None:
            blk[1 + blk[3]] += ln
        elif ln.strip() and not ln.startswith('#'):
            raise SystemExit('syntax: ' + ln)
    return out


def run(e):
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('src', 'include'):
            shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/' + x, d + '/' + x, ignore=shutil.ignore_patterns('*.o', '*.d'))
        for f, old, new, _ in e['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            n = 1
            m = re.match(r'(\d+)@', old)
            if m:
                n, old = int(m.group(1)), old[m.end():]
            old = old.strip('\n')
            new = new.strip('\n')
            if '\n' not in old:
                old, new = old.strip(), new.strip()
            k = -1
            for _ in range(n):
                k = s.find(old, k + 1)
            if k < 0:
                return e, 'NOMATCH', old
            s = s[:k] + new + s[k + len(old):]
            open(p, 'w').write(s)
        rcs = []
        msgs = []
        for pid in e['pids']:
            r = subprocess.run(['python3', '/verif/check.py', pid], env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1'), capture_output=True, text=True)
            rcs.append(r.returncode)
            msgs += [l[:230] for l in (r.stdout + r.stderr).strip().split('\n') if 'reached through' not in l and not l.startswith('VIOLATION')][1 if r.returncode == 1 else -1:][:4]
        if any(r not in (0, 1) for r in rcs):
            return e, 'ERROR%s' % rcs, '\n      '.join(msgs)
        return e, ('caught' if 1 in rcs else 'quiet'), '\n      '.join(msgs)
    finally:
        shutil.rmtree(d)


args = sys.argv[1:]
pat = None
if '-k' in args:
    i = args.index('-k')
    pat = args[i + 1]
    del args[i:i + 2]
es = [e for a in args for e in parse(a)]
if pat:
    es = [e for e in es if re.search(pat, e['label'] + ' ' + ','.join(e['pids']))]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for e, r, msg in ex.map(run, es):
        want = 'caught' if e['kind'] == 'bug' else 'quiet'
        good = r == want
        bad += not good
        print('%s %-7s %s %s: %s' % ('   ' if good else '***', r, ','.join(e['pids']), e['kind'], e['label']))
        if not good or r == 'caught':
            print('      ' + (msg if not good else msg.split('\n')[0]))
print('%d of %d as expected' % (len(es) - bad, len(es)))
