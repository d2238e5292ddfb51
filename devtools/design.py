#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from propdefs, the rules' explanations and rule texts, and the notes below."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import propdefs
from checks_index import CHECKS
from design_notes import HEAD, NOTES, SEEDS, TAIL, NA


def expl(pid):
    t = ast.parse(open('%s/engine/rules/%s.py' % (V, pid.lower())).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'EXPLANATION':
            return ast.literal_eval(n.value)
    return ''


def rules(pid):
    """the rule texts: every ctx.rule('...') literal in the source"""
    out = []
    t = ast.parse(open('%s/engine/rules/%s.py' % (V, pid.lower())).read())
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') == 'rule' and n.args:
            try:
                out.append((n.lineno, ast.literal_eval(n.args[0])))
            except ValueError:
                pass
    return [x for _, x in sorted(out)]


def muts(pid):
    p = '%s/devtools/muts/%s.txt' % (V, pid.lower())
    if not os.path.exists(p):
        return None
    s = open(p).read()
    return s.count('== %s bug' % pid), s.count('== %s ok' % pid)


o = [HEAD]
o.append('\n## Properties and how each is decided\n')
for p in propdefs.P:
    pid = p['id']
    if pid not in CHECKS:
        continue
    o.append('### %s %s\n' % (pid, p['title']))
    o.append('*Decided by:* %s\n' % CHECKS[pid]['technique'])
    o.append(expl(pid) + '\n')
    for r in rules(pid):
        o.append('- ' + r)
    o.append('')
    o.append(NOTES.get(pid, '') + '\n')
    m = muts(pid)
    if m:
        o.append('Corpus (`devtools/muts/%s.txt`): %d bugs, %d behaviour-preserving edits.\n' % ((pid.lower(),) + m))
    seeds = sorted(d for d in os.listdir(V + '/seeded') if json.load(open('%s/seeded/%s/meta.json' % (V, d)))['property'] == pid)
    for s in seeds:
        o.append('- planted `%s`: %s' % (s, SEEDS.get(s, 'caught')))
    if seeds:
        o.append('')
o.append('\n## Not claimed\n')
for p in propdefs.P:
    if p['id'] not in CHECKS:
        o.append('- **%s %s** - %s' % (p['id'], p['title'], p['na'] or NA.get(p['id'], 'MISSING')))
o.append(TAIL)
kf = json.load(open(V + '/known_findings.json'))
o.append('\n## Defects repaired in /repo\n')
for f in kf['fixed']:
    o.append('- ' + f)
o.append('\n## Known findings\n')
for f in kf['findings']:
    o.append('- %s [%s] in %s: %s' % (f['property'], f['rule'], f['function'], f['detail']))
if not kf['findings']:
    o.append('None.')
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
