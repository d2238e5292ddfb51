"""writes properties.jsonl and MANIFEST.json from propdefs.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdefs import P
import checks_index
from notbuilt import NB
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in P:
    c = checks_index.CHECKS.get(p['id'])
    if c and not p['na']:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                           technique=c['technique'], level='other', level_note=c['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or NB[p['id']]))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Static analysis only: a clang-based extractor (tool/extract.cpp) dumps the resolved program from /repo on every run; engine/*.py decide the rules. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
