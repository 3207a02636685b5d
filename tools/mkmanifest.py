#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/proplist.py (deterministic)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from proplist import PROPS
lines = []
checks, na = [], []
for p in PROPS:
    d = dict(id=p['pid'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
    if p['state']: d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in p['state']]
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps(d, ensure_ascii=False))
    mod = os.path.join(root, 'rv', 'props', p['pid'].lower() + '.py')
    if p['claimed'] and os.path.exists(mod):
        checks.append(dict(property=p['pid'], quick_cmd='bash check.sh %s quick' % p['pid'],
            thorough_cmd='bash check.sh %s thorough' % p['pid'], technique=p['tech'],
            level='exploration', level_note=p['note'] + ' Sampled executions of the real code only: no claim beyond the cases run.'))
    else:
        na.append(dict(property=p['pid'], reason='check not built yet' if p['claimed'] else p['claimed_reason']))
open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf-8').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='Pure Python runtime monitoring: no hooks in /repo; monitors wrap the public API at run time from /verif. See DESIGN.md.'),
    open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(lines), 'properties', len(checks), 'checks')
