#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, the check registry and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from xsa.checks import MODULES, TECHNIQUE, NOTES, NOT_APPLICABLE   # noqa

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in MODULES:
        cmd = 'python3 check.py %s' % i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': TECHNIQUE[i],
                       'level': 'other', 'level_note': NOTES[i]})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no static rule for it has been built')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"', 'checks': checks,
     'not_applicable': na,
     'notes': 'All checks share one static analyser (xsa/) that parses /repo with ast on every run; xlrd is never '
              'imported or executed by a check. Exit 2 means the analysis found nothing to decide.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
