#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the check functions' descriptions, the registry, the findings and the planted bugs."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from xsa.checks import MODULES, TECHNIQUE, NOTES, NOT_APPLICABLE


def doc(mod, fn):
    t = ast.parse(open(os.path.join(HERE, 'xsa', 'checks', mod + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name == fn:
            return ' '.join((ast.get_docstring(n) or '').split())
    return ''


def main():
    props = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        props[p['id']] = p
    seeds = {}
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
    extra = json.load(open(os.path.join(HERE, 'tools', 'design_notes.json')))
    for pid in sorted(props):
        p = props[pid]
        out.append('### %s %s' % (pid, p['title']))
        out.append('')
        if pid in MODULES:
            out.append('*Decided by* `xsa/checks/%s.py:%s` - %s.' % (MODULES[pid], pid, TECHNIQUE[pid]))
            out.append('')
            out.append(doc(MODULES[pid], pid))
            out.append('')
            out.append('*Bounds and trust.* %s' % NOTES[pid])
            if pid in extra:
                out.append('')
                out.append('*Why tests cannot settle it; remarks.* ' + extra[pid])
            else:
                out.append('')
                out.append('*Why tests cannot settle it.* ' + p['why_tests_cant'])
            if pid in seeds:
                out.append('')
                for n, d in seeds[pid]:
                    out.append('*Planted:* `seeded/%s` - %s (%s)' % (n, d['what_it_breaks'].rstrip('.'),
                                                               'caught by ' + ', '.join(d['caught_by']) if d.get('caught_by') else 'see the matrix'))
        else:
            out.append('*Not applicable to static analysis here.* %s' % NOT_APPLICABLE[pid])
        out.append('')
    out += ['## Planted bugs and the checks that catch them', '', '| change | property | needs | caught by |', '|---|---|---|---|']
    for pid in sorted(seeds):
        for n, d in seeds[pid]:
            out.append('| %s | %s | %s | %s |' % (n, pid, ' '.join(d['needs'].split()), ', '.join(d.get('caught_by', [])) or '-'))
    out += ['', '## Defects found in xlrd', '']
    for line in open(os.path.join(HERE, 'known_findings.jsonl')):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        if line.startswith('fixed:'):
            out.append('* ' + line)
        else:
            d = json.loads(line)
            out.append('* not repaired: property=%s %s (key `%s`)' % (d['property'], d['what'], d['key']))
    out += ['', open(os.path.join(HERE, 'tools', 'design_tail.md')).read().rstrip(), '']
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
