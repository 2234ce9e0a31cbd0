#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
                           technique=c.get('technique', 'runtime monitoring: randomized executions of the real code under ASan+UBSan, compared online with an independent model'),
                           level=c.get('level', 'exploration'),
                           level_note=c.get('note', 'Held on every execution driven (numbers in the evidence file), in row- and column-major builds; trusts the oracle in harness/, the sanitizer runtimes and the compilers. Not a proof for all inputs.')))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Header-only library: every check compiles its harness from the working tree of /repo in several instrumented variants (row/column-major, ASan+UBSan, TSan, NDEBUG, valgrind) and drives it; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
