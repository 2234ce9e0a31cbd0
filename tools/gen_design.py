#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 6. Planted bugs\n'
missed = {  # missed when first planted -> what was added
    'E02-acker-weak': 'C25 scales the input matrix (weak and strong actuators)',
    'E07-adjoint-leak': 'C32 draws orders up to 6-7, so nested determinants allocate',
    'E10-inverse-imag-det': 'complex generators put entries on the axes (exactly imaginary determinants)',
    'E15-simulate-rounds': 'C22 cuts the time at any fraction of a step, not only at one half',
    'E19-print-fill': 'C28 prints with other fill characters',
    'E25-length-end': 'C01 passes range arguments that reach beyond the object',
    'E26-det-cache': 'C34 changes an object in place and compares with equal fresh objects, at once or late',
}
mf = os.path.join(V, 'tools', 'missed.json')
if os.path.exists(mf): missed.update(json.load(open(mf)))
s = open(V + '/DESIGN.md').read()
i = s.find(MARK)
if i >= 0: s = s[:i]
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); k = os.path.basename(os.path.dirname(m))
    rows.append(f"| {k} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {('after strengthening: ' + missed[k]) if k in missed else 'yes'} |")
s += MARK + f'''
{len(rows)} changes, each validated by `tools/plant.py` in a scratch copy: it compiles, the existing tests pass, its
demonstration fails with it and passes without it.  Candidates whose demonstration did not discriminate, that broke an existing
test, or that touched only lines added by the fixes were discarded.  *Caught*: by the quick tier of the check of the property it is filed under.

| bug | property | breaks | needs | caught |
|---|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
