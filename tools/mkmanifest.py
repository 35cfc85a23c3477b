#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the real code (weakest-precondition style symbolic execution of the LLVM IR clang emits from /repo, obligations discharged by an algebraic identity decider and z3)'
from notes import NOTES, NA
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    if p in NOTES:
        n = NOTES[p]
        level = 'proof'
        if isinstance(n, tuple): level, n = n
        checks.append(dict(property=p, quick_cmd='python3-vt -m kvc.run ' + p, thorough_cmd='python3-vt -m kvc.run ' + p, evidence_file='evidence/%s.json' % p, technique=T, level=level, level_note=n))
na = [dict(property=p, reason=NA.get(p, 'not yet under contract')) for p in props if p not in NOTES]
json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q kvc contracts', checks=checks, not_applicable=na, notes='see DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
