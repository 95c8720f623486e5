#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (properties that have jobs) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {'C22': 'The code is a pybind11 wrapper: its behaviour lies in the CPython and pybind11 runtimes (foreign-function boundary, type casters, reference counting), which cannot be encoded with the library code; the container visibility it promises is decided by pybind11 opaque-type machinery, not by code of this repository.'}
m = dict(version=1, setup_cmd='make -C engine', checks=[], not_applicable=[], notes='One driver (check.py) compiles the current sources to LLVM IR, executes them symbolically with engine/amisym and decides the assertions with exact algebraic normalisation and z3; every counterexample is replayed against a native build.')
m['setup_cmd'] = 'make -C engine'
for i in ids:
    p = checks.PROPS.get(i)
    if not p or i in NA:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check registered yet'))); continue
    m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --quick' % i, thorough_cmd='python3 check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
        technique=p.get('technique', 'symbolic execution of the LLVM IR of the real sources, assertions decided by SMT (z3)'), level='model_checking',
        level_note=p.get('note', 'All paths and all values within the stated bounds; exact real arithmetic instead of rounding; trusts clang, amisym and z3; counterexamples are replayed natively.')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks')
