#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
PROOF = {}      # id -> level note
exec(open(os.path.join(here, 'tools', 'proof_notes.py')).read())
BOUND = 'run-time contract evaluations on generated cases; sizes, worker counts and spectra are those of the generators in conc/ (vectors up to a few dozen, up to 7 simulated workers)'
checks, meta = [], {}
for p in props:
    i = p['id']
    has = i in PROOF
    note = PROOF.get(i, {}).get('note', 'Bounded stand-in only: contracts evaluated at run time on the real code over generated cases; nothing is proved for this property yet.')
    meta[i] = dict(proof=has, level=PROOF[i].get('level', 'proof') if has else 'exploration', bounded=BOUND, max=1500, seconds=45, assumptions=PROOF.get(i, {}).get('assumptions', []))
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i, technique=PROOF[i].get('technique', 'deductive verification of contracts on the real code (weakest-precondition style symbolic execution of the Python AST, z3 and certified ideal membership), plus run-time contracts') if has else 'contracts on the real functions, evaluated at run time (bounded stand-in)',
                       level=meta[i]['level'], level_note=note, evidence_file='evidence/%s.json' % i))
json.dump(meta, open(os.path.join(here, 'checks.json'), 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks, not_applicable=[], notes='See DESIGN.md.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
