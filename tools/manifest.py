#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C': ('TLA+ specification Containers.tla: TLC simulation and exhaustive search, every behaviour replayed into the real containers and compared call by call',
       'Model checked within the stated constants; the binding covers the behaviours TLC generated, over several hash functions and capacities. Trusted: TLC and harness/containers.cpp.'),
 'M': ('TLA+ specification Motion.tla (exact rational dynamics): TLC exhaustive search and simulation, every behaviour replayed into the library and compared step by step',
       'Model checked within the stated constants; exact for orientations of the cube and dt = 1/2; compared with tolerance 2e-3. Trusted: TLC and harness/motion.cpp.'),
 'T': ('TLA+ specification Tree.tla: TLC exhaustive search and simulation, every behaviour replayed into the real AABB tree and compared call by call',
       'Model checked within the stated constants; the binding covers the behaviours TLC generated (up to 70 leaves; coordinates that make all arithmetic exact). Trusted: TLC and harness/tree.cpp.'),
 'A': ('TLA+ specification Alloc.tla (nondeterministic contract): call sequences generated by TLC, recorded on the real allocators (also from several threads), records accepted or rejected by TLC (trace validation)',
       'Model checked within the stated constants; concurrent schedules are those the operating system produced. Trusted: TLC and harness/alloc.cpp.'),
 'W': ('TLA+ specification World.tla: TLC exhaustive search and simulation, every behaviour replayed into the library and compared step by step',
       'Model checked within the stated constants; the binding covers the behaviours TLC generated (lattice geometry, quarter-unit coordinates). Trusted: TLC, the driver harness/world.cpp and its tolerance of 2e-3.'),
}
MAP = dict(P01='W', P02='W', P03='W', P04='W', P05='W', P08='W', P09='W', P18='W', P23='W', P11='C', P12='C', P06='M', P15='M', P22='M', P10='T', P13='A')
LEVEL = {}
NA = []
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': NA,
     'notes': 'python3 bin/check.py <id> decides a property; VERIF_TIER and VERIF_SEED are honoured. Specifications in TLA+ under spec/.'}
for p in props:
    t = TECH[MAP[p['id']]]
    m['checks'].append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 bin/check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + p['id'],
                        'technique': t[0], 'level': LEVEL.get(p['id'], 'model_checking'), 'level_note': t[1]})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
