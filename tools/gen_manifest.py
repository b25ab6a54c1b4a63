#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TREE = ('TLA+ specification spec/Tree.tla, model-checked by TLC on small hierarchies (spec/TreeMC.tla: invariants and the refinement of '
        'the flat-index algorithm of the implementation to element-wise labels); the real code is walked along the transitions TLC '
        'enumerated and through random histories, and every step is validated against the specification by TLC (spec/TreeTrace.tla)')
NOTE = ('Every explored history of the real code is a behaviour of the specification as far as the recorded observations tell; '
        'bounded by the histories explored. Trusted: TLC, the specification and the recorder in harness/.')
T, N = {}, {}
NA = {}
from tools_registry import SPECS, NOT  # noqa
checks = []
for pid, (tech, note) in sorted(SPECS.items()):
    checks.append({'property': pid, 'quick_cmd': './check.py ' + pid, 'thorough_cmd': './check.py %s --thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid, 'technique': tech or TREE, 'level': 'model_checking', 'level_note': note or NOTE})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT.items())],
     'notes': 'Specification language: TLA+ with TLC. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
