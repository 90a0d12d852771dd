#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plan import PLAN, TECH  # noqa: E402
checks = []
for p in sorted(PLAN):
    technique, note = TECH[p]
    checks.append({'property': p, 'quick_cmd': 'python3 bin/check.py ' + p,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': technique,
                   'level': PLAN[p].get('level', 'exploration'), 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': []}
with open(os.path.join(os.path.dirname(here), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
