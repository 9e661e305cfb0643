#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/props.py."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'driver'))
from props import PROPS, NOT_APPLICABLE
m = {'version': 1,
     'setup_cmd': 'cargo build --offline --quiet --manifest-path extract/Cargo.toml',
     'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
     'notes': 'Every check extracts the functions mechanically from /repo\'s current source, attaches the contracts of /verif/contracts and has the '
              'deductive verifier discharge every obligation; see DESIGN.md. /repo carries no hooks.'}
for k, c in sorted(PROPS.items()):
    m['checks'].append({'property': k, 'quick_cmd': 'python3 driver/check.py ' + k,
                        'thorough_cmd': 'VERIF_TIER=thorough python3 driver/check.py ' + k,
                        'technique': c.get('technique', 'contract-based deductive verification of the extracted real code (Verus/Z3)'),
                        'level': 'proof', 'level_note': c['note']})
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
