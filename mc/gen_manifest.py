#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append({
        'property': p,
        'quick_cmd': 'python3 mc/check.py %s quick' % p,
        'thorough_cmd': 'python3 mc/check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': c.get('technique', 'exhaustive bounded enumeration of inputs/operation sequences on the real code against a reference model'),
        'level': c.get('level', 'model_checking'),
        'level_note': c.get('note') or ('Exhaustive within: ' + c['bounds'] + '. Assumes: ' + '; '.join(c.get('assumptions', []) or ['nothing beyond the bounds'])),
    })
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')} for p in props if p not in CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 mc/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds the code under test from /repo in a scratch directory of its own. No hooks are compiled into /repo: threads are controlled by interposing the pthread interface, data races by our own run-time behind -fsanitize=thread instrumentation.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
