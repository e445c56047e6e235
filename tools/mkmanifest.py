#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check in bin/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
TRACE = 'explicit TLA+ specification; recorded executions of the real tool validated against it by TLC'
NOTE = ('Every recorded execution of the real binary is judged by TLC against the specification; exhaustive within the '
        'generated inputs only. Trusts the recorder (bin/tt.py), TLC and the specification.')
notes = getattr(props, 'NOTES', {})
checks, missing = [], []
for i in ids:
    if hasattr(props, i):
        technique, note = notes.get(i, (TRACE, NOTE))
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i,
                       'thorough_cmd': 'python3 bin/check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': technique, 'level': getattr(props, 'LEVELS', {}).get(i, 'model_checking'), 'level_note': note})
    else:
        missing.append({'property': i, 'reason': 'the check is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': missing,
           'notes': 'TLA+ specification in spec/, machinery in bin/. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(missing), 'not')
