#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.py: a property is claimed when checks/pNN.py exists."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    f = '%s/checks/%s.py' % (V, p['id'].lower())
    if os.path.exists(f) and p['id'] in NOTES:
        level = re.search(r"LEVEL = '(\w+)'", open(f).read()).group(1)
        t, n = NOTES[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': level, 'level_note': n})
    else:
        na.append({'property': p['id'], 'reason': 'no check registered yet'})
m = {'version': 1, 'setup_cmd': 'python3 mc/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check builds the unmodified sources itself (wrapping calls with the linker or through the compiler\'s instrumentation).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
