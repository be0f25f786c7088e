#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between its markers) from properties.jsonl, tools/design.json, known_findings.txt and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(V + '/tools/design.json'))
notes = json.load(open(V + '/tools/notes.json'))
props = ''
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; x = d[i]
    props += '### %s. %s\n\n%s\n\n* Technique: %s.\n* Enumerated: %s\n* Oracle: %s\n* Cost: %s.\n* Why tests cannot: %s\n\n' % (i, p['title'], p['statement'], notes[i][0], x['enum'], x['oracle'], x['cost'], p['why_tests_cant'])
fixed = ''.join('* %s (%s): %s.\n' % (m[1], m[2], m[3]) for m in re.finditer(r'^fixed: property=(\S+) (\S+) (.*)$', open(V + '/known_findings.txt').read(), re.M)) + '\n'
seeds = '| change | property | what it needs |\n|---|---|---|\n'
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seeds += '| %s | %s | %s |\n' % (s, m['property'], m['needs'].replace('|', '/'))
t = open(V + '/tools/DESIGN.in').read()
open(V + '/DESIGN.md', 'w').write(t.replace('@PROPS@', props).replace('@FIXED@', fixed).replace('@SEEDS@', seeds + '\n'))
