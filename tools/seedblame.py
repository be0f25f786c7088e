#!/usr/bin/env python3
"""Lists planted changes whose removed lines do not all stem from the original commit of the repository."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
for s in sorted(os.listdir(V + '/seeded')):
    f = n = None; orig = own = 0; adds = 0
    for l in open('%s/seeded/%s/patch.diff' % (V, s)):
        if l.startswith('--- '): f = l[6:].strip()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l)[1])
        elif l.startswith('-'):
            b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-L', '%d,%d' % (n, n), '--', f], text=True)
            if b.lstrip('^')[:39] == base[:39]: orig += 1
            else: own += 1
            n += 1
        elif l.startswith(' '): n += 1
        elif l.startswith('+') and not l.startswith('+++'): adds += 1
    if own or not orig: print(s, 'original lines removed', orig, 'own', own, 'added', adds)
