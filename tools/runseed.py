#!/usr/bin/env python3
"""runseed.py [SEED[:PID,...]]...: runs checks (of the seed's property by default) on a scratch copy of the repository with the seed applied."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for t in todo:
    s, _, p = t.partition(':')
    d = '%s/seeded/%s' % (V, s)
    pids = p.split(',') if p else [json.load(open(d + '/meta.json'))['property']]
    r = '/tmp/runseed-%d' % os.getpid()
    subprocess.check_call(['rm', '-rf', r]); subprocess.check_call(['cp', '-a', '/repo', r])
    subprocess.check_call(['git', '-C', r, 'apply', d + '/patch.diff'])
    for pid in pids:
        t0 = time.time()
        x = subprocess.run(['python3', V + '/check.py', pid], env=dict(os.environ, MC_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=V)
        v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-28s %s %s rc=%d %.0fs %s' % (s, pid, 'CAUGHT' if x.returncode == 1 and any('property=%s ' % pid in l for l in v) else 'MISSED', x.returncode, time.time() - t0, (v or x.stdout.splitlines()[-1:] or [''])[0][:120]), flush=True)
    subprocess.check_call(['rm', '-rf', r])
