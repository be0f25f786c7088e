#!/usr/bin/env python3
"""seed.py ID: (re)creates seeded/ID from a working copy /tmp/s/repo with the change applied; files demo.sh, demo.c|py, meta.json
must be in /tmp/s/ID. Confirms build, stable tests, demo without and with the change, in scratch copies of the repository laid at their real path by bind-less copying (demo.sh runs with the copy as cwd)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def main(i):
    s = '%s/seeded/%s' % (V, i)
    for f in os.listdir(V + '/tools/seedkit/stubs'):
        os.makedirs(s + '/stubs', exist_ok=True)
        shutil.copy('%s/tools/seedkit/stubs/%s' % (V, f), s + '/stubs')
    shutil.copy(V + '/tools/seedkit/kit.sh', s); shutil.copy(V + '/tools/seedkit/demo.h', s)
    r = '/tmp/seedrepo-%d' % os.getpid()
    shutil.rmtree(r, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', r])
    try:
        a = sh('cd %s && git checkout -q -- . && git apply --check %s/patch.diff' % (r, s))
        if a.returncode: print(i, 'patch does not apply', a.stdout); return 1
        b = sh('cd %s && timeout 300 bash %s/demo.sh' % (r, s))
        sh('cd %s && git apply %s/patch.diff' % (r, s))
        c = sh('cd %s && timeout 300 bash %s/demo.sh' % (r, s))
        # the build and the stable test on the changed sources
        t = sh("""cd %s && rm -rf /tmp/sb && mkdir /tmp/sb && I="-w -DHAVE_CONFIG_H -D_GNU_SOURCE -I_build/include -I_build/common -I_build/libhmac -Iinclude -Icommon -Ilibhmac" &&
            gcc $I -DLOCALEDIR='""' -c libhmac/libhmac.c -o /tmp/sb/a.o && gcc $I -c libhmac/libhmac_support.c -o /tmp/sb/b.o && gcc $I -Itests tests/hmac_test_support.c /tmp/sb/a.o /tmp/sb/b.o -o /tmp/sb/t && /tmp/sb/t; e=$?; rm -rf /tmp/sb; exit $e""" % r)
        ok = b.returncode == 0 and c.returncode not in (0, 99) and t.returncode == 0
        print('%s %s: clean %d, changed %d, stable %d' % (i, 'ok' if ok else 'NOT OK', b.returncode, c.returncode, t.returncode))
        if not ok: print(b.stdout[-1500:], '-----', c.stdout[-1500:], '-----', t.stdout[-800:])
        else: print('   ', (c.stdout.strip().splitlines() or [''])[-1][:200])
        json.load(open(s + '/meta.json'))
        return not ok
    finally:
        shutil.rmtree(r)
if __name__ == '__main__':
    sys.exit(sum(main(i) for i in sys.argv[1:]))
