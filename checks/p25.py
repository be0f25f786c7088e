import re, mclib, refcheck
LEVEL = 'fault_enumeration'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p25.c')
    names = re.findall(r'W\( (\w+), K', open(mclib.VERIF + '/checks/p25.c').read())
    fs = []
    for t in ('E2', 'E1', 'E0', 'O'):
        so = c.b.lib(t, wraps=mclib.WRAPS + names)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    return c.finish(rule='every call of the library into its digest provider (OpenSSL 3, 1.1 and 1.0 EVP interfaces, legacy calls) fails: alone and in pairs (thorough: '
                    'up to four at once), returning 0 or NULL, returning -1, or returning 0 after having had its effect; in every public function at seven short and 17 long '
                    'message and key lengths; non-trivial when a call failed', exhaustive=True)
