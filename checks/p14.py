import mclib, refcheck, toolbuild
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san, cc in (('F0', '-O2', False, 'gcc'), ('F1', '-O1', True, 'gcc')):
        exe, so = toolbuild.tool(c, 'p14.c', tag, opt, san, cc)
        if not build_only:
            fs += c.shards(exe, so, '%s%s' % (tag, '-san' if san else ''), san=san)
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME
    return c.finish(rule='-d with every list of up to three entries out of the 26 documented names and 47 near misses; every documented name with one character left out, '
                    'replaced or added (any byte), alone and in lists; every string of up to 5 (thorough 6) of the characters "md5sha1-_,MS" and up to 7 (8) of '
                    '"sha1,"; all orders of five entries; lists of up to 140 entries, 8 kinds of long lists and words with every count to 300 (1100) and around 512 to 131072; each run calculates real digests; non-trivial when a name selects something', exhaustive=True)
