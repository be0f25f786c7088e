import mclib, pybuild, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san, cc in (('E2', '-O2', False, 'gcc'), ('F0', '-O2', False, 'gcc'), ('F0', '-O1', True, 'gcc')):
        exe, so = pybuild.tool(c, 'p18.c', tag, opt, san, cc)
        if not build_only:
            if tag == 'E2':
                fs += c.shards(exe, so, 'E2-large', n=5)
                if not c.thorough:
                    continue
            fs += c.shards(exe, so, tag + ('-san' if san else ''), san=san, n=8)
    c.wait(fs)
    c.assumptions += pybuild.ASSUME + ['what an object returns after finalize and before the next __init__ is not judged, beyond not crashing and raising or returning properly']
    return c.finish(rule='every sequence of up to 5 (thorough 6) of 20 operations on two context objects and the module functions, for pairs of digests (4 and 5 for all pairs); '
                    'every message length up to 3 blocks, every key length up to 2 blocks, every triple of 14 update sizes; every value of the first, last and all bytes at 20 lengths in 6 places (digest, HMAC data and key, first and second update, bytes subclass); every wrong argument pattern for every function; '
                    'arguments to 2^24 bytes, histories of 66000 operations and 4100 objects; messages and keys beyond 4 GiB; non-trivial when an operation of the extension ran', exhaustive=True)
