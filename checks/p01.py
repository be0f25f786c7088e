import mclib, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p01.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    for t in mclib.tags32('F0m', 'F1m'):
        exe, so = c.b.harness('p01.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions += ['reference digests (mc/ref.c) agree with hashlib on every length 0..1023 this run',
                      'messages beyond the enumerated lengths and contents behave like the enumerated ones of the same code path']
    return c.finish(rule='one-shot call on an enumerated message: every length up to the bound x patterns x alignments, every byte value at every position, '
                    'every message of 0..2 (thorough 3) bytes, flipped bit pairs of a block, repeated special words, lengths around powers of two; each '
                    '(digest, message, alignment) is generated once, non-trivial when the message is not empty', exhaustive=True)
