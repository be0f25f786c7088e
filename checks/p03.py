import mclib, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p03.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    for t in mclib.tags32('F0m', 'F1m'):
        exe, so = c.b.harness('p03.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions += ['reference HMACs (mc/ref.c) agree with Python hmac for 300 key lengths per digest this run']
    return c.finish(rule='one-shot HMAC on an enumerated (key, message, output size): the full grid of key lengths 0..3 blocks+10 (thorough 5 blocks) and message '
                    'lengths 0..2 blocks+19 (thorough 3 blocks), long keys and messages, output buffers up to 300 (600) bytes larger, every key byte value at every '
                    'position, all keys of 0..2 bytes, key and message in the same memory, alignments; non-trivial when key or message is not empty', exhaustive=True)
