import mclib, refcheck
LEVEL = 'fault_enumeration'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p06.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    for t in mclib.tags32('F0m', 'F1m'):
        exe, so = c.b.harness('p06.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions.append('what the digest provider keeps per thread for its own error queue is released before blocks are counted')
    return c.finish(rule='every public call with enumerated arguments (lengths to three blocks and 17 from 255 bytes to 1 MiB), with every set of up to 3 (thorough 6) of its allocations failing (library and provider '
                    'allocations alike, as a decision tree over the allocations each run asks for), with and without an error asked for, then the same call '
                    'again with memory, next to another live context; non-trivial when at least one allocation failed', exhaustive=True)
