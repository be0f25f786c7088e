import mclib, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p08.c')
    fs = []
    builds = [(t, cc, o) for t in mclib.ALLTAGS for cc, o in ((('gcc', '-O0'), ('gcc', '-O2')) + ((('clang', '-O2'), ('gcc', '-O3')) if c.thorough or t in ('F0', 'E2') else ()))]
    for t, cc, o in builds:
        so = c.b.lib(t, opt=(o,), cc=cc)
        if not build_only:
            fs += c.shards(exe, so, '%s-%s%s' % (t, cc, o), n=4)
    for t in mclib.tags32('F0m', 'F1m'):
        exe, so = c.b.harness('p08.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t + '-gcc-O2', n=4)
    c.wait(fs)
    c.assumptions.append('material is looked for as windows of 8 consecutive bytes in the block handed to the allocator; copies in registers and on the stack are outside the property')
    return c.finish(rule='every block at the moment it is released, in enumerated HMAC, one-shot and context scenarios (lengths, to 1 MiB, x valid and invalid arguments x every '
                    'single allocation failing, thorough up to three), compilers and optimization levels; and every finalized context of the built-in digests; '
                    'each scenario is generated once and holds secret material', exhaustive=True)
