import mclib
LEVEL = 'exploration'


def run(c, build_only=False):
    gen = c.b.headers('gen', [], False)
    fs = []
    R = mclib.REPO
    for cc, opt, san in (('gcc', '-O0', False), ('gcc', '-O2', False), ('gcc', '-O3', False), ('gcc', '-O1', True), ('clang', '-O0', False), ('clang', '-O2', False), ('clang', '-O1', True)):
        n = 'p22-%s%s%s' % (cc, opt, '-san' if san else '')
        exe = '%s/%s' % (c.b.root, n)
        c.b.cc([cc, '-g', opt, '-w', '-rdynamic', '-DHAVE_CONFIG_H', '-o', exe, *(mclib.SAN if san else []), '-I' + mclib.VERIF + '/mc', *c.b.incs(gen, 'libhmac'), mclib.VERIF + '/checks/p22.c',
                mclib.VERIF + '/mc/h.c', mclib.VERIF + '/mc/ref.c', mclib.VERIF + '/stubs/libcerror_stub.c', '-ldl'], n)
        if not build_only:
            fs += c.shards(exe, None, n, san=san)
    if mclib.m32():
        exe = '%s/p22-m32' % c.b.root
        c.b.cc(['gcc', '-g', '-O2', '-w', '-rdynamic', '-DHAVE_CONFIG_H', *mclib.M32C, *mclib.M32X, '-o', exe, '-I' + mclib.VERIF + '/mc', *c.b.incs(c.b.headers('gen32', mclib.CONFIGS['F0m'][0], False), 'libhmac'),
                mclib.VERIF + '/checks/p22.c', mclib.VERIF + '/mc/h.c', mclib.VERIF + '/mc/ref.c', mclib.VERIF + '/stubs/libcerror_stub.c', *mclib.M32L], 'p22-m32')
        if not build_only:
            fs += c.shards(exe, None, 'p22-m32')
    c.wait(fs)
    return c.finish(rule='every byte value at every position in three backgrounds and every two byte values at every two positions for each width and byte order, read '
                    'and written (24 bit: every value; thorough 32 bit: every third value); every rotation distance below the width with every value (8, 16 bit) or '
                    'every word with one or two bits set or clear (32, 64 bit); block copies with every byte value at every position; two compilers, three '
                    'optimization levels, sanitizers', exhaustive=True)
