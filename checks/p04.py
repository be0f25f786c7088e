import mclib, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p04.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t)
    san = c.b.harness('p04.c', san=True)
    for t in mclib.ALLTAGS:
        so = c.b.lib(t, opt=('-O1',), san=True)
        if not build_only:
            fs += c.shards(san, so, t + '-san', san=True)
    for t in mclib.tags32('F0m', 'F1m'):
        exe, so = c.b.harness('p04.c', small=True), c.b.lib(t, opt=('-O1',), extra=('-fsanitize=undefined', '-fno-sanitize=shift-base', '-fsanitize-undefined-trap-on-error'))
        if not build_only:
            fs += c.shards(exe, so, t)
    # uninitialised memory: clang's memory sanitizer, built-in digests only (the provider is not instrumented)
    ms = ('-fsanitize=memory', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all')
    mexe = c.b.root + '/p04-msan'
    c.b.cc(['clang', '-g', '-O1', '-w', '-DMC_NOFILL', '-rdynamic', '-o', mexe, *ms, '-I' + mclib.VERIF + '/mc', '-I' + mclib.VERIF + '/stubs', mclib.VERIF + '/checks/p04.c',
            mclib.VERIF + '/mc/h.c', mclib.VERIF + '/mc/ref.c', mclib.VERIF + '/stubs/libcerror_stub.c', '-ldl'], 'msan harness')
    for t in ('F0', 'F1', 'E0'):
        so = c.b.lib(t, opt=('-O1',), cc='clang', extra=ms, name=t + '-msan', link=ms)
        if not build_only:
            fs += c.shards(mexe, so, t + '-msan', san=True)
    c.wait(fs)
    return c.finish(rule='every (length, alignment, distance from an inaccessible page) up to the bound for one-shot digests, a full grid of key and message lengths for '
                    'HMAC, all triples of update sizes on a grid for contexts, 21 lengths from 1 KiB to 1 MiB, output buffers up to 300 bytes and up to 1 MiB larger; plain, address+undefined and memory sanitizer '
                    'builds; non-trivial when any input byte is given', exhaustive=True)
