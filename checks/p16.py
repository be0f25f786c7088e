import mclib, toolbuild
LEVEL = 'exploration'


def run(c, build_only=False):
    fs = []
    for opt, san, cc in (('-O0', False, 'gcc'), ('-O2', False, 'gcc'), ('-O3', False, 'clang'), ('-O1', True, 'gcc')):
        so = toolbuild.so(c, 'F0', opt, san, cc)
        exe = c.b.harness('p16.c', san=san, openssl=False, extra=[mclib.VERIF + '/mc/toolstub.c'])
        if not build_only:
            fs += c.shards(exe, so, '%s%s%s' % (cc, opt, '-san' if san else ''), san=san)
    for t in mclib.tags32('F0m'):
        so, exe = toolbuild.so(c, t), c.b.harness('p16.c', extra=[mclib.VERIF + '/mc/toolstub.c'], small=True)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    return c.finish(rule='every byte value at every position of 19 sizes over three backgrounds with three destination sizes; every destination size from 0 to four above what is '
                    'needed for every size up to 300 (thorough 2000); extreme sizes and missing arguments; input and destination end at inaccessible pages; four builds', exhaustive=True)
