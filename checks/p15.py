import mclib, toolbuild
LEVEL = 'exploration'


def run(c, build_only=False):
    fs = []
    for opt, san, cc in (('-O2', False, 'gcc'), ('-O2', False, 'clang'), ('-O1', True, 'gcc')):
        exe, so = toolbuild.tool(c, 'p15.c', 'F0', opt, san, cc)
        if not build_only:
            fs += c.shards(exe, so, '%s%s%s' % (cc, opt, '-san' if san else ''), san=san)
    for t in mclib.tags32('F0m'):
        exe, so = toolbuild.tool(c, 'p15.c', t)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME
    return c.finish(rule='every string of up to 6 (thorough 7) characters out of "019.KmiB x" and of up to 5 (6) out of "05.,GykbBi \\x80" with both decimal points; for every prefix '
                    'in both cases x 12 suffixes x 16 fractions x spacing the 34 numbers around every limit; digit strings of up to 60 digits; long texts to 65536 characters; numbers around 2^64 and the '
                    'first hundred thousand; the same through the -p option, observed by the sizes of the reads; writing: every size around each multiple of '
                    'each power, every hundredth below ten, around each power of two with every buffer size up to 24, the first 120000', exhaustive=True)
