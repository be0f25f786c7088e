import mclib, toolbuild
LEVEL = 'exploration'


def run(c, build_only=False):
    fs = []
    for opt, san, cc in (('-O2', False, 'gcc'), ('-O1', True, 'gcc')):
        exe, so = toolbuild.tool(c, 'p17.c', 'F0', opt, san, cc, getopt=False)
        if not build_only:
            fs += c.shards(exe, so, 'own%s' % ('-san' if san else ''), san=san)
    for t in mclib.tags32('F0m'):
        exe, so = toolbuild.tool(c, 'p17.c', t, getopt=False)
        if not build_only:
            fs += c.shards(exe, so, 'own-m')
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME + ['the C library\'s getopt with a + before the options string is POSIX getopt', 'optind is compared at the end of the options only (POSIX leaves it open inside a group); an optind beyond the number of arguments counts as that number']
    return c.finish(rule='12 options strings x every argument list of up to 3 arguments out of 32 words and of up to 4 (thorough 5) out of 12 to 24; every word of up to '
                    '4 of 15 characters alone and before other words; every pair of words of up to 2 (3) characters; groups of up to 6 (7) options; 10 kinds of long command lines, groups and arguments to 65537; every call compared '
                    'with the C library in return value, option character, option argument, final index and number of calls, arguments at the edge of inaccessible '
                    'pages; non-trivial when at least one option was returned', exhaustive=True)
