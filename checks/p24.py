import mclib, refcheck, toolbuild
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for opt, san, cc, getopt in (('-O2', False, 'gcc', True), ('-O2', False, 'gcc', False), ('-O1', True, 'gcc', False)):
        exe, so = toolbuild.tool(c, 'p24.c', 'F0', opt, san, cc, getopt=getopt)
        if not build_only:
            fs += c.shards(exe, so, '%s%s' % ('libc' if getopt else 'own', '-san' if san else ''), san=san)
    for t in mclib.tags32('F0m'):
        exe, so = toolbuild.tool(c, 'p24.c', t)
        if not build_only:
            fs += c.shards(exe, so, 'libc-m')
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME + ['of an option given twice the last counts; operands after the first are not judged; a failed write of the version line is not judged']
    return c.finish(rule='every argument list of up to 3 arguments out of 36 words, 4 out of 18 (thorough 32), 5 out of 8 (14), 6 out of 6 (10), with the C library\'s getopt '
                    '(permuting) and with the bundled parser, against a model of the documented behaviour driven by the C library\'s getopt; every write to stdout '
                    'failing for all lists of up to two arguments; 12 kinds of long command lines; non-trivial when there is an argument', exhaustive=True)
