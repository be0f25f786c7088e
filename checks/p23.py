import mclib, refcheck, toolbuild
LEVEL = 'fault_enumeration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san in (('F0', '-O2', False), ('F1', '-O1', True)):
        exe, so = toolbuild.tool(c, 'p23.c', tag, opt, san)
        if not build_only:
            fs += c.shards(exe, so, '%s%s' % (tag, '-san' if san else ''), san=san)
    for t in mclib.tags32('F0m'):
        exe, so = toolbuild.tool(c, 'p23.c', t)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME + ['allocations inside the support libraries do not fail on their own: the call that would make them does']
    return c.finish(rule='25 argument lists (help, copyright, every kind of usage error, repeated and unknown types) and all 1408 combinations of digest types, 11 buffer sizes, verbose and missing input, x every '
                    'event of the run (allocation, support library call, signal setup, write to stdout) failing alone and in every combination of up to 3 or 4 '
                    '(thorough 8) such events; judged: exit status and output, live allocations, file handles, split strings and errors at the '
                    'end, use of released memory (address sanitizer); non-trivial when something failed', exhaustive=True)
