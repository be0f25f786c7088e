import mclib, refcheck, toolbuild
LEVEL = 'fault_enumeration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san, cc in (('F0', '-O2', False, 'gcc'), ('F1', '-O1', True, 'gcc'), ('E0', '-O2', False, 'clang')):
        exe, so = toolbuild.tool(c, 'p12.c', tag, opt, san, cc)
        if not build_only:
            fs += c.shards(exe, so, '%s%s' % (tag, '-san' if san else ''), san=san)
    for t in mclib.tags32('F0m'):
        exe, so = toolbuild.tool(c, 'p12.c', t)
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME
    return c.finish(rule='runs of the tool on inputs of up to 7 (thorough 9) bytes with every buffer size up to two above, where every single read delivers every possible '
                    'count, nothing, or an error (the whole tree), the data end early or late; every call into the environment failing together with up to two (three) '
                    'unusual reads for all 16 selections; lengths around block and buffer boundaries with up to two unusual reads; every length up to 600 (2200) with six '
                    'buffer sizes; failing writes to stdout whole and partial; non-trivial when data were read or a call failed', exhaustive=True)
