import mclib, pybuild, refcheck
LEVEL = 'fault_enumeration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san, cc in (('F0', '-O2', False, 'gcc'), ('F0', '-O1', True, 'gcc')):
        exe, so = pybuild.tool(c, 'p19.c', tag, opt, san, cc)
        if not build_only:
            fs += c.shards(exe, so, tag + ('-san' if san else ''), san=san, n=8)
    c.wait(fs)
    c.assumptions += pybuild.ASSUME + ['None is immortal in this interpreter: its references are counted at the calls that take and give them', 'memory of error objects (libcerror) does not run out']
    return c.finish(rule='every sequence of up to 5 (thorough 6) of 16 life-cycle operations; for all shorter sequences every native allocation and every allocation of the interpreter '
                    'inside the calls failing alone (also for every function with every kind of 19 arguments, positional and keyword, in every place), in pairs (two operations, thorough three) and from any point on; the import of the module with every allocation failing; '
                    'large arguments with allocations failing; histories of 66000 steps; non-trivial when an allocation failed', exhaustive=True)
