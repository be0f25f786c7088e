import mclib, pybuild, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san, ins in (('F0', '-O2', False, False), ('F0', '-O1', True, False), ('F0', '-O1', False, True)):
        exe, so = pybuild.tool(c, 'p20.c', tag, opt, san, 'gcc', instrument=ins)
        if not build_only:
            fs += c.shards(exe, so, tag + ('-san' if san else '') + ('-ins' if ins else ''), san=san, n=8)
    c.wait(fs)
    c.assumptions += pybuild.ASSUME + ['threads switch where the running thread does not hold the interpreter lock: after giving it up, at entries and exits of library functions, before taking it back (accesses in between are interleaved by P09)']
    return c.finish(rule='every operation of a first thread stopped at every point where it does not hold the lock x every operation of a second thread run there completely, or stopped '
                    'at each of its own points until the first is done, or with every operation of a third thread nested in it; every call of the extension into the interpreter is checked to hold the lock; '
                    'non-trivial when another thread ran', exhaustive=True)
