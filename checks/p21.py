import mclib
LEVEL = 'exploration'


def run(c, build_only=False):
    V = mclib.VERIF
    exe = c.b.harness('p21.c', core=False, extra=[V + '/mc/h.c', V + '/mc/ref.c'])
    san = c.b.harness('p21.c', san=True, core=False, extra=[V + '/mc/h.c', V + '/mc/ref.c'])
    fs = []
    for tag, cc, opt, s in (('F0', 'gcc', '-O0', False), ('F0', 'gcc', '-O2', False), ('E2', 'gcc', '-O2', False), ('F0', 'clang', '-O2', False), ('F1', 'gcc', '-O1', True)):
        so = c.b.lib(tag, opt=(opt,), cc=cc, san=s)
        if not build_only:
            fs += c.shards(san if s else exe, so, '%s-%s%s%s' % (tag, cc, opt, '-san' if s else ''), san=s)
    for tag in mclib.tags32('F0m'):
        exe, so = c.b.harness('p21.c', core=False, extra=[V + '/mc/h.c', V + '/mc/ref.c'], small=True), c.b.lib(tag)
        if not build_only:
            fs += c.shards(exe, so, tag)
    c.wait(fs)
    c.assumptions.append('the error library is a stand-in written from its public interface (libcerror is not part of the tree)')
    return c.finish(rule='every public error function with every error x destination x 28 sizes x 19 scripted results of the error library, and every history of up to '
                    'five (thorough six) rejected calls and frees on two errors followed by every way of observing them (sizes from two below to two above the '
                    'length of the text), twice in a row for the shorter ones', exhaustive=True)
