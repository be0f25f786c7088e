import mclib, refcheck
LEVEL = 'exploration'


def run(c, build_only=False):
    refcheck.run(c)
    # the calls go through the prototypes of the public header; not optimized, or a tail call hides what they cut off
    inc = c.b.incs(c.b.headers('public', [], False), 'libhmac')[:2]
    pub = c.b.root + '/pub.o'
    c.b.cc(['gcc', '-c', '-O0', '-w', '-DMC_TABLE', '-I' + mclib.VERIF + '/mc', '-I' + mclib.VERIF + '/stubs', *inc, mclib.VERIF + '/mc/pub.c', '-o', pub], 'the public header')
    if mclib.m32():
        c.b.cc(['gcc', '-c', '-O0', '-w', '-DMC_TABLE', *mclib.M32C, '-I' + mclib.VERIF + '/mc', '-I' + mclib.VERIF + '/stubs', *inc, mclib.VERIF + '/mc/pub.c', '-o', c.b.root + '/pub32.o'], 'the public header')
    exe = c.b.harness('p11.c', extra=(pub,))
    fs = []
    what = {'F0': 'scumk', 'F1': 's', 'O': 'cum', 'E2': 'scumk', 'E1': 'c', 'E0': 'x'}
    for t in mclib.ALLTAGS:
        so = c.b.lib(t, opt=('-O3',))
        if not build_only:
            w = 'scumk' if c.thorough else what[t]
            fs += c.shards(exe, so, t + '-' + w, n=40 if c.thorough else 5 * len(w))
    if mclib.m32():
        smallexe = c.b.harness('p11.c', extra=(c.b.root + '/pub32.o',), small=True)
        so = c.b.lib('F0m', opt=('-O3',))
        if not build_only:
            fs += c.shards(smallexe, so, 'F0m-32', n=20)
    if c.thorough and not build_only:
        g = c.b.root + '/gen_large'
        c.b.cc(['gcc', '-O3', '-I' + mclib.VERIF + '/mc', mclib.VERIF + '/tools/gen_ref_large.c', mclib.VERIF + '/mc/ref.c', '-lpthread', '-o', g], 'reference generator')
        if mclib.sh([g]).stdout != open(mclib.VERIF + '/mc/ref_large.h').read():
            raise mclib.Broken('the stored reference states are not what mc/ref.c computes')
    c.wait(fs)
    return c.finish(rule='per digest and build: a context fed up to 1024 bytes before 2^29, 2^30, 2^31 and 2^32 bytes (thorough 2^33) and from there every continuation '
                    'of 0..2199 bytes and every pair (thorough triple) of 27 update sizes; one-shot digests of 2^29+1 and 2^32+13 bytes, updates of 2^31 and 2^32 '
                    'bytes each, HMAC messages and keys beyond 2^32 bytes', coverage={'boundary_states': c.total('states')}, exhaustive=True)
