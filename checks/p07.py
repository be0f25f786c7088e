import mclib, refcheck
LEVEL = 'model_checking'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p07.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t, n=20 if t in ('F0', 'F1', 'O', 'E0') else 8)
    for t in mclib.tags32('F0m', 'E0m'):
        exe, so = c.b.harness('p07.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t, n=8)
    c.wait(fs)
    return c.finish(rule='built-in, legacy and stand-in EVP back ends: graph of exact memory images of two (all 15 pairs of digests) and three contexts under initialize, '
                    'update, finalize, free in both names and one-shot calls in between, every state replayed from scratch; OpenSSL EVP: every operation '
                    'sequence of two contexts up to depth 5 (thorough 7) executed from scratch')
