import mclib, refcheck
LEVEL = 'model_checking'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p05.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t, n=5)
    for t in mclib.tags32('F0m', 'F1m', 'E0m'):
        exe, so = c.b.harness('p05.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t, n=5)
    c.wait(fs)
    return c.finish(rule='states are exact memory images of a context (and the library\'s writable data) reached by updates of 8 sizes up to 3 blocks (thorough 5) and '
                    'finalize; in every state each of 46 invalid calls plus every too small output size of five calls is made with and without an error '
                    'asked for; valid calls with the largest output size, SSIZE_MAX, succeed, as do those without an error reference or with one that holds an earlier error; an image changed by a rejected call is a new state; every path is replayed from a fresh context with rejected calls interleaved')
