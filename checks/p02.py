import mclib, refcheck
LEVEL = 'model_checking'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p02.c')
    fs = []
    for t in mclib.ALLTAGS:
        so = c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t, n=5 if not c.thorough else 10)
    for t in mclib.tags32('F0m', 'F1m', 'E0m'):
        exe, so = c.b.harness('p02.c', small=True), c.b.lib(t)
        if not build_only:
            fs += c.shards(exe, so, t, n=5)
    c.wait(fs)
    return c.finish(rule='states are exact memory images of one context (plus the library\'s writable data) after feeding a prefix of the message, explored '
                    'breadth first over every update size (0 included) up to 3 blocks + 9 bytes (thorough 4), from every state also finalize and three longer updates; '
                    'every state is reached again by plain execution of its path from a fresh context')
