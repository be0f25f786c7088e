import mclib, refcheck
LEVEL = 'model_checking'


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p09.c', openssl=False)
    fs = []
    wraps = mclib.WRAPS + ['memcpy', 'memmove', 'memset', 'memcmp', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_once']
    for t in mclib.ALLTAGS:
        so = c.b.lib(t, opt=('-O1',), wraps=wraps, extra=('-fsanitize=thread', '-fno-builtin', '--param=tsan-distinguish-volatile=1'), name=t + '-tsan')
        if not build_only:
            fs += c.shards(exe, so, t)
    c.wait(fs)
    c.assumptions += ['sequentially consistent interleaving of the instrumented accesses; calls into OpenSSL are atomic steps',
                      'only results are judged, not the mere presence of unsynchronised accesses']
    return c.finish(coverage={'schedules': c.total('evals'), 'scenarios': c.total('nontrivial')},
                    rule='two (pairs of digests x pairs of operations) and three threads on their own contexts; all schedules with up to 2 (thorough 3; three '
                    'threads 1, thorough 2) preemptions at API calls, allocations, frees, lock operations and accesses to locations shared between threads with a '
                    'writer; states counts fully explored thread programs, transitions scheduling points executed, every schedule runs on the real code')
