import glob, hashlib, itertools, json, os, mclib, refcheck
LEVEL = 'exploration'
ALGS = mclib.ALGS
API = {'ex2': ['HAVE_EVP_DIGESTINIT_EX2'], 'ex': [], '1.0': ['HAVE_EVP_MD_CTX_INIT', 'HAVE_EVP_MD_CTX_CLEANUP']}


def configurations():
    """Every combination of the macros that configure can set (m4/libcrypto.m4), x loops, without those that differ in macros nothing can look at."""
    for loops in (0, 1):
        # no OpenSSL library; its headers may still have been looked for
        for md5h, shah in itertools.product((0, 1), repeat=2):
            yield ('none', md5h, shah, (), loops), (['HAVE_OPENSSL_MD5_H'] * md5h + ['HAVE_OPENSSL_SHA_H'] * shah), loops, None
        for md5h, shah in itertools.product((0, 1), repeat=2):
            yield ('noevp', md5h, shah, (), loops), (['HAVE_LIBCRYPTO'] + ['HAVE_OPENSSL_MD5_H'] * md5h + ['HAVE_OPENSSL_SHA_H'] * shah), loops, None
        for api in API:
            for md5h, shah in itertools.product((0, 1), repeat=2):
                for ev in itertools.product((0, 1), repeat=5):
                    d = ['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H'] + API[api] + ['HAVE_OPENSSL_MD5_H'] * md5h + ['HAVE_OPENSSL_SHA_H'] * shah
                    d += ['HAVE_EVP_' + a for a, e in zip(ALGS, ev) if e]
                    yield (api, md5h, shah, ev, loops), d, loops, api
    for d, api in (([], None), (mclib.EVP + API['ex2'], 'ex2')):
        for x in ('HAVE_LOCAL_LIBHMAC', 'HAVE_DEBUG_OUTPUT'):
            yield ('x', x, bool(d), (), 0), d + [x], 0, api


def name_of(k):
    return '%s-%s%s-%s-%s' % (k[0], k[1], k[2], ''.join(map(str, k[3])), 'loops' if k[4] else 'unrolled')


def run(c, build_only=False):
    refcheck.run(c)
    exe = c.b.harness('p10.c')
    b = c.b
    files = sorted(glob.glob(mclib.REPO + '/libhmac/*.c'))
    gens = {l: b.headers('gen%d' % l, [], bool(l)) for l in (0, 1)}
    cfgs = []
    for key, defs, loops, api in configurations():
        inc = b.incs(gens[loops], 'libhmac') + (['-I' + mclib.VERIF + '/mc/fake'] if api == '1.0' else [])
        cfgs.append((key, defs, loops, api, inc))
    base = ['-fPIC', '-w', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE']
    texts, src_of, lock = {}, {}, b.lock

    def pre(cfg, f):
        key, defs, loops, api, inc = cfg
        cmd = ['gcc', '-E', '-P', *base, *['-D%s=1' % d for d in defs], *inc, f]
        r = mclib.subprocess.run(cmd, stdout=mclib.subprocess.PIPE, stderr=mclib.subprocess.PIPE)
        if r.returncode:
            return key, f, None, r.stderr.decode(errors='replace'), cmd
        h = hashlib.sha256(r.stdout).hexdigest()[:20]
        return key, f, h, None, None
    futs = [b.pool.submit(pre, cfg, f) for cfg in cfgs for f in files]
    res = {}
    for fu in futs:
        key, f, h, err, cmd = fu.result()
        if h is None:
            c.add('%s %s' % (name_of(key), os.path.basename(f)), '[%s] %s does not preprocess: %s' % (name_of(key), os.path.basename(f), err[-200:]), {'cmd': cmd})
        res[key, f] = h
    # one compile per distinct (source, text) and compiler; the text is what decides
    objs = {}

    def obj(cfg, f, cc, opt):
        key, defs, loops, api, inc = cfg
        k = (f, res[key, f], cc, opt)
        with lock:
            if k in objs:
                return objs[k]
            o = '%s/%s-%d.o' % (b.root, os.path.basename(f)[:-2], len(objs))
            cmd = [cc, '-c', *base, *opt, *['-D%s=1' % d for d in defs], *inc, f, '-o', o]

            def work():
                r = mclib.sh(cmd)
                return (o, None, cmd) if r.returncode == 0 else (None, r.stdout, cmd)
            objs[k] = b.pool.submit(work)
            return objs[k]
    # stand-in provider for the OpenSSL 1.0 interface
    fake = []
    for f in ('mc/fake/evp_fake.c', 'mc/ref.c'):
        o = '%s/%s.o' % (b.root, os.path.basename(f)[:-2])
        b.cc(['gcc', '-c', '-O2', '-fPIC', '-w', '-I' + mclib.VERIF + '/mc/fake', '-I' + mclib.VERIF + '/mc', mclib.VERIF + '/' + f, '-o', o], f)
        fake.append(o)
    failed = set()
    count = {'runs': 0, 'libs': 0}

    def lib(cfg, cc, opt, n):
        key, defs, loops, api, inc = cfg
        os_ = []
        for f in files:
            if res[key, f] is None:
                return None
            o, err, cmd = obj(cfg, f, cc, opt).result()
            if o is None:
                with lock:
                    if (f, res[key, f]) not in failed:
                        failed.add((f, res[key, f]))
                        e = [l for l in err.splitlines() if 'error' in l][:1]
                        c.add('%s %s' % (name_of(key), os.path.basename(f)), '[%s] %s does not compile: %s' % (name_of(key), os.path.basename(f), e[0] if e else ''), {'cmd': cmd})
                return None
            os_.append(o)
        so = '%s/%s.so' % (b.root, n)
        cmd = [cc, '-shared', '-o', so, *[x for x in opt if x == '-flto'], '-Wl,-Bsymbolic', '-Wl,-z,now', *['-Wl,--wrap=' + w for w in mclib.WRAPS], *os_, *(fake if api == '1.0' else []),
               *(['-lcrypto'] if 'HAVE_LIBCRYPTO' in defs else [])]
        r = mclib.sh(cmd)
        if r.returncode:
            c.add('%s link' % name_of(key), '[%s] the objects do not link: %s' % (name_of(key), r.stdout[-300:]), {'cmd': cmd})
            return None
        count['libs'] += 1
        return so

    def job(cfg, cc, opt, small, i, n):
        if c.stopped:
            return
        tag = ('mix-' if small else '') + name_of(cfg[0]) + '-' + cc + ''.join(opt)
        so = lib(cfg, cc, opt, tag)
        if so and not build_only:
            count['runs'] += 1
            for s in range(n):
                c._shard([exe, '--lib', so, '--tag', tag] + (['--thorough'] if c.thorough else []) + ['--shard', '%d/%d' % (s, n)], tag, False, 3000)
    def public(cc, tag):
        """A program that includes the public header and links with the library, in C and in C++."""
        so = b.lib(tag, name='public-' + tag, wraps=())
        out = '%s/public-%s-%s' % (b.root, tag, cc)
        inc = b.incs(b.headers('public', [], False), 'libhmac')[:2]
        lang = ['-x', 'c++'] if '++' in cc else ['-x', 'c']
        cmd = [cc, '-O1', '-w', '-DMC_PUBLIC', '-I' + mclib.VERIF + '/mc', '-I' + mclib.VERIF + '/stubs', *inc, *lang, mclib.VERIF + '/mc/pub.c', '-x', 'none', *pubobj, so, '-Wl,-rpath,' + os.path.dirname(so), '-o', out]
        r = mclib.sh(cmd)
        key = 'public %s %s' % (tag, cc)
        if r.returncode:
            e = [l for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l][:1]
            c.add(key, '[%s] a program that includes the public header and links with the library does not build: %s' % (key, e[0] if e else r.stdout[-200:]), {'cmd': cmd})
            return
        if build_only:
            return
        rc, o, err = c.one([out], timeout=300)
        if rc == 0 and o.startswith('RUNS '):
            public_runs.append(int(o.split()[1]))
            return
        c.add(key, '[%s] a program that includes the public header: %s' % (key, (o.strip() or 'ends with %s' % rc)[:300]), {'cmd': [out], 'stderr': err[-500:]})
    pubobj, public_runs = [], []
    for f in ('mc/ref.c', 'stubs/libcerror_stub.c'):
        o = '%s/public-%s.o' % (b.root, os.path.basename(f)[:-2])
        b.cc(['gcc', '-c', '-O2', '-fPIC', '-w', '-I' + mclib.VERIF + '/mc', '-I' + mclib.VERIF + '/stubs', mclib.VERIF + '/' + f, '-o', o], f)
        pubobj.append(o)
    for cc in ('gcc', 'g++'):
        for tag in ('F0', 'E2'):
            public(cc, tag)
    # a 32 bit platform
    def job32(t, cc, opt, exe):
        tag = '%s-%s%s' % (t, cc, ''.join(opt))
        so = b.lib(t, opt=opt, cc=cc, name=tag)
        if not build_only and not c.stopped:
            c._shard([exe, '--lib', so, '--tag', tag] + (['--thorough'] if c.thorough else []) + ['--shard', '0/1'], tag, False, 3000)
    jobs32 = []
    if mclib.m32():
        exe32 = b.harness('p10.c', small=True)
        for t in ('F0m', 'F1m', 'E0m'):
            for cc, opt in (('gcc', '-O0'), ('gcc', '-O1'), ('gcc', '-O2'), ('gcc', '-O3'), ('gcc', '-Os'), ('clang', '-O0'), ('clang', '-O2'), ('clang', '-O3')):
                jobs32.append(c.pool.submit(job32, t, cc, (opt,), exe32))
    seen, distinct, jobs = set(), [], []
    for cfg in cfgs:
        t = tuple(res[cfg[0], f] for f in files)
        if t not in seen:
            seen.add(t)
            distinct.append(cfg)
    for i, cfg in enumerate(distinct):
        jobs.append(c.pool.submit(job, cfg, 'gcc', ('-O2',), True, i, 1))
    # a set of configurations in which every distinct text of every source occurs
    todo = {(f, res[cfg[0], f]) for cfg in distinct for f in files}
    cover = []
    while todo:
        best = max(distinct, key=lambda cfg: len({(f, res[cfg[0], f]) for f in files} & todo))
        cover.append(best)
        todo -= {(f, res[best[0], f]) for f in files}
    flags = [('gcc', ('-O0',)), ('gcc', ('-O1',)), ('gcc', ('-O2',)), ('gcc', ('-O3',)), ('gcc', ('-Os',)), ('gcc', ('-O2', '-funsigned-char')), ('gcc', ('-O2', '-flto')),
             ('gcc', ('-O3', '-march=native', '-funroll-loops')), ('gcc', ('-O2', '-D_FORTIFY_SOURCE=3', '-fstack-protector-strong')),
             ('clang', ('-O0',)), ('clang', ('-O1',)), ('clang', ('-O2',)), ('clang', ('-O3',)), ('clang', ('-Oz',)), ('clang', ('-O2', '-funsigned-char')), ('clang', ('-O3', '-march=native'))]
    for cfg in cover:
        for i, (cc, opt) in enumerate(flags):
            jobs.append(c.pool.submit(job, cfg, cc, opt, False, i, 1))
    c.wait(jobs + jobs32)
    return c.finish(coverage={'configurations': len(cfgs), 'distinct_configurations': len(distinct), 'distinct_source_texts': len({(f, h) for (k, f), h in res.items()}),
                              'covering_configurations': len(cover), 'compilers_and_flags': len(flags), 'libraries_built': count['libs'], 'libraries_run': count['runs'], 'public_header_scenarios': sum(public_runs)},
                    rule='every combination of the provider macros configure can define (per digest EVP, legacy headers, three EVP interfaces, none) x loop variant; '
                         'combinations whose preprocessed sources are the same are one; each distinct one is built and run, and a set covering every distinct source '
                         'text is built with every compiler and flag set and run on the full scenario list', exhaustive=True)
