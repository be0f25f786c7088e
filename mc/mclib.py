"""Building variants of the tree under test, running harness processes, judging, evidence."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
NCPU = max(2, os.cpu_count() or 4)
ALGS = ['MD5', 'SHA1', 'SHA224', 'SHA256', 'SHA512']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
EVP = ['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H'] + ['HAVE_EVP_' + a for a in ALGS]
CONFIGS = {  # tag: (defines, looped variant)
    'F0': ([], False),                                              # built-in, unrolled
    'F1': ([], True),                                               # built-in, loops
    'E2': (EVP + ['HAVE_EVP_DIGESTINIT_EX2'], False),               # OpenSSL EVP (the default here)
    'E1': (EVP, False),                                             # OpenSSL EVP before 3.0
    'E0': (EVP + ['HAVE_EVP_MD_CTX_INIT', 'HAVE_EVP_MD_CTX_CLEANUP'], False),  # OpenSSL 1.0 EVP (stand-in provider)
    'O':  (['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_MD5_H', 'HAVE_OPENSSL_SHA_H'], False),  # OpenSSL legacy calls
}
ALLTAGS = list(CONFIGS)
CONFIGS['F0m'] = (['SIZEOF_SIZE_T=4', 'SIZEOF_LONG=4'], False)       # built-in, 32 bit platform
CONFIGS['E0m'] = (CONFIGS['E0'][0] + ['SIZEOF_SIZE_T=4', 'SIZEOF_LONG=4'], False)   # with the stand-in provider
CONFIGS['F1m'] = (['SIZEOF_SIZE_T=4', 'SIZEOF_LONG=4'], True)
# the 32 bit C library is here, its development files are not
L32 = '/usr/lib32'
M32C = ['-m32', '-msse2', '-mfpmath=sse', '-fno-stack-protector', '-isystem', VERIF + '/mc/m32', '-idirafter', '/usr/include/x86_64-linux-gnu']
M32L = ['%s/%s' % (L32, x) for x in ('libc.so.6', 'libm.so.6', 'libgcc_s.so.1')] + ['-Wl,-rpath-link,' + L32]
M32X = ['-fno-pie', '-no-pie', '-nostdlib', VERIF + '/mc/m32/start.S', '-Wl,-dynamic-linker,/lib/ld-linux.so.2']
WRAPS = ['malloc', 'calloc', 'realloc', 'free']


class Broken(Exception):
    """The check itself could not do its work."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


_m32 = []


def m32():
    """Can programs for a 32 bit platform be built and run here?"""
    if not _m32:
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            open(d + '/a.c', 'w').write('#include <stdio.h>\nint main(int c,char**v){unsigned long long x=1ULL<<40;printf("%d %llu\\n",(int)sizeof(void*),x/(c+2));return 0;}')
            open(d + '/b.c', 'w').write('#include <stdio.h>\nint main(int c,char**v){unsigned _BitInt(128) x=(unsigned _BitInt(128))1<<100;printf("%d %llu\\n",(int)sizeof(void*),(unsigned long long)(x/(c+2)>>60));return 0;}')
            _m32.append(all(sh([cc, *M32C, d + f, *M32X, '-o', d + '/x', *M32L]).returncode == 0 and sh([d + '/x']).stdout.split() == ['4', '366503875925'] for cc, f in (('gcc', '/a.c'), ('clang', '/b.c'))))
    return _m32[0]


def tags32(*tags):
    """The configurations for a 32 bit platform, where that can be run."""
    return list(tags) if m32() else []


def tree_key(*extra):
    h = hashlib.sha256()
    files = []
    for d in ('libhmac', 'common', 'include', 'include/libhmac', 'hmactools', 'pyhmac'):
        files += [f for f in glob.glob('%s/%s/*' % (REPO, d)) if f.endswith(('.c', '.h', '.in'))]
    for d in ('mc', 'stubs'):
        files += [f for f in glob.glob('%s/%s/*' % (VERIF, d)) if f.endswith(('.c', '.h', '.py'))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


class Builder:
    def __init__(self, prop):
        self.root = os.path.join(VERIF, 'build', prop)
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.lock = threading.Lock()
        self.memo = {}

    def headers(self, name, defines, loops):
        d = os.path.join(self.root, name, 'gen')
        os.makedirs(d + '/libhmac', exist_ok=True)

        def subst(src, dst):
            s = open(src, errors='surrogateescape').read()
            s = s.replace('@VERSION@', '20241028').replace('@PACKAGE@', 'libhmac')
            for k in ('SYS_TYPES_H', 'INTTYPES_H', 'STDINT_H', 'WCHAR_H'):
                s = s.replace('@HAVE_%s@' % k, '1')
            s = re.sub(r'@HAVE_[A-Z0-9_]+@', '0', s)
            s = re.sub(r'@[A-Z][A-Z0-9_]*@', '0', s)
            if loops and dst.endswith('libhmac_definitions.h'):
                s = re.sub(r'(?m)^\s*#\s*define\s+LIBHMAC_UNFOLLED_LOOPS\b.*$', '', s)
            open(dst, 'w', errors='surrogateescape').write(s)
        subst(REPO + '/include/libhmac.h.in', d + '/libhmac.h')
        for f in ('definitions', 'features', 'types'):
            subst('%s/include/libhmac/%s.h.in' % (REPO, f), '%s/libhmac/%s.h' % (d, f))
        subst(REPO + '/common/types.h.in', d + '/types.h')
        subst(REPO + '/libhmac/libhmac_definitions.h.in', d + '/libhmac_definitions.h')
        with open(d + '/config.h', 'w') as f:
            for x in defines:
                k, _, v = x.partition('=')
                f.write('#define %s %s\n' % (k, v or '1'))
            f.write('#include "%s/mc/config_base.h"\n' % VERIF)
        return d

    def incs(self, gen, sub):
        return ['-I' + gen, '-I%s/include' % REPO, '-I%s/common' % REPO, '-I%s/%s' % (REPO, sub), '-I' + VERIF + '/stubs']

    def cc(self, cmd, what):
        r = sh(cmd)
        if r.returncode != 0:
            raise Broken('%s does not compile:\n%s\n%s' % (what, ' '.join(cmd), r.stdout[-3000:]))
        return r.stdout

    def lib(self, tag, opt=('-O2',), san=False, cc='gcc', wraps=WRAPS, extra=(), name=None, defines=None, loops=None, srcs=None, link=(), prefix_defs=()):
        """Build the library of one configuration as a shared object."""
        key = (tag, tuple(opt), san, cc, tuple(wraps), tuple(extra), name, tuple(prefix_defs))
        with self.lock:
            if key in self.memo:
                return self.memo[key]
        defs, lp = CONFIGS[tag] if defines is None else (defines, loops)
        n = name or '%s-%s%s-%s' % (tag, ''.join(opt).replace('-', '').replace('=', ''), '-san' if san else '', cc)
        gen = self.headers(n, list(defs), lp)
        small = tag.endswith('m')
        out = os.path.join(self.root, n)
        files = sorted(srcs or glob.glob(REPO + '/libhmac/*.c'))
        fake = 'HAVE_EVP_MD_CTX_INIT' in defs
        if fake:
            files += [VERIF + '/mc/fake/evp_fake.c', VERIF + '/mc/ref.c']
            extra = (*extra, '-I' + VERIF + '/mc/fake')
        flags = [cc, '-c', '-g', '-fPIC', '-w', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE', *opt, *(SAN if san else []), *prefix_defs, *extra, *(M32C if small else []), *self.incs(gen, 'libhmac')]
        jobs = []
        for f in files:
            o = '%s/%s.o' % (out, os.path.basename(f)[:-2])
            jobs.append((self.pool.submit(self.cc, flags + [f, '-o', o], os.path.basename(f)), o))
        objs = []
        for j, o in jobs:
            j.result()
            objs.append(o)
        so = out + '/libhmac.so'
        self.cc([cc, '-shared', '-o', so, *(['-m32', '-nostdlib'] if small else []), *(SAN if san else []), '-Wl,-Bsymbolic', '-Wl,-z,now',
                 *['-Wl,--wrap=' + w for w in wraps], *objs, *(['-lcrypto'] if 'HAVE_LIBCRYPTO' in defs and not fake else []), *(M32L if small else []), *link], 'shared object ' + n)
        with self.lock:
            self.memo[key] = so
        return so

    def harness(self, src, san=False, openssl=True, opt='-O2', extra=(), name=None, core=True, small=False, cc='gcc'):
        if small:
            openssl = False
        n = name or os.path.basename(src)[:-2] + ('-san' if san else '') + ('-ssl' if openssl else '') + ('-m32' if small else '')
        out = os.path.join(self.root, n)
        key = ('harness', n, src, san, openssl, opt, tuple(extra), core, small, cc)
        with self.lock:         # linked once: shards may already be running it
            if key in self.memo:
                return self.memo[key]
        self.cc([cc, '-g', opt, '-Wall', '-Wno-unused-function', '-Wno-unused-result', '-rdynamic', '-o', out, *(SAN if san else []),
                 *(['-DMC_OPENSSL'] if openssl else []), *(M32C + M32X if small else []), '-I' + VERIF + '/mc', '-I' + VERIF + '/stubs',
                 src if '/' in src else '%s/checks/%s' % (VERIF, src), *([VERIF + '/mc/h.c', VERIF + '/mc/ref.c', VERIF + '/stubs/libcerror_stub.c'] if core else []), *extra,
                 *(M32L if small else (['-lcrypto'] if openssl else []) + ['-ldl', '-lm', '-lpthread'])], 'harness ' + n)
        with self.lock:
            self.memo[key] = out
        return out


class Ctx:
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.viol = []          # (key, text, replay dict)
        self.stats = []
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.b = Builder(prop)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.known = load_known(prop)
        self.lock = threading.Lock()
        self.stopped = False     # an unlisted violation is confirmed: what still runs adds nothing to the verdict
        self.running = set()

    # -- running harness processes
    def env(self, san):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:allocator_may_return_null=1:handle_sigfpe=0:halt_on_error=1:abort_on_error=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        return e

    def one(self, cmd, san=False, timeout=3000, cwd=None, stoppable=False):
        """Runs a process. A stoppable one is ended as soon as an unlisted violation is confirmed."""
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(san), text=True, errors='replace', cwd=cwd)
        if stoppable:
            with self.lock:
                if self.stopped:
                    p.kill()
                else:
                    self.running.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return 'timeout', out, err
        finally:
            with self.lock:
                self.running.discard(p)

    def shards(self, exe, lib, tag, n=None, san=False, args=(), timeout=3000, pre=()):
        """Submit n shard processes; returns futures."""
        n = n or NCPU
        fs = []
        for i in range(n):
            cmd = [exe] + list(pre) + (['--lib', lib] if lib else []) + ['--tag', tag] + (['--thorough'] if self.thorough else []) + list(args) + ['--shard', '%d/%d' % (i, n)]
            fs.append(self.pool.submit(self._shard, cmd, tag, san, timeout))
        return fs

    def _shard(self, cmd, tag, san, timeout):
        if self.stopped:
            return
        rc, out, err = self.one(cmd, san, timeout, stoppable=True)
        if self.stopped and rc == -9:
            return
        self._digest(cmd, tag, san, rc, out, err, timeout)

    def _digest(self, cmd, tag, san, rc, out, err, timeout):
        got = False
        for line in out.splitlines():
            if line.startswith('MCSTAT '):
                st = json.loads(line[7:])
                got = True
                with self.lock:
                    self.stats.append(st)
                    for s in st.get('samples', [])[:2]:
                        if len(self.samples) < 24:
                            self.samples.append('%s: %s' % (tag, s))
            elif line.startswith('MCVIOL '):
                body, _, text = line[7:].partition(' # ')
                self._violation(cmd, tag, san, body.split(), text, err, timeout)
                got = True
        if not got:
            raise Broken('harness process gave no result (exit %s): %s\n%s\n%s' % (rc, ' '.join(cmd), out[-1500:], err[-3000:]))

    def _violation(self, cmd, tag, san, vec, text, err, timeout):
        base = cmd[:cmd.index('--shard')] if '--shard' in cmd else cmd
        rcmd = base + ['--replay'] + vec
        rc, out, rerr = self.one(rcmd, san, timeout, stoppable=True)
        how = 'scenario'
        for _ in range(3):
            if 'MCVIOL' in out or self.stopped:
                break
            rc, out, rerr = self.one(cmd, san, timeout, stoppable=True)
            how = 'whole shard'
            rcmd = cmd
        if 'MCVIOL' not in out:
            if self.stopped:
                return
            raise Broken('a reported violation does not repeat: %s # %s' % (' '.join(vec), text))
        m = re.search(r'MCVIOL [^#\n]*# (.*)', out)
        san_txt = '\n'.join((rerr or err).splitlines()[:40])
        self.add('%s %s' % (tag, ' '.join(vec)), '[%s] %s' % (tag, m.group(1) if m else text),
                 {'how': how, 'scenario': vec, 'tag': tag, 'cmd': rcmd, 'stderr': san_txt})

    def add(self, key, text, replay):
        with self.lock:
            self.viol.append((key, text, replay))
            if not any(k and (k in key or k in text) for k in self.known):
                self.stopped = True
                for p in self.running:
                    p.kill()

    def wait(self, futures):
        broken = None
        for f in futures:
            try:
                f.result()
            except Broken as e:
                broken = broken or e
        if broken and not self.stopped:     # a confirmed violation elsewhere decides
            raise broken

    # -- finishing
    def total(self, k):
        return sum(s.get(k, 0) for s in self.stats)

    def finish(self, coverage=None, rule='', exhaustive=None):
        cov = {}
        if self.level == 'model_checking':
            cov = {'states': self.total('states'), 'transitions': self.total('transitions'),
                   'traces_validated_against_impl': self.total('traces'), 'scenarios_executed': self.total('evals')}
        else:
            cov = {'evaluations': self.total('evals'), 'distinct_nontrivial': self.total('nontrivial'), 'rule': rule}
        if rule:
            cov['rule'] = rule
        if not self.viol and self.stats and self.total('evals') and not (self.total('nontrivial') or self.total('transitions')):
            raise Broken('nothing non-trivial was executed')
        per = {}
        for s in self.stats:
            p = per.setdefault(s.get('tag', '?'), {'processes': 0})
            p['processes'] += 1
            for k, v in s.items():
                if isinstance(v, (int, float)) and k not in ('shard', 'wall'):
                    p[k] = p.get(k, 0) + v
        cov['per_configuration'] = per
        if _m32:
            cov['platforms'] = ['64 bit', '32 bit'] if _m32[0] else ['64 bit (32 bit programs do not run here)']
        if exhaustive is not None:
            cov['exhaustive'] = exhaustive and not self.viol
        cov.update(coverage or {})
        cov['samples'] = self.samples[:24]
        new, seen = [], set()
        for key, text, replay in self.viol:
            k = next((k for k in self.known if k and (k in key or k in text)), None)
            if k is not None:
                if k not in seen:
                    seen.add(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
                continue
            new.append((key, text, replay))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assumptions, 'violations': len(new)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = '%s/evidence/.%s.json.%d' % (VERIF, self.prop, os.getpid())
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, '%s/evidence/%s.json' % (VERIF, self.prop))
        print('%s %s: %s' % (self.prop, self.tier, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))), 'wall=%.1fs' % ev['wall_s'])
        if new:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            for i, (key, text, replay) in enumerate(new[:5]):
                path = 'replays/%s-%d.json' % (self.prop, i)
                json.dump({'property': self.prop, 'key': key, 'what': text, **replay}, open(os.path.join(VERIF, path), 'w'), indent=1)
                print('  %s: %s' % (key, text))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0


def load_known(prop):
    out = []
    try:
        for line in open(VERIF + '/known_findings.txt'):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\]', line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out
