"""Building the Python extension as a shared object driven from an embedded interpreter.

Every function of the interpreter the extension calls is wrapped by a generated
trampoline that first tells the harness (mc_py_call), so the harness sees what
is called while the interpreter lock is given up."""
import glob, os, re, sysconfig, mclib

ASSUME = ['libcerror, which is not part of the tree, is a stand-in written from its interface',
          'CPython 3.12 as installed; the extension is compiled from the tree and linked with the library of the same tree']
INC = '/usr/include/python3.12'
OWN = {'PyEval_SaveThread', 'PyEval_RestoreThread', 'Py_IncRef', 'Py_DecRef', '_Py_Dealloc'}


def ext(c, tag, opt='-O2', san=False, cc='gcc', instrument=False, name=None, extra=()):
    R = mclib.REPO
    defs, loops = mclib.CONFIGS[tag]
    n = name or 'py-%s-%s%s-%s%s' % (tag, opt.strip('-'), '-san' if san else '', cc, '-ins' if instrument else '')
    inc = ('-I' + R + '/pyhmac', '-I' + INC, *extra)
    lib_srcs, py_srcs = sorted(glob.glob(R + '/libhmac/*.c')), sorted(glob.glob(R + '/pyhmac/*.c'))
    if instrument:
        inc += ('-finstrument-functions', '-finstrument-functions-exclude-file-list=pyhmac/')
    base = c.b.lib(tag, opt=(opt,), san=san, cc=cc, name=n + '-plain', defines=list(defs), loops=loops, srcs=lib_srcs + py_srcs, extra=inc)
    und = set(re.findall(r' U (_?Py\w+)', mclib.sh(['nm', '-D', base]).stdout))
    fun = set(re.findall(r' [TW] (_?Py\w+)', mclib.sh(['nm', '-D', '/usr/lib/x86_64-linux-gnu/libpython3.12.so']).stdout))
    if not und & fun:
        raise mclib.Broken('the extension calls no function of the interpreter')
    wr = sorted(und & fun)
    tramp = '%s/%s-tramp.c' % (c.b.root, n)
    with open(tramp, 'w') as f:
        for s in wr:
            if s in OWN:
                continue
            f.write('''__asm__(".text\\n.globl __wrap_%(s)s\\n.type __wrap_%(s)s,@function\\n__wrap_%(s)s:\\n"
"push %%rdi\\npush %%rsi\\npush %%rdx\\npush %%rcx\\npush %%r8\\npush %%r9\\npush %%rax\\n"
"lea .Ln_%(s)s(%%rip),%%rdi\\ncall mc_py_call@PLT\\n"
"pop %%rax\\npop %%r9\\npop %%r8\\npop %%rcx\\npop %%rdx\\npop %%rsi\\npop %%rdi\\n"
"jmp __real_%(s)s@PLT\\n"
".section .rodata\\n.Ln_%(s)s: .asciz \\"%(s)s\\"\\n.text\\n");
''' % {'s': s})
    return c.b.lib(tag, opt=(opt,), san=san, cc=cc, name=n, defines=list(defs), loops=loops, srcs=lib_srcs + py_srcs + [tramp], extra=inc, wraps=mclib.WRAPS + wr)


def tool(c, src, tag, opt='-O2', san=False, cc='gcc', instrument=False):
    exe = c.b.harness(src, san=san, openssl=False, extra=('-I' + INC, '-lpython3.12'))
    return exe, ext(c, tag, opt, san, cc, instrument)
