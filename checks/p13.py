import os, re, subprocess
import refcheck, toolbuild
LEVEL = 'exploration'
BUILDS = [('F0', '-O2', 'gcc', ()), ('F0', '-O0', 'gcc', ()), ('F0', '-O3', 'clang', ())]
MORE = [('F0', '-O1', 'gcc', ()), ('F0', '-Os', 'gcc', ()), ('F0', '-O2', 'clang', ()), ('F1', '-O2', 'gcc', ('-flto', '-ffat-lto-objects'))]


def skips(so):
    """The block transforms: interrupts inside are looked at in the runs without failures only."""
    out = []
    for l in subprocess.run(['nm', '-S', so], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        m = re.match(r'([0-9a-f]+) ([0-9a-f]+) [tT] (libhmac_\w*transform\w*)', l)
        if m:
            a, n = int(m.group(1), 16), int(m.group(2), 16)
            out.append('%x-%x' % (a, a + n))
    return ','.join(out)


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for tag, opt, san, cc in (('F0', '-O2', False, 'gcc'), ('F0', '-O1', True, 'gcc')):
        exe, so = toolbuild.tool(c, 'p13.c', tag, opt, san, cc)
        if not build_only:
            fs += c.shards(exe, so, 'calls%s' % ('-san' if san else ''), san=san)
    for tag, opt, cc, extra in BUILDS + (MORE if c.thorough else []):
        exe, so = toolbuild.tool(c, 'p13.c', tag, opt, False, cc, extra=extra, name='tool-step-%s%s%s%s' % (tag, opt, cc, '-lto' if extra else ''))
        if not build_only:
            fs += c.shards('/usr/bin/env', so, '%s%s%s' % (cc, opt, '-lto' if extra else ''), pre=['MC_SKIP=' + skips(so), exe])
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME + ['giving SIGINT its default action back does not fail', 'while SIGINT has its default action an interrupt ends the process at once, which counts as a prompt end',
                                         'the interrupt is delivered by calling the installed handler at that point, on the stack of the program, as the kernel does']
    return c.finish(rule='every run of 9 (success with different digests and buffer sizes, missing input, early end of data, empty input): an interrupt before and after every '
                    'call to the outside (allocation, release, support library, signal setup, output), two and three interrupts, with every single call failing; an interrupt '
                    'before every machine instruction of the tool and the library in three builds (thorough: seven), in successful runs and in runs with every single call '
                    'failing (thorough: with a second interrupt at every later call); released blocks are inaccessible; non-trivial when the handler ran', exhaustive=True)
