import os
import mclib, p13, toolbuild, refcheck
LEVEL = 'exploration'
# harness: (tag, shards without, with sanitizer)
PARTS = {'p12': ('win', 8, 0), 'p14': ('win', 8, 0), 'p15': ('win', 4, 4), 'p16': ('win', 2, 2), 'p17': ('win', 4, 0), 'p23': ('win', 4, 8), 'p24': ('own-win', 4, 4),
         'p13': ('calls-win', 4, 4)}


def run(c, build_only=False):
    refcheck.run(c)
    fs = []
    for src, (tag, n, ns) in PARTS.items():
        if src not in os.environ.get('MC_PARTS', src).split(','):
            continue
        for san, k in ((False, n), (True, ns or 8 * c.thorough)):
            if k == 0:
                continue
            exe, so = toolbuild.win(c, src + '.c', '-O1' if san else '-O2', san, loops=san, stub=src == 'p16')
            if not build_only:
                fs += c.shards(exe, so, '%s-%s%s' % (tag, src, '-san' if san else ''), n=k, san=san)
                if src == 'p13':
                    fs += c.shards(exe, so, '%s-break-%s%s' % (tag, src, '-san' if san else ''), n=k, san=san)
    if 'p13' in os.environ.get('MC_PARTS', 'p13').split(','):
        exe, so = toolbuild.win(c, 'p13.c', '-O1', cc='clang')
        if not build_only:
            fs += c.shards('/usr/bin/env', so, 'step-win', pre=['MC_SKIP=' + p13.skips(so), exe])
    c.wait(fs)
    c.assumptions += toolbuild.ASSUME + ['Windows and its C library are stand-ins (mc/win): snwprintf as in C99, wide characters of 16 bits', 'the console handler runs to its end at the chosen point of the program']
    return c.finish(rule='the explorations of P12 to P17, P23 and P24 (see there) on the Windows variant of the tool: 16 bit characters, bundled option parser, HeapAlloc, SetConsoleCtrlHandler with '
                    'Ctrl+C and Ctrl+Break; in addition every character from 0x100 to 0xffff in every place of 8 sizes, 8 forms of option words and 8 forms of command lines, and those that share a byte with '
                    'what they replace (thorough: all) in every place of the 26 digest names and between them; non-trivial as there', exhaustive=True)
