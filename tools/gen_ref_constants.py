#!/usr/bin/env python3
"""Writes mc/ref_k.h: the constants of the digests, computed from their definitions."""
import math, sys
def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac(p, k, bits): return iroot(p << (bits * k), k) & ((1 << bits) - 1)
P = primes(80)
def tab(t, name, vals, suf):
    s = 'static const %s %s[ %d ] = {\n' % (t, name, len(vals))
    for i in range(0, len(vals), 4):
        s += '\t' + ', '.join(('0x%016x' if t == 'uint64_t' else '0x%08x') % v + suf for v in vals[i:i+4]) + ',\n'
    return s + '};\n'
out = '/* generated by tools/gen_ref_constants.py from the definitions */\n'
out += tab('uint32_t', 'K_md5', [int(abs(math.sin(i + 1)) * 2**32) & 0xffffffff for i in range(64)], 'U')
out += tab('uint32_t', 'K_256', [frac(p, 3, 32) for p in P[:64]], 'U')
out += tab('uint64_t', 'K_512', [frac(p, 3, 64) for p in P[:80]], 'ULL')
out += tab('uint32_t', 'H_256', [frac(p, 2, 32) for p in P[:8]], 'U')
out += tab('uint64_t', 'H_512', [frac(p, 2, 64) for p in P[:8]], 'ULL')
out += tab('uint32_t', 'H_224', [frac(p, 2, 64) & 0xffffffff for p in P[8:16]], 'U')
open(sys.argv[1], 'w').write(out)
