"""The reference digests against Python's hashlib and hmac."""
import ctypes, hashlib, hmac, os, mclib
NAMES = ['md5', 'sha1', 'sha224', 'sha256', 'sha512']


def load(c):
    so = os.path.join(c.b.root, 'ref.so')
    c.b.cc(['gcc', '-O2', '-shared', '-fPIC', '-o', so, mclib.VERIF + '/mc/ref.c'], 'reference')
    r = ctypes.CDLL(so)
    r.ref_digest.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p]
    r.ref_hmac.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p]
    return r


def run(c):
    r = load(c)
    m = bytes((i * 167 + (i >> 8) * 91 + 13) & 255 for i in range(1024))
    n = 0
    for a, name in enumerate(NAMES):
        o = ctypes.create_string_buffer(64)
        for l in range(1024):
            r.ref_digest(a, m, l, o)
            d = hashlib.new(name, m[:l]).digest()
            if o.raw[:len(d)] != d:
                raise mclib.Broken('reference %s is wrong at length %d' % (name, l))
            n += 1
        for kl in range(0, 300):
            l = (kl * 7) % 400
            r.ref_hmac(a, m[::-1], kl, m, l, o)
            d = hmac.new(m[::-1][:kl], m[:l], name).digest()
            if o.raw[:len(d)] != d:
                raise mclib.Broken('reference HMAC-%s is wrong at key length %d' % (name, kl))
            n += 1
    c.extra['reference_cross_checks'] = n
