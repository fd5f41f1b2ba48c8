"""RFC 1321 and FIPS 180-4, written from the standards over terms of vt.expr.
The constants are computed from their definitions (sine table; fractional parts of roots of primes).
selftest() compares the specification with hashlib."""
from math import isqrt
from decimal import Decimal, getcontext
from .expr import *


def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r):
            r.append(c)
        c += 1
    return r


def icbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def frac_sqrt(p, bits):
    return isqrt(p << (2 * bits)) & ((1 << bits) - 1)


def frac_cbrt(p, bits):
    return icbrt(p << (3 * bits)) & ((1 << bits) - 1)


def _sin(x):
    getcontext().prec = 60
    x = Decimal(x)
    t, s, n = x, x, 1
    while abs(t) > Decimal(10) ** -50:
        t = -t * x * x / ((2 * n) * (2 * n + 1))
        s += t
        n += 1
    return s


MD5_T = [int(abs(_sin(i + 1)) * (1 << 32)) for i in range(64)]
MD5_S = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]
P = primes(80)
IV = {
    'md5': [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476],
    'sha1': [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0],
    'sha256': [frac_sqrt(p, 32) for p in P[:8]],
    'sha224': [frac_sqrt(p, 64) & 0xffffffff for p in P[8:16]],     # second 32 bits, 9th to 16th primes
    'sha512': [frac_sqrt(p, 64) for p in P[:8]],
}
K256 = [frac_cbrt(p, 32) for p in P[:64]]
K512 = [frac_cbrt(p, 64) for p in P[:80]]


def words(alg, b):
    """Message block bytes (Nodes) to words."""
    if alg == 'md5':
        return [cat(b[4 * i:4 * i + 4]) for i in range(16)]
    n = 8 if alg == 'sha512' else 4
    return [cat(list(reversed(b[n * i:n * i + n]))) for i in range(16)]


def compress(alg, H, b):
    """One block. H: chaining words, b: block bytes. Returns the new chaining words."""
    X = words(alg, b)
    if alg == 'md5':
        A, B, C, D = H
        for i in range(64):
            r = i // 16
            if r == 0:
                f, k = bor(band(B, C), band(bnot(B), D)), i
            elif r == 1:
                f, k = bor(band(B, D), band(C, bnot(D))), (5 * i + 1) % 16
            elif r == 2:
                f, k = bxor(bxor(B, C), D), (3 * i + 5) % 16
            else:
                f, k = bxor(C, bor(B, bnot(D))), 7 * i % 16
            t = add(add(add(A, f), X[k]), const(MD5_T[i], 32))
            A, D, C, B = D, C, B, add(B, rotl(t, MD5_S[r][i % 4]))
        return [add(x, y) for x, y in zip(H, (A, B, C, D))]
    if alg == 'sha1':
        W = list(X)
        for t in range(16, 80):
            W.append(rotl(bxor(bxor(W[t - 3], W[t - 8]), bxor(W[t - 14], W[t - 16])), 1))
        a, b_, c, d, e = H
        for t in range(80):
            if t < 20:
                f, k = bxor(band(b_, c), band(bnot(b_), d)), 0x5a827999
            elif t < 40:
                f, k = bxor(bxor(b_, c), d), 0x6ed9eba1
            elif t < 60:
                f, k = bxor(bxor(band(b_, c), band(b_, d)), band(c, d)), 0x8f1bbcdc
            else:
                f, k = bxor(bxor(b_, c), d), 0xca62c1d6
            T = add(add(add(rotl(a, 5), f), add(e, const(k, 32))), W[t])
            a, b_, c, d, e = T, a, rotl(b_, 30), c, d
        return [add(x, y) for x, y in zip(H, (a, b_, c, d, e))]
    big = alg == 'sha512'
    w = 64 if big else 32
    R = 80 if big else 64
    K = K512 if big else K256
    if big:
        S0, S1, s0, s1 = (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)
    else:
        S0, S1, s0, s1 = (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)

    def Sig(x, r):
        return bxor(bxor(rotr(x, r[0]), rotr(x, r[1])), rotr(x, r[2]))

    def sig(x, r):
        return bxor(bxor(rotr(x, r[0]), rotr(x, r[1])), lshr(x, const(r[2], w)))
    W = list(X)
    for t in range(16, R):
        W.append(add(add(sig(W[t - 2], s1), W[t - 7]), add(sig(W[t - 15], s0), W[t - 16])))
    a, b_, c, d, e, f, g, h = H
    for t in range(R):
        ch = bxor(band(e, f), band(bnot(e), g))
        maj = bxor(bxor(band(a, b_), band(a, c)), band(b_, c))
        T1 = add(add(add(h, Sig(e, S1)), add(ch, const(K[t], w))), W[t])
        T2 = add(Sig(a, S0), maj)
        h, g, f, e, d, c, b_, a = g, f, e, add(d, T1), c, b_, a, add(T1, T2)
    return [add(x, y) for x, y in zip(H, (a, b_, c, d, e, f, g, h))]


def wbits(alg):
    return 64 if alg == 'sha512' else 32


def digest(alg, msg):
    """Concrete digest of bytes by the specification."""
    bl = 128 if alg == 'sha512' else 64
    L = len(msg)
    lenb = 16 if bl == 128 else 8
    m = msg + b'\x80' + b'\0' * ((-L - 1 - lenb) % bl) + (8 * L).to_bytes(lenb, 'little' if alg == 'md5' else 'big')
    H = [const(x, wbits(alg)) for x in IV[alg]]
    for i in range(0, len(m), bl):
        H = compress(alg, H, [const(x, 8) for x in m[i:i + bl]])
    n = wbits(alg) // 8
    out = b''.join(h.a.to_bytes(n, 'little' if alg == 'md5' else 'big') for h in H)
    return out[:28] if alg == 'sha224' else out


def selftest():
    import hashlib
    n = 0
    for alg in IV:
        for L in (0, 1, 55, 56, 63, 64, 111, 112, 127, 128, 200):
            m = bytes((i * 7 + L) & 255 for i in range(L))
            assert digest(alg, m) == hashlib.new(alg, m).digest(), (alg, L)
            n += 1
    return n
