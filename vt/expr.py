"""Hash-consed bit-vector terms with canonicalising constructors.

Canonical forms (these make most equalities between code and specification
syntactic, so that solvers are left with the arithmetic over sizes):
  cat    concatenation of slices, least significant part first. Zero extension, shifts by a constant,
         masks, byte assembly and rotations all become `cat` of `ext` slices.
  lin    sums modulo 2^w as constant + sum of coefficient * term.
  bf     bitwise boolean function of at most 6 leaves, as a truth table over sorted leaves.
Booleans are 1-bit terms.
"""
import random, sys
sys.setrecursionlimit(100000)

_tab = {}
_n = 0


class Node:
    __slots__ = ('op', 'w', 'a', 'id', 'z', '__weakref__')

    def __repr__(self):
        return show(self)


def mk(op, w, a):
    global _n
    k = (op, w, a)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op, n.w, n.a, n.z = op, w, a, None
        _n += 1
        n.id = _n
        _tab[k] = n
    return n


def mask(w):
    return (1 << w) - 1


def const(v, w):
    return mk('const', w, v & mask(w))


TRUE, FALSE = const(1, 1), const(0, 1)


def var(name, w):
    return mk('var', w, name)


_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), w)


def sel(arr, idx, w=8):
    """Element idx of the unconstrained array named arr."""
    return mk('sel', w, (arr, idx))


def uf(name, w, args):
    return mk('uf', w, (name,) + tuple(args))


def isc(n):
    return n.op == 'const'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- cat / ext

def parts_of(n):
    """[(lo, width, node)] with node None for a zero part."""
    if n.op == 'cat':
        r, lo = [], 0
        for p in n.a:
            r.append((lo, p.w, None if (p.op == 'const' and p.a == 0) else p))
            lo += p.w
        return r
    return [(0, n.w, None if (n.op == 'const' and n.a == 0) else n)]


def cat(ps):
    """ps: nodes, least significant first."""
    out = []
    for p in ps:
        if p.op == 'cat':
            sub = p.a
        else:
            sub = (p,)
        for q in sub:
            if out:
                l = out[-1]
                if l.op == 'const' and q.op == 'const':
                    out[-1] = const(l.a | (q.a << l.w), l.w + q.w)
                    continue
                if q.op == 'ext':
                    if l.op == 'ext' and l.a[0] is q.a[0] and l.a[1] + l.w == q.a[1]:
                        out[-1] = ext(l.a[0], l.a[1], l.w + q.w)
                        continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return mk('cat', sum(p.w for p in out), tuple(out))


def ext(x, lo, w):
    if lo == 0 and w == x.w:
        return x
    if x.op == 'const':
        return const(x.a >> lo, w)
    if x.op == 'ext':
        return ext(x.a[0], x.a[1] + lo, w)
    if x.op == 'cat':
        r, pos = [], 0
        for p in x.a:
            s, e = max(lo, pos), min(lo + w, pos + p.w)
            if s < e:
                r.append(ext(p, s - pos, e - s))
            pos += p.w
        return cat(r)
    if x.op == 'sext':
        y = x.a[0]
        if lo + w <= y.w:
            return ext(y, lo, w)
    if x.op == 'lin' and lo == 0 and w > 1:
        # only when every term is itself a slice structure that becomes smaller (size conversions)
        if all(t.op == 'cat' and t.a[0].w >= w for t, _ in x.a[1]):
            return lin(w, x.a[0], [(ext(t, 0, w), c) for t, c in x.a[1]])
    if x.op == 'ite' and (isc(x.a[1]) or isc(x.a[2])):
        return ite(x.a[0], ext(x.a[1], lo, w), ext(x.a[2], lo, w))
    if x.op == 'bf' and any(l.op == 'const' or (l.op == 'cat' and any(isc(q) for q in l.a)) for l in x.a[1]):
        return bf([ext(l, lo, w) for l in x.a[1]], x.a[0])
    return mk('ext', w, (x, lo))


def zext(x, w):
    if x.w == w:
        return x
    return cat([x, const(0, w - x.w)])


def sext(x, w):
    if x.w == w:
        return x
    if isc(x):
        return const(sgn(x.a, x.w), w)
    if x.op == 'cat' and isc(x.a[-1]) and not x.a[-1].a >> (x.a[-1].w - 1):
        return zext(x, w)
    if x.op == 'sext':
        return sext(x.a[0], w)
    return mk('sext', w, (x,))


def merge_disjoint(a, b):
    """The cat equal to a|b (= a^b = a+b) if no bit can be set in both, else None."""
    pa, pb = parts_of(a), parts_of(b)
    if not any(p[2] is None for p in pa) or not any(p[2] is None for p in pb):
        return None
    cuts = sorted({p[0] for p in pa} | {p[0] for p in pb} | {a.w})
    ia = ib = 0
    out = []
    for s, e in zip(cuts, cuts[1:]):
        while pa[ia][0] + pa[ia][1] <= s:
            ia += 1
        while pb[ib][0] + pb[ib][1] <= s:
            ib += 1
        x, y = pa[ia], pb[ib]
        if x[2] is None and y[2] is None:
            out.append(const(0, e - s))
        elif x[2] is None:
            out.append(ext(y[2], s - y[0], e - s))
        elif y[2] is None:
            out.append(ext(x[2], s - x[0], e - s))
        else:
            return None
    return cat(out)


# ---------------------------------------------------------------- sums

def lin(w, c, terms):
    d = {}
    m = mask(w)
    stack = [(t, k) for t, k in terms]
    while stack:
        t, k = stack.pop()
        if t.op == 'const':
            c += t.a * k
        elif t.op == 'lin':
            c += t.a[0] * k
            stack.extend((u, k * j) for u, j in t.a[1])
        elif t.op == 'bf' and len(t.a[1]) == 1 and t.w == w:   # ~x = -x - 1
            c -= k
            stack.append((t.a[1][0], -k))
        else:
            d[t] = (d.get(t, 0) + k) & m
    c &= m
    ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not ts:
        return const(c, w)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return mk('lin', w, (c, ts))


def add(a, b):
    if isc(a) and isc(b):
        return const(a.a + b.a, a.w)
    if a.op == 'cat' or b.op == 'cat':
        r = merge_disjoint(a, b) if (a.op in ('cat',) and b.op in ('cat', 'const')) or (b.op == 'cat' and a.op == 'const') else None
        if r is not None and not (isc(a) or isc(b)):
            return r
    return lin(a.w, 0, [(a, 1), (b, 1)])


def neg(a):
    return lin(a.w, 0, [(a, -1)])


def sub(a, b):
    return lin(a.w, 0, [(a, 1), (b, -1)])


def mul(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.a and b.a & (b.a - 1) == 0 and a.op in ('cat', 'ext'):
            return shl(a, const(b.a.bit_length() - 1, a.w))
        return lin(a.w, 0, [(a, b.a)])
    if a.id > b.id:
        a, b = b, a
    return mk('mul', a.w, (a, b))


# ---------------------------------------------------------------- bitwise

_COL = [[sum(1 << r for r in range(1 << n) if r >> i & 1) for i in range(n)] for n in range(7)]


def bf(leaves, tt):
    """Canonical bitwise function. leaves may repeat or be constant; tt bit r is the value for assignment r."""
    w = leaves[0].w
    n = len(leaves)
    full = (1 << (1 << n)) - 1
    if tt == 0:
        return const(0, w)
    if tt == full:
        return const(-1, w)
    # order leaves, drop 0/1 constants, duplicates, and complements
    ls = []
    for l in leaves:
        k = l
        if k.op == 'const' and k.a in (0, mask(w)):
            continue
        if k not in ls:
            ls.append(k)
    ls.sort(key=lambda x: x.id)
    m = len(ls)
    src = []
    for l in leaves:
        if l.op == 'const' and l.a in (0, mask(w)):
            src.append(('c', 1 if l.a else 0))
        else:
            src.append(('l', ls.index(l)))
    nt = 0
    for r in range(1 << m):
        q = 0
        for i, (k, v) in enumerate(src):
            if (v if k == 'c' else r >> v & 1):
                q |= 1 << i
        if tt >> q & 1:
            nt |= 1 << r
    # drop leaves the function does not depend on
    i = 0
    while i < m:
        lo = hi = 0
        j = 0
        for r in range(1 << m):
            if not r >> i & 1:
                if nt >> r & 1:
                    lo |= 1 << j
                if nt >> (r | 1 << i) & 1:
                    hi |= 1 << j
                j += 1
        if lo == hi:
            nt = lo
            del ls[i]
            m -= 1
        else:
            i += 1
    if m == 0:
        return const(-1 if nt & 1 else 0, w)
    if m == 1 and nt == 2:
        return ls[0]
    return mk('bf', w, (nt, tuple(ls)))


def _leaves(n):
    if n.op == 'bf':
        return n.a[1], n.a[0]
    return (n,), 2


def _comb(a, b, f):
    la, ta = _leaves(a)
    lb, tb = _leaves(b)
    u = list(dict.fromkeys(la + lb))
    if len(u) > 6:
        if len(la) >= len(lb):
            la, ta = (a,), 2
        else:
            lb, tb = (b,), 2
        u = list(dict.fromkeys(la + lb))
        if len(u) > 6:
            la, ta, lb, tb = (a,), 2, (b,), 2
            u = [a, b]
    ia = [u.index(x) for x in la]
    ib = [u.index(x) for x in lb]
    tt = 0
    for r in range(1 << len(u)):
        x = y = 0
        for k, i in enumerate(ia):
            x |= (r >> i & 1) << k
        for k, i in enumerate(ib):
            y |= (r >> i & 1) << k
        if f(ta >> x & 1, tb >> y & 1):
            tt |= 1 << r
    return bf(u, tt)


_bfcache = {}


def _bit(op, a, b):
    k = (op, a, b) if a.id <= b.id else (op, b, a)
    r = _bfcache.get(k)
    if r is None:
        r = _bfcache[k] = _bit0(op, a, b)
    return r


def _bit0(op, a, b):
    if isc(a):
        a, b = b, a
    w = a.w
    if isc(b):
        if isc(a):
            return const({'and': a.a & b.a, 'or': a.a | b.a, 'xor': a.a ^ b.a}[op], w)
        if b.a == 0:
            return const(0, w) if op == 'and' else a
        if b.a == mask(w):
            return a if op == 'and' else (b if op == 'or' else bnot(a))
        if op in ('and', 'or'):
            runs, i = [], 0
            while i < w:
                j = i
                while j < w and (b.a >> j & 1) == (b.a >> i & 1):
                    j += 1
                runs.append((i, j - i, b.a >> i & 1))
                i = j
            if len(runs) <= 8:
                if op == 'and':
                    return cat([ext(a, l, n) if v else const(0, n) for l, n, v in runs])
                return cat([const(-1, n) if v else ext(a, l, n) for l, n, v in runs])
    if op != 'and':
        r = merge_disjoint(a, b)
        if r is not None:
            return r
    return _comb(a, b, {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op])


def band(a, b):
    return _bit('and', a, b)


def bor(a, b):
    return _bit('or', a, b)


def bxor(a, b):
    return _bit('xor', a, b)


def bnot(a):
    if isc(a):
        return const(~a.a, a.w)
    if a.op == 'lin' and a.w > 1:
        return mk('bf', a.w, (1, (a,)))
    l, t = _leaves(a)
    return bf(list(l), ((1 << (1 << len(l))) - 1) ^ t)


def ands(l):
    r = TRUE
    for x in l:
        r = band(r, x)
    return r


def ors(l):
    r = FALSE
    for x in l:
        r = bor(r, x)
    return r


def implies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- shifts

def shl(a, s):
    if isc(s):
        k = s.a
        if k >= a.w:
            return const(0, a.w)
        if k == 0:
            return a
        return cat([const(0, k), ext(a, 0, a.w - k)])
    if isc(a) and a.a == 0:
        return a
    return mk('shl', a.w, (a, s))


def lshr(a, s):
    if isc(s):
        k = s.a
        if k >= a.w:
            return const(0, a.w)
        if k == 0:
            return a
        return cat([ext(a, k, a.w - k), const(0, k)])
    return mk('lshr', a.w, (a, s))


def ashr(a, s):
    if isc(s):
        k = min(s.a, a.w - 1)
        if k == 0:
            return a
        return sext(ext(a, k, a.w - k), a.w)
    return mk('ashr', a.w, (a, s))


def rotl(a, k):
    k %= a.w
    return a if k == 0 else cat([ext(a, a.w - k, k), ext(a, 0, a.w - k)])


def rotr(a, k):
    return rotl(a, a.w - k)


def udiv(a, b):
    if isc(b) and b.a:
        if isc(a):
            return const(a.a // b.a, a.w)
        if b.a & (b.a - 1) == 0:
            return lshr(a, const(b.a.bit_length() - 1, a.w))
    return mk('udiv', a.w, (a, b))


def urem(a, b):
    if isc(b) and b.a:
        if isc(a):
            return const(a.a % b.a, a.w)
        if b.a & (b.a - 1) == 0:
            return band(a, const(b.a - 1, a.w))
    return mk('urem', a.w, (a, b))


def sdiv(a, b):
    if isc(a) and isc(b) and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, b.w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    return mk('sdiv', a.w, (a, b))


def srem(a, b):
    if isc(a) and isc(b) and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, b.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    return mk('srem', a.w, (a, b))


# ---------------------------------------------------------------- predicates

def umax(n):
    if isc(n):
        return n.a
    if n.op == 'cat':
        m, lo = 0, 0
        for p in n.a:
            m |= umax(p) << lo
            lo += p.w
        return m
    if n.op == 'ite':
        return max(umax(n.a[1]), umax(n.a[2]))
    return mask(n.w)


def umin(n):
    if isc(n):
        return n.a
    if n.op == 'cat':
        m, lo = 0, 0
        for p in n.a:
            m |= umin(p) << lo
            lo += p.w
        return m
    if n.op == 'ite':
        return min(umin(n.a[1]), umin(n.a[2]))
    return 0


def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return const(1 if a.a < b.a else 0, 1)
    if umax(a) < umin(b):
        return TRUE
    if umin(a) >= umax(b):
        return FALSE
    if isc(b) and b.a == 1:
        return eq(a, const(0, a.w))
    if isc(a) and a.a == 0:
        return bnot(eq(b, a))
    return mk('ult', 1, (a, b))


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return const(1 if sgn(a.a, a.w) < sgn(b.a, b.w) else 0, 1)
    h = 1 << (a.w - 1)
    if umax(a) < h and umax(b) < h:
        return ult(a, b)
    return mk('slt', 1, (a, b))


def sle(a, b):
    return bnot(slt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 1:
        return bnot(bxor(a, b))
    if isc(a) and isc(b):
        return const(1 if a.a == b.a else 0, 1)
    if umax(a) < umin(b) or umax(b) < umin(a):
        return FALSE
    if isc(a):
        a, b = b, a
    if isc(b) and a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if isc(b) and a.op == 'cat':
        # zero extension compared with a constant
        if isc(a.a[-1]) and len(a.a) == 2:
            return eq(a.a[0], const(b.a, a.a[0].w))
    d = sub(a, b)
    if isc(d):
        return const(1 if d.a == 0 else 0, 1)
    if not isc(b) or a.op == 'lin':
        # canonical: first term positive on the left
        if d.op == 'lin':
            c, ts = d.a
            t0, k0 = ts[0]
            rest = lin(d.w, -c, [(t, -k) for t, k in ts[1:]])
            if k0 == mask(d.w):
                rest, k0 = neg(rest), 1
            if k0 == 1:
                a, b = t0, rest
                if isc(b) and a.op == 'cat' and len(a.a) == 2 and isc(a.a[-1]):
                    if a.a[-1].a != b.a >> a.a[0].w:
                        return FALSE
                    return eq(a.a[0], const(b.a, a.a[0].w))
            else:
                a, b = d, const(0, d.w)
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (a, b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.w == 1:
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'bf' and c.a[0] == 1 and len(c.a[1]) == 1:
        c, a, b = c.a[1][0], b, a
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    return mk('ite', a.w, (c, a, b)) if a is not b else a


def boolean(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- traversal

def kids(n):
    o = n.op
    if o in ('const', 'var'):
        return ()
    if o == 'cat':
        return n.a
    if o == 'ext':
        return (n.a[0],)
    if o == 'sel':
        return (n.a[1],)
    if o == 'uf':
        return n.a[1:]
    if o == 'lin':
        return tuple(t for t, _ in n.a[1])
    if o == 'bf':
        return n.a[1]
    return n.a


def topo(roots):
    seen, out = set(), []
    stack = [(r, 0) for r in roots]
    while stack:
        n, st = stack.pop()
        if st:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        stack.append((n, 1))
        for k in kids(n):
            if k not in seen:
                stack.append((k, 0))
    return out


def rebuild(n, ks):
    o, w = n.op, n.w
    if o == 'cat':
        return cat(ks)
    if o == 'ext':
        return ext(ks[0], n.a[1], w)
    if o == 'sel':
        return sel(n.a[0], ks[0], w)
    if o == 'uf':
        return uf(n.a[0], w, ks)
    if o == 'lin':
        return lin(w, n.a[0], [(k, c) for k, (_, c) in zip(ks, n.a[1])])
    if o == 'bf':
        r = bf(list(ks), n.a[0])
        return r
    if o == 'sext':
        return sext(ks[0], w)
    return {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr,
            'ashr': ashr, 'ult': ult, 'slt': slt, 'eq': eq, 'ite': ite}[o](*ks)


def subst(n, m, memo=None):
    """m: {Node: Node}."""
    memo = {} if memo is None else memo
    for x in topo([n]):
        if x in memo:
            continue
        if x in m:
            memo[x] = m[x]
            continue
        ks = kids(x)
        nk = tuple(memo[k] for k in ks)
        memo[x] = x if all(p is q for p, q in zip(ks, nk)) else rebuild(x, nk)
    return memo[n]


def ev(roots, env, default=None):
    """Concrete evaluation. env: var name -> int, ('sel', arr, idx) -> int; default(key, w) for the rest."""
    v = {}
    for n in topo(roots):
        o, w, a = n.op, n.w, n.a
        if o == 'const':
            r = a
        elif o == 'var':
            r = env[a] if a in env else default(a, w)
        elif o == 'sel':
            k = ('sel', a[0], v[a[1]])
            r = env[k] if k in env else default(k, w)
        elif o == 'uf':
            k = ('uf', a[0]) + tuple(v[x] for x in a[1:])
            r = env[k] if k in env else default(k, w)
        elif o == 'cat':
            r = lo = 0
            for p in a:
                r |= v[p] << lo
                lo += p.w
        elif o == 'ext':
            r = v[a[0]] >> a[1]
        elif o == 'lin':
            r = a[0] + sum(v[t] * k for t, k in a[1])
        elif o == 'bf':
            tt, ls = a
            r = 0
            vs = [v[l] for l in ls]
            m = mask(w)
            for row in range(1 << len(ls)):
                if tt >> row & 1:
                    t = m
                    for i, x in enumerate(vs):
                        t &= x if row >> i & 1 else ~x
                    r |= t
        elif o == 'sext':
            r = sgn(v[a[0]], a[0].w)
        elif o == 'ite':
            r = v[a[1]] if v[a[0]] else v[a[2]]
        elif o == 'eq':
            r = int(v[a[0]] == v[a[1]])
        elif o == 'ult':
            r = int(v[a[0]] < v[a[1]])
        elif o == 'slt':
            r = int(sgn(v[a[0]], a[0].w) < sgn(v[a[1]], a[1].w))
        elif o == 'mul':
            r = v[a[0]] * v[a[1]]
        elif o == 'udiv':
            r = v[a[0]] // v[a[1]] if v[a[1]] else mask(w)
        elif o == 'urem':
            r = v[a[0]] % v[a[1]] if v[a[1]] else v[a[0]]
        elif o in ('sdiv', 'srem'):
            x, y = const(v[a[0]], w), const(v[a[1]], w)
            r = (sdiv if o == 'sdiv' else srem)(x, y)
            r = r.a if isc(r) else 0
        elif o == 'shl':
            r = v[a[0]] << v[a[1]] if v[a[1]] < w else 0
        elif o == 'lshr':
            r = v[a[0]] >> v[a[1]] if v[a[1]] < w else 0
        elif o == 'ashr':
            r = sgn(v[a[0]], w) >> min(v[a[1]], w - 1)
        else:
            raise Exception('ev ' + o)
        v[n] = r & mask(w)
    return v


def rand_env(seed):
    """A default() giving reproducible pseudo-random values."""
    def d(key, w):
        return random.Random('%s|%r' % (seed, key)).getrandbits(w)
    return d


def show(n, depth=4):
    o, a = n.op, n.a
    if o == 'const':
        return '%d' % a if a < 10 else hex(a)
    if o == 'var':
        return a
    if depth == 0:
        return '#%d' % n.id
    s = lambda x: show(x, depth - 1)
    if o == 'sel':
        return '%s[%s]' % (a[0], s(a[1]))
    if o == 'uf':
        return '%s(%s)' % (a[0], ','.join(map(s, a[1:])))
    if o == 'cat':
        if len(a) == 2 and isc(a[1]) and a[1].a == 0:
            return 'zx%d(%s)' % (n.w, s(a[0]))
        return '{' + ','.join(s(x) + ':%d' % x.w for x in reversed(a)) + '}'
    if o == 'ext':
        return '%s[%d+:%d]' % (s(a[0]), a[1], n.w)
    if o == 'lin':
        return '(' + ' + '.join(([str(sgn(a[0], n.w))] if a[0] else []) + [('%d*' % sgn(k, n.w) if k != 1 else '') + s(t) for t, k in a[1]]) + ')'
    if o == 'bf':
        if a[0] == 1 and len(a[1]) == 1:
            return '!' + s(a[1][0])
        return 'bf%x(%s)' % (a[0], ','.join(map(s, a[1])))
    return '%s(%s)' % (o, ','.join(s(x) for x in a))


# ---------------------------------------------------------------- z3

_z3 = None


def z3m():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


_uf = {}


def to_z3(root):
    z = z3m()
    if root.z is not None:
        return root.z
    for n in topo([root]):
        if n.z is not None:
            continue
        o, w, a = n.op, n.w, n.a
        if o == 'const':
            r = z.BitVecVal(a, w)
        elif o == 'var':
            r = z.BitVec(a, w)
        elif o == 'sel':
            k = (a[0], a[1].w, w)
            if k not in _uf:
                _uf[k] = z.Function('A_%s_%d_%d' % k, z.BitVecSort(a[1].w), z.BitVecSort(w))
            r = _uf[k](a[1].z)
        elif o == 'uf':
            k = (a[0], tuple(x.w for x in a[1:]), w)
            if k not in _uf:
                _uf[k] = z.Function('F_%s_%d_%d' % (a[0], len(_uf), w), *([z.BitVecSort(x.w) for x in a[1:]] + [z.BitVecSort(w)]))
            r = _uf[k](*[x.z for x in a[1:]])
        elif o == 'cat':
            r = z.Concat(*[p.z for p in reversed(a)])
        elif o == 'ext':
            r = z.Extract(a[1] + w - 1, a[1], a[0].z)
        elif o == 'lin':
            r = z.BitVecVal(a[0], w) if a[0] else None
            for t, k in a[1]:
                m = t.z if k == 1 else (-t.z if k == mask(w) else t.z * z.BitVecVal(k, w))
                r = m if r is None else r + m
        elif o == 'bf':
            def sh(tt, ls):
                if not ls:
                    return z.BitVecVal(-1 if tt & 1 else 0, w)
                k = len(ls) - 1
                half = 1 << k
                lo, hi = tt & ((1 << half) - 1), tt >> half
                full = (1 << half) - 1
                x = ls[-1].z
                if lo == hi:
                    return sh(lo, ls[:-1])
                if lo == 0:
                    return x if hi == full else x & sh(hi, ls[:-1])
                if hi == 0:
                    return ~x if lo == full else ~x & sh(lo, ls[:-1])
                if lo == full:
                    return ~x | sh(hi, ls[:-1])
                if hi == full:
                    return x | sh(lo, ls[:-1])
                if lo == hi ^ full:
                    return x ^ sh(lo, ls[:-1])
                return (x & sh(hi, ls[:-1])) | (~x & sh(lo, ls[:-1]))
            r = sh(a[0], list(a[1]))
        elif o == 'sext':
            r = z.SignExt(w - a[0].w, a[0].z)
        elif o == 'ite':
            r = z.If(a[0].z == 1, a[1].z, a[2].z)
        elif o in ('eq', 'ult', 'slt'):
            x, y = a[0].z, a[1].z
            c = x == y if o == 'eq' else (z.ULT(x, y) if o == 'ult' else x < y)
            r = z.If(c, z.BitVecVal(1, 1), z.BitVecVal(0, 1))
        else:
            x, y = a[0].z, a[1].z
            r = {'mul': lambda: x * y, 'udiv': lambda: z.UDiv(x, y), 'urem': lambda: z.URem(x, y), 'sdiv': lambda: x / y,
                 'srem': lambda: z.SRem(x, y), 'shl': lambda: x << y, 'lshr': lambda: z.LShR(x, y), 'ashr': lambda: x >> y}[o]()
        n.z = r
    return root.z
