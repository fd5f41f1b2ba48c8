"""Assumed contracts of OpenSSL's digest functions, and the ghost state they act on.

A library context holds the algorithm it was initialised for and the sequence of byte ranges absorbed so
far: ('seg', object snapshot, offset, length). Taking a digest yields fresh bytes named DIG_<n>; the
record (name, algorithm, segments) is kept in ghost state, and two digests are equal only if shown to be
digests of equal messages."""
from . import env, ir
from .expr import *
from .exec import *
from .libc import Z

MD = {'EVP_md5': 'md5', 'EVP_sha1': 'sha1', 'EVP_sha224': 'sha224', 'EVP_sha256': 'sha256', 'EVP_sha512': 'sha512',
      'EVP_sha384': 'sha384', 'EVP_sha512_224': 'sha512_224', 'EVP_sha512_256': 'sha512_256', 'EVP_md4': 'md4', 'EVP_md5_sha1': 'md5_sha1'}
OUT = dict((a, d['out']) for a, d in env.ALGS.items())
OUT.update(sha384=48, md4=16, sha512_224=28, sha512_256=32, md5_sha1=36)


def fail(e, st, r):
    t = st.clone()
    t.ghost['libfail'] = True
    return (t, r)


def lc(st):
    """Ghost: (object, offset) -> (algorithm, segments) or (algorithm, None) once finalized."""
    return st.ghost.setdefault('lib', {})


def key(e, st, p, what):
    if not isinstance(p, Ptr):
        e.check(st, FALSE, 'memory', what + ': library context is valid')
        raise Stop()
    e.check(st, bnot(p.nul), 'memory', what + ': library context is not NULL')
    e.check(st, boolean(st.mem[p.o].live), 'memory', what + ': library context is live')
    if not isc(p.off):
        raise Unsupported('library context at an unknown offset')
    return (p.o, p.off.a)


def evp_new(e, st, a):
    out = [fail(e, st, Z)]
    oid = e.new(st, 48, 'evp', 'EVP_MD_CTX', ('undef', 'evp'))
    return [(st, Ptr(oid, Z))] + out


def evp_free(e, st, a):
    p = a[0]
    if isinstance(p, Node):
        if isc(p) and p.a == 0:
            return [(st, None)]
        raise Unsupported('EVP_MD_CTX_free of an unknown pointer')
    e.check(st, boolean(st.mem[p.o].live and st.mem[p.o].kind == 'evp' and p.nul is FALSE), 'memory', 'EVP_MD_CTX_free: a live EVP_MD_CTX')
    st.w(p.o).live = False
    lc(st).pop((p.o, 0), None)
    return [(st, None)]


def evp_md(alg):
    def h(e, st, a):
        st.ghost['md_' + alg] = True
        return Fn('EVP_MD:' + alg)
    return h


def evp_init(e, st, a):
    k = key(e, st, a[0], 'EVP_DigestInit')
    if not isinstance(a[1], Fn):
        raise Unsupported('EVP_DigestInit with an unknown digest')
    t = fail(e, st, const(0, 32))
    lc(st)[k] = (a[1].name.split(':')[1], ())
    return [(st, const(1, 32)), t]


def absorb(e, st, k, p, n, what):
    c = lc(st).get(k)
    e.check(st, boolean(c is not None and c[1] is not None), 'pre', what + ': the library context is initialised and not yet finalized')
    if c is None or c[1] is None:
        raise Stop()
    e.access(st, p, n, 'memory', what + ' input')
    lc(st)[k] = (c[0], c[1] + (('seg', st.mem[p.o].copy() if st.mem[p.o].kind != 'input' else st.mem[p.o], p.off, n),))


def evp_update(e, st, a):
    k = key(e, st, a[0], 'EVP_DigestUpdate')
    t = fail(e, st, const(0, 32))
    absorb(e, st, k, a[1], a[2], 'EVP_DigestUpdate')
    return [(st, const(1, 32)), t]


def emit(e, st, k, out, what, alg=None):
    c = lc(st).get(k)
    e.check(st, boolean(c is not None and c[1] is not None), 'pre', what + ': the library context is initialised and not yet finalized')
    if c is None or c[1] is None:
        raise Stop()
    alg = alg or c[0]
    n = OUT[alg]
    e.access(st, out, const(n, 64), 'memory', what + ' output')
    D = st.ghost.get('digests', ())
    e.oid += 1
    nm = 'DIG_%d' % e.oid
    st.ghost['digests'] = D + ((nm, alg, c[1]),)
    e.note_write(out.o, out.off, const(n, 64))
    st.w(out.o).havoc(out.off, const(n, 64), nm)
    lc(st)[k] = (c[0], None)
    return n


def evp_final(e, st, a):
    k = key(e, st, a[0], 'EVP_DigestFinal_ex')
    t = fail(e, st, const(0, 32))
    n = emit(e, st, k, a[1], 'EVP_DigestFinal_ex')
    if isinstance(a[2], Ptr):
        e.store(st, a[2], const(n, 32), 4, 'EVP_DigestFinal_ex size')
    return [(st, const(1, 32)), t]


def d_init(alg):
    def h(e, st, a):
        k = key(e, st, a[0], alg + ' init')
        t = fail(e, st, const(0, 32))
        lc(st)[k] = (alg, ())
        return [(st, const(1, 32)), t]
    return h


def d_update(algs):
    def h(e, st, a):
        k = key(e, st, a[0], 'digest update')
        c = lc(st).get(k)
        e.check(st, boolean(c is not None and c[0] in algs), 'pre', 'digest update: context is of this algorithm')
        t = fail(e, st, const(0, 32))
        absorb(e, st, k, a[1], a[2], 'digest update')
        return [(st, const(1, 32)), t]
    return h


def d_final(algs):
    def h(e, st, a):
        k = key(e, st, a[1], 'digest final')
        c = lc(st).get(k)
        e.check(st, boolean(c is not None and c[0] in algs), 'pre', 'digest final: context is of this algorithm')
        t = fail(e, st, const(0, 32))
        emit(e, st, k, a[0], 'digest final')
        return [(st, const(1, 32)), t]
    return h


def contracts(alg):
    r = {'EVP_MD_CTX_new': evp_new, 'EVP_MD_CTX_free': evp_free, 'EVP_DigestInit_ex': evp_init, 'EVP_DigestInit_ex2': evp_init,
         'EVP_DigestUpdate': evp_update, 'EVP_DigestFinal_ex': evp_final}
    for f, a in MD.items():
        r[f] = evp_md(a)
    for p, a, fam in (('MD5', 'md5', ('md5',)), ('SHA1', 'sha1', ('sha1',)), ('SHA224', 'sha224', ('sha224', 'sha256')), ('SHA256', 'sha256', ('sha224', 'sha256')),
                      ('SHA512', 'sha512', ('sha512', 'sha384')), ('SHA384', 'sha384', ('sha512', 'sha384'))):
        r[p + '_Init'] = d_init(a)
        r[p + '_Update'] = d_update(fam)
        r[p + '_Final'] = d_final(fam)
    return r


def make_context(e, st, alg, ctx, mod, segs):
    """Puts an initialised library context inside libhmac's context object; returns the objects it owns."""
    t = mod.types['%%struct.libhmac_internal_%s_context' % alg]
    f = t.fields[0]
    if f.kind == 'ptr':
        oid = e.new(st, 48, 'evp', 'EVP_MD_CTX', ('sym', 'EVP'))
        st.w(ctx).put(Z, Ptr(oid, Z), 8)
        lc(st)[(oid, 0)] = (alg, segs)
        return [oid]
    lc(st)[(ctx, 0)] = (alg, segs)
    return []


def context_state(e, st, alg, ctx, mod):
    """(segments absorbed or None, objects owned) of libhmac's context object."""
    t = mod.types['%%struct.libhmac_internal_%s_context' % alg]
    if t.fields[0].kind == 'ptr':
        v = e.peek(st, ctx, Z, 8)
        if not isinstance(v, Ptr) or v.o not in st.mem:
            return None, []
        c = lc(st).get((v.o, 0))
        return (c[1] if c and c[0] == alg and st.mem[v.o].live else None), [v.o]
    c = lc(st).get((ctx, 0))
    return (c[1] if c and c[0] == alg else None), []


# ------------------------------------------------------------------ messages

def seg_list(segs):
    """Segments as (byte function, length) pairs."""
    return [((lambda q, m=m, o=o: m.byte(add(o, q))), n) for _, m, o, n in segs]


def total(parts):
    t = Z
    for _, n in parts:
        t = add(t, n)
    return t


def byte_at(parts, p):
    """Byte p of the concatenation."""
    r = const(0, 8)
    start = total(parts)
    for f, n in reversed(parts):
        start = sub(start, n)
        d = sub(p, start)
        r = ite(ult(d, n), f(d), r) if not (isc(n) and n.a == 0) else r
    return r


def same_message(e, st, segs, want, name, kind='post'):
    """The concatenation of the segments is the message `want` (a list of (byte function, length))."""
    got = seg_list(segs)
    a = e.check(st, eq(total(got), total(want)), kind, name + ' (length)')
    p = var('p', 64)
    u = st.clone()
    u.frames = []
    u.assume(ult(p, total(want)))
    # position p lies in exactly one piece of the wanted message: one obligation per piece
    ok = a
    start = Z
    for f, n in want:
        d = sub(p, start)
        v = u.clone()
        v.assume(ult(d, n))
        if e.feasible(u, ult(d, n)):
            ok = e.check(v, eq(byte_at(got, p), f(d)), kind, name + ' (every byte)') and ok
        start = add(start, n)
    return ok
