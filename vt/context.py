"""Contracts of the five digest contexts (libhmac_<alg>_context.c)."""
import os
from . import env, ir, spec
from .expr import *
from .exec import *
from .libc import BASE, Z


def src(alg):
    return os.path.join(env.REPO, 'libhmac', 'libhmac_%s_context.c' % alg)


def layouts(mod, alg):
    """Candidate readings of the context structure {count, offset, words, block} -> byte offsets, by shape.
    Which field is which is only a proof hint: any reading under which all obligations are discharged proves them."""
    t = mod.types.get('%%struct.libhmac_internal_%s_context' % alg)
    if t is None or t.fields is None:
        raise Unsupported('context structure of %s' % alg)
    A = env.ALGS[alg]
    scal, words, block = [], [], []
    for i, f in enumerate(t.fields):
        o, ft = mod.field(t, i)
        if ft.kind == 'int' and ft.bits == 64:
            scal.append(o)
        elif ft.kind == 'array' and ft.e.kind == 'int' and ft.e.bits == 8 * A['ws'] and ft.n == A['words']:
            words.append(o)
        elif ft.kind == 'array' and ft.e.kind == 'int' and ft.e.bits == 8 and ft.n >= A['block']:
            block.append((o, ft.n))
    size = mod.size(t)
    r = []
    if len(words) == 1 and len(block) == 1:
        for c in scal:
            for o in scal:
                if c != o:
                    r.append(dict(count=c, offset=o, words=words[0], block=block[0][0], blockn=block[0][1], size=size))
    if not r:
        raise Unsupported('context structure of %s has another shape' % alg)
    return r


def rd(e, st, oid, off, n):
    return e.peek(st, oid, const(off, 64) if not isinstance(off, Node) else off, n)


# ------------------------------------------------------------------ transform

class TransformLoop(LoopSpec):
    """After k iterations: the chaining words are those after absorbing the first k blocks of the buffer."""

    def __init__(s, eng, st, f, h):
        s.P = eng.P

    def init(s, e, st):
        P = s.P
        for i in range(P['words']):
            e.check(st, eq(rd(e, st, P['ctx'], P['lay']['words'] + i * P['ws'], P['ws']), P['H0'][i]), 'invariant',
                    'transform: chaining words at loop entry are those of the context')

    def havoc(s, e, st, k):
        P = s.P
        s.H = [fresh('chain', 8 * P['ws']) for _ in range(P['words'])]
        for i in range(P['words']):
            st.w(P['ctx']).put(const(P['lay']['words'] + i * P['ws'], 64), s.H[i], P['ws'])
        st.ghost['chain'] = tuple(s.H)
        st.ghost['blocks'] = k

    def preserve(s, e, st, k, k1):
        P = s.P
        B = P['block']
        blk = [e.P['bufbyte'](st, add(mul(k, const(B, 64)), const(j, 64))) for j in range(B)]
        want = spec.compress(P['alg'], list(s.H), blk)
        got = [rd(e, st, P['ctx'], P['lay']['words'] + i * P['ws'], P['ws']) for i in range(P['words'])]
        for i, (g, w) in enumerate(zip(got, want)):
            e.equal(st, g, w, 'invariant', 'transform: one iteration is one compression of the block at %d*k (word %d)' % (B, i))


class CEngine(Engine):
    """Engine with an equality obligation that refutes by concrete evaluation before using a solver."""

    def equal(s, st, g, w, kind, name):
        if g is w:
            return s.check(st, TRUE, kind, name)
        for seed in range(4):
            v = ev([g, w], {}, rand_env('eq%d' % seed))
            if v[g] != v[w]:
                fn, line = s.where(st)
                o = Obligation()
                o.kind, o.name, o.fn, o.line, o.secs, o.backend = kind, name, fn, line, 0.0, 'concrete evaluation'
                o.status, o.model, o.goal, o.pc, o.trail = 'refuted', None, None, list(st.pc), list(st.trail)
                s.obl.append(o)
                return False
        old = s.timeout_ms
        s.timeout_ms = s.eq_timeout_ms
        try:
            return s.check(st, eq(g, w), kind, name)
        finally:
            s.timeout_ms = old

    eq_timeout_ms = 15000


def clear_locals(e):
    """Obligation: on every return no local array holds anything but zeroes, constants or never-written bytes."""
    def on_ret(s, fr, v):
        for oid in fr.allocas:
            m = s.mem[oid]
            if not isc(m.size) or m.size.a <= 8:
                continue
            bad = []
            for i in range(m.size.a):
                b = m.byte(const(i, 64))
                if isinstance(b, Node) and any(n.op == 'var' or n.op == 'sel' and not n.a[0].startswith('undef_') for n in topo([b])):
                    bad.append(eq(b, const(0, 8)))
            u = s.clone()
            u.frames = []
            e.check(u, ands(bad) if bad else TRUE, 'clear', '%s: local array is cleared of message data and state on return' % fr.f.name)
    e.on_ret.append(on_ret)


def transform(alg, variant, deadline=None):
    """Contract: for every context, buffer and size <= SSIZE_MAX, returns floor(size/B)*B, the chaining words
    become the compression of that many bytes from the start of buffer, nothing else changes."""
    mod = ir.compile_ir(src(alg), variant)
    A = env.ALGS[alg]
    name = 'libhmac_%s_context_transform' % alg
    e = CEngine(mod, dict(BASE), deadline)
    lay = layouts(mod, alg)[0]
    st = State()
    ctx = e.new(st, lay['size'], 'param', 'context', ('sym', 'C'))
    size = var('size', 64)
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    cn, bn, en = var('context_null', 1), var('buffer_null', 1), var('error_null', 1)
    H0 = [rd(e, st, ctx, lay['words'] + i * A['ws'], A['ws']) for i in range(A['words'])]
    e.P = dict(A, alg=alg, ctx=ctx, buf=buf, lay=lay, H0=H0, bufbyte=lambda s_, o: sel('M', o))
    e.loopspecs[name] = TransformLoop
    q = var('q', 64)
    old = st.mem[ctx].byte(q)
    bad = ors([cn, bn, ult(const((1 << 63) - 1, 64), size)])
    st.assume(bnot(bad))          # precondition; its callers are checked against it (c_transform)
    clear_locals(e)
    outs = e.run(name, st, [Ptr(ctx, Z, cn), Ptr(buf, Z, bn), size, Ptr(err, Z, en)])
    M1 = const(-1, 64)
    for s, r in outs:
        if s.ghost.get('errors'):
            e.check(s, eq(r, M1), 'post', 'transform: returns -1 when an error is set')
        ok = e.feasible(s, bnot(bad))
        if ok:
            t = s.clone()
            t.assume(bnot(bad))
            e.check(t, eq(r, mul(udiv(size, const(A['block'], 64)), const(A['block'], 64))), 'post', 'transform: returns the size of the whole blocks')
            k = t.ghost.get('blocks', Z)
            e.check(t, eq(k, udiv(size, const(A['block'], 64))), 'post', 'transform: number of blocks absorbed')
            chain = t.ghost.get('chain', tuple(H0))
            for i in range(A['words']):
                e.check(t, eq(rd(e, t, ctx, lay['words'] + i * A['ws'], A['ws']), chain[i]), 'post', 'transform: chaining words after the last block')
            inw = band(ule(const(lay['words'], 64), q), ult(q, const(lay['words'] + A['words'] * A['ws'], 64)))
            t.assume(band(bnot(inw), ult(q, const(lay['size'], 64))))
            e.check(t, eq(t.mem[ctx].byte(q), old), 'frame', 'transform: only the chaining words of the context change')
            e.covered.add('transform: success path')
    return e


def summary(e):
    c = {}
    for o in e.obl:
        c[o.status] = c.get(o.status, 0) + 1
    return c


# ------------------------------------------------------------------ built-in update / finalize
#
# Ghost state. n: blocks absorbed so far; L: message length so far; p: an arbitrary message position (fixed,
# universally quantified) and exp(p) the byte that belongs there; chain: the chaining words after n blocks.
# rep(L):  count = n*B, offset < B, L = n*B + offset, words = chain, n*B <= p < L ==> block[p - n*B] = exp(p)

MAXL = 1 << 61


def c_transform(P):
    """Contract of transform as its callers see it (proved by transform())."""
    def h(e, st, a):
        ic, buf, size, err = a
        A = env.ALGS[P['alg']]
        B = A['block']
        lay = P['lay']
        if not isinstance(ic, Ptr) or not isinstance(buf, Ptr):
            e.check(st, FALSE, 'memory', 'transform.pre: context and buffer are not NULL')
            raise Stop()
        e.check(st, band(bnot(ic.nul), bnot(buf.nul)), 'memory', 'transform.pre: context and buffer are not NULL')
        e.check(st, boolean(ic.o == P['ctx'] and ic.off is Z), 'pre', 'transform.pre: the context being processed')
        e.check(st, ule(size, const((1 << 63) - 1, 64)), 'pre', 'transform.pre: size does not exceed the maximum')
        e.access(st, buf, size, 'memory', 'transform.pre: buffer readable')
        n, chain = st.ghost['n'], st.ghost['chain']
        for i in range(A['words']):
            e.check(st, eq(rd(e, st, P['ctx'], lay['words'] + i * A['ws'], A['ws']), chain[i]), 'invariant',
                    'transform.pre: chaining word %d is the one after the blocks absorbed so far' % i)
        used = mul(udiv(size, const(B, 64)), const(B, 64))
        start = mul(n, const(B, 64))
        d = sub(P['p'], start)
        inside = band(ule(start, P['p']), ult(d, used))
        t = st.clone()
        t.assume(inside)
        if e.feasible(st, inside):
            b = t.mem[buf.o].byte(add(buf.off, d))
            e.check(t, eq(b, P['exp'](P['p'])), 'invariant', 'transform.pre: the bytes absorbed are the next bytes of the padded message')
        new = [fresh('chain', 8 * A['ws']) for _ in range(A['words'])]
        for i in range(A['words']):
            e.note_write(P['ctx'], const(lay['words'] + i * A['ws'], 64), const(A['ws'], 64))
            st.w(P['ctx']).put(const(lay['words'] + i * A['ws'], 64), new[i], A['ws'])
        st.ghost['chain'] = tuple(new)
        st.ghost['n'] = add(n, udiv(size, const(B, 64)))
        return [(st, used)]
    return h


def rep(e, st, P, L, n):
    """The representation invariant as (name, term) pairs, read from memory."""
    A = env.ALGS[P['alg']]
    B, lay, ctx = A['block'], P['lay'], P['ctx']
    cnt = rd(e, st, ctx, lay['count'], 8)
    off = rd(e, st, ctx, lay['offset'], 8)
    nB = mul(n, const(B, 64))
    r = [('the count is that of the blocks absorbed', eq(cnt, nB)),
         ('the block offset is within a block', ult(off, const(B, 64))),
         ('the length so far is count + block offset', eq(L, add(nB, off)))]
    for i in range(A['words']):
        r.append(('chaining word %d' % i, eq(rd(e, st, ctx, lay['words'] + i * A['ws'], A['ws']), st.ghost['chain'][i])))
    d = sub(P['p'], nB)
    inside = band(ule(nB, P['p']), ult(P['p'], L))
    r.append(('the pending bytes are the last bytes of the message', implies(inside, eq(st.mem[ctx].byte(add(const(lay['block'], 64), d)), P['exp'](P['p'])))))
    return r


def builtin_state(alg, variant, deadline, lay_i=0):
    mod = ir.compile_ir(src(alg), variant)
    if 'libhmac_%s_context_transform' % alg not in mod.funcs:
        raise Unsupported('no transform function')
    A = env.ALGS[alg]
    lays = layouts(mod, alg)
    P = dict(A, alg=alg, lay=lays[lay_i])
    con = dict(BASE)
    con['libhmac_%s_context_transform' % alg] = c_transform(P)
    e = CEngine(mod, con, deadline)
    e.P = P
    st = State()
    ctx = P['ctx'] = e.new(st, P['lay']['size'], 'param', 'context', ('sym', 'C'))
    P['errslot'] = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    P['p'] = var('p', 64)
    # the numeric part of rep holds by construction: L = n*B + off with off < B and n < 2^(61 - log2 B)
    lb = A['block'].bit_length() - 1
    nv, ov = var('n', 61 - lb), var('off', lb)
    n = st.ghost['n'] = zext(nv, 64)
    off = zext(ov, 64)
    m = st.w(ctx)
    m.put(const(P['lay']['count'], 64), mul(n, const(A['block'], 64)), 8)
    m.put(const(P['lay']['offset'], 64), off, 8)
    m.layers.append({})
    init = m.copy()
    P['init'] = lambda q: init.byte(q)
    L = P['L'] = add(mul(n, const(A['block'], 64)), off)
    st.ghost['chain'] = tuple(rd(e, st, ctx, P['lay']['words'] + i * A['ws'], A['ws']) for i in range(A['words']))
    return e, st, P, A, n, L


def try_layouts(f, alg, variant, deadline):
    """Runs the proof under each reading of the structure until one discharges everything."""
    best = None
    mod = ir.compile_ir(src(alg), variant)
    for i in range(len(layouts(mod, alg))):
        e = f(alg, variant, deadline, i)
        bad = [o for o in e.obl if o.status != 'proved']
        if not bad:
            return e
        if best is None or len(bad) < len([o for o in best.obl if o.status != 'proved']):
            best = e
    return best


def update(alg, variant, deadline=None):
    if variant in ('builtin', 'rolled'):
        return try_layouts(_update, alg, variant, deadline)
    return lib_update(alg, variant, deadline)


def finalize(alg, variant, deadline=None):
    if variant in ('builtin', 'rolled'):
        return try_layouts(_finalize, alg, variant, deadline)
    return lib_finalize(alg, variant, deadline)


SSIZE = const((1 << 63) - 1, 64)
NEG1 = const(-1, 32)


def arg_post(e, s, r, bad, P, name, unchanged):
    """Common contract for invalid arguments: -1, an error is set, and nothing else changes."""
    if not e.feasible(s, bad):
        return
    t = s.clone()
    t.assume(bad)
    e.covered.add(name + ': argument error path')
    e.check(t, eq(r, NEG1), 'args', name + ': invalid arguments return -1')
    e.check(t, boolean(bool(t.ghost.get('errors'))), 'args', name + ': invalid arguments set an error')
    for nm, oid, old in unchanged:
        q = var('q', 64)
        m = t.mem[oid]
        u = t.clone()
        u.assume(ult(q, m.size))
        e.check(u, eq(m.byte(q), old(q)), 'frame', '%s: %s unchanged on invalid arguments' % (name, nm))


def _update(alg, variant, deadline, lay_i):
    """rep(L) and buffer = message[L, L+size)  ==>  returns 1 and rep(L+size); nothing else changes."""
    e, st, P, A, n, L = builtin_state(alg, variant, deadline, lay_i)
    B = A['block']
    ctx, p = P['ctx'], P['p']
    name = 'libhmac_%s_context_update' % alg
    v = var('v', 8)
    P['exp'] = lambda q: v
    lb = B.bit_length() - 1
    size = cat([var('size_lo', lb), var('size_hi', 64 - lb)])       # any 64-bit value, split at the block size
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    cn, bn, en = var('context_null', 1), var('buffer_null', 1), var('error_null', 1)
    for nm, c in rep(e, st, P, L, n):
        st.assume(c)
    st.assume(ule(n, const(MAXL // B, 64)))
    bad = ors([cn, bn, ult(SSIZE, size)])
    # total length below 2^61 bytes, or the arguments are invalid
    st.assume(bor(bad, ult(add(L, size), const(MAXL, 64))))
    st.assume(bor(bad, ult(size, const(MAXL, 64))))
    L1 = add(L, size)
    st.assume(implies(ands([bnot(bad), ule(L, p), ult(p, L1)]), eq(sel('M', sub(p, L)), v)))
    outs = e.run(name, st, [Ptr(ctx, Z, cn), Ptr(buf, Z, bn), size, Ptr(P['errslot'], Z, en)])
    for s, r in outs:
        arg_post(e, s, r, bad, P, name, [('context', ctx, P['init'])])
        if e.feasible(s, bnot(bad)):
            t = s.clone()
            t.assume(bnot(bad))
            e.covered.add('update: success path')
            e.check(t, eq(r, const(1, 32)), 'post', name + ': returns 1')
            e.check(t, boolean(not t.ghost.get('errors')), 'args', name + ': no error is set on success')
            for nm, c in rep(e, t, P, L1, t.ghost['n'])[:-1]:
                e.check(t, c, 'invariant', 'update: ' + nm)
            pending(e, t, P, L1, t.ghost['n'])
    return e


def pending(e, t, P, L1, n1):
    """n1*B <= p < L1 ==> block[p - n1*B] = exp(p). With L1 - n1*B < B such p are exactly n1*B + d, d < B: one obligation
    shows that, the other is the statement for p := n1*B + d."""
    A = env.ALGS[P['alg']]
    B, lay = A['block'], P['lay']
    nB = mul(n1, const(B, 64))
    o = sub(L1, nB)
    nm = 'update: the pending bytes are the last bytes of the message'
    e.check(t, ult(o, const(B, 64)), 'invariant', nm + ' (fewer than one block)')
    d = zext(fresh('d', B.bit_length() - 1), 64)
    sb = {P['p']: add(nB, d)}
    u = t.clone()
    u.pc = [subst(c, sb) for c in t.pc]
    u.assume(ult(d, o))
    b = u.mem[P['ctx']].byte(add(const(lay['block'], 64), d))
    e.check(u, eq(b, P['exp'](sb[P['p']])), 'invariant', nm)


def padded(A, alg, L):
    """The padded message as a function of the position, given its length and the byte v at a position < L."""
    B = A['block']
    lenb = 16 if B == 128 else 8
    total = mul(udiv(add(L, const(lenb + B, 64)), const(B, 64)), const(B, 64))
    bits = mul(L, const(8, 64))

    def exp(p, v):
        d = sub(p, sub(total, const(lenb, 64)))     # index in the length field
        x = const(0, 8)
        for j in range(lenb):
            if alg == 'md5':
                b = ext(bits, 8 * j, 8)
            else:
                k = lenb - 1 - j
                b = ext(bits, 8 * k, 8) if k < 8 else const(0, 8)
            x = ite(eq(d, const(j, 64)), b, x)
        x = ite(ult(d, const(lenb, 64)), x, const(0, 8))
        return ite(ult(p, L), v, ite(eq(p, L), const(0x80, 8), x))
    return exp, udiv(total, const(B, 64))


def out_byte(A, alg, chain, q):
    """Byte q of the digest encoding of the chaining words (q < 64)."""
    ws = A['ws']
    x = const(0, 8)
    for i in range(A['out']):
        w, j = chain[i // ws], i % ws
        x = ite(eq(q, const(i, 64)), ext(w, 8 * (j if alg == 'md5' else ws - 1 - j), 8), x)
    return x


def _finalize(alg, variant, deadline, lay_i):
    """rep(L) ==> the blocks absorbed in the end are exactly the padded message of length L, the first
    digest-size bytes of hash are the encoded chaining words, the rest of hash is unchanged, the context is zero."""
    e, st, P, A, n, L = builtin_state(alg, variant, deadline, lay_i)
    B = A['block']
    ctx, p = P['ctx'], P['p']
    name = 'libhmac_%s_context_finalize' % alg
    v = var('v', 8)
    exp, total = padded(A, alg, L)
    P['exp'] = lambda q: exp(q, v)
    hs = var('hash_size', 64)
    h = e.new(st, hs, 'param', 'hash', ('sym', 'O'))
    cn, hn, en = var('context_null', 1), var('hash_null', 1), var('error_null', 1)
    for nm, c in rep(e, st, P, L, n):
        st.assume(c)
    st.assume(ult(L, const(MAXL, 64)))
    st.assume(ule(n, const(MAXL // B, 64)))
    bad = ors([cn, hn, ult(SSIZE, hs), ult(hs, const(A['out'], 64))])
    outs = e.run(name, st, [Ptr(ctx, Z, cn), Ptr(h, Z, hn), hs, Ptr(P['errslot'], Z, en)])
    q = var('q', 64)
    for s, r in outs:
        arg_post(e, s, r, bad, P, name, [('context', ctx, P['init']), ('hash', h, lambda q: sel('O', q))])
        if e.feasible(s, bnot(bad)):
            t = s.clone()
            t.assume(bnot(bad))
            e.covered.add('finalize: success path')
            e.check(t, eq(r, const(1, 32)), 'post', name + ': returns 1')
            e.check(t, boolean(not t.ghost.get('errors')), 'args', name + ': no error is set on success')
            e.check(t, eq(t.ghost['n'], total), 'post', 'finalize: the whole padded message was absorbed')
            for i in range(A['out']):
                e.check(t, eq(t.mem[h].byte(const(i, 64)), out_byte(A, alg, t.ghost['chain'], const(i, 64))), 'post', 'finalize: hash byte %d is that of the final chaining words' % i)
            u = t.clone()
            u.assume(band(ule(const(A['out'], 64), q), ult(q, hs)))
            e.check(u, eq(u.mem[h].byte(q), sel('O', q)), 'frame', 'finalize: bytes of hash beyond the digest are not written')
            u = t.clone()
            u.assume(ult(q, const(P['lay']['size'], 64)))
            e.check(u, eq(u.mem[ctx].byte(q), const(0, 8)), 'clear', 'finalize: the whole context is zero')
    return e


# ------------------------------------------------------------------ initialize / free

def leaked(st, allowed=()):
    """Live heap objects and live library contexts that are not in allowed."""
    return [o for o, m in st.mem.items() if m.kind in ('heap', 'evp') and m.live and o not in allowed]


def slot(e, st, name, target, starnull):
    """A pointer variable of the caller that holds &target, or NULL if starnull."""
    s = e.new(st, 8, 'param', name, ('zero',))
    st.w(s).put(Z, Ptr(target, Z, starnull), 8)
    return s


def slot_value(e, st, s):
    return e.peek(st, s, Z, 8)


def is_null(v):
    if isinstance(v, Ptr):
        return v.nul
    return eq(v, Z)


def same_ptr(v, target, starnull):
    """v is the value slot() stored: &target, or NULL if starnull."""
    if isinstance(v, Ptr) and v.o == target and v.off is Z:
        return eq(v.nul, starnull)
    if isinstance(v, Node) and isc(v) and v.a == 0:
        return starnull
    return FALSE


def initialize(alg, variant, deadline=None):
    """*context == NULL ==> returns 1 and *context is a new context that has absorbed nothing (built-in: IV, count 0,
    offset 0), or -1 if an allocation failed, with nothing left allocated. Otherwise -1 and nothing changes."""
    mod = ir.compile_ir(src(alg), variant)
    builtin = variant in ('builtin', 'rolled')
    con = dict(BASE)
    from . import crypto
    if not builtin:
        con.update(crypto.contracts(alg))
    if builtin:
        return try_init(mod, alg, con, deadline)
    return _initialize(mod, alg, con, deadline, None)


def try_init(mod, alg, con, deadline):
    best = None
    for lay in layouts(mod, alg):
        e = _initialize(mod, alg, con, deadline, lay)
        nb = len([o for o in e.obl if o.status != 'proved'])
        if not nb:
            return e
        if best is None or nb < best[0]:
            best = (nb, e)
    return best[1]


def _initialize(mod, alg, con, deadline, lay):
    A = env.ALGS[alg]
    name = 'libhmac_%s_context_initialize' % alg
    e = CEngine(mod, con, deadline)
    st = State()
    tgt = e.new(st, 8, 'param', 'existing context', ('sym', 'X'))
    cn, sn, en = var('context_null', 1), var('star_context_null', 1), var('error_null', 1)
    sl = slot(e, st, 'context', tgt, sn)
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    bad = bor(cn, bnot(sn))
    outs = e.run(name, st, [Ptr(sl, Z, cn), Ptr(err, Z, en)])
    for s, r in outs:
        for b, t in ((True, bad), (False, bnot(bad))):
            if not e.feasible(s, t):
                continue
            u = s.clone()
            u.assume(t)
            v = slot_value(e, u, sl)
            if b:
                e.covered.add('initialize: argument error path')
                e.check(u, eq(r, NEG1), 'args', name + ': invalid arguments return -1')
                e.check(u, boolean(bool(u.ghost.get('errors'))), 'args', name + ': invalid arguments set an error')
                e.check(u, same_ptr(v, tgt, sn), 'frame', name + ': *context unchanged on invalid arguments')
                e.check(u, boolean(not leaked(u)), 'leak', name + ': nothing is left allocated on invalid arguments')
                continue
            failed = u.ghost.get('oom') or u.ghost.get('libfail')
            if failed:
                e.covered.add('initialize: allocation failure path')
                e.check(u, eq(r, NEG1), 'post', name + ': returns -1 when an allocation fails')
                e.check(u, boolean(bool(u.ghost.get('errors'))), 'args', name + ': failure sets an error')
                e.check(u, is_null(v), 'leak', name + ': *context stays NULL on failure')
                e.check(u, boolean(not leaked(u)), 'leak', name + ': nothing is left allocated on failure')
                continue
            e.covered.add('initialize: success path')
            e.check(u, eq(r, const(1, 32)), 'post', name + ': returns 1')
            e.check(u, boolean(not u.ghost.get('errors')), 'args', name + ': no error is set on success')
            ok = isinstance(v, Ptr) and v.o in u.mem and u.mem[v.o].kind == 'heap' and u.mem[v.o].live and v.off is Z and v.nul is FALSE
            e.check(u, boolean(bool(ok)), 'post', name + ': *context is a newly allocated context')
            if not ok:
                continue
            t = mod.types['%%struct.libhmac_internal_%s_context' % alg]
            e.check(u, ule(const(mod.size(t), 64), u.mem[v.o].size), 'memory', name + ': the allocation has the size of a context')
            if lay is not None:
                e.check(u, boolean(leaked(u) == [v.o]), 'leak', name + ': exactly the context is allocated')
                for i in range(A['words']):
                    e.check(u, eq(rd(e, u, v.o, lay['words'] + i * A['ws'], A['ws']), const(spec.IV[alg][i], 8 * A['ws'])), 'post', name + ': chaining word %d is the initial value of %s' % (i, alg))
                e.check(u, eq(rd(e, u, v.o, lay['count'], 8), Z), 'post', name + ': count is 0')
                e.check(u, eq(rd(e, u, v.o, lay['offset'], 8), Z), 'post', name + ': block offset is 0')
            else:
                from . import crypto
                segs, own = crypto.context_state(e, u, alg, v.o, mod)
                e.check(u, boolean(segs == ()), 'post', name + ': an initialised %s library context that has absorbed nothing' % alg)
                e.check(u, boolean(sorted(leaked(u)) == sorted([v.o] + own)), 'leak', name + ': exactly the context is allocated')
    return e


def free(alg, variant, deadline=None):
    """context == NULL: -1. Otherwise returns 1, *context is NULL, and everything the context owned is released,
    with its contents cleared first (built-in)."""
    mod = ir.compile_ir(src(alg), variant)
    builtin = variant in ('builtin', 'rolled')
    con = dict(BASE)
    from . import crypto
    if not builtin:
        con.update(crypto.contracts(alg))
    name = 'libhmac_%s_context_free' % alg
    e = CEngine(mod, con, deadline)
    st = State()
    t = mod.types['%%struct.libhmac_internal_%s_context' % alg]
    ctx = e.new(st, mod.size(t), 'heap', 'context', ('sym', 'C'))
    own = [] if builtin else crypto.make_context(e, st, alg, ctx, mod, ())
    cn, sn, en = var('context_null', 1), var('star_context_null', 1), var('error_null', 1)
    sl = slot(e, st, 'context', ctx, sn)
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))

    def on_free(s, oid):
        if oid == ctx and builtin:
            q = var('q', 64)
            u = s.clone()
            u.frames = []
            u.assume(ult(q, u.mem[ctx].size))
            e.check(u, eq(u.mem[ctx].byte(q), const(0, 8)), 'clear', name + ': the context is cleared before it is released')
    e.on_free = on_free
    outs = e.run(name, st, [Ptr(sl, Z, cn), Ptr(err, Z, en)])
    for s, r in outs:
        for c in (cn, band(bnot(cn), sn), band(bnot(cn), bnot(sn))):
            if not e.feasible(s, c):
                continue
            u = s.clone()
            u.assume(c)
            v = slot_value(e, u, sl)
            if c is cn:
                e.covered.add('free: argument error path')
                e.check(u, eq(r, NEG1), 'args', name + ': invalid arguments return -1')
                e.check(u, boolean(bool(u.ghost.get('errors'))), 'args', name + ': invalid arguments set an error')
                e.check(u, same_ptr(v, ctx, sn), 'frame', name + ': *context unchanged on invalid arguments')
                e.check(u, boolean(sorted(leaked(u)) == sorted([ctx] + own)), 'frame', name + ': nothing is released on invalid arguments')
                continue
            e.covered.add('free: success path')
            e.check(u, eq(r, const(1, 32)), 'post', name + ': returns 1')
            e.check(u, is_null(v), 'post', name + ': *context is NULL afterwards')
            e.check(u, boolean(not u.ghost.get('errors')), 'args', name + ': no error is set on success')
            if c is not cn and bnot(sn) in u.pc or not e.feasible(u, sn):
                e.covered.add('free: release path')
                e.check(u, boolean(not leaked(u)), 'leak', name + ': everything the context owned is released')
    return e


# ------------------------------------------------------------------ library backends

def lib_state(alg, variant, deadline):
    from . import crypto
    mod = ir.compile_ir(src(alg), variant)
    con = dict(BASE)
    con.update(crypto.contracts(alg))
    e = CEngine(mod, con, deadline)
    st = State()
    t = mod.types['%%struct.libhmac_internal_%s_context' % alg]
    ctx = e.new(st, mod.size(t), 'heap', 'context', ('sym', 'C'))
    own = crypto.make_context(e, st, alg, ctx, mod, (('prior',),))
    return e, st, ctx, own, mod


def lib_update(alg, variant, deadline):
    """The library context absorbs exactly buffer[0, size)."""
    from . import crypto
    e, st, ctx, own, mod = lib_state(alg, variant, deadline)
    name = 'libhmac_%s_context_update' % alg
    size = var('size', 64)
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    cn, bn, en = var('context_null', 1), var('buffer_null', 1), var('error_null', 1)
    bad = ors([cn, bn, ult(SSIZE, size)])
    init = st.mem[ctx].copy()
    outs = e.run(name, st, [Ptr(ctx, Z, cn), Ptr(buf, Z, bn), size, Ptr(err, Z, en)])
    p = var('p', 64)
    for s, r in outs:
        segs, own1 = crypto.context_state(e, s, alg, ctx, mod)
        if e.feasible(s, bad):
            t = s.clone()
            t.assume(bad)
            e.covered.add(name + ': argument error path')
            e.check(t, eq(r, NEG1), 'args', name + ': invalid arguments return -1')
            e.check(t, boolean(bool(t.ghost.get('errors'))), 'args', name + ': invalid arguments set an error')
            e.check(t, boolean(segs == (('prior',),)), 'frame', name + ': context unchanged on invalid arguments')
        if not e.feasible(s, bnot(bad)):
            continue
        t = s.clone()
        t.assume(bnot(bad))
        if t.ghost.get('libfail'):
            e.check(t, eq(r, NEG1), 'post', name + ': returns -1 when the library fails')
            e.check(t, boolean(bool(t.ghost.get('errors'))), 'args', name + ': failure sets an error')
            continue
        e.covered.add('update: success path')
        e.check(t, eq(r, const(1, 32)), 'post', name + ': returns 1')
        e.check(t, boolean(not t.ghost.get('errors')), 'args', name + ': no error is set on success')
        ok = segs is not None and segs[:1] == (('prior',),)
        e.check(t, boolean(ok), 'invariant', name + ': the library context keeps what it absorbed')
        e.check(t, boolean(sorted(leaked(t)) == sorted([ctx] + own)), 'leak', name + ': nothing is allocated or released')
        if ok:
            crypto.same_message(e, t, segs[1:], [(lambda q: sel('M', q), size)], 'update: the library context absorbs exactly buffer[0, size)')
    return e


def lib_finalize(alg, variant, deadline):
    from . import crypto
    e, st, ctx, own, mod = lib_state(alg, variant, deadline)
    A = env.ALGS[alg]
    name = 'libhmac_%s_context_finalize' % alg
    hs = var('hash_size', 64)
    h = e.new(st, hs, 'param', 'hash', ('sym', 'O'))
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    cn, hn, en = var('context_null', 1), var('hash_null', 1), var('error_null', 1)
    bad = ors([cn, hn, ult(SSIZE, hs), ult(hs, const(A['out'], 64))])
    gray = ult(const((1 << 32) - 1, 64), hs) if variant.startswith('evp') else FALSE   # the EVP backend may reject larger hash_size
    outs = e.run(name, st, [Ptr(ctx, Z, cn), Ptr(h, Z, hn), hs, Ptr(err, Z, en)])
    q = var('q', 64)
    for s, r in outs:
        if e.feasible(s, bad):
            t = s.clone()
            t.assume(bad)
            e.covered.add(name + ': argument error path')
            e.check(t, eq(r, NEG1), 'args', name + ': invalid arguments return -1')
            e.check(t, boolean(bool(t.ghost.get('errors'))), 'args', name + ': invalid arguments set an error')
            t.assume(ult(q, hs))
            e.check(t, eq(t.mem[h].byte(q), sel('O', q)), 'frame', name + ': hash unchanged on invalid arguments')
        good = band(bnot(bad), bnot(gray))
        if not e.feasible(s, good):
            continue
        t = s.clone()
        t.assume(good)
        if t.ghost.get('libfail'):
            e.check(t, eq(r, NEG1), 'post', name + ': returns -1 when the library fails')
            e.check(t, boolean(bool(t.ghost.get('errors'))), 'args', name + ': failure sets an error')
            continue
        e.covered.add('finalize: success path')
        e.check(t, eq(r, const(1, 32)), 'post', name + ': returns 1')
        e.check(t, boolean(not t.ghost.get('errors')), 'args', name + ': no error is set on success')
        e.check(t, boolean(sorted(leaked(t)) == sorted([ctx] + own)), 'leak', name + ': nothing is allocated or released')
        D = t.ghost.get('digests', ())
        ok = len(D) == 1 and D[0][1] == alg and D[0][2] == (('prior',),)
        e.check(t, boolean(ok), 'post', name + ': one %s digest of everything absorbed is taken' % alg)
        if ok:
            for i in range(A['out']):
                e.check(t, eq(t.mem[h].byte(const(i, 64)), sel(D[0][0], const(i, 64))), 'post', 'finalize: hash byte %d is that of the digest' % i)
            u = t.clone()
            u.assume(band(ule(const(A['out'], 64), q), ult(q, hs)))
            e.check(u, eq(u.mem[h].byte(q), sel('O', q)), 'frame', 'finalize: bytes of hash beyond the digest are not written')
    return e
