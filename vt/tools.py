"""Contracts of hmactools: digest_hash.c, sum_handle.c and byte_size_string.c.

libhmac's contexts are used through their contracts (digest.py), the libyal dependencies (libcfile,
libcsplit, libclocale) and fprintf through the assumed contracts below."""
import os
import time
from . import env, ir
from .expr import *
from .exec import *
from .libc import Z, c_error_set
from .crypto import lc, same_message, OUT
from .context import CEngine, leaked, slot, slot_value, is_null, same_ptr, NEG1, SSIZE
from .digest import ONE, all_contracts, nullness, nonnull, cases, bad_return, split, failure

ALGS = list(env.ALGS)
LABEL = {'md5': 'MD5', 'sha1': 'SHA1', 'sha224': 'SHA224', 'sha256': 'SHA256', 'sha512': 'SHA512'}


def K(v, w=64):
    return const(v, w)


def src(name):
    return os.path.join(env.REPO, 'hmactools', name + '.c')


def inc():
    return ['-I' + os.path.join(env.REPO, 'hmactools')]


def compile_tool(name, variant):
    return ir.compile_ir(src(name), variant, extra=inc())


class Anything:
    """Loops of every function are judged by one loop specification (helpers that are extracted included)."""
    def __init__(s, factory):
        s.f = factory

    def get(s, name, d=None):
        return s.f

    def __contains__(s, name):
        return True


# ------------------------------------------------------------------ candidate invariants
class Cands(LoopSpec):
    """Invariant inferred among candidates: what does not hold at entry or is not preserved is dropped and the
    proof redone without it (Houdini); what is left is an inductive invariant and is used."""
    no_termination = True

    def __init__(s, eng, st, f, h):
        s.f, s.h = f.name, h

    def phivars(s, e, st=None):
        """Loop variables; with a state also the integer locals that live in memory (their address is taken)."""
        r = []
        for n, v in s.phi.items():
            if isinstance(v, Node):
                r.append((n, v))
        return r + [(n, v) for n, v, _ in s.scalars(e, st)] if st is not None else r

    def scalars(s, e, st):
        r = []
        for i, fr in enumerate(st.frames):
            for oid in fr.allocas:
                m = st.mem[oid]
                if m.live and isc(m.size) and m.size.a in (1, 4, 8):
                    try:
                        v = e.peek(st, oid, Z, m.size.a)
                    except Unsupported:
                        continue
                    if isinstance(v, Node):
                        r.append(('local %s of %s' % (m.name, fr.f.name), v, oid))
        return r

    def cands(s, e, st):
        """[(label, condition)] over s.phi and the ghost state of st."""
        return []

    def live(s, e, st):
        for lab, c in s.cands(e, st):
            if (s.f, s.h, lab) not in e.dropped:
                yield lab, c

    def init(s, e, st):
        s.phi = s.phi0
        s.fixed_init(e, st)
        redo = False
        s.labels = set()
        for lab, c in s.live(e, st):
            s.labels.add(lab)
            if e.must(st, c):
                e.check(st, c, 'invariant', 'loop in %s, at entry: %s' % (s.f, lab))
            else:
                e.dropped.add((s.f, s.h, lab))
                redo = True
        if redo and e.early:
            raise Restart()

    def havoc(s, e, st, k):
        s.fixed_havoc(e, st, k)
        for lab, c in s.live(e, st):
            if lab in s.labels:          # proved at entry
                st.assume(c)

    def preserve(s, e, st, k, k1):
        redo = False
        now = list(s.live(e, st))
        for lab in s.labels - {x for x, _ in now}:
            e.dropped.add((s.f, s.h, lab))      # cannot be stated here: the variable does not hold an integer
            redo = True
        for lab, c in now:
            if lab not in s.labels:
                continue
            if e.must(st, c):
                e.check(st, c, 'invariant', 'loop in %s, preserved: %s' % (s.f, lab))
            else:
                e.dropped.add((s.f, s.h, lab))
                redo = True
        if redo and e.early:
            raise Restart()
        s.fixed_preserve(e, st, k, k1)

    def fixed_init(s, e, st):
        pass

    def fixed_havoc(s, e, st, k):
        pass

    def fixed_preserve(s, e, st, k, k1):
        pass


class Restart(BaseException):
    pass


def houdini(build, early=False):
    """build(dropped) -> engine; repeats until no candidate is dropped any more (early: without finishing the round)."""
    dropped = set()
    while True:
        n = len(dropped)
        try:
            e = build(dropped)
        except Restart:
            continue
        if len(dropped) == n:
            return e


def engine(name, variant, deadline, contracts, factory=None, dropped=None, mods=()):
    mod = compile_tool(name, variant)
    e = CEngine(mod, contracts, deadline, mods=mods)
    e.dropped = dropped if dropped is not None else set()
    if factory:
        e.loopspecs = Anything(factory)
    st = State()
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    return e, st, Ptr(err, Z, var('error_null', 1))


# ------------------------------------------------------------------ C10: hexadecimal digest strings
def hexdigit(b, hi):
    d = zext(ext(b, 4, 4), 8) if hi else zext(ext(b, 0, 4), 8)
    return ite(ult(d, K(10, 8)), add(d, K(ord('0'), 8)), add(d, K(ord('a') - 10, 8)))


def hexbyte(arr, q):
    """Byte q of the lowercase hexadecimal representation of the array."""
    b = sel(arr, lshr(q, K(1)))
    return ite(eq(ext(q, 0, 1), K(0, 1)), hexdigit(b, True), hexdigit(b, False))


class HexLoop(Cands):
    def cands(s, e, st):
        P = e.P
        q, k = P['q'], s.kk
        m = st.mem[P['str']]
        two = add(k, k)
        n2 = add(P['n'], P['n'])
        return [('the first characters are the hexadecimal digits, one per iteration', implies(ult(q, k), eq(m.byte(q), hexbyte('D', q)))),
                ('the rest is not written yet, one per iteration', implies(band(ule(k, q), ult(q, m.size)), eq(m.byte(q), sel('S', q)))),
                ('the last two characters per byte are its hexadecimal digits', implies(band(ule(sub(n2, two), q), ult(q, n2)), eq(m.byte(q), hexbyte('D', q)))),
                ('what precedes is not written yet', implies(band(ult(q, sub(n2, two)), ult(q, m.size)), eq(m.byte(q), sel('S', q)))),
                ('nothing is written beyond the digits', implies(band(ule(n2, q), ult(q, m.size)), eq(m.byte(q), sel('S', q)))),
                ('nothing is written beyond the digits and the end of string', implies(band(ult(n2, q), ult(q, m.size)), eq(m.byte(q), sel('S', q)))),
                ('the end of string character is written', eq(m.byte(n2), K(0, 8))),
                ('the first two characters per byte are its hexadecimal digits', implies(ult(q, two), eq(m.byte(q), hexbyte('D', q)))),
                ('what follows is not written yet', implies(band(ule(two, q), ult(q, m.size)), eq(m.byte(q), sel('S', q))))]

    def init(s, e, st):
        s.kk = Z
        Cands.init(s, e, st)

    def havoc(s, e, st, k):
        s.kk = k
        Cands.havoc(s, e, st, k)

    def preserve(s, e, st, k, k1):
        s.kk = k1
        Cands.preserve(s, e, st, k, k1)


HexLoop.no_termination = False


def hexstring(variant='builtin', deadline=None):
    """digest_hash_copy_to_string: 1 and string[0, 2n] is the lowercase hexadecimal representation and its end of
    string character, nothing beyond is written; or -1, an error and the string unchanged."""
    name = 'digest_hash_copy_to_string'

    def build(dropped):
        e, st, err = engine('digest_hash', variant, deadline, all_contracts(), HexLoop, dropped)
        n, sz = var('digest_hash_size', 64), var('string_size', 64)
        d = e.new(st, n, 'input', 'digest_hash', ('sym', 'D'))
        s_ = e.new(st, sz, 'param', 'string', ('sym', 'S'))
        dn, sn = var('digest_hash_null', 1), var('string_null', 1)
        q = var('q', 64)
        e.P = dict(q=q, str=s_, n=n)
        need = add(add(n, n), K(1))
        bad = ors([dn, sn, ult(SSIZE, n), ult(SSIZE, sz), ult(sz, need)])
        for s, r in e.run(name, st, [Ptr(d, Z, dn), n, Ptr(s_, Z, sn), sz, err]):
            b, g = split(e, s, bad)
            if b:
                e.covered.add(name + ': argument error path')
                failure(e, b, r, name)
                b.assume(ult(q, sz))
                e.check(b, eq(b.mem[s_].byte(q), sel('S', q)), 'frame', name + ': string unchanged on invalid arguments')
            if g:
                e.covered.add(name + ': success path')
                e.check(g, eq(r, ONE), 'post', name + ': returns 1')
                e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
                m = g.mem[s_]
                two = add(n, n)
                e.check(g, implies(ult(q, two), eq(m.byte(q), hexbyte('D', q))), 'post', name + ': every character is the hexadecimal digit of its half of a byte')
                e.check(g, eq(m.byte(two), K(0, 8)), 'post', name + ': the end of string character follows the digits')
                e.check(g, implies(band(ult(two, q), ult(q, sz)), eq(m.byte(q), sel('S', q))), 'frame', name + ': nothing is written beyond the end of string character')
        return e
    return houdini(build)


def c_hexstring(e, st, a):
    """Contract proved by hexstring()."""
    d, n, s_, sz, err = a
    bad = ors([nullness(d), nullness(s_), ult(SSIZE, n), ult(SSIZE, sz), ult(sz, add(add(n, n), K(1)))])
    outs = []
    for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        if not isc(n) or n.a > 4096:
            raise Unsupported('digest_hash_copy_to_string of unknown size')
        e.access(t, nonnull(d), n, 'memory', 'digest_hash_copy_to_string.pre: digest readable')
        e.access(t, nonnull(s_), K(2 * n.a + 1), 'memory', 'digest_hash_copy_to_string.pre: string writable')
        e.note_write(s_.o, s_.off, K(2 * n.a + 1))
        bs = [t.mem[d.o].byte(add(d.off, K(i))) for i in range(n.a)]
        m = t.w(s_.o)
        for i, b in enumerate(bs):
            m.put(add(s_.off, K(2 * i)), hexdigit(b, True), 1)
            m.put(add(s_.off, K(2 * i + 1)), hexdigit(b, False), 1)
        m.put(add(s_.off, K(2 * n.a)), K(0, 8), 1)
        outs.append((t, ONE))
    return outs


# ------------------------------------------------------------------ sum handle: layout and assumed contracts
FIELDS = ['input_handle', 'process_buffer_size', 'abort'] + ['%s_%s' % x for x in ()]
for _a in ALGS:
    FIELDS += ['calculate_' + _a, _a + '_context', 'calculated_%s_hash_string' % _a]


def layout(variant):
    """Offsets of the fields of sum_handle_t, from the compiler."""
    p = os.path.join(env.scratch(), 'probe-%d.c' % os.getpid())
    env.write(p, '#include <common.h>\n#include <stddef.h>\n#include <types.h>\n#include "sum_handle.h"\nsize_t vt_layout[] = { sizeof(sum_handle_t), ' +
              ', '.join('offsetof(sum_handle_t,%s), sizeof(((sum_handle_t *)0)->%s)' % (f, f) for f in FIELDS) + ' };\n')
    m = ir.compile_ir(p, variant, extra=inc())
    v = [x[1][1] for x in m.globals['vt_layout'][1][1]]
    L = dict(size=v[0])
    for i, f in enumerate(FIELDS):
        L[f] = v[1 + 2 * i]
        L[f + '.n'] = v[2 + 2 * i]
    return L


def c_file_initialize(e, st, a):
    pp, err = a
    e.access(st, nonnull(pp), K(8), 'memory', 'libcfile_file_initialize.pre: file')
    v = e.peek(st, pp.o, pp.off, 8)
    outs = []
    for t, tag in cases(e, st, [(nullness(v), 'ok'), (bnot(nullness(v)), 'bad')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        f = t.clone()
        f.ghost['oom'] = True
        oid = e.new(t, 64, 'heap', 'file', ('undef', 'file'))
        t.mem[oid].tag = 'file'
        e.store(t, nonnull(pp), Ptr(oid, Z), 8, 'libcfile_file_initialize')
        outs += [(t, ONE), bad_return(e, f, err)]
    return outs


def c_file_free(e, st, a):
    """The file is released and *file becomes NULL, also when closing it fails."""
    pp, err = a
    e.access(st, nonnull(pp), K(8), 'memory', 'libcfile_file_free.pre: file')
    v = e.peek(st, pp.o, pp.off, 8)
    outs = []
    for t, tag in cases(e, st, [(nullness(v), 'null'), (bnot(nullness(v)), 'set')]):
        if tag == 'set':
            need_file(e, t, v, 'libcfile_file_free')
            t.w(v.o).live = False
            e.store(t, nonnull(pp), Z, 8, 'libcfile_file_free')
            f = t.clone()
            f.ghost['libfail'] = True
            outs.append(bad_return(e, f, err))
        outs.append((t, ONE))
    return outs


def need_file(e, st, v, what):
    ok = isinstance(v, Ptr) and st.mem[v.o].tag == 'file' and v.off is Z
    e.check(st, boolean(ok), 'memory', what + '.pre: the argument is a file')
    if not ok:
        raise Stop()
    e.check(st, boolean(st.mem[v.o].live), 'memory', what + '.pre: the file is live')


def c_file_open(e, st, a):
    f, name, flags, err = a
    outs = []
    for t, tag in cases(e, st, [(bor(nullness(f), nullness(name)), 'bad'), (bnot(bor(nullness(f), nullness(name))), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        need_file(e, t, f, 'libcfile_file_open')
        t.ghost['opened'] = t.ghost.get('opened', ()) + ((name, flags),)
        u = t.clone()
        u.ghost['libfail'] = True
        outs += [(t, ONE), bad_return(e, u, err)]
    return outs


def c_file_close(e, st, a):
    f, err = a
    outs = []
    for t, tag in cases(e, st, [(nullness(f), 'bad'), (bnot(nullness(f)), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        need_file(e, t, f, 'libcfile_file_close')
        t.ghost['closed'] = t.ghost.get('closed', 0) + 1
        u = t.clone()
        u.ghost['libfail'] = True
        outs += [(t, K(0, 32)), bad_return(e, u, err)]
    return outs


def c_file_get_size(e, st, a):
    f, p, err = a
    outs = []
    for t, tag in cases(e, st, [(nullness(f), 'bad'), (bnot(nullness(f)), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        need_file(e, t, f, 'libcfile_file_get_size')
        u = t.clone()
        u.ghost['libfail'] = True
        e.store(t, nonnull(p), var('media_size', 64), 8, 'libcfile_file_get_size')
        outs += [(t, ONE), bad_return(e, u, err)]
    return outs


def c_file_read(e, st, a):
    """Reads r bytes, 0 <= r <= size, at the file position, which advances by r; or -1. An abort signal may arrive."""
    f, buf, n, err = a
    bad = ors([nullness(f), nullness(buf), ult(SSIZE, n)])
    outs = []
    for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err, 64))
            continue
        need_file(e, t, f, 'libcfile_file_read_buffer')
        b = nonnull(buf)
        e.access(t, b, n, 'memory', 'libcfile_file_read_buffer.pre: buffer writable')
        P = e.P
        if P.get('abort_cell'):
            h, o, w = P['abort_cell']
            e.note_write(h, K(o), K(w))
            t.w(h).put(K(o), fresh('abort', 8 * w), w)
        u = t.clone()
        u.ghost['libfail'] = True
        r = fresh('read_count', 64)
        t.assume(ule(r, n))
        pos = t.ghost['pos']
        e.note_write(b.o, b.off, n)
        t.w(b.o).layers.append(('cpy', b.off, r, t.mem[P['file']], pos))
        t.ghost['pos'] = add(pos, r)
        # the position never wraps: a file has less than 2^63 bytes
        t.assume(ule(add(pos, r), SSIZE))
        t.ghost['reads'] = t.ghost.get('reads', ()) + ((buf, n, r),)
        outs += [(t, r), bad_return(e, u, err, 64)]
    return outs


def tool_contracts():
    c = all_contracts()
    c.update({'libcfile_file_initialize': c_file_initialize, 'libcfile_file_free': c_file_free, 'libcfile_file_open': c_file_open,
              'libcfile_file_close': c_file_close, 'libcfile_file_get_size': c_file_get_size, 'libcfile_file_read_buffer': c_file_read,
              'digest_hash_copy_to_string': c_hexstring})
    return c


class Handle:
    """A sum handle in an arbitrary state that satisfies its data invariant: an algorithm is enabled if and only
    if it has a string of its size; a context is NULL or a live context of its algorithm, NULL when not enabled;
    the input handle is a live file."""

    def __init__(s, e, st, L, kind='param', prior=(('prior',),), hn=FALSE, context_free=False):
        s.e, s.L = e, L
        s.oid = e.new(st, L['size'], kind, 'sum_handle', ('sym', 'H'))
        m = st.w(s.oid)
        s.exists = {s.oid: TRUE}
        s.flag, s.str, s.ctx, s.ctxnull = {}, {}, {}, {}
        for a in ALGS:
            w = 8 * L['calculate_%s.n' % a]
            v = var('calculate_' + a, w)
            m.put(K(L['calculate_' + a]), v, w // 8)
            en = bnot(eq(v, K(0, w)))
            s.flag[a] = en
            so = e.new(st, 2 * OUT[a] + 1, 'heap', a + ' string', ('sym', 'STR_' + a))
            m.put(K(L['calculated_%s_hash_string' % a]), Ptr(so, Z, bnot(en)), 8)
            s.str[a] = so
            co = e.new(st, var('ctxsize', 64), 'heap', 'digest context', ('sym', 'CTX'))
            st.mem[co].tag = a
            lc(st)[(co, 0)] = (a, prior)
            nul = bor(bnot(en), var(a + '_context_null', 1))
            m.put(K(L[a + '_context']), Ptr(co, Z, nul), 8)
            s.ctx[a], s.ctxnull[a] = co, nul
            s.exists[so], s.exists[co] = en, bnot(nul)
        fo = e.new(st, 64, 'heap', 'file', ('undef', 'file'))
        st.mem[fo].tag = 'file'
        m.put(K(L['input_handle']), Ptr(fo, Z), 8)
        s.file = fo
        s.exists[fo] = TRUE
        s.ptr = Ptr(s.oid, Z, hn)
        s.start = st.mem[s.oid].copy()

    def get(s, st, f):
        return s.e.peek(st, s.oid, K(s.L[f]), s.L[f + '.n'])

    def enabled(s, st, a):
        v = s.get(st, 'calculate_' + a)
        return bnot(eq(v, K(0, v.w)))

    def slots(s, st):
        r = [s.get(st, 'input_handle')]
        for a in ALGS:
            r += [s.get(st, 'calculated_%s_hash_string' % a), s.get(st, a + '_context')]
        return r

    def intact(s, e, st, name, but=(), kind='frame'):
        """The fields other than those listed, and the strings, are unchanged."""
        for f in FIELDS:
            if f in but or f == 'abort':
                continue
            x, y = s.get(st, f), e.peek(st.clone() if False else st, s.oid, K(s.L[f]), s.L[f + '.n'])
            o = old_field(s, f)
            e.check(st, same_value(x, o), kind, '%s: %s unchanged' % (name, f.replace('_', ' ')))

    def invariant(s, e, st, name):
        """The data invariant holds (again) and every live object is owned by the handle."""
        sl = s.slots(st)
        fh = sl[0]
        e.check(st, boolean(isinstance(fh, Ptr) and st.mem[fh.o].live and st.mem[fh.o].tag == 'file'), 'leak', name + ': the handle has its input handle')
        for a in ALGS:
            en = s.enabled(st, a)
            v = s.get(st, 'calculated_%s_hash_string' % a)
            vn = nullness(v)
            ok = TRUE
            if isinstance(v, Ptr):
                m = st.mem[v.o]
                ok = ands([boolean(m.live and m.kind == 'heap'), ule(K(2 * OUT[a] + 1), m.size), eq(v.off, Z)])
            e.check(st, band(eq(en, bnot(vn)), bor(vn, ok)), 'invariant', '%s: %s has a string of its size if and only if it is enabled' % (name, a))
            c = s.get(st, a + '_context')
            cn = nullness(c)
            okc = boolean(isinstance(c, Ptr) and st.mem[c.o].live and st.mem[c.o].tag == a)
            e.check(st, bor(cn, okc), 'memory', '%s: the %s context is NULL or live' % (name, a))
        s.owned(e, st, name)

    def owned(s, e, st, name):
        sl = [v for v in s.slots(st) if isinstance(v, Ptr)]
        for o in leaked(st):
            own = [bnot(s.exists[o])] if o in s.exists else []
            own += [bnot(v.nul) for v in sl if v.o == o]
            e.check(st, ors(own) if own else FALSE, 'leak', '%s: what is allocated is owned by the handle (%s)' % (name, st.mem[o].name))


def old_field(h, f):
    n = h.L[f + '.n']
    o = h.L[f]
    d = h.start
    l = d.layers[-1] if d.layers and isinstance(d.layers[-1], dict) else {}
    x = l.get(o)
    if x is not None and x[1] == 0 and (isinstance(x[0], Ptr) or x[0].w == 8 * n):
        return x[0]
    bs = [d.byte(K(o + i)) for i in range(n)]
    return cat(bs) if n > 1 else bs[0]


def same_value(x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.o == y.o:
            return bor(band(x.nul, y.nul), ands([bnot(x.nul), bnot(y.nul), eq(x.off, y.off)]))
        return band(x.nul, y.nul)
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        p, n = (x, y) if isinstance(x, Ptr) else (y, x)
        return p.nul if isc(n) and n.a == 0 else FALSE
    return eq(x, y)


def hsetup(variant, deadline, factory=None, dropped=None, contracts=None):
    e, st, err = engine('sum_handle', variant, deadline, contracts or tool_contracts(), factory, dropped)
    e.P = {}
    return e, st, err, layout(variant)


def ctxfields():
    return [a + '_context' for a in ALGS]


# ------------------------------------------------------------------ C11: sum handle
def s_initialize(variant='builtin', deadline=None):
    """1 and a new handle with MD5 enabled and a process buffer of 32768 bytes; or -1, an error, nothing allocated."""
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_initialize'
    old = e.new(st, L['size'], 'heap', 'sum_handle', ('sym', 'H'))
    cn, sn = var('sum_handle_null', 1), var('star_null', 1)
    sl = slot(e, st, 'sum_handle', old, sn)
    bad = bor(cn, bnot(sn))
    for s, r in e.run(name, st, [Ptr(sl, Z, cn), err]):
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, same_ptr(slot_value(e, b, sl), old, sn), 'frame', name + ': *sum_handle unchanged on invalid arguments')
            e.check(b, boolean(leaked(b) == [old]), 'leak', name + ': nothing is allocated or released on invalid arguments')
        if g:
            v = slot_value(e, g, sl)
            if g.ghost.get('oom') or g.ghost.get('libfail'):
                e.covered.add(name + ': failure path')
                failure(e, g, r, name)
                e.check(g, is_null(v), 'leak', name + ': *sum_handle stays NULL on failure')
                e.check(g, boolean(leaked(g) == [old]), 'leak', name + ': nothing is left allocated on failure')
                continue
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            ok = isinstance(v, Ptr) and v.nul is FALSE and v.o != old and g.mem[v.o].live
            e.check(g, boolean(ok), 'post', name + ': *sum_handle is a new handle')
            if not ok:
                continue
            h = Handle.__new__(Handle)
            h.e, h.L, h.oid, h.exists = e, L, v.o, {old: FALSE, v.o: FALSE}
            h.invariant(e, g, name)
            for a in ALGS:
                en = h.enabled(g, a)
                e.check(g, en if a == 'md5' else bnot(en), 'post', '%s: %s is %senabled' % (name, a, '' if a == 'md5' else 'not '))
                e.check(g, nullness(h.get(g, a + '_context')), 'post', '%s: no %s context yet' % (name, a))
            e.check(g, eq(h.get(g, 'process_buffer_size'), K(32768)), 'post', name + ': the process buffer size is 32768')
            ab = h.get(g, 'abort')
            e.check(g, eq(ab, K(0, ab.w)), 'post', name + ': abort is not signalled')
            e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
    return e


def s_free(variant='builtin', deadline=None):
    """Everything the handle owns is released exactly once and *sum_handle becomes NULL."""
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_free'
    h = Handle(e, st, L, kind='heap')
    cn, sn = var('sum_handle_null', 1), var('star_null', 1)
    sl = slot(e, st, 'sum_handle', h.oid, sn)
    for s, r in e.run(name, st, [Ptr(sl, Z, cn), err]):
        b, g = split(e, s, cn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, same_ptr(slot_value(e, b, sl), h.oid, sn), 'frame', name + ': *sum_handle unchanged on invalid arguments')
        if g:
            e.covered.add(name + ': success path')
            n, f = split(e, g, sn)
            if n:
                e.check(n, eq(r, ONE), 'post', name + ': returns 1')
            if f:
                if f.ghost.get('libfail'):
                    failure(e, f, r, name)
                else:
                    e.check(f, eq(r, ONE), 'post', name + ': returns 1')
                e.check(f, is_null(slot_value(e, f, sl)), 'post', name + ': *sum_handle is NULL afterwards')
                for o in leaked(f):
                    e.check(f, bnot(h.exists[o]) if o in h.exists else FALSE, 'leak', '%s: everything the handle owns is released (%s)' % (name, f.mem[o].name))
    return e


def s_read_buffer(variant='builtin', deadline=None):
    """Reads from the input at its position; the number of bytes read or -1."""
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_read_buffer'
    hn, bn = var('sum_handle_null', 1), var('buffer_null', 1)
    h = Handle(e, st, L, hn=hn)
    size = var('size', 64)
    e.P['file'] = e.new(st, SSIZE, 'input', 'file contents', ('sym', 'F'))
    st.ghost['pos'] = var('pos', 64)
    buf = e.new(st, size, 'param', 'buffer', ('sym', 'B'))
    q = var('q', 64)
    bad = ors([hn, bn, ult(SSIZE, size)])
    for s, r in e.run(name, st, [h.ptr, Ptr(buf, Z, bn), size, err]):
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            e.check(b, eq(r, K(-1)), 'args', name + ': failure returns -1')
            e.check(b, boolean(bool(b.ghost.get('errors'))), 'args', name + ': failure sets an error')
            e.check(b, boolean(not b.ghost.get('reads')), 'frame', name + ': nothing is read on invalid arguments')
        if g:
            if g.ghost.get('libfail'):
                e.check(g, eq(r, K(-1)), 'args', name + ': failure returns -1')
                e.check(g, boolean(bool(g.ghost.get('errors'))), 'args', name + ': failure sets an error')
                continue
            e.covered.add(name + ': success path')
            rd = g.ghost.get('reads', ())
            e.check(g, eq(sub(g.ghost['pos'], var('pos', 64)), r), 'post', name + ': returns the number of bytes read')
            e.check(g, ule(r, size), 'post', name + ': reads at most size bytes')
            g.assume(ult(q, r))
            e.check(g, eq(g.mem[buf].byte(q), sel('F', add(var('pos', 64), q))), 'post', name + ': the bytes read are those of the input at its position')
        h.intact(e, s, name)
        h.owned(e, s, name)
    return e


def any_(h, st, f):
    return ors([f(a) for a in ALGS])


def s_init_hash(variant='builtin', deadline=None):
    """1 and every enabled algorithm has a new context that has absorbed nothing; or -1 with an error."""
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_initialize_integrity_hash'
    hn = var('sum_handle_null', 1)
    h = Handle(e, st, L, hn=hn)
    busy = ors([bnot(h.ctxnull[a]) for a in ALGS])
    for s, r in e.run(name, st, [h.ptr, err]):
        b, g = split(e, s, hn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
        if g:
            b, g = split(e, g, busy)
            if b:
                failure(e, b, r, name)
            if g and (g.ghost.get('oom') or g.ghost.get('libfail')):
                e.covered.add(name + ': failure path')
                failure(e, g, r, name)
            elif g:
                e.covered.add(name + ': success path')
                e.check(g, eq(r, ONE), 'post', name + ': returns 1')
                e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
                for a in ALGS:
                    c = h.get(g, a + '_context')
                    ok = isinstance(c, Ptr) and c.o not in h.exists and g.mem[c.o].live and g.mem[c.o].tag == a and lc(g).get((c.o, 0)) == (a, ())
                    e.check(g, ite(h.flag[a], band(bnot(nullness(c)), boolean(ok)), nullness(c)), 'post',
                            '%s: %s has a new context that has absorbed nothing if and only if it is enabled' % (name, a))
        h.intact(e, s, name, but=ctxfields())
        h.invariant(e, s, name)
    return e


def c_init_hash(e, st, a):
    """Contract proved by s_init_hash()."""
    h, err = e.P['handle'], a[1]
    p = a[0]
    outs = []
    for t, tag in cases(e, st, [(nullness(p), 'null'), (bnot(nullness(p)), 'ok')]):
        if tag == 'null':
            outs.append(bad_return(e, t, err))
            continue
        the_handle(e, t, p, 'initialize_integrity_hash')
        old = {x: h.get(t, x + '_context') for x in ALGS}
        busy = ors([band(h.enabled(t, x), bnot(nullness(old[x]))) for x in ALGS])
        for u, tag2 in cases(e, t, [(busy, 'busy'), (bnot(busy), 'free')]):
            f = u.clone()
            f.ghost['libfail'] = True
            for x in ALGS:
                if isinstance(old[x], Ptr):
                    f.w(old[x].o).live = False
                new_context(e, h, f, x, fresh(x + '_null', 1), (('garbage',),))
            outs.append(bad_return(e, f, err))
            if tag2 == 'free':
                for x in ALGS:
                    e.check(u, nullness(old[x]), 'pre', 'initialize_integrity_hash: the contexts of algorithms that are not enabled are NULL')
                    new_context(e, h, u, x, bnot(h.enabled(u, x)), ())
                outs.append((u, ONE))
    return outs


def new_context(e, h, st, x, nul, segs):
    oid = e.new(st, var('ctxsize', 64), 'heap', 'digest context', ('sym', 'CTX'))
    st.mem[oid].tag = x
    lc(st)[(oid, 0)] = (x, segs)
    e.note_write(h.oid, K(h.L[x + '_context']), K(8))
    st.w(h.oid).put(K(h.L[x + '_context']), Ptr(oid, Z, nul), 8)
    st.ghost.setdefault('exists', {})[oid] = bnot(nul)


def the_handle(e, st, p, what):
    ok = isinstance(p, Ptr) and p.o == e.P['handle'].oid and p.off is Z
    e.check(st, boolean(ok), 'memory', what + '.pre: the argument is the sum handle')
    if not ok:
        raise Stop()


def s_update_hash(variant='builtin', deadline=None):
    """1 and every enabled algorithm has absorbed exactly buffer[0, size); or -1 with an error."""
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_update_integrity_hash'
    hn, bn = var('sum_handle_null', 1), var('buffer_null', 1)
    h = Handle(e, st, L, hn=hn)
    size = var('size', 64)
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    bad = ors([hn, bn, eq(size, Z), ult(SSIZE, size)])
    missing = ors([band(h.flag[a], h.ctxnull[a]) for a in ALGS])
    for s, r in e.run(name, st, [h.ptr, Ptr(buf, Z, bn), size, err]):
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            for a in ALGS:
                e.check(b, boolean(lc(b).get((h.ctx[a], 0)) == (a, (('prior',),))), 'frame', name + ': no context changes on invalid arguments')
        if g:
            b, g = split(e, g, missing)
            if b:
                failure(e, b, r, name)
            if g and g.ghost.get('libfail'):
                failure(e, g, r, name)
            elif g:
                e.covered.add(name + ': success path')
                e.check(g, eq(r, ONE), 'post', name + ': returns 1')
                e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
                for a in ALGS:
                    u, w = split(e, g, h.flag[a])
                    if w:
                        e.check(w, boolean(lc(w).get((h.ctx[a], 0)) == (a, (('prior',),))), 'frame', '%s: the %s context is not used when it is not enabled' % (name, a))
                    if u:
                        segs = lc(u).get((h.ctx[a], 0), (a, None))[1]
                        ok = segs is not None and segs[:1] == (('prior',),)
                        e.check(u, boolean(ok), 'post', '%s: what %s absorbed before is kept' % (name, a))
                        if ok:
                            same_message(e, u, segs[1:], [(lambda q: sel('M', q), size)], '%s: %s absorbs exactly buffer[0, size)' % (name, a))
        h.intact(e, s, name)
        h.invariant(e, s, name)
    return e


def taint(e, h, st):
    for x in ALGS:
        v = h.get(st, x + '_context')
        if isinstance(v, Ptr):
            lc(st)[(v.o, 0)] = (x, (('garbage',),))


def c_update_hash(e, st, a):
    """Contract proved by s_update_hash()."""
    p, buf, size, err = a
    h = e.P['handle']
    bad = ors([nullness(p), nullness(buf), eq(size, Z), ult(SSIZE, size)])
    outs = []
    for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        the_handle(e, t, p, 'update_integrity_hash')
        b = nonnull(buf)
        e.access(t, b, size, 'memory', 'update_integrity_hash.pre: buffer readable')
        missing = ors([band(h.enabled(t, x), nullness(h.get(t, x + '_context'))) for x in ALGS])
        for u, tag2 in cases(e, t, [(missing, 'missing'), (bnot(missing), 'ok')]):
            f = u.clone()
            f.ghost['libfail'] = True
            taint(e, h, f)
            outs.append(bad_return(e, f, err))
            if tag2 == 'ok':
                m = u.mem[b.o].copy()
                for x in ALGS:
                    v = h.get(u, x + '_context')
                    if isinstance(v, Ptr):
                        al, segs = lc(u).get((v.o, 0), (x, None))
                        lc(u)[(v.o, 0)] = (al, (segs if segs is not None else (('garbage',),)) + (('seg', m, b.off, size),))
                outs.append((u, ONE))
    return outs


def s_final_hash(variant='builtin', deadline=None):
    """1 and the string of every enabled algorithm is the hexadecimal digest of what it absorbed; or -1 with an error."""
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_finalize_integrity_hash'
    hn = var('sum_handle_null', 1)
    h = Handle(e, st, L, hn=hn)
    missing = ors([band(h.flag[a], h.ctxnull[a]) for a in ALGS])
    for s, r in e.run(name, st, [h.ptr, err]):
        b, g = split(e, s, hn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
        if g:
            b, g = split(e, g, missing)
            if b:
                failure(e, b, r, name)
            if g and (g.ghost.get('libfail') or g.ghost.get('oom')):
                failure(e, g, r, name)
            elif g:
                e.covered.add(name + ': success path')
                e.check(g, eq(r, ONE), 'post', name + ': returns 1')
                e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
                for a in ALGS:
                    u, w = split(e, g, h.flag[a])
                    if w:
                        e.check(w, boolean(w.mem[h.str[a]].layers == []), 'frame', '%s: no %s string is written when it is not enabled' % (name, a))
                    if u:
                        D = [d for d in u.ghost.get('digests', ()) if d[1] == a and d[2] == (('prior',),)]
                        e.check(u, boolean(len(D) == 1), 'post', '%s: the %s digest of everything absorbed is taken' % (name, a))
                        if not D:
                            continue
                        m = u.mem[h.str[a]]
                        for i in range(OUT[a]):
                            d = sel(D[0][0], K(i))
                            e.check(u, band(eq(m.byte(K(2 * i)), hexdigit(d, True)), eq(m.byte(K(2 * i + 1)), hexdigit(d, False))), 'post',
                                    '%s: %s string: byte %d of the digest in hexadecimal' % (name, a, i))
                        e.check(u, eq(m.byte(K(2 * OUT[a])), K(0, 8)), 'post', '%s: %s string ends' % (name, a))
        h.intact(e, s, name)
        h.invariant(e, s, name)
    return e


def c_final_hash(e, st, a):
    """Contract proved by s_final_hash()."""
    p, err = a
    h = e.P['handle']
    outs = []
    for t, tag in cases(e, st, [(nullness(p), 'bad'), (bnot(nullness(p)), 'ok')]):
        if tag == 'bad':
            outs.append(bad_return(e, t, err))
            continue
        the_handle(e, t, p, 'finalize_integrity_hash')
        missing = ors([band(h.enabled(t, x), nullness(h.get(t, x + '_context'))) for x in ALGS])
        for u, tag2 in cases(e, t, [(missing, 'missing'), (bnot(missing), 'ok')]):
            f = u.clone()
            f.ghost['libfail'] = True
            taint(e, h, f)
            outs.append(bad_return(e, f, err))
            if tag2 == 'ok':
                rep = dict(u.ghost.get('reported', {}))
                for x in ALGS:
                    v = h.get(u, x + '_context')
                    if isinstance(v, Ptr):
                        segs = lc(u).get((v.o, 0), (x, None))[1]
                        rep[x] = segs if segs is not None else (('garbage',),)
                        lc(u)[(v.o, 0)] = (x, None)
                u.ghost['reported'] = rep
                outs.append((u, ONE))
    return outs


class ProcLoop(Cands):
    """Every context has absorbed the input up to the current position, which is tied to the loop variables."""

    def cands(s, e, st):
        pos, size = st.ghost['pos'], var('media_size', 64)
        r = [('the position is within the input', ule(pos, size))]
        for n, v in s.phivars(e, st):
            if v.w == 64:
                r.append(('%s is the position' % n, eq(v, pos)))
                r.append(('%s is what remains' % n, eq(v, sub(size, pos))))
                r.append(('%s is positive' % n, bnot(eq(v, Z))))
            elif v.w == 32:
                for c in (0, 1):
                    r.append(('%s is %d' % (n, c), eq(v, K(c, 32))))
        return r

    def ctxs(s, e, st):
        h = e.P['handle']
        for x in ALGS:
            v = h.get(st, x + '_context')
            if isinstance(v, Ptr):
                yield x, v

    def absorbed(s, e, st, when):
        F, pos = e.P['file'], st.ghost['pos']
        for x, v in s.ctxs(e, st):
            u = st.clone()
            u.frames = []
            u.assume(bnot(v.nul))
            segs = lc(u).get((v.o, 0), (x, None))[1]
            ok = segs is not None and not any(g[0] != 'seg' for g in segs)
            e.check(u, boolean(ok), 'invariant', 'loop in %s, %s: the %s context has absorbed only input' % (s.f, when, x))
            if ok:
                same_message(e, u, segs, [(lambda q: sel('F', q), pos)], 'loop in %s, %s: the %s context has absorbed the input up to the position' % (s.f, when, x), 'invariant')

    def fixed_init(s, e, st):
        s.absorbed(e, st, 'at entry')

    def fixed_havoc(s, e, st, k):
        pos = fresh('pos', 64)
        st.assume(ule(pos, SSIZE))
        st.ghost['pos'] = pos
        st.ghost['pos0'] = pos
        for x, v in s.ctxs(e, st):
            lc(st)[(v.o, 0)] = (x, (('seg', st.mem[e.P['file']], Z, pos),))

    def fixed_preserve(s, e, st, k, k1):
        s.absorbed(e, st, 'preserved')
        e.check(st, ult(st.ghost['pos0'], st.ghost['pos']), 'termination', 'loop in %s: every iteration consumes input' % s.f)


def s_process(variant='builtin', deadline=None):
    """1 and, unless abort was signalled, the strings of the enabled algorithms are the digests of the whole input,
    for every input size, process buffer size and sequence of partial reads; or -1 with an error, when the input
    cannot be read or ends early."""
    name = 'sum_handle_process_input'

    def build(dropped):
        c = tool_contracts()
        c.update({'sum_handle_initialize_integrity_hash': c_init_hash, 'sum_handle_update_integrity_hash': c_update_hash, 'sum_handle_finalize_integrity_hash': c_final_hash})
        e, st, err, L = hsetup(variant, deadline, ProcLoop, dropped, c)
        hn = var('sum_handle_null', 1)
        h = Handle(e, st, L, hn=hn)
        e.P['handle'] = h
        e.P['file'] = e.new(st, K(-1), 'input', 'file contents', ('sym', 'F'))
        e.P['abort_cell'] = (h.oid, L['abort'], L['abort.n'])
        st.ghost['pos'] = Z
        size, pbs = var('media_size', 64), old_field(h, 'process_buffer_size')
        st.assume(ule(size, SSIZE))
        bad = ors([hn, eq(pbs, Z), ult(SSIZE, pbs)])
        for s, r in e.run(name, st, [h.ptr, err]):
            b, g = split(e, s, bad)
            if b:
                e.covered.add(name + ': argument error path')
                failure(e, b, r, name)
            if g:
                if g.ghost.get('libfail') or g.ghost.get('oom'):
                    e.covered.add(name + ': failure path')
                    failure(e, g, r, name)
                else:
                    ab = h.get(g, 'abort')
                    rep = g.ghost.get('reported')
                    b, g2 = split(e, g, eq(r, NEG1))
                    if b:
                        # without a failing dependency only a short input is an error
                        failure(e, b, r, name)
                        rd = b.ghost.get('reads', ())
                        e.check(b, eq(rd[-1][2], Z) if rd else FALSE, 'post', name + ': fails without a failing dependency only when the input ends early')
                        e.check(b, ult(b.ghost['pos'], size), 'post', name + ': an input that is complete is not rejected')
                    if g2:
                        e.covered.add(name + ': success path')
                        e.check(g2, eq(r, ONE), 'post', name + ': returns 1')
                        e.check(g2, boolean(not g2.ghost.get('errors')), 'args', name + ': no error is set on success')
                        e.check(g2, boolean(rep is not None), 'post', name + ': the digests are finalized')
                        if rep is not None:
                            u = g2.clone()
                            u.assume(eq(ab, K(0, ab.w)))
                            for a in ALGS:
                                w = u.clone()
                                w.assume(h.flag[a])
                                segs = rep.get(a)
                                ok = segs is not None and not any(x[0] != 'seg' for x in segs)
                                e.check(w, boolean(ok), 'post', '%s: the %s digest is taken of input only' % (name, a))
                                if ok:
                                    same_message(e, w, segs, [(lambda q: sel('F', q), size)], '%s: the %s digest is that of the whole input' % (name, a))
            h.intact(e, s, name, but=ctxfields())
            h.exists.update(s.ghost.get('exists', {}))
            h.invariant(e, s, name)
        return e
    return houdini(build)


def s_open(variant='builtin', deadline=None):
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_open_input'
    hn, fn = var('sum_handle_null', 1), var('filename_null', 1)
    h = Handle(e, st, L, hn=hn)
    f = e.new(st, var('filename_size', 64), 'input', 'filename', ('sym', 'FN'))
    for s, r in e.run(name, st, [h.ptr, Ptr(f, Z, fn), err]):
        b, g = split(e, s, bor(hn, fn))
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
        if g:
            if g.ghost.get('libfail'):
                failure(e, g, r, name)
            else:
                e.covered.add(name + ': success path')
                e.check(g, eq(r, ONE), 'post', name + ': returns 1')
                o = g.ghost.get('opened', ())
                ok = len(o) == 1 and isinstance(o[0][0], Ptr) and o[0][0].o == f and o[0][0].off is Z and isc(o[0][1]) and o[0][1].a == 1
                e.check(g, boolean(ok), 'post', name + ': the named file is opened for reading')
        h.intact(e, s, name)
        h.invariant(e, s, name)
    return e


def s_close(variant='builtin', deadline=None):
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_close'
    hn = var('sum_handle_null', 1)
    h = Handle(e, st, L, hn=hn)
    for s, r in e.run(name, st, [h.ptr, err]):
        b, g = split(e, s, hn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
        if g:
            if g.ghost.get('libfail'):
                failure(e, g, r, name)
            else:
                e.covered.add(name + ': success path')
                e.check(g, eq(r, K(0, 32)), 'post', name + ': returns 0')
                e.check(g, boolean(g.ghost.get('closed') == 1), 'post', name + ': the input is closed')
        h.intact(e, s, name)
        h.invariant(e, s, name)
    return e


def s_abort(variant='builtin', deadline=None):
    e, st, err, L = hsetup(variant, deadline)
    name = 'sum_handle_signal_abort'
    hn = var('sum_handle_null', 1)
    h = Handle(e, st, L, hn=hn)
    for s, r in e.run(name, st, [h.ptr, err]):
        b, g = split(e, s, hn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
        if g:
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            ab = h.get(g, 'abort')
            e.check(g, bnot(eq(ab, K(0, ab.w))), 'post', name + ': abort is signalled')
        h.intact(e, s, name)
        h.invariant(e, s, name)
    return e


# ------------------------------------------------------------------ printing
def text_of(e, st, p):
    """The constant string at p."""
    m = st.mem[p.o]
    if not isc(p.off):
        raise Unsupported('string at an unknown offset')
    r, i = [], p.off.a
    while True:
        b = m.byte(K(i))
        if not isc(b):
            raise Unsupported('string that is not constant')
        if b.a == 0:
            return bytes(r).decode('latin-1')
        r.append(b.a)
        i += 1


def c_fprintf(e, st, a):
    """Appends the formatted text to the stream: literal text and %s of strings."""
    stream, fmt, args = a[0], a[1], list(a[2:])
    out = list(st.ghost.get('printed', ()))
    t = text_of(e, st, fmt)
    i = 0
    while i < len(t):
        if t[i] != '%':
            out.append(t[i])
            i += 1
        elif t[i + 1] == '%':
            out.append('%')
            i += 2
        elif t[i + 1] == 's':
            p = args.pop(0)
            if not isinstance(p, Ptr):
                e.check(st, FALSE, 'memory', 'fprintf: string argument is valid')
                raise Stop()
            e.check(st, bnot(p.nul), 'memory', 'fprintf: string argument is not NULL')
            m = st.mem[p.o]
            e.check(st, boolean(m.live), 'memory', 'fprintf: string argument is live')
            if m.kind in ('global', 'extern'):
                out += list(text_of(e, st, p))
            else:
                out.append(('str', p.o, p.off))
            i += 2
        elif t[i + 1] == 'c' and isc(args[0]):
            out.append(chr(args.pop(0).a & 255))
            i += 2
        else:
            raise Unsupported('format ' + t[i:i + 4])
    st.ghost['printed'] = tuple(out)
    st.ghost['streams'] = st.ghost.get('streams', ()) + (stream,)
    return fresh('printed', 32)


def c_fputs(e, st, a):
    p = e.glob_fmt = a[0]
    return c_fprintf2(e, st, a[1], a[0])


def c_fprintf2(e, st, stream, p):
    out = list(st.ghost.get('printed', ()))
    m = st.mem[p.o]
    out += list(text_of(e, st, p)) if m.kind in ('global', 'extern') else [('str', p.o, p.off)]
    st.ghost['printed'] = tuple(out)
    st.ghost['streams'] = st.ghost.get('streams', ()) + (stream,)
    return fresh('printed', 32)


def c_fputc(e, st, a):
    if not isc(a[0]):
        raise Unsupported('fputc of an unknown character')
    st.ghost['printed'] = tuple(st.ghost.get('printed', ())) + (chr(a[0].a & 255),)
    st.ghost['streams'] = st.ghost.get('streams', ()) + (a[1],)
    return fresh('printed', 32)


def s_print(variant='builtin', deadline=None):
    """One line per enabled algorithm: its name and its string; nothing for the others."""
    c = tool_contracts()
    c.update({'fprintf': c_fprintf, 'fputs': c_fputs, 'fputc': c_fputc, 'putc': c_fputc})
    e, st, err, L = hsetup(variant, deadline, contracts=c)
    name = 'sum_handle_hash_values_fprint'
    hn, sn = var('sum_handle_null', 1), var('stream_null', 1)
    h = Handle(e, st, L, hn=hn)
    f = e.new(st, 8, 'param', 'stream', ('sym', 'ST'))
    for s, r in e.run(name, st, [h.ptr, Ptr(f, Z, sn), err]):
        b, g = split(e, s, bor(hn, sn))
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, boolean(not b.ghost.get('printed')), 'frame', name + ': nothing is printed on invalid arguments')
        if g:
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            e.check(g, boolean(all(isinstance(x, Ptr) and x.o == f for x in g.ghost.get('streams', ()))), 'frame', name + ': prints to the stream only')
            lines = tokens(g.ghost.get('printed', ()))
            for a in ALGS:
                want = '%s hash calculated over data:<%s>' % (LABEL[a], h.str[a])
                n = sum(1 for x in lines if x == want)
                e.check(g, ite(h.flag[a], boolean(n == 1), boolean(n == 0)), 'post', '%s: one line with the %s digest string if and only if it is enabled' % (name, a))
            known = {'%s hash calculated over data:<%s>' % (LABEL[a], h.str[a]) for a in ALGS} | {''}
            e.check(g, boolean(all(x in known for x in lines)), 'post', name + ': nothing else is printed')
        h.intact(e, s, name)
        h.invariant(e, s, name)
    return e


def tokens(out):
    r, cur = [], ''
    for x in out:
        if isinstance(x, tuple):
            cur = cur.rstrip() + '<%s>' % x[1] + ('' if x[2] is Z else '+?')
        elif x == '\n':
            r.append(cur)
            cur = ''
        else:
            cur += x
    return r + [cur]


# ------------------------------------------------------------------ C12: digest types
NAMES = {'md5': ['md5', 'MD5'], 'sha1': ['sha1', 'SHA1', 'sha-1', 'sha_1', 'SHA-1', 'SHA_1']}
for _n in ('224', '256', '512'):
    NAMES['sha' + _n] = [p + s + _n for p in ('sha', 'SHA') for s in ('', '-', '_')]


def c_strlen(e, st, a):
    """Strings handed to the tools are NUL terminated objects: the length is the object's."""
    p = a[0]
    if not isinstance(p, Ptr):
        e.check(st, FALSE, 'memory', 'strlen: string is valid')
        raise Stop()
    e.check(st, bnot(p.nul), 'memory', 'strlen: string is not NULL')
    if st.mem[p.o].kind in ('global', 'extern'):
        return K(len(text_of(e, st, p)))
    L = e.P['strlens'].get(p.o)
    if L is None:
        raise Unsupported('strlen of an unknown string')
    e.check(st, ule(p.off, L), 'memory', 'strlen: within the string')
    return sub(L, p.off)


def c_strncmp(bounded=True, nul=True):
    def h(e, st, a):
        p, q = a[0], a[1]
        if not isinstance(p, Ptr) or not isinstance(q, Ptr):
            e.check(st, FALSE, 'memory', 'string comparison: strings are valid')
            raise Stop()
        n = None
        if bounded:
            n = a[2].a if isc(a[2]) else a[2]
        e.check(st, band(bnot(p.nul), bnot(q.nul)), 'memory', 'string comparison: strings are not NULL')
        lit = q if st.mem[q.o].kind in ('global', 'extern') else p
        if st.mem[lit.o].kind not in ('global', 'extern'):
            raise Unsupported('comparison of two unknown strings')
        cut = None
        if n is None:
            n = len(text_of(e, st, lit)) + 1
        elif not isinstance(n, int):
            n, cut = (1 << 62), n
        oth = p if lit is q else q
        lm, om = st.mem[lit.o], st.mem[oth.o]
        same = TRUE
        inb = TRUE
        for j in range(n):
            act = TRUE if cut is None else ult(K(j), cut)
            if not (isc(lm.size) and lit.off.a + j < lm.size.a):
                e.check(st, bnot(band(same, act)), 'memory', 'string comparison: within the literal')
                break
            inb = band(inb, implies(band(same, act), ult(add(oth.off, K(j)), om.size)))
            x, y = lm.byte(add(lit.off, K(j))), om.byte(add(oth.off, K(j)))
            same = band(same, implies(act, eq(x, y)))
            if nul and x.a == 0:
                break
        e.check(st, inb, 'memory', 'string comparison: within the string')
        r = fresh('cmp', 32)
        st.assume(eq(eq(r, K(0, 32)), same))
        return r
    return h


def seg_size(i):
    return zext(cat([sel('SEGSIZE', add(mul(i, K(8)), K(j))) for j in range(8)]), 64)


def c_split(e, st, a):
    """libcsplit: -1, or 1 and a list of segments: their number and, for each index, a NUL terminated string of
    the given size (with its end of string character)."""
    s_, n, delim, out, err = a
    P = e.P
    e.check(st, eq(ext(delim, 0, 8), K(ord(','), 8)), 'pre', 'string_split: the delimiter is a comma')
    ok = isinstance(s_, Ptr) and s_.o == P['string'] and s_.off is Z
    e.check(st, boolean(ok), 'pre', 'string_split: the string argument is split')
    if not ok:
        raise Stop()
    e.check(st, eq(n, add(P['strlens'][P['string']], K(1))), 'pre', 'string_split: the whole string is split')
    e.access(st, out, K(8), 'memory', 'string_split.pre: split string')
    v = e.peek(st, out.o, out.off, 8)
    e.check(st, nullness(v), 'pre', 'string_split: *split_string is NULL')
    f = st.clone()
    f.ghost['libfail'] = True
    oid = e.new(st, 32, 'heap', 'split string', ('undef', 'split'))
    st.mem[oid].tag = 'split'
    e.store(st, out, Ptr(oid, Z), 8, 'string_split')
    return [(st, ONE), bad_return(e, f, err)]


def need_split(e, st, v, what):
    ok = isinstance(v, Ptr) and st.mem[v.o].tag == 'split'
    e.check(st, boolean(ok and st.mem[v.o].live), 'memory', what + '.pre: a live split string')
    if not ok:
        raise Stop()
    e.check(st, bnot(v.nul), 'memory', what + '.pre: the split string is not NULL')


def c_split_free(e, st, a):
    pp, err = a
    e.access(st, pp, K(8), 'memory', 'split_string_free.pre: split string')
    v = e.peek(st, pp.o, pp.off, 8)
    if isinstance(v, Node) and isc(v) and v.a == 0:
        return ONE
    need_split(e, st, v, 'split_string_free')
    st.w(v.o).live = False
    e.store(st, pp, Z, 8, 'split_string_free')
    f = st.clone()
    f.ghost['libfail'] = True
    return [(st, ONE), bad_return(e, f, err)]


def c_split_count(e, st, a):
    v, p, err = a
    need_split(e, st, v, 'get_number_of_segments')
    f = st.clone()
    f.ghost['libfail'] = True
    n = var('number_of_segments', 32)
    e.store(st, p, n, 4, 'get_number_of_segments')
    return [(st, ONE), bad_return(e, f, err)]


def c_split_get(e, st, a):
    v, i, pp, ps, err = a
    need_split(e, st, v, 'get_segment_by_index')
    P = e.P
    n = var('number_of_segments', 32)
    bad = bnot(ult(i, n))
    outs = []
    for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
        f = t.clone()
        if tag == 'ok':
            f.ghost['libfail'] = True
        outs.append(bad_return(e, f, err))
        if tag == 'bad':
            continue
        size = fresh('segment_size', 64)
        t.assume(ule(size, SSIZE))
        oid = e.new(t, size, 'input', 'segment', ('sym', 'SEG%d' % (e.oid + 1)))
        m = t.mem[oid]
        t.assume(bnot(eq(size, Z)))
        t.assume(eq(m.byte(sub(size, K(1))), K(0, 8)))
        nul = fresh('segment_null', 1)
        e.store(t, pp, Ptr(oid, Z, nul), 8, 'get_segment_by_index')
        e.store(t, ps, size, 8, 'get_segment_by_index')
        seen = dict(t.ghost['seen'])
        for x in ALGS:
            seen[x] = bor(seen[x], matches(m, size, x))
            # no character before the end of string is NUL, for the positions the names reach
        for j in range(8):
            t.assume(implies(ult(K(j + 1), size), bnot(eq(m.byte(K(j)), K(0, 8)))))
        t.ghost['seen'] = seen
        t.ghost['got'] = bor(t.ghost['got'], eq(i, var('w', 32)))
        t.ghost['null'] = bor(t.ghost['null'], nul)
        outs.append((t, ONE))
    return outs


def matches(m, size, alg):
    """The segment is one of the names of the algorithm."""
    r = []
    for nm in NAMES[alg]:
        r.append(ands([eq(size, K(len(nm) + 1))] + [eq(m.byte(K(j)), K(ord(c), 8)) for j, c in enumerate(nm)]))
    return ors(r)


class TypesLoop(Cands):
    """Which algorithms the segments seen so far name, tied to the loop variables; every segment is looked at."""

    def cands(s, e, st):
        seen = st.ghost['seen']
        w, n = var('w', 32), var('number_of_segments', 32)
        k32 = ext(s.kk, 0, 32)
        r = [('the segments before the index have been looked at', implies(band(slt(w, k32), bnot(slt(w, K(0, 32)))), st.ghost['got'])),
             ('the last segments have been looked at', implies(band(slt(w, n), bnot(slt(w, sub(n, k32)))), st.ghost['got'])),
             ('no segment is missing', bnot(st.ghost['null']))]
        for p, v in s.phivars(e, st):
            if v.w in (8, 32, 64):
                for x in ALGS:
                    r.append(('%s tells whether %s is named' % (p, x), eq(bnot(eq(v, K(0, v.w))), seen[x])))
            if v.w == 32:
                r.append(('%s is the number of segments looked at' % p, eq(v, k32)))
                r.append(('%s is the number of segments not yet looked at, less one' % p, eq(v, sub(n, add(k32, K(1, 32))))))
                r.append(('%s is the number of segments not yet looked at' % p, eq(v, sub(n, k32))))
        return r

    init, havoc0, preserve = HexLoop.init, None, HexLoop.preserve

    def havoc(s, e, st, k):
        s.kk = k
        Cands.havoc(s, e, st, k)

    def fixed_havoc(s, e, st, k):
        st.assume(ule(k, K(0x7fffffff)))
        st.ghost['seen'] = {x: fresh('seen_' + x, 1) for x in ALGS}
        st.ghost['got'] = fresh('got', 1)
        st.ghost['null'] = fresh('null', 1)


TypesLoop.no_termination = False


def s_types(variant='builtin', deadline=None):
    """The algorithms named in the comma separated list are enabled in addition to those that already are."""
    name = 'sum_handle_set_digest_types'

    def build(dropped):
        c = tool_contracts()
        c.update({'libcsplit_narrow_string_split': c_split, 'libcsplit_narrow_split_string_free': c_split_free,
                  'libcsplit_narrow_split_string_get_number_of_segments': c_split_count, 'libcsplit_narrow_split_string_get_segment_by_index': c_split_get,
                  'strlen': c_strlen, 'strncmp': c_strncmp(), 'memcmp': c_strncmp(nul=False), 'strcmp': c_strncmp(bounded=False)})
        e, st, err, L = hsetup(variant, deadline, TypesLoop, dropped, c)
        hn = var('sum_handle_null', 1)
        h = Handle(e, st, L, hn=hn)
        ln = var('string_length', 64)
        st.assume(ult(ln, SSIZE))
        e.P['string'] = e.new(st, add(ln, K(1)), 'input', 'string', ('sym', 'T'))
        e.P['strlens'] = {e.P['string']: ln}
        n, w = var('number_of_segments', 32), var('w', 32)
        st.assume(bnot(slt(n, K(0, 32))))
        st.ghost.update(seen={x: FALSE for x in ALGS}, got=FALSE, null=FALSE)
        flds = ['calculate_' + a for a in ALGS] + ['calculated_%s_hash_string' % a for a in ALGS]
        for s, r in e.run(name, st, [h.ptr, Ptr(e.P['string'], Z), err]):
            b, g = split(e, s, hn)
            if b:
                e.covered.add(name + ': argument error path')
                failure(e, b, r, name)
                h.intact(e, b, name)
            if g:
                seen = g.ghost['seen']
                if g.ghost.get('libfail') or g.ghost.get('oom'):
                    e.covered.add(name + ': failure path')
                    failure(e, g, r, name)
                else:
                    x, g2 = split(e, g, g.ghost['null'])
                    if x:
                        failure(e, x, r, name)
                    if g2:
                        e.covered.add(name + ': success path')
                        e.check(g2, eq(r, ONE), 'post', name + ': returns 1')
                        e.check(g2, boolean(not g2.ghost.get('errors')), 'args', name + ': no error is set on success')
                        e.check(g2, implies(band(bnot(slt(w, K(0, 32))), slt(w, n)), g2.ghost['got']), 'post', name + ': every segment is looked at')
                        for a in ALGS:
                            e.check(g2, eq(h.enabled(g2, a), bor(h.flag[a], seen[a])), 'post', '%s: %s is enabled if and only if it was or is named' % (name, a))
                            e.check(g2, implies(h.flag[a], same_value(h.get(g2, 'calculated_%s_hash_string' % a), Ptr(h.str[a], Z))), 'frame', '%s: the string of %s is kept when it was enabled' % (name, a))
                for a in ALGS:
                    e.check(g, implies(h.enabled(g, a), bor(h.flag[a], seen[a])), 'post', '%s: %s is not enabled without being named' % (name, a))
                    e.check(g, implies(h.flag[a], h.enabled(g, a)), 'post', '%s: %s stays enabled' % (name, a))
                h.intact(e, g, name, but=flds)
            h.invariant(e, s, name)
        return e
    return houdini(build)


# ------------------------------------------------------------------ C13: byte size strings
MAX64 = (1 << 64) - 1


def isdigit(b):
    return band(ule(K(ord('0'), 8), b), ule(b, K(ord('9'), 8)))


def chr_in(b, s):
    return ors([eq(b, K(ord(c), 8)) for c in s])


CEngine.early = False


class StrEngine(CEngine):
    early = True
    """The string argument is NUL terminated: its end of string character is the one at its length."""

    def peek(s, st, oid, off, n):
        v = Engine.peek(s, st, oid, off, n)
        P = getattr(s, 'P', None)
        if P and n == 1 and oid == P.get('T') and isinstance(v, Node):
            L = P['len']
            st.assume(implies(ult(off, L), bnot(eq(v, K(0, 8)))))
            st.assume(implies(eq(off, L), eq(v, K(0, 8))))
        return v

    def prove(s, pc, c):
        """First with the hypotheses about the same positions of the string and the one before (fewer hypotheses)."""
        P = getattr(s, 'P', None)
        if s.incremental(pc + [bnot(c)], 1500) == 'unsat':
            return 'unsat', None
        if P:
            at = [x for x in idx_terms(c)]
            near = set(at) | {sub(x, K(1)) for x in at}
            few = [x for x in pc if idx_terms(x) and idx_terms(x) <= near]
            if few and len(few) < len(pc) and s.solve(few + [bnot(c)], 500)[0] == 'unsat':
                return 'unsat', None
        return Engine.prove(s, pc, c)

    def wants_cut(s, st, f, h):
        return any(i.op in ('load', 'call') for b in f.loops[h] for i in f.blocks[b].ins)

    def part_at(s, st, c, i):
        """Case split over units: in this one, when the number ends at i (c), the factor letter after it (and after
        at most one space) is one of the part. The parts cover all characters."""
        part = s.P.get('part')
        if part is None:
            return

        def among(b):
            x = chr_in(b, part) if part else bnot(chr_in(b, 'kKmMgGtTpPeEzZyY'))
            return x
        st.assume(implies(c, ite(eq(Tb(i), K(32, 8)), among(Tb(add(i, K(1)))), among(Tb(i)))))

    def feasible(s, st, c):
        """Only an answer of 'infeasible' prunes a path: giving up early is sound."""
        if c is TRUE or c is FALSE or any(p is c for p in st.pc):
            return c is not FALSE
        return s.incremental(st.pc + [c], 400) != 'unsat'

    def incremental(s, conds, timeout):
        """One solver for many queries: a condition is asserted once, guarded by a literal."""
        z = z3m()
        if s.deadline and time.time() > s.deadline:
            raise Undecided('time limit')
        if getattr(s, 'inc', None) is None or len(s.guards) > 130:
            s.inc, s.guards = z.Solver(), {}
        lits = []
        for c in conds:
            if c is FALSE:
                return 'unsat'
            if c is TRUE:
                continue
            g = s.guards.get(c)
            if g is None:
                g = s.guards[c] = z.Bool('guard!%d' % len(s.guards))
                s.inc.add(z.Implies(g, to_z3(c) == 1))
            lits.append(g)
        t0 = time.time()
        s.inc.set('timeout', timeout)
        r = str(s.inc.check(*lits))
        s.queries += 1
        s.solver_secs += time.time() - t0
        return r

    def upper(s, st, t):
        """An upper bound of t that the path condition states."""
        b = umax(t)
        for q in st.pc:
            if q.op == 'ult' and q.a[0] is t and isc(q.a[1]):
                b = min(b, q.a[1].a - 1)
            elif q.op == 'eq' and t in q.a:
                o = q.a[0] if q.a[1] is t else q.a[1]
                if isc(o):
                    b = min(b, o.a)
            elif q.op == 'bf' and len(q.a[1]) == 1 and q.a[0] == 1:
                q = q.a[1][0]
                if q.op == 'ult' and q.a[1] is t and isc(q.a[0]):
                    b = min(b, q.a[0].a)
        return b

    def icmp(s, st, pred, a, b):
        """Lemma: when g * t does not overflow (by a bound of t on the path), comparing it with a constant is
        comparing t with the quotient."""
        if pred in ('ult', 'ule', 'ugt', 'uge') and isinstance(a, Node) and isinstance(b, Node) and isc(a) != isc(b):
            x, c = (b, a) if isc(a) else (a, b)
            if x.op == 'lin':
                from math import gcd
                g = x.a[0]
                for _, k in x.a[1]:
                    g = gcd(g, k)
                if g > 1:
                    t = lin(x.w, x.a[0] // g, [(u, k // g) for u, k in x.a[1]])
                    if g * s.upper(st, t) <= mask(x.w):
                        # c < g t  <=>  c // g < t;   g t < c  <=>  t < ceil(c / g)
                        less = (pred in ('ult', 'ule')) == (x is b)      # constant on the small side
                        strict = pred in ('ult', 'ugt')
                        if less:
                            r = ult(K(c.a // g, x.w), t) if strict else ule(K(-(-c.a // g), x.w), t)
                        else:
                            r = ult(t, K(-(-c.a // g), x.w)) if strict else ule(t, K(c.a // g, x.w))
                        return r
        return Engine.icmp(s, st, pred, a, b)


IDX = {}


def idx_terms(c):
    """The positions c is about: indices of string characters and what is compared with the length."""
    r = IDX.get(c)
    if r is None:
        L = var('length', 64)
        r = set()
        for x in topo([c]):
            if x.op == 'sel' and x.a[0] == 'T':
                r.add(x.a[1])
            elif x.op in ('ult', 'eq') and L in topo(list(x.a)):
                r |= {y for y in x.a if y is not L and isinstance(y, Node)}
        IDX[c] = r = frozenset(r)
    return r


def Tb(i):
    return sel('T', i)


class DigitLoop(Cands):
    """First loop: k digits have been read and have the value D. Second: k further digits have been skipped."""

    def second(s, st):
        return st.ghost.get('dec') is not None

    def cands(s, e, st):
        r = []
        if s.mode == 1:
            k, D = st.ghost['now']
            for p, v in s.phivars(e, st):
                if v.w == 64:
                    r.append(('%s is the value of the digits' % p, eq(v, D)))
                    r.append(('%s is the number of digits' % p, eq(v, k)))
        else:
            lo, k = st.ghost['skip']
            for p, v in s.phivars(e, st):
                if v.w == 64:
                    r.append(('%s is the end of the fraction' % p, eq(v, add(lo, k))))
        return r

    def init(s, e, st):
        s.mode = 2 if s.second(st) else 1
        if s.mode == 1:
            st.ghost['now'] = (Z, Z)
        else:
            s.lo = known_end(e, st)
            st.ghost['fe'] = s.lo
            st.ghost['skip'] = (s.lo, Z)
        Cands.init(s, e, st)

    def fixed_havoc(s, e, st, k):
        if s.mode == 1:
            D = fresh('D', 64)
            for q, v in s.phivars(e):
                if v.w == 64 and '%s is the value of the digits' % q in s.labels and (s.f, s.h, '%s is the value of the digits' % q) not in e.dropped:
                    D = v           # proved equal at entry and preserved: one name for both
                    break
            else:
                for q, v, oid in s.scalars(e, st):
                    if v.w == 64 and '%s is the value of the digits' % q in s.labels and (s.f, s.h, '%s is the value of the digits' % q) not in e.dropped:
                        st.w(oid).put(Z, D, 8)
                        break
            st.ghost['now'] = st.ghost['dec'] = (k, D)
            st.assume(implies(eq(k, Z), eq(D, Z)))
            d8 = ext(var('dp', 32), 0, 8)
            nd = bnot(isdigit(Tb(k)))
            e.part_at(st, band(nd, bnot(eq(Tb(k), d8))), k)
            for i in (1, 2):
                e.part_at(st, ands([nd, eq(Tb(k), d8), bnot(isdigit(Tb(add(k, K(i)))))] + [isdigit(Tb(add(k, K(j)))) for j in range(1, i)]), add(k, K(i)))
        else:
            st.ghost['skip'] = (s.lo, k)
            e.part_at(st, bnot(isdigit(Tb(add(s.lo, k)))), add(s.lo, k))

    def preserve(s, e, st, k, k1):
        if s.mode == 1:
            D = st.ghost['dec'][1]
            d = zext(sub(Tb(k), K(ord('0'), 8)), 128)
            wide = add(mul(zext(D, 128), K(10, 128)), d)
            e.check(st, isdigit(Tb(k)), 'invariant', 'digits: a character that is counted is a digit')
            e.check(st, ule(wide, K(MAX64, 128)), 'invariant', 'digits: the value fits in 64 bits')
            st.ghost['now'] = (k1, ext(wide, 0, 64))
        else:
            e.check(st, isdigit(Tb(add(s.lo, k))), 'invariant', 'digits: a character that is skipped is a digit')
            st.ghost['skip'] = (s.lo, k1)
        Cands.preserve(s, e, st, k, k1)


DigitLoop.no_termination = False


def frac_end(st):
    """Position after the at most two fraction digits that count."""
    P = st.ghost['dec'][0]
    f0 = add(P, K(1))
    return add(f0, ite(isdigit(Tb(f0)), ite(isdigit(Tb(add(f0, K(1)))), K(2), K(1)), K(0)))


def known_end(e, st):
    """frac_end with the case that holds on this path."""
    f0 = add(st.ghost['dec'][0], K(1))
    st.ghost['fn'] = None
    for n in range(3):
        c = ands([isdigit(Tb(add(f0, K(j)))) for j in range(n)] + ([bnot(isdigit(Tb(add(f0, K(n)))))] if n < 2 else []))
        if e.must(st, c):
            st.ghost['fn'] = n
            return add(f0, K(n))
    return frac_end(st)


def c_decimal_point(e, st, a):
    f = st.clone()
    f.ghost['libfail'] = True
    e.store(st, a[0], var('dp', 32), 4, 'libclocale_locale_get_decimal_point')
    return [(st, ONE), bad_return(e, f, a[1])]


def sizes_setup(name, variant, deadline, dropped, contracts):
    mod = compile_tool(name, variant)
    e = StrEngine(mod, contracts, deadline)
    e.dropped = dropped
    e.loopspecs = Anything(DigitLoop)
    st = State()
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    return e, st, Ptr(err, Z, var('error_null', 1))


PARTS = [''] + list('yYzZeEpPtTgGmMkK')


def convert(variant='builtin', part=None, deadline=None):
    """byte_size_string_convert: digits[.fraction][space][factor][unit], see the property. The parts are a case
    split over the factor letter."""
    name = 'byte_size_string_convert'
    assert part is None or part in PARTS

    def build(dropped):
        c = dict(all_contracts())
        c['libclocale_locale_get_decimal_point'] = c_decimal_point
        c['libcnotify_printf'] = lambda e, st, a: fresh('printf', 32)
        e, st, err = sizes_setup('byte_size_string', variant, deadline, dropped, c)
        L = var('length', 64)
        st.assume(ult(L, K(1 << 62)))
        T = e.new(st, add(L, K(1)), 'input', 'byte_size_string', ('sym', 'T'))
        out = e.new(st, 8, 'param', 'size', ('sym', 'OLD'))
        old = cat([sel('OLD', K(i)) for i in range(8)])
        tn, on = var('string_null', 1), var('size_null', 1)
        dp = var('dp', 32)
        st.assume(ule(dp, K(127, 32)))
        d8 = ext(dp, 0, 8)
        st.assume(bnot(ors([isdigit(d8), band(ule(K(65, 8), d8), ule(d8, K(90, 8))), band(ule(K(97, 8), d8), ule(d8, K(122, 8))), eq(d8, K(32, 8)), eq(d8, K(0, 8))])))
        e.P = dict(T=T, len=L, part=part)
        for s, r in e.run(name, st, [Ptr(T, Z, tn), L, Ptr(out, Z, on), err]):
            v = e.peek(s, out, Z, 8)
            b, g = split(e, s, bor(tn, on))
            if b:
                e.covered.add(name + ': argument error path')
                failure(e, b, r, name)
                e.check(b, eq(v, old), 'frame', name + ': size unchanged on invalid arguments')
            if not g:
                continue
            if g.ghost.get('libfail'):
                e.covered.add(name + ': failure path')
                failure(e, g, r, name)
                e.check(g, eq(v, old), 'frame', name + ': size unchanged on failure')
                continue
            judge(e, g, r, v, old, name)
        return e
    return houdini(build)


def judge(e, g, r, v, old, name):
    if g.ghost.get('dec') is None:
        g.ghost['dec'] = (Z, Z)
        e.check(g, bnot(isdigit(Tb(Z))), 'post', name + ': the digits are read')
    k, D = g.ghost['dec']
    L = e.P['len']

    def read(i):
        """A character of the string with the fact that it is NUL terminated."""
        return e.peek(g, e.P['T'], i, 1)
    d = zext(sub(Tb(k), K(ord('0'), 8)), 128)
    over = band(isdigit(read(k)), ult(K(MAX64, 128), add(mul(zext(D, 128), K(10, 128)), d)))
    rej, acc = split(e, g, eq(r, NEG1))
    if rej:
        rej_over, rest = split(e, rej, over)
        if rej_over:
            e.covered.add(name + ': digits too large path')
            failure(e, rej_over, r, name)
            e.check(rej_over, eq(v, old), 'frame', name + ': size unchanged on failure')
        rej = rest
    for u, rejected in ((rej, True), (acc, False)):
        if not u:
            continue
        e.covered.add(name + (': rejection path' if rejected else ': success path'))
        if rejected:
            failure(e, u, r, name)
            e.check(u, eq(v, old), 'frame', name + ': size unchanged on failure')
        else:
            e.check(u, eq(r, ONE), 'post', name + ': returns 1')
            e.check(u, boolean(not u.ghost.get('errors')), 'args', name + ': no error is set on success')
        e.check(u, bnot(isdigit(read(k))), 'post', name + ': all leading digits are read')
        hasdp = eq(read(k), ext(var('dp', 32), 0, 8))
        for x, dp in zip(split(e, u, hasdp), (True, False)):
            if x:
                judge_rest(e, x, v, name, rejected, dp)


def digits_at(e, u, f0):
    """Case split: how many fraction digits that count there are."""
    fn = u.ghost.get('fn')
    if fn is not None:
        yield u, fn
        return
    for x, n in zip(split(e, u, bnot(isdigit(Tb(f0)))), (0, 1)):
        if x and not n:
            yield x, 0
        elif x:
            for y, m in zip(split(e, x, bnot(isdigit(Tb(add(f0, K(1)))))), (1, 2)):
                if y:
                    yield y, m


def judge_rest(e, u0, v, name, rejected, dp):
    k, D = u0.ghost['dec']
    L = e.P['len']
    f0 = add(k, K(1))
    for u, n in (digits_at(e, u0, f0) if dp else [(u0, 0)]):
        sk = u.ghost.get('skip')
        if sk:
            e.check(u, boolean(dp), 'post', name + ': digits are skipped only in a fraction')
        E = k if not dp else add(sk[0], sk[1]) if sk else add(f0, K(n))
        if dp:
            e.peek(u, e.P['T'], E, 1)
            e.check(u, bnot(isdigit(Tb(E))), 'post', name + ': all digits of the fraction are skipped')
        d1, d2 = sub(Tb(f0), K(48, 8)), sub(Tb(add(f0, K(1))), K(48, 8))
        fr = [K(0, 16), mul(zext(d1, 16), K(10, 16)), add(mul(zext(d1, 16), K(10, 16)), zext(d2, 16))][n]
        for sp in (True, False):
            c = eq(Tb(E), K(32, 8))
            x = split(e, u, c)[0 if sp else 1]
            if not x:
                continue
            S = add(E, K(1 if sp else 0))
            for f, letters in enumerate(['', 'kK', 'mM', 'gG', 'tT', 'pP', 'eE', 'zZ', 'yY']):
                part = e.P.get('part')
                if part is not None and (part not in letters if part else letters):
                    continue
                c = chr_in(Tb(S), part or letters) if f else bnot(chr_in(Tb(S), 'kKmMgGtTpPeEzZyY'))
                if not e.feasible(x, c):
                    continue
                y = x.clone()
                y.assume(c)
                A = add(S, K(1 if f else 0))
                # the string is NUL terminated at its length
                for i in (E, S, A):
                    y.assume(implies(ult(i, L), bnot(eq(Tb(i), K(0, 8)))))
                    y.assume(implies(eq(i, L), eq(Tb(i), K(0, 8))))
                end = ule(L, A)
                ib = band(eq(Tb(A), K(ord('i'), 8)), eq(Tb(add(A, K(1))), K(ord('B'), 8)))
                bb = eq(Tb(A), K(ord('B'), 8))
                two = bor(end, ib)
                for unit, c in ((1024, two), (1000, band(bnot(two), bb)), (0, band(bnot(two), bnot(bb)))):
                    if not e.feasible(y, c):
                        continue
                    z = y.clone()
                    z.assume(c)
                    if not unit:
                        e.check(z, boolean(rejected), 'post', name + ': a string with another unit is rejected')
                        continue
                    what = '%s, %d' % (letters[1:] or 'no factor', unit)
                    for frac in ((False, True) if f else (False,)):
                        c = bnot(eq(fr, K(0, 16))) if frac else (eq(fr, K(0, 16)) if f else TRUE)
                        if not e.feasible(z, c):
                            continue
                        q = z.clone()
                        q.assume(c)
                        if frac:
                            # exact: unit * D + 10 * fr fits in 64 bits iff D <= (MAX64 - 10 * fr) // unit
                            r10 = mul(zext(fr, 64), K(10))
                            first = add(mul(D, K(unit)), r10)
                            fits = band(ule(D, udiv(sub(K(-1), r10), K(unit))), ule(first, K(MAX64 // unit ** (f - 1))))
                            val = mul(first, K(unit ** (f - 1)))
                        else:
                            fits = ule(D, K(MAX64 // unit ** f))
                            val = mul(D, K(unit ** f))
                        if rejected:
                            e.check(q, bnot(fits), 'post', '%s: a value that fits is accepted (%s%s)' % (name, what, ', fraction' if frac else ''))
                        else:
                            e.check(q, fits, 'post', '%s: a value that does not fit in 64 bits is rejected (%s%s)' % (name, what, ', fraction' if frac else ''))
                            e.check(q, eq(v, val), 'post', '%s: the value (%s%s)' % (name, what, ', fraction' if frac else ''))


def c_convert(e, st, a):
    """Contract used by the caller: -1 and *size unchanged, or 1 and *size is the value of the string."""
    s_, n, out, err = a
    P = e.P
    ok = isinstance(s_, Ptr) and s_.o == P['string'] and s_.off is Z
    e.check(st, boolean(ok), 'pre', 'byte_size_string_convert: the string argument is converted')
    if not ok:
        raise Stop()
    e.check(st, eq(n, P['strlens'][P['string']]), 'pre', 'byte_size_string_convert: the length is that of the string')
    f = st.clone()
    f.ghost['libfail'] = True
    e.store(st, out, var('value', 64), 8, 'byte_size_string_convert')
    return [(st, ONE), bad_return(e, f, err)]


def s_buffer_size(variant='builtin', deadline=None):
    c = tool_contracts()
    c.update({'strlen': c_strlen, 'byte_size_string_convert': c_convert})
    e, st, err, L = hsetup(variant, deadline, contracts=c)
    name = 'sum_handle_set_process_buffer_size'
    hn = var('sum_handle_null', 1)
    h = Handle(e, st, L, hn=hn)
    ln, val = var('string_length', 64), var('value', 64)
    st.assume(ult(ln, SSIZE))
    e.P['string'] = e.new(st, add(ln, K(1)), 'input', 'string', ('sym', 'T'))
    e.P['strlens'] = {e.P['string']: ln}
    big = ult(SSIZE, val)
    for s, r in e.run(name, st, [h.ptr, Ptr(e.P['string'], Z), err]):
        b, g = split(e, s, hn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            h.intact(e, b, name)
        if g and g.ghost.get('libfail'):
            e.covered.add(name + ': failure path')
            failure(e, g, r, name)
            h.intact(e, g, name)
        elif g:
            x, y = split(e, g, big)
            if x:
                e.check(x, eq(r, K(0, 32)), 'post', name + ': returns 0 for a size that is not supported')
                h.intact(e, x, name)
            if y:
                e.covered.add(name + ': success path')
                e.check(y, eq(r, ONE), 'post', name + ': returns 1')
                e.check(y, eq(h.get(y, 'process_buffer_size'), val), 'post', name + ': the process buffer size is the value')
                h.intact(e, y, name, but=['process_buffer_size'])
        h.invariant(e, s, name)
    return e
