"""Contracts of libhmac_<alg>.c: the public wrappers, calculate and calculate_hmac.

The context functions are used through their contracts (c_initialize ... below), which are what
context.py proves of their bodies, for every configuration. Ghost state: crypto.lc, the sequence of byte
ranges each context has absorbed."""
import os
from . import env, ir
from .expr import *
from .exec import *
from .libc import BASE, Z
from .crypto import lc, same_message, OUT
from .context import CEngine, leaked, slot, slot_value, is_null, same_ptr, NEG1, SSIZE

ONE = const(1, 32)


def nullness(v):
    if isinstance(v, Ptr):
        return v.nul
    if isinstance(v, Node):
        return eq(v, Z)
    raise Unsupported('pointer value')


def cases(e, st, conds):
    """Feasible cases among mutually exclusive (condition, tag)."""
    r = []
    for c, tag in conds:
        if e.feasible(st, c):
            t = st.clone()
            t.assume(c)
            r.append((t, tag))
    return r


def raise_error(e, st, slot_):
    from .libc import c_error_set
    c_error_set(e, st, [slot_])


def bad_return(e, st, err, w=32):
    raise_error(e, st, err)
    return (st, const(-1, w))


def nonnull(p):
    return Ptr(p.o, p.off, FALSE) if isinstance(p, Ptr) else p


def c_initialize(alg):
    def h(e, st, a):
        pp, err = a
        n = nullness(pp)
        outs = []
        for t, tag in cases(e, st, [(n, 'null'), (bnot(n), 'ok')]):
            if tag == 'null':
                outs.append(bad_return(e, t, err))
                continue
            e.access(t, nonnull(pp), const(8, 64), 'memory', 'initialize.pre: context pointer')
            v = e.peek(t, pp.o, pp.off, 8)
            vn = nullness(v)
            for u, tag2 in cases(e, t, [(vn, 'free'), (bnot(vn), 'set')]):
                if tag2 == 'set':
                    outs.append(bad_return(e, u, err))
                    continue
                f = u.clone()
                f.ghost['oom'] = True
                oid = e.new(u, var('ctxsize', 64), 'heap', 'digest context', ('sym', 'CTX'))
                u.mem[oid].tag = alg
                lc(u)[(oid, 0)] = (alg, ())
                e.store(u, nonnull(pp), Ptr(oid, Z), 8, 'initialize')
                outs.append((u, ONE))
                outs.append(bad_return(e, f, err))
        return outs
    return h


def ctx_key(e, st, p, alg, what):
    e.check(st, boolean(st.mem[p.o].live), 'memory', what + '.pre: the context is live')
    ok = st.mem[p.o].tag == alg and p.off is Z
    e.check(st, boolean(ok), 'memory', what + '.pre: the argument is a %s context' % alg)
    if not ok:
        raise Stop()
    return (p.o, 0)


def c_update(alg):
    def h(e, st, a):
        c, buf, size, err = a
        bad = ors([nullness(c), nullness(buf), ult(SSIZE, size)])
        outs = []
        for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
            if tag == 'bad':
                outs.append(bad_return(e, t, err))
                continue
            k = ctx_key(e, t, c, alg, 'update')
            e.access(t, nonnull(buf), size, 'memory', 'update.pre: buffer readable')
            f = t.clone()
            f.ghost['libfail'] = True
            cur = lc(t).get(k, (alg, None))
            segs = cur[1]
            if segs is None:
                segs = (('garbage',),)
            m = t.mem[buf.o]
            lc(t)[k] = (alg, segs + (('seg', m if m.kind == 'input' else m.copy(), buf.off, size),))
            outs.append((t, ONE))
            outs.append(bad_return(e, f, err))
        return outs
    return h


def c_finalize(alg):
    n = OUT[alg]

    def h(e, st, a):
        c, out, size, err = a
        bad = ors([nullness(c), nullness(out), ult(SSIZE, size), ult(size, const(n, 64))])
        outs = []
        for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
            if tag == 'bad':
                outs.append(bad_return(e, t, err))
                continue
            k = ctx_key(e, t, c, alg, 'finalize')
            f = t.clone()
            f.ghost['libfail'] = True
            o = nonnull(out)
            e.access(t, o, const(n, 64), 'memory', 'finalize.pre: hash writable')
            segs = lc(t).get(k, (alg, None))[1]
            e.oid += 1
            nm = 'DIG_%d' % e.oid
            t.ghost['digests'] = t.ghost.get('digests', ()) + ((nm, alg, segs if segs is not None else (('garbage',),)),)
            m = t.mem[o.o]
            if m.ro or m.kind in ('global', 'extern'):
                e.on_global_write(t, m, 'finalize')
            if m.kind == 'input':
                e.check(t, FALSE, 'frame', 'finalize: input buffer %s is not written' % m.name)
            e.note_write(o.o, o.off, const(n, 64))
            if isc(o.off):
                mm = t.w(o.o)
                for j in range(n):
                    mm.put(add(o.off, const(j, 64)), sel(nm, const(j, 64)), 1)
            else:
                t.w(o.o).havoc(o.off, const(n, 64), nm)
            lc(t)[k] = (alg, None)
            outs.append((t, ONE))
            outs.append(bad_return(e, f, err))
        return outs
    return h


def c_free(alg):
    def h(e, st, a):
        pp, err = a
        n = nullness(pp)
        outs = []
        for t, tag in cases(e, st, [(n, 'null'), (bnot(n), 'ok')]):
            if tag == 'null':
                outs.append(bad_return(e, t, err))
                continue
            e.access(t, nonnull(pp), const(8, 64), 'memory', 'free.pre: context pointer')
            v = e.peek(t, pp.o, pp.off, 8)
            vn = nullness(v)
            for u, tag2 in cases(e, t, [(vn, 'null'), (bnot(vn), 'set')]):
                if tag2 == 'set':
                    k = ctx_key(e, u, v, alg, 'free')
                    u.w(v.o).live = False
                    lc(u).pop(k, None)
                    e.store(u, nonnull(pp), Z, 8, 'free')
                outs.append((u, ONE))
        return outs
    return h


def contracts(alg, base=True):
    r = dict(BASE) if base else {}
    p = 'libhmac_%s_context_' % alg
    r.update({p + 'initialize': c_initialize(alg), p + 'free': c_free(alg), p + 'update': c_update(alg), p + 'finalize': c_finalize(alg)})
    return r


def all_contracts():
    r = dict(BASE)
    for a in env.ALGS:
        r.update(contracts(a, False))
    return r


def src(alg):
    return os.path.join(env.REPO, 'libhmac', 'libhmac_%s.c' % alg)


def setup(alg, variant, deadline):
    mod = ir.compile_ir(src(alg), variant)
    e = CEngine(mod, all_contracts(), deadline)
    st = State()
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    return e, st, Ptr(err, Z, var('error_null', 1))


def mkctx(e, st, alg, segs=(('prior',),)):
    oid = e.new(st, var('ctxsize', 64), 'heap', 'digest context', ('sym', 'CTX'))
    st.mem[oid].tag = alg
    lc(st)[(oid, 0)] = (alg, segs)
    return oid


def split(e, s, c):
    r = []
    for t in (c, bnot(c)):
        u = None
        if e.feasible(s, t):
            u = s.clone()
            u.assume(t)
        r.append(u)
    return r


def failure(e, u, r, name):
    """Common contract of a failing call: -1 and an error."""
    e.check(u, eq(r, NEG1), 'args', name + ': failure returns -1')
    e.check(u, boolean(bool(u.ghost.get('errors'))), 'args', name + ': failure sets an error')


def w_initialize(alg, variant, deadline=None):
    e, st, err = setup(alg, variant, deadline)
    name = 'libhmac_%s_initialize' % alg
    old = mkctx(e, st, alg)
    cn, sn = var('context_null', 1), var('star_context_null', 1)
    sl = slot(e, st, 'context', old, sn)
    bad = bor(cn, bnot(sn))
    for s, r in e.run(name, st, [Ptr(sl, Z, cn), err]):
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, same_ptr(slot_value(e, b, sl), old, sn), 'frame', name + ': *context unchanged on invalid arguments')
            e.check(b, boolean(leaked(b) == [old]), 'leak', name + ': nothing is allocated or released on invalid arguments')
        if g:
            v = slot_value(e, g, sl)
            if g.ghost.get('oom'):
                failure(e, g, r, name)
                e.check(g, is_null(v), 'leak', name + ': *context stays NULL on failure')
                e.check(g, boolean(leaked(g) == [old]), 'leak', name + ': nothing is left allocated on failure')
                continue
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
            ok = isinstance(v, Ptr) and v.nul is FALSE and v.o != old and g.mem[v.o].live and lc(g).get((v.o, 0)) == (alg, ())
            e.check(g, boolean(bool(ok)), 'post', name + ': *context is a new context that has absorbed nothing')
            e.check(g, boolean(len(leaked(g)) == 2), 'leak', name + ': exactly one context is allocated')
    return e


def w_free(alg, variant, deadline=None):
    e, st, err = setup(alg, variant, deadline)
    name = 'libhmac_%s_free' % alg
    old = mkctx(e, st, alg)
    cn, sn = var('context_null', 1), var('star_context_null', 1)
    sl = slot(e, st, 'context', old, sn)
    for s, r in e.run(name, st, [Ptr(sl, Z, cn), err]):
        b, g = split(e, s, cn)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, same_ptr(slot_value(e, b, sl), old, sn), 'frame', name + ': *context unchanged on invalid arguments')
            e.check(b, boolean(leaked(b) == [old]), 'frame', name + ': nothing is released on invalid arguments')
        if g:
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            e.check(g, is_null(slot_value(e, g, sl)), 'post', name + ': *context is NULL afterwards')
            _, h = split(e, g, sn)
            if h:
                e.check(h, boolean(not leaked(h)), 'leak', name + ': the context is released')
    return e


def w_update(alg, variant, deadline=None):
    e, st, err = setup(alg, variant, deadline)
    name = 'libhmac_%s_update' % alg
    ctx = mkctx(e, st, alg)
    size = var('size', 64)
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    cn, bn = var('context_null', 1), var('buffer_null', 1)
    bad = ors([cn, bn, ult(SSIZE, size)])
    for s, r in e.run(name, st, [Ptr(ctx, Z, cn), Ptr(buf, Z, bn), size, err]):
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, boolean(lc(b).get((ctx, 0)) == (alg, (('prior',),))), 'frame', name + ': context unchanged on invalid arguments')
        if g:
            if g.ghost.get('libfail'):
                failure(e, g, r, name)
                continue
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
            segs = lc(g).get((ctx, 0), (alg, None))[1]
            ok = segs is not None and segs[:1] == (('prior',),)
            e.check(g, boolean(ok), 'post', name + ': what was absorbed before is kept')
            if ok:
                same_message(e, g, segs[1:], [(lambda q: sel('M', q), size)], name + ': absorbs exactly buffer[0, size)')
            e.check(g, boolean(leaked(g) == [ctx]), 'leak', name + ': nothing is allocated or released')
    return e


def w_finalize(alg, variant, deadline=None):
    e, st, err = setup(alg, variant, deadline)
    name = 'libhmac_%s_finalize' % alg
    ctx = mkctx(e, st, alg)
    hs = var('hash_size', 64)
    h = e.new(st, hs, 'param', 'hash', ('sym', 'O'))
    cn, hn = var('context_null', 1), var('hash_null', 1)
    bad = ors([cn, hn, ult(SSIZE, hs), ult(hs, const(OUT[alg], 64))])
    q = var('q', 64)
    for s, r in e.run(name, st, [Ptr(ctx, Z, cn), Ptr(h, Z, hn), hs, err]):
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            e.check(b, boolean(lc(b).get((ctx, 0)) == (alg, (('prior',),))), 'frame', name + ': context unchanged on invalid arguments')
            b.assume(ult(q, hs))
            e.check(b, eq(b.mem[h].byte(q), sel('O', q)), 'frame', name + ': hash unchanged on invalid arguments')
        if g:
            if g.ghost.get('libfail'):
                failure(e, g, r, name)
                continue
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
            D = [d for d in g.ghost.get('digests', ()) if d[1] == alg and d[2] == (('prior',),)]
            e.check(g, boolean(len(D) == 1), 'post', name + ': a digest of everything absorbed is taken')
            if D:
                digest_post(e, g, h, hs, D[0][0], alg, name)
            e.check(g, boolean(leaked(g) == [ctx]), 'leak', name + ': nothing is allocated or released')
    return e


def digest_post(e, g, h, hs, nm, alg, name):
    n = OUT[alg]
    for i in range(n):
        e.check(g, eq(g.mem[h].byte(const(i, 64)), sel(nm, const(i, 64))), 'post', '%s: output byte %d is that of the digest' % (name, i))
    q = var('q', 64)
    u = g.clone()
    u.assume(band(ule(const(n, 64), q), ult(q, hs)))
    e.check(u, eq(u.mem[h].byte(q), sel('O', q)), 'frame', name + ': output bytes beyond the digest are not written')


def pick_digest(e, g, h, alg):
    """The recorded digest whose bytes were put in the output (a hint; the postcondition is proved for it)."""
    b = g.mem[h].byte(Z)
    for d in reversed(g.ghost.get('digests', ())):
        if b is sel(d[0], Z):
            return d
    D = g.ghost.get('digests', ())
    return D[-1] if D else None


def secret(x, names):
    return any(n.op == 'sel' and (n.a[0] in names or n.a[0].startswith('DIG_')) for n in topo([x]))


def secrets_at(m, names, extra=4096):
    """Whether the object may hold secret bytes; arbitrary offset."""
    return m.byte(var('q', 64))


def clear_check(e, s, oid, name, names):
    """No byte of the object depends on a secret (the key, or a digest) unless it is zero."""
    m = s.mem[oid]
    u = s.clone()
    u.frames = []
    q = var('q', 64)
    u.assume(ult(q, m.size))
    try:
        if isc(m.size) and m.size.a <= 4096:
            bad = []
            for i in range(m.size.a):
                b = m.byte(const(i, 64))
                if isinstance(b, tuple):
                    continue
                if secret(b, names):
                    bad.append(eq(b, const(0, 8)))
            e.check(u, ands(bad) if bad else TRUE, 'clear', name)
        else:
            b = m.byte(q)
            e.check(u, eq(b, const(0, 8)) if secret(b, names) else TRUE, 'clear', name)
    except Unsupported:
        raise


def watch_clear(e, fname, names):
    """Obligations that heap scratch is cleared when released, and locals when the function returns."""
    def on_free(s, oid):
        clear_check(e, s, oid, '%s: scratch memory is cleared of key material before it is released' % fname, names)
    e.on_free = on_free

    def on_ret(s, fr, v):
        for oid in fr.allocas:
            if isc(s.mem[oid].size) and s.mem[oid].size.a <= 8:
                continue
            clear_check(e, s, oid, '%s: local array is cleared of key material on return' % fr.f.name, names)
    e.on_ret.append(on_ret)


def calculate(alg, variant, deadline=None):
    """Returns 1 and hash[0, n) is the digest of buffer[0, size), or -1 with an error and nothing left allocated."""
    e, st, err = setup(alg, variant, deadline)
    name = 'libhmac_%s_calculate' % alg
    size, hs = var('size', 64), var('hash_size', 64)
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    h = e.new(st, hs, 'param', 'hash', ('sym', 'O'))
    bn, hn = var('buffer_null', 1), var('hash_null', 1)
    bad = ors([bn, hn, ult(SSIZE, size), ult(SSIZE, hs), ult(hs, const(OUT[alg], 64))])
    q = var('q', 64)
    for s, r in e.run(name, st, [Ptr(buf, Z, bn), size, Ptr(h, Z, hn), hs, err]):
        e.check(s, boolean(not leaked(s)), 'leak', name + ': nothing is left allocated')
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            b.assume(ult(q, hs))
            e.check(b, eq(b.mem[h].byte(q), sel('O', q)), 'frame', name + ': hash unchanged on invalid arguments')
        if g:
            if g.ghost.get('oom') or g.ghost.get('libfail'):
                e.covered.add(name + ': failure path')
                failure(e, g, r, name)
                continue
            e.covered.add(name + ': success path')
            e.check(g, eq(r, ONE), 'post', name + ': returns 1')
            e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
            d = pick_digest(e, g, h, alg)
            e.check(g, boolean(d is not None and d[1] == alg and ('garbage',) not in d[2]), 'post', name + ': a %s digest is taken' % alg)
            if d is None or d[1] != alg or ('garbage',) in d[2]:
                continue
            same_message(e, g, d[2], [(lambda q: sel('M', q), size)], name + ': the digest is that of buffer[0, size)')
            digest_post(e, g, h, hs, d[0], alg, name)
    return e


def hmac(alg, variant, deadline=None):
    """RFC 2104: with K0 = key, or its digest if longer than a block, zero padded to a block, returns 1 and
    hmac[0, n) = H(K0 ^ opad || H(K0 ^ ipad || buffer)), or -1 with an error and nothing left allocated."""
    e, st, err = setup(alg, variant, deadline)
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    e.contracts['libhmac_%s_calculate' % alg] = c_calculate(alg)
    name = 'libhmac_%s_calculate_hmac' % alg
    ks, size, hs = var('key_size', 64), var('size', 64), var('hmac_size', 64)
    key = e.new(st, ks, 'input', 'key', ('sym', 'K'))
    buf = e.new(st, size, 'input', 'buffer', ('sym', 'M'))
    h = e.new(st, hs, 'param', 'hmac', ('sym', 'O'))
    kn, bn, hn = var('key_null', 1), var('buffer_null', 1), var('hmac_null', 1)
    bad = ors([kn, bn, hn, ult(SSIZE, ks), ult(SSIZE, size), ult(SSIZE, hs), ult(hs, const(n, 64))])
    watch_clear(e, name, {'K'})
    q = var('q', 64)
    for s, r in e.run(name, st, [Ptr(key, Z, kn), ks, Ptr(buf, Z, bn), size, Ptr(h, Z, hn), hs, err]):
        e.check(s, boolean(not leaked(s)), 'leak', name + ': nothing is left allocated')
        b, g = split(e, s, bad)
        if b:
            e.covered.add(name + ': argument error path')
            failure(e, b, r, name)
            b.assume(ult(q, hs))
            e.check(b, eq(b.mem[h].byte(q), sel('O', q)), 'frame', name + ': hmac unchanged on invalid arguments')
        if not g:
            continue
        if g.ghost.get('oom') or g.ghost.get('libfail'):
            e.covered.add(name + ': failure path')
            failure(e, g, r, name)
            continue
        e.check(g, eq(r, ONE), 'post', name + ': returns 1')
        e.check(g, boolean(not g.ghost.get('errors')), 'args', name + ': no error is set on success')
        for long_, u in zip((True, False), split(e, g, ult(const(B, 64), ks))):
            if u is None:
                continue
            e.covered.add(name + (': long key path' if long_ else ': short key path'))
            D = u.ghost.get('digests', ())
            bydig = {d[0]: d for d in D}
            outer = pick_digest(e, u, h, alg)
            ok = outer is not None and outer[1] == alg and ('garbage',) not in outer[2]
            e.check(u, boolean(ok), 'post', name + ': the result is a %s digest' % alg)
            if not ok:
                continue
            digest_post(e, u, h, hs, outer[0], alg, name)
            # which recorded digests play the key digest and the inner digest: any choice that proves it
            others = [d for d in D if d[0] != outer[0] and d[1] == alg and ('garbage',) not in d[2]]
            kd = [d for d in others] if long_ else [None]
            best = None
            for kdg in kd:
                for inner in [d for d in others if d is not kdg]:
                    mark = len(e.obl)
                    hmac_post(e, u, name, alg, ks, size, kdg, inner, outer)
                    new = e.obl[mark:]
                    del e.obl[mark:]
                    nb = len([o for o in new if o.status != 'proved'])
                    if best is None or nb < best[0]:
                        best = (nb, new)
                    if not nb:
                        break
                if best and not best[0]:
                    break
            if best is None:
                e.check(u, FALSE, 'post', name + ': the result is the outer digest of an inner digest')
            else:
                e.obl += best[1]
    return e


def c_calculate(alg):
    """Contract of libhmac_<alg>_calculate as calculate() proves it."""
    def h(e, st, a):
        buf, size, out, hs, err = a
        n = OUT[alg]
        bad = ors([nullness(buf), nullness(out), ult(SSIZE, size), ult(SSIZE, hs), ult(hs, const(n, 64))])
        outs = []
        for t, tag in cases(e, st, [(bad, 'bad'), (bnot(bad), 'ok')]):
            if tag == 'bad':
                outs.append(bad_return(e, t, err))
                continue
            e.access(t, nonnull(buf), size, 'memory', 'calculate.pre: buffer readable')
            f = t.clone()
            f.ghost['libfail'] = True
            outs.append(bad_return(e, f, err))
            m = t.mem[buf.o]
            oid = e.new(t, var('ctxsize', 64), 'heap', 'digest context', ('sym', 'CTX'))
            t.mem[oid].tag = alg
            lc(t)[(oid, 0)] = (alg, (('seg', m if m.kind == 'input' else m.copy(), buf.off, size),))
            for u, r in c_finalize(alg)(e, t, [Ptr(oid, Z), out, hs, err]):
                u.w(oid).live = False
                lc(u).pop((oid, 0), None)
                outs.append((u, r))
        return outs
    return h


def hmac_post(e, u, name, alg, ks, size, kdg, inner, outer):
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    if kdg is not None:
        same_message(e, u, kdg[2], [(lambda q: sel('K', q), ks)], name + ': a long key is replaced by its digest')

    def k0(q):
        if kdg is not None:
            return ite(ult(q, const(n, 64)), sel(kdg[0], q), const(0, 8))
        return ite(ult(q, ks), sel('K', q), const(0, 8))
    for pad, dg, rest, nm in ((0x36, inner, (lambda q: sel('M', q), size), 'inner'), (0x5c, outer, (lambda q: sel(inner[0], q), const(n, 64)), 'outer')):
        want = [((lambda q, pad=pad: bxor(k0(q), const(pad, 8))), const(B, 64)), rest]
        same_message(e, u, dg[2], want, '%s: the %s digest is over the padded key, then the %s' % (name, nm, 'message' if nm == 'inner' else 'inner digest'))
