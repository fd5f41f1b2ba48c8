"""Verification-condition generator over LLVM IR.

Functions are executed symbolically, path by path, over all inputs. A call to a function that has a
contract is replaced by that contract (its precondition becomes an obligation, its postcondition an
assumption); calls to functions without a contract whose body is in the module are executed in place
(extracted helpers); any other call is Unsupported. Loops whose trip count is decided by the path are
executed; other loops are cut at their header with an invariant (affine induction variables and
their bounds are inferred and proved, the rest comes from a LoopSpec).
"""
import time
from .expr import *
from .ir import Unsupported, loops, succs
from . import ir

W64 = 64


class Undecided(Exception):
    """The verifier could not decide (limits, unsupported construct)."""


class Ptr:
    """Address: object id, byte offset, and the condition under which it is NULL instead."""
    __slots__ = ('o', 'off', 'nul')

    def __init__(s, o, off, nul=FALSE):
        s.o, s.off, s.nul = o, off, nul

    def __repr__(s):
        return '&%s+%r%s' % (s.o, s.off, '' if s.nul is FALSE else '?null=%r' % s.nul)

    def __eq__(s, t):
        return isinstance(t, Ptr) and (s.o, s.off, s.nul) == (t.o, t.off, t.nul)

    def __hash__(s):
        return hash((s.o, s.off, s.nul))


class Fn:
    """Address of a function."""
    def __init__(s, name):
        s.name = name


class Mem:
    """One memory object."""
    __slots__ = ('size', 'kind', 'name', 'live', 'ro', 'base', 'layers', 'line', 'tag')

    def __init__(s, size, kind, name, base, ro=False):
        s.size, s.kind, s.name, s.base, s.ro = size, kind, name, base, ro
        s.live, s.layers, s.line, s.tag = True, [], None, None

    def copy(s):
        n = Mem(s.size, s.kind, s.name, s.base, s.ro)
        n.live, n.line, n.tag = s.live, s.line, s.tag
        n.layers = [dict(l) if isinstance(l, dict) else l for l in s.layers]
        return n

    # -- reading ------------------------------------------------------------
    def byte(s, off, upto=None):
        """Byte at offset off (Node), or (Ptr, k) if it is byte k of a stored pointer."""
        layers = s.layers if upto is None else s.layers[:upto]
        conds = []   # [(cond, value)] outermost first

        def fin(v):
            for c, x in reversed(conds):
                if isinstance(v, tuple) or isinstance(x, tuple):
                    raise Unsupported('symbolic read of a pointer')
                v = ite(c, x, v)
            return v
        for l in reversed(layers):
            if isinstance(l, dict):
                if isc(off):
                    if off.a in l:
                        v, k = l[off.a]
                        return fin(byte_of(v, k))
                else:
                    mx = umax(off)
                    for o in sorted(l):
                        if o > mx:
                            break
                        c = eq(off, const(o, W64))
                        if c is FALSE:
                            continue
                        v, k = l[o]
                        conds.append((c, byte_of(v, k)))
                        if c is TRUE:
                            return fin(conds.pop()[1])
                continue
            kind, lo, n = l[0], l[1], l[2]
            d = sub(off, lo)
            c = ult(d, n)
            if c is FALSE:
                continue
            if kind == 'w':
                v = l[3]
                if isinstance(v, (Ptr, Fn)):
                    raise Unsupported('symbolic pointer store')
                if isc(d):
                    x = byte_of(v, d.a) if d.a < v.w // 8 else const(0, 8)
                else:
                    x = byte_of(v, 0)
                    for j in range(1, v.w // 8):
                        x = ite(eq(d, const(j, W64)), byte_of(v, j), x)
            elif kind == 'set':
                x = l[3]
            elif kind == 'cpy':
                x = l[3].byte(add(l[4], d))
            elif kind == 'hav':
                x = sel(l[3], d)
            elif kind == 'fun':
                x = l[3](d)
            if c is TRUE:
                return fin(x)
            conds.append((c, x))
        b = s.base
        if b[0] == 'zero':
            return fin(const(0, 8))
        if b[0] == 'sym':
            return fin(sel(b[1], off))
        if b[0] == 'bytes':
            if isc(off):
                return fin(const(b[1][off.a], 8) if off.a < len(b[1]) else const(0, 8))
            v = const(0, 8)
            if len(b[1]) > 1024:
                raise Unsupported('symbolic index into a large constant')
            for i, x in enumerate(b[1]):
                v = ite(eq(off, const(i, W64)), const(x, 8), v)
            return fin(v)
        return fin(sel('undef_' + b[1], off))

    # -- writing ------------------------------------------------------------
    def top(s):
        if not s.layers or not isinstance(s.layers[-1], dict):
            s.layers.append({})
        return s.layers[-1]

    def put(s, off, v, n):
        if isc(off):
            d = s.top()
            for k in range(n):
                d[off.a + k] = (v, k)
        else:
            s.layers.append(('w', off, const(n, W64), v))

    def fill(s, off, n, byte):
        if isc(off) and isc(n) and n.a <= 1 << 14:
            d = s.top()
            for k in range(n.a):
                d[off.a + k] = (byte, 0)
        elif n is not const(0, W64):
            s.layers.append(('set', off, n, byte))

    def havoc(s, off, n, name):
        s.layers.append(('hav', off, n, name))


def byte_of(v, k):
    if isinstance(v, (Ptr, Fn)):
        return (v, k)
    return v if v.w == 8 else ext(v, 8 * k, 8)


def copy_bytes(dst, doff, src, soff, n):
    """memcpy between objects; src is read as it was before."""
    if isc(n) and n.a <= 4096 and isc(doff):
        bs = [src.byte(add(soff, const(k, W64))) for k in range(n.a)]
        d = dst.top()
        for k, b in enumerate(bs):
            d[doff.a + k] = b if isinstance(b, tuple) else (b, 0)
    elif not (isc(n) and n.a == 0):
        dst.layers.append(('cpy', doff, n, src.copy(), soff))


class Frame:
    __slots__ = ('f', 'mod', 'blk', 'idx', 'prev', 'regs', 'allocas', 'ret', 'active', 'hits')

    def clone(s):
        n = Frame()
        n.f, n.mod, n.blk, n.idx, n.prev, n.ret = s.f, s.mod, s.blk, s.idx, s.prev, s.ret
        n.regs, n.allocas = dict(s.regs), list(s.allocas)
        n.active, n.hits = dict(s.active), dict(s.hits)
        return n


class State:
    def __init__(s):
        s.mem, s.own, s.pc, s.frames, s.ghost, s.trail, s.ranges = {}, set(), [], [], {}, [], []

    def clone(s):
        n = State()
        n.mem = dict(s.mem)
        s.own = set()
        n.own = set()
        n.pc = list(s.pc)
        n.frames = [f.clone() for f in s.frames]
        n.ghost = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in s.ghost.items()}
        n.trail = list(s.trail)
        n.ranges = list(s.ranges)
        return n

    def w(s, oid):
        if oid not in s.own:
            s.mem[oid] = s.mem[oid].copy()
            s.own.add(oid)
        return s.mem[oid]

    def assume(s, c):
        if c is not TRUE:
            s.pc.append(c)


class Obligation:
    __slots__ = ('name', 'status', 'secs', 'backend', 'model', 'line', 'fn', 'goal', 'pc', 'trail', 'kind')


class LoopSpec:
    """Invariant for a loop that is cut. k is the number of completed iterations."""
    def init(s, eng, st):
        pass

    def havoc(s, eng, st, k):
        pass

    def preserve(s, eng, st, k, k1):
        pass


class Stop(Exception):
    """Drop the current path."""


class Engine:
    default_timeout_ms = 20000
    max_failed = 30
    current = None

    def __init__(s, mod, contracts=None, deadline=None, mods=()):
        s.mod = mod
        s.mods = [mod] + list(mods)
        s.contracts = contracts or {}
        s.obl = []
        s.dry = 0
        s.solver_secs = 0.0
        s.queries = 0
        s.deadline = deadline
        s.oid = 0
        s.globs = {}
        s.loopspecs = {}
        s.mode = {}
        s.on_ret = []
        s.maxpaths = 20000
        s.paths = 0
        s.steps = 0
        s.maxsteps = 3000000
        s.written = None
        s.zcache = {}
        s.symc = {}
        s.calls = set()
        s.inlined = set()
        s.loopinfo = []
        s.allow_malloc_fail = True
        s.covered = set()
        s.timeout_ms = s.default_timeout_ms
        s.cross = False
        s.attempts = {}
        s.slow = None
        s.failed = 0
        Engine.current = s

    # ------------------------------------------------------------ objects
    def new(s, st, size, kind, name, base, ro=False):
        s.oid += 1
        oid = '%s#%d' % (name, s.oid)
        if not isinstance(size, Node):
            size = const(size, W64)
        st.mem[oid] = Mem(size, kind, name, base, ro)
        st.own.add(oid)
        return oid

    def glob(s, st, name, mod):
        key = (id(mod) if (name in mod.globals and mod.globals[name][3]) else 0, name)
        oid = s.globs.get(key)
        if oid is None:
            oid = s.globs[key] = '@' + name + ('' if key[0] == 0 else '~%d' % len(s.globs))
        if oid not in st.mem:
            src = mod if name in mod.globals and mod.globals[name][1] is not None else next((m for m in s.mods if name in m.globals and m.globals[name][1] is not None and not m.globals[name][3]), None)
            if src is None:
                if name in mod.globals:
                    sz = 8
                    try:
                        sz = mod.size(mod.globals[name][0])
                    except Unsupported:
                        pass
                    m = Mem(const(sz, W64), 'extern', name, ('sym', 'G_' + name))
                else:
                    raise Unsupported('global ' + name)
            else:
                ty, init, cst, _ = src.globals[name]
                m = Mem(const(src.size(ty), W64), 'global', name, ('zero',), cst)
                st.mem[oid] = m
                s.initg(st, m, 0, ty, init, src)
            st.mem[oid] = m
        return oid

    def initg(s, st, m, off, ty, v, mod):
        k = v[0]
        if k in ('zero', 'null', 'undef'):
            return
        if k == 'int':
            m.put(const(off, W64), const(v[1], 8 * mod.size(ty)), mod.size(ty))
        elif k == 'str':
            for i, b in enumerate(v[1]):
                m.put(const(off + i, W64), const(b, 8), 1)
        elif k == 'agg':
            if ty.kind == 'array':
                es = mod.size(ty.e)
                for i, (et, x) in enumerate(v[1]):
                    s.initg(st, m, off + i * es, et, x, mod)
            else:
                for i, (et, x) in enumerate(v[1]):
                    o, ft = mod.field(ty, i)
                    s.initg(st, m, off + o, ft, x, mod)
        else:
            m.put(const(off, W64), s.cval(st, ty, v, mod), 8)

    def cval(s, st, ty, v, mod):
        k = v[0]
        if k == 'int':
            return const(v[1], 64 if ty.kind == 'ptr' else ty.bits)
        if k in ('null', 'zero'):
            return const(0, 64 if ty.kind == 'ptr' else ty.bits)
        if k == 'undef':
            return fresh('undef', 64 if ty.kind == 'ptr' else ty.bits)
        if k == 'glob':
            if any(v[1] in m.funcs or v[1] in m.decls for m in [mod] + s.mods) and not any(v[1] in m.globals for m in [mod] + s.mods):
                return Fn(v[1])
            return Ptr(s.glob(st, v[1], mod), const(0, W64))
        if k == 'gep':
            base = s.cval(st, ir.PTR, v[2], mod)
            return s.gep(st, v[1], base, [(t, s.cval(st, t, x, mod)) for t, x in v[3]], mod)
        raise Unsupported('constant ' + k)

    def val(s, st, ty, v):
        if v[0] == 'reg':
            return st.frames[-1].regs[v[1]]
        return s.cval(st, ty, v, st.frames[-1].mod)

    def gep(s, st, ty, base, idx, mod):
        off = const(0, W64)
        t = ty
        for n, (it, x) in enumerate(idx):
            x = sext(x, W64) if x.w < W64 else x
            if n == 0:
                off = add(off, mul(x, const(mod.size(t), W64)))
            elif t.kind == 'array':
                t = t.e
                off = add(off, mul(x, const(mod.size(t), W64)))
            else:
                o, t = mod.field(t, x.a)
                off = add(off, const(o, W64))
        if isinstance(base, Ptr):
            return Ptr(base.o, add(base.off, off), base.nul)
        if isinstance(base, Node):
            return add(base, off)
        raise Unsupported('gep base')

    # ------------------------------------------------------------ solving
    def solve(s, conds, timeout=None):
        """'unsat' / 'sat' / 'unknown' and a model."""
        cs = []
        for c in conds:
            if c is FALSE:
                return 'unsat', None
            if c is not TRUE:
                cs.append(c)
        if not cs:
            return 'sat', {}
        key = frozenset(c.id for c in cs)
        if key in s.zcache:
            return s.zcache[key]
        if s.deadline and time.time() > s.deadline:
            raise Undecided('time limit')
        z = z3m()
        t0 = time.time()
        so = z.SolverFor('QF_UFBV') if False else z.Solver()
        so.set('timeout', timeout or s.timeout_ms)
        for c in cs:
            so.add(to_z3(c) == 1)
        r = str(so.check())
        m = so.model() if r == 'sat' else None
        s.solver_secs += time.time() - t0
        s.queries += 1
        if s.slow is not None and time.time() - t0 > 1:
            s.slow.append((time.time() - t0, r, cs))
        if r != "unknown":
            s.zcache[key] = (r, m)
        return r, m

    def syms(s, c):
        r = s.symc.get(c)
        if r is None:
            r = s.symc[c] = frozenset(x.a if x.op == 'var' else x.a[0] for x in topo([c]) if x.op in ('var', 'sel'))
        return r

    def prove(s, pc, c):
        """'unsat' iff pc implies c. First only with the hypotheses over the symbols of the goal (sound: fewer hypotheses)."""
        g = s.syms(c)
        few = [x for x in pc if s.syms(x) <= g]
        if len(few) < len(pc):
            r, m = s.solve(few + [bnot(c)], 3000)
            if r == 'unsat':
                return r, m
        return s.solve(pc + [bnot(c)])

    def feasible(s, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        nc = bnot(c)
        for p in st.pc:
            if p is nc:
                return False
            if p is c:
                return True
        r, _ = s.solve(st.pc + [c])
        return r != 'unsat'

    def must(s, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        for p in st.pc:
            if p is c:
                return True
        r, _ = s.prove(st.pc, c)
        return r == 'unsat'

    def where(s, st):
        for f in reversed(st.frames):
            ins = f.f.blocks[f.blk].ins[min(f.idx, len(f.f.blocks[f.blk].ins) - 1)]
            return f.f.name, f.mod.dbg.get(ins.line)
        return '?', None

    def check(s, st, c, kind, name):
        """Obligation: the path condition implies c."""
        if s.dry:
            st.assume(c)
            if c is FALSE:
                raise Stop()
            return True
        fn, line = s.where(st)
        o = Obligation()
        o.kind, o.name, o.fn, o.line, o.secs, o.backend, o.model, o.goal, o.pc, o.trail = kind, name, fn, line, 0.0, 'term normalisation', None, c, None, None
        s.obl.append(o)
        if c is TRUE or any(p is c for p in st.pc):
            o.status = 'proved'
            return True
        t0 = time.time()
        r, m = s.prove(st.pc, c)
        o.secs = time.time() - t0
        o.backend = 'z3'
        if r == 'unsat':
            o.status = 'proved'
            st.assume(c)
            return True
        o.status = 'refuted' if r == 'sat' else 'unknown'
        o.model = m
        o.pc = list(st.pc)
        o.trail = list(st.trail)
        s.failed += 1
        if s.failed >= s.max_failed:
            raise Undecided('stopped after %d obligations were not discharged' % s.failed)
        if not st.frames:
            return False            # a postcondition: later ones are judged on their own
        st.assume(c)
        rr, _ = s.solve(st.pc)
        if rr == 'unsat':
            raise Stop()
        return False

    # ------------------------------------------------------------ memory access
    def access(s, st, p, n, kind, what):
        """Obligations for accessing n (Node) bytes at p. Returns the object id."""
        if not isinstance(p, Ptr):
            if isinstance(p, Node):
                s.check(st, FALSE, kind, '%s: pointer is valid' % what)
                raise Stop()
            raise Unsupported('access through %r' % (p,))
        if p.nul is not FALSE:
            s.check(st, bnot(p.nul), kind, '%s: pointer is not NULL' % what)
        m = st.mem[p.o]
        if not m.live:
            s.check(st, FALSE, kind, '%s: object %s is live' % (what, m.name))
            raise Stop()
        if isc(n) and n.a == 0:
            return p.o
        c = band(ule(n, m.size), ule(p.off, sub(m.size, n)))
        if not isc(n):
            c = bor(eq(n, const(0, W64)), c)
        if c is not TRUE:
            nm = '%s: within the bounds of %s' % (what, m.name)
            if isc(n) and not isc(p.off):
                d, base = (p.off.a[0], lin(W64, 0, p.off.a[1])) if p.off.op == 'lin' else (0, p.off)
                if s.in_range(st, p.o, base, d, n.a, m.size):
                    s.check(st, TRUE, kind, nm)
                    return p.o
            s.check(st, c, kind, nm)
        return p.o

    def in_range(s, st, oid, base, d, n, size):
        """Lemma cache: base+lo .. base+hi of the object was proved to be in bounds on this path, which implies
        the same for every part of it."""
        for o, b, lo, hi in st.ranges:
            if o == oid and b is base and lo <= d and d + n <= hi:
                return True
        s.attempts[(oid, base)] = s.attempts.get((oid, base), 0) + 1
        if s.attempts[(oid, base)] not in (2, 6, 20):
            return False
        for w in (128, 64):
            if w < n:
                continue
            lo = d // w * w
            if d + n > lo + w:
                lo = d
            c = band(ule(const(w, W64), size), ule(add(base, const(lo, W64)), sub(size, const(w, W64))))
            r, _ = s.solve(st.pc + [bnot(c)])
            if r == 'unsat':
                st.ranges.append((oid, base, lo, lo + w))
                return True
        return False

    def note_write(s, oid, off, n):
        if s.written is not None:
            s.written.append((oid, off, n))

    def store(s, st, p, v, n, what='store'):
        oid = s.access(st, p, const(n, W64), 'memory', what)
        m = st.mem[oid]
        if m.ro or m.kind in ('global', 'extern'):
            s.on_global_write(st, m, what)
        if m.kind == 'input':
            s.check(st, FALSE, 'frame', '%s: input buffer %s is not written' % (what, m.name))
        s.note_write(oid, p.off, const(n, W64))
        st.w(oid).put(p.off, v, n)

    def on_global_write(s, st, m, what):
        s.check(st, FALSE, 'frame', '%s: no shared global object (%s) is written' % (what, m.name))

    def load(s, st, p, n, what='load', ty=None):
        oid = s.access(st, p, const(n, W64), 'memory', what)
        return s.peek(st, oid, p.off, n)

    def peek(s, st, oid, off, n):
        m = st.mem[oid]
        if isc(off) and m.layers and isinstance(m.layers[-1], dict):
            e = m.layers[-1].get(off.a)
            if e is not None and e[1] == 0 and not (isinstance(e[0], Node) and e[0].w != 8 * n):
                d = m.layers[-1]
                if all(d.get(off.a + k) is not None and d[off.a + k][0] is e[0] and d[off.a + k][1] == k for k in range(1, n)):
                    return e[0]
        bs = [m.byte(add(off, const(k, W64))) for k in range(n)]
        if any(isinstance(b, tuple) for b in bs):
            if n == 8 and all(isinstance(b, tuple) and b[0] is bs[0][0] and b[1] == k for k, b in enumerate(bs)):
                return bs[0][0]
            if n == 8 and all(isinstance(b, tuple) and b[0] == bs[0][0] and b[1] == k for k, b in enumerate(bs)):
                return bs[0][0]
            raise Unsupported('partial pointer read')
        return cat(bs) if n > 1 else bs[0]

    def memcpy(s, st, d, src, n, what, overlap=False):
        if isc(n) and n.a == 0:
            return
        so = s.access(st, src, n, 'memory', what + ' source')
        do = s.access(st, d, n, 'memory', what + ' destination')
        if so == do and not overlap:
            s.check(st, bor(bor(ule(add(d.off, n), src.off), ule(add(src.off, n), d.off)), eq(d.off, src.off)), 'memory', what + ': source and destination do not overlap')
        m = st.mem[do]
        if m.ro or m.kind in ('global', 'extern'):
            s.on_global_write(st, m, what)
        if m.kind == 'input':
            s.check(st, FALSE, 'frame', '%s: input buffer %s is not written' % (what, m.name))
        s.note_write(do, d.off, n)
        dm = st.w(do)
        sm = st.mem[so]
        copy_bytes(dm, d.off, sm.copy() if so == do else sm, src.off, n)

    def memset(s, st, d, byte, n, what):
        if isc(n) and n.a == 0:
            return
        do = s.access(st, d, n, 'memory', what)
        m = st.mem[do]
        if m.ro or m.kind in ('global', 'extern'):
            s.on_global_write(st, m, what)
        if m.kind == 'input':
            s.check(st, FALSE, 'frame', '%s: input buffer %s is not written' % (what, m.name))
        s.note_write(do, d.off, n)
        st.w(do).fill(d.off, n, byte)

    # ------------------------------------------------------------ execution
    def find(s, name):
        for m in s.mods:
            if name in m.funcs:
                return m, m.funcs[name]
        return None, None

    def push(s, st, mod, f, args, ret):
        fr = Frame()
        fr.f, fr.mod, fr.blk, fr.idx, fr.prev, fr.ret = f, mod, f.order[0], 0, None, ret
        fr.regs = {n: a for (t, n), a in zip(f.params, args)}
        fr.allocas, fr.active, fr.hits = [], {}, {}
        if not hasattr(f, 'loops'):
            f.loops = loops(f)
        if len(st.frames) > 12 or any(x.f is f for x in st.frames):
            raise Unsupported('recursion in ' + f.name)
        st.frames.append(fr)

    def run(s, name, st, args):
        """All paths through the function: list of (state, return value)."""
        mod, f = s.find(name)
        if f is None:
            raise Unsupported('no definition of ' + name)
        s.push(st, mod, f, args, None)
        depth = len(st.frames) - 1
        return s.explore([st], depth)

    def explore(s, work, depth, cut=None):
        """Runs states until the frame stack is back at depth. cut=(frame index, header): states that take a
        back edge to that header are returned in the second list instead of continuing."""
        done, back = [], []
        work = list(work)
        while work:
            st = work.pop()
            try:
                while True:
                    s.steps += 1
                    if s.steps > s.maxsteps:
                        raise Undecided('step limit')
                    r = s.step(st, work, depth, cut, back)
                    if r is None:
                        continue
                    if r[0] == 'ret':
                        done.append((st, r[1]))
                    break
            except Stop:
                pass
            s.paths += 1
            if s.paths > s.maxpaths:
                raise Undecided('path limit')
            if s.deadline and time.time() > s.deadline:
                raise Undecided('time limit')
        return done if cut is None else (done, back)

    def jump(s, st, target, work, cut, back):
        """Enters block target; handles loop headers. Returns None to continue or ('drop',)."""
        fr = st.frames[-1]
        f = fr.f
        prev = fr.blk
        L = f.loops
        for h in list(fr.active):
            if target not in L[h]:
                del fr.active[h]
                fr.hits.pop(h, None)
        fr.prev, fr.blk, fr.idx = prev, target, 0
        if target in L:
            if cut is not None and cut == (len(st.frames) - 1, target) and prev in L[target]:
                s.phis(st)
                back.append(st)
                return ('drop',)
            key = (f.name, target)
            if prev not in L[target]:      # entry
                fr.hits[target] = 0
                if s.mode.get(key) == 'inv':
                    return s.loop_inv(st, target, work)
                fr.active[target] = ('unroll', st.clone())
            else:
                fr.hits[target] = fr.hits.get(target, 0) + 1
                if fr.hits[target] > 4200:
                    raise Undecided('loop in %s does not end' % f.name)
        s.phis(st)
        return None

    def phis(s, st):
        fr = st.frames[-1]
        new = {}
        ins = fr.f.blocks[fr.blk].ins
        while fr.idx < len(ins) and ins[fr.idx].op == 'phi':
            i = ins[fr.idx]
            for v, b in i.args:
                if b == fr.prev:
                    new[i.res] = s.val(st, i.ty, v)
                    break
            else:
                raise Unsupported('phi')
            fr.idx += 1
        fr.regs.update(new)

    def cond_branch(s, st, c, a, b, work, cut, back):
        fr = st.frames[-1]
        if c is TRUE or c is FALSE:
            return s.jump(st, a if c is TRUE else b, work, cut, back)
        fa, fb = s.feasible(st, c), s.feasible(st, bnot(c))
        if fa and fb:
            # a symbolic exit from a loop being executed iteration by iteration: cut it if it has a spec
            for h, v in list(fr.active.items()):
                if v[0] != 'unroll':
                    continue
                inn = fr.f.loops[h]
                if (a in inn) != (b in inn):
                    key = (fr.f.name, h)
                    if s.wants_cut(st, fr.f, h) or fr.hits.get(h, 0) > 300:
                        s.mode[key] = 'inv'
                        snap = v[1]
                        # restart at the loop entry in invariant mode
                        fr2 = snap.frames[-1]
                        fr2.blk = fr2.prev
                        return s.restart(st, snap, h, work, cut, back)
            st2 = st.clone()
            st.assume(c)
            st2.assume(bnot(c))
            fn, line = s.where(st)
            st.trail.append((fn, line, True))
            st2.trail.append((fn, line, False))
            if s.jump(st2, b, work, cut, back) is None:
                work.append(st2)
            return s.jump(st, a, work, cut, back)
        if not fa and not fb:
            raise Stop()
        return s.jump(st, a if fa else b, work, cut, back)

    def wants_cut(s, st, f, h):
        return f.name in s.loopspecs

    def restart(s, st, snap, h, work, cut, back):
        r = s.jump(snap, h, work, cut, back)
        if r is None:
            work.append(snap)
        return ('drop',)

    def branch_value(s, st, v):
        """i1 of something that may be a pointer comparison."""
        return v

    def step(s, st, work, depth, cut, back):
        fr = st.frames[-1]
        i = fr.f.blocks[fr.blk].ins[fr.idx]
        op = i.op
        R = fr.regs
        if op == 'br':
            if len(i.args) == 1:
                return s.jump(st, i.args[0], work, cut, back)
            c = s.val(st, ir.INT(1), i.args[0])
            return s.cond_branch(st, c, i.args[1], i.args[2], work, cut, back)
        if op == 'ret':
            v = s.val(st, i.ty, i.args[0]) if i.args else None
            for h in s.on_ret:
                h(st, fr, v)
            for oid in fr.allocas:
                st.w(oid).live = False
            top = len(st.frames) - 1
            st.frames.pop()
            if top == depth:
                return ('ret', v)
            if fr.ret is not None:
                st.frames[-1].regs[fr.ret] = v
            st.frames[-1].idx += 1
            return None
        if op == 'switch':
            v = s.val(st, i.ty, i.args[0])
            rest = i.args[2]
            if isc(v):
                for c, b in rest:
                    if (c[1] & mask(v.w)) == v.a:
                        return s.jump(st, b, work, cut, back)
                return s.jump(st, i.args[1], work, cut, back)
            none = []
            for c, b in rest:
                e = eq(v, const(c[1], v.w))
                none.append(bnot(e))
                if s.feasible(st, e):
                    st2 = st.clone()
                    st2.assume(e)
                    if s.jump(st2, b, work, cut, back) is None:
                        work.append(st2)
            n = ands(none)
            if not s.feasible(st, n):
                raise Stop()
            st.assume(n)
            return s.jump(st, i.args[1], work, cut, back)
        if op == 'call':
            return s.call(st, i, work)
        if op == 'unreachable':
            raise Stop()
        v = s.compute(st, i)
        if i.res is not None:
            R[i.res] = v
        fr.idx += 1
        return None

    def compute(s, st, i):
        op = i.op
        fr = st.frames[-1]
        if op == 'load':
            p = s.val(st, ir.PTR, i.args[0])
            n = fr.mod.size(i.ty)
            v = s.load(st, p, n)
            if i.ty.kind == 'int':
                if isinstance(v, (Ptr, Fn)):
                    return v
                return ext(v, 0, i.ty.bits)
            return v
        if op == 'store':
            v = s.val(st, i.ty, i.args[0])
            p = s.val(st, ir.PTR, i.args[1])
            n = fr.mod.size(i.ty)
            if isinstance(v, Node) and v.w < 8 * n:
                v = zext(v, 8 * n)
            s.store(st, p, v, n)
            return None
        if op == 'getelementptr':
            base = s.val(st, ir.PTR, i.args[0])
            return s.gep(st, i.ty, base, [(t, s.val(st, t, x)) for t, x in i.args[1]], fr.mod)
        if op in ir.BIN:
            a, b = s.val(st, i.ty, i.args[0]), s.val(st, i.ty, i.args[1])
            if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
                if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                    return sub(a.off, b.off)
                if op == 'add' and isinstance(a, Ptr) and isinstance(b, Node):
                    return Ptr(a.o, add(a.off, b), a.nul)
                raise Unsupported('arithmetic on pointers')
            return s.binop(st, op, a, b, i.x)
        if op == 'icmp':
            a, b = s.val(st, i.ty, i.args[0]), s.val(st, i.ty, i.args[1])
            return s.icmp(st, i.x, a, b)
        if op in ('zext', 'sext', 'trunc'):
            a = s.val(st, i.args[0][0], i.args[0][1])
            if isinstance(a, Ptr):
                raise Unsupported('cast of pointer')
            w = i.ty.bits
            return zext(a, w) if op == 'zext' else sext(a, w) if op == 'sext' else ext(a, 0, w)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return s.val(st, i.args[0][0], i.args[0][1]) if op != 'freeze' else s.val(st, i.ty, i.args[0])
        if op == 'select':
            c = s.val(st, ir.INT(1), i.args[0])
            a, b = s.val(st, i.ty, i.args[1]), s.val(st, i.ty, i.args[2])
            if c is TRUE:
                return a
            if c is FALSE:
                return b
            if isinstance(a, Node) and isinstance(b, Node):
                return ite(c, a, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return Ptr(a.o, ite(c, a.off, b.off), ite(c, a.nul, b.nul))
            if isinstance(a, Ptr) and isc(b) and b.a == 0:
                return Ptr(a.o, a.off, bor(bnot(c), a.nul))
            if isinstance(b, Ptr) and isc(a) and a.a == 0:
                return Ptr(b.o, b.off, bor(c, b.nul))
            if s.must(st, c):
                return a
            if s.must(st, bnot(c)):
                return b
            raise Unsupported('select of pointers')
        if op == 'alloca':
            n = fr.mod.size(i.ty)
            if i.args:
                c = s.val(st, i.args[0][0], i.args[0][1])
                if not isc(c):
                    raise Unsupported('variable length array')
                n *= c.a
            oid = s.new(st, n, 'stack', i.res[1:], ('undef', '%s_%d' % (i.res[1:], s.oid)))
            fr.allocas.append(oid)
            return Ptr(oid, const(0, W64))
        raise Unsupported('instruction %s' % (i.x if op == 'unsupported' else op))

    def binop(s, st, op, a, b, fl):
        w = a.w
        if op in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            if 'nsw' in fl and not (isc(a) and isc(b) and isc(r) and False):
                ww = 2 * w if op == 'mul' else w + 1
                h = 1 << (w - 2)
                if not (op != 'mul' and umax(a) < h and umax(b) < h and not (op == 'sub' and False)):
                    wide = {'add': add, 'sub': sub, 'mul': mul}[op](sext(a, ww), sext(b, ww))
                    s.check(st, eq(wide, sext(r, ww)), 'arith', 'no signed overflow in %s' % op)
            return r
        if op in ('and', 'or', 'xor'):
            return {'and': band, 'or': bor, 'xor': bxor}[op](a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if not isc(b) or b.a >= w:
                s.check(st, ult(b, const(w, w)), 'arith', 'shift amount in range')
            return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b)
        if not isc(b) or b.a == 0:
            s.check(st, bnot(eq(b, const(0, w))), 'arith', 'no division by zero')
        if op in ('sdiv', 'srem'):
            if umax(a) < 1 << (w - 1) and umax(b) < 1 << (w - 1):
                return (udiv if op == 'sdiv' else urem)(a, b)
            if not isc(b) or b.a == mask(w):
                s.check(st, bnot(band(eq(a, const(1 << (w - 1), w)), eq(b, const(-1, w)))), 'arith', 'no signed overflow in division')
        return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](a, b)

    def icmp(s, st, pred, a, b):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    e = boolean(a.name == b.name)
                else:
                    e = FALSE
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    if pred in ('eq', 'ne'):
                        e = bor(band(a.nul, b.nul), ands([bnot(a.nul), bnot(b.nul), eq(a.off, b.off)]))
                    else:
                        return s.icmp(st, pred, a.off, b.off)
                else:
                    e = band(a.nul, b.nul)
            else:
                p, n = (a, b) if isinstance(a, Ptr) else (b, a)
                if not isc(n):
                    raise Unsupported('comparison of a pointer with an integer')
                e = p.nul if n.a == 0 else FALSE
            if pred == 'eq':
                return e
            if pred == 'ne':
                return bnot(e)
            raise Unsupported('pointer ordering')
        return {'eq': lambda: eq(a, b), 'ne': lambda: bnot(eq(a, b)), 'ult': lambda: ult(a, b), 'ule': lambda: ule(a, b),
                'ugt': lambda: ult(b, a), 'uge': lambda: ule(b, a), 'slt': lambda: slt(a, b), 'sle': lambda: sle(a, b),
                'sgt': lambda: slt(b, a), 'sge': lambda: sle(b, a)}[pred]()

    def call(s, st, i, work):
        fr = st.frames[-1]
        if i.x[0] != '@':
            t = fr.regs.get(i.x)
            if isinstance(t, Fn):
                name = t.name
            else:
                h = s.contracts.get('*indirect')
                if h is None:
                    raise Unsupported('indirect call')
                name = '*indirect'
        else:
            name = i.x[1:].strip('"')
        args = [s.val(st, t, v) for t, v in i.args]
        h = s.contracts.get(name)
        if h is None and name.startswith('llvm.'):
            h = s.contracts.get('.'.join(name.split('.')[:2]))
        if h is None and name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            a, b = args
            c = ult(a, b)
            fr.regs[i.res] = ite(c, a, b) if 'umin' in name else ite(c, b, a)
            fr.idx += 1
            return None
        if h is not None:
            s.calls.add(name)
            outs = h(s, st, args)
            if outs is None:
                raise Stop()
            if not isinstance(outs, list):
                outs = [(st, outs)]
            live = []
            for st2, v in outs:
                f2 = st2.frames[-1]
                if i.res is not None:
                    if isinstance(v, Node) and i.ty.kind == 'int' and v.w != i.ty.bits:
                        v = ext(v, 0, i.ty.bits) if v.w > i.ty.bits else sext(v, i.ty.bits)
                    f2.regs[i.res] = v
                f2.idx += 1
                live.append(st2)
            if not live:
                raise Stop()
            if live[0] is st:
                work.extend(live[1:])
                return None
            work.extend(live)
            return ('drop',)
        mod, f = None, None
        if name in fr.mod.funcs:
            mod, f = fr.mod, fr.mod.funcs[name]
        else:
            mod, f = s.find(name)
        if f is None:
            raise Unsupported('call of %s, which has neither a body here nor a contract' % name)
        s.inlined.add(name)
        s.push(st, mod, f, args, i.res)
        return None

    # ------------------------------------------------------------ loops with invariants
    def loop_inv(s, st, h, work):
        fr = st.frames[-1]
        f = fr.f
        spec = s.loopspecs.get(f.name)
        spec = spec(s, st, f, h) if spec else LoopSpec()
        depth = len(st.frames) - 1
        s.phis(st)                       # initial values of the loop variables
        names = [i.res for i in f.blocks[h].ins if i.op == 'phi']
        init = {n: fr.regs[n] for n in names}
        start = fr.idx
        spec.phi0 = dict(init)
        spec.init(s, st)
        # --- find what the body changes, to a fixed point, without recording obligations
        mod_ranges = {}
        kinds = {}
        step = {}
        cont = []
        saved = s.obl, s.written, s.on_ret, s.paths
        s.dry += 1
        try:
            for rnd in range(8):
                t = st.clone()
                k = fresh('loop.it', W64)
                xs = {}
                for n in names:
                    v = init[n]
                    if kinds.get(n) == 'same':
                        xs[n] = v
                    elif isinstance(v, Ptr):
                        xs[n] = Ptr(v.o, fresh('loop.x', W64), v.nul)
                    else:
                        xs[n] = fresh('loop.x', v.w)
                t.frames[-1].regs.update(xs)
                s.havoc_ranges(t, mod_ranges)
                spec.phi = dict(xs)
                spec.havoc(s, t, k)
                mark = len(t.pc)
                s.written = []
                s.on_ret = []
                done, back = s.explore_body(t, depth, h)
                new = {}
                for oid, off, n in s.written:
                    if oid in st.mem:
                        new.setdefault(oid, []).append((off, n))
                changed = False
                loopvars = {v.off if isinstance(v, Ptr) else v for v in xs.values()}
                for oid, ws in new.items():
                    cur = mod_ranges.get(oid)
                    if cur == 'all':
                        continue
                    if all(isc(o) and isc(n) for o, n in ws):
                        b = set(cur or ())
                        for o, n in ws:
                            b |= set(range(o.a, o.a + n.a))
                        if b != cur:
                            mod_ranges[oid] = b
                            changed = True
                    else:
                        mod_ranges[oid] = 'all'
                        changed = True
                step, cont = {}, []
                for n in names:
                    ds = set()
                    for b in back:
                        v, x = b.frames[-1].regs[n], xs[n]
                        if isinstance(x, Ptr):
                            ds.add(sub(v.off, x.off) if isinstance(v, Ptr) and v.o == x.o else None)
                        elif isinstance(v, Node):
                            ds.add(sub(v, x))
                        else:
                            ds.add(None)
                    d = ds.pop() if len(ds) == 1 else None
                    step[n] = d if d is not None and isc(d) else None
                    if kinds.get(n) != 'same' and back and all(b.frames[-1].regs[n] is init[n] or b.frames[-1].regs[n] == init[n] for b in back):
                        pass
                for b in back:
                    cont.append([c for c in b.pc[mark:]])
                if not changed:
                    break
            else:
                raise Undecided('loop effects in %s' % f.name)
        finally:
            s.dry -= 1
            s.obl, s.written, s.on_ret, s.paths = saved
        # --- the arbitrary iteration
        base = st
        k = fresh('loop.k', W64)
        ph = {}
        sb = {}
        affine = []
        for n in names:
            v, c = init[n], step[n]
            v0 = v.off if isinstance(v, Ptr) else v
            x0 = xs[n].off if isinstance(xs[n], Ptr) else xs[n]
            if c is not None:
                kk = ext(k, 0, v0.w) if v0.w < W64 else k
                e = add(v0, mul(kk, c))
                affine.append((n, v0, sgn(c.a, c.w), x0))
            else:
                e = fresh('loop.' + n[1:], v0.w)
            sb[x0] = e
            ph[n] = Ptr(v.o, e, v.nul) if isinstance(v, Ptr) else e
        # what held at the end of the previous iteration, as a function of the iteration number
        okvars = set(sb)
        def only_known(c):
            return all(x in okvars or not (x.op == 'var' and ('!' in x.a)) or x in known for x in topo([c]) if x.op in ('var',)) and not any(x.op == 'sel' and x.a[0] in hav for x in topo([c]))
        known = set()
        for c in base.pc:
            known |= {x for x in topo([c]) if x.op == 'var'}
        for v in list(fr.regs.values()):
            vv = v.off if isinstance(v, Ptr) else v
            if isinstance(vv, Node):
                known |= {x for x in topo([vv]) if x.op == 'var'}
        hav = s.havnames
        allaff = {x0 for _, _, _, x0 in affine}
        conds = []
        for cs in cont:
            keep = [c for c in cs if only_known(c) and not any(x in okvars and x not in allaff for x in topo([c]))]
            conds.append(ands([subst(c, sb) for c in keep]))
        contk = ors(conds) if conds else FALSE         # function of k
        km1 = sub(k, const(1, W64))
        facts = [bor(eq(k, const(0, W64)), subst(contk, {k: km1}))]
        cands = []
        for n, v0, c, x0 in affine:
            if v0.w != W64 and v0.w != 32:
                continue
            if c < 0:
                cands.append((n, zext(udiv(v0, const(-c, v0.w)), W64)))
            elif c > 0:
                for cs in cont:
                    for q in cs:
                        for lhs, rhs in cmp_pairs(q):
                            d = sub(lhs, x0) if lhs.w == x0.w else None
                            if d is not None and isc(d) and x0 not in topo([rhs]) and only_known(rhs):
                                rhs2 = rhs
                                num = add(sub(sub(rhs2, v0), d), const(c - 1, v0.w))
                                cands.append((n, zext(udiv(num, const(c, v0.w)), W64)))
        cands.append((None, const(1 << 60, W64)))
        good = []
        for n, b in cands:
            inv = ule(k, b)
            nxt = ule(add(k, const(1, W64)), b)
            r, _ = s.solve(base.pc + facts + good + [inv, contk, bnot(nxt)], 5000)
            r0, _ = s.solve(base.pc + [bnot(subst(inv, {k: const(0, W64)}))], 5000)
            if r == 'unsat' and r0 == 'unsat' and inv not in good:
                good.append(inv)
        s.loopinfo.append(dict(fn=f.name, header=h, affine=[(n, c) for n, _, c, _ in affine], bound=bool(good),
                               havoc=sorted(st.mem[o].name for o in mod_ranges)))
        t = st.clone()
        tf = t.frames[-1]
        tf.regs.update(ph)
        s.havoc_ranges(t, mod_ranges)
        for c in facts + good:
            t.assume(c)
        spec.phi = dict(ph)
        spec.k = k
        spec.bounds = good
        spec.havoc(s, t, k)
        if not s.dry:
            s.check(t, boolean(bool(good) or getattr(spec, 'no_termination', False)), 'termination', 'loop in %s terminates (bounded iteration count)' % f.name)
        t.frames[-1].active[h] = ('inv', spec, k, {n: (init[n], step[n]) for n in names})
        done, back = s.explore_body(t, depth, h, exits=work)
        for b in back:
            k1 = add(k, const(1, W64))
            for n in names:
                if step[n] is not None:
                    v, x = b.frames[-1].regs[n], ph[n]
                    if isinstance(x, Ptr):
                        s.check(b, eq(sub(v.off, x.off), step[n]), 'invariant', 'induction variable %s' % n)
                    else:
                        s.check(b, eq(sub(v, x), step[n]), 'invariant', 'induction variable %s' % n)
            spec.phi = {n: b.frames[-1].regs[n] for n in names}
            try:
                spec.preserve(s, b, k, k1)
            except Stop:
                pass
        return ('drop',)

    def explore_body(s, t, depth, h, exits=None):
        """Executes the body from the header until the back edge; states that leave the loop are appended to
        exits (or dropped)."""
        back, done = [], []
        work = [t]
        L = t.frames[-1].f.loops[h]
        while work:
            st = work.pop()
            try:
                while True:
                    s.steps += 1
                    if s.steps > s.maxsteps:
                        raise Undecided('step limit')
                    if len(st.frames) - 1 == depth and st.frames[-1].blk not in L:
                        if exits is not None:
                            exits.append(st)
                        break
                    if len(st.frames) - 1 < depth:
                        done.append(st)
                        break
                    if len(st.frames) - 1 == depth and st.frames[-1].f.blocks[st.frames[-1].blk].ins[st.frames[-1].idx].op == 'ret':
                        if exits is not None:
                            exits.append(st)
                        break
                    if s.step(st, work, depth, (depth, h), back) is not None:
                        break
            except Stop:
                pass
            s.paths += 1
            if s.paths > s.maxpaths:
                raise Undecided('path limit')
            if s.deadline and time.time() > s.deadline:
                raise Undecided('time limit')
        return done, back

    havnames = set()

    def havoc_ranges(s, t, ranges):
        for oid, r in ranges.items():
            m = t.w(oid)
            s.oid += 1
            nm = 'hav%d' % s.oid
            s.havnames.add(nm)
            if r == 'all':
                m.layers.append(('hav', const(0, W64), m.size, nm))
            else:
                d = m.top()
                for o in r:
                    d[o] = (sel(nm, const(o, W64)), 0)


def cmp_pairs(q):
    """(lhs, rhs) with q implying lhs < rhs or lhs <= rhs, for loop bound candidates."""
    r = []
    neg_ = False
    if q.op == 'bf' and len(q.a[1]) == 1 and q.a[0] == 1:
        q, neg_ = q.a[1][0], True
    if q.op in ('ult', 'slt'):
        a, b = q.a
        if neg_:
            r.append((b, add(a, const(1, a.w))))
        else:
            r.append((a, b))
    elif q.op == 'eq' and neg_:
        a, b = q.a
        r.append((a, b))
        r.append((b, a))
    return r
