"""Contracts of the Python bindings (pyhmac/*.c).

Every function is checked against assumed contracts of the CPython functions it calls (their documentation: which
references are new, borrowed or stolen, which failures set an exception, that the GIL is held) and against the
contracts of libhmac proved under C01 to C06. Reference counts, the pending exception and the GIL are ghost state."""
import glob
import os
import re
from . import env, ir
from .expr import *
from .exec import *
from .libc import BASE, Z, c_error_set, c_error_free
from .context import CEngine
from .digest import ONE, nullness
from .tools import K, Cands, Anything, houdini, text_of, SSIZE, ALGS

METHODS = 3                              # METH_VARARGS | METH_KEYWORDS
NOARGS = 4
TP = dict(name=24, basicsize=32, dealloc=48, methods=232, init=296, new=312, free=320)      # struct _typeobject, LP64


def inc():
    p = sorted(glob.glob('/usr/include/python3*/Python.h'))
    if not p:
        raise Unsupported('Python.h is not installed')
    return ['-I' + os.path.dirname(p[-1]), '-I' + os.path.join(env.REPO, 'pyhmac')]


def immortal():
    """Whether None is (Python 3.12 and later)."""
    return int(re.search(r'python3\.(\d+)', inc()[0]).group(1)) >= 12


def compile_py(name, variant='builtin'):
    m = ir.compile_ir(os.path.join(env.REPO, 'pyhmac', name + '.c'), variant, extra=inc() + ['-Xclang', '-disable-llvm-passes'])      # Py_DECREF stays a call
    return m


class BEngine(CEngine):
    def on_global_write(s, st, m, what):
        if m.kind != 'state':
            CEngine.on_global_write(s, st, m, what)

    def icmp(s, st, pred, a, b):
        """A context or object is not compared with anything but NULL."""
        return CEngine.icmp(s, st, pred, a, b)


# ------------------------------------------------------------------ ghost state
def begin(st, gil=True, exc=False):
    st.ghost.update(rc={}, exc=exc, gil=gil, ev=(), fails=(), str={})


def note(st, *ev):
    st.ghost['ev'] = st.ghost['ev'] + (ev,)


def did(st, what):
    return [x for x in st.ghost['ev'] if x[0] == what]


def fail(st, what, exc=True):
    t = st.clone()
    t.ghost['fails'] = t.ghost['fails'] + (what,)
    if exc:
        t.ghost['exc'] = True
    return t


def gil(e, st, what):
    e.check(st, boolean(st.ghost['gil']), 'pre', what + ' is called with the GIL held')


def quiet(e, st, what):
    gil(e, st, what)
    e.check(st, boolean(not st.ghost['exc']), 'pre', what + ' is called with no exception pending')


def ref(st, o, d):
    rc = dict(st.ghost['rc'])
    rc[o] = rc.get(o, 0) + d
    st.ghost['rc'] = rc
    return rc[o]


def null(p):
    return isinstance(p, Node) and isc(p) and p.a == 0


def obj(e, st, p, what):
    """The live object p points to."""
    ok = isinstance(p, Ptr) and p.nul is FALSE and p.off is Z and st.mem[p.o].live
    e.check(st, boolean(ok), 'memory', what + ': object is valid')
    if not ok:
        raise Stop()
    return p.o


def terminated(st, o, at):
    d = dict(st.ghost['str'])
    d[o] = at
    st.ghost['str'] = d


def new_object(e, st, name, owned=True, isb=FALSE, size=None):
    """An object; with a size it may be a bytes object of that size."""
    o = e.new(st, 16, 'pyobj', name, ('sym', 'OBJ_' + name))
    if size is not None:
        b = e.new(st, add(size, K(1)), 'pybuf', name + ' data', ('sym', 'DATA_%s_%d' % (name, e.oid)))
        st.mem[b].put(size, K(0, 8), 1)
        terminated(st, b, size)
        e.obj[o] = dict(isb=isb, buf=b, size=size)
    if owned:
        ref(st, o, 1)
    return o


def forks(e, st, c):
    """The states in which c holds and does not hold."""
    a, b = None, None
    if c is not FALSE and e.feasible(st, c):
        a = st.clone()
        a.assume(c)
    if c is not TRUE and e.feasible(st, bnot(c)):
        b = st.clone()
        b.assume(bnot(c))
    return a, b


def bytes_of(e, st, p, what):
    gil(e, st, what)
    o = obj(e, st, p, what)
    d = e.obj.get(o)
    if d is None:
        d = dict(isb=FALSE)
    return d, forks(e, st, d['isb'])


# ------------------------------------------------------------------ CPython
def c_parse(e, st, a):
    """Returns 0 with an exception, or 1 with the arguments, which are borrowed."""
    quiet(e, st, 'PyArg_ParseTupleAndKeywords')
    ar, kw, fmt, kwl = a[:4]
    ok = all(isinstance(x, Ptr) for x in (ar, kw)) and ar.o == e.P['args'] and kw.o == e.P['keywords']
    e.check(st, boolean(ok), 'post', 'the arguments of the call are parsed')
    f = text_of(e, st, fmt)
    for c in ':;':
        f = f.split(c)[0]
    if set(f) - {'O', 'S'}:
        raise Unsupported('argument format ' + f)
    names = []
    while True:
        v = e.peek(st, kwl.o, add(kwl.off, K(8 * len(names))), 8)
        if null(v):
            break
        if len(names) > 8 or not isinstance(v, Ptr):
            raise Unsupported('keyword list')
        names.append(text_of(e, st, v))
    e.check(st, boolean(len(names) == len(f) == len(a) - 4), 'pre', 'PyArg_ParseTupleAndKeywords: one keyword and one place for each argument')
    e.check(st, boolean(names == e.P['names']), 'post', 'the arguments are %s' % ', '.join(e.P['names']))
    if names != e.P['names'] or len(names) != len(a) - 4:
        raise Stop()
    t = st.clone()
    t.ghost['exc'] = True
    t.ghost['refused'] = True
    outs = [(t, K(0, 32))]
    for n, c, p in zip(names, f, a[4:]):
        if c == 'S':
            g, b = forks(e, st, e.obj[e.P['obj'][n]]['isb'])
            if b is not None:
                b.ghost['exc'] = True
                outs.append((b, K(0, 32)))
            if g is None:
                return outs
            st = g
        e.store(st, p, Ptr(e.P['obj'][n], Z), 8)
    return [(st, K(1, 32))] + outs


def c_clear(e, st, a):
    gil(e, st, 'PyErr_Clear')
    st.ghost['exc'] = False
    return [(st, None)]


def c_occurred(e, st, a):
    gil(e, st, 'PyErr_Occurred')
    return [(st, Ptr(e.new(st, 16, 'pyobj', 'exception', ('sym', 'EXC')), Z) if st.ghost['exc'] else Z)]


def strings(e, st, a, i, what):
    """The arguments of the format string a[i] (only %s and %% are used) are NUL terminated strings."""
    fmt = text_of(e, st, a[i])
    args = list(a[i + 1:])
    k = 0
    while k < len(fmt) - 1:
        if fmt[k] == '%':
            if fmt[k + 1] == 's':
                p = args.pop(0) if args else None
                if not isinstance(p, Ptr):
                    e.check(st, FALSE, 'memory', what + ': string argument is valid')
                    raise Stop()
                o = p.o
                e.check(st, band(bnot(p.nul), boolean(st.mem[o].live)), 'memory', what + ': string argument is valid')
                if st.mem[o].kind not in ('global', 'extern'):
                    at = st.ghost['str'].get(o)
                    e.check(st, FALSE if at is None else band(ule(p.off, at), eq(e.peek(st, o, at, 1), K(0, 8))), 'memory', what + ': string argument is terminated')
            elif fmt[k + 1] != '%':
                raise Unsupported('format ' + fmt)
            k += 1
        k += 1


def c_format(fi, what):
    def h(e, st, a):
        gil(e, st, what)
        e.check(st, bnot(nullness(a[fi])) if isinstance(a[fi], (Ptr, Node)) else TRUE, 'memory', what + ': format is not NULL')
        strings(e, st, a, fi, what)
        st.ghost['exc'] = True
        return [(st, Z)]
    return h


def c_setstring(e, st, a):
    gil(e, st, 'PyErr_SetString')
    st.ghost['exc'] = True
    return [(st, None)]


def c_isinstance(e, st, a):
    """1, 0, or -1 with an exception. An object that is not of the type may claim that it is (__class__)."""
    quiet(e, st, 'PyObject_IsInstance')
    o = obj(e, st, a[0], 'PyObject_IsInstance')
    if not (isinstance(a[1], Ptr) and a[1].o == '@PyBytes_Type'):
        raise Unsupported('PyObject_IsInstance of another type')
    y, n = forks(e, st, e.obj[o]['isb'] if o in e.obj else FALSE)
    outs = []
    if y is not None:
        outs.append((y, K(1, 32)))
    if n is not None:
        l, x = n.clone(), fail(n, 'isinstance')
        outs += [(n, K(0, 32)), (l, K(1, 32)), (x, K(-1, 32))]
    return outs


def c_asstring(e, st, a):
    d, (y, n) = bytes_of(e, st, a[0], 'PyBytes_AsString')
    outs = []
    if y is not None:
        outs.append((y, Ptr(d['buf'], Z)))
    if n is not None:
        n.ghost['exc'] = True
        outs.append((n, Z))
    return outs


def c_size(e, st, a):
    d, (y, n) = bytes_of(e, st, a[0], 'PyBytes_Size')
    outs = []
    if y is not None:
        outs.append((y, d['size']))
    if n is not None:
        n.ghost['exc'] = True
        outs.append((n, K(-1)))
    return outs


def unchecked(h, what):
    """The macros that do not check that the object is a bytes object."""
    def g(e, st, a):
        d, (y, n) = bytes_of(e, st, a[0], what)
        e.check(st, boolean(n is None), 'memory', what + ': the object is a bytes object')
        if y is None:
            raise Stop()
        return [x for x in h(e, y, a) if not x[0].ghost['exc'] or st.ghost['exc']]
    return g


def c_asboth(e, st, a):
    """PyBytes_AsStringAndSize(o, &s, &n): with a place for the length the data may contain NUL bytes."""
    d, (y, n) = bytes_of(e, st, a[0], 'PyBytes_AsStringAndSize')
    outs = []
    if y is not None:
        if null(a[2]):
            f = y.clone()                # data with a NUL byte
            f.ghost['exc'] = True
            outs.append((f, K(-1, 32)))
        else:
            e.store(y, a[2], d['size'], 8)
        e.store(y, a[1], Ptr(d['buf'], Z), 8)
        outs.append((y, K(0, 32)))
    if n is not None:
        n.ghost['exc'] = True
        outs.append((n, K(-1, 32)))
    return outs


def c_type(e, st, a):
    o = obj(e, st, a[0], 'Py_TYPE')
    if o not in e.types:
        t = e.types[o] = e.new(st, 512, 'global', 'type of ' + o, ('sym', 'TYPE_' + o))
        e.typemem = getattr(e, 'typemem', {})
        e.typemem[t] = st.mem[t]
        st.mem[t].put(K(TP['free']), Fn('vt_tp_free'), 8)
    t = e.types[o]
    if t not in st.mem:
        st.mem[t] = e.typemem[t]
    return [(st, Ptr(t, Z))]


def c_feature(e, st, a):
    """PyType_HasFeature: the flag of subclasses of bytes."""
    o = next((k for k, t in e.types.items() if isinstance(a[0], Ptr) and t == a[0].o), None)
    if o is None or not isc(a[1]) or a[1].a != 1 << 27:
        raise Unsupported('type feature')
    return [(st, zext(e.obj[o]['isb'] if o in e.obj else FALSE, 32))]


def c_from(e, st, a):
    """A new bytes object with these bytes, or NULL with an exception."""
    gil(e, st, 'PyBytes_FromStringAndSize')
    p, n = a
    if not isc(n):
        raise Unsupported('bytes object of an unknown size')
    f = fail(st, 'bytes')
    o = new_object(e, st, 'bytes', True, TRUE, n)
    if not null(p):
        e.memcpy(st, Ptr(e.obj[o]['buf'], Z), p, n, 'PyBytes_FromStringAndSize')
    return [(st, Ptr(o, Z)), (f, Z)]


def c_incref(e, st, a):
    gil(e, st, 'Py_IncRef')
    if not null(a[0]):
        ref(st, obj(e, st, a[0], 'Py_IncRef'), 1)
    return [(st, None)]


def c_newref(e, st, a):
    c_incref(e, st, a)
    return [(st, a[0])]


def c_decref(e, st, a):
    gil(e, st, 'Py_DecRef')
    if null(a[0]):
        return [(st, None)]
    o = obj(e, st, a[0], 'Py_DecRef')
    e.check(st, boolean(st.ghost['rc'].get(o, 0) >= 1), 'memory', 'Py_DecRef: a reference that is owned')
    if ref(st, o, -1) == 0 and o in e.obj or o in e.P.get('contexts', ()) and st.ghost['rc'][o] == 0:
        if o in e.P.get('contexts', ()):
            c_dealloc(e, st, o)
        else:
            st.w(o).live = False
    return [(st, None)]


def c_dealloc(e, st, o):
    """What <alg>_context_free does, as proved in b_free."""
    v = e.peek(st, o, K(e.P['field']), 8)
    ok = null(v) or isinstance(v, Ptr) and st.mem[v.o].tag == 'ctx' and st.mem[v.o].live
    e.check(st, boolean(ok), 'memory', 'the released object has a context or none')
    if isinstance(v, Ptr):
        st.w(v.o).live = False
    st.w(o).live = False


def c_save(e, st, a):
    gil(e, st, 'PyEval_SaveThread')
    st.ghost['gil'] = False
    st.ghost['ts'] = t = fresh('tstate', 64)
    return [(st, t)]


def c_restore(e, st, a):
    e.check(st, boolean(not st.ghost['gil'] and a[0] is st.ghost.get('ts')), 'pre', 'PyEval_RestoreThread gets the state that was saved')
    st.ghost['gil'] = True
    return [(st, None)]


def c_objnew(e, st, a):
    gil(e, st, '_PyObject_New')
    f = fail(st, 'object')
    ok = isinstance(a[0], Ptr) and a[0].o.startswith('@' + e.P['type'])
    e.check(st, boolean(ok), 'post', 'the object is of its own type')
    o = e.new(st, e.P['osize'], 'heap', 'object', ('undef', 'object'))
    e.P.setdefault('contexts', set()).add(o)
    ref(st, o, 1)
    return [(st, Ptr(o, Z)), (f, Z)]


def c_tpfree(e, st, a):
    gil(e, st, 'tp_free')
    o = obj(e, st, a[0], 'tp_free')
    e.check(st, boolean(o == e.P['self']), 'memory', 'tp_free: the object')
    st.w(o).live = False
    return [(st, None)]


# ------------------------------------------------------------------ libhmac
def buffer_is(e, st, name, p, n):
    """The bytes of the argument of this name; FALSE if there is nothing to give."""
    if null(p) or e.feasible(st, ult(SSIZE, n)) and not e.feasible(st, ule(n, SSIZE)):
        return False
    d = e.obj[e.P['obj'][name]]
    ok = isinstance(p, Ptr) and p.o == d['buf'] and p.off is Z
    e.check(st, band(boolean(ok), eq(n, d['size'])) if ok else FALSE, 'post', 'exactly the bytes of %s are used' % name)
    if not ok:
        raise Stop()
    return True


def lib_fail(e, st, err, what):
    t = fail(st, what, False)
    if isinstance(err, Ptr) and (t.mem[err.o].ro or t.mem[err.o].kind in ('global', 'extern')):
        e.on_global_write(t, t.mem[err.o], what)
    c_error_set(e, t, [err, K(0, 32), K(0, 32)])
    return t, K(-1, 32)


def digest_to(e, st, p, n, alg, what):
    """A digest is written to p if it has room."""
    e.access(st, p, n, 'memory', what)
    m = st.mem[p.o]
    if m.ro or m.kind in ('global', 'extern'):
        # the interpreter lock is not held here
        e.on_global_write(st, m, what)
    out = env.ALGS[alg]['out']
    if not isc(n) or n.a < out:
        return False
    d = tuple(fresh('digest', 8) for _ in range(out))
    e.note_write(p.o, p.off, K(out))
    for i, b in enumerate(d):
        st.w(p.o).put(add(p.off, K(i)), b, 1)
    st.ghost['digest'] = d
    return True


def c_calculate(alg, keyed):
    what = 'libhmac_%s_calculate%s' % (alg, '_hmac' if keyed else '')

    def h(e, st, a):
        e.check(st, boolean(alg == e.P['alg'] and keyed == e.P['keyed']), 'post', 'the function of its own algorithm is called')
        f = lib_fail(e, st, a[-1], what)
        if keyed and not buffer_is(e, st, 'key', a[0], a[1]):
            return [f]
        if not buffer_is(e, st, 'data', a[-5], a[-4]):
            return [f]
        note(st, 'calculate')
        if not digest_to(e, st, a[-3], a[-2], alg, what):
            f[0].ghost['fails'] = st.ghost['fails']
            return [f]
        return [(st, ONE), f]
    return h


def c_ctx_initialize(alg):
    def h(e, st, a):
        e.check(st, boolean(alg == e.P['alg']), 'post', 'the function of its own algorithm is called')
        v = e.load(st, a[0], 8)
        if isinstance(v, Node) and not isc(v):
            e.check(st, FALSE, 'memory', 'libhmac_%s_initialize.pre: *context is initialized' % alg)
            raise Stop()
        f = lib_fail(e, st, a[1], 'initialize')
        if not null(v):
            f[0].ghost['fails'] = st.ghost['fails']
            return [f]
        o = e.new(st, 8, 'heap', 'context', ('sym', 'CTX'))
        st.mem[o].tag = 'ctx'
        note(st, 'initialize', o)
        e.store(st, a[0], Ptr(o, Z), 8)
        return [(st, ONE), f]
    return h


def ctx_arg(e, st, v):
    """None for NULL; the live context otherwise."""
    if null(v):
        return None
    ok = isinstance(v, Ptr) and v.nul is FALSE and v.off is Z and st.mem[v.o].tag == 'ctx' and st.mem[v.o].live
    e.check(st, boolean(ok), 'memory', 'the context is live')
    if not ok:
        raise Stop()
    return v.o


def c_ctx_free(alg):
    def h(e, st, a):
        e.check(st, boolean(alg == e.P['alg']), 'post', 'the function of its own algorithm is called')
        o = ctx_arg(e, st, e.load(st, a[0], 8))
        if o is not None:
            st.w(o).live = False
            e.store(st, a[0], Z, 8)
            note(st, 'free', o)
        return [(st, ONE)]
    return h


def c_ctx_update(alg):
    def h(e, st, a):
        e.check(st, boolean(alg == e.P['alg']), 'post', 'the function of its own algorithm is called')
        f = lib_fail(e, st, a[3], 'update')
        o = ctx_arg(e, st, a[0])
        if o is None or not buffer_is(e, st, 'data', a[1], a[2]):
            return [f]
        note(st, 'update', o)
        return [(st, ONE), f]
    return h


def c_ctx_finalize(alg):
    def h(e, st, a):
        e.check(st, boolean(alg == e.P['alg']), 'post', 'the function of its own algorithm is called')
        f = lib_fail(e, st, a[3], 'finalize')
        o = ctx_arg(e, st, a[0])
        if o is None:
            return [f]
        note(st, 'finalize', o)
        if not digest_to(e, st, a[1], a[2], alg, 'libhmac_%s_finalize' % alg):
            f[0].ghost['fails'] = st.ghost['fails']
            return [f]
        return [(st, ONE), f]
    return h


def c_free_error(e, st, a):
    p = a[0]
    if isinstance(p, Ptr):
        v = e.peek(st, p.o, p.off, 8)
        if isinstance(v, Ptr):
            e.check(st, boolean(st.mem[v.o].live), 'memory', 'libcerror_error_free: the error is live')
    return c_error_free(e, st, a)


def contracts():
    c = dict(BASE)
    c.update({
        '_PyArg_ParseTupleAndKeywords_SizeT': c_parse, 'PyArg_ParseTupleAndKeywords': c_parse, 'PyErr_Clear': c_clear, 'PyErr_Occurred': c_occurred,
        'PyErr_Format': c_format(1, 'PyErr_Format'), 'PyErr_SetString': c_setstring, 'PyErr_NoMemory': lambda e, st, a: (c_setstring(e, st, a)[0][0], Z)[1],
        'PyObject_IsInstance': c_isinstance, 'PyBytes_AsString': c_asstring, 'PyBytes_Size': c_size, 'PyBytes_AsStringAndSize': c_asboth,
        'PyBytes_GET_SIZE': unchecked(c_size, 'PyBytes_GET_SIZE'), 'PyBytes_AS_STRING': unchecked(c_asstring, 'PyBytes_AS_STRING'), 'strlen': c_strlen_b,
        'Py_TYPE': c_type, 'PyType_HasFeature': c_feature, 'PyBytes_FromStringAndSize': c_from, 'Py_IncRef': c_incref, 'Py_DecRef': c_decref,
        'Py_INCREF': c_incref, 'Py_DECREF': c_decref, 'Py_XINCREF': c_incref, 'Py_XDECREF': c_decref, '_Py_NewRef': c_newref, 'Py_NewRef': c_newref,
        'PyEval_SaveThread': c_save, 'PyEval_RestoreThread': c_restore, '_PyObject_New': c_objnew, 'vt_tp_free': c_tpfree, 'PyObject_Free': c_tpfree,
        'libcerror_error_free': c_free_error, 'pyhmac_error_raise': c_format(2, 'pyhmac_error_raise'),
        'pyhmac_error_fetch_and_raise': c_format(1, 'pyhmac_error_fetch_and_raise'),
    })
    for a in ALGS:
        c['libhmac_%s_calculate' % a] = c_calculate(a, False)
        c['libhmac_%s_calculate_hmac' % a] = c_calculate(a, True)
        c['libhmac_%s_initialize' % a] = c_ctx_initialize(a)
        c['libhmac_%s_free' % a] = c_ctx_free(a)
        c['libhmac_%s_update' % a] = c_ctx_update(a)
        c['libhmac_%s_finalize' % a] = c_ctx_finalize(a)
    return c


# ------------------------------------------------------------------ units
def start(alg, name, variant, deadline, keyed=False, names=('data',)):
    mod = compile_py(name, variant)
    e = BEngine(mod, contracts(), deadline)
    e.obj, e.types = {}, {}
    st = State()
    begin(st)
    e.P = dict(alg=alg, keyed=keyed, names=list(names), obj={}, type='pyhmac_%s_context_type_object' % alg)
    for n in ('args', 'keywords'):
        e.P[n] = e.new(st, 16, 'pyobj', n, ('sym', n))
    for n in ('key', 'data'):
        size = var('size_' + n, 64)
        st.assume(ult(size, SSIZE))
        e.P['obj'][n] = new_object(e, st, n, False, var(n + '_is_bytes', 1), size)
    return mod, e, st


def balanced(e, s, name, r=None):
    """References, errors and the GIL at return; r is the object returned."""
    t = name + ': '
    want = {r: 1} if r else {}
    rc = {o: n for o, n in s.ghost['rc'].items() if n}
    none = '@_Py_NoneStruct'
    if r == none and none not in rc and immortal():
        rc[none] = 1                     # None is immortal: whether it is counted does not matter
    e.check(s, boolean(rc == want), 'leak', t + 'every reference is released, but for the one returned')
    e.check(s, boolean(not any(m.live and m.kind == 'error' for m in s.mem.values())), 'leak', t + 'the error is released')
    e.check(s, boolean(s.ghost['gil']), 'post', t + 'returns with the GIL held')


def result(e, s, r, name):
    """The object returned, or None; an exception is set if and only if NULL is returned."""
    if isinstance(r, Ptr) and r.nul is FALSE:
        ok = r.off is Z and s.mem[r.o].live
        e.check(s, boolean(ok), 'memory', name + ': the object returned is live')
        e.check(s, boolean(not s.ghost['exc']), 'post', name + ': no exception is set on success')
        e.covered.add(name + ': success path')
        balanced(e, s, name, r.o)
        return r.o
    e.check(s, boolean(null(r)), 'memory', name + ': returns an object or NULL')
    e.check(s, boolean(s.ghost['exc']), 'post', name + ': an exception is set when NULL is returned')
    e.covered.add(name + ': failure path')
    balanced(e, s, name)
    return None


def is_digest(e, s, o, name):
    d = e.obj.get(o)
    g = s.ghost.get('digest')
    ok = d is not None and g is not None and isc(d['size']) and d['size'].a == len(g)
    e.check(s, boolean(ok), 'post', name + ': returns a bytes object of the size of the digest')
    if ok:
        for i, b in enumerate(g):
            e.check(s, eq(s.mem[d['buf']].byte(K(i)), b), 'post', name + ': returns the digest (byte %d)' % i)


def b_calculate(alg, variant='builtin', deadline=None):
    return calculate(alg, False, variant, deadline)


def b_hmac(alg, variant='builtin', deadline=None):
    return calculate(alg, True, variant, deadline)


def calculate(alg, keyed, variant, deadline):
    name = 'pyhmac_%s_calculate%s' % (alg, '_hmac' if keyed else '')
    names = ['key', 'data'] if keyed else ['data']
    mod, e, st = start(alg, 'pyhmac_' + alg, variant, deadline, keyed, names)
    self = e.new(st, 16, 'pyobj', 'module', ('sym', 'module'))
    allb = ands([e.obj[e.P['obj'][n]]['isb'] for n in names])
    for s, r in e.run(name, st, [Ptr(self, Z), Ptr(e.P['args'], Z), Ptr(e.P['keywords'], Z)]):
        o = result(e, s, r, name)
        if o is not None:
            e.check(s, boolean(len(did(s, 'calculate')) == 1), 'post', name + ': the digest is calculated once')
            is_digest(e, s, o, name)
        elif not s.ghost['fails'] and not s.ghost.get('refused'):
            e.check(s, bnot(allb), 'post', name + ': fails only when an argument is not a bytes object or something fails')
    return e


def context_setup(alg, variant, deadline, names=()):
    mod, e, st = start(alg, 'pyhmac_%s_context' % alg, variant, deadline, names=names)
    t = mod.types.get('%%struct.pyhmac_%s_context' % alg)
    if t is None:
        raise Unsupported('object structure of %s' % alg)
    e.P['osize'] = mod.size(t)
    fs = [mod.field(t, i) for i in range(len(t.fields))]
    ps = [o for o, ft in fs if ft.kind == 'ptr']
    if len(ps) != 1 or fs[0][1].kind != 'struct':
        raise Unsupported('object structure of %s has another shape' % alg)
    e.P['field'] = ps[0]
    return mod, e, st


def an_object(e, st, has):
    o = e.new(st, e.P['osize'], 'heap', 'self', ('sym', 'SELF'))
    e.P['self'] = o
    c = None
    if has:
        c = e.new(st, 8, 'heap', 'context', ('sym', 'CTX0'))
        st.mem[c].tag = 'ctx'
    st.mem[o].put(K(e.P['field']), Ptr(c, Z) if has else Z, 8)
    return o, c


def field(e, s, o):
    v = e.peek(s, o, K(e.P['field']), 8)
    if null(v):
        return None
    return v.o if isinstance(v, Ptr) and v.nul is FALSE and v.off is Z else '?'


def contexts_live(s):
    return {o for o, m in s.mem.items() if m.tag == 'ctx' and m.live}


def sole(e, s, o, name):
    """The object owns its context if it has one, and there is no other."""
    f = field(e, s, o)
    e.check(s, boolean(contexts_live(s) == ({f} if f else set())), 'leak', name + ': the context of the object is live and there is no other')
    return f


def b_init(alg, variant='builtin', deadline=None):
    name = 'pyhmac_%s_context_init' % alg
    mod, e, st0 = context_setup(alg, variant, deadline)
    for has in (False, True):
        st = st0.clone()
        o, c = an_object(e, st, has)
        for s, r in e.run(name, st, [Ptr(o, Z)]):
            zero = eq(r, K(0, 32))
            fl = bool(s.ghost['fails'])
            e.check(s, eq(r, K(-1 if fl else 0, 32)), 'post', name + ': returns 0, or -1 if something fails')
            e.check(s, boolean(s.ghost['exc'] == fl), 'post', name + ': an exception is set if and only if -1 is returned')
            balanced(e, s, name)
            f = sole(e, s, o, name)
            if not fl:
                e.covered.add(name + ': success path')
                i = did(s, 'initialize')
                e.check(s, boolean(len(i) == 1 and f == i[0][1]), 'post', name + ': the object has a new context')
    return e


def b_new(alg, variant='builtin', deadline=None):
    name = 'pyhmac_%s_context_new' % alg
    mod, e, st = context_setup(alg, variant, deadline)
    if name not in mod.funcs:
        raise Unsupported(name)
    for s, r in e.run(name, st, []):
        o = result(e, s, r, name)
        if o is not None:
            f = sole(e, s, o, name)
            e.check(s, boolean(f is not None), 'post', name + ': the object has a context')
        else:
            e.check(s, boolean(bool(s.ghost['fails'])), 'post', name + ': fails only when something fails')
            e.check(s, boolean(not contexts_live(s) and not any(s.mem[x].live for x in e.P.get('contexts', ()) if x in s.mem)), 'leak', name + ': the object is released on failure')
    return e


def b_free(alg, variant='builtin', deadline=None):
    name = 'pyhmac_%s_context_free' % alg
    mod, e, st0 = context_setup(alg, variant, deadline)
    for has in (False, True):
        for exc in (False, True):
            st = st0.clone()
            st.ghost['exc'] = exc
            o, c = an_object(e, st, has)
            for s, r in e.run(name, st, [Ptr(o, Z)]):
                e.covered.add(name + ': success path')
                e.check(s, boolean(not s.mem[o].live), 'leak', name + ': the object is released')
                e.check(s, boolean(not contexts_live(s)), 'leak', name + ': the context is released')
                e.check(s, boolean(s.ghost['exc'] == exc), 'post', name + ': the pending exception stays what it is')
                balanced(e, s, name)
    return e


def b_update(alg, variant='builtin', deadline=None):
    name = 'pyhmac_%s_context_update' % alg
    mod, e, st0 = context_setup(alg, variant, deadline, ['data'])
    isb = e.obj[e.P['obj']['data']]['isb']
    for has in (False, True):
        st = st0.clone()
        o, c = an_object(e, st, has)
        for s, r in e.run(name, st, [Ptr(o, Z), Ptr(e.P['args'], Z), Ptr(e.P['keywords'], Z)]):
            x = result(e, s, r, name)
            e.check(s, boolean(sole(e, s, o, name) == c and s.mem[o].live), 'frame', name + ': the object keeps its context')
            if x is not None:
                e.check(s, boolean(x == '@_Py_NoneStruct'), 'post', name + ': returns None')
                e.check(s, boolean([u[1] for u in did(s, 'update')] == [c]), 'post', name + ': the context is updated once')
            elif not s.ghost['fails'] and not s.ghost.get('refused'):
                e.check(s, bnot(isb), 'post', name + ': fails only when the argument is not a bytes object or something fails')
    return e


def b_finalize(alg, variant='builtin', deadline=None):
    name = 'pyhmac_%s_context_finalize' % alg
    mod, e, st0 = context_setup(alg, variant, deadline)
    for has in (False, True):
        st = st0.clone()
        o, c = an_object(e, st, has)
        for s, r in e.run(name, st, [Ptr(o, Z), Z]):
            x = result(e, s, r, name)
            e.check(s, boolean(sole(e, s, o, name) == c and s.mem[o].live), 'frame', name + ': the object keeps its context')
            if x is not None:
                e.check(s, boolean([u[1] for u in did(s, 'finalize')] == [c]), 'post', name + ': the context is finalized once')
                is_digest(e, s, x, name)
            else:
                e.check(s, boolean(bool(s.ghost['fails'])), 'post', name + ': fails only when something fails')
    return e


# ------------------------------------------------------------------ errors
class StrLoop(Cands):
    """The terminators of the strings stay where they are."""

    def cands(s, e, st):
        return [('string %s is terminated' % st.mem[o].name, eq(e.peek(st, o, at, 1), K(0, 8))) for o, at in st.ghost['str'].items() if o in st.mem and st.mem[o].live]


def c_vsnprintf(e, st, a):
    """At most size - 1 characters and the end of string; any count."""
    gil(e, st, 'PyOS_vsnprintf')
    p, n = a[0], a[1]
    e.access(st, p, n, 'memory', 'PyOS_vsnprintf')
    e.check(st, bnot(nullness(a[2])) if isinstance(a[2], Ptr) else FALSE, 'memory', 'PyOS_vsnprintf: format is not NULL')
    e.check(st, boolean(bool(st.ghost.get('va'))), 'pre', 'PyOS_vsnprintf: the argument list is started')
    text_into(e, st, p, n)
    return [(st, fresh('print_count', 32))]


def text_into(e, st, p, n):
    at = fresh('nul_at', 64)
    st.assume(ult(at, n))
    if p.off is not Z:
        raise Unsupported('string inside a buffer')
    e.note_write(p.o, p.off, n)
    st.w(p.o).havoc(p.off, n, 'text_%d' % e.oid)
    e.oid += 1
    st.w(p.o).put(at, K(0, 8), 1)
    terminated(st, p.o, at)


def c_strlen_b(e, st, a):
    p = a[0]
    ok = isinstance(p, Ptr) and st.mem[p.o].live
    e.check(st, boolean(ok), 'memory', 'strlen: string is valid')
    if not ok:
        raise Stop()
    if p.o not in st.ghost['str'] and st.mem[p.o].kind in ('global', 'extern'):
        return [(st, K(len(text_of(e, st, p))))]
    at = st.ghost['str'].get(p.o)
    e.check(st, FALSE if at is None else band(ule(p.off, at), eq(e.peek(st, p.o, at, 1), K(0, 8))), 'memory', 'strlen: string is terminated')
    if at is None:
        raise Stop()
    n = fresh('strlen', 64)
    st.assume(ule(n, sub(at, p.off)))
    st.assume(eq(e.peek(st, p.o, add(p.off, n), 1), K(0, 8)))
    st.ghost['len'] = (p.o, n)
    return [(st, n)]


def c_va(start):
    def h(e, st, a):
        st.ghost['va'] = start
        return [(st, None)]
    return h


def c_sprint(e, st, a):
    """-1, or the number of characters of the terminated string."""
    ok = isinstance(a[0], Ptr)
    e.check(st, bnot(a[0].nul) if ok else FALSE, 'memory', 'libcerror_error_backtrace_sprint: error is not NULL')
    e.access(st, a[1], a[2], 'memory', 'libcerror_error_backtrace_sprint')
    t = st.clone()
    e.note_write(a[1].o, a[1].off, a[2])
    t.w(a[1].o).havoc(a[1].off, a[2], 'untold_%d' % e.oid)
    text_into(e, st, a[1], a[2])
    n = fresh('sprint', 32)
    st.assume(bnot(slt(n, K(0, 32))))
    return [(st, n), (t, K(-1, 32))]


def c_fetch(e, st, a):
    gil(e, st, 'PyErr_Fetch')
    outs = []
    for v in (True, False) if st.ghost['exc'] else (False,):
        for tb in (True, False) if st.ghost['exc'] else (False,):
            t = st.clone()
            for p, on, n in ((a[0], st.ghost['exc'], 'type'), (a[1], v, 'value'), (a[2], tb, 'traceback')):
                e.store(t, p, Ptr(new_object(e, t, 'exception ' + n, True, FALSE, K(0)), Z) if on else Z, 8)
            t.ghost['exc'] = False
            outs.append((t, None))
    return outs


def c_give(what, take_null=True):
    """Returns a new object (a string or bytes), or NULL with an exception."""
    def h(e, st, a):
        quiet(e, st, what) if what != 'PyUnicode_AsUTF8String' else gil(e, st, what)
        f = fail(st, what)
        if null(a[0]):
            e.check(st, boolean(take_null), 'memory', what + ': object is valid')
            if not take_null:
                raise Stop()
        else:
            obj(e, st, a[0], what)
        n = fresh('string_size', 64)
        st.assume(ult(n, SSIZE))
        return [(st, Ptr(new_object(e, st, 'string', True, boolean(what == 'PyUnicode_AsUTF8String'), n), Z)), (f, Z)]
    return h


def b_error(name, variant='builtin', deadline=None):
    """The three functions that raise exceptions with a formatted text."""
    def build(dropped):
        mod = compile_py('pyhmac_error', variant)
        c = contracts()
        for x in ('pyhmac_error_raise', 'pyhmac_error_fetch_and_raise'):
            c.pop(x)
        c.update({'PyOS_vsnprintf': c_vsnprintf, 'strlen': c_strlen_b, 'llvm.va_start': c_va(True), 'llvm.va_end': c_va(False), 'libcerror_error_backtrace_sprint': c_sprint,
                  'PyErr_Fetch': c_fetch, 'PyObject_Repr': c_give('PyObject_Repr'), 'PyObject_Str': c_give('PyObject_Str'), 'PyUnicode_AsUTF8String': c_give('PyUnicode_AsUTF8String', False)})
        e = BEngine(mod, c, deadline)
        e.dropped = dropped
        e.loopspecs = Anything(StrLoop)
        e.obj, e.types, e.P = {}, {}, {}
        st = State()
        begin(st, exc=name != 'pyhmac_error_raise')
        fmt = e.new(st, var('format_size', 64), 'global', 'format', ('sym', 'FMT'), True)
        kind = e.new(st, 16, 'pyobj', 'exception class', ('sym', 'XC'))
        err = e.new(st, 8, 'param', 'error', ('sym', 'ERR'))
        slot = e.new(st, 8, 'errslot', 'errslot', ('zero',))
        ep = Ptr(err, Z, var('no_error', 1))
        f = Ptr(fmt, Z, var('no_format', 1))
        args = {'pyhmac_error_raise': [ep, Ptr(kind, Z), f], 'pyhmac_error_fetch_and_raise': [Ptr(kind, Z), f], 'pyhmac_error_fetch': [Ptr(slot, Z), K(0, 32), K(0, 32), f]}[name]
        for s, r in e.run(name, st, args):
            e.covered.add(name + ': success path')
            rc = {o: n for o, n in s.ghost['rc'].items() if n}
            e.check(s, boolean(not rc), 'leak', name + ': every reference is released')
            e.check(s, boolean(s.ghost['gil']), 'post', name + ': returns with the GIL held')
            e.check(s, boolean(not s.ghost.get('va')), 'post', name + ': the argument list is ended')
            if name == 'pyhmac_error_fetch':
                e.check(s, boolean(s.ghost['exc'] or bool(s.ghost.get('errors'))), 'post', name + ': an error or exception is set')
            else:
                e.check(s, boolean(s.ghost['exc']), 'post', name + ': an exception is set')
            if ep.nul is not FALSE and name == 'pyhmac_error_raise':
                e.check(s, boolean(s.mem[err].live), 'frame', name + ': the error is left to the caller')
        return e
    return houdini(build)


# ------------------------------------------------------------------ module
def c_version(e, st, a):
    n = var('version_length', 64)
    st.assume(ult(n, SSIZE))
    if 'version' not in e.P:
        e.P['version'] = e.new(st, add(n, K(1)), 'global', 'version', ('sym', 'VERSION'), True)
        e.P['vlen'] = n
    return [(st, Ptr(e.P['version'], Z))]


def c_decode(e, st, a):
    gil(e, st, 'PyUnicode_DecodeUTF8')
    e.check(st, band(boolean(isinstance(a[0], Ptr) and a[0].o == e.P.get('version') and a[0].off is Z), eq(a[1], e.P.get('vlen', Z))), 'post', 'pyhmac_get_version: the text is the version of the library')
    f = fail(st, 'decode')
    return [(st, Ptr(new_object(e, st, 'string', True), Z)), (f, Z)]


def c_version_len(e, st, a):
    ok = isinstance(a[0], Ptr) and a[0].o == e.P.get('version') and a[0].off is Z
    e.check(st, boolean(ok), 'memory', 'strlen: string is valid')
    if not ok:
        raise Stop()
    return [(st, e.P['vlen'])]


def b_version(variant='builtin', deadline=None):
    name = 'pyhmac_get_version'
    mod, e, st = start('md5', 'pyhmac', variant, deadline)
    e.contracts.update({'libhmac_get_version': c_version, 'PyUnicode_DecodeUTF8': c_decode, 'strlen': c_version_len})
    e.contracts['PyUnicode_FromStringAndSize'] = lambda e, st, a: c_decode(e, st, a)
    for s, r in e.run(name, st, [Ptr(e.P['args'], Z), Z]):
        if result(e, s, r, name) is None:
            e.check(s, boolean(bool(s.ghost['fails'])), 'post', name + ': fails only when something fails')
    return e


def methods(e, st, p):
    """The entries of a PyMethodDef table: (name, function, flags)."""
    r = []
    while len(r) < 64:
        b = add(p.off, K(32 * len(r)))
        n = e.peek(st, p.o, b, 8)
        if null(n):
            return r
        f = e.peek(st, p.o, add(b, K(8)), 8)
        fl = e.peek(st, p.o, add(b, K(16)), 4)
        r.append((text_of(e, st, n), f.name if isinstance(f, Fn) else None, fl.a if isc(fl) else None))
    raise Unsupported('method table')


def c_module(e, st, a):
    quiet(e, st, 'PyModule_Create2')
    p = a[0]
    name = e.peek(st, p.o, add(p.off, K(40)), 8)
    e.check(st, boolean(isinstance(name, Ptr) and text_of(e, st, name) == 'pyhmac'), 'post', 'the module is pyhmac')
    t = e.peek(st, p.o, add(p.off, K(64)), 8)
    got = {n: (f, fl) for n, f, fl in methods(e, st, t)} if isinstance(t, Ptr) else {}
    want = {'get_version': ('pyhmac_get_version', NOARGS)}
    for g in ALGS:
        for x in ('calculate', 'calculate_hmac'):
            want['%s_%s' % (g, x)] = ('pyhmac_%s_%s' % (g, x), METHODS)
    for n, w in want.items():
        e.check(st, boolean(got.get(n) == w), 'post', 'the module function %s is its implementation' % n)
    f = fail(st, 'module')
    return [(st, Ptr(new_object(e, st, 'module', True), Z)), (f, Z)]


def c_ensure(e, st, a):
    st.ghost['ensured'] = st.ghost.get('ensured', 0) + 1
    st.ghost['gs'] = g = fresh('gil_state', 32)
    return [(st, g)]


def c_release(e, st, a):
    e.check(st, boolean(st.ghost.get('ensured', 0) == 1 and a[0] is st.ghost.get('gs')), 'pre', 'PyGILState_Release gets the state of PyGILState_Ensure')
    st.ghost['ensured'] = st.ghost.get('ensured', 0) - 1
    return [(st, None)]


def c_ready(e, st, a):
    quiet(e, st, 'PyType_Ready')
    ok = isinstance(a[0], Ptr) and a[0].off is Z
    e.check(st, boolean(ok), 'memory', 'PyType_Ready: the type')
    if not ok:
        raise Stop()
    v = e.peek(st, a[0].o, K(TP['new']), 8)
    e.check(st, boolean(isinstance(v, Fn) and v.name == 'PyType_GenericNew'), 'post', 'instances of the type can be created')
    f = fail(st, 'ready')
    note(st, 'ready', a[0].o)
    return [(st, K(0, 32)), (f, K(-1, 32))]


def c_add(steals):
    def h(e, st, a):
        quiet(e, st, 'PyModule_AddObject')
        obj(e, st, a[0], 'PyModule_AddObject')
        ok = isinstance(a[2], Ptr) and a[2].off is Z
        e.check(st, boolean(ok), 'memory', 'PyModule_AddObject: the object')
        if not ok:
            raise Stop()
        o = a[2].o
        e.check(st, boolean(('ready', o) in st.ghost['ev']), 'pre', 'PyModule_AddObject: the type is ready')
        f = fail(st, 'add')
        if steals:
            e.check(st, boolean(st.ghost['rc'].get(o, 0) >= 1), 'memory', 'PyModule_AddObject: the reference it takes is owned')
            ref(st, o, -1)
        note(st, 'add', text_of(e, st, a[1]), o)
        return [(st, K(0, 32)), (f, K(-1, 32))]
    return h


def b_module(variant='builtin', deadline=None):
    name = 'PyInit_pyhmac'
    mods = [compile_py('pyhmac_%s_context' % a, variant) for a in ALGS]
    mod = compile_py('pyhmac', variant)
    c = contracts()
    c.update({'PyModule_Create2': c_module, 'PyGILState_Ensure': c_ensure, 'PyGILState_Release': c_release, 'PyType_Ready': c_ready, 'PyModule_AddObject': c_add(True), 'PyModule_AddObjectRef': c_add(False), 'PyEval_InitThreads': c_va(False)})
    e = BEngine(mod, c, deadline, mods=mods)
    e.obj, e.types = {}, {}
    st = State()
    begin(st)
    e.P = dict(alg=None)
    types = {}
    for a, m in zip(ALGS, mods):
        n = 'pyhmac_%s_context_type_object' % a
        o = types[a + '_context'] = e.glob(st, n, mod)
        st.mem[o].kind = 'state'
    for s, r in e.run(name, st, []):
        o = result(e, s, r, name)
        e.check(s, boolean(not s.ghost.get('ensured')), 'post', name + ': the GIL state is released')
        if o is not None:
            got = {x[1]: x[2] for x in did(s, 'add')}
            for n, t in types.items():
                e.check(s, boolean(got.get(n) == t), 'post', name + ': the module has the type %s' % n)
        else:
            e.check(s, boolean(bool(s.ghost['fails'])), 'post', name + ': fails only when something fails')
    # the slots of the types
    for a, m in zip(ALGS, mods):
        o = types[a + '_context']
        n = 'pyhmac_%s_context' % a

        def slot(k):
            v = e.peek(st, o, K(TP[k]), 8)
            return v.name if isinstance(v, Fn) else v
        nm = slot('name')
        e.check(st, boolean(isinstance(nm, Ptr) and text_of(e, st, nm) == 'pyhmac.%s_context' % a), 'post', n + ': name of the type')
        e.check(st, boolean(slot('init') == n + '_init'), 'post', n + ': __init__ is its implementation')
        e.check(st, boolean(slot('dealloc') == n + '_free'), 'post', n + ': objects are released by its implementation')
        bs = slot('basicsize')
        t = m.types.get('%struct.' + n)
        e.check(st, boolean(t is not None and isc(bs) and bs.a >= m.size(t)), 'memory', n + ': objects have room for the structure')
        mt = slot('methods')
        got = {x: (f, fl) for x, f, fl in methods(e, st, mt)} if isinstance(mt, Ptr) else {}
        e.check(st, boolean(got.get('update') == (n + '_update', METHODS)), 'post', n + ': update is its implementation')
        e.check(st, boolean(got.get('finalize') == (n + '_finalize', NOARGS)), 'post', n + ': finalize is its implementation')
    return e
