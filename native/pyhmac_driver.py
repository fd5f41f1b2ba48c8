"""Drives the compiled pyhmac module; prints FAIL lines and, at the end, DONE <executions>."""
import ctypes
import gc
import hashlib
import hmac
import random
import sys
import weakref

sys.path.insert(0, sys.argv[1])
seed, deep = int(sys.argv[2]), sys.argv[3] == '1'
import pyhmac
L = ctypes.PyDLL(pyhmac.__file__)
L.vt_fail.argtypes = [ctypes.c_char_p, ctypes.c_int]
L.vt_count.restype = ctypes.c_long
rnd = random.Random(seed)
ALGS = {'md5': 64, 'sha1': 64, 'sha224': 64, 'sha256': 64, 'sha512': 128}
done = fails = 0


def case(what):
    global done
    done += 1
    print('CASE', what, flush=True)


def bad(what, got, want):
    global fails
    fails += 1
    print('FAIL %s\t%s\t%s' % (what, str(got)[:400].replace('\n', ' '), str(want)[:400].replace('\n', ' ')), flush=True)
    if fails > 8:
        print('DONE', done, flush=True)
        sys.exit(0)


def fault(what='', n=0):
    L.vt_fail(what.encode(), n)


def data(n):
    return bytes(rnd.randrange(256) for _ in range(n))


def no_exception(what):
    """No exception is left pending."""
    try:
        len('')
        compile('1', 'x', 'eval')
    except BaseException as x:
        bad(what + ': leaves an exception', repr(x), 'none')


def run(what, f, *a, fail=None, nth=0, nones=None, **k):
    """(result, exception) of a call after which no native memory, error or argument reference may be kept."""
    case(what)
    args = list(a) + list(k.values())
    before = [sys.getrefcount(x) for x in args]
    live, err = L.vt_count(0), L.vt_count(3)
    L.vt_reset()
    r = x = None
    fault(fail or '', nth)
    try:
        r = f(*a, **k)
    except Exception as y:
        x = y
        y.__traceback__ = None
        if isinstance(y, SystemError):
            bad(what + ': breaks the protocol of the interpreter', repr(y), 'a result or an exception')
    fault()
    if L.vt_count(3) != err:
        bad(what + ': keeps or over-releases an error of the library', L.vt_count(3) - err, 0)
    if L.vt_count(0) != live and not isinstance(r, tuple(TYPES.values())):
        bad(what + ': keeps memory of the library', L.vt_count(0) - live, 0)
    nn = L.vt_count(1)
    if nn > (nones if nones is not None else 1 if r is None and x is None else 0):
        bad(what + ': references to None', nn, 'at most those returned')
    after = [sys.getrefcount(y) for y in args]
    if after != before:
        bad(what + ': references to the arguments', after, before)
    no_exception(what)
    return r, x


def grows(what, f, n=120):
    """Repeated calls do not leave objects behind."""
    for _ in range(3):
        f()
    gc.collect()
    a = sys.getallocatedblocks()
    for _ in range(n):
        f()
    gc.collect()
    d = sys.getallocatedblocks() - a
    if d >= n // 2:
        bad(what + ': objects left by %d calls' % n, d, 0)


class B(bytes):
    pass


class Liar:
    __class__ = bytes


class Refuses:
    @property
    def __class__(self):
        raise ValueError('refused')


class RefusesBadly:
    @property
    def __class__(self):
        class X(Exception):
            def __repr__(self):
                raise ValueError('no repr')

            def __str__(self):
                raise ValueError('no str')
        raise X()


class RefusesWide:
    @property
    def __class__(self):
        raise ValueError('\udc80 %s %n \u1234' * 400)


def odd():
    return ['text', None, 5, bytearray(b'abc'), memoryview(b'abc'), [b'a'], (b'a',), object(), Liar(), Refuses(), RefusesBadly(), RefusesWide(), bytes]


def raises(what, x, r):
    if x is None:
        bad(what + ': is not refused', repr(r), 'an exception')


TYPES = {}
for a in ALGS:
    case('names ' + a)
    for n in ('_calculate', '_calculate_hmac', '_context'):
        if not hasattr(pyhmac, a + n):
            bad('the module has no ' + a + n, '', '')
    TYPES[a] = getattr(pyhmac, a + '_context')
    for n in ('update', 'finalize'):
        if not hasattr(TYPES[a], n):
            bad('%s_context has no %s' % (a, n), '', '')
case('version')
v = pyhmac.get_version()
if v != sys.argv[4]:
    bad('get_version()', repr(v), repr(sys.argv[4]))
grows('get_version', pyhmac.get_version)

for a, Bk in ALGS.items():
    calc, mac, T = getattr(pyhmac, a + '_calculate'), getattr(pyhmac, a + '_calculate_hmac'), TYPES[a]
    D = lambda m: hashlib.new(a, m).digest()
    M = lambda k, m: hmac.new(k, m, a).digest()
    sizes = sorted({0, 1, 2, Bk - 17, Bk - 9, Bk - 8, Bk - 1, Bk, Bk + 1, 2 * Bk, 3 * Bk + 5, 1000} | ({70000, 1 << 20} if deep else {5000}))
    for n in sizes:
        m = data(n)
        for what, f, args, kw, want in ((a + '_calculate(%d bytes)', calc, (m,), {}, D(m)), (a + '_calculate(data=%d bytes)', calc, (), dict(data=m), D(m)),
                                        (a + '_calculate(subclass of bytes, %d)', calc, (B(m),), {}, D(m))):
            r, x = run(what % n, f, *args, **kw)
            if x is not None or type(r) is not bytes or r != want:
                bad(what % n, repr(x) if x else r, want)
        for kn in (0, 1, 7, Bk - 1, Bk, Bk + 1, 2 * Bk + 3):
            k = data(kn)
            form = rnd.randrange(3)
            r, x = run('%s_calculate_hmac(%d, %d, form %d)' % (a, kn, n, form), mac, *((k, m) if form == 0 else (B(k),) if form == 1 else ()), **({} if form == 0 else dict(data=m) if form == 1 else dict(data=m, key=k)))
            if x is not None or type(r) is not bytes or r != M(k, m):
                bad('%s_calculate_hmac(key of %d, data of %d)' % (a, kn, n), repr(x) if x else r, M(k, m))
    for m in (bytes(1), bytes(200), bytes(5000), b'\xff' * 5000, b'%s\n\0' * 1500, b'a' + bytes(5000)):
        c = T()
        c.update(m)
        for what, got, want in (('_context', c.finalize(), D(m)), ('_calculate', calc(m), D(m)), ('_calculate_hmac', mac(m[:7], m), M(m[:7], m)), ('_calculate_hmac', mac(m, m), M(m, m))):
            case(a + what + '(%r... of %d)' % (m[:3], len(m)))
            if got != want:
                bad(a + what + '(%r... of %d)' % (m[:3], len(m)), got, want)
    for _ in range(40 if deep else 8):
        parts = [data(rnd.choice([0, 1, 5, Bk - 1, Bk, Bk + 1, rnd.randrange(300)])) for _ in range(rnd.randrange(6))]
        c = T()
        d = T()
        for i, p in enumerate(parts):
            r, x = run('%s_context.update(%d)' % (a, len(p)), c.update, *((p,) if i % 2 else ()), **({} if i % 2 else dict(data=p)))
            if x is not None or r is not None:
                bad('%s_context.update(%d bytes)' % (a, len(p)), x or r, None)
            d.update(p[::-1])
        r, x = run(a + '_context.finalize()', c.finalize)
        if x is not None or type(r) is not bytes or r != D(b''.join(parts)):
            bad('%s_context of %s' % (a, [len(p) for p in parts]), repr(x) if x else r, D(b''.join(parts)))
        r = d.finalize()
        if r != D(b''.join(p[::-1] for p in parts)):
            bad('a second %s_context' % a, r, D(b''.join(p[::-1] for p in parts)))
        del c, d
    if L.vt_count(0):
        bad(a + '_context: contexts left', L.vt_count(0), 0)
    # what is refused
    for o in odd():
        t = type(o).__name__
        for what, f, args in ((a + '_calculate(%s)', calc, (o,)), (a + '_calculate_hmac(key, %s)', mac, (b'key', o)), (a + '_calculate_hmac(%s, data)', mac, (o, b'data')), (a + '_context.update(%s)', T().update, (o,))):
            r, x = run(what % t, f, *args)
            raises(what % t, x, r)

            def again():
                try:
                    f(*args)
                except Exception:
                    pass
            grows(what % t, again)
    c = T()
    for what, f, args in (('_calculate()', calc, ()), ('_calculate(b, b)', calc, (b'', b'')), ('_calculate_hmac(b)', mac, (b'',)), ('_calculate_hmac()', mac, ()), ('_context.update()', c.update, ())):
        r, x = run(a + what, f, *args)
        raises(a + what, x, r)
        if x is not None and not isinstance(x, TypeError):
            bad(a + what, repr(x), 'TypeError')
    for kw in (dict(), dict(bytes=b''), dict(data=b'', more=b'')):
        r, x = run('%s_calculate(%s)' % (a, kw), calc, **kw)
        raises('%s_calculate(%s)' % (a, kw), x, r)
    for what, f in (('_calculate', lambda: calc(b'abc')), ('_calculate_hmac', lambda: mac(b'k', b'abc')), ('_context', lambda: T().finalize()), ('_context.update', lambda: c.update(b'ab'))):
        grows(a + what, f)
    del c
    # the life of a context
    case(a + '_context initialized twice')
    live = L.vt_count(0)
    c = T()
    one = L.vt_count(0) - live
    c.update(b'abc')
    c.__init__()
    if L.vt_count(0) - live != one:
        bad(a + '_context initialized twice: contexts', (L.vt_count(0) - live) / max(one, 1), 1)
    c.update(b'def')
    if c.finalize() != D(b'def'):
        bad(a + '_context initialized twice', 'another digest', D(b'def'))
    for k in range(1, 4):
        fault('malloc', k)
        try:
            c.__init__()
        except Exception as x:
            del x
        fault()
        case(a + '_context used after a failed __init__')
        try:
            c.update(b'x')
            c.finalize()
        except SystemError as x:
            bad(a + '_context after a failed __init__', repr(x), 'an exception')
        except Exception:
            pass
    del c
    if L.vt_count(0) != live:
        bad(a + '_context initialized twice: contexts left', L.vt_count(0) - live, 0)
    case(a + '_context never initialized')
    try:
        c = T.__new__(T)
        del c
        compile('1', 'x', 'eval')
    except BaseException as x:
        bad(a + '_context never initialized: its release raises', repr(x), 'nothing')

    def neverinit():
        try:
            T.__new__(T)
        except BaseException:
            pass
    grows(a + '_context never initialized', neverinit)
    c = T.__new__(T)
    for what, f, args in (('update', c.update, (b'abc',)), ('finalize', c.finalize, ())):
        r, x = run('%s_context.%s of a context never initialized' % (a, what), f, *args)
        raises('%s_context.%s of a context never initialized' % (a, what), x, r)
    del c, f
    no_exception('release')
    case(a + '_context released while an exception is handled')
    try:
        c = T()
        raise KeyError('k')
    except KeyError:
        del c
        no_exception(a + '_context released')
    if L.vt_count(0) != live:
        bad(a + '_context: contexts left', L.vt_count(0) - live, 0)

    # objects made from C
    new = getattr(L, 'pyhmac_%s_context_new' % a, None)
    if new is not None:
        new.argtypes, new.restype = [], ctypes.py_object
        for fn in ('', 'malloc', '_PyObject_New', 'libhmac_%s_initialize' % a):
            w = 'pyhmac_%s_context_new, failure of %s' % (a, fn or 'nothing')
            case(w)
            fault(fn, 1)
            x = c = None
            try:
                c = new()
            except Exception as y:
                x = repr(y)
            n = L.vt_seen()
            fault()
            if n and (x is None or 'is NULL' in x or 'SystemError' in x):
                bad(w, x or c, 'an exception')
            elif not n and (x is not None or type(c) is not T):
                bad(w, x or c, 'a context object')
            elif not n:
                c.update(b'abc')
                if c.finalize() != D(b'abc'):
                    bad(w, c.finalize(), D(b'abc'))
            c = None

            def again():
                fault(fn, 1)
                try:
                    new()
                except Exception:
                    pass
                fault()
            grows(w, again, 40)
            if L.vt_count(0) != live or L.vt_count(3):
                bad(w + ': memory of the library left', (L.vt_count(0) - live, L.vt_count(3)), 0)

    # failures
    def ctx(*parts):
        c = T()
        for p in parts:
            c.update(p)
        return c.finalize()

    def newc():
        T()
    one, two = data(20), data(Bk)
    uses = (('_calculate', calc, (two,), D(two)), ('_calculate_hmac', mac, (one, two), M(one, two)), ('_context', newc, (), None), ('_context', ctx, (one, two), D(one + two)))
    FN = ['malloc', 'PyBytes_FromStringAndSize', 'PyObject_IsInstance', '_PyObject_New'] + ['libhmac_%s_%s' % (a, x) for x in ('initialize', 'update', 'finalize', 'calculate', 'calculate_hmac')]
    for what, f, args, want in uses:
        for fn in FN:
            for k in range(1, 5):
                w = '%s%s, failure %d of %s' % (a, what, k, fn)
                r, x = run(w, f, *args, fail=fn, nth=k, nones=3 if f in (ctx, newc) else 0)
                hit = L.vt_seen() == 0
                fault(fn, k)
                try:
                    f(*args)
                except Exception:
                    pass
                n = L.vt_seen()
                fault()
                if n >= k:
                    raises(w, x, r)
                    if x is not None and not str(x):
                        bad(w + ': exception without a message', repr(x), 'a message')
                elif x is not None or r != want:
                    bad(w, x or r, want)

                def again():
                    fault(fn, k)
                    try:
                        f(*args)
                    except Exception:
                        pass
                    fault()
                if n >= k:
                    grows(w, again, 40)
    for o in (Refuses(), RefusesBadly()):
        for fn in ('PyObject_Repr', 'PyObject_Str', 'PyUnicode_AsUTF8String'):
            for k in (1, 2):
                w = '%s_calculate(%s), failure %d of %s' % (a, type(o).__name__, k, fn)
                r, x = run(w, calc, o, fail=fn, nth=k)
                raises(w, x, r)

                def again():
                    fault(fn, k)
                    try:
                        calc(o)
                    except Exception:
                        pass
                    fault()
                grows(w, again, 40)

# the functions that raise
L.vt_set_backtrace.argtypes = [ctypes.c_char_p]
L.vt_raise.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.py_object, ctypes.c_char_p, ctypes.c_char_p]


class NoText(Exception):
    def __repr__(self):
        raise ValueError('no repr')


for form, fname in enumerate(('pyhmac_error_fetch', 'pyhmac_error_fetch_and_raise', 'pyhmac_error_raise', 'pyhmac_error_raise with an error')):
    for e in (0, 1) if form < 2 else (0,):
        for val in (ValueError('x' * 3000), NoText(), KeyError('\udc80')):
            for f, arg in ((None, b''), (b'', b''), (b'%s.', b'f'), (b'%s', b'y' * 5000), (b'%s', b'.' * 5000), (b'%s', b'.' * 1023), (b'%s', b'.' * 2047), (b'.', b''), (b'%s: \xff', b'\n')):
                for fn, bt in (('', b'backtrace'), ('PyObject_Repr', b'backtrace'), ('PyUnicode_AsUTF8String', b'backtrace')) if form < 2 else [('', t) for t in (b'backtrace', b'', b'.', b'\n', b'a.\nb.', b'x' * 2047, b'x' * 2046 + b'.', b'\n' * 2047, b'x' * 5000)]:
                    w = '%s(%s), exception %s, backtrace %.6r' % (fname, f, (type(val).__name__ if e else 'none'), bt)
                    L.vt_set_backtrace(bt)
                    case(w)
                    err = L.vt_count(3)
                    fault(fn, 1)
                    r = L.vt_raise(form, e, val, f, arg)
                    fault()
                    want = (1, 2, 3) if form == 0 else (1,)
                    if r not in want and r != -2:
                        bad(w, r, want)
                    if L.vt_count(3) != err:
                        bad(w + ': errors', L.vt_count(3) - err, 0)

                    def again():
                        fault(fn, 1)
                        L.vt_raise(form, e, val, f, arg)
                        fault()
                    if arg == b'f':
                        grows(w, again, 40)
L.vt_set_backtrace(b'backtrace')

# threads, each with contexts of its own
import threading
case('threads')
res = {}


def work(i):
    r = []
    for j in range(30):
        a = list(ALGS)[(i + j) % 5]
        m = bytes([i]) * (3000 + j)
        c = TYPES[a]()
        c.update(m[:j])
        c.update(m[j:])
        r.append(c.finalize() == hashlib.new(a, m).digest() and getattr(pyhmac, a + '_calculate_hmac')(m[:j], m) == hmac.new(m[:j], m, a).digest())
        try:
            c.update('x')
            r.append(False)
        except TypeError:
            pass
    res[i] = all(r)


th = [threading.Thread(target=work, args=(i,)) for i in range(6)]
[t.start() for t in th]
[t.join() for t in th]
if not all(res.get(i) for i in range(6)):
    bad('threads with objects of their own', res, 'digests of their data')

# the initialization of the module
init = L.PyInit_pyhmac
init.restype = ctypes.py_object
for fn in ('', 'PyModule_Create2', 'PyModule_AddObject', 'PyModule_AddObjectRef', 'PyModule_AddType', 'PyType_Ready'):
    for k in (range(1, 7) if fn else [0]):
        w = 'PyInit_pyhmac, failure %d of %s' % (k, fn)
        case(w)
        L.vt_reset()
        gc.collect()
        rt = [sys.getrefcount(t) for t in TYPES.values()]
        fault(fn, k)
        m = x = None
        try:
            m = init()
        except Exception as y:
            x = repr(y)
        n = L.vt_seen()
        fault()
        if n >= k and fn:
            if x is None:
                bad(w, m, 'an exception')
            elif 'PyObject is NULL' in x or 'SystemError' in x:
                bad(w + ': no exception is set', x, 'an exception')
            left = weakref.ref(ctypes.py_object.in_dll(L, 'vt_module').value) if L.vt_count(4) > 0 else None
            L.vt_reset()
            gc.collect()
            if left is not None and left() is not None:
                bad(w + ': the module is left', 'a module', 'none')
            d = [sys.getrefcount(t) for t in TYPES.values()]
            if any(p != q for p, q in zip(d, rt)):
                bad(w + ': references to the types', d, rt)
        elif x is not None or m is None:
            bad(w, x, 'the module')
        else:
            L.vt_reset()
            for a in ALGS:
                if getattr(m, a + '_context', None) is not TYPES[a]:
                    bad(w + ': %s_context' % a, getattr(m, a + '_context', None), TYPES[a])
        m = None
if L.vt_count(0) or L.vt_count(3):
    bad('memory of the library left at the end', (L.vt_count(0), L.vt_count(3)), 0)
print('DONE', done, flush=True)
