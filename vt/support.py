"""Contracts of libhmac_error.c and libhmac_support.c: the error functions hand what they are given to libcerror, unchanged, and
return what it returns; the version is the one of the headers."""
import os
import re
from . import env, ir
from .expr import *
from .exec import *
from .libc import BASE, Z
from .context import CEngine
from .digest import nullness
from .tools import K, text_of, inc

FUNCS = {'libhmac_error_free': 1, 'libhmac_error_fprint': 2, 'libhmac_error_sprint': 3, 'libhmac_error_backtrace_fprint': 2, 'libhmac_error_backtrace_sprint': 3}


def compile_s(name, variant):
    return ir.compile_ir(os.path.join(env.REPO, 'libhmac', name + '.c'), variant, extra=list(inc()))


def same(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and a.off is b.off and a.nul is b.nul
    return a is b


def errors(name, variant='builtin', deadline=None):
    n = FUNCS[name]
    mod = compile_s('libhmac_error', variant)
    calls = []

    def c_lib(fn):
        def h(e, st, a):
            st.ghost['calls'] = st.ghost['calls'] + ((fn, tuple(a)),)
            if fn == 'libcerror_error_free':
                return [(st, None)]
            r = fresh('print_count', 32)
            st.ghost['result'] = r
            return [(st, r)]
        return h
    c = dict(BASE)
    for f in FUNCS:
        g = f.replace('libhmac', 'libcerror')
        c[g] = c_lib(g)
    e = CEngine(mod, c, deadline)
    st = State()
    st.ghost.update(calls=(), result=None)
    err = e.new(st, 8, 'param', 'error', ('sym', 'ERR'))
    args = [Ptr(err, Z, var('no_error', 1))]
    if n > 1:
        to = e.new(st, var('size', 64) if n == 3 else 8, 'param', 'string or stream', ('sym', 'TO'))
        args.append(Ptr(to, Z, var('no_string', 1)))
    if n > 2:
        args.append(var('size', 64))
    want = name.replace('libhmac', 'libcerror')
    for s, r in e.run(name, st, args):
        e.covered.add(name + ': success path')
        cs = s.ghost['calls']
        none = band(nullness(args[0]), TRUE)
        if not cs:
            # nothing to do without an error
            e.check(s, bor(nullness(args[0]), nullness(args[1]) if n > 1 else FALSE), 'post', name + ': the error is passed on')
            if n > 1:
                e.check(s, eq(r, K(-1, 32)), 'post', name + ': returns -1 without an error')
            continue
        ok = len(cs) == 1 and cs[0][0] == want and len(cs[0][1]) == n
        e.check(s, boolean(ok), 'post', name + ': calls %s once' % want)
        if ok:
            for i, (x, y) in enumerate(zip(cs[0][1], args)):
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    e.check(s, bor(boolean(x.o == y.o and x.off is y.off), band(nullness(x), nullness(y))), 'post', name + ': passes argument %d on unchanged' % i)
                elif isinstance(y, Ptr):
                    e.check(s, nullness(y) if isc(x) and x.a == 0 else FALSE, 'post', name + ': passes argument %d on unchanged' % i)
                else:
                    e.check(s, eq(x, y) if not isinstance(x, Ptr) else FALSE, 'post', name + ': passes argument %d on unchanged' % i)
            if n > 1:
                e.check(s, eq(r, s.ghost['result']), 'post', name + ': returns what libcerror returns')
        e.check(s, boolean(s.mem[err].live), 'memory', name + ': the slot of the error stays valid')
    return e


def version_text():
    """The version of the headers."""
    src = '#include <libhmac/definitions.h>\nVT LIBHMAC_VERSION_STRING\n'
    r = env.run(['gcc', '-E', '-P'] + env.cflags('builtin') + list(inc()) + ['-x', 'c', '-'], input=src)
    return ''.join(re.findall(r'"([^"]*)"', r.out[r.out.rfind('VT '):]))


def version(variant='builtin', deadline=None):
    name = 'libhmac_get_version'
    mod = compile_s('libhmac_support', variant)
    e = CEngine(mod, dict(BASE), deadline)
    st = State()
    v = version_text()
    for s, r in e.run(name, st, []):
        e.covered.add(name + ': success path')
        ok = isinstance(r, Ptr) and r.nul is FALSE
        e.check(s, boolean(ok), 'memory', name + ': returns a string')
        if ok:
            e.check(s, boolean(s.mem[r.o].kind in ('global',)), 'memory', name + ': the string stays valid')
            e.check(s, boolean(bool(v) and text_of(e, s, r) == v), 'post', name + ': returns the version of the headers')
    return e


# ---------------------------------------------------------------- replay
def run_native():
    from . import native
    out = os.path.join(env.scratch(), 'support-%d' % os.getpid())
    cmd = ['gcc', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] + env.cflags('builtin') + list(inc()) + [os.path.join(env.VERIF, 'native/support_driver.c')] + \
        [os.path.join(env.REPO, 'libhmac', x) for x in ('libhmac_error.c', 'libhmac_support.c')] + ['-o', out]
    r = env.run(cmd, timeout=120)
    if r.rc:
        raise native.BuildFailed(r.err[-2000:])
    r = env.run([out], timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), input='')
    lines = r.out.split('\n')
    fails = [native.Failure(*((l[5:].split('\t') + ['', ''])[i] for i in (0, 0, 1, 2)), 'library') for l in lines if l.startswith('FAIL ')]
    if 'DONE' not in lines:
        fails.append(native.Failure('crash', ([l for l in lines if l.startswith('CASE')] or [''])[-1], r.err[-800:], 'normal return', 'library'))
    return sum(l.startswith('CASE') for l in lines), fails[:4]


def replay(P, res, bad, open_, out, tier):
    from . import native
    try:
        n, f = run_native()
    except native.BuildFailed as x:
        out['note'] += ' [does not build: %s]' % str(x)[-200:].replace('\n', ' ')
        return
    out['executions'] += n
    out['failures'] += [str(x) for x in f]
