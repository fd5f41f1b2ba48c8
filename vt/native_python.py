"""Replays for C15: builds pyhmac from /repo's sources with a wrapping layer and drives it with the installed CPython."""
import glob
import os
import re
import subprocess
import sys
import tempfile
from . import env, native
from .tools import inc as libinc

PY = '/usr/bin/python3'
WRAP = ['malloc', 'free', 'PyBytes_FromStringAndSize', 'PyObject_Repr', 'PyObject_Str', 'PyUnicode_AsUTF8String', 'PyUnicode_DecodeUTF8', '_PyObject_New', 'PyModule_Create2', 'PyModule_AddObject', 'PyModule_AddObjectRef',
        'PyModule_AddType', 'PyType_Ready', 'PyObject_IsInstance', 'PyBytes_AsString', 'PyBytes_Size', 'PyErr_Clear', 'Py_IncRef', 'Py_DecRef', 'PyErr_Format'] + \
    ['libhmac_%s_%s' % (a, x) for a in env.ALGS for x in ('initialize', 'update', 'finalize', 'calculate', 'calculate_hmac')]


def build(d, asan):
    from .bindings import inc
    cmd = ['gcc', '-O1', '-g', '-w', '-shared', '-fPIC', '-fno-builtin-malloc', '-fno-builtin-free', '-Wl,' + ','.join('--wrap=' + f for f in WRAP)] + (['-fsanitize=address'] if asan else []) + \
        env.cflags('builtin') + list(libinc()) + inc() + sorted(glob.glob(os.path.join(env.REPO, 'pyhmac/*.c'))) + \
        [os.path.join(env.VERIF, 'native', x) for x in ('libcerror.c', 'pyfault.c')] + [os.path.join(env.REPO, 'libhmac/libhmac_support.c')] + [os.path.join(env.REPO, x) for x in native.SRCS] + \
        ['-o', os.path.join(d, 'pyhmac.so')]
    r = env.run(cmd, timeout=240)
    if r.rc != 0:
        raise native.BuildFailed(r.err[-2000:])


def version():
    """The version the library is configured with."""
    src = '#include <libhmac/definitions.h>\nVT LIBHMAC_VERSION_STRING\n'
    r = env.run(['gcc', '-E', '-P'] + env.cflags('builtin') + list(libinc()) + ['-x', 'c', '-'], input=src)
    return ''.join(re.findall(r'"([^"]*)"', r.out[r.out.rfind('VT '):]))


def run(asan, deep):
    """(executions, failures)"""
    import shutil
    d = tempfile.mkdtemp(dir=env.scratch())
    try:
        build(d, asan)
        en = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        for k in ('PYTHONPATH', 'PYTHONHOME', 'VIRTUAL_ENV'):
            en.pop(k, None)
        if asan:
            lib = env.run(['gcc', '-print-file-name=libasan.so']).out.strip()
            en.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', PYTHONMALLOC='malloc')
        r = env.run([PY, '-I', os.path.join(env.VERIF, 'native/pyhmac_driver.py'), d, str(env.SEED), '1' if deep else '0', version()], timeout=420, env=en, input='')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fails = []
    v = 'pyhmac with AddressSanitizer' if asan else 'pyhmac'
    lines = r.out.split('\n')
    last = [l for l in lines if l.startswith('CASE ')][-1:] or ['']
    for l in lines:
        if l.startswith('FAIL '):
            p = (l[5:].split('\t') + ['', ''])[:3]
            fails.append(native.Failure(p[0], 'native/pyhmac_driver.py', p[1], p[2], v))
    n = sum(l.startswith('CASE ') for l in lines)
    if not any(l.startswith('DONE ') for l in lines):
        if r.timeout:
            fails.append(native.Failure('does not come back', last[0], '', '', v))
        else:
            fails.append(native.Failure('crash, use without the GIL, or import failure', last[0], (r.err or '')[-900:], 'a result or an exception', v))
    return n, fails


def replay(P, res, bad, open_, out, tier):
    for asan in (False, True):
        try:
            n, f = run(asan, tier == 'thorough')
        except native.BuildFailed as x:
            out['note'] += ' [pyhmac does not build: %s]' % str(x)[-200:].replace('\n', ' ')
            return
        out['executions'] += n
        out['failures'] += [str(x) for x in f]


if __name__ == '__main__':
    env.gen_headers(False)
    for a in (False, True):
        n, f = run(a, len(sys.argv) > 1)
        print(n, len(f))
        for x in f:
            print(x)
