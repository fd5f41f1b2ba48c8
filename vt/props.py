"""The properties: which units under contract decide each, which obligations count, and how a refuted or
undecided obligation is replayed on the compiled code."""
import json
import os
import re
from . import env, native, native_tools, native_python, spec, support, tools

LIBC = ['clang 18 front end and mem2reg (C to LLVM IR, -O0)', 'vt: LLVM IR symbolic executor, term normaliser and loop-invariant rule (/verif/vt)',
        'z3 (bit-vector theory)', 'contracts assumed of memcpy, memset, malloc, free', 'contracts assumed of libcerror_error_set, libcerror_error_free']
OPENSSL = ['contracts assumed of OpenSSL EVP_* and MD5_*/SHA*_* digest functions (they compute the standard digest of what they absorb)']
SPEC = ['/verif/vt/spec.py: RFC 1321 and FIPS 180-4 compression functions, constants computed from their definitions, cross-checked against hashlib in setup']
ALGS = list(env.ALGS)
BI = 'builtin'
ASSUME = ['machine arithmetic is the bit-vector arithmetic of the compiled IR (x86-64, LP64); nothing is treated as mathematical',
          'message length below 2^61 bytes (the standards define MD5/SHA-1/SHA-2 lengths in a 64-bit bit count)',
          'caller buffers are readable/writable for their stated size, do not overlap and stay unchanged during the call',
          'the proofs are about the source as compiled without optimisation; an optimiser may drop stores to memory that is about to die']


def known_findings(pid):
    p = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def ctx_units(fns, variants, algs=ALGS):
    return [('context', f, (a, v)) for v in variants for a in algs for f in fns]


def dig_units(fns, variants=(BI,), algs=ALGS):
    return [('digest', f, (a, v)) for v in variants for a in algs for f in fns]


class Prop:
    def __init__(s, pid, units, kinds, plans, trusted=None, assumptions=None, bound='', crash_only=False, replayer=None, extra=None):
        s.extra = re.compile(extra) if extra else None
        s.pid, s._units, s.kinds, s.plans = pid, units, set(kinds), plans
        s.trusted = trusted or (LIBC + SPEC)
        s.assumptions = assumptions or ASSUME
        s.bound = bound or 'concrete inputs only: every length 0..B+2 class boundary, the splits, key sizes and faults in vt/native.py, against hashlib/hmac under AddressSanitizer and UBSan'
        s.crash_only, s.replayer = crash_only, replayer

    def units(s, tier):
        seen, r = set(), []
        for u in s._units:
            if u not in seen:
                seen.add(u)
                r.append(u)
        return r

    def select(s, o):
        return o['kind'] in s.kinds or bool(s.extra and s.extra.search(o['name']))

    def keep(s, f):
        if s.crash_only:
            return f.what.startswith('crash') or f.what.startswith('does not terminate')
        return True

    def replay(s, res, bad, open_, out, tier):
        if s.replayer:
            return s.replayer(s, res, bad, open_, out, tier)
        lib_replay(s, res, bad, open_, out, tier)


def touched(res, bad, open_):
    """(variants, algorithms) to replay: those with something undecided; everything if nothing is."""
    us = [r for r in bad] + [r for r, o in open_]
    vs, al = [], []
    for r in us:
        if len(r['args']) == 2:
            if r['args'][1] not in vs:
                vs.append(r['args'][1])
            if r['args'][0] not in al:
                al.append(r['args'][0])
    return vs or sorted({r['args'][1] for r in res if len(r['args']) == 2}), al or ALGS


def lib_replay(P, res, bad, open_, out, tier):
    vs, al = touched(res, bad, open_)
    for v in vs:
        for plan in P.plans:
            if plan == 'clear' and v not in (BI, 'rolled'):
                continue
            try:
                n, f = native.campaign([plan], v, al, deep=tier == 'thorough', seed=env.SEED)
            except native.BuildFailed as x:
                out['note'] += ' [%s does not build: %s]' % (v, str(x)[-200:].replace('\n', ' '))
                break
            out['executions'] += n
            out['failures'] += [str(x) for x in f if P.keep(x)]
    if out['failures']:
        return
    if 'fault' in P.plans and not all(v == 'rolled' for v in vs):
        # failures of the back end also concern the functions above the contexts
        for v in [v for v in ('evp', 'direct') if v not in vs]:
            try:
                n, f = native.campaign(['fault'], v, al, deep=False, seed=env.SEED)
            except native.BuildFailed as x:
                out['note'] += ' [%s does not build: %s]' % (v, str(x)[-200:].replace('\n', ' '))
                continue
            out['executions'] += n
            out['failures'] += [str(x) for x in f if P.keep(x)]
    if out['failures']:
        return
    # counterexamples about states that short inputs do not reach
    done = set()
    for r, o in open_:
        if r['mod'] == 'context' and r['fn'] in ('update', 'finalize') and r['args'][1] in (BI, 'rolled'):
            k = (r['args'], json.dumps(o.get('model') or {}, sort_keys=True))
            if k in done or len(done) > 24:
                continue
            done.add(k)
            try:
                f = raw_replay(r, o)
            except Exception as x:
                out['note'] += ' [raw: %s]' % str(x)[:120]
                continue
            out['executions'] += 1
            if f and P.keep(f):
                out['failures'].append(str(f))
                return
    todo = set()
    for r, refuted in [(r, o['status'] == 'refuted') for r, o in open_] + [(r, True) for r in bad]:
        if refuted and r['mod'] == 'context' and r['fn'] in ('update', 'finalize', 'transform'):
            todo.add((r['args'], 'ctx'))
        if refuted and r['mod'] == 'digest':
            todo |= {(r['args'], m) for m in dict(update=['pub'], calculate=['calc'], hmac=['hmac', 'key']).get(r['fn'], [])}
    if not P.crash_only and P.pid in ('C01', 'C02', 'C03', 'C09'):
        for (a, v), mode in sorted(todo)[:3]:
            f = native.huge(a, v, mode)
            out['executions'] += 2
            out['failures'] += [str(x) for x in f]
            if f:
                return


def num(m, k, d=0):
    try:
        return int(m.get(k, d))
    except ValueError:
        return d


def raw_replay(r, o):
    """Runs update/finalize on the context state of a counterexample and compares with the standard's digest of
    a message of that length (the state stands for n absorbed blocks and the pending bytes)."""
    import hashlib
    from . import ir, context
    alg, variant = r['args']
    A = env.ALGS[alg]
    B, ws = A['block'], A['ws']
    m = o.get('model') or {}
    lay = context.layouts(ir.compile_ir(context.src(alg), variant), alg)[0]
    n, off = num(m, 'n'), num(m, 'off') % B
    lo, hi = num(m, 'size_lo'), num(m, 'size_hi')
    size = lo + B * hi
    if r['fn'] == 'update' and size > 300000:
        return None
    import random
    rnd = random.Random(env.SEED)
    chain = [rnd.getrandbits(8 * ws) for _ in range(A['words'])]
    pend = bytes(rnd.randrange(1, 256) for _ in range(off))
    c = bytearray(lay['size'])
    c[lay['count']:lay['count'] + 8] = (n * B % (1 << 64)).to_bytes(8, 'little')
    c[lay['offset']:lay['offset'] + 8] = off.to_bytes(8, 'little')
    for i, w in enumerate(chain):
        c[lay['words'] + i * ws:lay['words'] + (i + 1) * ws] = w.to_bytes(ws, 'little')
    c[lay['block']:lay['block'] + off] = pend
    for i in range(off, lay['blockn']):
        c[lay['block'] + i] = 0xee
    buf = bytes(rnd.randrange(256) for _ in range(size)) if r['fn'] == 'update' else b''
    L = n * B + off + len(buf)
    if L >= 1 << 61:
        return None
    lenb = 16 if B == 128 else 8
    data = pend + buf + b'\x80'
    while (len(data) + lenb) % B:
        data += b'\0'
    data += (8 * L).to_bytes(lenb, 'little' if alg == 'md5' else 'big')
    H = chain
    from .expr import const, isc
    for i in range(0, len(data), B):
        H = [x.a for x in spec.compress(alg, [const(h, 8 * ws) for h in H], [const(x, 8) for x in data[i:i + B]])]
    want = b''.join(h.to_bytes(ws, A['end']) for h in H)[:A['out']].hex()
    hs = num(m, 'hash_size', A['out'])
    if not A['out'] <= hs <= 4096:
        hs = A['out']
    cmd = 'raw %s %s %s %d' % (alg, bytes(c).hex(), buf.hex() if buf else '-', hs)

    def chk(f):
        if f.get('size'):
            return None
        d = dict(final=1, hash=want)
        if r['fn'] == 'update' and buf:
            d['update'] = 1
        x = native.expect(d, live=False)(f)
        if x:
            return (x[0] + ' for a context that has absorbed %d bytes' % (n * B + off), x[1])
    f = native.run(variant, [(cmd, chk)])
    return f[0] if f else None


CTX = ['initialize', 'update', 'finalize', 'transform', 'free']
WRAP = ['w_initialize', 'w_update', 'w_finalize', 'w_free']
FUNC = ['post', 'invariant', 'pre', 'arith', 'memory', 'termination', 'frame']

PROPS = {}


def add(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p


BASEU = ctx_units(['update', 'transform', 'finalize', 'initialize'], [BI])
add('C01', BASEU + dig_units(WRAP[:3] + ['calculate']), ['post', 'invariant', 'pre', 'arith', 'termination'], ['digest', 'size', 'fault'])
add('C02', ctx_units(['update'], [BI, 'evp', 'direct']) + ctx_units(['transform', 'initialize', 'finalize'], [BI]) + dig_units(['w_update', 'w_initialize', 'w_finalize']),
    ['post', 'invariant', 'pre', 'arith'], ['split', 'fault'], trusted=LIBC + SPEC + OPENSSL)
add('C03', BASEU + dig_units(['hmac', 'calculate']), ['post', 'invariant', 'pre', 'arith', 'termination'], ['hmac', 'fault'])
ALLU = ctx_units(CTX, [BI]) + dig_units(WRAP + ['calculate', 'hmac'])
LIBU = ctx_units(['update', 'finalize', 'initialize', 'free'], ['evp', 'direct']) + ctx_units(['initialize', 'free'], ['evp-noex2']) + ctx_units(['transform', 'update', 'finalize'], ['rolled'])
add('C04', ALLU + LIBU, ['memory', 'arith', 'termination'], ['digest', 'split', 'hmac', 'size', 'args', 'fault', 'inter'], trusted=LIBC + OPENSSL, crash_only=True)
add('C05', ctx_units(['update', 'finalize', 'initialize', 'free'], [BI, 'evp', 'direct']) + ctx_units(['initialize', 'free'], ['evp-noex2']) + ctx_units(['transform', 'finalize', 'update'], ['rolled']) + dig_units(WRAP + ['calculate', 'hmac']), ['args'], ['args', 'size', 'digest', 'fault'], trusted=LIBC + OPENSSL,
    extra=r'returns -?1|on invalid arguments|output bytes beyond|is NULL afterwards')
add('C06', ctx_units(['initialize', 'free'], [BI, 'evp', 'direct', 'evp-noex2']) + ctx_units(['update', 'finalize'], ['evp', 'direct']) + dig_units(WRAP + ['calculate', 'hmac']), ['leak'], ['fault', 'digest', 'hmac'], trusted=LIBC + OPENSSL,
    extra=r'returns -1|failure sets an error|is NULL afterwards')
add('C07', ctx_units(['transform', 'finalize', 'free'], [BI, 'rolled']) + dig_units(['hmac']), ['clear'], ['clear'])
add('C08', ALLU + LIBU, ['frame'], ['inter', 'threads', 'digest', 'hmac', 'args'], trusted=LIBC + OPENSSL)
add('C09', ctx_units(['transform'], [BI, 'rolled']) + ctx_units(['update', 'finalize', 'initialize'], ['rolled', 'evp', 'evp-noex2', 'direct']) + dig_units(['hmac', 'calculate']),
    ['post', 'invariant', 'pre', 'arith'], ['digest', 'split', 'hmac', 'fault'], trusted=LIBC + SPEC + OPENSSL)

# ---------------------------------------------------------------- hmactools
YAL = ['contracts assumed of libcfile (initialize, free, open, close, get_size, read_buffer)', 'contracts assumed of libcsplit (split, free, get_number_of_segments, get_segment_by_index)',
       'contracts assumed of libclocale_locale_get_decimal_point, libcnotify_printf, strlen, strncmp, fprintf, fputs, fputc',
       'contracts of libhmac contexts as proved under C01, C02, C04 to C06']
TASSUME = [ASSUME[0], 'narrow system characters (the configuration built here)', 'strings passed in are NUL terminated', 'the input has less than 2^63 bytes',
           'the decimal point of the locale is not a digit, letter, space or NUL', 'a sum handle is used by one thread; the abort flag may be set at any read']
TB = 'concrete inputs only: the commands in vt/native_tools.py (handles with every buffer size class, short reads, aborts, one failure of each allocation and dependency; names; byte size strings) under AddressSanitizer and UBSan'


def tool_units(*fns):
    return [('tools', f, (BI,)) for f in fns]


TK = ['post', 'invariant', 'pre', 'arith', 'memory', 'termination', 'frame', 'leak', 'args']


def addt(pid, units, plans, trusted=LIBC + YAL):
    add(pid, units, TK, plans, trusted=trusted, assumptions=TASSUME, bound=TB, replayer=native_tools.replay)


SUM = ['s_initialize', 's_free', 's_read_buffer', 's_init_hash', 's_update_hash', 's_final_hash', 's_process', 's_open', 's_close', 's_abort', 's_print']
addt('C10', tool_units('hexstring'), ['hex'])
addt('C11', tool_units(*SUM), ['sum', 'faults'])
addt('C12', tool_units('s_types'), ['types', 'faults'])
addt('C13', [('tools', 'convert', (BI, p)) for p in tools.PARTS] + tool_units('s_buffer_size'), ['sizes'])

PROGRAM = ['contracts assumed of getopt (POSIX; the replacement in hmactools_getopt.c is proved to meet it), signal, setvbuf, close, fprintf, memchr, strlen', 'contracts assumed of libclocale_initialize and libcnotify_*',
           'contracts of sum_handle_* as main sees them (proved under C11 to C13: what they return, own and set)']
add('C14', [('program', f, (BI,)) for f in ('main', 'handler', 'attach', 'detach', 'output')] + [('program', 'getopt_fallback', ('nogetopt',))], TK, ['program'], trusted=LIBC + PROGRAM,
    assumptions=[ASSUME[0], 'narrow system characters (the configuration built here)', 'argc is at least 1 and the command line ends with NULL', 'the signal is SIGINT and may arrive before any call or read of the abort flag once the handler is attached',
                 'stdout and stderr exist'],
    bound='concrete command lines only: about 300 runs of the compiled program (both with the getopt of the platform and the replacement), one failure of each dependency call and allocation, SIGINT during each of them, under AddressSanitizer and UBSan',
    replayer=native_tools.replay_program)

PYTHON = ['contracts assumed of CPython (its C API documentation): PyArg_ParseTupleAndKeywords, PyObject_IsInstance, PyBytes_*, PyUnicode_*, PyErr_*, PyModule_*, PyType_Ready, PyObject_New, Py_IncRef, Py_DecRef, PyGILState, PyEval_SaveThread, PyEval_RestoreThread',
          'contracts of libhmac as proved under C01 to C06', 'contracts assumed of PyOS_vsnprintf, strlen, libcerror_error_backtrace_sprint']
add('C15', [('bindings', 'b_' + f, (a, BI)) for a in env.ALGS for f in ('calculate', 'hmac', 'init', 'new', 'free', 'update', 'finalize')] +
    [('bindings', 'b_error', (n, BI)) for n in ('pyhmac_error_raise', 'pyhmac_error_fetch_and_raise', 'pyhmac_error_fetch')] + [('bindings', 'b_version', (BI,)), ('bindings', 'b_module', (BI,))],
    TK, ['python'], trusted=LIBC + PYTHON,
    assumptions=[ASSUME[0], 'the interpreter of the installed Python.h (version 3)', 'bytes objects have at most SSIZE_MAX bytes and do not change while a call uses them', 'one context object is used by one thread at a time',
                 'the interpreter calls slots and methods as its documentation says (an argument tuple, the GIL held, no exception pending but for deallocation)'],
    bound='concrete calls only: about 1900 calls of the compiled module in the installed CPython (sizes at the block boundaries, wrong arguments, each life of a context, failures of each call of the interpreter, the allocator and libhmac, module initialization), with and without AddressSanitizer',
    replayer=native_python.replay)

add('C16', [('support', 'errors', (f, BI)) for f in support.FUNCS] + [('support', 'version', (BI,))], TK, ['support'], trusted=LIBC[:3] + ['contracts assumed of libcerror_error_free, _fprint, _sprint, _backtrace_fprint, _backtrace_sprint (they accept any of these arguments, also NULL)'],
    assumptions=[ASSUME[0], 'the library is built with its own interface (HAVE_LOCAL_LIBHMAC is not defined)'],
    bound='concrete calls only: 220 calls of the compiled functions with a libcerror that records its calls, under AddressSanitizer and UBSan', replayer=support.replay)
