"""Replays on the compiled real code: builds /repo's library sources with sanitizers (stub libcerror) and
compares them with Python's hashlib/hmac on concrete inputs. Used to replay refuted obligations and, where
an obligation could not be decided, as a labelled bounded stand-in."""
import hashlib
import hmac as pyhmac
import os
import random
from . import env, spec

SRCS = ['libhmac/libhmac_%s%s.c' % (a, k) for a in env.ALGS for k in ('', '_context')]
LIBCALLS = ['EVP_MD_CTX_new', 'EVP_MD_CTX_free', 'EVP_DigestInit_ex', 'EVP_DigestInit_ex2', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex'] + [a + x for a in ('MD5', 'SHA1', 'SHA224', 'SHA256', 'SHA512') for x in ('_Init', '_Update', '_Final')]
VARLIB = {'evp': ['-lcrypto'], 'evp-noex2': ['-lcrypto'], 'direct': ['-lcrypto']}
_built = {}


class BuildFailed(Exception):
    pass


def build(variant, san=True):
    key = (variant, san)
    if key in _built:
        return _built[key]
    out = os.path.join(env.scratch(), 'driver-%s-%s-%d' % (variant, 'san' if san is True else san or 'fast', os.getpid()))
    fl = {True: ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'], False: ['-O2'], 'O0': ['-O0'], 'tsan': ['-O0', '-g', '-fsanitize=thread']}[san]
    cmd = ['gcc'] + fl + ['-w', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-free', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=free'] + env.cflags(variant) + \
        [os.path.join(env.VERIF, 'native/driver.c'), os.path.join(env.VERIF, 'native/libcerror.c')] + \
        [os.path.join(env.REPO, s) for s in SRCS] + ['-o', out, '-lpthread'] + VARLIB.get(variant, [])
    if variant in VARLIB:
        cmd += ['-DVT_WRAP_LIB', '-Wl,' + ','.join('--wrap=' + f for f in LIBCALLS)]
    r = env.run(cmd, timeout=240)
    if r.rc != 0:
        raise BuildFailed(r.err[-2000:])
    _built[key] = out
    return out


def gen(n, s):
    return bytes((i * 131 + s * 17 + (i >> 8) * 29 + (i >> 16) * 7 + 3) & 255 for i in range(n))


class Failure(Exception):
    def __init__(s, what, cmd, got, want, variant):
        s.what, s.cmd, s.got, s.want, s.variant = what, cmd, got, want, variant

    def __str__(s):
        return 'variant %s: %s\n  command: %s\n  got:  %s\n  want: %s' % (s.variant, s.what, s.cmd, s.got, s.want)


def execute(exe, cmds, timeout):
    e = dict(os.environ, TSAN_OPTIONS='halt_on_error=1 exitcode=66', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:malloc_context_size=0', UBSAN_OPTIONS='print_stacktrace=0')
    r = env.run([exe], timeout=timeout, env=e, input='\n'.join(c for c, _ in cmds) + '\n')
    return r


def parse(line):
    return dict(x.split('=', 1) for x in line.split() if '=' in x)


def run(variant, cmds, san=True, timeout=300, hang=True):
    """cmds: list of (command, check(fields) -> None or (what, want)). Returns the failures found (at most 3)."""
    exe = build(variant, san)
    r = execute(exe, cmds, timeout)
    lines = r.out.split('\n')
    fails = []
    for i, (c, chk) in enumerate(cmds):
        if i >= len(lines) or (i == len(lines) - 1 and not lines[i]):
            if r.timeout:
                if not hang:
                    break
                # does not come back: only a finding if the single command alone does not
                r1 = execute(exe, [(c, chk)], 60)
                if r1.timeout:
                    fails.append(Failure('does not terminate within 60 s', c, '', '', variant))
                break
            fails.append(Failure('crash or sanitizer report', c, (r.err or 'exit %s' % r.rc)[:1500], 'normal return', variant))
            break
        f = parse(lines[i])
        f['_line'] = lines[i]
        x = chk(f)
        if x:
            fails.append(Failure(x[0], c, lines[i][:600], x[1], variant))
            if len(fails) >= 3:
                break
    return fails


def H(alg, m):
    return hashlib.new(alg, m).hexdigest()


_msgs = {}


def msg(n, s):
    k = (n, s)
    if k not in _msgs:
        _msgs[k] = gen(n, s)
    return _msgs[k]


def expect(d, live=True):
    def chk(f):
        for k, v in d.items():
            if f.get(k) != str(v):
                return ('%s is %s' % (k, f.get(k)), '%s=%s' % (k, v))
        if live and f.get('live') not in ('0', None):
            return ('memory left allocated', 'live=0')
        if f.get('input') == 'changed':
            return ('an input buffer was modified', 'inputs unmodified')
        if f.get('tail') == 'changed':
            return ('bytes beyond the digest were written', 'tail=kept')
        return None
    return chk


def lens(B):
    s = set(range(0, 6)) | set(range(B - 18, B + 3)) | set(range(2 * B - 18, 2 * B + 3)) | {3 * B - 9, 3 * B, 4 * B + 1, 1000, 5000, 65536 + 5 * B + 3, 140001}
    return sorted(s)


def plan_digest(alg, rnd, deep=False):
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    r = []
    for L in lens(B) + ([rnd.randrange(0, 3000) for _ in range(60)] if deep else []):
        h = H(alg, msg(L, 1))
        r.append(('digest %s %d 1 %d 0' % (alg, L, n), expect(dict(init=1, final=1, hash=h, free=1, null=1, errors=0))))
        r.append(('calc %s %d 1 %d 0' % (alg, L, n + L % 40), expect(dict(ret=1, hash=h, errors=0))))
    return r


def plan_split(alg, rnd, deep=False):
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    r = []
    pieces = [0, 1, 7, B - 9, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 5]
    for a in pieces:
        for b in pieces:
            L = a + b + (a * 7 + b) % (B + 3)
            r.append(('%sdigest %s %d 2 %d 0 %d %d' % ('p' if (a + b) % 2 else '', alg, L, n, a, b), expect(dict(init=1, final=1, hash=H(alg, msg(L, 2)), errors=0))))
    for _ in range(400 if deep else 60):
        k = rnd.randrange(1, 9)
        sp = [rnd.choice(pieces + [rnd.randrange(0, 3 * B)]) for _ in range(k)]
        L = sum(sp) + rnd.randrange(0, 2 * B)
        r.append(('digest %s %d 3 %d 0 %s' % (alg, L, n, ' '.join(map(str, sp))), expect(dict(init=1, final=1, hash=H(alg, msg(L, 3)), errors=0))))
    for a, b in ((3, 70001), (70001, 5), (66000, 66001), (B, 65536)):
        r.append(('digest %s %d 4 %d 0 %d %d' % (alg, a + b + 9, n, a, b), expect(dict(init=1, final=1, hash=H(alg, msg(a + b + 9, 4)), errors=0))))
    for L in (0, 1, B - 1, B, 2 * B + 3):
        r.append(('digest %s %d 4 %d 0 %s' % (alg, L, n + 9, ' '.join(['1'] * L)), expect(dict(init=1, final=1, hash=H(alg, msg(L, 4)), errors=0))))
    return r


def plan_hmac(alg, rnd, deep=False):
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    r = []
    for kl in [0, 1, n - 1, n, n + 1, B - 1, B, B + 1, 2 * B - 9, 2 * B - 8, 2 * B, 2 * B + 1, 255, 256, 257, 300, 65536 + 7]:
        for L in (0, 1, B - n - 1, B - 9, B - 8, B, B + 1, 2 * B, 777) + ((65600, 131100) if kl in (1, B + 1) else ()):
            if L < 0:
                continue
            h = pyhmac.new(msg(kl, 5), msg(L, 6), alg).hexdigest()
            r.append(('hmac %s %d 5 %d 6 %d 0' % (alg, kl, L, n + (L % 3) * 11), expect(dict(ret=1, hash=h, errors=0))))
    return r


def plan_size(alg, rnd, deep=False):
    A = env.ALGS[alg]
    n = A['out']
    r = []
    for hs in list(range(0, n)) + [n, n + 1, 2 * n, 200]:
        if hs < n:
            r.append(('calc %s 10 1 %d 0' % (alg, hs), expect({'ret': -1, 'errorset': 1})))
            r.append(('hmac %s 10 1 10 2 %d 0' % (alg, hs), expect({'ret': -1, 'errorset': 1})))
            r.append(('digest %s 10 1 %d 0' % (alg, hs), expect({'final': -1, 'free': 1})))
        else:
            r.append(('calc %s 10 1 %d 0' % (alg, hs), expect(dict(ret=1, hash=H(alg, msg(10, 1)), errors=0))))
            r.append(('digest %s 10 1 %d 0' % (alg, hs), expect(dict(final=1, hash=H(alg, msg(10, 1)), errors=0))))
    return r


def plan_args(alg, rnd, deep=False):
    def chk(f):
        for t in f['_line'].split():
            p = t.split(':')
            if p[0] in ('same', 'kept', 'outkept'):
                if p[1] != '1':
                    return ('%s is %s after invalid arguments' % (p[0], p[1]), p[0] + ':1')
            elif p[0] == 'refree':
                if p[1:] != ['1', '1']:
                    return ('free of NULL context gives %s' % t, 'refree:1:1')
            elif p[0] == 'live':
                pass
            elif p[1:] != ['-1', '1', '1']:
                return ('%s returned %s, error raised %s, error set %s' % (p[0], p[1], p[2], p[3]), '-1 with an error')
        return None
    return [('args ' + alg, chk)]


def plan_fault(alg, rnd, deep=False):
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    r = []

    def failed(f):
        if f.get('live') != '0':
            return ('memory left allocated after a failed allocation', 'live=0')
        if 'ret' in f and f['ret'] == '-1' and f.get('errorset') != '1':
            return ('failure without an error', 'errorset=1')
        if f.get('fired') == '1':
            if f.get('errorset') != '1':
                return ('a failed allocation or back end call sets no error', 'errorset=1')
            if '-1' not in [f.get(x) for x in ('ret', 'init', 'update', 'final', 'free')]:
                return ('success although an allocation or a back end call failed', '-1 from the call concerned')
        if f.get('init') == '-1' and (f.get('errorset') != '1' or f.get('ctx') != '0'):
            return ('failed initialize left a context or no error', 'ctx=0 errorset=1')
        return None
    for k in list(range(1, 8)) + list(range(1001, 1021)):
        r.append(('calc %s 100 1 %d %d' % (alg, n, k), failed))
        r.append(('digest %s 100 1 %d %d' % (alg, n, k), failed))
        for kl in (3, B + 1):
            r.append(('hmac %s %d 1 100 2 %d %d' % (alg, kl, n, k), failed))
    r.append(('calc %s 100 1 %d 1' % (alg, n), expect({'ret': -1, 'errorset': 1})))
    r.append(('digest %s 100 1 %d 1' % (alg, n), expect({'init': -1, 'ctx': 0, 'errorset': 1})))
    r.append(('hmac %s 10 1 100 2 %d 1' % (alg, n), expect({'ret': -1, 'errorset': 1})))
    return r


def schedule(alg, block):
    """Message schedule words of one block in host order (for searching memory)."""
    import struct
    out = []
    if alg == 'md5':
        return [block[i:i + 12] for i in (0, 16, 32, 48)]
    ws = 8 if alg == 'sha512' else 4
    W = [int.from_bytes(block[i:i + ws], 'big') for i in range(0, len(block), ws)]
    m = (1 << 8 * ws) - 1

    def rot(x, k):
        return ((x >> k) | (x << (8 * ws - k))) & m
    n = {'sha1': 80, 'sha224': 64, 'sha256': 64, 'sha512': 80}[alg]
    for i in range(16, n):
        if alg == 'sha1':
            W.append(((W[i - 3] ^ W[i - 8] ^ W[i - 14] ^ W[i - 16]) << 1 | (W[i - 3] ^ W[i - 8] ^ W[i - 14] ^ W[i - 16]) >> 31) & m)
        else:
            a, b, c, d, e, f = (7, 18, 3, 17, 19, 10) if ws == 4 else (1, 8, 7, 19, 61, 6)
            s0 = rot(W[i - 15], a) ^ rot(W[i - 15], b) ^ (W[i - 15] >> c)
            s1 = rot(W[i - 2], d) ^ rot(W[i - 2], e) ^ (W[i - 2] >> f)
            W.append((W[i - 16] + s0 + W[i - 7] + s1) & m)
    for i in range(0, n - 3, 4):
        out.append(b''.join(w.to_bytes(ws, 'little') for w in W[i:i + 3]))
    return out


def plan_clear(alg, rnd, deep=False):
    A = env.ALGS[alg]
    B, n = A['block'], A['out']
    r = []
    key = msg(B + 9, 7)
    kd = hashlib.new(alg, key).digest()
    short = msg(B - 3, 8)

    def pats(k):
        k0 = (k if len(k) <= B else hashlib.new(alg, k).digest()).ljust(B, b'\0')
        xs = []
        for x in (0, 0x36, 0x5c):
            p = bytes(c ^ x for c in k0)
            xs += [p[i:i + 12] for i in range(0, B - 11, 8) if k0[i:i + 12].strip(b'\0')]
        return xs
    zero = dict(stack='0', secret='0')

    def chk(f):
        if f.get('stack') != '0':
            return ('key material or message state is left on the stack (pattern %s)' % f.get('stack'), 'stack=0')
        if f.get('secret') != '0':
            return ('key material is left in released memory (pattern %s)' % f.get('secret'), 'secret=0')
        return None
    for kk, kl, ks in ((key, len(key), 7), (short, len(short), 8), (msg(B, 12), B, 12), (msg(9, 13), 9, 13)):
        for fail in (0, 2, 3, 4, 5, 6):
            p = pats(kk)
            r.append(('stack %s hmac %d %d 40 9 %d %s' % (alg, kl, ks, fail, ' '.join(x.hex() for x in p)), chk))
    m = msg(B, 10)
    sch = schedule(alg, m)
    r.append(('stack %s upd 0 0 %d 10 0 %s' % (alg, B, ' '.join(x.hex() for x in sch)), chk))
    m2 = msg(B + 30, 11)
    r.append(('stack %s free 0 0 %d 11 0 %s' % (alg, B + 30, ' '.join([m2[B:B + 12].hex(), m2[B + 16:B + 28].hex()])), chk))
    r.append(('digest %s 100 1 %d 0' % (alg, n), lambda f: None if f.get('zero') == '1' else ('the context is not zero after finalize', 'zero=1')))
    r.append(('digest %s %d 1 %d 0' % (alg, B, n), lambda f: None if f.get('zero') == '1' else ('the context is not zero after finalize', 'zero=1')))
    return r


def plan_inter(alg, rnd, deep=False):
    names = [alg, alg] + list(env.ALGS)
    r = []
    for L, st in ((0, 1), (200, 7), (1000, 64), (1000, 129)):
        h = {'h%d' % k: H(a, msg(L, k)) for k, a in enumerate(names)}
        r.append(('inter %s %d %d' % (alg, L, st), expect(h)))
    return r


def plan_threads(alg, rnd, deep=False):
    def chk(f):
        return ('%s of 4 threads using contexts of their own got a wrong digest' % f['bad'], 'bad=0') if f.get('bad') != '0' else None
    return [('threads %s %d %d' % (alg, L, n), chk) for L, n in ((0, 20), (100, 50), (20000, 20))]


_tsan = []


def tsan_works():
    if not _tsan:
        try:
            r = execute(build('builtin', 'tsan'), [('?', None)], 60)
            _tsan.append(r.rc == 0 and r.out.strip() == '?')
        except BuildFailed:
            _tsan.append(False)
    return _tsan[0]


def huge(alg, variant='builtin', mode='ctx'):
    """Messages around 2^29 and 2^32 bytes (where 32-bit bit and byte counts wrap)."""
    ch = (1 << 20) + 4096         # no power of two: a wrapped offset must lead to other bytes
    m = gen(ch, 1)
    r = []
    for cnt, tl in ((512, 77), (4096, 333)):
        h = pyhmac.new(m[:20], b'', alg) if mode == 'hmac' else hashlib.new(alg)
        for _ in range(cnt):
            h.update(m)
        h.update(m[:tl])
        chk = expect(dict(ret=1, hash=pyhmac.new(h.digest(), m[:20], alg).hexdigest() if mode == 'key' else h.hexdigest()))
        if mode == 'ctx':
            r.append(('huge %s %d %d %d 1' % (alg, ch, cnt, tl), chk))
        # the same message in a single buffer
        r.append(('huge1 %s %d %d %d 1 %d %s' % (alg, ch, cnt, tl, 0 if cnt == 512 else 9, mode), lambda o, chk=chk: None if 'skip' in o else chk(o)))
    from concurrent.futures import ThreadPoolExecutor
    build(variant, False)
    with ThreadPoolExecutor(len(r)) as ex:
        return sum(ex.map(lambda c: run(variant, [c], san=False, timeout=200, hang=False), r), [])


PLANS = dict(digest=plan_digest, split=plan_split, hmac=plan_hmac, size=plan_size, args=plan_args, fault=plan_fault, clear=plan_clear, inter=plan_inter, threads=plan_threads)


def campaign(plans, variant, algs=None, deep=False, seed=1):
    """Runs the named plans; returns (number of executions, failures)."""
    rnd = random.Random(seed)
    n, fails = 0, []
    for p in plans:
        cmds = []
        for a in (algs or env.ALGS):
            cmds += PLANS[p](a, rnd, deep)
        n += len(cmds)
        fails += run(variant, cmds, san='O0' if p == 'clear' else ('tsan' if tsan_works() else 'O0') if p == 'threads' else True)
    return n, fails
