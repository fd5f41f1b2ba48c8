"""Replays of hmactools on the compiled real code (native/tools_driver.c), against hashlib and a direct reading of the
string formats. Used where an obligation of C10 to C13 is not discharged, and in the thorough tier."""
import hashlib
import itertools
import os
import random
from . import env, native
from .native import Failure, gen, expect

TOOLSRC = ['hmactools/sum_handle.c', 'hmactools/digest_hash.c', 'hmactools/byte_size_string.c']
_exe = {}


def build():
    if 'x' in _exe:
        return _exe['x']
    from .tools import inc
    out = os.path.join(env.scratch(), 'tools-driver-%d' % os.getpid())
    cmd = ['gcc', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-w', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-free', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=free'] + \
        env.cflags('builtin') + list(inc()) + [os.path.join(env.VERIF, 'native/tools_driver.c'), os.path.join(env.VERIF, 'native/libcerror.c')] + \
        [os.path.join(env.REPO, x) for x in TOOLSRC + native.SRCS] + ['-o', out, '-lpthread']
    r = env.run(cmd, timeout=240)
    if r.rc != 0:
        raise native.BuildFailed(r.err[-2000:])
    _exe['x'] = out
    return out


def run(cmds):
    exe = build()
    r = native.execute(exe, cmds, 300)
    lines = r.out.split('\n')
    fails = []
    for i, (c, chk) in enumerate(cmds):
        if i >= len(lines) or (i == len(lines) - 1 and not lines[i]):
            if r.timeout:
                if native.execute(exe, [(c, chk)], 60).timeout:
                    fails.append(Failure('does not terminate within 60 s', c, '', '', 'tools'))
                break
            fails.append(Failure('crash or sanitizer report', c, (r.err or 'exit %s' % r.rc)[:1500], 'normal return', 'tools'))
            break
        x = chk(native.parse(lines[i]))
        if x:
            fails.append(Failure(x[0], c, lines[i][:900], x[1], 'tools'))
            if len(fails) >= 3:
                break
    return fails


def hx(s):
    if isinstance(s, str):
        s = s.encode('latin1')
    return s.hex() or '-'


# ---------------------------------------------------------------- C10
def plan_hex(rnd, deep):
    r = []
    hs = [b'', bytes([0]), bytes([255]), bytes(range(16)), bytes(range(256)), bytes(rnd.randrange(256) for _ in range(64))] + [bytes([i]) for i in range(256)]
    for h in hs:
        need = 2 * len(h) + 1
        for sz in sorted({0, 1, need - 1, need, need + 1, need + 9}):
            if len(h) == 1 and 0 < h[0] < 255 and sz != need:
                continue
            want = dict(r=1, text=(h.hex().encode() + b'\0' + b'\x5c' * max(0, min(sz, need - 1 + 0) - need)).hex(), tail='kept')
            ok = sz >= need

            def chk(f, ok=ok, h=h, need=need):
                if f['r'] != ('1' if ok else '-1'):
                    return ('returns %s' % f['r'], '1' if ok else '-1')
                if not ok and f['errorset'] != '1':
                    return ('no error is set', 'an error')
                if ok and not f['text'].startswith(h.hex().encode().hex() + '00'):
                    return ('the text is wrong', h.hex())
                if f['tail'] != 'kept':
                    return ('characters after the end of string are changed', 'unchanged')
            r.append(('hex %s %d 0' % (hx(h), sz), chk))
    for m in (1, 2, 3, 4, 8, 16, 32):
        r.append(('hex %s 33 %d' % (hx(bytes(16)), m), lambda f: None if f['r'] == '-1' and f['errorset'] == '1' and f['text'] == '5c' * 33 else ('accepts an invalid argument', '-1, an error, the string unchanged')))
    return r


# ---------------------------------------------------------------- C13
LETTERS = ['', 'kK', 'mM', 'gG', 'tT', 'pP', 'eE', 'zZ', 'yY']


def size_value(s, dp):
    """The value of the string as bytes without NUL, or None if it is rejected."""
    def at(i):
        return s[i] if i < len(s) else 0

    def dig(i):
        return 48 <= at(i) <= 57
    i = 0
    while dig(i):
        i += 1
    D = int(s[:i].decode() or '0')
    if D >= 1 << 64:
        return None
    fr = 0
    if at(i) == dp:
        i += 1
        if dig(i):
            fr = 10 * (at(i) - 48)
            if dig(i + 1):
                fr += at(i + 1) - 48
        while dig(i):
            i += 1
    if at(i) == 32:
        i += 1
    f = next((n for n, l in enumerate(LETTERS) if l and chr(at(i)) in l), 0)
    if f:
        i += 1
    if i >= len(s) or (at(i) == 105 and at(i + 1) == 66):
        u = 1024
    elif at(i) == 66:
        u = 1000
    else:
        return None
    v = D * u ** f if not (f and fr) else (D * u + 10 * fr) * u ** (f - 1)
    return v if v < 1 << 64 else None


def size_strings(rnd, deep):
    out = ['', ' ', 'B', 'iB', 'k', '.', '.k', '5', '0', '007', '1 ', '1  k', '1x', '12 3', '-1', '+1', '1.', '1.k', '1.5', '1. k', '1.5.5k', '1,5k', '1kB', '1KiB', '1ki', '1kiX', '1kb', '1kX', '1kBzz', '1kiBzz', '1k B', '1/k', '1:k', '1 .5k', '99999999999999999999999', '0000000000000000000000000000001k', '18446744073709551615', '18446744073709551616', '18446744073709551625', '28446744073709551615']
    fr = ['', '.', '.0', '.5', '.05', '.50', '.99', '.999', '.1234567', '.00', '.7', '.09']
    un = ['', 'iB', 'B', 'b', 'i', 'x', 'iX', 'BB', ' ']
    for l in ['', ' ', '  '] if deep else ['', ' ']:
        for f, ls in enumerate(LETTERS):
            for c in (ls or ['']):
                for x in fr:
                    for u in un:
                        out.append('3%s%s%s%s' % (x, l, c, u))
    for f, ls in enumerate(LETTERS):
        for u, un_ in ((1024, 'iB'), (1024, ''), (1000, 'B')):
            for x, r10 in (('', 0), ('.99', 990), ('.01', 10), ('.5', 500)):
                top = ((1 << 64) - 1) // u ** f
                if r10 and f:
                    top = (((1 << 64) - 1) // u ** (f - 1) - r10) // u
                for d in (top - 1, top, top + 1, top + 2):
                    if d >= 0:
                        out.append('%d%s%s%s' % (d, x, ls[:1], un_))
    al = '0123456789.,  kKmMgGtTpPeEzZyYiiBBxX'
    for _ in range(4000 if deep else 800):
        out.append(''.join(rnd.choice(al) for _ in range(rnd.randrange(1, 9))))
    return out


def plan_size(rnd, deep):
    r = []
    seen = set()
    for s in size_strings(rnd, deep):
        for dp in ((46, 44) if len(s) < 6 else (46,)):
            if (s, dp) in seen:
                continue
            seen.add((s, dp))
            want = size_value(s.encode(), dp)

            def chk(f, want=want):
                if want is None:
                    if f['r'] != '-1' or f['errorset'] != '1':
                        return ('a string without a valid value is accepted or no error is set (r=%s)' % f['r'], '-1 and an error')
                    if f['value'] != str(0x1122334455667788):
                        return ('the size is changed on failure', 'unchanged')
                elif f['r'] != '1' or f['value'] != str(want):
                    return ('r=%s value=%s' % (f['r'], f['value']), 'r=1 value=%d' % want)
                elif f['errorset'] != '0':
                    return ('an error is set on success', 'no error')
            r.append(('size %s %d 0 0' % (hx(s), dp), chk))
    bad = lambda f: None if f['r'] == '-1' and f['errorset'] == '1' and f['value'] == str(0x1122334455667788) else ('does not fail', '-1, an error, the size unchanged')
    r += [('size %s 46 1 0' % hx('5'), bad), ('size %s 46 0 1' % hx('5'), bad), ('size %s 46 0 2' % hx('5'), bad)]
    for s in ['1', '1k', '0', '8', '7 B', '64', '1.5kB', '9223372036854775807', '9223372036854775808', '18446744073709551615', '16EiB', '8EiB', '7EiB', 'x', '3x', '']:
        v = size_value(s.encode(), 46)
        # an unsupported size (0) leaves the default
        b = -1 if v is None else 1 if v < 1 << 63 else 0
        eff = v if b == 1 else None
        if eff is not None and eff > 1 << 40:
            want = dict(buf=1)
        elif b == -1:
            want = dict(buf=-1, errorset=1)
        else:
            want = dict(buf=b)
        r.append(('sum %s %s 100 1 ? 0 0 0 0 0' % (hx('md5'), hx(s)), sum_expect('md5', [s], 100, 1, extra=want, eff=eff, b=b)))
    return r


# ---------------------------------------------------------------- C11, C12
DEFAULT = 'default'
LAB = [('md5', 'MD5 hash calculated over data:\t\t'), ('sha1', 'SHA1 hash calculated over data:\t\t'), ('sha224', 'SHA224 hash calculated over data:\t'),
       ('sha256', 'SHA256 hash calculated over data:\t'), ('sha512', 'SHA512 hash calculated over data:\t')]
NAMES = {'md5': ['md5', 'MD5'], 'sha1': ['sha1', 'SHA1', 'sha-1', 'sha_1', 'SHA-1', 'SHA_1']}
for _n in ('224', '256', '512'):
    NAMES['sha' + _n] = [a + b + _n for a in ('sha', 'SHA') for b in ('', '-', '_')]


def enabled(strings):
    on = {'md5'}         # enabled by default
    for s in strings:
        for t in s.split(','):
            on |= {a for a, ns in NAMES.items() if t in ns}
    return on


def texts(on, data):
    return ''.join('%s%s\n' % (l, hashlib.new(a, data).hexdigest()) for a, l in LAB if a in on)


def sum_expect(types, bufs, n, seed, chunk=0, abort=0, media=None, extra=None, eff=DEFAULT, b=1):
    on = enabled([types] if isinstance(types, str) else types or [])
    data = gen(n, seed)

    def chk(f):
        w = dict(init=1, again=-1)
        w.update(extra or {})
        for k, v in w.items():
            if f.get(k) != str(v):
                return ('%s is %s' % (k, f.get(k)), '%s=%s' % (k, v))
        if f.get('free') != '1' or f.get('freednull') != '1':
            return ('the handle is not freed', 'free=1 and NULL')
        if f['live'] != '0':
            return ('memory left allocated', 'live=0')
        if 'process' not in f:
            return None
        if (eff == 0 or eff is not DEFAULT and eff is not None and eff > 1 << 40):
            if eff == 0 and f['process'] != '-1':
                return ('process_input succeeds with a buffer size of 0', '-1')
            return None
        total = n if media is None else media
        got, pos, reads = b'', 0, []
        for q in f['reads'].split(','):
            if not q.isdigit():
                continue
            k = min(int(q), n - pos)
            if chunk:
                k = min(k, chunk)
            pos += k
            reads.append((int(q), k))
            if int(q) > total - pos + k:
                return ('more is read than the input has', 'at most the rest of the input')
            if eff not in (DEFAULT, None) and int(q) > eff:
                return ('more is read at once than the process buffer size', 'at most %d' % eff)
        stop = abort and len(reads) >= abort
        if total > n and not stop:
            if f['process'] != '-1' or f['errorset'] != '1':
                return ('an input that ends early is accepted', 'process=-1 and an error')
            return None
        if f['process'] != '1':
            return ('process is %s' % f['process'], '1')
        if not stop and pos != total:
            return ('%d bytes are read' % pos, str(total))
        if eff not in (DEFAULT, None) and not chunk and not stop and total and max(q for q, k in reads) != min(eff, total):
            return ('the input is not read with the process buffer size', str(eff))
        want = texts(on, data[:pos])
        t = '' if f.get('text') == '-' else f.get('text', '')
        if f.get('print') != '1' or t != want.encode().hex():
            return ('printed: %r' % bytes.fromhex(t or '').decode('latin1'), repr(want))
        if f.get('close') != '0' or f.get('stillopen') != '0':
            return ('the input is not closed', 'close=0')
        if f['errorset'] != '0':
            return ('an error is set on success', 'no error')
    return chk


def sums(types, buf, n, seed, chunk=0, abort=0, media=None, flags=0, extra=None):
    ty = '?' if types is None else '/'.join(hx(t) for t in types)
    v = DEFAULT if buf is None else size_value(buf.encode(), 46)
    return ('sum %s %s %d %d %s %d %d 0 0 %d' % (ty, '?' if buf is None else hx(buf), n, seed, '?' if media is None else media, chunk, abort, flags),
            sum_expect(types, [buf], n, seed, chunk, abort, media, extra, v))


def plan_sum(rnd, deep):
    r = []
    allt = 'md5,sha1,sha224,sha256,sha512'
    for n in (0, 1, 2, 55, 63, 64, 65, 127, 128, 129, 200, 1000):
        for buf in ('1', '7', '64', '65', '128', '2000', None):
            for chunk in (0, 1, 5, 70):
                r.append(sums([allt], buf, n, n + 1, chunk))
    for n in (32767, 32768, 32769, 70000, 200001):
        r.append(sums([allt], None, n, 3))
        r.append(sums([allt], None, n, 3, 1000))
    for t in LAB:
        for n in (0, 100, 1000):
            r.append(sums([t[0]], '64', n, 5))
    for ab in (1, 2, 3, 100):
        r.append(sums([allt], '10', 95, 4, 0, ab))
        r.append(sums(['sha256'], '10', 95, 4, 3, ab))
    for m in (101, 200, 99, 50, 0):
        r.append(sums([allt], '10', 100, 4, 0, 0, m) if m > 100 else sums([allt], '10', 100, 4, 0, 0, m))
    r.append(sums([allt], '10', 100, 4, flags=1, extra={'open': -1, 'errorset': 1}))
    r.append(sums(None, None, 100, 4))
    want = dict(init=-1, free=-1, abort=-1, open=-1, close=-1, process=-1, types=-1, buf=-1, print=-1, print2=-1, processnoopen=-1, errorset=1, live=0)
    r.append(('nulls', lambda f: next((('%s is %s' % (k, f.get(k)), '%s=%s' % (k, v)) for k, v in want.items() if f.get(k) != str(v)), None)))
    return r


def plan_faults(rnd, deep):
    """Every allocation and every call of a dependency fails once: an error, and everything is released."""
    r = []

    def chk(kind, i):
        def c(f):
            if f['live'] != '0':
                return ('memory or a file is left after failure %d of a %s' % (i, kind), 'live=0')
            if 'free' in f and f['freednull'] != '1':
                return ('the handle is not NULL after free', 'NULL')
            if f.get('hnull') == '0':
                return ('a handle is returned by a failing initialize', 'NULL')
            hit = i <= int(f['allocs' if kind == 'allocation' else 'libcalls'])
            if hit and f['errorset'] != '1':
                return ('no error is set after failure %d of a %s' % (i, kind), 'an error')
            bad = [k for k in ('init', 'types', 'types2', 'buf', 'open', 'process', 'print', 'close', 'free') if f.get(k) == '-1']
            if hit and not bad:
                return ('failure %d of a %s is not reported' % (i, kind), '-1')
            if not hit and bad:
                return ('%s fails' % bad, 'success')
        return c
    for t in ('md5', 'sha1', 'md5,sha1,sha224,sha256,sha512', 'sha512,sha256'):
        for i in range(1, 20):
            r.append(('sum %s %s 30 1 ? 0 0 %d 0 0' % (hx(t), hx('10'), i), chk('allocation', i)))
        for i in range(1, 24):
            r.append(('sum %s %s 30 1 ? 0 0 0 %d 0' % (hx(t), hx('10'), i), chk('dependency', i)))
    return r


def plan_types(rnd, deep):
    r = []
    every = [n for ns in NAMES.values() for n in ns]
    other = ['', 'md', 'md55', 'md4', 'Md5', 'mD5', 'md-5', 'md_5', 'MD-5', 'sha', 'sha2', 'Sha1', 'sHA1', 'sha+1', 'sha1 ', ' sha1', 'sha11', 'SHA01', 'sha384', 'SHA384', 'sha--1', 'sha22', 'sha2244', 'sha-225', 'sha_255',
             'sha257', 'sha-252', 'sha513', 'sha51', 'sha512x', 'SHA 256', 'sha.224', 'Sha224', 'shA-224', 'SHa_256', 'sha2-24', 'sha-2-56', 'SHA5-12', 'none', 'all', 'sha256sha512', 'md5sha1', 'md5;sha1', 'SHA-5122', 'sha-22', 'sha_', 'SHA', 'SHA-']
    for t in every + other:
        r.append(sums([t], '64', 20, 6))
        r.append(sums(['md5,' + t], '64', 20, 6))
        r.append(sums([t + ',sha1'], '64', 20, 6))
    for a, b in itertools.product(['md5', 'SHA1', 'sha-224', 'SHA_256', 'sha512', '', 'x'], repeat=2):
        r.append(sums([a + ',' + b], '64', 20, 6))
        r.append(sums([a, b], '64', 20, 6))
    for _ in range(3000 if deep else 300):
        k = [rnd.choice(every + other) for _ in range(rnd.randrange(1, 7))]
        r.append(sums([','.join(k)], '64', 20, 6))
    al = 'shaSHA-_1225662mdMD5,'
    for _ in range(1500 if deep else 150):
        t = list(rnd.choice(every))
        t[rnd.randrange(len(t))] = rnd.choice(al)
        r.append(sums([''.join(t)], '64', 20, 6))
    return r


# ---------------------------------------------------------------- C14: hmacsum itself
def build_program(variant='builtin'):
    if variant in _exe:
        return _exe[variant]
    from .tools import inc
    out = os.path.join(env.scratch(), 'hmacsum-%s-%d' % (variant, os.getpid()))
    cmd = ['gcc', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-w', '-DVT_PROGRAM', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-free', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=signal,--wrap=setvbuf'] + \
        env.cflags(variant) + list(inc()) + [os.path.join(env.VERIF, 'native/tools_driver.c'), os.path.join(env.VERIF, 'native/libcerror.c')] + \
        [os.path.join(env.REPO, x) for x in PROGSRC + TOOLSRC + native.SRCS] + ['-o', out, '-lpthread']
    r = env.run(cmd, timeout=240)
    if r.rc != 0:
        raise native.BuildFailed(r.err[-2000:])
    _exe[variant] = out
    return out


PROGSRC = ['hmactools/hmacsum.c', 'hmactools/hmactools_getopt.c', 'hmactools/hmactools_output.c', 'hmactools/hmactools_signal.c']


def hmacsum(args, variant='builtin', n=100, seed=1, chunk=0, failat=0, libfailat=0, sigat=0, sigfree=0):
    """Runs the program: (exit status, stdout, report)."""
    import tempfile
    exe = build_program(variant)
    fd, rep = tempfile.mkstemp(dir=env.scratch())
    os.close(fd)
    en = dict(os.environ, VT='%d %d %d %d %d %d %d' % (n, seed, chunk, failat, libfailat, sigat, sigfree), VT_REPORT=rep, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='exitcode=99')
    en.pop('POSIXLY_CORRECT', None)
    r = env.run([exe] + args, timeout=60, env=en, input='')
    f = native.parse(open(rep).read())
    os.unlink(rep)
    return r.rc, r.out, f, r.err


def plan_program(rnd, deep, permutes=True):
    allt = 'md5,sha1,sha224,sha256,sha512'
    R = []

    def case(what, args, want, **kw):
        R.append((what, args, want, kw))

    def full(args_types, n, seed, buf=None):
        """Digests printed, status 0, the operand opened."""
        def chk(rc, out, f, err, name):
            on = enabled([args_types] if args_types else [])
            t = texts(on, gen(n, seed))
            if rc != 0:
                return 'exit status %s' % rc, '0'
            if not out.endswith(t) or out.count('hash calculated') != len(on):
                return 'prints %r' % out, 'the version line and %r' % t
            if f.get('opened') != '1' or f.get('name') != name:
                return 'opens %s (%s times)' % (f.get('name'), f.get('opened')), name
            if buf and n and max([int(x) for x in f['reads'].split(',') if x.isdigit()] or [0]) != min(buf, n):
                return 'reads %s' % f['reads'], 'at most %d at once' % buf
            if f.get('live') != '0':
                return 'memory or a file is left', 'live=0'
        return chk

    def refused(rc, out, f, err, name):
        if rc in (0, 99) or rc < 0:
            return 'exit status %s' % rc, 'another status than 0'
        if 'hash calculated' in out:
            return 'prints digests', 'none'

    def refused_early(rc, out, f, err, name):
        if f.get('opened') != '0':
            return 'opens the input', 'nothing is opened'
        return refused(rc, out, f, err, name)

    def says(text):
        def chk(rc, out, f, err, name):
            if rc != 0:
                return 'exit status %s' % rc, '0'
            if text not in out or 'hash calculated' in out or f.get('opened') != '0':
                return 'prints %r' % out[:200], text
        return chk
    n = 70000
    for d in (None, 'md5', 'sha1', allt, 'sha512,sha256'):
        D = [] if d is None else ['-d', d]
        for p, eff in ((None, 32768), ('100', 100), ('1k', 1024), ('64 KiB', 65536), ('9223372036854775808', 32768), ('32768', 32768), ('16385', 16385)):
            Pz = [] if p is None else ['-p', p]
            for a in ([D + Pz + ['in'], Pz + D + ['in']] if D and Pz else [D + Pz + ['in']]):
                case('digests', a, (full(d, n, 3, eff), 'in'), n=n, seed=3)
    case('digests', ['-dsha1', '-p77', 'in'], (full('sha1', 500, 2, 77), 'in'), n=500, seed=2)
    case('digests', ['-vdsha1', 'in'], (full('sha1', 500, 2), 'in'), n=500, seed=2)
    case('digests', ['-d', 'sha1', '-d', 'sha256', 'in'], (full('sha256', 500, 2), 'in'), n=500, seed=2)
    case('digests', ['-p', '9', '-p', '50', 'in'], (full(None, 500, 2, 50), 'in'), n=500, seed=2)
    case('digests', ['-d', 'sha256', '-v', '-p', '50', '-d', 'sha512', 'in', 'in2'], (full('sha512', 500, 2, 50), 'in'), n=500, seed=2)
    case('digests', ['in', '-d', 'sha224'], (full('sha224' if permutes else None, 0, 2), 'in'), n=0, seed=2)
    case('digests', ['-v', '-'], (full(None, 10, 2), '-'), n=10, seed=2)
    case('digests', ['-vvvd', 'sha1', '-vp5', '-v', 'in'], (full('sha1', 40, 2, 5), 'in'), n=40, seed=2)
    case('digests', ['--', '-d'], (full(None, 10, 2), '-d'), n=10, seed=2)
    case('digests', ['-'], (full(None, 10, 2), '-'), n=10, seed=2)
    case('digests', ['-v', ''], (full(None, 10, 2), ''), n=10, seed=2)
    case('digests', ['', '-'], (full(None, 10, 2), ''), n=10, seed=2)
    case('digests', ['in', '', '-v'], (full(None, 10, 2), 'in'), n=10, seed=2)

    def verb(v):
        return lambda rc, out, f, err, name: None if f.get('verbose') == v else ('verbose is %s' % f.get('verbose'), v)
    for a, v in ((['in'], '0'), (['-v', 'in'], '1'), (['-v', '-d', 'sha1', 'in'], '1'), (['-d', 'sha1', '-p', '10', '-v', 'in'], '1'), (['-d', 'sha1', '-p', '10', 'in'], '0')):
        case('verbosity', a, (verb(v), 'in'), n=30)
    for a in (['-h'], ['-h', 'in'], ['-d', 'sha1', '-h', 'in'], ['-vh', 'in'], ['-vvh'], ['-dmd5', '-vh']) + ((['in', '-vh'],) if permutes else ()):
        case('help', a, (says('Usage: hmacsum'), ''))
    for a in (['-V'], ['-V', 'in'], ['-p', '10', '-V', 'in']):
        case('version', a, (says('Copyright'), ''))
    for a in ([], ['-v'], ['-d', 'md5'], ['-x', 'in'], ['-d'], ['-p'], ['-vp'], ['-q'], ['-vq', 'in'], ['-d', 'md5', '-Z', 'in'], ['-p', 'x', 'in'], ['-p', '', 'in'], ['-p', '1q', 'in'], ['-p', '-1', 'in'], ['-p', '18446744073709551616', 'in'], ['-:', 'in'], ['-?', 'in']):
        case('refused', a, (refused_early if a != ['-p', '', 'in'] else lambda *x: None, ''))
    case('refused', ['-p', '0', 'in'], (refused, ''))

    def fault(kind, k, n, types):
        def chk(rc, out, f, err, name):
            if rc < 0 or rc == 99:
                return 'exit status %s: %s' % (rc, ' '.join(l for l in err.split('\n') if 'ERROR' in l or 'runtime error' in l or ' #' in l)[:700]), 'no crash'
            hit = k <= int(f['allocs' if kind == 'allocation' else 'libcalls'])
            who = f.get('failed', '-')
            soft = kind != 'allocation' and who == '__wrap_signal'
            t = texts(enabled([types]), gen(n, 1))
            if 'hash calculated' in out and not out.endswith(t):
                return 'prints %r' % out, 'complete digests'
            if not hit or soft:
                return full(types, n, 1)(rc, out, f, err, name)
            if rc == 0:
                return 'exit status 0 after failure %d of %s (%s)' % (k, kind, who), 'another status'
            if 'hash calculated' in out and who not in ('libcfile_file_close', 'libcfile_file_free'):
                return 'digests are printed after failure %d of %s (%s)' % (k, kind, who), 'none'
            if f.get('live') != '0' and False:
                return 'memory or a file is left', 'live=0'
        return chk
    for ty in ('md5', allt):
        for k in range(1, 34):
            case('failure of dependency call %d' % k, ['-d', ty, '-p', '10', 'in'], (fault('dependency', k, 25, ty), 'in'), n=25, libfailat=k)
        for k in range(1, 16):
            case('failure of allocation %d' % k, ['-d', ty, '-p', '10', 'in'], (fault('allocation', k, 25, ty), 'in'), n=25, failat=k)

    def interrupted(k, n, types):
        def chk(rc, out, f, err, name):
            if rc == 99 or rc not in (0, 1, -2):
                return 'exit status %s: %s' % (rc, ' '.join(l for l in err.split('\n') if 'ERROR' in l or 'runtime error' in l or ' #' in l)[:700]), 'no crash'
            t = texts(enabled([types]), gen(n, 1))
            if 'hash calculated' in out and t not in out:
                return 'prints %r' % out, 'complete digests or none'
            if rc == 0 and k <= int(f.get('libcalls', '0')):
                return 'exit status 0 after SIGINT during call %d' % k, 'another status'
        return chk
    for k in range(1, 34):
        case('SIGINT during dependency call %d' % k, ['-d', allt, '-p', '10', 'in'], (interrupted(k, 45, allt), 'in'), n=45, sigat=k)

    def sane(rc, out, f, err, name):
        if rc == 99 or rc not in (0, 1, -2):
            return 'exit status %s: %s' % (rc, ' '.join(l for l in err.split('\n') if 'ERROR' in l or ' #' in l)[:700]), 'no access to released memory'
    for lf in [0] + list(range(4, 24)):
        for k in range(1, 16):
            case('SIGINT after release %d, failure of dependency call %d' % (k, lf), ['-d', 'md5,sha1', '-p', '10', 'in'], (sane, 'in'), n=25, libfailat=lf, sigfree=k)
    return R


def run_program(rnd, deep, limit=3, variant='builtin'):
    from concurrent.futures import ThreadPoolExecutor
    build_program(variant)
    cases = plan_program(rnd, deep, variant == 'builtin')
    if variant != 'builtin':
        cases = [c for c in cases if not c[3].get('sigfree')]

    def one(c):
        what, args, (chk, name), kw = c
        rc, out, f, err = hmacsum(args, variant, **kw)
        try:
            x = chk(rc, out, f, err, name)
        except (KeyError, ValueError):
            x = ('no report (exit status %s) %s' % (rc, err[-400:]), 'a report')
        return Failure('%s: %s' % (what, x[0]), 'hmacsum %s %s' % (' '.join(map(repr, args)), kw), out[-600:], x[1], 'program' if variant == 'builtin' else 'program without getopt') if x else None
    with ThreadPoolExecutor(8) as ex:
        fails = [x for x in ex.map(one, cases) if x]
    return len(cases), fails[:limit]


def replay_program(P, res, bad, open_, out, tier):
    for v in ('builtin', 'nogetopt'):
        try:
            n, f = run_program(random.Random(env.SEED), tier == 'thorough', variant=v)
        except native.BuildFailed as x:
            out['note'] += ' [hmacsum does not build: %s]' % str(x)[-200:].replace('\n', ' ')
            continue
        out['executions'] += n
        out['failures'] += [str(x) for x in f]


PLANS = {'hex': plan_hex, 'sizes': plan_size, 'sum': plan_sum, 'faults': plan_faults, 'types': plan_types}


def replay(P, res, bad, open_, out, tier):
    rnd = random.Random(env.SEED)
    for p in P.plans:
        cmds = PLANS[p](rnd, tier == 'thorough')
        try:
            f = run(cmds)
        except native.BuildFailed as x:
            out['note'] += ' [hmactools does not build: %s]' % str(x)[-200:].replace('\n', ' ')
            return
        out['executions'] += len(cmds)
        out['failures'] += [str(x) for x in f]


if __name__ == '__main__':
    import sys
    env.gen_headers(False)
    for p in sys.argv[1:] or PLANS:
        if p == 'program':
            for v in ('builtin', 'nogetopt'):
                n, fs = run_program(random.Random(1), True, 9, v)
                print(p, v, n, len(fs))
                for f in fs:
                    print(f)
            continue
        c = PLANS[p](random.Random(1), True)
        fs = run(c)
        print(p, len(c), len(fs))
        for f in fs:
            print(f)
