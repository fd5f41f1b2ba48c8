"""Paths, generated headers and process helpers shared by every check."""
import os, re, shutil, subprocess, tempfile, time, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
VERSION = '20241028'
ALGS = {
    'md5':    dict(block=64, words=4, ws=4, out=16, end='little'),
    'sha1':   dict(block=64, words=5, ws=4, out=20, end='big'),
    'sha224': dict(block=64, words=8, ws=4, out=28, end='big'),
    'sha256': dict(block=64, words=8, ws=4, out=32, end='big'),
    'sha512': dict(block=128, words=8, ws=8, out=64, end='big'),
}

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vt-hmac-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def read(path):
    with open(path, errors='replace') as f:
        return f.read()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def gen_headers(rolled=False):
    """Instantiates /repo's .in headers as configure does. Returns the include flags.
    rolled=True is the documented alternative configuration in which
    LIBHMAC_UNFOLLED_LOOPS is not defined."""
    d = os.path.join(scratch(), 'inc-rolled' if rolled else 'inc')
    if not os.path.isdir(d):
        subst = {'VERSION': VERSION, 'PACKAGE': 'libhmac',
                 'HAVE_SYS_TYPES_H': '1', 'HAVE_INTTYPES_H': '1', 'HAVE_STDINT_H': '1',
                 'HAVE_WCHAR_H': '1', 'HAVE_SIZE32_T': '0', 'HAVE_SSIZE32_T': '0',
                 'HAVE_SIZE64_T': '0', 'HAVE_SSIZE64_T': '0', 'HAVE_OFF64_T': '1',
                 'HAVE_WIDE_CHARACTER_TYPE': '0'}
        for src, dst in (('include/libhmac.h.in', 'libhmac.h'),
                         ('include/libhmac/definitions.h.in', 'libhmac/definitions.h'),
                         ('include/libhmac/features.h.in', 'libhmac/features.h'),
                         ('include/libhmac/types.h.in', 'libhmac/types.h'),
                         ('libhmac/libhmac_definitions.h.in', 'libhmac_definitions.h'),
                         ('common/types.h.in', 'types.h')):
            t = read(os.path.join(REPO, src))
            t = re.sub(r'@([A-Z0-9_]+)@', lambda m: subst.get(m.group(1), '0'), t)
            if rolled and dst == 'libhmac_definitions.h':
                t = re.sub(r'(?m)^\s*#\s*define\s+LIBHMAC_UNFOLLED_LOOPS.*$', '', t)
            write(os.path.join(d, dst), t)
    R = REPO
    return ['-I' + os.path.join(VERIF, 'stubs/config'), '-I' + d, '-I' + R + '/include', '-I' + R + '/common',
            '-I' + R + '/libhmac', '-I' + os.path.join(VERIF, 'stubs/include')]


def cflags(variant='builtin'):
    f = ['-DHAVE_CONFIG_H']
    if variant == 'evp':
        f.append('-DVT_EVP')
    elif variant == 'evp-noex2':
        f += ['-DVT_EVP', '-DVT_EVP_NO_EX2']
    elif variant == 'direct':
        f.append('-DVT_DIRECT')
    elif variant == 'nogetopt':
        f.append('-DVT_NO_GETOPT')
    return f + gen_headers(rolled=variant == 'rolled')


class Result:
    def __init__(self, rc, out, err, secs, timeout):
        self.rc, self.out, self.err, self.secs, self.timeout = rc, out, err, secs, timeout


def run(cmd, timeout=600, cwd=None, env=None, input=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         cwd=cwd or scratch(), env=env, start_new_session=True, text=True, errors='replace')
    try:
        out, err = p.communicate(input=input, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        to = True
    return Result(p.returncode, out, err, time.time() - t, to)
