"""Random small changes to one function at a time, to find what the checks do not see.
VT_REPO is set to a scratch copy. python3-vt tools/mutate.py <seed> <count> <file under /repo> [...]
Prints per mutant: same (IR unchanged), nocompile, caught (rc=1) with or without a failing input, quiet (open obligations, no
violation) or SURVIVED (everything proved)."""
import os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SKIP = re.compile(r'libcerror_error_set\((?:[^;]*);', re.S)


def bodies(t):
    """spans of function bodies"""
    for m in re.finditer(r'(?m)^\{\n', t):
        e = t.index('\n}\n', m.end())
        yield m.end(), e


def sites(t):
    """(start, end, replacement, description) of every candidate"""
    r = []
    for a, b in bodies(t):
        body = t[a:b]
        mask = set()
        for m in SKIP.finditer(body):
            mask |= set(range(m.start(), m.end()))
        for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\]|\\.)*"|#[^\n]*', body, re.S):
            mask |= set(range(m.start(), m.end()))

        def add(m, g, x, w):
            if m.start(g) not in mask:
                r.append((a + m.start(g), a + m.end(g), x, w))
        for m in re.finditer(r'(?<![<>=!+\-*/&|^])(<=|>=|==|!=|<|>)(?![<>=])', body):
            o = m.group(1)
            for x in {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[o]:
                add(m, 1, x, 'rel %s -> %s' % (o, x))
        for m in re.finditer(r' (\+|-|\+=|-=|<<|>>|&|\||\^|\^=|&&|\|\||%|/|\*=) ', body):
            o = m.group(1)
            x = {'+': '-', '-': '+', '+=': '-=', '-=': '+=', '<<': '>>', '>>': '<<', '&': '|', '|': '&', '^': '|', '^=': '|=', '&&': '||', '||': '&&', '%': '/', '/': '%', '*=': '+='}[o]
            add(m, 1, x, 'op %s -> %s' % (o, x))
        for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F]+|\d+)(?![\w.'])", body):
            n = int(m.group(1), 0)
            for d in (1, -1):
                if n + d >= 0:
                    add(m, 1, str(n + d), 'const %s -> %d' % (m.group(1), n + d))
        for m in re.finditer(r'(\+\+|--)', body):
            add(m, 1, '--' if m.group(1) == '++' else '++', 'inc')
        for m in re.finditer(r'(?m)^\t+([^\n;{}#]*?(?:=|\+=|-=|\^=|\+\+|--)[^\n;{}=]*;)$', body):
            if not re.match(r'(size_t|int|uint|static|uint64_t|ssize_t|uint8_t|uint32_t|libhmac)', m.group(1)):
                add(m, 1, ';', 'delete ' + m.group(1)[:40])
        for m in re.finditer(r'(?m)^\t+((?:memory_free|memory_set|memory_copy|byte_stream\w+)\([^;]*\);)$', body):
            add(m, 1, ';', 'delete ' + re.sub(r'\s+', ' ', m.group(1))[:50])
        for m in re.finditer(r'(?m)^\t+((?:Py|lib|pyhmac|sum_handle|hmac)\w+\(\n[^;{}=]*\);)$', body):
            r.append((a + m.start(1), a + m.end(1), ';', 'delete ' + re.sub(r'\s+', ' ', m.group(1))[:50])) if 'libcerror_error_set' not in m.group(1) else None
        for m in re.finditer(r'return\( (NULL|bytes_object) \)', body):
            add(m, 1, 'Py_None', 'return Py_None')
        for m in re.finditer(r'(Py_BEGIN_ALLOW_THREADS|Py_END_ALLOW_THREADS)', body):
            add(m, 1, '', 'delete ' + m.group(1)) if 0 else None
        for m in re.finditer(r'return\( (-?1|0|result) \)', body):
            for x in ('-1', '1', '0'):
                if x != m.group(1):
                    add(m, 1, x, 'return %s' % x)
        for m in re.finditer(r'(goto on_error;|break;)', body):
            add(m, 1, ';', 'delete ' + m.group(1))
        for m in re.finditer(r'(?m)^\t(?=(?:size_t|ssize_t|uint64_t|uint32_t|uint8_t|int|size64_t|system_integer_t|lib\w+_t \*|uint8_t \*|PyObject \*|char \*)\s*\*?\w+(?:\[[^\]]*\])?\s*(?:=|;))', body):
            r.append((a + m.end(), a + m.end(), 'static ', 'static local ' + body[m.end():m.end() + 40].split('=')[0].strip()))
        for m in re.finditer(r'(?m)^\t(size_t|ssize_t|uint64_t|uint32_t|size64_t)(?=\s+\w+\s*=)', body):
            for x in ('uint8_t', 'uint16_t', 'uint32_t', 'int'):
                if x != m.group(1):
                    r.append((a + m.start(1), a + m.end(1), x, 'type %s -> %s' % (m.group(1), x)))
        for m in re.finditer(r'(?m)^(\t+[^\n;{}#]*?;\n)\n?(\t+[^\n;{}#]*?;\n)', body):
            if m.start(1) not in mask and m.start(2) not in mask and not re.match(r'\s*(return|goto|break|static|size_t|uint|int |lib)', m.group(1)) and not re.match(r'\s*(return|goto|break)', m.group(2)):
                r.append((a + m.start(), a + m.end(), m.group(2) + m.group(1), 'swap ' + re.sub(r'\s+', ' ', m.group(0))[:60]))
        for m in re.finditer(r'(?m)^\t+(else)\n', body):
            add(m, 1, '', 'delete else')
        for m in re.finditer(r'\b(inner_padding|outer_padding|key_data|key_hash|hmac|buffer|key)\b(?=[,\[ ])', body):
            for x in ('inner_padding', 'outer_padding', 'key_data', 'hmac', 'buffer'):
                if x != m.group(1) and x in body:
                    add(m, 1, x, '%s -> %s' % (m.group(1), x))
        ids = sorted(set(re.findall(r'\b(?:size|\w+_size|\w+_offset|\w+_count|\w+_index|\w+_iterator|value_\w|[abcdefgh])\b', body)))
        for m in re.finditer(r'\b(?:size|\w+_size|\w+_offset|\w+_count|\w+_index|\w+_iterator|value_\w)\b', body):
            x = random.choice(ids)
            if x != m.group(0):
                add(m, 0, x, '%s -> %s' % (m.group(0), x))
    return r


CHILD = r'''
import os, sys, json, re
sys.path.insert(0, %r)
from vt import props, check, env, ir
path = sys.argv[1]
env.gen_headers(False); env.gen_headers(True)
us = []
m = re.search(r'libhmac_(md5|sha\d+)(_context)?\.c', path)
if m:
    pids = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
    ok = lambda u: u[2][0] == m.group(1) and (u[0] == 'context') == bool(m.group(2))
elif 'digest_hash' in path:
    pids, ok = ['C10'], lambda u: True
elif 'pyhmac_' in path and 'error' not in path:
    pids, ok = ['C15'], lambda u: u[2][0] == re.search(r'pyhmac_(\w+?)[_.]', path).group(1)
elif 'pyhmac' in path:
    pids, ok = ['C15'], lambda u: u[1] in ('b_error', 'b_version', 'b_module')
elif re.search('hmacsum|getopt|signal|output', path):
    pids, ok = ['C14'], lambda u: True
elif 'sum_handle' in path:
    pids, ok = ['C11', 'C12', 'C13'], lambda u: u[1] != 'convert'
else:
    pids, ok = ['C13'], lambda u: u[1] != 'convert' or u[2][1] in ('', 'k', 'M', 'Z')
for p in pids:
    P = props.PROPS[p]
    mine = [u for u in P.units('quick') if ok(u)]
    P._units = mine
    us += [u for u in mine if u not in us]
check.BUDGET['quick'] = 300
res = check.verify(us, 'quick')
bad = [r for r in res if r['status'] != 'ok']
failed = [(r, o) for r in res for o in r['obl'] if o['status'] != 'proved']
if not bad and not failed:
    print('RESULT SURVIVED'); sys.exit(0)
rc, conc = 0, 0
out = []
import io, contextlib
orig = check.verify
for p in pids:
    P = props.PROPS[p]
    sub = [r for r in res if (r['mod'], r['fn'], tuple(r['args'])) in [(u[0], u[1], tuple(u[2])) for u in P._units]]
    if not any(r['status'] != 'ok' or any(o['status'] != 'proved' and P.select(o) for o in r['obl']) for r in sub):
        continue
    check.verify = lambda a, b: sub
    sys.argv = ['x', p]
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        c = check.main()
    o = b.getvalue()
    out.append('%%s rc=%%d%%s' %% (p, c, ' no-failing-input' if 'no-failing-input' in o else ''))
    if c == 1 and 'no-failing-input' not in o:
        conc += 1
    rc = max(rc, c)
    if conc:
        break
names = sorted({o['name'][:90] for r, o in failed})[:3]
print('RESULT', ('caught' if conc else 'nofail' if rc == 1 else 'QUIET' if rc == 0 else 'rc%%d' %% rc), '; '.join(out), '|', '; '.join('%%s %%s' %% (r['unit'], r['reason'][-80:].replace(chr(10), ' ')) for r in bad[:2]), '|', '; '.join(names))
''' % V


def main():
    seed, count, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    random.seed(seed)
    d = tempfile.mkdtemp(prefix='vt-mut-')
    tv = tempfile.mkdtemp(prefix='vt-mutv-')
    try:
        subprocess.run(['cp', '-a', os.environ.get('VT_REPO', '/repo') + '/.', d], check=True)
        for k in range(count):
            f = random.choice(files)
            p = os.path.join(d, f)
            t = open(p).read()
            s = [y for y in sites(t) if re.match(os.environ.get('MUT_KIND', ''), y[3])]
            a, b, x, w = random.choice(s)
            u = t[:a] + x + t[b:]
            line = t[:a].count('\n') + 1
            fn = (re.findall(r'(?m)^(?:int|ssize_t|void|PyObject \*|PyMODINIT_FUNC) ?(\w+)\(', t[:a]) or ['?'])[-1]
            open(p, 'w').write(u)
            try:
                r = subprocess.run(['python3-vt', '-c', CHILD, f], cwd=V, env=dict(os.environ, VT_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
                o = [l for l in r.stdout.split('\n') if l.startswith('RESULT')]
                o = o[0] if o else 'ERROR ' + r.stdout[-300:].replace('\n', ' ')
            except subprocess.TimeoutExpired:
                o = 'TIMEOUT'
            finally:
                open(p, 'w').write(t)
            print('%s:%d %s [%s] %s' % (f.split('/')[-1], line, fn, w, o[:400]), flush=True)
    finally:
        shutil.rmtree(d, True)
        shutil.rmtree(tv, True)


main()
