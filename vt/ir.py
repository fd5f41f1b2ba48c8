"""Parser for the LLVM 18 textual IR that clang produces from /repo's sources."""
import re, os
from . import env

TOK = re.compile(r'''\s*(c?"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!#][-\w.$]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[\[\]{}()<>,=*!|])''')


def tokens(s):
    r, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            i += 1
            continue
        r.append(m.group(1))
        i = m.end()
    return r


class Unsupported(Exception):
    pass


class T:
    """A type: kind int/ptr/array/struct/void/func/other."""
    def __init__(s, kind, **k):
        s.kind = kind
        s.__dict__.update(k)

    def __repr__(s):
        return s.kind + (str(s.bits) if s.kind == 'int' else '')


VOID, PTR = T('void'), T('ptr')
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = T('int', bits=n)
    return _ints[n]


class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def accept(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if not s.accept(x):
            raise Unsupported('expected %s got %s in %s' % (x, s.peek(), ' '.join(s.t[:40])))

    def type(s):
        t = s.next()
        if re.fullmatch(r'i\d+', t):
            r = INT(int(t[1:]))
        elif t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == '[':
            n = int(s.next())
            s.expect('x')
            e = s.type()
            s.expect(']')
            r = T('array', n=n, e=e)
        elif t == '{':
            fs = []
            while not s.accept('}'):
                fs.append(s.type())
                s.accept(',')
            r = T('struct', fields=fs, name=None)
        elif t[0] == '%':
            r = s.m.named(t)
        elif t in ('double', 'float', 'metadata', 'label', 'x86_fp80', 'opaque'):
            r = T('other', name=t)
        else:
            raise Unsupported('type ' + t)
        if s.peek() == '(':      # function type
            s.next()
            while not s.accept(')'):
                s.next()
            r = T('func', ret=r)
        return r

    ATTRS = set('noundef nonnull signext zeroext nocapture readonly readnone writeonly noalias immarg returned inreg nofree inbounds'.split())

    def attrs(s):
        while True:
            t = s.peek()
            if t in s.ATTRS:
                s.next()
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocptr', 'allocalign'):
                s.next()
                if s.accept('('):
                    while not s.accept(')'):
                        s.next()
                elif s.peek() and re.fullmatch(r'\d+', s.peek()):
                    s.next()
            else:
                return

    def value(s, ty):
        """('int',v) ('reg',name) ('glob',name) ('null',) ('undef',) ('zero',) ('agg',[..]) ('str',bytes) ('gep',...)"""
        t = s.next()
        if t[0] == '%':
            return ('reg', t)
        if t[0] == '@':
            return ('glob', t[1:].strip('"'))
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if t in ('true', 'false'):
            return ('int', 1 if t == 'true' else 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t[0] == 'c' and t[1:2] == '"':
            raw = t[2:-1]
            return ('str', bytes(int(m.group(1), 16) if m.group(1) else ord(m.group(2)) for m in re.finditer(r'\\([0-9A-Fa-f]{2})|(.)', raw, re.S)))
        if t in ('[', '{'):
            vs = []
            close = ']' if t == '[' else '}'
            while not s.accept(close):
                et = s.type()
                vs.append((et, s.value(et)))
                s.accept(',')
            return ('agg', vs)
        if t == 'getelementptr':
            s.accept('inbounds')
            s.expect('(')
            bt = s.type()
            s.expect(',')
            pt = s.type()
            base = s.value(pt)
            idx = []
            while s.accept(','):
                it = s.type()
                idx.append((it, s.value(it)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if t in ('inttoptr', 'ptrtoint', 'bitcast'):
            s.expect('(')
            st = s.type()
            v = s.value(st)
            s.expect('to')
            s.type()
            s.expect(')')
            return v
        if t in ('metadata',):
            return ('meta',)
        raise Unsupported('value ' + t)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'text')


class Block:
    def __init__(s, name):
        s.name, s.ins = name, []


class Func:
    pass


class Module:
    def __init__(m):
        m.types, m.globals, m.funcs, m.decls = {}, {}, {}, {}
        m.dbg = {}

    def named(m, n):
        if n not in m.types:
            m.types[n] = T('struct', fields=None, name=n)
        return m.types[n]

    # layout --------------------------------------------------------------
    def align(m, t):
        if t.kind == 'int':
            b = (t.bits + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return min(p, 16)
        if t.kind == 'ptr':
            return 8
        if t.kind == 'array':
            return m.align(t.e)
        if t.kind == 'struct' and t.fields is not None:
            return max([m.align(f) for f in t.fields] or [1])
        if t.kind == 'other' and t.name == 'double':
            return 8
        raise Unsupported('align %r' % t)

    def size(m, t):
        if t.kind == 'int':
            a = m.align(t)
            return ((t.bits + 7) // 8 + a - 1) // a * a
        if t.kind == 'ptr':
            return 8
        if t.kind == 'array':
            return t.n * m.size(t.e)
        if t.kind == 'struct' and t.fields is not None:
            o = 0
            for f in t.fields:
                a = m.align(f)
                o = (o + a - 1) // a * a + m.size(f)
            a = m.align(t)
            return (o + a - 1) // a * a
        if t.kind == 'other' and t.name == 'double':
            return 8
        raise Unsupported('size %r' % t)

    def field(m, t, i):
        o = 0
        for k, f in enumerate(t.fields):
            a = m.align(f)
            o = (o + a - 1) // a * a
            if k == i:
                return o, f
            o += m.size(f)
        raise Unsupported('field')


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    cur = None
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l or l[0] == ';':
            continue
        if l.startswith('!'):
            mm = re.match(r'!(\d+) = .*!DILocation\(line: (\d+)', l)
            if mm:
                m.dbg[mm.group(1)] = int(mm.group(2))
            continue
        if l.startswith('%') and ' = type ' in l:
            n, d = l.split(' = type ', 1)
            if d.strip() == 'opaque':
                m.named(n)
                continue
            t = P(tokens(d), m).type()
            m.named(n).fields = t.fields
            continue
        if l.startswith('@'):
            mm = re.match(r'@("[^"]*"|[\w.$]+) = (.*)$', l)
            name, rest = mm.group(1).strip('"'), mm.group(2)
            kind = re.search(r'\b(global|constant)\b', rest)
            external = re.search(r'\bexternal\b', rest[:kind.start()]) is not None
            p = P(tokens(rest[kind.end():]), m)
            ty = p.type()
            m.globals[name] = (ty, None if external else p.value(ty), kind.group(1) == 'constant', 'internal' in rest[:kind.start()] or 'private' in rest[:kind.start()])
            continue
        if l.startswith('declare'):
            mm = re.search(r'@([\w.$]+)\(', l)
            m.decls[mm.group(1)] = l
            continue
        if l.startswith('define'):
            f = Func()
            mm = re.search(r'@([\w.$]+)\((.*)\)[^)]*\{', l)
            f.name = mm.group(1)
            f.internal = ' internal ' in l
            p = P(tokens(l[l.index('@'):]), m)
            p.next()
            p.expect('(')
            f.params = []
            f.vararg = False
            while not p.accept(')'):
                if p.accept('...'):
                    f.vararg = True
                    continue
                t = p.type()
                p.attrs()
                f.params.append((t, p.next()))
                p.accept(',')
            pre = tokens(l[len('define'):l.index('@')])
            while pre and (pre[0] in ('dso_local', 'internal', 'hidden') or pre[0] in P.ATTRS):
                pre.pop(0)
            f.ret = P(pre, m).type()
            f.blocks = {}
            f.order = []
            m.funcs[f.name] = f
            cur = None
            while True:
                l = lines[i]
                i += 1
                if l == '}':
                    break
                if not l.strip():
                    continue
                mm = re.match(r'([-\w.$]+|"[^"]*"):', l)
                if mm and not l.startswith(' '):
                    cur = Block('%' + mm.group(1).strip('"'))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                    continue
                if cur is None:
                    cur = Block('%entry')
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                if ' switch ' in l or l.strip().startswith('switch'):
                    while ']' not in l:
                        l += ' ' + lines[i].strip()
                        i += 1
                ins = instr(l, m)
                if ins is not None:
                    cur.ins.append(ins)
            continue
    return m


BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr'.split())
CASTS = set('zext sext trunc ptrtoint inttoptr bitcast'.split())


def instr(l, m):
    dm = re.search(r', !dbg !(\d+)', l)
    text = re.sub(r', ![\w.]+ ![\w]+', '', l).strip()
    ins = Instr()
    ins.text = text
    ins.line = dm.group(1) if dm else None
    ins.res = None
    p = P(tokens(text), m)
    if len(p.t) > 1 and p.t[1] == '=':
        ins.res = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.op = op
    ins.ty = None
    ins.x = None
    if op in BIN:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.add(p.next())
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        ins.args = [a, p.value(ins.ty)]
        ins.x = fl
    elif op in CASTS:
        while p.peek() in ('nneg', 'nsw', 'nuw'):
            p.next()
        st = p.type()
        a = p.value(st)
        p.expect('to')
        ins.ty = p.type()
        ins.args = [(st, a)]
    elif op == 'icmp':
        ins.x = p.next()
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        ins.args = [a, p.value(ins.ty)]
    elif op == 'load':
        p.accept('volatile')
        ins.ty = p.type()
        p.expect(',')
        ins.args = [p.value(p.type())]
    elif op == 'store':
        p.accept('volatile')
        ins.ty = p.type()
        v = p.value(ins.ty)
        p.expect(',')
        ins.args = [v, p.value(p.type())]
    elif op == 'getelementptr':
        p.accept('inbounds')
        ins.ty = p.type()
        p.expect(',')
        base = p.value(p.type())
        idx = []
        while p.accept(','):
            t = p.type()
            idx.append((t, p.value(t)))
        ins.args = [base, idx]
    elif op == 'alloca':
        ins.ty = p.type()
        ins.args = []
        if p.accept(',') and p.peek() != 'align':
            t = p.type()
            ins.args = [(t, p.value(t))]
    elif op == 'br':
        if p.accept('label'):
            ins.args = [p.next()]
        else:
            c = p.value(p.type())
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            ins.args = [c, a, p.next()]
    elif op == 'switch':
        ins.ty = p.type()
        v = p.value(ins.ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            cs.append((c, p.next()))
        ins.args = [v, d, cs]
    elif op == 'ret':
        ins.ty = p.type()
        ins.args = [] if ins.ty.kind == 'void' else [p.value(ins.ty)]
    elif op == 'phi':
        ins.ty = p.type()
        ins.args = []
        while True:
            p.expect('[')
            v = p.value(ins.ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            ins.args.append((v, b))
            if not p.accept(','):
                break
    elif op == 'select':
        p.type()
        c = p.value(INT(1))
        p.expect(',')
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        p.type()
        ins.args = [c, a, p.value(ins.ty)]
    elif op == 'call':
        p.attrs()
        while p.peek() in ('fastcc', 'ccc'):
            p.next()
        ins.ty = p.type()
        if ins.ty.kind == 'func':
            ins.ty = ins.ty.ret
        f = p.next()
        if f.startswith('@llvm.dbg') or f.startswith('@llvm.lifetime'):
            return None
        p.expect('(')
        a = []
        while not p.accept(')'):
            t = p.type()
            p.attrs()
            a.append((t, p.value(t)))
            p.accept(',')
        ins.args = a
        ins.x = f
    elif op == 'unreachable':
        ins.args = []
    elif op == 'freeze':
        ins.ty = p.type()
        ins.args = [p.value(ins.ty)]
    else:
        ins.op = 'unsupported'
        ins.x = op
        ins.args = []
    return ins


def succs(b):
    t = b.ins[-1]
    if t.op == 'br':
        return [t.args[0]] if len(t.args) == 1 else t.args[1:]
    if t.op == 'switch':
        return list(dict.fromkeys([t.args[1]] + [x for _, x in t.args[2]]))
    return []


def loops(f):
    """{header: set(blocks)} for natural loops; raises Unsupported if irreducible."""
    order, seen, state = [], set(), {}
    back = []
    st = [(f.order[0], iter(succs(f.blocks[f.order[0]])))]
    state[f.order[0]] = 1
    while st:
        n, it = st[-1]
        for s in it:
            if state.get(s) == 1:
                back.append((n, s))
            elif s not in state:
                state[s] = 1
                st.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            state[n] = 2
            st.pop()
    preds = {}
    for b in f.blocks.values():
        for s in succs(b):
            preds.setdefault(s, []).append(b.name)
    res = {}
    for n, h in back:
        body = res.setdefault(h, {h})
        w = [n]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w.extend(preds.get(x, []))
    return res


class CompileError(Exception):
    pass


def compile_ir(src, variant='builtin', extra=(), keep=None):
    """clang front end on the real source file, then SSA construction only (mem2reg)."""
    base = os.path.join(env.scratch(), 'll-%d-%s-%s' % (os.getpid(), variant, re.sub(r'\W', '_', os.path.basename(src))))
    fl = env.cflags(variant)
    r = env.run(['clang-18', '-w', '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-discard-value-names',
                 '-fno-builtin', '-emit-llvm', '-S', '-o', base + '.ll', src] + fl + list(extra))
    if r.rc:
        raise CompileError(r.err[-2000:])
    r = env.run(['opt-18', '-S', '-passes=mem2reg', base + '.ll', '-o', base + '.opt.ll'])
    if r.rc:
        raise CompileError(r.err[-2000:])
    m = parse(env.read(base + '.opt.ll'))
    m.src = src
    return m
