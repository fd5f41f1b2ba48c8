"""Contracts of the program hmacsum: main and its signal handler (hmacsum.c), signal attachment and output settings
(hmactools_signal.c, hmactools_output.c).

main is checked against the contracts of the functions it calls: the sum_handle_* ones are those proved in tools.py
as far as main can see them, getopt is assumed to follow POSIX. From the moment the signal handler is attached every
call and every read of the abort flag may be preceded by the signal."""
from . import ir
from .expr import *
from .exec import *
from .libc import Z, c_error_set, c_error_free, c_memset, c_memcpy
from .context import CEngine
from .digest import ONE, nullness
from .tools import K, Cands, Anything, houdini, compile_tool, layout, text_of, SSIZE, c_strlen

NULLW = K(0)
DEFAULT_BUFFER = K(32768)
GLOBALS = ['hmacsum_sum_handle', 'hmacsum_abort', 'optind', 'optarg', 'optopt', 'opterr']


def word(v):
    """Pointers that programs only pass on are opaque 64-bit words."""
    return v if isinstance(v, Node) else None


class PEngine(CEngine):
    """Engine with writable program globals and an asynchronous signal."""
    G = None

    def setup(s, st, mod):
        s.G = {}
        for n in GLOBALS:
            if n in mod.globals:
                o = s.G[n] = s.glob(st, n, mod)
                st.mem[o].kind = 'state'
                st.mem[o].ro = False
        # writable globals of the program other than these are its state as well
        for n, g in mod.globals.items():
            if n not in s.G and g[1] is not None and not g[2]:
                o = s.glob(st, n, mod)
                if st.mem[o].kind == 'global' and st.mem[o].size.a <= 8 and n.split('.')[-1] != 'function':
                    st.mem[o].kind = 'state'

    def signal(s, st):
        """The signal may have arrived by now: the handler has run."""
        if st.ghost.get('attached') and 'hmacsum_abort' in s.G:
            o = s.G['hmacsum_abort']
            n = st.mem[o].size.a
            old = s.peek(st, o, Z, n)
            b = fresh('signal', 1)
            s.note_write(o, Z, K(n))
            st.w(o).put(Z, ite(b, K(1, 8 * n), old), n)

    def load(s, st, p, n, what='load', ty=None):
        if isinstance(p, Ptr) and s.G and p.o == s.G.get('hmacsum_abort'):
            s.signal(st)
        return CEngine.load(s, st, p, n, what, ty)

    def aborted(s, st):
        o = s.G['hmacsum_abort']
        n = st.mem[o].size.a
        return bnot(eq(s.peek(st, o, Z, n), K(0, 8 * n)))


    def cut_option_loops(s, mod):
        """Loops around getopt are proved by invariant (getopt's contract has no bound on the number of options)."""
        def called(f):
            return {i.x[1:].strip('"') for b in f.blocks.values() for i in b.ins if i.op == 'call' and i.x and i.x[0] == '@'}
        g = {'getopt', 'hmactools_getopt'}
        while True:
            more = {n for n, f in mod.funcs.items() if n not in g and called(f) & g and n not in s.contracts}
            if not more:
                break
            g |= more
        for f in mod.funcs.values():
            if not hasattr(f, 'loops'):
                f.loops = ir.loops(f)
            for h, body in f.loops.items():
                if any(i.op == 'call' and i.x and i.x[0] == '@' and i.x[1:].strip('"') in g for b in body for i in f.blocks[b].ins):
                    s.mode[(f.name, h)] = 'inv'


def stream(e, st, name, mod):
    if name not in mod.globals:
        return None
    v = e.peek(st, e.glob(st, name, mod), Z, 8)
    st.assume(bnot(eq(v, K(0))))
    return v


def fails(e, st, err, what, w=32, v=-1):
    """A failing outcome: *error is set."""
    t = st.clone()
    c_error_set(e, t, [err, K(0, 32), K(0, 32)])
    t.ghost['fails'] = t.ghost.get('fails', ()) + (what,)
    return t, K(v & mask(w), w)


def note(st, *ev):
    st.ghost['ev'] = st.ghost.get('ev', ()) + (ev,)


def did(st, what):
    return [x for x in st.ghost.get('ev', ()) if x[0] == what]


def handle_of(e, st, p, what):
    ok = isinstance(p, Ptr) and st.mem[p.o].tag == 'handle' and p.off is Z
    e.check(st, boolean(ok), 'memory', what + '.pre: the argument is the sum handle')
    if not ok:
        raise Stop()
    e.check(st, band(bnot(p.nul), boolean(st.mem[p.o].live)), 'memory', what + '.pre: the sum handle is live')
    if not st.mem[p.o].live:
        raise Stop()
    return p.o


def c_setup_call(what):
    def h(e, st, a):
        note(st, what)
        return [(st, ONE), fails(e, st, a[-1], what)]
    return h


def c_int(v):
    def h(e, st, a):
        e.signal(st)
        return [(st, K(v, 32))]
    return h


def c_stream_set(e, st, a):
    return [(st, fresh('stream_set', 32))]


def c_verbose_set(e, st, a):
    st.ghost['verbose_set'] = a[0]
    return [(st, None)]


def c_getopt(e, st, a):
    """POSIX getopt: -1 when the options end, '?' for what is not an option or lacks its argument, otherwise an
    option of the list, with optarg set if it takes an argument. 1 <= optind <= argc."""
    argc, argv, fmt = a
    P = e.P
    f = text_of(e, st, fmt)
    opts = {}
    for i, c in enumerate(f):
        if c != ':':
            opts[c] = f[i + 1:i + 2] == ':'
    e.check(st, boolean(opts == {'d': True, 'p': True, 'h': False, 'v': False, 'V': False}), 'post', 'main: accepts the options -d and -p with an argument, -h, -v and -V')
    e.check(st, boolean(argc is P['argc'] and isinstance(argv, Ptr) and argv.o == P['argv'] and argv.off is Z), 'post', 'main: the options are those of the command line')
    e.check(st, boolean(not st.ghost.get('parsed')), 'post', 'main: options are read until they end')
    outs = []
    for o in [None, '?'] + (['?:'] if f[:1] == ':' else []) + sorted(opts):
        t = st.clone()
        oi = fresh('optind', 32)
        t.assume(band(ule(K(1, 32), oi), ule(oi, argc)))
        e.store(t, Ptr(e.G['optind'], Z), oi, 4)
        t.assume(bnot(eq(e.peek(t, P['argv'], mul(zext(sub(oi, K(1, 32)), 64), K(8)), 8), NULLW)))
        nxt = e.peek(t, P['argv'], mul(zext(oi, 64), K(8)), 8)
        t.assume(eq(eq(nxt, NULLW), eq(oi, argc)))
        arg = fresh('optarg', 64)
        if 'optarg' in e.G:
            e.store(t, Ptr(e.G['optarg'], Z), arg, 8)
        t.ghost['said'] = False
        if o is None:
            t.ghost['parsed'], t.ghost['operand'] = True, (nxt, eq(oi, argc))
            outs.append((t, K(-1, 32)))
            continue
        if o in opts and opts[o]:
            t.assume(bnot(eq(arg, NULLW)))
            t.ghost['last_' + o] = arg
        if o == 'v':
            t.ghost['verbose'] = ONE
        if o in ('h', 'V'):
            t.ghost['helped'] = o
        if o not in opts:
            t.ghost['fails'] = t.ghost.get('fails', ()) + ('option',)
        outs.append((t, K(ord(o[-1]), 32)))
    return outs


class OptLoop(Cands):
    """The loop over the options: which variable stands for which option is found among candidates."""

    def ghosts(s, st):
        g = st.ghost
        return [('the last -d', g['last_d']), ('the last -p', g['last_p']), ('whether -v was given', g['verbose'])]

    def scalars(s, e, st):
        r = Cands.scalars(s, e, st)
        for fr in st.frames:
            for oid in fr.allocas:          # structures of options
                m = st.mem[oid]
                if m.live and isc(m.size) and m.size.a not in (1, 4, 8) and m.size.a <= 64:
                    for n in (8, 4, 1):
                        for o in range(0, m.size.a - n + 1, n):
                            try:
                                v = e.peek(st, oid, K(o), n)
                            except Unsupported:
                                continue
                            if isinstance(v, Node):
                                r.append(('local %s+%d/%d of %s' % (m.name, o, n, fr.f.name), v, oid))
        return r

    def cands(s, e, st):
        vs = s.phivars(e, st)
        for n, v in vs:
            for nm, g in s.ghosts(st):
                if v.w == 64 and g.w == 64:
                    yield '%s is %s' % (n, nm), eq(v, g)
                elif v.w < 64:
                    b = bnot(eq(g, K(0, g.w)))
                    yield '%s is non-zero if and only if there is %s' % (n, nm), eq(bnot(eq(v, K(0, v.w))), b)
                    if nm.startswith('whether'):
                        yield '%s is %s' % (n, nm), eq(v, ite(b, K(1, v.w), K(0, v.w)))
                    else:
                        yield '%s counts %s' % (n, nm), implies(b, bnot(eq(v, K(0, v.w))))
        vd = st.ghost.get('verbose_set')
        if isinstance(vd, Node):
            yield 'the verbosity set so far is the initial one', eq(vd, ONE)
        for n, v in vs:
            yield n + ' keeps its value', eq(v, K(0, v.w))
        for gname, o in e.G.items():
            if gname in ('optind', 'optarg', 'optopt', 'opterr'):
                continue
            v = e.peek(st, o, Z, st.mem[o].size.a)
            if isinstance(v, Node):
                yield gname + ' is still zero', eq(v, K(0, v.w))

    def fixed_havoc(s, e, st, k):
        g = st.ghost
        g['last_d'], g['last_p'], g['verbose'] = fresh('last_d', 64), fresh('last_p', 64), zext(fresh('verbose', 1), 32)
        if isinstance(g.get('verbose_set'), Node):
            g['verbose_set'] = fresh('verbose_set', 32)
        for x in ('optarg', 'optopt', 'opterr'):
            if x in e.G:
                o = e.G[x]
                n = st.mem[o].size.a
                st.w(o).put(Z, fresh(x, 8 * n), n)
        s.ev = g.get('ev', ())

    def fixed_preserve(s, e, st, k, k1):
        e.check(st, boolean(st.ghost.get('ev', ()) == s.ev), 'post', 'main: nothing is processed while the options are read')
        e.check(st, boolean(not st.ghost.get('fails') and not st.ghost.get('helped')), 'post', 'main: -h, -V and an invalid option end the program')


def c_initialize(e, st, a):
    pp, err = a
    ok = isinstance(pp, Ptr) and st.mem[pp.o].live
    e.check(st, boolean(ok), 'memory', 'sum_handle_initialize.pre: sum handle')
    if not ok:
        raise Stop()
    v = e.load(st, pp, 8)
    e.check(st, nullness(v), 'memory', 'sum_handle_initialize.pre: *sum_handle is NULL')
    f = fails(e, st, err, 'initialize')
    oid = e.new(st, e.P['L']['size'], 'heap', 'sum handle', ('sym', 'H'))
    st.mem[oid].tag = 'handle'
    st.w(oid).put(K(e.P['L']['process_buffer_size']), DEFAULT_BUFFER, 8)
    st.ghost['handle'] = oid
    st.ghost['want'] = DEFAULT_BUFFER
    st.ghost['slot'] = (pp.o, pp.off)
    note(st, 'initialize')
    e.store(st, pp, Ptr(oid, Z), 8)
    e.signal(st)
    return [(st, ONE), f]


def c_set_size(e, st, a):
    h = handle_of(e, st, a[0], 'sum_handle_set_process_buffer_size')
    e.check(st, boolean(isinstance(a[1], Node)), 'memory', 'sum_handle_set_process_buffer_size.pre: string')
    if not isinstance(a[1], Node):
        raise Stop()
    e.check(st, bnot(eq(a[1], NULLW)), 'memory', 'sum_handle_set_process_buffer_size.pre: string is not NULL')
    note(st, 'size')
    st.ghost['applied_p'] = a[1]
    e.signal(st)
    f = fails(e, st, a[2], 'size')
    z = st.clone()
    z.ghost['want'] = DEFAULT_BUFFER
    v = fresh('value', 64)
    st.assume(ule(v, SSIZE))
    st.w(h).put(K(e.P['L']['process_buffer_size']), v, 8)
    st.ghost['want'] = v
    return [(st, ONE), (z, K(0, 32)), f]


def c_set_types(e, st, a):
    handle_of(e, st, a[0], 'sum_handle_set_digest_types')
    e.check(st, boolean(isinstance(a[1], Node)), 'memory', 'sum_handle_set_digest_types.pre: string')
    if not isinstance(a[1], Node):
        raise Stop()
    e.check(st, bnot(eq(a[1], NULLW)), 'memory', 'sum_handle_set_digest_types.pre: string is not NULL')
    note(st, 'types')
    st.ghost['applied_d'] = a[1]
    e.signal(st)
    return [(st, ONE), fails(e, st, a[2], 'types')]


def c_attach(e, st, a):
    e.check(st, boolean(isinstance(a[0], Fn) and a[0].name == 'hmacsum_signal_handler'), 'post', 'main: the signal handler is hmacsum_signal_handler')
    slot = e.G.get('hmacsum_sum_handle')
    v = e.peek(st, slot, Z, 8) if slot else Z
    e.check(st, boolean(isinstance(v, Ptr) and v.nul is FALSE), 'post', 'main: the signal handler is attached when the handle it signals exists')
    f = fails(e, st, a[1], 'attach')
    st.ghost['attached'] = True
    note(st, 'attach')
    e.signal(st)
    return [(st, ONE), f]


def c_detach(e, st, a):
    e.signal(st)
    st.ghost['detached'] = True
    f = fails(e, st, a[0], 'detach')
    st.ghost['attached'] = False
    return [(st, ONE), f]


def c_open(e, st, a):
    handle_of(e, st, a[0], 'sum_handle_open_input')
    want = st.ghost.get('operand')
    ok = want is not None and isinstance(a[1], Node)
    e.check(st, boolean(ok), 'post', 'main: the input is named by the first operand')
    if not ok:
        raise Stop()
    e.check(st, bnot(eq(a[1], NULLW)), 'memory', 'sum_handle_open_input.pre: filename is not NULL')
    e.check(st, eq(a[1], want[0]), 'post', 'main: the input is named by the first operand')
    e.check(st, boolean('open' not in [x[0] for x in st.ghost.get('ev', ())]), 'post', 'main: the input is opened once')
    e.signal(st)
    f = fails(e, st, a[2], 'open')
    note(st, 'open')
    e.signal(st)
    return [(st, ONE), f]


def c_process(e, st, a):
    """1 when the whole input has been hashed, or when the handle was told to abort; -1 on failure."""
    h = handle_of(e, st, a[0], 'sum_handle_process_input')
    g = st.ghost
    e.check(st, boolean(len(did(st, 'open')) == 1 and not did(st, 'process') and not did(st, 'close')), 'post', 'main: the open input is processed, once')
    e.check(st, boolean(not [x for x in g.get('fails', ()) if x not in ('attach',)]), 'post', 'main: nothing is processed after a failure')
    e.check(st, eq(g['applied_d'], g['last_d']), 'post', 'main: the digest types are those of the last -d, and the default without it')
    e.check(st, eq(g['applied_p'], g['last_p']), 'post', 'main: the process buffer size is set from the last -p, and not without it')
    e.check(st, eq(e.peek(st, h, K(e.P['L']['process_buffer_size']), 8), g['want']), 'post', 'main: the process buffer size is that of -p if it is supported and 32768 otherwise')
    vs = g.get('verbose_set')
    e.check(st, eq(bnot(eq(vs, K(0, 32))), bnot(eq(g['verbose'], K(0, 32)))) if isinstance(vs, Node) else FALSE, 'post', 'main: verbose output is on if and only if -v is given')
    e.check(st, boolean(bool(g.get('attached')) or 'attach' in g.get('fails', ())), 'post', 'main: the signal handler is attached while the input is processed')
    e.signal(st)
    f = fails(e, st, a[1], 'process')
    note(st, 'process')
    c = fresh('complete', 1)
    st.assume(bor(c, e.aborted(st)))
    st.ghost['complete'] = c
    return [(st, ONE), f]


def c_print(e, st, a):
    handle_of(e, st, a[0], 'sum_handle_hash_values_fprint')
    e.check(st, boolean(a[1] is e.P['stdout']), 'post', 'main: the digests go to standard output')
    e.check(st, boolean(len(did(st, 'process')) == 1), 'post', 'main: digests are printed when the input was processed')
    e.check(st, st.ghost.get('complete', FALSE), 'post', 'main: digests are printed only when the whole input was processed')
    e.check(st, boolean(not did(st, 'print')), 'post', 'main: digests are printed once')
    e.signal(st)
    f = fails(e, st, a[2], 'print')
    note(st, 'print')
    e.signal(st)
    return [(st, ONE), f]


def c_close(e, st, a):
    handle_of(e, st, a[0], 'sum_handle_close')
    e.signal(st)
    note(st, 'close')
    return [(st, K(0, 32)), fails(e, st, a[1], 'close')]


def c_free_handle(e, st, a):
    """The handle is released and *sum_handle becomes NULL, also when closing its input fails."""
    pp, err = a
    ok = isinstance(pp, Ptr) and st.mem[pp.o].live
    e.check(st, boolean(ok), 'memory', 'sum_handle_free.pre: sum handle')
    if not ok:
        raise Stop()
    v = e.load(st, pp, 8)
    outs = []
    n = nullness(v)
    if n is not FALSE and e.feasible(st, n):
        t = st.clone()
        t.assume(n)
        outs.append((t, ONE))
    if n is TRUE or not e.feasible(st, bnot(n)):
        return outs
    st.assume(bnot(n))
    o = handle_of(e, st, Ptr(v.o, v.off), 'sum_handle_free')
    e.check(st, boolean(not st.ghost.get('attached') or bool(st.ghost.get('detached'))), 'post', 'main: the signal handler is detached before the handle it signals is released')
    st.w(o).live = False
    e.store(st, pp, Z, 8)
    f = fails(e, st, err, 'free')
    e.signal(f[0])
    e.signal(st)
    return outs + [(st, ONE), f]


def c_say(e, st, a):
    """fprintf: the arguments of %s are strings."""
    fmt = text_of(e, st, a[1])
    args = list(a[2:])
    i = 0
    while i < len(fmt) - 1:
        if fmt[i] == '%':
            if fmt[i + 1] != '%':
                p = args.pop(0) if args else None
                if fmt[i + 1] == 's':
                    if isinstance(p, Node):
                        e.check(st, bnot(eq(p, K(0, p.w))), 'memory', 'fprintf: string argument is not NULL')
                    else:
                        e.check(st, boolean(isinstance(p, Ptr) and p.nul is FALSE and st.mem[p.o].live), 'memory', 'fprintf: string argument is valid')
            i += 1
        i += 1
    say(e, st, a[0])
    return [(st, fresh('printed', 32))]


def say(e, st, to):
    if to is e.P.get('stdout'):
        st.ghost['said'] = True
    e.signal(st)


def c_says(n, stream_arg=0):
    def h(e, st, a):
        say(e, st, a[stream_arg] if stream_arg is not None else e.P.get('stdout'))
        return [(st, fresh('printed', 32))]
    return h


def c_error_free_s(e, st, a):
    e.signal(st)
    return c_error_free(e, st, a)


def contracts():
    return {
        'llvm.memset': c_memset, 'llvm.memcpy': c_memcpy, 'memset': c_memset, 'memcpy': c_memcpy,
        'libcnotify_stream_set': c_stream_set, 'libcnotify_verbose_set': c_verbose_set, 'libcnotify_printf': c_int(0),
        'libcnotify_print_error_backtrace': c_int(1), 'libclocale_initialize': c_setup_call('locale'),
        'hmactools_output_initialize': c_setup_call('output'), 'hmactools_output_version_fprint': c_says(0),
        'hmactools_output_version_detailed_fprint': c_says(0), 'hmactools_output_copyright_fprint': c_says(0),
        'getopt': c_getopt, 'hmactools_getopt': c_getopt, 'sum_handle_initialize': c_initialize,
        'sum_handle_set_process_buffer_size': c_set_size, 'sum_handle_set_digest_types': c_set_types,
        'hmactools_signal_attach': c_attach, 'hmactools_signal_detach': c_detach, 'sum_handle_open_input': c_open,
        'sum_handle_process_input': c_process, 'sum_handle_hash_values_fprint': c_print, 'sum_handle_close': c_close,
        'sum_handle_free': c_free_handle, 'fprintf': c_say, 'fputs': c_says(0, 1), 'fputc': c_says(0, 1), 'puts': c_says(0, None), 'putchar': c_says(0, None), 'fwrite': c_says(0, 3),
        'fflush': c_int(0), 'libcerror_error_set': c_error_set, 'libcerror_error_free': c_error_free_s,
    }


SOFT = ('attach', 'detach')


def main(variant='builtin', deadline=None):
    """main: what is processed, printed and returned, for every command line, every outcome of what it calls and
    a signal at any time."""
    name = 'main'

    def build(dropped):
        mod = compile_tool('hmacsum', variant)
        e = PEngine(mod, contracts(), deadline)
        e.dropped = dropped
        e.loopspecs = Anything(OptLoop)
        st = State()
        e.setup(st, mod)
        e.cut_option_loops(mod)
        L = layout(variant)
        argc = var('argc', 32)
        st.assume(band(ule(K(1, 32), argc), ult(argc, K(1 << 24, 32))))
        argv = e.new(st, mul(add(zext(argc, 64), K(1)), K(8)), 'input', 'argv', ('sym', 'ARGV'))
        e.P = dict(L=L, argc=argc, argv=argv, stdout=stream(e, st, 'stdout', mod), stderr=stream(e, st, 'stderr', mod))
        if 'optind' in e.G:
            st.mem[e.G['optind']].put(Z, K(1, 32), 4)
        st.ghost.update(last_d=NULLW, last_p=NULLW, verbose=K(0, 32), applied_d=NULLW, applied_p=NULLW, ev=(), attached=False)
        for s, r in e.run(name, st, [argc, Ptr(argv, Z)]):
            g = s.ghost
            fl = [x for x in g.get('fails', ()) if x not in SOFT]
            ev = [x[0] for x in g['ev']]
            zero = eq(r, K(0, 32))
            bad = bnot(eq(band(r, K(255, 32)), K(0, 32)))
            e.check(s, boolean(not any(m.live and m.tag == 'handle' for m in s.mem.values())), 'leak', 'main: the sum handle is released')
            if fl:
                e.covered.add('main: failure path')
                e.check(s, bad, 'post', 'main: the exit status is not 0 after a failure')
                if 'print' not in fl and 'close' not in fl and 'free' not in fl:
                    e.check(s, boolean('print' not in ev), 'post', 'main: no digest is printed after a failure')
                continue
            if g.get('helped'):
                e.covered.add('main: help path')
                e.check(s, zero, 'post', 'main: the exit status of -h and -V is 0')
                e.check(s, boolean(bool(g.get('said'))), 'post', 'main: -h and -V print what they are asked for to standard output')
                e.check(s, boolean('open' not in ev and 'process' not in ev and 'print' not in ev), 'post', 'main: -h and -V process nothing')
                continue
            e.check(s, boolean(bool(g.get('parsed'))), 'post', 'main: options are read until they end')
            if not g.get('parsed'):
                continue
            none = g['operand'][1]
            if e.feasible(s, none):
                e.covered.add('main: missing source path')
                e.check(s, implies(none, bad), 'post', 'main: the exit status is not 0 without a source')
                e.check(s, implies(none, boolean('open' not in ev and 'print' not in ev)), 'post', 'main: nothing is processed without a source')
            if not e.feasible(s, bnot(none)):
                continue
            s.assume(bnot(none))
            ab = e.aborted(s)
            e.covered.add('main: success path')
            done = boolean(ev.count('print') == 1 and ev.count('process') == 1 and ev.count('open') == 1)
            closed = boolean(ev.count('close') >= 1)
            e.check(s, implies(zero, done), 'post', 'main: the exit status is 0 only when the digests of the whole input were printed')
            e.check(s, implies(bnot(ab), done), 'post', 'main: the digests are printed unless there is a failure or the program is aborted')
            e.check(s, implies(bnot(ab), zero), 'post', 'main: the exit status is 0 unless there is a failure or the program is aborted')
            e.check(s, implies(zero, closed), 'post', 'main: the input is closed')
            if not g.get('attached'):
                e.check(s, implies(ab, bad), 'post', 'main: the exit status is not 0 when the program is aborted')
        return e
    return houdini(build)


# ------------------------------------------------------------------ the signal handler
def c_signal_abort(e, st, a):
    h = handle_of(e, st, a[0], 'sum_handle_signal_abort')
    e.check(st, e.aborted(st), 'post', 'handler: the program knows that it is aborted before the handle does')
    note(st, 'signalled', h)
    return [(st, ONE), fails(e, st, a[1], 'signal')]


def c_closefd(e, st, a):
    e.check(st, eq(a[0], K(0, 32)), 'post', 'handler: only standard input is closed')
    note(st, 'closefd')
    return [(st, K(0, 32)), (st.clone(), K(-1, 32))]


def handler(variant='builtin', deadline=None):
    """hmacsum_signal_handler: sets the abort flag, then signals the handle if there is one."""
    mod = compile_tool('hmacsum', variant)
    name = 'hmacsum_signal_handler'
    c = contracts()
    c.update({'sum_handle_signal_abort': c_signal_abort, 'close': c_closefd})
    e = PEngine(mod, c, deadline)
    st = State()
    e.setup(st, mod)
    e.P = {}
    L = layout(variant)
    hn = var('no_handle', 1)
    h = e.new(st, L['size'], 'heap', 'sum handle', ('sym', 'H'))
    st.mem[h].tag = 'handle'
    slot, flag = e.G['hmacsum_sum_handle'], e.G['hmacsum_abort']
    st.mem[slot].put(Z, Ptr(h, Z, hn), 8)
    n = st.mem[flag].size.a
    st.mem[flag].put(Z, var('abort_before', 8 * n), n)
    for s, r in e.run(name, st, [var('signal', 32)]):
        e.check(s, e.aborted(s), 'post', 'handler: the abort flag is set')
        k = len(did(s, 'signalled'))
        e.check(s, eq(boolean(k == 1), bnot(hn)) if k < 2 else FALSE, 'post', 'handler: the handle is told to abort if there is one')
        v = e.peek(s, slot, Z, 8)
        e.check(s, boolean(isinstance(v, Ptr) and v.o == h and v.nul is hn and s.mem[h].live), 'frame', 'handler: the handle stays what it is')
        e.covered.add(name + ': success path')
        if s.ghost.get('fails'):
            e.check(s, boolean(s.ghost.get('errors_freed', 0) >= 1), 'leak', 'handler: the error is released')
    return e


# ------------------------------------------------------------------ attaching and output settings
def c_signal(e, st, a):
    e.check(st, eq(a[0], K(2, 32)), 'post', 'the signal is SIGINT')
    t = st.clone()
    t.ghost['fails'] = ('signal',)
    st.ghost['set'] = st.ghost.get('set', ()) + (a[1],)
    old = fresh('old_handler', 64)
    st.assume(bnot(eq(old, K(-1))))
    return [(st, old), (t, K(-1))]


def attach(variant='builtin', deadline=None):
    return sigunit('hmactools_signal_attach', variant, deadline)


def detach(variant='builtin', deadline=None):
    return sigunit('hmactools_signal_detach', variant, deadline)


def sigunit(name, variant, deadline):
    mod = compile_tool('hmactools_signal', variant)
    e = CEngine(mod, {'signal': c_signal, 'libcerror_error_set': c_error_set}, deadline)
    st = State()
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    errp = Ptr(err, Z, var('error_null', 1))
    fn = Fn('hmacsum_signal_handler')
    att = name.endswith('attach')
    for null in (False, True) if att else (False,):
        for s, r in e.run(name, st.clone(), ([Z if null else fn] if att else []) + [errp]):
            if null or s.ghost.get('fails'):
                e.covered.add(name + ': failure path')
                e.check(s, eq(r, K(-1, 32)), 'post', name + ': failure returns -1')
                e.check(s, boolean(bool(s.ghost.get('errors'))), 'args', name + ': failure sets an error')
                e.check(s, boolean(not s.ghost.get('set')), 'post', name + ': nothing is attached on failure')
                continue
            e.covered.add(name + ': success path')
            e.check(s, eq(r, ONE), 'post', name + ': returns 1')
            e.check(s, boolean(not s.ghost.get('errors')), 'args', name + ': no error is set on success')
            v = s.ghost.get('set', ())
            if att:
                ok = len(v) == 1 and isinstance(v[0], Fn) and v[0].name == fn.name
            else:
                ok = len(v) == 1 and isinstance(v[0], Node) and isc(v[0]) and v[0].a == 0
            e.check(s, boolean(ok), 'post', name + (': the handler is attached' if att else ': the default disposition is restored'))
    return e


def c_setvbuf(e, st, a):
    t = st.clone()
    t.ghost['fails'] = t.ghost.get('fails', ()) + ('setvbuf',)
    e.check(st, band(nullness(a[1]) if isinstance(a[1], Ptr) else eq(a[1], Z), eq(a[2], e.P['mode'])), 'post', 'hmactools_output_initialize: the IO mode is the one asked for')
    st.ghost['buf'] = st.ghost.get('buf', ()) + (a[0],)
    nz = fresh('setvbuf', 32)
    t.assume(bnot(eq(nz, K(0, 32))))
    return [(st, K(0, 32)), (t, nz)]


def output(variant='builtin', deadline=None):
    """hmactools_output_initialize: sets the mode of stdout and stderr, or fails."""
    name = 'hmactools_output_initialize'
    mod = compile_tool('hmactools_output', variant)
    e = CEngine(mod, {'setvbuf': c_setvbuf, 'libcerror_error_set': c_error_set}, deadline)
    st = State()
    err = e.new(st, 8, 'errslot', 'errslot', ('zero',))
    mode = var('stdio_mode', 32)
    e.P = dict(mode=mode)
    out, er = stream(e, st, 'stdout', mod), stream(e, st, 'stderr', mod)
    good = ult(mode, K(3, 32))                 # _IOFBF, _IOLBF, _IONBF
    for s, r in e.run(name, st, [mode, Ptr(err, Z, var('error_null', 1))]):
        fl = s.ghost.get('fails')
        ok = boolean(not fl)
        e.check(s, eq(r, ite(band(good, ok), ONE, K(-1, 32))), 'post', name + ': returns 1, or -1 for another mode or when setvbuf fails')
        e.check(s, eq(boolean(bool(s.ghost.get('errors'))), bnot(band(good, ok))), 'args', name + ': an error is set if and only if it fails')
        if not fl:
            b = s.ghost.get('buf', ())
            e.covered.add(name + ': success path')
            e.check(s, implies(good, boolean(out in b and er in b)), 'post', name + ': the mode of stdout and stderr is set')
    return e


# ------------------------------------------------------------------ getopt for platforms without it
OPTIONS = 'd:hp:vV'


class GEngine(PEngine):
    """argv is an array of strings: an element is a string of its own, whose only NUL is its last character."""

    def load(s, st, p, n, what='load', ty=None):
        if isinstance(p, Ptr) and p.o == s.P['argv'] and n == 8:
            s.access(st, p, K(8), 'memory', what)
            return s.argument(st, p.off)
        v = PEngine.load(s, st, p, n, what, ty)
        if isinstance(p, Ptr) and n == 1 and p.o in s.P['len'] and isinstance(v, Node):
            st.assume(implies(ule(p.off, s.P['len'][p.o]), eq(eq(v, K(0, 8)), eq(p.off, s.P['len'][p.o]))))
        return v

    def argument(s, st, off):
        m = s.P['args']
        if off not in m:
            nm = 'ARG%d' % len(m)
            ln = var('length_' + nm, 64)
            m[off] = s.new(st, add(ln, K(1)), 'input', nm, ('sym', nm))
            s.P['len'][m[off]] = ln
            s.P['mem'][m[off]] = st.mem[m[off]]
        o = m[off]
        if o not in st.mem:
            st.mem[o] = s.P['mem'][o]
        st.assume(ult(s.P['len'][o], SSIZE))
        last = s.P['argc64']
        return Ptr(o, Z, bnot(ult(off, mul(last, K(8)))))


def c_memchr(e, st, a):
    """Position of the first such character in the constant string, or NULL."""
    p, c, n = a
    t = text_of(e, st, p)
    c = ext(c, 0, 8)
    if not isc(n):
        raise Unsupported('memchr of an unknown size')
    outs, none = [], []
    for i, ch in enumerate((t + chr(0))[:n.a]):
        q = eq(c, K(ord(ch), 8))
        u = st.clone()
        for x in none + [q]:
            u.assume(x)
        if e.feasible(u, q):
            outs.append((u, Ptr(p.o, add(p.off, K(i)))))
        none.append(bnot(q))
    for x in none:
        st.assume(x)
    return outs + [(st, Z)]


def c_strlen_const(e, st, a):
    return K(len(text_of(e, st, a[0])))


def getopt_fallback(variant='nogetopt', deadline=None):
    """hmactools_getopt, used where the platform has no getopt: meets the contract that main assumes of getopt."""
    name = 'hmactools_getopt'
    mod = compile_tool('hmactools_getopt', variant)
    e = GEngine(mod, {'strlen': c_strlen_const, 'memchr': c_memchr, 'strchr': lambda e, st, a: c_memchr(e, st, [a[0], a[1], K(len(text_of(e, st, a[0])) + 1)]), 'libcnotify_printf': c_int(0)}, deadline)
    for group in (False, True):
        st = State()
        e.setup(st, mod)
        argc, oi = var('argc', 32), var('optind', 32)
        st.assume(band(ule(K(1, 32), argc), ult(argc, K(1 << 24, 32))))
        st.assume(band(ule(K(1, 32), oi), ule(oi, argc)))
        argv = e.new(st, mul(add(zext(argc, 64), K(1)), K(8)), 'input', 'argv', ('sym', 'ARGV'))
        e.P = dict(argc=argc, argc64=zext(argc, 64), argv=argv, args={}, len={}, mem={})
        nxt = next((e.glob(st, n, mod) for n in mod.globals if n == 'next_option'), None)
        if nxt is None:
            raise Unsupported('state of getopt')
        st.mem[nxt].kind = 'state'
        st.mem[e.G['optind']].put(Z, oi, 4)
        first = e.argument(st, mul(sext(oi, 64), K(8)))
        L = e.P['len'][first.o]
        off = var('group_offset', 64)
        fmt = e.new(st, len(OPTIONS) + 1, 'global', 'options', ('bytes', OPTIONS.encode() + bytes(1)), True)

        def ch(s, o):
            return s.mem[first.o].byte(o) if first.o in s.mem else e.P['mem'][first.o].byte(o)
        if group:
            # in the middle of a group: a proper rest of argv[optind]
            st.assume(ands([ult(oi, argc), ule(K(2), off), ult(off, L), ule(L, SSIZE)]))
            st.mem[nxt].put(Z, Ptr(first.o, off), 8)
            at = off
        else:
            st.mem[nxt].put(Z, Z, 8)
            at = K(1)
        for j in (Z, K(1), at, add(at, K(1))):
            b = ch(st, j)
            st.assume(implies(ule(j, L), eq(eq(b, K(0, 8)), eq(j, L))))
        more = ult(oi, argc)
        is_opt = TRUE if group else ands([more, eq(ch(st, Z), K(45, 8)), bnot(eq(L, K(1))), bnot(eq(L, Z)), bnot(eq(ch(st, K(1)), K(45, 8)))])
        ddash = FALSE if group else ands([more, ule(K(2), L), eq(ch(st, Z), K(45, 8)), eq(ch(st, K(1)), K(45, 8))])
        c = ch(st, at)
        rest = ult(add(at, K(1)), L)            # characters are left in this argument
        flag = ors([eq(c, K(ord(x), 8)) for x in 'hvV'])
        take = ors([eq(c, K(ord(x), 8)) for x in 'dp'])
        next_ = add(oi, K(1, 32))
        for s, r in e.run(name, st, [argc, Ptr(argv, Z), Ptr(fmt, Z)]):
            e.covered.add(name + ': success path')
            o1 = e.peek(s, e.G['optind'], Z, 4)
            n1 = e.peek(s, nxt, Z, 8)
            a1 = e.peek(s, e.G['optarg'], Z, 8)
            t = name + ': '
            end = eq(r, K(-1, 32))
            e.check(s, eq(end, bnot(is_opt)), 'post', t + 'the options end at the first argument that is not an option, and nowhere else')
            e.check(s, implies(bnot(is_opt), eq(o1, ite(ddash, next_, oi))), 'post', t + 'the first operand is the argument after the options (and after --)')
            none = band(take, band(bnot(rest), bnot(ult(next_, argc))))
            known = bor(flag, band(take, bnot(none)))
            e.check(s, implies(band(is_opt, known), eq(r, sext(c, 32))), 'post', t + 'an option of the list is returned')
            e.check(s, implies(band(is_opt, bnot(known)), bor(eq(r, K(63, 32)), eq(r, K(58, 32)))), 'post', t + 'what is not in the list, or lacks its argument, is reported')
            e.check(s, band(ule(oi, o1), ule(o1, argc)), 'post', t + 'optind stays within the arguments')
            e.check(s, implies(ands([is_opt, flag]), eq(o1, ite(rest, oi, next_))), 'post', t + 'a flag consumes its character only')
            took = ands([is_opt, take, bnot(none)])
            x, _ = (s.clone(), None)
            if e.feasible(x, took):
                x.assume(took)
                e.check(x, eq(o1, ite(rest, next_, add(next_, K(1, 32)))), 'post', t + 'an option with an argument consumes it')
                ok = isinstance(a1, Ptr)
                e.check(x, bnot(nullness(a1)) if ok else FALSE, 'post', t + 'optarg is set for an option with an argument')
                if ok:
                    if a1.o == first.o:
                        e.check(x, band(rest, eq(a1.off, add(at, K(1)))), 'post', t + 'the argument is the rest of the same word')
                    else:
                        nx = e.P['args'].get(mul(sext(next_, 64), K(8)))
                        e.check(x, band(bnot(rest), boolean(a1.o == nx and a1.off is Z)), 'post', t + 'the argument is the next word')
            # the state it keeps between calls
            if isinstance(n1, Ptr):
                e.check(s, bor(n1.nul, ands([boolean(n1.o == first.o), eq(o1, oi), ult(oi, argc), ult(n1.off, L), ule(K(2), n1.off)])), 'invariant', t + 'what is left of a group is a proper rest of argv[optind]')
                e.check(s, implies(is_opt, implies(bnot(n1.nul), band(flag, eq(n1.off, add(at, K(1)))))), 'post', t + 'the group goes on after the flag')
            else:
                e.check(s, boolean(isc(n1) and n1.a == 0), 'invariant', t + 'what is left of a group is a proper rest of argv[optind]')
                e.check(s, implies(ands([is_opt, flag]), bnot(rest)), 'post', t + 'the group goes on after the flag')
    return e
