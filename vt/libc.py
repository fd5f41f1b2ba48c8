"""Assumed contracts of the C library and of libcerror."""
from .expr import *
from .exec import *

Z = const(0, 64)


def c_memcpy(e, st, a):
    e.memcpy(st, a[0], a[1], a[2], 'memcpy')
    return a[0]


def c_memmove(e, st, a):
    e.memcpy(st, a[0], a[1], a[2], 'memmove', True)
    return a[0]


def c_bzero(e, st, a):
    e.memset(st, a[0], const(0, 8), a[1], 'bzero')
    return [(st, None)]


def c_memset(e, st, a):
    e.memset(st, a[0], ext(a[1], 0, 8), a[2], 'memset')
    return a[0]


def c_malloc(e, st, a):
    """Returns NULL, or a new object of the requested size with indeterminate contents."""
    n = a[0]
    outs = []
    if e.allow_malloc_fail:
        st2 = st.clone()
        st2.ghost['oom'] = True
        outs.append((st2, Z))
    oid = e.new(st, n, 'heap', 'malloc', ('undef', 'heap%d' % e.oid))
    st.mem[oid].line = e.where(st)
    return [(st, Ptr(oid, Z))] + outs


def c_calloc(e, st, a):
    if not (isc(a[0]) and isc(a[1])):
        raise Unsupported('calloc of a size that is not constant')
    r = c_malloc(e, st, [const(a[0].a * a[1].a, 64)])
    e.memset(r[0][0], r[0][1], const(0, 8), const(a[0].a * a[1].a, 64), 'calloc')
    return r


def c_free(e, st, a):
    p = a[0]
    if isinstance(p, Node):
        if isc(p) and p.a == 0:
            return None_(st)
        raise Unsupported('free of an unknown pointer')
    outs = []
    if p.nul is not FALSE:
        if e.feasible(st, p.nul):
            st2 = st.clone()
            st2.assume(p.nul)
            outs.append((st2, None))
        if not e.feasible(st, bnot(p.nul)):
            return outs
        st.assume(bnot(p.nul))
    m = st.mem[p.o]
    ok = e.check(st, boolean(m.live and m.kind == 'heap'), 'memory', 'free: a live heap object (%s)' % m.name)
    e.check(st, eq(p.off, Z), 'memory', 'free: the start of the object')
    h = getattr(e, 'on_free', None)
    if h:
        h(st, p.o)
    st.w(p.o).live = False
    return [(st, None)] + outs


def None_(st):
    return [(st, None)]


def c_error_set(e, st, a):
    """libcerror_error_set(error, domain, code, ...): only *error changes; afterwards it is set if error is not NULL."""
    st.ghost['errors'] = st.ghost.get('errors', ()) + ((a[1].a if len(a) > 1 and isc(a[1]) else None, a[2].a if len(a) > 2 and isc(a[2]) else None),)
    p = a[0]
    if isinstance(p, Ptr):
        e.check(st, boolean(st.mem[p.o].live), 'memory', 'libcerror_error_set: error slot is live')
        v = e.peek(st, p.o, p.off, 8) if isc(p.off) else None
        if not isinstance(v, Ptr):
            oid = e.new(st, 8, 'error', 'error', ('zero',))
            st.w(p.o).put(p.off, Ptr(oid, Z), 8)
    return [(st, None)]


def c_error_free(e, st, a):
    p = a[0]
    if isinstance(p, Ptr):
        v = e.peek(st, p.o, p.off, 8)
        if isinstance(v, Ptr):
            st.w(v.o).live = False
        st.w(p.o).put(p.off, Z, 8)
        st.ghost['errors_freed'] = st.ghost.get('errors_freed', 0) + 1
    return [(st, None)]


BASE = {
    'memmove': c_memmove, 'llvm.memmove': c_memmove, 'bzero': c_bzero, 'explicit_bzero': c_bzero, 'calloc': c_calloc,
    'memcpy': c_memcpy, 'memset': c_memset, 'llvm.memcpy': c_memcpy, 'llvm.memset': c_memset,
    'malloc': c_malloc, 'free': c_free,
    'libcerror_error_set': c_error_set, 'libcerror_error_free': c_error_free,
}
