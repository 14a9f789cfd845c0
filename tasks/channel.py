"""Channels (A01, A02).  The operating system is a table of open descriptors OPEN (ghost) and a log of the calls made: each call is one event with its
arguments and result.  A call may fail with any error number its POSIX description allows.  Channels hold any number; the non-negative ones are open and owned."""
import z3, os
from core import *
from exec import B_int
import lib as L, gmap as G, eptr
from ghost import *
from task import Task, cover
from tasks.errors import TI, TOSTR, TOSTRN, QUIET, AGAIN, setup as errors_setup
from tasks.address import Addr, heap, blocks, const
DRIVER = "channel.cpp"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = tuple("only:" + x for x in "channel pipe file socket address errors registry".split()) + (f"-I{V}/drivers/stub",)
INT = 1 << 31; W32 = 1 << 32
def s32(v): return v - W32 if isinstance(v, int) and v >= INT else v if isinstance(v, int) else simp(z3.If(B_int(v) >= INT, B_int(v) - W32, B_int(v)))
def u32(v): return v % W32 if isinstance(v, int) else simp(z3.If(B_int(v) < 0, B_int(v) + W32, B_int(v)))
SOL = dict(SOCKET=1, TCP=6, IPV6=41); OPT = dict(REUSEADDR=2, TYPE=3, ERROR=4, KEEPALIVE=9, LINGER=13, REUSEPORT=15, PROTOCOL=38)
class OS:
    def __init__(s, ex, st):
        s.ex = ex; s.o0 = z3.Array("OPEN", I, z3.BoolSort()); st.ghost['open'] = s.o0; st.ghost['log'] = ()
        s.err = ex.new_cells(st, 4, "errno"); ex.store_raw(st, s.err, 4, z3.Int("errno.old")); st.assume(z3.And(z3.Int("errno.old") >= 0, z3.Int("errno.old") < INT))
        ex.contract(r"^__errno_location$", lambda ex, st, a, c: s.err, "errno")
        C = lambda n, f: ex.contract(f"^{n}$", f, f"{n} (POSIX)")
        def close(ex, st, a, c):
            f = s32(a[0])
            if ex.q(st, B_int(f) < 0): r = s.fails(ex, st)
            else:
                ex.oblige(st, simp(z3.Or(B_int(f) < 0, z3.Select(st.ghost['open'], f))), "post:a descriptor is closed only while it is open and owned")
                st.ghost['open'] = z3.Store(st.ghost['open'], f, False); r = ex.fresh(st, 32, "close"); s.code(ex, st)
            s.event(st, "close", f); return r
        C("close", close)
        def maker(name, keep):
            def h(ex, st, a, c):
                out = []; bad = st.clone(); s.code(ex, bad); s.event(bad, name, *keep(ex, bad, a), None); out.append((bad, Ret(W32 - 1)))
                f = s.fd(ex, st, name); s.event(st, name, *keep(ex, st, a), f); return out + [(st, Ret(f))]
            return h
        C("dup", maker("dup", lambda ex, st, a: (s32(a[0]),)))
        C("socket", maker("socket", lambda ex, st, a: tuple(s32(x) for x in a[:3])))
        C("open", maker("open", lambda ex, st, a: (a[0], s32(a[1]), tuple(s32(x) for x in a[2:]))))
        def accept(ex, st, a, c):
            bad = st.clone(); s.code(ex, bad); s.event(bad, "accept", s32(a[0]), a[1], a[2], None); f = s.fd(ex, st, "accept"); s.event(st, "accept", s32(a[0]), a[1], a[2], f)
            if a[1].r is not None: s.sockname(ex, st, a[1], a[2])
            return [(bad, Ret(W32 - 1)), (st, Ret(f))]
        C("accept", accept)
        def pipe(ex, st, a, c):
            bad = st.clone(); s.code(ex, bad); s.event(bad, "pipe", None)
            for k in (0, 4): ex.store_raw(bad, ex.padd(bad, a[0], k, 1), 4, ex.load_raw(bad, ex.padd(bad, a[0], k, 1), 4))
            f, g = s.fd(ex, st, "pipe0"), s.fd(ex, st, "pipe1"); ex.store_raw(st, a[0], 4, f); ex.store_raw(st, ex.padd(st, a[0], 4, 1), 4, g); s.event(st, "pipe", (f, g)); return [(bad, Ret(W32 - 1)), (st, Ret(0))]
        C("pipe", pipe)
        def xfer(name):
            def h(ex, st, a, c):
                n = a[2]; ex.chk_range(st, a[1], n, name == "read", name)
                bad = st.clone(); s.code(ex, bad); s.event(bad, name, s32(a[0]), a[1], n, None)
                k = z3.Int(f"{name}!{fresh_id()}"); st.assume(z3.And(k >= 0, k <= B_int(n)))
                if name == "read": s.fill(ex, st, a[1], k)
                s.event(st, name, s32(a[0]), a[1], n, k); return [(bad, Ret(I64 - 1)), (st, Ret(k))]
            return h
        C("read", xfer("read")); C("write", xfer("write"))
        def plain(name, keep=lambda ex, st, a: tuple(s32(x) if not isinstance(x, Ptr) else x for x in a)):
            def h(ex, st, a, c):
                bad = st.clone(); s.code(ex, bad, connect=name == "connect"); s.event(bad, name, *keep(ex, bad, a), None); s.event(st, name, *keep(ex, st, a), 0); return [(bad, Ret(W32 - 1)), (st, Ret(0))]
            return h
        for n in ("shutdown", "listen", "bind", "connect"): C(n, plain(n))
        def opt(ex, st, a):
            n = a[4]
            if not isinstance(n, int): raise Unsupported("option of symbolic size")
            v = tuple(s32(ex.load_raw(st, ex.padd(st, a[3], k, 1), 4)) for k in range(0, n, 4)) if n % 4 == 0 else None; return (s32(a[0]), a[1], a[2], v)
        C("setsockopt", plain("setsockopt", opt))
        def getsockopt(ex, st, a, c):
            n = ex.load_raw(st, a[4], 4); bad = st.clone(); s.code(ex, bad); s.event(bad, "getsockopt", s32(a[0]), a[1], a[2], None); v = z3.Int(f"option!{fresh_id()}"); st.assume(z3.And(v >= 0, v < INT))
            ex.oblige(st, simp(B_int(n) == 4), "post:room for an option of type int"); ex.store_raw(st, a[3], 4, v); ex.store_raw(st, a[4], 4, 4); s.event(st, "getsockopt", s32(a[0]), a[1], a[2], v)
            return ([(bad, Ret(W32 - 1))] if s.opt_fails else []) + [(st, Ret(0))]
        s.opt_fails = True; C("getsockopt", getsockopt)
        def getname(name):
            def h(ex, st, a, c):
                bad = st.clone(); s.code(ex, bad); s.event(bad, name, s32(a[0]), None); s.event(st, name, s32(a[0]), 0); s.sockname(ex, st, a[1], a[2]); return [(bad, Ret(W32 - 1)), (st, Ret(0))]
            return h
        for n in ("getsockname", "getpeername"): C(n, getname(n))
        def fcntl(ex, st, a, c):
            cmd = a[1]
            if cmd == 3:
                bad = st.clone(); s.code(ex, bad); s.event(bad, "getfl", s32(a[0]), None); v = z3.BitVec("flags", 31) if ex.mode == 'bv' else None
                v = st.ghost['flags']; s.event(st, "getfl", s32(a[0]), v); return [(bad, Ret(W32 - 1)), (st, Ret(v))]
            if cmd == 4: bad = st.clone(); s.code(ex, bad); s.event(bad, "setfl", s32(a[0]), a[2], None); s.event(st, "setfl", s32(a[0]), a[2], 0); return [(bad, Ret(W32 - 1)), (st, Ret(0))]
            raise Unsupported(f"fcntl command {cmd}")
        C("fcntl", fcntl)
        ex.contract(r"^signal$", lambda ex, st, a, c: NULL, "signal")
    def code(s, ex, st, connect=False):
        """a failed call leaves an error number; those of a connection in progress or done only connect gives"""
        e = z3.Int(f"errno!{fresh_id()}"); st.assume(z3.And(e > 0, e < INT))
        if not connect: st.assume(z3.And(*[e != x for x in QUIET]))
        ex.store_raw(st, s.err, 4, e); st.ghost['errno'] = e
    def fails(s, ex, st): s.code(ex, st); return W32 - 1
    def event(s, st, *e): st.ghost['log'] = st.ghost['log'] + (e,)
    def fd(s, ex, st, name):
        f = z3.Int(f"{name}!{fresh_id()}"); st.assume(z3.And(f >= 0, f < INT, z3.Not(z3.Select(st.ghost['open'], f)))); st.ghost['open'] = z3.Store(st.ghost['open'], f, True); return f
    def fill(s, ex, st, p, k):
        R = st.mem[p.r]; A = z3.Array(f"DATA!{fresh_id()}", I, I); byte_axiom(ex, st, A); st.ghost['data'] = A
        if R.kind == 'a': W = st.wr(p.r); m, o = W.fields[0]; d = B_int(p.i); W.fields[0] = (1, L.arr_def(ex, st, lambda j: z3.If(z3.And(j >= d, j < d + k), z3.Select(A, j - d), z3.Select(o, j)), "rd"))
        else: raise Unsupported("read into a small object")
    def sockname(s, ex, st, p, lp):
        """the system writes the address into the room it is given and says how long it is"""
        room = ex.load_raw(st, lp, 4); n = z3.Int(f"namelen!{fresh_id()}"); st.assume(z3.And(n >= 2, n <= s.cap)); ex.chk_range(st, p, room, True, "sockaddr")
        W = st.wr(p.r); A = z3.Array(f"NAME!{fresh_id()}", I, I); byte_axiom(ex, st, A); m, o = W.fields[0]; d = B_int(p.i); W.fields[0] = (1, L.arr_def(ex, st, lambda j: z3.If(z3.And(j >= d, j < d + B_int(n), j < d + B_int(room)), z3.Select(A, j - d), z3.Select(o, j)), "nm"))
        ex.store_raw(st, lp, 4, n); st.ghost['name'] = (A, n, room)
I64 = 1 << 64
class Chan:
    """a channel holding any number; a non-negative one is open and no other channel holds it"""
    def __init__(s, ex, st, name, others=(), value=None):
        s.p = ex.new_cells(st, const(ex, st, "c_sizeof"), name); s.fd = z3.Int(name + ".fd") if value is None else value; st.assume(z3.And(s.fd >= -INT, s.fd < INT)); st.assume(z3.Implies(s.fd >= 0, z3.Select(st.ghost['open'], s.fd)))
        for o in others: st.assume(z3.Or(s.fd < 0, s.fd != o.fd))
        r = ex.run(st, "c_of", [s.p, u32(s.fd)])
        if len(r) != 1 or r[0][0] is not st or isinstance(r[0][1], Throw): raise Unsupported("construction splits")
def small_heap(ex):
    """operator new gives the storage of an address as one array of bytes, anything smaller as single cells"""
    heap(ex)
    def op_new(ex, st, a, c):
        if isinstance(a[0], int) and a[0] < 128: p = ex.new_cells(st, a[0], "heap"); st.wr(p.r).dyn = ('new', a[0]); return p
        return L.NOTHANDLED
    ex.contract(r"^operator new\(unsigned long\)$", op_new, "operator new (assumed to succeed)")
def begin(ex): st = State(); small_heap(ex); errors_setup(ex); os_ = OS(ex, st); os_.cap = const(ex, st, "a_storage"); return st, os_
def holds(ex, st, p, fd, label):
    """fd: a descriptor, or -1 for none (any negative number will do)"""
    for q, o in ex.run(st.clone(), "c_get", [p]): v = B_int(s32(o.v)); ex.oblige(q, simp(v < 0 if z3.is_int_value(B_int(fd)) else v == B_int(fd)), f"post:{label}")
def table(ex, st, os_, label, closed=(), opened=()):
    """exactly these descriptors were closed and opened"""
    k = z3.Int(f"k!{fresh_id()}"); e = z3.Select(os_.o0, k)
    for f in closed: e = z3.And(e, k != f)
    for f in opened: e = z3.Or(e, k == f)
    ex.oblige(st, z3.Implies(k >= 0, z3.Select(st.ghost['open'], k) == e), f"post:{label}")
def quiet(ex, st, o): return ex.oblige(st, not isinstance(o, Throw), "post:no exception") or not isinstance(o, Throw)
def ends(ex, st, chans, os_, label, kept=(), extra_closed=()):
    """destroying the channels closes what they hold, each once (obligation in close), and nothing else"""
    states = [st]
    for c in chans: states = [q for s1 in states for q, o in ex.run(s1, "c_drop", [c])]
    for q in states: yield q
def owned(f): return lambda st: f
def lifecycle(op):
    """every operation from every state: what each channel then holds, and which descriptors are open; then all are destroyed and what was owned is closed"""
    def t(ex):
        st, os_ = begin(ex); n = const(ex, st, "c_sizeof"); a = Chan(ex, st, "a"); b = Chan(ex, st, "b", (a,)); nf = z3.Int("new.fd"); st.assume(z3.And(nf >= -INT, nf < INT, z3.Implies(nf >= 0, z3.And(z3.Select(os_.o0, nf), nf != a.fd, nf != b.fd))))
        p = ex.new_cells(st, n, "p"); M1 = z3.IntVal(-1)
        # -> function, arguments, holders afterwards [(object, descriptor)], descriptors closed, descriptor handed out
        fn, args, after, closed, given = {
            "new": ("c_new", [p], [(p, M1), (a.p, a.fd), (b.p, b.fd)], [], None),
            "of": ("c_of", [p, u32(nf)], [(p, nf), (a.p, a.fd), (b.p, b.fd)], [], None),
            "move": ("c_move", [p, a.p], [(p, a.fd), (a.p, M1), (b.p, b.fd)], [], None),
            "drop": ("c_drop", [a.p], [(b.p, b.fd)], [a.fd], None),
            "swap": ("c_swap", [a.p, b.p], [(a.p, b.fd), (b.p, a.fd)], [], None),
            "self_swap": ("c_swap", [a.p, a.p], [(a.p, a.fd), (b.p, b.fd)], [], None),
            "assign": ("c_assign", [a.p, b.p], [(a.p, b.fd), (b.p, M1)], [a.fd], None),
            "self_assign": ("c_assign", [a.p, a.p], [(a.p, a.fd), (b.p, b.fd)], [], None),
            "release": ("c_release", [a.p], [(a.p, M1), (b.p, b.fd)], [], a.fd),
            "get": ("c_get", [a.p], [(a.p, a.fd), (b.p, b.fd)], [], a.fd),
            "deref": ("c_deref", [a.p], [(a.p, a.fd), (b.p, b.fd)], [], a.fd),
            "reset": ("c_reset", [a.p, u32(nf)], [(a.p, nf), (b.p, b.fd)], [a.fd], None),
            "reset0": ("c_reset0", [a.p], [(a.p, M1), (b.p, b.fd)], [a.fd], None),
            "close": ("c_close", [a.p], [(a.p, M1), (b.p, b.fd)], [a.fd], None),
            "bool": ("c_bool", [a.p], [(a.p, a.fd), (b.p, b.fd)], [], None)}[op]
        for q, o in ex.run(st, fn, args):
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception"); continue
            if given is not None: ex.oblige(q, simp(B_int(s32(o.v)) == B_int(given)), "post:the descriptor held")
            if op == "bool": ex.oblige(q, B(ex.asbool(o.v)) == (a.fd >= 0), "post:true exactly if a descriptor is held")
            if op.endswith("assign"): ex.oblige(q, ex.pcmp(q, 'eq', o.v, a.p), "post:returns the channel")
            for c, f in after: holds(ex, q, c, f, "each channel holds its descriptor")
            table(ex, q, os_, "exactly what is no longer held is closed", closed=closed); cover(ex, q, "done")
            for q2 in ends(ex, q, [c for c, _ in after], os_, "end"): table(ex, q2, os_, "destruction closes what is held", closed=closed + [f for _, f in after]); cover(ex, q2, "destroyed")
    return t
def failed_with(ex, st, o, text, code=None):
    """the error is that of errno: try_again for would-block, otherwise io_error with message and number"""
    code = st.ghost['errno'] if code is None else code; again = z3.Or(*[code == x for x in AGAIN]); quiet = z3.Or(*[code == x for x in QUIET])
    ex.oblige(st, isinstance(o, Throw) and o.tinfo in (TI["try_again"], TI["io_error"]), "post:a failed call throws")
    if not isinstance(o, Throw): return
    if o.tinfo == TI["try_again"]: ex.oblige(st, again, "post:try_again only for would-block"); cover(ex, st, "try again")
    elif o.tinfo == TI["io_error"]:
        ex.oblige(st, z3.Not(again), "post:would-block is try_again"); v = ex.load_raw(st, ex.padd(st, o.obj, 8, 1), 8)
        if isinstance(v, Obj) and v.kind == 'strval':
            D = TOSTR(code); N = TOSTRN(code); k = z3.Int(f"k!{fresh_id()}"); ex.oblige(st, z3.Implies(z3.And(k >= 0, k < N), read(v.arr, B_int(v.len) - N + k) == read(D, k)), "post:the error ends in the error number")
        else: ex.oblige(st, False, "post:the error ends in the error number")
        cover(ex, st, "failed")
def one_event(ex, st, name):
    ev = [e for e in st.ghost['log'] if e[0] == name]; ex.oblige(st, len(ev) == 1 and len(st.ghost['log']) == 1, f"post:exactly one system call, {name}"); return ev[0] if ev else None
def made(op):
    """operations that make a channel from a system call: it owns the new descriptor; on failure nothing is left open"""
    def t(ex):
        st, os_ = begin(ex); n = const(ex, st, "c_sizeof"); a = Chan(ex, st, "a"); p = ex.new_cells(st, n, "p"); x = [z3.Int(f"arg{k}") for k in range(3)]
        for v in x: st.assume(z3.And(v >= -INT, v < INT))
        name, args, want = {"dup": ("dup", [p, a.p], lambda e: [e[1] == a.fd]), "accept": ("accept", [p, a.p], lambda e: [e[1] == a.fd]),
            "socket": ("socket", [p, *map(u32, x)], lambda e: [e[1] == x[0], e[2] == x[1], e[3] == x[2]]), "accept_from": ("accept", None, lambda e: [e[1] == a.fd]), "socket_for": ("socket", None, None)}[op]
        ad = None
        if op in ("accept_from", "socket_for"): ad = Addr(ex, st, "A"); args = [p, a.p, ad.p] if op == "accept_from" else [p, ad.p]
        if op == "socket_for": want = lambda e: [B_int(u32(e[1])) == ad.v["family"], B_int(u32(e[2])) == ad.v["type"], B_int(u32(e[3])) == ad.v["protocol"]]
        own = blocks(st)
        for q, o in ex.run(st, "c_" + op, args):
            e = one_event(ex, q, name); holds(ex, q, a.p, a.fd, "the channel itself is unchanged")
            if e is None: continue
            for w in want(e): ex.oblige(q, simp(w), "post:the call has the arguments given")
            if e[-1] is None: failed_with(ex, q, o, None); table(ex, q, os_, "a failure leaves nothing open"); continue
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
            holds(ex, q, p, e[-1], "the new channel holds the new descriptor"); table(ex, q, os_, "only the new descriptor is open in addition", opened=[e[-1]])
            if op == "accept_from":
                A, k, room = q.ghost['name']; ex.oblige(q, simp(B_int(room) == ad.v["size"]), "post:the room given is the address's"); r = ex.run(q.clone(), "a_size", [ad.p]); ex.oblige(q, simp(B_int(r[0][1].v) == k), "post:the address has the peer's size")
                d = ad.data(ex, q, ad.p); R = q.mem[d.r]; forall(ex, q, 0, simp(z3.If(k <= B_int(room), k, B_int(room))), lambda j: z3.Select(R.fields[0][1], j + B_int(d.i)) == z3.Select(A, j), "post:the address has the peer's bytes")
            cover(ex, q, "made")
            for q2 in ends(ex, q, [p, a.p], os_, "end"): table(ex, q2, os_, "destruction closes both", closed=[a.fd, e[-1]])
    return t
def a_pipe(ex):
    st, os_ = begin(ex); n = const(ex, st, "c_sizeof"); p = ex.new_cells(st, 2 * n, "pair"); fs = []
    for k in (0, 1):
        f = z3.Int(f"old{k}"); st.assume(z3.And(f >= -INT, f < INT, z3.Implies(f >= 0, z3.Select(os_.o0, f)), *[z3.Or(f < 0, f != g) for g in fs])); fs.append(f); ex.run(st, "c_of", [ex.padd(st, p, k * n, 1), u32(f)])
    ends_ = [p, ex.padd(st, p, n, 1)]
    for q, o in ex.run(st, "c_pipe", [p]):
        ev = [e for e in q.ghost['log'] if e[0] == "pipe"]; ex.oblige(q, len(ev) == 1, "post:one pipe is made"); e = ev[0]
        if e[-1] is None:
            failed_with(ex, q, o, None); table(ex, q, os_, "a failure changes nothing")
            for c, f in zip(ends_, fs): holds(ex, q, c, f, "a failure changes nothing")
            continue
        if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
        for c, f in zip(ends_, e[-1]): holds(ex, q, c, f, "read end first, write end second")
        table(ex, q, os_, "what was held before is closed, both ends are open", closed=fs, opened=e[-1]); cover(ex, q, "made")
        for q2 in ends(ex, q, ends_, os_, "end"): table(ex, q2, os_, "destruction closes both ends", closed=fs)
    return None
O_ = dict(CREAT=0o100, TRUNC=0o1000, APPEND=0o2000, WRONLY=1, RDWR=2); MODES = [0, 1 | 0o100 | 0o1000, 1 | 0o100 | 0o2000, 2, 2 | 0o100 | 0o1000, 2 | 0o100 | 0o2000]
def a_file(m):
    def t(ex):
        st, os_ = begin(ex); p = ex.new_cells(st, const(ex, st, "c_sizeof"), "p"); sp, n, A = string(ex, st, "path")
        for q, o in ex.run(st, "c_file", [p, sp, m]):
            e = one_event(ex, q, "open")
            if e is None: continue
            ex.oblige(q, simp(B_int(e[2]) == MODES[m]), "post:opened in the mode asked for"); ex.oblige(q, not (MODES[m] & O_["CREAT"]) or len(e[3]) == 1 and e[3][0] == 0o666, "post:a file that may be created has permissions")
            cs = L.c_string(ex, q, e[1])
            if cs is None: raise Unsupported("path of another kind")
            forall(ex, q, 0, n, lambda j: z3.Or(z3.Select(cs[0], j) == z3.Select(A, j), j >= cs[1]), "post:the path given")
            if e[-1] is None: failed_with(ex, q, o, None); table(ex, q, os_, "a failure leaves nothing open"); continue
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
            holds(ex, q, p, e[-1], "the new channel holds the new descriptor"); table(ex, q, os_, "only the new descriptor is open in addition", opened=[e[-1]]); cover(ex, q, "made")
    return t
READY = "ready"
def begin_ready(ex, st):
    ex.contract("^ghost_ready$", lambda ex, st, a, c: st.ghost.__setitem__('log', st.ghost['log'] + ((READY,),)), "the moment the awaitable is ready")
def waits(ex, q, out, fd, write, label):
    """waits for that descriptor and that direction, without a timeout; nothing is done before it is ready"""
    v = s32(ex.load_raw(q, out, 4)); w = ex.load_raw(q, ex.padd(q, out, 4, 1), 1); ms = ex.load_raw(q, ex.padd(q, out, 8, 1), 8)
    ex.oblige(q, simp(B_int(v) == B_int(fd)), f"post:{label} waits for the channel's descriptor"); ex.oblige(q, simp(B_int(ex.asint(w, 8)) == (1 if write else 0)), f"post:{label} waits for the right direction"); ex.oblige(q, simp(B_int(ms) >= 1 << 63), f"post:{label} has no timeout")
def before(q): k = [i for i, e in enumerate(q.ghost['log']) if e == (READY,)]; return (q.ghost['log'][:k[0]], q.ghost['log'][k[0] + 1:]) if k else (q.ghost['log'], ())
def transfer(op, asyn):
    def t(ex):
        st, os_ = begin(ex); begin_ready(ex, st); a = Chan(ex, st, "a"); n = z3.Int("n"); cap = z3.Int("cap"); off = z3.Int("off"); st.assume(z3.And(n >= 0, off >= 0, cap >= off + n, cap < (1 << 62))); A = z3.Array("BUF", I, I); byte_axiom(ex, st, A)
        b = ex.new_arr(st, 1, cap, {0: (1, A)}, "buf"); buf = Ptr(b.r, off); out = ex.new_cells(st, 16, "out"); args = [a.p, buf, n] + ([out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)] if asyn else [])
        for q, o in ex.run(st, f"c_{'async_' if asyn else ''}{op}", args):
            if asyn: pre, post = before(q); ex.oblige(q, pre == (), "post:nothing is done before it is ready"); waits(ex, q, out, a.fd, op == "write", op); q.ghost['log'] = post
            e = one_event(ex, q, op); holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed")
            if e is None: continue
            ex.oblige(q, simp(z3.And(B_int(e[1]) == a.fd, B_int(e[3]) == n)), "post:on the channel's descriptor, for the size asked"); ex.oblige(q, ex.pcmp(q, 'eq', e[2], buf), "post:with the buffer given")
            R = q.mem[b.r].fields[0][1]; k = e[-1]; j = z3.Int(f"j!{fresh_id()}")
            if k is None: failed_with(ex, q, o, None); forall(ex, q, 0, cap, lambda j: z3.Select(R, j) == z3.Select(A, j), "post:a failure changes no data"); continue
            if isinstance(o, Throw): ex.oblige(q, op == "read" and o.tinfo == EOF, "post:only the end of input throws"); ex.oblige(q, simp(k == 0), "post:eof only if the system said so"); cover(ex, q, "end"); continue
            ex.oblige(q, simp(B_int(o.v) == k), "post:returns the system's count")
            if op == "read":
                ex.oblige(q, simp(k > 0), "post:the end of input throws"); D = q.ghost['data']
                forall(ex, q, 0, k, lambda j: z3.Select(R, off + j) == z3.Select(D, j), "post:the data read"); ex.oblige(q, z3.Implies(z3.And(j >= 0, j < cap, z3.Or(j < off, j >= off + k)), z3.Select(R, j) == z3.Select(A, j)), "post:nothing else is written")
            else: forall(ex, q, 0, cap, lambda j: z3.Select(R, j) == z3.Select(A, j), "post:the data is not changed")
            cover(ex, q, "transferred")
    return t
def ready(op):
    def t(ex):
        st, os_ = begin(ex); begin_ready(ex, st); a = Chan(ex, st, "a"); out = ex.new_cells(st, 16, "out")
        for q, o in ex.run(st, "c_" + op, [a.p, out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)]):
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception"); continue
            waits(ex, q, out, a.fd, op == "can_write", op); ex.oblige(q, q.ghost['log'] == ((READY,),), "post:waiting does nothing else"); table(ex, q, os_, "no descriptor is opened or closed"); cover(ex, q, "ready")
    return t
def option(op):
    """the option named, on the channel's descriptor, with the value asked for"""
    def t(ex):
        st, os_ = begin(ex); a = Chan(ex, st, "a"); b = z3.Bool("on"); args = [a.p, b]; s = z3.Int("seconds"); want = None
        lv, nm, want = {"keep_alive": (SOL["SOCKET"], OPT["KEEPALIVE"], 1), "reuse_addr": (SOL["SOCKET"], OPT["REUSEADDR"], 1), "reuse_port": (SOL["SOCKET"], OPT["REUSEPORT"], 1), "no_delay": (SOL["TCP"], 1, 1), "linger": (SOL["SOCKET"], OPT["LINGER"], 2)}[op]
        if op == "linger": st.assume(z3.And(s >= 0, s < INT)); args.append(s)
        for q, o in ex.run(st, "c_" + op, args):
            e = one_event(ex, q, "setsockopt"); holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed")
            if e is None: continue
            ex.oblige(q, simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor"); ex.oblige(q, e[2] == lv and e[3] == nm, "post:the option it is named after"); v = e[4]
            ex.oblige(q, v is not None and len(v) == want, "post:a value of the option's type")
            if v is not None and len(v) == want:
                ex.oblige(q, simp((B_int(v[0]) != 0) == b), "post:the value asked for")
                if want == 2: ex.oblige(q, simp(B_int(v[1]) == s), "post:the time asked for")
            if e[-1] is None: failed_with(ex, q, o, None); continue
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
            ex.oblige(q, ex.pcmp(q, 'eq', o.v, a.p), "post:returns the channel"); cover(ex, q, "set")
    return t
def simple(op):
    def t(ex):
        st, os_ = begin(ex); a = Chan(ex, st, "a"); x = z3.Int("backlog"); st.assume(z3.And(x >= -INT, x < INT)); r, w = z3.Bool("r"), z3.Bool("w")
        args = dict(shutdown=[a.p, r, w], listen=[a.p, u32(x)])[op]
        for q, o in ex.run(st, "c_" + op, args):
            holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed"); log = q.ghost['log']
            if op == "shutdown" and not log: ex.oblige(q, z3.Not(z3.Or(r, w)), "post:something to shut down is shut down"); ex.oblige(q, not isinstance(o, Throw), "post:no exception"); continue
            e = one_event(ex, q, op)
            if e is None: continue
            ex.oblige(q, simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor")
            if op == "shutdown": ex.oblige(q, simp(z3.And(z3.Or(r, w), B_int(e[2]) == z3.If(z3.And(r, w), 2, z3.If(r, 0, 1)))), "post:the directions asked for")
            else: ex.oblige(q, simp(B_int(e[2]) == x), "post:the backlog asked for")
            if e[-1] is None: failed_with(ex, q, o, None); continue
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
            ex.oblige(q, ex.pcmp(q, 'eq', o.v, a.p), "post:returns the channel"); cover(ex, q, "done")
    return t
def bound(ex):
    st, os_ = begin(ex); a = Chan(ex, st, "a"); A = Addr(ex, st, "A")
    for q, o in ex.run(st, "c_bind", [a.p, A.p]):
        fam = z3.Select(A.A, 0) + 256 * z3.Select(A.A, 1); log = q.ghost['log']; holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed")
        if log and log[0][0] == "setsockopt":
            e = log[0]; ex.oblige(q, fam == 10, "post:only IPv6 addresses are bound to IPv6 alone"); ex.oblige(q, simp(B_int(e[1]) == a.fd) is True or simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor"); ex.oblige(q, e[2:4] == (SOL["IPV6"], 26) and e[4] == (1,), "post:bound to IPv6 alone"); log = log[1:]
            if e[-1] is None: failed_with(ex, q, o, None); ex.oblige(q, not log, "post:nothing is bound after a failure"); continue
        else: ex.oblige(q, fam != 10, "post:IPv6 addresses are bound to IPv6 alone")
        ex.oblige(q, len(log) == 1 and log[0][0] == "bind", "post:bound once")
        if not log: continue
        e = log[0]; ex.oblige(q, simp(z3.And(B_int(e[1]) == a.fd, B_int(e[3]) == A.v["size"])), "post:on the channel's descriptor, all of the address"); ex.oblige(q, ex.pcmp(q, 'eq', e[2], A.data(ex, q, A.p)), "post:the address given")
        if e[-1] is None: failed_with(ex, q, o, None); continue
        if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
        ex.oblige(q, ex.pcmp(q, 'eq', o.v, a.p), "post:returns the channel"); cover(ex, q, "bound")
def connecting(ex):
    st, os_ = begin(ex); begin_ready(ex, st); a = Chan(ex, st, "a"); A = Addr(ex, st, "A"); out = ex.new_cells(st, 16, "out"); os_.opt_fails = False
    for q, o in ex.run(st, "c_async_connect", [a.p, A.p, out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)]):
        pre, post = before(q); holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed"); ex.oblige(q, len(pre) == 1 and pre[0][0] == "connect", "post:connects at once")
        if not pre: continue
        e = pre[0]; ex.oblige(q, simp(z3.And(B_int(e[1]) == a.fd, B_int(e[3]) == A.v["size"])), "post:on the channel's descriptor, all of the address"); ex.oblige(q, ex.pcmp(q, 'eq', e[2], A.data(ex, q, A.p)), "post:the address given")
        if (READY,) not in q.ghost['log']: ex.oblige(q, e[-1] is None, "post:waits unless connecting failed"); failed_with(ex, q, o, None); ex.oblige(q, z3.And(*[q.ghost['errno'] != x for x in QUIET]), "post:a connection in progress is waited for"); continue
        if e[-1] is None: ex.oblige(q, z3.Or(*[q.ghost['errno'] == x for x in QUIET]), "post:a failed connect throws")
        waits(ex, q, out, a.fd, True, "connect"); ex.oblige(q, len(post) == 1 and post[0][0] == "getsockopt" and post[0][2:4] == (SOL["SOCKET"], OPT["ERROR"]), "post:then asks for the outcome")
        if not post: continue
        g = post[0]; ex.oblige(q, simp(B_int(g[1]) == a.fd), "post:the outcome of the channel's descriptor")
        if isinstance(o, Throw): ex.oblige(q, simp(B_int(g[-1]) != 0), "post:throws only if the connection failed"); failed_with(ex, q, o, None, g[-1])
        else: ex.oblige(q, simp(z3.Or(B_int(g[-1]) == 0, *[B_int(g[-1]) == x for x in QUIET])), "post:a failed connection throws"); cover(ex, q, "connected")
def async_accept(frm):
    def t(ex):
        st, os_ = begin(ex); begin_ready(ex, st); a = Chan(ex, st, "a"); p = ex.new_cells(st, const(ex, st, "c_sizeof"), "p"); out = ex.new_cells(st, 16, "out"); ad = Addr(ex, st, "A") if frm else None
        for q, o in ex.run(st, "c_async_accept" + ("_from" if frm else ""), [p, a.p] + ([ad.p] if frm else []) + [out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)]):
            pre, post = before(q); ex.oblige(q, pre == (), "post:nothing is done before it is ready"); waits(ex, q, out, a.fd, False, "accept"); q.ghost['log'] = post; e = one_event(ex, q, "accept"); holds(ex, q, a.p, a.fd, "the channel itself is unchanged")
            if e is None: continue
            ex.oblige(q, simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor"); ex.oblige(q, (e[2].r is None) == (not frm), "post:the address is asked for if it is wanted")
            if e[-1] is None: failed_with(ex, q, o, None); table(ex, q, os_, "a failure leaves nothing open"); continue
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
            holds(ex, q, p, e[-1], "the new channel holds the new descriptor"); table(ex, q, os_, "only the new descriptor is open in addition", opened=[e[-1]]); cover(ex, q, "accepted")
    return t
def non_blocking(ex):
    st, os_ = begin(ex); a = Chan(ex, st, "a"); on = z3.Bool("on"); F = z3.Int("flags"); rest = z3.Int("rest"); low = z3.Int("low"); bit = z3.Int("bit"); st.assume(z3.And(F == rest * 4096 + bit * 2048 + low, rest >= 0, rest < INT // 4096, z3.Or(bit == 0, bit == 1), low >= 0, low < 2048)); st.ghost['flags'] = F
    for q, o in ex.run(st, "c_non_blocking", [a.p, on]):
        log = q.ghost['log']; holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed"); ex.oblige(q, [e[0] for e in log] in (["getfl"], ["getfl", "setfl"]), "post:the flags are read, then set")
        for e in log: ex.oblige(q, simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor")
        if len(log) > 1: ex.oblige(q, simp(B_int(log[1][2]) == rest * 4096 + low + z3.If(on, 2048, 0)), "post:only the non-blocking flag changes, as asked")
        if log[-1][-1] is None: failed_with(ex, q, o, None); continue
        ex.oblige(q, len(log) == 2, "post:the flags are set")
        if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
        ex.oblige(q, ex.pcmp(q, 'eq', o.v, a.p), "post:returns the channel"); cover(ex, q, "set")
def flushing(ex):
    st, os_ = begin(ex); a = Chan(ex, st, "a")
    for q, o in ex.run(st, "c_flush", [a.p]):
        log = q.ghost['log']; ex.oblige(q, not isinstance(o, Throw), "post:no exception"); holds(ex, q, a.p, a.fd, "the channel still holds its descriptor"); table(ex, q, os_, "no descriptor is opened or closed")
        for e in log: ex.oblige(q, simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor"); ex.oblige(q, e[0] == "setsockopt" and e[2:4] == (SOL["TCP"], 1), "post:only delays are turned off and on")
        ex.oblige(q, len(log) >= 1 and log[0][4] == (1,), "post:pending data is pushed out"); cover(ex, q, "flushed")
def named(op):
    def t(ex):
        st, os_ = begin(ex); a = Chan(ex, st, "a"); p = ex.new_cells(st, const(ex, st, "a_sizeof"), "addr"); own = blocks(st)
        for q, o in ex.run(st, "c_" + op, [p, a.p]):
            log = q.ghost['log']; holds(ex, q, a.p, a.fd, "the channel itself is unchanged"); table(ex, q, os_, "no descriptor is opened or closed"); ex.oblige(q, log[0][0] == ("getsockname" if op == "own_addr" else "getpeername"), "post:asks for the right end")
            for e in log: ex.oblige(q, simp(B_int(e[1]) == a.fd), "post:on the channel's descriptor")
            if log[-1][-1] is None: failed_with(ex, q, o, None); ex.oblige(q, blocks(q) == own, "post:a failure leaks nothing"); continue
            if isinstance(o, Throw): ex.oblige(q, False, "post:no exception on success"); continue
            opts = {e[2:4]: e[4] for e in log[1:]}; A, n, room = q.ghost['name']; ex.oblige(q, set(opts) == {(1, OPT["TYPE"]), (1, OPT["PROTOCOL"])}, "post:asks for type and protocol")
            if set(opts) != {(1, OPT["TYPE"]), (1, OPT["PROTOCOL"])}: continue
            for g, v in (("family", A[0] + 256 * A[1]), ("type", opts[(1, OPT["TYPE"])]), ("protocol", opts[(1, OPT["PROTOCOL"])]), ("size", n)):
                for q2, o2 in ex.run(q.clone(), "a_" + g, [p]): ex.oblige(q2, simp(B_int(o2.v) == v), f"post:the {g} the system says")
            d = ex.run(q, "a_data", [p])[0][1].v; R = q.mem[d.r]; forall(ex, q, 0, n, lambda j: z3.Select(R.fields[0][1], j + B_int(d.i)) == z3.Select(A, j), "post:the bytes the system says"); cover(ex, q, "named")
    return t
TASKS = [*[Task("channel.own." + x, lifecycle(x)) for x in "new of move drop swap self_swap assign self_assign release get deref reset reset0 close bool".split()],
    *[Task("channel.make." + x, made(x)) for x in "dup accept accept_from socket socket_for".split()], Task("channel.make.pipe", a_pipe), *[Task(f"channel.make.file{m}", a_file(m)) for m in range(6)],
    *[Task(f"channel.io.{'async_' if y else ''}{x}", transfer(x, y)) for x in ("read", "write") for y in (0, 1)], *[Task("channel.io." + x, ready(x)) for x in ("can_read", "can_write")],
    *[Task("channel.opt." + x, option(x)) for x in "keep_alive reuse_addr reuse_port no_delay linger".split()], *[Task("channel.io." + x, simple(x)) for x in ("shutdown", "listen")], Task("channel.io.bind", bound), Task("channel.io.connect", connecting),
    Task("channel.make.async_accept", async_accept(False)), Task("channel.make.async_accept_from", async_accept(True)), Task("channel.opt.non_blocking", non_blocking), Task("channel.opt.flush", flushing), Task("channel.io.own_addr", named("own_addr")), Task("channel.io.peer_addr", named("peer_addr"))]
