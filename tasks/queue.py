"""Queues and semaphores (A03).  The mutex is a monitor: taking it gives whatever content others may have left, releasing it must leave the invariant: at most the
capacity, the flag waited for by can_get set exactly if there is an element, that waited for by can_put exactly if there is room.  std::deque is a ghost sequence,
flags are booleans by contract (discharged in A04), select runs the action until it does not throw try_again (A07)."""
import z3
from core import *
from exec import B_int
import lib as L, eptr
from ghost import *
from task import Task, cover
from tasks.errors import TI, setup as errors_setup
from tasks.address import const
import tasks.channel as ch
from tasks.channel import s32, INT, waits, before, READY, begin_ready
from tasks.sync import feasible
DRIVER = "queue.cpp"
FLAGS = tuple("only:" + x for x in "errors registry awaitable".split()) + (f"-I{ch.V}/drivers/stub", "-fno-access-control")
U64 = (1 << 64) - 1
DQ = r"^(?:[\w:& <>,]*? )?std::deque<int, std::allocator<int> ?>::"
def key(ex, p): return (p.r, p.i if isinstance(p.i, int) else str(p.i))
class Monitor:
    def __init__(s, ex, st, kind, cap=None):
        s.kind = kind; s.ex = ex; errors_setup(ex); st.ghost.update(log=(), held=False, flags={}, dq=None, changed=0); s.fget = s.fput = None; s.live = False; C = ex.contract
        C(r"^__gthread_active_p", lambda ex, st, a, c: 1, "threads"); C(r"^pthread_mutex_lock$", s.lock, "pthread_mutex_lock"); C(r"^pthread_mutex_unlock$", s.unlock, "pthread_mutex_unlock")
        def fset(v):
            def h(ex, st, a, c): k = key(ex, a[0]); ex.oblige(st, k in st.ghost['flags'], "post:a flag of the queue"); f = dict(st.ghost['flags']); f[k] = v; st.ghost['flags'] = f; s.guard(ex, st); return None
            return h
        C(r"^arpc::flag::flag\(\)$", fset_new, "flag constructor (A04)"); C(r"^arpc::flag::~flag\(\)$", lambda ex, st, a, c: None, "flag destructor (A04)"); C(r"^arpc::flag::set\(\)$", fset(z3.BoolVal(True)), "flag set (A04)"); C(r"^arpc::flag::reset\(\)$", fset(z3.BoolVal(False)), "flag reset (A04)")
        def is_set(ex, st, a, c): s.guard(ex, st); return st.ghost['flags'][key(ex, a[0])]
        C(r"^arpc::flag::(is_set\(\) const|operator bool\(\) const)$", is_set, "flag state (A04)")
        C(r"^arpc::flag::async_wait\(\)$", lambda ex, st, a, c: [(q, Ret(None)) if not isinstance(o, Throw) else (q, o) for q, o in ex.run(st, "g_async_wait", [a[0], a[1]])], "flag wait (A04)")
        C(r"^ghost_wait$", s.waited, "whether the flag is set then")
        C(r"^(auto )?arpc::select<arpc::awaitable<(void|int)> ?>\(", s.select, "select on one awaitable (A07)")
        C(DQ + r"deque\(\)$", lambda ex, st, a, c: s.dq_new(ex, st, a[0]), "std::deque"); C(DQ + r"~deque\(\)$", lambda ex, st, a, c: None, "std::deque")
        C(DQ + r"(push_back\(int (const&|&&)\)|(int& )?emplace_back<int>\(int&&\))$", s.push, "std::deque::push_back"); C(DQ + r"pop_front\(\)$", s.pop, "std::deque::pop_front"); C(DQ + r"front\(\)( const)?$", s.front, "std::deque::front")
        C(DQ + r"emplace_back<(int const&|int&)>\(", s.push, "std::deque::emplace_back")
        C(DQ + r"size\(\) const$", lambda ex, st, a, c: (s.guard(ex, st), simp(st.ghost['dq'][2] - st.ghost['dq'][1]))[1], "std::deque::size"); C(DQ + r"empty\(\) const$", lambda ex, st, a, c: (s.guard(ex, st), simp(st.ghost['dq'][2] == st.ghost['dq'][1]))[1], "std::deque::empty")
    def guard(s, ex, st):
        if s.live: ex.oblige(st, st.ghost['held'], "post:content and flags are touched only while holding the lock")
    def dq_new(s, ex, st, p): A = z3.Array(f"Q!{fresh_id()}", I, I); r = ex.new_arr(st, 4, 1 << 61, {0: (4, A)}, "deque"); st.ghost['dq'] = (r.r, z3.IntVal(0), z3.IntVal(0)); return None
    def push(s, ex, st, a, c):
        s.guard(ex, st); r, h, t = st.ghost['dq']; p = Ptr(r, t); ex.store_raw(st, p, 4, ex.load_raw(st, a[1], 4)); st.ghost['dq'] = (r, h, simp(t + 1)); return p
    def pop(s, ex, st, a, c): s.guard(ex, st); r, h, t = st.ghost['dq']; ex.oblige(st, simp(h < t), "pre:something to take out"); st.ghost['dq'] = (r, simp(h + 1), t); return None
    def front(s, ex, st, a, c): s.guard(ex, st); r, h, t = st.ghost['dq']; ex.oblige(st, simp(h < t), "pre:there is a first element"); return Ptr(r, h)
    def size(s, ex, st): return simp(st.ghost['dq'][2] - st.ghost['dq'][1]) if s.kind == "q" else B_int(ex.load_raw(st, s.loc, 8))
    def lock(s, ex, st, a, c):
        ex.oblige(st, not st.ghost['held'], "post:the lock is not taken twice"); st.ghost['held'] = True
        if s.live:
            s.untouched(ex, st); h, n = z3.Int(f"h!{fresh_id()}"), z3.Int(f"n!{fresh_id()}"); st.assume(z3.And(h >= 0, h < 1 << 60, n >= 0, n < 1 << 60, n <= s.cap))
            if s.kind == "q": A = z3.Array(f"Q!{fresh_id()}", I, I); r = ex.new_arr(st, 4, 1 << 62, {0: (4, A)}, "deque"); st.ghost['dq'] = (r.r, h, simp(h + n)); st.ghost['was'] = (A, h, n)
            else: ex.store_raw(st, s.loc, 8, n); st.ghost['was'] = (None, h, n)
            st.ghost['flags'] = {s.fget: simp(n > 0), s.fput: simp(n < s.cap)}; st.ghost['turns'] = st.ghost.get('turns', 0) + 1
        return 0
    def unlock(s, ex, st, a, c):
        ex.oblige(st, st.ghost['held'], "post:only a held lock is released"); st.ghost['held'] = False
        if s.live:
            s.inv(ex, st); r, h, t = st.ghost['dq'] if s.kind == "q" else (None, 0, 0); st.ghost['now'] = (st.mem[r].fields[0][1] if r is not None else None, h, s.size(ex, st)); s.mark(ex, st)
        return 0
    def inv(s, ex, st):
        n = s.size(ex, st); f = st.ghost['flags']; ex.oblige(st, simp(n <= s.cap), "inv:never more than the capacity"); ex.oblige(st, B(f[s.fget]) == (n > 0), "inv:ready for get exactly if not empty"); ex.oblige(st, B(f[s.fput]) == (n < s.cap), "inv:ready for put exactly if not full")
    def mark(s, ex, st):
        if s.kind == "s": v = z3.Int(f"unlocked!{fresh_id()}"); st.assume(z3.And(v >= 0, v <= U64)); ex.store_raw(st, s.loc, 8, v); st.ghost['mark'] = v
        st.ghost['dqmark'] = st.ghost['dq']
    def untouched(s, ex, st):
        if s.kind == "s": ex.oblige(st, simp(B_int(ex.load_raw(st, s.loc, 8)) == st.ghost['mark']), "post:the count changes only while the lock is held")
        else: ex.oblige(st, st.ghost['dq'] is st.ghost['dqmark'], "post:the content changes only while the lock is held")
    def waited(s, ex, st, a, c):
        k = key(ex, a[0]); v = z3.Bool(f"set!{fresh_id()}"); w = st.clone(); st.ghost['waited'] = w.ghost['waited'] = k; st.assume(v); w.assume(z3.Not(v)); w.ghost['unset'] = True; return [(st, Ret(None)), L.throw(ex, w, TI["try_again"])]
    def select(s, ex, st, a, c):
        out = []; t = "_int" if "awaitable<int>" in c.dname else ""; bad = st.clone(); bad.ghost['select'] = 'gave up'; out.append(L.throw(ex, bad, TI["cancelled"]))
        for q, o in ex.run(st, "g_one" + t, [a[0], a[1]]):
            if isinstance(o, Throw): out.append((q, o)); continue
            for q2, o2 in ex.run(q, "g_done" + t, [a[0]]):
                d = B(ex.asbool(o2.v)); w = q2.clone()
                if feasible(ex, w, z3.Not(d)):
                    w.assume(simp(z3.Not(d))); cover(ex, w, "waits again"); ex.oblige(w, not w.ghost['held'], "post:waits without the lock")
                    if 'now' in w.ghost: s.unchanged(ex, w, "what is tried again had no effect")
                if feasible(ex, q2, d): q2.assume(d); out.append((q2, Ret(None)))
        return out
    def unchanged(s, ex, st, label):
        ex.oblige(st, 'now' in st.ghost, f"post:{label}: looked at")
        if 'now' not in st.ghost: return
        A, h, n = st.ghost['was']; B_, h2, n2 = st.ghost['now']; ex.oblige(st, simp(n2 == n), f"post:{label}: count")
        if s.kind == "q": forall(ex, st, 0, n, lambda j: z3.Select(B_, h2 + j) == z3.Select(A, h + j), f"post:{label}")
    def new(s, ex, st):
        """-> state with a constructed object of any capacity, and which flags can_get and can_put wait for"""
        s.cap = z3.Int("capacity"); st.assume(z3.And(s.cap >= 0, s.cap <= U64)); k = s.kind; s.p = ex.new_cells(st, const(ex, st, k + "_sizeof"), "queue"); begin_ready(ex, st)
        r = ex.run(st, k + "_new", [s.p, s.cap]); r = [x for x in r if not isinstance(x[1], Throw)]
        return [q for q, o in r]
    def names(s, ex, st):
        out = ex.new_cells(st, 16, "out"); res = []
        for w in ("get", "put"):
            q = [q for q, o in ex.run(st.clone(), f"{s.kind}_can_{w}", [s.p, out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)]) if 'waited' in q.ghost]
            if not q: raise Unsupported("can_get or can_put waits for no flag")
            res.append(q[0].ghost['waited'])
        s.fget, s.fput = res
    def start(s, ex, st):
        if s.kind == "s": s.loc = ex.run(st, "rep_size", [s.p])[0][1].v
        s.mark(ex, st); s.live = True
def fset_new(ex, st, a, c): f = dict(st.ghost['flags']); f[key(ex, a[0])] = z3.BoolVal(False); st.ghost['flags'] = f; return None
def ctor(kind):
    def t(ex):
        st = State(); M = Monitor(ex, st, kind); n = 0
        for q in M.new(ex, st):
            M.names(ex, q)
            if kind == "s": M.loc = ex.run(q, "rep_size", [M.p])[0][1].v
            ex.oblige(q, simp(M.size(ex, q) == 0), "post:a new queue is empty"); ex.oblige(q, M.fget != M.fput, "post:one flag each"); M.inv(ex, q); ex.oblige(q, not q.ghost['held'], "post:the lock is free"); cover(ex, q, "made"); n += 1
            for op, v in (("max_size", M.cap), ("capacity", M.cap)):
                for q2, o in ex.run(q.clone(), f"{kind}_{op}", [M.p]): ex.oblige(q2, simp(B_int(o.v) == v), f"post:{op} is the capacity")
        if kind == "q":
            st = State(); M2 = Monitor(ex, st, kind); M2.cap = U64; p = ex.new_cells(st, const(ex, st, "q_sizeof"), "queue")
            for q, o in ex.run(st, "q_new0", [p]):
                if isinstance(o, Throw): continue
                for q2, o2 in ex.run(q, "q_capacity", [p]): ex.oblige(q2, simp(B_int(o2.v) == U64), "post:unbounded by default"); cover(ex, q2, "default")
    return t
def op(kind, name):
    def t(ex):
        st = State(); M = Monitor(ex, st, kind)
        for st in M.new(ex, st):
            M.names(ex, st); st.ghost['log'] = (); M.start(ex, st); one(ex, st, M)
    def one(ex, st, M):
        asyn = name.startswith("async_") or name.startswith("can_"); putting = "put" in name; x = z3.Int("x"); st.assume(z3.And(x >= 0, x < 1 << 32)); vp = ex.new_cells(st, 4, "value"); ex.store_raw(st, vp, 4, x); out = ex.new_cells(st, 16, "out")
        args = [M.p] + ([vp] if kind == "q" and putting and not name.startswith("can_") else []) + ([out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)] if asyn else [])
        for q, o in ex.run(st, f"{kind}_{name}", args):
            thrown = isinstance(o, Throw); ex.oblige(q, not q.ghost['held'], "post:the lock is released"); M.untouched(ex, q)
            if asyn:
                pre, post = before(q); ex.oblige(q, pre == () and (READY,) in q.ghost['log'], "post:nothing is done before it is ready"); waits(ex, q, out, 7, False, name); ex.oblige(q, q.ghost.get('waited') == (M.fput if putting else M.fget), "post:waits for the right flag")
                if q.ghost.get('unset') or name.startswith("can_"): ex.oblige(q, thrown == bool(q.ghost.get('unset')) and 'now' not in q.ghost, "post:while the flag is not set nothing is done"); ex.oblige(q, not thrown or o.tinfo == TI["try_again"], "post:waits on"); cover(ex, q, "waits"); continue
            if q.ghost.get('select'): ex.oblige(q, thrown and o.tinfo == TI["cancelled"], "post:fails as waiting failed"); ex.oblige(q, 'now' not in q.ghost, "post:a failure does nothing"); cover(ex, q, "gave up"); continue
            ex.oblige(q, q.ghost.get('turns') == 1 and 'now' in q.ghost, "post:one step while holding the lock")
            if 'now' not in q.ghost: continue
            A, h, n = q.ghost['was']; N, h2, n2 = q.ghost['now']
            if name in ("size", "empty", "full"):
                M.unchanged(ex, q, "looking changes nothing"); ex.oblige(q, not thrown, "post:no exception")
                if not thrown: ex.oblige(q, simp(B_int(o.v) == n) if name == "size" else B(ex.asbool(o.v)) == (n == 0 if name == "empty" else n == M.cap), f"post:{name} tells the truth")
            elif thrown: ex.oblige(q, o.tinfo == TI["try_again"] and name.split("_")[0] in ("maybe", "async"), "post:fails only to be tried again"); ex.oblige(q, simp(n == (M.cap if putting else 0)), "post:fails only if it cannot proceed"); M.unchanged(ex, q, "a failure does nothing")
            elif putting:
                ex.oblige(q, simp(z3.And(n < M.cap, n2 == n + 1)), "post:one more, within the capacity")
                if kind == "q": forall(ex, q, 0, n, lambda j: z3.Select(N, h2 + j) == z3.Select(A, h + j), "post:what was there stays, in order"); ex.oblige(q, simp(z3.Select(N, h2 + n) == x), "post:the new one is last")
            else:
                ex.oblige(q, simp(z3.And(n > 0, n2 == n - 1)), "post:one less")
                if kind == "q": ex.oblige(q, simp(B_int(o.v) == z3.Select(A, h)), "post:the first one is handed out"); forall(ex, q, 0, n2, lambda j: z3.Select(N, h2 + j) == z3.Select(A, h + 1 + j), "post:the others stay, in order")
            cover(ex, q, "thrown" if thrown else "done")
    return t
OPS = "maybe_put maybe_get put get async_put async_get can_put can_get size empty full".split()
TASKS = [Task("queue.q.new", ctor("q")), Task("queue.s.new", ctor("s")), *[Task(f"queue.{k}.{o}", op(k, o)) for k in "qs" for o in OPS], Task("queue.q.maybe_put_move", op("q", "maybe_put_move"))]
