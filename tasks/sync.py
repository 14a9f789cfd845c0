"""Flags and mutexes (A04).  The pipe of a flag or mutex is a ghost number of bytes; std::mutex is a monitor: taking it gives the state another thread may
have left (any state satisfying the invariant), releasing it must leave the invariant.  The steps of other threads on a mutex's pipe happen before each of ours."""
import z3, os
from core import *
from exec import B_int
import lib as L, gmap as G, eptr
from ghost import *
from task import Task, cover
from tasks.errors import TI, AGAIN, setup as errors_setup
from tasks.address import const
import tasks.channel as ch
from tasks.channel import s32, u32, INT, W32, I64, waits, before, READY, begin_ready, table
DRIVER = "sync.cpp"
FLAGS = tuple("only:" + x for x in "channel pipe flag mutex errors registry".split()) + (f"-I{ch.V}/drivers/stub", "-fno-access-control")
def feasible(ex, st, c): return not ex.q(st, simp(z3.Not(c)) if isinstance(c, z3.ExprRef) else not c)
class Pipe(ch.OS):
    """one pipe; N bytes in it.  'act' is told before each transfer, so that other threads can step first"""
    def __init__(s, ex, st):
        super().__init__(ex, st); st.ghost.update(pipe=None, N=z3.IntVal(0), nb=(False, False), held=False, made=0); s.act = lambda ex, st, what: None; s.ok = False
        def pipe(ex, st, a, c):
            out = []
            if not s.ok: bad = st.clone(); s.code(ex, bad); out.append((bad, Ret(W32 - 1)))
            f, g = s.fd(ex, st, "rd"), s.fd(ex, st, "wr"); ex.store_raw(st, a[0], 4, f); ex.store_raw(st, ex.padd(st, a[0], 4, 1), 4, g); st.ghost['pipe'] = (f, g); st.ghost['made'] += 1; return out + [(st, Ret(0))]
        ex.contract("^pipe$", pipe, "pipe (POSIX)")
        def end(ex, st, fd, what, ends=(0, 1)):
            P = st.ghost['pipe']
            for k in ends:
                if P is not None and ex.q(st, B_int(s32(fd)) == P[k]): return k
            ex.oblige(st, False, f"post:{what} on the object's own pipe"); return None
        def fcntl(ex, st, a, c):
            k = end(ex, st, a[0], "fcntl")
            if k is None: return u32(-1)
            bad = st.clone(); s.code(ex, bad); out = [] if s.ok else [(bad, Ret(W32 - 1))]
            if a[1] == 3: return out + [(st, Ret(k))]
            if a[1] == 4 and isinstance(a[2], int): nb = list(st.ghost['nb']); nb[k] = bool(a[2] & 2048); st.ghost['nb'] = tuple(nb); return out + [(st, Ret(0))]
            raise Unsupported("fcntl")
        ex.contract("^fcntl$", fcntl, "fcntl (POSIX)")
        def read_(ex, st, a, c):
            s.act(ex, st, "read"); k = end(ex, st, a[0], "reads", (0,)); n = a[2]
            if k is None: raise Unsupported("read elsewhere")
            if not isinstance(n, int): raise Unsupported("symbolic read")
            ex.chk_range(st, a[1], n, True, "read"); N = st.ghost['N']; out = []; no = st.clone()
            if feasible(ex, no, N == 0):
                no.assume(N == 0); ex.oblige(no, no.ghost['nb'][0], "post:reading never blocks"); ex.store_raw(no, s.err, 4, 11); no.ghost['errno'] = z3.IntVal(11); out.append((no, Ret(I64 - 1)))
            if feasible(ex, st, N > 0):
                st.assume(N > 0); r = simp(z3.If(N < n, N, z3.IntVal(n))); st.ghost['N'] = simp(N - r); s.took(ex, st, r); out.append((st, Ret(r)))
                for j in range(n): ex.store_raw(st, ex.padd(st, a[1], j, 1), 1, ex.fresh(st, 8, "byte"))
            return out
        def write_(ex, st, a, c):
            s.act(ex, st, "write"); k = end(ex, st, a[0], "writes", (1,)); n = a[2]
            if k is None: raise Unsupported("write elsewhere")
            ex.chk_range(st, a[1], n, False, "write"); ex.oblige(st, simp(st.ghost['N'] + B_int(n) <= 4096), "post:the pipe never fills up"); st.ghost['N'] = simp(st.ghost['N'] + B_int(n)); s.gave(ex, st, n); return n
        ex.contract("^read$", read_, "read (POSIX)"); ex.contract("^write$", write_, "write (POSIX)")
        s.took = s.gave = lambda ex, st, n: None
        ex.contract(r"^__gthread_active_p", lambda ex, st, a, c: 1, "threads")
        ex.contract(r"^pthread_mutex_lock$", s.lock, "pthread_mutex_lock"); ex.contract(r"^pthread_mutex_unlock$", s.unlock, "pthread_mutex_unlock"); ex.contract(r"^pthread_mutex_destroy$", lambda ex, st, a, c: 0, "pthread_mutex_destroy")
        ex.contract(r"^(auto )?arpc::select<arpc::awaitable<void> ?>\(", s.select, "select on one awaitable (A07)")
    def lock(s, ex, st, a, c): raise Unsupported("a lock")
    def unlock(s, ex, st, a, c): raise Unsupported("a lock")
    def select(s, ex, st, a, c):
        """fails without running anything, or runs the action once it is ready and again while it throws try_again, and gives its outcome"""
        out = []; bad = st.clone(); bad.ghost['select'] = 'gave up'; out.append(L.throw(ex, bad, TI["cancelled"])); snap = s.snap(st)
        for q, o in ex.run(st, "s_one", [a[0], a[1]]):
            if isinstance(o, Throw): out.append((q, o)); continue
            for q2, o2 in ex.run(q, "s_done", [a[0]]):
                d = B(ex.asbool(o2.v)); w = q2.clone()
                if feasible(ex, w, z3.Not(d)): w.assume(simp(z3.Not(d))); s.same(ex, w, snap); cover(ex, w, "waits again")
                if feasible(ex, q2, d): q2.assume(d); out.append((q2, Ret(None)))
        return out
    def snap(s, st): return None
    def same(s, ex, st, snap): pass
class Flag(Pipe):
    """invariant under the mutex: set exactly if there is one byte in the pipe, otherwise none"""
    def __init__(s, ex, st):
        super().__init__(ex, st); errors_setup(ex); s.p = None
        s.act = lambda ex, st, what: ex.oblige(st, st.ghost['held'], f"post:{what}s only while holding the lock")
    def new(s, ex, st):
        s.ok = True; s.p = ex.new_cells(st, const(ex, st, "f_sizeof"), "flag"); r = ex.run(st, "f_new", [s.p])
        if len(r) != 1 or isinstance(r[0][1], Throw): raise Unsupported("construction splits")
        st = r[0][0]; s.loc = ex.run(st, "rep_set", [s.p])[0][1].v; s.mark(ex, st); s.ok = False; return st
    def mark(s, ex, st): v = z3.Int(f"unlocked!{fresh_id()}"); st.assume(z3.And(v >= 0, v < 256)); ex.store_raw(st, s.loc, 1, v); st.ghost['mark'] = v
    def untouched(s, ex, st): ex.oblige(st, simp(B_int(ex.asint(ex.load_raw(st, s.loc, 1), 8)) == st.ghost['mark']), "post:the flag changes only while the lock is held")
    def lock(s, ex, st, a, c):
        ex.oblige(st, not st.ghost['held'], "post:the lock is not taken twice"); s.untouched(ex, st); v = z3.Int(f"S!{fresh_id()}"); st.assume(z3.And(v >= 0, v <= 1)); ex.store_raw(st, s.loc, 1, v); st.ghost.update(held=True, N=v, was=v); return 0
    def unlock(s, ex, st, a, c):
        ex.oblige(st, st.ghost['held'], "post:only a held lock is released"); v = B_int(ex.asint(ex.load_raw(st, s.loc, 1), 8)); ex.oblige(st, simp(z3.Or(v == 0, v == 1)), "post:set or not"); ex.oblige(st, simp(st.ghost['N'] == v), "inv:ready (one byte in the pipe) exactly if set")
        st.ghost.update(held=False, now=v); s.mark(ex, st); return 0
def frame(ex, st, S, os_):
    ex.oblige(st, not st.ghost['held'], "post:the lock is released"); S.untouched(ex, st); table(ex, st, os_, "no descriptor is opened or closed", opened=st.ghost['pipe'])
def f_ctor(ex):
    st = State(); S = Flag(ex, st); S.act = lambda *a: None; p = ex.new_cells(st, const(ex, st, "f_sizeof"), "flag")
    for q, o in ex.run(st, "f_new", [p]):
        if isinstance(o, Throw): ex.oblige(q, o.tinfo in (TI["io_error"], TI["try_again"]), "post:fails as the system call failed"); table(ex, q, S, "a failure leaves nothing open"); cover(ex, q, "failed"); continue
        v = B_int(ex.asint(ex.load_raw(q, ex.run(q, "rep_set", [p])[0][1].v, 1), 8)); ex.oblige(q, simp(z3.And(v == 0, q.ghost['N'] == 0)), "inv:a new flag is neither set nor ready"); ex.oblige(q, q.ghost['made'] == 1 and q.ghost['nb'][0], "post:one pipe, reading never blocks")
        table(ex, q, S, "its pipe is open", opened=q.ghost['pipe']); cover(ex, q, "made")
        for q2, o2 in ex.run(q, "f_drop", [p]): table(ex, q2, S, "destruction closes its pipe")
def flag_op(op):
    """atomic: from whatever state others left to the state named, whatever happens before and after"""
    def t(ex):
        st = State(); S = Flag(ex, st); st = S.new(ex, st)
        for q, o in ex.run(st, "f_" + op, [S.p]):
            if isinstance(o, Throw): ex.oblige(q, False, "post:never fails"); continue
            frame(ex, q, S, S); ex.oblige(q, 'now' in q.ghost, "post:looks at the flag"); was, now = q.ghost['was'], q.ghost['now']
            if op in ("set", "reset"): ex.oblige(q, simp(now == (1 if op == "set" else 0)), "post:the flag is as asked")
            else: ex.oblige(q, B(ex.asbool(o.v)) == (was == 1), "post:tells whether it was set"); ex.oblige(q, simp(now == was), "post:looking changes nothing")
            cover(ex, q, "done")
    return t
def flag_wait(asyn):
    def t(ex):
        st = State(); S = Flag(ex, st); st = S.new(ex, st); begin_ready(ex, st); out = ex.new_cells(st, 16, "out"); P = st.ghost['pipe']
        S.snap = lambda st: None; S.same = lambda ex, q, s: ex.oblige(q, simp(q.ghost['was'] == 0) if 'was' in q.ghost else False, "post:waits again only while not set")
        for q, o in ex.run(st, "f_async_wait" if asyn else "f_wait", [S.p] + ([out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)] if asyn else [])):
            frame(ex, q, S, S)
            if asyn: pre, post = before(q); ex.oblige(q, pre == (), "post:nothing is done before it is ready"); waits(ex, q, out, P[0], False, "waiting")
            elif q.ghost.get('select'): ex.oblige(q, isinstance(o, Throw) and o.tinfo == TI["cancelled"], "post:fails as waiting failed"); cover(ex, q, "gave up"); continue
            ex.oblige(q, 'now' in q.ghost, "post:looks at the flag")
            if 'now' not in q.ghost: continue
            was, now = q.ghost['was'], q.ghost['now']; ex.oblige(q, simp(now == was), "post:waiting leaves the flag set for the others")
            if isinstance(o, Throw): ex.oblige(q, asyn and o.tinfo == TI["try_again"], "post:fails only to wait again"); ex.oblige(q, simp(was == 0), "post:waits on only while not set"); cover(ex, q, "not yet")
            else: ex.oblige(q, simp(was == 1), "post:done only when set"); cover(ex, q, "set")
    return t
class Mutex(Pipe):
    """bytes in the pipe + owners = 1; before each of our transfers the others take and release as they may"""
    def __init__(s, ex, st):
        super().__init__(ex, st); errors_setup(ex)
        st.ghost.update(mine=z3.IntVal(0))
        def act(ex, st, what):
            N = z3.Int(f"N!{fresh_id()}"); oth = z3.Int(f"others!{fresh_id()}"); st.assume(z3.And(N >= 0, oth >= 0, N + oth + st.ghost['mine'] == 1)); st.ghost.update(N=N, was=N, others=oth)
        s.act = act
    def took(s, ex, st, n): st.ghost['mine'] = simp(st.ghost['mine'] + B_int(n)); s.inv(ex, st)
    def gave(s, ex, st, n): st.ghost['mine'] = simp(st.ghost['mine'] - B_int(n)); s.inv(ex, st)
    def inv(s, ex, st): m = st.ghost['mine']; ex.oblige(st, simp(z3.And(m >= 0, m <= 1)), "post:the mutex is given back only by its owner"); ex.oblige(st, simp(st.ghost['N'] + st.ghost['others'] + m == 1), "inv:free or held by one owner")
    def new(s, ex, st):
        act, s.act, s.took, s.gave, s.ok = s.act, lambda *a: None, lambda *a: None, lambda *a: None, True; s.p = ex.new_cells(st, const(ex, st, "m_sizeof"), "mutex"); r = ex.run(st, "m_new", [s.p])
        if len(r) != 1 or isinstance(r[0][1], Throw): raise Unsupported("construction splits")
        del s.took, s.gave; s.act = act; s.ok = False; s.took, s.gave = Mutex.took.__get__(s), Mutex.gave.__get__(s); return r[0][0]
def m_ctor(ex):
    st = State(); S = Mutex(ex, st); S.act = S.took = S.gave = lambda *a: None; p = ex.new_cells(st, const(ex, st, "m_sizeof"), "mutex")
    for q, o in ex.run(st, "m_new", [p]):
        if isinstance(o, Throw): ex.oblige(q, o.tinfo in (TI["io_error"], TI["try_again"]), "post:fails as the system call failed"); table(ex, q, S, "a failure leaves nothing open"); cover(ex, q, "failed"); continue
        ex.oblige(q, simp(q.ghost['N'] == 1), "inv:a new mutex is free"); ex.oblige(q, q.ghost['made'] == 1 and q.ghost['nb'][0], "post:one pipe, reading never blocks"); table(ex, q, S, "its pipe is open", opened=q.ghost['pipe']); cover(ex, q, "made")
        for q2, o2 in ex.run(q, "m_drop", [p]): table(ex, q2, S, "destruction closes its pipe")
def mutex_op(op, mine):
    """from free, held by another or (mine) held by us: afterwards we own it exactly if the operation says so"""
    def t(ex):
        st = State(); S = Mutex(ex, st); st = S.new(ex, st); S.took = S.took; begin_ready(ex, st); out = ex.new_cells(st, 16, "out"); P = st.ghost['pipe']; st.ghost['mine'] = z3.IntVal(1 if mine else 0); asyn = op in ("can_lock", "async_lock")
        S.snap = lambda st: st.ghost['mine']; S.same = lambda ex, q, m: ex.oblige(q, simp(q.ghost['mine'] == m), "post:what is tried again had no effect")
        for q, o in ex.run(st, "m_" + op, [S.p] + ([out, ex.padd(st, out, 4, 1), ex.padd(st, out, 8, 1)] if asyn else [])):
            table(ex, q, S, "no descriptor is opened or closed", opened=P); thrown = isinstance(o, Throw); own = q.ghost['mine'] == 1
            if asyn: pre, post = before(q); ex.oblige(q, (READY,) in q.ghost['log'] and pre == (), "post:nothing is done before it is ready"); waits(ex, q, out, P[0], False, "locking")
            if op == "unlock": ex.oblige(q, not thrown, "post:unlocking never fails"); ex.oblige(q, z3.Not(own), "post:released"); cover(ex, q, "released"); continue
            if op == "can_lock": ex.oblige(q, not thrown and 'was' not in q.ghost, "post:waiting takes nothing"); cover(ex, q, "waited"); continue
            if op == "try_lock":
                ex.oblige(q, not thrown, "post:no exception")
                if not thrown: ex.oblige(q, B(ex.asbool(o.v)) == own if not mine else z3.Not(B(ex.asbool(o.v))), "post:true exactly if the mutex was taken")
                if not thrown: ex.oblige(q, B(ex.asbool(o.v)) == (q.ghost['was'] == 1), "post:taken exactly if it was free")
            elif q.ghost.get('select'): ex.oblige(q, thrown and o.tinfo == TI["cancelled"], "post:fails as waiting failed"); ex.oblige(q, simp(q.ghost['mine'] == (1 if mine else 0)), "post:a failure takes nothing"); cover(ex, q, "gave up"); continue
            elif thrown: ex.oblige(q, o.tinfo == TI["try_again"] and op != "lock", "post:fails only to be tried again"); ex.oblige(q, simp(q.ghost['was'] == 0), "post:only while not free"); ex.oblige(q, simp(q.ghost['mine'] == (1 if mine else 0)), "post:a failure takes nothing")
            else: ex.oblige(q, own if not mine else False, "post:held by the caller, and by no one else"); ex.oblige(q, simp(q.ghost['was'] == 1), "post:taken only when free")
            cover(ex, q, ("thrown" if thrown else "taken" if not is_sym(q.ghost['mine']) else "done"))
    return t
TASKS = [Task("sync.flag.new", f_ctor), *[Task("sync.flag." + x, flag_op(x)) for x in ("set", "reset", "is_set", "bool")], Task("sync.flag.wait", flag_wait(False)), Task("sync.flag.async_wait", flag_wait(True)),
    Task("sync.mutex.new", m_ctor), *[Task(f"sync.mutex.{x}", mutex_op(x, False)) for x in ("lock", "maybe_lock", "try_lock", "can_lock", "async_lock")], Task("sync.mutex.unlock", mutex_op("unlock", True)), *[Task(f"sync.mutex.{x}_held", mutex_op(x, True)) for x in ("maybe_lock", "try_lock")]]
