"""select (A07): the real loop over poll, by contract: any descriptors ready, any error, any time.  Actions are ghosts that count their runs since the last poll and
may give any value, throw any exception or ask to be tried again.  The context's awaitables are those of an arbitrary context."""
import z3
from core import *
from exec import B_int
import lib as L, eptr
from ghost import *
from task import Task, cover
from tasks.errors import TI, AGAIN, setup as errors_setup
from tasks.address import const
import tasks.channel as ch
from tasks.channel import s32, u32, INT, W32, failed_with
from tasks.sync import feasible
DRIVER = "select.cpp"
FLAGS = tuple("only:" + x for x in "errors registry awaitable".split()) + (f"-I{ch.V}/drivers/stub",)
H63 = 1 << 63; POLL = {False: 1 | 8 | 16 | 32, True: 4 | 8 | 16 | 32}
TIN = {k: TI[k] for k in ("try_again", "cancelled", "deadline_exceeded", "not_found")}
class W:
    """what is waited for: a descriptor and direction, or a time"""
    def __init__(s, k, kind):
        s.k = k; s.kind = kind; s.fd = z3.Int(f"fd{k}") if kind == "f" else z3.IntVal(-1); s.out = z3.Bool(f"out{k}") if kind == "f" else False; s.ms = z3.Int(f"ms{k}") if kind == "t" else z3.IntVal(-1); s.poll = z3.Bool(f"polling{k}") if kind == "t" and k < 2 else False
        s.args = [s.fd, s.out] if kind == "f" else [s.ms, s.poll]
    def given(s): return z3.And(s.fd >= 0, s.fd < INT) if s.kind == "f" else z3.And(s.ms >= 0, s.ms < INT)
class Sys:
    def __init__(s, ex, st, ws, dl):
        errors_setup(ex); s.ws = ws; s.c = W(2, "f"); s.c.out = False; s.d = W(3, "t") if dl else None; s.all = ws + [s.c] + ([s.d] if dl else []); s.n = len(ws) + 2
        for w in s.all: st.assume(w.given())
        for w in s.all: st.ghost.update({f"ran{w.k}": z3.IntVal(0), f"rev{w.k}": z3.IntVal(0), f"out{w.k}": z3.IntVal(-1), f"val{w.k}": z3.IntVal(0)})
        st.ghost.update(caught=(), polled=z3.IntVal(0), res=z3.IntVal(-2), pms=z3.IntVal(-1)); s.err = ex.new_cells(st, 4, "errno"); ex.store_raw(st, s.err, 4, 0)
        ex.contract(r"^__errno_location$", lambda ex, st, a, c: s.err, "errno"); ex.contract(r"^poll$", s.poll, "poll (POSIX)"); ctx = ex.new_cells(st, 8, "context")
        ex.contract(r"^arpc::context::current\(\)$", lambda ex, st, a, c: ctx, "the current context (A06)")
        ex.contract(r"^arpc::context::wait_cancelled\(\)$", lambda ex, st, a, c: ex.run(st, "sel_cancel", [a[0], s.c.fd]), "wait_cancelled (A06)")
        ex.contract(r"^arpc::context::wait_deadline\(\)$", lambda ex, st, a, c: ex.run(st, *(("sel_deadline", [a[0], s.d.ms]) if dl else ("sel_never", [a[0]]))), "wait_deadline (A06)")
        # the steady clock does not run backwards, and no select lasts 2^62 milliseconds
        MS = "std::chrono::duration<long, std::ratio<1l, 1000l> ?>"
        def cast(ex, st, a, c): v = z3.Int(f"passed!{fresh_id()}"); st.assume(z3.And(v >= 0, v < 1 << 62)); return v
        def more(ex, st, a, c): v = simp(B_int(ex.load_raw(st, a[0], 8)) + B_int(ex.load_raw(st, a[1], 8))); st.assume(v < 1 << 62); ex.store_raw(st, a[0], 8, v); return a[0]
        ex.contract(r"std::chrono::duration_cast<" + MS + r", long, std::ratio<1l, 1000000000l> ?>\(", cast, "time passed in milliseconds (rounded down)"); ex.contract("^" + MS + r"::operator\+=\(", more, "adding up time (no overflow)")
        ex.no_term = True; ex.bound_hints.append(lambda v: {"ages": z3.IntVal((1 << 62) - 1)})
        def now(ex, st, a, c): v = z3.Int(f"now!{fresh_id()}"); st.assume(z3.And(v >= s.last, v < 1 << 60)) ; return v
        s.last = z3.Int("epoch"); st.assume(z3.And(s.last >= 0)); ex.contract(r"^std::chrono::_V2::steady_clock::now\(\)$", now, "steady_clock::now")
        ex.contract(r"^ghost_act(_int)?$", s.act, "an action")
    def minimum(s): m = None; t = [w for w in s.all if w.kind == "t"]; return t
    def poll(s, ex, st, a, c):
        ex.oblige(st, simp(B_int(a[1]) == s.n), "post:waits for all of them")
        for j in range(s.n):
            w = (s.ws + [s.c, s.d])[j]; p = ex.padd(st, a[0], 8 * j, 1); f = s32(ex.load_raw(st, p, 4)); e = ex.load_raw(st, ex.padd(st, p, 4, 1), 2)
            ex.oblige(st, simp(B_int(f) == (w.fd if w else -1)), "post:waits for the descriptors given")
            if w and w.kind == "f": ex.oblige(st, simp(z3.Or(w.fd < 0, B_int(e) == z3.If(B(w.out), POLL[True], POLL[False]))), "post:waits for the directions given")
        ms = B_int(s32(a[2])); T = [w for w in s.all if w.kind == "t"]
        if not T: ex.oblige(st, simp(ms < 0), "post:waits as long as it takes")
        for w in T: ex.oblige(st, simp(z3.And(ms >= 0, ms <= w.ms)), "post:waits no longer than the shortest time")
        if T: ex.oblige(st, simp(z3.Or(*[z3.Or(ms == w.ms, z3.And(B(w.poll), ms < w.ms)) for w in T])), "post:waits as long as the shortest time")
        out = []; bad = st.clone(); e = z3.Int(f"errno!{fresh_id()}"); bad.assume(z3.And(e > 0, e < INT, *[e != x for x in ch.QUIET])); ex.store_raw(bad, s.err, 4, e); bad.ghost.update(errno=e, res=z3.IntVal(-1)); out.append((bad, Ret(W32 - 1)))
        revs = []
        for w in s.all: st.ghost.update({f"ran{w.k}": z3.IntVal(0), f"out{w.k}": z3.IntVal(-1)})
        st.ghost['polled'] = z3.IntVal(1); st.ghost['pms'] = ms; q = st.clone()
        for j in range(s.n): ex.store_raw(q, ex.padd(q, a[0], 8 * j + 6, 1), 2, 0)
        for w in s.all: q.ghost[f"rev{w.k}"] = z3.IntVal(0)
        if feasible(ex, q, ms >= 0): q.assume(ms >= 0); q.ghost['res'] = z3.IntVal(0); out.append((q, Ret(0)))
        for j in range(s.n):
            w = (s.ws + [s.c, s.d])[j]; v = z3.Int(f"revents!{fresh_id()}"); st.assume(z3.And(v >= 0, v < 64, v == 0 if w is None else z3.Implies(w.fd < 0, v == 0))); ex.store_raw(st, ex.padd(st, a[0], 8 * j + 6, 1), 2, v); revs.append(v)
            if w: st.ghost[f"rev{w.k}"] = v
        st.assume(z3.Or(*[v != 0 for v in revs])); r = z3.Int(f"ready!{fresh_id()}"); st.assume(z3.And(r >= 1, r <= s.n)); st.ghost['res'] = r; out.append((st, Ret(r))); return out
    def act(s, ex, st, a, c):
        k = a[0]; out = []; st.ghost[f"ran{k}"] = simp(st.ghost[f"ran{k}"] + 1)
        kinds = {2: ("try_again", "cancelled"), 3: ("deadline_exceeded",)}.get(k, ("value", "try_again", "not_found"))
        for i, t in enumerate(kinds):
            q = st.clone()
            if t == "value": v = z3.Int(f"val!{fresh_id()}"); q.assume(z3.And(v >= 0, v < W32)); q.ghost.update({f"out{k}": z3.IntVal(0), f"val{k}": v}); out.append((q, Ret(v if c.dname.endswith("int") else None)))
            else: r = L.throw(ex, q, TIN[t]); q.ghost[f"out{k}"] = z3.IntVal(1 if t == "try_again" else 2); (t == "try_again") or q.ghost.__setitem__(f"exc{k}", r[1].obj); out.append(r)
        return out
    def ready(s, st, w):
        """whether it was ready at the last poll; None if left open (polling awaitables when another time passed as well)"""
        if w.kind == "f": return st.ghost[f"rev{w.k}"] != 0
        ms = st.ghost['pms']; t = st.ghost['res'] == 0; fixed = [x.ms for x in s.all if x.kind == "t" and (x.poll is False)]
        by_poll = z3.And(*[z3.Or(B(x.poll), ms < x.ms) for x in s.all if x.kind == "t"])
        return z3.And(t, z3.Or(w.ms <= ms, z3.And(B(w.poll), by_poll)))
    def certain(s, st, w):
        if w.kind == "f": return z3.BoolVal(True)
        ms = st.ghost['pms']; return z3.Or(z3.Not(B(w.poll)), z3.And(*[z3.Or(B(x.poll), ms < x.ms) for x in s.all if x.kind == "t"]), w.ms <= ms)
def sel(kinds, dl):
    def t(ex):
        st = State(); ws = [W(k, x) for k, x in enumerate(kinds)]; S = Sys(ex, st, ws, dl); n = len(kinds); out = ex.new_cells(st, const(ex, st, f"r{n}_sizeof"), "out")
        for q, o in ex.run(st, "sel_" + kinds, [out] + [x for w in ws for x in w.args]):
            g = q.ghost; thrown = isinstance(o, Throw); ex.oblige(q, z3.Or(g['polled'] == 1, g['res'] == -1), "post:waits")
            if ex.q(q, g['res'] == -1): failed_with(ex, q, o, None); cover(ex, q, "error"); continue
            ctx = [w for w in S.all if w.k >= 2]; gave = z3.Or(*[z3.And(S.ready(q, w), g[f"out{w.k}"] == 2) for w in ctx])
            if thrown:
                ex.oblige(q, gave, "post:fails only if the context is cancelled or expired"); ex.oblige(q, z3.And(*[g[f"ran{w.k}"] == 0 for w in ws]), "post:giving up runs no action")
                ex.oblige(q, o.tinfo in (TI["cancelled"], TI["deadline_exceeded"]), "post:fails with the context's error"); cover(ex, q, "gave up"); continue
            ex.oblige(q, z3.Not(gave), "post:a cancelled or expired context fails")
            some = []
            for w in ws:
                k = w.k; r = S.ready(q, w); sure = S.certain(q, w); ran = g[f"ran{k}"]; what = g[f"out{k}"]
                ex.oblige(q, z3.Implies(sure, ran == z3.If(r, 1, 0)), "post:runs the actions of exactly those that are ready, once")
                ex.oblige(q, simp(z3.And(ran >= 0, ran <= 1)), "post:runs no action twice")
                has, get = ("r1_has", "r1_get") if n == 1 else (f"r2_has{k}", f"r2_get{k}"); nxt = ex.run(q, has, [out]); q, h = nxt[0]
                if len(nxt) != 1: raise Unsupported("splits")
                H = B(ex.asbool(h.v)); ex.oblige(q, H == z3.And(ran == 1, what != 1), "post:gives a result for exactly those that were done"); some.append(H)
                y = q.clone()
                if feasible(ex, y, H):
                    y.assume(H)
                    for y2, o2 in ex.run(y, get, [out]):
                        if isinstance(o2, Throw): ex.oblige(y2, what == 2, "post:an exception only if the action threw"); ex.oblige(y2, ex.pcmp(y2, 'eq', o2.obj, g[f"exc{k}"]) if f"exc{k}" in g else False, "post:the action's exception")
                        else: ex.oblige(y2, what == 0, "post:a value only if the action gave one"); (k == 0) and ex.oblige(y2, simp(B_int(o2.v) == g[f"val{k}"]), "post:the action's value")
                        cover(ex, y2, "threw" if isinstance(o2, Throw) else "value")
            ex.oblige(q, z3.Or(*some), "post:returns only with a result")
    return t
TASKS = [Task(f"select.{k}{'.deadline' if d else ''}", sel(k, d), budget=200) for k in ("f", "t", "ff", "ft", "tf", "tt") for d in (0, 1)]
