"""Contexts (A06).  Two monitors per context: its children (and the setting of its cancelled flag) under one mutex, its deadline and data under the other.  Taking a
mutex gives whatever others may have left, releasing it must leave the invariant: the children of a cancelled context are cancelled.  Children that are not at hand are
an arbitrary list; J is an arbitrary one of them.  Flags, flat containers and select are used by contract (A04, S11, A07)."""
import z3
from core import *
from exec import B_int
import lib as L, eptr, loops
from ghost import *
from task import Task, cover
from tasks.errors import TI, setup as errors_setup
from tasks.address import const
import tasks.channel as ch
from tasks.channel import s32, INT, before, READY, begin_ready
from tasks.sync import feasible
DRIVER = "context.cpp"
FLAGS = tuple("only:" + x for x in "errors registry awaitable context dynamic_base_class".split()) + (f"-I{ch.V}/drivers/stub", "-fno-access-control")
KID = r"^(?:[\w:&*<>, ]*? )?(?:arpc::detail::flat_tree<arpc::context\*, [^(]*>|arpc::flat_set<arpc::context\*[^(]*>|std::vector<arpc::context\*[^(]*>)::"
MAP = r"^(?:[\w:&*<>, ]*? )?(?:arpc::(?:detail::flat_tree|flat_map)<|std::vector<std::pair<(?:const )?)std::basic_string_view<char, std::char_traits<char> ?>, [^(]*std::shared_ptr<arpc::dynamic_base_class const>[^(]*>::"
NS = 1000000; YEARS = 1 << 42
def key(p): return (p.r, p.i if isinstance(p.i, int) else str(p.i))
def bit(c): return simp(z3.If(B(c), z3.IntVal(1), z3.IntVal(0)))
class World:
    def __init__(s, ex, st, threads=True):
        s.ex = ex; errors_setup(ex); begin_ready(ex, st); st.ghost.update(log=(), live=(), held=(), now=None); s.at = {}; s.obj = {}; s.size = const(ex, st, "k_sizeof"); C = ex.contract; ex.no_term = True
        s.kreg = ex.new_arr(st, s.size, 1 << 40, {}, "children").r; s.list = ex.new_arr(st, 8, 1 << 40, {0: (8, lambda st, i: Ptr(s.kreg, i))}, "list of children").r; s.mapend = ex.new_cells(st, 32, "end of a map")
        s.J = z3.Int("J"); st.ghost['done'] = z3.IntVal(0)
        C(r"^__gthread_active_p", lambda ex, st, a, c: 1, "threads"); C(r"^pthread_mutex_lock$", s.lock, "pthread_mutex_lock"); C(r"^pthread_mutex_unlock$", s.unlock, "pthread_mutex_unlock")
        C(r"^std::condition_variable::(~)?condition_variable\(\)$", lambda ex, st, a, c: None, "std::condition_variable"); C(r"^std::condition_variable::notify_(one|all)\(\)$", s.notify, "notify_one"); C(r"^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$", s.wait, "std::condition_variable::wait")
        C(r"^TLS wrapper function for arpc::context::current_$", lambda ex, st, a, c: ex.global_ptr(st, "_ZN4arpc7context8current_E"), "thread_local")
        C(r"^arpc::flag::flag\(\)$", s.f_new, "flag constructor (A04)"); C(r"^arpc::flag::~flag\(\)$", lambda ex, st, a, c: None, "flag destructor (A04)"); C(r"^arpc::flag::set\(\)$", s.f_set, "flag set (A04)"); C(r"^arpc::flag::reset\(\)$", lambda ex, st, a, c: ex.oblige(st, False, "post:a cancellation is final"), "flag reset (A04)")
        C(r"^arpc::flag::(is_set\(\) const|operator bool\(\) const)$", s.f_is, "flag state (A04)"); C(r"^arpc::flag::async_wait\(\)$", lambda ex, st, a, c: ex.run(st, "g_async_wait", [a[0], a[1]]), "flag wait (A04)"); C(r"^ghost_wait$", s.waited, "whether the flag is set then")
        C(r"^arpc::context::cancel\(\)$", s.kid_cancel, "cancel of a child (by induction on the tree)")
        C(KID + r"(flat_set|flat_tree)\(", lambda ex, st, a, c: st.ghost.update({f"in.{s.of(a[0])}": (), f"n.{s.of(a[0])}": z3.IntVal(0)}), "flat_set (S11, S12)"); C(KID + r"~(flat_set|flat_tree|vector)\(\)$", s.k_drop, "flat_set (S11, S12)")
        C(KID + r"insert\(arpc::context\* (const&|&&)\)$", s.k_insert, "flat_set::insert (S11)"); C(KID + r"(emplace<[^(]*)\(", s.k_insert, "flat_set::emplace (S11)"); C(KID + r"erase\(arpc::context\* const&\)$", s.k_erase, "flat_set::erase (S11)")
        C(KID + r"c?(begin|end)\(\)( const)?$", lambda ex, st, a, c: s.k_at(ex, st, a[0], "begin" in c.dname.rsplit("::", 1)[1]), "flat_set iteration (S11)"); C(KID + r"empty\(\) const$", lambda ex, st, a, c: simp(s.k_size(ex, st, a[0]) == 0), "flat_set::empty (S11)"); C(KID + r"size\(\) const$", lambda ex, st, a, c: s.k_size(ex, st, a[0]), "flat_set::size (S11)")
        C(MAP + r"(flat_map|flat_tree)\(\)$", lambda ex, st, a, c: st.ghost.update({f"map.{s.of(a[0])}": {}}), "flat_map (S11, S12)"); C(MAP + r"~(flat_map|flat_tree|vector)\(\)$", lambda ex, st, a, c: None, "flat_map (S11, S12)")
        C(MAP + r"operator=\((arpc::[^(]*) const&\)$", s.m_assign, "flat_map assignment (S12)"); C(MAP + r"operator\[\]\(", s.m_at, "flat_map::operator[] (S11)"); C(MAP + r"c?(begin|end)\(\)( const)?$", lambda ex, st, a, c: s.m_at_end(ex, st, a[0], "begin" in c.dname.rsplit("::", 1)[1]), "flat_map iteration (S11)"); C(MAP + r"size\(\) const$", lambda ex, st, a, c: len(st.ghost[f"map.{s.m_guard(ex, st, a[0])}"]), "flat_map::size (S11)")
        C(MAP + r"find\(", s.m_find, "flat_map::find (S11)"); C(MAP + r"erase\(std::basic_string_view<char, std::char_traits<char> ?> const&\)$", s.m_erase, "flat_map::erase (S11)"); C(MAP + r"clear\(\)$", s.m_clear, "flat_map::clear (S11)"); C(MAP + r"(count|contains)\(", s.m_count, "flat_map::count (S11)")
        C(r"^std::chrono::_V2::system_clock::now\(\)$", s.clock, "system_clock::now")
        def cands(view):
            c = []; g = [v for v in view.vars if v.key[0] == 'ghost' and v.key[1] == 'done']
            if g:
                def get(vw, k): return [v for v in vw.vars if v.key == k][0]
                for v in view.ints():
                    k = v.key; gk = g[0].key
                    if k == gk: continue
                    c.append((f"cancelled below {loops.kname(k, view)}", lambda vw, k=k, gk=gk: z3.Implies(s.J < B_int(get(vw, k).cur), B_int(get(vw, gk).cur) == 1)))
                    c.append((f"cancelled from {loops.kname(k, view)}", lambda vw, k=k, gk=gk: z3.Implies(s.J >= B_int(get(vw, k).cur), B_int(get(vw, gk).cur) == 1)))
            return c
        ex.loop_cands.append(cands)
    # which context a part belongs to
    def add(s, ex, st, name, p):
        s.obj[name] = p
        for part in ("data_mu", "kids_mu", "cv", "kids", "data", "flag"): s.at[key(ex.run(st, "rep_" + part, [p])[0][1].v)] = (name, part)
        s.when = getattr(s, "when", {}); s.when[name] = ex.run(st, "rep_when", [p])[0][1].v
    def of(s, p, part=None):
        r = s.at.get(key(p)) if isinstance(p, Ptr) else None
        if r is None: raise Unsupported("not part of a context at hand")
        return r[0]
    def own(s, ex, st, name, mu, what):
        if name in st.ghost['live']: ex.oblige(st, (name, mu) in st.ghost['held'], f"post:{what} only while holding the lock")
    # monitors
    def lock(s, ex, st, a, c):
        r = s.at.get(key(a[0]))
        if r is None or not r[1].endswith("_mu"): raise Unsupported("a lock")
        ex.oblige(st, r not in st.ghost['held'], "post:a lock is not taken twice"); st.ghost['held'] += (r,)
        if r[0] not in st.ghost['live']: return 0
        return [(q, Ret(0)) for q in (s.havoc_kids(ex, st, r[0]) if r[1] == "kids_mu" else s.havoc_data(ex, st, r[0]))]
    def havoc_kids(s, ex, st, o):
        n = z3.Int(f"children!{fresh_id()}"); c = z3.Int(f"cancelled!{fresh_id()}"); st.assume(z3.And(n >= 0, n < 1 << 39, c >= st.ghost[f"canc.{o}"], c <= 1, s.J >= 0)); w = z3.Int(f"J_was!{fresh_id()}"); st.assume(z3.And(w >= 0, w <= 1, z3.Implies(z3.And(c == 1, s.J < n), w == 1)))
        for m in st.ghost[f"in.{o}"]: st.assume(simp(z3.Implies(c == 1, B_int(st.ghost[f"canc.{m}"]) == 1)))
        st.ghost.update({f"n.{o}": n, f"n0.{o}": n, f"canc.{o}": c, 'done': z3.If(st.ghost['done'] == 1, st.ghost['done'], w)}); return [st]
    def havoc_data(s, ex, st, o):
        s.untouched(ex, st, o); has = z3.Bool(f"has!{fresh_id()}"); t = z3.Int(f"deadline!{fresh_id()}"); st.assume(z3.And(t > -YEARS, t < YEARS)); out = []
        for q, h in ((st.clone(), True), (st, False)):
            q.assume(has == h); q = ex.run(q, "rep_set_when", [s.obj[o], int(h), t])[0][0]
            for names in ((), ("one",), ("two",), ("one", "two")):
                y = q.clone(); m = {}
                for k in names:
                    x = z3.Int(f"{k}!{fresh_id()}"); y.assume(z3.And(x >= 0, x < INT)); e = s.entry(ex, y, k.encode()); y = ex.run(y, "g_" + k, [ex.padd(y, e, 16, 1), x])[0][0]; m[k.encode()] = e
                y.ghost[f"map.{o}"] = m; y.ghost[f"was.{o}"] = (t if h else None, s.view(ex, y, o)); out.append(y)
        return out
    def view(s, ex, st, o): return {k: ex.load_raw(st, ex.padd(st, e, 16, 1), 8) for k, e in st.ghost[f"map.{o}"].items()}
    def mark(s, ex, st, o):
        v, b = z3.Int(f"unlocked!{fresh_id()}"), z3.Int(f"unlocked!{fresh_id()}"); st.assume(z3.And(v >= 0, v < 1 << 64, b >= 0, b <= 1)); w = s.when[o]; ex.store_raw(st, w, 8, v); ex.store_raw(st, ex.padd(st, w, 8, 1), 1, b); st.ghost[f"mark.{o}"] = (v, b)
    def untouched(s, ex, st, o):
        v, b = st.ghost[f"mark.{o}"]; w = s.when[o]; ex.oblige(st, simp(z3.And(B_int(ex.load_raw(st, w, 8)) == v, B_int(ex.asint(ex.load_raw(st, ex.padd(st, w, 8, 1), 1), 8)) == b)), "post:the deadline changes only while the lock is held")
    def unlock(s, ex, st, a, c):
        r = s.at.get(key(a[0])); ex.oblige(st, r in st.ghost['held'], "post:only a held lock is released"); st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != r)
        if r is None or r[0] not in st.ghost['live']: return 0
        if r[1] == "kids_mu": s.inv(ex, st, r[0]); return 0
        o = r[0]; out = []; lp = ex.new_cells(st, 8, "t")
        for q, v in ex.run(st, "rep_get_when", [s.obj[o], lp]):
            h = B(ex.asbool(v.v))
            for y, b in ((q.clone(), True), (q, False)):
                if not feasible(ex, y, h if b else z3.Not(h)): continue
                y.assume(h if b else z3.Not(h)); t = ex.load_raw(y, lp, 8) if b else None; t = simp(z3.If(B_int(t) >= 1 << 63, B_int(t) - (1 << 64), B_int(t))) if b else None; y.ghost[f"now.{o}"] = (t, s.view(ex, y, o)); s.mark(ex, y, o); out.append((y, Ret(0)))
        return out
    def inv(s, ex, st, o):
        c = st.ghost[f"canc.{o}"]; n = st.ghost[f"n.{o}"]; ex.oblige(st, simp(z3.Implies(z3.And(c == 1, s.J < n), st.ghost['done'] == 1)), "inv:every child of a cancelled context is cancelled")
        for m in st.ghost[f"in.{o}"]: ex.oblige(st, simp(z3.Implies(B_int(c) == 1, B_int(st.ghost[f"canc.{m}"]) == 1)), "inv:every child of a cancelled context is cancelled")
    def notify(s, ex, st, a, c): o = s.of(a[0]); s.own(ex, st, o, "kids_mu", "the parent, which may go once it has no children, is notified"); st.ghost['notified'] = o; st.ghost['n.notified'] = st.ghost[f"in.{o}"]; return None
    def wait(s, ex, st, a, c):
        o = s.of(a[0]); ex.oblige(st, (o, "kids_mu") in st.ghost['held'], "post:waits with the lock")
        if o in st.ghost['live']: s.inv(ex, st, o); return [(q, Ret(None)) for q in s.havoc_kids(ex, st, o)]
        raise Unsupported("waits for children of an object under construction")
    # flags
    def f_new(s, ex, st, a, c): st.ghost[f"canc.{s.of(a[0])}"] = z3.IntVal(0); return None
    def f_set(s, ex, st, a, c): o = s.of(a[0]); s.own(ex, st, o, "kids_mu", "cancelled"); st.ghost[f"canc.{o}"] = z3.IntVal(1); st.ghost['set'] = st.ghost.get('set', ()) + (o,) if o not in st.ghost.get('set', ()) else st.ghost['set']; return None
    def f_is(s, ex, st, a, c):
        o = s.of(a[0])
        if o in st.ghost['live'] and (o, "kids_mu") not in st.ghost['held']: v = z3.Int(f"cancelled!{fresh_id()}"); st.assume(z3.And(v >= st.ghost[f"canc.{o}"], v <= 1)); st.ghost[f"canc.{o}"] = v
        return simp(B_int(st.ghost[f"canc.{o}"]) == 1)
    def waited(s, ex, st, a, c):
        o = s.of(a[0]); st.ghost['waited'] = o; w = st.clone(); st.ghost['isset'] = True; w.ghost['isset'] = False; return [(st, Ret(None)), L.throw(ex, w, TI["try_again"])]
    # children
    def kid_cancel(s, ex, st, a, c):
        if a[0].r != s.kreg: return L.NOTHANDLED
        ex.oblige(st, any(m == "kids_mu" for o, m in st.ghost['held']), "post:a child is used only while it cannot go"); o = [o for o, m in st.ghost['held'] if m == "kids_mu"]; j = B_int(a[0].i)
        if o: ex.oblige(st, simp(z3.And(j >= 0, j < st.ghost[f"n.{o[0]}"])), "post:only children are cancelled")
        st.ghost['done'] = simp(z3.If(j == s.J, z3.IntVal(1), st.ghost['done'])); return None
    def k_at(s, ex, st, p, first):
        o = s.of(p); s.own(ex, st, o, "kids_mu", "children are looked at")
        if st.ghost[f"in.{o}"]: raise Unsupported("iteration over a child at hand")
        return Ptr(s.list, 0 if first else st.ghost[f"n.{o}"])
    def k_size(s, ex, st, p): o = s.of(p); s.own(ex, st, o, "kids_mu", "children are looked at"); return simp(st.ghost[f"n.{o}"] + len(st.ghost[f"in.{o}"]))
    def name(s, p):
        for k, q in s.obj.items():
            if isinstance(p, Ptr) and key(p) == key(q): return k
        raise Unsupported("a context that is not at hand")
    def k_insert(s, ex, st, a, c):
        o = s.of(a[0]); s.own(ex, st, o, "kids_mu", "children change"); m = s.name(ex.load_raw(st, a[1], 8)); new = m not in st.ghost[f"in.{o}"]; st.ghost[f"in.{o}"] += (m,) if new else (); return Agg([Ptr(s.list, 0), int(new)])
    def k_erase(s, ex, st, a, c): o = s.of(a[0]); s.own(ex, st, o, "kids_mu", "children change"); m = s.name(ex.load_raw(st, a[1], 8)); was = m in st.ghost[f"in.{o}"]; st.ghost[f"in.{o}"] = tuple(x for x in st.ghost[f"in.{o}"] if x != m); return int(was)
    def k_drop(s, ex, st, a, c): o = s.of(a[0]); ex.oblige(st, simp(st.ghost[f"n.{o}"] + len(st.ghost[f"in.{o}"]) == 0), "post:a context outlives its children"); st.ghost['dropped'] = o; return None
    # data
    def entry(s, ex, st, k): e = ex.new_cells(st, 32, "entry"); [ex.store_raw(st, ex.padd(st, e, o, 1), 8, Ptr(None, 0)) for o in (16, 24)]; return e
    def m_guard(s, ex, st, p): o = s.of(p); s.own(ex, st, o, "data_mu", "data is used"); return o
    def m_key(s, ex, st, p):
        n = ex.load_raw(st, p, 8); d = ex.load_raw(st, ex.padd(st, p, 8, 1), 8)
        if not isinstance(n, int): raise Unsupported("a symbolic name")
        b = bytes(ex.load_raw(st, ex.padd(st, d, j, 1), 1) for j in range(n)); return b
    def m_at(s, ex, st, a, c):
        o = s.m_guard(ex, st, a[0]); k = s.m_key(ex, st, a[1]); m = dict(st.ghost[f"map.{o}"])
        if k not in m: m[k] = s.entry(ex, st, k); st.ghost[f"map.{o}"] = m
        return ex.padd(st, m[k], 16, 1)
    def m_at_end(s, ex, st, p, first):
        o = s.m_guard(ex, st, p); m = st.ghost[f"map.{o}"]; r = st.ghost.get(f"range.{o}")
        if first and (r is None or r[1] is not m):
            b = ex.new_cells(st, 32 * len(m) + 32, "entries"); st.ghost[f"range.{o}"] = r = (b, m)
            for i, e in enumerate(m.values()): [ex.store_raw(st, ex.padd(st, b, 32 * i + d, 1), 8, ex.load_raw(st, ex.padd(st, e, d, 1), 8)) for d in (16, 24)]
        if r is None or r[1] is not m: return s.mapend
        return r[0] if first else ex.padd(st, r[0], 32 * len(m), 1)
    def m_find(s, ex, st, a, c): o = s.m_guard(ex, st, a[0]); return st.ghost[f"map.{o}"].get(s.m_key(ex, st, a[1]), s.mapend)
    def m_count(s, ex, st, a, c): o = s.m_guard(ex, st, a[0]); return int(s.m_key(ex, st, a[1]) in st.ghost[f"map.{o}"])
    def m_erase(s, ex, st, a, c): o = s.m_guard(ex, st, a[0]); k = s.m_key(ex, st, a[1]); m = dict(st.ghost[f"map.{o}"]); r = int(k in m); m.pop(k, None); st.ghost[f"map.{o}"] = m; return r
    def m_clear(s, ex, st, a, c): o = s.m_guard(ex, st, a[0]); st.ghost[f"map.{o}"] = {}; return None
    def m_assign(s, ex, st, a, c):
        o = s.m_guard(ex, st, a[0]); f = s.m_guard(ex, st, a[1]); m = {}
        for k, e in st.ghost[f"map.{f}"].items(): n = s.entry(ex, st, k); [ex.store_raw(st, ex.padd(st, n, d, 1), 8, ex.load_raw(st, ex.padd(st, e, d, 1), 8)) for d in (16, 24)]; m[k] = n
        st.ghost[f"map.{o}"] = m; return a[0]
    def clock(s, ex, st, a, c): v = z3.Int(f"now!{fresh_id()}"); st.assume(z3.And(v > 0, v < YEARS * NS)); st.ghost['clock'] = v; return v
    # objects
    def make(s, ex, st, name, fn, *args):
        """constructed by the library itself -> states"""
        p = ex.new_cells(st, s.size, "context " + name); s.add(ex, st, name, p); out = []
        for q, o in ex.run(st, fn, [p] + list(args)):
            if isinstance(o, Throw): raise Unsupported("construction throws")
            out.append(q)
        return out
    def alive(s, ex, st, o): st.ghost['live'] += (o,); s.mark(ex, st, o)
    def one(s, ex, st):
        """an arbitrary context"""
        q, = s.make(ex, st, "C", "k_root"); s.alive(ex, q, "C"); return q
    def quiet(s, ex, st):
        ex.oblige(st, st.ghost['held'] == (), "post:locks are released")
        for o in st.ghost['live']: s.untouched(ex, st, o)
def cancel(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st)
    for q, o in ex.run(st, "k_cancel", [w.obj["C"]]):
        w.quiet(ex, q); ex.oblige(q, not isinstance(o, Throw), "post:never fails"); ex.oblige(q, simp(q.ghost["canc.C"] == 1), "post:the context is cancelled"); ex.oblige(q, simp(z3.Implies(w.J < q.ghost["n.C"], q.ghost['done'] == 1)), "post:every child is cancelled")
        ex.oblige(q, simp(q.ghost["n.C"] == q.ghost["n0.C"]) if "n0.C" in q.ghost else False, "post:the children stay"); cover(ex, q, "cancelled")
def is_cancelled(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st)
    for q, o in ex.run(st, "k_is_cancelled", [w.obj["C"]]): w.quiet(ex, q); ex.oblige(q, not isinstance(o, Throw) and B(ex.asbool(o.v)) == (q.ghost["canc.C"] == 1), "post:tells whether it is cancelled"); ex.oblige(q, 'set' not in q.ghost, "post:looking changes nothing"); cover(ex, q, "told")
def same_map(ex, q, a, b, label, but=()):
    a = {k: v for k, v in a.items() if k not in but}; b = {k: v for k, v in b.items() if k not in but}; ex.oblige(q, set(a) == set(b), f"post:{label}: the same classes")
    for k in set(a) & set(b): ex.oblige(q, ex.pcmp(q, 'eq', a[k], b[k]), f"post:{label}: the same objects")
def same_when(ex, q, a, b, label): ex.oblige(q, (a is None) == (b is None) if a is None or b is None else simp(B_int(a) == B_int(b)), f"post:{label}")
def created(kind):
    """a child of an arbitrary parent"""
    def t(ex):
        st = State(); w = World(ex, st); st, = w.make(ex, st, "P", "k_root"); w.alive(ex, st, "P"); cur = ex.run(st, "rep_current", [])[0][1].v; cur0 = w.obj["P"] if kind in ("default", "shield") else ex.new_cells(st, 8, "another context"); ex.store_raw(st, cur, 8, cur0); P = w.obj["P"]
        fn, args, sets, shield = {"current": ("k_new", [P, 1, 0], True, False), "other": ("k_new", [P, 0, 0], False, False), "shielded": ("k_new", [P, 1, 1], True, True), "default": ("k_new0", [], True, False), "shield": ("k_shield", [], True, True)}[kind]
        for q in w.make(ex, st, "C", fn, *args):
            ex.oblige(q, "was.P" in q.ghost, "post:the parent's deadline and data are read under its lock"); w.quiet(ex, q)
            if "was.P" in q.ghost:
                lp = ex.new_cells(q, 8, "t"); (q, h), = ex.run(q, "rep_get_when", [w.obj["C"], lp]); t0, m0 = q.ghost["was.P"]; h = B(ex.asbool(h.v)); ex.oblige(q, h == (t0 is not None), "post:starts with its parent's deadline")
                if t0 is not None: t1 = B_int(ex.load_raw(q, lp, 8)); ex.oblige(q, simp(z3.Or(t1 == t0, t1 == t0 + (1 << 64))), "post:starts with its parent's deadline")
                same_map(ex, q, m0, w.view(ex, q, "C"), "starts with its parent's data")
                if "now.P" in q.ghost: same_when(ex, q, t0, q.ghost["now.P"][0], "the parent keeps its deadline"); same_map(ex, q, m0, q.ghost["now.P"][1], "the parent keeps its data")
            ex.oblige(q, ("C" in q.ghost["in.P"]) == (not shield), "post:a child of its parent, unless shielded"); c = q.ghost["canc.C"]; ex.oblige(q, simp(B_int(c) == (0 if shield else q.ghost["canc.P"])), "post:cancelled exactly if its parent is and it is not shielded"); ex.oblige(q, 'P' not in q.ghost.get('set', ()), "post:its parent is not cancelled")
            ex.oblige(q, q.ghost["in.C"] == () and ex.q(q, q.ghost["n.C"] == 0), "post:without children"); ex.oblige(q, ex.pcmp(q, 'eq', ex.load_raw(q, cur, 8), w.obj["C"] if sets else cur0), "post:the thread's current context")
            cover(ex, q, "made"); w.alive(ex, q, "C"); q.ghost['set'] = (); gone = 0
            for y, o in ex.run(q, "k_drop", [w.obj["C"]]):
                ex.oblige(y, not isinstance(o, Throw), "post:destruction does not fail"); ex.oblige(y, y.ghost['held'] == (), "post:locks are released"); w.untouched(ex, y, "P"); ex.oblige(y, 'P' not in y.ghost['set'] and simp(y.ghost['canc.C'] == 1), "post:destruction cancels the context, and not its parent")
                ex.oblige(y, "C" not in y.ghost["in.P"], "post:leaves its parent"); ex.oblige(y, shield or (y.ghost.get('notified') == "P" and "C" not in y.ghost["n.notified"]), "post:tells its parent once it left"); ex.oblige(y, y.ghost.get('dropped') == "C", "post:outlives its children")
                ex.oblige(y, ex.pcmp(y, 'eq', ex.load_raw(y, cur, 8), cur0), "post:the thread's context is as before"); cover(ex, y, "gone"); gone += 1
            ex.oblige(q, gone > 0, "post:destruction ends")
    return t
def root(ex):
    st = State(); w = World(ex, st); cur = ex.run(st, "rep_current", [])[0][1].v; c0 = ex.new_cells(st, 8, "another context"); ex.store_raw(st, cur, 8, c0)
    for q in w.make(ex, st, "C", "k_root"):
        (q, h), = ex.run(q, "rep_get_when", [w.obj["C"], ex.new_cells(q, 8, "t")]); ex.oblige(q, z3.Not(B(ex.asbool(h.v))), "post:no deadline"); ex.oblige(q, q.ghost["map.C"] == {} and simp(q.ghost["canc.C"] == 0), "post:no data, not cancelled"); ex.oblige(q, ex.pcmp(q, 'eq', ex.load_raw(q, cur, 8), c0), "post:not made current"); cover(ex, q, "made")
def kept(ex, q, w, deadline=True, data=True):
    w.quiet(ex, q); ok = "was.C" in q.ghost and "now.C" in q.ghost; ex.oblige(q, ok, "post:one step while holding the lock"); ex.oblige(q, 'set' not in q.ghost and 'n0.C' not in q.ghost, "post:cancels nothing")
    if ok and deadline: same_when(ex, q, q.ghost["was.C"][0], q.ghost["now.C"][0], "the deadline stays")
    if ok and data: same_map(ex, q, q.ghost["was.C"][1], q.ghost["now.C"][1], "the data stays")
    return ok
def deadline(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st); out = ex.new_cells(st, 8, "out")
    for q, o in ex.run(st, "k_deadline", [w.obj["C"], out]):
        if not kept(ex, q, w): continue
        t = q.ghost["was.C"][0]; ex.oblige(q, B(ex.asbool(o.v)) == (t is not None), "post:whether there is a deadline")
        if t is not None: v = B_int(ex.load_raw(q, out, 8)); ex.oblige(q, simp(z3.Or(v == t, v == t + (1 << 64))), "post:the deadline")
        cover(ex, q, "none" if t is None else "given")
def deadline_left(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st); out = ex.new_cells(st, 8, "out")
    for q, o in ex.run(st, "k_deadline_left", [w.obj["C"], out]):
        if not kept(ex, q, w): continue
        t = q.ghost["was.C"][0]; ex.oblige(q, B(ex.asbool(o.v)) == (t is not None), "post:whether there is a deadline")
        if t is not None: v = B_int(ex.load_raw(q, out, 8)); v = z3.If(v >= 1 << 63, v - (1 << 64), v); d = t * NS - q.ghost['clock']; ex.oblige(q, simp(z3.And(v * NS <= d + NS - 1, v * NS >= d - NS + 1)), "post:the time left, to the millisecond")
        cover(ex, q, "none" if t is None else "given")
def set_deadline(timeout):
    def t(ex):
        st = State(); w = World(ex, st); st = w.one(ex, st); x = z3.Int("when"); st.assume(z3.And(x > -YEARS, x < YEARS) if not timeout else z3.And(x > -(YEARS >> 1), x < YEARS >> 1))
        if timeout: ex.contract(r"^std::chrono::_V2::system_clock::now\(\)$", lambda ex, st, a, c: (w.clock(ex, st, a, c), st.assume(st.ghost['clock'] < (YEARS >> 1) * NS))[0], "system_clock::now")
        for q, o in ex.run(st, "k_set_timeout" if timeout else "k_set_deadline", [w.obj["C"], simp(z3.If(x < 0, x + (1 << 64), x))]):
            if not kept(ex, q, w, deadline=False): continue
            a, b = q.ghost["was.C"][0], q.ghost["now.C"][0]; ex.oblige(q, b is not None, "post:there is a deadline")
            if b is None: continue
            if timeout:
                at = q.ghost['clock'] + x * NS; near = z3.And(b * NS <= at + NS - 1, b * NS >= at - NS + 1)
                ex.oblige(q, near if a is None else simp(z3.Or(near, b == a)), "post:the time asked for or the one before"); ex.oblige(q, simp(b * NS <= at + NS - 1), "post:not later than asked for")
            else: ex.oblige(q, simp(b == (x if a is None else z3.If(a < x, a, x))), "post:the earlier one")
            if a is not None: ex.oblige(q, simp(b <= a), "post:never later than before")
            cover(ex, q, "first" if a is None else "again")
    return t
def wait_cancelled(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st); out = ex.new_cells(st, 24, "out")
    for q, o in ex.run(st, "k_wait_cancelled", [w.obj["C"]] + [ex.padd(st, out, d, 1) for d in (0, 4, 8, 16)]):
        w.quiet(ex, q); ch.waits(ex, q, out, 7, False, "waiting for the cancellation"); ex.oblige(q, q.ghost.get('waited') == "C", "post:waits for the context's flag"); s = q.ghost.get('isset'); ex.oblige(q, isinstance(o, Throw) and o.tinfo == TI["cancelled" if s else "try_again"], "post:fails once cancelled, and waits on before")
        ex.oblige(q, 'set' not in q.ghost, "post:waiting does not cancel"); cover(ex, q, str(s))
def wait_deadline(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st); out = ex.new_cells(st, 24, "out")
    for q, o in ex.run(st, "k_wait_deadline", [w.obj["C"]] + [ex.padd(st, out, d, 1) for d in (0, 4, 8, 16)]):
        if not kept(ex, q, w): continue
        t = q.ghost["was.C"][0]; fd = B_int(s32(ex.load_raw(q, out, 4))); ms = B_int(ex.load_raw(q, ex.padd(q, out, 8, 1), 8)); poll = B_int(ex.asint(ex.load_raw(q, ex.padd(q, out, 16, 1), 1), 8)); ex.oblige(q, simp(fd < 0), "post:waits for no descriptor"); ex.oblige(q, (READY,) in q.ghost['log'], "post:nothing fails before it is time")
        if t is None: ex.oblige(q, simp(ms >= 1 << 63), "post:without a deadline it waits for ever"); cover(ex, q, "never"); continue
        d = t * NS - q.ghost['clock']; ex.oblige(q, simp(z3.And(ms < 1 << 62, poll == 0)), "post:waits for a time"); ex.oblige(q, simp(z3.If(d <= 0, ms == 0, z3.And(ms * NS <= d, ms * NS > d - NS))), "post:waits until the deadline, to the millisecond"); ex.oblige(q, isinstance(o, Throw) and o.tinfo == TI["deadline_exceeded"], "post:then fails"); cover(ex, q, "deadline")
def changed(op, names):
    def t(ex):
        st = State(); w = World(ex, st); st = w.one(ex, st); X = {"one": z3.Int("x"), "two": z3.Int("y")}; setting = op.startswith("set")
        for v in X.values(): st.assume(z3.And(v >= 0, v < INT))
        for q, o in ex.run(st, "k_" + op, [w.obj["C"]] + ([X[n] for n in names] if setting else [])):
            ex.oblige(q, not isinstance(o, Throw), "post:no exception")
            if not kept(ex, q, w, data=False): continue
            a, b = q.ghost["was.C"][1], q.ghost["now.C"][1]; N = {n.encode() for n in names}; same_map(ex, q, a, b, "other data stays", but=N); ex.oblige(q, (N <= set(b)) if setting else not (N & set(b)), "post:set or reset as asked")
            if setting:
                for n in names:
                    if n.encode() not in q.ghost["map.C"]: continue
                    for y, v in ex.run(q.clone(), "g_x1" if n == "one" else "g_x2", [ex.padd(q, q.ghost["map.C"][n.encode()], 16, 1)]): ex.oblige(y, not isinstance(v, Throw) and simp(B_int(v.v) == X[n]), "post:the value given")
                    if n.encode() in a and n.encode() in b: ex.oblige(q, Not(ex.pcmp(q, 'eq', a[n.encode()], b[n.encode()])), "post:the object others share is not changed")
            cover(ex, q, "done")
    return t
def data(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st); out = ex.new_cells(st, 16, "out")
    for q, o in ex.run(st, "k_data", [w.obj["C"], out]):
        ex.oblige(q, not isinstance(o, Throw), "post:no exception")
        if not kept(ex, q, w): continue
        a = q.ghost["was.C"][1]; n = o.v if isinstance(o.v, int) else None; ex.oblige(q, n == len(a), "post:as many objects")
        if n == len(a): got = [ex.load_raw(q, ex.padd(q, out, 8 * i, 1), 8) for i in range(n)]; ex.oblige(q, all(key(x) == key(y) for x, y in zip(got, a.values())), "post:the objects themselves")
        cover(ex, q, f"{len(a)}")
def get(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st)
    for q, o in ex.run(st, "k_get", [w.obj["C"]]):
        if not kept(ex, q, w): continue
        a = q.ghost["was.C"][1]; thrown = isinstance(o, Throw); ex.oblige(q, not thrown, "post:no exception")
        if thrown: continue
        if b"one" in a:
            for y, v in ex.run(q.clone(), "g_x1", [ex.padd(q, q.ghost["map.C"][b"one"], 16, 1)]): ex.oblige(y, simp(B_int(v.v) == B_int(o.v)), "post:the value set"); cover(ex, y, "set")
        else: ex.oblige(q, simp(B_int(o.v) == 0), "post:otherwise a default one"); cover(ex, q, "default")
def current(ex):
    st = State(); w = World(ex, st); st = w.one(ex, st); cur = ex.run(st, "rep_current", [])[0][1].v; ex.store_raw(st, cur, 8, w.obj["C"])
    for q, o in ex.run(st, "k_current", []): ex.oblige(q, not isinstance(o, Throw) and ex.pcmp(q, 'eq', o.v, w.obj["C"]), "post:the thread's context"); w.quiet(ex, q); cover(ex, q, "current")
TASKS = [Task("context.cancel", cancel), Task("context.is_cancelled", is_cancelled), *[Task("context.new." + k, created(k), budget=200) for k in "current other shielded default shield".split()], Task("context.root", root), Task("context.deadline", deadline), Task("context.deadline_left", deadline_left),
    Task("context.set_deadline", set_deadline(False)), Task("context.set_timeout", set_deadline(True)), Task("context.wait_cancelled", wait_cancelled), Task("context.wait_deadline", wait_deadline), Task("context.set", changed("set", ["one"])), Task("context.set_move", changed("set_move", ["one"])), Task("context.set_both", changed("set_both", ["one", "two"])),
    Task("context.set_data", changed("set_data", ["one", "two"])), Task("context.data", data), Task("context.reset", changed("reset", ["one"])), Task("context.reset_both", changed("reset_both", ["one", "two"])), Task("context.reset_all", changed("reset_all", ["one", "two"])), Task("context.get", get), Task("context.current", current)]
