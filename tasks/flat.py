"""Flat containers (S11, S12; S17 rests on them): keys are arbitrary 64-bit identities, the comparator object selects one of
any number of strict weak orders, each given by an uninterpreted ranking."""
DRIVER = "flat.cpp"
import z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L
from lib import vec_make, vec_obj
from ghost import *
RANK = z3.Function("RANK", I, I, I)
MENTION = z3.Function("MENTION", I, z3.BoolSort())
BAD_RANGE = "_ZTISt12out_of_range"
def shape(S): return (8, {0: 8}) if S.endswith("set") else (16, {0: 8, 8: 8})
def multi(S): return S in ("mset", "mmap")
def fresh_j(): return z3.Int(f"j!{fresh_id()}")
def mention(st, A, *idx):
    for i in idx: st.assume(MENTION(z3.Select(A, B_int(i))))
def sorted_(A, n, m, strict, lab=None):
    i, j = fresh_j(), fresh_j(); a, b = RANK(m, z3.Select(A, i)), RANK(m, z3.Select(A, j))
    return FA([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), a < b if strict else a <= b), [z3.Select(A, i), z3.Select(A, j)])
def setup(ex):
    ex.vec_layouts.append((r"^std::vector<key, ", 8, {0: 8}))
    ex.vec_layouts.append((r"^std::vector<std::pair<key, val>, ", 16, {0: 8, 8: 8}))
    def less(ex, st, a, c):
        m, x, y = B_int(ex.asint(a[0], 32)), B_int(ex.asint(a[1], 64)), B_int(ex.asint(a[2], 64))
        return [(st, Ret(RANK(m, x) < RANK(m, y)))]
    ex.contract("^ghost_less$", less, "the caller's comparator (any strict weak order, chosen by the comparator object)")
    ex.no_frames = True
def order_no(ex, st, name):
    m = z3.Int(name); st.assume(z3.And(m >= 0, m < (1 << 32))); return m
def arrays(ex, st, name, fields):
    out = {}
    for b, w in fields.items():
        A = z3.Array(f"{name}.{b}", I, I); j = fresh_j(); st.assume(FA([j], z3.And(z3.Select(A, j) >= 0, z3.Select(A, j) < (1 << 64)), z3.Select(A, j))); out[b] = A
    return out
def vec_cell(ex, st, p):
    cs = [(o, v) for o, (n, v) in st.mem[p.r].cells.items() if isinstance(v, Obj) and v.kind == 'vec']
    if len(cs) != 1: raise Unsupported("the container does not hold exactly one vector")
    return cs[0]
def view(ex, st, p):
    o, v = vec_cell(ex, st, p); R = st.mem[v.buf]; return B_int(R.size), {b: A for b, (m, A) in R.fields.items()}, v.buf
class Cont:
    """an arbitrary container: any sorted content under order number m"""
    def __init__(s, ex, st, S, name="C", m=None, mx=1 << 56):
        s.S = S; s.m = order_no(ex, st, name + ".order") if m is None else m; stride, fields = shape(S)
        sz = [o.v for _, o in ex.run(st, f"d_size_of_{S}", [])][0]
        s.p = ex.new_cells(st, sz, name); r = ex.run(st, f"d_make_{S}", [s.p, s.m])
        if len(r) != 1 or r[0][0] is not st or isinstance(r[0][1], Throw): raise Unsupported("construction splits")
        s.n = z3.Int(name + ".n"); st.assume(z3.And(s.n >= 0, s.n < mx)); s.A = arrays(ex, st, name, fields)
        st.assume(sorted_(s.A[0], s.n, s.m, not multi(S)))
        o, v = vec_cell(ex, st, s.p); W = st.wr(v.buf); W.size = s.n; W.fields = {b: (w, s.A[b]) for b, w in fields.items()}; W.gen = ('g', fresh_id())
    def split(s, st, k, lo="LO", hi="HI"):
        """where key k belongs: [lo, hi) are its equivalents (they exist in every sorted sequence)"""
        lo, hi = z3.Int(lo), z3.Int(hi); A, n, m = s.A[0], s.n, s.m; j = fresh_j()
        st.assume(z3.And(0 <= lo, lo <= hi, hi <= n)); r = RANK(m, k); a = RANK(m, z3.Select(A, j))
        st.assume(FA([j], z3.And(z3.Implies(z3.And(j >= 0, j < lo), a < r), z3.Implies(z3.And(j >= lo, j < hi), a == r), z3.Implies(z3.And(j >= hi, j < n), a > r)), z3.Select(A, j)))
        if not multi(s.S): st.assume(hi <= lo + 1)
        return lo, hi
    def unchanged(s, ex, st, label="content unchanged", p=None):
        n, A, _ = view(ex, st, p or s.p); ex.oblige(st, simp(n == s.n), f"post:{label}: size")
        for b in A: forall(ex, st, 0, s.n, lambda j: z3.Select(A[b], j) == z3.Select(s.A[b], j), f"post:{label}: elements")
def key_at(ex, st, name="k"):
    k = z3.Int(name); st.assume(z3.And(k >= 0, k < (1 << 64))); p = ex.new_cells(st, 8, name); ex.store_raw(st, p, 8, k); return p, k
def value_at(ex, st, S, name="v"):
    st_, fields = shape(S); p = ex.new_cells(st, st_, name); ks = []
    for b in fields:
        k = z3.Int(f"{name}.{b}"); st.assume(z3.And(k >= 0, k < (1 << 64))); ex.store_raw(st, Ptr(p.r, b), 8, k); ks.append(k)
    return p, ks
def search_hints(ex, C, ks):
    """binary (or any) search: what lies outside the current range is on the right side of the key"""
    def get(vw, k): return next(x for x in vw.vars if x.key == k)
    def cands(vw):
        out = []; buf = {a[2] for a in [(0, 0, r) for r in vw.st0.mem]}
        ptrs = [v for v in vw.ints() if v.kind == 'ptr' and v.region in vw.st0.mem and vw.st0.mem[v.region].kind == 'a' and 0 in vw.st0.mem[v.region].fields]
        nums = [v for v in vw.ints() if v.kind != 'ptr']
        for p in ptrs:
            A = vw.st0.mem[p.region].fields[0][1]; n = vw.st0.mem[p.region].size
            for c in C:
                if not A.eq(c.A[0]): continue
                for ki, k in enumerate(ks):
                    r = RANK(c.m, k)
                    for nm, lo, hi in (("lt", lambda a: a < r, lambda a: a >= r), ("le", lambda a: a <= r, lambda a: a > r)):
                        def f(vw, p=p.key, lo=lo, A=A, m=c.m):
                            j = fresh_j(); return FA([j], z3.Implies(z3.And(j >= 0, j < B_int(get(vw, p).cur)), lo(RANK(m, z3.Select(A, j)))), z3.Select(A, j))
                        out.append((f"{p.key} below {nm} {ki}", f))
                        def h(vw, p=p.key, hi=hi, A=A, m=c.m, n=n):
                            j = fresh_j(); return FA([j], z3.Implies(z3.And(j >= B_int(get(vw, p).cur), j < n), hi(RANK(m, z3.Select(A, j)))), z3.Select(A, j))
                        out.append((f"{p.key} from {nm} {ki}", h))
                        for q in nums:
                            def g(vw, p=p.key, q=q.key, hi=hi, A=A, m=c.m, n=n):
                                j = fresh_j(); return FA([j], z3.Implies(z3.And(j >= B_int(get(vw, p).cur) + B_int(get(vw, q).cur), j < n), hi(RANK(m, z3.Select(A, j)))), z3.Select(A, j))
                            out.append((f"{p.key}+{q.key} above {nm} {ki}", g))
            for q in nums: out.append((f"{p.key}+{q.key}<=n", lambda vw, p=p.key, q=q.key, n=n: B_int(get(vw, p).cur) + B_int(get(vw, q).cur) <= n))
            for q in nums: out.append((f"{p.key}+{q.key}<=init", lambda vw, p=p.key, q=q.key: B_int(get(vw, p).cur) + B_int(get(vw, q).cur) <= B_int(get(vw, p).init) + B_int(get(vw, q).init)))
        return out
    ex.loop_cands.append(cands)
def begin(ex, S):
    st = State(); setup(ex); C = Cont(ex, st, S); p, k = key_at(ex, st); lo, hi = C.split(st, k); search_hints(ex, [C], [k]); return st, C, p, k, lo, hi
# ---- lookups
def bound(op, S):
    def t(ex):
        st, C, p, k, lo, hi = begin(ex, S)
        for st2, o in ex.run(st, f"d_{op}_{S}", [C.p, p]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            r = B_int(o.v); mention(st2, C.A[0], r, r - 1, lo, hi, lo - 1, hi - 1)
            if "lower" in op: ex.oblige(st2, simp(r == lo), "post:first element not before the key")
            elif "upper" in op: ex.oblige(st2, simp(r == hi), "post:first element after the key")
            elif "find" in op: ex.oblige(st2, z3.If(lo < hi, z3.And(r >= lo, r < hi), r == C.n), "post:an equivalent element, or the end")
            else: ex.oblige(st2, simp(r == hi - lo), "post:number of equivalent elements")
            C.unchanged(ex, st2); cover(ex, st2, "found" if "count" not in op else "counted")
    return t
def equal_range(op, S):
    def t(ex):
        st, C, p, k, lo, hi = begin(ex, S); a, b = ex.new_cells(st, 8, "a"), ex.new_cells(st, 8, "b")
        for st2, o in ex.run(st, f"d_{op}_{S}", [C.p, p, a, b]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            x, y = B_int(ex.load_raw(st2, a, 8)), B_int(ex.load_raw(st2, b, 8)); mention(st2, C.A[0], x, y, x - 1, y - 1, lo, hi, lo - 1, hi - 1)
            ex.oblige(st2, simp(x == lo), "post:first equivalent"); ex.oblige(st2, simp(y == hi), "post:after the last equivalent"); C.unchanged(ex, st2); cover(ex, st2, "range")
    return t
def sizes(S):
    def t(ex):
        st = State(); setup(ex); C = Cont(ex, st, S)
        for st2, o in ex.run(st, f"d_size_{S}", [C.p]): ex.oblige(st2, simp(B_int(o.v) == C.n), "post:size")
        for st2, o in ex.run(st, f"d_empty_{S}", [C.p]): ex.oblige(st2, B(ex.asbool(o.v)) == (C.n == 0), "post:empty")
        for st2, o in ex.run(st, f"d_order_{S}", [C.p]): ex.oblige(st2, simp(B_int(o.v) == C.m), "post:comparator"); C.unchanged(ex, st2)
        for st2, o in ex.run(st, f"d_clear_{S}", [C.p]): n, A, _ = view(ex, st2, C.p); ex.oblige(st2, simp(n == 0), "post:cleared"); cover(ex, st2, "cleared")
    return t
# ---- insertion
def inserted(ex, st2, C, at, ks, label=""):
    """content is the old one with the value put in at position `at`"""
    n, A, _ = view(ex, st2, C.p); ex.oblige(st2, simp(n == C.n + 1), f"post:{label}one more element")
    for (b, F), v in zip(A.items(), ks):
        forall(ex, st2, 0, C.n + 1, lambda j: z3.Select(F, j) == z3.If(j < at, z3.Select(C.A[b], j), z3.If(j == at, v, z3.Select(C.A[b], j - 1))), f"post:{label}the value is put in, the rest keeps its order")
    i, j = z3.Int(f"i!{fresh_id()}"), z3.Int(f"j!{fresh_id()}"); F = A[0]; a, b = RANK(C.m, z3.Select(F, i)), RANK(C.m, z3.Select(F, j))
    ex.oblige(st2, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), a < b if not multi(C.S) else a <= b)), f"post:{label}still in key order")
def insert(op, S, hint=False, two=False):
    def t(ex):
        st = State(); setup(ex); C = Cont(ex, st, S); p, ks = value_at(ex, st, S); lo, hi = C.split(st, ks[0]); search_hints(ex, [C], [ks[0]]); fl = ex.new_cells(st, 1, "flag")
        h = z3.Int("hint"); st.assume(z3.And(h >= 0, h <= C.n)); args = [C.p] + ([h] if hint else []) + ([p, Ptr(p.r, 8)] if two else [p]) + [fl]
        for st2, o in ex.run(st, f"d_{op}_{S}", args):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            r = B_int(o.v); f = B(ex.asbool(ex.load_raw(st2, fl, 1))); mention(st2, C.A[0], r, r - 1, lo, hi, lo - 1, hi - 1); n, _, _ = view(ex, st2, C.p)
            if multi(S):
                ex.oblige(st2, z3.And(r >= lo, r <= hi), "post:placed among its equivalents, and there is where it is reported"); inserted(ex, st2, C, r, ks); cover(ex, st2, "inserted"); continue
            if not hint: ex.oblige(st2, f == (lo == hi), "post:reports whether it was inserted")
            ex.oblige(st2, simp(r == lo), "post:reports the element's position")
            old, new = st2.clone(), st2
            if ex.feas(old, lo < hi): old.assume(lo < hi); C.unchanged(ex, old, "already present, content unchanged"); cover(ex, old, "present")
            if ex.feas(new, lo == hi): new.assume(lo == hi); inserted(ex, new, C, lo, ks); cover(ex, new, "inserted")
    return t
def removed(ex, st2, C, a, b, label=""):
    n, A, _ = view(ex, st2, C.p); ex.oblige(st2, simp(n == C.n - (b - a)), f"post:{label}size")
    for x, F in A.items(): forall(ex, st2, 0, C.n - (b - a), lambda j: z3.Select(F, j) == z3.If(j < a, z3.Select(C.A[x], j), z3.Select(C.A[x], j + (b - a))), f"post:{label}the rest is kept in order")
def erase(op, S):
    def t(ex):
        st = State(); setup(ex); C = Cont(ex, st, S); i, j = z3.Int("i"), z3.Int("j")
        if op == "erase_at": st.assume(z3.And(i >= 0, i < C.n)); args = [i]; a, b = i, i + 1
        elif op == "erase_range": st.assume(z3.And(i >= 0, i <= j, j <= C.n)); args = [i, j]; a, b = i, j
        else: p, k = key_at(ex, st); a, b = C.split(st, k); args = [p]; search_hints(ex, [C], [k])
        for st2, o in ex.run(st, f"d_{op}_{S}", [C.p] + args):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            r = B_int(o.v); mention(st2, C.A[0], a, b, a - 1, b - 1)
            n1, A1, _ = view(ex, st2, C.p); mention(st2, A1[0], a, b, a - 1, b - 1)
            ex.oblige(st2, simp(r == (b - a if op == "erase_key" else a)), "post:reports " + ("the number erased" if op == "erase_key" else "what follows"))
            removed(ex, st2, C, a, b); cover(ex, st2, "erased")
    return t
# ---- element access
def access(op):
    def t(ex):
        st, C, p, k, lo, hi = begin(ex, "map"); nv = z3.Int("nv"); st.assume(z3.And(nv >= 0, nv < (1 << 64)))
        for st2, o in ex.run(st, f"d_{op}_map", [C.p, p] + ([nv] if op != "cat" else [])):
            mention(st2, C.A[0], lo, hi, lo - 1, hi - 1)
            if isinstance(o, Throw):
                ex.oblige(st2, op in ("at", "cat") and o.tinfo == BAD_RANGE, f"throws only out_of_range ({o.tinfo})"); ex.oblige(st2, lo == hi, "post:only if absent"); C.unchanged(ex, st2); cover(ex, st2, "absent"); continue
            r = B_int(o.v)
            if op in ("at", "cat"): ex.oblige(st2, lo < hi, "post:only if present")
            old, new = st2.clone(), st2
            if ex.feas(old, lo < hi):
                old.assume(lo < hi); ex.oblige(old, simp(r == z3.Select(C.A[8], lo)), "post:the mapped value")
                n, A, _ = view(ex, old, C.p); ex.oblige(old, simp(n == C.n), "post:no element added")
                forall(ex, old, 0, C.n, lambda j: z3.Select(A[0], j) == z3.Select(C.A[0], j), "post:keys kept"); forall(ex, old, 0, C.n, lambda j: z3.Select(A[8], j) == (z3.If(j == lo, nv, z3.Select(C.A[8], j)) if op != "cat" else z3.Select(C.A[8], j)), "post:a reference to that value"); cover(ex, old, "present")
            if op in ("index", "indexm") and ex.feas(new, lo == hi): new.assume(lo == hi); ex.oblige(new, simp(r == 0), "post:a fresh value"); inserted(ex, new, C, lo, [k, nv]); cover(ex, new, "added")
    return t
TASKS = []
for S in ("set", "mset", "map", "mmap"):
    for op in ("lower", "clower", "upper", "cupper", "find", "cfind", "count"): TASKS.append(Task(f"flat.{op}_{S}", bound(op, S)))
    for op in ("range", "crange"): TASKS.append(Task(f"flat.{op}_{S}", equal_range(op, S)))
    TASKS.append(Task(f"flat.size_{S}", sizes(S)))
    for op in ("insert", "insertm", "emplace"): TASKS.append(Task(f"flat.{op}_{S}", insert(op, S)))
    for op in ("inserth", "inserthm", "emplaceh"): TASKS.append(Task(f"flat.{op}_{S}", insert(op, S, True)))
    for op in ("erase_at", "erase_range", "erase_key"): TASKS.append(Task(f"flat.{op}_{S}", erase(op, S)))
    if S.endswith("map"): TASKS += [Task(f"flat.emplace2_{S}", insert("emplace2", S, two=True)), Task(f"flat.emplaceh2_{S}", insert("emplaceh2", S, True, two=True))]
for op in ("index", "indexm", "at", "cat"): TASKS.append(Task(f"flat.{op}_map", access(op)))
# ---- bulk operations
def values(ex, st, S, name="IN"):
    stride, fields = shape(S); n = z3.Int(name + ".n"); st.assume(z3.And(n >= 0, n < (1 << 56))); A = arrays(ex, st, name, fields)
    return ex.new_arr(st, stride, n, {b: (w, A[b]) for b, w in fields.items()}, name), n, A
INSERT = r"^auto arpc::detail::flat_tree<.*>::insert\({}(?: const)?&&?\)"
def insert_all(op, S):
    """over the contract of insert(value), which the insert tasks discharge: every value once, in order"""
    def t(ex):
        st = State(); setup(ex); C = Cont(ex, st, S); p, n, A = values(ex, st, S)
        for b in A: st.ghost[f"log.{b}"] = z3.Array(f"LOG.{b}", I, I)
        st.ghost["log.n"] = 0; calls = []
        def ins(ex, st, a, c):
            if len(a) != 2 or a[0].r != C.p.r: return L.NOTHANDLED
            calls.append(1)
            for b, w in shape(S)[1].items(): st.ghost[f"log.{b}"] = z3.Store(st.ghost[f"log.{b}"], B_int(st.ghost["log.n"]), B_int(ex.asint(ex.load_raw(st, ex.padd(st, a[1], b, 1), w), 8 * w)))
            st.ghost["log.n"] = simp(B_int(st.ghost["log.n"]) + 1); return [(st, Ret(Undef()))]
        ex.contract(r"arpc::detail::flat_tree<.*>::insert\((?:key|std::pair<key, val>)(?: const)?&&?\)", ins, "flat_tree::insert(value) by its contract (tasks flat.insert, flat.insertm)")
        def cands(vw): return [(f"log is a prefix of the input {b}", lambda vw, b=b: FA([j := fresh_j()], z3.Implies(z3.And(j >= 0, j < B_int(vw.st.ghost["log.n"])), z3.Select(vw.st.ghost[f"log.{b}"], j) == z3.Select(A[b], j)), z3.Select(vw.st.ghost[f"log.{b}"], j))) for b in A]
        ex.loop_cands.append(cands)
        for st2, o in ex.run(st, f"d_{op}_{S}", [C.p, p, n]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            ex.oblige(st2, simp(B_int(st2.ghost["log.n"]) == n), "post:every value is inserted once")
            for b in A: forall(ex, st2, 0, n, lambda j: z3.Select(st2.ghost[f"log.{b}"], j) == z3.Select(A[b], j), "post:in the order given")
            C.unchanged(ex, st2, "nothing but insertions"); cover(ex, st2, "inserted")
    return t
def functor(ex, st, rx, cell):
    """the predicate a function object stands for, as a formula over two keys"""
    fn = find_fn(ex.m, rx); R = {}
    def P(x, y):
        s = st.clone(); a, b = (ex.new_cells(s, 16, q) for q in "xy"); ex.store_raw(s, a, 8, x); ex.store_raw(s, b, 8, y)
        for q in (a, b): ex.store_raw(s, Ptr(q.r, 8), 8, z3.Int(f"mv!{fresh_id()}"))
        n0 = len(s.pc); out = False
        for s2, o in ex.run(s, fn, [cell, a, b]):
            if isinstance(o, Throw): raise Unsupported("comparator throws")
            out = z3.Or(out, z3.And(*[B(g) for g in s2.pc[n0:]], B(ex.asbool(o.v)))) if out is not False else z3.And(*[B(g) for g in s2.pc[n0:]], B(ex.asbool(o.v)))
        return out
    return P
def algorithms(ex, S, log):
    """assumed contracts of std::stable_sort and std::unique; their requirements on the function object are obligations"""
    vt = "key" if S.endswith("set") else "std::pair<key, val>"
    def whole(ex, st, a):
        R = st.mem[a[0].r]
        if a[1].r != a[0].r or simp(B_int(a[0].i)) != 0 or simp(B_int(a[1].i) == B_int(R.size)) is not True and not ex.q(st, B_int(a[1].i) == B_int(R.size)): raise Unsupported("sorting a part")
        return R
    def obj(ex, st, a):
        if isinstance(a, Ptr): return a
        c = ex.new_cells(st, 8, "functor"); ex.store_raw(st, c, 4, ex.asint(a, 32)); return c
    def stable_sort(ex, st, a, c):
        R = whole(ex, st, a); n = B_int(R.size); less = functor(ex, st, r"^arpc::detail::key_value_compare<.*>::operator\(\)\(%s const&, %s const&\) const$" % (re.escape(vt), re.escape(vt)) if S != "mset" and S != "set" else r"^arpc::detail::key_value_compare<key, key, order>::operator\(\)\(key const&, key const&\) const$", obj(ex, st, a[2]))
        x, y, z = (z3.Int(f"{q}!{fresh_id()}") for q in "xyz"); r = lambda g: z3.And(g >= 0, g < (1 << 64))
        ex.oblige(st, z3.Implies(z3.And(r(x), r(y), r(z)), z3.And(z3.Not(less(x, x)), z3.Implies(z3.And(less(x, y), less(y, z)), less(x, z)), z3.Implies(less(x, y), z3.Or(less(x, z), less(z, y))))), "stable_sort requires a strict weak order")
        A = {b: F for b, (w, F) in R.fields.items()}; PI, IP = (z3.Function(f"{q}!{fresh_id()}", I, I) for q in ("PI", "IP")); W = bump(ex, st, a[0].r); out = {}
        for b, (w, F) in R.fields.items():
            out[b] = z3.Array(f"sorted.{b}!{fresh_id()}", I, I); W.fields[b] = (w, out[b])
        i, j = fresh_j(), fresh_j(); K = out[0]
        st.assume(FA([j], z3.And(z3.Implies(z3.And(j >= 0, j < n), z3.And(PI(j) >= 0, PI(j) < n, IP(PI(j)) == j, *[z3.Select(out[b], j) == z3.Select(A[b], PI(j)) for b in A])), *[z3.And(z3.Select(out[b], j) >= 0, z3.Select(out[b], j) < (1 << 64)) for b in A]), z3.Select(K, j)))
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(IP(i) >= 0, IP(i) < n, PI(IP(i)) == i, z3.Select(K, IP(i)) == z3.Select(A[0], i))), IP(i), z3.Select(A[0], i)))
        st.assume(FA([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(z3.Not(less(z3.Select(K, j), z3.Select(K, i))), z3.Implies(z3.Not(less(z3.Select(K, i), z3.Select(K, j))), PI(i) < PI(j)))), [z3.Select(K, i), z3.Select(K, j)]))
        log.update(PI=PI, IP=IP, sorted=K, n=n); return [(st, Ret(None))]
    def unique(ex, st, a, c):
        R = whole(ex, st, a); n = B_int(R.size); eq = functor(ex, st, r"^arpc::detail::key_value_equal<.*>::operator\(\)\(%s const&, %s const&\) const$" % (re.escape(vt), re.escape(vt)) if S != "set" else r"^arpc::detail::key_value_equal<key, key, order>::operator\(\)\(key const&, key const&\) const$", obj(ex, st, a[2]))
        x, y, z = (z3.Int(f"{q}!{fresh_id()}") for q in "xyz"); r = lambda g: z3.And(g >= 0, g < (1 << 64))
        ex.oblige(st, z3.Implies(z3.And(r(x), r(y), r(z)), z3.And(eq(x, x), eq(x, y) == eq(y, x), z3.Implies(z3.And(eq(x, y), eq(y, z)), eq(x, z)))), "unique requires an equivalence")
        A = {b: F for b, (w, F) in R.fields.items()}; SU, GR = (z3.Function(f"{q}!{fresh_id()}", I, I) for q in ("SU", "GR")); k = z3.Int(f"k!{fresh_id()}"); W = bump(ex, st, a[0].r); out = {}
        for b, (w, F) in R.fields.items(): out[b] = z3.Array(f"unique.{b}!{fresh_id()}", I, I); W.fields[b] = (w, out[b])
        i, j = fresh_j(), fresh_j(); K = out[0]
        st.assume(z3.And(k >= 0, k <= n, (k == 0) == (n == 0)))
        # the elements kept, in order; every element belongs to the group that a kept element heads
        st.assume(FA([j], z3.And(z3.Implies(z3.And(j >= 0, j < k), z3.And(SU(j) >= 0, SU(j) < n, GR(SU(j)) == j, *[z3.Select(out[b], j) == z3.Select(A[b], SU(j)) for b in A])), *[z3.And(z3.Select(out[b], j) >= 0, z3.Select(out[b], j) < (1 << 64)) for b in A]), z3.Select(K, j)))
        st.assume(FA([i, j], z3.Implies(z3.And(i >= 0, i < j, j < k), SU(i) < SU(j)), [z3.Select(K, i), z3.Select(K, j)]))
        st.assume(FA([j], z3.Implies(z3.And(j >= 0, j + 1 < k), z3.Not(eq(z3.Select(A[0], SU(j)), z3.Select(A[0], SU(j + 1))))), z3.Select(K, j)))
        st.assume(FA([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(GR(i) >= 0, GR(i) < k, SU(GR(i)) <= i, z3.Implies(GR(i) + 1 < k, i < SU(GR(i) + 1)), eq(z3.Select(A[0], SU(GR(i))), z3.Select(A[0], i)))), GR(i)))
        log.update(SU=SU, GR=GR, k=k, kept=K); return [(st, Ret(Ptr(a[0].r, k, 0, st.mem[a[0].r].gen)))]
    ex.contract(r"^void std::stable_sort<", stable_sort, "std::stable_sort (assumed contract: a sorted stable permutation)")
    ex.contract(r" std::unique<", unique, "std::unique (assumed contract: the first of every group of equivalent neighbours)")
def bulk(op, S):
    def t(ex):
        st = State(); setup(ex); log = {}; algorithms(ex, S, log); p, n, A = values(ex, st, S)
        if op == "assign_list": C = Cont(ex, st, S); tgt, m, args = C.p, C.m, [C.p, p, n]
        else: m = order_no(ex, st, "m"); sz = [o.v for _, o in ex.run(st, f"d_size_of_{S}", [])][0]; tgt = ex.new_cells(st, sz, "C"); args = [tgt, m, p, n]
        for st2, o in ex.run(st, f"d_{op}_{S}", args):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            k, F, _ = view(ex, st2, tgt); i, j, u = z3.Int("i"), z3.Int("j"), z3.Int("u"); K = F[0]
            for q, oo in ex.run(st2.clone(), f"d_order_{S}", [tgt]): ex.oblige(q, simp(B_int(oo.v) == m), "post:ordered by its comparator")
            if "PI" not in log or (not multi(S) and "SU" not in log): ex.oblige(st2, False, "post:built from the values given (sorted stably, first of equivalents kept)"); continue
            a, b = RANK(m, z3.Select(K, i)), RANK(m, z3.Select(K, j)); ipre = z3.And(i >= 0, i < j, j < k); PI, IP = log["PI"], log["IP"]
            MN = lambda e: MENTION(e)
            if multi(S):
                ex.oblige(st2, simp(k == n), "post:every value is held"); src = lambda q: PI(q); at = lambda t: IP(t)
                ex.oblige(st2, z3.ForAll([i, j], z3.Implies(ipre, z3.And(a <= b, z3.Implies(a == b, PI(i) < PI(j))))), "post:in key order, equivalents in the order given")
                st2.assume(MN(z3.Select(K, j))); st2.assume(MN(IP(j)))
                ex.oblige(st2, z3.Implies(z3.And(j >= 0, j < n), z3.And(IP(PI(j)) == j, PI(IP(j)) == j)), "post:each once")
            else:
                SU, GR, K0 = log["SU"], log["GR"], log["sorted"]; src = lambda q: PI(SU(q)); at = lambda t: GR(IP(t))
                # adjacent representatives differ, so with the sorted order they increase strictly: i < j is reached through i + 1
                hint = lambda q: [MN(z3.Select(K, q)), MN(z3.Select(K0, SU(q)))]
                for q in (i, i + 1, j): [st2.assume(z) for z in hint(q)]
                ex.oblige(st2, z3.Implies(ipre, a < b), "post:in key order, no two equivalent")
                ex.oblige(st2, z3.Implies(z3.And(j >= 0, j < n), z3.And(at(j) >= 0, at(j) < k, RANK(m, z3.Select(K, at(j))) == RANK(m, z3.Select(A[0], j)))) if not [st2.assume(z) for z in (MN(IP(j)), MN(GR(IP(j))), *hint(at(j)), MN(z3.Select(A[0], j)))] is None else False, "post:an equivalent of every value is held")
                ex.oblige(st2, z3.Implies(z3.And(j >= 0, j < n), src(at(j)) <= j), "post:of equivalents the first given is kept")
            st2.assume(MN(z3.Select(K, j)))
            if not multi(S): st2.assume(MN(z3.Select(log["sorted"], log["SU"](j))))
            for bb in A: ex.oblige(st2, z3.Implies(z3.And(j >= 0, j < k), z3.And(src(j) >= 0, src(j) < n, z3.Select(F[bb], j) == z3.Select(A[bb], src(j)))), "post:holds nothing but the values given")
            cover(ex, st2, "built")
    return t
# ---- values: copies, moves, swaps
def same_as(ex, st, p, C, k, lo, hi, label):
    """content, order and answers of container C, at p"""
    kp = ex.new_cells(st, 8, "q"); ex.store_raw(st, kp, 8, k); S = C.S
    C.unchanged(ex, st, label + " content", p)
    for q, o in ex.run(st.clone(), f"d_order_{S}", [p]): ex.oblige(q, simp(B_int(o.v) == C.m), f"post:{label} comparator")
    for op in ("cfind", "clower", "cupper"):
        for q, o in ex.run(st.clone(), f"d_{op}_{S}", [p, kp]):
            if isinstance(o, Throw): ex.oblige(q, False, f"no throw ({o.tinfo})"); continue
            r = B_int(o.v); mention(q, C.A[0], r, r - 1, lo, hi, lo - 1, hi - 1)
            ex.oblige(q, {"cfind": z3.If(lo < hi, z3.And(r >= lo, r < hi), r == C.n), "clower": r == lo, "cupper": r == hi}[op], f"post:{label} {op[1:]} under the source's order")
def buffers_apart(ex, st, p, q):
    ex.oblige(st, vec_cell(ex, st, p)[1].buf != vec_cell(ex, st, q)[1].buf, "post:no shared storage")
def values_task(op, S):
    def t(ex):
        st = State(); setup(ex); C = Cont(ex, st, S, "C"); two = op in ("assign", "massign", "swap", "sswap"); k = z3.Int("k"); st.assume(z3.And(k >= 0, k < (1 << 64))); lo, hi = C.split(st, k)
        if two: D = Cont(ex, st, S, "D"); l2, h2 = D.split(st, k, "LO2", "HI2"); tgt = D.p
        else: tgt = ex.new_cells(st, [o.v for _, o in ex.run(st, f"d_size_of_{S}", [])][0], "T")
        search_hints(ex, [C] + ([D] if two else []), [k])
        for st2, o in ex.run(st, f"d_{op}_{S}", [tgt, C.p]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            same_as(ex, st2, tgt, C, k, lo, hi, "the source's")
            if op in ("copy", "copya", "assign"): same_as(ex, st2, C.p, C, k, lo, hi, "source keeps its")
            if "swap" in op: same_as(ex, st2, C.p, D, k, l2, h2, "the other's")
            buffers_apart(ex, st2, tgt, C.p)
            for R in (vec_cell(ex, st2, tgt)[1], vec_cell(ex, st2, C.p)[1]): ex.oblige(st2, st2.mem[R.buf].alive, "post:storage alive")
            cover(ex, st2, op)
    return t
def self_assign(S):
    def t(ex):
        st = State(); setup(ex); C = Cont(ex, st, S, "C"); k = z3.Int("k"); st.assume(z3.And(k >= 0, k < (1 << 64))); lo, hi = C.split(st, k); search_hints(ex, [C], [k])
        for st2, o in ex.run(st, f"d_assign_{S}", [C.p, C.p]): same_as(ex, st2, C.p, C, k, lo, hi, "self assignment keeps"); cover(ex, st2, "self")
    return t
import re
from lib import bump
from task import find_fn
for S in ("set", "mset", "map", "mmap"):
    for op in ("insert_all", "insert_list"): TASKS.append(Task(f"flat.{op}_{S}", insert_all(op, S)))
    for op in ("from_range", "from_list", "assign_list"): TASKS.append(Task(f"flat.{op}_{S}", bulk(op, S)))
    for op in ("copy", "copya", "move", "movea", "assign", "massign", "swap", "sswap"): TASKS.append(Task(f"flat.val.{op}_{S}", values_task(op, S)))
    TASKS.append(Task(f"flat.val.self_{S}", self_assign(S)))
