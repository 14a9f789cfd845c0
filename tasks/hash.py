"""Structure hashes (S06): the hash of every composite as a function of its components' hashes, which are unknowns."""
DRIVER = "hash.cpp"; FLAGS = ("prepare:runtime_hash", "only:driver")
import z3, itertools
from core import *
from task import Task, cover
W = 32
def V(n): return z3.BitVec(n, W)
def ev(ex, st, fn, hs):
    """-> the hash computed by fn when component k has hash hs[k]"""
    st = st.clone(); ex.gh = list(hs)
    r = ex.run(st, "h_" + fn, [])
    if len(r) != 1 or isinstance(r[0][1], Throw): raise Unsupported("hash is not a single value")
    return ex.bvc(r[0][1].v, W)
def setup(ex):
    def gh(ex, st, a, c): return ex.gh[a[0]]
    ex.contract("^ghost_hash$", gh, "hash of a component (any value)"); ex.gh = []
    if ex.products is None: ex.products = []
    return State()
def leafs(st, *vs):
    """hashes of scalars: any family, any sign, sizes up to 16"""
    for v in vs: st.assume(z3.And(z3.ULT(v & 127, 32), z3.ULE(z3.LShR(v, 8), 16)))
PARTS = dict(vec=1, list=1, set=1, uset=1, mset=1, map=2, umap=2, mmap=2, arr1=1, arr3=1, arr256=1, opt=1, uptr=1, sptr=1, wptr=1, tup1=1, tup2=2, tup3=3, pair=2, agg1=1, agg2=2, agg3=3, f1=1, f2=2, f3=3, b1=1, b1f=2, b2=2, f1v=1, rec0=1, fn0=1, fn1=2, fn1c=2, fn2=3, self=1, deque=1, fset=1, umset=1, fmset=1, fmap=2, ummap=2, fmmap=2, carr3=1)
def oblige(ex, st, g, label):
    """products are opaque names at first, known to be one to one only; where that does not decide, with their definitions"""
    g = B(g) if not isinstance(g, bool) else g
    s2 = st.clone()
    for (c, x, r, w), (d, y, q, v) in itertools.combinations(ex.products, 2):
        if c == d and w == v: s2.assume((r == q) == (x == y))
    if isinstance(g, bool): ex.oblige(s2, g, label); return
    depth = {}                               # how many products deep a product is
    for c, x, r, w in ex.products: depth[r.get_id()] = 1 + max([depth[v.get_id()] for v in consts(x) if v.get_id() in depth], default=0)
    def upto(d, t):
        sub = []
        for c, x, r, w in ex.products:
            if depth[r.get_id()] <= d: sub.append((r, z3.BitVecVal(c, w) * z3.substitute(x, *sub)))
        return z3.substitute(t, *sub) if sub else t
    top = max(depth.values(), default=0)
    for d in range(0, min(top, 4)):
        pc = [upto(d, p) if not isinstance(p, bool) else p for p in s2.pc]
        if ex.pr.prove(pc, upto(d, g), timeout=4000)[0] == 'proved':
            s3 = st.clone(); s3.pc = pc; ex.oblige(s3, upto(d, g), label); return
    ex.oblige(st, upto(top, g), label)
def consts(t):
    out = []; seen = set(); todo = [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if u.num_args() == 0: out.append(u)
        todo += u.children()
    return out
def enters(fn, n):
    def t(ex):
        for k in range(n):
            st = setup(ex); hs = [V(f"h{i}") for i in range(3)]; other = V("other"); st.assume(other != hs[k])
            a = ev(ex, st, fn, hs); h2 = list(hs); h2[k] = other; b = ev(ex, st, fn, h2)
            oblige(ex, st, a != b, f"post:{fn}: two types that differ in component {k} only have different hashes")
            cover(ex, st, fn)
    return t
SAME = [("sequences", "vec list deque vec_c vec_v"), ("sets", "set uset fset"), ("multisets", "mset umset fmset"), ("maps", "map umap fmap"), ("multimaps", "mmap ummap fmmap"), ("fixed-size arrays", "arr3 carr3"),
        ("pairs, tuples, aggregates", "pair pair_c tup2 agg2"), ("tuples and aggregates of 3", "tup3 agg3"), ("tuples and aggregates of 1", "tup1 agg1"), ("classes of the same structure", "f1 f1b"), ("cv and reference qualification", "self self_c")]
def same(ex):
    st = setup(ex); hs = [V(f"h{i}") for i in range(3)]
    for what, l in SAME:
        l = l.split(); a = ev(ex, st, l[0], hs)
        for x in l[1:]: oblige(ex, st, a == ev(ex, st, x, hs), f"post:{what}: {l[0]} and {x} have the same hash")
    cover(ex, st, "same")
KINDS = "vec set mset opt uptr sptr wptr arr1 arr2 arr3 arr255 arr256 arr257 arr65538 fn0 fn0c".split()
def kinds(ex):
    st = setup(ex); h = V("h0"); e = {x: ev(ex, st, x, [h]) for x in KINDS}
    for a, b in itertools.combinations(KINDS, 2): oblige(ex, st, e[a] != e[b], f"post:{a} and {b} of the same element differ")
    for a in KINDS: oblige(ex, st, z3.Implies(leaf_dom(h), e[a] != h), f"post:{a} of a scalar is not the scalar")
    h1 = V("h1"); m = {x: ev(ex, st, x, [h, h1]) for x in ("map", "mmap", "pair", "fn1", "fn1c", "tup2")}
    for a, b in itertools.combinations(("map", "mmap", "pair", "fn1", "fn1c"), 2):
        oblige(ex, st, z3.Implies(z3.And(leaf_dom(h), leaf_dom(h1)), m[a] != m[b]), f"post:{a} and {b} of the same scalars differ")
    cover(ex, st, "kinds")
def leaf_dom(v): return z3.And(z3.ULT(v & 127, 32), z3.ULE(z3.LShR(v, 8), 16))
def order(f, last=False):
    def t(ex):
        st = setup(ex); a, b, c = V("h0"), V("h1"), V("h2"); leafs(st, a, b, c); st.assume((b != c) if last else (a != b))
        oblige(ex, st, ev(ex, st, f, [a, b, c]) != ev(ex, st, f, [a, c, b] if last else [b, a, c]), f"post:{f}: the order of its scalars enters the hash"); cover(ex, st, "order")
    return t
def declared(f, g):
    def t(ex):
        st = setup(ex); a, b, c = V("h0"), V("h1"), V("h2"); leafs(st, a, b, c); st.assume(a != b)
        oblige(ex, st, ev(ex, st, f, [a, b, c]) != ev(ex, st, g, [a, b, c]), f"post:{f} and {g}: declaration order enters the hash"); cover(ex, st, "order")
    return t
def number(ex):
    st = setup(ex); hs = [V(f"h{i}") for i in range(3)]; leafs(st, *hs); e = lambda f: ev(ex, st, f, hs)
    for l in (("tup0", "tup1", "tup2", "tup3"), ("f0", "f1", "f2"), ("f1", "f2", "f3"), ("f0", "b1", "b2"), ("f1", "b1"), ("f2", "b2"), ("f2", "b1f"), ("b2", "b1f"), ("f1", "f1v"), ("f2", "f1v"), ("b1", "f1v"), ("f1", "tup1"), ("f2", "tup2"), ("fn0", "fn1"), ("fn1", "fn2"), ("fn1", "fn1c"), ("fn0", "fn0c"), ("f2", "rec0"), ("f1", "rec0")):
        for a, b in itertools.combinations(l, 2): oblige(ex, st, e(a) != e(b), f"post:{a} and {b} of the same scalars differ")
    cover(ex, st, "number")
def leaf(ex):
    st = setup(ex); f, g = z3.BitVec("f", 8), z3.BitVec("g", 8); s, t_ = z3.Bool("s"), z3.Bool("t"); m, n = z3.BitVec("m", 64), z3.BitVec("n", 64)
    st.assume(z3.And(z3.ULT(f, 128), z3.ULT(g, 128), z3.ULT(m, 1 << 24), z3.ULT(n, 1 << 24)))
    r = [ex.bvc(ex.run(st.clone(), "h_leaf", a)[0][1].v, W) for a in ([f, s, m], [g, t_, n])]
    oblige(ex, st, z3.Implies(r[0] == r[1], z3.And(f == g, s == t_, m == n)), "post:kind, signedness and size are all in the hash of a leaf"); cover(ex, st, "leaf")
def scalars(ex):
    st = setup(ex); n = ex.run(st.clone(), "sc_count", [])[0][1].v; rows = []
    oblige(ex, st, n == 18 + 10 + 12, "post:all scalar types are covered")
    for i in range(n):
        s = st.clone(); ps = [ex.new_cells(s, 4, f"o{k}") for k in range(4)]
        for p in ps: ex.store_raw(s, p, 4, 0)
        (s, o), = ex.run(s, "sc_info", [i] + ps); rows.append([ex.load_raw(s, p, 4) for p in ps])
    for i, j in itertools.combinations(range(n), 2):
        x, y = rows[i], rows[j]; oblige(ex, st, (x[0] == y[0]) == (x[1:] == y[1:]), f"post:scalars {i} and {j}: equal hashes exactly if kind (integer, enumeration, character, ...), size and signedness (times: the period) agree")
    cover(ex, st, "scalars")
TASKS = [Task(f"hash.enters_{f}", enters(f, n), mode="bv") for f, n in PARTS.items()]
TASKS += [Task("hash.same", same, mode="bv"), Task("hash.kinds", kinds, mode="bv", weight=3), Task("hash.number", number, mode="bv", weight=3), Task("hash.leaf", leaf, mode="bv"), Task("hash.scalars", scalars, mode="bv")]
TASKS += [Task(f"hash.order_{f}", order(f), mode="bv", weight=2) for f in ("pair", "tup2", "tup3", "map", "mmap", "f2", "f3", "b2", "b1f", "fn1", "agg2", "fn2")] + [Task(f"hash.order_last_{f}", order(f, True), mode="bv", weight=2) for f in ("tup3", "fn2", "agg3")]
TASKS += [Task(f"hash.declared_{f}", declared(f, g), mode="bv", weight=2) for f, g in (("f2", "f2r"), ("b2", "b2r"), ("tup2", "tup2r"), ("pair", "pairr"))]
