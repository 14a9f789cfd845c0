"""Codec layer 2: composite values over an abstract element (one element = one stream symbol) and over the size encoding's
contract (layer 1, tasks codec.*), plus the packet protocol built from a string encoding (S01, S02, S05, S10)."""
DRIVER = "compose.cpp"
import z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L
from lib import str_reg, vec_make, vec_obj
from ghost import *
from tasks.codec import opaque_members

SZ = 1 << 80          # symbol SZ + l stands for the encoding of the number l; elements are symbols below 2^64
def size_sym(l): return B_int(l) + SZ
def elem_ok(x): return z3.And(x >= 0, x < (1 << 64))
def uns(ex, v): return ex.asint(v, 64)
PUT, GET = "write_variant (encoding of a number, discharged by codec.put_size)", "read_variant (decoding of a number, discharged by codec.get_size)"
def layers(ex, st, opaque=True):
    if opaque: opaque_members(ex)
    def put(ex, st, a, c):
        st.ghost['out'] = z3.Store(st.ghost['out'], B_int(st.ghost['out.len']), size_sym(uns(ex, a[1]))); st.ghost['out.len'] = simp(B_int(st.ghost['out.len']) + 1)
    ex.contract(r"^arpc::binary_encoder<.*>::write_variant\(unsigned long\)", put, PUT)
    def get(ex, st, a, c):
        p = st.ghost['in.pos']; out = []; IN, N = st.ghost['in.arr'], st.ghost['in.N']
        s2 = st.clone(); s2.assume(B(simp(B_int(p) >= N)))
        if ex.feas(s2, True): out.append(throw_error(ex, s2, EOF))
        st.assume(B(simp(B_int(p) < N)))
        if not ex.feas(st, True): return out
        v = ex.sel(IN, p); st.ghost['in.pos'] = simp(B_int(p) + 1)
        ok = z3.And(v >= SZ, v < SZ + (1 << 64)) if is_sym(v) else SZ <= v < SZ + (1 << 64)
        s3 = st.clone(); s3.assume(B(Not(ok)))
        if ex.feas(s3, True): out.append(throw_error(ex, s3, MISMATCH))
        st.assume(B(ok))
        return out + ([(st, Ret(simp(B_int(v) - SZ)))] if ex.feas(st, True) else [])
    ex.contract(r"^arpc::binary_decoder<.*>::read_variant\(\)", get, GET)
    def pe(ex, st, a, c):
        st.ghost['out'] = z3.Store(st.ghost['out'], B_int(st.ghost['out.len']), B_int(uns(ex, ex.unundef(st, a[1], 64)))); st.ghost['out.len'] = simp(B_int(st.ghost['out.len']) + 1)
    ex.contract("^ghost_put_elem$", pe, "encoding of an element (abstract: one symbol)")
    def ge(ex, st, a, c):
        p = st.ghost['in.pos']; out = []; IN, N = st.ghost['in.arr'], st.ghost['in.N']
        s2 = st.clone(); s2.assume(B(simp(B_int(p) >= N)))
        if ex.feas(s2, True): out.append(throw_error(ex, s2, EOF))
        st.assume(B(simp(B_int(p) < N)))
        if not ex.feas(st, True): return out
        v = ex.sel(IN, p); st.ghost['in.pos'] = simp(B_int(p) + 1)
        s3 = st.clone(); s3.assume(B(Not(simp(elem_ok(B_int(v))))))
        if ex.feas(s3, True): out.append(throw_error(ex, s3, MISMATCH))
        st.assume(B(simp(elem_ok(B_int(v)))))
        return out + ([(st, Ret(v))] if ex.feas(st, True) else [])
    ex.contract("^ghost_get_elem$", ge, "decoding of an element (abstract: one symbol, or rejected)")
    def clr(ex, st, a, c): st.ghost['seq.len'] = 0
    def add(ex, st, a, c):
        for k, nm in ((1, 'seq.a'), (2, 'seq.b')): st.ghost[nm] = z3.Store(st.ghost[nm], B_int(st.ghost['seq.len']), B_int(uns(ex, ex.unundef(st, a[k], 64))))
        st.ghost['seq.len'] = simp(B_int(st.ghost['seq.len']) + 1)
    ex.contract("^ghost_seq_clear$", clr, "container clear (abstract container)"); ex.contract("^ghost_seq_add$", add, "container push_back / insert (abstract container)")
    def rsv(ex, st, a, c):
        s2 = st.clone(); return [throw_error(ex, s2, "_ZTISt12length_error"), (st, Ret(None))]
    ex.contract("^ghost_seq_reserve$", rsv, "container reserve (may refuse)")
    ex.vec_layouts.append((r"^std::vector<elem, ", 8, {0: 8}))
    ex.vec_layouts.append((r"^std::vector<unsigned int, ", 4, {0: 1, 1: 1, 2: 1, 3: 1}))
def used(ex, *labels):
    for l in labels:
        if not ex.scout and l not in ex.used_contracts: raise Unsupported(f"the number encoding is not where its contract is stated ({l})")
def seq_ghost(ex, st):
    st.ghost['seq.a'] = z3.Array("SEQA", I, I); st.ghost['seq.b'] = z3.Array("SEQB", I, I); n = z3.Int("SEQN"); st.assume(n >= 0); st.ghost['seq.len'] = n   # whatever it held before
def inp(ex, st, N=None, arr=None, pos=0):
    g = GIn(ex, st, N=N, pos=pos, symbols=True)
    st.ghost['in.arr'] = g.arr; st.ghost['in.N'] = g.N
    return g
def hints(ex, IN=None, SRC=(), per=1, base=None, w=1, rev=False, F=None):
    """loop invariants: positions advance by `per` each time round; what was copied equals its source"""
    def get(vw, k): return next(x for x in vw.vars if x.key == k)
    def cands(vw):
        out = []; ints = list(vw.ints())
        for v in ints:
            for m in {1, per, w}: out.append((f"{v.key}==init+{m}n", lambda vw, k=v.key, m=m: B_int(get(vw, k).cur) == B_int(get(vw, k).init) + m * vw.n))
        if IN is not None:
            pos = [v.key for v in ints if v.key == ('ghost', 'in.pos')]
            for k in pos:
                out.append(("pos<=N", lambda vw, k=k: B_int(get(vw, k).cur) <= vw.st.ghost['in.N']))
                for a in vw.arrays():
                    for ln in [v.key for v in ints if v.kind == 'len' or v.key == ('ghost', 'seq.len')]:
                        for q in range(per):
                            def f(vw, k=k, ka=a.key, ln=ln, q=q):
                                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, ka).cur; l0 = B_int(get(vw, ln).init); p0 = B_int(get(vw, k).init)
                                return FA([j], z3.Implies(z3.And(j >= l0, j < l0 + vw.n), z3.Select(A, j) == z3.Select(IN, p0 + per * (j - l0) + q)), z3.Select(A, j))
                            out.append((f"{a.key} copies input from {ln} field {q}", f))
        for key in [v.key for v in ints if v.key == ('ghost', 'out.len')]:
            for a in [a for a in vw.arrays() if a.key == ('ghost', 'out')]:
                for si, S in enumerate(SRC):
                    def f(vw, key=key, ka=a.key, S=S, si=si):
                        j = z3.Int(f"j!{fresh_id()}"); A = get(vw, ka).cur; p0 = B_int(get(vw, key).init); P = len(SRC)
                        return FA([j], z3.Implies(z3.And(j >= 0, j < vw.n), z3.Select(A, p0 + P * j + si) == z3.Select(S, j)), z3.Select(S, j))
                    out.append((f"out copies source {S}", f))
                def g(vw, key=key, ka=a.key):
                    j = z3.Int(f"j!{fresh_id()}"); a_ = get(vw, ka); p0 = B_int(get(vw, key).init)
                    return FA([j], z3.Implies(j < p0, z3.Select(a_.cur, j) == z3.Select(a_.init, j)), z3.Select(a_.cur, j))
                if not any(l == "earlier output kept" for l, _ in out): out.append(("earlier output kept", g))
        return out
    ex.loop_cands.append(cands)
    ex.bound_hints.append(lambda vw: {"N": vw.st.ghost['in.N']} if 'in.N' in vw.st.ghost else {})
    ex.no_frames = True
def elems(ex, st, name, n):
    """caller's elements: n symbols"""
    A = z3.Array(name, I, I); j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], elem_ok(z3.Select(A, j)), z3.Select(A, j)))
    return A
def count(st, name="n", mx=1 << 58):
    n = z3.Int(name); st.assume(z3.And(n >= 0, n < mx)); return n
def vector(ex, st, name, stride=8, fields=None, n=None):
    p = ex.new_cells(st, 24, name); n = count(st, name + ".n") if n is None else n
    fields = fields or {0: 8}; arrs = {}
    for b, m in fields.items():
        A = z3.Array(f"{name}.{b}", I, I); j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.And(z3.Select(A, j) >= 0, z3.Select(A, j) < (1 << (8 * m))), z3.Select(A, j))); arrs[b] = A
    vec_make(ex, st, p, stride, fields, n, arrs); return p, n, arrs
def vec_view(ex, st, p): R = st.mem[vec_obj(ex, st, p).buf]; return R.size, {b: A for b, (m, A) in R.fields.items()}
def leaks(ex, st, label="post:nothing is leaked"):
    for R in st.mem.values():
        if R.dyn is not None and R.dyn[0] == 'new' and R.alive: ex.oblige(st, False, label)
def out_is(ex, st, base, n, srcs, label):
    """size symbol, then the elements in order -> end"""
    out = st.ghost['out']; k = len(srcs)
    ex.oblige(st, simp(read(out, B_int(base)) == size_sym(n)), f"post:{label}size comes first")
    for q, S in enumerate(srcs): forall(ex, st, 0, n, lambda j: z3.Select(out, base + 1 + k * j + q) == z3.Select(S, j), f"post:{label}elements in iteration order")
    return simp(B_int(base) + 1 + k * n)
# ---- encoding of sequences
def put_seq(fn, pairs=False):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st); n = count(st)
        A = elems(ex, st, "A", n); Bq = elems(ex, st, "B", n); src = [A, Bq] if pairs else [A]
        p = ex.new_arr(st, 16 if pairs else 8, n, {0: (8, A), 8: (8, Bq)} if pairs else {0: (8, A)}, "elements"); hints(ex, SRC=src, per=len(src))
        for st2, o in ex.run(st, fn, [p, n]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            end = out_is(ex, st2, g.n0, n, src, ""); ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == end), "post:nothing else is written"); g.post_prefix(ex, st2); cover(ex, st2, "encoded")
        used(ex, PUT)
    return t
def put_vec(fn, two=False):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st); p, n, A = vector(ex, st, "V"); args = [p]; vs = [(n, A[0])]
        if two: q, m, C = vector(ex, st, "W"); args.append(q); vs.append((m, C[0]))
        hints(ex, SRC=[A[0]])
        if two: hints(ex, SRC=[C[0]])
        for st2, o in ex.run(st, fn, args):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            e = g.n0
            for k, (n_, S) in enumerate(vs): e = out_is(ex, st2, e, n_, [S], f"value {k + 1}: ")
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == e), "post:nothing else is written"); g.post_prefix(ex, st2); cover(ex, st2, "encoded")
        used(ex, PUT)
    return t
def put_bytes(fn, view):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st)
        if view: n = count(st); p, A = buffer(ex, st, n); args = [p, n]
        else: p, n, A = string(ex, st); args = [p]
        hints(ex, SRC=[A])
        for st2, o in ex.run(st, fn, args):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            end = out_is(ex, st2, g.n0, n, [A], "bytes: "); ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == end), "post:nothing else is written"); g.post_prefix(ex, st2); cover(ex, st2, "encoded")
        used(ex, PUT)
    return t
F4 = {0: 1, 1: 1, 2: 1, 3: 1}
def order(o): return [0, 1, 2, 3] if o == 'le' else [3, 2, 1, 0]
def put_u32s(o_):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st); p, n, A = vector(ex, st, "V", 4, F4); src = [A[b] for b in order(o_)]; hints(ex, SRC=src, per=4, w=4)
        for st2, o in ex.run(st, f"d_put_u32s_{o_}", [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            end = out_is(ex, st2, g.n0, n, src, "scalars: "); ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == end), "post:nothing else is written"); g.post_prefix(ex, st2); cover(ex, st2, "encoded")
        used(ex, PUT)
    return t
# ---- decoding of sequences
def rejected(ex, st2, o, g, what, min_pos=None):
    """a decoder that throws: end of file at the end, or mismatch raised by an element or number, or an allocation refused"""
    p = B_int(st2.ghost['in.pos'])
    if o.tinfo == EOF: ex.oblige(st2, simp(p == g.N), "post:eof only at the end"); cover(ex, st2, "eof")
    elif o.tinfo == MISMATCH: ex.oblige(st2, z3.And(p >= 1, p <= g.N), "post:rejection inside the input"); cover(ex, st2, "mismatch")
    elif o.tinfo == "_ZTISt12length_error": cover(ex, st2, "refused allocation")
    else: ex.oblige(st2, False, f"unexpected exception {o.tinfo}")
def in_seq(fn, pairs=False):
    def t(ex):
        st = State(); layers(ex, st); g = inp(ex, st); seq_ghost(ex, st); hints(ex, IN=g.arr, per=2 if pairs else 1); IN = g.arr
        for st2, o in ex.run(st, fn, []):
            leaks(ex, st2)
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); continue
            n = B_int(st2.ghost['seq.len']); k = 2 if pairs else 1
            ex.oblige(st2, z3.Select(IN, 0) == size_sym(n), "post:as many elements as announced, earlier content gone"); ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == 1 + k * n), "post:exactly its symbols are consumed")
            forall(ex, st2, 0, n, lambda j: z3.Select(st2.ghost['seq.a'], j) == z3.Select(IN, 1 + k * j), "post:elements in order")
            if pairs: forall(ex, st2, 0, n, lambda j: z3.Select(st2.ghost['seq.b'], j) == z3.Select(IN, 2 + k * j), "post:mapped values in order")
            cover(ex, st2, "decoded")
        used(ex, GET)
    return t
def get_vec(fn, two=False):
    def t(ex):
        st = State(); layers(ex, st); g = inp(ex, st); p, n0, A0 = vector(ex, st, "V"); args = [p]; IN = g.arr; hints(ex, IN=IN)
        if two: q, m0, C0 = vector(ex, st, "W"); args.append(q)
        for st2, o in ex.run(st, fn, args):
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); continue
            e = z3.IntVal(0)
            for k, v in enumerate(args):
                n, A = vec_view(ex, st2, v); ex.oblige(st2, z3.Select(IN, e) == size_sym(n), f"post:value {k + 1}: as many elements as announced")
                forall(ex, st2, 0, n, lambda j: z3.Select(A[0], j) == z3.Select(IN, e + 1 + j), f"post:value {k + 1}: elements in order"); e = e + 1 + B_int(n)
            ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == e), "post:exactly their symbols are consumed"); cover(ex, st2, "decoded")
        used(ex, GET)
    return t
def get_str(fn):
    def t(ex):
        st = State(); layers(ex, st); g = inp(ex, st); p, n0, A0 = string(ex, st); IN = g.arr; hints(ex, IN=IN)
        for st2, o in ex.run(st, fn, [p]):
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); continue
            R = str_reg(ex, st2, p); n, A = R.size, R.fields[0][1]
            ex.oblige(st2, z3.Select(IN, 0) == size_sym(n), "post:as many bytes as announced"); ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == 1 + B_int(n)), "post:exactly its bytes are consumed")
            forall(ex, st2, 0, n, lambda j: z3.Select(A, j) == z3.Select(IN, 1 + j), "post:bytes in order"); cover(ex, st2, "decoded")
        used(ex, GET)
    return t
def get_u32s(o_):
    def t(ex):
        st = State(); layers(ex, st); g = inp(ex, st); p, n0, A0 = vector(ex, st, "V", 4, F4); IN = g.arr; hints(ex, IN=IN, per=4, w=4); rev_hints(ex)
        for st2, o in ex.run(st, f"d_get_u32s_{o_}", [p]):
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); continue
            n, A = vec_view(ex, st2, p); ex.oblige(st2, z3.Select(IN, 0) == size_sym(n), "post:as many scalars as announced"); ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == 1 + 4 * B_int(n)), "post:exactly their bytes are consumed")
            for q, b in enumerate(order(o_)): forall(ex, st2, 0, n, lambda j: z3.Select(A[b], j) == z3.Select(IN, 1 + 4 * j + q), f"post:byte {q} of every scalar")
            cover(ex, st2, "decoded")
        used(ex, GET)
    return t
def rev_hints(ex):
    """byte reversal in place: elements below the position are reversed, the others untouched"""
    def get(vw, k): return next(x for x in vw.vars if x.key == k)
    def cands(vw):
        out = []; arrs = [a.key for a in vw.arrays() if a.key[0] == 'arr']
        for ka in arrs:
            for kb in arrs:
                if ka[1] != kb[1] or ka[2] + kb[2] != 3: continue
                def done(vw, ka=ka, kb=kb):
                    j = z3.Int(f"j!{fresh_id()}"); a, b = get(vw, ka), get(vw, kb)
                    return FA([j], z3.Select(a.cur, j) == z3.If(z3.And(j >= 0, j < vw.n), z3.Select(b.init, j), z3.Select(a.init, j)), z3.Select(a.cur, j))
                out.append((f"{ka} reversed below n", done))
        return out
    ex.loop_cands.append(cands)
# ---- fixed shapes
def put_fixed(fn, k, arr=False):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st); ids = [z3.Int(f"id{i}") for i in range(k)]
        for v in ids: st.assume(elem_ok(v))
        p = ex.new_cells(st, 8 * k, "ids")
        for i, v in enumerate(ids): ex.store_raw(st, Ptr(p.r, 8 * i), 8, v)
        for st2, o in ex.run(st, fn, [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == g.n0 + k), "post:exactly one symbol per element and nothing of its own")
            for i, v in enumerate(ids): ex.oblige(st2, simp(read(st2.ghost['out'], g.n0 + i) == v), f"post:element {i} in declaration order")
            g.post_prefix(ex, st2); cover(ex, st2, "encoded")
    return t
def get_fixed(fn, k):
    def t(ex):
        st = State(); layers(ex, st); g = inp(ex, st); p = ex.new_cells(st, 8 * k, "ids")
        for i in range(k): ex.store_raw(st, Ptr(p.r, 8 * i), 8, z3.Int(f"old{i}"))
        for st2, o in ex.run(st, fn, [p]):
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) <= k), "post:within its symbols"); continue
            ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == k), "post:exactly its symbols are consumed")
            for i in range(k): ex.oblige(st2, simp(B_int(ex.load_raw(st2, Ptr(p.r, 8 * i), 8)) == z3.Select(g.arr, i)), f"post:element {i} in declaration order")
            cover(ex, st2, "decoded")
    return t
def maybe(kind, o_):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st); has = z3.Bool("has"); v = z3.Int("id"); st.assume(elem_ok(v))
        for st2, o in ex.run(st, f"d_put_{kind}_{o_}", [has, v]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            leaks(ex, st2)
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == g.n0 + z3.If(has, 2, 1)), "post:flag and, if present, the element"); out = st2.ghost['out']
            ex.oblige(st2, simp(read(out, g.n0) == z3.If(has, 1, 0)), "post:flag 0 or 1"); ex.oblige(st2, simp(z3.Implies(has, read(out, g.n0 + 1) == v)), "post:then the element"); g.post_prefix(ex, st2); cover(ex, st2, "encoded")
        st = State(); g = inp(ex, st); had = z3.Bool("had"); old = z3.Int("oldid"); st.assume(elem_ok(old)); p = ex.new_cells(st, 8, "id"); ex.store_raw(st, p, 8, 0); b = z3.Select(g.arr, 0)
        for st2, o in ex.run(st, f"d_get_{kind}_{o_}", [had, old, p]):
            leaks(ex, st2)
            if isinstance(o, Throw):
                rejected(ex, st2, o, g, ""); continue
            r = ex.asbool(o.v)
            ex.oblige(st2, z3.And(z3.Or(b == 0, b == 1), B(r) == (b == 1)), "post:present exactly if the flag is 1"); ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == z3.If(b == 1, 2, 1)), "post:exactly its symbols are consumed")
            ex.oblige(st2, z3.Implies(b == 1, B_int(ex.load_raw(st2, p, 8)) == z3.Select(g.arr, 1)), "post:the element"); cover(ex, st2, "decoded")
    return t
# ---- round trips and successive values, through both functions
def same_input(ex, st2, n_out):
    """a fresh input holding exactly what was written"""
    OUT = st2.ghost['out']; g = inp(ex, st2, N=n_out); j = z3.Int(f"j!{fresh_id()}")
    st2.assume(FA([j], z3.Implies(z3.And(j >= 0, j < n_out), z3.Select(g.arr, j) == z3.Select(OUT, j)), z3.Select(g.arr, j))); return g
def rt_vec(o_):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st, start=0); p, n, A = vector(ex, st, "V", n=count(st, "V.n", 1 << 50)); hints(ex, SRC=[A[0]])
        for st2, o in ex.run(st, f"d_put_vec_{o_}", [p]):
            if isinstance(o, Throw): continue
            gi = same_input(ex, st2, st2.ghost['out.len']); q, _, _ = vector(ex, st2, "T"); ex.loop_cands.clear(); hints(ex, IN=gi.arr)
            out_is(ex, st2, 0, n, [A[0]], "")
            j = z3.Int(f"j!{fresh_id()}"); st2.assume(FA([j], z3.Implies(z3.And(j >= 1, j <= n), z3.Select(gi.arr, j) == z3.Select(A[0], j - 1)), z3.Select(gi.arr, j)))
            for st3, o3 in ex.run(st2, f"d_get_vec_{o_}", [q]):
                if isinstance(o3, Throw): ex.oblige(st3, False, f"post:own encoding is accepted ({o3.tinfo})"); continue
                m, C = vec_view(ex, st3, q); ex.oblige(st3, simp(B_int(m) == n), "post:same size"); forall(ex, st3, 0, n, lambda j: z3.Select(C[0], j) == z3.Select(A[0], j), "post:same elements")
                ex.oblige(st3, simp(B_int(st3.ghost['in.pos']) == gi.N), "post:everything is consumed"); cover(ex, st3, "round trip")
    return t
# ---- protected stream protocol
def ps_send(o_, two=False):
    def t(ex):
        st = State(); layers(ex, st); g = GOut(ex, st); a, Na, Aa = string(ex, st, "PA"); args = [a]; vs = [(Na, Aa)]
        if two: b, Nb, Ab = string(ex, st, "PB"); args.append(b); vs.append((Nb, Ab))
        for st2, o in ex.run(st, f"d_ps_send{'2' if two else ''}_{o_}", args):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            e = g.n0
            for k, (n, S) in enumerate(vs): e = out_is(ex, st2, e, n, [S], f"packet {k + 1}: ")
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == e), "post:nothing else is written"); ex.oblige(st2, simp(B_int(st2.ghost['out.flushed']) == e), "post:flushed at the end"); g.post_prefix(ex, st2); cover(ex, st2, "sent")
        used(ex, PUT)
    return t
def ps_receive(o_, two=False):
    def t(ex):
        st = State(); layers(ex, st); p0 = z3.Int("pos0"); g = inp(ex, st, pos=p0); st.assume(z3.And(p0 >= 0, p0 <= g.N)); IN = g.arr; args = [string(ex, st, f"R{k}")[0] for k in range(2 if two else 1)]
        for st2, o in ex.run(st, f"d_ps_receive{'2' if two else ''}_{o_}", args):
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); continue
            e = p0
            for k, r in enumerate(args):
                R = str_reg(ex, st2, r); n, A = R.size, R.fields[0][1]; ex.oblige(st2, z3.Select(IN, e) == size_sym(n), f"post:packet {k + 1}: size"); forall(ex, st2, 0, n, lambda j: z3.Select(A, j) == z3.Select(IN, e + 1 + j), f"post:packet {k + 1}: bytes"); e = e + 1 + B_int(n)
            ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == e), "post:exactly the packets are consumed"); cover(ex, st2, "received")
        used(ex, GET)
    return t
TASKS = []
for o_ in ('le', 'be'):
    TASKS += [Task(f"compose.put_seq_{o_}", put_seq(f"d_put_seq_{o_}")), Task(f"compose.put_map_{o_}", put_seq(f"d_put_map_{o_}", True)), Task(f"compose.put_vec_{o_}", put_vec(f"d_put_vec_{o_}")), Task(f"compose.put_two_{o_}", put_vec(f"d_put_vec2_{o_}", True)),
              Task(f"compose.put_str_{o_}", put_bytes(f"d_put_str_{o_}", False)), Task(f"compose.put_view_{o_}", put_bytes(f"d_put_view_{o_}", True)), Task(f"compose.put_scalars_{o_}", put_u32s(o_)),
              Task(f"compose.get_seq_{o_}", in_seq(f"d_get_seq_{o_}")), Task(f"compose.get_seqr_{o_}", in_seq(f"d_get_seqr_{o_}")), Task(f"compose.get_set_{o_}", in_seq(f"d_get_set_{o_}")), Task(f"compose.get_map_{o_}", in_seq(f"d_get_map_{o_}", True)),
              Task(f"compose.get_vec_{o_}", get_vec(f"d_get_vec_{o_}")), Task(f"compose.get_two_{o_}", get_vec(f"d_get_vec2_{o_}", True)), Task(f"compose.get_str_{o_}", get_str(f"d_get_str_{o_}")), Task(f"compose.get_scalars_{o_}", get_u32s(o_)),
              Task(f"compose.rt_vec_{o_}", rt_vec(o_))]
    for nm, k in (("arr", 3), ("tup", 3), ("pair", 2), ("agg", 3), ("rec", 6)):
        TASKS += [Task(f"compose.put_{nm}_{o_}", put_fixed(f"d_put_{nm}_{o_}", k)), Task(f"compose.get_{nm}_{o_}", get_fixed(f"d_get_{nm}_{o_}", k))]
    TASKS += [Task(f"compose.optional_{o_}", maybe("opt", o_)), Task(f"compose.unique_ptr_{o_}", maybe("uptr", o_))]
    TASKS += [Task(f"pstream.send_{o_}", ps_send(o_)), Task(f"pstream.send_two_{o_}", ps_send(o_, True)), Task(f"pstream.receive_{o_}", ps_receive(o_)), Task(f"pstream.receive_two_{o_}", ps_receive(o_, True))]
