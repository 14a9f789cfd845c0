"""Structure verification in the stream (S06): the type's hash comes first; a reader accepts its own type's hash only, and
otherwise changes nothing.  The hash of each type is whatever the library computes for it (hash.* says what that depends on)."""
DRIVER = "verify.cpp"
import z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L
from lib import str_reg
from ghost import *
from tasks.compose import layers, inp, hints, vector, vec_view, elem_ok, size_sym, seq_ghost, rejected, out_is
def hash_bytes(ex, o_, T):
    r = ex.run(State(), f"d_hash_{T}", []); v = r[0][1].v
    if len(r) != 1 or not isinstance(v, int): raise Unsupported("the structure hash is not a constant")
    return list((v & (2**32 - 1)).to_bytes(4, "little" if o_ == "le" else "big"))
def loadi(ex, st, p, off, n): return B_int(ex.asint(ex.load_raw(st, Ptr(p.r, off), n), 8 * n))
class Cells:
    """k abstract elements; perm: position in memory of the i-th in the stream"""
    def __init__(s, k, perm=None): s.k = k; s.perm = perm or list(range(k))
    def make(s, ex, st, nm):
        p = ex.new_cells(st, 8 * s.k, nm); s.v = [z3.Int(f"{nm}{i}") for i in range(s.k)]
        for i, v in enumerate(s.v): st.assume(elem_ok(v)); ex.store_raw(st, Ptr(p.r, 8 * i), 8, v)
        return p
    def hints(s, ex, IN=None): pass
    def put(s, ex, st, base):
        for i in range(s.k): ex.oblige(st, simp(read(st.ghost['out'], base + i) == s.v[s.perm[i]]), f"post:element {i} follows the hash")
        return base + s.k
    def got(s, ex, st, p, base, IN):
        for i in range(s.k): ex.oblige(st, simp(loadi(ex, st, p, 8 * s.perm[i], 8) == read(IN, base + i)), f"post:element {i} decoded")
        return base + s.k
    def same(s, ex, st, p):
        for i in range(s.k): ex.oblige(st, simp(loadi(ex, st, p, 8 * i, 8) == s.v[i]), f"post:target unchanged ({i})")
class Scalar:
    def __init__(s, n, o_): s.n = n; s.o = o_
    def make(s, ex, st, nm):
        p = ex.new_cells(st, s.n, nm); s.b = [z3.Int(f"{nm}.{i}") for i in range(s.n)]
        for i, v in enumerate(s.b): st.assume(z3.And(v >= 0, v <= 255)); ex.store_raw(st, Ptr(p.r, i), 1, v)
        return p
    def hints(s, ex, IN=None): pass
    def at(s, base, i): return base + (i if s.o == 'le' else s.n - 1 - i)
    def put(s, ex, st, base):
        for i in range(s.n): ex.oblige(st, simp(read(st.ghost['out'], s.at(base, i)) == s.b[i]), f"post:byte {i} of the scalar follows the hash")
        return base + s.n
    def got(s, ex, st, p, base, IN):
        for i in range(s.n): ex.oblige(st, simp(loadi(ex, st, p, i, 1) == read(IN, s.at(base, i))), f"post:byte {i} of the scalar decoded")
        return base + s.n
    def same(s, ex, st, p):
        for i in range(s.n): ex.oblige(st, simp(loadi(ex, st, p, i, 1) == s.b[i]), f"post:target unchanged ({i})")
class Flag(Scalar):
    def __init__(s): s.n = 1; s.o = 'le'
    def make(s, ex, st, nm): p = Scalar.make(s, ex, st, nm); st.assume(s.b[0] <= 1); return p
class Opt:
    def make(s, ex, st, nm):
        p = ex.new_cells(st, 16, nm); s.has = z3.Bool(nm + ".has"); s.v = z3.Int(nm); st.assume(elem_ok(s.v)); ex.store_raw(st, p, 8, s.v); ex.store_raw(st, Ptr(p.r, 8), 1, z3.If(s.has, z3.IntVal(1), z3.IntVal(0))); return p
    def hints(s, ex, IN=None): pass
    def put(s, ex, st, base):
        o = st.ghost['out']; ex.oblige(st, simp(read(o, base) == z3.If(s.has, 1, 0)), "post:flag follows the hash"); ex.oblige(st, simp(z3.Implies(s.has, read(o, base + 1) == s.v)), "post:then the element"); return base + z3.If(s.has, 2, 1)
    def got(s, ex, st, p, base, IN):
        f = read(IN, base); ex.oblige(st, simp(loadi(ex, st, p, 8, 1) == f), "post:flag decoded"); ex.oblige(st, simp(z3.Implies(f == 1, loadi(ex, st, p, 0, 8) == read(IN, base + 1))), "post:element decoded"); return base + z3.If(f == 1, 2, 1)
    def same(s, ex, st, p): ex.oblige(st, simp(z3.And(loadi(ex, st, p, 8, 1) == z3.If(s.has, 1, 0), z3.Implies(s.has, loadi(ex, st, p, 0, 8) == s.v))), "post:target unchanged")
class Vec:
    def make(s, ex, st, nm): p, s.n, A = vector(ex, st, nm, n=z3.Int(nm + ".n")); st.assume(z3.And(s.n >= 0, s.n < 1 << 58)); s.A = A[0]; return p
    def hints(s, ex, IN=None): hints(ex, IN=IN, SRC=() if IN is not None else [s.A])
    def put(s, ex, st, base): return out_is(ex, st, base, s.n, [s.A], "after the hash: ")
    def got(s, ex, st, p, base, IN):
        n, A = vec_view(ex, st, p); ex.oblige(st, read(IN, base) == size_sym(n), "post:size decoded"); forall(ex, st, 0, n, lambda j: z3.Select(A[0], j) == z3.Select(IN, base + 1 + j), "post:elements decoded"); return base + 1 + B_int(n)
    def same(s, ex, st, p):
        n, A = vec_view(ex, st, p); j = z3.Int(f"j!{fresh_id()}"); ex.oblige(st, simp(B_int(n) == s.n), "post:target unchanged (size)"); ex.oblige(st, z3.Implies(z3.And(j >= 0, j < s.n), z3.Select(A[0], j) == z3.Select(s.A, j)), "post:target unchanged (elements)")
class Str(Vec):
    def make(s, ex, st, nm): p, s.n, s.A = string(ex, st, nm); return p
    def got(s, ex, st, p, base, IN):
        R = str_reg(ex, st, p); n, A = R.size, R.fields[0][1]; ex.oblige(st, read(IN, base) == size_sym(n), "post:size decoded"); forall(ex, st, 0, n, lambda j: z3.Select(A, j) == z3.Select(IN, base + 1 + j), "post:bytes decoded"); return base + 1 + B_int(n)
    def same(s, ex, st, p):
        R = str_reg(ex, st, p); j = z3.Int(f"j!{fresh_id()}"); ex.oblige(st, simp(B_int(R.size) == s.n), "post:target unchanged (size)"); ex.oblige(st, z3.Implies(z3.And(j >= 0, j < s.n), z3.Select(R.fields[0][1], j) == z3.Select(s.A, j)), "post:target unchanged (bytes)")
SHAPES = dict(elem=lambda o: Cells(1), tup=lambda o: Cells(3, [2, 1, 0]), agg=lambda o: Cells(3), leaf=lambda o: Cells(6), arr=lambda o: Cells(3), opt=lambda o: Opt(), vec=lambda o: Vec(), str=lambda o: Str(), u32=lambda o: Scalar(4, o), i64=lambda o: Scalar(8, o), bool=lambda o: Flag())
def put(T, o_):
    def t(ex):
        hb = hash_bytes(ex, o_, T); st = State(); layers(ex, st); g = GOut(ex, st); s = SHAPES[T](o_); p = s.make(ex, st, "v"); s.hints(ex)
        for st2, o in ex.run(st, f"d_vput_{T}_{o_}", [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            for k in range(4): ex.oblige(st2, simp(read(st2.ghost['out'], g.n0 + k) == hb[k]), f"post:hash byte {k} comes first")
            end = s.put(ex, st2, g.n0 + 4); ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == end), "post:nothing else is written"); g.post_prefix(ex, st2); cover(ex, st2, "written")
    return t
def is_hash(ex, st, IN, base, hb): return z3.And(*[read(IN, base + k) == hb[k] for k in range(4)])
def bytes_first(st, IN, base):
    for k in range(4): st.assume(z3.And(z3.Select(IN, base + k) >= 0, z3.Select(IN, base + k) <= 255))
def get(T, o_):
    def t(ex):
        hb = hash_bytes(ex, o_, T); st = State(); layers(ex, st); p0 = z3.Int("pos0"); g = inp(ex, st, pos=p0); st.assume(z3.And(p0 >= 0, p0 <= g.N)); IN = g.arr; bytes_first(st, IN, p0)
        s = SHAPES[T](o_); p = s.make(ex, st, "old"); s.hints(ex, IN)
        if isinstance(s, Scalar):
            for k in range(s.n): st.assume(z3.And(z3.Select(IN, p0 + 4 + k) >= 0, z3.Select(IN, p0 + 4 + k) <= 255))
        H = is_hash(ex, st, IN, p0, hb)
        for st2, o in ex.run(st, f"d_vget_{T}_{o_}", [p]):
            pos = B_int(st2.ghost['in.pos'])
            if isinstance(o, Throw):
                if o.tinfo == MISMATCH and ex.pr.prove(st2.pc, simp(pos == p0 + 4))[0] == 'proved':
                    ex.oblige(st2, simp(Not(H)), "post:a stored hash equal to the reader's is not refused"); s.same(ex, st2, p); cover(ex, st2, "refused")
                else:
                    early = simp(pos < p0 + 4)
                    ex.oblige(st2, B(simp(z3.Or(z3.And(early, o.tinfo == EOF, pos == g.N), z3.And(Not(early), H)))), "post:nothing is read after a hash that is not the reader's")
                    if ex.pr.feasible(st2.pc + [B(early)], True): s3 = st2.clone(); s3.assume(B(early)); s.same(ex, s3, p)
                    rejected(ex, st2, o, g, "")
                continue
            ex.oblige(st2, H, "post:only the reader's own hash is accepted")
            end = s.got(ex, st2, p, p0 + 4, IN); ex.oblige(st2, simp(pos == end), "post:exactly hash and value are consumed"); cover(ex, st2, "accepted")
    return t
def get_seq(kind, o_):
    """containers by contract: not even cleared before the hash is checked"""
    def t(ex):
        hb = hash_bytes(ex, o_, "in_" + kind); st = State(); layers(ex, st); g = inp(ex, st); seq_ghost(ex, st); IN = g.arr; bytes_first(st, IN, 0); n = 2 if kind == "map" else 1; hints(ex, IN=IN, per=n)
        A0, B0, n0 = st.ghost['seq.a'], st.ghost['seq.b'], st.ghost['seq.len']; H = is_hash(ex, st, IN, 0, hb)
        for st2, o in ex.run(st, f"d_vget_{kind}_{o_}", []):
            pos = B_int(st2.ghost['in.pos'])
            if isinstance(o, Throw) and ex.pr.prove(st2.pc, simp(pos <= 4))[0] == 'proved':
                ex.oblige(st2, z3.And(o.tinfo == MISMATCH, Not(H)) if o.tinfo == MISMATCH else z3.And(o.tinfo == EOF, pos == g.N), "post:refused for its hash, or cut short")
                ex.oblige(st2, st2.ghost['seq.a'].eq(A0) and st2.ghost['seq.b'].eq(B0) and (st2.ghost['seq.len'] is n0 or B_int(st2.ghost['seq.len']).eq(n0)), "post:container untouched"); cover(ex, st2, "refused"); continue
            ex.oblige(st2, H, "post:nothing is read after a hash that is not the reader's")
            if isinstance(o, Throw): rejected(ex, st2, o, g, ""); continue
            m = B_int(st2.ghost['seq.len']); ex.oblige(st2, z3.Select(IN, 4) == size_sym(m), "post:as many elements as announced"); ex.oblige(st2, simp(pos == 5 + n * m), "post:exactly its symbols are consumed"); cover(ex, st2, "accepted")
    return t
def twice(o_):
    """tags and values in succession: every tag has its hash"""
    def t(ex):
        hb = hash_bytes(ex, o_, "elem"); st = State(); layers(ex, st); g = GOut(ex, st); v = z3.Int("v"); st.assume(elem_ok(v)); p = ex.new_cells(st, 8, "v"); ex.store_raw(st, p, 8, v)
        for st2, o in ex.run(st, f"d_vput2_{o_}", [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            for k, x in enumerate(hb + hb + [v] + hb + [v]): ex.oblige(st2, simp(read(st2.ghost['out'], g.n0 + k) == x), f"post:symbol {k}")
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == g.n0 + 14), "post:nothing else is written"); cover(ex, st2, "written")
        st = State(); g = inp(ex, st); IN = g.arr
        for b in (0, 4, 9): bytes_first(st, IN, b)
        ps = [ex.new_cells(st, 8, f"t{k}") for k in range(2)]
        for k, q in enumerate(ps): ex.store_raw(st, q, 8, z3.Int(f"old{k}"))
        for st2, o in ex.run(st, f"d_vget2_{o_}", ps):
            pos = B_int(st2.ghost['in.pos'])
            for b, n in ((0, 4), (4, 8), (9, 13)): ex.oblige(st2, z3.Implies(pos > n, is_hash(ex, st2, IN, b, hb)), f"post:nothing is read past hash {b} unless it is the reader's")
            ex.oblige(st2, simp(z3.Implies(pos <= 8, loadi(ex, st2, ps[0], 0, 8) == z3.Int("old0"))), "post:first target unchanged until both its hashes are accepted")
            ex.oblige(st2, simp(z3.Implies(pos <= 13, loadi(ex, st2, ps[1], 0, 8) == z3.Int("old1"))), "post:second target unchanged until its hash is accepted")
            if not isinstance(o, Throw):
                ex.oblige(st2, simp(pos == 14), "post:all consumed"); ex.oblige(st2, simp(loadi(ex, st2, ps[0], 0, 8) == read(IN, 8)), "post:first"); ex.oblige(st2, simp(loadi(ex, st2, ps[1], 0, 8) == read(IN, 13)), "post:second"); cover(ex, st2, "read")
    return t
TASKS = []
for o_ in ("le", "be"):
    for T in SHAPES: TASKS += [Task(f"verify.put_{T}_{o_}", put(T, o_)), Task(f"verify.get_{T}_{o_}", get(T, o_))]
    TASKS += [Task(f"verify.get_map_{o_}", get_seq("map", o_)), Task(f"verify.get_seq_{o_}", get_seq("seq", o_)), Task(f"verify.twice_{o_}", twice(o_))]
