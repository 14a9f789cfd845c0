"""COBS codec: S07"""
DRIVER="packet.cpp"
import z3
from core import *
from exec import B_int
from lib import *
from task import Task, find_fn, cover

I = z3.IntSort()
DM = "_ZTIN4arpc6errors13data_mismatchE"

class Spec:
    """the COBS block structure of a byte string IN[0..N) (with a virtual 0 at N)"""
    def __init__(s, ex, st, inarr, N):
        u = fresh_id()
        s.N = N; s.K = z3.Int(f"K!{u}")
        s.P = z3.Function(f"P!{u}", I, I); s.R = z3.Function(f"R!{u}", I, I); s.F = z3.Function(f"F!{u}", I, I)
        s.IN = inarr            # total array; only [0,N) is data
        s.OUT = z3.Array(f"OUT!{u}", I, I)
        P, R, F, K, IN, OUT = s.P, s.R, s.F, s.K, s.IN, s.OUT
        # IN[N] is the virtual terminator (beyond the data, so its value may be fixed without loss)
        INz = lambda j: z3.Select(IN, j)
        s.INz = INz
        k, i, j = z3.Ints(f"k!{u} i!{u} j!{u}")
        ax = []
        A = ax.append
        A(z3.And(P(0) == 0, F(0) == 0, K >= 1, P(K) == N + 1, z3.Select(IN, N) == 0, R(0) >= 0))
        A(z3.ForAll([k], z3.And(R(k) >= 0, R(k) <= 254), patterns=[R(k)]))
        # definition of one block
        A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(
            P(k) >= 0, P(k) + R(k) <= N,
            z3.Implies(R(k) < 254, INz(P(k) + R(k)) == 0),
            P(k + 1) == P(k) + R(k) + z3.If(R(k) < 254, 1, 0),
            F(k + 1) == F(k) + R(k) + 1)), patterns=[R(k)]))
        A(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < K, j >= P(k), j < P(k) + R(k)), z3.Select(IN, j) != 0),
                    patterns=[z3.MultiPattern(R(k), z3.Select(IN, j))]))
        # lemmas, proved by induction over the definition in task cobs.lemmas
        s.base = list(ax)
        A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= K), z3.And(P(k) >= 0, F(k) >= k, F(k) >= P(k) - 1, P(k) <= N + 1, F(k) <= F(K),
                                                                  F(k) - P(k) <= F(K) - P(K), 254 * (F(k) - P(k)) <= N)), patterns=[P(k), F(k)]))
        A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(P(k) <= N, F(k) < F(K), P(k)+R(k) <= N)), patterns=[P(k), F(k)]))
        # definition of the output
        G = s.G = z3.Function(f"G!{u}", I, I)   # the block an output position belongs to (lemmas: total, unique)
        A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < F(K)), z3.And(G(j) >= 0, G(j) < K, F(G(j)) <= j, j <= F(G(j)) + R(G(j)),
            z3.Select(OUT, j) == z3.If(j == F(G(j)), R(G(j)) + 1, z3.Select(IN, P(G(j)) + j - F(G(j)) - 1)))), patterns=[z3.Select(OUT, j)]))
        A(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < K, j >= F(k), j <= F(k) + R(k)), G(j) == k), patterns=[z3.MultiPattern(R(k), G(j))]))
        s.ax = ax
    def assume(s, st):
        for a in s.ax: st.assume(a)

def encode(ex):
    st = State()
    fn = find_fn(ex.m, r"^arpc::cobs_codec::encode\(")
    N = z3.Int("N"); st.assume(z3.And(N >= 0, N < (1 << 40)))
    A0 = z3.Array("IN", I, I)
    sp = Spec(ex, st, A0, N); sp.assume(st)
    this = ex.new_cells(st, 8, "codec")
    d = ex.new_cells(st, 32, "data string")
    buf = str_make(ex, st, d, N, A0)
    j = z3.Int("j!b"); st.assume(FA([j], z3.And(z3.Select(A0, j) >= 0, z3.Select(A0, j) <= 255), z3.Select(A0, j)))
    cover(ex, st, "any input string")
    ex.no_frames = True
    ex.vec_layouts = [(r"^std::vector<unsigned long", 8, {0: 8})]
    ex.loop_cands.append(lambda vw: cands(vw, sp))
    outs = ex.run(st, fn, [this, d])
    for st2, o in outs:
        if isinstance(o, Throw):
            ex.oblige(st2, False, f"encode-never-throws({o.tinfo})"); continue
        R = str_reg(ex, st2, d)
        cover(ex, st2, "normal return")
        ex.oblige(st2, B_int(R.size) == sp.F(sp.K), "post:length == N+1+full runs")
        j = z3.Int(f"j!{fresh_id()}")
        ex.oblige(st2, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sp.F(sp.K)), z3.Select(R.fields[0][1], j) == z3.Select(sp.OUT, j))), "post:output == spec")

class DSpec:
    """the block structure of an arbitrary frame D[0..M): blocks 0..K-1 are complete, and then the frame ends (ok) or
    holds a zero or unfinished block"""
    def __init__(s, D, M):
        u = fresh_id()
        s.D = D; s.M = M; s.K = z3.Int(f"K!{u}"); s.ok = z3.Bool(f"ok!{u}")
        Q = s.Q = z3.Function(f"Q!{u}", I, I); V = s.V = z3.Function(f"V!{u}", I, I); C = s.C = z3.Function(f"C!{u}", I, I)
        G = s.G = z3.Function(f"G!{u}", I, I); s.RES = z3.Array(f"RES!{u}", I, I)
        K = s.K; ok = s.ok; RES = s.RES
        k, j = z3.Ints(f"k!{u} j!{u}")
        ax = []; A = ax.append
        A(z3.And(Q(0) == 0, V(0) == 0, K >= 0, Q(K) <= M, C(0) == C(0)))
        A(z3.ForAll([k], z3.And(C(k) == z3.Select(D, Q(k)), C(k) >= 0, C(k) <= 255), patterns=[C(k)]))
        A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(C(k) >= 1, Q(k) + C(k) <= M, Q(k + 1) == Q(k) + C(k),
            V(k + 1) == V(k) + C(k) - z3.If(C(k) < 255, 0, 1))), patterns=[C(k)]))
        A(ok == (Q(K) == M))
        A(z3.Implies(z3.Not(ok), z3.Or(C(K) == 0, Q(K) + C(K) > M)))
        s.base = list(ax)
        A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= K), z3.And(Q(k) >= k, V(k) >= 0, V(k) <= Q(k), Q(k) <= Q(K), V(k) <= V(K))), patterns=[Q(k), V(k)]))
        A(z3.ForAll([k], z3.Implies(z3.And(k > 0, k <= K), V(k) >= 1), patterns=[V(k)]))
        # the result: position j belongs to block G(j)
        val = lambda k, j: z3.If(j < V(k) + C(k) - 1, z3.Select(D, Q(k) + 1 + j - V(k)), 0)
        A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < V(K)), z3.And(G(j) >= 0, G(j) < K, V(G(j)) <= j, j < V(G(j) + 1), C(G(j)) >= 1,
            z3.Select(RES, j) == val(G(j), j))), patterns=[z3.Select(RES, j)]))
        A(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < K, j >= V(k), j < V(k) + C(k) - z3.If(C(k) < 255, 0, 1)), G(j) == k), patterns=[z3.MultiPattern(C(k), G(j))]))
        s.ax = ax
    def assume(s, st):
        for a in s.ax: st.assume(a)

def decode(ex):
    st = State()
    fn = find_fn(ex.m, r"^arpc::cobs_codec::decode\(")
    M = z3.Int("M"); st.assume(z3.And(M >= 0, M < (1 << 40)))
    D = z3.Array("D", I, I)
    j = z3.Int("j!b"); st.assume(FA([j], z3.And(z3.Select(D, j) >= 0, z3.Select(D, j) <= 255), z3.Select(D, j)))
    sp = DSpec(D, M); sp.assume(st)
    this = ex.new_cells(st, 8, "codec"); d = ex.new_cells(st, 32, "data string")
    str_make(ex, st, d, M, D)
    cover(ex, st, "any frame")
    ex.no_frames = True
    ex.loop_cands.append(lambda vw: dcands(vw, sp))
    seen = set()
    for st2, o in ex.run(st, fn, [this, d]):
        if isinstance(o, Throw):
            ex.oblige(st2, o.tinfo == DM, "rejects-with-data_mismatch-only")
            ex.oblige(st2, z3.Or(M == 0, z3.Not(sp.ok)), "rejects-only-empty-or-unfinished-frames"); seen.add('t'); continue
        seen.add('r'); R = str_reg(ex, st2, d)
        cover(ex, st2, "accepted")
        ex.oblige(st2, z3.And(M > 0, sp.ok), "accepts-only-complete-frames")
        ex.oblige(st2, B_int(R.size) == sp.V(sp.K) - 1, "post:length")
        j = z3.Int(f"j!{fresh_id()}")
        ex.oblige(st2, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sp.V(sp.K) - 1), z3.Select(R.fields[0][1], j) == z3.Select(sp.RES, j))), "post:content == blocks without their counts, zeros between them")
    ex.oblige(st, seen == {'t', 'r'}, "both outcomes exist")

def dcands(vw, sp):
    c = []; Q, V, C, K, D, RES = sp.Q, sp.V, sp.C, sp.K, sp.D, sp.RES
    def get(v, key):
        for x in v.vars:
            if x.key == key: return x
        raise KeyError(key)
    cur = lambda v, k: B_int(get(v, k).cur)
    ptrs = [v for v in vw.ints() if v.kind == 'ptr']
    hint = lambda vw: z3.And(C(vw.n) >= 0, C(vw.n - 1) >= 0)
    c.append(("n<=K", lambda vw: z3.And(vw.n <= K, hint(vw))))
    for v in ptrs:
        k = v.key; n = f"{k[0]}{k[1:]}"
        c.append((f"{n}==Q(n)", lambda vw, k=k: cur(vw, k) == Q(vw.n)))
        c.append((f"{n}==V(n)", lambda vw, k=k: cur(vw, k) == V(vw.n)))
    for a in vw.arrays():
        k = a.key; n = f"{k[0]}{k[1:]}"
        for v in [v for v in ptrs if v.region == a.region]:
            vk = v.key
            def infrom(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
                return FA([j], z3.Implies(z3.And(j >= cur(vw, vk), j < sp.M), z3.Select(A, j) == z3.Select(D, j)), z3.Select(A, j))
            def resbelow(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
                return FA([j], z3.Implies(z3.And(j >= 0, j < cur(vw, vk)), z3.Select(A, j) == z3.Select(RES, j)), z3.Select(A, j))
            def keep(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k)
                return FA([j], z3.Implies(z3.And(j >= 0, j < B_int(get(vw, vk).init)), z3.Select(A.cur, j) == z3.Select(A.init, j)), z3.Select(A.cur, j))
            c += [(f"{n} D from {vk}", infrom), (f"{n} RES below {vk}", resbelow), (f"{n} kept below {vk}.init", keep)]
            for u in ptrs:
                if u is v or u.region != a.region: continue
                uk = u.key
                def copied(vw, k=k, vk=vk, uk=uk):
                    j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k); d = B_int(get(vw, vk).init) - B_int(get(vw, uk).init)
                    return FA([j], z3.Implies(z3.And(j >= B_int(get(vw, vk).init), j < cur(vw, vk)), z3.Select(A.cur, j) == z3.Select(D, j - d)), z3.Select(A.cur, j))
                c.append((f"{n} copied to {vk} from {uk}", copied))
    return c

def lemmas(ex):
    """the facts about the two specifications that the contracts use, by induction, and what follows from them"""
    ex.paths = 1
    N, M = z3.Int("N"), z3.Int("M")
    IN = z3.Array("IN", I, I); D = z3.Array("D", I, I)
    st0 = State(); st0.assume(N >= 0)
    sp = Spec(ex, st0, IN, N); P, R, F, K, G, OUT = sp.P, sp.R, sp.F, sp.K, sp.G, sp.OUT
    for a in sp.base: st0.assume(a)
    cover(ex, st0, "specification of the encoding is satisfiable")
    k, m, j = z3.Ints("k m j")
    hint = lambda st, f, *ts: [st.assume(f(t) >= 0) for t in ts]
    # upward induction on k <= K
    up = lambda k: z3.And(P(k) >= 0, F(k) >= k, F(k) >= P(k), P(k) <= N + 1, 254 * (F(k) - P(k)) <= P(k),
                          z3.Implies(P(k) == N + 1, 254 * (F(k) - P(k)) <= N))
    ex.oblige(st0, up(z3.IntVal(0)), "lemma:positions grow (base)")
    st = st0.clone(); st.assume(z3.And(k >= 0, k < K, up(k))); hint(st, R, k)
    ex.oblige(st, up(k + 1), "lemma:positions grow (step)")
    # downward induction from K
    down = lambda k: z3.And(F(k) <= F(K), F(k) - P(k) <= F(K) - P(K))
    ex.oblige(st0, down(K), "lemma:monotone (base)")
    st = st0.clone(); st.assume(z3.And(k >= 0, k < K, down(k + 1))); hint(st, R, k)
    ex.oblige(st, z3.And(down(k), F(k) < F(K), P(k) <= N, P(k) + R(k) <= N), "lemma:monotone (step)")
    # every output position below F(k) has a block; blocks do not overlap
    has = lambda j, k: z3.Exists([m], z3.And(m >= 0, m < k, F(m) <= j, j <= F(m) + R(m)))
    st = st0.clone(); st.assume(z3.And(k >= 0, k < K)); hint(st, R, k)
    b = z3.Int("b"); st.assume(z3.And(j >= 0, j < F(k + 1), z3.Implies(j < F(k), z3.And(b >= 0, b < k, F(b) <= j, j <= F(b) + R(b)))))
    w = z3.If(j < F(k), b, k)
    ex.oblige(st, z3.And(w >= 0, w < k + 1, F(w) <= j, j <= F(w) + R(w)), "lemma:every output position has a block (step)")
    st = st0.clone(); st.assume(z3.And(k >= 0, k < m, m < K, F(m) >= F(k) + R(k) + 1)); hint(st, R, k, m)
    ex.oblige(st, F(m + 1) >= F(k) + R(k) + 1, "lemma:blocks do not overlap (step)")
    st = st0.clone(); st.assume(z3.And(k >= 0, k < K)); hint(st, R, k)
    ex.oblige(st, F(k + 1) >= F(k) + R(k) + 1, "lemma:blocks do not overlap (base)")
    # what the property says about the encoding
    st = st0.clone()
    for a in sp.ax[len(sp.base):]: st.assume(a)
    jb = z3.Int("j!b"); st.assume(FA([jb], z3.And(z3.Select(IN, jb) >= 0, z3.Select(IN, jb) <= 255), z3.Select(IN, jb)))
    st.assume(z3.And(j >= 0, j < F(K))); st.assume(R(G(j)) >= 0)
    ex.oblige(st, z3.And(z3.Select(OUT, j) != 0, z3.Select(OUT, j) <= 255), "post:no zero byte in the encoding")
    C = z3.Function("full", I, I)      # full(k): full runs of 254 among the first k blocks
    st = st0.clone(); st.assume(z3.ForAll([k], z3.Implies(k >= 0, C(k + 1) == C(k) + z3.If(R(k) == 254, 1, 0)), patterns=[R(k)])); st.assume(C(0) == 0)
    ex.oblige(st, F(0) == P(0) + C(0), "post:length is N+1+full runs (base)")
    s2 = st.clone(); s2.assume(z3.And(k >= 0, k < K, F(k) == P(k) + C(k))); hint(s2, R, k)
    ex.oblige(s2, F(k + 1) == P(k + 1) + C(k + 1), "post:length is N+1+full runs (step)")
    s2 = st.clone(); s2.assume(F(K) == P(K) + C(K)); ex.oblige(s2, F(K) == N + 1 + C(K), "post:length is N+1+full runs")
    # decoding
    std = State(); std.assume(M >= 0)
    std.assume(FA([jb], z3.And(z3.Select(D, jb) >= 0, z3.Select(D, jb) <= 255), z3.Select(D, jb)))
    ds = DSpec(D, M); Q, V, DC, DK, DG = ds.Q, ds.V, ds.C, ds.K, ds.G
    for a in ds.base: std.assume(a)
    cover(ex, std, "specification of decoding is satisfiable")
    up = lambda k: z3.And(Q(k) >= k, V(k) >= 0, V(k) <= Q(k), z3.Implies(k > 0, V(k) >= 1))
    ex.oblige(std, up(z3.IntVal(0)), "lemma:decoded positions grow (base)")
    st = std.clone(); st.assume(z3.And(k >= 0, k < DK, up(k))); hint(st, DC, k); ex.oblige(st, up(k + 1), "lemma:decoded positions grow (step)")
    down = lambda k: z3.And(Q(k) <= Q(DK), V(k) <= V(DK))
    ex.oblige(std, down(DK), "lemma:decoded positions monotone (base)")
    st = std.clone(); st.assume(z3.And(k >= 0, k < DK, down(k + 1))); hint(st, DC, k); ex.oblige(st, down(k), "lemma:decoded positions monotone (step)")
    st = std.clone(); st.assume(z3.And(k >= 0, k < DK)); hint(st, DC, k)
    st.assume(z3.And(j >= 0, j < V(k + 1), z3.Implies(j < V(k), z3.And(b >= 0, b < k, V(b) <= j, j < V(b + 1)))))
    w = z3.If(j < V(k), b, k)
    ex.oblige(st, z3.And(w >= 0, w < k + 1, V(w) <= j, j < V(w + 1)), "lemma:every decoded position has a block (step)")
    st = std.clone(); st.assume(z3.And(k >= 0, k < m, m < DK, V(m) >= V(k + 1))); hint(st, DC, k, m)
    ex.oblige(st, V(m + 1) >= V(k + 1), "lemma:decoded blocks do not overlap (step)")
    # round trip: with D the encoding of IN, Q = F and V = P satisfy the definition of the blocks of D (so, being a
    # recursive definition, they are its blocks), all of D is made of complete blocks, and the result is IN
    st = st0.clone()
    for a in sp.ax[len(sp.base):]: st.assume(a)
    c = lambda k: z3.Select(OUT, F(k))
    st.assume(G(0) >= 0)
    ex.oblige(st, z3.And(F(0) == 0, P(0) == 0, F(K) > 0), "round trip:blocks start")
    s2 = st.clone(); s2.assume(z3.And(k >= 0, k < K)); hint(s2, R, k); s2.assume(G(F(k)) == G(F(k)))
    ex.oblige(s2, z3.And(c(k) == R(k) + 1, c(k) >= 1, F(k) + c(k) <= F(K), F(k + 1) == F(k) + c(k), P(k + 1) == P(k) + c(k) - z3.If(c(k) < 255, 0, 1)), "round trip:blocks of the encoding")
    ex.oblige(st, P(K) - 1 == N, "round trip:length")
    s2 = st.clone(); s2.assume(z3.And(k >= 0, k < K)); hint(s2, R, k); s2.assume(z3.And(j >= P(k), j < P(k + 1), j < N))
    s2.assume(z3.Implies(j < P(k) + R(k), z3.Select(OUT, F(k) + 1 + j - P(k)) == z3.Select(OUT, F(k) + 1 + j - P(k))))
    ex.oblige(s2, z3.If(j < P(k) + c(k) - 1, z3.Select(OUT, F(k) + 1 + j - P(k)), 0) == z3.Select(IN, j), "round trip:content")

def cands(vw, sp):
    """candidate invariants: positions in terms of the block number, contents in terms of IN/OUT"""
    c = []
    P, R, F, K, IN, OUT = sp.P, sp.R, sp.F, sp.K, sp.IN, sp.OUT
    def get(v, key):
        for x in v.vars:
            if x.key == key: return x
        raise KeyError(key)
    ints = vw.ints(); arrs = vw.arrays()
    cur = lambda v, k: B_int(get(v, k).cur)
    near = lambda a: [v for v in ints if v.kind == 'ptr' and v.region == a.region]
    fw = lambda vw: z3.And(R(vw.n) >= 0, R(vw.n - 1) >= 0)          # (true: they put the current blocks into play)
    bw = lambda vw: z3.And(R(K - vw.n) >= 0, R(K - vw.n - 1) >= 0)
    for v in ints:
        k = v.key; n = f"{k[0]}{k[1:]}"
        c.append((f"{n}==P(n)", lambda vw, k=k: z3.And(cur(vw, k) == P(vw.n), fw(vw))))
        c.append((f"{n}==F(n)", lambda vw, k=k: z3.And(cur(vw, k) == F(vw.n), fw(vw))))
        c.append((f"{n}==P(K-n)", lambda vw, k=k: z3.And(cur(vw, k) == z3.If(vw.n == 0, P(K) - 1, z3.If(vw.n == K, 0, P(K - vw.n) - z3.If(R(K - vw.n - 1) < 254, 1, 0))), bw(vw))))
        c.append((f"{n}==F(K-n)", lambda vw, k=k: z3.And(cur(vw, k) == F(K - vw.n), bw(vw))))
        c.append((f"{n}==K+1-n", lambda vw, k=k: cur(vw, k) == K + 1 - vw.n))
        c.append((f"{n}==K-n", lambda vw, k=k: cur(vw, k) == K - vw.n))
        c.append((f"{n}==extra(n)", lambda vw, k=k: cur(vw, k) == z3.If(vw.n == 0, 0, F(vw.n - 1) - P(vw.n - 1) + 1)))
    c.append(("n<=K", lambda vw: vw.n <= K))
    for v in ints:
        k = v.key; n = f"{k[0]}{k[1:]}"
        c.append((f"{n}<=N", lambda vw, k=k: cur(vw, k) <= sp.N))
        c.append((f"{n}<=254", lambda vw, k=k: cur(vw, k) <= 254))
        def nz(vw, k=k):
            j = z3.Int(f"j!{fresh_id()}")
            return FA([j], z3.Implies(z3.And(j >= B_int(get(vw, k).init), j < cur(vw, k)), z3.Select(IN, j) != 0), z3.Select(IN, j))
        if not arrs: c.append((f"nonzero up to {n}", nz))
    for a in arrs:
        k = a.key; n = f"{k[0]}{k[1:]}"
        def counts(vw, k=k):
            j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
            return z3.And(z3.Select(A, 0) == 254, FA([j], z3.Implies(z3.And(j >= 1, j <= vw.n), z3.Select(A, j) == R(j - 1)), z3.Select(A, j)))
        c.append((f"{n} counts", counts))
        for v in near(a):
            vk = v.key
            def outfrom(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
                return FA([j], z3.Implies(z3.And(j >= cur(vw, vk), j < F(K)), z3.Select(A, j) == z3.Select(OUT, j)), z3.Select(A, j))
            def outbelow(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
                return FA([j], z3.Implies(z3.And(j >= 0, j < cur(vw, vk)), z3.Select(A, j) == z3.Select(OUT, j)), z3.Select(A, j))
            def inbelow(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
                return FA([j], z3.Implies(z3.And(j >= 0, j < cur(vw, vk), j < sp.N), z3.Select(A, j) == z3.Select(IN, j)), z3.Select(A, j))
            def zbelow(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k).cur
                return FA([j], z3.Implies(z3.And(j >= 0, j < cur(vw, vk)), z3.Select(A, j) == sp.INz(j)), z3.Select(A, j))
            c += [(f"{n} OUT from {vk}", outfrom), (f"{n} OUT below {vk}", outbelow), (f"{n} INz below {vk}", zbelow)]
    for a in arrs:
        k = a.key; n = f"{k[0]}{k[1:]}"
        for v in near(a):
            vk = v.key
            def keep(vw, k=k, vk=vk):
                j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k)
                return FA([j], z3.Implies(j >= B_int(get(vw, vk).init), z3.Select(A.cur, j) == z3.Select(A.init, j)), z3.Select(A.cur, j))
            c.append((f"{n} kept from {vk}.init", keep))
            for u in near(a):
                if u is v: continue
                uk = u.key
                def copied(vw, k=k, vk=vk, uk=uk):
                    j = z3.Int(f"j!{fresh_id()}"); A = get(vw, k); d = B_int(get(vw, vk).init) - B_int(get(vw, uk).init)
                    return FA([j], z3.Implies(z3.And(j >= cur(vw, vk), j < B_int(get(vw, vk).init)), z3.Select(A.cur, j) == z3.Select(IN, j - d)), z3.Select(A.cur, j))
                c.append((f"{n} copied to {vk} from {uk}", copied))
    return c

TASKS = [Task("cobs.encode", encode, budget=400, weight=9), Task("cobs.decode", decode, budget=400, weight=8), Task("cobs.lemmas", lemmas, budget=200)]
