"""HighwayHash (S09).  Bit-level tasks: each step equals the published formula, for every state, key and byte.  History tasks: for
any string, split in any way, the steps are taken in the published order on exactly the string's bytes."""
DRIVER = "hash64.cpp"; FLAGS = ("only:highway_hash",)
import z3
from core import *
from exec import B_int
from task import Task, cover
from ghost import *
BV64 = z3.BitVecSort(64)
U = [z3.Function(f"U{i}", *([BV64] * 20), BV64) for i in range(16)]      # one update: state (16 words) and lanes (4) to word i
def K(v): return z3.BitVecVal(v, 64)
# ---- the published function
def rot32(x): return z3.Concat(z3.Extract(31, 0, x), z3.Extract(63, 32, x))
ZIP = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7]
def zipper(hi, lo):
    by = [z3.Extract(8 * i + 7, 8 * i, lo) for i in range(8)] + [z3.Extract(8 * i + 7, 8 * i, hi) for i in range(8)]; r = [by[k] for k in ZIP]
    return z3.Concat(*reversed(r[8:])), z3.Concat(*reversed(r[:8]))
def ref_update(ex, w, lanes):
    v0, v1, m0, m1 = (list(w[4 * k:4 * k + 4]) for k in range(4))
    low = lambda x: x & K(0xffffffff)
    for i in range(4):
        v1[i] = v1[i] + m0[i] + lanes[i]; m0[i] = m0[i] ^ ex.named_mul(low(v1[i]), z3.LShR(v0[i], 32), 64)
        v0[i] = v0[i] + m1[i]; m1[i] = m1[i] ^ ex.named_mul(low(v0[i]), z3.LShR(v1[i], 32), 64)
    for i in (0, 2):
        hi, lo = zipper(v1[i + 1], v1[i]); v0[i] = v0[i] + lo; v0[i + 1] = v0[i + 1] + hi
    for i in (0, 2):
        hi, lo = zipper(v0[i + 1], v0[i]); v1[i] = v1[i] + lo; v1[i + 1] = v1[i + 1] + hi
    return v0 + v1 + m0 + m1
def ref_init(key):
    a = [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3]; b = [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377]
    return [K(a[i]) ^ key[i] for i in range(4)] + [K(b[i]) ^ rot32(key[i]) for i in range(4)] + [K(x) for x in a] + [K(x) for x in b]
def le(bs): return z3.Concat(*reversed(bs))
def lanes_of(bs): return [le(bs[8 * k:8 * k + 8]) for k in range(4)]
def ref_rest(w, bs):
    """state and packet that the last n < 32 bytes lead to, before the update"""
    n = len(bs); w = list(w); m = n & 3; rest = bs[n & ~3:]; pk = [z3.BitVecVal(0, 8)] * 32; pk[:n & ~3] = bs[:n & ~3]
    for i in range(4):
        w[i] = w[i] + K((n << 32) + n); x = w[4 + i]
        w[4 + i] = z3.Concat(z3.RotateLeft(z3.Extract(63, 32, x), n), z3.RotateLeft(z3.Extract(31, 0, x), n))
    if n & 16:
        for i in range(4): pk[28 + i] = bs[(n & ~3) + i + m - 4]
    elif m: pk[16] = rest[0]; pk[17] = rest[m >> 1]; pk[18] = rest[m - 1]
    return w, pk
def u(w, lanes): return [simp(f(*w, *lanes)) for f in U]
def rounds(w, n):
    for _ in range(n): w = u(w, [rot32(w[2]), rot32(w[3]), rot32(w[0]), rot32(w[1])])
    return w
def reduce(a3, a2, a1, a0):
    a3 = a3 & K(0x3FFFFFFFFFFFFFFF); sh = lambda hi, lo, k: z3.Extract(127, 64, z3.Concat(hi, lo) << k)
    return a1 ^ sh(a3, a2, 1) ^ sh(a3, a2, 2), a0 ^ (a2 << 1) ^ (a2 << 2)
def ref_final(w, size):
    v0, v1, m0, m1 = (lambda w: (w[0:4], w[4:8], w[8:12], w[12:16]))(rounds(w, {64: 4, 128: 6, 256: 10}[size]))
    if size == 64: return [v0[0] + v1[0] + m0[0] + m1[0]]
    if size == 128: return [v0[0] + m0[0] + v1[2] + m1[2], v0[1] + m0[1] + v1[3] + m1[3]]
    h1, h0 = reduce(v1[1] + m1[1], v1[0] + m1[0], v0[1] + m0[1], v0[0] + m0[0]); h3, h2 = reduce(v1[3] + m1[3], v1[2] + m1[2], v0[3] + m0[3], v0[2] + m0[2])
    return [h0, h1, h2, h3]
# ---- objects
class Layout:
    def __init__(s, ex):
        g = lambda n: ex.run(State(), n, [])[0][1].v
        s.size, s.packet, s.buffered = g("d_size"), g("d_packet"), g("d_buffered"); s.words = [g(f"d_{n}") + 8 * i for n in ("v0", "v1", "mul0", "mul1") for i in range(4)]
def words(ex, st, p, L): return [ex.asint(ex.load_raw(st, ex.padd(st, p, o, 1), 8), 64) for o in L.words]
def bv_object(ex, st, L, name="w", packet=True):
    p = ex.new_cells(st, L.size, name); w = [z3.BitVec(f"{name}{i}", 64) for i in range(16)]
    for o, x in zip(L.words, w): ex.store_raw(st, Ptr(p.r, o), 8, x)
    b = [z3.BitVec(f"{name}.p{i}", 8) for i in range(32)]
    for i, x in enumerate(b): ex.store_raw(st, Ptr(p.r, L.packet + i), 1, x)
    ex.store_raw(st, Ptr(p.r, L.buffered), 8, z3.BitVec(f"{name}.n", 64)); return p, w, b
def bvs(ex, st, name, n, w):
    p = ex.new_cells(st, n * w // 8, name); v = [z3.BitVec(f"{name}{i}", w) for i in range(n)]
    for i, x in enumerate(v): ex.store_raw(st, Ptr(p.r, i * w // 8), w // 8, x)
    return p, v
def eqs(ex, st, got, want, label):
    for i, (a, b) in enumerate(zip(got, want)): ex.oblige(st, simp(ex.bvc(a, 64) == b), f"post:{label} {i}")
def update_contract(ex, L):
    def h(ex, st, a, c):
        w = words(ex, st, a[0], L); l = [ex.asint(ex.load_raw(st, ex.padd(st, a[1], 8 * i, 1), 8), 64) for i in range(4)]
        for o, x in zip(L.words, u([ex.bvc(x, 64) for x in w], [ex.bvc(x, 64) for x in l])): ex.store_raw(st, ex.padd(st, a[0], o, 1), 8, x)
    ex.contract(r"^arpc::highway_hash::update\(unsigned long const\*\)", h, "highway_hash::update (discharged by highway.update)")
def one(ex, r):
    if len(r) != 1 or isinstance(r[0][1], Throw): raise Unsupported("more than one way through")
    return r[0]
def buffer_kept(ex, st, p, L, name, label):
    for i in range(32): ex.oblige(st, simp(ex.load_raw(st, ex.padd(st, p, L.packet + i, 1), 1) == z3.BitVec(f"{name}.p{i}", 8)), f"post:{label}: buffer untouched")
    count_kept(ex, st, p, L, name, label)
def count_kept(ex, st, p, L, name, label): eqs(ex, st, [ex.load_raw(st, ex.padd(st, p, L.buffered, 1), 8)], [z3.BitVec(f"{name}.n", 64)], f"{label}: buffered count untouched")
def t_update(ex):
    ex.name_products = True; L = Layout(ex); st = State(); p, w, b = bv_object(ex, st, L); q, l = bvs(ex, st, "lane", 4, 64)
    st, o = one(ex, ex.run(st, "d_update", [p, q])); want = ref_update(ex, w, l)
    for f in ex.mul_facts(): st.assume(f)
    eqs(ex, st, words(ex, st, p, L), want, "state word after an update:"); buffer_kept(ex, st, p, L, "w", "update"); cover(ex, st, "update")
def t_packet(own):
    def t(ex):
        L = Layout(ex); update_contract(ex, L); st = State(); p, w, b = bv_object(ex, st, L)
        if own: by = b; r = ex.run(st, "d_update_own_packet", [p])
        else: q, by = bvs(ex, st, "byte", 32, 8); r = ex.run(st, "d_update_packet", [p, q])
        st, o = one(ex, r); eqs(ex, st, words(ex, st, p, L), u(w, [simp(x) for x in lanes_of(by)]), "state word after a packet:"); buffer_kept(ex, st, p, L, "w", "packet"); cover(ex, st, "packet")
    return t
def t_rest(own):
    """from a buffer elsewhere, or from the buffer of the object that was copied"""
    def t(ex):
        L = Layout(ex); update_contract(ex, L)
        for n in range(1, 32):
            st = State(); p, w, b = bv_object(ex, st, L)
            if own: q, w2, by = bv_object(ex, st, L, "x"); r = ex.run(st, "d_update_own_remainder", [p, q, n]); by = by[:n]
            else: q, by = bvs(ex, st, "byte", n, 8); r = ex.run(st, "d_update_remainder", [p, q, n])
            st, o = one(ex, r); w1, pk = ref_rest(w, by); eqs(ex, st, words(ex, st, p, L), u([simp(x) for x in w1], [simp(x) for x in lanes_of(pk)]), f"state word after a remainder of {n}:"); cover(ex, st, f"remainder {n}")
            if own: eqs(ex, st, words(ex, st, q, L), w2, "the copied object"); buffer_kept(ex, st, q, L, "x", "the copied object")
    return t
def t_final(size):
    def t(ex):
        L = Layout(ex); update_contract(ex, L); st = State(); p, w, b = bv_object(ex, st, L); n = size // 64; q = ex.new_cells(st, 8 * n, "result")
        st, o = one(ex, ex.run(st, f"d_finalize{size}", [p] if size == 64 else [p, q])); got = [o.v] if size == 64 else [ex.load_raw(st, Ptr(q.r, 8 * i), 8) for i in range(n)]
        eqs(ex, st, got, ref_final(w, size), f"result word of {size} bits:"); cover(ex, st, "result")
    return t
def t_init(fn):
    def t(ex):
        L = Layout(ex); st = State(); q, k = bvs(ex, st, "key", 4, 64)
        if fn == "d_reset": p, w, b = bv_object(ex, st, L)
        else: p = ex.new_cells(st, L.size, "raw")
        st, o = one(ex, ex.run(st, fn, [p, q])); eqs(ex, st, words(ex, st, p, L), ref_init(k), "initial state word"); ex.oblige(st, ex.load_raw(st, Ptr(p.r, L.buffered), 8) == 0, "post:nothing buffered"); eqs(ex, st, [ex.load_raw(st, Ptr(q.r, 8 * i), 8) for i in range(4)], k, "key untouched"); cover(ex, st, "init")
    return t
# ---- histories: D is the string, SW(i, k) word i after its first k packets, RW(i, k, n) after n < 32 more bytes; what the steps do
# to these is what the tasks above discharge, byte for byte
SW = z3.Function("SW", I, I, I); RW = z3.Function("RW", I, I, I, I); D = z3.Array("D", I, I)
F = {n: [z3.Function(f"F{n}_{i}", *([I] * 16), I) for i in range(n // 64)] for n in (64, 128, 256)}
U64 = lambda st, v: st.assume(z3.And(v >= 0, v < (1 << 64)))
def iwords(ex, st, p, L): return [B_int(ex.asint(ex.load_raw(st, ex.padd(st, p, o, 1), 8), 64)) for o in L.words]
def set_words(ex, st, p, L, f):
    for i, o in enumerate(L.words): v = f(i); U64(st, v); ex.store_raw(st, ex.padd(st, p, o, 1), 8, v)
def region(ex, st, p, n):
    p = ex.resolve(st, p); R = ex.chk_range(st, p, n, False)
    if R is None or R.kind != 'a' or R.stride != 1: raise Unsupported("bytes outside an array")
    return R.fields[0][1], p.i
def bytes_are(ex, st, p, n, at, label):
    A, o = region(ex, st, p, n); j = z3.Int(f"j!{fresh_id()}"); s2 = st.clone(); s2.assume(z3.And(j >= 0, j < B_int(n))); s2.assume(z3.Select(D, at + j) == z3.Select(D, at + j))
    ex.oblige(s2, z3.Select(A, j + o) == z3.Select(D, at + j), label)
def words_are(ex, st, p, L, f, label):
    for i, w in enumerate(iwords(ex, st, p, L)): ex.oblige(st, w == f(i), f"{label} {i}")
def fresh_packet(ex, st, p, L):
    A = z3.Array(f"P!{fresh_id()}", I, I); byte_axiom(ex, st, A); ex.embed(st, ex.padd(st, p, L.packet, 1), 32, A, "packet"); return A
def history_contracts(ex, L, key):
    def packet(ex, st, a, c):
        k = st.ghost['hh.k']; words_are(ex, st, a[0], L, lambda i: SW(i, k), "pre:state before the packet, word"); bytes_are(ex, st, a[1], 32, 32 * B_int(k), "pre:the next 32 bytes of the string")
        k2 = simp(B_int(k) + 1); st.ghost['hh.k'] = k2; set_words(ex, st, a[0], L, lambda i: SW(i, k2))
    ex.contract(r"^arpc::highway_hash::update_packet\(", packet, "highway_hash::update_packet (discharged by highway.packet)")
    def rest(ex, st, a, c):
        k, n = st.ghost['hh.k'], a[2]; ex.oblige(st, z3.And(B_int(n) > 0, B_int(n) < 32), "pre:one to 31 bytes"); words_are(ex, st, a[0], L, lambda i: SW(i, k), "pre:state before the last bytes, word")
        bytes_are(ex, st, a[1], n, 32 * B_int(k), "pre:the last bytes of the string")
        ex.oblige(st, ex.resolve(st, a[1]).r != ex.resolve(st, ex.padd(st, a[0], L.packet, 1)).r, "pre:the bytes are not in the object's own buffer"); fresh_packet(ex, st, a[0], L); set_words(ex, st, a[0], L, lambda i: RW(i, k, B_int(n)))
    ex.contract(r"^arpc::highway_hash::update_remainder\(", rest, "highway_hash::update_remainder (discharged by highway.remainder)")
    def final(size):
        def h(ex, st, a, c):
            w = iwords(ex, st, a[0], L); r = [f(*w) for f in F[size]]
            for v in r: U64(st, v)
            set_words(ex, st, a[0], L, lambda i: z3.Int(f"used!{fresh_id()}"))
            if size == 64: return r[0]
            for i, v in enumerate(r): ex.store_raw(st, ex.padd(st, a[1], 8 * i, 1), 8, v)
        return h
    for n in F: ex.contract(rf"^arpc::highway_hash::finalize{n}\(", final(n), f"highway_hash::finalize{n} (discharged by highway.final{n})")
    def reset(ex, st, a, c):
        for i, x in enumerate(key): ex.oblige(st, B_int(ex.asint(ex.load_raw(st, ex.padd(st, a[1], 8 * i, 1), 8), 64)) == x, f"pre:the given key, word {i}")
        set_words(ex, st, a[0], L, lambda i: SW(i, 0)); fresh_packet(ex, st, a[0], L); ex.store_raw(st, ex.padd(st, a[0], L.buffered, 1), 8, 0); st.ghost['hh.k'] = z3.IntVal(0)
    ex.contract(r"^arpc::highway_hash::reset\(", reset, "highway_hash::reset (discharged by highway.reset)")
    def cands(vw):
        out = []; cur = lambda vw, k: next(x.cur for x in vw.vars if x.key == k); K = lambda vw: B_int(vw.st.ghost['hh.k'])
        for v in vw.vars:
            if v.key[0] == 'cell' and v.key[2] in L.words: out.append((f"{v.key} is the state", lambda vw, k=v.key: cur(vw, k) == SW(L.words.index(k[2]), K(vw))))
        for a in vw.arrays():
            for v in vw.ints():
                if v.key[0] == 'ghost': continue
                for base in (0, 1):
                    def f(vw, k=a.key, vk=v.key, base=base):
                        j = z3.Int(f"j!{fresh_id()}"); A = cur(vw, k); e = B_int(cur(vw, vk)) + (st_b0(ex, vw) if base else 0)
                        return FA([j], z3.Implies(z3.And(j >= 0, j < e), z3.Select(A, j) == z3.Select(D, 32 * K(vw) + j)), z3.Select(A, j))
                    out.append((f"{a.key} holds the string below {v.key}+{base}", f))
        return out
    ex.loop_cands.append(cands); ex.bound_hints.append(lambda vw: {"num": z3.Int("num"), "room": 32 - z3.Int("b0")})
def st_b0(ex, vw): return z3.Int("b0")
def ikey(ex, st):
    ks = [z3.Int(f"key{k}") for k in range(4)]; p = ex.new_cells(st, 32, "key")
    for i, x in enumerate(ks): U64(st, x); ex.store_raw(st, Ptr(p.r, 8 * i), 8, x)
    return p, ks
def valid(ex, st, L):
    """an object that absorbed the first n bytes of D"""
    p = ex.new_cells(st, L.size, "object"); k, b = z3.Int("k0"), z3.Int("b0"); st.assume(z3.And(k >= 0, k < (1 << 58), b >= 0, b < 32)); st.ghost['hh.k'] = k
    set_words(ex, st, p, L, lambda i: SW(i, k)); P = fresh_packet(ex, st, p, L); ex.store_raw(st, Ptr(p.r, L.buffered), 8, b)
    j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < b), z3.Select(P, j) == z3.Select(D, 32 * k + j)), z3.Select(P, j))); return p, k, b, P
def data(ex, st, at):
    """the next num bytes of D"""
    n = z3.Int("num"); st.assume(z3.And(n >= 0, n < (1 << 60))); q, S = buffer(ex, st, n); j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(S, j) == z3.Select(D, at + j)), z3.Select(S, j))); return q, n, S
def represents(ex, st, p, L, n, label):
    """the object absorbed exactly the first n bytes of D"""
    k = B_int(st.ghost['hh.k']); b = B_int(ex.asint(ex.load_raw(st, ex.padd(st, p, L.buffered, 1), 8), 64)); ex.oblige(st, z3.And(b >= 0, b < 32, 32 * k + b == n), f"post:{label}: every byte is in the state or in the buffer")
    words_are(ex, st, p, L, lambda i: SW(i, k), f"post:{label}: state word"); bytes_are(ex, st, ex.padd(st, p, L.packet, 1), b, 32 * k, f"post:{label}: the buffer holds the bytes after the last packet")
def unchanged(ex, st, p, L, k, b, P, label):
    words_are(ex, st, p, L, lambda i: SW(i, k), f"post:{label}: word unchanged"); ex.oblige(st, B_int(ex.asint(ex.load_raw(st, ex.padd(st, p, L.buffered, 1), 8), 64)) == b, f"post:{label}: buffered count unchanged")
    A, o = region(ex, st, ex.padd(st, p, L.packet, 1), 32); forall(ex, st, 0, 32, lambda j: z3.Select(A, j + o) == z3.Select(P, j), f"post:{label}: buffer unchanged")
def expected(ex, st, size, got, k, m, label):
    """the published function of the first 32 k + m bytes"""
    w = [z3.If(B_int(m) == 0, SW(i, k), RW(i, k, m)) for i in range(16)]
    for i, (f, g) in enumerate(zip(F[size], got)): ex.oblige(st, B_int(ex.asint(g, 64)) == f(*w), f"post:{label}: result word {i}")
def results(ex, st, o, q, size): return [o.v] if size == 64 else [ex.load_raw(st, Ptr(q.r, 8 * i), 8) for i in range(size // 64)]
def normal(ex, outs):
    for st, o in outs:
        if isinstance(o, Throw): ex.oblige(st, False, "no throw"); continue
        yield st, o
def t_static(size):
    def t(ex):
        L = Layout(ex); st = State(); kp, ks = ikey(ex, st); history_contracts(ex, L, ks); st.ghost['hh.k'] = z3.IntVal(0); q, n, S = data(ex, st, 0); r = ex.new_cells(st, size // 8, "result"); cover(ex, st, "any bytes and key")
        for st, o in normal(ex, ex.run(st, f"d_hash{size}", [q, n, kp] + ([] if size == 64 else [r]))): expected(ex, st, size, results(ex, st, o, r, size), n / 32, n % 32, "hash"); cover(ex, st, "hash")
    return t
def t_append(copied):
    def t(ex):
        L = Layout(ex); st = State(); history_contracts(ex, L, []); p, k, b, P = valid(ex, st, L); q, n, S = data(ex, st, 32 * k + b); c = ex.new_cells(st, L.size, "copy"); cover(ex, st, "any object and bytes")
        for st, o in normal(ex, ex.run(st, "d_copy_append" if copied else "d_append", [p, c, q, n] if copied else [p, q, n])):
            represents(ex, st, c if copied else p, L, 32 * k + b + n, "append"); cover(ex, st, "append")
            if copied: unchanged(ex, st, p, L, k, b, P, "the copied object")
    return t
def t_finish(size):
    def t(ex):
        L = Layout(ex); st = State(); history_contracts(ex, L, []); p, k, b, P = valid(ex, st, L); r = ex.new_cells(st, size // 8, "result"); cover(ex, st, "any object")
        for st, o in normal(ex, ex.run(st, f"d_finish{size}", [p] + ([] if size == 64 else [r]))):
            expected(ex, st, size, results(ex, st, o, r, size), k, b, "finish"); unchanged(ex, st, p, L, k, b, P, "finish leaves the object as it was"); cover(ex, st, "finish")
    return t
def t_copy(fn):
    def t(ex):
        L = Layout(ex); st = State(); history_contracts(ex, L, []); p, k, b, P = valid(ex, st, L); c = ex.new_cells(st, L.size, "copy")
        if fn == "d_assign":
            set_words(ex, st, c, L, lambda i: z3.Int(f"old{i}")); fresh_packet(ex, st, c, L); m = z3.Int("oldb"); st.assume(z3.And(m >= 0, m < 32)); ex.store_raw(st, Ptr(c.r, L.buffered), 8, m)
        for st, o in normal(ex, ex.run(st, fn, [c, p])): represents(ex, st, c, L, 32 * k + b, "copy"); unchanged(ex, st, p, L, k, b, P, "original"); cover(ex, st, "copy")
    return t
TASKS = [Task("highway.update", t_update, mode="bv", weight=3), Task("highway.packet", t_packet(False), mode="bv"), Task("highway.packet_of_buffer", t_packet(True), mode="bv"), Task("highway.remainder", t_rest(False), mode="bv", weight=3), Task("highway.remainder_of_buffer", t_rest(True), mode="bv", weight=3)]
TASKS += [Task(f"highway.final{n}", t_final(n), mode="bv", weight=2) for n in (64, 128, 256)] + [Task("highway.construct", t_init("d_construct"), mode="bv"), Task("highway.reset", t_init("d_reset"), mode="bv")]
TASKS += [Task(f"highway.hash{n}", t_static(n)) for n in F] + [Task(f"highway.finish{n}", t_finish(n)) for n in F]
TASKS += [Task("highway.append", t_append(False), weight=3), Task("highway.copy_append", t_append(True), weight=3), Task("highway.copy", t_copy("d_copy")), Task("highway.assign", t_copy("d_assign"))]
