"""MAC codec over a keyed hash known by contract only (S09 proves the hash): S08"""
DRIVER = "packet.cpp"
import z3
from core import *
from exec import B_int
from lib import *
from ghost import *
from task import Task, cover

def keys_at(ex, st, p): return [B_int(ex.asint(ex.load_raw(st, ex.padd(st, p, 8 * k, 1), 8), 64)) for k in range(4)]
def record(ex, st, A, off, n, ks):
    """-> hash value built of eight bytes, the same for the same call"""
    bs = [z3.Int(f"hb!{fresh_id()}") for _ in range(8)]
    for b in bs: st.assume(z3.And(b >= 0, b <= 255))
    h = z3.Sum([b * (1 << (8 * k)) for k, b in enumerate(bs)])
    for (A2, o2, n2, k2, b2) in st.ghost.get('hash.calls', ()):
        j = z3.Int(f"j!{fresh_id()}")
        # a function: equal data and key, equal hash (the witness is a position where the data differ)
        d = z3.Int(f"d!{fresh_id()}")
        same_key = z3.And(*[x == y for x, y in zip(ks, k2)])
        st.assume(z3.Or(z3.And(*[x == y for x, y in zip(bs, b2)]), z3.Not(same_key), B_int(n) != B_int(n2), z3.And(d >= 0, d < B_int(n), z3.Select(A, d + off) != z3.Select(A2, d + o2))))
    st.ghost['hash.calls'] = st.ghost.get('hash.calls', ()) + ((A, off, n, ks, bs),)
    return h
def hash_contract(ex):
    def hash64(ex, st, a, c):
        v = src_bytes(ex, st, a[0], a[1]); A, off = v if v else (z3.K(I, z3.IntVal(0)), 0)
        return record(ex, st, A, off, a[1], keys_at(ex, st, a[2]))
    ex.contract(r"^arpc::highway_hash::hash64\(", hash64, "highway_hash::hash64: a function of key and bytes (S09)")
    def ctor(ex, st, a, c): st.ghost[('hh', a[0].r)] = (z3.K(I, z3.IntVal(0)), 0, keys_at(ex, st, a[1]))
    ex.contract(r"^arpc::highway_hash::(highway_hash\(unsigned long const\*|reset\()", ctor, "highway_hash construction (S09)")
    def append(ex, st, a, c):
        A, n, ks = st.ghost[('hh', a[0].r)]; v = src_bytes(ex, st, a[1], a[2])
        if v is None: return
        S, so = v; st.ghost[('hh', a[0].r)] = (arr_def(ex, st, lambda j: z3.If(j < n, z3.Select(A, j), z3.Select(S, j - n + so)), "hh"), simp(B_int(n) + a[2]), ks)
    ex.contract(r"^arpc::highway_hash::append\(", append, "highway_hash::append (S09)")
    ex.contract(r"^arpc::highway_hash::finish64\(", lambda ex, st, a, c: (lambda s: record(ex, st, s[0], 0, s[1], s[2]))(st.ghost[('hh', a[0].r)]), "highway_hash::finish64 (S09)")
def key(ex, st):
    ks = [z3.Int(f"key{k}") for k in range(4)]; p = ex.new_cells(st, 32, "key")
    for k in range(4): st.assume(z3.And(ks[k] >= 0, ks[k] < I64)); ex.store_raw(st, ex.padd(st, p, 8 * k, 1), 8, ks[k])
    return p, ks
def matching(ex, st, A, n, ks):
    """the recorded hash of exactly A[0..n) under ks"""
    for (A2, off, n2, k2, bs) in st.ghost.get('hash.calls', ()):
        j = z3.Int(f"j!{fresh_id()}")
        g = z3.And(B_int(n2) == n, *[x == y for x, y in zip(ks, k2)], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(A2, j + off) == z3.Select(A, j))))
        if ex.pr.prove(st.pc, g)[0] == 'proved': return bs
    return None
def post_encode(ex, st, s, N, A, ks):
    bs = matching(ex, st, A, N, ks)
    ex.oblige(st, bs is not None, "post:the hash is taken of the whole packet under the key")
    if bs is None: return
    R = str_reg(ex, st, s); T = R.fields[0][1]
    ex.oblige(st, B_int(R.size) == N + 8, "post:eight bytes longer")
    forall(ex, st, 0, N, lambda j: z3.Select(T, j) == z3.Select(A, j), "post:packet bytes unchanged")
    for k in range(8): ex.oblige(st, z3.Select(T, N + k) == bs[k], f"post:trailer byte {k}")
def post_decode(ex, st, o, s, N, A, ks):
    n = N - 8
    if isinstance(o, Throw): ex.oblige(st, o.tinfo == MISMATCH, f"throws only data_mismatch ({o.tinfo})")
    bs = None
    short = not ex.feas(st, N >= 8)
    if not short:
        if isinstance(o, Throw) and ex.feas(st, N < 8): ex.oblige(st, False, "post:a packet of eight bytes is not rejected for its length alone"); return
        ex.oblige(st, N >= 8, "post:at least eight bytes")
        bs = matching(ex, st, A, n, ks)
        ex.oblige(st, bs is not None, "post:the hash is taken of all but the last eight bytes under the key")
        if bs is None: return
        eq = z3.And(*[z3.Select(A, n + k) == bs[k] for k in range(8)])
    if isinstance(o, Throw):
        if not short: ex.oblige(st, z3.Not(eq), "post:rejected only if the trailer differs")
        cover(ex, st, "too short" if short else "rejected"); return
    ex.oblige(st, not short, "post:packets shorter than eight bytes are rejected")
    R = str_reg(ex, st, s); T = R.fields[0][1]
    ex.oblige(st, eq, "post:accepted only if the trailer is the hash"); ex.oblige(st, B_int(R.size) == n, "post:trailer removed")
    forall(ex, st, 0, n, lambda j: z3.Select(T, j) == z3.Select(A, j), "post:packet bytes unchanged"); cover(ex, st, "accepted")
def one(which):
    def t(ex):
        st = State(); hash_contract(ex); p, ks = key(ex, st); s, N, A = string(ex, st); cover(ex, st, "any key and packet")
        for st2, o in ex.run(st, "d_mac_" + which, [p, s]):
            if which == 'decode': post_decode(ex, st2, o, s, N, A, ks); continue
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            post_encode(ex, st2, s, N, A, ks); cover(ex, st2, "return")
    return t
def two(first, second):
    """the second operation of one codec object is the same as on a fresh one"""
    def t(ex):
        st = State(); hash_contract(ex); p, ks = key(ex, st); a, Na, Aa = string(ex, st, "SA"); s, N, A = string(ex, st, "SB")
        for st2, o in ex.run(st, f"d_mac_{first}_{second}", [p, a, s]):
            if second == 'dec': post_decode(ex, st2, o, s, N, A, ks); continue
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            post_encode(ex, st2, s, N, A, ks); cover(ex, st2, "return")
    return t
def rt(ex):
    st = State(); hash_contract(ex); p, ks = key(ex, st); s, N, A = string(ex, st)
    for st2, o in ex.run(st, "d_mac_rt", [p, s]):
        if isinstance(o, Throw): ex.oblige(st2, False, "post:own packets are accepted"); continue
        R = str_reg(ex, st2, s); T = R.fields[0][1]
        ex.oblige(st2, B_int(R.size) == N, "post:same length"); forall(ex, st2, 0, N, lambda j: z3.Select(T, j) == z3.Select(A, j), "post:same bytes"); cover(ex, st2, "return")
def default(ex):
    st = State(); hash_contract(ex); s, N, A = string(ex, st)
    ks = [z3.IntVal(x) for x in (0xb6b9bb544bfd7e87, 0xd5c3f7ccc7c7dfd4, 0x807dbb0023c7c781, 0x13473d620bd5426c)]
    for st2, o in ex.run(st, "d_mac_default", [s]):
        if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
        post_encode(ex, st2, s, N, A, ks); cover(ex, st2, "return")
M = dict(loop_mode="unroll")
TASKS = [Task("mac.encode", one("encode"), **M), Task("mac.decode", one("decode"), **M), Task("mac.round_trip", rt, **M), Task("mac.default_key", default, **M)]
TASKS += [Task(f"mac.{a}_then_{b}", two(a, b), **M) for a in ('enc', 'dec') for b in ('enc', 'dec')]
