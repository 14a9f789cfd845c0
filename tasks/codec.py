"""Codec layer 1: dynamic sizes and scalars, byte for byte (S01, S02, S05).  Bit-vector mode, exact machine arithmetic."""
DRIVER = "codec.cpp"
import z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L
from ghost import *

def opaque_members(ex):
    """the encoder's and decoder's tables (S11: ordered maps; std::vector) take no part in these operations"""
    skip = lambda ex, st, a, c: None
    ex.contract(r"^arpc::flat_map<.*>::~?(flat_map|flat_tree)\(", skip, "arpc::flat_map construction (tables not used here)")
    ex.contract(r"^std::vector<(std::pair<|arpc::binary_).*>::~?vector\(", skip, "std::vector construction (tables not used here)")
    ex.contract(r"^arpc::binary_decoder<.*>::shared_object_info::~?shared_object_info\(", skip)
    ex.contract(r"^std::shared_ptr<void>::(~shared_ptr|shared_ptr)\(", skip, "std::shared_ptr<void> (null) construction")
def bv8(x): return x if is_sym(x) else z3.BitVecVal(x, 8)
def put_size(fn):
    def t(ex):
        st = State(); l = z3.BitVec("l", 64); GOut(ex, st, start=0); opaque_members(ex); cover(ex, st, "any size")
        for st2, o in ex.run(st, fn, [l]):
            if isinstance(o, Throw): ex.oblige(st2, False, f"no throw ({o.tinfo})"); continue
            n = st2.ghost['out.len']
            if not isinstance(n, int): raise Unsupported("symbolic output length")
            ex.oblige(st2, n >= 1 and n <= 10, "post:one to ten bytes")
            ex.oblige(st2, z3.And(n == 1 or z3.UGE(l, 1 << (7 * (n - 1))), n == 10 or z3.ULT(l, 1 << (7 * n))), "post:minimal length")
            A = st2.ghost['out']
            for j in range(n):
                want = z3.Extract(7, 0, z3.LShR(l, 7 * j)) & 0x7f
                ex.oblige(st2, simp(read(A, z3.IntVal(j)) == (want | 0x80 if j < n - 1 else want)), f"post:byte {j} of {n}")
            cover(ex, st2, f"{n} bytes")
    return t
def get_size_posts(ex, outs, arr, N):
    """what a base-128 number at the start of arr[0..N) means"""
    for st2, o in outs:
        if not isinstance(o, Throw): ex.oblige(st2, False, "the size reaches the container"); continue
        p = st2.ghost['in.pos']
        bt = [z3.Select(arr, j) for j in range(12)]
        W = 128
        def val(k): return z3.Sum([z3.ZeroExt(W - 8, bt[j] & 0x7f) << (7 * j) for j in range(k)]) if k > 1 else z3.ZeroExt(W - 8, bt[0] & 0x7f)
        if o.tinfo == EOF:
            ex.oblige(st2, simp(B_int(p) == N), "post:eof only at the end"); ex.oblige(st2, z3.And(N <= 10, *[z3.Implies(j < N, bt[j] & 0x80 != 0) for j in range(10)]), "post:eof only inside a number"); cover(ex, st2, "eof"); continue
        if not isinstance(p, int): raise Unsupported("symbolic position")
        ex.oblige(st2, z3.And(p >= 1, p <= N, *[bt[j] & 0x80 != 0 for j in range(p - 1)]), "post:earlier bytes continue")
        if p > 11: ex.oblige(st2, False, "post:no number has more than ten bytes"); continue
        fits = z3.ULT(val(p), z3.BitVecVal(1 << 64, W)) if p >= 10 else True
        if o.tinfo == MISMATCH:
            ex.oblige(st2, True if p > 10 else simp(Not(fits)), "post:mismatch only for a number that does not fit"); cover(ex, st2, "does not fit"); continue
        ex.oblige(st2, '10probe_done' in str(o.tinfo), f"post:unexpected exception {o.tinfo}")
        got = st2.ghost['got_at']; v = ex.load_raw(st2, got, 8)
        ex.oblige(st2, bt[p - 1] & 0x80 == 0, "post:last byte ends the number"); ex.oblige(st2, p <= 10 and (fits if is_sym(fits) else True), "post:the number fits")
        ex.oblige(st2, simp(z3.ZeroExt(W - 64, ex.bvc(v, 64)) == val(p)), f"post:value of {p} bytes"); cover(ex, st2, f"{p} bytes")
def get_size(fn):
    def t(ex):
        st = State(); g = GIn(ex, st); opaque_members(ex); got = ex.new_cells(st, 8, "result"); st.ghost['got_at'] = got
        get_size_posts(ex, ex.run(st, fn, [got]), g.arr, g.N)
    return t
def rt_size(put, get):
    def t(ex):
        st = State(); l = z3.BitVec("l", 64); GOut(ex, st, start=0); opaque_members(ex); got = ex.new_cells(st, 8, "result")
        for st2, o in ex.run(st, put, [l]):
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            n = st2.ghost['out.len']; N = z3.Int("N"); g = GIn(ex, st2, N=N); st2.assume(N >= n)
            for j in range(n): st2.assume(z3.Select(g.arr, j) == read(st2.ghost['out'], z3.IntVal(j)))
            for st3, o3 in ex.run(st2, get, [got]):
                if not isinstance(o3, Throw) or 'probe_done' not in str(o3.tinfo): ex.oblige(st3, False, f"post:own encoding is accepted ({o3})"); continue
                ex.oblige(st3, simp(ex.bvc(ex.load_raw(st3, got, 8), 64) == l), "post:round trip value"); ex.oblige(st3, simp(B_int(st3.ghost['in.pos']) == n), "post:consumes exactly its bytes"); cover(ex, st3, f"{n} bytes")
    return t
SC = dict(u8=1, i8=1, c=1, u16=2, i16=2, u32=4, i32=4, u64=8, i64=8, f=4, d=8, en=2, ei=4, wc=4)
def scalar(name, order):
    n = SC[name]
    def t(ex):
        v = z3.BitVec("v", 8 * n); idx = [j if order == 'le' else n - 1 - j for j in range(n)]
        st = State(); GOut(ex, st, start=0); opaque_members(ex); p = ex.new_cells(st, n, "value"); ex.store_raw(st, p, n, v)
        for st2, o in ex.run(st, f"d_put_{name}_{order}", [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == n), f"post:encoded in {n} bytes")
            for j in range(n): ex.oblige(st2, simp(read(st2.ghost['out'], z3.IntVal(j)) == z3.Extract(8 * idx[j] + 7, 8 * idx[j], v)), f"post:encoded byte {j}")
            cover(ex, st2, "encoded")
        st = State(); g = GIn(ex, st); p = ex.new_cells(st, n, "target"); ex.store_raw(st, p, n, z3.BitVec("old", 8 * n))
        for st2, o in ex.run(st, f"d_get_{name}_{order}", [p]):
            if isinstance(o, Throw):
                ex.oblige(st2, o.tinfo == EOF, f"throws only eof ({o.tinfo})"); ex.oblige(st2, g.N < n, "post:eof only when truncated"); cover(ex, st2, "eof"); continue
            ex.oblige(st2, simp(And(g.N >= n, B_int(st2.ghost['in.pos']) == n)), f"post:consumes {n} bytes")
            w = ex.bvc(ex.load_raw(st2, p, n), 8 * n)
            for j in range(n): ex.oblige(st2, simp(z3.Extract(8 * idx[j] + 7, 8 * idx[j], w) == z3.Select(g.arr, j)), f"post:decoded byte {j}")
            cover(ex, st2, "decoded")
    return t
def flag(order):
    def t(ex):
        v = z3.BitVec("v", 8); st = State(); GOut(ex, st, start=0); opaque_members(ex); p = ex.new_cells(st, 1, "value"); ex.store_raw(st, p, 1, v); st.assume(z3.ULE(v, 1))
        for st2, o in ex.run(st, f"d_put_b_{order}", [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            ex.oblige(st2, simp(And(B_int(st2.ghost['out.len']) == 1, read(st2.ghost['out'], z3.IntVal(0)) == v)), "post:one byte, 0 or 1"); cover(ex, st2, "encoded")
        st = State(); g = GIn(ex, st); p = ex.new_cells(st, 1, "target"); ex.store_raw(st, p, 1, 0)
        for st2, o in ex.run(st, f"d_get_b_{order}", [p]):
            b = z3.Select(g.arr, 0)
            if isinstance(o, Throw):
                ex.oblige(st2, (g.N < 1) if o.tinfo == EOF else z3.And(g.N >= 1, z3.UGT(b, 1)) if o.tinfo == MISMATCH else False, f"post:rejected only truncated or not 0/1 ({o.tinfo})"); cover(ex, st2, "rejected"); continue
            ex.oblige(st2, simp(And(z3.ULE(b, 1), B_int(st2.ghost['in.pos']) == 1, ex.bvc(ex.load_raw(st2, p, 1), 8) == b)), "post:flag value"); cover(ex, st2, "decoded")
    return t
def ticks(name, width, order):
    """durations and time points: the tick count as a signed 64-bit scalar"""
    def t(ex):
        v = z3.BitVec("v", 8 * width); want = z3.SignExt(64 - 8 * width, v) if width < 8 else v; idx = [j if order == 'le' else 7 - j for j in range(8)]
        st = State(); GOut(ex, st, start=0); opaque_members(ex); p = ex.new_cells(st, width, "value"); ex.store_raw(st, p, width, v)
        for st2, o in ex.run(st, f"d_put_{name}_{order}", [p]):
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == 8), "post:eight bytes")
            for j in range(8): ex.oblige(st2, simp(read(st2.ghost['out'], z3.IntVal(j)) == z3.Extract(8 * idx[j] + 7, 8 * idx[j], want)), f"post:encoded byte {j}")
            cover(ex, st2, "encoded")
            n = 8; g = GIn(ex, st2); st2.assume(g.N >= 8); q = ex.new_cells(st2, width, "target")
            for j in range(8): st2.assume(z3.Select(g.arr, j) == read(st2.ghost['out'], z3.IntVal(j)))
            for st3, o3 in ex.run(st2, f"d_get_{name}_{order}", [q]):
                if isinstance(o3, Throw): ex.oblige(st3, False, "post:own encoding is accepted"); continue
                ex.oblige(st3, simp(And(ex.bvc(ex.load_raw(st3, q, width), 8 * width) == v, B_int(st3.ghost['in.pos']) == 8)), "post:round trip"); cover(ex, st3, "decoded")
    return t
M = dict(mode="bv", loop_mode="unroll")
TASKS = [Task("codec.put_size", put_size("d_put_size"), **M), Task("codec.put_size_be", put_size("d_put_size_be"), **M), Task("codec.get_size", get_size("d_get_size"), **M), Task("codec.get_size_be", get_size("d_get_size_be"), **M),
         Task("codec.rt_size", rt_size("d_put_size", "d_get_size"), **M)]
TASKS += [Task(f"codec.scalar_{n}_{o}", scalar(n, o), **M) for n in SC for o in ('le', 'be')]
TASKS += [Task(f"codec.flag_{o}", flag(o), **M) for o in ('le', 'be')]
TASKS += [Task(f"codec.{n}_{o}", ticks(n, w, o), **M) for n, w in (('secs', 4), ('nanos', 8), ('tp', 8)) for o in ('le', 'be')]
