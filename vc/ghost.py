"""Ghost byte streams (assumed contract of an input_stream / output_stream implementation) and helpers for tasks."""
import z3
from core import *
from exec import B_int
import lib as L
I = z3.IntSort()
EOF = "_ZTIN4arpc6errors3eofE"; MISMATCH = "_ZTIN4arpc6errors13data_mismatchE"; NOTFOUND = "_ZTIN4arpc6errors9not_foundE"
IOERR = "_ZTIN4arpc6errors8io_errorE"; RANGE = "_ZTIN4arpc6errors12out_of_rangeE"; INVALID = "_ZTIN4arpc6errors13invalid_stateE"
def bsort(ex): return z3.BitVecSort(8) if ex.mode == 'bv' else I
def byte_axiom(ex, st, A):
    if ex.mode == 'int':
        j = z3.Int(f"j!{fresh_id()}")
        st.assume(FA([j], z3.And(z3.Select(A, j) >= 0, z3.Select(A, j) <= 255), z3.Select(A, j)))
def throw_error(ex, st, tinfo): return L.throw(ex, st, tinfo)
class GIn:
    """input: bytes IN[0..N), position in st.ghost['in.pos']"""
    def __init__(s, ex, st, N=None, pos=0, max_n=1 << 62, symbols=False):
        """symbols: stream positions may hold other symbols (numbers, elements) than bytes; a position read as a byte holds a byte"""
        s.arr = z3.Array("IN", I, bsort(ex)); s.N = z3.Int("N") if N is None else N
        if N is None: st.assume(z3.And(s.N >= 0, s.N < max_n))
        if not symbols: byte_axiom(ex, st, s.arr)
        st.ghost['in.pos'] = pos
        def byte(st, *vs):
            for v in vs:
                if ex.mode == 'int' and is_sym(v): st.assume(z3.And(v >= 0, v <= 255))
        def getc(ex, st, a, c):
            p = st.ghost['in.pos']; out = []
            g = simp(B_int(p) >= s.N)
            if g is not False and ex.feas(st, g):
                s2 = st.clone(); s2.assume(B(g)); out.append(throw_error(ex, s2, EOF))
            if g is True: return out
            st.assume(B(Not(g)))
            if not ex.feas(st, True): return out
            v = ex.sel(s.arr, p); st.ghost['in.pos'] = simp(B_int(p) + 1)
            if ex.mode == 'int' and is_sym(v): st.assume(z3.And(v >= 0, v <= 255))
            return out + [(st, Ret(v))]
        def read(ex, st, a, c):
            p = st.ghost['in.pos']; n = a[2]; rest = simp(B_int(s.N) - p)
            if ex.mode == 'bv' and is_sym(n): raise Unsupported("symbolic read length in bv mode")
            if isinstance(n, int) and n <= 64:
                # whole or short
                out = []
                g = simp(rest >= n) if is_sym(rest) else rest >= n
                for full in (True, False):
                    c = g if full else Not(g)
                    if c is False: continue
                    st2 = st.clone()
                    if c is not True:
                        if not ex.feas(st2, c): continue
                        st2.assume(B(c))
                    if full:
                        for k in range(n): v = ex.sel(s.arr, simp(B_int(p) + k)); byte(st2, v); ex.store_raw(st2, ex.padd(st2, a[1], k, 1), 1, v)
                        st2.ghost['in.pos'] = simp(B_int(p) + n); out.append((st2, Ret(n)))
                    else:
                        # what a short read leaves beyond the bytes it delivered is unspecified
                        for r in (range(n) if ex.mode == 'bv' else (None,)):
                            st3 = st2.clone()
                            if r is not None:
                                if not ex.feas(st3, simp(B_int(rest) == r)): continue
                                st3.assume(B(simp(B_int(rest) == r)))
                            for k in range(n): ex.store_raw(st3, ex.padd(st3, a[1], k, 1), 1, ex.sel(s.arr, simp(B_int(p) + k)) if r is not None and k < r else ex.fresh(st3, 8, "short"))
                            st3.ghost['in.pos'] = s.N if r is None else simp(B_int(p) + r); out.append((st3, Ret(rest if r is None else r)))
                return out
            k = simp(z3.If(B_int(n) <= rest, B_int(n), rest)) if not ex.q(st, B_int(n) <= rest) else n
            w_ = getattr(st.mem.get(a[1].r), 'stride', 1) if getattr(st.mem.get(a[1].r), 'kind', None) == 'a' else 1
            if w_ > 1 and ex.linear_div(n, w_) is None: raise Unsupported("read of a partial element")
            R = ex.chk_range(st, a[1], ex.linear_div(n, w_) if w_ > 1 else n, True)
            if R is None: return 0
            if R.kind != 'a': raise Unsupported("symbolic read into a small object")
            if symbols:
                j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.Implies(z3.And(j >= p, j < B_int(p) + k), z3.And(z3.Select(s.arr, j) >= 0, z3.Select(s.arr, j) <= 255)), z3.Select(s.arr, j)))
            W = st.wr(a[1].r)
            if R.stride == 1:
                m, A = W.fields[0]; d = a[1].i
                W.fields[0] = (1, L.arr_def(ex, st, lambda j: z3.If(z3.And(j >= d, j < B_int(d) + k), z3.Select(s.arr, j - d + p), z3.Select(A, j)), "rd"))
            else:
                # whole elements assembled from bytes (little-endian machine)
                kk = ex.linear_div(k, R.stride) if is_sym(k) else k // R.stride
                if kk is not None and a[1].b == 0 and all(m == 1 for m, _ in R.fields.values()) and len(R.fields) == R.stride:
                    d = a[1].i; w = R.stride
                    for b, (m, A) in list(W.fields.items()):
                        W.fields[b] = (1, L.arr_def(ex, st, lambda j, b=b, A=A: z3.If(z3.And(j >= d, j < B_int(d) + kk), z3.Select(s.arr, (j - d) * w + p + b), z3.Select(A, j)), "rd"))
                    st.ghost['in.pos'] = simp(B_int(p) + k); return k
                if kk is None or a[1].b != 0 or list(R.fields) != [0]:
                    # a short read may end inside an element: contents unspecified
                    for b in list(W.fields): W.fields[b] = (W.fields[b][0], ex.fresh_array(8 * W.fields[b][0], "rd"))
                    if not ex.q(st, B_int(n) <= rest):
                        full = simp(B_int(n) <= rest); out = []
                        for c in (full, Not(full)):
                            if c is False or (c is not True and not ex.feas(st, c)): continue
                            st2 = st.clone(); st2.assume(B(c))
                            if c is full: st2.mem[a[1].r] = R; r_ = read(ex, st2, a, None); out += r_ if isinstance(r_, list) else [(st2, Ret(r_))]
                            else: st2.ghost['in.pos'] = s.N; out.append((st2, Ret(rest)))
                        return out
                    raise Unsupported("read of a partial element")
                m, A = W.fields[0]; d = a[1].i; st_ = R.stride
                W.fields[0] = (m, L.arr_def(ex, st, lambda j: z3.If(z3.And(j >= d, j < B_int(d) + kk), z3.Sum([z3.Select(s.arr, (j - d) * st_ + p + q) * (1 << (8 * q)) for q in range(m)]), z3.Select(A, j)), "rd", 8 * m))
            st.ghost['in.pos'] = simp(B_int(p) + k)
            return k
        ex.contract("^ghost_getc$", getc, "input_stream::getc (abstract source: next byte, or eof at the end)")
        ex.contract("^ghost_read$", lambda ex, st, a, c: read(ex, st, a, c), "input_stream::read (abstract source: min(l, rest) bytes)")
class GOut:
    """output: bytes st.ghost['out'][0..st.ghost['out.len'])"""
    def __init__(s, ex, st, start=None):
        s.arr0 = z3.Array("OUT0", I, bsort(ex)); s.n0 = z3.Int("OUTLEN0") if start is None else start
        if start is None: st.assume(z3.And(s.n0 >= 0, s.n0 < (1 << 60)))
        st.ghost['out'] = s.arr0; st.ghost['out.len'] = s.n0; st.ghost['out.flushes'] = 0; st.ghost['out.flushed'] = -1
        def putc(ex, st, a, c):
            v = ex.asint(ex.unundef(st, a[1], 8), 8)
            st.ghost['out'] = z3.Store(st.ghost['out'], B_int(st.ghost['out.len']), L.chr_(ex, v)); st.ghost['out.len'] = simp(B_int(st.ghost['out.len']) + 1)
        def write(ex, st, a, c):
            n = a[2]; p0 = st.ghost['out.len']
            if ex.mode == 'bv' and is_sym(n): raise Unsupported("symbolic write length in bv mode")
            if isinstance(n, int) and n <= 64:
                for k in range(n):
                    v = ex.load_raw(st, ex.padd(st, a[1], k, 1), 1)
                    if isinstance(v, Undef): v = ex.fresh(st, 8, "uninit")
                    st.ghost['out'] = z3.Store(st.ghost['out'], B_int(p0) + k if is_sym(p0) else z3.IntVal(p0 + k), L.chr_(ex, ex.asint(v, 8)))
                st.ghost['out.len'] = simp(B_int(p0) + n); return
            R = ex.chk_range(st, a[1], n, False) if not (st.mem.get(a[1].r) is not None and st.mem[a[1].r].kind == 'a' and st.mem[a[1].r].stride > 1) else st.mem[a[1].r]
            if R is None: return
            if R.kind != 'a': raise Unsupported("symbolic write from a small object")
            A0 = st.ghost['out']; o = a[1].i
            if R.stride == 1:
                S = R.fields[0][1]
                st.ghost['out'] = L.arr_def(ex, st, lambda j: z3.If(z3.And(j >= p0, j < B_int(p0) + n), z3.Select(S, j - p0 + o), z3.Select(A0, j)), "wr")
            else:
                w = R.stride; kk = ex.linear_div(n, w)
                if kk is None: raise Unsupported("write of a partial element")
                ex.chk_range(st, a[1], kk, False)
                if all(m == 1 for m, _ in R.fields.values()) and len(R.fields) == w:
                    Fs = [R.fields[b][1] for b in range(w)]
                    def fb(j):
                        e = (j - p0) / w; q = (j - p0) % w; v = z3.Select(Fs[0], e + o)
                        for t in range(1, w): v = z3.If(q == t, z3.Select(Fs[t], e + o), v)
                        return z3.If(z3.And(j >= p0, j < B_int(p0) + n), v, z3.Select(A0, j))
                    st.ghost['out'] = L.arr_def(ex, st, fb, "wr"); st.ghost['out.len'] = simp(B_int(p0) + n); return
                S = R.fields[0][1]
                # byte q of element e goes to p0 + w*e + q
                def fn(j):
                    e = (j - p0) / w; q = (j - p0) % w
                    v = z3.Select(S, e + o); r = v % 256
                    for t in range(1, w): r = z3.If(q == t, (v / (1 << (8 * t))) % 256, r)
                    return z3.If(z3.And(j >= p0, j < B_int(p0) + n), r, z3.Select(A0, j))
                st.ghost['out'] = L.arr_def(ex, st, fn, "wr")
            st.ghost['out.len'] = simp(B_int(p0) + n)
        def flush(ex, st, a, c): st.ghost['out.flushes'] = st.ghost['out.flushes'] + 1; st.ghost['out.flushed'] = st.ghost['out.len']
        ex.contract("^ghost_putc$", putc, "output_stream::putc (abstract sink: appends)")
        ex.contract("^ghost_write$", write, "output_stream::write (abstract sink: appends)")
        ex.contract("^ghost_flush$", flush, "output_stream::flush (abstract sink)")
    def post_prefix(s, ex, st, label="earlier output untouched"):
        j = z3.Int(f"j!{fresh_id()}")
        A = st.ghost['out']
        ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n0), z3.Select(A, j) == z3.Select(s.arr0, j))), "post:" + label)
def buffer(ex, st, n, name="BUF", w=1):
    """caller-supplied array of n elements of w bytes"""
    A = z3.Array(name, I, I if ex.mode == 'int' else z3.BitVecSort(8 * w))
    if ex.mode == 'int':
        j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.And(z3.Select(A, j) >= 0, z3.Select(A, j) < (1 << (8 * w))), z3.Select(A, j)))
    return ex.new_arr(st, w, n, {0: (w, A)}, name), A
def forall(ex, st, lo, hi, body, label):
    j = z3.Int(f"j!{fresh_id()}")
    ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), body(j))), label)
def string(ex, st, name="S", maxn=1 << 60):
    N = z3.Int(name + ".n"); st.assume(z3.And(N >= 0, N < maxn)); A = z3.Array(name, I, bsort(ex)); byte_axiom(ex, st, A)
    p = ex.new_cells(st, 32, name); L.str_make(ex, st, p, N, A)
    return p, N, A
