"""Sharing and polymorphism (S03, S04): pointers through one encoder or decoder in any state its history can have left it in.
Addresses and control blocks are numbers; what an object holds is one symbol (its own encoding, by induction on the nesting: a
nested coding may extend the coder's tables and leaves what they held)."""
DRIVER = "share.cpp"
import re, z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L, gmap as G
from lib import vec_obj, vec_make, str_make
from ghost import *
from tasks import compose as C
from tasks.compose import SZ, size_sym, inp, PUT, GET
OBJ = 1 << 90           # symbol OBJ + address stands for the encoding of the contents of that object
NAME = z3.Function("NAME", I, I)     # identity of the class name of the object at an address
LO, HI = 4096, 1 << 48
DYN = {"item": False, "other": False, "b0": True, "sub": True}
def const(ex, st, fn, args=()):
    r = ex.run(st, fn, list(args))
    if len(r) != 1 or isinstance(r[0][1], Throw): raise Unsupported(fn)
    return r[0][1].v
def num(ex, st, v): return ex.addr_num(st, v) if isinstance(v, Ptr) else v
def field(ex, st, p, off=0):
    v = ex.load_raw(st, ex.padd(st, p, off, 1), 8)
    if isinstance(v, Undef): v = ex.fresh(st, 64, "uninit")
    return num(ex, st, v)
# ---- assumed contracts: reference counts of shared_ptr and weak_ptr (a control block is a number, 0 is none)
def counts(ex):
    def h(ex, st, a, c):
        m = L.method_of(c.dname); name, sig = m; base = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
        put = lambda v: ex.store_raw(st, a[0], 8, v); get = lambda p: field(ex, st, p); live = lambda v: simp(z3.And(B_int(v) != 0, z3.Select(st.ghost['alive'], B_int(v))))
        src_weak = sig.startswith("std::__weak_count")
        if base in ("__shared_count", "__weak_count"):
            if sig == "": put(0)
            elif sig.startswith(("std::__shared_count", "std::__weak_count")):
                v = get(a[1])
                if base == "__shared_count" and src_weak:
                    if "nothrow" not in sig: raise Unsupported("shared_ptr from weak_ptr, throwing")
                    v = simp(z3.If(B(live(v)), B_int(v), 0))
                put(v)
                if sig.endswith("&&"): ex.store_raw(st, a[1], 8, 0)
            elif re.match(r"[\w:<>, ]+\*(, std::integral_constant<bool, false>)?$", sig):
                t = z3.Int(f"ctl!{fresh_id()}"); st.assume(z3.And(t > 0, t < HI, z3.Select(st.ghost['alive'], t)))
                for t2, _ in st.ghost.get('ctl', ()): st.assume(t != t2)
                st.ghost['ctl'] = st.ghost.get('ctl', ()) + ((t, num(ex, st, a[1])),); put(t)
            else: raise Unsupported("count constructor " + sig)
            return None
        if base.startswith("~"): return None
        if base == "operator=":
            v = get(a[1]); put(v)
            if sig.endswith("&&"): ex.store_raw(st, a[1], 8, 0)
            return a[0]
        if base == "_M_swap": x, y = get(a[0]), get(a[1]); put(y); ex.store_raw(st, a[1], 8, x); return None
        if base == "_M_get_use_count":
            v = get(a[0]); return simp(z3.If(B(live(v)) if "__weak_count" in L.scope_of(c.dname) else B_int(v) != 0, z3.IntVal(1), z3.IntVal(0)))
        raise Unsupported("reference count " + name)
    ex.contract(r"^std::__(shared|weak)_count<", h, "reference counts of std::shared_ptr and std::weak_ptr (assumed contract; all else of them is executed)")
    ex.contract(r"^std::default_delete<.*>::operator\(\)\(", lambda ex, st, a, c: st.ghost.__setitem__('deleted', st.ghost.get('deleted', ()) + (num(ex, st, a[1]),)), "deletion of an object")
# ---- the decoder's table of classes: std::vector of (name, factory, decoder)
def entry_layout(ex, st, o_): return {k: const(ex, st, f"d_at_{k}_{o_}") for k in ("name", "new", "dec", "size")}
def classes(ex, lay):
    def settle(ex, st, o):
        """entries handed out become invalid; they were not written to"""
        for rid, snap in o.live:
            R = st.mem[rid]
            if set(R.cells) != set(snap) or any(R.cells[k][1] is not snap[k][1] for k in snap): raise Unsupported("an entry of the table of classes is written in place")
            st.wr(rid).alive = False
        return o.set(live=())
    ex.settle = settle
    def h(ex, st, a, c):
        name, sig = L.method_of(c.dname); base = re.sub(r"<.*", "", name) if not name.startswith("operator") else name; R0 = lambda v=None: [(st, Ret(v))]
        if base == "vector":
            if sig == "" or sig.startswith("std::allocator"): ex.store_raw(st, a[0], 24, Obj('cvec', n=0, N=z3.K(I, z3.IntVal(0)), F=z3.K(I, z3.IntVal(0)), D=z3.K(I, z3.IntVal(0)), live=())); return R0()
            raise Unsupported("table of classes constructor " + sig)
        if base == "~vector": return R0()
        o = ex.load_raw(st, a[0], 24)
        if not (isinstance(o, Obj) and o.kind == 'cvec'): raise Unsupported("not the table of classes")
        if base == "size": return R0(o.n)
        if base == "empty": return R0(simp(B_int(o.n) == 0))
        if base == "reserve": ex.store_raw(st, a[0], 24, settle(ex, st, o)); return R0()
        if base in ("operator[]", "at", "back", "front"):
            i = a[1] if base in ("operator[]", "at") else simp(B_int(o.n) - 1) if base == "back" else 0
            ex.oblige(st, simp(z3.And(B_int(i) >= 0, B_int(i) < B_int(o.n))), "bounds(table of classes)")
            q = ex.new_cells(st, lay["size"], "class entry"); n = z3.Int(f"cn!{fresh_id()}"); A = z3.Array(f"cname!{fresh_id()}", I, I); st.assume(z3.And(n >= 0, n < (1 << 40))); byte_axiom(ex, st, A)
            s = ex.padd(st, q, lay["name"], 1); str_make(ex, st, s, n, A); st.assume(B_int(G.view_id(ex, st, n, Ptr(L.str_obj(ex, st, s).buf, 0, 0, L.str_reg(ex, st, s).gen))) == z3.Select(o.N, B_int(i)))
            for k, Q in (("new", o.F), ("dec", o.D)): ex.store_raw(st, ex.padd(st, q, lay[k], 1), 8, Ptr(None, simp(read(Q, B_int(i)))))
            ex.store_raw(st, a[0], 24, o.set(live=o.live + ((q.r, dict(st.mem[q.r].cells)),))); return R0(q)
        if base == "push_back":
            s = ex.padd(st, a[1], lay["name"], 1); R = L.str_reg(ex, st, s); i = G.view_id(ex, st, R.size, Ptr(L.str_obj(ex, st, s).buf, 0, 0, R.gen)); f, d = (field(ex, st, a[1], lay[k]) for k in ("new", "dec")); o = settle(ex, st, o); k = B_int(o.n)
            ex.store_raw(st, a[0], 24, o.set(n=simp(k + 1), N=z3.Store(o.N, k, B_int(i)), F=z3.Store(o.F, k, B_int(f)), D=z3.Store(o.D, k, B_int(d)))); return R0()
        raise Unsupported("table of classes " + name)
    ex.contract(r"^std::vector<arpc::binary_decoder<.*>::seen_class_info, ", h, "std::vector of class entries (assumed contract)")
# ---- coders in any state
def find(ex, st, p, pred): return [Ptr(p.r, o) for o, (n, v) in sorted(st.mem[p.r].cells.items()) if isinstance(v, Obj) and pred(v)]
def one(l, what, note=""):
    if len(l) != 1: raise Unsupported(f"{len(l)} {what}{note}")
    return l[0]
def ordered(st, pres, M, n, INV):
    """numbers are given out one by one, each to one key"""
    k = z3.Int(f"k!{fresh_id()}"); st.assume(FA([k], z3.Implies(z3.Select(pres, k), z3.And(z3.Select(M, k) >= 0, z3.Select(M, k) < n, z3.Select(INV, z3.Select(M, k)) == k)), z3.Select(M, k)))
class Env:
    """one coder direction, registries included"""
    def __init__(s, ex, o_, fresh=False):
        s.ex = ex; s.o_ = o_; s.st = st = State(); ex.int_ptrs = True; st.ghost['alive'] = z3.Array("ALIVE", I, z3.BoolSort()); s.mirror = None
        cid, enc = const(ex, st, f"d_at_cid_{o_}"), const(ex, st, f"d_at_enc_{o_}"); s.cid, s.enc = 16 + cid, 16 + enc
        ex.fn_call = s.fn_call
        G.install(ex, [("", 16, {}), (r"::seen_class_info$", 32, {s.cid: 8, s.enc: 8}), (r"dynamic_object_factory::info", 32, {16: 8, 24: 4}), (r"dynamic_encoder_registry<.*>::info", 24, {16: 8}), (r"dynamic_decoder_registry<.*>::info", 24, {16: 8}), (r"^void \(\*\)\(char const\*\)$", 24, {16: 8}), (r"^unsigned long$", 16, {8: 8})])
        C.layers(ex, st, opaque=False); counts(ex); s.lay = entry_layout(ex, st, o_); classes(ex, s.lay)
        s.optr, s.otid, s.osize = (const(ex, st, f"d_at_{k}_{o_}") for k in ("ptr", "tid", "osize"))
        ex.vec_layouts.append((r"^std::vector<arpc::binary_decoder<.*>::shared_object_info, ", s.osize, {s.optr: 8, s.optr + 8: 8, s.otid: 8}))
        ex.contract(r"^arpc::dynamic_base_class::portable_class_name\(\) const", s.class_name, "portable_class_name of an object (discharged by registry.start)")
        ex.contract("^ghost_put_obj$", lambda ex, st, a, c: s.nested(st, a[0], a[1], None), "encoding of an object's contents (abstract; by induction)")
        ex.contract("^ghost_get_obj$", lambda ex, st, a, c: s.nested(st, a[0], a[1], None), "decoding of an object's contents (abstract; by induction)")
        s.off = {T: const(ex, st, f"d_base_{T}", [Ptr(None, LO)]).i - LO if DYN[T] else 0 for T in DYN}
        # registries: any content
        s.reg = {}
        for k, get, size in (("fac", "d_fac", "d_size_of_fac"), ("ereg", f"d_ereg_{o_}", f"d_size_of_ereg_{o_}"), ("dreg", f"d_dreg_{o_}", f"d_size_of_dreg_{o_}"), ("b0", "d_subs_b0", "d_size_of_subs"), ("sub", "d_subs_sub", "d_size_of_subs")):
            p = const(ex, st, get); sz = const(ex, st, size); s.reg[k] = G.arbitrary(ex, st, one(G.find_cell(ex, st, p, sz), "maps in " + get), k)
        s.tid = {T: num(ex, st, const(ex, st, f"d_tid_{T}")) for T in DYN}
    def regs(s, k, i, b=16): return simp(read(s.reg[k][1][b], B_int(i)))
    def has(s, k, i): return z3.Select(s.reg[k][0], B_int(i))
    # -- encoder
    def encoder(s, arbitrary=True):
        ex, st = s.ex, s.st; s.E = ex.new_cells(st, const(ex, st, f"d_size_enc_{s.o_}"), "encoder"); r = ex.run(st, f"d_make_enc_{s.o_}", [s.E]); s.st = st = one(r, "outcomes of construction")[0]
        s.pM = one(find(ex, st, s.E, lambda v: v.kind == 'gmap' and set(st.mem[v.r].fields) == {8}), "object tables"); s.pC = one(find(ex, st, s.E, lambda v: v.kind == 'gmap' and set(st.mem[v.r].fields) == {s.cid, s.enc}), "class tables")
        if not arbitrary: return st
        s.M0 = G.arbitrary(ex, st, s.pM, "M"); s.C0 = G.arbitrary(ex, st, s.pC, "C"); st.ghost['INV'] = z3.Array("INV", I, I); st.ghost['CINV'] = z3.Array("CINV", I, I)
        st.assume(z3.And(z3.Select(s.M0[0], 0), z3.Select(s.M0[1][8], 0) == 0, s.M0[2] >= 1)); s.enc_inv(st); return st
    def enc_inv(s, st):
        P, A, n = G.state(s.ex, st, s.pM); ordered(st, P, A[8], n, st.ghost['INV']); P, A, n = G.state(s.ex, st, s.pC); ordered(st, P, A[s.cid], n, st.ghost['CINV'])
        k = z3.Int(f"k!{fresh_id()}"); st.assume(FA([k], z3.Implies(z3.Select(P, k), z3.And(s.has("fac", k), s.has("ereg", k), z3.Select(A[s.enc], k) == z3.Select(s.reg["ereg"][1][16], k))), z3.Select(A[s.enc], k)))
    def enc_post(s, st, what, old=None, new=None):
        """the tables keep their invariant, and what they held; new: (key of the object, class) entered last"""
        ex = s.ex; old = old or (s.M0, s.C0)
        for nm, p, b, inv, (P0, A0, n0) in (("objects", s.pM, 8, 'INV', old[0]), ("classes", s.pC, s.cid, 'CINV', old[1])):
            P, A, n = G.state(ex, st, p); k = z3.Int(f"any!{fresh_id()}"); st2 = st
            ex.oblige(st2, z3.Implies(z3.Select(P0, k), z3.And(z3.Select(P, k), *[read(A[c], k) == z3.Select(A0[c], k) for c in A])), f"post:{what}: known {nm} keep their numbers")
            ex.oblige(st2, simp(B_int(n) >= n0), f"post:{what}: numbers of {nm} only grow")
            j = z3.Int(f"any!{fresh_id()}")
            ex.oblige(st2, z3.Implies(z3.Select(P, k), z3.And(read(A[b], k) >= 0, read(A[b], k) < n)), f"post:{what}: numbers of {nm} are below the count")
            ex.oblige(st2, z3.Implies(z3.And(z3.Select(P, k), z3.Select(P, j), read(A[b], k) == read(A[b], j)), k == j), f"post:{what}: no two {nm} share a number")
        P, A, n = G.state(ex, st, s.pC); k = z3.Int(f"any!{fresh_id()}"); ex.oblige(st, z3.Implies(z3.Select(P, k), read(A[s.enc], k) == z3.Select(s.reg["ereg"][1][16], k)), f"post:{what}: every known class has its registered encoder")
    def same_map(s, st, p, old, what, but=None):
        ex = s.ex; P, A, n = G.state(ex, st, p); P0, A0, n0 = old; k = z3.Int(f"any!{fresh_id()}"); hyp = k == k if but is None else k != but
        ex.oblige(st, z3.Implies(hyp, z3.Select(P, k) == z3.Select(P0, k)), f"post:{what}: who is known")
        for b in A: ex.oblige(st, z3.Implies(z3.And(hyp, z3.Select(P0, k)), read(A[b], k) == z3.Select(A0[b], k)), f"post:{what}: what is known")
        ex.oblige(st, simp(B_int(n) == n0 + (0 if but is None else 1)), f"post:{what}: how many are known")
    # -- decoder
    def decoder(s, arbitrary=True):
        ex, st = s.ex, s.st; s.D = ex.new_cells(st, const(ex, st, f"d_size_dec_{s.o_}"), "decoder"); r = ex.run(st, f"d_make_dec_{s.o_}", [s.D]); s.st = st = one(r, "outcomes of construction")[0]
        s.pV = one(find(ex, st, s.D, lambda v: v.kind == 'vec' and set(st.mem[v.buf].fields) == {s.optr, s.optr + 8, s.otid}), "object vectors"); s.pCV = one(find(ex, st, s.D, lambda v: v.kind == 'cvec'), "class vectors")
        if not arbitrary: return st
        W = st.wr(vec_obj(ex, st, s.pV).buf); n = z3.Int("V.n"); st.assume(z3.And(n >= 1, n < (1 << 40))); W.size = n; W.fields = {b: (8, z3.Array(f"V.{b}", I, I)) for b in W.fields}
        nc = z3.Int("CV.n"); st.assume(z3.And(nc >= 0, nc < (1 << 40))); ex.store_raw(st, s.pCV, 24, Obj('cvec', n=nc, N=z3.Array("CV.N", I, I), F=z3.Array("CV.F", I, I), D=z3.Array("CV.D", I, I), live=()))
        s.dec_inv(st); s.V0 = s.vec(st); s.CV0 = s.cvec(st); return st
    def vec(s, st): R = st.mem[vec_obj(s.ex, st, s.pV).buf]; return R.size, {b: A for b, (m, A) in R.fields.items()}
    def cvec(s, st): return s.ex.load_raw(st, s.pCV, 24)
    def dec_inv(s, st):
        n, A = s.vec(st); k = z3.Int(f"k!{fresh_id()}"); P = A[s.optr]
        st.assume(z3.Select(P, 0) == 0)
        st.assume(FA([k], z3.And(z3.Or(z3.Select(P, k) == 0, z3.And(z3.Select(P, k) >= LO, z3.Select(P, k) < HI)), z3.Select(A[s.optr + 8], k) >= 0, z3.Select(A[s.otid], k) >= 0), z3.Select(P, k)))
        o = s.cvec(st); k = z3.Int(f"k!{fresh_id()}")
        st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < B_int(o.n)), z3.And(s.has("fac", z3.Select(o.N, k)), s.has("dreg", z3.Select(o.N, k)), z3.Select(o.F, k) == z3.Select(s.reg["fac"][1][16], z3.Select(o.N, k)), z3.Select(o.D, k) == z3.Select(s.reg["dreg"][1][16], z3.Select(o.N, k)), z3.Select(o.N, k) >= 0, z3.Select(o.N, k) < G.END)), z3.Select(o.N, k)))
    def dec_kept(s, st, what, old=None):
        n, A = s.vec(st); n0, A0 = (old or (s.V0, s.CV0))[0]; k = z3.Int(f"any!{fresh_id()}"); ex = s.ex
        ex.oblige(st, z3.Implies(z3.And(k >= 0, k < n0), z3.And(*[read(A[b], k) == read(A0[b], k) for b in A])), f"post:{what}: known objects keep their numbers"); ex.oblige(st, simp(B_int(n) >= n0), f"post:{what}: object numbers only grow")
        o, o0 = s.cvec(st), (old or (s.V0, s.CV0))[1]; k = z3.Int(f"any!{fresh_id()}")
        ex.oblige(st, z3.Implies(z3.And(k >= 0, k < B_int(o0.n)), z3.And(read(o.N, k) == read(o0.N, k), read(o.F, k) == read(o0.F, k), read(o.D, k) == read(o0.D, k))), f"post:{what}: known classes keep their numbers"); ex.oblige(st, simp(B_int(o.n) >= B_int(o0.n)), f"post:{what}: class numbers only grow")
        k = z3.Int(f"any!{fresh_id()}"); N = read(o.N, k)
        ex.oblige(st, z3.Implies(z3.And(k >= 0, k < B_int(o.n)), z3.And(s.has("fac", N), s.has("dreg", N), read(o.F, k) == z3.Select(s.reg["fac"][1][16], N), read(o.D, k) == z3.Select(s.reg["dreg"][1][16], N))), f"post:{what}: every known class has its registered factory and decoder")
    # -- contracts
    def class_name(s, ex, st, a, c):
        i = num(ex, st, a[0]); names = st.ghost.get('names', ())
        for t, n, p in names:
            if simp(B_int(t)).eq(simp(B_int(i))) if is_sym(simp(B_int(t))) and is_sym(simp(B_int(i))) else t is i: return Agg([n, p])
        n = z3.Int(f"name.n!{fresh_id()}"); st.assume(z3.And(n >= 0, n < (1 << 40))); A = z3.Array(f"name!{fresh_id()}", I, I); byte_axiom(ex, st, A); p = ex.new_arr(st, 1, n, {0: (1, A)}, "cstr")
        ex.oblige(st, simp(B_int(i) != 0), "name of an object that exists"); st.assume(B_int(G.view_id(ex, st, n, p)) == NAME(B_int(i))); st.ghost['names'] = names + ((i, n, p),); return Agg([n, p])
    def fn_call(s, ex, st, v, args, c):
        if len(args) == 0:
            t = z3.Int(f"obj!{fresh_id()}"); st.assume(z3.And(t >= LO, t < HI))
            if s.mirror is not None: i = NAME(s.mirror); st.assume(z3.Implies(B_int(v) == z3.Select(s.reg["fac"][1][16], i), NAME(t) == i))       # a factory makes objects of its class (registry.factory)
            st.ghost['made'] = st.ghost.get('made', ()) + ((v, t),); return Ptr(None, t)
        if len(args) != 2: raise Unsupported("call through a function value")
        return s.nested(st, args[0], args[1], v)
    def nested(s, st, coder, obj, fn):
        """the contents of an object are coded, in between or after which anything may have been coded that they refer to"""
        ex = s.ex; addr = num(ex, st, obj); put = getattr(s, 'E', None) is not None and coder.r == s.E.r; h = st.ghost.get('nested', ()); rec = dict(fn=fn, addr=addr, put=put); out = []
        if (coder.r, coder.i) != ((s.E if put else s.D).r, 0): raise Unsupported("coder at an offset")
        if put:
            rec.update(M=G.state(ex, st, s.pM), C=G.state(ex, st, s.pC), pos=st.ghost['out.len'], before=st.clone())
            st.ghost['out'] = z3.Store(st.ghost['out'], B_int(st.ghost['out.len']), OBJ + B_int(addr)); st.ghost['out.len'] = simp(B_int(st.ghost['out.len']) + 1)
        else:
            rec.update(V=s.vec(st), CV=s.cvec(st), pos=st.ghost['in.pos'], before=st.clone()); p = st.ghost['in.pos']; IN, N = st.ghost['in.arr'], st.ghost['in.N']
            st.ghost['nested'] = h + (rec,); s2 = st.clone(); s2.assume(B(simp(B_int(p) >= N)))
            if s.mirror is not None: ex.oblige(st, len(h) == 1 and h[0]['put'], "post:the contents that are read were written"); ex.oblige(st, simp(read(IN, p) == OBJ + B_int(h[0]['addr'])) if h else False, "post:contents are read from where they were written")
            if ex.feas(s2, True): s2.ghost['threw'] = True; out.append(throw_error(ex, s2, EOF))
            st.assume(B(simp(B_int(p) < N)))
            if not ex.feas(st, True): return out
            v = ex.sel(IN, p); st.ghost['in.pos'] = simp(B_int(p) + 1)
        st.ghost['nested'] = h + (rec,)
        if put:
            for p, inv, sh in ((s.pM, 'INV', True), (s.pC, 'CINV', False)):
                P0, A0, n0 = G.state(ex, st, p); P, A, n = G.arbitrary(ex, st, p, f"{inv}!{fresh_id()}"); k = z3.Int(f"k!{fresh_id()}")
                for b in A: st.assume(FA([k], z3.Implies(z3.Select(P0, k), z3.And(z3.Select(P, k), z3.Select(A[b], k) == read(A0[b], k))), z3.Select(P, k)))
                st.assume(n >= n0); st.ghost[inv] = z3.Array(f"{inv}!{fresh_id()}", I, I)
            s.enc_inv(st)
        else:
            buf = vec_obj(ex, st, s.pV).buf; n0, A0 = s.vec(st); W = L.bump(ex, st, buf); n = z3.Int(f"V.n!{fresh_id()}"); st.assume(z3.And(n >= n0, n < (1 << 41))); W.size = n; W.fields = {b: (8, z3.Array(f"V.{b}!{fresh_id()}", I, I)) for b in W.fields}; k = z3.Int(f"k!{fresh_id()}")
            for b, (m, A) in W.fields.items(): st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < n0), z3.Select(A, k) == read(A0[b], k)), z3.Select(A, k)))
            o = ex.settle(ex, st, s.cvec(st)); nc = z3.Int(f"CV.n!{fresh_id()}"); st.assume(z3.And(nc >= B_int(o.n), nc < (1 << 41))); o2 = Obj('cvec', n=nc, live=(), **{x: z3.Array(f"CV.{x}!{fresh_id()}", I, I) for x in "NFD"})
            for x in "NFD": k = z3.Int(f"k!{fresh_id()}"); st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < B_int(o.n)), z3.Select(o2.f[x], k) == read(o.f[x], k)), z3.Select(o2.f[x], k)))
            ex.store_raw(st, s.pCV, 24, o2); s.dec_inv(st)
            if s.mirror is not None: s.mirror_nested(st, h, rec)
        if s.mirror is None:
            s3 = st.clone(); s3.ghost['threw'] = True; out.append(throw_error(ex, s3, IOERR if put else MISMATCH))
        return out + [(st, Ret(None))]
    # -- an encoder, and the decoder of what it has written
    def related(s, M, C, V, CV):
        """facts, each with its variables: object numbers and class numbers mean the same on both sides"""
        P, A, n = M; n2, A2 = V; Pc, Ac, nc = C; k, i, j, c = (z3.Int(f"{x}!{fresh_id()}") for x in "kijc"); num = read(A[8], k); at = lambda b, x: read(A2[b], x)
        yield "as many objects", (), B_int(n2) == n, None
        yield "null is null", (k,), z3.Implies(z3.Select(P, k), (k == 0) == (at(s.optr, num) == 0)), num
        yield "each object has its own class and type", (k,), z3.Implies(z3.And(z3.Select(P, k), k != 0), z3.And(at(s.otid, num) == TYPE(k), z3.Implies(TYPE(k) == B_int(s.tid["b0"]), NAME(at(s.optr, num)) == NAME(k)))), num
        yield "distinct objects are distinct", (i, j), z3.Implies(z3.And(i >= 0, i < B_int(n), j >= 0, j < B_int(n), i != j), at(s.optr, i) != at(s.optr, j)), z3.MultiPattern(z3.Select(A2[s.optr], i), z3.Select(A2[s.optr], j)) if is_const(A2[s.optr]) else None
        yield "as many classes", (), B_int(CV.n) == nc, None
        yield "class numbers mean the same class", (c,), z3.Implies(z3.Select(Pc, c), read(CV.N, read(Ac[s.cid], c)) == c), z3.Select(Ac[s.cid], c) if is_const(Ac[s.cid]) else None
    def assume_related(s, st, *a):
        for _, vs, f, pat in s.related(*a): st.assume(FA(list(vs), f, *([pat] if pat is not None else [])) if vs else f)
    def oblige_related(s, st, what, *a):
        for nm, vs, f, _ in s.related(*a): s.ex.oblige(st, simp(f), f"post:{what}: {nm}")
    def now(s, st): return G.state(s.ex, st, s.pM), G.state(s.ex, st, s.pC), s.vec(st), s.cvec(st)
    def mirror_nested(s, st, h, rec):
        if len(h) != 1 or not h[0]['put']: return
        b4 = rec['before']; n, A = rec['V']; fresh(s, b4, n, A, rec['addr']) if not s.single else None
        s.oblige_related(b4, "before the contents", h[0]['M'], h[0]['C'], rec['V'], rec['CV']); s.assume_related(st, *s.now(st))
def is_const(A): return z3.is_const(A)
TYPE = z3.Function("TYPE", I, I)
def fresh(s, st, n, A, addr):
    """an object just made is none of those the decoder keeps alive"""
    k = z3.Int(f"k!{fresh_id()}"); st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < s.V0[0]), z3.Select(s.V0[1][s.optr], k) != B_int(addr)), z3.Select(s.V0[1][s.optr], k)))
def pointer(ex, st, nm, weak=False):
    """any pointer of the caller's: (cell, address held, control block, address referred to)"""
    a, c = z3.Int(nm + ".ptr"), z3.Int(nm + ".ctl"); st.assume(z3.And(z3.Or(a == 0, z3.And(a >= LO, a < HI)), c >= 0, c < HI))
    p = ex.new_cells(st, 16, nm); ex.store_raw(st, p, 8, Ptr(None, a)); ex.store_raw(st, ex.padd(st, p, 8, 1), 8, c)
    if not weak: st.assume((a == 0) == (c == 0))
    return p, a, c, z3.If(z3.And(c != 0, z3.Select(st.ghost['alive'], c)), a, 0) if weak else a
# ---- encoding
def object_written(env, ex, st, T, addr, pos, what):
    """what follows at pos is the object at addr, as an object of its own class: -> position after it; nested state checked"""
    out = st.ghost['out']; h = st.ghost.get('nested', ()); ex.oblige(st, len(h) == 1, f"post:{what}: its contents are written once")
    if len(h) != 1: return None
    r = h[0]; ex.oblige(st, simp(B_int(r['addr']) == addr), f"post:{what}: the contents are that object's")
    if not DYN[T]: ex.oblige(st, r['fn'] is None, f"post:{what}: as its own class"); ex.oblige(st, simp(B_int(r['pos']) == pos), f"post:{what}: at once"); return
    if r['fn'] is None: ex.oblige(st, False, f"post:{what}: by the encoder of its class"); return
    P, A, n = env.C0; i = NAME(addr); known = z3.Select(P, i)
    ex.oblige(st, simp(B_int(r['fn']) == z3.Select(env.reg["ereg"][1][16], i)), f"post:{what}: by the encoder registered for its class"); ex.oblige(st, z3.Or(known, z3.And(env.has("fac", i), env.has("ereg", i))), f"post:{what}: of a registered class")
    ex.oblige(st, simp(z3.Select(out, pos) == size_sym(z3.If(known, z3.Select(A[env.cid], i), n))), f"post:{what}: the number of its class")
    ex.oblige(st, z3.Implies(known, B_int(r['pos']) == pos + 1), f"post:{what}: a known class is written as its number only")
    if not ex.feas(st, Not(known)): cover(ex, st, what + ", known class"); return
    s2 = st; nn, p = next((n_, p_) for t, n_, p_ in st.ghost.get('names', ()))
    s2 = st.clone(); s2.assume(Not(known)); N = B_int(nn); NA = s2.mem[p.r].fields[0][1]; q = pos + 2
    ex.oblige(s2, simp(z3.Select(out, pos + 1) == size_sym(N)), f"post:{what}: length of the class name"); forall(ex, s2, 0, N, lambda j: z3.Select(out, q + j) == z3.Select(NA, j), f"post:{what}: the class name")
    h_ = B_int(env.regs("fac", i, 24))
    for b in range(4): ex.oblige(s2, simp(read(out, q + N + b)) == (h_ / (1 << (8 * (b if env.o_ == 'le' else 3 - b)))) % 256, f"post:{what}: byte {b} of the structure hash")
    ex.oblige(s2, simp(B_int(r['pos']) == q + N + 4), f"post:{what}: then its contents")
    Pn, An, n2 = r['C']; b4 = r['before']
    ex.oblige(s2, z3.And(z3.Select(Pn, i), read(An[env.cid], i) == n), f"post:{what}: the class has its number before the contents are written"); cover(ex, s2, what + ", new class")
def put_ptr(o_, T, weak=False):
    def t(ex):
        env = Env(ex, o_); st = env.encoder(); g = GOut(ex, st); p, a, c, tgt = pointer(ex, st, "P", weak); key = z3.If(tgt == 0, 0, tgt + env.off[T]); P, A, n = env.M0; null = tgt == 0; known = z3.Select(P, key)
        for st2, o in ex.run(st, f"d_{'w' if weak else ''}put_{T}_{o_}", [env.E, p]):
            out = st2.ghost['out']; h = st2.ghost.get('nested', ()); threw = isinstance(o, Throw); first = z3.Select(out, g.n0)
            g.post_prefix(ex, st2); ex.oblige(st2, simp(first == size_sym(z3.If(null, 0, z3.If(known, z3.Select(A[8], key), n)))), "post:the number of the object comes first")
            env.enc_post(st2, "afterwards")
            if threw and not st2.ghost.get('threw'):
                ex.oblige(st2, DYN[T] and o.tinfo == NOTFOUND, f"post:throws only for an unregistered class ({o.tinfo})"); i = NAME(key)
                ex.oblige(st2, z3.And(Not(null), Not(known), Not(z3.And(env.has("fac", i), env.has("ereg", i))), Not(z3.Select(env.C0[0], i))), "post:only a class that is not registered is refused"); cover(ex, st2, "unregistered"); continue
            if not h:
                ex.oblige(st2, z3.Or(null, known), "post:a new object is written"); ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == g.n0 + 1), "post:a known object is written as its number only")
                env.same_map(st2, env.pM, env.M0, "nothing new"); env.same_map(st2, env.pC, env.C0, "nothing new")
                cover(ex, st2, "null or known"); continue
            ex.oblige(st2, z3.And(Not(null), Not(known)), "post:a known object is not written again")
            object_written(env, ex, st2, T, key, g.n0 + 1, "object"); Pn, An, nn = h[0]['M']
            ex.oblige(st2, z3.And(z3.Select(Pn, key), read(An[8], key) == n), "post:the object has its number before its contents are written")
            b4 = h[0]['before']; env.same_map(b4, env.pM, env.M0, "before the contents", but=key)
            if not threw: ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == B_int(h[0]['pos']) + 1), "post:nothing follows")
            cover(ex, st2, "new")
        C.used(ex, PUT)
    return t
def put_unique(o_, T):
    def t(ex):
        env = Env(ex, o_); st = env.encoder(); g = GOut(ex, st); a = z3.Int("U.ptr"); st.assume(z3.Or(a == 0, z3.And(a >= LO, a < HI))); p = ex.new_cells(st, 8, "U"); ex.store_raw(st, p, 8, Ptr(None, a)); null = a == 0; key = a + env.off[T]
        for st2, o in ex.run(st, f"d_uput_{T}_{o_}", [env.E, p]):
            out = st2.ghost['out']; h = st2.ghost.get('nested', ()); threw = isinstance(o, Throw); g.post_prefix(ex, st2); ex.oblige(st2, simp(read(out, g.n0)) == z3.If(null, 0, 1), "post:whether there is an object comes first"); env.enc_post(st2, "afterwards")
            if threw and not st2.ghost.get('threw'):
                i = NAME(key); ex.oblige(st2, DYN[T] and o.tinfo == NOTFOUND, f"post:throws only for an unregistered class ({o.tinfo})"); ex.oblige(st2, z3.And(Not(null), Not(z3.And(env.has("fac", i), env.has("ereg", i))), Not(z3.Select(env.C0[0], i))), "post:only a class that is not registered is refused"); cover(ex, st2, "unregistered"); continue
            if not h: ex.oblige(st2, null, "post:an object is written"); ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == g.n0 + 1), "post:nothing follows"); env.same_map(st2, env.pM, env.M0, "nothing new"); env.same_map(st2, env.pC, env.C0, "nothing new"); cover(ex, st2, "null"); continue
            ex.oblige(st2, Not(null), "post:no object is written for null"); object_written(env, ex, st2, T, key, g.n0 + 1, "object"); env.same_map(h[0]['before'], env.pM, env.M0, "before the contents")
            if not threw: ex.oblige(st2, simp(B_int(st2.ghost['out.len']) == B_int(h[0]['pos']) + 1), "post:nothing follows")
            cover(ex, st2, "object")
        if DYN[T]: C.used(ex, PUT)
    return t
# ---- decoding
def name_at(env, ex, st, pos, n):
    """identity of the n bytes of input at pos"""
    IN = st.ghost['in.arr']; m = z3.Int(f"nm.n!{fresh_id()}"); st.assume(m == z3.If(n > 0, n, 0)); n = m; q = ex.new_arr(st, 1, n, {0: (1, L.arr_def(ex, st, lambda j: z3.Select(IN, B_int(pos) + j), "nm"))}, "input slice"); return B_int(G.view_id(ex, st, n, q))
class Rejected:
    """what a stream has to look like to be refused"""
    def __init__(s, ex, st): s.ex = ex; s.any = []; s.missing = []; s.length = False
    def mismatch(s, c): s.any.append(c)
def parse_class(env, ex, st, T, pos):
    """what the input says about the class of the object at pos: conditions for MISMATCH, for NOTFOUND, and (known, id, factory, decoder, position of the contents)"""
    IN = st.ghost['in.arr']; y = read(IN, pos); ok = z3.And(y >= SZ, y < SZ + (1 << 64)); c = y - SZ; o0 = env.CV0; nc = B_int(o0.n)
    known = z3.And(ok, c < nc); new = z3.And(ok, c == nc); z = read(IN, pos + 1); zok = z3.And(z >= SZ, z < SZ + (1 << 64)); n = z - SZ
    return dict(y=y, ok=ok, c=c, known=known, new=new, zok=zok, n=n, wrong=z3.Or(Not(ok), c > nc))
def class_of(env, ex, st, T, pos, what):
    """in a state where the object's class was taken: -> [(state, identity of the class name, factory, decoder, position after)]"""
    q = parse_class(env, ex, st, T, pos); o0 = env.CV0; IN = st.ghost['in.arr']; out = []
    ex.oblige(st, z3.Or(q['known'], q['new']), f"post:{what}: the class number was assigned or is the next one")
    if ex.feas(st, q['known']):
        s2 = st.clone(); s2.assume(q['known']); out.append((s2, z3.Select(o0.N, q['c']), z3.Select(o0.F, q['c']), z3.Select(o0.D, q['c']), pos + 1, "known class"))
    if ex.feas(st, q['new']):
        s2 = st.clone(); s2.assume(q['new']); ex.oblige(s2, q['zok'], f"post:{what}: a class name follows"); n = q['n']; i = name_at(env, ex, s2, pos + 2, n); h = hash_at(env, IN, pos + 2 + n)
        ex.oblige(s2, z3.And(env.has("fac", i), env.has("dreg", i)), f"post:{what}: the class is registered"); ex.oblige(s2, h == env.regs("fac", i, 24), f"post:{what}: its structure hash agrees")
        out.append((s2, i, env.regs("fac", i), env.regs("dreg", i), pos + 2 + n + 4, "new class"))
    return out
def hash_at(env, IN, pos): return sum(read(IN, pos + b) * (1 << (8 * (b if env.o_ == 'le' else 3 - b))) for b in range(4))
def refused(env, ex, st, T, o, pos, own, what):
    """an exception that no nested decoding threw: own = list of conditions under which the object itself is refused, or None if its class is never looked at"""
    IN, N = st.ghost['in.arr'], st.ghost['in.N']
    if o.tinfo == EOF: ex.oblige(st, simp(B_int(st.ghost['in.pos']) >= N), f"post:{what}: end of file only at the end of the input"); cover(ex, st, what + ", eof"); return
    if not DYN[T]:
        ex.oblige(st, o.tinfo == MISMATCH, f"post:{what}: data_mismatch is what is thrown ({o.tinfo})"); ex.oblige(st, z3.Or(*own), f"post:{what}: only malformed input is refused"); cover(ex, st, what + ", refused"); return
    q = parse_class(env, ex, st, T, pos); n = q['n']
    if o.tinfo == "_ZTISt12length_error": ex.oblige(st, z3.And(q['new'], q['zok'], n >= 1 << 40), f"post:{what}: only an absurd name is too long"); cover(ex, st, what + ", name too long"); return
    ex.oblige(st, o.tinfo in (MISMATCH, NOTFOUND), f"post:{what}: data_mismatch or not_found is what is thrown ({o.tinfo})"); i = name_at(env, ex, st, pos + 2, n); named = z3.And(q['new'], q['zok'])
    if o.tinfo == NOTFOUND: ex.oblige(st, z3.And(named, Not(z3.And(env.has("fac", i), env.has("dreg", i)))), f"post:{what}: not_found only for an unregistered class")
    else:
        h = hash_at(env, IN, pos + 2 + n)
        ex.oblige(st, z3.Or(*own, q['wrong'], z3.And(q['new'], Not(q['zok'])), z3.And(named, h != env.regs("fac", i, 24)), z3.And(named, Not(env.has(T, i))), z3.And(q['known'], Not(env.has(T, z3.Select(env.CV0.N, q['c']))))), f"post:{what}: only malformed input is refused")
    cover(ex, st, what + ", refused")
def object_read(env, ex, st, T, pos, p_addr, what):
    """one object was made and filled in; p_addr: the address now held"""
    h = st.ghost.get('nested', ()); made = st.ghost.get('made', ()); ex.oblige(st, len(h) == 1, f"post:{what}: contents are read once")
    if len(h) != 1: return
    r = h[0]; ex.oblige(st, simp(B_int(r['addr']) == B_int(p_addr) + env.off[T]), f"post:{what}: the contents are that object's")
    if not DYN[T]: ex.oblige(st, r['fn'] is None, f"post:{what}: as its own class"); ex.oblige(st, simp(B_int(r['pos']) == pos), f"post:{what}: at once"); return
    ex.oblige(st, len(made) == 1 and r['fn'] is not None, f"post:{what}: one object is made, and read by its class")
    if len(made) != 1 or r['fn'] is None: return
    F, t = made[0]; ex.oblige(st, simp(B_int(p_addr) == t - env.off[T]), f"post:{what}: the object that was made is the one referred to")
    for s2, i, f, d, at, lab in class_of(env, ex, st, T, pos, what):
        ex.oblige(s2, env.has(T, i), f"post:{what}, {lab}: its class derives from the pointed-to one"); ex.oblige(s2, simp(B_int(F) == f), f"post:{what}, {lab}: made by the factory of that class"); ex.oblige(s2, simp(B_int(r['fn']) == d), f"post:{what}, {lab}: read by the decoder of that class"); ex.oblige(s2, simp(B_int(r['pos']) == at), f"post:{what}, {lab}: where its contents are")
        o, o0 = r['CV'], env.CV0
        if lab == "new class": ex.oblige(s2, z3.And(B_int(o.n) == B_int(o0.n) + 1, read(o.N, B_int(o0.n)) == i, read(o.F, B_int(o0.n)) == f, read(o.D, B_int(o0.n)) == d), f"post:{what}: the class has its number before the contents are read")
        else: ex.oblige(s2, B_int(o.n) == B_int(o0.n), f"post:{what}: a known class gets no further number")
        cover(ex, s2, f"{what}, {lab}")
def get_ptr(o_, T, weak=False):
    def t(ex):
        env = Env(ex, o_); st = env.decoder(); inp(ex, st); p, a, c, _ = pointer(ex, st, "P", weak); IN = st.ghost['in.arr']; x = z3.Select(IN, 0); isnum = z3.And(x >= SZ, x < SZ + (1 << 64)); d = x - SZ; n, A = env.V0; PT, CT, TY = A[env.optr], A[env.optr + 8], A[env.otid]
        null = z3.And(isnum, d == 0); known = z3.And(isnum, d > 0, d < n); new = z3.And(isnum, d == n); e = z3.Select(PT, d); fits = z3.And(e != 0, z3.Select(TY, d) == env.tid[T], *([env.has(T, NAME(e))] if DYN[T] else []))
        for st2, o in ex.run(st, f"d_{'w' if weak else ''}get_{T}_{o_}", [env.D, p]):
            threw = isinstance(o, Throw); now, ctl = field(ex, st2, p), field(ex, st2, p, 8); h = st2.ghost.get('nested', ()); env.dec_kept(st2, "afterwards")
            if st2.ghost.get('threw'): ex.oblige(st2, threw, "post:what nested decoding throws is passed on")
            if threw and not st2.ghost.get('threw'):
                refused(env, ex, st2, T, o, 1, [Not(isnum), d > n, z3.And(known, Not(fits))], "pointer"); ex.oblige(st2, z3.Or(B_int(now) == a, B_int(now) == 0), "post:nothing is handed out when the input is refused")
                ex.oblige(st2, z3.Implies(B_int(now) == a, z3.Or(a == 0, B_int(ctl) == c)), "post:the pointer is as it was"); continue
            if not h:
                ex.oblige(st2, z3.Or(null, known), "post:only null and known objects are not read"); ex.oblige(st2, simp(B_int(st2.ghost['in.pos'])) == 1, "post:only the number is read"); ex.oblige(st2, len(st2.ghost.get('made', ())) == 0, "post:no object is made for a reference")
                ex.oblige(st2, z3.Implies(null, B_int(now) == 0), "post:null stays null"); ex.oblige(st2, z3.Implies(known, fits), "post:a reference to an object that does not fit is refused"); ex.oblige(st2, z3.Implies(known, z3.And(B_int(now) == e - env.off[T], B_int(ctl) == z3.Select(CT, d))), "post:a reference is to the object with that number")
                cover(ex, st2, "null or known")
                n2, A2 = env.vec(st2); ex.oblige(st2, simp(B_int(n2) == n), "post:no number is assigned for a reference"); continue
            r = h[0]; n2, A2 = r['V']; ex.oblige(st2, new, "post:only the next number is a new object")
            ex.oblige(st2, z3.And(B_int(n2) == n + 1, read(A2[env.optr], n) == B_int(r['addr']), read(A2[env.otid], n) == env.tid[T]), "post:the object has its number before its contents are read")
            b4 = r['before']; env.dec_kept(b4, "before the contents")
            if weak and threw: ex.oblige(st2, B_int(now) == a, "post:the pointer is as it was"); now = simp(B_int(r['addr']) - env.off[T])
            else: ex.oblige(st2, B_int(ctl) == read(A2[env.optr + 8], n), "post:the pointer shares ownership with later references")
            object_read(env, ex, st2, T, 1, now, "new object")
            if not threw: ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == B_int(r['pos']) + 1), "post:nothing more is read")
            cover(ex, st2, "new")
        C.used(ex, GET)
    return t
def get_unique(o_, T):
    def t(ex):
        env = Env(ex, o_); st = env.decoder(); inp(ex, st); a = z3.Int("U.ptr"); st.assume(z3.Or(a == 0, z3.And(a >= LO, a < HI))); p = ex.new_cells(st, 8, "U"); ex.store_raw(st, p, 8, Ptr(None, a)); IN = st.ghost['in.arr']; x = z3.Select(IN, 0)
        for st2, o in ex.run(st, f"d_uget_{T}_{o_}", [env.D, p]):
            threw = isinstance(o, Throw); now = field(ex, st2, p); h = st2.ghost.get('nested', ())
            for r in h: st2.assume(B_int(r['addr']) != a + env.off[T])      # an object made while another lives is elsewhere
            env.dec_kept(st2, "afterwards"); gone = st2.ghost.get('deleted', ()); n2, A2 = env.vec(st2 if not h else h[0]['before']); ex.oblige(st2, simp(B_int(n2) == env.V0[0]), "post:an object of one owner gets no number")
            if st2.ghost.get('threw'): ex.oblige(st2, threw, "post:what nested decoding throws is passed on")
            if threw and not st2.ghost.get('threw'): refused(env, ex, st2, T, o, 1, [x > 1], "pointer"); ex.oblige(st2, z3.Or(B_int(now) == a, B_int(now) == 0), "post:nothing is handed out when the input is refused")
            elif not h: ex.oblige(st2, z3.And(x == 0, B_int(now) == 0), "post:null stays null"); ex.oblige(st2, simp(B_int(st2.ghost['in.pos'])) == 1, "post:only the flag is read"); cover(ex, st2, "null")
            else:
                ex.oblige(st2, x == 1, "post:an object is read only if there is one"); env.dec_kept(h[0]['before'], "before the contents"); object_read(env, ex, st2, T, 1, now, "object")
                if not threw: ex.oblige(st2, simp(B_int(st2.ghost['in.pos']) == B_int(h[0]['pos']) + 1), "post:nothing more is read")
            ex.oblige(st2, len(gone) <= 1, "post:at most one object is deleted"); kept = simp(B_int(now) == a)
            ex.oblige(st2, z3.Implies(Not(kept), z3.Implies(a != 0, B(len(gone) == 1))), "post:the object replaced is deleted")
            for g in gone: ex.oblige(st2, simp(B_int(g) == a), "post:the object replaced is the one deleted"); ex.oblige(st2, Not(kept), "post:an object still referred to is not deleted")
        if DYN[T]: C.used(ex, GET)
    return t
def round_trip(o_, T, kind):
    def t(ex):
        env = Env(ex, o_); env.encoder(); st = env.decoder(); g = GOut(ex, st); inp(ex, st); IN, N = st.ghost['in.arr'], st.ghost['in.N']; env.single = kind == "unique"
        if kind == "unique": a = z3.Int("P.ptr"); st.assume(z3.Or(a == 0, z3.And(a >= LO, a < HI))); p = ex.new_cells(st, 8, "P"); ex.store_raw(st, p, 8, Ptr(None, a)); tgt = a
        else: p, a, c, tgt = pointer(ex, st, "P", kind == "weak")
        key = z3.If(tgt == 0, 0, tgt + env.off[T]); env.mirror = key; i = NAME(key); w = {"shared": "", "weak": "w", "unique": "u"}[kind]
        st.assume(z3.Implies(tgt != 0, TYPE(key) == env.tid[T]))
        if DYN[T]: st.assume(z3.Implies(tgt != 0, z3.And(*[env.has(k, i) for k in ("fac", "ereg", "dreg", T)])))
        env.assume_related(st, *env.now(st))
        for st2, o in ex.run(st, f"d_{w}put_{T}_{o_}", [env.E, p]):
            ex.oblige(st2, not isinstance(o, Throw), "post:encoding a registered object does not throw")
            if isinstance(o, Throw): continue
            out = st2.ghost['out']; j = z3.Int(f"j!{fresh_id()}"); st2.assume(FA([j], z3.Implies(z3.And(j >= 0, j < N), z3.Select(IN, j) == z3.Select(out, g.n0 + j)), z3.Select(IN, j))); st2.assume(N == B_int(st2.ghost['out.len']) - g.n0)
            nm = [n for _, n, _ in st2.ghost.get('names', ())]
            if DYN[T] and nm and st2.ghost.get('nested'):        # a lemma on the way: the bytes of the hash, and the hash they make up
                h = B_int(env.regs("fac", i, 24)); at = 3 + B_int(nm[0]); parts = [(h / (1 << (8 * b))) % 256 for b in range(4)]; x = z3.Int("x"); ex.oblige(State(), z3.Implies(z3.And(x >= 0, x < (1 << 32)), sum(((x / (1 << (8 * b))) % 256) * (1 << (8 * b)) for b in range(4)) == x), "post:lemma: a number is made up of its bytes")
                new = Not(z3.Select(env.C0[0], i)); fs = [z3.Implies(new, read(IN, at + (b if o_ == 'le' else 3 - b)) == parts[b]) for b in range(4)] + [z3.Implies(new, read(IN, z3.IntVal(2)) == size_sym(B_int(nm[0])))]
                for f in fs: ex.oblige(st2, simp(f), "post:lemma: the hash is where it is read")
                for f in fs: st2.assume(f)
                st2.assume(z3.And(h >= 0, h < (1 << 32), sum(parts[b] * (1 << (8 * b)) for b in range(4)) == h))
            if kind == "unique": q = ex.new_cells(st2, 8, "Q"); ex.store_raw(st2, q, 8, Ptr(None, z3.IntVal(0)))
            else: q = ex.new_cells(st2, 16, "Q"); ex.store_raw(st2, q, 8, Ptr(None, z3.IntVal(0))); ex.store_raw(st2, ex.padd(st2, q, 8, 1), 8, 0)
            for st3, o in ex.run(st2, f"d_{w}get_{T}_{o_}", [env.D, q]):
                ex.oblige(st3, not isinstance(o, Throw), f"post:what was written is read ({getattr(o, 'tinfo', '')})")
                if isinstance(o, Throw): continue
                r = field(ex, st3, q); h = st3.ghost.get('nested', ()); M, C_, V, CV = env.now(st3); ex.oblige(st3, simp(B_int(st3.ghost['in.pos']) == N), "post:all that was written is read"); ex.oblige(st3, (B_int(r) == 0) == (tgt == 0), "post:null for null only")
                if kind != "unique": ex.oblige(st3, z3.Implies(tgt != 0, z3.And(z3.Select(M[0], key), B_int(r) + env.off[T] == read(V[1][env.optr], read(M[1][8], key)))), "post:the pointer is to the object with the number of the original")
                elif DYN[T]: ex.oblige(st3, z3.Implies(tgt != 0, NAME(B_int(r) + env.off[T]) == i), "post:an object of the same class")
                if not h: env.oblige_related(st3, "afterwards", M, C_, V, CV)
                ex.oblige(st3, len(h) in (0, 2), "post:contents are written and read, or neither"); cover(ex, st3, "new" if h else "known or null")
        if DYN[T] or kind != "unique": C.used(ex, GET, PUT)
    return t
def start(o_):
    def t(ex):
        env = Env(ex, o_); st = env.encoder(arbitrary=False); P, A, n = G.state(ex, st, env.pM); k = z3.Int("any"); ex.oblige(st, z3.Select(P, k) == (k == 0), "post:a new encoder knows null only"); ex.oblige(st, simp(read(A[8], z3.IntVal(0)) == 0), "post:null is number 0"); ex.oblige(st, simp(B_int(n) == 1), "post:the next number is 1")
        P, A, n = G.state(ex, st, env.pC); ex.oblige(st, Not(z3.Select(P, k)), "post:a new encoder knows no class"); ex.oblige(st, simp(B_int(n) == 0), "post:classes are numbered from 0"); cover(ex, st, "encoder")
        env = Env(ex, o_); st = env.decoder(arbitrary=False); n, A = env.vec(st); ex.oblige(st, simp(B_int(n) == 1), "post:a new decoder has number 0 only"); ex.oblige(st, simp(read(A[env.optr], z3.IntVal(0)) == 0), "post:number 0 is null"); ex.oblige(st, simp(B_int(env.cvec(st).n) == 0), "post:a new decoder knows no class"); cover(ex, st, "decoder")
        t = env.tid; ex.oblige(st, simp(B_int(t["b0"]) == B_int(t["sub"])), "post:pointers into one hierarchy of dynamic classes are compatible")
        for a, b in (("item", "other"), ("item", "b0"), ("other", "b0")): ex.oblige(st, simp(B_int(t[a]) != B_int(t[b])), f"post:{a} and {b} are different types")
    return t
TASKS = []
for o_ in ("le", "be"):
    TASKS.append(Task(f"share.start_{o_}", start(o_)))
    for T in ("item", "b0", "sub"):
        TASKS += [Task(f"share.put_{T}_{o_}", put_ptr(o_, T)), Task(f"share.put_weak_{T}_{o_}", put_ptr(o_, T, True)), Task(f"share.put_unique_{T}_{o_}", put_unique(o_, T)),
                  Task(f"share.get_{T}_{o_}", get_ptr(o_, T)), Task(f"share.get_weak_{T}_{o_}", get_ptr(o_, T, True)), Task(f"share.get_unique_{T}_{o_}", get_unique(o_, T))]
        TASKS += [Task(f"share.round_{k}_{T}_{o_}", round_trip(o_, T, k), budget=120) for k in ("shared", "weak", "unique")]
