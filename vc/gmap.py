"""Contract of arpc::flat_map / flat_set with keys of type std::string_view, for their users (the containers themselves are
discharged by the flat tasks): a finite map from key contents to values.  A key's content is an identity: two views have the same
identity exactly if they hold the same bytes.  That the container's comparator orders keys by content is an obligation."""
import re, z3
from core import *
from exec import NOTHANDLED, B_int
import lib as L
from lib import scope_of, method_of, split_sig
SVT = "std::basic_string_view<char, std::char_traits<char> >"
I = z3.IntSort()
CID = z3.Function("CID", z3.ArraySort(I, I), I, I, I)
SRANK = z3.Function("SRANK", I, I)
END = 1 << 62
LIT0 = 1 << 40          # identities of literal contents
def bytes_of(ex, st, n, p):
    """python bytes if the view's content is concrete"""
    if isinstance(n, int) and n == 0: return b""
    R = st.mem.get(p.r) if isinstance(p, Ptr) else None
    if R is None or R.kind != 'c' or not isinstance(n, int) or not isinstance(p.i, int): return None
    out = bytearray()
    for k in range(n):
        v = ex.cells_read(st, R, p.i + k, 1)
        if not isinstance(v, int): return None
        out.append(v)
    return bytes(out)
def lit_id(ex, b):
    """identity of a literal content (distinct for distinct bytes)"""
    d = ex.__dict__.setdefault('gm_lits', {})
    return d.setdefault(b, LIT0 + len(d))
def view_id(ex, st, n, p):
    """identity of the content of the view (n bytes at p)"""
    n = simp(n) if is_sym(n) else n
    b = bytes_of(ex, st, n, p)
    if b is not None: return lit_id(ex, b)
    if not isinstance(p, Ptr) or p.r is None: raise Unsupported("content of a foreign view")
    if isinstance(n, int):
        A, o = L.src_bytes(ex, st, p, n)
    else:
        v = L.src_bytes(ex, st, p, n)
        if v is None: return lit_id(ex, b"")
        A, o = v
    named = st.ghost.get('gm.names', {})
    o = B_int(o); n_ = B_int(n)
    t = CID(A, o, n_)
    known = st.ghost.get('gm.views', ())
    if not any(t.eq(x[0]) for x in known):
        st.assume(z3.And(t >= 0, t < END))
        for (u, A2, o2, n2) in known:
            sk = z3.Int(f"sk!{fresh_id()}"); j = z3.Int(f"j!{fresh_id()}")
            st.assume(z3.Or(n_ != n2, z3.And(sk >= 0, sk < n_, z3.Select(A, o + sk) != z3.Select(A2, o2 + sk)), t == u))
            st.assume(z3.Implies(t == u, z3.And(n_ == n2, FA([j], z3.Implies(z3.And(j >= 0, j < n_), z3.Select(A, o + j) == z3.Select(A2, o2 + j)), z3.Select(A, o + j)))))
        st.ghost['gm.views'] = known + ((t, A, o, n_),)
    return t
def load_view(ex, st, p):
    n = ex.load_raw(st, p, 8); q = ex.load_raw(st, ex.padd(st, p, 8, 1), 8)
    if isinstance(q, int): q = Ptr(None, q)
    return n, q
def same_content(ex, st, label, x, y):
    """x, y: (n, p) views: obligation that they hold the same bytes"""
    a, b = bytes_of(ex, st, *x), bytes_of(ex, st, *y)
    if a is not None and b is not None: ex.oblige(st, a == b, label); return
    ex.oblige(st, simp(B_int(view_id(ex, st, *x)) == B_int(view_id(ex, st, *y))), label)
# ------------------------------------------------------------------ the map
PTR = "void const*"
KEYS = {SVT: 16, PTR: 8}
def key_at(ex, st, KT, p):
    if KT == SVT: return view_id(ex, st, *load_view(ex, st, p))
    v = ex.load_raw(st, p, 8); return ex.addr_num(st, v) if isinstance(v, Ptr) else v
def fresh_fields(ex, fields, name): return {b: (w, z3.Array(f"{name}.{b}!{fresh_id()}", I, I)) for b, w in fields.items()}
def make(ex, st, p, lay, pres=None, n=0, arrs=None, name="map"):
    stride, fields = lay
    q = ex.new_arr(st, stride, END, {b: (w, (arrs or {}).get(b, z3.K(I, z3.IntVal(0)))) for b, w in fields.items()} or {0: (1, z3.K(I, z3.IntVal(0)))}, name)
    ex.store_raw(st, p, 24, Obj('gmap', r=q.r, pres=z3.K(I, z3.BoolVal(False)) if pres is None else pres, n=n))
    return q.r
def obj(ex, st, p):
    v = ex.load_raw(st, p, 24)
    if not (isinstance(v, Obj) and v.kind == 'gmap'): raise Unsupported("not a registry map")
    return v
def arbitrary(ex, st, p, name):
    """any content"""
    o = obj(ex, st, p); R = st.mem[o.r]; arrs = {b: z3.Array(f"{name}.{b}", I, I) for b in R.fields}; pres = z3.Array(f"{name}.has", I, z3.BoolSort()); n = z3.Int(f"{name}.n")
    st.assume(z3.And(n >= 0, n < (1 << 40)))
    for b, (w, _) in R.fields.items(): j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.And(z3.Select(arrs[b], j) >= 0, z3.Select(arrs[b], j) < (1 << (8 * w))), z3.Select(arrs[b], j)))
    W = st.wr(o.r); W.fields = {b: (w, arrs[b]) for b, (w, _) in R.fields.items()}; W.gen = ('g', fresh_id())
    ex.store_raw(st, p, 24, o.set(pres=pres, n=n)); return pres, arrs, n
def state(ex, st, p):
    o = obj(ex, st, p); return o.pres, {b: A for b, (w, A) in st.mem[o.r].fields.items()}, B_int(o.n)
def find_cell(ex, st, p, size):
    """offsets of maps inside the object at p"""
    R = st.mem[p.r]; return [Ptr(p.r, o) for o, (n, v) in sorted(R.cells.items()) if isinstance(v, Obj) and v.kind == 'gmap' and p.i <= o < p.i + size]
def template_args(s):
    """top-level template arguments of the first <...> in s"""
    k = s.index('<'); depth = 0; cur = ""; out = []
    for ch in s[k:]:
        if ch == '<':
            depth += 1
            if depth == 1: continue
        if ch == '>':
            depth -= 1
            if depth == 0: break
        if ch == ',' and depth == 1: out.append(cur.strip()); cur = ""; continue
        cur += ch
    out.append(cur.strip()); return out
def check_comparator(ex, st, cmp_ty):
    """the comparator of a container keyed by names orders them by content"""
    done = ex.__dict__.setdefault('gm_cmp', set())
    if cmp_ty in done: return
    done.add(cmp_ty)
    if cmp_ty.startswith("std::less<void"): return      # a total order on addresses, by the standard
    fs = [f for f in ex.m.funcs.values() if f.defined and f.dname.startswith(cmp_ty + "::operator()(") or f.defined and re.match(r"\w+ " + re.escape(cmp_ty) + r"::operator\(\)[<(]", f.dname)]
    if len(fs) != 1: raise Unsupported(f"comparator {cmp_ty}: {len(fs)} functions")
    s = State(); views = []
    for k in "xy":
        n = z3.Int(f"cmp.{k}.n"); s.assume(z3.And(n >= 0, n < (1 << 40))); A = z3.Array(f"cmp.{k}", I, I); r = ex.new_arr(s, 1, n, {0: (1, A)}, "cstr"); views.append((n, r))
    sig = split_sig(fs[0].dname[fs[0].dname.index("operator()") + 10:][fs[0].dname[fs[0].dname.index("operator()") + 10:].index("("):])
    args = [ex.new_cells(s, 1, "comparator")]
    for (n, r), ty in zip(views, sig):
        if ty.endswith("const&") or ty.endswith("&"): c = ex.new_cells(s, 16, "view"); ex.store_raw(s, c, 8, n); ex.store_raw(s, ex.padd(s, c, 8, 1), 8, r); args.append(c)
        else: args += [n, r]
    i, j = (view_id(ex, s, n, r) for n, r in views)
    st_, sup = ex.stack, ex.suppress; ex.stack = ["comparator"]
    try:
        for s2, o in ex.run(s, fs[0].name, args):
            if isinstance(o, Throw): ex.oblige(s2, False, "post:comparing names does not throw"); continue
            ex.oblige(s2, B(ex.asbool(o.v)) == (SRANK(i) < SRANK(j)), "post:names are compared by content")
    finally: ex.stack = st_
def rank_facts(st, i, j):
    if is_sym(i) or is_sym(j): st.assume((SRANK(B_int(i)) == SRANK(B_int(j))) == (B_int(i) == B_int(j)))
    elif i != j: st.assume(SRANK(B_int(i)) != SRANK(B_int(j)))
def install(ex, layouts):
    """layouts: [(regex on the value type ('' for sets), stride, {offset: width})]"""
    ex.fn_values = True
    def fn_call(ex, st, v, args, c):
        v = simp(v) if is_sym(v) else v
        if isinstance(v, int):
            if v == 0: ex.oblige(st, False, "call-through-null"); return []
            for nm, k in ex.fn_ids.items():
                if k == v: return ex.call_named(st, nm, args, {}, c.tys, c.ret_ty, c.instr)
            raise Unsupported("call through an unknown function value")
        out = []; rest = []
        for nm, k in list(ex.fn_ids.items()):
            rest.append(v != k)
            if ex.feas(st, v == k):
                s2 = st.clone(); s2.assume(v == k); out += ex.call_named(s2, nm, args, {}, c.tys, c.ret_ty, c.instr)
        if ex.feas(st, z3.And(*rest) if rest else z3.BoolVal(True)): raise Unsupported("call through an unknown function value")
        return out
    if ex.fn_call is None: ex.fn_call = fn_call
    def compare(ex, st, a, c):
        m, sig = method_of(c.dname)
        if not (sig.startswith("std::basic_string_view") and sig.count(",") <= 1): raise Unsupported("string_view::compare overload")
        x = load_view(ex, st, a[0]); y = (a[1], a[2])
        i, j = view_id(ex, st, *x), view_id(ex, st, *y); rank_facts(st, i, j)
        r = z3.Int(f"cmp!{fresh_id()}"); d = z3.Int(f"d!{fresh_id()}")
        st.assume(z3.And(r >= 0, r < (1 << 32), d == z3.If(r >= (1 << 31), r - (1 << 32), r), (d < 0) == (SRANK(B_int(i)) < SRANK(B_int(j))), (d == 0) == (B_int(i) == B_int(j))))
        return r
    ex.contract(r"^" + re.escape(SVT) + r"::compare\(", compare, "std::string_view::compare (orders by content)")
    def view_eq(ex, st, a, c):
        if len(a) != 4: return NOTHANDLED
        e = simp(B_int(view_id(ex, st, a[0], a[1])) == B_int(view_id(ex, st, a[2], a[3])))
        return e if "operator==" in c.dname else simp(Not(e))
    ex.contract(r"^(bool )?std::operator[!=]=<char, std::char_traits<char> >\(std::(__type_identity_t<)?(std::)?basic_string_view", view_eq, "std::string_view equality (by content)")
    def layout_for(ex, scope):
        ta = template_args(scope)
        if ta[0] not in KEYS and not scope.startswith("std::vector<"): return None
        if scope.startswith("arpc::flat_set<"): val, cmp_ = "", ta[1]
        elif scope.startswith("arpc::flat_map<"): val, cmp_ = ta[1], ta[2]
        elif scope.startswith("arpc::detail::flat_tree<"):
            if ta[1] != "false": return None
            val = "" if ta[2] == ta[0] else template_args(ta[2])[1]; cmp_ = ta[3]
        elif scope.startswith("std::vector<"): val, cmp_ = ("" if ta[0] == SVT else template_args(ta[0])[1]), None
        else: return None
        for rx, stride, fields in layouts:
            if (rx == "" and val == "") or (rx and val and re.search(rx, val)): return stride, fields, cmp_
        return None
    def handler(ex, st, a, c):
        scope = scope_of(c.dname)
        vec = scope.startswith("std::vector<")
        if vec:
            if not any(k in scope for k in KEYS): return NOTHANDLED
            ta0 = template_args(scope)[0]
            if ta0 not in KEYS and not ta0.startswith(tuple("std::pair<" + k + "," for k in KEYS)): return NOTHANDLED
            KT = next(k for k in KEYS if ta0 == k or ta0.startswith("std::pair<" + k + ","))
        elif not scope.startswith(tuple(t + k + "," for t in ("arpc::flat_map<", "arpc::flat_set<", "arpc::detail::flat_tree<") for k in KEYS)): return NOTHANDLED
        else: KT = template_args(scope)[0]
        ks = KEYS[KT]
        name, sig = method_of(c.dname); base = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
        is_set = template_args(scope)[0] == KT if vec else scope.startswith("arpc::flat_set<") or (scope.startswith("arpc::detail::flat_tree<") and template_args(scope)[2] == KT)
        if vec:
            this = a[0]
            try: v = ex.load_raw(st, this, 24)
            except Unsupported: return NOTHANDLED
            if not (isinstance(v, Obj) and v.kind == 'gmap'): return NOTHANDLED
        lay = layout_for(ex, scope)
        if lay is None: raise Unsupported("no contract for container " + scope[:160])
        stride, fields, cmp_ty = lay
        if cmp_ty is not None and not ex.scout: check_comparator(ex, st, cmp_ty)
        R0 = lambda v=None: [(st, Ret(v))]
        if base in ("flat_map", "flat_set", "flat_tree"):
            if sig == "" or sig.startswith("std::allocator<"): make(ex, st, a[0], (stride, fields)); return R0()
            if sig.startswith("std::initializer_list<") and isinstance(a[2], int) and a[2] <= 8:      # listed in place: inserted one by one
                r = make(ex, st, a[0], (stride, fields)); o = obj(ex, st, a[0]); P = o.pres; vals = dict(st.mem[r].fields); step = -(-(ks + sum(fields.values())) // 8) * 8; n = z3.IntVal(0)
                for k in range(a[2]):
                    q = ex.padd(st, a[1], k * step, 1); i = B_int(key_at(ex, st, KT, q)); has_ = simp(z3.Select(P, i)); n = n + z3.If(B(has_), 0, 1)
                    for b, w in fields.items():
                        v = L.chr_n(ex, ex.load_raw(st, ex.padd(st, q, b, 1), w), w, st); A = vals[b][1]; vals[b] = (w, z3.Store(A, i, z3.If(B(has_), z3.Select(A, i), v)))
                    P = z3.Store(P, i, z3.BoolVal(True))
                st.wr(r).fields = vals; ex.store_raw(st, a[0], 24, obj(ex, st, a[0]).set(pres=P, n=simp(n))); return R0()
            raise Unsupported("registry map constructor " + sig)
        if base.startswith("~"): return R0()
        o = obj(ex, st, a[0]); R = st.mem[o.r]
        end = Ptr(o.r, END, 0, R.gen)
        if base in ("end", "cend"): return R0(end)
        if base == "size": return R0(o.n)
        if base == "empty": return R0(simp(B_int(o.n) == 0))
        if base == "clear": ex.store_raw(st, a[0], 24, o.set(pres=z3.K(I, z3.BoolVal(False)), n=0)); L.bump(ex, st, o.r); return R0()
        if base == "~vector": return R0()
        def key(ty, p):
            t = ty.rstrip("&").replace(" const", "").strip()
            if t == KT or KT == SVT and t == SVT or (KT == PTR and t.endswith("*")): return key_at(ex, st, KT, p)
            if t.startswith("std::__cxx11::basic_string<char"): Rr = L.str_reg(ex, st, p); return view_id(ex, st, Rr.size, Ptr(L.str_obj(ex, st, p).buf, 0, 0, Rr.gen))
            raise Unsupported("registry key of type " + ty)
        def has(i): return simp(read(o.pres, B_int(i)))
        if base in ("find", "count"):
            i = key(split_sig("(" + sig + ")")[0], a[1]); h = has(i)
            if base == "count": return R0(simp(z3.If(B(h), z3.IntVal(1), z3.IntVal(0))))
            if h is True: return R0(Ptr(o.r, i, 0, R.gen))
            if h is False: return R0(end)
            out = []
            for g, v in ((h, Ptr(o.r, i, 0, R.gen)), (Not(h), end)):
                if ex.feas(st, g): s2 = st.clone(); s2.assume(B(g)); out.append((s2, Ret(v)))
            return out
        if base in ("emplace", "insert", "operator[]", "at", "insert_or_assign", "try_emplace"):
            tys = split_sig("(" + sig + ")"); default = False
            if base == "insert":
                t = tys[0].rstrip("&").replace(" const", "").strip()
                if len(tys) != 1: raise Unsupported("registry insert " + sig)
                if is_set: i = key(tys[0], a[1]); src = None
                elif t.startswith("std::pair<" + KT): i = key_at(ex, st, KT, a[1]); src = ex.padd(st, a[1], ks, 1)
                else: raise Unsupported("registry insert of " + t)
            elif base in ("operator[]", "at"): i = key(tys[0], a[1]); src = None; default = True
            elif base == "emplace":
                i = key(tys[0], a[1]); src = None if is_set else a[2]
                if len(tys) != (1 if is_set else 2): raise Unsupported("registry emplace " + sig)
                if not is_set:
                    vt = tys[1].rstrip("&").replace(" const", "").strip()
                    if template_args(template_args(scope)[2])[1].replace(" ", "") not in (vt.replace(" ", ""), re.sub(r"\(\*(&|&&)\)", "(*)", tys[1]).replace(" ", "")): raise Unsupported("registry value of type " + tys[1])
            else: raise Unsupported("registry " + base)
            h = has(i); out = []
            for g, old in ((h, True), (Not(h), False)):
                if g is False or (g is not True and not ex.feas(st, g)): continue
                s2 = st.clone(); s2.assume(B(g)); 
                if old: p = Ptr(o.r, i, 0, R.gen)
                elif base == "at": out.append(L.throw(ex, s2, "_ZTISt12out_of_range")); continue
                else:
                    vals = {b: 0 if src is None else ex.load_raw(s2, ex.padd(s2, src, b - ks, 1), w) for b, w in fields.items()}
                    W = L.bump(ex, s2, o.r); p = Ptr(o.r, i, 0, W.gen)
                    for b, v in vals.items():
                        if isinstance(v, Undef): v = ex.fresh(s2, 8 * fields[b], "undef")
                        ex.store_raw(s2, ex.padd(s2, p, b, 1), fields[b], v)
                    ex.store_raw(s2, a[0], 24, o.set(pres=z3.Store(o.pres, B_int(i), z3.BoolVal(True)), n=simp(B_int(o.n) + 1)))
                out.append((s2, Ret(p if default else pair_of(c, p, not old))))
            return out
        if base == "erase" and len(split_sig("(" + sig + ")")) == 1 and KT in sig and "iterator" not in sig:
            i = key(sig, a[1]); h = has(i); L.bump(ex, st, o.r)
            ex.store_raw(st, a[0], 24, o.set(pres=z3.Store(o.pres, B_int(i), z3.BoolVal(False)), n=simp(B_int(o.n) - z3.If(B(h), 1, 0)))); return R0(simp(z3.If(B(h), z3.IntVal(1), z3.IntVal(0))))
        if vec: return NOTHANDLED
        raise Unsupported(f"registry map {name}({sig[:80]})")
    def pair_of(c, p, b):
        t = c.ret_ty
        if t is not None and t.kind == 'struct' and len(t.els) == 2: return Agg([p, (bool(b) if t.els[1].w == 1 else int(b))])
        raise Unsupported("emplace result representation")
    ex.contract(r"arpc::flat_map<|arpc::flat_set<|arpc::detail::flat_tree<|std::vector<", lambda ex, st, a, c: handler(ex, st, a, c), "arpc::flat_map / flat_set (contract discharged by the flat tasks)")
