"""Registries (S17): any content before, any name, any prior registrations; names are compared by content."""
DRIVER = "registry.cpp"
import z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L, gmap as G
from ghost import *
NOT_FOUND, INVALID = "_ZTIN4arpc6errors9not_foundE", "_ZTIN4arpc6errors13invalid_stateE"
LAY = [("", 16, {}), (r"dynamic_object_factory::info", 32, {16: 8, 24: 4}), (r"dynamic_encoder_registry<.*>::info", 24, {16: 8}), (r"dynamic_decoder_registry<.*>::info", 24, {16: 8}), (r"^void \(\*\)\(char const\*\)$", 24, {16: 8})]
def setup(ex): G.install(ex, LAY)
def name(ex, st, nm="name"):
    n = z3.Int(nm + ".n"); st.assume(z3.And(n >= 0, n < (1 << 40))); A = z3.Array(nm, I, I); byte_axiom(ex, st, A)
    p = ex.new_arr(st, 1, n, {0: (1, A)}, "cstr"); return n, p, B_int(G.view_id(ex, st, n, p))
def registry(ex, st, K, arbitrary=True):
    sz = ex.run(st, f"d_size_of_{K}", [])[0][1].v; p = ex.new_cells(st, sz, K)
    r = ex.run(st, f"d_make_{K}", [p])
    if len(r) != 1: raise Unsupported("registry construction splits")
    if r[0][0] is not st: st.mem, st.pc, st.ghost = r[0][0].mem, r[0][0].pc, r[0][0].ghost
    ms = G.find_cell(ex, st, p, sz)
    if len(ms) != 1: raise Unsupported(f"{len(ms)} maps in the registry")
    return p, ms[0]
def frame(ex, st, m, old, but=None, label="others untouched"):
    """nothing registered under another name changed"""
    pres, A, n = G.state(ex, st, m); P0, A0, n0 = old; k = z3.Int(f"other!{fresh_id()}"); hyp = z3.And(k >= 0, k < G.END) if but is None else z3.And(k >= 0, k < G.END, k != but)
    ex.oblige(st, z3.Implies(hyp, z3.Select(pres, k) == z3.Select(P0, k)), f"post:{label}: names")
    for b in A: ex.oblige(st, z3.Implies(z3.And(hyp, z3.Select(P0, k)), read(A[b], k) == read(A0[b], k)), f"post:{label}: values")
def index(K, fields):
    def t(ex):
        st = State(); setup(ex); p, m = registry(ex, st, K); pres, A, n0 = G.arbitrary(ex, st, m, K); n, q, i = name(ex, st)
        outs = [ex.new_cells(st, w, f"out{k}") for k, w in enumerate(fields.values())]
        for st2, o in ex.run(st, f"d_{K}_index", [p, n, q] + outs):
            if isinstance(o, Throw):
                ex.oblige(st2, o.tinfo == NOT_FOUND, f"post:throws only not_found ({o.tinfo})"); ex.oblige(st2, z3.Not(z3.Select(pres, i)), "post:not found only if never registered"); cover(ex, st2, "absent")
            else:
                ex.oblige(st2, z3.Select(pres, i), "post:found only if registered")
                for (b, w), op in zip(fields.items(), outs):
                    v = ex.load_raw(st2, op, w); v = v.v if isinstance(v, Obj) else v
                    ex.oblige(st2, simp(B_int(v) == z3.Select(A[b], i)), "post:the value registered for it")
                cover(ex, st2, "present")
            frame(ex, st2, m, (pres, A, n0))
    return t
def register(K):
    def t(ex):
        st = State(); setup(ex); p, m = registry(ex, st, K); pres, A, n0 = G.arbitrary(ex, st, m, K); n, q, i = name(ex, st)
        for st2, o in ex.run(st, f"d_{K}_register", [p, n, q]):
            if isinstance(o, Throw):
                ex.oblige(st2, o.tinfo == INVALID, f"post:throws only invalid_state ({o.tinfo})"); ex.oblige(st2, z3.Select(pres, i), "post:refused only if registered before"); frame(ex, st2, m, (pres, A, n0), label="refused, nothing changed"); cover(ex, st2, "refused"); continue
            P2, A2, _ = G.state(ex, st2, m)
            ex.oblige(st2, z3.Not(z3.Select(pres, i)), "post:a second registration is refused"); ex.oblige(st2, z3.Select(P2, i), "post:registered"); frame(ex, st2, m, (pres, A, n0), but=i); cover(ex, st2, "registered")
    return t
def init(ex, st):
    """the static initialisers of the program, in link order"""
    g = ex.m.global_init("llvm.global_ctors")[0]
    for e in g[1]:
        r = ex.run(st, e[1][1][1], [])
        ok = [x for x in r if not isinstance(x[1], Throw)]
        for x in r:
            if isinstance(x[1], Throw): ex.oblige(x[0], False, "post:registration at program start succeeds")
        if len(ok) != 1: raise Unsupported("static initialisation splits")
        st = ok[0][0]
    return st
def single(ex, st, getter, size):
    """the singleton and its map"""
    p = ex.run(st, getter, [])[0][1].v; sz = ex.run(st, size, [])[0][1].v; ms = G.find_cell(ex, st, p, sz)
    if len(ms) != 1: raise Unsupported(f"{len(ms)} maps in {getter}")
    return p, ms[0]
SUBS = ["b0", "b1", "b2", "b3"]; BASES = {"b0": ["b0"], "b1": ["b1", "b0"], "b2": ["b2", "b0"], "b3": ["b3", "b1", "b0"]}; NAMES = {"b0": b"b0", "b1": b"b1", "b2": b"own::b2", "b3": b"b3"}; KIND = {"b0": 10, "b1": 11, "b2": 12, "b3": 13}
def only(ex, r, label):
    for s, o in r:
        if isinstance(o, Throw): ex.oblige(s, False, f"post:{label} does not throw"); continue
        yield s, o
def out_view(ex, st, p): n, q = G.load_view(ex, st, p); return n, q
def makes(ex, st, f, cls, label):
    """the function creates an object of that very class"""
    for s, o in only(ex, ex.run(st.clone(), "d_create", [Obj('fnval', v=f)]), label):
        for s2, o2 in only(ex, ex.run(s, "d_kind", [o.v]), label): ex.oblige(s2, simp(B_int(o2.v) == KIND[cls]), f"post:{label} creates that class")
def codes(ex, st, which, f, cls, label):
    seen = []
    ex.contract(r"(enc|dec)::operator\(\)<", lambda ex, st, a, c: (st.ghost.__setitem__('coded', st.ghost.get('coded', ()) + ((c.dname, a[1]),)), None)[1], "a coder of our own")
    for s, o in only(ex, ex.run(st.clone(), "d_new_" + cls, []), label):
        for s1, o1 in only(ex, ex.run(s, "d_as_base", [o.v]), label):
            e = ex.new_cells(s1, 1, "coder")
            for s2, o2 in only(ex, ex.run(s1, "d_encode" if which == "enc" else "d_decode", [Obj('fnval', v=f), e, o1.v]), label):
                calls = s2.ghost.get('coded', ())
                ex.oblige(s2, len(calls) == 1 and f"{which}::operator()<{cls}>(" in calls[0][0].replace("void ", ""), f"post:{label} codes that class")
                if len(calls) == 1: ex.oblige(s2, calls[0][1].r == o.v.r and calls[0][1].i == o.v.i, f"post:{label} codes that object")
def class_register(cls):
    def t(ex):
        st = State(); setup(ex); _, fm = single(ex, st, "d_fac_get", "d_size_of_fac"); fp = Ptr(fm.r, 0)
        maps = {"fac": fm}
        for k in SUBS: maps["subs " + k] = single(ex, st, "d_subs_get_" + k, "d_size_of_subs")[1]
        for k in ("ereg", "dreg"): maps[k] = single(ex, st, f"d_{k}_get", f"d_size_of_{k}")[1]
        old = {k: G.arbitrary(ex, st, m, k.replace(" ", "_")) for k, m in maps.items()}
        n, q, i = name(ex, st); out = ex.new_cells(st, 16, "out"); fp = ex.run(st, "d_fac_get", [])[0][1].v
        taken = z3.Or(*[z3.Select(old[k][0], i) for k in ("fac", "ereg", "dreg")])
        hsh = ex.run(st, "d_hash_" + cls, [])[0][1].v
        for st2, o in ex.run(st, "d_fac_register_" + cls, [n, q, fp, out]):
            if isinstance(o, Throw):
                ex.oblige(st2, o.tinfo == INVALID, f"post:throws only invalid_state ({o.tinfo})"); ex.oblige(st2, taken, "post:refused only if registered before")
                for k, m in maps.items():
                    P2, A2, _ = G.state(ex, st2, m); x = z3.Int(f"x!{fresh_id()}")
                    ex.oblige(st2, z3.Implies(z3.And(x >= 0, x < G.END, z3.Select(old[k][0], x)), z3.And(z3.Select(P2, x), *[read(A2[b], x) == read(old[k][1][b], x) for b in A2])), f"post:refused, what {k} held is unchanged")
                cover(ex, st2, "refused"); continue
            ex.oblige(st2, z3.Not(taken), "post:a second registration is refused")
            for k, m in maps.items():
                P2, A2, _ = G.state(ex, st2, m); new = not k.startswith("subs") or k[5:] in BASES[cls]
                if new: ex.oblige(st2, z3.Select(P2, i), f"post:{k} has the name")
                frame(ex, st2, m, old[k], but=i if new else None, label=f"{k}: others untouched")
            _, A2, _ = G.state(ex, st2, maps["fac"]); ex.oblige(st2, simp(read(A2[24], i) == B_int(hsh)), "post:the structure hash of that class")
            makes(ex, st2, simp(read(A2[16], i)), cls, "the registered factory")
            for k, w in (("ereg", "enc"), ("dreg", "dec")): codes(ex, st2, w, simp(read(G.state(ex, st2, maps[k])[1][16], i)), cls, f"the registered {w}oder")
            cover(ex, st2, "registered")
    return t
def coder_register(K, which):
    def t(ex):
        st = State(); setup(ex); p, m = registry(ex, st, K); pres, A, n0 = G.arbitrary(ex, st, m, K); n, q, i = name(ex, st)
        for st2, o in ex.run(st, f"d_{K}_register", [p, n, q]):
            if isinstance(o, Throw): continue
            codes(ex, st2, which, simp(read(G.state(ex, st2, m)[1][16], i)), "b1", "the registered coder"); cover(ex, st2, "registered")
    return t
def is_subclass(ex):
    st = State(); setup(ex); p, m = single(ex, st, "d_subs_get_b0", "d_size_of_subs"); pres, A, n0 = G.arbitrary(ex, st, m, "subs"); n, q, i = name(ex, st)
    for st2, o in only(ex, ex.run(st, "d_subs_is_b0", [p, n, q]), "asking for a subclass"):
        ex.oblige(st2, B(ex.asbool(o.v)) == z3.Select(pres, i), "post:a subclass exactly if registered"); frame(ex, st2, m, (pres, A, n0)); cover(ex, st2, "asked")
def compat(cls):
    """an object is accepted exactly if its own name was registered as a subclass"""
    def t(ex):
        st = State(); setup(ex); st = init(ex, st); p, m = single(ex, st, "d_subs_get_" + cls, "d_size_of_subs"); pres, A, n0 = G.arbitrary(ex, st, m, "subs")
        for k in SUBS:
            for s, o in only(ex, ex.run(st.clone(), "d_new_" + k, []), "new"):
                for s2, o2 in only(ex, ex.run(s, "d_compat_" + cls, [o.v]), "checking compatibility"):
                    ex.oblige(s2, B(ex.asbool(o2.v)) == z3.Select(pres, G.lit_id(ex, NAMES[k])), f"post:a {k} is accepted exactly if registered"); frame(ex, s2, m, (pres, A, n0)); cover(ex, s2, k)
    return t
def start(ex):
    """after the registrations at program start every class is registered under its name, and no other name is"""
    st = State(); setup(ex); st = init(ex, st)
    ids = {k: G.lit_id(ex, v) for k, v in NAMES.items()}; i = z3.Int("any"); st.assume(z3.And(i >= 0, i < G.END))
    _, fm = single(ex, st, "d_fac_get", "d_size_of_fac"); P, A, n = G.state(ex, st, fm)
    ex.oblige(st, simp(z3.Select(P, i)) == z3.Or(*[i == x for x in ids.values()]), "post:exactly the classes registered are known")
    for k in SUBS:
        hsh = ex.run(st, "d_hash_" + k, [])[0][1].v
        ex.oblige(st, simp(read(A[24], ids[k]) == B_int(hsh)), f"post:structure hash of {k}"); makes(ex, st, simp(read(A[16], B_int(ids[k]))), k, f"factory of {k}")
        P2 = G.state(ex, st, single(ex, st, "d_subs_get_" + k, "d_size_of_subs")[1])[0]
        ex.oblige(st, simp(z3.Select(P2, i)) == z3.Or(*[i == ids[c] for c in SUBS if k in BASES[c]]), f"post:exactly the classes derived from {k} are its subclasses")
        out = ex.new_cells(st, 16, "out")
        for s, o in only(ex, ex.run(st.clone(), "d_class_name_" + k, [out]), "name"): ex.oblige(s, G.bytes_of(ex, s, *out_view(ex, s, out)) == NAMES[k], f"post:portable name of class {k}")
        for s, o in only(ex, ex.run(st.clone(), "d_new_" + k, []), "new"):
            for s2, _ in only(ex, ex.run(s, "d_name_of", [o.v, out]), "name"): ex.oblige(s2, G.bytes_of(ex, s2, *out_view(ex, s2, out)) == NAMES[k], f"post:portable name of an object of {k}")
    cover(ex, st, "start")
TASKS = [Task("registry.ereg_index", index("ereg", {16: 8})), Task("registry.dreg_index", index("dreg", {16: 8})), Task("registry.fac_index", index("fac", {16: 8, 24: 4})),
    Task("registry.ereg_register", register("ereg")), Task("registry.dreg_register", register("dreg")),
    Task("registry.ereg_coder", coder_register("ereg", "enc")), Task("registry.dreg_coder", coder_register("dreg", "dec")),
    *[Task("registry.class_register_" + c, class_register(c)) for c in ("b1", "b3")], Task("registry.is_subclass", is_subclass), *[Task("registry.compatible_" + c, compat(c)) for c in SUBS], Task("registry.start", start)]
