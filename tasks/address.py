"""Addresses, address lists, endpoints (S16). An address object is arbitrary: any attributes, any bytes, any size up to its storage.
An address list is an arbitrary linked list: node k of it lies at any place NODE(k); a negative place is the null link."""
DRIVER = "address.cpp"
import z3
from core import *
from exec import B_int
from lib import *
from ghost import *
from task import Task, cover
NODE = z3.Function("NODE", I, I)
def const(ex, st, fn): return [o.v for _, o in ex.run(st, fn, [])][0]
def heap(ex):
    """operator new gives storage of unknown content; each block is released by operator delete at most once, with its own size (obligations)"""
    def op_new(ex, st, a, c):
        p = ex.new_arr(st, 1, a[0], {0: (1, ex.fresh_array(8, "heap"))}, "heap"); byte_axiom(ex, st, st.mem[p.r].fields[0][1]); st.wr(p.r).dyn = ('new', a[0]); return p
    ex.contract(r"^operator new\(unsigned long\)$", op_new, "operator new (assumed to succeed)"); ex.no_frames = True
def blocks(st): return {r for r, R in st.mem.items() if R.dyn is not None and R.dyn[0] == 'new' and R.alive}
GET = ("family", "type", "protocol", "size")
class Addr:
    def __init__(s, ex, st, name, node=False):
        n = const(ex, st, "a_sizeof"); s.p = ex.new_cells(st, n, name); s.v = {g: z3.Int(f"{name}.{g}") for g in GET}
        for g in GET: st.assume(z3.And(s.v[g] >= 0, s.v[g] < (1 << 32)))
        cap = const(ex, st, "a_storage"); st.assume(s.v["size"] <= cap); s.A = z3.Array(name + ".bytes", I, I); byte_axiom(ex, st, s.A); s.cap = cap
        if node:   # an element of a list: storage of exactly its size, not made by operator new
            b = ex.new_arr(st, 1, s.v["size"], {0: (1, s.A)}, "sockaddr"); ex.run(st, "n_node", [s.p, s.v["family"], s.v["type"], s.v["protocol"], s.v["size"], b, NULL])
        else:
            r = ex.run(st, "a_make", [s.p])
            if len(r) != 1 or r[0][0] is not st or isinstance(r[0][1], Throw): raise Unsupported("construction splits")
            for g in GET:
                q = [o.v for _, o in ex.run(st, "a_w" + g, [s.p])][0]; ex.store_raw(st, q, 4, s.v[g])
            d = s.data(ex, st, s.p); W = st.wr(d.r); W.fields[0] = (1, s.A)
        s.buf = s.data(ex, st, s.p).r
    def data(s, ex, st, p): return [o.v for _, o in ex.run(st, "a_data", [p])][0]
def attributes(ex, st, p, v, label):
    for g in GET:
        for q, o in ex.run(st.clone(), "a_" + g, [p]): ex.oblige(q, simp(B_int(o.v) == v[g]), f"post:{label}{g}")
def equal_to(ex, st, p, a, label):
    attributes(ex, st, p, a.v, label); r = ex.run(st, "a_data", [p])
    for q, o in r:
        if not isinstance(o.v, Ptr) or o.v.r is None: ex.oblige(q, simp(a.v["size"] == 0), f"post:{label}bytes"); continue
        R = q.mem[o.v.r]; ex.oblige(q, R.alive, f"post:{label}storage alive"); ex.oblige(q, simp(B_int(R.size) - o.v.i >= a.v["size"]), f"post:{label}room for its bytes")
        if R.kind != 'a': raise Unsupported("storage of another kind")
        forall(ex, q, 0, a.v["size"], lambda j: z3.Select(R.fields[0][1], j + o.v.i) == z3.Select(a.A, j), f"post:{label}bytes")
def dropped(ex, st, p, owned, label):
    """destruction releases exactly what the object owns"""
    before = blocks(st)
    for q, o in ex.run(st, "a_drop", [p]):
        if isinstance(o, Throw): ex.oblige(q, False, "no throw"); continue
        ex.oblige(q, before - blocks(q) == owned, f"post:{label} releases exactly its storage"); yield q
def buf_of(ex, st, p):
    v = [o.v for _, o in ex.run(st, "a_data", [p])][0]; return set() if v.r is None else {v.r}
def make(ex):
    st = State(); heap(ex); cap = const(ex, st, "a_storage"); p = ex.new_cells(st, const(ex, st, "a_sizeof"), "a")
    for q, o in ex.run(st, "a_make", [p]):
        if isinstance(o, Throw): ex.oblige(q, False, "no throw"); continue
        attributes(ex, q, p, dict(family=0, type=0, protocol=0, size=cap), "new address: "); b = buf_of(ex, q, p); ex.oblige(q, len(b) == 1 and blocks(q) == b, "post:owns storage of its own")
        if len(b) == 1: R = q.mem[next(iter(b))]; ex.oblige(q, simp(B_int(R.size) >= cap), "post:room for any socket address"); forall(ex, q, 0, cap, lambda j: z3.Select(R.fields[0][1], j) == 0, "post:all bytes zero")
        for q2 in dropped(ex, q, p, b, "destruction"): ex.oblige(q2, not blocks(q2), "post:nothing is leaked"); cover(ex, q2, "made")
def copied(node):
    def t(ex):
        st = State(); heap(ex); a = Addr(ex, st, "A", node); p = ex.new_cells(st, const(ex, st, "a_sizeof"), "copy"); own = blocks(st)
        for q, o in ex.run(st, "a_copy", [p, a.p]):
            if isinstance(o, Throw): ex.oblige(q, False, "no throw"); continue
            equal_to(ex, q, p, a, "copy: "); equal_to(ex, q, a.p, a, "source after: "); b = buf_of(ex, q, p)
            ex.oblige(q, len(b) == 1 and not (b & {a.buf}), "post:storage of its own"); ex.oblige(q, blocks(q) - own == b, "post:nothing else is allocated")
            if len(b) == 1: ex.oblige(q, simp(B_int(q.mem[next(iter(b))].size) >= a.cap), "post:room for any socket address")
            q1 = q.clone()
            for q2 in dropped(ex, q1, p, b, "destroying the copy"): equal_to(ex, q2, a.p, a, "source after the copy is gone: "); cover(ex, q2, "copy dropped")
            if not node:
                for q2 in dropped(ex, q.clone(), a.p, {a.buf}, "destroying the source"):
                    equal_to(ex, q2, p, a, "copy after the source is gone: ")
                    for q3 in dropped(ex, q2, p, b, "destroying the copy"): ex.oblige(q3, not blocks(q3), "post:nothing is leaked"); cover(ex, q3, "both dropped")
            # changing the copy never shows in the source
            q4 = q.clone(); ok = True
            for g in GET: ex.store_raw(q4, [o.v for _, o in ex.run(q4, "a_w" + g, [p])][0], 4, z3.Int("new." + g))
            if len(b) == 1: W = q4.wr(next(iter(b))); W.fields[0] = (1, z3.Array("new.bytes", I, I))
            equal_to(ex, q4, a.p, a, "source after the copy changed: ")
    return t
def moved(ex):
    st = State(); heap(ex); a = Addr(ex, st, "A"); p = ex.new_cells(st, const(ex, st, "a_sizeof"), "moved"); own = blocks(st)
    for q, o in ex.run(st, "a_move", [p, a.p]):
        if isinstance(o, Throw): ex.oblige(q, False, "no throw"); continue
        equal_to(ex, q, p, a, "moved: "); b, s_ = buf_of(ex, q, p), buf_of(ex, q, a.p); ex.oblige(q, len(b) == 1, "post:owns the bytes"); ex.oblige(q, not (b & s_), "post:no longer shared with the source"); ex.oblige(q, blocks(q) == b | s_, "post:owned by exactly one")
        for first, second in ((p, a.p), (a.p, p)):
            q1 = q.clone()
            for q2 in dropped(ex, q1, first, b if first is p else s_, "destruction"):
                if first is not p: equal_to(ex, q2, p, a, "moved, source gone: ")
                for q3 in dropped(ex, q2, second, b if second is p else s_, "destruction of the other"): ex.oblige(q3, not blocks(q3), "post:everything is released once"); cover(ex, q3, "dropped")
def copied_then(ex):
    """a copy is itself an address: it can be copied and moved on"""
    st = State(); heap(ex); a = Addr(ex, st, "A"); n = const(ex, st, "a_sizeof"); p, r, s = (ex.new_cells(st, n, x) for x in ("p", "r", "s"))
    for q, o in ex.run(st, "a_copy", [p, a.p]):
        for q1, o1 in ex.run(q, "a_move", [r, p]):
            for q2, o2 in ex.run(q1, "a_copy", [s, r]):
                equal_to(ex, q2, s, a, "copy of a moved copy: "); states = [q2]
                for x in (p, a.p, r, s): states = [q4 for q3 in states for q4 in dropped(ex, q3, x, buf_of(ex, q3, x), "destruction")]
                for q3 in states: ex.oblige(q3, not blocks(q3), "post:everything is released once"); cover(ex, q3, "chain")
# ---- lists
def chain(ex, st, name="n"):
    n = z3.Int(name); k = z3.Int(f"k!{fresh_id()}"); st.assume(z3.And(n >= 0, n < (1 << 58))); M = z3.Int(name + ".space"); st.assume(z3.And(M >= n, M < (1 << 58)))
    st.assume(FA([k], z3.And(z3.Implies(z3.And(k >= 0, k < n), z3.And(NODE(k) >= 0, NODE(k) < M)), z3.Implies(k >= n, NODE(k) < 0)), NODE(k))); POS = z3.Function(f"POS.{name}", I, I)
    st.assume(FA([k], z3.Implies(z3.And(k >= 0, k < n), POS(NODE(k)) == k), NODE(k))); r = [None]
    st.assume(z3.Or(z3.And(n == 0, NODE(0) < 0), z3.And(n > 0, NODE(0) >= 0, POS(NODE(0)) == 0)))
    def nxt(st, i): return Ptr(r[0], simp(NODE(POS(B_int(i)) + 1)))
    def any_(w): return (w, ex.fresh_array(8 * w, "nd"))
    p = ex.new_arr(st, const(ex, st, "n_sizeof"), M, {0: any_(4), 4: any_(4), 8: any_(4), 12: any_(4), 16: any_(4), const(ex, st, "n_next_offset"): (8, nxt)}, "chain"); r[0] = p.r
    head = Ptr(p.r, NODE(z3.IntVal(0))); return head, n, NODE, POS
def freeing(ex):
    def fr(ex, st, a, c):
        st.ghost['freed'] = st.ghost.get('freed', ()) + ((a[0].r, a[0].i),)
        if a[0].r is not None:
            if not st.mem[a[0].r].alive: ex.oblige(st, False, "list released twice")
            st.wr(a[0].r).alive = False
    ex.contract(r"^freeaddrinfo$", fr, "freeaddrinfo releases the list it is given")
def hints(ex, n):
    def cands(vw):
        out = []
        for v in vw.vars:
            if v.kind == 'ptr' and v.region in vw.st0.mem and vw.st0.mem[v.region].name == "chain":
                for w in [x for x in vw.vars if x.kind in ('int', 'gint')] + [None]:
                    if w is None: out.append((f"{v.key} at step n", lambda vw, k=v.key: next(x for x in vw.vars if x.key == k).cur == NODE(B_int(vw.n)))); continue
                    out.append((f"{v.key} at step {w.key}", lambda vw, k=v.key, q=w.key: next(x for x in vw.vars if x.key == k).cur == NODE(B_int(next(x for x in vw.vars if x.key == q).cur))))
                    out.append((f"{w.key}<=n", lambda vw, q=w.key: B_int(next(x for x in vw.vars if x.key == q).cur) <= n))
        return out
    ex.loop_cands.append(cands); ex.bound_hints.append(lambda vw: {"N": n})
class List:
    def __init__(s, ex, st, name="n"):
        s.head, s.n, s.node, s.pos = chain(ex, st, name); s.p = ex.new_cells(st, const(ex, st, "l_sizeof"), "list"); r = ex.run(st, "l_make", [s.p, s.head])
        if len(r) != 1 or r[0][0] is not st: raise Unsupported("construction splits")
def is_node(ex, st, L, v, k, label):
    """v is the element at position k, or null past the end"""
    if not isinstance(v, Ptr): raise Unsupported("not a pointer")
    if v.r is None: ex.oblige(st, simp(z3.And(B_int(v.i) == 0, B_int(k) >= L.n)), label); return
    ex.oblige(st, v.r == L.head.r, label); ex.oblige(st, simp(z3.And(B_int(v.i) == NODE(B_int(k)))), label)
def listing(ex):
    st = State(); freeing(ex); L = List(ex, st); hints(ex, L.n)
    for fn in ("l_begin", "l_cbegin", "l_ccbegin", "l_end", "l_cend", "l_ccend"):
        for q, o in ex.run(st.clone(), fn, [L.p]): is_node(ex, q, L, o.v, 0 if "begin" in fn else L.n, f"post:{fn[2:]}") if "begin" in fn else ex.oblige(q, ex.pcmp(q, 'eq', o.v, NULL), f"post:{fn[2:]}")
    for q, o in ex.run(st.clone(), "l_empty", [L.p]): ex.oblige(q, B(ex.asbool(o.v)) == (L.n == 0), "post:empty")
    for q, o in ex.run(st.clone(), "l_size", [L.p]): ex.oblige(q, simp(B_int(o.v) == L.n), "post:size"); cover(ex, q, "size")
def visiting(fn):
    def t(ex):
        st = State(); freeing(ex); L = List(ex, st); hints(ex, L.n); st.ghost['vis'] = 0; bad = []
        def visit(ex, st, a, c):
            is_node(ex, st, L, a[0], st.ghost['vis'], "post:the next element, each once and in order"); st.ghost['vis'] = simp(B_int(st.ghost['vis']) + 1)
        ex.contract("^ghost_visit$", visit, "the loop's body")
        for q, o in ex.run(st, fn, [L.p]): ex.oblige(q, simp(B_int(q.ghost['vis']) == L.n), "post:every element"); cover(ex, q, "all seen")
    return t
def steps(fn):
    def t(ex):
        st = State(); freeing(ex); L = List(ex, st); o_ = ex.new_cells(st, 40, "out")
        if fn in ("i_pre", "i_post", "i_cpre", "i_cpost", "i_convert"): st.assume(L.n > 0)
        for q, o in ex.run(st, fn, [L.p] + ([z3.Bool("const")] if fn in ("i_eq", "i_ne") else [o_])):
            if fn in ("i_eq", "i_ne"): ex.oblige(q, B(ex.asbool(o.v)) == ((L.n == 0) if fn == "i_eq" else (L.n != 0)), "post:compares positions"); cover(ex, q, "compared"); continue
            v = [ex.load_raw(q, Ptr(o_.r, 8 * k), 8) for k in range(4 if "swap" in fn or fn == "i_convert" else 3)]; v = [x.p if isinstance(x, PInt) else Ptr(None, x) if isinstance(x, int) else x for x in v]
            null = lambda x, l: ex.oblige(q, ex.pcmp(q, 'eq', x, NULL), l)
            if "pre" in fn: is_node(ex, q, L, v[0], 1, "post:stepped"); is_node(ex, q, L, v[1], 0, "post:the copy stays"); is_node(ex, q, L, v[2], 1, "post:value of ++i")
            elif "post" in fn: is_node(ex, q, L, v[0], 1, "post:stepped"); is_node(ex, q, L, v[1], 0, "post:the copy stays"); is_node(ex, q, L, v[2], 0, "post:value of i++")
            elif "swap" in fn: null(v[0], "post:swapped"); is_node(ex, q, L, v[1], 0, "post:swapped"); is_node(ex, q, L, v[2], 0, "post:swapped back"); null(v[3], "post:swapped back")
            else: is_node(ex, q, L, v[0], 0, "post:same position"); null(v[1], "post:default iterator"); null(v[2], "post:end"); is_node(ex, q, L, v[3], 0, "post:the element itself")
            cover(ex, q, "stepped")
    return t
def released(ex, st, L, label):
    """the list was released once if it has elements; an empty one needs no release"""
    f = [x for x in st.ghost.get('freed', ()) if x[0] == L.head.r]
    for r, i in f: ex.oblige(st, simp(B_int(i) == NODE(z3.IntVal(0))), f"post:{label} with its head")
    ex.oblige(st, (L.n == 0) if not f else len(f) == 1, f"post:{label} once")
def drop_list(how):
    def t(ex):
        st = State(); freeing(ex); L = List(ex, st); states = [(st, L.p)]
        if how == "move":
            p = ex.new_cells(st, const(ex, st, "l_sizeof"), "moved"); states = []
            for q, o in ex.run(st, "l_move", [p, L.p]):
                for q1, o1 in ex.run(q.clone(), "l_begin", [p]): is_node(ex, q1, L, o1.v, 0, "post:the elements are moved")
                for q1, o1 in ex.run(q.clone(), "l_empty", [L.p]): ex.oblige(q1, B(ex.asbool(o1.v)), "post:the source is empty")
                states += [(q1, p) for q1, _ in ex.run(q, "l_drop", [L.p])]
        if how == "assign":
            # onto a list of one element of its own
            nd = ex.new_cells(st, const(ex, st, "n_sizeof"), "node"); ex.run(st, "n_node", [nd, 0, 0, 0, 0, NULL, NULL]); t_ = ex.new_cells(st, const(ex, st, "l_sizeof"), "target"); ex.run(st, "l_make", [t_, nd]); states = []
            for q, o in ex.run(st, "l_assign", [t_, L.p]):
                ex.oblige(q, [x[0] for x in q.ghost.get('freed', ())] == [nd.r], "post:the former elements are released")
                for q1, o1 in ex.run(q.clone(), "l_begin", [t_]): is_node(ex, q1, L, o1.v, 0, "post:the elements are moved")
                for q1, o1 in ex.run(q.clone(), "l_empty", [L.p]): ex.oblige(q1, B(ex.asbool(o1.v)), "post:the source is empty")
                states += [(q1, t_) for q1, _ in ex.run(q, "l_drop", [L.p])]
        for q, p in states:
            for q1, o in ex.run(q, "l_drop", [p]): released(ex, q1, L, "released"); cover(ex, q1, "released")
    return t
# ---- endpoints
class End:
    def __init__(s, ex, st):
        s.p = ex.new_cells(st, const(ex, st, "e_sizeof"), "endpoint"); ex.run(st, "e_make", [s.p]); s.v = {}
    def look(s, ex, st, p=None):
        v = {}; p = p or s.p
        for g in ("name", "service"): q = [o.v for _, o in ex.run(st, "g_" + g, [p])][0]; R = str_reg(ex, st, q); v[g] = (R.size, R.fields[0][1])
        for g in ("passive", "family", "type"): v[g] = [o.v for _, o in ex.run(st, "g_" + g, [p])][0]
        v["passive"] = ex.asbool(v["passive"]); return v
    def arbitrary(s, ex, st):
        for g in ("name", "service"):
            q = [o.v for _, o in ex.run(st, "g_" + g, [s.p])][0]; W = st.wr(str_obj(ex, st, q).buf); n = z3.Int("old." + g); st.assume(z3.And(n >= 0, n < (1 << 60))); W.size = n; A = z3.Array(f"old.{g}.a", I, I); byte_axiom(ex, st, A); W.fields[0] = (1, A)
def same(ex, st, a, b, label):
    for g in ("name", "service"): ex.oblige(st, simp(B_int(a[g][0]) == B_int(b[g][0])), f"post:{label}{g}"); forall(ex, st, 0, B_int(a[g][0]), lambda j: z3.Select(a[g][1], j) == z3.Select(b[g][1], j), f"post:{label}{g}")
    ex.oblige(st, B(a["passive"]) == B(b["passive"]), f"post:{label}passive")
    for g in ("family", "type"): ex.oblige(st, simp(B_int(a[g]) == B_int(b[g])), f"post:{label}{g}")
SETS = {"passive": ("passive", True), "active": ("passive", False), "stream": ("type", "k_stream"), "datagram": ("type", "k_datagram"), "ip": ("family", "k_unspec"), "ipv4": ("family", "k_ipv4"), "ipv6": ("family", "k_ipv6")}
def setter(name, prior):
    """the given attribute becomes the given value, all others stay; prior: setters applied before, so that all others hold any value"""
    def t(ex):
        st = State(); E = End(ex, st); TS, TL = z3.Function("DIGITS", I, z3.ArraySort(I, I)), z3.Function("DIGITS.n", I, I)
        def to_string(ex, st, a, c): n = TL(B_int(a[1])); st.assume(z3.And(n >= 1, n <= 21)); str_make(ex, st, a[0], n, TS(B_int(a[1]))); return [(st, Ret(None))]
        ex.contract(r"^std::__cxx11::to_string\(int\)", to_string, "std::to_string(int): the decimal text of the number")
        for s in prior: ex.run(st, "e_" + s, [E.p])
        E.arbitrary(ex, st); want = dict(E.look(ex, st)); args = [E.p]
        if name in ("name", "service"): s, N, A = string(ex, st, "NEW"); args.append(s); want[name] = (N, A)
        elif name == "port": n = z3.Int("port"); st.assume(z3.And(n >= 0, n < (1 << 32))); args.append(n); want["service"] = (TL(n), TS(n))
        else: g, v = SETS[name]; want[g] = v if isinstance(v, bool) else const(ex, st, v)
        for q, o in ex.run(st, "e_" + name, args):
            if isinstance(o, Throw): ex.oblige(q, False, "no throw"); continue
            ex.oblige(q, isinstance(o.v, Ptr) and o.v.r == E.p.r and o.v.i == 0, "post:gives the endpoint itself"); same(ex, q, E.look(ex, q), want, ""); cover(ex, q, "set")
            if name in ("name", "service"): R = str_reg(ex, q, s); ex.oblige(q, simp(B_int(R.size) == N), "post:the argument is left alone")
    return t
def fresh_endpoint(ex):
    st = State(); E = End(ex, st); v = E.look(ex, st); same(ex, st, v, dict(name=(0, v["name"][1]), service=(0, v["service"][1]), passive=False, family=const(ex, st, "k_unspec"), type=const(ex, st, "k_stream")), "new endpoint: ")
    E.arbitrary(ex, st); p = ex.new_cells(st, const(ex, st, "e_sizeof"), "copy"); want = E.look(ex, st)
    for q, o in ex.run(st, "e_copy", [p, E.p]): same(ex, q, E.look(ex, q, p), want, "copy: "); cover(ex, q, "copied")
TASKS = [Task("address.make", make), Task("address.copy", copied(False)), Task("address.copy_node", copied(True)), Task("address.move", moved), Task("address.chain", copied_then), Task("list.shape", listing)]
TASKS += [Task(f"list.{f[2:]}", visiting(f)) for f in ("l_each", "l_ceach", "l_post", "l_cpost")] + [Task(f"list.{f}", steps(f)) for f in ("i_pre", "i_post", "i_cpre", "i_cpost", "i_swap", "i_cswap", "i_convert", "i_eq", "i_ne")] + [Task(f"list.drop_{h}", drop_list(h)) for h in ("plain", "move", "assign")]
PRIOR = {"type": ("stream", "datagram"), "family": ("ip", "ipv4", "ipv6"), "passive": ("passive", "active")}
TASKS += [Task("endpoint.new", fresh_endpoint)] + [Task(f"endpoint.{n}.{'_'.join(pr)}", setter(n, pr)) for n in ("name", "service", "port", *SETS) for pr in (("active", "stream", "ip"), ("passive", "datagram", "ipv4"), ("active", "datagram", "ipv6"), ("passive", "stream", "ipv6"))]
