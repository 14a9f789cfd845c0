"""Result holders (S15): every operation from every content, with any value and any exception; the representation an operation
leaves is that of a holder given the content directly, so that what holds after one operation holds after any history."""
DRIVER = "holder.cpp"
import z3, re
from core import *
from exec import B_int
from task import Task, cover
import lib as L, eptr
from ghost import *
from tasks.compose import layers, used, inp, hints, size_sym, elem_ok, rejected, PUT, GET
TIN = "_ZTISt13runtime_error"
class C:
    """content: the value stored (None if none) and the exception stored (None if none)"""
    def __init__(s, v=None, e=None): s.v = v; s.e = e
    @property
    def full(s): return s.v is not None or s.e is not None
def setup(ex, st):
    eptr.install(ex)
    def rc(d): return lambda ex, st, a, c: rc_(ex, st, a, d)
    def rc_(ex, st, a, d):
        p = ex.load_raw(st, a[0], 8); k = ('rc', p.r); st.ghost[k] = st.ghost.get(k, 0) + d
        ex.oblige(st, st.ghost[k] >= 0, "exception released once too often")
    ex.contract(r"^std::__exception_ptr::exception_ptr::_M_addref\(", rc(1), "std::exception_ptr reference counts"); ex.contract(r"^std::__exception_ptr::exception_ptr::_M_release\(", rc(-1), "std::exception_ptr reference counts")
    key = lambda p: (p.r, p.i)
    def born(ex, st, a, c): ex.oblige(st, key(a[0]) not in st.ghost.get('live', frozenset()), "value constructed over a live one"); st.ghost['live'] = st.ghost.get('live', frozenset()) | {key(a[0])}
    def died(ex, st, a, c): ex.oblige(st, key(a[0]) in st.ghost.get('live', frozenset()), "value destroyed that was not there"); st.ghost['live'] = st.ghost.get('live', frozenset()) - {key(a[0])}
    def alive(ex, st, a, c): ex.oblige(st, key(a[0]) in st.ghost.get('live', frozenset()), "value used that was not there")
    ex.contract("^ghost_born$", born); ex.contract("^ghost_died$", died); ex.contract("^ghost_alive$", alive)
    st.ghost['live'] = frozenset()
def go(ex, st, fn, args, label=None):
    """the only outcome of an operation that does not throw"""
    r = [x for x in ex.run(st, fn, args)]
    out = []
    for s, o in r:
        if isinstance(o, Throw): ex.oblige(s, False, f"post:{label or fn} does not throw ({o.tinfo})"); continue
        out.append((s, o))
    if len(out) != 1: raise Unsupported(f"{fn} splits")
    if out[0][0] is not st: st.mem, st.pc, st.ghost = out[0][0].mem, out[0][0].pc, out[0][0].ghost
    return out[0][1].v
def exception(ex, st, nm):
    """an exception_ptr to any exception; the caller holds one reference"""
    e = ex.new_cells(st, 16, "exception"); ex.store_raw(st, ex.padd(st, e, 8, 1), 8, Obj('msg', text=nm.encode())); eptr.made(ex, st, TIN, e); st.ghost[('rc', e.r)] = 1
    p = ex.new_cells(st, 8, "exception_ptr"); ex.store_raw(st, p, 8, e); return p, e
def idv(st, nm): v = z3.Int(nm); st.assume(z3.And(v >= 0, v < (1 << 62))); return v
def holder(ex, st, T, content, nm="h"):
    """a holder given this content directly"""
    p = ex.new_cells(st, go(ex, st, f"d_size_{T}", []), "holder " + nm); go(ex, st, f"d_new_{T}", [p])
    if content.v is not None: go(ex, st, "d_set_copy_v", [p, content.v]) if T == "v" else go(ex, st, "d_set_n", [p])
    if content.e is not None: go(ex, st, f"d_set_exc_{T}", [p, content.e[0]])
    return p
def contents(ex, st, T, nm):
    v = idv(st, nm + ".value") if T == "v" else True; e = exception(ex, st, nm + ".exception")
    return [C(), C(v=v), C(e=e), C(v=v, e=e)]
def what(c): return ("value" if c.v is not None else "") + ("exception" if c.e is not None else "") or "empty"
OBS = {"v": "star cstar value cvalue arrow carrow rstar crstar rvalue crvalue".split(), "n": "star cstar value cvalue rstar crstar rvalue crvalue".split()}
def refs(ex, st, c, n, label):
    """references to the exceptions: the caller's and one for each holder holding it"""
    for e, k in n.items(): ex.oblige(st, st.ghost.get(('rc', e), 0) == k, f"post:{label}: references to the exception")
def observe(ex, st, T, p, c, label):
    """every observer reports exactly that content"""
    for f in ("bool", "has"): s = st.clone(); r = go(ex, s, f"d_{f}_{T}", [p]); ex.oblige(s, simp(B(ex.asbool(r)) == z3.BoolVal(c.full)), f"post:{label}: tests true exactly if something is stored")
    for f in OBS[T] + ["or", "ror"]:
        s = st.clone(); d = idv(s, "default"); isor = f in ("or", "ror"); args = [p] + ([d] if isor and T == "v" else []); live = s.ghost['live']; e0 = {k: x for k, x in s.ghost.items() if isinstance(k, tuple) and k[0] == 'rc'}
        for s2, o in ex.run(s, f"d_{f}_{T}", args):
            if isinstance(o, Throw):
                if c.e is not None: ex.oblige(s2, o.obj.r == c.e[1].r and o.obj.i == c.e[1].i, f"post:{label}: {f} throws the exception stored ({o.tinfo})")
                else: ex.oblige(s2, not isor and not c.full and o.tinfo == INVALID, f"post:{label}: {f} throws invalid_state exactly if empty ({o.tinfo})")
            else:
                ex.oblige(s2, c.e is None, f"post:{label}: {f} throws the exception stored")
                if not isor: ex.oblige(s2, c.v is not None, f"post:{label}: {f} of an empty holder throws")
                if T == "v" and (isor or c.v is not None): ex.oblige(s2, simp(B_int(o.v) == B_int(c.v if c.v is not None else d)), f"post:{label}: {f} gives the value stored" if c.v is not None else f"post:{label}: the default only when empty")
            ex.oblige(s2, s2.ghost['live'] == live, f"post:{label}: {f} leaves the values as they are")
            for k, x in e0.items(): ex.oblige(s2, s2.ghost.get(k, 0) == x, f"post:{label}: {f} leaves the references as they are")
    if not ex.scout: pass
def rep(ex, st, p, T):
    """representation: all cells that are not the storage of an absent value"""
    R = st.mem[p.r]; live = st.ghost['live']
    return {o: (n, v) for o, (n, v) in R.cells.items()}
def canonical(ex, st, T, p, c, label):
    """the representation is that of a holder given the content directly (storage of an absent value aside)"""
    s = st.clone(); s.ghost = dict(s.ghost); q = holder(ex, s, T, c, "direct"); A, Bq = s.mem[p.r].cells, s.mem[q.r].cells
    for o in sorted(set(Bq)):
        n, v = Bq[o]; a = A.get(o)
        if isinstance(v, Undef): continue
        if a is None or a[0] != n: raise Unsupported(f"{label}: representation differs from a fresh one at {o}")
        x, y = a[1], v
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            same = isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r and x.i == y.i
            same = same or (isinstance(x, (Ptr, int)) and isinstance(y, (Ptr, int)) and all((z == 0 if isinstance(z, int) else z.r is None and z.i == 0) for z in (x, y)))
        elif isinstance(x, Undef) or isinstance(x, Obj) or isinstance(y, Obj): same = False
        else: same = ex.q(s, simp(B_int(ex.asint(x, 8 * n)) == B_int(ex.asint(y, 8 * n))))
        if not same and not ex.scout: raise Unsupported(f"{label}: representation differs from a fresh one at {o}: {x!r} {y!r}")
def done(ex, st, T, p, c, label, others=()):
    observe(ex, st, T, p, c, label); canonical(ex, st, T, p, c, label)
    # destruction drops the content
    s = st.clone(); n = {}
    for e in {x.e[1].r for x in (c,) + tuple(k for _, k in others) if x.e is not None}: n[e] = 1
    go(ex, s, f"d_die_{T}", [p]); live = s.ghost['live']
    ex.oblige(s, not any(k[0] == p.r for k in live), f"post:{label}: destruction destroys the value")
    for q, k in others: go(ex, s, f"d_die_{T}", [q])
    ex.oblige(s, s.ghost['live'] == frozenset(), f"post:{label}: no value is left over")
    for e, x in [(k[1], x) for k, x in s.ghost.items() if isinstance(k, tuple) and k[0] == 'rc']: ex.oblige(s, x == 1, f"post:{label}: destruction drops the reference to the exception")
    cover(ex, st, label)
def unary(T, op):
    def t(ex):
        st = State(); setup(ex, st); new = exception(ex, st, "new"); nid = idv(st, "newid") if T == "v" else True
        for c in contents(ex, st, T, "h"):
            s = st.clone(); lbl = f"{op} on {what(c)}"
            if op.startswith("new"):
                if c.full: continue
                p = ex.new_cells(s, go(ex, s, f"d_size_{T}", []), "holder h")
            else: p = holder(ex, s, T, c)
            if op == "none": c2 = c
            elif op == "new": go(ex, s, f"d_new_{T}", [p]); c2 = C()
            elif op == "new_val": go(ex, s, "d_new_val_v", [p, nid]); c2 = C(v=nid)
            elif op == "new_exc": go(ex, s, f"d_new_exc_{T}", [p, new[0]]); c2 = C(e=new)
            elif op == "set_exc": go(ex, s, f"d_set_exc_{T}", [p, new[0]]); c2 = C(v=c.v, e=new)
            elif op == "set_copy": go(ex, s, "d_set_copy_v", [p, nid]); c2 = C(v=nid, e=c.e)
            elif op == "set_move": go(ex, s, "d_set_move_v", [p, nid]); c2 = C(v=nid, e=c.e)
            elif op == "set": go(ex, s, "d_set_n", [p]); c2 = C(v=True, e=c.e)
            elif op == "reset": go(ex, s, f"d_reset_{T}", [p]); c2 = C()
            done(ex, s, T, p, c2, lbl)
    return t
def binary(T, op):
    def t(ex):
        st = State(); setup(ex, st); cs = contents(ex, st, T, "h"); ds = contents(ex, st, T, "o")
        for c in cs:
            if op == "new_move" and c.full: continue
            for d in ds:
                s = st.clone(); q = holder(ex, s, T, d, "o"); lbl = f"{op} {what(c)} with {what(d)}"
                if op == "new_move": p = ex.new_cells(s, go(ex, s, f"d_size_{T}", []), "holder h")
                else: p = holder(ex, s, T, c)
                go(ex, s, f"d_{op}_{T}", [p, q])
                if op in ("swap", "fswap"): done(ex, s, T, p, d, lbl, [(q, c)]); done(ex, s, T, q, c, lbl + ", other", [(p, d)])
                else: done(ex, s, T, p, d, lbl, [(q, C())])
    return t
def self_swap(T):
    def t(ex):
        st = State(); setup(ex, st)
        for c in contents(ex, st, T, "h"):
            s = st.clone(); p = holder(ex, s, T, c); go(ex, s, f"d_swap_{T}", [p, p]); done(ex, s, T, p, c, "swap with itself, " + what(c))
    return t
# ---- encoding and decoding
ANALYZE, THROW = "error_factory::analyze_exception (discharged by errors.analyze_*)", "error_factory::throw_error (discharged by errors.by_name, errors.thrown)"
def saving(T, o_):
    def t(ex):
        st = State(); setup(ex, st); layers(ex, st); g = GOut(ex, st); tn, tA = z3.Int("type.n"), z3.Array("type", I, I); mn, mA = z3.Int("msg.n"), z3.Array("msg", I, I)
        for n, A in ((tn, tA), (mn, mA)): st.assume(z3.And(n >= 0, n < (1 << 40))); byte_axiom(ex, st, A)
        cs = contents(ex, st, T, "h"); e = cs[2].e
        def analyze(ex, st, a, c):
            p = ex.load_raw(st, a[1], 8); ex.oblige(st, isinstance(p, Ptr) and p.r == e[1].r, "post:the exception stored is the one analysed"); L.str_make(ex, st, a[0], tn, tA); L.str_make(ex, st, ex.padd(st, a[0], 32, 1), mn, mA)
        ex.contract(r"^arpc::error_factory::analyze_exception", analyze, ANALYZE); hints(ex, SRC=[tA]); hints(ex, SRC=[mA])
        for c in cs:
            s = st.clone(); p = holder(ex, s, T, c)
            for s2, o in ex.run(s, f"d_save_{o_}_{T}", [p]):
                if isinstance(o, Throw): ex.oblige(s2, False, f"no throw ({o.tinfo})"); continue
                out = s2.ghost['out']; at = g.n0
                ex.oblige(s2, simp(read(out, at) == (1 if c.v is not None else 0)), "post:whether there is a value comes first"); at = at + 1
                if c.v is not None and T == "v": ex.oblige(s2, simp(read(out, at) == B_int(c.v)), "post:then the value"); at = at + 1
                ex.oblige(s2, simp(read(out, at) == (1 if c.e is not None else 0)), "post:then whether there is an exception"); at = at + 1
                if c.e is not None:
                    for n, A, l in ((tn, tA, "class name"), (mn, mA, "message")):
                        ex.oblige(s2, simp(read(out, at) == size_sym(n)), f"post:size of the {l}"); forall(ex, s2, 0, n, lambda j: z3.Select(out, at + 1 + j) == z3.Select(A, j), f"post:{l}"); at = at + 1 + n
                ex.oblige(s2, simp(B_int(s2.ghost['out.len']) == at), "post:nothing else is written"); g.post_prefix(ex, s2); cover(ex, s2, what(c))
            if c.e is not None: used(ex, ANALYZE, PUT)
    return t
def loading(T, o_):
    def t(ex):
        st = State(); setup(ex, st); layers(ex, st); g = inp(ex, st); IN = g.arr; hints(ex, IN=IN)
        def thr(ex, st, a, c):
            r, x = L.throw(ex, st, TIN); n, q = a[1], a[2]; st.ghost[('by name', x.obj.r)] = (n, q, st.mem[q.r].fields[0][1] if isinstance(q, Ptr) and q.r is not None and st.mem[q.r].kind == 'a' else None, eptr.message(ex, st, a[3])); return [(r, x)]
        ex.contract(r"^arpc::error_factory::throw_error\(", thr, THROW)
        ex.contract(r"^arpc::singleton<arpc::error_factory>::get\(\)", lambda ex, st, a, c: ex.new_cells(st, 64, "error factory"), "the error factory")
        for c in contents(ex, st, T, "before"):
            s = st.clone(); s.ghost = dict(s.ghost); p = holder(ex, s, T, c)
            for s2, o in ex.run(s, f"d_load_{o_}_{T}", [p]):
                if isinstance(o, Throw): rejected(ex, s2, o, g, ""); continue
                has = z3.Select(IN, 0); pos = B_int(s2.ghost['in.pos']); k = 2 if T == "v" else 1
                for hv in (False, True):
                    if not ex.feas(s2, has == (1 if hv else 0)): continue
                    s3 = s2.clone(); s3.assume(has == (1 if hv else 0)); fl = z3.IntVal(k if hv and T == "v" else 1); ex3 = z3.Select(IN, fl)
                    for he in (False, True):
                        if not ex.feas(s3, ex3 == (1 if he else 0)): continue
                        s4 = s3.clone(); s4.assume(ex3 == (1 if he else 0)); v = (z3.Select(IN, 1) if T == "v" else True) if hv else None; lbl = f"{what(c)} overwritten with {what(C(v, True if he else None))}"
                        e = None
                        if he:
                            mk = [(k_[1], x) for k_, x in s4.ghost.items() if isinstance(k_, tuple) and k_[0] == 'by name']; ex.oblige(s4, len(mk) == 1, f"post:{lbl}: the exception is made by name")
                            if len(mk) != 1: continue
                            r, (n, q, A, m) = mk[0]; e = (None, Ptr(r)); a0 = fl + 1; n_ = B_int(n)
                            ex.oblige(s4, simp(z3.Select(IN, a0) == size_sym(n_)), f"post:{lbl}: length of its class name")
                            if A is not None: forall(ex, s4, 0, n_, lambda j: z3.Select(A, B_int(q.i) + j) == z3.Select(IN, a0 + 1 + j), f"post:{lbl}: its class name")
                            else: ex.oblige(s4, simp(n_ == 0), f"post:{lbl}: its class name")
                            a1 = a0 + 1 + n_; l = z3.Int(f"l!{fresh_id()}"); ok = isinstance(m, Obj) and m.kind in ('strval', 'msg'); ex.oblige(s4, ok, f"post:{lbl}: has a message")
                            if not ok: continue
                            ml, mA = (B_int(m.len), m.arr) if m.kind == 'strval' else (z3.IntVal(len(m.text)), None)
                            mn_ = z3.Select(IN, a1) - size_sym(0)
                            ex.oblige(s4, z3.And(ml <= mn_, z3.Or(ml == mn_, z3.Select(IN, a1 + 1 + ml) == 0)), f"post:{lbl}: its message reaches up to the first zero")
                            if mA is not None: forall(ex, s4, 0, ml, lambda j: z3.Select(mA, j) == z3.Select(IN, a1 + 1 + j), f"post:{lbl}: its message")
                            ex.oblige(s4, simp(pos == a1 + 1 + mn_), f"post:{lbl}: exactly its symbols are consumed")
                        else: ex.oblige(s4, simp(pos == fl + 1), f"post:{lbl}: exactly its symbols are consumed")
                        observe(ex, s4, T, p, C(v, e), lbl); cover(ex, s4, lbl)
        used(ex, GET)
    return t
TASKS = []
for T in "vn":
    for op in ["none", "new", "new_exc", "set_exc", "reset"] + (["new_val", "set_copy", "set_move"] if T == "v" else ["set"]): TASKS.append(Task(f"holder.{op}_{T}", unary(T, op)))
    for op in ("new_move", "assign", "swap", "fswap"): TASKS.append(Task(f"holder.{op}_{T}", binary(T, op)))
    TASKS.append(Task(f"holder.self_swap_{T}", self_swap(T)))
    for o_ in ("le", "be"): TASKS.append(Task(f"holder.save_{o_}_{T}", saving(T, o_))); TASKS.append(Task(f"holder.load_{o_}_{T}", loading(T, o_)))
