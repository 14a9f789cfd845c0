"""Errors (S14): any name, message, code and previous registrations; messages are byte strings."""
DRIVER = "errors.cpp"
import z3
from core import *
from exec import B_int
from task import Task, cover
import lib as L, gmap as G, eptr
from ghost import *
from tasks.registry import init, name, frame, single, only, INVALID
CLASSES = "unknown_error cancelled data_mismatch deadline_exceeded eof internal_error invalid_argument invalid_state io_error not_implemented not_found out_of_range shutting_down unavailable try_again".split()
TI = {c: f"_ZTIN4arpc6errors{len(c)}{c}E" for c in CLASSES}; TI["mine"] = "_ZTI4mine"; PORTABLE = {c: c.encode() for c in CLASSES}; PORTABLE["mine"] = b"my own"
LAY = [(r"^void \(\*\)\(char const\*\)$", 24, {16: 8})]
TOSTR = z3.Function("TOSTR", I, z3.ArraySort(I, I)); TOSTRN = z3.Function("TOSTRN", I, I)
def setup(ex):
    G.install(ex, LAY); eptr.install(ex)
    def to_string(ex, st, a, c):
        m = c.dname[c.dname.index("to_string(") + 10:]
        if not m.startswith("int)"): raise Unsupported("std::to_string of " + m)
        v = a[1]; v = simp(z3.If(B_int(v) >= 1 << 31, B_int(v) - (1 << 32), B_int(v))) if is_sym(v) else (v - (1 << 32) if v >= 1 << 31 else v)
        n = TOSTRN(B_int(v)); st.assume(z3.And(n >= 1, n <= 11)); L.str_make(ex, st, a[0], n, TOSTR(B_int(v)))
    ex.contract(r"^std::__cxx11::to_string\(", to_string, "std::to_string (a function of the number)")
def cstr(ex, st, nm):
    n = z3.Int(nm + ".n"); st.assume(z3.And(n >= 0, n < (1 << 40))); A = z3.Array(nm, I, I); j = z3.Int(f"j!{fresh_id()}"); byte_axiom(ex, st, A)
    st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(A, j) > 0), z3.Select(A, j)))
    return n, ex.new_arr(st, 1, n, {0: (1, A)}, "cstr " + nm), A
def is_message(ex, st, obj, n, A, label):
    """the exception carries exactly the n bytes of A"""
    v = ex.load_raw(st, ex.padd(st, obj, 8, 1), 8); same_text(ex, st, v, n, A, label)
def same_text(ex, st, v, n, A, label):
    if isinstance(v, Obj) and v.kind == 'msg':
        ex.oblige(st, simp(B_int(n) == len(v.text)), f"post:{label}: length")
        for k, b in enumerate(v.text): ex.oblige(st, simp(read(A, z3.IntVal(k)) == b), f"post:{label}: bytes")
    elif isinstance(v, Obj) and v.kind == 'strval':
        k = z3.Int(f"k!{fresh_id()}"); ex.oblige(st, simp(B_int(v.len) == B_int(n)), f"post:{label}: length"); ex.oblige(st, z3.Implies(z3.And(k >= 0, k < B_int(n)), read(v.arr, k) == read(A, k)), f"post:{label}: bytes")
    else: ex.oblige(st, False, f"post:{label}: is the text given")
def literal_text(ex, st, v, text, label):
    if isinstance(v, Obj) and v.kind == 'msg': ex.oblige(st, v.text == text, f"post:{label}"); return
    if isinstance(v, Obj) and v.kind == 'strval':
        ex.oblige(st, simp(B_int(v.len) == len(text)), f"post:{label}: length")
        for k, b in enumerate(text): ex.oblige(st, simp(B_int(read(v.arr, z3.IntVal(k))) == b), f"post:{label}: bytes")
        return
    ex.oblige(st, False, f"post:{label}: is a text")
def arbitrary_factory(ex, st):
    p, m = single(ex, st, "d_get", "d_size_of"); pres, A, n = G.arbitrary(ex, st, m, "factory"); return p, m, pres, A, n
def by_name(ex):
    """after the registrations at program start: any name, any message"""
    st = State(); setup(ex); st = init(ex, st); p, m = single(ex, st, "d_get", "d_size_of"); old = G.state(ex, st, m); n, q, i = name(ex, st); k, w, A = cstr(ex, st, "what")
    ids = {c: G.lit_id(ex, PORTABLE[c]) for c in CLASSES}; seen = set()
    for st2, o in ex.run(st, "d_throw", [p, n, q, w]):
        if not isinstance(o, Throw): ex.oblige(st2, False, "post:throwing by name throws"); continue
        cls = next((c for c in CLASSES if TI[c] == o.tinfo), None); ex.oblige(st2, cls is not None, f"post:throws one of the error classes ({o.tinfo})")
        if cls is None: continue
        others = z3.And(*[i != x for c, x in ids.items()]); ex.oblige(st2, z3.Or(i == ids[cls], others) if cls == "unknown_error" else i == ids[cls], "post:the class thrown is the one named, unknown_error for any other name")
        is_message(ex, st2, o.obj, k, A, "message"); frame(ex, st2, m, old); cover(ex, st2, cls); seen.add(cls)
    for c in CLASSES:
        s = st.clone(); ex.oblige(s, simp(z3.Select(old[0], z3.IntVal(ids[c]))), f"post:{c} is registered at program start")
def thrown(ex):
    """whatever was registered: the function registered for the name gets the message"""
    st = State(); setup(ex); p, m, pres, Fs, n0 = arbitrary_factory(ex, st); n, q, i = name(ex, st); k, w, A = cstr(ex, st, "what")
    T = "_ZTI4mine"
    def call(ex, st, v, args, c): st.ghost['called'] = st.ghost.get('called', ()) + ((v, args[0]),); return [L.throw(ex, st, T)]
    ex.fn_call = call
    for st2, o in ex.run(st, "d_throw", [p, n, q, w]):
        if not isinstance(o, Throw): ex.oblige(st2, False, "post:throwing by name throws"); continue
        calls = st2.ghost.get('called', ()); frame(ex, st2, m, (pres, Fs, n0))
        if calls:
            ex.oblige(st2, z3.Select(pres, i), "post:only a registered name has a function"); ex.oblige(st2, len(calls) == 1 and o.tinfo == T, "post:its function throws")
            ex.oblige(st2, simp(B_int(calls[0][0]) == z3.Select(Fs[16], i)), "post:the function registered for the name"); v = eptr.message(ex, st2, calls[0][1]); same_text(ex, st2, v, k, A, "message handed over"); cover(ex, st2, "known")
        else: ex.oblige(st2, z3.Not(z3.Select(pres, i)), "post:a registered name is thrown by its function"); ex.oblige(st2, o.tinfo == TI["unknown_error"], f"post:unknown_error otherwise ({o.tinfo})"); is_message(ex, st2, o.obj, k, A, "message"); cover(ex, st2, "unknown")
def registered(ex):
    st = State(); setup(ex); p, m, pres, Fs, n0 = arbitrary_factory(ex, st); n, q, i = name(ex, st); out = ex.new_cells(st, 16, "out")
    for st2, o in ex.run(st, "d_register", [p, n, q, out]):
        if isinstance(o, Throw): ex.oblige(st2, o.tinfo == INVALID, f"post:throws only invalid_state ({o.tinfo})"); ex.oblige(st2, z3.Select(pres, i), "post:refused only if registered before"); frame(ex, st2, m, (pres, Fs, n0), label="refused, nothing changed"); cover(ex, st2, "refused"); continue
        P2, A2, _ = G.state(ex, st2, m); ex.oblige(st2, z3.Not(z3.Select(pres, i)), "post:a second registration is refused"); ex.oblige(st2, z3.Select(P2, i), "post:registered"); frame(ex, st2, m, (pres, Fs, n0), but=i)
        G.same_content(ex, st2, "post:the name comes back", G.load_view(ex, st2, out), (n, q)); k, w, A = cstr(ex, st2, "what")
        for st3, o3 in ex.run(st2, "d_call", [Obj('fnval', v=simp(read(A2[16], i))), w]):
            ex.oblige(st3, isinstance(o3, Throw) and o3.tinfo == TI["mine"], "post:the function registered throws that class")
            if isinstance(o3, Throw): is_message(ex, st3, o3.obj, k, A, "message")
        cover(ex, st2, "registered")
def portable(ex):
    st = State(); setup(ex); st = init(ex, st)
    for c in CLASSES:
        s = st.clone(); out = ex.new_cells(s, 16, "out"); k, w, A = cstr(ex, s, "what")
        for s2, o in only(ex, ex.run(s, "d_name_" + c, [out, w]), "portable name"): ex.oblige(s2, G.bytes_of(ex, s2, *G.load_view(ex, s2, out)) == PORTABLE[c], f"post:portable name of {c}"); cover(ex, s2, c)
def analyze(c):
    def t(ex):
        st = State(); setup(ex); st = init(ex, st); e = ex.new_cells(st, 8, "exception_ptr"); k, w, A = cstr(ex, st, "what"); sz = ex.run(st, "d_pair_size", [])[0][1].v; out = ex.new_cells(st, sz, "pair")
        for s, o in only(ex, ex.run(st, "d_make_" + c, [e, w]), "making the exception"):
            for s2, o2 in only(ex, ex.run(s, "d_analyze", [e, out]), "analysing"):
                f, g = (L.str_value(ex, s2, ex.run(s2, d, [out])[0][1].v) for d in ("d_first", "d_second"))
                literal_text(ex, s2, f, PORTABLE.get(c, b""), "portable name")
                if c in ("foreign", "null"): literal_text(ex, s2, g, b"", "no message")
                else: same_text(ex, s2, g, k, A, "message")
                cover(ex, s2, c)
    return t
def with_code(ex, st2, obj, n, A, code):
    """the message is text + ": " + the number in decimal"""
    v = ex.load_raw(st2, ex.padd(st2, obj, 8, 1), 8)
    if not (isinstance(v, Obj) and v.kind == 'strval'): ex.oblige(st2, False, "post:message with number"); return
    k = z3.Int(f"k!{fresh_id()}"); D = TOSTR(code); N = TOSTRN(code)
    ex.oblige(st2, simp(B_int(v.len) == n + 2 + N), "post:message with number: length"); ex.oblige(st2, z3.Implies(z3.And(k >= 0, k < n), read(v.arr, k) == read(A, k)), "post:message with number: the message first")
    ex.oblige(st2, z3.And(read(v.arr, n) == ord(':'), read(v.arr, n + 1) == ord(' ')), "post:message with number: separator"); ex.oblige(st2, z3.Implies(z3.And(k >= 0, k < N), read(v.arr, n + 2 + k) == read(D, k)), "post:message with number: the number last")
def errno_cell(ex, st):
    p = ex.new_cells(st, 4, "errno"); code = z3.Int("errno"); st.assume(z3.And(code >= -(1 << 31), code < (1 << 31))); ex.store_raw(st, p, 4, simp(z3.If(code < 0, code + (1 << 32), code)))
    ex.contract(r"^__errno_location$", lambda ex, st, a, c: p, "errno"); return code
QUIET = (115, 114, 106); AGAIN = (11,)
def io(by_errno):
    def t(ex):
        st = State(); setup(ex); sp, n, A = string(ex, st, "m"); code = errno_cell(ex, st) if by_errno else None
        if code is None: code = z3.Int("code"); st.assume(z3.And(code >= -(1 << 31), code < (1 << 31)))
        arg = [] if by_errno else [simp(z3.If(code < 0, code + (1 << 32), code))]
        for st2, o in ex.run(st, "d_io_errno" if by_errno else "d_io_code", [sp] + arg):
            quiet = z3.Or(*[code == x for x in QUIET]); again = z3.Or(*[code == x for x in AGAIN])
            if not isinstance(o, Throw): ex.oblige(st2, quiet, "post:silent only for connections in progress or done"); cover(ex, st2, "quiet")
            elif o.tinfo == TI["try_again"]: ex.oblige(st2, again, "post:try_again only for would-block"); cover(ex, st2, "again")
            else: ex.oblige(st2, o.tinfo == TI["io_error"], f"post:io_error otherwise ({o.tinfo})"); ex.oblige(st2, z3.Not(z3.Or(quiet, again)), "post:io_error only for other codes"); with_code(ex, st2, o.obj, n, A, code); cover(ex, st2, "io")
    return t
def coded(c, by_errno):
    def t(ex):
        st = State(); setup(ex); sp, n, A = string(ex, st, "m"); code = errno_cell(ex, st) if by_errno else None
        if code is None: code = z3.Int("code"); st.assume(z3.And(code >= -(1 << 31), code < (1 << 31)))
        arg = [] if by_errno else [simp(z3.If(code < 0, code + (1 << 32), code))]
        for st2, o in ex.run(st, f"d_{'errno' if by_errno else 'code'}_{c}", [sp] + arg):
            ex.oblige(st2, isinstance(o, Throw) and o.tinfo == TI[c], "post:throws that class")
            if isinstance(o, Throw): with_code(ex, st2, o.obj, n, A, code); cover(ex, st2, "thrown")
    return t
TASKS = [Task("errors.by_name", by_name), Task("errors.thrown", thrown), Task("errors.registered", registered), Task("errors.portable", portable),
    *[Task("errors.analyze_" + c, analyze(c)) for c in CLASSES + ["mine", "stdish", "foreign", "null"]], Task("errors.io_code", io(False)), Task("errors.io_errno", io(True)),
    *[Task(f"errors.{'errno' if e else 'code'}_{c}", coded(c, e)) for e in (False, True) for c in ("cancelled", "io_error", "unknown_error")]]
