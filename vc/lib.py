"""Assumed contracts on the C++ runtime and standard library (the trusted base of the proofs)."""
import re, z3
from core import *
from exec import NOTHANDLED, B_int, I64
import ir as IR

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
SV = "std::basic_string_view<char, std::char_traits<char> >"

def ret(st, v=None): return [(st, Ret(v))]

# ------------------------------------------------------------------ exceptions
def throw(ex, st, tinfo, what=None):
    p = ex.new_cells(st, 16, "exception")
    if what is not None: st.wr(p.r).cells[8] = (8, what)
    return (st, Throw(tinfo, p))

def install_runtime(ex):
    C = ex.contract
    def alloc_exc(ex, st, a, c): return ex.new_cells(st, a[0], "exception")
    C(r"^__cxa_allocate_exception$", alloc_exc)
    C(r"^__cxa_free_exception$", lambda ex, st, a, c: None)
    def do_throw(ex, st, a, c):
        nm = next((n for n, r in ex.gregions.items() if r == a[1].r), None)
        return [(st, Throw(nm, a[0]))]
    C(r"^__cxa_throw$", do_throw)
    def begin_catch(ex, st, a, c):
        o = a[0]
        if not isinstance(o, Obj): raise Unsupported("begin_catch")
        st.ghost['caught'] = st.ghost.get('caught', ()) + (o.exc,)
        return o.exc.obj
    C(r"^__cxa_begin_catch$", begin_catch)
    def end_catch(ex, st, a, c):
        st.ghost['caught'] = st.ghost.get('caught', ())[:-1]
    C(r"^__cxa_end_catch$", end_catch)
    C(r"^__cxa_rethrow$", lambda ex, st, a, c: [(st, st.ghost['caught'][-1])])
    def term(ex, st, a, c):
        ex.oblige(st, False, "terminate-called"); return []
    C(r"^(__clang_call_terminate|std::terminate\(\)|abort|__cxa_pure_virtual)$", term)
    def assert_fail(ex, st, a, c):
        m = ex.cstring(st, a[0])
        ex.oblige(st, False, f"assert({m.decode() if m else '?'})"); return []
    C(r"^(__assert_fail|std::__glibcxx_assert_fail\(.*)$", assert_fail)
    def thrower(t):
        return lambda ex, st, a, c: [throw(ex, st, t)]
    C(r"^std::__throw_length_error", thrower("_ZTISt12length_error"))
    C(r"^std::__throw_out_of_range", thrower("_ZTISt12out_of_range"))
    C(r"^std::__throw_bad_optional_access", thrower("_ZTISt20bad_optional_access"))
    C(r"^std::__throw_bad_alloc|^std::__throw_bad_array_new_length", thrower("_ZTISt9bad_alloc"))
    C(r"^std::__throw_logic_error", thrower("_ZTISt11logic_error"))
    C(r"^std::__throw_invalid_argument", thrower("_ZTISt16invalid_argument"))
    def rt_ctor(ex, st, a, c):
        """runtime_error(const char*) / (const string&): remembers the message object"""
        m = a[1]
        ex.check_access(st, a[0], 16, True)
        if 'basic_string' in c.dname:
            msg = str_value(ex, st, m)
        else:
            b = ex.cstring(st, m)
            msg = Obj('msg', text=b) if b is not None else Obj('msgptr', p=m)
        ex.cells_write(st, st.wr(a[0].r), a[0].i + 8, 8, msg)
    C(r"^std::(?:runtime_error::runtime_error|out_of_range::out_of_range|logic_error::logic_error|invalid_argument::invalid_argument|length_error::length_error)\((char const\*|std::__cxx11)", rt_ctor, "std::runtime_error(message)")
    def rt_copy(ex, st, a, c):
        v = ex.load_raw(st, ex.padd(st, a[1], 8, 1), 8)
        ex.cells_write(st, st.wr(a[0].r), a[0].i + 8, 8, v)
    C(r"^std::runtime_error::runtime_error\(std::runtime_error const&\)", rt_copy, "std::runtime_error copy")
    C(r"^std::(runtime_error|exception|logic_error|out_of_range|invalid_argument|length_error)::~", lambda ex, st, a, c: None, "std::exception destructors")
    # allocation
    def op_new(ex, st, a, c):
        n = a[0]
        if not isinstance(n, int):
            p = ex.new_arr(st, 1, n, {0: (1, ex.fresh_array(8, "heap"))}, "heap")
        else: p = ex.new_cells(st, n, "heap")
        st.wr(p.r).dyn = ('new', n)
        return p
    C(r"^operator new(\[\])?\(unsigned long\)$", op_new, "operator new (assumed to succeed)")
    def op_del(ex, st, a, c):
        p = a[0]
        if isinstance(p, Ptr) and p.r is None:
            return None
        R = st.mem[p.r]
        if not R.alive: ex.oblige(st, False, "double-delete"); return None
        if R.dyn is None or R.dyn[0] != 'new': ex.oblige(st, False, "delete-of-non-heap"); return None
        if not (isinstance(p.i, int) and p.i == 0): ex.oblige(st, False, "delete-inside-object")
        if len(a) > 1 and isinstance(a[1], int) and isinstance(R.dyn[1], int) and a[1] != R.dyn[1]:
            ex.oblige(st, False, f"sized-delete-mismatch({R.dyn[1]} allocated, {a[1]} freed)")
        st.wr(p.r).alive = False
    C(r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$", op_del, "operator delete")
    # atomics / threads
    C(r"^__gthread_active_p|__gthread_active", lambda ex, st, a, c: 0, "single-threaded run")
    C(r"^std::allocator<.*>::~?allocator|^std::__new_allocator<.*>::~?__new_allocator", lambda ex, st, a, c: None, "std::allocator is stateless")
    def guard(ex, st, a, c):
        v = st.ghost.get(('guard', a[0].r), 0)
        if v: return 0
        return 1
    C(r"^__cxa_guard_acquire$", guard)
    def guard_rel(ex, st, a, c):
        st.ghost[('guard', a[0].r)] = 1
        ex.cells_write(st, st.wr(a[0].r), a[0].i, 1, 1)
    C(r"^__cxa_guard_release$", guard_rel)
    C(r"^__cxa_guard_abort$", lambda ex, st, a, c: None)
    C(r"^__cxa_atexit$|^atexit$", lambda ex, st, a, c: 0)
    def strlen(ex, st, a, c):
        b = ex.cstring(st, a[0])
        if b is not None: return len(b)
        R = st.mem.get(a[0].r)
        if R is not None and R.kind == 'a' and R.name.startswith('cstr') and isinstance(a[0].i, int) and a[0].i == 0: return R.size
        cs = c_string(ex, st, a[0])
        if cs is not None: return cs[1]
        raise Unsupported("strlen of unknown data")
    C(r"^strlen$|^std::char_traits<char>::length\(", strlen, "strlen")
    C(r"^memcpy$|^memmove$", lambda ex, st, a, c: (ex.memcpy(st, a[0], a[1], a[2]), a[0])[1], "memcpy")
    C(r"^std::is_constant_evaluated|^std::__is_constant_evaluated", lambda ex, st, a, c: False)

# ------------------------------------------------------------------ std::string
def arr_def(ex, st, fn, name, w=8):
    NA = ex.fresh_array(w, name); j = z3.Int(f"j!{fresh_id()}")
    define_array(NA, fn)
    st.assume(z3.ForAll([j], z3.Select(NA, j) == fn(j), patterns=[z3.Select(NA, j)]))
    return NA
def new_buf(ex, st, length, arr=None, name="str"):
    if arr is None: arr = ex.fresh_array(8, name)
    p = ex.new_arr(st, 1, length, {0: (1, arr)}, name)
    ex.__dict__.setdefault('nul_regions', set()).add(p.r)
    return p.r
def clen(ex, st, A, n, o=0):
    """length of the C string in the first n bytes of A (a zero follows them)"""
    if isinstance(n, int) and n == 0: return 0
    l = z3.Int(f"clen!{fresh_id()}"); j = z3.Int(f"j!{fresh_id()}")
    st.assume(z3.And(l >= 0, l <= B_int(n), FA([j], z3.Implies(z3.And(j >= 0, j < l), z3.Select(A, o + j) != 0), z3.Select(A, o + j)), z3.Or(l == B_int(n), z3.Select(A, o + l) == 0)))
    return l
def c_string(ex, st, p):
    """(array, length) of the zero-terminated text at p, or None"""
    R = st.mem.get(p.r) if isinstance(p, Ptr) and p.r is not None else None
    if R is None or R.kind != 'a' or R.stride != 1 or not (isinstance(p.i, int) and p.i == 0): return None
    A = R.fields[0][1]
    if R.name.startswith('cstr'): return A, R.size
    if p.r in ex.__dict__.get('nul_regions', ()):
        if ex.mode != 'int': return None
        if not R.alive: ex.oblige(st, False, f"use-after-free({R.name})"); raise Infeasible()
        return A, clen(ex, st, A, R.size)
    return None
def str_make(ex, st, p, length, arr=None):
    """construct a string object at p"""
    r = new_buf(ex, st, length, arr)
    ex.store_raw(st, p, 32, Obj('str', buf=r))
    return r
def str_obj(ex, st, p):
    if not isinstance(p, Ptr) or p.r is None:
        ex.oblige(st, False, "null-string"); raise Infeasible()
    R = ex.check_access(st, p, 32, False)
    v = ex.load_raw(st, p, 32)
    if not (isinstance(v, Obj) and v.kind == 'str'): raise Unsupported("not a string object")
    return v
def str_reg(ex, st, p): return st.mem[str_obj(ex, st, p).buf]
def str_value(ex, st, p):
    R = str_reg(ex, st, p)
    return Obj('strval', len=R.size, arr=R.fields[0][1])
def chr_(ex, v): return B_int(v) if ex.mode == 'int' else ex.bvc(v, 8)
def src_bytes(ex, st, p, n):
    """(array, offset) view of n bytes at p"""
    if isinstance(n, int) and n == 0: return None
    R = st.mem.get(p.r) if isinstance(p, Ptr) and p.r is not None else None
    if R is None:
        ex.oblige(st, simp(B_int(n) == 0), "null-range"); return None
    if R.kind == 'a':
        ex.chk_range(st, p, n, False)
        return (R.fields[0][1], p.i)
    if isinstance(n, int):
        A = ex.fresh_array(8, "lit")
        bs = [ex.load_raw(st, ex.padd(st, p, i, 1), 1) for i in range(n)]
        for i, b in enumerate(bs):
            if isinstance(b, Undef): b = ex.fresh(st, 8, "uninit")
            A = z3.Store(A, i, chr_(ex, ex.asint(b, 8)))
        return (A, 0)
    # symbolic count over a small object
    if isinstance(R.size, int) and R.size <= 64:
        ex.check_access
        ex.oblige(st, simp(And(B_int(p.i) >= 0, p.i + B_int(n) <= R.size)), f"bounds-range({R.name})")
        A = ex.fresh_array(8, "lit")
        if isinstance(p.i, int):
            for i in range(R.size - p.i):
                b = ex.cells_read(st, R, p.i + i, 1)
                if isinstance(b, Undef): continue
                A = z3.Store(A, i, chr_(ex, ex.asint(b, 8)))
            return (A, 0)
    raise Unsupported("byte view of an object")
def bump(ex, st, r):
    W = st.wr(r); W.gen = ('g', fresh_id()); return W
def length_guard(ex, st, n, w=1):
    """-> list of states: [] or [(st_throw, Throw)] plus continues in st"""
    mx = ex.max_str // w   # an allocation of more bytes is refused
    if isinstance(n, int):
        return [] if n < mx else None
    if ex.q(st, n <= mx): return []
    out = []
    g = simp(B_int(n) > mx)
    if ex.feas(st, g):
        st2 = st.clone(); st2.assume(B(g)); out.append(throw(ex, st2, "_ZTISt12length_error"))
    st.assume(B(Not(g)))
    return out
def str_append(ex, st, p, view, n):
    o = str_obj(ex, st, p); R = st.mem[o.buf]; ln, A = R.size, R.fields[0][1]
    if isinstance(n, int) and n == 0: return
    W = bump(ex, st, o.buf); W.size = simp(ln + n) if (is_sym(ln) or is_sym(n)) else ln + n
    S, so = view
    if isinstance(n, int) and n <= 16:
        NA = A
        for i in range(n): NA = z3.Store(NA, B_int(ln) + i if is_sym(ln) else z3.IntVal(ln + i), z3.Select(S, B_int(so) + i))
    else:
        NA = arr_def(ex, st, lambda j: z3.If(z3.And(j >= ln, j < B_int(ln) + n), z3.Select(S, j - ln + so), z3.Select(A, j)), "app")
    W.fields[0] = (1, NA)
def push_char(ex, st, p, v):
    o = str_obj(ex, st, p); R = st.mem[o.buf]
    W = bump(ex, st, o.buf); ln = W.size
    W.fields[0] = (1, z3.Store(W.fields[0][1], B_int(ln), chr_(ex, ex.asint(ex.unundef(st, v, 8), 8))))
    W.size = simp(ln + 1) if is_sym(ln) else ln + 1
def str_resize(ex, st, p, n, ch=0):
    o = str_obj(ex, st, p); R = st.mem[o.buf]; ln = R.size
    if isinstance(n, PInt): raise Unsupported("resize with pointer")
    thr = length_guard(ex, st, n)
    if thr is None: return [throw(ex, st, "_ZTISt12length_error")], False
    W = st.wr(o.buf)
    if (isinstance(n, int) and isinstance(ln, int) and n <= ln) or ex.q(st, B_int(n) <= B_int(ln)):
        W.size = n
        return thr, True
    A = W.fields[0][1]; cv = chr_(ex, ch)
    W.fields[0] = (1, arr_def(ex, st, lambda j: z3.If(z3.And(j >= ln, j < n), cv, z3.Select(A, j)), "rsz"))
    W.size = n; W.gen = ('g', fresh_id())
    return thr, True
def str_eq_term(ex, st, a, b):
    """equality of two (len, arr, off) views"""
    (la, A, oa), (lb, Bq, ob) = a, b
    j = z3.Int(f"j!{fresh_id()}")
    return z3.And(B_int(la) == B_int(lb), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < B_int(la)), z3.Select(A, j + oa) == z3.Select(Bq, j + ob))))

def string_method(ex, st, a, c):
    d = c.dname[len(STR):]
    name, sig = re.match(r"(operator\(\)|operator[^\w\s(]+|operator [\w: ]+(?:<.*>)?|~?\w+(?:<.*?>)?)\((.*)\)", d, re.S).groups() if not d.startswith("basic_string<") else ("basic_string", d[d.rindex(">(") + 2 if ">(" in d else 0:])
    if d.startswith("basic_string<"):
        # template constructor; signature after the balanced <...>
        depth = 0
        for k, ch in enumerate(d):
            if ch == '<': depth += 1
            elif ch == '>':
                depth -= 1
                if depth == 0: break
        sig = d[k + 2:-1]
    base = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
    R0 = lambda v=None: [(st, Ret(v))]
    if base == "basic_string":
        p = a[0]
        if sig == "" or sig.startswith("std::allocator"): str_make(ex, st, p, 0); return R0()
        if sig.startswith("std::__cxx11::basic_string") and sig.endswith("&&"):
            o = str_obj(ex, st, a[1]); ex.store_raw(st, p, 32, o)
            nb = new_buf(ex, st, 0); ex.store_raw(st, a[1], 32, Obj('str', buf=nb)); bump(ex, st, o.buf); return R0()
        if re.match(r"std::__cxx11::basic_string<[^()]*> const&, unsigned long", sig):
            return substr_into(ex, st, p, a[1], a[2], a[3] if sig.count("unsigned long") > 1 else I64 - 1)
        if sig.startswith("std::__cxx11::basic_string"):
            R = str_reg(ex, st, a[1]); str_make(ex, st, p, R.size, R.fields[0][1]); return R0()
        if sig.startswith("char const*, unsigned long"):
            n = a[2]
            if ex.debug > 2: print('ctor', n)
            v = src_bytes(ex, st, a[1], n)
            str_make(ex, st, p, 0)
            if v is not None: str_append(ex, st, p, v, n)
            return R0()
        if sig.startswith("char const*, std::allocator"):
            b = ex.cstring(st, a[1])
            if b is None:
                cs = c_string(ex, st, a[1])
                if cs is not None: str_make(ex, st, p, cs[1], cs[0]); return R0()
                raise Unsupported("string from unknown C string")
            str_make(ex, st, p, 0)
            str_append(ex, st, p, src_bytes(ex, st, a[1], len(b)) or (None, 0), len(b)); return R0()
        if sig.startswith("unsigned long, char"):
            str_make(ex, st, p, 0); thr, ok = str_resize(ex, st, p, a[1], a[2])
            return thr + (R0() if ok else [])
        if SV.split('<')[0] in c.dname and (sig.startswith("std::basic_string_view") ):
            v = ex.load_raw(st, a[1], 8), ex.load_raw(st, ex.padd(st, a[1], 8, 1), 8)
            str_make(ex, st, p, 0); vw = src_bytes(ex, st, v[1], v[0])
            if vw: str_append(ex, st, p, vw, v[0])
            return R0()
        if "char*, char*" in sig or "char const*, char const*" in sig or "__normal_iterator" in sig:
            x, y = a[1], a[2]
            n = ex.pdiff(st, y, x)
            v = src_bytes(ex, st, x, n); str_make(ex, st, p, 0)
            if v: str_append(ex, st, p, v, n)
            return R0()
        raise Unsupported("string constructor " + sig)
    if base == "~basic_string":
        o = str_obj(ex, st, a[0]); st.wr(o.buf).alive = False
        if not ex.keep_dead:
            pass
        return R0()
    if base in ("size", "length"): return R0(str_reg(ex, st, a[0]).size)
    if base == "max_size": return R0((1 << 63) - 1)
    if base == "capacity": 
        n = str_reg(ex, st, a[0]).size; v = ex.fresh(st, 64, "cap"); st.assume(v >= n); return R0(v)
    if base in ("data", "c_str", "begin", "cbegin", "_M_data"):
        o = str_obj(ex, st, a[0]); return R0(Ptr(o.buf, 0, 0, st.mem[o.buf].gen))
    if base in ("end", "cend"):
        o = str_obj(ex, st, a[0]); R = st.mem[o.buf]; return R0(Ptr(o.buf, R.size, 0, R.gen))
    if base in ("rbegin", "rend", "crbegin", "crend") and len(a) == 2:
        o = str_obj(ex, st, a[1]); R = st.mem[o.buf]
        ex.store_raw(st, a[0], 8, Ptr(o.buf, R.size if 'begin' in base else 0, 0, R.gen)); return R0()
    if base == "empty":
        n = str_reg(ex, st, a[0]).size; return R0(simp(B_int(n) == 0))
    if base in ("operator[]", "front", "back", "at"):
        o = str_obj(ex, st, a[0]); R = st.mem[o.buf]
        i = 0 if base == "front" else (simp(R.size - 1) if is_sym(R.size) else R.size - 1) if base == "back" else a[1]
        out = []
        if base == "at":
            g = simp(B_int(i) >= R.size)
            if ex.feas(st, g):
                st2 = st.clone(); st2.assume(B(g)); out.append(throw(ex, st2, "_ZTISt12out_of_range"))
            if g is True: return out
            st.assume(B(Not(g)))
        return out + R0(Ptr(o.buf, i, 0, R.gen))
    if base == "push_back" or (base == "operator+=" and sig == "char"):
        push_char(ex, st, a[0], a[1]); return R0(a[0])
    if base == "pop_back":
        o = str_obj(ex, st, a[0]); R = st.mem[o.buf]; ex.oblige(st, simp(B_int(R.size) > 0), "pop_back-nonempty")
        W = st.wr(o.buf); W.size = simp(B_int(R.size) - 1); return R0()
    if base in ("append", "operator+=", "assign", "operator="):
        if base in ("assign", "operator="):
            if sig.endswith("&&"):
                if a[0].r == a[1].r and a[0].i == a[1].i: return R0(a[0])
                o = str_obj(ex, st, a[1]); ex.store_raw(st, a[0], 32, o)
                nb = new_buf(ex, st, 0); ex.store_raw(st, a[1], 32, Obj('str', buf=nb)); bump(ex, st, o.buf); return R0(a[0])
        if sig.startswith("std::__cxx11::basic_string") and "unsigned long" not in sig:
            R = str_reg(ex, st, a[1]); view, n = (R.fields[0][1], 0), R.size
        elif sig.startswith("char const*, unsigned long"): n = a[2]; view = src_bytes(ex, st, a[1], n)
        elif sig == "char const*":
            b = ex.cstring(st, a[1])
            cs = c_string(ex, st, a[1]) if b is None else None
            if b is None and cs is None: raise Unsupported("append of unknown C string")
            n = len(b) if b is not None else cs[1]; view = src_bytes(ex, st, a[1], n)
        elif sig.startswith("unsigned long, char"):
            n = a[1]; cv = chr_(ex, a[2]); view = (z3.K(z3.IntSort(), cv), 0)
        elif "basic_string_view" in sig and "unsigned long" not in sig:
            v = ex.load_raw(st, a[1], 8), ex.load_raw(st, ex.padd(st, a[1], 8, 1), 8); n = v[0]; view = src_bytes(ex, st, v[1], n)
        elif "__normal_iterator" in sig or "char const*, char const*" in sig or "char*, char*" in sig:
            n = ex.pdiff(st, a[2], a[1]); view = src_bytes(ex, st, a[1], n)
        else: raise Unsupported("string append " + sig)
        if base in ("assign", "operator="):
            o = str_obj(ex, st, a[0])
            W = bump(ex, st, o.buf); W.size = 0
            nb = new_buf(ex, st, 0); ex.store_raw(st, a[0], 32, Obj('str', buf=nb))
        if view is not None: str_append(ex, st, a[0], view, n)
        return R0(a[0])
    if base == "clear":
        o = str_obj(ex, st, a[0]); st.wr(o.buf).size = 0; return R0()
    if base == "resize":
        thr, ok = str_resize(ex, st, a[0], a[1], a[2] if len(a) > 2 else 0)
        return thr + (R0() if ok else [])
    if base in ("reserve", "shrink_to_fit"):
        o = str_obj(ex, st, a[0]); thr = length_guard(ex, st, a[1]) if len(a) > 1 else []
        if thr is None: return [throw(ex, st, "_ZTISt12length_error")]
        bump(ex, st, o.buf); return thr + R0()
    if base == "swap":
        x, y = str_obj(ex, st, a[0]), str_obj(ex, st, a[1]); ex.store_raw(st, a[0], 32, y); ex.store_raw(st, a[1], 32, x); return R0()
    if base == "erase":
        o = str_obj(ex, st, a[0]); R = st.mem[o.buf]
        if sig.startswith("unsigned long"): pos, n = a[1], a[2]
        elif sig.count("__normal_iterator") == 1: pos, n = a[1].i, 1
        else: pos, n = a[1].i, simp(B_int(a[2].i) - a[1].i)
        ex.oblige(st, simp(And(B_int(pos) >= 0, B_int(pos) <= R.size)), "erase-position")
        if not ex.q(st, B_int(pos) + n <= R.size): n = simp(z3.If(B_int(n) > R.size - B_int(pos), R.size - B_int(pos), B_int(n)))
        A = R.fields[0][1]; W = bump(ex, st, o.buf)
        W.fields[0] = (1, arr_def(ex, st, lambda j: z3.If(j < pos, z3.Select(A, j), z3.Select(A, j + n)), "ers"))
        W.size = simp(B_int(R.size) - n)
        return R0(Ptr(o.buf, pos, 0, W.gen) if not sig.startswith("unsigned") else a[0])
    if base == "insert":
        o = str_obj(ex, st, a[0]); R = st.mem[o.buf]; A = R.fields[0][1]; ln = R.size
        if sig.startswith("unsigned long, unsigned long, char"): pos, n = a[1], a[2]; view = (z3.K(z3.IntSort(), chr_(ex, a[3])), 0)
        elif sig.startswith("__gnu_cxx::__normal_iterator<char const*") and sig.endswith(", char"): pos, n = a[1].i, 1; view = (z3.K(z3.IntSort(), chr_(ex, a[2])), 0)
        elif sig.startswith("unsigned long, char const*, unsigned long"): pos, n = a[1], a[3]; view = src_bytes(ex, st, a[2], n)
        elif sig.startswith("unsigned long, std::__cxx11::basic_string") and sig.count("unsigned long") == 1:
            R2 = str_reg(ex, st, a[2]); pos, n, view = a[1], R2.size, (R2.fields[0][1], 0)
        else: raise Unsupported("string insert " + sig)
        ex.oblige(st, simp(And(B_int(pos) >= 0, B_int(pos) <= ln)), "insert-position")
        S, so = view
        W = bump(ex, st, o.buf)
        W.fields[0] = (1, arr_def(ex, st, lambda j: z3.If(j < pos, z3.Select(A, j), z3.If(j < B_int(pos) + n, z3.Select(S, j - pos + so), z3.Select(A, j - n))), "ins"))
        W.size = simp(B_int(ln) + n)
        return R0(Ptr(o.buf, pos, 0, W.gen) if sig.startswith("__gnu") else a[0])
    if base == "substr":
        return substr_into(ex, st, a[0], a[1], a[2], a[3])
    if base == "operator basic_string_view" or d.startswith("operator std::basic_string_view"):
        o = str_obj(ex, st, a[0]); R = st.mem[o.buf]
        return R0(Agg([R.size, Ptr(o.buf, 0, 0, R.gen)]))
    if base == "get_allocator": return R0()
    if base in ("compare", "find", "rfind", "find_first_of", "find_last_of"):
        return R0(ex.fresh(st, 32 if base == "compare" else 64, base))
    raise Unsupported("std::string::" + d)

def substr_into(ex, st, dst, src, pos, n):
    R = str_reg(ex, st, src); A = R.fields[0][1]
    out = []
    g = simp(B_int(pos) > R.size)
    if g is not False and ex.feas(st, g):
        st2 = st.clone(); st2.assume(B(g)); out.append(throw(ex, st2, "_ZTISt12out_of_range"))
    if g is True: return out
    st.assume(B(Not(g)))
    rest = simp(B_int(R.size) - pos)
    if ex.q(st, B_int(n) <= rest): ln = n
    elif ex.q(st, B_int(n) >= rest): ln = rest
    else: ln = simp(z3.If(B_int(n) < rest, B_int(n), rest))
    NA = A if (isinstance(pos, int) and pos == 0) else arr_def(ex, st, lambda j: z3.Select(A, j + pos), "sub")
    str_make(ex, st, dst, ln, NA)
    return out + [(st, Ret(None))]

def str_plus(ex, st, a, c):
    """operator+(string, string) family: sret result"""
    sig = c.dname[c.dname.index("operator+"):]
    dst = a[0]
    def view(x, txt):
        if txt.startswith("std::__cxx11::basic_string"):
            R = str_reg(ex, st, x); return (R.fields[0][1], 0), R.size
        if txt == "char const*":
            b = ex.cstring(st, x)
            cs = c_string(ex, st, x) if b is None else None
            if b is None and cs is None: raise Unsupported("concatenation with unknown C string")
            n = len(b) if b is not None else cs[1]; return src_bytes(ex, st, x, n), n
        if txt == "char": return (z3.K(z3.IntSort(), chr_(ex, x)), 0), 1
        raise Unsupported("operator+ " + txt)
    ps = split_sig(sig[sig.rindex(">(") + 1 if ">(" in sig else sig.index("("):])
    v1 = view(a[1], ps[0]); v2 = view(a[2], ps[1])
    str_make(ex, st, dst, 0)
    for v, n in (v1, v2):
        if v is not None: str_append(ex, st, dst, v, n)
    return [(st, Ret(None))]
def split_sig(s):
    s = s.strip()
    assert s[0] == '('
    out = []; depth = 0; cur = ""
    for ch in s[1:]:
        if ch == ')' and depth == 0: break
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    out.append(cur.strip())
    return out

def install_string(ex):
    ex.keep_dead = True
    ex.contract("^" + re.escape(STR), string_method, "std::string (assumed contract)")
    ex.contract(r"^std::__cxx11::basic_string<char, .*> std::operator\+<char", str_plus, "std::string operator+ (assumed contract)")
    def to_string(ex, st, a, c):
        n = ex.fresh(st, 64, "tslen"); st.assume(z3.And(n >= 1, n <= 21))
        str_make(ex, st, a[0], n); return [(st, Ret(None))]
    ex.contract(r"^std::__cxx11::to_string\(", to_string, "std::to_string (any text)")

# ------------------------------------------------------------------ std::vector
def vec_layout(ex, dname):
    dname = scope_of(dname)
    for rx, stride, fields in ex.vec_layouts:
        if re.match(rx, dname): return stride, fields
    return None
def vec_obj(ex, st, p):
    v = ex.load_raw(st, p, 24)
    if not (isinstance(v, Obj) and v.kind == 'vec'): raise Unsupported("not a vector object")
    return v
def vec_make(ex, st, p, stride, fields, n=0, arrs=None):
    fl = {b: (m, (arrs or {}).get(b, None)) for b, m in fields.items()}
    fl = {b: (m, A if A is not None else ex.fresh_array(8 * m, "vec")) for b, (m, A) in fl.items()}
    q = ex.new_arr(st, stride, n, fl, "vec")
    ex.store_raw(st, p, 24, Obj('vec', buf=q.r)); return q.r
def vec_elem_write(ex, st, r, i, src):
    R = st.mem[r]
    for b, (m, A) in R.fields.items():
        v = ex.load_raw(st, ex.padd(st, src, b, 1), m)
        if isinstance(v, Undef): v = ex.fresh(st, 8 * m, "undef")
        W = st.wr(r); W.fields[b] = (m, z3.Store(W.fields[b][1], B_int(i), chr_n(ex, v, m, st)))
def chr_n(ex, v, m, st=None):
    if isinstance(v, Ptr) and ex.int_ptrs and st is not None: v = ex.addr_num(st, v)
    if isinstance(v, FnPtr) and ex.fn_values: v = ex.fn_num(v.name)
    if isinstance(v, Obj) and v.kind == 'fnval': v = v.v
    v = ex.asint(v, 8 * m)
    if isinstance(v, (Ptr, Obj, FnPtr)): raise Unsupported("pointer in a symbolic vector")
    return B_int(v) if ex.mode == 'int' else ex.bvc(v, 8 * m)

def vec_from(ex, st, p, stride, fields, src, n):
    """a vector of the n elements at src"""
    R = st.mem.get(src.r); o = src.i
    if R is not None and R.kind == 'c' and isinstance(n, int) and n <= 16 and isinstance(o, int):     # a list written out in place
        r = vec_make(ex, st, p, stride, fields, n, {b: z3.K(z3.IntSort(), chr_n(ex, 0, m)) for b, m in fields.items()})
        for k in range(n): vec_elem_write(ex, st, r, k, Ptr(src.r, o + k * stride, 0, src.g))
        return
    if R is None or R.kind != 'a' or R.stride != stride or set(R.fields) != set(fields) or src.b != 0: raise Unsupported("vector from a foreign range")
    ex.oblige(st, simp(And(B_int(o) >= 0, B_int(n) >= 0, B_int(o) + n <= R.size)), "range-inside-source")
    vec_make(ex, st, p, stride, fields, n, {b: A if simp(B_int(o)) == 0 else arr_def(ex, st, lambda j, A=A: z3.Select(A, j + o), "rng", 8 * m) for b, (m, A) in R.fields.items()})
def vector_method(ex, st, a, c):
    lay = vec_layout(ex, c.dname)
    if lay is None: return NOTHANDLED
    stride, fields = lay
    d = method_of(c.dname)
    name, sig = d
    base = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
    R0 = lambda v=None: [(st, Ret(v))]
    if base == "vector":
        if sig in ("", ) or sig.startswith("std::allocator"): vec_make(ex, st, a[0], stride, fields); return R0()
        if sig.startswith("unsigned long, std::allocator"):
            r = vec_make(ex, st, a[0], stride, fields, a[1], {b: z3.K(z3.IntSort(), chr_n(ex, 0, m)) for b, m in fields.items()}); return R0()
        if sig.endswith("&&") or re.search(r"&&, std::allocator<.*const&$", sig):
            o = vec_obj(ex, st, a[1]); ex.store_raw(st, a[0], 24, o); vec_make(ex, st, a[1], stride, fields); return R0()
        if sig.startswith("std::initializer_list<") or (len(a) >= 3 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].r == a[2].r and re.match(r"(.*\*), \1(, std::allocator<.*const&)?$", sig)):
            vec_from(ex, st, a[0], stride, fields, a[1], a[2] if sig.startswith("std::init") else simp(B_int(a[2].i) - a[1].i)); return R0()
        if sig.startswith("std::vector") and sig.endswith("const&"):
            R = st.mem[vec_obj(ex, st, a[1]).buf]
            vec_make(ex, st, a[0], stride, fields, R.size, {b: A for b, (m, A) in R.fields.items()}); return R0()
        raise Unsupported("vector constructor " + sig)
    if base == "~vector":
        o = vec_obj(ex, st, a[0]); st.wr(o.buf).alive = False; return R0()
    if base == "operator=":
        if sig.startswith("std::initializer_list<"):
            old = vec_obj(ex, st, a[0]); vec_from(ex, st, a[0], stride, fields, a[1], a[2]); st.wr(old.buf).alive = False; return R0(a[0])
        o1 = vec_obj(ex, st, a[1])
        if a[0].r == a[1].r and a[0].i == a[1].i: return R0(a[0])
        if sig.endswith("&&"):
            old = vec_obj(ex, st, a[0]); st.wr(old.buf).alive = False
            ex.store_raw(st, a[0], 24, o1); vec_make(ex, st, a[1], stride, fields); return R0(a[0])
        R = st.mem[o1.buf]
        vec_make(ex, st, a[0], stride, fields, R.size, {b: A for b, (m, A) in R.fields.items()}); return R0(a[0])
    if base == "swap":
        x, y = vec_obj(ex, st, a[0]), vec_obj(ex, st, a[1]); ex.store_raw(st, a[0], 24, y); ex.store_raw(st, a[1], 24, x); return R0()
    o = vec_obj(ex, st, a[0] if base not in ("rbegin", "rend", "crbegin", "crend") else a[1]); R = st.mem[o.buf]; n = R.size
    if base == "size": return R0(n)
    if base == "empty": return R0(simp(B_int(n) == 0))
    if base == "max_size": return R0((1 << 62))
    if base == "capacity":
        v = ex.fresh(st, 64, "cap"); st.assume(v >= n); return R0(v)
    if base in ("begin", "cbegin", "data"): return R0(Ptr(o.buf, 0, 0, R.gen))
    if base in ("end", "cend"): return R0(Ptr(o.buf, n, 0, R.gen))
    if base in ("rbegin", "crbegin"): ex.store_raw(st, a[0], 8, Ptr(o.buf, n, 0, R.gen)); return R0()
    if base in ("rend", "crend"): ex.store_raw(st, a[0], 8, Ptr(o.buf, 0, 0, R.gen)); return R0()
    if base in ("operator[]", "front", "at"):
        i = 0 if base == "front" else a[1]
        return R0(Ptr(o.buf, i, 0, R.gen))
    if base == "back":
        return R0(Ptr(o.buf, simp(n - 1) if is_sym(n) else n - 1, 0, R.gen))
    if base in ("push_back", "emplace_back"):
        W = bump(ex, st, o.buf)
        if base == "emplace_back" and len(a) != 2: raise Unsupported("emplace_back arity")
        src = a[1]
        # the argument may alias the vector: read before writing
        if src.r == o.buf: src = Ptr(src.r, src.i, src.b, W.gen)
        W.size = simp(n + 1) if is_sym(n) else n + 1
        vec_elem_write(ex, st, o.buf, n, src)
        return R0(Ptr(o.buf, n, 0, st.mem[o.buf].gen) if base == "emplace_back" else None)
    if base == "pop_back":
        ex.oblige(st, simp(B_int(n) > 0), "pop_back-nonempty"); st.wr(o.buf).size = simp(n - 1) if is_sym(n) else n - 1; return R0()
    if base == "clear": st.wr(o.buf).size = 0; return R0()
    if base in ("reserve", "shrink_to_fit"):
        out = []
        if base == "reserve":
            out = length_guard(ex, st, a[1], stride)
            if out is None: return [throw(ex, st, "_ZTISt12length_error")]
        bump(ex, st, o.buf); return out + R0()
    if base == "resize" and sig == "unsigned long":
        k = a[1]; out = length_guard(ex, st, k, stride)
        if out is None: return [throw(ex, st, "_ZTISt12length_error")]
        if ex.q(st, B_int(k) <= B_int(n)): st.wr(o.buf).size = k; return out + R0()
        W = bump(ex, st, o.buf)
        for b, (m, A) in list(W.fields.items()):
            W.fields[b] = (m, arr_def(ex, st, lambda j, A=A: z3.If(z3.And(j >= n, j < k), z3.IntVal(0), z3.Select(A, j)), "rsz", 8 * m))
        W.size = k; return out + R0()
    if base == "erase":
        pos = a[1].i
        if len(a) > 2: k = simp(B_int(a[2].i) - pos)
        else: k = 1
        for q in a[1:]:
            if q.r != o.buf or q.g != R.gen: ex.oblige(st, False, "iterator-of-other-or-changed-container")
        ex.oblige(st, simp(And(B_int(pos) >= 0, B_int(k) >= 0, B_int(pos) + k <= n)), "erase-range")
        W = bump(ex, st, o.buf)
        for b, (m, A) in list(W.fields.items()):
            W.fields[b] = (m, arr_def(ex, st, lambda j, A=A: z3.If(j < pos, z3.Select(A, j), z3.Select(A, j + k)), "ers", 8 * m))
        W.size = simp(B_int(n) - k)
        return R0(Ptr(o.buf, pos, 0, W.gen))
    if base in ("insert", "emplace"):
        pos = a[1].i
        if a[1].r != o.buf or a[1].g != R.gen: ex.oblige(st, False, "iterator-of-other-or-changed-container")
        ex.oblige(st, simp(And(B_int(pos) >= 0, B_int(pos) <= n)), "insert-position")
        if base == "insert" and len(a) != 3: raise Unsupported("vector insert " + sig)
        pairwise = base == "emplace" and len(a) == 4 and "std::pair<" in scope_of(c.dname) and list(R.fields) == sorted(R.fields) and len(R.fields) == 2
        if base == "emplace" and len(a) != 3 and not pairwise: raise Unsupported("vector emplace " + sig)
        src = a[2]
        vals = {}
        for i, (b, (m, A)) in enumerate(R.fields.items()):
            v = ex.load_raw(st, a[2 + i], m) if pairwise else ex.load_raw(st, ex.padd(st, src, b, 1), m)
            if isinstance(v, Undef): v = ex.fresh(st, 8 * m, "undef")
            vals[b] = chr_n(ex, v, m)
        W = bump(ex, st, o.buf)
        for b, (m, A) in list(W.fields.items()):
            W.fields[b] = (m, arr_def(ex, st, lambda j, A=A, b=b: z3.If(j < pos, z3.Select(A, j), z3.If(j == pos, vals[b], z3.Select(A, j - 1))), "ins", 8 * m))
        W.size = simp(B_int(n) + 1) if is_sym(n) or True else n + 1
        return R0(Ptr(o.buf, pos, 0, W.gen))
    raise Unsupported(f"std::vector::{name}({sig[:60]})")

def method_of(dname):
    """'cls<...>::name<..>(sig) const' -> (name, sig)"""
    depth = 0; last = 0; i = 0
    n = len(dname)
    # find the '(' that opens the parameter list at template depth 0
    start = None
    k = 0
    while k < n:
        ch = dname[k]
        if dname.startswith("operator", k) and depth == 0:
            m = re.match(r"operator(\(\)|<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|\[\]|[^\w\s(])", dname[k:])
            if m: k += m.end(); continue
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth == 0: 
            start = k; break
        k += 1
    head = dname[:start]
    # sig
    depth = 0
    for e in range(start, n):
        if dname[e] == '(': depth += 1
        elif dname[e] == ')':
            depth -= 1
            if depth == 0: break
    sig = dname[start + 1:e]
    depth = 0; pos = 0
    k = 0
    while k < len(head):
        if depth == 0 and head.startswith("operator", k): break
        if head[k] == '<': depth += 1
        elif head[k] == '>': depth -= 1
        elif head.startswith("::", k) and depth == 0: pos = k + 2
        k += 1
    return head[pos:], sig

def scope_of(dname):
    """the class a function belongs to (return type stripped)"""
    depth = 0; sp = 0; last = 0; k = 0
    while k < len(dname):
        ch = dname[k]
        if depth == 0 and dname.startswith("operator", k): break
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth == 0: break
        elif ch == ' ' and depth == 0: sp = k + 1; last = k + 1
        elif depth == 0 and dname.startswith("::", k): last = k
        k += 1
    return dname[sp:last]
def install_vector(ex):
    ex.contract(r"std::vector<.*>::", lambda ex, st, a, c: vector_method(ex, st, a, c) if scope_of(c.dname).startswith("std::vector<") else NOTHANDLED, "std::vector (assumed contract)")

def install_std(ex):
    install_runtime(ex); install_string(ex); install_vector(ex)
