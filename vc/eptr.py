"""Contracts of std::exception_ptr and of messages: an exception_ptr refers to the exception object; a message is its bytes up to the first zero."""
import z3, re
from core import *
from exec import B_int
import lib as L
def message(ex, st, p):
    """content of the C string at p, now"""
    b = ex.cstring(st, p)
    if b is not None: return Obj('msg', text=b)
    cs = L.c_string(ex, st, p)
    return Obj('msgptr', p=p) if cs is None else Obj('strval', len=cs[1], arr=cs[0])
def install(ex):
    ex.eptr = True
    def rt_ctor(ex, st, a, c):
        ex.check_access(st, a[0], 16, True); ex.cells_write(st, st.wr(a[0].r), a[0].i + 8, 8, message(ex, st, a[1]))
    ex.contract(r"^std::runtime_error::runtime_error\(char const\*", rt_ctor, "std::runtime_error(message)")
    def what(ex, st, a, c):
        v = ex.load_raw(st, ex.padd(st, a[0], 8, 1), 8)
        if isinstance(v, Obj) and v.kind == 'msg': p = ex.new_cells(st, len(v.text) + 1, "literal"); [ex.store_raw(st, ex.padd(st, p, k, 1), 1, x) for k, x in enumerate(v.text + b"\0")]; return p
        if isinstance(v, Obj) and v.kind == 'strval':
            n = L.clen(ex, st, v.arr, v.len); return ex.new_arr(st, 1, n, {0: (1, v.arr)}, "cstr what")
        raise Unsupported("what() of an unknown message")
    ex.contract(r"^std::(runtime_error|logic_error)::what\(\) const", what, "std::runtime_error::what")
    def current(ex, st, a, c):
        t = st.ghost.get('caught', ())
        if not t: ex.store_raw(st, a[0], 8, Ptr(None, 0)); return None
        st.ghost[('tinfo', t[-1].obj.r)] = t[-1].tinfo; ex.store_raw(st, a[0], 8, t[-1].obj)
    ex.contract(r"^std::current_exception\(\)", current, "std::current_exception")
    def rethrow(ex, st, a, c):
        p = ex.load_raw(st, a[0], 8)
        if not isinstance(p, Ptr) or p.r is None: ex.oblige(st, False, "rethrow of no exception"); return []
        return [(st, Throw(st.ghost[('tinfo', p.r)], p))]
    ex.contract(r"^std::rethrow_exception\(", rethrow, "std::rethrow_exception")
    ex.contract(r"^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)\(", lambda ex, st, a, c: None, "std::exception_ptr reference counts")
def made(ex, st, tinfo, obj):
    """an exception_ptr cell value for an exception object"""
    st.ghost[('tinfo', obj.r)] = tinfo; return obj
