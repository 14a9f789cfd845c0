"""Byte stream adapters: S13 (and the read_fully rule S05 rests on)"""
DRIVER = "streams.cpp"
import z3
from core import *
from exec import B_int
from lib import *
from ghost import *
from task import Task, find_fn, cover

def mk(ex): return State()
def buf_at(st, p): return st.mem[p.r].fields[0][1]

def d_read(fn, lim=1 << 60):
    def t(ex):
        st = State(); g = GIn(ex, st, pos=z3.Int("pos0")); st.assume(z3.And(z3.Int("pos0") >= 0, z3.Int("pos0") <= g.N)); p0 = z3.Int("pos0")
        n = z3.Int("l"); st.assume(z3.And(n >= 0, n < lim))
        b, B0 = buffer(ex, st, n)
        cover(ex, st, "any input and request")
        def cands(vw):
            out = []
            for a in vw.arrays():
                for v in vw.ints():
                    k, vk = a.key, v.key
                    def f(vw, k=k, vk=vk):
                        j = z3.Int(f"j!{fresh_id()}"); A = next(x.cur for x in vw.vars if x.key == k); e = next(x.cur for x in vw.vars if x.key == vk)
                        return FA([j], z3.Implies(z3.And(j >= 0, j < B_int(e)), z3.Select(A, j) == z3.Select(g.arr, j + p0)), z3.Select(A, j))
                    out.append((f"{k} copied below {vk}", f))
            for v in vw.ints():
                vk = v.key
                out.append((f"{vk}-init<=rest", lambda vw, vk=vk: B_int(next(x.cur for x in vw.vars if x.key == vk)) - B_int(next(x.init for x in vw.vars if x.key == vk)) <= g.N - p0))
                for u in vw.ints():
                    if u is v: continue
                    uk = u.key
                    out.append((f"{vk}-{uk}==d", lambda vw, vk=vk, uk=uk: (lambda a, b: B_int(a.cur) - B_int(b.cur) == B_int(a.init) - B_int(b.init))(next(x for x in vw.vars if x.key == vk), next(x for x in vw.vars if x.key == uk))))
            return out
        ex.loop_cands.append(cands)
        ex.bound_hints.append(lambda vw: {"l": n})
        for st2, o in ex.run(st, fn, [b, n]):
            A = buf_at(st2, b); rest = g.N - p0
            pos = B_int(st2.ghost['in.pos'])
            if fn == 'd_read_fully':
                if isinstance(o, Throw):
                    ex.oblige(st2, o.tinfo == EOF, f"throws only eof ({o.tinfo})"); ex.oblige(st2, rest < n, "post:eof only if fewer bytes are left"); cover(ex, st2, "short"); continue
                ex.oblige(st2, rest >= n, "post:normal return only if enough bytes"); ex.oblige(st2, pos == p0 + n, "post:exactly l consumed")
                forall(ex, st2, 0, n, lambda j: z3.Select(A, j) == z3.Select(g.arr, j + p0), "post:bytes in order"); cover(ex, st2, "full"); continue
            if isinstance(o, Throw): ex.oblige(st2, False, f"read never throws at the end of input ({o.tinfo})"); continue
            r = B_int(o.v); m = z3.If(n <= rest, n, rest)
            ex.oblige(st2, r == m, "post:count == min(l, rest)"); ex.oblige(st2, pos == p0 + m, "post:consumed == delivered")
            forall(ex, st2, 0, m, lambda j: z3.Select(A, j) == z3.Select(g.arr, j + p0), "post:bytes in order")
            forall(ex, st2, m, n, lambda j: z3.Select(A, j) == z3.Select(B0, j), "frame:rest of the buffer untouched")
            cover(ex, st2, "return")
    return t
def getc_over_read(ex):
    st = State(); g = GIn(ex, st, pos=z3.Int("pos0")); p0 = z3.Int("pos0"); st.assume(z3.And(p0 >= 0, p0 <= g.N))
    for st2, o in ex.run(st, 'd_getc_over_read', []):
        if isinstance(o, Throw): ex.oblige(st2, o.tinfo == EOF, "throws only eof"); ex.oblige(st2, p0 == g.N, "post:eof only at the end"); cover(ex, st2, "eof"); continue
        ex.oblige(st2, B_int(o.v) == z3.Select(g.arr, p0), "post:next byte"); ex.oblige(st2, B_int(st2.ghost['in.pos']) == p0 + 1, "post:one consumed"); cover(ex, st2, "byte")
def d_write(fn):
    def t(ex):
        st = State(); g = GOut(ex, st); n = z3.Int("l"); st.assume(z3.And(n >= 0, n < (1 << 60)))
        if fn == 'd_write_over_putc': b, S = buffer(ex, st, n); args = [b, n]
        else: c = z3.Int("c"); st.assume(z3.And(c >= 0, c <= 255)); args = [c]; n = 1
        if fn == 'd_write_over_putc':
            def cands(vw):
                out = []
                for a in vw.arrays():
                    k = a.key
                    def f(vw, k=k):
                        j = z3.Int(f"j!{fresh_id()}"); A = next(x.cur for x in vw.vars if x.key == k)
                        return FA([j], z3.Implies(z3.And(j >= g.n0, j < g.n0 + vw.n), z3.Select(A, j) == z3.Select(S, j - g.n0)), z3.Select(A, j))
                    out.append((f"{k} appended", f))
                    def f0(vw, k=k):
                        j = z3.Int(f"j!{fresh_id()}"); A = next(x.cur for x in vw.vars if x.key == k)
                        return FA([j], z3.Implies(j < g.n0, z3.Select(A, j) == z3.Select(g.arr0, j)), z3.Select(A, j))
                    out.append((f"{k} kept", f0))
                out.append(("n<=l", lambda vw: vw.n <= n))
                return out
            ex.loop_cands.append(cands); ex.bound_hints.append(lambda vw: {"l": n})
        cover(ex, st, "any")
        for st2, o in ex.run(st, fn, args):
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            A = st2.ghost['out']
            ex.oblige(st2, B_int(st2.ghost['out.len']) == g.n0 + n, "post:exactly l bytes appended"); g.post_prefix(ex, st2)
            if isinstance(n, int): ex.oblige(st2, z3.Select(A, g.n0) == args[0], "post:the byte")
            else: forall(ex, st2, 0, n, lambda j: z3.Select(A, j + g.n0) == z3.Select(S, j), "post:bytes in order")
            cover(ex, st2, "return")
    return t
def str_in(which):
    def t(ex):
        st = State(); s, N, A = string(ex, st); p = z3.Int("p"); st.assume(z3.And(p >= 0, p < I64)); after = ex.new_cells(st, 8, "after")
        ex.store_raw(st, after, 8, 0)
        if which == 'ctor': args = ['d_str_ctor', [s, p]]
        elif which == 'read':
            l = z3.Int("l"); st.assume(z3.And(l >= 0, l < I64)); bl = z3.Int("bl"); st.assume(z3.And(bl >= 0, bl < (1 << 60), z3.Or(bl >= l, bl >= N - p)))
            b, B0 = buffer(ex, st, bl); args = ['d_str_read', [s, p, b, l, after]]
        elif which == 'getc': args = ['d_str_getc', [s, p, after]]
        else: q = z3.Int("q"); st.assume(z3.And(q >= 0, q < I64)); args = ['d_str_setpos', [s, p, q, after]]
        cover(ex, st, "any string and position")
        for st2, o in ex.run(st, args[0], args[1]):
            aft = ex.cells_read(st2, st2.mem[after.r], 0, 8)
            R = str_reg(ex, st2, s); ex.oblige(st2, z3.And(B_int(R.size) == N, R.fields[0][1] == A), "frame:the string is untouched")
            if isinstance(o, Throw):
                if o.tinfo == RANGE:
                    if which == 'setpos': ex.oblige(st2, z3.Or(p > N, z3.And(q > N, B_int(aft) == p)), "post:refused only past the end, position kept")
                    else: ex.oblige(st2, p > N, "post:refused only past the end")
                    cover(ex, st2, "refused")
                elif which == 'getc' and o.tinfo == EOF: ex.oblige(st2, z3.And(p == N, B_int(aft) == p), "post:eof only at the end, position kept"); cover(ex, st2, "eof")
                else: ex.oblige(st2, False, f"unexpected exception {o.tinfo}")
                continue
            ex.oblige(st2, p <= N, "post:position past the end is refused")
            if which == 'ctor': ex.oblige(st2, B_int(o.v) == p, "post:position")
            if which == 'setpos': ex.oblige(st2, z3.And(q <= N, B_int(o.v) == q, B_int(aft) == q), "post:position")
            if which == 'getc': ex.oblige(st2, z3.And(p < N, B_int(o.v) == z3.Select(A, p), B_int(aft) == p + 1), "post:next byte")
            if which == 'read':
                m = z3.If(l <= N - p, l, N - p); Bf = buf_at(st2, b)
                ex.oblige(st2, z3.And(B_int(o.v) == m, B_int(aft) == p + m), "post:count == min(l, rest) == advance")
                forall(ex, st2, 0, m, lambda j: z3.Select(Bf, j) == z3.Select(A, j + p), "post:bytes in order")
                forall(ex, st2, m, bl, lambda j: z3.Select(Bf, j) == z3.Select(B0, j), "frame:rest of the buffer untouched")
            cover(ex, st2, "return")
    return t
def str_out(which):
    def t(ex):
        st = State(); s, N, A = string(ex, st)
        if which == 'write': n = z3.Int("l"); st.assume(z3.And(n >= 0, n < (1 << 60))); b, S = buffer(ex, st, n); r = ex.run(st, 'd_str_write', [s, b, n])
        else: c = z3.Int("c"); st.assume(z3.And(c >= 0, c <= 255)); n = 1; S = z3.K(I, c); r = ex.run(st, 'd_str_putc', [s, c])
        for st2, o in r:
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            R = str_reg(ex, st2, s); T = R.fields[0][1]
            ex.oblige(st2, B_int(R.size) == N + n, "post:exactly l bytes appended")
            forall(ex, st2, 0, N, lambda j: z3.Select(T, j) == z3.Select(A, j), "post:earlier bytes kept")
            forall(ex, st2, 0, n, lambda j: z3.Select(T, j + N) == z3.Select(S, j), "post:bytes in order"); cover(ex, st2, "return")
    return t

# ---- iostreams: std::basic_istream / basic_ostream as specified by the standard
class IStream:
    """ghost state: bits (eof, fail, bad), the source's remaining bytes, whether the source breaks at its end"""
    def __init__(s, ex, st):
        s.N = z3.Int("src.n"); s.A = z3.Array("SRC", I, I); s.breaks = z3.Bool("src.breaks"); byte_axiom(ex, st, s.A)
        st.assume(z3.And(s.N >= 0, s.N < (1 << 60)))
        st.ghost['is.pos'] = z3.Int("is.pos"); st.assume(z3.And(z3.Int("is.pos") >= 0, z3.Int("is.pos") <= s.N))
        for b in ('eof', 'fail', 'bad'): st.ghost['is.' + b] = z3.Bool(f"is.{b}0")
        st.ghost['is.gcount'] = z3.Int("is.gc0")
        G = lambda st, k: st.ghost['is.' + k]
        def ends(st):
            """the source ran out: end of file, or it broke"""
            st.ghost['is.eof'] = Or(G(st, 'eof'), Not(s.breaks)); st.ghost['is.bad'] = Or(G(st, 'bad'), s.breaks); st.ghost['is.fail'] = True
        def read(ex, st, a, c):
            n = a[2]; p = G(st, 'pos'); good = Not(Or(G(st, 'eof'), G(st, 'fail'), G(st, 'bad'))); out = []
            ex.chk_range(st, a[1], n, True)
            for case in range(3):
                st2 = st.clone()
                cnd = [Not(good), And(good, B_int(n) <= s.N - p), And(good, B_int(n) > s.N - p)][case]
                if not ex.feas(st2, cnd): continue
                st2.assume(B(cnd))
                if case == 0: st2.ghost['is.fail'] = True; st2.ghost['is.gcount'] = 0
                else:
                    k = n if case == 1 else simp(s.N - p)
                    W = st2.wr(a[1].r); m, A = W.fields[0]; d = a[1].i
                    W.fields[0] = (1, arr_def(ex, st2, lambda j: z3.If(z3.And(j >= d, j < B_int(d) + k), z3.Select(s.A, j - d + p), z3.Select(A, j)), "rd"))
                    st2.ghost['is.pos'] = simp(B_int(p) + k); st2.ghost['is.gcount'] = k
                    if case == 2: ends(st2)
                out.append((st2, Ret(a[0])))
            return out
        def get(ex, st, a, c):
            p = G(st, 'pos'); good = Not(Or(G(st, 'eof'), G(st, 'fail'), G(st, 'bad'))); out = []
            for case in range(3):
                st2 = st.clone(); cnd = [Not(good), And(good, B_int(p) < s.N), And(good, B_int(p) == s.N)][case]
                if not ex.feas(st2, cnd): continue
                st2.assume(B(cnd))
                if case == 0: st2.ghost['is.fail'] = True; st2.ghost['is.gcount'] = 0
                elif case == 1:
                    ex.store_raw(st2, a[1], 1, z3.Select(s.A, p)); st2.ghost['is.pos'] = simp(B_int(p) + 1); st2.ghost['is.gcount'] = 1
                else: ends(st2); st2.ghost['is.gcount'] = 0
                out.append((st2, Ret(a[0])))
            return out
        C = ex.contract
        C(r"^std::istream::read\(|^std::basic_istream<.*>::read\(", read, "std::istream::read (standard semantics)")
        C(r"^std::istream::get\(char&\)|^std::basic_istream<.*>::get\(char&\)", get, "std::istream::get (standard semantics)")
        C(r"^std::(basic_istream<.*>|istream)::gcount\(", lambda ex, st, a, c: G(st, 'gcount'), "std::istream::gcount")
        ios(ex, lambda st, k: G(st, k))
def ios(ex, G):
    C = ex.contract; X = r"^std::(basic_ios<.*>|ios)::"
    C(X + r"bad\(", lambda ex, st, a, c: G(st, 'bad'), "std::ios state queries"); C(X + r"eof\(", lambda ex, st, a, c: G(st, 'eof'), "std::ios state queries")
    C(X + r"fail\(", lambda ex, st, a, c: Or(G(st, 'fail'), G(st, 'bad')), "std::ios state queries"); C(X + r"good\(", lambda ex, st, a, c: Not(Or(G(st, 'fail'), G(st, 'bad'), G(st, 'eof'))), "std::ios state queries")
    C(X + r"operator bool\(", lambda ex, st, a, c: Not(Or(G(st, 'fail'), G(st, 'bad'))), "std::ios state queries"); C(X + r"operator!\(", lambda ex, st, a, c: Or(G(st, 'fail'), G(st, 'bad')), "std::ios state queries")
    def rdstate(ex, st, a, c):
        b = lambda k: z3.If(B(G(st, k)), 1, 0)
        return simp(b('bad') * 1 + b('eof') * 2 + b('fail') * 4)
    C(X + r"rdstate\(", rdstate, "std::ios state queries")
def stream_obj(ex, st):
    """a stream object whose vtable has a zero virtual-base offset (so ios is at the same address)"""
    vt = ex.new_cells(st, 64, "vtable"); W = st.wr(vt.r)
    for o in (0, 8, 16, 24): ex.cells_write(st, W, o, 8, 0)
    p = ex.new_cells(st, 256, "stream"); ex.store_raw(st, p, 8, Ptr(vt.r, 24)); return p
def is_read(ex):
    st = State(); s = IStream(ex, st); n = z3.Int("l"); st.assume(z3.And(n >= 0, n < (1 << 60))); b, B0 = buffer(ex, st, n)
    p = z3.Int("is.pos"); bad0, fail0, eof0 = (z3.Bool(f"is.{k}0") for k in ('bad', 'fail', 'eof'))
    cover(ex, st, "any stream state")
    for st2, o in ex.run(st, 'd_is_read', [stream_obj(ex, st), b, n]):
        good0 = z3.Not(z3.Or(bad0, fail0, eof0)); rest = s.N - p
        broken = z3.Or(bad0, z3.And(fail0, z3.Not(eof0)), z3.And(good0, n > rest, s.breaks))
        if isinstance(o, Throw):
            ex.oblige(st2, o.tinfo == IOERR, f"throws only io_error ({o.tinfo})"); ex.oblige(st2, broken, "post:io_error only if the stream is broken"); cover(ex, st2, "broken"); continue
        ex.oblige(st2, z3.Not(broken), "post:a broken stream is reported")
        m = z3.If(z3.Not(good0), 0, z3.If(n <= rest, n, rest)); Bf = buf_at(st2, b)
        ex.oblige(st2, z3.And(B_int(o.v) == m, B_int(st2.ghost['is.pos']) == p + m), "post:count == delivered == min(l, rest)")
        forall(ex, st2, 0, m, lambda j: z3.Select(Bf, j) == z3.Select(s.A, j + p), "post:bytes in order"); cover(ex, st2, "return")
def is_getc(ex):
    st = State(); s = IStream(ex, st); p = z3.Int("is.pos"); bad0, fail0, eof0 = (z3.Bool(f"is.{k}0") for k in ('bad', 'fail', 'eof'))
    for st2, o in ex.run(st, 'd_is_getc', [stream_obj(ex, st)]):
        good0 = z3.Not(z3.Or(bad0, fail0, eof0)); broken = z3.Or(bad0, z3.And(fail0, z3.Not(eof0)), z3.And(good0, p == s.N, s.breaks))
        if isinstance(o, Throw):
            if o.tinfo == IOERR: ex.oblige(st2, broken, "post:io_error only if the stream is broken")
            elif o.tinfo == EOF: ex.oblige(st2, z3.And(z3.Not(broken), z3.Or(eof0, p == s.N)), "post:eof only at the end")
            else: ex.oblige(st2, False, f"unexpected exception {o.tinfo}")
            cover(ex, st2, "throw"); continue
        ex.oblige(st2, z3.And(good0, p < s.N, B_int(o.v) == z3.Select(s.A, p), B_int(st2.ghost['is.pos']) == p + 1), "post:next byte"); cover(ex, st2, "byte")
def os_task(which):
    def t(ex):
        st = State(); st.ghost['os.bad'] = z3.Bool("os.bad0"); st.ghost['os.fail'] = z3.Bool("os.fail0"); st.ghost['os.eof'] = z3.Bool("os.eof0")
        st.ghost['os.A'] = z3.Array("SINK", I, I); st.ghost['os.n'] = z3.Int("os.n0"); n0 = z3.Int("os.n0"); A0 = st.ghost['os.A']; st.assume(z3.And(n0 >= 0, n0 < (1 << 60)))
        breaks = z3.Bool("sink.breaks"); notgood = z3.Or(z3.Bool("os.bad0"), z3.Bool("os.fail0"), z3.Bool("os.eof0"))
        def op(kind):
            def f(ex, st, a, c):
                out = []
                for case in range(3):
                    st2 = st.clone(); cnd = [notgood, z3.And(z3.Not(notgood), breaks), z3.And(z3.Not(notgood), z3.Not(breaks))][case]
                    if kind == 'flush' and case == 0: pass
                    if not ex.feas(st2, cnd): continue
                    st2.assume(cnd); st2.ghost['os.tried'] = kind
                    if case == 0:
                        if kind != 'flush': st2.ghost['os.bad'] = True      # the sentry fails
                    elif case == 1: st2.ghost['os.bad'] = True
                    elif kind == 'write':
                        n = a[2]; R = ex.chk_range(st2, a[1], n, False); S = R.fields[0][1]; o = a[1].i
                        st2.ghost['os.A'] = arr_def(ex, st2, lambda j: z3.If(z3.And(j >= n0, j < n0 + n), z3.Select(S, j - n0 + o), z3.Select(A0, j)), "snk"); st2.ghost['os.n'] = simp(n0 + n)
                    elif kind == 'put': st2.ghost['os.A'] = z3.Store(A0, n0, B_int(a[1])); st2.ghost['os.n'] = simp(n0 + 1)
                    out.append((st2, Ret(a[0])))
                return out
            return f
        ex.contract(r"^std::(ostream|basic_ostream<.*>)::write\(", op('write'), "std::ostream::write (standard semantics)")
        ex.contract(r"^std::(ostream|basic_ostream<.*>)::put\(", op('put'), "std::ostream::put (standard semantics)")
        ex.contract(r"^std::(ostream|basic_ostream<.*>)::flush\(", op('flush'), "std::ostream::flush (standard semantics)")
        ios(ex, lambda st, k: st.ghost['os.' + k])
        so = stream_obj(ex, st); ad = ex.new_cells(st, 16, "adapter"); ex.store_raw(st, ex.padd(st, ad, 8, 1), 8, so)
        n = z3.Int("l"); st.assume(z3.And(n >= 0, n < (1 << 60))); b, S = buffer(ex, st, n); c = z3.Int("c"); st.assume(z3.And(c >= 0, c <= 255))
        bad0 = z3.Or(z3.Bool("os.bad0"), z3.Bool("os.fail0"))
        r = ex.run(st, 'd_os_' + which, [ad] + ([b, n] if which == 'write' else [c] if which == 'putc' else []))
        for st2, o in r:
            broken = z3.Or(bad0 if which == 'flush' else notgood, z3.And(z3.Not(notgood), breaks))
            if isinstance(o, Throw): ex.oblige(st2, o.tinfo == IOERR, f"throws only io_error ({o.tinfo})"); ex.oblige(st2, broken, "post:io_error only if the stream is broken"); cover(ex, st2, "broken"); continue
            ex.oblige(st2, z3.Not(broken), "post:a broken stream is reported")
            A = st2.ghost['os.A']; k = {'write': n, 'putc': 1, 'flush': 0}[which]
            ex.oblige(st2, B_int(st2.ghost['os.n']) == n0 + k, "post:exactly the bytes given")
            if which == 'flush': ex.oblige(st2, st2.ghost.get('os.tried') == 'flush', "post:the stream was flushed")
            if which == 'write': forall(ex, st2, 0, n, lambda j: z3.Select(A, n0 + j) == z3.Select(S, j), "post:bytes in order")
            if which == 'putc': ex.oblige(st2, z3.Select(A, n0) == c, "post:the byte")
            forall(ex, st2, 0, n0, lambda j: z3.Select(A, j) == z3.Select(A0, j), "post:earlier bytes kept"); cover(ex, st2, "return")
    return t
TASKS = [Task("streams.read_over_getc", d_read('d_read_over_getc')), Task("streams.getc_over_read", getc_over_read), Task("streams.read_fully", d_read('d_read_fully')),
         Task("streams.write_over_putc", d_write('d_write_over_putc')), Task("streams.putc_over_write", d_write('d_putc_over_write'))]
TASKS += [Task("streams.string_" + w, str_in(w)) for w in ('ctor', 'read', 'getc', 'setpos')]
TASKS += [Task("streams.string_out_" + w, str_out(w)) for w in ('write', 'putc')]
TASKS += [Task("streams.istream_read", is_read), Task("streams.istream_getc", is_getc)] + [Task("streams.ostream_" + w, os_task(w)) for w in ('write', 'putc', 'flush')]
