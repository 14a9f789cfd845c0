"""Modular symbolic executor / VC generator over LLVM IR."""
import re, sys, time
import z3
from core import *
import ir as IR

sys.setrecursionlimit(20000)
I64 = 1 << 64

class Call:
    __slots__ = ("name", "dname", "args", "tys", "ret_ty", "fn", "instr")

class Obligation:
    __slots__ = ("name", "status", "backend", "detail", "time")
    def __init__(s, name, status, backend, detail="", t=0.0):
        s.name = name; s.status = status; s.backend = backend; s.detail = detail; s.time = t
    def json(s): return dict(name=s.name, status=s.status, backend=s.backend, detail=s.detail, time_s=round(s.time, 3))

class Exec:
    def __init__(s, mod, name, mode="int", timeout_ms=20000, loop_mode="cut", max_unroll=80):
        s.m = mod; s.name = name; s.mode = mode; s.loop_mode = loop_mode; s.max_unroll = max_unroll
        s.pr = Prover(timeout_ms); s.obls = []; s.suppress = 0; s.stack = []
        s.contracts = []      # (regex, handler, label)
        s.cutset = set(); s.unroll_fns = []; s.force_cut = []
        s.gregions = {}; s.used_contracts = {}; s.inlined = {}
        s.loop_cands = []     # callables(view) -> list of (label, fn(view)->Bool)
        s.inv_store = {}
        s.steps = 0; s.max_steps = 3_000_000
        s.assumptions = set()
        s.paths = 0
        s.typeids = {}
        s.termination = []
        s.no_term = False
        s.bound_hints = []
        s.err_stack = []; s.std_installed = False; s.deadline = None; s.inv_ms = 1200; s.scout = 0; s.cutting = 0
        s.int_ptrs = False; s.fn_values = False; s.products = None; s.name_products = False; s.muls = []; s.fn_ids = {}; s.fn_call = None; s.debug = 0; s.cover_ms = 400; s.no_frames = False; s.vec_layouts = []; s.max_str = 1 << 62

    # ---------------- obligations
    def where(s): return s.stack[-1] if s.stack else "?"
    def oblige(s, st, g, label):
        """assert g on this path; assume it afterwards"""
        if g is True:
            if not s.suppress and label.startswith("post:"): s.obls.append(Obligation(f"{s.name}/{s.where()}/{label}", 'proved', 'z3 simplifier'))
            return
        if s.suppress:
            if is_sym(g): st.assume(g)
            elif g is False: raise Infeasible()
            return
        t = time.time()
        n = f"{s.name}/{s.where()}/{label}"
        r, be, model = s.pr.prove(st.pc, g)
        det = ""
        if r == 'refuted' and model is not None: det = s.fmt_model(model)
        elif r == 'unknown': det = "solver: " + s.pr.last_reason
        s.obls.append(Obligation(n, r, be, det, time.time() - t))
        if s.debug and r != 'proved': print("  [FAIL]", n[-80:], r, "goal:", str(g)[:300])
        if r == 'proved':
            if is_sym(g): st.assume(g)
        else:
            if g is False: raise Infeasible()
            st.assume(g)
    def fmt_model(s, m):
        try:
            out = []
            for d in m.decls()[:60]:
                out.append(f"{d.name()}={str(m[d])[:120]}")
            return "; ".join(sorted(out))[:3000]
        except Exception as e:
            return str(e)

    # ---------------- fresh values
    def fresh(s, st, w, name="v"):
        if w == 1: return z3.Bool(f"{name}!{fresh_id()}")
        if s.mode == "bv": return z3.BitVec(f"{name}!{fresh_id()}", w)
        v = z3.Int(f"{name}!{fresh_id()}")
        st.assume(z3.And(v >= 0, v < (1 << w)))
        return v
    def fresh_array(s, w, name="A"):
        if s.mode == "bv": return z3.Array(f"{name}!{fresh_id()}", z3.IntSort(), z3.BitVecSort(w))
        return z3.Array(f"{name}!{fresh_id()}", z3.IntSort(), z3.IntSort())

    # ---------------- regions
    def new_cells(s, st, size, name=""):
        r = cell_region(fresh_id(), size, name); st.mem[r.id] = r
        return Ptr(r.id)
    def new_arr(s, st, stride, length, fields, name=""):
        r = arr_region(fresh_id(), stride, length, fields, name); st.mem[r.id] = r
        return Ptr(r.id)

    # ---------------- arithmetic
    def q(s, st, g):
        g = simp(g)
        if g is True: return True
        if g is False: return False
        return s.pr.quick(st.pc, g)
    def wrap(s, st, t, w):
        t = simp(t)
        M = 1 << w
        if isinstance(t, int): return t % M
        if s.q(st, z3.And(t >= 0, t < M)): return t
        if s.q(st, z3.And(t < 0, t >= -M)): return simp(t + M)
        if s.q(st, z3.And(t >= M, t < 2 * M)): return simp(t - M)
        if s.q(st, z3.And(t >= -M, t < 2 * M)):
            return z3.If(t >= M, t - M, z3.If(t < 0, t + M, t))
        return s.mod_pow(st, t, M)
    def sgn(s, st, a, w):
        H = 1 << (w - 1); M = 1 << w
        if isinstance(a, int): return a - M if a >= H else a
        if s.q(st, a < H): return a
        if s.q(st, a >= H): return simp(a - M)
        return z3.If(a >= H, a - M, a)
    def bvc(s, a, w):
        if isinstance(a, int): return z3.BitVecVal(a, w)
        if z3.is_bool(a): return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return a
    def asbool(s, a):
        if isinstance(a, bool): return a
        if isinstance(a, int): return bool(a & 1)
        if z3.is_bool(a): return a
        if z3.is_bv(a): return simp(a == 1)
        return simp(a == 1)
    def asint(s, a, w=64):
        """i1 -> number"""
        if isinstance(a, bool): return int(a)
        if is_sym(a) and z3.is_bool(a):
            if s.mode == "bv": return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.If(a, z3.IntVal(1), z3.IntVal(0))
        return a
    def concrete_int(s, x): return isinstance(x, int)

    def lin_split(s, st, t, c):
        """(q, r) with t == q * c + r and 0 <= r < c, splitting the terms of a sum by divisibility of their coefficients; or None"""
        if not is_sym(t) or c < 2: return None
        t = z3.simplify(t, som=True)
        if not z3.is_add(t): return None
        hi, lo = [], []
        for e in t.children():
            if z3.is_int_value(e):
                v = e.as_long(); hi.append(z3.IntVal(v // c)); lo.append(z3.IntVal(v % c)); continue
            d = s.linear_div(e, c)
            if d is not None: hi.append(B_int(d))
            else: lo.append(e)
        if not hi: return None
        q = z3.Sum(hi) if len(hi) > 1 else hi[0]
        if not lo: return simp(q), 0
        r = z3.Sum(lo) if len(lo) > 1 else lo[0]
        if not s.q(st, z3.And(r >= 0, r < c)): return None
        return simp(q), simp(r)
    def mod_pow(s, st, t, c):
        x = s.lin_split(st, t, c)
        return x[1] if x is not None else simp(t % c)
    def div_pow(s, st, t, c):
        d = s.linear_div(B_int(t), c)
        if d is not None: return d
        x = s.lin_split(st, t, c)
        return x[0] if x is not None else simp(t / c)
    def linear_div(s, t, c):
        """t / c when every coefficient of t is divisible by c (exact), else None"""
        t = z3.simplify(t, som=True)
        def go(e):
            if z3.is_int_value(e):
                v = e.as_long()
                return z3.IntVal(v // c) if v % c == 0 else None
            if z3.is_add(e):
                l = [go(x) for x in e.children()]
                return None if any(x is None for x in l) else z3.Sum(l)
            if z3.is_mul(e):
                ch = e.children()
                for k, x in enumerate(ch):
                    if z3.is_int_value(x) and x.as_long() % c == 0:
                        rest = ch[:k] + ch[k + 1:]
                        r = z3.IntVal(x.as_long() // c)
                        for y in rest: r = r * y
                        return r
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                a, b = go(e.arg(1)), go(e.arg(2))
                return None if a is None or b is None else z3.If(e.arg(0), a, b)
            return None
        r = go(t)
        return None if r is None else z3.simplify(r)

    def bits_and_const(s, x, c, w):
        """x & c for constant c, exactly, in integer arithmetic"""
        res = 0; i = 0
        while (c >> i):
            if (c >> i) & 1:
                j = i
                while (c >> j) & 1: j += 1
                part = x
                if j < w: part = part % (1 << j)
                if i: part = (part - part % (1 << i)) if True else part
                res = res + part
                i = j
            else: i += 1
        return res

    def binop(s, st, op, a, b, w, nsw=False):
        if w == 1:
            a, b = s.asbool(a), s.asbool(b)
            if op == 'and': return simp(And(a, b))
            if op == 'or': return simp(Or(a, b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if a is True: return simp(Not(b))
                if b is True: return simp(Not(a))
                if a is False: return b
                if b is False: return a
                return z3.Xor(a, b)
            if op == 'mul': return simp(And(a, b))
            raise Unsupported(f"i1 {op}")
        if isinstance(a, PInt) or isinstance(b, PInt): return s.ptr_arith(st, op, a, b, w)
        a, b = s.unundef(st, a, w), s.unundef(st, b, w)
        a, b = s.asint(a, w), s.asint(b, w)
        if isinstance(a, int) and isinstance(b, int): return s.cbin(op, a, b, w)
        if s.mode == "bv": return s.bvbin(st, op, a, b, w)
        M = 1 << w
        if op == 'add':
            if isinstance(b, int) and b >= M // 2: return s.wrap(st, a + (b - M), w)
            if isinstance(a, int) and a >= M // 2: return s.wrap(st, b + (a - M), w)
            return s.wrap(st, a + b, w)
        if op == 'sub': return s.wrap(st, a - b, w)
        if op == 'mul':
            if isinstance(b, int) and b >= M // 2 and nsw: b -= M
            return s.wrap(st, a * b, w)
        if op == 'udiv':
            if isinstance(b, int):
                if b == 0: s.oblige(st, False, "division-by-zero")
            else: s.oblige(st, b != 0, "division-by-zero")
            return s.div_pow(st, a, b) if isinstance(b, int) else simp(a / b)
        if op == 'urem':
            if not isinstance(b, int): s.oblige(st, b != 0, "division-by-zero")
            if isinstance(b, int) and is_sym(a): return a if s.q(st, a < b) else s.mod_pow(st, a, b)
            return simp(a % b)
        if op in ('sdiv', 'srem'):
            sa, sb = s.sgn(st, a, w), s.sgn(st, b, w)
            if isinstance(sb, int) and is_sym(sa) and op == 'sdiv':
                d = s.linear_div(sa, abs(sb))
                if d is not None: return s.wrap(st, d if sb > 0 else -d, w)
            if not isinstance(sb, int): s.oblige(st, sb != 0, "division-by-zero")
            if s.q(st, z3.And(B_int(sa) >= 0, B_int(sb) > 0)):
                return simp(sa / sb) if op == 'sdiv' else simp(sa % sb)
            qd = z3.If(B_int(sa) >= 0, z3.If(B_int(sb) > 0, B_int(sa) / sb, -(B_int(sa) / -sb)),
                       z3.If(B_int(sb) > 0, -((-B_int(sa)) / sb), (-B_int(sa)) / -sb))
            return s.wrap(st, qd, w) if op == 'sdiv' else s.wrap(st, sa - qd * sb, w)
        if op == 'shl':
            if isinstance(b, int):
                if b >= w: return s.fresh(st, w, "poison")
                if s.q(st, a < (1 << (w - b))): return simp(a * (1 << b))
                return simp((a % (1 << (w - b))) * (1 << b))
            return s.fresh(st, w, "shl")
        if op == 'lshr':
            if isinstance(b, int):
                return s.div_pow(st, a, 1 << b)
            return s.fresh(st, w, "lshr")
        if op == 'ashr':
            if isinstance(b, int):
                sa = s.sgn(st, a, w)
                d = s.linear_div(sa, 1 << b)
                return s.wrap(st, d if d is not None else sa / (1 << b), w)
            return s.fresh(st, w, "ashr")
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if op == 'and' and (b + 1) & b == 0:
                    return a if s.q(st, a <= b) else s.mod_pow(st, a, b + 1)
                an = s.bits_and_const(a, b, w)
                if op == 'and': return simp(an)
                if op == 'or': return s.wrap(st, a + b - an, w)
                return s.wrap(st, a + b - 2 * an, w)
            if s.q(st, z3.And(a <= 1, b <= 1)):
                x, y = simp(a == 1), simp(b == 1); return simp(z3.If(B({'and': And, 'or': Or}[op](x, y) if op != 'xor' else Not(simp(B(x) == B(y)))), z3.IntVal(1), z3.IntVal(0)))
            for k in (8, 7, 14, 16, 21, 24, 28, 32, 35, 40, 42, 48, 49, 56, 63, 1, 4):
                for x, y in ((a, b), (b, a)):
                    if k < w and s.q(st, z3.And(x % (1 << k) == 0, y < (1 << k))):
                        return simp(x + y) if op != 'and' else 0
            r = s.fresh(st, w, op)
            if op == 'and': st.assume(z3.And(r <= a, r <= b, z3.Implies(a == b, r == a)))
            if op == 'or': st.assume(z3.And(r >= a, r >= b, r <= a + b, (r == 0) == z3.And(a == 0, b == 0)))
            if op == 'xor': st.assume(z3.And((r == 0) == (a == b), r <= a + b))
            return r
        raise Unsupported(f"binop {op}")

    def cbin(s, op, a, b, w):
        M = 1 << w
        sg = lambda x: x - M if x >= M // 2 else x
        if op == 'add': return (a + b) % M
        if op == 'sub': return (a - b) % M
        if op == 'mul': return (a * b) % M
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: raise Unsupported("constant division by zero")
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op == 'sdiv':
            x, y = sg(a), sg(b); q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) % M
        if op == 'srem':
            x, y = sg(a), sg(b); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            return (x - q * y) % M
        if op == 'shl': return (a << b) % M if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (sg(a) >> b) % M if b < w else 0
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        raise Unsupported(op)
    def bvbin(s, st, op, a, b, w):
        a, b = s.bvc(a, w), s.bvc(b, w)
        if op == 'mul' and s.products is not None:
            x, y = (a, simp(b)) if is_sym(simp(a)) else (b, simp(a))
            if isinstance(y, int) and y % 2 and is_sym(simp(x)): return s.product(y, simp(x), w)
        if op == 'mul' and s.name_products and is_sym(simp(a)) and is_sym(simp(b)): return s.named_mul(a, b, w)
        if op in ('shl', 'lshr', 'ashr') and is_sym(b):
            sb = simp(b)
            if is_sym(sb): s.oblige(st, z3.ULT(b, w), "shift-in-range")
            elif sb >= w: s.oblige(st, False, "shift-in-range")
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            g = simp(b != 0)
            s.oblige(st, g, "division-by-zero")
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b),
             'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b,
             'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b,
             'xor': lambda: a ^ b}[op]()
        return simp(r)

    def product(s, c, x, w):
        """an opaque name for the product of an unknown with an odd constant; definitions and the fact that such products are one to
        one (odd numbers have an inverse modulo 2^w) are given to the solver with the goals"""
        for c2, x2, r, w2 in s.products:
            if c2 == c and w2 == w and x2.eq(x): return r
        assert c * pow(c, -1, 1 << w) % (1 << w) == 1
        r = z3.BitVec(f"prod!{len(s.products)}", w); s.products.append((c, x, r, w)); return r

    def named_mul(s, x, y, w):
        """an opaque name for the product of two unknowns (the same for the same factors, in either order)"""
        x, y = simp(x), simp(y)
        if x.get_id() > y.get_id(): x, y = y, x
        for x2, y2, r in s.muls:
            if x2.eq(x) and y2.eq(y): return r
        r = z3.BitVec(f"mul!{len(s.muls)}", w); s.muls.append((x, y, r)); return r
    def mul_facts(s):
        out = []
        for k, (x, y, r) in enumerate(s.muls):
            for x2, y2, r2 in s.muls[:k]: out.append(z3.Implies(z3.Or(z3.And(x == x2, y == y2), z3.And(x == y2, y == x2)), r == r2))
        return out
    def unundef(s, st, a, w):
        if isinstance(a, Undef): return s.fresh(st, w, "undef")
        return a

    def ptr_arith(s, st, op, a, b, w):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            d = s.pdiff(st, a.p, b.p)
            if s.mode == "bv":
                if isinstance(d, int): return d % I64
                raise Unsupported("symbolic pointer difference in bv mode")
            return s.wrap(st, d, w) if is_sym(d) else d % (1 << w)
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, int):
            return PInt(s.padd(st, a.p, -b, 1))
        if op == 'add':
            if isinstance(b, PInt): a, b = b, a
            if not isinstance(b, PInt): return PInt(s.padd(st, a.p, s.sgn(st, b, 64) if is_sym(b) else s.cs(b), 1))
        if op == 'and' and isinstance(b, int) and isinstance(a, PInt):
            if b & (b + 1) == 0 and b < 16 and a.p.r is not None:  # alignment test
                if isinstance(a.p.i, int): return (a.p.i * st.mem[a.p.r].stride + a.p.b) & b
        raise Unsupported(f"pointer arithmetic {op}")
    def cs(s, b): return b - I64 if b >= I64 // 2 else b
    def pdiff(s, st, p, q):
        if p.r is None and q.r is None: return simp(p.i - q.i)
        if p.r != q.r: raise Unsupported("difference of pointers into different objects")
        if p.g != q.g: s.oblige(st, False, "pointer-invalidated")
        return simp((p.i - q.i) * st.mem[p.r].stride + (p.b - q.b))
    def padd(s, st, p, t, scale):
        """p + t*scale bytes; t int (signed) or Int term (signed value)"""
        if p.r is None:
            if isinstance(t, int) and t == 0: return p
            if isinstance(t, int) and isinstance(p.i, int): return Ptr(None, p.i + t * scale)
            return Ptr(None, simp(p.i + t * scale))
        R = st.mem[p.r]
        if isinstance(t, int):
            d = p.b + t * scale
            if R.kind == 'c': return Ptr(p.r, simp(p.i + d) if is_sym(p.i) else p.i + d, 0, p.g)
            k, b = divmod(d, R.stride)
            return Ptr(p.r, simp(p.i + k), b, p.g)
        if R.kind == 'c': return Ptr(p.r, simp(p.i + t * scale), 0, p.g)
        if scale % R.stride == 0: return Ptr(p.r, simp(p.i + t * (scale // R.stride)), p.b, p.g)
        d = s.linear_div(t * scale, R.stride)
        if d is not None: return Ptr(p.r, simp(p.i + d), p.b, p.g)
        raise Unsupported(f"pointer stride mismatch {scale} vs {R.stride}")

    def icmp(s, st, pred, a, b, ty):
        if ty.kind == 'ptr': return s.pcmp(st, pred, a, b)
        if isinstance(a, PInt) and isinstance(b, PInt): return s.pcmp(st, pred, a.p, b.p)
        if isinstance(a, PInt) or isinstance(b, PInt):
            x, y = (a, b) if isinstance(a, PInt) else (b, a)
            if y == 0 and pred in ('eq', 'ne'): return s.pcmp(st, pred, x.p, NULL)
            raise Unsupported("pointer/integer comparison")
        w = ty.w
        a, b = s.unundef(st, a, w), s.unundef(st, b, w)
        if w == 1:
            a, b = s.asbool(a), s.asbool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b if pred == 'eq' else a != b
            e = B(a) == B(b)
            if pred == 'eq': return simp(e)
            if pred == 'ne': return simp(z3.Not(e))
            a, b = s.asint(a, 8), s.asint(b, 8); w = 8
        a, b = s.asint(a, w), s.asint(b, w)
        if isinstance(a, int) and isinstance(b, int):
            M = 1 << w; sg = lambda x: x - M if x >= M // 2 else x
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sg(a) < sg(b), 'sle': sg(a) <= sg(b), 'sgt': sg(a) > sg(b), 'sge': sg(a) >= sg(b)}[pred]
        if s.mode == "bv":
            a, b = s.bvc(a, w), s.bvc(b, w)
            return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                         'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                         'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]())
        if pred[0] == 's': a, b = s.sgn(st, a, w), s.sgn(st, b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]()
        return simp(r)
    def pcmp(s, st, pred, a, b):
        fv = lambda x: x.v if isinstance(x, Obj) and x.kind == 'fnval' else s.fn_num(x.name) if isinstance(x, FnPtr) else x.i if isinstance(x, Ptr) and x.r is None else None
        if any(isinstance(x, Obj) and x.kind == 'fnval' for x in (a, b)) and fv(a) is not None and fv(b) is not None and pred in ('eq', 'ne'):
            e = simp(B_int(fv(a)) == B_int(fv(b))); return e if pred == 'eq' else simp(Not(e))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return eq if pred == 'eq' else not eq
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise Unsupported("opaque object compared as pointer")
        if a.r is None or b.r is None:
            if a.r is None and b.r is None: e = simp(a.i == b.i) if (is_sym(a.i) or is_sym(b.i)) else a.i == b.i
            elif s.int_ptrs and pred in ('eq', 'ne') and any(p.r is None and (is_sym(p.i) or p.i != 0) for p in (a, b)): e = simp(B_int(s.addr_num(st, a)) == B_int(s.addr_num(st, b)))
            elif (st.mem.get(a.r) or st.mem.get(b.r)).name == "chain" and (a if a.r is None else b).i == 0: e = simp(B_int((b if a.r is None else a).i) < 0)   # linked nodes: a negative index is the null link
            else: e = False
            if pred == 'eq': return e
            if pred == 'ne': return simp(Not(e))
            raise Unsupported("order comparison with null")
        if a.r != b.r:
            if pred == 'eq': return False
            if pred == 'ne': return True
            raise Unsupported("ordering pointers into different objects")
        if a.g != b.g and not s.suppress:
            s.oblige(st, False, "pointer-invalidated")
        st_ = st.mem[a.r].stride
        x, y = (a.i, b.i) if a.b == b.b else (a.i * st_ + a.b, b.i * st_ + b.b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        return simp(r)

    # ---------------- memory
    def embed(s, st, p, size, A, name):
        """the size bytes at p, inside an object of cells, become an array that can be indexed by unknowns"""
        q = s.new_arr(st, 1, size, {0: (1, A)}, name); W = st.wr(p.r); W.sub = tuple(x for x in (W.sub or ()) if x[0] != p.i) + ((p.i, size, q.r),)
        for o in [o for o in W.cells if p.i <= o < p.i + size]: del W.cells[o]
        return q
    def resolve(s, st, p):
        """accesses to an array embedded in an object go to its own region"""
        R = st.mem.get(p.r) if isinstance(p, Ptr) and p.r is not None else None
        if R is None or R.kind != 'c' or not R.sub: return p
        for lo, n, rid in R.sub:
            if isinstance(p.i, int):
                if lo <= p.i < lo + n: return Ptr(rid, p.i - lo)
                continue
            inside = simp(z3.And(p.i >= lo, p.i < lo + n))
            if s.feas(st, inside): s.oblige(st, inside, f"bounds({R.name})"); return Ptr(rid, simp(p.i - lo))
        return p
    def check_access(s, st, p, n, write):
        if not isinstance(p, Ptr): raise Unsupported(f"access through {p!r}")
        if p.r is None:
            s.oblige(st, False, "null-or-wild-dereference"); raise Infeasible()
        R = st.mem.get(p.r)
        if R is None: raise Unsupported("unknown region")
        if not R.alive:
            s.oblige(st, False, f"use-after-free({R.name})"); raise Infeasible()
        if R.kind == 'c':
            if isinstance(p.i, int) and isinstance(R.size, int):
                if not (0 <= p.i and p.i + n <= R.size):
                    s.oblige(st, False, f"out-of-bounds({R.name})"); raise Infeasible()
            else:
                s.oblige(st, simp(z3.And(B_int(p.i) >= 0, p.i + n <= R.size)), f"bounds({R.name})")
        else:
            if p.g != R.gen:
                s.oblige(st, False, f"invalidated-pointer({R.name})"); raise Infeasible()
            k = (p.b + n + R.stride - 1) // R.stride
            hi = R.size
            if not write and R.name.startswith("str"): hi = R.size + 1   # terminating NUL is readable
            g = simp(z3.And(B_int(p.i) >= 0, B_int(p.i) + k <= hi))
            s.oblige(st, g, f"bounds({R.name})")
        return R
    def compose(s, st, parts):
        """little-endian list of (value, nbytes) -> int value"""
        if s.mode == "bv":
            bits = [s.bvc(v, 8 * n) for v, n in parts]
            if all(isinstance(v, int) for v, _ in parts):
                r = 0; sh = 0
                for v, n in parts: r |= v << sh; sh += 8 * n
                return r
            return simp(z3.Concat(*reversed(bits))) if len(bits) > 1 else bits[0]
        r = 0; sh = 0
        for v, n in parts: r = r + v * (1 << sh); sh += 8 * n
        return simp(r)
    def extract(s, st, v, n, k, m):
        """bytes k..k+m of n-byte value v"""
        if isinstance(v, (Ptr, FnPtr, Obj, PInt)): raise Unsupported("partial read of a pointer or library object")
        if isinstance(v, Undef): return Undef()
        v = s.asint(v, 8 * n)
        if isinstance(v, int): return (v >> (8 * k)) & ((1 << (8 * m)) - 1)
        if s.mode == "bv": return simp(z3.Extract(8 * (k + m) - 1, 8 * k, v))
        if k: v = v / (1 << (8 * k))
        if k + m < n: v = v % (1 << (8 * m))
        return simp(v)
    def cells_read(s, st, R, off, n):
        c = R.cells
        if off in c and c[off][0] == n: return c[off][1]
        parts = []; o = off; end = off + n
        while o < end:
            if o in c:
                m, v = c[o]
                if o + m <= end: parts.append((v, m)); o += m; continue
                parts.append((s.extract(st, v, m, 0, end - o), end - o)); o = end; continue
            # inside a larger cell?
            hit = None
            for d in range(1, 64):
                if o - d in c:
                    if c[o - d][0] > d: hit = o - d
                    break
            if hit is not None:
                m, v = c[hit]; k = o - hit; take = min(m - k, end - o)
                if m == n and False: pass
                parts.append((s.extract(st, v, m, k, take), take)); o += take; continue
            nx = min([x for x in c if x > o] + [end])
            if R.zero: v = 0
            else:
                v = Undef()
            parts.append((v, nx - o)); o = nx
        if len(parts) == 1: return parts[0][0]
        if all(isinstance(v, Undef) for v, _ in parts): return Undef()
        l = []
        for v, m in parts:
            if isinstance(v, Undef): v = s.fresh(st, 8 * m, "uninit")
            if isinstance(v, (Ptr, FnPtr, Obj, PInt)): raise Unsupported("mixed read over pointer or library object")
            l.append((s.asint(v, 8 * m), m))
        return s.compose(st, l)
    def cells_write(s, st, R, off, n, v):
        c = R.cells
        if off in c and c[off][0] == n: c[off] = (n, v); return
        for o in [o for o in c if o < off + n and o + c[o][0] > off]:
            m, old = c.pop(o)
            if isinstance(old, Obj) and (o < off or o + m > off + n):
                raise Unsupported("partial overwrite of a library object")
            if isinstance(old, (Ptr, FnPtr, PInt, Undef, Obj)): continue
            if o < off: c[o] = (off - o, s.extract(st, old, m, 0, off - o))
            if o + m > off + n: c[off + n] = (o + m - off - n, s.extract(st, old, m, off + n - o, o + m - off - n))
        c[off] = (n, v)
    def sel(s, A, i):
        return simp(read(A, i if is_sym(i) else z3.IntVal(i)))
    def load_raw(s, st, p, n):
        """load n bytes as an untyped value"""
        p = s.resolve(st, p)
        R = s.check_access(st, p, n, False)
        if R.kind == 'c':
            if isinstance(p.i, int): return s.cells_read(st, R, p.i, n)
            # symbolic offset into a small object: case split by ite
            opts = []
            for o in range(0, R.size - n + 1):
                if s.feas(st, simp(p.i == o)): opts.append(o)
                if len(opts) > 80: raise Unsupported("symbolic offset into a large object")
            if not opts: raise Infeasible()
            r = None
            for o in reversed(opts):
                v = s.cells_read(st, R, o, n)
                if isinstance(v, Undef): v = s.fresh(st, 8 * n, "uninit")
                if isinstance(v, (Ptr, FnPtr, Obj)): raise Unsupported("symbolic offset over pointers")
                v = s.asint(v, 8 * n)
                vv = s.bvc(v, 8 * n) if s.mode == "bv" else B_int(v)
                r = vv if r is None else z3.If(p.i == o, vv, r)
            return simp(r)
        fl = R.fields
        if p.b in fl and fl[p.b][0] == n:
            return s.arr_sel(st, R, fl[p.b][1], p.i, n)
        # compose / extract
        parts = []; i = p.i; b = p.b; left = n
        while left > 0:
            if b in fl:
                m, A = fl[b]; v = s.arr_sel(st, R, A, i, m)
                take = min(m, left)
                if isinstance(v, (Ptr, Obj, Undef)) and (take < m or take < n): raise Unsupported("partial read of element")
                parts.append((v if take == m else s.extract(st, v, m, 0, take), take))
            else:
                hit = [o for o in fl if o < b < o + fl[o][0]]
                if hit:
                    o = hit[0]; m, A = fl[o]; take = min(o + m - b, left)
                    parts.append((s.extract(st, s.arr_sel(st, R, A, i, m), m, b - o, take), take))
                else:
                    nx = min([o for o in fl if o > b] + [R.stride]); take = min(nx - b, left)
                    parts.append((s.fresh(st, 8 * take, "pad"), take))
            left -= take; b += take
            if b >= R.stride: b -= R.stride; i = simp(i + 1)
        if len(parts) == 1: return parts[0][0]
        return s.compose(st, parts)
    def arr_sel(s, st, R, A, i, n):
        if callable(A) and not is_sym(A): return A(st, i)
        v = s.sel(A, i)
        if s.mode == "int" and is_sym(v):
            st.assume(z3.And(v >= 0, v < (1 << (8 * n))))
        return v
    def store_raw(s, st, p, n, v):
        p = s.resolve(st, p)
        R = s.check_access(st, p, n, True)
        if R.ro: s.oblige(st, False, "write-to-constant"); raise Infeasible()
        W = st.wr(p.r)
        if R.kind == 'c':
            if isinstance(p.i, int):
                s.cells_write(st, W, p.i, n, v); return
            opts = [o for o in range(0, R.size - n + 1) if s.feas(st, simp(p.i == o))]
            if len(opts) > 80: raise Unsupported("symbolic offset into a large object")
            vv = s.bvc(s.asint(v, 8 * n), 8 * n) if s.mode == "bv" else B_int(s.asint(v))
            for o in opts:
                old = s.cells_read(st, W, o, n)
                if isinstance(old, Undef): old = s.fresh(st, 8 * n, "uninit")
                if isinstance(old, (Ptr, FnPtr, Obj)): raise Unsupported("symbolic store over pointers")
                old = s.asint(old, 8 * n); old = s.bvc(old, 8 * n) if s.mode == "bv" else B_int(old)
                s.cells_write(st, W, o, n, simp(z3.If(p.i == o, vv, old)))
            return
        fl = W.fields
        if isinstance(v, Undef): v = s.fresh(st, 8 * n, "undef")
        iv = p.i if is_sym(p.i) else z3.IntVal(p.i)
        if p.b in fl and fl[p.b][0] == n:
            if isinstance(v, FnPtr) and s.fn_values: v = s.fn_num(v.name)
            if isinstance(v, Obj) and v.kind == 'fnval': v = v.v
            if isinstance(v, Ptr) and s.int_ptrs: v = s.addr_num(st, v)
            v = s.asint(v, 8 * n)
            if isinstance(v, (Ptr, Obj, FnPtr)): raise Unsupported("pointer stored in a symbolic array")
            vv = s.bvc(v, 8 * n) if s.mode == "bv" else B_int(v)
            fl[p.b] = (n, z3.Store(fl[p.b][1], iv, vv)); return
        left = n; b = p.b; k = 0; i = p.i
        if isinstance(v, (Ptr, Obj, FnPtr)): raise Unsupported("pointer stored in a symbolic array")
        while left > 0:
            if b in fl and fl[b][0] <= left:
                m, A = fl[b]
                part = s.extract(st, v, n, k, m)
                pv = s.bvc(part, 8 * m) if s.mode == "bv" else B_int(part)
                fl[b] = (m, z3.Store(A, i if is_sym(i) else z3.IntVal(i), pv))
            else: 
                if b in fl or any(o < b < o + fl[o][0] for o in fl): raise Unsupported("partial store to array element field")
                m = min([o for o in fl if o > b] + [R.stride]) - b; m = min(m, left)
            left -= m; k += m; b += m
            if b >= R.stride: b -= R.stride; i = simp(i + 1)
    def load(s, st, p, ty):
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct': return Agg([s.load(st, s.padd(st, p, o, 1), e) for o, e in zip(ty.offs, ty.els)])
            return Agg([s.load(st, s.padd(st, p, i * ty.el.size, 1), ty.el) for i in range(ty.n)])
        v = s.load_raw(st, p, ty.size)
        if ty.kind == 'ptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, int): return Ptr(None, v)
            if is_sym(v): return s.sym_ptr(st, v)
            return v
        if ty.kind == 'int':
            if isinstance(v, Ptr): return PInt(v)
            if isinstance(v, Undef): 
                v = s.fresh(st, ty.w, "uninit"); 
                if p.r is not None and st.mem[p.r].kind == 'c' and isinstance(p.i, int) and not st.mem[p.r].ro:
                    s.cells_write(st, st.wr(p.r), p.i, ty.size, v)
                return v
            if ty.w == 1: return s.asbool(v)
            if ty.w < ty.size * 8: raise Unsupported(f"load of i{ty.w}")
            if isinstance(v, (FnPtr, Obj)): raise Unsupported(f"integer load of {v!r}")
            return v
        return v
    def sym_ptr(s, st, v):
        if s.int_ptrs: return Ptr(None, v)
        if s.fn_values: return Obj('fnval', v=v)
        raise Unsupported(f"symbolic pointer value {v}")
    def addr_num(s, st, p):
        """the address of p as a number: globals have distinct ones, other regions unknown ones that lie apart"""
        if not isinstance(p, Ptr): raise Unsupported(f"address of {p!r}")
        if p.r is None: return p.i
        R = st.mem[p.r]; known = st.ghost.get('addrs', {})
        if p.r in s.gregions.values(): base = (1 << 50) + (sorted(s.gregions.values()).index(p.r) << 20)
        else:
            base = known.get(p.r)
            if base is None:
                base = z3.Int(f"addr!{p.r}"); st.assume(z3.And(base > 0, base < (1 << 49)))
                if isinstance(R.size, int):
                    st.assume(base + R.size < (1 << 49))
                    for r2, b2 in known.items():
                        n2 = st.mem[r2].size
                        if isinstance(n2, int) and st.mem[r2].alive: st.assume(z3.Or(base + R.size <= b2, b2 + n2 <= base))
                st.ghost['addrs'] = {**known, p.r: base}
        return simp(base + p.i * R.stride + p.b)
    def fn_num(s, name):
        """functions stored in symbolic memory are numbered"""
        return s.fn_ids.setdefault(name, 1000 + len(s.fn_ids))
    def store(s, st, p, ty, v):
        if ty.kind in ('struct', 'array'):
            if isinstance(v, Undef): return
            if ty.kind == 'struct':
                for o, e, x in zip(ty.offs, ty.els, v.v): s.store(st, s.padd(st, p, o, 1), e, x)
            else:
                for i, x in enumerate(v.v): s.store(st, s.padd(st, p, i * ty.el.size, 1), ty.el, x)
            return
        if ty.kind == 'int' and ty.w == 1: v = s.asint(s.asbool(v), 8)
        if isinstance(v, PInt): v = v.p
        s.store_raw(st, p, ty.size, v)
    def memcpy(s, st, d, src, n):
        """n concrete or symbolic byte count"""
        n = simp(n) if is_sym(n) else n
        SR, DR = (st.mem.get(q.r) if isinstance(q, Ptr) and q.r is not None else None for q in (src, d))
        subs = [x for x in (SR.sub or ()) if isinstance(n, int) and isinstance(src.i, int) and src.i <= x[0] and x[0] + x[1] <= src.i + n] if SR is not None and SR.kind == 'c' else []
        if subs:                             # an object with embedded arrays is copied: so are they
            if DR is None or DR.kind != 'c' or not isinstance(d.i, int): raise Unsupported("copy of an object with an embedded array")
            arrs = [(lo, k, st.mem[rid].fields[0][1]) for lo, k, rid in subs]; W = st.wr(src.r); old = W.sub; W.sub = tuple(x for x in old if x not in subs) or None
            s.memcpy(st, d, src, n); st.wr(src.r).sub = old
            for lo, k, A in arrs: s.embed(st, Ptr(d.r, d.i + lo - src.i), k, A, "copied array")
            return
        src, d = s.resolve(st, src), s.resolve(st, d)
        if isinstance(n, int):
            if n == 0: return
            RS = st.mem.get(src.r); RD = st.mem.get(d.r)
            if RS is None or RD is None:
                s.check_access(st, src, n, False); s.check_access(st, d, n, True)
            if RS.kind == 'c' and isinstance(src.i, int):
                s.check_access(st, src, n, False); 
                pieces = []; o = src.i; end = o + n; c = RS.cells
                while o < end:
                    if o in c and o + c[o][0] <= end: pieces.append((o - src.i, c[o][0], c[o][1])); o += c[o][0]
                    else:
                        nx = min([x for x in c if x > o] + [end])
                        cov = [x for x in c if x < o < x + c[x][0]]
                        if cov or o in c:
                            x = cov[0] if cov else o
                            nx = min(end, x + c[x][0])
                            pieces.append((o - src.i, nx - o, s.cells_read(st, RS, o, nx - o)))
                        elif RS.zero:
                            while o < nx:
                                k = 8 if nx - o >= 8 else 1
                                pieces.append((o - src.i, k, 0)); o += k
                        o = nx
                if RD.kind == 'c' and isinstance(d.i, int):
                    s.check_access(st, d, n, True); W = st.wr(d.r)
                    for o in [o for o in W.cells if o >= d.i and o + W.cells[o][0] <= d.i + n]: del W.cells[o]
                    for o, m, v in pieces: s.cells_write(st, W, d.i + o, m, v)
                else:
                    for o, m, v in pieces: s.store_raw(st, s.padd(st, d, o, 1), m, v)
                return
            if RS.kind == 'a' and n <= 256:
                RS = s.check_access(st, src, n, False)
                # element-wise by source fields
                o = 0
                while o < n:
                    q = s.padd(st, src, o, 1)
                    fl = RS.fields
                    if q.b in fl and fl[q.b][0] <= n - o: m = fl[q.b][0]
                    elif q.b in fl or any(x < q.b < x + fl[x][0] for x in fl): m = 1
                    else:
                        o += min([x for x in fl if x > q.b] + [RS.stride]) - q.b; continue
                    s.store_raw(st, s.padd(st, d, o, 1), m, s.load_raw(st, q, m)); o += m
                return
        # symbolic (or large) copy between array regions of equal stride
        RS = st.mem.get(src.r); RD = st.mem.get(d.r)
        if s.q(st, n == 0): return
        if RS is None or RD is None:
            s.oblige(st, simp(B_int(n) == 0), "null-or-wild-dereference"); return
        if RS.kind != 'a' or RD.kind != 'a' or RS.stride != RD.stride: raise Unsupported("symbolic memcpy between unlike regions")
        k = n // RS.stride if isinstance(n, int) else s.linear_div(n, RS.stride) if RS.stride > 1 else n
        if k is None: raise Unsupported("symbolic memcpy length not a multiple of the element size")
        s.arr_copy(st, d, src, k)
    def chk_range(s, st, p, k, write, what=""):
        R = st.mem.get(p.r)
        if R is None:
            s.oblige(st, simp(B_int(k) == 0), "null-range"); return None
        if not R.alive: s.oblige(st, False, f"use-after-free({R.name})"); raise Infeasible()
        if R.kind == 'a' and p.g != R.gen: s.oblige(st, False, f"invalidated-pointer({R.name})"); raise Infeasible()
        s.oblige(st, simp(z3.Or(B_int(k) == 0, z3.And(B_int(p.i) >= 0, B_int(k) >= 0, p.i + k <= R.size))), f"bounds-range({R.name})")
        return R
    def arr_copy(s, st, d, src, k):
        RS = s.chk_range(st, src, k, False); RD = s.chk_range(st, d, k, True)
        if RS is None or RD is None: return
        if d.b != 0 or src.b != 0: raise Unsupported("misaligned array copy")
        W = st.wr(d.r)
        for b, (m, A) in list(W.fields.items()):
            if b not in RS.fields: continue
            NA = s.fresh_array(8 * m, f"{RD.name}.cp")
            j = z3.Int(f"j!{fresh_id()}")
            fn = lambda j, A=A, S=RS.fields[b][1]: z3.If(z3.And(j >= d.i, j < d.i + k), z3.Select(S, j - d.i + src.i), z3.Select(A, j))
            define_array(NA, fn)
            st.assume(z3.ForAll([j], z3.Select(NA, j) == fn(j), patterns=[z3.Select(NA, j)]))
            W.fields[b] = (m, NA)

    def feas(s, st, c):
        c = simp(c)
        if c is True or c is False: return c
        return s.pr.feasible(st.pc, c)

    # ---------------- constants and globals
    def const(s, st, c):
        k = c[0]
        if k == 'i': return c[1] if c[2] != 1 else bool(c[1])
        if k == 'null': return NULL
        if k == 'undef': return Undef(c[1]) if c[1].kind not in ('struct', 'array') else s.undef_agg(c[1])
        if k == 'fn': return FnPtr(c[1])
        if k == 'g': return s.global_ptr(st, c[1])
        if k == 'agg': return Agg([s.const(st, x) for x in c[1]])
        if k == 'zeroarr': return Agg([s.const(st, s.m.zero(c[1].el)) for _ in range(c[1].n)])
        if k == 'f':
            import struct
            return struct.unpack('<Q', struct.pack('<d', c[1]))[0] if c[2] == 64 else struct.unpack('<I', struct.pack('<f', c[1]))[0] if c[2] == 32 else Undef()
        if k == 'expr':
            op, ops, x = c[1], c[2], c[3]
            if op == 'gep':
                return s.gep(st, s.const(st, ops[0]), x, [s.gidx(o, s.const(st, o)) for o in ops[1:]])
            if op in ('bitcast', 'addrspacecast'): return s.const(st, ops[0])
            if op == 'ptrtoint': return PInt(s.const(st, ops[0]))
            if op == 'inttoptr':
                v = s.const(st, ops[0]); return v.p if isinstance(v, PInt) else Ptr(None, v)
            if op in ('add', 'sub'): return s.binop(st, op, s.const(st, ops[0]), s.const(st, ops[1]), 64)
        if k == 'meta': return Undef()
        raise Unsupported(f"constant {c[:2]}")
    def undef_agg(s, t):
        if t.kind == 'struct': return Agg([s.undef_agg(e) if e.kind in ('struct', 'array') else Undef(e) for e in t.els])
        return Agg([s.undef_agg(t.el) if t.el.kind in ('struct', 'array') else Undef(t.el) for _ in range(t.n)])
    def global_ptr(s, st, name):
        rid = s.gregions.get(name)
        if rid is None: rid = s.gregions[name] = fresh_id()
        if rid not in st.mem:
            init, ty, isc = s.m.global_init(name)
            R = cell_region(rid, ty.size if ty.size else 1 << 20, "global " + IR.demangle(name)); st.mem[rid] = R
            R.zero = False
            if init is not None: s.init_const(st, R, 0, init, ty)
            R.ro = isc
        return Ptr(rid)
    def init_const(s, st, R, off, c, ty):
        if ty.kind == 'struct':
            els = c[1] if c[0] == 'agg' else None
            if c[0] == 'undef': return
            for e, o, x in zip(ty.els, ty.offs, els): s.init_const(st, R, off + o, x, e)
        elif ty.kind in ('array', 'vec'):
            if c[0] == 'undef': return
            for i in range(ty.n): s.init_const(st, R, off + i * ty.el.size, s.m.zero(ty.el) if c[0] == 'zeroarr' else c[1][i], ty.el)
        else:
            v = s.const(st, c)
            if isinstance(v, bool): v = int(v)
            if isinstance(v, PInt): v = v.p
            R.cells[off] = (ty.size, v)
    def cstring(s, st, p):
        """python bytes of a constant C string, or None"""
        R = st.mem.get(p.r) if p.r is not None else None
        if R is None or R.kind != 'c' or not isinstance(p.i, int): return None
        out = bytearray(); o = p.i
        while o in R.cells:
            n, v = R.cells[o]
            if n != 1 or not isinstance(v, int): return None
            if v == 0: return bytes(out)
            out.append(v); o += 1
        return None

    def gidx(s, o, v):
        if o[0] == 'i' and o[2] < 64 and isinstance(v, int) and v >= 1 << (o[2] - 1): return v - (1 << o[2])
        return v
    def gep(s, st, p, ty, idx):
        if isinstance(p, Obj): raise Unsupported("gep on opaque object")
        if isinstance(p, FnPtr): raise Unsupported("gep on function")
        def sidx(i):
            if isinstance(i, int): return s.cs(i) if i >= I64 // 2 else i
            if isinstance(i, (PInt, Undef)): raise Unsupported("gep index")
            if s.mode == "bv":
                i = simp(i)
                if isinstance(i, int): return s.cs(i)
                return z3.BV2Int(i)
            return s.sgn(st, i, 64)
        i0 = idx[0]
        if isinstance(i0, int) and i0 >= (1 << 31) and i0 < (1 << 32) and False: pass
        p = s.padd(st, p, sidx(i0), ty.size)
        for i in idx[1:]:
            if ty.kind == 'struct':
                p = s.padd(st, p, ty.offs[i], 1); ty = ty.els[i]
            else:
                p = s.padd(st, p, sidx(i), ty.el.size); ty = ty.el
        return p

    # ---------------- execution
    def run(s, st, fname, args):
        f = s.m.funcs[fname]
        return s.call_fn(st, f, args)
    def call_fn(s, st, f, args):
        f.decode()
        if len(s.stack) > 150: raise Unsupported("inlining too deep at " + f.dname)
        if s.stack.count(f.dname) > 12: raise Unsupported("recursion in " + f.dname)
        s.stack.append(f.dname)
        s.inlined[f.dname] = s.inlined.get(f.dname, 0) + 1
        try:
            env = dict(zip(f.params, args))
            work = [(st, env, 0, None)]
            outs, _, _ = s.run_blocks(f, work)
            res = []
            for st2, o, env2 in outs:
                for k in env2.get('#allocas', ()):
                    if k in st2.mem:
                        st2.wr(k).alive = False
                res.append((st2, o))
            return res
        except Exception:
            if not s.err_stack: s.err_stack = list(s.stack)
            raise
        finally:
            s.stack.pop()

    def val(s, st, env, o):
        if o[0] == 'l':
            return env[o[1]]
        return s.const(st, o)

    def run_blocks(s, f, work, header=None, loopset=None):
        """-> outcomes [(st, outcome, env)], backedges [(st, env, prev)], exits [(st, env, prev, target)]"""
        outs = []; backs = []; exits = []
        work = list(work)
        while work:
            st, env, bi, prev = work.pop()
            s.steps += 1
            if s.steps > s.max_steps: raise Unsupported("step budget exceeded")
            if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exceeded")
            blk = f.blocks[bi]
            try:
                if blk.phis and prev is not None and not (bi == header and prev == '#cut'):
                    vals = [s.val(st, env, ph.ops[prev]) for ph in blk.phis]
                    env = dict(env)
                    for ph, v in zip(blk.phis, vals): env[ph.id] = v
                s.run_block(f, st, env, bi, 0, work, outs, backs, exits, header, loopset)
            except Infeasible:
                continue
        return outs, backs, exits

    def go(s, f, st, env, b, t, work, outs, backs, exits, header, loopset):
        """transfer control from block b to block t"""
        if loopset is not None:
            if t == header: backs.append((st, env, b)); return
            if t not in loopset: exits.append((st, env, b, t)); return
        if t in f.loops and t != header:
            body = f.loops[t]
            inside = b in body
            key = (f.name, t)
            if not inside:
                if key in s.cutset:
                    o2, ex2 = s.cut_loop(f, t, st, env, b)
                    outs.extend(o2)
                    for (st2, env2, b2, t2) in ex2: s.go(f, st2, env2, b2, t2, work, outs, backs, exits, header, loopset)
                    return
                env = dict(env); env[('#it', t)] = 0
            else:
                n = env.get(('#it', t), 0) + 1
                if s.want_cut(f, t) and (n > s.max_unroll or (n >= 2 and any(h2 != t and h2 in body and (f.name, h2) in s.cutset for h2 in f.loops))):
                    raise NeedCut(key)
                if n > s.max_unroll:
                    raise Unsupported(f"loop unrolling bound {s.max_unroll} reached in {f.dname}")
                env = dict(env); env[('#it', t)] = n
        work.append((st, env, t, b))

    def exiting(s, f, b, succs):
        """innermost loop that a branch in block b may leave"""
        best = None
        for h, body in f.loops.items():
            if b in body and any(t not in body for t in succs) and any(t in body for t in succs):
                if best is None or len(body) < len(f.loops[best]): best = h
        return best

    def run_block(s, f, st, env, bi, start, work, outs, backs, exits, header, loopset):
        blk = f.blocks[bi]
        ins = blk.ins
        k = start
        A = (work, outs, backs, exits, header, loopset)
        while k < len(ins):
            I = ins[k]; op = I.op
            if op == 'br':
                if len(I.x) == 1:
                    s.go(f, st, env, bi, I.x[0], *A); return
                c = s.val(st, env, I.ops[0])
                if isinstance(c, Undef): c = z3.Bool(f"undef!{fresh_id()}")
                c = s.asbool(c)
                if c is True or c is False:
                    s.go(f, st, env, bi, I.x[0] if c else I.x[1], *A); return
                s.branch(f, st, env, bi, [(c, I.x[0]), (Not(c), I.x[1])], A); return
            if op == 'switch':
                v = s.val(st, env, I.ops[0])
                dflt, cases = I.x
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int):
                    t = next((d for cv, d in cases if cv == v), dflt)
                    s.go(f, st, env, bi, t, *A); return
                if isinstance(v, (Undef,)): v = s.fresh(st, 64, "undef")
                if z3.is_bool(v): v = s.asint(v, 8)
                opts = [(simp(v == cv), d) for cv, d in cases]
                opts.append((simp(And(*[Not(simp(v == cv)) for cv, d in cases])), dflt))
                s.branch(f, st, env, bi, opts, A); return
            if op == 'ret':
                v = s.val(st, env, I.ops[0]) if I.ops else None
                outs.append((st, Ret(v), env)); return
            if op == 'unreachable':
                s.oblige(st, False, "unreachable-reached"); return
            if op == 'resume':
                v = s.val(st, env, I.ops[0])
                outs.append((st, v.v[0].f['exc'] if isinstance(v.v[0], Obj) else env['#exc'], env)); return
            if op in ('call', 'invoke'):
                r = s.do_call(f, st, env, I)
                nxt, unw = I.x[2], I.x[3]
                rest = []
                for st2, o in r:
                    if isinstance(o, Ret):
                        rest.append((st2, o.v))
                    else:
                        if op == 'call': outs.append((st2, o, env))
                        else: s.unwind(f, st2, dict(env), bi, unw, o, A)
                if op == 'invoke':
                    for st2, v in rest:
                        e2 = dict(env); e2[I.id] = v
                        s.go(f, st2, e2, bi, nxt, *A)
                    return
                if not rest: return
                for st2, v in rest[1:]:
                    e2 = dict(env); e2[I.id] = v
                    try: s.run_block(f, st2, e2, bi, k + 1, *A)
                    except Infeasible: pass
                st, v = rest[0]
                if len(rest) > 1: env = dict(env)
                env[I.id] = v; k += 1; continue
            if op == 'select':
                c = s.val(st, env, I.ops[0])
                a, b = s.val(st, env, I.ops[1]), s.val(st, env, I.ops[2])
                if isinstance(c, Undef): c = z3.Bool(f"undef!{fresh_id()}")
                c = s.asbool(c)
                if c is True: env[I.id] = a; k += 1; continue
                if c is False: env[I.id] = b; k += 1; continue
                m = s.merge(st, c, a, b, I.ty)
                if m is not None: env[I.id] = m; k += 1; continue
                for cc, v in ((c, a), (Not(c), b)):
                    if s.feas(st, cc):
                        st2 = st.clone(); st2.assume(cc); e2 = dict(env); e2[I.id] = v
                        try: s.run_block(f, st2, e2, bi, k + 1, *A)
                        except Infeasible: pass
                return
            env[I.id] = s.step(f, st, env, I)
            k += 1
        raise Unsupported("block without terminator")

    def branch(s, f, st, env, bi, opts, A):
        feas = []
        for c, t in opts:
            if c is False: continue
            if c is True: feas = [(c, t)]; break
            feas.append((c, t))
        live = [(c, t) for c, t in feas if c is True or s.feas(st, c)]
        if len(live) > 1:
            h = s.exiting(f, bi, [t for _, t in live])
            if h is not None and s.want_cut(f, h) and (f.name, h) not in s.cutset and h != A[4]:
                raise NeedCut((f.name, h))
        if len(live) > 1: s.paths += len(live) - 1
        for n, (c, t) in enumerate(live):
            st2 = st.clone() if n + 1 < len(live) else st
            e2 = dict(env) if n + 1 < len(live) else env
            if c is not True: st2.assume(c)
            s.go(f, st2, e2, bi, t, *A)

    def want_cut(s, f, h):
        if any(re.search(p, f.dname) for p in s.unroll_fns): return False
        return s.loop_mode == "cut"

    def merge(s, st, c, a, b, ty):
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r and a.b == b.b and a.g == b.g and a.r is not None and s.mode == "int":
                return Ptr(a.r, simp(z3.If(c, B_int(a.i), B_int(b.i))), a.b, a.g)
            if a.r is None and b.r is None and s.int_ptrs: return Ptr(None, simp(z3.If(c, B_int(a.i), B_int(b.i))))
            return None
        if isinstance(a, (Ptr, PInt, FnPtr, Obj, Agg)) or isinstance(b, (Ptr, PInt, FnPtr, Obj, Agg)): return None
        if ty.kind == 'int' and ty.w == 1: return simp(z3.If(c, B(s.asbool(a)), B(s.asbool(b))))
        w = ty.w
        if s.mode == "bv": return simp(z3.If(c, s.bvc(a, w), s.bvc(b, w)))
        return simp(z3.If(c, B_int(s.asint(a)), B_int(s.asint(b))))

    def step(s, f, st, env, I):
        op = I.op; V = lambda o: s.val(st, env, o)
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
            return s.binop(st, op, V(I.ops[0]), V(I.ops[1]), I.ty.w, bool(I.x))
        if op == 'alloca':
            n = V(I.ops[0])
            if not isinstance(n, int): raise Unsupported("variable-length alloca")
            p = s.new_cells(st, I.x.size * n, f"local {f.dname.split('(')[0][-40:]}")
            env['#allocas'] = env.get('#allocas', ()) + (p.r,)
            return p
        if op == 'load': return s.load(st, V(I.ops[0]), I.ty)
        if op == 'store': s.store(st, V(I.ops[1]), I.x, V(I.ops[0])); return None
        if op == 'gep': return s.gep(st, V(I.ops[0]), I.x, [s.gidx(o, V(o)) for o in I.ops[1:]])
        if op == 'icmp': return s.icmp(st, I.x[0], V(I.ops[0]), V(I.ops[1]), I.x[1])
        if op == 'trunc':
            v = V(I.ops[0]); w = I.ty.w; W = I.x.w
            if isinstance(v, Undef): return s.fresh(st, w, "undef")
            if isinstance(v, PInt): raise Unsupported("pointer truncation")
            v = s.asint(v, W)
            if w == 1:
                if isinstance(v, int): return bool(v & 1)
                if s.mode == "bv": return simp(z3.Extract(0, 0, v) == 1)
                return simp(v == 1) if s.q(st, v <= 1) else simp(v % 2 == 1)
            if isinstance(v, int): return v % (1 << w)
            if s.mode == "bv": return simp(z3.Extract(w - 1, 0, v))
            if s.q(st, v < (1 << w)): return v
            return simp(v % (1 << w))
        if op == 'zext':
            v = V(I.ops[0])
            if isinstance(v, Undef): v = s.fresh(st, I.x.w, "undef")
            v = s.asint(v, I.ty.w) if I.x.w == 1 else v
            if isinstance(v, int): return v
            if s.mode == "bv" and I.x.w > 1: return simp(z3.ZeroExt(I.ty.w - I.x.w, v))
            return v
        if op == 'sext':
            v = V(I.ops[0])
            if isinstance(v, Undef): v = s.fresh(st, I.x.w, "undef")
            W = I.ty.w; w = I.x.w
            if w == 1:
                v = s.asbool(v)
                if isinstance(v, bool): return (1 << W) - 1 if v else 0
                if s.mode == "bv": return z3.If(v, z3.BitVecVal(-1, W), z3.BitVecVal(0, W))
                return z3.If(v, z3.IntVal((1 << W) - 1), z3.IntVal(0))
            if isinstance(v, int): return (v - (1 << w) if v >= 1 << (w - 1) else v) % (1 << W)
            if s.mode == "bv": return simp(z3.SignExt(W - w, v))
            if s.q(st, v < (1 << (w - 1))): return v
            return simp(z3.If(v >= (1 << (w - 1)), v + ((1 << W) - (1 << w)), v))
        if op == 'ptrtoint': 
            v = V(I.ops[0])
            if isinstance(v, Ptr) and v.r is None: return v.i
            return PInt(v)
        if op == 'inttoptr':
            v = V(I.ops[0])
            if isinstance(v, PInt): return v.p
            if isinstance(v, int): return Ptr(None, v)
            return s.sym_ptr(st, v)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            v = V(I.ops[0])
            if op == 'freeze' and isinstance(v, Undef) and I.ty.kind == 'int': return s.fresh(st, I.ty.w, "undef")
            return v
        if op == 'extractvalue':
            v = V(I.ops[0])
            for i in I.x:
                if isinstance(v, Undef): return Undef()
                v = v.v[i]
            return v
        if op == 'insertvalue':
            v = V(I.ops[0]); x = V(I.ops[1])
            if isinstance(v, Undef): v = s.undef_agg(I.ty)
            def put(a, path):
                l = list(a.v)
                l[path[0]] = x if len(path) == 1 else put(l[path[0]] if not isinstance(l[path[0]], Undef) else None, path[1:])
                return Agg(l)
            return put(v, I.x)
        if op == 'landingpad': return env['#lp']
        if op == 'fence': return None
        if op == 'atomicrmw':
            p = V(I.ops[0]); v = V(I.ops[1]); old = s.load(st, p, I.ty)
            o = {0: lambda: v, 1: lambda: s.binop(st, 'add', old, v, I.ty.w), 2: lambda: s.binop(st, 'sub', old, v, I.ty.w)}.get(I.x)
            if o is None: raise Unsupported("atomicrmw op")
            s.store(st, p, I.ty, o()); return old
        if op == 'cmpxchg':
            p, c, n = (V(o) for o in I.ops[:3])
            ty = I.ty.els[0]
            old = s.load(st, p, ty)
            e = s.icmp(st, 'eq', old, c, ty)
            if e is True: s.store(st, p, ty, n)
            elif e is not False: raise Unsupported("symbolic cmpxchg")
            return Agg([old, e])
        if op in ('fadd','fsub','fmul','fdiv','fneg','fpext','fptrunc','sitofp','uitofp'):
            return s.fresh(st, I.ty.w, op)
        if op in ('fptosi', 'fptoui'): return s.fresh(st, I.ty.w, op)
        if op == 'fcmp': return z3.Bool(f"fcmp!{fresh_id()}")
        raise Unsupported(f"instruction {op} in {f.dname}")

    # ---------------- exceptions
    STD_BASES = {"_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
                 "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
                 "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
                 "_ZTISt20bad_optional_access": "_ZTISt9exception", "_ZTISt12system_error": "_ZTISt13runtime_error",
                 "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc"}
    def ti_bases(s, t):
        if t in s.STD_BASES: return [s.STD_BASES[t]]
        if t not in s.m.globals: return []
        init, ty, _ = s.m.global_init(t)
        if init is None or init[0] != 'agg': return []
        res = []
        for x in init[1][2:]:
            if x[0] == 'g' and x[1].startswith('_ZTI'): res.append(x[1])
        return res
    def ti_derived(s, t, base):
        if t == base: return True
        return any(s.ti_derived(b, base) for b in s.ti_bases(t))
    def typeid(s, name): return s.typeids.setdefault(name, len(s.typeids) + 1)
    def unwind(s, f, st, env, b, lpblk, exc, A):
        lp = next(i for i in f.blocks[lpblk].ins if i.op == 'landingpad')
        sel = None
        for c in lp.x[0]:
            if c[0] == 'null': sel = s.typeid('...'); break
            if c[0] == 'g':
                if exc.tinfo == '*any*': raise Unsupported("catch of an unknown exception")
                if exc.tinfo is not None and s.ti_derived(exc.tinfo, c[1]): sel = s.typeid(c[1]); break
            elif c[0] in ('agg', 'zeroarr'):   # filter (noexcept)
                s.oblige(st, False, "exception-escapes-noexcept"); return
        if sel is None:
            if not lp.x[1]:
                A[1].append((st, exc, env)); return
            sel = 0
        env['#lp'] = Agg([Obj('exc', exc=exc), sel]); env['#exc'] = exc
        s.go(f, st, env, b, lpblk, *A)

    # ---------------- calls
    def do_call(s, f, st, env, I):
        callee, byval, nd, ud, tys = I.x
        if callee == ('asm',): raise Unsupported("inline asm")
        target = s.val(st, env, callee)
        args = [s.val(st, env, o) for o in I.ops]
        if isinstance(target, (Ptr, Obj)) :
            if isinstance(target, Ptr) and target.r is None and s.int_ptrs and s.fn_call is not None: target = Obj('fnval', v=target.i)
            if isinstance(target, Ptr) and target.r is None:
                s.oblige(st, False, "call-through-null"); return []
            if isinstance(target, Obj) and target.kind == 'fnval' and s.fn_call is not None:
                c = Call(); c.name = c.dname = "(function value)"; c.args = args; c.tys = tys; c.ret_ty = I.ty; c.fn = None; c.instr = I
                r = s.fn_call(s, st, target.v, args, c)
                return r if isinstance(r, list) else [(st, Ret(r))]
            raise Unsupported(f"indirect call through {target!r}")
        if not isinstance(target, FnPtr): raise Unsupported(f"indirect call through {target!r}")
        return s.call_named(st, target.name, args, byval, tys, I.ty, I)
    def call_named(s, st, name, args, byval={}, tys=None, ret_ty=None, I=None):
        F = s.m.funcs.get(name)
        if name.startswith('llvm.'): return s.intrinsic(st, name, args, I)
        for j, sz in byval.items():
            p = s.new_cells(st, sz, "byval"); s.memcpy(st, p, args[j], sz); args = list(args); args[j] = p
        dname = F.dname if F else IR.demangle(name)
        c = Call(); c.name = name; c.dname = dname; c.args = args; c.tys = tys; c.ret_ty = ret_ty; c.fn = F; c.instr = I
        for label, fn in s.find_contracts(name, dname):
            r = fn(s, st, args, c)
            if r is not NOTHANDLED:
                s.used_contracts[label] = s.used_contracts.get(label, 0) + 1
                if isinstance(r, list): return r
                return [(st, Ret(r))]
        if F is not None and F.defined: return s.call_fn(st, F, args)
        raise Unsupported(f"no contract and no body for {dname}")
    def find_contracts(s, name, dname):
        """contracts in order of precedence; one that does not handle a call leaves it to the next, and last to the body"""
        cache = s.__dict__.setdefault('_cc', {})
        if name not in cache: cache[name] = [(label or rx.pattern, fn) for rx, fn, label in s.contracts if rx.search(dname) or rx.search(name)]
        return cache[name]
    def contract(s, rx, fn, label=None):
        if s.std_installed: s.contracts.insert(0, (re.compile(rx), fn, label))
        else: s.contracts.append((re.compile(rx), fn, label))
        s.__dict__.pop('_cc', None)
    def intrinsic(s, st, name, args, I):
        R = lambda v=None: [(st, Ret(v))]
        n = name.split('.')
        if n[1] in ('lifetime', 'dbg', 'experimental', 'donothing', 'prefetch', 'sideeffect', 'invariant'): return R()
        if n[1] == 'assume': return R()
        if n[1] == 'threadlocal': return R(args[0])
        if n[1] in ('memcpy', 'memmove'): s.memcpy(st, args[0], args[1], args[2]); return R()
        if n[1] == 'memset':
            p, v, k = s.resolve(st, args[0]), args[1], args[2]
            big = st.mem.get(p.r) if isinstance(p, Ptr) else None
            if isinstance(k, int) and not (k > 16 and big is not None and big.kind == 'a' and big.stride == 1):
                Rg = s.check_access(st, p, k, True) if k else None
                if Rg is not None and Rg.kind == 'c' and isinstance(p.i, int):
                    W = st.wr(p.r)
                    for o in [o for o in W.cells if o >= p.i and o + W.cells[o][0] <= p.i + k]: del W.cells[o]
                    o = 0
                    while o < k:
                        m = 8 if (k - o >= 8 and (p.i + o) % 8 == 0) else 4 if (k - o >= 4 and (p.i + o) % 4 == 0) else 1
                        vv = v * (0x0101010101010101 & ((1 << 8 * m) - 1)) if isinstance(v, int) else s.compose(st, [(v, 1)] * m)
                        s.cells_write(st, W, p.i + o, m, vv); o += m
                    return R()
                for o in range(k): s.store_raw(st, s.padd(st, p, o, 1), 1, v)
                return R()
            Rg = s.chk_range(st, p, k, True)
            if Rg is None: return R()
            if Rg.kind != 'a' or Rg.stride != 1: raise Unsupported("symbolic memset")
            W = st.wr(p.r); m, A = W.fields[0]
            NA = s.fresh_array(8, "memset"); j = z3.Int(f"j!{fresh_id()}")
            fn = lambda j: z3.If(z3.And(j >= p.i, j < p.i + k), B_int(v), z3.Select(A, j))
            define_array(NA, fn)
            st.assume(z3.ForAll([j], z3.Select(NA, j) == fn(j), patterns=[z3.Select(NA, j)]))
            W.fields[0] = (m, NA); return R()
        if n[1] == 'eh' and n[2] == 'typeid':
            g = args[0]
            for nm, rid in s.gregions.items():
                if rid == g.r: return R(s.typeid(nm))
            raise Unsupported("typeid")
        if n[1] in ('umax', 'umin', 'smax', 'smin'):
            ty = I.ty
            c = s.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n[1]], args[0], args[1], ty)
            if isinstance(c, bool): return R(args[0] if c else args[1])
            return R(s.merge(st, c, args[0], args[1], ty))
        if n[1] in ('fshl', 'fshr'):
            w = I.ty.w; a, b, c = args
            if s.mode == "bv" and isinstance(c, int):
                c %= w
                if c == 0: return R(a if n[1] == 'fshl' else b)
                cc = z3.Concat(s.bvc(a, w), s.bvc(b, w))
                return R(simp(z3.Extract(2 * w - 1 - c, w - c, cc) if n[1] == 'fshl' else z3.Extract(w - 1 + c, c, cc)))
            if s.mode == "bv":
                x, y = s.bvc(a, w), s.bvc(b, w); cb = s.bvc(c, w)
                if x.eq(y): return R(z3.RotateLeft(x, cb) if n[1] == 'fshl' else z3.RotateRight(x, cb))
            raise Unsupported("funnel shift")
        if n[1] == 'bswap':
            w = I.ty.w; k = w // 8
            a = args[0]
            return R(s.compose(st, [(s.extract(st, a, k, k - 1 - i, 1), 1) for i in range(k)]))
        if n[1] == 'expect': return R(args[0])
        if n[1] == 'objectsize': return R(I64 - 1)
        if n[1] == 'is' and n[2] == 'constant': return R(False)
        if n[1] == 'trap': s.oblige(st, False, "trap"); return []
        if n[1] in ('uadd', 'umul', 'sadd', 'usub', 'ssub', 'smul') and n[2] == 'with':
            w = I.ty.els[0].w
            a, b = args
            if n[1][0] == 'u' and s.mode == 'int':
                t = a + b if n[1] == 'uadd' else a * b if n[1] == 'umul' else a - b
                t = simp(t)
                ov = simp(Or(t < 0, t >= (1 << w))) if is_sym(t) else not (0 <= t < (1 << w))
                return R(Agg([s.wrap(st, t, w), ov]))
            if isinstance(a, int) and isinstance(b, int):
                t = {'add': a + b, 'mul': a * b, 'sub': a - b}[n[1][1:]]
                return R(Agg([t % (1 << w), not (0 <= t < (1 << w))]))
        if n[1] == 'stacksave': return R(NULL)
        if n[1] == 'stackrestore': return R()
        if n[1] in ('ctpop','ctlz','cttz') and isinstance(args[0], int):
            a = args[0]; w = I.ty.w
            if n[1] == 'ctpop': return R(bin(a).count('1'))
            if n[1] == 'ctlz': return R(w - a.bit_length())
            return R(w if a == 0 else (a & -a).bit_length() - 1)
        if n[1] in ('ctpop','ctlz','cttz','abs'): return R(s.fresh(st, I.ty.w, n[1]))
        raise Unsupported(f"intrinsic {name}")

    # ---------------- loops
    def cut_loop(s, f, h, st, env, prev):
        from loops import cut_loop
        return cut_loop(s, f, h, st, env, prev)

class _NH: pass
NOTHANDLED = _NH()
def B_int(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x
