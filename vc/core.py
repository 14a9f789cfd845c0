"""Contract-based deductive verifier over LLVM IR: values, memory, states, prover."""
import z3, time, itertools, re

class Unsupported(Exception):
    """The verifier cannot treat this construct: an extraction break, not a verdict."""
class NeedCut(Exception):
    def __init__(s, key): s.key = key
class Infeasible(Exception): pass

_cnt = itertools.count()
def fresh_id(): return next(_cnt)
def reset_ids():
    global _cnt
    _cnt = itertools.count(); ADEFS.clear(); _exp_memo.clear()

class Ptr:
    """region, element index (int or Int term), byte offset within the element, generation"""
    __slots__ = ("r", "i", "b", "g")
    def __init__(s, r, i=0, b=0, g=0): s.r = r; s.i = i; s.b = b; s.g = g
    def __repr__(s): return f"Ptr({s.r},{s.i},{s.b})"
NULL = Ptr(None)
class FnPtr:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return f"Fn({s.name})"
    def __eq__(s, o): return isinstance(o, FnPtr) and o.name == s.name
    def __hash__(s): return hash(s.name)
class Undef:
    __slots__ = ("ty",)
    def __init__(s, ty=None): s.ty = ty
    def __repr__(s): return "undef"
class Agg:
    __slots__ = ("v",)
    def __init__(s, v): s.v = tuple(v)
    def __repr__(s): return f"Agg{s.v}"
class PInt:
    """a pointer converted to an integer"""
    __slots__ = ("p",)
    def __init__(s, p): s.p = p
    def __repr__(s): return f"PInt({s.p})"
class Obj:
    """ghost library object stored in memory (std::string, std::vector, ...): kind + payload.
    immutable; payload values are ints/terms/region ids"""
    __slots__ = ("kind", "f")
    def __init__(s, kind, **f): s.kind = kind; s.f = f
    def __getattr__(s, k):
        try: return s.f[k]
        except KeyError: raise AttributeError(k)
    def set(s, **kw): return Obj(s.kind, **{**s.f, **kw})
    def __repr__(s): return f"<{s.kind} {s.f}>"

class Region:
    """cells region (stride 1, concrete offsets) or array region (symbolic length)"""
    __slots__ = ("id", "kind", "size", "alive", "cells", "stride", "fields", "gen", "name", "dyn", "zero", "ro", "sub")
    def copy(s):
        r = Region.__new__(Region)
        for k in Region.__slots__: setattr(r, k, getattr(s, k))
        return r
def cell_region(id, size, name="", zero=False, ro=False):
    r = Region(); r.id = id; r.kind = 'c'; r.size = size; r.alive = True; r.cells = {}; r.stride = 1
    r.fields = None; r.gen = 0; r.name = name; r.dyn = None; r.zero = zero; r.ro = ro; r.sub = None
    return r
def arr_region(id, stride, length, fields, name=""):
    """fields: {byte offset: (nbytes, z3 Array or python list of arrays)}"""
    r = Region(); r.id = id; r.kind = 'a'; r.size = length; r.alive = True; r.cells = None; r.stride = stride
    r.fields = fields; r.gen = 0; r.name = name; r.dyn = None; r.zero = False; r.ro = False; r.sub = None
    return r

class State:
    __slots__ = ("mem", "pc", "ghost", "depth")
    def __init__(s): s.mem = {}; s.pc = []; s.ghost = {}; s.depth = 0
    def clone(s):
        n = State.__new__(State); n.mem = dict(s.mem); n.pc = list(s.pc); n.ghost = dict(s.ghost); n.depth = s.depth
        return n
    def assume(s, f):
        if f is True: return
        if f is False: s.pc.append(z3.BoolVal(False)); return
        s.pc.append(f)
    def wr(s, rid):
        """writable copy of region"""
        r = s.mem[rid].copy()
        if r.cells is not None: r.cells = dict(r.cells)
        if r.fields is not None: r.fields = dict(r.fields)
        s.mem[rid] = r
        return r

class Ret:
    __slots__ = ("v",)
    def __init__(s, v=None): s.v = v
    def __repr__(s): return f"Ret({s.v})"
class Throw:
    __slots__ = ("tinfo", "obj")
    def __init__(s, t, o): s.tinfo = t; s.obj = o
    def __repr__(s): return f"Throw({s.tinfo})"

def is_sym(x): return isinstance(x, z3.ExprRef)
def has_quant(f, memo={}):
    k = f.get_id()
    if k in memo: return memo[k][1]
    seen = set(); st = [f]; r = False
    while st:
        e = st.pop()
        if z3.is_quantifier(e): r = True; break
        i = e.get_id()
        if i in seen: continue
        seen.add(i); st.extend(e.children())
    memo[k] = (f, r)
    return r

def B(x):
    return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))
def And(*a):
    l = []
    for x in a:
        if x is True: continue
        if x is False: return False
        l.append(x)
    if not l: return True
    return l[0] if len(l) == 1 else z3.And(*l)
def Not(x):
    if x is True: return False
    if x is False: return True
    return z3.Not(x)
def Or(*a):
    l = []
    for x in a:
        if x is False: continue
        if x is True: return True
        l.append(x)
    if not l: return False
    return l[0] if len(l) == 1 else z3.Or(*l)
def Implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(a, B(b))
def FA(vs, body, *pats):
    """ForAll with those patterns that are admissible triggers"""
    ok = []
    for p in pats:
        ts = p if isinstance(p, (list, tuple)) else [p]
        if all(z3.is_app(t) and t.num_args() > 0 and (t.decl().kind() != z3.Z3_OP_SELECT or t.arg(0).num_args() == 0) for t in ts):
            ok.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)
def simp(x):
    if not is_sym(x): return x
    y = z3.simplify(x)
    if z3.is_int_value(y): return y.as_long()
    if z3.is_bv_value(y): return y.as_long()
    if z3.is_true(y): return True
    if z3.is_false(y): return False
    return y

ADEFS = {}   # id of a defined array constant -> (constant, definition function)
def define_array(A, fn): ADEFS[A.get_id()] = (A, fn)
_exp_memo = {}
def expand(e):
    """replace reads of defined arrays (and of stores) by their definitions; quantifier bodies untouched"""
    if not is_sym(e): return e
    k = e.get_id()
    h = _exp_memo.get(k)
    if h is not None and h[0].eq(e): return h[1]
    if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0: r = e
    else:
        ch = [expand(c) for c in e.children()]
        if e.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2: r = read(ch[0], ch[1])
        elif any(not a.eq(b) for a, b in zip(ch, e.children())): r = e.decl()(*ch)
        else: r = e
    _exp_memo[k] = (e, r)
    return r
def read(A, i):
    d = ADEFS.get(A.get_id())
    if d is not None and d[0].eq(A):
        r = d[1](i)
        return expand(r if is_sym(r) else z3.IntVal(r))
    if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
        a, j, v = A.children()
        c = z3.simplify(i == j)
        if z3.is_true(c): return v
        if z3.is_false(c): return read(a, i)
        return z3.If(c, v, read(a, i))
    if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(A.arg(0), read(A.arg(1), i), read(A.arg(2), i))
    return z3.Select(A, i)
def skolem(g):
    """goal -> list of quantifier-stripped conjuncts (hypotheses, goal)"""
    out = []
    def go(g, hyps):
        if z3.is_and(g):
            for c in g.children(): go(c, hyps)
        elif z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const(f"sk!{fresh_id()}", g.var_sort(i)) for i in range(g.num_vars())]
            go(z3.substitute_vars(g.body(), *reversed(vs)), hyps)
        elif z3.is_implies(g): go(g.arg(1), hyps + [expand(g.arg(0))])
        else:
            out.append((hyps, expand(g)))
    go(g, [])
    return out

MAXGEN = 3
MAXINST = 6000
def witness_terms(g):
    """the integer unknowns of a goal, and the places just before and after"""
    out = []; st = [g]; seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.sort() == z3.IntSort() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(e)
        st.extend(e.children())
    out = sorted(out, key=str)[:8]
    return [y for x in out for y in (x, x - 1, x + 1)]
class Prover:
    """Incremental solver with own trigger-based instantiation of quantified facts: every query is
    quantifier-free; what it cannot prove goes to z3's e-matching, then cvc5."""
    def __init__(s, timeout_ms=20000):
        s.q = z3.SimpleSolver(); s.q.set("timeout", 4000); s.stack = []; s.trail = []
        s.timeout = timeout_ms; s.time = 0.0; s.nq = 0; s.nfull = 0; s.ninst = 0
        s.axioms = []; s.last_reason = ""; s.deadline = None; s.log = 0; s.cache = {}
        s.terms = {}      # head key -> list of (arg, gen)
        s.tset = set(); s.quants = []; s.done = set(); s.seen = set(); s.alias = {}
        s.keep = []
    # ---- instantiation engine
    def head(s, e):
        """(key, args) of an application that can trigger"""
        k = e.decl().kind()
        if k == z3.Z3_OP_SELECT and e.num_args() == 2: return ('a', e.arg(0).get_id()), (e.arg(1),)
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0: return ('f', e.decl().get_id()), tuple(e.children())
        return None
    def collect(s, e, gen, new):
        st = [e]
        while st:
            e = st.pop()
            i = e.get_id()
            if i in s.seen: continue
            s.seen.add(i); s.trail.append(('seen', i)); s.keep.append(e)
            if z3.is_quantifier(e) or not z3.is_app(e): continue
            if e.num_args() == 0: continue
            h = s.head(e)
            if h is not None:
                key, args = h
                args = tuple(z3.simplify(a) for a in args)
                tk = (key, tuple(a.get_id() for a in args))
                if tk not in s.tset and not any(has_var(a) for a in args):
                    s.tset.add(tk); s.trail.append(('t', tk, key))
                    s.terms.setdefault(key, []).append((args, gen)); new.append((key, args, gen)); s.keep.append(args)
            st.extend(e.children())
    def add_quant(s, q, new):
        """ForAll with explicit patterns of applications to bound variables"""
        n = q.num_vars(); pats = []
        for pi in range(q.num_patterns()):
            p = q.pattern(pi)
            pat = []
            for t in p.children():
                h = s.head(t)
                if h is None: pat = None; break
                key, args = h
                if not all(z3.is_var(a) or not has_var(a) for a in args): pat = None; break
                pat.append((key, args))
            if pat: pats.append(pat)
        if not pats: return
        ent = (q, n, pats, fresh_id())
        s.quants.append(ent); s.trail.append(('q',))
        for pat in pats: s.match(ent, pat, None, new)
    def match(s, ent, pat, must, new):
        """instantiate along all matches (one of the terms being `must`)"""
        q, n, _, uid = ent
        def rec(k, sub, gen, used):
            if k == len(pat):
                if must is not None and not used: return
                if any(x is None for x in sub) or gen >= MAXGEN: return
                dk = (uid, tuple(x.get_id() for x in sub))
                if dk in s.done or s.ninst_level > MAXINST: return
                s.done.add(dk); s.trail.append(('d', dk)); s.keep.append(tuple(sub))
                b = z3.substitute_vars(q.body(), *reversed(sub))
                s.ninst += 1; s.ninst_level += 1
                s.pending.append((b, gen + 1)); return
            key, pargs = pat[k]
            cands = s.terms.get(key, ())
            for ci in range(len(cands)):
                args, g = cands[ci]
                sub2 = list(sub); ok = True
                for pa, a in zip(pargs, args):
                    if z3.is_var(pa):
                        vi = n - 1 - z3.get_var_index(pa)
                        if sub2[vi] is None: sub2[vi] = a
                        elif not sub2[vi].eq(a): ok = False; break
                    elif not pa.eq(a): ok = False; break
                if not ok: continue
                u = used or (must is not None and key == must[0] and args is must[1])
                rec(k + 1, sub2, max(gen, g), u)
        rec(0, [None] * n, 0, False)
    def assert_ground(s, f):
        """assert a fact (expanded), collecting terms, instantiating quantifiers to saturation"""
        s.pending = [(f, 0)]; s.ninst_level = 0
        while s.pending:
            f, gen = s.pending.pop(0)
            if z3.is_and(f):
                s.pending[:0] = [(c, gen) for c in f.children()]; continue
            if z3.is_quantifier(f):
                if f.is_forall(): s.add_quant(f, None)
                continue
            if has_quant(f):
                # guarded quantifier: (not c) or forall
                if z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_forall() and not has_quant(f.arg(0)):
                    q = f.arg(1)
                    vs = [z3.Const(f"gq!{fresh_id()}", q.var_sort(i)) for i in range(q.num_vars())]
                    body = z3.Implies(f.arg(0), z3.substitute_vars(q.body(), *reversed(vs)))
                    pats = [z3.MultiPattern(*[z3.substitute_vars(t, *reversed(vs)) for t in q.pattern(pi).children()]) for pi in range(q.num_patterns())]
                    s.pending.insert(0, (z3.ForAll(vs, body, patterns=pats), gen))
                continue
            g = expand(f)
            if gen: g = z3.simplify(g)
            if z3.is_true(g): continue
            if z3.is_and(g) and gen:
                s.pending[:0] = [(c, gen) for c in g.children()]; continue
            s.q.add(g)
            new = []
            s.collect(g, gen, new)
            for t in new:
                for ent in s.quants:
                    for pat in ent[2]:
                        if any(k == t[0] for k, _ in pat): s.match(ent, pat, (t[0], t[1]), None)
    def push(s, f):
        s.q.push(); s.trail.append('mark'); s.stack.append(f); s.assert_ground(f)
    def pop(s):
        s.q.pop(); s.stack.pop()
        while True:
            u = s.trail.pop()
            if u == 'mark': return
            if u[0] == 'seen': s.seen.discard(u[1])
            elif u[0] == 't': s.tset.discard(u[1]); s.terms[u[2]].pop()
            elif u[0] == 'q': s.quants.pop()
            elif u[0] == 'd': s.done.discard(u[1])
    def _sync(s, facts):
        k = 0; n = min(len(facts), len(s.stack))
        while k < n and s.stack[k].eq(facts[k]): k += 1
        while len(s.stack) > k: s.pop()
        for f in facts[k:]: s.push(f)
        if not s.stack: s.keep = []
    def _check(s, extra):
        t = time.time(); s.nq += 1
        s.push(extra)
        r = s.q.check()
        m = None
        if r == z3.sat and s.want_model: m = s.q.model()
        s.pop(); d = time.time() - t; s.time += d
        if s.log and d > s.log: print(f"    [slow {d:.1f}s {r} inst {s.ninst_level}] {str(extra)[:200]!r}")
        s.model = m
        return r
    def _ematch(s, facts, g, ms):
        """z3 with trigger-based quantifier instantiation (a fresh solver: incremental ones lose themselves)"""
        t = time.time(); s.nq += 1
        for n, (seed, part) in enumerate(((0, .25), (7, .25), (23, .5))):
            z = z3.SimpleSolver(); z.set("smt.mbqi", False); z.set("auto_config", False); z.set("timeout", int(ms * part))
            z.set("smt.arith.solver", 6); z.set("smt.random_seed", seed)
            for f in (facts if n != 1 else reversed(facts)): z.add(f)
            z.add(z3.Not(g)); r = z.check()
            if r != z3.unknown or z.reason_unknown() not in ("timeout", "canceled"): break
        d = time.time() - t; s.time += d
        if s.log and d > s.log: print(f"    [slow em {d:.1f}s {r}] {str(g)[:200]!r}")
        return r
    want_model = False
    z = None
    g = None
    def _ground(s, facts, c):
        """the quantifier-free facts alone: -> check result of facts and c"""
        t = time.time(); s.nq += 1
        if s.g is None: s.g = z3.SimpleSolver(); s.g.set("timeout", 2000); s.gstack = []
        k = 0; n = min(len(facts), len(s.gstack))
        while k < n and s.gstack[k].eq(facts[k]): k += 1
        if len(s.gstack) > k: s.g.pop(len(s.gstack) - k); del s.gstack[k:]
        for f in facts[k:]:
            s.g.push(); s.gstack.append(f)
            if not has_quant(f): s.g.add(expand(f))
        s.g.push(); s.g.add(expand(c)); r = s.g.check(); s.g.pop()
        d = time.time() - t; s.time += d
        if s.log and d > s.log: print(f"    [slow ground {d:.1f}s {r}] {str(c)[:200]!r}")
        return r
    def facts(s, pc): return list(s.axioms) + [f for f in pc if is_sym(f)]
    def feasible(s, pc, c):
        """may the condition hold? (over-approximation)"""
        if c is False: return False
        if c is True: c = z3.BoolVal(True)
        F = s.facts(pc)
        if s._ground(F, c) == z3.unsat: return False
        if not any(has_quant(f) for f in F): return True
        return s._ematch(F, z3.Not(c), 600) != z3.unsat
    def quick(s, pc, g):
        """cheap proof attempt"""
        if g is True: return True
        if g is False: g = z3.BoolVal(False)
        if has_quant(g): return False
        F = s.facts(pc)
        r = s._ground(F, z3.Not(g))
        if r == z3.unsat: return True
        if not any(has_quant(f) for f in F): return False
        return s._ematch(F, g, 400) == z3.unsat
    def prove(s, pc, g, timeout=None, want_model=False):
        """-> ('proved'|'refuted'|'unknown', backend, model)"""
        if g is True: return ('proved', 'trivial', None)
        if s.deadline and time.time() > s.deadline:
            s.last_reason = "task deadline"; return ('unknown', 'z3', None)
        if g is False: g = z3.BoolVal(False)
        key = (tuple(f.get_id() for f in pc if is_sym(f)), g.get_id(), timeout is None)
        if key in s.cache: return s.cache[key][0]
        r = ('proved', 'trivial', None)
        for hyps, gg in skolem(g):
            r1 = s._prove(pc, hyps, gg, timeout)
            if r1[0] != 'proved': r = r1; break
            if r[1] == 'trivial' or r1[1] != 'z3': r = r1
        s.cache[key] = (r, list(pc), g)
        return r
    def _prove(s, pc, hyps, g, timeout):
        facts = s.facts(pc) + list(hyps)
        if has_quant(g) or any(has_quant(f) for f in facts):
            r = s._ematch(facts, g, min(timeout, 1500) if timeout is not None else 3000)
            if r == z3.unsat: return ('proved', 'z3/e-matching', None)
            if timeout is not None: return ('unknown', 'z3', None)
        s._sync(facts)
        s.want_model = timeout is None
        r = s._check(z3.Not(g)) if not has_quant(g) else z3.unknown
        s.want_model = False
        if r == z3.unsat: return ('proved', 'z3', None)
        m = s.model
        quantified = any(has_quant(f) for f in facts)
        if r == z3.sat and not quantified: return ('refuted', 'z3', m)
        if timeout is not None: return ('unknown', 'z3', None)
        s.last_reason = "no proof after instantiating the quantified facts" if r == z3.sat else "solver timeout"
        # final obligations only: the quantified facts at the places the goal speaks of
        if not has_quant(g) and r == z3.sat:
            ts = witness_terms(g)
            insts = [z3.simplify(z3.substitute_vars(q[0].body(), x)) for q in s.quants if q[1] == 1 and q[0].var_sort(0) == z3.IntSort() for x in ts]
            if insts and len(insts) < 2000:
                r2 = s._check(z3.And(z3.Not(g), *insts))
                if r2 == z3.unsat: return ('proved', 'z3', None)
        # full quantifier engines
        for attempt, seed in enumerate((0, 11)):
            t = time.time(); s.nfull += 1
            sol = z3.SimpleSolver() if attempt == 0 else z3.Solver()
            sol.set("timeout", int(s.timeout)); sol.set("smt.mbqi", False); sol.set("smt.random_seed", seed)
            sol.set("auto_config", False)
            for f in facts: sol.add(f)
            sol.add(z3.Not(g))
            r2 = sol.check(); s.time += time.time() - t
            if s.log and time.time() - t > s.log: print(f"    [slow full {time.time()-t:.1f}s {r2}] {str(g)[:200]!r}")
            if r2 == z3.unsat: return ('proved', 'z3/e-matching', None)
        return ('unknown', 'z3', m)

_hv = {}
def has_var(e):
    k = e.get_id()
    h = _hv.get(k)
    if h is not None and h[0].eq(e): return h[1]
    r = True if z3.is_var(e) else any(has_var(c) for c in e.children()) if z3.is_app(e) else True
    _hv[k] = (e, r)
    return r
