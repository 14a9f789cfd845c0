"""Loop contracts: cut points with invariants filtered from a candidate pool (Houdini),
and termination measures."""
import z3, time, os
from core import *

def B_int(x): return z3.IntVal(int(x)) if isinstance(x, (int, bool)) else x

class Var:
    """one loop-modified location"""
    __slots__ = ("key", "kind", "init", "cur", "w", "region")
    def __init__(s, key, kind, init, cur, w=64, region=None):
        s.key = key; s.kind = kind; s.init = init; s.cur = cur; s.w = w; s.region = region

class View:
    """what a candidate invariant may talk about: value of each location at loop entry and now"""
    def __init__(s, ex, fn, h, st0, vars, n, st):
        s.ex = ex; s.fn = fn; s.h = h; s.st0 = st0; s.vars = vars; s.n = n; s.st = st
    def ints(s): return [v for v in s.vars if v.kind in ('int', 'ptr', 'len', 'gint')]
    def arrays(s): return [v for v in s.vars if v.kind == 'arr']
    def cur(s, key):
        for v in s.vars:
            if v.key == key: return v.cur
    def region_len(s, rid): return s.st.mem[rid].size

def phi_items(ex, f, h, st, env, prev):
    return [(ph, ex.val(st, env, ph.ops[prev])) for ph in f.blocks[h].phis]

def same(a, b):
    if a is b: return True
    if type(a) is not type(b):
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            a, b = B_int(a) if isinstance(a, int) else a, B_int(b) if isinstance(b, int) else b
            return a.sort() == b.sort() and a.eq(b)
        return False
    if isinstance(a, z3.ExprRef): return a.sort() == b.sort() and a.eq(b)
    if isinstance(a, Ptr): return a.r == b.r and a.b == b.b and a.g == b.g and same(a.i, b.i)
    if isinstance(a, FnPtr): return a.name == b.name
    if isinstance(a, Obj): return a.kind == b.kind and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Agg): return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Undef): return True
    if isinstance(a, PInt): return same(a.p, b.p)
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

def diff(st0, st1, base):
    """keys of locations that differ between st0 and st1 (regions existing in base only)"""
    ks = set()
    for rid, R0 in st0.mem.items():
        if rid not in base.mem: continue
        R1 = st1.mem.get(rid)
        if R1 is None or R1 is R0: continue
        if R1.alive != R0.alive: raise Unsupported("object lifetime changes in a loop")
        if not same(R0.size, R1.size): ks.add(('len', rid))
        if R0.gen != R1.gen: ks.add(('gen', rid))
        if R0.kind == 'c':
            for o in set(R0.cells) | set(R1.cells):
                a, b = R0.cells.get(o), R1.cells.get(o)
                if a is None or b is None: ks.add(('cell', rid, o, (a or b)[0]))
                elif a[0] != b[0]: ks.add(('cell', rid, o, max(a[0], b[0])))
                elif not same(a[1], b[1]): ks.add(('cell', rid, o, a[0]))
        else:
            for b in R0.fields:
                if R1.fields[b][1] is not R0.fields[b][1] and not same(R0.fields[b][1], R1.fields[b][1]): ks.add(('arr', rid, b))
    for g in set(st0.ghost) | set(st1.ghost):
        a, b = st0.ghost.get(g), st1.ghost.get(g)
        if not same(a, b): ks.add(('ghost', g))
    return ks

def cut_loop(ex, f, h, st, env, prev):
    loopset = f.loops[h]
    phis = phi_items(ex, f, h, st, env, prev)
    key = (f.name, h, tuple(ex.stack))
    label = f"loop@{f.dname.split('(')[0]}#{sorted(f.loops).index(h)}"
    modified = {m for m in ex.inv_store.get(('mod',) + key, set()) if m[0] == 'ghost' or m[1] in st.mem}
    st_entry = st
    import core

    def havoc(mods):
        """-> state, env, vars"""
        st1 = st_entry.clone(); env1 = dict(env); vars = []
        for idx, (ph, v) in enumerate(phis):
            nm = f"phi{idx}"
            if ph.ty.kind == 'int':
                if isinstance(v, PInt):
                    raise Unsupported("pointer-integer loop variable")
                if ph.ty.w == 1:
                    c = ex.fresh(st1, 1, nm); vars.append(Var(('phi', ph.id), 'bool', ex.asbool(v) if not isinstance(v, Undef) else z3.Bool(f"u!{fresh_id()}"), c, 1))
                else:
                    if isinstance(v, Undef): v = ex.fresh(st1, ph.ty.w, 'undef')
                    c = ex.fresh(st1, ph.ty.w, nm); vars.append(Var(('phi', ph.id), 'int', v, c, ph.ty.w))
                env1[ph.id] = c
            elif ph.ty.kind == 'ptr':
                if not isinstance(v, Ptr) or v.r is None:
                    # stays unchanged? keep and check on the back edge
                    env1[ph.id] = v; vars.append(Var(('phi', ph.id), 'const', v, v)); continue
                c = z3.Int(f"{nm}!{fresh_id()}")
                p = Ptr(v.r, c, v.b, v.g)
                env1[ph.id] = p; vars.append(Var(('phi', ph.id), 'ptr', v.i, c, 64, v.r))
            else:
                raise Unsupported(f"loop variable of type {ph.ty}")
        for m in sorted(mods, key=str):
            if m[0] == 'cell':
                _, rid, o, n = m
                R0 = st_entry.mem[rid]
                old = ex.cells_read(st_entry, R0, o, n)
                W = st1.wr(rid)
                if isinstance(old, Ptr) and old.r is not None:
                    c = z3.Int(f"m{rid}_{o}!{fresh_id()}")
                    ex.cells_write(st1, W, o, n, Ptr(old.r, c, old.b, old.g))
                    vars.append(Var(m, 'ptr', old.i, c, 64, old.r))
                elif isinstance(old, (Ptr, FnPtr, Obj, Agg)):
                    raise Unsupported(f"loop modifies a non-scalar location ({old!r}) in {f.dname}")
                else:
                    if isinstance(old, Undef):   # scratch space: unknown at the loop head
                        for o2 in [o2 for o2 in W.cells if o2 < o + n and o2 + W.cells[o2][0] > o]: del W.cells[o2]
                        continue
                    c = ex.fresh(st1, 8 * n, f"m{rid}_{o}")
                    ex.cells_write(st1, W, o, n, c)
                    vars.append(Var(m, 'int', ex.asint(old, 8 * n), c, 8 * n))
            elif m[0] == 'arr':
                _, rid, b = m
                W = st1.wr(rid); nb, A = W.fields[b]
                NA = ex.fresh_array(8 * nb, f"A{rid}_{b}")
                W.fields[b] = (nb, NA)
                vars.append(Var(m, 'arr', A, NA, 8 * nb, rid))
            elif m[0] == 'len':
                _, rid = m
                W = st1.wr(rid); c = z3.Int(f"len{rid}!{fresh_id()}"); st1.assume(c >= 0); st1.assume(c < (1 << 62))
                vars.append(Var(m, 'len', W.size, c, 64, rid)); W.size = c
            elif m[0] == 'gen':
                W = st1.wr(m[1]); W.gen = ('loop', fresh_id())
            elif m[0] == 'ghost':
                g = m[1]; old = st_entry.ghost[g]
                if is_sym(old) or isinstance(old, int):
                    if isinstance(old, int) or old.sort() == z3.IntSort():
                        c = z3.Int(f"g_{g}!{fresh_id()}"); vars.append(Var(m, 'gint', old, c)); st1.ghost[g] = c
                    else:
                        c = z3.Const(f"g_{g}!{fresh_id()}", old.sort()); vars.append(Var(m, 'gterm', old, c)); st1.ghost[g] = c
                        if z3.is_array(old): vars[-1].kind = 'arr'; vars[-1].region = None
                else:
                    hv = ex.havoc_ghost(g, old) if hasattr(ex, 'havoc_ghost') else None
                    if hv is None: raise Unsupported(f"loop modifies ghost {g}")
                    st1.ghost[g] = hv
        return st1, env1, vars

    def at_backedge(st2, env2, b, vars, mods):
        """current values of vars on a back edge"""
        cur = []
        for v in vars:
            k = v.key
            if k[0] == 'phi':
                ph = next(p for p, _ in phis if p.id == k[1])
                x = ex.val(st2, env2, ph.ops[b])
                if v.kind == 'ptr':
                    if not isinstance(x, Ptr) or x.r != v.region: raise Unsupported("loop pointer leaves its object")
                    x = x.i
                elif v.kind == 'const':
                    if not same(x, v.init): raise Unsupported("loop pointer without invariant object")
                elif v.kind == 'bool': x = ex.asbool(x) if not isinstance(x, Undef) else z3.Bool(f"u!{fresh_id()}")
                elif isinstance(x, Undef): x = ex.fresh(st2, v.w, 'undef')
                elif isinstance(x, PInt): raise Unsupported("pointer-integer loop variable")
                else: x = ex.asint(x, v.w)
            elif k[0] == 'cell':
                x = ex.cells_read(st2, st2.mem[k[1]], k[2], k[3])
                if v.kind == 'ptr':
                    if not isinstance(x, Ptr) or x.r != v.region: raise Unsupported("loop pointer leaves its object")
                    x = x.i
                elif isinstance(x, Undef): x = ex.fresh(st2, v.w, 'undef')
                else: x = ex.asint(x, v.w)
            elif k[0] == 'arr': x = st2.mem[k[1]].fields[k[2]][1]
            elif k[0] == 'len': x = st2.mem[k[1]].size
            else: x = st2.ghost[k[1]]
            cur.append(Var(k, v.kind, v.init, x, v.w, v.region))
        return cur

    def run_body(mods, assume_fn):
        mark = fresh_id()
        st1, env1, vars = havoc(mods)
        n = z3.Int(f"n!{fresh_id()}"); st1.assume(n >= 0)
        view = View(ex, f, h, st_entry, vars, n, st1); view.mark = mark
        st_start = st1.clone()
        for g in assume_fn(view):
            if g is not True: st1.assume(B(g))
        view.npc = len(st1.pc)
        outs, backs, exits = ex.run_blocks(f, [(st1, env1, h, '#cut')], h, loopset)
        return st_start, view, outs, backs, exits

    # 1. locations modified by the body
    ex.suppress += 1; ex.scout += 1
    try:
        for _ in range(12):
            st_s, view, outs, backs, exits = run_body(modified, lambda v: [])
            new = set()
            for st2, env2, b in backs: new |= diff(st_s, st2, st_entry)
            for st2, o, e in outs: pass
            new = norm_keys(new | modified)
            if new <= modified: break
            modified = new
        else: raise Unsupported("loop frame does not stabilise")
    finally:
        ex.suppress -= 1; ex.scout -= 1
    ex.inv_store[('mod',) + key] = modified
    if ex.scout:
        st_s, view, outs, backs, exits = run_body(modified, lambda v: [])
        return outs, exits
    outer = ex.cutting
    if not outer:
        for k in [k for k in ex.inv_store if k[0] == 'inv']: del ex.inv_store[k]
    ex.cutting = outer + 1
    try:
        return cut_loop2(ex, f, h, st, env, prev, st_entry, phis, key, label, modified, havoc, at_backedge, run_body, view, backs)
    finally: ex.cutting = outer

def cut_loop2(ex, f, h, st, env, prev, st_entry, phis, key, label, modified, havoc, at_backedge, run_body, view, backs):

    # 2. candidates
    st1, env1, vars0 = havoc(modified)
    n0 = z3.IntVal(0)
    init_vars = [Var(v.key, v.kind, v.init, v.init, v.w, v.region) for v in vars0]
    view0 = View(ex, f, h, st_entry, init_vars, n0, st_entry)
    # one sample iteration gives the constant steps
    steps = {}
    for vi, v in enumerate(view.vars):
        if v.kind not in ('int', 'ptr', 'len', 'gint'): continue
        ds = set()
        for st2, env2, b in backs:
            c = at_backedge(st2, env2, b, view.vars, modified)[vi]
            if isinstance(c.cur, Undef) or not isinstance(c.cur, (int, z3.ExprRef)):
                if ex.debug: print("odd", v.key, v.kind, v.cur, c.cur)
                ds.add(None); continue
            d = simp(B_int(c.cur) - B_int(v.cur))
            ds.add(d if isinstance(d, int) else None)
        if len(ds) == 1 and None not in ds: steps[v.key] = ds.pop()
    cands = auto_candidates(ex, view0, steps)
    cands += map_candidates(ex, view, backs, at_backedge, modified, steps)
    # loop-invariant terms the loop guards compare against
    guards = []
    for st2, env2, b in backs:
        for fct in st2.pc[view.npc:]:
            for t in sorted(bound_terms(fct), key=str):
                if not z3.is_int_value(t) and older(t, view.mark) and not any(t.eq(x) for x in guards): guards.append(t)
    if ex.debug > 1: print("  guards", label, [str(t)[:60] for t in guards])
    for gi, t in enumerate(guards[:16]):
        for v in view0.ints():
            kn = kname(v.key, view0)
            cands.append((f"{kn}<=guard{gi}", lambda vw, k=v.key, t=t: B_int(next(x.cur for x in vw.vars if x.key == k)) <= t))
    for gen in ex.loop_cands: cands += gen(view0)
    prevset = ex.inv_store.get(('inv',) + key)
    if prevset is not None and prevset <= {c[0] for c in cands}: cands = [c for c in cands if c[0] in prevset]
    live = []
    t0 = time.time()
    for lab, fn in cands:
        try: g = fn(view0)
        except KeyError: continue
        if g is None: continue
        g = simp(B(g)) if not isinstance(g, bool) else g
        if g is True: live.append((lab, fn)); continue
        if g is False: continue
        if ex.pr.prove(st_entry.pc, g, timeout=ex.inv_ms)[0] == 'proved': live.append((lab, fn))
    # 3. Houdini
    rounds = 0
    while True:
        rounds += 1
        def asm(v): return [fn(v) for _, fn in live]
        ex.suppress += 1
        try:
            st_s, view, outs, backs, exits = run_body(modified, asm)
        finally: ex.suppress -= 1
        grew = set()
        for st2, env2, b in backs: grew |= diff(st_s, st2, st_entry)
        if not norm_keys(grew | modified) <= modified:
            raise Unsupported("loop frame grew")
        drop = set()
        for st2, env2, b in backs:
            cur = at_backedge(st2, env2, b, view.vars, modified)
            v2 = View(ex, f, h, st_entry, cur, view.n + 1, st2)
            for lab, fn in live:
                if lab in drop: continue
                g = fn(v2)
                if g is True: continue
                g = simp(B(g))
                if g is True: continue
                if g is False: drop.add(lab); continue
                r = ex.pr.prove(st2.pc, g, timeout=ex.inv_ms)
                if r[0] != 'proved':
                    drop.add(lab)
                    if ex.debug and os.environ.get('VCDUMP') == f"{label}:{rounds}:{lab}":
                        S = z3.Solver(); [S.add(B(x)) for x in st2.pc]; S.add(z3.Not(g)); open('/tmp/q.smt2', 'w').write(S.to_smt2()); print('DUMP', r); raise SystemExit
        if ex.debug: print(f"  [houdini] {label} round {rounds}: {len(live)} live, drop {len(drop)}", sorted(drop)[:200] if ex.debug > 1 else "")
        if not drop: break
        live = [(l, fn) for l, fn in live if l not in drop]
    ex.inv_store[('inv',) + key] = {l for l, _ in live}
    # 4. final run with obligations on
    st_s, view, outs, backs, exits = run_body(modified, lambda v: [fn(v) for _, fn in live])
    if not ex.suppress:
        from exec import Obligation
        for lab, _ in live:
            ex.obls.append(Obligation(f"{ex.name}/{ex.where()}/{label}/inv:{lab}", 'proved', 'z3', 'established and preserved'))
    if ex.debug: print("  [loop]", label, "invariants:", [l for l, _ in live])
    # 5. termination
    if not ex.no_term and backs:
        ok = find_measure(ex, f, h, st_entry, view, backs, at_backedge, modified)
        if not ex.suppress:
            from exec import Obligation
            ex.obls.append(Obligation(f"{ex.name}/{ex.where()}/{label}/terminates", 'proved' if ok else 'unknown', 'z3', ok or 'no decreasing measure found'))
    return outs, exits

def norm_keys(ks):
    """merge overlapping cell keys"""
    cells = sorted([k for k in ks if k[0] == 'cell'], key=lambda k: (k[1], k[2], -k[3]))
    res = {k for k in ks if k[0] != 'cell'}
    cur = None
    for k in cells:
        if cur and k[1] == cur[1] and k[2] < cur[2] + cur[3]:
            if k[2] + k[3] > cur[2] + cur[3]: cur = ('cell', cur[1], cur[2], k[2] + k[3] - cur[2])
        else:
            if cur: res.add(cur)
            cur = k
    if cur: res.add(cur)
    return res

def auto_candidates(ex, view0, steps):
    c = []
    iv = view0.ints()
    # interesting upper bounds: lengths of live array regions and entry-constant ints
    bounds = {}
    for rid, R in view0.st0.mem.items():
        if R.kind == 'a' and R.alive and ('len', rid) not in {v.key for v in view0.vars}:
            bounds[f"len{rid}"] = R.size
    for b in ex.bound_hints:
        for k, t in b(view0).items(): bounds[k] = t
    def get(view, key):
        for v in view.vars:
            if v.key == key: return v
    for v in iv:
        k = v.key; kn = kname(k, view0)
        if k in steps:
            d = steps[k]
            c.append((f"{kn}==init+{d}n", lambda vw, k=k, d=d: B_int(get(vw, k).cur) == B_int(get(vw, k).init) + d * vw.n))
        c.append((f"{kn}>=init", lambda vw, k=k: B_int(get(vw, k).cur) >= B_int(get(vw, k).init)))
        c.append((f"{kn}<=init", lambda vw, k=k: B_int(get(vw, k).cur) <= B_int(get(vw, k).init)))
        c.append((f"{kn}>=0", lambda vw, k=k: B_int(get(vw, k).cur) >= 0))
        for bn, bt in bounds.items():
            c.append((f"{kn}<={bn}", lambda vw, k=k, bt=bt: B_int(get(vw, k).cur) <= bt))
    for x in range(len(iv)):
        for y in range(len(iv)):
            if x == y: continue
            a, b = iv[x].key, iv[y].key
            an, bn = kname(a, view0), kname(b, view0)
            if x < y:
                c.append((f"{an}-{bn}==const", lambda vw, a=a, b=b: B_int(get(vw, a).cur) - B_int(get(vw, b).cur) == B_int(get(vw, a).init) - B_int(get(vw, b).init)))
                c.append((f"{an}+{bn}==const", lambda vw, a=a, b=b: B_int(get(vw, a).cur) + B_int(get(vw, b).cur) == B_int(get(vw, a).init) + B_int(get(vw, b).init)))
            c.append((f"{an}<={bn}", lambda vw, a=a, b=b: B_int(get(vw, a).cur) <= B_int(get(vw, b).cur)))
    for v in view0.arrays():
        k = v.key; kn = kname(k, view0)
        c.append((f"{kn} unchanged", lambda vw, k=k: get(vw, k).cur == get(vw, k).init))
        for x in iv:
            xk = x.key; xn = kname(xk, view0)
            def below(vw, k=k, xk=xk):
                j = z3.Int(f"j!{fresh_id()}"); a = get(vw, k)
                return FA([j], z3.Implies(j < B_int(get(vw, xk).cur), z3.Select(a.cur, j) == z3.Select(a.init, j)), z3.Select(a.cur, j))
            def above(vw, k=k, xk=xk):
                j = z3.Int(f"j!{fresh_id()}"); a = get(vw, k)
                return FA([j], z3.Implies(j >= B_int(get(vw, xk).cur), z3.Select(a.cur, j) == z3.Select(a.init, j)), z3.Select(a.cur, j))
            def below_init(vw, k=k, xk=xk):
                j = z3.Int(f"j!{fresh_id()}"); a = get(vw, k)
                return FA([j], z3.Implies(j < B_int(get(vw, xk).init), z3.Select(a.cur, j) == z3.Select(a.init, j)), z3.Select(a.cur, j))
            if not ex.no_frames:
                c.append((f"{kn} same below {xn}", below)); c.append((f"{kn} same from {xn}", above)); c.append((f"{kn} same below {xn}.init", below_init))
    return c

def map_candidates(ex, view, backs, at_backedge, modified, steps):
    """what an iteration stores, as a function of its number, is what all iterations so far have stored"""
    c = []; seen = set(); subs = []; N = z3.Int("N!0")
    for v in view.vars:
        if v.kind in ('int', 'ptr', 'len', 'gint') and z3.is_expr(v.cur) and v.key in steps: subs.append((v.cur, B_int(v.init) + steps[v.key] * N))
        elif v.kind == 'arr' and z3.is_expr(v.init): subs.append((v.cur, v.init))
    if not subs: return c
    for st2, env2, b in backs:
        now = at_backedge(st2, env2, b, view.vars, modified)
        for v, w in zip(view.vars, now):
            if v.kind != 'arr': continue
            a = w.cur; depth = 0
            while z3.is_store(a) and depth < 9:
                a, idx, val = a.children(); depth += 1
                idx = z3.simplify(z3.substitute(idx, *subs)); val = z3.simplify(z3.substitute(val, *subs))
                at0 = z3.simplify(z3.substitute(idx, (N, z3.IntVal(0)))); d = z3.simplify(z3.substitute(idx, (N, N + 1)) - idx)
                if not z3.is_int_value(d) or abs(d.as_long()) != 1 or not older(z3.substitute(val, (N, z3.IntVal(0))), view.mark) or not older(at0, view.mark) or has_quant(val): continue
                d = d.as_long(); tag = (str(v.key), at0.get_id(), d, val.get_id())
                if tag in seen: continue
                seen.add(tag); keep.append((at0, val))
                def fn(vw, k=v.key, at0=at0, d=d, val=val):
                    cur = next(x.cur for x in vw.vars if x.key == k); j = z3.Int(f"j!{fresh_id()}"); i = (j - at0) * d
                    return FA([j], z3.Implies(z3.And(i >= 0, i < vw.n), z3.Select(cur, j) == z3.substitute(val, (N, i))), z3.Select(cur, j))
                c.append((f"{kname(v.key, view)} stored #{len(c)}", fn))
    return c
keep = []
def has_quant(e):
    st = [e]; done = set()
    while st:
        e = st.pop()
        if e.get_id() in done: continue
        done.add(e.get_id())
        if z3.is_quantifier(e): return True
        st.extend(e.children())
    return False
def kname(k, view):
    """stable readable name of a location within one loop"""
    if k[0] == 'phi': return f"phi{[v.key for v in view.vars].index(k)}"
    if k[0] == 'cell': return f"mem{k[1]}+{k[2]}"
    if k[0] == 'arr': return f"arr{k[1]}.{k[2]}"
    if k[0] == 'len': return f"len{k[1]}"
    return f"ghost:{k[1]}"

def find_measure(ex, f, h, st_entry, view, backs, at_backedge, mods):
    iv = view.ints()
    curs = []
    for st2, env2, b in backs: curs.append((st2, {v.key: v for v in at_backedge(st2, env2, b, view.vars, mods)}))
    def try_m(name, m):
        for st2, c in curs:
            old = m({v.key: v for v in view.vars}); new = m(c)
            d = simp(B_int(old) - new)
            if isinstance(d, int) and d <= 0: return None
            if ex.pr.prove(st2.pc, z3.And(old >= 0, new < old), timeout=2000)[0] != 'proved':
                return None
        return name
    cand = []
    thr = view.mark
    for v in iv:
        cand.append((f"decreasing {kname(v.key, view)}", lambda d, k=v.key: B_int(d[k].cur)))
    bounds = []
    for rid, R in st_entry.mem.items():
        if R.kind == 'a' and R.alive and ('len', rid) not in {v.key for v in view.vars}: bounds.append((f"len{rid}", R.size))
    for b in ex.bound_hints: bounds += list(b(view).items())
    for v in iv:
        for bn, bt in bounds:
            cand.append((f"{bn}+1-{kname(v.key, view)}", lambda d, k=v.key, bt=bt: B_int(bt) + 1 - B_int(d[k].cur)))
        for u in iv:
            if u is not v: cand.append((f"{kname(u.key, view)}-{kname(v.key, view)}", lambda d, k=v.key, u=u.key: B_int(d[u].cur) - B_int(d[k].cur)))
    for mk in ex.termination: cand += mk(view)
    # comparisons against entry-constant values held in phis/cells of the exit test
    for v in iv:
        ups = set()
        for st2, _ in curs:
            for fct in st2.pc[view.npc:]:
                ups |= bound_terms(fct)
        for t in [t for t in ups if older(t, thr)][:12]:
            cand.append((f"bound-{kname(v.key, view)}", lambda d, k=v.key, t=t: t - B_int(d[k].cur)))
    for name, m in cand:
        r = try_m(name, m)
        if r: return r
    return None

def bound_terms(f):
    """integer terms occurring in comparisons"""
    out = set(); st = [f]
    while st:
        e = st.pop()
        if not z3.is_expr(e) or z3.is_quantifier(e): continue
        if z3.is_le(e) or z3.is_lt(e) or z3.is_ge(e) or z3.is_gt(e):
            for c in e.children():
                if c.sort() == z3.IntSort() : out.add(c)
        if z3.is_bool(e): st.extend(e.children())
    return out

def older(t, thr):
    """every symbol of t was created before the loop was entered (so t is loop-invariant)"""
    st = [t]; seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): return False
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if '!' in nm:
                try:
                    if int(nm.rsplit('!', 1)[1]) >= thr: return False
                except ValueError: return False
        st.extend(e.children())
    return True
