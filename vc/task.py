"""Proof tasks: one task = one function (or driver) under contract, run with NeedCut restarts."""
import time, traceback, re, sys
import z3
from core import *
from exec import Exec, B_int, Obligation, NOTHANDLED, I64
import lib as L
import ir as IR

class Task:
    """subclass/instances: name, functions, setup(ex, st)->(fname,args), post(ex, [(st,outcome)])"""
    def __init__(s, name, fn, mode="int", timeout_ms=20000, budget=240, covers=True, weight=1, thorough=False, **kw):
        s.weight = weight; s.kw_thorough = thorough
        s.name = name; s.fn = fn; s.mode = mode; s.timeout_ms = timeout_ms; s.budget = budget; s.kw = kw; s.covers = covers

def find_fn(mod, rx):
    r = [f for f in mod.funcs.values() if f.defined and re.search(rx, f.dname)]
    if len(r) != 1: raise Unsupported(f"{len(r)} functions match {rx}: {[f.dname for f in r][:4]}")
    return r[0].name

def cover(ex, st, label):
    """vacuity guard: the assumptions on this path must be satisfiable (no contradiction is found, quantified facts included)"""
    ok = ex.pr.feasible(st.pc, True) and ex.pr.prove(st.pc, z3.BoolVal(False), timeout=ex.cover_ms)[0] != 'proved'
    ex.covers.append((label, ok))
    if not ok: ex.obls.append(Obligation(f"{ex.name}/cover:{label}", 'unknown', 'z3', 'vacuous: the precondition excludes every input'))

def run_task(mod, task, debug=0):
    """-> dict result"""
    t0 = time.time()
    cut = set(); inv = {}; tot = 0
    restarts = 0; scouting = True
    while True:
        ex = Exec(mod, task.name, mode=task.mode, timeout_ms=task.timeout_ms, **task.kw)
        import core; core.reset_ids()
        ex.pr.log = 0.5 if debug > 2 else 0
        ex.cutset = set(cut); ex.debug = debug; ex.covers = []
        ex.deadline = t0 + task.budget; ex.pr.deadline = t0 + task.budget + 30
        L.install_std(ex); ex.std_installed = True
        if scouting: ex.scout = ex.suppress = 1
        res = dict(task=task.name, mode=task.mode)
        try:
            task.fn(ex)
            if scouting: scouting = False; continue
            status = 'ok'; msg = ''
        except NeedCut as e:
            cut.add(e.key); restarts += 1; inv = ex.inv_store; tot += ex.pr.time
            if restarts > 60: status = 'unsupported'; msg = 'too many restarts'
            else: continue
        except Unsupported as e:
            if scouting: scouting = False; continue
            status = 'unsupported'; msg = str(e)
            if debug: traceback.print_exc(limit=-9 if debug > 1 else -4); print('   in', ' > '.join(x.split('(')[0][-60:] for x in ex.err_stack[-6:]))
        except Infeasible:
            if scouting: scouting = False; continue
            status = 'ok'; msg = 'infeasible'
        except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as e:
            status = 'unsupported'; msg = f"internal: {type(e).__name__}: {e}"
            if debug: traceback.print_exc(limit=-9 if debug > 1 else -4); print('   in', ' > '.join(x.split('(')[0][-60:] for x in ex.err_stack[-6:]))
        break
    if status == 'ok' and not ex.obls: status = 'unsupported'; msg = 'no obligation was generated'
    res.update(status=status, message=msg[:600], obligations=[o.json() for o in ex.obls], functions=sorted(ex.inlined),
               assumed=sorted(ex.used_contracts), covers=ex.covers, solver_s=round(ex.pr.time + tot, 2), queries=ex.pr.nq + ex.pr.nfull,
               wall_s=round(time.time() - t0, 2), paths=ex.paths, loops_cut=len(cut), assumptions=sorted(ex.assumptions))
    return res

def summary(res):
    bad = [o for o in res['obligations'] if o['status'] != 'proved']
    print(f"{res['task']}: {res['status']} {res['message']} obligations {len(res['obligations'])} failed {len(bad)} wall {res['wall_s']}s solver {res['solver_s']}s covers {res['covers']}")
    for o in bad[:12]: print("   ", o['status'], o['name'], o['detail'][:300])
