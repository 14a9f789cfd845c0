#!/usr/bin/env python3
"""check.py <property>: discharge the property's proof obligations from /repo's current source, then run the
bounded replay harness; writes evidence/<property>.json.  Exit 0: held; 1: VIOLATION."""
import sys, os, json, time, subprocess, tempfile, shutil, re, importlib, threading, queue, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, "vc")]
VT = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(VT): VT = shutil.which("python3-vt") or sys.executable
import plan
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CXX): CXX = shutil.which("clang++") or "clang++"
NFLAGS = ["-std=c++17", "-fno-rtti", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,pointer-overflow", "-fno-sanitize-recover=all"]
NFLAGS0 = ["-std=c++17", "-fno-rtti", "-O1", "-w"]

def short_names(fs):
    """template arguments of long names are left out, so that the evidence stays readable; one line per function template then, with its number of instances"""
    n = {}
    for f in fs:
        if len(f) > 200:
            while True:
                g = re.sub(r"<[^<>]*>", "[..]", f)
                if g == f: break
                f = g
            f = f[:200]
        n[f] = n.get(f, 0) + 1
    return [f if k == 1 else f"{f} ({k} instances)" for f, k in sorted(n.items())]
def native_build(prop, work, sanitize=True):
    src = f"{V}/native/{prop}.cpp"
    first = open(src).readline()
    m = re.match(r"//\s*link:\s*(.*)", first)
    stems = m.group(1).split() if m else "string_adapters io_adapters errors registry dynamic_base_class".split()
    srcs = [src] + [f"{REPO}/src/arpc/{x}.cpp" for x in stems]
    objs = []; ps = []
    for k, f in enumerate(srcs):
        o = f"{work}/n{k}.o"; objs.append(o)
        ps.append(subprocess.Popen([CXX, *(NFLAGS if sanitize else NFLAGS0), f"-I{REPO}/src", f"-I{V}/drivers/stub", "-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    logs = [(p.communicate()[0], p.returncode) for p in ps]
    bad = [l for l, r in logs if r]
    if bad: return None, "\n".join(bad)[-6000:]
    exe = f"{work}/native"
    p = subprocess.run([CXX, *(NFLAGS if sanitize else NFLAGS0), *objs, "-o", exe, "-pthread"], capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-6000:]
    return exe, ""

def run_native(exe, budget, seed, work):
    env = dict(os.environ, VERIF_SEED=str(seed))
    d = os.path.join(work, "cwd"); os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([exe, str(budget)], capture_output=True, env=env, cwd=d, timeout=budget * 5 + 200)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b"").decode(errors="replace")
        return 124, o + "\nFAILING-CASE harness timed out: some operation does not terminate\n", ""

def native_part(prop, cfg, work, budget, seed, res):
    t0 = time.time()
    w = os.path.join(work, "nat"); os.makedirs(w)
    exe, log = native_build(prop, w)
    res["build_s"] = round(time.time() - t0, 1)
    if exe is None: res["status"] = "build-failed"; res["log"] = log; return
    res["exe"] = exe
    rc, out, err = run_native(exe, budget, seed, w)
    res["wall_s"] = round(time.time() - t0, 1)
    res["known"] = re.findall(r"^KNOWN (\S+) (.*)$", out, re.M)
    m = re.search(r"ORACLE-OK evaluations=(\d+) distinct=(\d+)", out)
    if rc == 0 and m:
        res["status"] = "ok"; res["evaluations"] = int(m.group(1)); res["distinct"] = int(m.group(2))
        res["samples"] = re.findall(r"^SAMPLE (.*)$", out, re.M)[:12]
    else:
        res["status"] = "failed"; res["rc"] = rc
        res["log"] = out[-4000:] + "\n--- stderr\n" + err[:6000]
        f = re.search(r"^FAILING-CASE (.*)$", out, re.M)
        res["case"] = f.group(1)[:1500] if f else f"harness ended with status {rc}"

def proof_part(cfg, work, tier, out):
    """-> out['tasks']: list of task results"""
    import build
    jobs = []; out["tasks"] = []; out["extract"] = []
    mods = {}
    for module, rx in cfg["proofs"]:
        tm = importlib.import_module("tasks." + module)
        for T in tm.TASKS:
            if re.search(rx, T.name) and (tier == "thorough" or not T.kw_thorough): jobs.append((module, tm.DRIVER, tuple(getattr(tm, "FLAGS", ())), T))
    drivers = sorted({(j[1], j[2]) for j in jobs})
    bcs = {}
    def ext(d):
        w = os.path.join(work, "x" + re.sub(r"\W", "_", d[0])); os.makedirs(w, exist_ok=True)
        t0 = time.time()
        try: bcs[d] = build.extract(f"{V}/drivers/{d[0]}", w, extra=d[1]); out["extract"].append(dict(driver=d[0], ok=True, s=round(time.time() - t0, 1)))
        except Exception as e: bcs[d] = None; out["extract"].append(dict(driver=d[0], ok=False, log=str(e)[-3000:]))
    th = [threading.Thread(target=ext, args=(d,)) for d in drivers]
    for t in th: t.start()
    for t in th: t.join()
    jobs.sort(key=lambda j: -j[3].weight)
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    def one(j, scale=1.0):
        module, drv, fl, T = j
        bc = bcs[(drv, fl)]
        blank = dict(task=T.name, mode=T.mode, obligations=[], functions=[], assumed=[], covers=[], solver_s=0, queries=0, wall_s=0, paths=0, loops_cut=0, assumptions=[], ir="")
        if bc is None: return dict(blank, status="unsupported", message="extraction failed: the driver no longer compiles against /repo")
        o = os.path.join(work, T.name + ".json")
        try:
            p = subprocess.run([VT, f"{V}/vc/worker.py", bc, "tasks." + module, T.name, o, str(scale)], capture_output=True, text=True, timeout=T.budget * scale + 180)
            if p.returncode == 0: return json.load(open(o))
            return dict(blank, status="unsupported", message="worker died: " + p.stderr[-400:])
        except subprocess.TimeoutExpired:
            return dict(blank, status="unsupported", message="time budget exceeded")
    out["redo"] = one
    def loop():
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            r = one(j); r["job"] = j
            with lock: out["tasks"].append(r)
    ws = [threading.Thread(target=loop) for _ in range(min(7, max(1, len(jobs))))]
    for t in ws: t.start()
    for t in ws: t.join()

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = plan.PROPS[prop]
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    rc = 1
    try: rc = check(prop, tier, seed, cfg, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def check(prop, tier, seed, cfg, work, t0):
    budget = int(os.environ.get("VERIF_NATIVE_S", 0)) or cfg.get("native_s", 20) * (6 if tier == "thorough" else 1)
    nat = {}; prf = {}
    nt = threading.Thread(target=native_part, args=(prop, cfg, work, budget, seed, nat)); nt.start()
    perr = None
    if cfg["proofs"]:
        try: proof_part(cfg, work, tier, prf)
        except Exception as e: perr = f"{type(e).__name__}: {e}"
    nt.join()
    tasks = prf.get("tasks", [])
    base = json.load(open(f"{V}/baseline.json")) if os.path.exists(f"{V}/baseline.json") else {}
    failed = []; undecided = []
    for r in list(tasks):
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        same_code = r["ir"] and base.get(r["task"], {}).get("ir") == r["ir"]
        if (bad or r["status"] != "ok") and base.get(r["task"], {}).get("proved") and (same_code or bad and all("timeout" in o["detail"] or "deadline" in o["detail"] for o in bad)):
            # proved before on this very code, or the solver ran out of time: once more, alone and with more time
            if time.time() - t0 < 420:
                r2 = prf["redo"](r["job"], 2.0); r2["job"] = r["job"]; tasks[tasks.index(r)] = r2; r = r2
                bad = [o for o in r["obligations"] if o["status"] != "proved"]
                same_code = r["ir"] and base.get(r["task"], {}).get("ir") == r["ir"]
        if r["status"] != "ok" and not bad: undecided.append((r, r["message"])); continue
        if bad and same_code and base[r["task"]].get("proved") and all(o["status"] == "unknown" for o in bad):
            undecided.append((r, "solver budget exceeded on code that is unchanged since it was proved")); continue
        if bad: failed.append((r, bad))
        elif r["status"] != "ok": undecided.append((r, r["message"]))
    known = {}
    kf = f"{V}/known-findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: known[(m.group(1), m.group(2))] = m.group(3).strip()
    viol = []
    if nat.get("status") == "failed": viol.append(("native", nat["case"]))
    if nat.get("status") == "build-failed": viol.append(("build", "the harness, which uses only the public interface, no longer compiles against /repo"))
    seen = set()
    for k, txt in nat.get("known", []):
        if (prop, k) in known:
            if k not in seen: print(f"KNOWN-FINDING: property={prop} {k}: {known[(prop, k)]}")
            seen.add(k)
        else: viol.append(("native", f"{k}: {txt}"))
    obls = [o for r in tasks for o in r["obligations"]]
    proved = [o for o in obls if o["status"] == "proved"]
    be = {}
    for o in proved: be[o["backend"]] = be.get(o["backend"], 0) + 1
    nviol = len(viol) + sum(len(b) for _, b in failed)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], wall_s=round(time.time() - t0, 1), violations=nviol,
        assumptions=sorted({a for r in tasks for a in r["assumed"]} | {a for r in tasks for a in r["assumptions"]} | set(cfg.get("assumptions", []))),
        coverage=dict(
            obligations=len(obls), discharged=len(proved), checker_cmd=f"cd /verif && VERIF_TIER={tier} python3-vt check.py {prop}",
            trusted_base=["clang 18 front end and the sroa/instsimplify/simplifycfg passes (C++ to LLVM IR)", "/verif/vc (symbolic executor, loop and call rules, obligation generator)", "z3 5.x (python)"] + cfg.get("trusted", []),
            discharged_by_backend=be, solver_s=round(sum(r["solver_s"] for r in tasks), 1),
            functions_under_contract=short_names({f for r in tasks for f in r["functions"]}),
            proof_tasks=[dict(task=r["task"], status=r["status"], obligations=len(r["obligations"]), discharged=sum(o["status"] == "proved" for o in r["obligations"]),
                              loops_under_invariant=r["loops_cut"], wall_s=r["wall_s"], solver_s=r["solver_s"], covers=r["covers"], message=r["message"][:300]) for r in tasks],
            undecided=[dict(task=r["task"], why=w[:400]) for r, w in undecided], proof_error=perr,
            extraction=prf.get("extract", []),
            open_obligations=[o["name"] for _, b in failed for o in b],
            bounded_part=dict(what="native replay harness compiled from /repo's sources with ASan+UBSan; bounded, not counted as proved", harness=f"native/{prop}.cpp", status=nat.get("status"), seconds=budget),
            evaluations=nat.get("evaluations", 0), distinct_nontrivial=nat.get("distinct", 0),
            rule=cfg.get("rule", "cases of the bounded harness: enumerated small inputs plus seeded random ones, compared with an independent oracle; distinct by section and input text"),
            samples=nat.get("samples", []) + [o["name"] for o in proved[:3]], explanation=cfg.get("explanation", "")))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    if os.environ.get("VERIF_BASELINE"):
        for r in tasks:
            base[r["task"]] = dict(ir=r["ir"], proved=r["status"] == "ok" and all(o["status"] == "proved" for o in r["obligations"]), obligations=len(r["obligations"]))
        json.dump(base, open(f"{V}/baseline.json", "w"), indent=1, sort_keys=True)
    print(f"{prop} [{tier}]: {len(proved)}/{len(obls)} obligations discharged in {len(tasks)} tasks ({ev['coverage']['solver_s']} s solver), {len(undecided)} tasks undecided; bounded harness: {nat.get('status')} {nat.get('evaluations', 0)} cases; {ev['wall_s']} s")
    for r, w in undecided: print(f"  undecided: {r['task']}: {w[:200]}")
    if perr: print("  proof part did not run:", perr)
    if not nviol: return 0
    d = f"{V}/evidence/replay"; os.makedirs(d, exist_ok=True)
    rp = f"{d}/{prop}.txt"
    with open(rp, "w") as f:
        if viol:
            f.write(f"property {prop}: failing case on the real code\n")
            for k, c in viol: f.write(f"{k}: {c}\n")
            f.write(f"\nreplay: cd /verif && VERIF_SEED={seed} python3-vt check.py {prop}   (harness native/{prop}.cpp, budget {budget} s)\n\n")
            f.write(nat.get("log", "") + "\n")
        for r, bad in failed:
            f.write(f"\nfailed obligations of proof task {r['task']}\n")
            for o in bad: f.write(f"  {o['status']}: {o['name']}\n      {o['detail']}\n")
    for r, bad in failed:
        for o in bad[:4]: print(f"  failed obligation ({o['status']}): {o['name']}")
    for k, c in viol: print(f"  failing case: {c[:400]}")
    found = any(k == "native" for k, _ in viol)
    print(f"VIOLATION property={prop} replay={rp}" + ("" if found else " no-failing-input-found"))
    return 1
main()
