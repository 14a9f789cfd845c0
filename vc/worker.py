"""run one proof task: worker.py <bitcode> <task module> <task name> <out.json> [scale]"""
import sys, os, json, importlib, hashlib, resource, re
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
def ir_hash(mod, dnames):
    """hash of the canonical text of every function body the proof went through"""
    import ir
    h = hashlib.sha256()
    by = {}
    for f in mod.funcs.values():
        if f.defined: by.setdefault(f.dname, []).append(f)
    for d in sorted(dnames):
        for f in by.get(d, []):
            t = ir.PrintVal(f.ref).decode(errors="replace")
            t = re.sub(r"#\d+", "#", t); t = re.sub(r"![\w.]+( !\d+)?", "!", t)
            h.update(t.encode())
    return h.hexdigest()[:20]
def main():
    bc, module, name, out = sys.argv[1:5]
    scale = float(sys.argv[5]) if len(sys.argv) > 5 else 1.0
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    from task import run_task
    import ir
    tm = importlib.import_module(module)
    T = next(t for t in tm.TASKS if t.name == name)
    T.timeout_ms = int(T.timeout_ms * scale); T.budget = T.budget * scale
    try:
        mod = ir.Module(bc)
        res = run_task(mod, T)
        res["ir"] = ir_hash(mod, res["functions"])
    except MemoryError:
        res = dict(task=name, mode=T.mode, status="unsupported", message="memory limit", obligations=[], functions=[], assumed=[], covers=[], solver_s=0, queries=0, wall_s=0, paths=0, loops_cut=0, assumptions=[], ir="")
    json.dump(res, open(out, "w"))
main()
