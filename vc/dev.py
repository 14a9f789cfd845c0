"""development runner: dev.py driver tasks_module [task regex] [debug]"""
import sys, os, re, importlib, tempfile, time
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
import build, ir
from task import *
def main():
    tm = importlib.import_module("tasks." + sys.argv[1])
    rx = sys.argv[2] if len(sys.argv) > 2 else "."
    dbg = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    drv = getattr(tm, "DRIVER", sys.argv[1] + ".cpp")
    w = f"/tmp/vcdev.{drv}"; os.makedirs(w, exist_ok=True)
    t = time.time()
    bc = build.extract(f"{build.VERIF}/drivers/{drv}", w, extra=getattr(tm, "FLAGS", ()))
    print("build", round(time.time() - t, 1))
    mod = ir.Module(bc)
    for T in tm.TASKS:
        if re.search(rx, T.name): summary(run_task(mod, T, dbg))
main()
