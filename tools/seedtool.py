#!/usr/bin/env python3
"""seedtool.py make FILE.py [name-regex]  - build planted bugs from a list of edits and confirm each one
   seedtool.py quiet FILE.py [name-regex]  - edits that keep the behaviour: no check named may raise an alarm
   seedtool.py run [name-regex]           - run each seed's property check against it
Works on a private copy of /repo mounted over /repo in a user namespace; /repo itself is never touched."""
import sys, os, subprocess, json, re, shutil, tempfile
V = "/verif"
def ns(copy, cmd, timeout=900, env=None):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True, timeout=timeout, env=env)
def fresh():
    d = tempfile.mkdtemp(prefix="seedwork-"); subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True); return d, d + "/repo"
def tests(copy):
    o = copy + "/../out.json"
    b = ns(copy, "bash /opt/vp/build.sh")
    if b.returncode: return "build: " + (b.stdout + b.stderr)[-1500:]
    t = ns(copy, f"bash /opt/vp/test.sh {o}")
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = json.load(open(o))
    want = set(base["stable"])
    got = set(r["passed"])
    miss = want - got
    return "" if not miss else f"tests failing: {sorted(miss)[:5]}"
def make(path, rx):
    g = {}; exec(open(path).read(), g)
    for s in g["SEEDS"]:
        if rx and not re.search(rx, s["id"]): continue
        d, copy = fresh()
        try:
            for f, old, new in s["edits"]:
                p = f"{copy}/src/arpc/{f}"; t = open(p).read()
                if t.count(old) < 1: print(s["id"], "NO MATCH", f, old[:60]); break
                k = s.get("nth", 0); i = -1
                for _ in range(k + 1): i = t.find(old, i + 1)
                t = t[:i] + new + t[i + len(old):]; open(p, "w").write(t)
            else:
                diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
                out = f"{V}/seeded/{s['id']}"; tmp = d + "/seed"; os.makedirs(tmp)
                open(tmp + "/patch.diff", "w").write(diff)
                open(tmp + "/demo.cpp", "w").write(s["demo"])
                for x in s.get("dep", []): os.makedirs(os.path.dirname(tmp + "/" + x), exist_ok=True); shutil.copy(V + "/drivers/stub/" + x, tmp + "/" + x)
                link = " ".join(f"src/arpc/{x}.cpp" for x in s.get("link", "string_adapters io_adapters errors registry dynamic_base_class packet_codecs highway_hash").split())
                open(tmp + "/demo.sh", "w").write(f'#!/bin/bash\n# exit 0 when the property holds for the scenario in demo.cpp\nhere=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\ng++ -std=c++17 -fno-rtti -g -w {s.get("flags", "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all")} -Isrc "$here/demo.cpp" {link} -o "$w/demo" -pthread || exit 3\ncd "$w" && ./demo\n')
                json.dump(dict(property=s["id"].split("_")[0], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
                bad = tests(copy)
                if bad: print(s["id"], "REJECT", bad); continue
                dm = ns(copy, f"bash {tmp}/demo.sh", 300)
                if dm.returncode == 0: print(s["id"], "REJECT demo passes with the patch"); continue
                if dm.returncode == 3: print(s["id"], "REJECT demo does not compile", dm.stderr[-1500:]); continue
                dc = subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
                if dc.returncode != 0: print(s["id"], "REJECT demo fails on the clean tree", dc.returncode, (dc.stdout + dc.stderr)[-1500:]); continue
                shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
                print(s["id"], "ok", flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
def quiet(path, rx):
    g = {}; exec(open(path).read(), g); only = os.environ.get("PROPS"); skip = os.environ.get("NOTESTS"); part = os.environ.get("PART"); L = g["R"]
    if part: i, n = map(int, part.split("/")); L = [x for x in L if not rx or re.search(rx, x["id"])][i::n]
    for s in L:
        if rx and not re.search(rx, s["id"]): continue
        d, copy = fresh()
        try:
            for f, old, new in s["edits"]:
                p = f"{copy}/src/arpc/{f}"; t = open(p).read()
                if t.count(old) < 1: print(s["id"], "NO MATCH", f, old[:60]); break
                open(p, "w").write(t.replace(old, new))
            else:
                bad = "" if skip else tests(copy)
                if bad: print(s["id"], "REJECT", bad); continue
                w = d + "/verif"; subprocess.run(["cp", "-a", V, w], check=True)
                for pr in s["props"]:
                    if only and not re.search(only, pr): continue
                    r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && mount --bind {w} /verif && cd /verif && python3-vt check.py {pr}"], capture_output=True, text=True, timeout=1800)
                    out = r.stdout; m = re.search(r"(\d+/\d+) obligations.*?(\d+) tasks undecided", out)
                    print(s["id"], pr, "rc", r.returncode, m.groups() if m else "", "ALARM" if r.returncode or "VIOLATION" in out else "", [l.strip()[:230] for l in out.split("\n") if "failed obl" in l or "undecided:" in l or "failing case" in l][:3], r.stderr[-200:] if r.returncode not in (0, 1) else "", flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
def run(rx):
    for n in sorted(os.listdir(V + "/seeded")):
        if rx and not re.search(rx, n): continue
        m = json.load(open(f"{V}/seeded/{n}/meta.json"))
        d, copy = fresh()
        try:
            a = subprocess.run(["git", "-C", copy, "apply", f"{V}/seeded/{n}/patch.diff"], capture_output=True, text=True)
            if a.returncode: print(n, "PATCH FAILS", a.stderr); continue
            # evidence goes to a copy of /verif, so that the real one stays that of the clean tree
            subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=seeded", V + "/", d + "/verif/"]) if shutil.which("rsync") else subprocess.run(["cp", "-a", V, d + "/verif"])
            r = ns(copy, f"mount --bind {d}/verif /verif && cd /verif && python3-vt check.py {m['property']}", 1500, dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            last = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            prf = [l for l in r.stdout.splitlines() if "obligation" in l]
            print(n, "rc", r.returncode, last[:2], prf[-3:], flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
elif sys.argv[1] == "quiet": quiet(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
else: run(sys.argv[2] if len(sys.argv) > 2 else None)
