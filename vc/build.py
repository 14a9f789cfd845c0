"""Mechanical extraction: compile /repo's sources plus a driver to LLVM IR, link, promote to SSA."""
import os, subprocess, glob, hashlib, tempfile, shutil, concurrent.futures as cf
CLANG = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CLANG): CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "/usr/bin/clang++"
def tool(n):
    for p in (f"/usr/lib/llvm-18/bin/{n}", f"/usr/bin/{n}-18", f"/usr/bin/{n}"):
        if os.path.exists(p): return p
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-std=c++17", "-fno-rtti", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fno-discard-value-names",
         "-fno-vectorize", "-w", "-fno-threadsafe-statics"]
NEEDS_F2 = "address_resolver awaitable channel connection context executor file flag future mutex pipe socket wait".split()
class BuildError(Exception): pass
def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])
def compile_bc(src, out, extra=()):
    run([CLANG, *FLAGS, *extra, f"-I{REPO}/src", f"-I{VERIF}/drivers", "-emit-llvm", "-c", src, "-o", out])
def lib_sources():
    l = []
    for f in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True)):
        if os.path.basename(f)[:-4] in NEEDS_F2 and os.path.dirname(f) == f"{REPO}/src/arpc": continue
        l.append(f)
    return l
def runtime_hash(workdir):
    """A copy of type_hash.h whose hash constants are computed when asked for instead of at compile time, so that element hashes
    can be unknowns.  Only 'constexpr' is dropped: "static constexpr T value = E;" becomes an object converting to T by returning E,
    and the variable template type_hash_v a constant of whatever its initializer is."""
    import re
    s = open(f"{REPO}/src/arpc/type_hash.h").read()
    s, a = re.subn(r"static\s+constexpr\s+([\w:]+)\s+value\s*=\s*([^;]*);", r"struct value_type { operator \1() const { return \2; } }; static inline value_type value;", s)
    s, b = re.subn(r"inline\s+constexpr\s+[\w:]+\s+type_hash_v\s*=\s*([^;]*);", r"inline const auto type_hash_v = \1;", s)
    if not a or not b: raise BuildError("type_hash.h: no hash constants found")
    d = os.path.join(workdir, "gen", "arpc"); os.makedirs(d, exist_ok=True); open(os.path.join(d, "type_hash.h"), "w").write(s)
    return (f"-I{workdir}/gen",)
def extract(driver, workdir, extra=(), with_lib=True, more=()):
    """-> path of the linked module"""
    if "prepare:runtime_hash" in extra: extra = runtime_hash(workdir) + tuple(x for x in extra if x != "prepare:runtime_hash")
    for x in [x for x in extra if x.startswith("only:") and x != "only:driver"]: with_lib = False; more = tuple(more) + (f"{REPO}/src/arpc/{x[5:]}.cpp",); extra = tuple(y for y in extra if y != x)
    if "only:driver" in extra: with_lib = False; extra = tuple(x for x in extra if x != "only:driver")
    srcs = [driver] + list(more) + (lib_sources() if with_lib else [])
    outs = [os.path.join(workdir, f"u{i}.bc") for i in range(len(srcs))]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda so: compile_bc(so[0], so[1], extra), zip(srcs, outs)))
    allbc = os.path.join(workdir, "all.bc")
    run([tool("llvm-link"), *outs, "-o", allbc])
    opt = os.path.join(workdir, "opt.bc")
    run([tool("opt"), "-passes=function(sroa,instsimplify,simplifycfg)", allbc, "-o", opt])
    return opt
