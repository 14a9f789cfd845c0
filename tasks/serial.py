"""Serial line protocol over the codecs' contracts (S07, S08) and an abstract stream: S10"""
DRIVER = "packet.cpp"
import z3
from core import *
from exec import B_int
from lib import *
from ghost import *
from task import Task, cover

def view(ex, st, s): R = str_reg(ex, st, s); return R.size, R.fields[0][1]
def eqv(n, A, m, Bq):
    j = z3.Int(f"j!{fresh_id()}"); return z3.And(B_int(n) == B_int(m), FA([j], z3.Implies(z3.And(j >= 0, j < B_int(n)), z3.Select(A, j) == z3.Select(Bq, j)), z3.Select(A, j)))
def differ(n, A, m, Bq):
    d = z3.Int(f"d!{fresh_id()}"); return z3.Or(B_int(n) != B_int(m), z3.And(d >= 0, d < B_int(n), z3.Select(A, d) != z3.Select(Bq, d)))
def replace(ex, st, s, n, A):
    W = bump(ex, st, str_obj(ex, st, s).buf); W.fields[0] = (1, A); W.size = n
def codec(ex, name, zero_free, grow):
    """contract of a packet codec object: encode is a total function, decode its inverse that rejects everything else it likes"""
    def enc(ex, st, a, c):
        n, A = view(ex, st, a[1]); m = z3.Int(f"{name}.n!{fresh_id()}"); Bq = ex.fresh_array(8, name + ".enc"); byte_axiom(ex, st, Bq)
        st.assume(grow(B_int(n), m))
        if zero_free: j = z3.Int(f"j!{fresh_id()}"); st.assume(FA([j], z3.Implies(z3.And(j >= 0, j < m), z3.Select(Bq, j) != 0), z3.Select(Bq, j)))
        st.ghost[name] = st.ghost.get(name, ()) + (('enc', n, A, m, Bq),); replace(ex, st, a[1], m, Bq)
    def dec(ex, st, a, c):
        n, A = view(ex, st, a[1]); out = []
        for (k, n1, A1, m1, B1) in st.ghost.get(name, ()):
            if k != 'enc': continue
            if ex.pr.prove(st.pc, eqv(n, A, m1, B1), timeout=3000)[0] == 'proved':
                st.ghost[name] = st.ghost[name] + (('dec', n, A, n1, A1),); replace(ex, st, a[1], n1, A1); return [(st, Ret(None))]
        s2 = st.clone(); s2.ghost[name] = st.ghost.get(name, ()) + (('rej', n, A, 0, None),); out.append(throw(ex, s2, MISMATCH))
        m = z3.Int(f"{name}.n!{fresh_id()}"); Bq = ex.fresh_array(8, name + ".dec"); byte_axiom(ex, st, Bq); st.assume(z3.And(m >= 0, m < 1 << 61))
        st.ghost[name] = st.ghost.get(name, ()) + (('dec', n, A, m, Bq),); replace(ex, st, a[1], m, Bq)
        return out + [(st, Ret(None))]
    ex.contract(rf"^arpc::{name}_codec::encode\(", enc, f"{name}_codec::encode ({'S07' if zero_free else 'S08'})")
    ex.contract(rf"^arpc::{name}_codec::decode\(", dec, f"{name}_codec::decode ({'S07' if zero_free else 'S08'})")
def codecs(ex):
    codec(ex, "mac", False, lambda n, m: m == n + 8)
    codec(ex, "cobs", True, lambda n, m: z3.And(m >= n + 1, m <= n + 1 + n / 254))
def fact(ex, st, g): return ex.pr.prove(st.pc, g)[0] == 'proved'
def frame_of(ex, st, n, A):
    """the cobs encoding of the mac encoding of the packet, if the run made one"""
    for (k, n1, A1, m1, B1) in st.ghost.get('mac', ()):
        if k == 'enc' and fact(ex, st, eqv(n1, A1, n, A)):
            for (k2, n2, A2, m2, B2) in st.ghost.get('cobs', ()):
                if k2 == 'enc' and fact(ex, st, eqv(n2, A2, m1, B1)): return m2, B2
    return None
def sent(ex, st, base, s, tag=""):
    """bytes from base: the packet's frame and a zero -> end"""
    f = frame_of(ex, st, *s); ex.oblige(st, f is not None, f"post:{tag}frame is the zero-free encoding of packet plus hash")
    if f is None: return None
    m, F = f; out = st.ghost['out']
    j = z3.Int(f"j!{fresh_id()}")
    ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Select(out, base + j) == z3.Select(F, j))), f"post:{tag}frame bytes")
    ex.oblige(st, z3.Select(out, base + m) == 0, f"post:{tag}terminated by a zero"); return base + m + 1
def send(two):
    def t(ex):
        codecs(ex); st = State(); g = GOut(ex, st); a, Na, Aa = string(ex, st, "PA"); args = [a]
        if two: b, Nb, Ab = string(ex, st, "PB"); args.append(b)
        for st2, o in ex.run(st, "d_sl_send2" if two else "d_sl_send", args):
            if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
            end = sent(ex, st2, g.n0, (Na, Aa))
            if two and end is not None: end = sent(ex, st2, end, (Nb, Ab), "second ")
            if end is None: continue
            ex.oblige(st2, B_int(st2.ghost['out.len']) == end, "post:nothing else is written"); g.post_prefix(ex, st2)
            ex.oblige(st2, B_int(st2.ghost['out.flushed']) == end, "post:flushed at the end"); cover(ex, st2, "sent")
    return t
def loop_hints(ex, arr, limit=None):
    """invariants of a loop that moves bytes from the input to a string"""
    def cands(vw):
        out = []; get = lambda v, k: next(x for x in v.vars if x.key == k)
        gi = [v for v in vw.ints() if v.key == ('ghost', 'in.pos')]
        for v in vw.ints():
            k = v.key
            out.append((f"{k}==init+n", lambda vw, k=k: B_int(get(vw, k).cur) == B_int(get(vw, k).init) + vw.n))
        for a in vw.arrays():
            for v in gi:
                k, ka = v.key, a.key
                def f(vw, k=k, ka=ka):
                    j = z3.Int(f"j!{fresh_id()}"); A = get(vw, ka).cur; p0 = B_int(get(vw, k).init)
                    return FA([j], z3.Implies(z3.And(j >= 0, j < vw.n), z3.And(z3.Select(A, j) == z3.Select(arr, j + p0), z3.Select(A, j) != 0)), z3.Select(A, j))
                out.append((f"{ka} is the non-zero input read", f))
        for v in gi:
            k = v.key
            def nz(vw, k=k):
                j = z3.Int(f"j!{fresh_id()}"); p0 = B_int(get(vw, k).init)
                return FA([j], z3.Implies(z3.And(j >= p0, j < p0 + vw.n), z3.Select(arr, j) != 0), z3.Select(arr, j))
            out.append(("no zero so far", nz))
            for N in (z3.Int("N"),): out.append((f"{k}<=N", lambda vw, k=k, N=N: B_int(get(vw, k).cur) <= N))
        return out
    ex.loop_cands.append(cands); ex.bound_hints.append(lambda vw: {"N": z3.Int("N"), "2^64": z3.IntVal(1 << 64), **({"max": z3.IntVal(limit)} if limit else {})})
def receive(fn, limit):
    def t(ex):
        codecs(ex); st = State(); p0 = z3.Int("pos0"); g = GIn(ex, st, pos=p0); st.assume(z3.And(p0 >= 0, p0 <= g.N)); r, N0, A0 = string(ex, st, "RES"); IN = g.arr; loop_hints(ex, IN, limit)
        for st2, o in ex.run(st, fn, [r]):
            p = B_int(st2.ghost['in.pos'])
            def nozero(lo, hi, label): forall(ex, st2, lo, hi, lambda j: z3.Select(IN, j) != 0, label)
            if isinstance(o, Throw) and o.tinfo == EOF:
                nozero(p0, g.N, "post:eof only if no terminator is left"); ex.oblige(st2, p == g.N, "post:eof at the end"); 
                if limit: ex.oblige(st2, g.N - p0 <= limit, "post:frame within the maximum")
                cover(ex, st2, "eof"); continue
            if isinstance(o, Throw) and o.tinfo == RANGE:
                ex.oblige(st2, p - 1 - p0 >= (limit or I64 - 1), "post:only a frame longer than the maximum is rejected for its length"); nozero(p0, p, "post:inside one frame"); cover(ex, st2, "too long") if limit else None; continue
            ex.oblige(st2, z3.And(p > p0, z3.Select(IN, p - 1) == 0), "post:reader at the start of the next frame"); nozero(p0, p - 1, "post:exactly one frame is consumed")
            if limit: ex.oblige(st2, p - 1 - p0 <= limit, "post:frame within the maximum")
            cc = st2.ghost.get('cobs', ()); mm = st2.ghost.get('mac', ())
            if not cc: ex.oblige(st2, False, "post:the frame is decoded"); continue
            k, n1, A1, m1, B1 = cc[-1]; j = z3.Int(f"j!{fresh_id()}")
            ex.oblige(st2, z3.And(B_int(n1) == p - 1 - p0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p - 1 - p0), z3.Select(A1, j) == z3.Select(IN, j + p0)))), "post:exactly the frame's bytes are decoded")
            if isinstance(o, Throw):
                ex.oblige(st2, o.tinfo == MISMATCH, f"unexpected exception {o.tinfo}")
                ex.oblige(st2, k == 'rej' or (mm and mm[-1][0] == 'rej'), "post:rejected only by a codec"); cover(ex, st2, "rejected"); continue
            ex.oblige(st2, k == 'dec' and bool(mm) and mm[-1][0] == 'dec', "post:both codecs accepted")
            if not mm: continue
            ex.oblige(st2, eqv(mm[-1][1], mm[-1][2], m1, B1), "post:the hash is checked on the decoded frame")
            n, A = view(ex, st2, r); ex.oblige(st2, eqv(n, A, mm[-1][3], mm[-1][4]), "post:the packet without its hash is returned"); cover(ex, st2, "received")
    return t
def roundtrip(ex):
    """two packets sent one after another arrive as the same two packets"""
    codecs(ex); st = State(); g = GOut(ex, st, start=0); a, Na, Aa = string(ex, st, "PA"); b, Nb, Ab = string(ex, st, "PB")
    for st2, o in ex.run(st, "d_sl_send2", [a, b]):
        if isinstance(o, Throw): ex.oblige(st2, False, "no throw"); continue
        gi = GIn(ex, st2, N=st2.ghost['out.len']); j = z3.Int(f"j!{fresh_id()}"); OUT = st2.ghost['out']
        fa, fb = frame_of(ex, st2, Na, Aa), frame_of(ex, st2, Nb, Ab)
        if fa is None or fb is None: ex.oblige(st2, False, "post:both packets are encoded"); continue
        mx = simp(fa[0] + 1)
        # the input is what was sent (stated frame by frame)
        ex.oblige(st2, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < fa[0]), z3.Select(OUT, j) == z3.Select(fa[1], j))), "post:first frame"); ex.oblige(st2, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < fb[0]), z3.Select(OUT, mx + j) == z3.Select(fb[1], j))), "post:second frame")
        ex.oblige(st2, z3.And(z3.Select(OUT, fa[0]) == 0, z3.Select(OUT, mx + fb[0]) == 0, B_int(st2.ghost['out.len']) == mx + fb[0] + 1), "post:terminators")
        st2.assume(FA([j], z3.Implies(z3.And(j >= 0, j < fa[0]), z3.And(z3.Select(gi.arr, j) == z3.Select(fa[1], j), z3.Select(gi.arr, j) != 0)), z3.Select(gi.arr, j)))
        st2.assume(FA([j], z3.Implies(z3.And(j >= mx, j < mx + fb[0]), z3.And(z3.Select(gi.arr, j) == z3.Select(fb[1], j - mx), z3.Select(gi.arr, j) != 0)), z3.Select(gi.arr, j)))
        st2.assume(z3.And(z3.Select(gi.arr, fa[0]) == 0, z3.Select(gi.arr, mx + fb[0]) == 0)); st2.assume(gi.N == mx + fb[0] + 1)
        r, _, _ = string(ex, st2, "RA"); s, _, _ = string(ex, st2, "RB"); loop_hints(ex, gi.arr)
        for st3, o3 in ex.run(st2, "d_sl_receive2", [r, s]):
            if isinstance(o3, Throw): ex.oblige(st3, False, f"post:own packets are received ({o3.tinfo})"); continue
            ex.oblige(st3, eqv(*view(ex, st3, r), Na, Aa), "post:first packet"); ex.oblige(st3, eqv(*view(ex, st3, s), Nb, Ab), "post:second packet")
            ex.oblige(st3, B_int(st3.ghost['in.pos']) == gi.N, "post:everything is consumed"); cover(ex, st3, "both received")
TASKS = [Task("serial.send", send(False)), Task("serial.send_two", send(True)), Task("serial.receive", receive("d_sl_receive", None)), Task("serial.receive_max", receive("d_sl_receive_max", 5000)), Task("serial.round_trip", roundtrip)]
