"""C01: garbage collection is invisible. Specs: GC (collector design, exhaustive), Heap (what programs see), GCSnap
(GC's invariants on snapshots of the real heap), Memo (outcomes do not depend on the collector)."""
import hashlib, os
import vf, heapcheck
from concurrent.futures import ThreadPoolExecutor


def stress(c, ins):
    exe = vf.driver(ins, "gcstress")
    d = os.path.dirname(exe)
    ks = [str(k) for k in list(range(vf.scale(80, 260))) + list(range(80, 1200, vf.scale(28, 7)))]
    runs = [(0, 1000000, "s=1000000", ["0", "1"])]
    for j, (s, o) in enumerate([(4096, "o=30"), (4096, "o=1"), (4096, "o=300 i=4096"), (5000, "o=80")] * vf.scale(1, 4)):
        runs.append((s, s, f"s={s} {o}", [str(k) for k in ks]))

    def one(i):
        fill, s, param, kk = runs[i]
        w = f"{d}/w{i}"
        os.makedirs(w, exist_ok=True)
        return vf.run([exe, str(fill), str(i + vf.SEED), w, *kk], env=ins.env(CAMLRUNPARAM=param), timeout=600)

    res = vf.pmap(one, range(len(runs)))
    hist, n = {}, 0
    for i, (rc, out, err) in enumerate(res):
        rows = [l.split(" ", 2) for l in out.split("\n") if l.count(" ") >= 2]
        if rc != 0:
            c.violation(f"stress run {runs[i][2]} ended with {rc}: {err[-300:]}; last: {rows[-1:]}",
                        {"param": runs[i][2], "status": rc, "last": rows[-3:]})
        for name, k, r in rows:
            hist.setdefault(name, []).append({"op": name, "out": r if len(r) < 60 else hashlib.md5(r.encode()).hexdigest(),
                                              "k": int(k), "param": runs[i][2]})
    hs = list(hist.values())
    rej, states = vf.tlc_traces("Memo", hs)
    c.add_traces("computations with the heap k words short of a collection", len(hs), states, sum(map(len, hs)))
    c.sample({"computations": len(hs), "k": ks[:3] + ["..."] + ks[-2:], "runs": [r[2] for r in runs]})
    vf.explain(c, hs, rej, "outcome depends on the collector")


def compiles(c, ins):
    """The compiler, the lexer generator and the interactive system under hostile collector parameters."""
    d = vf.scratch("cmp")
    src = open(f"{vf.VERIF}/ml/coll.sml").read()
    params = ["s=1000000", "s=4096 o=1", "s=4096 o=30", "s=4096 o=400 i=4096"]
    jobs = [(w, p) for w in ("compile", "lex", "session") for p in params]

    def one(j):
        what, p = j
        w = f"{d}/{what}{params.index(p)}"
        os.makedirs(w)
        env = ins.env(CAMLRUNPARAM=p)
        if what == "compile":
            open(f"{w}/coll.sml", "w").write(src)
            rc, o, e = vf.run(["mosmlc", "-toplevel", "-c", "coll.sml"], cwd=w, env=env, timeout=200, merge=True)
            out = open(f"{w}/coll.uo", "rb").read() if os.path.exists(f"{w}/coll.uo") else b""
        elif what == "lex":
            import shutil
            shutil.copy(f"{ins.src}/lex/Scanner.lex", w)
            rc, o, e = vf.run(["mosmllex", "Scanner.lex"], cwd=w, env=env, timeout=200, merge=True)
            out = open(f"{w}/Scanner.sml", "rb").read() if os.path.exists(f"{w}/Scanner.sml") else b""
        else:
            prog = 'load "Int"; load "Listsort"; fun f 0 = [] | f n = n :: f (n-1);\n' + \
                   "".join(f"val x{i} = Listsort.sort Int.compare (f {i * 10}); val {{a, ...}} = {{a = x{i}, b = \"s{i}\"}};\n" for i in range(40))
            rc, o, e = vf.run(["mosml", "-P", "full"], cwd=w, inp=prog, env=env, timeout=200, merge=True)
            out = b""
        return what, f"{rc} {hashlib.md5(o.encode() + out).hexdigest()}", o[-200:]

    hs = {}
    for (what, r, o), (_, p) in zip(vf.pmap(one, jobs), jobs):
        hs.setdefault(what, []).append({"op": what, "out": r, "param": p, "text": o if not r.startswith("0") else ""})
    hs = list(hs.values())
    rej, states = vf.tlc_traces("Memo", hs)
    c.add_traces("compiler and tools", len(hs), states, sum(map(len, hs)))
    vf.explain(c, hs, rej, "outcome depends on the collector")


def check(c):
    with ThreadPoolExecutor(2) as ex:
        ins = vf.build(extra=("intinf",))
        hsf = ex.submit(vf.tlc_generate, "HeapGen", "HeapGen", vf.scale(150, 1200), 91)
        c.add_model("GC (generational, incremental)", vf.tlc("GC", vf.scale("GCsmall", "GC"), workers=4))
        c.add_model("Heap", vf.tlc("HeapGen", vf.scale("HeapMCsmall", "HeapMC"), workers=4))
        if not vf.QUICK:
            c.add_model("GC, 4 blocks", vf.tlc("GC", "GCdeep", timeout=3000, heap="12g"))
            c.add_model("GC, 2 fields", vf.tlc("GC", "GCfields", timeout=3000, heap="12g"))
        hs = hsf.result()
    heapcheck.replay(c, ins, hs, "mutator histories", heapcheck.CONFIGS, vf.scale(500, 4000))
    stress(c, ins)
    compiles(c, ins)
    c.assumptions += ["interior of immutable blocks is observed by contents only", "finalisers are observed through IntInf"]

