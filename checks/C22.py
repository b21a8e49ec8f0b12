"""C22: recorded histories of registrations and nested calls between ML and C are behaviours of specs/Callback.tla."""
import os, subprocess
import vf


def lst(v):
    return ",".join(map(str, v)) or "."


def unlst(s):
    return [] if s == "." else [int(x.replace("~", "-")) for x in s.split(",")]


def gen(r, n):
    """Operations of one history. Slots 0-3, 4-7 and 8-11 hold functions of one, two and three arguments, 12-13 data."""
    ops = []
    fid = [0]
    data = lambda m=6: [r.randint(0, 99) for _ in range(r.choice([0, 1, 1, 2, 3, m]))]
    # names 0,3: one argument; 1,4: two; 2,5: three; 6,7: data
    ar = lambda s: s // 4 + 1
    name_for = lambda s: r.choice([0, 3] if s < 4 else [1, 4] if s < 8 else [2, 5] if s < 12 else [6, 7])
    slot = lambda: r.choice([0, 1, 2, 3, 0, 1, 4, 5, 8, 9])
    used = set()

    def reg(nm):
        fid[0] += 1
        return f"{r.choice(['reg', 'reg', 'creg'])} {nm} {fid[0]} {lst(data()) if nm >= 6 else '.'}"
    style = r.random()
    if style < .8:      # start with something to call
        for nm in r.sample(range(8), r.randint(3, 8)):
            ops.append(reg(nm))
        for s in (0, 1, 4, 8, 12):
            ops.append(f"ptr {s} {name_for(s)}")
    for _ in range(n):
        k = r.choices(["call", "chain", "ret", "raise", "try", "deep", "reg", "unreg", "isreg", "ptr", "null", "val", "gc", "regc", "app", "lib"],
                      [14, 4, 16, 4, 2, 1.5, 4, 3, 1, 6, .7, 3, 6, 1, 3, 2])[0]
        if k == "call":
            s = slot()
            used.add(s)
            ops.append(f"call {int(r.random() < .35)} {s} " + " ".join(lst(data()) if i < ar(s) else "." for i in range(3)) + f" {lst(data())}")
        elif k == "chain":
            ops.append(f"chain {int(r.random() < .35)} {r.randrange(4)} {r.randrange(4)} {lst(data())} {lst(data())}")
        elif k in ("ret", "raise"):
            ops.append(f"{k} {lst(data(300 if r.random() < .1 else 6))}")
        elif k == "deep":
            ops.append(f"deep {r.choice([1, 3, 50, 400, 3000, 9000])}")
        elif k == "try":
            ops.append("try")
        elif k == "reg":
            ops.append(reg(r.randrange(8)))
        elif k == "unreg":
            ops.append(f"{r.choice(['unreg', 'cunreg'])} {r.randrange(8)}")
            if r.random() < .5:
                ops.append(r.choice(["gc full", "gc alloc", "gc minor"]))
            if r.random() < .4:
                ops.append(reg(int(ops[-1].split()[1]) if ops[-1].split()[0].endswith("reg") else r.randrange(8)))
        elif k == "isreg":
            ops.append(f"isreg {r.randrange(8)}")
        elif k == "ptr":
            s = r.choice([slot(), slot(), 12, 13])
            ops.append(f"ptr {s} {name_for(s)}")
        elif k == "null":
            ops.append(f"null {r.choice([slot(), 12])}")
        elif k == "val":
            ops.append(f"val {r.choice([slot(), 12, 13])}")
        elif k == "gc":
            ops.append("gc " + r.choice(["minor", "full", "alloc", "alloc"]))
        elif k == "regc":
            nm = r.randrange(4)
            ops.append(f"regc {nm} {r.randrange(6)}")
        elif k == "app":
            ops.append(("app",))
        else:
            ops.append(("lib",))
    # C pointers and libraries: resolved against what was registered so far
    cp, lib, out = {}, {}, []
    for o in ops:
        if o == ("app",):
            nm = r.randrange(4)
            out.append(f"app {nm} {cp.get(nm, 0)} {lst(data())} {lst(data())}")
        elif o == ("lib",):
            i = r.randrange(4)
            if i not in lib or not lib[i] and r.random() < .3:
                out.append(f"open {i}")
                lib[i] = True
            else:
                k = r.choice(["dlapp", "dlapp", "sym", "close"])
                lib[i] = lib[i] and k != "close"
                out.append(f"{k} {i}" + (f" {lst(data())}" if k == "dlapp" else ""))
        else:
            w = o.split()
            if w[0] == "regc":
                cp.setdefault(int(w[1]), int(w[2]))
            out.append(o)
    return out


def event(w):
    t, a = w[0], w[1:]
    if t in ("reg", "creg"):
        return dict(t=t, n=int(a[0]), f=int(a[1]), v=unlst(a[2]), x=" ".join(a[3:]))
    if t in ("unreg", "cunreg"):
        return dict(t=t, n=int(a[0]), x=" ".join(a[1:]))
    if t == "isreg":
        return dict(t=t, n=int(a[0]), r=int(a[1]))
    if t == "ptr":
        return dict(t=t, s=int(a[0]), n=int(a[1]), r=int(a[2]))
    if t == "null":
        return dict(t=t, s=int(a[0]))
    if t == "val":
        return dict(t=t, s=int(a[0]), k=a[1], f=int(a[2].replace("~", "-")) if a[1] == "fun" else -1, v=unlst(a[2]) if a[1] == "data" else [])
    if t == "call":
        return dict(t=t, h=int(a[0]), s=int(a[1]), a=[unlst(y) for y in a[2:5]], kept=unlst(a[5]))
    if t == "chain":
        return dict(t=t, h=int(a[0]), s=int(a[1]), s2=int(a[2]), a=[unlst(a[3]), [], []], kept=unlst(a[4]))
    if t == "enter":
        return dict(t=t, f=int(a[0]), v=[unlst(y) for y in a[1:4]])
    if t == "back":
        return dict(t=t, v=unlst(a[0]), kept=unlst(a[1]))
    if t in ("caught", "top"):
        return dict(t=t, x=dict(e=a[0], v=unlst(a[1])))
    if t == "deep":
        return dict(t=t, n=int(a[0]))
    if t in ("ret", "raise"):
        return dict(t=t, v=unlst(a[0]))
    if t == "regc":
        return dict(t=t, n=int(a[0]), k=int(a[1]), x=" ".join(a[2:]))
    if t == "app":
        return dict(t=t, n=int(a[0]), k=int(a[1]), a=unlst(a[2]), b=unlst(a[3]), x=a[4], v=unlst(a[-1]))
    if t in ("open", "close", "sym", "dlapp"):
        return dict(t=t, n=int(a[0]), x=" ".join(a[2 if t == "dlapp" else 1:]))
    return dict(t=t)


def check(c):
    ins = vf.build()
    c.add_model("CallbackMC", vf.tlc("CallbackMC", cfg=vf.scale("CallbackMC", "CallbackMCbig")))
    exe = vf.driver(ins, "callback")
    d = os.path.dirname(exe)
    for n in ("libcb.so", "libcb2.so"):
        p = subprocess.run(["gcc", "-fPIC", "-shared", "-O1", "-w", f"-I{ins.src}/runtime", f"-I{ins.src}/config", f"{vf.VERIF}/c/cb.c", "-o", f"{d}/{n}"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise vf.CheckError("c/cb.c does not compile against this runtime: " + p.stdout.decode("latin-1")[-500:])
    hists = []

    def one(i):
        r = vf.rng("C22", i)
        hs = [gen(r, r.choice([12, 30, 60, 120])) for _ in range(vf.scale(30, 200))]
        lines = [x for j, h in enumerate(hs) for x in [f"hist {j}"] + h] + ["hist 0"]
        rc, o, e = vf.run([exe], inp="\n".join(lines) + "\n", cwd=d, timeout=120,
                          env=ins.env(CAMLRUNPARAM=("s=4096", "s=4096 i=4096 o=10", "s=8192 o=400", "s=32768")[i % 4]))
        res, n = [], 0
        for ln in o.split("\n"):
            w = ln.split(" ")
            if w[0] == "hist":
                res.append([])
                n = 1
            elif ln and res:
                try:
                    res[-1].append(event(w))
                except (ValueError, IndexError):
                    res[-1].append(dict(t="garbled", line=ln[:200]))
        bad = (rc != 0 or len(res) != len(hs) + 1) and f"driver ended with status {rc} in history {len(res)} of {len(hs)}: {str(e)[-300:]}"
        return res[:len(hs)], bad, lines

    for i, (res, bad, lines) in enumerate(vf.pmap(one, range(vf.scale(8, 32)))):
        hists += res
        if bad:
            c.violation(f"job {i}: {bad}", {"job": i, "operations": lines[:4000], "last": res[-1][-20:] if res else []})
    rej, states = vf.tlc_traces("CallbackTrace", hists)
    c.add_traces("callbacks", len(hists), states, sum(map(len, hists)))
    kinds = {}
    for h in hists:
        for e in h:
            kinds[e["t"]] = kinds.get(e["t"], 0) + 1
    c.cov["events"] = kinds
    c.sample({"history": hists[0][:6]})
    vf.explain(c, hists, rej, "is not what the callback interface promises", keyf=lambda h, l: h[l]["t"])
