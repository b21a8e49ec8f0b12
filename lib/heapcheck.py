"""Shared by C01 and C02: histories of specs/Heap.tla replayed in the real system, with snapshots of its heap."""
import json, os, re, subprocess
import vf

# (mode of the driver's automatic collections, seed, minor heap words, CAMLRUNPARAM)
CONFIGS = [(0, 1, 200000, "s=200000"), (1, 2, 4096, "s=4096"), (2, 3, 4096, "s=4096"), (3, 4, 4096, "s=4096 o=10"),
           (4, 5, 4096, "s=4096"), (5, 6, 4096, "s=4096 o=200"), (2, 8, 4096, "s=4096 o=400 i=4096"), (4, 9, 6000, "s=6000 o=2")]


def snaplib(ins, d):
    """The heap walker; None if it cannot be built against this tree (then only the behaviour is checked)."""
    r = subprocess.run(["gcc", "-fPIC", "-shared", "-O1", "-w", f"-I{ins.src}/runtime", f"-I{ins.src}/config",
                        f"{vf.VERIF}/c/heapwalk.c", "-o", f"{d}/hw.so"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return f"{d}/hw.so" if r.returncode == 0 else None


def usable(ins, exe, lib, d):
    out, bad = vf.feed(ins, exe, ["reset", "ref 1 1 1 0 0"], args=["0", "1", "4096", lib], timeout=60,
                       CAMLRUNPARAM="s=4096", VF_SNAPOUT=f"{d}/probe")
    return not bad and os.path.exists(f"{d}/probe") and os.path.getsize(f"{d}/probe") > 0


def events(hs, out):
    it, evs = iter(out), []
    for h in hs:
        next(it, None)
        t = []
        for e in h:
            o = next(it, None)
            if o is None:
                break
            a, _, b = o.partition("|")
            if not re.match(r"^[ \d~]*$", b):
                a, b = a + "|" + b, ""
            t.append(dict(e, out=re.findall(r"bytes<<[^>]*>>|\S+", a), idx=[int(x) for x in b.split() if x.isdigit()]))
        evs.append(t)
    return evs


def replay(c, ins, hs, name, configs, snapmax):
    exe = vf.driver(ins, "heap")
    d = os.path.dirname(exe)
    lib = snaplib(ins, d)
    if lib and not usable(ins, exe, lib, d):
        lib = None
    c.cov["heap_snapshots"] = "on" if lib else "unavailable on this tree: behaviour only"
    lines = [l for h in hs for l in ["reset"] + [" ".join(str(e[k]) for k in ("op", "r", "a", "b", "n", "m")) for e in h]]

    def one(i):
        mode, seed, words, param = configs[i]
        snap = f"{d}/snap{i}"
        out, bad = vf.feed(ins, exe, lines, timeout=300, args=[str(mode), str(seed + vf.SEED), str(words), lib or "-"],
                           CAMLRUNPARAM=param, VF_SNAPOUT=snap)
        sn = []
        if lib and os.path.exists(snap):
            rows = open(snap).readlines()
            step = max(1, len(rows) // snapmax)
            for r in rows[(i * 7) % step::step]:
                try:
                    sn.append(json.loads(r))
                except ValueError:
                    pass
            os.unlink(snap)
        return out, bad, sn

    res = vf.pmap(one, range(len(configs)))
    seen, uniq, total = {}, [], 0
    for i, (out, bad, sn) in enumerate(res):
        if bad or len(out) != len(lines):
            c.violation(f"{name}, collector configuration {configs[i]}: {bad or 'wrong number of replies'}",
                        {"config": configs[i], "replies": len(out), "commands": lines[max(0, len(out) - 60):len(out) + 1]})
        for t in events(hs, out):
            total += len(t)
            k = json.dumps(t)
            if k not in seen:
                seen[k] = configs[i]
                uniq.append(t)
    rej, states = vf.tlc_traces("HeapTrace", uniq)
    c.add_traces(name, len(hs) * len(configs), states, total)
    c.cov["conformance"][name]["distinct_behaviours"] = len(uniq)
    c.sample({"history": [(e["op"], e["out"][:4]) for e in uniq[0][:12]]})
    vf.explain(c, uniq, rej, "the program sees something else than the abstract heap")
    if lib:
        snaps = [s for _, _, sn in res for s in sn]
        hists = [snaps[i:i + 100] for i in range(0, len(snaps), 100)]
        rej, states = vf.tlc_traces("GCSnap", hists, parts=vf.NCPU)
        c.add_traces(name + ": heap snapshots", len(snaps), states, len(snaps))
        c.cov["conformance"][name + ": heap snapshots"]["phases"] = {p: sum(s["phase"] == p for s in snaps) for p in ("mark", "weak", "sweep")}
        for h, l, t in rej[:5]:
            c.violation(f"heap snapshot: {t}", {"snapshot": hists[h][l]})
