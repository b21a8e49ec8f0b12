"""C08: recorded operation histories of the eight applicative collections are behaviours of specs/Coll.tla."""
import vf

MAPS, SETS = ["bm", "sm", "rm", "im"], ["bs", "ss", "is", "rs"]


def gen_random(r, impl, n, maxkey, neg=False):
    mp = impl in MAPS
    fixed = impl in ("im", "is")
    ords = [0] * 8
    evs = [("new", i, 0, 0, 0) for i in range(8)]
    lo = -maxkey if neg else 0
    key = lambda: r.randint(lo, maxkey)
    if not fixed:
        for i in range(8):
            ords[i] = r.choice([0, 0, 1, 2]) if i < 4 else ords[i - 4]
            evs.append(("new", i, 0, ords[i], 0))
    grow = r.choice([3, 5, 8])
    for _ in range(n):
        d, s = r.randrange(8), r.randrange(8)
        d = s if r.random() < .6 else r.choice([i for i in range(8) if ords[i] == ords[s]])
        if mp:
            op = r.choices(["ins", "rem", "find", "peek", "num", "list", "app", "revapp", "foldl", "foldr", "map",
                            "transf"], [4 * grow, 15, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1])[0]
            a, b = key(), r.randrange(1000)
        else:
            ops = {"add": 3 * grow, "del": 12, "addlist": 2, "member": 4, "retrieve": 3, "peek": 2, "isempty": 1,
                   "num": 1, "list": 1, "equal": 2, "subset": 3, "union": 4, "inter": 4, "diff": 4, "app": 1,
                   "revapp": 1, "foldl": 1, "foldr": 1, "find": 2}
            if impl == "rs":
                ops.update({"add'": 3, "min": 2, "max": 2, "hash": 1, "compare": 3, "map": 1, "mapmono": 2, "order": 1})
                if not neg:
                    ops.update({"sublist": 4, "subseti": 3})
            op = r.choices(list(ops), list(ops.values()))[0]
            a, b = key(), r.randrange(1000)
            if op in ("equal", "subset", "union", "inter", "diff", "compare"):
                a = r.choice([i for i in range(8) if ords[i] == ords[s]])
            elif op == "addlist":
                a, b = r.randint(1, 40), r.randrange(9)
            elif op in ("sublist", "subseti"):
                a, b = r.choice([-1, key(), key()]), r.choice([-1, key(), key()])
            elif op == "map":
                a, b = r.randint(1, 30), r.randrange(3)
            elif op == "mapmono":
                a, b = r.choice([1, 1, 2, 0, -1]), r.choice([ords[s], 0, 1])
                if neg is False and a == -1:
                    a = 1
            elif op == "order":
                b = key()
        if op in ("rem", "del", "find", "retrieve") and r.random() < .5:
            a = r.choice(recent) if (recent := [e[3] for e in evs[-25:] if e[0] in ("ins", "add")]) else a
        evs.append((op, d, s, a, b))
        if op in ("map", "mapmono") and not mp:
            # orders change; keep histories simple: put the result in slot 7 and give it the new order at once
            evs[-1] = (op, 7, s, a, b)
            evs += [("list", 0, 7, 0, 0), ("new", 7, 0, ords[7], 0)]
    for s in range(8):
        evs.append(("list", 0, s, 0, 0))
    return evs


def gen_build(r, impl, n):
    """Build a tree of n keys in some order, then take it apart in another, with snapshots of old versions."""
    ins, rem = ("insq", "remq") if impl in MAPS else ("addq", "delq")
    o = 0 if impl in ("im", "is") else r.choice([0, 0, 1, 2])
    evs = [("new", i, 0, o, 0) for i in range(8)]
    ks = list(range(n))

    def order():
        k = r.randrange(6)
        if k == 0:
            return ks[:]
        if k == 1:
            return ks[::-1]
        if k == 2:
            return ks[::2] + ks[1::2][::-1]
        if k == 3:
            x = ks[:]; m = n // 2
            return [y for p in zip(x[:m], x[::-1][:m]) for y in p] + ([x[m]] if n % 2 else [])
        x = ks[:]
        r.shuffle(x)
        return x
    snap = 1
    for i, k in enumerate(order()):
        evs.append((ins, 0, 0, k, k * 7 % 11))
        if r.random() < 3 / (n + 1):
            evs.append((ins, snap, 0, r.choice(ks), 5))
            snap = snap % 6 + 1
    evs.append(("list", 0, 0, 0, 0))
    for i, k in enumerate(order()):
        evs.append((rem, 0, 0, k, 0))
        if i % 5 == 0:
            evs.append(("list", 0, 0, 0, 0))
        if r.random() < .15:
            evs.append((rem, 7, 0, r.choice(ks), 0))
            evs.append(("list", 0, 7, 0, 0))
        if r.random() < .1:
            evs.append((ins, 0, 0, r.choice(ks), 3))
        if r.random() < .2:
            evs.append(("peek", 0, 0, r.choice(ks), 0))
        if impl == "ss" or impl == "sm":
            if r.random() < .3:
                evs.append(("peek", 0, 0, r.choice(ks), 0))
    for s in range(8):
        evs.append(("list", 0, s, 0, 0))
    return evs


def gen_setops(r, impl, n):
    """Binary set operations on pairs of sets of very different or equal sizes and layouts."""
    o = 0 if impl == "is" else r.choice([0, 0, 1, 2])
    evs = [("new", i, 0, o, 0) for i in range(8)]
    for s in range(5):
        size = r.choice([0, 1, 2, n // 4, n, n])
        base, step = r.choice([0, 0, n // 2, n]), r.choice([1, 1, 2, 3])
        ks = [base + step * i for i in range(size)]
        if r.random() < .5:
            r.shuffle(ks)
        evs += [("addq", s, s, k, 0) for k in ks]
    for _ in range(30):
        op = r.choice(["union", "inter", "diff", "equal", "subset", "union", "inter", "diff"] +
                      (["compare", "sublist", "subseti"] if impl == "rs" else []))
        a, b = r.randrange(7), 0
        if op in ("sublist", "subseti"):
            a, b = r.choice([-1, r.randrange(2 * n)]), r.choice([-1, r.randrange(2 * n)])
        evs.append((op, r.choice([5, 6, 7]), r.randrange(7), a, b))
    for s in range(8):
        evs.append(("list", 0, s, 0, 0))
    return evs


def check(c):
    ins = vf.build()
    c.add_model("CollMC sets", vf.tlc("CollMC"))
    c.add_model("CollMC maps", vf.tlc("CollMC", cfg="CollMCmap"))
    exe = vf.driver(ins, "coll")
    k = vf.scale(1, 12)
    gm = vf.tlc_generate("CollMC", "CollGenMap", 30 * k, 42)
    gs = vf.tlc_generate("CollMC", "CollGenSet", 30 * k, 42)

    def one(impl):
        r = vf.rng("C08", impl)
        mp = impl in MAPS
        hs = []
        for g in gm if mp else gs:
            hs.append([("new", i, 0, 0, 0) for i in range(8)] +
                      [(e["op"], e["d"], e["s"], e["a"], e["b"]) for e in g
                       if not (e["op"] == "subseti" and impl != "rs")])
        for i in range(60 * k):
            hs.append(gen_random(r, impl, r.choice([40, 80]), r.choice([6, 12, 30, 90]), neg=r.random() < .3))
        for i in range(40 * k):
            hs.append(gen_build(r, impl, r.choice([3, 5, 8, 12, 16, 20, 30, 45])))
        for i in range(2 * k):
            hs.append(gen_build(r, impl, 150))
        if not mp:
            for i in range(25 * k):
                hs.append(gen_setops(r, impl, r.choice([4, 10, 25, 60])))
        lines = [f"{impl} {' '.join(map(str, e))}" for h in hs for e in h]
        out, bad = vf.feed(ins, exe, [l.replace("-", "~") for l in lines])
        return impl, hs, out, bad

    for impl, hs, out, bad in vf.pmap(one, MAPS + SETS):
        it = iter(out)
        evs = []
        for h in hs:
            t = []
            for e in h:
                o = next(it, None)
                if o is None:
                    break
                ev = {"impl": impl, "op": e[0], "d": e[1], "s": e[2], "a": e[3], "b": e[4], "out": [], "x": ""}
                if o.startswith("X "):
                    ev["x"] = o[2:]
                else:
                    ev["out"] = [int(x.replace("~", "-")) for x in o.split()]
                t.append(ev)
            evs.append(t)
        if bad or sum(map(len, hs)) != len(out):
            c.violation(f"{impl}: {bad or 'wrong number of replies'}", {"impl": impl, "replies": len(out)})
        rej, states = vf.tlc_traces("CollTrace", evs)
        c.add_traces(impl, len(evs), states, sum(map(len, evs)))
        c.sample({"impl": impl, "history": evs[0][8:14]})
        vf.explain(c, evs, rej, f"{impl} departs from the finite map/set")
    c.assumptions += ["sets combined by one operation share their ordering (as documented); keys are ints under three total orders; TLC evaluates specs/Coll.tla correctly"]
