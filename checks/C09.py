"""C09: recorded histories of Polyhash, Hashset, Dynarray, Buffer and Susp are behaviours of specs/Tables.tla."""
import vf


def gen(r, kind, n, big):
    evs, live = [], []
    keys = r.choice([4, 10, 60, 200] if big else [4, 10, 40])
    sc = lambda: r.choice(live)
    K = lambda: r.randrange(keys) * r.choice([1, 1, 32])

    def new():
        d = r.randrange(8)
        if d not in live:
            live.append(d)
        return d
    def make():
        d = new()
        if kind == "p":
            return ("pnew", d, 0, r.randrange(6), r.choice([0, 1, 32, 33, 64, 100]))
        if kind == "h":
            return r.choice([("hnew", d, 0, r.randrange(5), 0), ("hsingle", d, 0, r.randrange(5), K())])
        if kind == "d":
            return r.choice([("darray", d, 0, r.randrange(5), r.randrange(3)), ("dfromlist", d, 0, r.randrange(12), r.randrange(3)),
                             ("dtab", d, 0, r.randrange(12), r.randrange(3))])
        if kind == "b":
            return ("bnew", d, 0, r.choice([1, 1, 2, 3, 8, 16, 100]), 0)
        return ("sdelay", d, 0, r.randrange(50), r.choice([0, 0, 1]))
    for _ in range(3):
        evs.append(make())
    for _ in range(n):
        s = sc()
        if r.random() < .02:
            evs.append(make())
            continue
        if r.random() < .03:
            if r.random() < .5 or kind in ("b", "s"):
                evs.append(("alias", new(), s, 0, 0))
            continue
        if kind == "p":
            op = r.choices(["pins", "ppeekins", "pfind", "ppeek", "prem", "pnum", "plist", "papp", "pmap", "ptransf",
                            "pfilter", "pcopy", "pbuckets"], [24, 8, 8, 6, 14, 3, 3, 2, 1, 1, 1, 2, 1])[0]
            b = r.randint(2, 5)
            if op in ("pins", "ppeekins"):
                evs.append((op, 0, s, K(), r.randrange(1000)))
            elif op == "pfilter":
                evs.append((op, 0, s, r.randrange(b), b))
            elif op in ("pmap", "ptransf", "pcopy"):
                evs.append((op, new(), s, r.randrange(9), 0))
            else:
                evs.append((op, 0, s, K(), 0))
        elif kind == "h":
            op = r.choices(["hadd", "haddlist", "hdel", "hmember", "hretrieve", "hpeek", "hisempty", "hsubset", "hequal",
                            "hnum", "hlist", "happ", "hfold", "hall", "hexists", "hfind", "hcopy", "hhash"],
                           [20, 2, 14, 5, 4, 4, 1, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2, 1])[0]
            if op == "haddlist":
                evs.append((op, 0, s, r.randint(1, 20), r.randrange(30)))
            elif op in ("hsubset", "hequal"):
                evs.append((op, 0, s, sc(), 0))
            elif op in ("hall", "hexists", "hfind"):
                b = r.randint(2, 5)
                evs.append((op, 0, s, r.randrange(b), b))
            elif op == "hcopy":
                evs.append((op, new(), s, 0, 0))
            else:
                evs.append((op, 0, s, K(), 0))
        elif kind == "d":
            op = r.choices(["dsub", "dsubs", "dupd", "ddefault", "dbound", "dsubarr", "dneg"], [10, 6, 16, 1, 3, 3, 1])[0]
            if op == "dsub":
                evs.append((op, 0, s, r.choice([-1, -2, r.randrange(40), r.randrange(400)]), 0))
            elif op == "dsubs":
                evs.append((op, 0, s, r.randrange(20), r.randrange(30)))
            elif op == "dupd":
                evs.append((op, 0, s, r.choice([-1, r.randrange(20), r.randrange(20), r.randrange(100), r.randrange(300)]), r.randrange(4)))
            elif op == "dsubarr":
                a = r.randrange(40)
                b = a + r.randint(-2, 30)
                evs.append((op, new() if b >= a else s, s, a, b))
            elif op == "dneg":
                evs.append((r.choice(["darray", "dtab"]), s, 0, -r.randint(1, 3), 0))
            else:
                evs.append((op, 0, s, 0, 0))
        elif kind == "b":
            op = r.choices(["bchar", "bstr", "bsub", "bcont", "bheld", "bsize", "bclear", "breset", "bneg"],
                           [12, 8, 6, 4, 5, 4, 1, 1, .5])[0]
            if op in ("bstr", "bsub"):
                evs.append((op, 0, s, r.randrange(256), r.choice([0, 1, 2, 3, 5, 8, 16, 40])))
            elif op == "bcont":
                evs.append((op, r.randrange(8), s, 0, 0))
            elif op == "bheld":
                evs.append((op, 0, r.randrange(8), 0, 0))
            elif op == "bneg":
                evs.append(("bnew", s, 0, -r.randrange(2), 0))
            else:
                evs.append((op, 0, s, r.randrange(256), 0))
        else:
            op = r.choices(["sforce", "sruns", "sdelay", "schain"], [12, 1, 3, 4])[0]
            if op == "sdelay":
                evs.append((op, new(), 0, r.randrange(50), r.choice([0, 0, 1])))
            elif op == "schain":
                s = sc()
                evs.append((op, new(), s, r.randrange(9), 0))
            else:
                evs.append((op, 0, s, 0, 0))
    tail = {"p": "plist", "h": "hlist", "b": "bcont", "s": "sforce"}.get(kind)
    if tail:
        evs += [(tail, s, s, 0, 0) for s in live]
    else:
        evs += [("dsubs", s, s, 0, 60) for s in live]
    if kind == "b":
        evs += [("bheld", 0, s, 0, 0) for s in range(8)]
    return evs


def check(c):
    ins = vf.build()
    c.add_model("TablesMC", vf.tlc("TablesMC", cfg=vf.scale("TablesMC", "TablesMCbig")))
    exe = vf.driver(ins, "tables")
    k = vf.scale(1, 15)

    def one(kind):
        r = vf.rng("C09", kind)
        hs = [gen(r, kind, r.choice([30, 60, 120]), False) for _ in range(60 * k)]
        hs += [gen(r, kind, 500, True) for _ in range(6 * k)]
        lines = [l for h in hs for l in ["reset"] + [" ".join(map(str, e)).replace("-", "~") for e in h]]
        out, bad = vf.feed(ins, exe, lines)
        return kind, hs, out, bad, len(lines)

    for kind, hs, out, bad, n in vf.pmap(one, "phdbs"):
        it = iter(out)
        evs = []
        for h in hs:
            next(it, None)
            t = []
            for e in h:
                o = next(it, None)
                if o is None:
                    break
                x = o[2:] if o.startswith("X ") else ""
                t.append({"op": e[0], "d": e[1], "s": e[2], "a": e[3], "b": e[4], "x": x,
                          "out": [] if x else [int(v.replace("~", "-")) for v in o.split()]})
            evs.append(t)
        if bad or n != len(out):
            c.violation(f"{kind}: {bad or 'wrong number of replies'}", {"kind": kind, "replies": len(out)})
        rej, states = vf.tlc_traces("TablesTrace", evs)
        c.add_traces(kind, len(evs), states, sum(map(len, evs)))
        c.sample({"kind": kind, "history": evs[0][:6]})
        vf.explain(c, evs, rej, "departs from the abstract container")
