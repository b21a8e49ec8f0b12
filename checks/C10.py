"""C10: recorded histories of arrays, vectors, slices and matrices are behaviours of specs/Arrays.tla."""
import vf

NONE, BIG = 777777, 10**9


def gen(r, n, big):
    H = 40 if big else 9

    def idx():
        return r.choice([r.randint(-1, H), r.randint(0, 5), r.randint(0, 3)]) if r.random() < .97 else \
            r.choice([BIG, BIG + 1, -BIG, -BIG - 1, BIG + 3])

    def size():
        return NONE if r.random() < .25 else idx()

    def length():
        x = r.random()
        return r.randint(0, 8) if x < .9 else r.choice([16, 17, 33, 40]) if x < .96 else \
            r.choice([-1, BIG, -BIG]) if x < .98 or not big else r.choice([255, 256, 257, 300, 600])
    el = lambda: r.randrange(256)
    sl = lambda: r.randrange(6)
    lens = lambda m: [el() for _ in range(r.choice([0, 1, 2, 3, 5, 8, m]))]
    evs = []
    add = lambda k, op, *p: evs.append((k, op, *p))
    read = ["length", "sub", "find", "findi", "exists", "all", "app", "appi", "foldl", "foldr", "foldli", "foldri", "collate", "dump"]
    for _ in range(n):
        k = r.choices("AVSTM", [5, 4, 5, 4, 6])[0]
        s, d = sl(), sl()
        if k == "M":
            s, d = r.randrange(4), r.randrange(4)
            i = lambda: r.choice([r.randint(-1, 4), r.randint(0, 2), r.randint(0, 3)]) if r.random() < .97 else r.choice([BIG, -BIG, BIG + 1])
            z = lambda: NONE if r.random() < .3 else i()
            dim = lambda: r.choice([0, 1, 2, 3, 4, 5] if r.random() < .95 else [-1])
            op = r.choices(["alias", "new", "tab", "list", "dump", "eq", "sub", "upd", "row", "col", "fold", "app", "modify",
                            "appi", "foldi", "modifyi", "copy"], [1, 2, 4, 2, 1, 1, 3, 4, 2, 2, 2, 2, 2, 3, 3, 4, 10])[0]
            t = r.randrange(2)
            a = dict(alias=(s, d), new=(d, dim(), dim(), el()), tab=(d, t, dim(), dim(), r.randrange(9)), dump=(s,), eq=(s, d),
                     sub=(s, i(), i()), upd=(s, i(), i(), el()), row=(s, i(), sl()), col=(s, i(), sl()), fold=(s, t), app=(s, t),
                     modify=(s, t, r.randrange(9)), appi=(s, t, i(), i(), z(), z()), foldi=(s, t, i(), i(), z(), z()),
                     modifyi=(s, t, i(), i(), z(), z(), r.randrange(9)), copy=(s, r.choice([s, d]), i(), i(), z(), z(), i(), i())).get(op)
            if op == "list":
                w = r.randrange(4)
                a = (d, el(), *[w if r.random() < .95 else r.randrange(4) for _ in range(r.randrange(5))])
            if op == "copy" and r.random() < .5:
                r0, c0 = r.randrange(3), r.randrange(2)
                a = (s, r.choice([s, d]), r0, c0, NONE if r.random() < .3 else r.randrange(3), NONE if r.random() < .3 else r.randrange(3),
                     r.randrange(3), r.randrange(3))
            add(k, op, *a)
            if op in ("modify", "modifyi", "copy", "upd", "tab", "new", "list"):
                add(k, "dump", a[1] if op == "copy" else a[0])
            continue
        own = {"A": ["vector", "new", "tab", "list", "alias", "eq", "upd", "modify", "modifyi", "modifyx", "modifys", "copy", "full", "slice"],
               "V": ["map", "mapi", "concat", "tab", "list", "eq", "upd", "copy", "full", "slice"],
               "S": ["isEmpty", "vector", "upd", "modify", "modifyi", "modifyx", "modifys", "copy", "slice", "base", "getItem"],
               "T": ["isEmpty", "vector", "map", "mapi", "concat", "copy", "slice", "base", "getItem"]}[k]
        op = r.choice(read if r.random() < .35 else own + ["slice", "copy"] * 2)
        b = r.randint(1, 4)
        pred = (s, r.randrange(b), b)
        a = dict(length=(s,), sub=(s, idx()), find=pred, findi=pred, exists=pred, all=(s, 0, r.choice([1, 1, 2])), app=(s,), appi=(s,),
                 foldl=(s, el()), foldr=(s, el()), foldli=(s, el()), foldri=(s, el()), collate=(s, d, r.randrange(3)), dump=(s,),
                 vector=(s, d), new=(d, length(), el()), alias=(s, d), eq=(s, r.choice([s, d])), modify=(s, r.randrange(9)),
                 modifyi=(s, r.randrange(9)), modifyx=(s, r.randint(1, 6)), modifys=(s,), copy=(s, d, r.choice([idx(), 0, 1])),
                 full=(s, d), slice=(s, d, r.choice([idx(), 0, 1, 2]), size()), isEmpty=(s,), base=(s, d), getItem=(s, d),
                 map=(s, d, r.randrange(9)), mapi=(s, d, r.randrange(9)), concat=(d, *[sl() for _ in range(r.randrange(4))]),
                 list=(d, *lens(H))).get(op)
        if op == "tab":
            ln = length()
            a = (d, ln, r.randrange(20), ln if r.random() < .9 or abs(ln) > 1000 else r.randint(0, 3))
            if abs(a[3]) > 1000 or a[3] < 0:
                a = (*a[:3], 0)
        if op == "upd":
            a = (s, idx(), el()) + ((d,) if k == "V" else ())
        if op == "copy" and r.random() < .4 and k == "S":   # overlapping: make the destination the base of the slice
            add("S", "base", s, d)
        add(k, op, *a)
        if op in ("upd", "modifyx", "modifys", "modify", "modifyi"):
            add(*(("V", "dump", d) if k == "V" else (k, "dump", s)))
        elif op == "copy":
            add("A", "dump", d)
        elif op in ("tab", "list", "new", "map", "mapi", "base"):
            add("A" if op == "new" or k in "AS" else "V", "dump", d if op not in ("tab", "list", "new") else a[0])
        elif op in ("slice", "full", "getItem"):
            add("S" if k in "AS" else "T", "dump", d)
        if k != "M" and op == "modifyi" and k == "S":
            add("S", "base", s, d)
            add("A", "dump", d)
    for s in range(6):
        evs += [(k, "dump", s) for k in "AVST"]
    evs += [("M", "dump", s) for s in range(4)]
    return evs


def huge(r):
    """Arrays around and beyond 2^16 elements."""
    N = r.choice([4096, 32767, 32768, 65535, 65536, 65537, 70000])
    evs = [("A", "new", 0, N, r.randrange(1, 256)), ("A", "new", 1, r.choice([N, 70000, 300]), 7)]
    pos = lambda: r.choice([0, 1, N - 2, N - 1, N, 32768, 65534, 65535, 65536])
    for _ in range(8):
        k = pos()
        evs += [("A", "upd", 0, k, r.randrange(256)), ("A", "sub", 0, k), ("A", "sub", 0, pos()), ("A", "length", 0)]
        n = r.choice([0, 1, 5, NONE, N // 2])
        evs += [("A", "slice", 0, 0, k, n), ("S", "copy", 0, r.choice([0, 1]), r.choice([0, 1, 2, 7, 65536])), ("A", "sub", 1, pos()), ("A", "sub", 0, pos()),
                ("A", "slice", 0, 1, max(k - 3, 0), r.choice([2, 5])), ("S", "dump", 1), ("A", "collate", 0, 1, 0)]
    return evs


def check(c):
    ins = vf.build()
    c.add_model("ArraysMC", vf.tlc("ArraysMC", cfg=vf.scale("ArraysMC", "ArraysMCbig")))
    exe = vf.driver(ins, "arrays")
    k = vf.scale(1, 12)

    def one(job):
        fam, gc = job
        r = vf.rng("C10", fam, gc)
        hs = [gen(r, r.choice([20, 40, 80]), False) for _ in range(50 * k)] + [gen(r, 60, True) for _ in range(8 * k)] + [huge(r) for _ in range(k)]
        lines = [l for h in hs for l in [f"reset {fam}"] + [" ".join(map(str, e)).replace("-", "~") for e in h]]
        out, bad = vf.feed(ins, exe, lines, CAMLRUNPARAM=gc)
        return job, hs, out, bad, len(lines)

    jobs = [(f, g) for f in "cwib" for g in ("s=4096", "s=32768 i=4096 o=20")]
    allev = []
    for job, hs, out, bad, n in vf.pmap(one, jobs):
        it = iter(out)
        for h in hs:
            next(it, None)
            t = []
            for e in h:
                o = next(it, None)
                if o is None:
                    break
                x = o[2:] if o.startswith("X ") else ""
                t.append({"k": e[0], "op": e[1], "p": list(e[2:]), "x": x,
                          "out": [] if x else [int(v.replace("~", "-")) for v in o.split()], "fam": job[0]})
            allev.append(t)
        if bad or n != len(out):
            c.violation(f"{job}: {bad or 'wrong number of replies'}", {"job": job, "replies": len(out)})
    rej, states = vf.tlc_traces("ArraysTrace", allev)
    c.add_traces("arrays", len(allev), states, sum(map(len, allev)))
    c.sample({"history": allev[0][:6]})
    vf.explain(c, allev, rej, "departs from the mathematical sequence operation",
               keyf=lambda h, l: h[l]["k"] + "." + h[l]["op"])
