"""C13: recorded histories of strings, substrings, lists and sorting are behaviours of specs/Lists.tla."""
import vf

NONE, BIG = 777777, 10**9


def gen(r, n, big):
    zl, ul, ll = list(range(6)), list(range(6)), list(range(6))    # upper bounds of the lengths
    cap = 400 if big else 40
    evs = []
    alpha = r.choice([[97, 98], [97, 98, 99], [0, 97, 98], [0, 1, 127, 128, 255, 97], list(range(256))])
    el = lambda: r.choice(alpha) if r.random() < .9 else r.randrange(256)
    sl = lambda: r.randrange(6)

    def idx(m=8):
        x = r.random()
        return r.randint(0, min(m, 4)) if x < .5 else r.randint(-1, m + 1) if x < .97 else \
            r.choice([BIG, BIG + 1, -BIG, -BIG - 1, BIG + 3])

    size = lambda m: NONE if r.random() < .25 else idx(m)
    add = lambda k, op, *p: evs.append((k, op, *p))

    def chunk():
        m = r.choice([0, 1, 2, 3, 4, 6, 9]) if not big or r.random() < .7 else r.choice([30, 64, 100, 255, 256, 257, 300])
        if r.random() < .3:                  # periodic: many partial matches
            w = [el() for _ in range(r.randint(1, 3))]
            return [w[j % len(w)] for j in range(m)]
        return [el() for _ in range(m)]
    for _ in range(n):
        k = r.choices("ZUL", [5, 7, 7])[0]
        s, t, d, d2 = sl(), sl(), sl(), sl()
        b = r.randint(1, 4)
        a = r.randrange(b)
        pc = (el() % b, b)
        parts = [sl() for _ in range(r.randrange(4))]
        m = r.randrange(3)
        if k == "Z":
            op = r.choice(["size", "sub", "extract", "extract", "substring", "substring", "concat", "implode", "implode", "concatWith", "cat",
                           "str", "explode", "map", "translate", "tokens", "fields", "compare", "compare", "collate", "fixes", "fixes", "dump"])
            if op in ("concat", "concatWith") and sum(zl[p] + zl[t] for p in parts) > cap or op == "cat" and zl[s] + zl[t] > cap:
                op = "implode"
            if op == "translate" and zl[s] > 30:
                op = "map"
            q = dict(size=(s,), sub=(s, idx(zl[s])), extract=(s, d, idx(zl[s]), size(zl[s])), substring=(s, d, idx(zl[s]), idx(zl[s])),
                     concat=(d, *parts), implode=(d, *chunk()), concatWith=(d, t, *parts), cat=(s, t, d), str=(d, el()), explode=(s, d),
                     map=(s, d, r.randrange(9)), translate=(s, d, r.randint(1, 3)), tokens=(s, *pc), fields=(s, *pc),
                     compare=(s, t), collate=(s, t, m), fixes=(s, t), dump=(s,))[op]
            if op in ("compare", "collate", "fixes") and r.random() < .6:      # near-twins
                w = chunk() if not big or r.random() < .4 else [el() for _ in range(r.randint(40, 300))]
                v = w[:]
                for _ in range(r.choice([0, 1, 1, 1])):
                    x = r.random()
                    if x < .2 and v:
                        v[r.randrange(len(v))] = el()
                    elif x < .5 and v:           # same length, several differences close together
                        at = r.randrange(len(v))
                        for j in range(at, min(len(v), at + 4)):
                            v[j] = el()
                    elif x < .7:
                        v.insert(r.randint(0, len(v)), el())
                    elif v:
                        v = v[:r.randrange(len(v))] if x < .85 else v[r.randrange(len(v)):]
                add("Z", "implode", s, *v)
                add("Z", "implode", t, *w)
                zl[s] = len(v)
                zl[t] = len(w)
            if op in ("extract", "substring", "map"):
                zl[d] = zl[s]
            elif op == "concat":
                zl[d] = sum(zl[p] for p in parts)
            elif op == "concatWith":
                zl[d] = sum(zl[p] + zl[t] for p in parts)
            elif op == "cat":
                zl[d] = zl[s] + zl[t]
            elif op == "implode":
                zl[d] = len(q) - 1
            elif op == "translate":
                zl[d] = zl[s] * 3
            elif op == "str":
                zl[d] = 1
            elif op == "explode":
                ll[d] = zl[s]
        elif k == "U":
            op = r.choice(["extract", "substring", "full", "string", "base", "isEmpty", "getc", "first", "triml", "trimr", "sub", "slice",
                           "slice", "splitAt", "splitl", "splitr", "takel", "dropl", "taker", "dropr", "position", "position", "position",
                           "span", "span", "concat", "concatWith", "explode", "compare", "collate", "fixes", "fixes", "translate", "tokens",
                           "fields", "foldl", "foldr", "app", "dump"])
            if op == "concat" and sum(ul[p] for p in parts) > cap or op == "concatWith" and sum(ul[p] + zl[t] for p in parts) > cap:
                op = "base"
            if op == "translate" and ul[s] > 30:
                op = "slice"
            K = idx(ul[s])
            two = dict.fromkeys(["splitl", "splitr", "takel", "dropl", "taker", "dropr"], (s, d, d2, *pc))
            q = dict(two, extract=(s, d, idx(zl[s]), size(zl[s])), substring=(s, d, idx(zl[s]), idx(zl[s])), full=(s, d), string=(s, d),
                     base=(s, d), isEmpty=(s,), getc=(s, d), first=(s,), triml=(s, d, K), trimr=(s, d, K), sub=(s, K),
                     slice=(s, d, K, size(ul[s])), splitAt=(s, d, d2, K), position=(s, d, d2, t), span=(s, t, d), concat=(d, *parts),
                     concatWith=(d, t, *parts), explode=(s, d), compare=(s, t), collate=(s, t, m), fixes=(s, t),
                     translate=(s, d, r.randint(1, 3)), tokens=(s, *pc), fields=(s, *pc), foldl=(s, el()), foldr=(s, el()), app=(s,), dump=(s,))[op]
            if op in ("splitAt", "splitl", "splitr", "position") and d == d2:
                q = (s, d, (d + 1) % 6, *q[3:])
                d2 = q[2]
            if op == "span" and r.random() < .8:     # two parts of one substring
                x, y = (t + 1) % 6, (t + 2) % 6
                add("U", r.choice(["splitAt"]), t, x, y, r.randint(0, 3))
                ul[x] = ul[y] = ul[t]
                q = r.choice([(x, y, d), (x, x, d), (y, x, d), (t, x, d)])
                ul[d] = max(ul[x], ul[y], ul[t])
            if op in ("position", "fixes") and r.random() < .6:   # look for a piece of the text
                p = idx(ul[s])
                add("U", "slice", s, (s + 1) % 6, max(0, p % 7), r.choice([0, 1, 2, 3]))
                add("U", "string", (s + 1) % 6, t)
                ul[(s + 1) % 6] = max(ul[s], ul[(s + 1) % 6])
                zl[t] = max(zl[t], 3, ul[(s + 1) % 6])
            if op in ("extract", "substring", "full"):
                ul[d] = zl[s]
            elif op in ("string", "translate", "base"):
                zl[d] = max(zl[d], cap) if op == "base" else ul[s] * (3 if op == "translate" else 1)
            elif op in ("getc", "triml", "trimr", "slice", "takel", "dropl", "taker", "dropr"):
                ul[d] = ul[s]
            elif op in ("splitAt", "splitl", "splitr", "position"):
                ul[d] = ul[d2] = ul[s]
            elif op == "concat":
                zl[d] = sum(ul[p] for p in parts)
            elif op == "concatWith":
                zl[d] = sum(ul[p] + zl[t] for p in parts)
            elif op == "explode":
                ll[d] = ul[s]
        else:
            op = r.choice(["list", "list", "list", "null", "hd", "tl", "last", "nth", "take", "drop", "rev", "append", "revAppend", "concat",
                           "getItem", "app", "map", "mapPartial", "filter", "partition", "find", "exists", "all", "foldl", "foldr",
                           "collate", "tabulate", "zip", "unzip", "zipEq", "pmap", "pmapEq", "papp", "pappEq", "pall", "pexists", "pallEq",
                           "pfoldl", "pfoldr", "pfoldlEq", "pfoldrEq", "sort", "sort", "sort", "asort", "asort", "sorted", "asorted", "merge",
                           "mergeUniq", "eqclasses"])
            if op in ("append", "revAppend") and ll[s] + ll[t] > cap or op == "concat" and sum(ll[p] for p in parts) > cap:
                op = "list"
            eqs = op.endswith("Eq") and r.random() < .6
            if eqs:
                ln = r.randrange(5)
                add("L", "list", s, *[r.randrange(256) for _ in range(ln)])
                add("L", "list", t, *[r.randrange(256) for _ in range(ln)])
                ll[s] = ll[t] = ln
            if op in ("merge", "mergeUniq"):
                if r.random() < .6:
                    for x in (s, t):
                        w = r.sample(range(16), r.randint(0, 7))
                        add("L", "list", x, *[v * 16 + r.randrange(16) if m == 2 else v for v in w])
                        ll[x] = len(w)
                add("L", "sort", s, s, m)
                add("L", "sort", t, t, m)
            if op in ("sort", "asort", "sorted", "eqclasses", "collate"):
                w = chunk()
                w = w if r.random() < .5 else sorted(w, reverse=r.random() < .5)
                w = [x * r.choice([1, 1, 16]) % 256 for x in w] if r.random() < .2 else w
                add("L", "list", s, *w)
                ll[s] = len(w)
            if op == "collate":
                add("L", "list", t, *w[:r.randint(0, len(w))], *chunk()[:2])
                ll[t] = len(w) + 2
            K = idx(ll[s])
            N = r.choice([0, 1, 2, 5, 9]) if r.random() < .9 else r.choice([-1, -BIG])
            q = dict(list=(d, *chunk()), null=(s,), hd=(s,), tl=(s, d), last=(s,), nth=(s, K), take=(s, d, K), drop=(s, d, K), rev=(s, d),
                     append=(s, t, d), revAppend=(s, t, d), concat=(d, *parts), getItem=(s, d), app=(s,), map=(s, d, r.randrange(9)),
                     mapPartial=(s, a, b, d), filter=(s, a, b, d), partition=(s, a, b, d, (d + 1) % 6), find=(s, a, b), exists=(s, a, b),
                     all=(s, 0, r.choice([1, 1, 2])), foldl=(s, el()), foldr=(s, el()), collate=(s, t, m), tabulate=(d, N, r.randrange(20)),
                     zip=(s, t), unzip=(s, t), zipEq=(s, t), pmap=(s, t, d), pmapEq=(s, t, d), papp=(s, t), pappEq=(s, t),
                     pall=(s, t, 0, r.choice([1, 1, 2])), pexists=(s, t, a, b), pallEq=(s, t, 0, r.choice([1, 1, 2])), pfoldl=(s, t, el()),
                     pfoldr=(s, t, el()), pfoldlEq=(s, t, el()), pfoldrEq=(s, t, el()), sort=(s, d, m), asort=(s, d, m), sorted=(s, m),
                     asorted=(s, m), merge=(s, t, d, m), mergeUniq=(s, t, d, m), eqclasses=(s, m), dump=(s,))[op]
            if op in ("list", "tabulate"):
                ll[d] = len(q) if op == "list" else 10
            elif op in ("append", "revAppend", "merge", "mergeUniq"):
                ll[d] = ll[s] + ll[t]
            elif op == "concat":
                ll[d] = sum(ll[p] for p in parts)
            elif op in ("tl", "take", "drop", "rev", "getItem", "map", "mapPartial", "filter", "partition", "sort", "asort", "pmap", "pmapEq"):
                ll[d] = max(ll[s], ll[t])
                if op == "partition":
                    ll[(d + 1) % 6] = ll[s]
        add(k, op, *q)
        if k == "U" and op in ("slice", "span", "triml", "trimr", "splitAt", "getc", "dropl"):
            add("U", "dump", q[2] if op == "span" else d)
        if k == "Z" and op in ("map", "implode", "substring"):
            add("Z", "dump", q[0])
    for s in range(6):
        evs += [(k, "dump", s) for k in "ZUL"]
    return evs


def huge(r):
    """Strings around and beyond 2^16 bytes."""
    N = r.choice([4096, 32767, 32768, 65535, 65536, 65537, 70000])
    c = r.choice([0, 97, 255])
    evs = [("Z", "rep", 0, N, c), ("Z", "rep", 1, r.choice([0, 1, 2, N - 1]), c), ("Z", "implode", 2, *[r.randrange(256) for _ in range(r.randrange(5))])]
    for _ in range(8):
        a, b, d = r.choice([(0, 2, 3), (2, 0, 4), (0, 1, 4), (1, 0, 5), (0, 2, 4)])
        evs.append(("Z", "catq", a, b, d))
        x, y = r.sample([0, 3, 4, 5], 2)
        evs.append(("Z", "compare", x, y))
        k = r.choice([0, N - 2, N - 1, N, N + 1, 32768, 65535, 65536])
        evs += [("Z", "sub", r.choice([0, 3, 4]), k), ("Z", "substring", r.choice([3, 4]), 2, k, r.choice([1, 2, 3]))]
        evs += [("U", "full", x, 0), ("U", "triml", 0, 1, k), ("U", "slice", 0, 2, k, r.choice([0, 1, 2])), ("U", "dump", 2), ("Z", "size", x)]
    return evs


def twins(r):
    """Pairs of strings that agree except in a few places."""
    evs = []
    for _ in range(30):
        n = r.choice([0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 80, 127, 200, 256, 300])
        alpha = r.choice([[97, 98], [0, 97], [0, 1, 127, 128, 255], list(range(256))])
        w = [r.choice(alpha) for _ in range(n)]
        v = w[:]
        at = r.randint(0, n)
        for j in range(at, min(n, at + r.choice([0, 1, 2, 5, 9]))):
            v[j] = r.choice(alpha)
        v = v[:r.choice([n, n, n, at])] + [r.choice(alpha) for _ in range(r.choice([0, 0, 0, 1, 8]))]
        evs += [("Z", "implode", 0, *w), ("Z", "implode", 1, *v), ("Z", "compare", 0, 1), ("Z", "compare", 1, 0)]
        evs += [("Z", "fixes", 1, 0), ("U", "extract", 0, 0, min(at, n), NONE), ("U", "full", 1, 1), ("U", "compare", 0, 1), ("U", "triml", 1, 1, min(at, len(v))),
                ("U", "compare", 0, 1), ("Z", "collate", 0, 1, 1)]
    return evs


def check(c):
    ins = vf.build()
    c.add_model("ListsMC", vf.tlc("ListsMC", cfg=vf.scale("ListsMC", "ListsMCbig")))
    exe = vf.driver(ins, "lists")
    k = vf.scale(1, 12)

    def one(job):
        part, gc = job
        r = vf.rng("C13", part, gc)
        hs = [gen(r, r.choice([20, 40, 80]), False) for _ in range(60 * k)] + [gen(r, 40, True) for _ in range(6 * k)] + [huge(r) for _ in range(k)] + [twins(r) for _ in range(k)]
        lines = [l for h in hs for l in ["reset"] + [" ".join(map(str, e)).replace("-", "~") for e in h]]
        out, bad = vf.feed(ins, exe, lines, CAMLRUNPARAM=gc)
        return job, hs, out, bad, len(lines)

    jobs = [(p, g) for p in range(4) for g in ("s=4096", "s=32768 i=4096 o=20")]
    allev = []
    for job, hs, out, bad, n in vf.pmap(one, jobs):
        it = iter(out)
        for h in hs:
            next(it, None)
            t = []
            for e in h:
                o = next(it, None)
                if o is None:
                    break
                w = o.split()
                x = w[1] if w[:1] == ["X"] else ""
                t.append({"k": e[0], "op": e[1], "p": list(e[2:]), "x": x,
                          "out": [int(v.replace("~", "-")) for v in (w[2:] if x else w)]})
            allev.append(t)
        if bad or n != len(out):
            c.violation(f"{job}: {bad or 'wrong number of replies'}", {"job": job, "replies": len(out)})
    rej, states = vf.tlc_traces("ListsTrace", allev)
    c.add_traces("lists", len(allev), states, sum(map(len, allev)))
    c.sample({"history": allev[0][:6]})
    vf.explain(c, allev, rej, "departs from the sequence operation",
               keyf=lambda h, l: h[l]["k"] + "." + h[l]["op"])
