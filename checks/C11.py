"""C11: recorded integer, word, real-conversion and IntInf operations are legal in specs/Arith.tla."""
import vf

M62, M63 = 2**62, 2**63


def big(n):
    s = (n > 0) - (n < 0)
    n, m = abs(n), []
    while n:
        m.append(n & 4095)
        n >>= 12
    return {"s": s, "m": m}


def trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def ev(t, op, a, x, r, **kw):
    b = a[1] if len(a) > 1 else 0
    q = 0
    if op == "mod" and b:
        q = a[0] // b
    elif op == "rem" and b:
        q = trunc(a[0], b)
    elif t == "R":
        q = a[0] * 2**a[1] if a[1] >= 0 else a[0] // 2**-a[1]
    return {"t": t, "op": op, "a": [big(v) for v in a], "x": x, "r": [big(v) for v in r], "q": big(q), **kw}


def number(r):
    k = r.random()
    if k < .35:
        v = 2**r.choice([0, 1, 2, 3, 7, 8, 15, 16, 30, 31, 32, 33, 48, 60, 61, 62, 62, 62]) + r.randint(-2, 2)
    elif k < .5:
        v = r.randint(0, 20)
    else:
        v = r.getrandbits(r.randint(1, 62))
    return max(-M62, min(M62 - 1, v if r.random() < .5 else -v))


def int_pair(r, op):
    a, b = number(r), number(r)
    k = r.random()
    if op == "mul" and k < .5:
        a = a or 3
        b = (r.choice([M62, M62 - 1, -M62, -M62 - 1]) + r.choice([0, 0, a, -a])) // a
    elif op in ("div", "mod", "quot", "rem"):
        b = r.choice([b, b, r.randint(-3, 3), r.randint(-20, 20), a, -a])
        if k < .4 and b:
            a = (a // b) * b + r.choice([0, 1, -1])
    elif k < .25:
        b = r.choice([a, -a, a + 1, -M62 - a, M62 - 1 - a, M62 - a])
    return max(-M62, min(M62 - 1, a)), max(-M62, min(M62 - 1, b))


I_OPS = ["add", "sub", "mul", "mul", "div", "div", "mod", "mod", "quot", "rem", "neg", "abs", "cmp", "min", "max", "sign", "same", "succ", "pred",
         "dbl", "sqr"]
W_OPS = ["add", "sub", "mul", "div", "mod", "neg", "andb", "orb", "xorb", "notb", "shl", "shr", "sar", "shl", "shr", "sar", "cmp", "min", "max",
         "toInt", "toLargeInt", "toIntX", "fromInt", "large", "fromLarge"]
ONE = {"neg", "abs", "sign", "succ", "pred", "dbl", "sqr", "notb", "toInt", "toLargeInt", "toIntX", "fromInt", "large", "fromLarge"}


def gen(r):
    """type, op, operands as the specification sees them."""
    t = r.choices("IJWBR", [6, 3, 6, 3, 2])[0]
    if t in "IJ":
        op = r.choice(I_OPS)
        a = int_pair(r, op)
    elif t == "R":
        op = r.choice(["floor", "ceil", "trunc", "round"])
        e = r.choice([-60, -30, -2, -1, -1, -1, 0, 1, 8, 9, 10, 11, 20, 40])
        m = number(r) % 2**53 * r.choice([1, -1])
        if r.random() < .4:      # near the limits and near halves
            m, e = r.choice([(2**52 + r.randint(-2, 2), 10), (2**51 + r.randint(-2, 2), 11), (2 * r.randint(0, 30) + 1, -1), (4 * r.randint(0, 9) + r.randint(0, 3), -2),
                             (2**52 + r.randint(-3, 3), -1), (2**53 - r.randint(1, 4), 9), (2**53 - 1, 10)])
            m *= r.choice([1, -1])
        a = (m, e)
    else:
        op = r.choice(W_OPS)
        n = M63 if t == "W" or op == "fromLarge" else 256
        num = lambda: number(r) % n if n == M63 else r.choice([r.randrange(256), r.choice([0, 1, 2, 127, 128, 129, 254, 255])])
        a = (num(), num())
        if op in ("div", "mod") and r.random() < .5:
            a = (a[0], r.randint(0, 9))
        if op in ("shl", "shr", "sar"):
            a = (a[0], r.choice([r.randint(0, 9), r.randint(0, 70), 7, 8, 9, 62, 63, 64, 65, 127, 128, M62 - 1, M62, M62 + 1, M63 - 1]))
        if op == "cmp" and r.random() < .3:
            a = (a[0], r.choice([a[0], (a[0] + 1) % n, (a[0] - 1) % n]))
        if op == "fromInt":
            a = (number(r),)
    return t, op, a[:1] if op in ONE else a


def corners():
    I = [s * 2**k + d for k in (1, 30, 31, 32, 61) for s in (1, -1) for d in (-1, 0, 1)] + [0, 1, -1, M62 - 1, M62 - 2, -M62, 1 - M62]
    for a in I:
        yield from (("I", op, (a,)) for op in ("neg", "abs", "succ", "pred", "dbl", "sqr"))
        yield from (("W", op, (a % M63,)) for op in ("neg", "notb", "toInt", "toLargeInt", "toIntX"))
        for b in I:
            yield from (("I", op, (a, b)) for op in ("mul",) + (("add", "sub", "div", "mod", "quot", "rem") if abs(b) < 4 or abs(b) > 2**61 else ()))
    yield from (("I", "mul", (s * 2**j + d, u * 2**(62 - j) + f)) for j in range(1, 62) for s, u in ((1, 1), (-1, 1), (1, -1)) for d, f in ((0, 0), (-1, 0), (0, -1)))
    for op in ("floor", "ceil", "trunc", "round"):
        for m, e in [(2**52, 10), (2**53 - 1, 9), (2**52 + 1, 10), (2**52, 11), (2**52, 12), (2**52 - 1, 10), (2**52, -1), (2**52 + 1, -1), (2**52 - 1, -1), (0, 0), (2**53 - 1, -54), (2**53 - 1, -53), (2**52 + 1, 0), (2**53 - 1, 0), (2**53 - 3, -1), (2**53 - 1, -2), (2**52 + 1, -52), (1, -1074 + 52)] + [(n, -1) for n in range(8)]:
            yield from (("R", op, (s * m, e)) for s in (1, -1))


def enc(t, op, a):
    if t in "WB" and op != "fromInt":
        a = [v - M63 if v >= M62 else v for v in a]
    return " ".join([t, op, *map(str, a)]).replace("-", "~")


def dec(t, op, out):
    if out.startswith("X "):
        return out[2:], []
    r = [int(v.replace("~", "-")) for v in out.split()]
    if t in "WB" and op not in ("toInt", "toLargeInt", "toIntX", "cmp"):
        r = [v % M63 for v in r]
    return "", r


SYM = dict(add="+", sub="-", mul="*", div="div", mod="mod")


def literal_program(r, n):
    """A program whose operations have literal operands on one or both sides."""
    evs, src = [], ['fun i n = print (Int.toString n ^ "\\n") fun w x = i (Word.toIntX x) fun b x = i (Word8.toInt x)\n'
                    'fun c (p, q, r, s) = i ((if p then 1 else 0) + (if q then 2 else 0) + (if r then 4 else 0) + (if s then 8 else 0))\n'
                    'fun t f x = f x handle e => print ("X " ^ General.exnName e ^ "\\n")\n']
    while len(evs) < n:
        t, op, a = gen(r)
        if t in "JR" or op not in SYM and not (op in ("neg", "abs") and t == "I") and op != "cmp":
            continue
        lit = {"I": lambda v: str(v).replace("-", "~"), "W": lambda v: f"0w{v}" if v % 2 else f"0wx{v:x}", "B": lambda v: f"0w{v}"}[t]
        ty = {"I": "int", "W": "word", "B": "Word8.word"}[t]
        pr = {"I": "i", "W": "w", "B": "b"}[t]
        k = r.randrange(3)
        x, y = ["v" if k == 1 else f"({lit(a[0])}:{ty})", "v" if k == 2 else f"({lit(a[1])}:{ty})"] if len(a) == 2 else ["v" if k else f"({lit(a[0])}:{ty})", ""]
        v = lit(a[0 if k == 1 or len(a) == 1 else 1])
        if op == "cmp":
            body = f"c ({x} < {y}, {x} <= {y}, {x} > {y}, {x} = {y})"
        elif op in SYM:
            body = f"{pr} ({x} {SYM[op]} {y})"
        else:
            body = f"{pr} ({'~' if op == 'neg' else 'abs'} {x})"
        if r.random() < .3:      # the variable bound by a declaration the compiler can see
            src.append(f"val _ = t (fn () => let val v = {v} : {ty} in {body} end) ()\n")
        else:
            src.append(f"val _ = t (fn v : {ty} => {body}) {v}\n")
        evs.append((t, op, a))
    return evs, "".join(src)


def zgen(r, n):
    """A history over IntInf slots; sizes are kept below about 700 bits by tracking values."""
    z = [0] * 6
    ops = []

    def add(op, *p, txt=None):
        ops.append((op, p, txt))
    for d in range(r.randrange(6)):
        z[d] = (2**r.choice([31, 32, 32, 63, 64, 65, 96, 127, 128]) + r.choice([-2, -1, -1, 0, 1, r.getrandbits(30)])) * r.choice([1, 1, -1])
        add("read", d, 10, *map(ord, str(z[d])))
    for _ in range(n):
        s, u, d, d2 = (r.randrange(6) for _ in range(4))
        if d == d2:
            d2 = (d + 1) % 6
        op = r.choice(["add", "sub", "mul", "mul", "div", "quot", "mod", "rem", "divMod", "quotRem", "quotRem", "divMod", "neg", "abs", "min", "max", "pow", "log2", "cmp",
                       "cmp", "sign", "same", "fromInt", "toInt", "toInt", "show", "show", "read", "read", "read", "dump"])
        a, b = z[s], z[u]
        if op == "mul" and abs(a * b) >= 2**700:
            op = "mod"
        if op in ("add", "sub", "mul", "min", "max"):
            z[d] = dict(add=a + b, sub=a - b, mul=a * b, min=min(a, b), max=max(a, b))[op]
            add(op, s, u, d)
        elif op in ("div", "quot", "mod", "rem"):
            if b:
                q = a // b if op in ("div", "mod") else trunc(a, b)
                z[d] = q if op in ("div", "quot") else a - q * b
            add(op, s, u, d, txt=(a, b))
        elif op in ("divMod", "quotRem"):
            if b:
                q = a // b if op == "divMod" else trunc(a, b)
                z[d], z[d2] = q, a - q * b
            add(op, s, u, d, d2)
        elif op in ("neg", "abs"):
            z[d] = -a if op == "neg" else abs(a)
            add(op, s, d)
        elif op == "pow":
            e = r.choice([-3, -2, -1, 0, 1, 2, 3, 5, 8, 17])
            while e > 1 and abs(a)**e >= 2**700:
                e -= 1
            if e >= 0:
                z[d] = a**e
            elif a:
                z[d] = 0 if abs(a) > 1 else 1 if e % 2 == 0 else a
            add(op, s, d, e)
        elif op == "fromInt":
            z[d] = r.choice([number(r), number(r), number(r), r.choice([-1, 1, 0, -2, 2])])
            add(op, d, z[d])
        elif op == "show":
            add(op, s, r.choice([2, 8, 10, 10, 16]), r.randrange(2))
        elif op == "read":
            base = r.choice([2, 8, 10, 10, 16])
            v = r.choice([number(r), r.getrandbits(r.randint(1, 500)), 2**r.randint(60, 130) + r.randint(-1, 1), r.randint(0, 9)])
            digs = (bin(v)[2:] if base == 2 else oct(v)[2:] if base == 8 else str(v) if base == 10 else hex(v)[2:]) if v >= 0 else ""
            if base == 16 and r.random() < .5:
                digs = digs.upper()
            txt = r.choice(["", "", "", " ", "\t \n"]) + r.choice(["", "", "~", "-", "+"]) + r.choice(["", "", "0", "000"]) + digs + \
                r.choice(["", "", " ", "g", "x1", "8", "2", "-", "~", " 1", "9", "@", "`", "/", ":"])
            if r.random() < .1:
                txt = r.choice(["", "~", "-", "+", " ", "~ 1", "+~1", "--1", "x", "~~1", "0x10", "\v1", "- 5"])
            # what reading leaves, for keeping track of sizes only
            t = txt.lstrip(" \t\n\v\f\r")
            sg = t[:1] in ("~", "-", "+") and t[:1] or ""
            t = t[len(sg):]
            k = 0
            while k < len(t) and t[k] in "0123456789abcdefABCDEF" and int(t[k], 16) < base:
                k += 1
            if k:
                z[d] = int(t[:k], base) * (-1 if sg in ("~", "-") and sg else 1)
            add(op, d, base, *map(ord, txt))
        else:
            add(op, *((s, u) if op in ("cmp", "same") else (s,)))
            if op == "cmp" and r.random() < .5:
                add("sub", s, u, d)
                z[d] = a - b
    for s in range(6):
        add("dump", s)
    return ops


def zevent(op, p, w, out):
    x = out[2:] if out.startswith("X ") else ""
    e = {"t": "Z", "op": op, "p": list(p[:4]), "a": [], "x": x, "r": [], "q": big(0), "s": []}
    if op == "read":
        e["p"], e["s"] = list(p[:2]), list(p[2:])
    if op == "fromInt":
        e["p"], e["a"] = [p[0]], [big(p[1])]
    if op in ("mod", "rem") and w[1]:
        e["q"] = big(w[0] // w[1] if op == "mod" else trunc(*w))
    if not x:
        if op == "show":
            e["s"] = [int(v) for v in out.split()]
        else:
            for v in out.split():
                if "," in v or op not in ("cmp", "sign", "same", "toInt", "log2", "read"):
                    m = [int(k.replace("~", "-")) for k in v.split(",")]
                    e["r"].append({"s": m[0], "m": m[1:]})
                else:
                    e["r"].append(big(int(v.replace("~", "-"))))
    return e


def check(c):
    ins = vf.build(extra=("intinf",))
    c.add_model("ArithMC", vf.tlc("ArithMC", cfg=vf.scale("ArithMC", "ArithMCbig")))
    work = vf.scratch("c11")
    exe, zexe = vf.driver(ins, "arith"), vf.driver(ins, "bigint")
    k = vf.scale(1, 15)
    hists = []

    def direct(i):
        r = vf.rng("C11", "direct", i)
        evs = [gen(r) for _ in range(1200 * k)] + [e for j, e in enumerate(corners()) if j % 4 == i]
        out, bad = vf.feed(ins, exe, [enc(*e) for e in evs])
        return f"direct {i}", [ev(e[0], e[1], e[2], *dec(e[0], e[1], o)) for e, o in zip(evs, out)], bad or (len(out) != len(evs) and "wrong number of replies")

    def literals(i):
        r = vf.rng("C11", "literals", i)
        evs, src = literal_program(r, 300)
        open(f"{work}/lit{i}.sml", "w").write(src)
        rc, o = vf.mosmlc(ins, work, f"lit{i}.sml", f"lit{i}.exe", "-toplevel")
        if rc != 0:
            return f"literals {i}", [], "compilation failed: " + o[-600:]
        rc, o, e = vf.run([f"{work}/lit{i}.exe"], env=ins.env(), timeout=60)
        out = o.splitlines()
        res = []
        for e1, o1 in zip(evs, out):
            t, op, a = e1
            if op == "cmp":
                n = int(o1)
                res += [ev(t, "cmp", a, "", [9 if n not in (3, 6, 12, 10, 4, 0) else {3: -1, 4: 1, 10: 0}.get(n, 9), n & 1, n >> 1 & 1, n >> 2 & 1, int(not n & 1), n >> 3 & 1, int(not n & 8)])]
            else:
                res.append(ev(t, op, a, *dec(t, op, o1), lit=True))
        return f"literals {i}", res, (rc or len(out) != len(evs)) and f"status {rc}, {len(out)} of {len(evs)} replies: {str(e)[-200:]}"

    def bigs(i):
        r = vf.rng("C11", "bigs", i)
        hs = [zgen(r, r.choice([10, 20, 40])) for _ in range(48 * k)]
        lines = [l for h in hs for l in ["reset"] + [" ".join([op, *map(str, p)]).replace("-", "~") for op, p, _ in h]]
        out, bad = vf.feed(ins, zexe, lines, CAMLRUNPARAM=("s=4096", "s=32768 i=4096 o=20")[i % 2])
        it, res = iter(out), []
        for h in hs:
            next(it, None)
            res.append([zevent(op, p, w, o) for (op, p, w), o in zip(h, it)])
        return f"IntInf {i}", res, bad or (len(out) != len(lines) and "wrong number of replies")

    jobs = [(direct, i) for i in range(4)] + [(literals, i) for i in range(vf.scale(6, 40))] + [(bigs, i) for i in range(8)]
    for name, evs, bad in vf.pmap(lambda j: j[0](j[1]), jobs):
        hists += evs if name.startswith("IntInf") else [evs[j:j + 60] for j in range(0, len(evs), 60)]
        if bad:
            c.violation(f"{name}: {bad}", {"job": name})
    rej, states = vf.tlc_traces("ArithTrace", hists)
    c.add_traces("arithmetic", len(hists), states, sum(map(len, hists)))
    c.sample({"history": hists[0][:4]})
    vf.explain(c, hists, rej, "is not the exact result",
               keyf=lambda h, l: h[l]["t"] + "." + h[l]["op"])
