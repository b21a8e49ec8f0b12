"""C12: conversions between values and texts are those of specs/Convert.tla."""
import vf

M62, M63 = 2**62, 2**63


def big(n):
    s = (n > 0) - (n < 0)
    n, m = abs(n), []
    while n:
        m.append(n & 4095)
        n >>= 12
    return {"s": s, "m": m}


def hx(s):
    return bytes(s).hex() or "-"


def un(w):
    return list(bytes.fromhex(w.replace("-", "")))


def num(w):
    return int(w.replace("~", "-"))


def sml(n):
    return str(n).replace("-", "~")


def codes(s):
    return list(s.encode("latin-1"))


def base(n, r):
    ds = ""
    while n or not ds:
        ds = "0123456789abcdef"[n % r] + ds
        n //= r
    return ds


def whole(r, w):
    """A number, often at the edge of w bits."""
    return r.choice([r.randrange(300), r.randrange(10**9), (1 << (w - 1)) + r.randrange(-2, 3), (1 << w) + r.randrange(-2, 3), r.randrange(1 << w),
                     (1 << r.randrange(w + 4)) + r.randrange(-1, 2), 10 ** r.randrange(22) + r.randrange(-1, 2), (1 << (w + 1)) - 1]) % (1 << (w + 5))


TAILS = ["", "", "", " ", "x", "9", "f", "G", "~", ".", "+5", "-1", "e", "0", "w", "\0", "\xff", ":", " 12", "/", "@", "`", "g"]
SPACES = ["", "", "", "", " ", "\n", " \t\r\n\x0b\x0c", "\x08", "\x0e", "\xa0"]


def numeral(r, w, radix, signed):
    t = base(whole(r, w), radix)
    t = r.choice([t, t.upper(), "0" * r.choice([1, 2, 30]) + t, "", t[:1], r.choice(["2", "8", "9", "a", "f", "g", "G", "/", ":", "@"]) + t]) if r.random() < .5 else t
    pre = r.choice(["", "", "", "0", "0x", "0X", "0w", "0wx", "0wX", "0W", "0xx", "0w0x", "x", "w"])
    sign = r.choice(["", "", "~", "-", "+", "~-", "+ "] if signed else ["", "", "", "~", "+"])
    return codes(r.choice(SPACES) + sign + pre + t + r.choice(TAILS))


def decimal(r):
    k = r.random()
    ds = lambda n: "".join(r.choice("0123456789") for _ in range(n))
    m = r.choice([ds(1), ds(r.randrange(1, 20)), "0", "00", ds(25), "9" * r.randrange(1, 18), "1" + "0" * r.randrange(18), "0" * 20 + ds(3), ""])
    f = r.choice(["", "", ".", "." + ds(1), "." + ds(r.randrange(1, 20)), ".0", "." + "0" * r.randrange(25) + ds(2), "..5", ".x"])
    e = r.choice(["", "", "", "e", "E", "e~", "E+", "e-", "ee5"]) if r.random() < .7 else ""
    if r.random() < .5:
        e = r.choice("eE") + r.choice(["", "~", "-", "+", "~~"]) + r.choice([ds(1), ds(2), "0", "007", "22", "100", "200", "240"] + (["401", "999", "12345678901"] if k < .2 else []))
    return codes(r.choice(SPACES) + r.choice(["", "", "~", "-", "+", "~+"]) + m + f + e + r.choice(TAILS))


def literal(r):
    k = r.choice("iixxwwvvrrr")
    if k == "r":
        ds = lambda n: "".join(r.choice("0123456789") for _ in range(n))
        t = r.choice(["", "~"]) + (ds(r.randrange(1, 18)) or "0") + r.choice(["", "." + ds(r.randrange(1, 18))])
        t += r.choice(["", r.choice("eE") + r.choice(["", "~"]) + r.choice([ds(1), ds(2), "100", "005", "0", "270", "0012"])])
        return k, codes(t), False
    neg = k in "ix" and r.random() < .5
    n = whole(r, 63)
    t = base(n, 10 if k in "iw" else 16)
    t = r.choice([t, t.upper(), "0" * r.randrange(25) + t])
    return k, codes(("~" if neg else "") + {"i": "", "x": "0x", "w": "0w", "v": "0wx"}[k] + t), neg


ESC = ["\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r", "\\\"", "\\\\", "\\?", "\\'", "\\^@", "\\^_", "\\^A", "\\^`", "\\^?", "\\^", "\\065", "\\255", "\\256", "\\999", "\\6", "\\06", "\\0651",
       "\\101", "\\377", "\\400", "\\7", "\\18", "\\08", "\\8", "\\x41", "\\x", "\\xfff", "\\xFf", "\\xg", "\\x00000041", "\\x100", "\\ \\", "\\\n\t \\", "\\  x", "\\ \\\\ \\", "\\ \x0b\r\x0c\\", "\\\r\\", "\\c", "\\A", "\\e", "\\\xff", "\\0"]


def escaped(r):
    return codes("".join(r.choice([r.choice(ESC), r.choice(ESC), chr(r.randrange(256)), chr(r.randrange(32, 127)), r.choice("a\"'?0189fF\\")]) for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12]))))


def real(r):
    m = r.choice([0, 1, 5, 10, 999999, 123456789, r.randrange(1, 2**53), r.randrange(1, 2**53), 10 ** r.randrange(1, 16), 10 ** r.randrange(1, 16) - 1, 5 * 10 ** r.randrange(15), r.randrange(1, 1000)])
    e = r.choice([0, 0, 0, -1, -2, -3, -10, r.randrange(-70, 70), r.randrange(-70, 10), r.randrange(-70, 10)])
    if r.random() < .04:
        e = r.choice([r.randrange(-1000, 900), 1023 - max(m.bit_length(), 1)])
    return (m if r.random() < .6 else -m), e


def event(r):
    op = r.choice(["iscan"] * 5 + ["wscan"] * 4 + ["bscan"] * 3 + ["oscan"] + ["rscan"] * 5 + ["ifmt"] * 3 + ["wfmt", "wfmt", "bfmt"] + ["rfmt"] * 8 + ["rspec"] + ["lit"] * 5
                  + ["char", "cfrom", "cfrom", "str", "str", "sfrom", "sfrom", "sfrom", "class", "contains", "chr", "pad", "split", "split", "ofmt"])
    if op in ("iscan", "wscan", "bscan"):
        radix = r.choice([2, 8, 10, 10, 16, 16])
        t = numeral(r, 8 if op == "bscan" else 63, radix if r.random() < .9 else 16, op == "iscan")
        return f"{op} {radix} {hx(t)}", {"op": op, "r": radix, "t": t}
    if op == "oscan":
        t = codes(r.choice(SPACES) + r.choice(["true", "false", "True", "FALSE", "tru", "fals", "", "t", "truefalse", "trueX", "falsee", "tRuE"]) + r.choice(TAILS))
        return f"oscan {hx(t)}", {"op": op, "t": t}
    if op == "rscan":
        t = decimal(r)
        return f"rscan {hx(t)}", {"op": op, "t": t}
    if op in ("ifmt", "wfmt", "bfmt"):
        radix = r.choice([2, 8, 10, 10, 16, 16])
        v = whole(r, 8 if op == "bfmt" else 63)
        v = v % (256 if op == "bfmt" else M63)
        a = v if op == "bfmt" or v < M62 else v - M63
        return f"{op} {radix} {sml(a)}", {"op": op, "r": radix, "v": big(a if op == "ifmt" else v)}
    if op in ("rfmt", "rspec"):
        k = r.choice("FSG")
        d = r.choice([0, 1, 2, 3, 5, 10, 15, 16, 17, r.randrange(0, 30), r.choice([-1, 0, 401, 100])])
        n = "none" if r.random() < .3 else sml(d)
        if op == "rspec":
            d = r.choice([-1, 0, 1, 400, 401, 10**9])
            n = sml(d)
            return f"rspec {k} {n}", {"op": op, "k": k, "n": n, "d": d}
        m, e = real(r)
        if abs(e) > 200 and r.random() < .5 and n != "none":
            d = r.choice([200, 300, 400])
            n = sml(d)
        return f"rfmt {k} {n} {sml(m)} {sml(e)}", {"op": op, "k": k, "n": n, "d": d, "m": big(m), "e": e}
    if op == "lit":
        k, t, neg = literal(r)
        return f"lit {k} {hx(t)}", {"op": op, "k": k, "t": t, "neg": neg}
    if op in ("char", "class"):
        c = r.randrange(256)
        return f"{op} {c}", {"op": op, "c": c}
    if op == "chr":
        c = r.choice([0, 255, 256, -1, r.randrange(256), 2**40 + 65, -2**62])
        return f"chr {sml(c)}", {"op": op, "c": c if abs(c) < 2**31 else -1}
    if op in ("cfrom", "sfrom"):
        t = escaped(r)
        return f"{op} {hx(t)}", {"op": op, "t": t}
    if op == "str":
        t = [r.choice([r.randrange(256), r.randrange(32), r.choice(codes("\"\\?'^0189aAxn\x7f\x80\xfe\xff"))]) for _ in range(r.choice([0, 1, 2, 5, 20]))]
        return f"str {hx(t)}", {"op": op, "t": t}
    if op == "contains":
        t = [r.randrange(256) for _ in range(r.randrange(4))]
        c = r.choice(t) if t and r.random() < .5 else r.randrange(256)
        return f"contains {c} {hx(t)}", {"op": op, "c": c, "t": t}
    if op == "pad":
        t = [r.randrange(256) for _ in range(r.choice([0, 1, 5, 20]))]
        n = len(t) + r.choice([-3, -1, 0, 1, 2, 7, 50])
        c = r.randrange(256)
        return f"pad {c} {sml(n)} {hx(t)}", {"op": op, "c": c, "n": n, "t": t}
    if op == "split":
        t = codes("".join(r.choice([" ", "a", "A", "0", "f", "\n", ".", "\x80"] if r.random() < .6 else ["a", "b"]) for _ in range(r.choice([0, 1, 3, 14, 15, 16, 31, 70]))))
        k = r.randrange(1, 13)
        return f"split {k} {hx(t)}", {"op": op, "k": k, "t": t}
    return "ofmt", {"op": "ofmt"}


EXN = ("Overflow", "Fail", "Subscript", "Size", "Chr", "?")


def read(e, o):
    op, w = e["op"], o.split(" ")
    if op.endswith("scan"):
        def part(p, rest):
            q = p.split(" ")
            if p in ("NONE", "Overflow"):
                return {"x": p}
            if len(q) != (2 if rest else 1):
                raise ValueError
            v = q[0] if op == "oscan" else un(q[0]) if op == "rscan" else big(num(q[0]) % M63 if op == "wscan" else num(q[0]))
            return {"x": "", "v": v, **({"rest": int(q[1])} if rest else {})}
        a, b, c = o.split(" / ")
        return {"a": part(a, True), "b": part(b, False), "c": part(c, False)}
    if op in ("ifmt", "wfmt", "bfmt", "ofmt", "char", "str", "pad"):
        return dict(zip("abc", map(un, w)))
    if op == "rfmt":
        return {"x": o} if o in EXN else {"x": "", **dict(zip("abc", map(un, w)))}
    if op == "rspec":
        return {"x": o}
    if op == "lit":
        return {"x": o} if o in EXN else {"x": "", "t": un(o)} if e["k"] == "r" else {"x": "", "v": big(num(o) % M63 if e["k"] in "wv" else num(o))}
    if op in ("cfrom", "sfrom"):
        f = lambda p: {"x": "NONE"} if p == "NONE" else {"x": "", "v": [int(p[1:])] if op == "cfrom" else un(p[1:])}
        return {"a": f(w[0]), "b": f(w[1])}
    if op == "class":
        k = lambda p: -1 if p == "Chr" else int(p)
        return {"k": [x == "T" for x in w[0]], "lo": int(w[1]), "up": int(w[2]), "su": k(w[3]), "pr": k(w[4])}
    if op == "contains":
        return {"a": o[0] == "T", "b": o[1] == "T"}
    if op == "chr":
        return {"c": -1 if o == "Chr" else int(o)}
    if op == "split":
        return {"s": list(map(un, w))}
    raise ValueError


def check(c):
    ins = vf.build()
    c.add_model("ConvertMC", vf.tlc("ConvertMC", cfg=vf.scale("ConvertMC", "ConvertMCbig"), timeout=1500))
    exe = vf.driver(ins, "text")
    n = vf.scale(20, 300)

    def go(i):
        r = vf.rng("C12", i)
        es = [event(r) for _ in range(60 * n)]
        if i == 0:
            es = [(f"{op} {k}", {"op": op, "c": k}) for op in ("char", "class") for k in range(256)] + es
        return es, vf.feed(ins, exe, [l for l, _ in es])
    traces = []
    for i, (es, (out, bad)) in enumerate(vf.pmap(go, list(range(8)))):
        t = []
        for (l, e), o in zip(es, out):
            try:
                t.append(dict(e, o=read(e, o)))
            except (ValueError, IndexError, KeyError):
                c.violation(f"no proper answer to '{l}': {o[:200]}", {"command": l, "answer": o}, key=e["op"])
        traces += [t[k:k + 60] for k in range(0, len(t), 60)]
        if bad or len(out) != len(es):
            c.violation(f"driver {i}: {bad or 'wrong number of replies'}", {"job": i, "replies": len(out), "command": es[min(len(out), len(es) - 1)][0]})
    rej, states = vf.tlc_traces("ConvertTrace", traces, timeout=900, parts=8)
    c.add_traces("conversions", len(traces), states, sum(map(len, traces)))
    c.sample({"history": traces[-1][:6]})
    vf.explain(c, traces, rej, "not the value's text, or the text's value", keyf=lambda h, l: h[l]["op"])
