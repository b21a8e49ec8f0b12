"""C23: what structure Regex returns is what specs/Regex.tla determines."""
import vf

CLASSES = {"alnum": [(48, 57), (65, 90), (97, 122)], "alpha": [(65, 90), (97, 122)], "cntrl": [(0, 31), (127, 127)], "digit": [(48, 57)],
           "graph": [(33, 126)], "lower": [(97, 122)], "print": [(32, 126)], "punct": [(33, 47), (58, 64), (91, 96), (123, 126)],
           "space": [(9, 13), (32, 32)], "upper": [(65, 90)], "xdigit": [(48, 57), (65, 70), (97, 102)]}
ALPHAS = [[97, 98], [97, 98], [97, 98, 99], [97, 66, 98, 65], [97, 10, 98], [97, 32, 59], [97, 93, 94, 45, 92], [97, 198, 230, 255], [42, 43, 40, 123, 124, 46, 63],
          [48, 57, 97, 90, 95, 127, 1]]


class Gen:
    def __init__(self, r, ext, alpha):
        self.r, self.ext, self.alpha, self.g, self.closed = r, ext, alpha, 0, []
        # back references only where there are no alternatives and no repeated groups: the engine is the C library's (dlopen binds
        # regcomp and re_search to it), which refuses some of the others and crashes on a few (a defect that is not Moscow ML's)
        self.refs = r.random() < .2

    def char(self):
        return self.r.choice(self.alpha)

    def set(self):
        r = self.r
        iv, txt, first, last = [], "", "", ""
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .25:
                n = r.choice(list(CLASSES))
                iv += CLASSES[n]
                txt += f"[:{n}:]"
            elif k < .55:
                a, b = sorted((self.char(), self.char()))
                if not any(x <= a and b <= y for x, y in ((97, 122), (65, 90), (48, 57))):     # others depend on the collating order
                    continue
                iv.append((a, b))
                txt += f"{chr(a)}-{chr(b)}"
            else:
                x = self.char()
                iv.append((x, x))
                if x == 93:
                    first = "]"
                elif x == 45:
                    last = "-"
                elif x == 94:
                    last = "^" + last if "^" not in last else last
                else:
                    txt += chr(x)
        if not first + txt + last.replace("^", "", 1):
            x = 97
            iv.append((x, x))
            txt = "a"
        if not first and not txt and last.startswith("^"):
            txt, iv = "a", iv + [(97, 97)]
        neg = r.random() < .3
        return {"t": "set", "iv": [list(p) for p in iv], "neg": neg}, "[" + ("^" if neg else "") + first + txt + last + "]"

    def lit(self):
        x = self.char()
        s = chr(x)
        if self.ext and s in ".[\\*^$+?|(){" or not self.ext and s in ".[\\*^$":
            s = "\\" + s
        return {"t": "set", "iv": [[x, x]], "neg": False}, s

    def atom(self, d):
        r = self.r
        k = r.random()
        if k < .5 or d == 0 and k < .75:
            return self.lit()
        if k < .6:
            return self.set()
        if k < .66:
            return {"t": "any"}, "."
        if k < .74 and self.closed and self.refs:
            n = r.choice(self.closed)
            if n < 10:
                return {"t": "back", "n": n}, f"\\{n}"
        if d == 0:
            return self.lit()
        return self.group(lambda: self.alt(d - 1))

    def group(self, body):
        self.g += 1
        n = self.g
        a, s = body()
        self.closed.append(n)
        return {"t": "group", "n": n, "a": a}, f"({s})" if self.ext else f"\\({s}\\)"

    def rep(self, d):
        r = self.r
        if r.random() > .33:
            return self.atom(d)
        if r.random() < .5 and not self.refs:
            a, s = self.group(lambda: self.alt(d - 1)) if d else self.lit()
        else:
            a, s = self.atom(d)
        if self.refs and a["t"] in ("group", "back"):
            return a, s
        for _ in range(1 if r.random() < .95 else 2):
            lo, hi, e, b = r.choice([(0, -1, "*", "*"), (0, -1, "*", "*"), (1, -1, "+", "\\+"), (0, 1, "?", "\\?"), None or (2, 2, "{2}", "\\{2\\}"),
                                     (1, 3, "{1,3}", "\\{1,3\\}"), (2, -1, "{2,}", "\\{2,\\}"), (0, 2, "{0,2}", "\\{0,2\\}")])
            if a["t"] == "rep" and (e[0] == "{" or not self.ext):
                continue
            a, s = {"t": "rep", "a": a, "lo": lo, "hi": hi}, s + (e if self.ext else b)
        return a, s

    def seq(self, d):
        n = self.r.choice([1, 1, 2, 2, 3, 4]) if d > 0 else self.r.choice([1, 1, 2])
        if d > 1 and n < 2:
            n = 2
        a, s = self.rep(d)
        for _ in range(n - 1):
            b, t = self.rep(d)
            a, s = {"t": "seq", "a": a, "b": b}, s + t
        return a, s

    def ends(self, d, top):
        """A sequence, at top level perhaps anchored (elsewhere the C library mistakes some anchors)."""
        a, s = self.seq(d)
        if top and self.r.random() < .15:
            a, s = {"t": "seq", "a": {"t": "bol"}, "b": a}, "^" + s
        if top and self.r.random() < .15:
            a, s = {"t": "seq", "a": a, "b": {"t": "eol"}}, s + "$"
        return a, s

    def alt(self, d, top=False):
        a, s = self.ends(d, top)
        while self.r.random() < .28 and not self.refs:
            if self.r.random() < .04 and self.ext:
                b, t = {"t": "eps"}, ""
            else:
                b, t = self.ends(d, top)
            a, s = {"t": "alt", "a": a, "b": b}, s + ("|" if self.ext else "\\|") + t
            if b["t"] == "eps":
                break
        return a, s

    def top(self):
        return self.alt(self.r.choice([1, 2, 2, 2, 3]), True)


# not all of these are malformed for Basic
BAD = {True: ["(a", "a(", "[a", "a{3,2}", "a\\", "[[:foo:]]", "[b-a]", "*a", "a|*b", "(*a)", "a{2", "[", "((a)", "a{1,2", "[]", "[^]", "+", "a{70000}"],
       False: ["\\(a", "a\\(", "[a", "a\\{3,2\\}", "a\\", "[[:foo:]]", "[b-a]", "a\\{2", "\\(\\(a\\)", "[", "\\)", "a\\)"]}


def hx(s):
    return "".join("%02x" % c for c in s) or "-"


def repl(r, g):
    out, txt = [], []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.choice("SSUUUTV")
        n = r.randint(0, g) if r.random() < .97 else g + 1
        s = [r.choice([120, 97, 0, 255]) for _ in range(r.choice([0, 1, 2]))]
        out.append({"t": k, "n": n, "s": s})
        txt.append({"S": "S" + hx(s).replace("-", ""), "U": f"U{n}", "T": f"T{n}", "V": "V"}[k])
    return out, ";".join(txt) or ";"


def hist(r):
    """[(command line, event without results)]"""
    evs, slots = [], {}
    for _ in range(24):
        k = r.randrange(6)
        if k not in slots or r.random() < .3:
            ext = r.random() < .65
            fl = ("E" if ext else "") + ("I" if r.random() < .2 else "") + ("N" if r.random() < .25 else "") or "0"
            if r.random() < .07:
                p = r.choice(BAD[ext])
                evs.append((f"c {k} {fl} {hx(p.encode())}", {"op": "c", "k": k, "bad": True, "r": {"t": "eps"}, "g": 0, "icase": False, "newline": False}))
                slots.pop(k, None)
                continue
            alpha = r.choice(ALPHAS)
            while True:
                g = Gen(r, ext, alpha)
                a, p = g.top()
                if g.g <= 5 and len(p) < 40:
                    break
            if "I" in fl and len(alpha) < 5:
                alpha = alpha + [x ^ 32 for x in alpha if chr(x).isalpha() and x < 128]
            if "N" in fl:
                alpha = alpha + [10]
            slots[k] = (g.g, alpha, p)
            evs.append((f"c {k} {fl} {hx(p.encode('latin-1'))}", {"op": "c", "k": k, "bad": False, "r": a, "g": g.g, "icase": "I" in fl, "newline": "N" in fl, "pat": p, "ext": ext}))
        g, alpha, p = slots[k]
        s = [r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]))]
        if r.random() < .3:
            s = [ord(x) for x in p if r.random() < .7 and x not in "()\\|"][:9]
        fill = r.randrange(70) if r.random() < .35 else -1
        if r.random() < .62:
            n = r.randint(0, len(s)) if r.random() < .4 else 0
            m = r.randint(0, len(s) - n) if r.random() < .4 else len(s) - n
            nb, ne = r.random() < .2, r.random() < .2
            ef = ("B" if nb else "") + ("L" if ne else "") or "0"
            evs.append((f"x {k} {ef} {hx(s)} {n} {m} {fill}".replace(" -1", " ~1"), {"op": "x", "k": k, "s": s, "from": n, "len": m, "notbol": nb, "noteol": ne}))
        else:
            rp, t = repl(r, g)
            evs.append((f"d {k} {hx(s)} {fill} {t}".replace(" -1", " ~1"), {"op": "d", "k": k, "s": s, "rp": rp}))
    return evs


def spans(x):
    if x == "none":
        return []
    if x[:1].isdigit():
        return [list(map(int, y.split(":"))) if ":" in y else [-9, -9] for y in x.split(",")]
    return [[-9, -9]]


def val(x):
    """An outcome: text = hex with '=', pieces, or lists of spans."""
    ex = ""
    if x == "[]":
        return {"ex": "", "v": []}
    if x.startswith("=") and len(x) % 2:
        return {"ex": "", "v": list(bytes.fromhex(x[1:]))}
    if "[" in x:
        ex, b = x.split("[", 1)
        return {"ex": "" if ex == "ok" else ex, "v": [spans(y) for y in b.split(";")] if b else []}
    if x in ("Regex", "Subscript", "Fail"):
        return {"ex": x, "v": []}
    return {"ex": "", "v": [list(bytes.fromhex("" if y == "-" else y)) for y in x.split(",")]}


def read(e, o):
    w = o.split(" ")
    try:
        if e["op"] == "c":
            e["out"] = o
        elif e["op"] == "x":
            e.update(a=spans(w[0]), c=spans(w[1]), e=spans(w[2]), yes=w[3])
        else:
            for n, x in zip(("fields", "tokens", "map", "app", "fold", "replace", "replace1", "subst", "subst1"), w, strict=True):
                e[n] = val(x)
    except (ValueError, IndexError):
        return False
    return True


def check(c):
    ins = vf.build(extra=("mregex",))
    c.add_model("RegexMC", vf.tlc("RegexMC", cfg=vf.scale("RegexMC", "RegexMCbig"), timeout=1500))
    exe = vf.driver(ins, "regex")
    n = vf.scale(50, 600)

    def go(i):
        r = vf.rng("C23", i)
        hs = [hist(r) for _ in range(n)]
        return hs, vf.feed(ins, exe, [l for h in hs for l, _ in h], **({"CAMLRUNPARAM": "s=4096"} if i % 2 == 0 else {}))

    allev = []
    for i, (hs, (out, bad)) in enumerate(vf.pmap(go, list(range(8)))):
        it = iter(out)
        for h in hs:
            t, dead = [], False
            for l, e in h:
                o = next(it, None)
                dead = dead or o is None or o == "unset"     # the expression was refused: see its "c"
                if dead:
                    continue
                e = dict(e)
                if not read(e, o):
                    c.violation(f"no proper answer to '{l}': {o[:200]}", {"commands": [a for a, _ in h], "command": l, "answer": o})
                    dead = True
                    continue
                t.append(e)
            allev.append(t)
        if bad or len(out) != sum(map(len, hs)):
            c.violation(f"driver {i}: {bad or 'wrong number of replies'}", {"job": i, "replies": len(out), "next": [l for h in hs for l, _ in h][max(0, len(out) - 3):len(out) + 1]})
    rej, states = vf.tlc_traces("RegexTrace", allev, timeout=1500, parts=8)
    c.add_traces("regex", len(allev), states, sum(map(len, allev)))
    c.sample({"history": allev[0][:4]})
    vf.explain(c, allev, rej, "not what the expression determines", keyf=lambda h, l: h[l]["op"])
