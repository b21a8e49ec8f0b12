"""C04: generated matches select the rules, bind the variables and draw the warnings that specs/Match.tla says."""
import re
import vf

BIG = [(f"K{i}", None if i % 3 else "int") for i in range(60)]
HUGE = [(f"H{i}", None if i % 50 else "bool") for i in range(240)]
DATA = {
    "bool": [("true", None), ("false", None)],
    "color": [("Red", None), ("Green", None), ("Blue", None), ("Grey", None), ("Black", None)],
    "shape": [("Leaf", None), ("Node", ("tup", ("shape", "int", "shape"))), ("Wrap", "int"), ("Tag", ("tup", ("bool", "string"))), ("Many", ("list", "int"))],
    "box": [("Box", ("tup", ("color", "int")))],
    "wrap1": [("W1", "color")],
    "kk": BIG,
    "hh": HUGE,
    "expr": [("Num", "int"), ("Var", "string"), ("Add", ("tup", ("expr", "expr"))), ("Mul", ("tup", ("expr", "expr"))), ("Neg", "expr"), ("Zero", None), ("One", None)],
}
EXNS = [("XA", None), ("XB", "int"), ("XC", ("tup", ("color", "bool"))), ("Div", None), ("Fail", "string"), ("XD", None)]
ALIAS = {"YA": "XA", "YB": "XB", "Y2": "XB"}
# further names for exceptions that look alike: another XA, hidden by the one in scope, is constructed only through mkXA2
LITS = {"int": ["0", "1", "2", "3", "~1", "5", "7", "100", "255", "256", "257", "65536", "4611686018427387903", "~4611686018427387904"],
        "word": ["0w0", "0w1", "0w2", "0w255", "0w256", "0w4294967296"],
        "char": ["#97", "#98", "#122", "#48", "#32", "#0", "#255"],
        "string": ['""', '"a"', '"b"', '"ab"', '"abc"', '"abcdefgh"', '"abcdefghi"', '"hello world"']}
WRITE = {"0": ["0", "0x0", "00"], "5": ["5", "0x5", "05"], "255": ["255", "0xFF", "0xff"], "256": ["256", "0x100"], "0w255": ["0w255", "0wxff", "0wxFF"],
         '"a"': ['"a"', '"\\097"'], '"ab"': ['"ab"', '"a\\   \\b"'], "~1": ["~1", "~0x1"], "0w0": ["0w0", "0wx0"]}


def ty(t):
    if isinstance(t, str):
        return t
    if t[0] in ("list", "ref", "option", "vector"):
        return f"{ty(t[1])} {t[0]}"
    if t[0] == "tup":
        return "(" + " * ".join(map(ty, t[1])) + ")"
    return "{" + ", ".join(f"{n} : {ty(u)}" for n, u in zip(t[1], t[2])) + "}"


def cons(t):
    if isinstance(t, str):
        return DATA.get(t)
    if t[0] == "list":
        return [("nil", None), ("::", ("tup", (t[1], t)))]
    if t[0] == "option":
        return [("NONE", None), ("SOME", t[1])]
    return None


def write(r, l):
    """Source text of a literal."""
    if l[0] == "#":
        k = int(l[1:])
        return '#"' + r.choice([chr(k) if 48 <= k < 58 or 65 <= k < 91 or 97 <= k < 123 else f"\\{k:03d}", f"\\{k:03d}", f"\\u{k:04x}"]) + '"'
    return r.choice(WRITE.get(l, [l]))


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.exn = False
        self.dense = None
        self.sigs = {}

    def typ(self, d=3):
        r = self.r
        if r.random() < .04:
            self.exn = True
            return "exn"
        if d == 0 or r.random() < .35:
            return r.choice(["int", "bool", "color", "shape", "string", "char", "word", "box", "kk", "expr", "unit", "wrap1", "color", "bool"] + ["hh"] * (r.random() < .1) + ["real"] * (r.random() < .2))
        k = r.randrange(9)
        s = lambda: self.typ(d - 1)
        if k < 2:
            return ("list", s())
        if k == 2:
            return ("option", s())
        if k < 5:
            return ("tup", tuple(s() for _ in range(r.choice([2, 2, 2, 3, 3, 4, 5]))))
        if k == 5:
            ls = tuple(sorted(r.sample(["a", "b", "c", "d", "x1"], r.choice([1, 2, 3]))))
            return ("rec", ls, tuple(s() for _ in ls))
        if k == 6:
            return ("ref", s())
        if k == 7:
            return ("vector", s())
        return "shape"

    def sig(self, t):
        cs = cons(t)
        for c, _ in cs:
            self.sigs[c] = [dict(c=x, n=int(a is not None)) for x, a in cs]
        return cs

    # pattern: (JSON, text, [(name, type)])
    def pat(self, t, d, wild=.25):
        r = self.r
        k = r.random()
        if d <= 0 or k < wild or t == "real":
            if r.random() < .5:
                return ["w"], "_", []
            self.n += 1
            x = f"v{self.n}"
            return ["v", x], (x if r.random() < .7 else f"({x} : {ty(t)})"), [(x, t)]
        if k < wild + .06:
            self.n += 1
            x = f"v{self.n}"
            p = self.pat(t, d, wild)
            return ["as", x, p[0]], f"({x} as {p[1]})", [(x, t)] + p[2]
        if t in LITS:
            l = r.choice(LITS[t][:r.choice([2, 4, 99])])
            if self.dense and t in ("int", "char", "word"):
                l = {"int": str, "char": "#{}".format, "word": "0w{}".format}[t](r.choice(self.dense))
            return ["k", l], write(r, l), []
        if t == "unit":
            return ["t", []], r.choice(["()", "{}"]), []
        if t == "exn":
            c, a = r.choice(EXNS + [(y, dict(EXNS)[x]) for y, x in ALIAS.items()])
            p = a and self.pat(a, d - 1, wild)
            return ["x", ALIAS.get(c, c), [p[0]] if a else []], f"({c} {p[1]})" if a else c, p[2] if a else []
        cs = cons(t)
        if cs:
            self.sig(t)
            near = cs if len(cs) < 8 or r.random() < .3 else cs[:6]
            c, a = r.choice(near)
            if not a:
                return ["c", c, []], ("[]" if c == "nil" else c), []
            p = self.pat(a, d - 1, wild if isinstance(a, str) or r.random() < .15 else -1)
            if c == "::" and len(p) == 4:
                m = p[3]
                return ["c", c, [p[0]]], f"({m[0]} :: {m[1]})", p[2]
            return ["c", c, [p[0]]], f"({c} {p[1]})" if c != "::" else f"(op:: {p[1]})", p[2]
        if t[0] == "ref":
            p = self.pat(t[1], d - 1, wild)
            return ["r", p[0]], f"(ref {p[1]})", p[2]
        if t[0] == "vector":
            ps = [self.pat(t[1], d - 1, wild) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            return ["a", [p[0] for p in ps]], "#[" + ", ".join(p[1] for p in ps) + "]", sum((p[2] for p in ps), [])
        ts = t[1] if t[0] == "tup" else t[2]
        ps = [self.pat(u, d - 1, wild) for u in ts]
        b = sum((p[2] for p in ps), [])
        if t[0] == "tup":
            if r.random() < .08:
                return ["t", [p[0] for p in ps]], "{" + ", ".join(f"{i + 1} = {p[1]}" for i, p in reversed(list(enumerate(ps)))) + "}", b
            return ["t", [p[0] for p in ps]], "(" + ", ".join(p[1] for p in ps) + ")", b, [p[1] for p in ps]
        show = [(n, p) for n, p in zip(t[1], ps) if p[0] != ["w"] or r.random() < .3]
        dots = len(show) < len(ps)
        r.shuffle(show)
        tx = [n if p[0] == ["v", n] else f"{n} = {p[1]}" for n, p in show] + (["..."] if dots else [])
        return ["t", [p[0] for p in ps]], "({" + ", ".join(tx) + "} : " + ty(t) + ")", b

    # value: (JSON, text)
    def val(self, t, d=3):
        r = self.r
        if t in LITS:
            l = r.choice(LITS[t][:r.choice([2, 4, 99])])
            if self.dense and t in ("int", "char", "word") and r.random() < .9:
                l = {"int": str, "char": "#{}".format, "word": "0w{}".format}[t](r.randrange(256))
            return ["k", l], write(r, l)
        if t == "unit":
            return ["t", []], "()"
        if t == "real":
            x = r.choice(["1.5", "~0.25"])
            return ["o", x], x
        if t == "exn":
            c, a = r.choice(EXNS + [(y, dict(EXNS)[x]) for y, x in ALIAS.items()] + [("XA'", None), ("XB'", "int")])
            n = {"XA'": "mkXA2 ()", "XB'": "mkXB2"}.get(c, c)
            e = a and self.val(a, d - 1)
            return ["x", ALIAS.get(c, c), [e[0]] if a else []], f"({n} {e[1]})" if a else f"({n})"
        cs = cons(t)
        if cs:
            near = cs if len(cs) < 8 or r.random() < .3 else cs[:7]
            if d <= 0:
                near = [c for c in near if c[1] is None or c[0] in ("Wrap", "Num", "Box", "W1")]
            c, a = r.choice(near)
            if not a:
                return ["c", c, []], c
            e = self.val(a, d - 1)
            return ["c", c, [e[0]]], f"({c} {e[1]})" if c != "::" else f"(op:: {e[1]})"
        if t[0] == "ref":
            e = self.val(t[1], d - 1)
            return ["r", e[0]], f"(ref {e[1]})"
        if t[0] == "vector":
            es = [self.val(t[1], d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            return ["a", [e[0] for e in es]], "#[" + ", ".join(e[1] for e in es) + "]"
        ts = t[1] if t[0] == "tup" else t[2]
        es = [self.val(u, d - 1) for u in ts]
        if t[0] == "tup":
            return ["t", [e[0] for e in es]], "(" + ", ".join(e[1] for e in es) + ")"
        return ["t", [e[0] for e in es]], "{" + ", ".join(f"{n} = {e[1]}" for n, e in zip(t[1], es)) + "}"

    def near(self, t, p, d=3):
        """A value that matches p, or nearly."""
        r = self.r
        if p[0] in ("w", "v") or r.random() < .08:
            return self.val(t, d)
        if p[0] == "as":
            return self.near(t, p[2], d)
        if p[0] == "k":
            return ["k", p[1]], write(r, p[1])
        if p[0] in ("c", "x"):
            cs = cons(t) if p[0] == "c" else EXNS
            a = dict(cs)[p[1]]
            if not a:
                return [p[0], p[1], []], p[1]
            e = self.near(a, p[2][0], d - 1)
            return [p[0], p[1], [e[0]]], f"({p[1]} {e[1]})" if p[1] != "::" else f"(op:: {e[1]})"
        if p[0] == "r":
            e = self.near(t[1], p[1], d - 1)
            return ["r", e[0]], f"(ref {e[1]})"
        if p[0] == "a":
            es = [self.near(t[1], q, d - 1) for q in p[1]]
            return ["a", [e[0] for e in es]], "#[" + ", ".join(e[1] for e in es) + "]"
        if t == "unit":
            return ["t", []], "()"
        ts = t[1] if t[0] == "tup" else t[2]
        es = [self.near(u, q, d - 1) for u, q in zip(ts, p[1])]
        if t[0] == "tup":
            return ["t", [e[0] for e in es]], "(" + ", ".join(e[1] for e in es) + ")"
        return ["t", [e[0] for e in es]], "{" + ", ".join(f"{n} = {e[1]}" for n, e in zip(t[1], es)) + "}"


class Shows:
    """SML functions that write values as Show of Match.tla does."""
    def __init__(self):
        self.f, self.text = {}, []

    def __call__(self, t):
        if t in self.f:
            return self.f[t]
        n = self.f[t] = f"show{len(self.f)}"
        self.text.append(None)
        at = len(self.text) - 1
        app = lambda u, x: f"{self(u)} {x}"
        cs = cons(t) or (EXNS if t == "exn" else None)
        if t in LITS:
            # each literal is shown as the specification writes it
            body = {"int": f"{n} (x : int) = Int.toString x", "word": f"{n} (x : word) = \"0w\" ^ Word.fmt StringCvt.DEC x",
                    "char": f'{n} (x : char) = "#" ^ Int.toString (Char.ord x)'}.get(t) or " | ".join(f"{n} {l} = {q(l)}" for l in LITS[t]) + f' | {n} _ = "?"'
        elif t == "unit":
            body = f'{n} () = "()"'
        elif t == "real":
            body = f"{n} (x : real) = if x > 0.0 then \"1.5\" else \"~0.25\""
        elif cs:
            extra = f' | {n} x = if exnMessage x = "XA" then "XA\'" else "XB\' " ^ {app("int", "(unXB2 x)")}' if t == "exn" else ""
            body = " | ".join(f'{n} ({c if c != "::" else "op::"} x) = "{c} " ^ {app(a, "x")}' if a else f'{n} {c} = "{c}"' for c, a in cs) + extra
        elif t[0] == "ref":
            body = f'{n} (ref x) = "ref " ^ {app(t[1], "x")}'
        elif t[0] == "vector":
            body = f'{n} v = "#[" ^ commas (Vector.foldr (fn (x, r) => {app(t[1], "x")} :: r) [] v) ^ "]"'
        else:
            ts = t[1] if t[0] == "tup" else t[2]
            xs = [f"x{i}" for i in range(len(ts))]
            p = ("(" + ", ".join(xs) + ")") if t[0] == "tup" else "{" + ", ".join(f"{l} = {x}" for l, x in zip(t[1], xs)) + "}"
            body = f'{n} {p} = "(" ^ ' + ' ^ "," ^ '.join(app(u, x) for u, x in zip(ts, xs)) + ' ^ ")"'
        self.text[at] = body
        return n

    def source(self):
        return "fun " + "\nand ".join(self.text) + "\n"


def q(l):
    return '"' + l.replace("\\", "\\\\").replace('"', '\\"') + '"'


def one_match(r, i):
    g = Gen(r)
    kind = r.choices(["case", "fn", "fun", "val", "handle"], [4, 2, 4, 1.5, 2])[0]
    ts = ["exn"] if kind == "handle" else [g.typ(r.choice([1, 2, 3]))]
    if kind == "fun":
        ts = [g.typ(r.choice([0, 1, 2])) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    k = 1 if kind == "val" else r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    if kind != "val" and any(t in ("kk", "hh") for t in ts) and r.random() < .5:
        k = 40
    wild = r.choice([.1, .25, .4, .55])
    if kind not in ("val", "handle") and r.random() < .06:      # many neighbouring constants
        ts = [r.choice(["char", "int", "word"])] + ["bool"] * (kind == "fun" and r.random() < .5)
        lo = r.choice([0, 0, 1, 40])
        g.dense = list(range(lo, r.choice([60, 130, 200, 255, 256, 256])))
        r.shuffle(g.dense)
        k = min(len(g.dense), r.choice([30, 70, 120, 256]))
        rows = [[(["k", l], write(r, l), [])] + [g.pat(t, 1, .8) for t in ts[1:]] for l in
                ({"int": str, "char": "#{}".format, "word": "0w{}".format}[ts[0]](x) for x in g.dense[:k])]
        if r.random() < .7:
            rows.append([(["w"], "_", []) for _ in ts])
        return g, kind, ts, rows
    rows = []
    for j in range(k):
        if rows and r.random() < .25:       # a variation of an earlier row
            ps = list(r.choice(rows))
            m = r.randrange(len(ps))
            ps[m] = g.pat(ts[m], 3, wild)
            # names must not clash
            if len({x for p in ps for x, _ in p[2]}) != sum(len(p[2]) for p in ps):
                continue
        else:
            ps = [g.pat(t, r.choice([1, 2, 3, 4]), wild) for t in ts]
        rows.append(ps)
    if kind != "val" and r.random() < .35:
        rows.append([(["w"], "_", []) for _ in ts])
    return g, kind, ts, rows


def check(c):
    ins = vf.build()
    c.add_model("MatchMC", vf.tlc("MatchMC", cfg=vf.scale("MatchMC", "MatchMCbig")))
    per, nv = vf.scale(60, 120), vf.scale(16, 40)
    hists, texts = [], []

    def batch(i):
        show = Shows()
        show("exn"), show("int")
        body, hs, tx, calls = [], [], [], []
        for j in range(per):
            r = vf.rng("C04", i, j)
            g, kind, ts, rows = one_match(r, j)
            rules = []
            rhs = []
            for n, ps in enumerate(rows):
                b = [x for p in ps for x in p[2]]
                r.shuffle(b)
                rules.append(dict(ps=[p[0] for p in ps], outs=[x for x, _ in b]))
                rhs.append(f'"{n}"' + "".join(f' ^ ";" ^ {show(t)} {x}' for x, t in b))
            m = f"m{j}"
            alts = " | ".join(f"{ps[0][1]} => {e}" for ps, e in zip(rows, rhs))
            if kind == "case":
                s = f"fun {m} (v : {ty(ts[0])}) = (case v of {alts})"
            elif kind == "fn":
                s = f"val {m} : {ty(ts[0])} -> string = fn {alts}"
            elif kind == "val":
                s = f"fun {m} (v : {ty(ts[0])}) = let val {rows[0][0][1]} = v in {rhs[0]} end"
            elif kind == "handle":
                s = f"fun {m} (v : exn) = ((raise v) handle {alts})"
            else:
                s = "fun " + " | ".join(f"{m} " + " ".join(f"({p[1]} : {ty(t)})" for p, t in zip(ps, ts)) + f" = {e}" for ps, e in zip(rows, rhs))
            body.append(s)
            none = {"val": "Bind", "handle": "same"}.get(kind, "Match")
            ev = [dict(rules=rules, sigs=g.sigs, none=none, warn=0, inex=0, unused=0)]
            vals = []
            for _ in range(nv):
                ps = r.choice(rows)
                vs = [g.val(t) if r.random() < .25 else g.near(t, p[0]) for t, p in zip(ts, ps)]
                vals.append(vs)
                calls.append(f'val _ = t "{j}" (fn () => {m} ' + " ".join(v[1] if v[1][0] in "([{" else f"({v[1]})" for v in vs) + ")")
                ev.append(dict(v=[v[0] for v in vs], r="?"))
            hs.append((ev, kind, g.exn or kind == 'handle'))
            tx.append(s)
        head = ["exception XA exception XB of int", "fun mkXA2 () = XA", "val mkXB2 = XB", 'fun unXB2 (XB n) = n | unXB2 _ = raise Fail "unXB2"']
        for n, cs in DATA.items():
            if n != "bool":
                head.append(f"datatype {n} = " + " | ".join(x + (f" of {ty(a)}" if a else "") for x, a in cs))
        head += ["exception XA exception XB of int exception XC of (color * bool) exception XD"] + [f"exception {y} = {x}" for y, x in ALIAS.items()]
        head += ['fun commas [] = "" | commas [x] = x | commas (x :: r) = x ^ "," ^ commas r']
        rest = [show.source(),
                'fun t n f = print (n ^ " " ^ (f () handle Match => "Match" | Bind => "Bind" | e => "raised " ^ exnName e) ^ "\\n")']
        # a handler that re-raises what it was given: told apart from other exceptions by identity of what is shown
        src = "\n".join(head) + "\n" + "\n".join(rest) + "\n"
        first = src.count("\n") + 1
        src += "\n".join(body) + "\n"
        # raised by handle: the same exception again
        callsrc = "\n".join(calls) + "\n"
        d = vf.scratch(f"c04_{i}_")
        open(f"{d}/prog.sml", "w").write(src + callsrc)
        rc, o = vf.mosmlc(ins, d, "prog.sml", "prog", "-toplevel")
        if rc != 0:
            return [], [], f"batch {i} does not compile: {" ".join(x[:300] for x in o.split(chr(10))[-9:])}", src
        for a, b, w in re.findall(r'File "prog.sml", line (\d+)(?:-(\d+))?, characters [^\n]*\n(?:! [^\n]*\n)*?! Warning: ([^\n]*)', o):
            n = int(a) - first
            if 0 <= n < per:
                key = "inex" if w.startswith("pattern matching is not") else "unused" if w.startswith("some cases are unused") else "other"
                hs[n][0][0][key] = 1
        rc, o, e = vf.run([f"{d}/prog"], cwd=d, timeout=60, env=ins.env())
        got = o.split("\n")
        k = 0
        res = []
        for n, (ev, kind, exn) in enumerate(hs):
            ev[0]["warn"] = int(not exn)
            for x in ev[1:]:
                line = got[k] if k < len(got) else ""
                w = line.split(" ", 1)
                x["r"] = w[1] if len(w) == 2 and w[0] == str(n) else "no output"
                if kind == "handle" and not x["r"][:1].isdigit():
                    # the exception came out again: it must be the one that went in
                    v = x["v"][0]
                    same = {"Match": "Match", "Bind": "Bind"}.get(x["r"], x["r"].replace("raised ", "")) == v[1].rstrip("'")
                    x["r"] = "same" if same else x["r"]
                k += 1
            res.append(ev)
        bad = rc != 0 and f"batch {i}: the program ended with status {rc}: {str(e)[-200:]}"
        return res, tx, bad, src

    for res, tx, bad, src in vf.pmap(batch, range(vf.scale(24, 80))):
        hists += res
        texts += tx
        if bad:
            c.violation(bad, {"source": src[:30000]})
    rej, states = vf.tlc_traces("MatchTrace", hists, parts=vf.NCPU)
    c.add_traces("matches", len(hists), states, sum(map(len, hists)))
    c.cov["matches with warnings examined"] = sum(h[0]["warn"] for h in hists)
    c.cov["inexhaustive"] = sum(h[0]["inex"] for h in hists)
    c.cov["with unused rules"] = sum(h[0]["unused"] for h in hists)
    for h, l, t in rej[:5]:
        what = f"compiler warnings (inexhaustive={hists[h][0]['inex']}, unused={hists[h][0]['unused']})" if l == 0 else f"result {hists[h][l]['r']!r} on {hists[h][l]['v']}"
        c.violation(f"{what[:300]}; specification: {str(t)[:200]}: {texts[h][:300]}", {"match": texts[h], "event": hists[h][l], "specification": t})
    hists and c.sample({"match": texts[0][:300], "events": hists[0][1:3]})
