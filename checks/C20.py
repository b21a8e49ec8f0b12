"""C20: the output, messages and exit codes of programs are those of the machine in specs/Exit.tla."""
import os
import vf

CASES = {"name": ["E1", "Another_one'", "Div", "Overflow", "Subscript", "Size", "Chr", "Domain", "Match", "Bind", "Option", "Empty", "Interrupt"]}


def hx(s):
    return s.encode("latin-1").hex() or "-"


def word(r, big=False):
    n = r.choice([0, 1, 1, 2, 3, 5, 8]) if not big else r.choice([100, 174, 175, 176, 177, 178, 179, 180, 190, 199, 200, 220, 250, 255, 300, 1000])
    return "".join(r.choice("abcxyz01 .:-") for _ in range(n)) if n < 20 else (r.choice("pqrs") + r.choice("tuvw5")) * (n // 2) + "." * (n % 2)


def exn(r, longest):
    """(the statement's line, the exception as the specification has it)"""
    k = r.random()
    if k < .4:
        n = r.choice(CASES["name"])
        return n, {"k": "name", "n": n}
    a = word(r, r.random() < .25)[:longest]
    if k < .6:
        n = r.choice(["ES", "Fail"])
        return f"{n} {hx(a)}", {"k": "str", "n": n, "a": a}
    if k < .7:
        return f"EI {r.randrange(1000)}", {"k": "int", "n": "EI"}
    if k < .75:
        return "EP", {"k": "other", "n": "EP"}
    if k < .8:
        return "ER 1", {"k": "real", "n": "ER", "a": "1.5"}
    if k < .9:
        return f"SysErr {hx(a)}", {"k": "syserr", "n": "SysErr", "a": a}
    f, c = word(r), word(r)
    a = a if len(a) < 100 else a[:60]
    return f"Io {hx(f)} {hx(a)} {hx(c)}", {"k": "io", "n": "Io", "f": f, "a": a, "c": c}


class Gen:
    def __init__(self, r, kids):
        self.r, self.kids, self.budget, self.lines = r, kids, r.choice([6, 12, 25, 40]), []
        self.noshow = r.random() < .5    # exnMessage gives at most 255 characters: longer ones only where no handler prints it

    def block(self, depth, inexit, top=False):
        out = []
        n = self.r.choice([0, 1, 1, 2, 3]) if not top else self.r.choice([1, 2, 3, 4, 6, 8])
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.stmt(depth, inexit))
        if not top:
            self.lines.append("}")
        return out

    def stmt(self, depth, inexit):
        r, L = self.r, self.lines
        k = r.random()
        deep = depth < 5
        if k < .22:
            s = word(r) if r.random() < .93 else word(r, True) * r.choice([1, 5, 30])
            L.append(f"print {hx(s)}")
            return {"s": "print", "a": s}
        if k < .27:
            s = word(r)
            L.append(f"eprint {hx(s)}")
            return {"s": "eprint", "a": s}
        if k < .50 and deep and not inexit:
            L.append("atexit")
            return {"s": "atexit", "b": self.block(depth + 1, True)}
        if k < .60 and depth > 0 or k < .53:
            n = r.choice([0, 1, 2, 3, 77, 127, 128, 255, 256, -1, 300])
            L.append(f"exit {n}".replace("-", "~"))
            return {"s": "exit", "n": n}
        if k < .63 and depth > 0 or k < .61:
            n = r.choice([0, 1, 5, 255, -1])
            L.append(f"term {n}".replace("-", "~"))
            return {"s": "term", "n": n}
        if k < .72 and (depth > 0 or r.random() < .3):
            l, e = exn(r, 2000 if self.noshow else 240)
            L.append(f"raise {l}")
            return {"s": "raise", "e": e}
        if k < .86 and deep:
            c, show = r.choice(["all", "all", "all", "E1", "ES", "EI", "Fail", "Div"]), not self.noshow and r.random() < .8
            L.append(f"try {c} {'T' if show else 'F'}")
            b = self.block(depth + 1, inexit)
            return {"s": "try", "c": c, "show": show, "b": b, "h": self.block(depth + 1, inexit)}
        if k < .90 and deep:
            L.append(f"deep {r.choice([1, 50, 1000, 20000])}")
            return {"s": "deep", "b": self.block(depth + 1, inexit)}
        if k < .92:
            L.append("gc")
            return {"s": "gc"}
        if k < .95:
            v = r.choice(["V1", "V2", "NOSUCH", "V3"])
            L.append(f"getenv {hx(v)}")
            return {"s": "getenv", "a": v}
        if k < .98 and self.kids:
            n = r.choice([0, 0, 1, 3, 127, 128, 255, -1])
            a = word(r).replace(" ", "_")
            L.append("sys " + hx(f"printf %s '{a}'; " + (f"exit {n}" if n >= 0 else "kill -9 $$")))
            return {"s": "sys", "a": a, "n": n}
        if self.kids and (depth > 0 or r.random() < .3):
            L.append("exitlast")
            return {"s": "exitlast"}
        L.append("print 2e")
        return {"s": "print", "a": "."}


def children(r, lines):
    """A block about children whose course is determined: [statements]"""
    out, kids = [], {}

    def add(line, **s):
        lines.append(line)
        out.append(s)
    for _ in range(r.choice([3, 6, 12, 25])):
        i = r.randrange(4) + 1
        c = kids.get(i)
        if c is None:
            if r.random() < .06:
                add(f"reap {i}", s="reap", i=i) if i in kids else None
                continue
            kind, a, n = r.choice(["cat", "cat", "cat", "catn", "catn", "say", "say", "sig", "env", "envin", "nocmd"]), word(r).replace(" ", "_"), r.choice([0, 1, 2, 100, 255])
            if kind == "cat":
                add(f"spawn {i} {hx('/bin/cat')} -", s="spawn", i=i, kind="cat", a="", n=0)
            elif kind == "catn":
                add(f"spawn {i} {hx('/bin/sh')} - {hx('-c')} {hx(f'cat; exit {n}')}", s="spawn", i=i, kind="catn", a="", n=n)
            elif kind == "say":
                k = r.choice([1, 1, 1, 100, 1000])
                a = a[:6]
                add(f"spawn {i} {hx('/bin/sh')} - {hx('-c')} " + hx("i=0; while [ $i -lt %d ]; do printf %%s '%s'; i=$((i+1)); done; exit %d" % (k, a, n)), s="spawn", i=i, kind="say", a=a * k, n=n)
            elif kind == "env":
                add(f"spawn {i} {hx('/bin/sh')} - {hx('-c')} {hx(f'printf %s $V1$V2; exit {n}')}", s="spawn", i=i, kind="say", a="oneanother", n=n)
            elif kind == "envin":
                add(f"spawn {i} {hx('/bin/sh')} {hx('V1=' + a)} {hx('-c')} {hx(f'printf %s ${{V1-none}}${{V2-none}}; exit {n}')}".replace("\n", ""), s="spawn", i=i, kind="say", a=a + "none", n=n)
            elif kind == "sig":
                add(f"spawn {i} {hx('/bin/sh')} - {hx('-c')} {hx('kill -9 $$')}", s="spawn", i=i, kind="sig", a="", n=0)
            else:
                add(f"spawn {i} {hx('/no/such/cmd')} - {hx('x')}", s="spawn", i=i, kind="nocmd", a="/no/such/cmd", n=0)
            kids[i] = dict(kind=kind, sent=0, taken=0, eof=False, read=False)
            continue
        cat = c["kind"] in ("cat", "catn")
        k = r.random()
        if cat and not c["eof"] and k < .4 and c["sent"] < 40000:
            a = word(r) if r.random() < .8 else word(r, True) * r.choice([1, 4, 20])
            add(f"send {i} {hx(a)}", s="send", i=i, a=a)
            c["sent"] += len(a)
        elif cat and not c["eof"] and k < .6 and c["sent"] > c["taken"]:
            n = r.randint(1, c["sent"] - c["taken"])
            add(f"recv {i} {n}", s="recv", i=i, n=n)
            c["taken"] += n
        elif cat and not c["eof"] and k < .75:
            add(f"closeout {i}", s="closeout", i=i)
            c["eof"] = True
        elif c["kind"] == "cat" and not c["eof"] and k < .8 and c["sent"] == c["taken"]:
            add(f"kill {i}", s="kill", i=i)
            c["eof"] = True
        elif (not cat or c["eof"]) and not c["read"] and k < .9:
            add(f"readall {i}", s="readall", i=i)
            c["read"] = True
        elif c["read"] or (cat and c["sent"] == c["taken"]):
            add(f"reap {i}", s="reap", i=i)
            del kids[i]
            if r.random() < .25:
                add("exitlast", s="exitlast")
                break
    return out


def program(r):
    g = Gen(r, True)
    prog = []
    if r.random() < .35:
        prog = children(r, g.lines)
    if r.random() < .1:        # nothing else goes wrong: long chains of actions
        for j in range(r.choice([3, 30, 200])):
            g.lines += ["atexit", f"print {hx(str(j) + ',')}", "}"]
            prog.append({"s": "atexit", "b": [{"s": "print", "a": f"{j},"}]})
    return prog + g.block(0, False, True), g.lines + ["}"]


def check(c):
    ins = vf.build(extra=("munix",))
    c.add_model("ExitMC", vf.tlc("ExitMC", cfg=vf.scale("ExitMC", "ExitMCbig")))
    exe = vf.driver(ins, "process")
    d = vf.scratch("exit")
    ENV = [("V1", "one"), ("V2", "another")]

    stuck = []

    def one(i):
        if len(stuck) > 8:
            return None
        prog, lines = program(vf.rng("C20", i))
        f = f"{d}/p{i}"
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        e = dict(ins.env(), **dict(ENV), CAMLRUNPARAM=["s=4096", "s=100000", "s=4096 o=1"][i % 3])
        for v in ("V3", "NOSUCH"):
            e.pop(v, None)
        rc, o, er = vf.run([exe, f], cwd=d, env=e, timeout=30)
        if rc is None:
            stuck.append(i)
        os.unlink(f)
        return i, prog, lines, rc, o, er
    hists, src = [], []
    for x in vf.pmap(one, list(range(vf.scale(1600, 24000)))):
        if x is None:
            continue
        i, prog, lines, rc, o, er = x
        ev = {"prog": prog, "env": [{"v": v, "x": x} for v, x in ENV], "o": {"code": rc, "out": o, "err": er}}
        if rc is None or rc < 0:
            c.violation(f"program {i} " + ("did not end" if rc is None else f"was killed by signal {-rc}"), {"program": lines, "out": o[-2000:], "err": er[-500:]}, key="ends")
            continue
        if len(hists) == 0 or len(hists[-1]) >= 20:
            hists.append([])
        hists[-1].append(ev)
    rej, states = vf.tlc_traces("ExitTrace", hists, timeout=800)
    c.add_traces("programs", sum(map(len, hists)), states, sum(map(len, hists)))
    c.cov["exit codes"] = {str(k): sum(e["o"]["code"] == k for h in hists for e in h) for k in sorted({e["o"]["code"] for h in hists for e in h})}
    c.sample(hists[0][0])
    for h, l, t in rej[:5]:
        ev = hists[h][l]
        c.violation(f"a program ended otherwise than specified: code {ev['o']['code']}, output {ev['o']['out'][-120:]!r}, messages {ev['o']['err'][-120:]!r}; specified: {t[:200]}", {"program": ev["prog"], "observed": ev["o"], "specification": t})
