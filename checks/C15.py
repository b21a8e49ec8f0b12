"""C15: object graphs built, written, read back, compared and hashed in the real system are behaviours of specs/Values.tla."""
import os, struct, time
import vf

REF = 250
INTS = [0, 1, -1, 2, 63, 64, 65, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
        2**29 - 1, 2**30 - 1, -2**30, 2**30, -2**30 - 1, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**40 + 5, -2**45, 2**62 - 1, -2**62]
LENS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 40, 41, 127, 128, 129, 255, 256, 257, 300, 1000, 4090, 5000]
NCONST = 9


def stuff(n, ln):
    return bytes((n * 37 + i * 11 + (i // 29) * n) % 256 for i in range(ln))


def strtext(b):
    if len(b) <= 40:
        return "s" + b.hex()
    h = 7
    for x in b:
        h = (h * 31 + x) % 1073741789
    return f"S{len(b)}:{h}"


class Gen:
    """Generates one history; keeps the graph only to know which commands make sense (and to encode foreign files)."""

    def __init__(self, r, d, k):
        self.r, self.d, self.k = r, d, k
        self.heap, self.reg, self.str = [], [("i", 0)] * 8, [[] for _ in range(4)]
        self.cmds, self.evs, self.strs = [], [], []

    def emit(self, cmd, op, d=0, s=0, a=0, b=0, c=0, t="", f=()):
        self.cmds.append(cmd)
        self.evs.append(dict(op=op, d=d, s=s, a=a, b=b, c=c, t=t, f=list(f)))

    def imm(self):
        return ("i", self.r.choice(INTS)) if self.r.random() < .7 else ("@", self.r.choice([0, 1, 2, 15, 16, 17, 100, 248]))

    def operand(self, p=.6):
        """(text, spec operand, value)"""
        if self.r.random() < p:
            k = self.r.randrange(8)
            return f"r{k}", k + 1, self.reg[k]
        v = self.imm()
        return text(v), code(v), v

    def new(self, d, t, f, data=None):
        self.heap.append([t, list(f), data])
        self.reg[d] = len(self.heap)

    def node(self, k):
        v = self.reg[k]
        return self.heap[v - 1] if isinstance(v, int) else None

    def reach(self, v):
        if not isinstance(v, int):
            return []
        seen, order = {v}, [v]
        for x in order:
            for y in self.heap[x - 1][1]:
                if isinstance(y, int) and y not in seen:
                    seen.add(y)
                    order.append(y)
        return order

    def opaque(self, v):
        return any(self.heap[x - 1][0] in ("clo", "abs") for x in self.reach(v))

    def imp(self, v):
        order = self.reach(v)
        if not order:
            return v
        o = len(self.heap)
        num = {x: o + i + 1 for i, x in enumerate(order)}
        self.heap += [[self.heap[x - 1][0], [num[y] if isinstance(y, int) else y for y in self.heap[x - 1][1]],
                       self.heap[x - 1][2]] for x in order]
        return o + 1

    def treesize(self, v, limit=3000):
        n, todo = 0, [v]
        while todo and n < limit:
            x = todo.pop()
            n += 1
            if isinstance(x, int) and self.heap[x - 1][0] != REF:
                todo += self.heap[x - 1][1]
        return n

    def encode(self, v, wide, big):
        """The bytes a machine of that word size and endianness would have written, or None."""
        order = self.reach(v)
        e = ">" if big else "<"
        w = 8 if wide else 4
        lim = 62 if wide else 30
        word = lambda x: struct.pack(e + ("q" if wide else "i"), x)
        uword = lambda x: struct.pack(e + ("Q" if wide else "I"), x)
        pos, at = 0, {}
        for x in order:
            t, f, data = self.heap[x - 1]
            n = len(f) if isinstance(t, int) else (len(data) + w) // w if t == "str" else 8 // w
            at[x] = (pos + 1) * w
            pos += 1 + n

        def field(y):
            if isinstance(y, int):
                return uword(at[y])
            if y[0] == "@":
                return uword((y[1] << 2) + 2)
            if not -2**lim <= y[1] < 2**lim:
                raise OverflowError
            return word(2 * y[1] + 1)
        out = []
        try:
            for x in order:
                t, f, data = self.heap[x - 1]
                color = self.r.choice([0, 0x300])
                if isinstance(t, int):
                    out.append(uword((len(f) << 10) | color | t) + b"".join(map(field, f)))
                elif t == "str":
                    n = (len(data) + w) // w
                    pad = n * w - len(data)
                    out.append(uword((n << 10) | color | 253) + data + b"\0" * (pad - 1) + bytes([pad - 1]))
                else:
                    out.append(uword((8 // w << 10) | color | 254) + struct.pack(e + "d", data))
            magic = 0x8495A6B9 + (2 if wide else 0) + (0 if big else 1)
            if not order:
                return struct.pack(">II", magic, 0) + struct.pack(">i", ((v[1] << 2) + 2) if v[0] == "@" else 2 * v[1] + 1) \
                    if v[0] == "@" or -2**30 <= v[1] < 2**30 else None
        except OverflowError:
            return None
        return struct.pack(">II", magic, pos) + b"".join(out)

    def step(self):
        r = self.r
        d, s = r.randrange(8), r.randrange(8)
        op = r.choices(["mk", "ref", "arr", "str", "dbl", "set", "fld", "mov", "out", "in", "strv", "enc", "eq", "hash", "dump",
                        "clo", "abs", "gc", "tie", "twin"],
                       [14, 8, 4, 5, 3, 9, 5, 3, 8, 8, 4, 6, 7, 6, 5, .4, .3, 2, 4, 4])[0]
        if op in ("mk", "ref", "arr"):
            t = REF if op != "mk" else r.choice([0, 0, 1, 1, 2, 3, 7, 14, 15, 16, 17, 30, 200, 248])
            n = 1 if op == "ref" else r.choice([1, 2, 2, 3, 5]) if op == "arr" else r.choice([1, 1, 2, 2, 2, 3, 3, 4, 6, 7, 8, 9, 20])
            if r.random() < .01:
                n = r.choice([256, 257, 300])
            ops = [self.operand() for _ in range(n)]
            self.emit(f"mk {d} {t} " + " ".join(o[0] for o in ops), "mk", d=d, t=f"b{t}", f=[o[1] for o in ops])
            self.new(d, t, [o[2] for o in ops])
        elif op == "str":
            if r.random() < .5 and self.strs:   # differs from an earlier string in one byte, or not at all
                n, ln, q, x = r.choice(self.strs[-6:])
                if ln and r.random() < .7:
                    q, x = r.choice([0, 1, ln - 1, ln - 2, r.randrange(ln)]), r.choice([0, 1, 255])
                    q = max(0, min(ln - 1, q))
            else:
                n, ln, q, x = r.randrange(5), r.choice(LENS), -1, 0
            self.strs.append((n, ln, q, x))
            b = bytearray(stuff(n, ln))
            if q >= 0:
                b[q] = x
            b = bytes(b)
            self.emit(f"str {d} {n} {ln} {q} {x}".replace("-", "~"), "str", d=d, t=strtext(b))
            self.new(d, "str", [], b)
            if r.random() < .6 and self.node(s) and self.node(s)[0] == "str":
                self.compare(d, s)
        elif op == "dbl":
            k = r.randrange(NCONST)
            x = [0.0, 0.0, 1.0, -1.5, 3.14159, 1E300, -1E-300, 1.0 / 3.0, 2.3E-308][k]
            self.emit(f"dbl {d} {k}", "dbl", d=d, t="d" + struct.pack(">d", x).hex())
            self.new(d, "dbl", [], x)
        elif op == "clo":
            self.emit(f"clo {d} {r.randrange(9)}", "clo", d=d, t="clo")
            self.new(d, "clo", [])
        elif op == "abs":
            self.emit(f"abs {d}", "abs", d=d, t="x251")
            self.new(d, "abs", [])
        elif op in ("set", "tie"):
            cells = [k for k in range(8) if self.node(k) and self.node(k)[0] == REF]
            if cells:
                s = r.choice(cells)
                i = r.randrange(len(self.node(s)[1]))
                o = self.operand(.9 if op == "tie" else .6)
                self.emit(f"set {s} {i} {o[0]}", "set", s=s, a=i, b=o[1])
                self.node(s)[1][i] = o[2]
        elif op == "fld":
            if self.node(s) and self.node(s)[1]:
                i = r.randrange(len(self.node(s)[1]))
                self.emit(f"fld {d} {s} {i}", "fld", d=d, s=s, a=i)
                self.reg[d] = self.node(s)[1][i]
        elif op == "mov":
            o = self.operand(.8)
            self.emit(f"mov {d} {o[0]}", "mov", d=d, a=o[1])
            self.reg[d] = o[2]
        elif op == "out":
            k = r.randrange(3)
            f = r.choice(["out", "out", "cout"])
            if not (f == "cout" and self.opaque(self.reg[s])):
                self.emit(f"{f} {k} {s}", f, s=s, a=k)
                if not self.opaque(self.reg[s]):
                    save, self.str[k] = self.snapshot(self.reg[s]), self.str[k]
                    self.str[k].append(save)
        elif op == "in":
            ks = [k for k in range(4) if self.str[k]]
            if ks:
                k = r.choice(ks)
                h, v = self.str[k].pop(0)
                self.emit(f"in {k} {d}", "in", d=d, a=k)
                o = len(self.heap)
                self.heap += [[t, [y + o if isinstance(y, int) else y for y in f], x] for t, f, x in h]
                self.reg[d] = v + o if isinstance(v, int) else v
        elif op == "strv":
            self.emit(f"strv {d} {s}", "strv", d=d, s=s)
            if not self.opaque(self.reg[s]):
                self.reg[d] = self.imp(self.reg[s])
        elif op == "enc":
            if not self.opaque(self.reg[s]):
                b = self.encode(self.reg[s], *r.choice([(False, False), (False, True), (True, True), (True, False)]))
                if b is not None:
                    name = f"enc{self.k}-{len(self.cmds)}"
                    with open(f"{self.d}/{name}", "wb") as f:
                        f.write(b)
                    self.emit(f"enc {name} {d} {s}", "enc", d=d, s=s)
                    self.reg[d] = self.imp(self.reg[s])
        elif op == "twin":                      # equal or nearly equal values
            if self.opaque(self.reg[s]) or self.treesize(self.reg[s]) > 1000:
                return
            self.emit(f"strv {d} {s}", "strv", d=d, s=s)
            self.reg[d] = self.imp(self.reg[s])
            if r.random() < .4 and self.node(d) and self.node(d)[1]:
                # rebuild the top block with one other field, or one field fewer
                f = self.node(d)[1]
                t = self.node(d)[0]
                e = next(k for k in range(8) if k != d)
                i = r.randrange(len(f))
                # only immediates and registers can be operands: load the fields one by one
                if len(f) <= 5 and all(not isinstance(y, int) for y in f):
                    g = [self.imm() if j == i else y for j, y in enumerate(f)]
                    if r.random() < .2 and len(g) > 1:
                        g.pop()
                    self.emit(f"mk {e} {t} " + " ".join(map(text, g)), "mk", d=e, t=f"b{t}", f=[code(y) for y in g])
                    self.new(e, t, g)
            self.compare(d, s)
        elif op == "eq":
            self.compare(d, s)
        elif op == "hash":
            self.hash(s)
        elif op == "dump":
            self.emit(f"dump {s}", "dump", s=s)
        elif op == "gc":
            self.emit(f"gc {(k := r.choice([0, 1, 2000]))}", "gc")

    def snapshot(self, v):
        order = self.reach(v)
        num = {x: i + 1 for i, x in enumerate(order)}
        return ([[self.heap[x - 1][0], [num[y] if isinstance(y, int) else y for y in self.heap[x - 1][1]], self.heap[x - 1][2]]
                 for x in order], num[v] if isinstance(v, int) else v)

    def compare(self, d, s):
        if self.opaque(self.reg[d]) or self.opaque(self.reg[s]) or self.treesize(self.reg[d]) + self.treesize(self.reg[s]) > 2000:
            return
        self.emit(f"eq {s} {d}", "eq", d=d, s=s)
        for x in {s, d}:
            if self.r.random() < .5:
                self.hash(x)

    def hash(self, s):
        if self.opaque(self.reg[s]) or self.treesize(self.reg[s]) > 1000:
            return
        if self.r.random() < .8:
            self.emit(f"hash {s}", "hash", s=s)
        else:
            a, b = self.r.choice([(1, 10), (3, 100), (1000, 1000), (5, 5)])
            self.emit(f"hashp {s} {a} {b}", "hashp", s=s, f=[a, b])


CODES = {}


def code(v):
    """Immediates as numbers <= 0 (any injection does)."""
    if v == ("i", 0):
        return 0
    return CODES.setdefault(v, -len(CODES) - 1)


def text(v):
    return f"{v[0]}{v[1]}".replace("-", "~")


def graph(o):
    """A dump of the driver."""
    ns = o.split(";")

    def val(x):
        if x[0] in "i@":
            return code((x[0], int(x[1:].replace("~", "-"))))
        return int(x)
    nodes = []
    for n in ns[1:]:
        p = n.split(" ")
        nodes.append({"t": p[0], "f": [val(x) for x in p[1:]]})
    return {"r": val(ns[0]), "n": nodes}


def random_history(r, d, k, n):
    g = Gen(r, d, k)
    while len(g.cmds) < n:
        g.step()
    for s in range(8):
        g.emit(f"dump {s}", "dump", s=s)
    for q in range(3):
        while g.str[q]:
            g.str[q].pop(0)
            g.emit(f"in {q} 0", "in", d=0, a=q)
            g.emit("dump 0", "dump", s=0)
    return g


def big_history(r, d, k, m, n, stride, fmts):
    """Graphs with many shared cells: sharing tables grow, offsets need 8, 16 or 32 bits, blocks are large."""
    g = Gen(r, d, k)
    t = r.choice([0, 1, 20])
    g.emit(f"big 0 {t} {m} {n} {stride}", "big", d=0, b=n, c=stride, t=f"b{t}", f=[code(("i", i)) for i in range(m)])
    L = r.choice([5, 300])
    g.emit(f"list 1 {L} r0", "list", d=1, a=1, f=[code(("i", i)) for i in range(1, L + 1)])
    for f in fmts:
        if f == "strv":
            g.emit("strv 2 1", "strv", d=2, s=1)
        else:
            g.emit(f"{f} 0 1", f, s=1, a=0)
            g.emit(f"{f} 0 0", f, s=0, a=0)
            g.emit("in 0 2", "in", d=2, a=0)
            g.emit("in 0 3", "in", d=3, a=0)
            g.emit("dump 3", "dump", s=3)
        g.emit("gc 1", "gc")
        g.emit("dump 2", "dump", s=2)
        g.emit("gc 1", "gc")
    return g


def check(c):
    ins = vf.build()
    c.add_model("ValuesMC", vf.tlc("ValuesMC", cfg=vf.scale("ValuesMC", "ValuesMCbig"), timeout=1500))
    exe = vf.driver(ins, "values")
    base = os.path.dirname(exe)

    def go(job):
        name, make, param, deadline = job
        d = f"{base}/{name}"
        os.makedirs(d)
        gs = make(d)
        lines = [l for g in gs for l in ["reset"] + g.cmds]
        rc, o, e = vf.run([exe], cwd=d, inp="\n".join(lines) + "\n", env=ins.env(CAMLRUNPARAM=param), timeout=deadline)
        out = o.split("\n")[:-1]
        bad = f"driver did not finish within {deadline} s" if rc is None else f"driver ended with status {rc}: {e[-300:]}" if rc else \
            "wrong number of replies" if len(out) != len(lines) else None
        it, hs = iter(out), []
        for g in gs:
            next(it, None)
            t = []
            for e, cmd in zip(g.evs, g.cmds):
                o = next(it, None)
                if o is None:
                    break
                ev = dict(e, x=o[2:] if o.startswith("X ") else "", out=o, dump=0)
                if e["op"] == "dump":
                    try:
                        ev.update(out="", dump=graph(o))
                    except ValueError:
                        ev.update(x="unreadable", dump={"r": 0, "n": []})
                else:
                    del ev["dump"]
                t.append(ev)
            hs.append(t)
        return name, hs, bad, (lines, len(out))

    N = vf.scale(60, 400)
    jobs = []
    for i, p in enumerate(["", "s=4096", "s=4096 o=10", "s=4096 i=4096 o=300"]):
        jobs.append((f"random{i}", lambda d, i=i: [random_history(vf.rng("C15", i, j), d, j, vf.rng("n", i, j).choice([40, 100, 250]))
                                                   for j in range(N)], p, 300))
    bigs = [(20, 400, 7), (300, 300, 1), (1100, 2500, 1)]
    for i, (m, n, s) in enumerate(bigs if vf.QUICK else bigs + [(700, 2100, 3), (2500, 2500, 1), (5000, 9000, 11), (3000, 70000, 1)]):
        jobs.append((f"big{i}", lambda d, i=i, m=m, n=n, s=s: [big_history(vf.rng("C15b", i), d, 0, m, n, s, f)
                                                             for f in (["out"], ["cout"], ["strv"])], ["s=4096", ""][i % 2], 300))
    for name, hs, bad, (lines, n) in vf.pmap(go, jobs):
        if bad:
            c.violation(f"{name}: {bad}", {"job": name, "commands": lines[max(0, n - 40):n + 1]})
        rej, states = vf.tlc_traces("ValuesTrace", hs, parts=vf.scale(4, 8) if name.startswith("random") else 3, heap="4g")
        if os.environ.get('VF_TIME'): print(name, len(hs), states, round(time.time() - c.t0, 1))
        c.add_traces("random graphs" if name.startswith("random") else "large graphs", len(hs), states, sum(map(len, hs)))
        if name == "random0":
            c.sample({"history": [{k: v for k, v in e.items() if k in ("op", "d", "s", "t", "f", "out")} for e in hs[0][:8]]})
        vf.explain(c, hs, rej, "values are not written, read, compared or hashed by their structure")
    c.assumptions += ["the driver observes physical identity with the primitive ==", "files of other word sizes and endianness are produced by the check"]
