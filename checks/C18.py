"""C18: transactions of one or two processes on Gdbm and Polygdbm tables are behaviours of specs/Dbm.tla."""
import os
import vf
from proc import Proc


def stuff(n, ln):
    return bytes((n * 37 + i * 11 + (i // 29) * n) % 256 for i in range(ln))


def strtext(b):
    if len(b) <= 40:
        return "s" + b.hex()
    h = 7
    for x in b:
        h = (h * 31 + x) % 1073741789
    return f"S{len(b)}:{h}"


class Hist:
    """One history: random commands to two processes over one directory of files."""

    def __init__(self, r, poly, exe, d, env):
        self.r, self.poly, self.exe, self.d, self.env = r, poly, exe, d, env
        with open(f"{d}/g", "w") as h:
            h.write("This file is not a table. " * r.choice([1, 40, 400]))
        self.evs, self.procs, self.bad = [], {}, None
        self.keys = [self.term(2) if poly else self.string(r.choice([0, 1, 1, 2, 3, 8, 20, 40, 41, 300])) for _ in range(r.choice([3, 8, 25]))]
        self.frames = {1: [], 2: []}        # only to know what can be asked: [(first table, number)]
        self.mode, self.shut = {1: [], 2: []}, {1: [], 2: []}

    # values: (command text, reply text)
    def string(self, n):
        if n <= 40:
            b = bytes(self.r.choice([0, 10, 32, 97, 98, 128, 255]) for _ in range(n))
            return "x" + b.hex(), strtext(b)
        k = self.r.randrange(1000)
        return f"*{k}.{n}", strtext(stuff(k, n))

    def term(self, depth):
        r = self.r

        def go(d):
            p = r.random()
            if d == 0 or p < .55:
                q = r.random()
                if q < .3:
                    return [f"I{r.choice([0, 1, 7, 255, 65536, 2**29, 2**40])}"]
                if q < .65:
                    return ["S" + bytes(r.choice([0, 97, 98, 255]) for _ in range(r.choice([1, 2, 7, 8, 9]))).hex()]
                return [r.choice(["N", "C0", "C65", "C255", "R0", "R3", "R1000001"])]
            if p < .8:
                return ["P"] + go(d - 1) + go(d - 1)
            if p < .92:
                n = r.choice([0, 1, 2, 3])
                return [f"L{n}"] + [x for _ in range(n) for x in go(d - 1)]
            return [f"A{r.choice([1, 2, 9, 20])}"]
        t = ",".join(go(depth))
        return t, t

    def key(self):
        return self.r.choice(self.keys)

    def datum(self):
        return self.term(3) if self.poly else self.string(self.r.choice([0, 1, 3, 17, 40, 41, 1000, 5000]) if self.r.random() < .97 else 70000)

    def do(self, p, op, line, t=1, k="", v="", fm=(), inner=""):
        if p not in self.procs:
            self.procs[p] = Proc(self.exe, self.d, self.env)
        out = self.procs[p].ask(line)
        ev = dict(p=p, op=op, t=t, k=k, v=v, fm=[list(x) for x in fm], inner=inner, out=out, list=[])
        if out is None:
            rc, err = self.procs.pop(p).end()
            self.bad = f"process ended with status {rc} (or gave no reply) at '{line[:80]}': {err[-200:]}"
            return None
        if out.startswith("list"):
            xs = out[5:].split(" ") if out[5:] else []
            o = inner or op
            ev.update(out="list", list=xs if o == "listKeys" else [x.split("=", 1) for x in xs])
        self.evs.append(ev)
        return ev["out"]

    def open(self, p, fm):
        o = self.do(p, "open", f"open {'p' if self.poly else 'g'} " + " ".join(f"{f} {m}" for f, m in fm), fm=fm)
        if o == "ok":
            n = len(self.mode[p])
            self.mode[p] += [m for _, m in fm]
            self.shut[p] += [False] * len(fm)
            self.frames[p].append((n, len(fm)))
        return o

    def left(self, p):
        n, m = self.frames[p].pop()
        self.shut[p][n:n + m] = [True] * m

    def leave(self, p, how):
        if self.do(p, how, how):
            self.left(p)

    def die(self, p):
        if self.do(p, "die", "die"):
            self.procs.pop(p).end()
            self.frames[p], self.mode[p], self.shut[p] = [], [], []

    def op(self, p, op, t):
        k, v = self.key(), self.datum()
        esc = self.r.random() < .04 and self.frames[p]
        args = {"add": f"{k[0]} {v[0]}", "insert": f"{k[0]} {v[0]}"}.get(op, k[0] if op in ("remove", "find", "peek", "hasKey") else "")
        o = self.do(p, "escape" if esc else op, ("escape " if esc else "") + f"{op} {t} {args}".strip(), t=t, k=k[1], v=v[1],
                    inner=op if esc else "")
        if o and o.startswith("escaped"):
            self.left(p)

    def random(self, n, two):
        r = self.r
        for _ in range(n):
            if self.bad:
                return
            p = r.choice([1, 2]) if two else 1
            q = r.random()
            depth = len(self.frames[p])
            if depth == 0 or q < .04:
                k = r.choice([1, 1, 1, 1, 2, 2, 3])
                self.open(p, [(r.choices("abcg", [6, 4, 2, .4])[0], r.choices(["READER", "WRITER", "WRCREAT", "NEWDB"], [3, 3, 6, .5])[0])
                              for _ in range(k)])
            elif q < .09:
                self.leave(p, r.choice(["return", "return", "return", "raise"]))
            elif q < .10:
                self.die(p)
            else:
                live = [i + 1 for i, s in enumerate(self.shut[p]) if not s]
                anyt = [i + 1 for i, s in enumerate(self.shut[p])]
                t = r.choice(live if live and r.random() < .95 else anyt)
                self.op(p, r.choices(["add", "insert", "remove", "find", "peek", "hasKey", "numItems", "reorganize", "listKeys", "listItems", "app", "map", "fold"],
                                     [6, 6, 4, 3, 3, 3, 1, .5, .7, .7, .5, .5, .5])[0], t)

    def finish(self):
        """Every transaction ends; every file is read by a new process."""
        for p in (1, 2):
            while self.frames[p] and not self.bad:
                self.leave(p, "return")
            if not self.bad and p in self.procs:
                self.die(p)
        for f in "abc":
            if not self.bad and self.open(1, [(f, "READER")]) == "ok":
                t = len(self.mode[1])
                for o in ("listKeys", "listItems", "numItems"):
                    if not self.bad:
                        self.do(1, o, f"{o} {t}", t=t)
                if not self.bad:
                    self.leave(1, "return")
        for p in list(self.procs):
            self.procs.pop(p).end()


def check(c):
    ins = vf.build(extra=("mgdbm",))
    c.add_model("DbmMC", vf.tlc("DbmMC", cfg=vf.scale("DbmMC", "DbmMCbig"), timeout=1500))
    exe = vf.driver(ins, "dbm")
    base = os.path.dirname(exe)

    def go(job):
        name, i, poly, n, two, param = job
        d = f"{base}/{name}{i}"
        os.makedirs(d)
        h = Hist(vf.rng("C18", name, i), poly, exe, d, ins.env(CAMLRUNPARAM=param, LD_LIBRARY_PATH=ins.lib))
        if "bulk" in name:                      # large tables: many buckets, directory splits, reorganisation
            h.keys = [h.term(2) for _ in range(400)] if poly else [h.string(h.r.choice([1, 2, 3, 4, 5])) for _ in range(h.r.choice([60, 300]))]
            h.open(1, [("a", "WRCREAT")])
            for _ in range(n):
                if h.bad or not h.frames[1]:
                    break
                h.op(1, h.r.choices(["add", "insert", "remove", "find", "hasKey", "numItems", "reorganize", "listItems"], [9, 6, 4, 2, 1, .1, .05, .05])[0], 1)
        else:
            h.random(n, two)
        h.finish()
        return name, h

    N = vf.scale(1, 6)
    jobs = []
    params = ["s=4096", "", "s=4096 i=4096 o=300"]
    for i in range(24 * N):
        jobs.append(("gdbm", i, False, 150, False, params[i % 3]))
        jobs.append(("poly", i, True, 150, False, params[i % 3]))
        jobs.append(("gdbmtwo", i, False, 200, True, params[i % 3]))
    for i in range(12 * N):
        jobs.append(("polytwo", i, True, 150, True, params[i % 3]))
    for i in range(3 * N):
        jobs.append(("bulk", i, False, 600, False, params[i % 3]))
        jobs.append(("polybulk", i, True, 400, False, params[i % 3]))
    res = vf.pmap(go, jobs, 8)
    for name, h in res:
        if h.bad:
            c.violation(f"{name}: {h.bad}", {"history": h.evs[-60:]})
    hs = [h.evs for _, h in res]
    rej, states = vf.tlc_traces("DbmTrace", hs, parts=8)
    c.add_traces("transactions", len(hs), states, sum(map(len, hs)))
    c.sample({"history": hs[0][:8]})
    c.cov["answers"] = {o: sum(e["out"] == o for h in hs for e in h) for o in ("ok", "list", "GdbmError", "NotWriter", "Closed", "NotFound", "AlreadyThere", "Quit", "dead")}
    vf.explain(c, hs, rej, "a table is not the finite map it should be")

    # a key is a value: two equal keys are the same key, however they are represented
    d = vf.scratch("dbm")
    with open(f"{d}/s.sml", "w") as h:
        h.write("""fun f n = CharVector.tabulate (n, fn _ => #"a")
val s = f 3
val r = Polygdbm.withtable ("t", Gdbm.NEWDB) (fn (db : (string * string, int) Polygdbm.table) =>
  (Polygdbm.insert db ((s, s), 1); (Polygdbm.hasKey db (s, s), Polygdbm.hasKey db (f 3, f 3))))
val _ = print (Bool.toString (#1 r) ^ " " ^ Bool.toString (#2 r))
""")
    rc, o = vf.mosmlc(ins, d, "s.sml", "s.exe", "-toplevel")
    rc2, o2, e2 = vf.run([f"{d}/s.exe"], cwd=d, env=ins.env(LD_LIBRARY_PATH=ins.lib))
    if o2 != "true true":
        c.violation(f"Polygdbm: after inserting the key (s, s), hasKey of (s, s) and of an equal pair of two distinct strings: {o2 or o or e2}",
                    {"program": open(f"{d}/s.sml").read()}, key="poly-shared-key" if o2 == "true false" else None)
    c.assumptions += ["the installed libgdbm is correct (its own data structures are not modelled)",
                      "processes run on one host; a process may end without closing its tables, the host does not crash"]
