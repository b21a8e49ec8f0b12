"""C14: histories of stream operations of the real system are behaviours of specs/StreamIO.tla; BufIO.tla refines it."""
import os, shutil, threading, time
import vf

SIZES = [0, 1, 2, 3, 4, 5, 7, 10, 59, 60, 61, 100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 511, 512, 513]
BIG = [13000, 1000, 2048, 4090, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 5000, 6000, 8190, 8191, 8192, 8193, 9000]
EDGES = [0, 1, 2, 4, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8188, 8191, 8192, 8193]
F_DIR, F_FIFO, F_NODIR, F_FULL, F_IN, F_OUT, F_ERR = 4, 5, 6, 7, 8, 9, 10


def content(r, n):
    k = r.randrange(5)
    if k == 0:
        b = bytearray(r.randrange(256) for _ in range(n))
    elif k == 1:
        b = bytearray((i * 7 + i // 251) % 256 for i in range(n))
    else:
        b = bytearray(97 + (i + i // 26) % 26 for i in range(n))
    if k >= 2:
        p = 0
        while True:
            p += r.choice([0, 1, 2, 10, 30, 60, 125, 126, 127, 128, 254, 255, 256, 510, 1500, 4095, 4096, 4097])
            if p >= n:
                break
            b[p] = r.choice([10, 10, 10, 10, 13, 0, 255])
            p += 1
    return bytes(b)


def hx(b):
    return b.hex() or "-"


class Gen:
    def __init__(self, r, k):
        self.r, self.k = r, k
        self.cmds, self.evs = [], []
        self.files = {f: None for f in range(1, 11)}       # length, or None if absent
        self.slots = {s: None for s in range(1, 10)}       # dict(dir, closed, f, pos, api, app)
        self.dirty = {}                                    # file -> (slot, wild)
        self.init = {}
        r = self.r
        for f in (1, 2, 3):
            if r.random() < .7:
                self.mk(f, "reg", content(r, r.choice(SIZES + BIG)))
        self.mk(F_DIR, "dir", b"")
        self.mk(F_NODIR, "nodir", b"")
        self.mk(F_FULL, "full", b"")
        self.mk(F_FIFO, "fifo", content(r, r.choice(SIZES + BIG)))
        self.mk(F_IN, "fifo", content(r, r.choice(SIZES + BIG)))
        self.mk(F_OUT, "out", b"")
        self.mk(F_ERR, "out", b"")
        self.fifo_used = False
        for s, d, f in ((7, "in", F_IN), (8, "out", F_OUT), (9, "out", F_ERR)):
            self.ev("std", s=s, f=f, r=d)
            self.slots[s] = dict(dir=d, closed=False, f=f, pos=0, api="t", app=False)
            self.api(s, "t")

    def mk(self, f, kind, data):
        self.ev("mk", f=f, r=kind, data=list(data))
        self.init[f] = data
        self.files[f] = len(data)

    def ev(self, op, s=0, f=1, n=0, m=0, k=0, num=0, api="", data=(), r="", out=()):
        self.evs.append(dict(op=op, s=s, f=f, n=n, m=m, k=k, num=num, api=api, data=list(data), r=r, out=list(out)))
        return self.evs[-1]

    def cmd(self, text, op, **kw):
        e = self.ev(op, **kw)
        self.cmds.append((text, e))

    def api(self, s, a):
        name = {7: "in", 8: "out", 9: "err"}[s]
        self.cmd(f"std {s} {a}{name}", "api", s=s, api=a)
        self.slots[s]["api"] = a

    def live(self, f):
        return [s for s, x in self.slots.items() if x and not x["closed"] and x["f"] == f]

    def flushed(self, f):
        self.dirty.pop(f, None)

    def open(self):
        r = self.r
        free = [s for s in range(1, 7) if not self.slots[s] or self.slots[s]["closed"]]
        if not free:
            return self.close(r.choice([s for s in range(1, 7)]))
        s = r.choice(free)
        op = r.choice(["openin", "openin", "openin", "openout", "openapp"])
        f = r.choices([1, 2, 3, F_DIR, F_NODIR, F_FIFO, F_FULL], [6, 6, 6, .4, .4, 2, .7])[0]
        if f == F_FIFO and (op != "openin" or self.fifo_used):
            f = 1
        if op == "openout" and self.live(f):
            op = "openin"
        if op == "openapp" and any(self.slots[x]["dir"] == "out" and not self.slots[x]["app"] for x in self.live(f)):
            op = "openin"
        if f == F_FULL and op == "openin":
            f = 2
        api = r.choice({"openin": ["t", "t", "b", "o", "o", "n"], "openout": ["t", "b", "o", "ob", "ox", "n"],
                        "openapp": ["t", "b", "o"]}[op])
        a = "o" if api[0] in "on" else api
        self.cmd(f"{op} {s} {api} {f}", op, s=s, f=f, api=a)
        fails = f == F_NODIR or (op == "openin" and self.files[f] is None) or (op != "openin" and f == F_DIR)
        if fails:
            return
        if f == F_FIFO:
            self.fifo_used = True
        if op == "openout" or self.files[f] is None:
            self.files[f] = 0
        self.slots[s] = dict(dir="in" if op == "openin" else "out", closed=False, f=f, pos=0, api=a, app=op == "openapp")

    def close(self, s):
        x = self.slots[s]
        if not x or s >= 7:
            return
        if x["dir"] == "out" and self.dirty.get(x["f"], (0,))[0] == s:
            self.flushed(x["f"])
        if not (x["f"] == F_FULL):
            x["closed"] = True
        self.cmd(f"close {s}", "close", s=s)

    def count(self, s):
        """A read size with a taste for buffer boundaries."""
        r, x = self.r, self.slots[s]
        p = r.random()
        if p < .35:
            e = r.choice(EDGES) - (x["pos"] % 4096)
            return max(0, e)
        if p < .45:
            return max(0, (self.files[x["f"]] or 0) - x["pos"] + r.choice([-1, 0, 1]))
        return r.choice(SIZES) if p < .9 else r.choice(BIG)

    def read(self, s):
        r, x = self.r, self.slots[s]
        f, api = x["f"], x["api"]
        if f in self.dirty and (self.dirty[f][1] or r.random() < .5):
            return self.cmd_flush(self.dirty[f][0])
        dirty = f in self.dirty
        D = self.files[f] or 0
        std = s == 7
        ops = {"t": ["input", "inputN", "inputN", "inputAll", "input1", "input1", "look", "look", "eos", "inputLine", "inputLine", "noblock", "scan"],
               "b": ["input", "inputN", "inputN", "inputAll", "input1", "look", "eos", "noblock"],
               "o": ["inputN", "inputN", "look", "eos", "inputLine", "can", "inputChar", "inputInt", "buffin", "really",
                     "seek", "seek", "seek", "pos", "pos", "length"]}[api]
        op = r.choice(ops)
        if api == "o" and f in (1, 2, 3) and not x["closed"] and D > 4200 and r.random() < .12:
            return self.burst(s)
        pipe = f in (F_FIFO, F_IN)
        if (pipe and op in ("seek", "length", "pos", "can")) or (dirty and op in ("scan", "inputInt", "really", "inputLine")):
            op = "look"
        if op == "inputAll" and r.random() < .6:
            op = "inputN"
        n = m = k = 0
        if op == "inputN":
            n = self.count(s) if r.random() < .97 else r.choice([-1, -3, -1000] + ([2 ** 57] if api == "t" else []))
            if n == 2 ** 57:
                self.cmd(f"inputN {s} {n}", op, s=s, n=-1)
                return
            text = f"{n}"
        elif op == "can":
            n = r.choice([-1, 0, 1, 1, 2, 3, self.count(s)])
            text = f"{n}"
        elif op == "scan":
            n = self.count(s)
            m = r.choice([0, 1, 5, 511, 512, 513, n])
            text = f"{n} {m}"
        elif op == "buffin":
            k = r.choice([0, 1, 10, 100, 4095, 4096, 4097, 5000])
            n = min(k, r.choice([0, 0, 1, k // 2, k]))
            m = k - n if r.random() < .5 else r.randrange(k - n + 1)
            if r.random() < .15 and not x["closed"]:
                n, m = r.choice([(-1, 1), (0, -1), (1, k), (k, 1), (k + 1, -1)])
            text = f"{n} {m} {k}"
        elif op == "really":
            m = self.count(s) if r.random() < .9 else r.choice([-1, 0])
            text = f"{m}"
        elif op == "seek":
            p = r.random()
            n = r.choice(EDGES) if p < .4 else r.randrange(D + 2) if p < .7 else max(0, x["pos"] + r.choice([-1, 1, -2, 2, -4096, 4096, -4095, -100])) if p < .95 else r.choice([-1, -4096, D + 5000])
            text = f"{n}"
        else:
            text = ""
        self.cmd(f"{op} {s} {text}", op, s=s, n=n, m=m, k=k)
        if x["closed"] or f == F_DIR:
            return
        left = max(0, D - x["pos"])                # rough position tracking, only to choose interesting sizes
        x["pos"] += {"inputN": min(max(n, 0), left), "inputAll": left, "input1": min(1, left), "inputChar": min(1, left),
                     "scan": min(n, left), "inputInt": min(4, left), "really": min(max(m, 0), left), "input": min(60, left),
                     "noblock": min(60, left), "buffin": min(max(m, 0), left) if n >= 0 else 0, "inputLine": min(50, left)}.get(op, 0)
        if op == "seek" and n >= 0:
            x["pos"] = n

    def burst(self, s):
        """Reads that bypass the buffer, with seeks back to what they and earlier reads left in it."""
        r, x = self.r, self.slots[s]
        D = self.files[x["f"]]
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .7:
                n = max(0, r.choice([0, 1, 100, 1000, x["pos"] - 4100, D - 8300, D - 4300, D - 100]))
                self.cmd(f"seek {s} {n}", "seek", s=s, n=n)
                x["pos"] = n
            for n in [r.choice([1, 50, 100, 4096]), r.choice([4096, 4097, 4200, 5000, 8200, 9000])]:
                self.cmd(f"inputN {s} {n}", "inputN", s=s, n=n)
                x["pos"] = min(max(D, x["pos"]), x["pos"] + n)
            n = max(0, x["pos"] - r.choice([0, 1, 40, 99, 100, 101, 4095, 4096, 4097, 5000]))
            if r.random() < .8:
                self.cmd(f"seek {s} {n}", "seek", s=s, n=n)
                x["pos"] = n
            op = r.choice(["look", "inputChar", "inputN", "inputLine", "pos"])
            self.cmd(f"{op} {s} 30", op, s=s, n=30)

    def cmd_flush(self, s):
        x = self.slots[s]
        if self.dirty.get(x["f"], (0,))[0] == s:
            self.flushed(x["f"])
        self.cmd(f"flush {s}", "flush", s=s)

    def write(self, s):
        r, x = self.r, self.slots[s]
        f, api = x["f"], x["api"]
        d = self.dirty.get(f)
        if d and d[0] != s and not x["closed"]:
            return self.cmd_flush(d[0])
        std = s >= 8
        ops = {"t": ["output"] * 5 + ["output1", "output1", "outSub", "outSub", "flush"],
               "b": ["output"] * 5 + ["output1", "output1", "flush"],
               "o": ["output"] * 4 + ["output1", "outByte", "outInt", "buffout", "buffout", "flush"] + ["seekout"] * 5 + ["posout"] * 4}[api]
        if std:
            ops = [o for o in ops if o not in ("seekout", "posout")] + (["print"] if s == 8 else [])
        if api == "o" and f in (1, 2, 3) and not x["closed"] and not x["app"] and x["pos"] < 12000 and r.random() < .35:
            return self.burst_out(s)
        op = r.choice(ops)
        if x["app"] and op in ("seekout", "posout"):
            op = "output"
        n = m = num = 0
        data = b""
        if op not in ("flush", "seekout", "posout") and not std and not x["closed"] and f != F_FULL \
                and not x["app"] and x["pos"] < (self.files[f] or 0):
            for y in self.live(f):      # what an open input stream has buffered of a file rewritten in place is unspecified
                if self.slots[y]["dir"] == "in":
                    self.close(y)
        if op == "flush":
            return self.cmd_flush(s)
        L = self.files[f] or 0
        if op in ("output", "print", "outSub", "buffout"):
            p = r.random()
            ln = max(0, r.choice(EDGES) - (x["pos"] % 4096)) if p < .45 else r.choice(SIZES) if p < .9 else r.choice(BIG)
            if std and s == 9 or L > 16000:
                ln = min(ln, 60)
            data = content(r, ln)
            text = hx(data)
            if op in ("outSub", "buffout"):
                n = r.choice([0, 0, 1, ln // 2, ln])
                n = min(n, ln)
                m = r.choice([ln - n, r.randrange(ln - n + 1)])
                if op == "buffout" and r.random() < .12:
                    n, m = r.choice([(-1, 1), (0, -1), (0, ln + 1), (ln, 1)])
                text += f" {n} {m}"
                wrote = m if 0 <= n and 0 <= m and n + m <= ln else 0
            else:
                wrote = ln
        elif op == "output1":
            data = bytes([r.randrange(256)])
            text, wrote = data.hex(), 1
        elif op == "outByte":
            n = r.choice([0, 10, 127, 128, 255, 256, 300, -1, -128, r.randrange(256)])
            text, wrote = str(n), 1
        elif op == "outInt":
            num = r.choice([0, 1, -1, 255, 256, 65535, -65536, 2 ** 31 - 1, -2 ** 31, r.randrange(-2 ** 31, 2 ** 31)])
            text, wrote = str(num), 4
        elif op == "seekout":
            p = r.random()
            n = r.choice(EDGES) if p < .3 else r.randrange(L + 1) if p < .55 else max(0, x["pos"] - r.choice([1, 2, 5, 60, 100, 4095, 4096, 4097, x["pos"]])) if p < .93 else r.choice([-1, -50, L + 1, L + 300])
            n = min(n, 14000)
            text, wrote = str(n), 0
        else:
            text, wrote = "", 0
        self.cmd(f"{op} {s} {text}", op, s=s, n=n, m=m, num=num, data=data)
        if x["closed"] or f == F_FULL:
            return
        if op == "seekout":
            if n >= 0:
                x["pos"] = n
            return
        if wrote:
            at = L if x["app"] or std else x["pos"]
            self.files[f] = max(L, at + wrote)
            x["pos"] = at + wrote
            if s != 9 and op != "print":
                self.dirty[f] = (s, (d and d[1]) or at < L)
            if op == "print":
                self.flushed(f)

    def burst_out(self, s):
        """Rewrites of what is still in the buffer, at every distance from its ends."""
        r, x = self.r, self.slots[s]
        f = x["f"]
        for y in self.live(f):
            if self.slots[y]["dir"] == "in":
                self.close(y)

        def out(n):
            if self.files[f] > 16000:
                return
            d = content(r, n)
            self.cmd(f"output {s} {hx(d)}", "output", s=s, data=d)
            if n:
                self.dirty[f] = (s, (f in self.dirty and self.dirty[f][1]) or x["pos"] < self.files[f])
                x["pos"] += n
                self.files[f] = max(self.files[f], x["pos"])

        for _ in range(r.choice([1, 2, 3])):
            a = x["pos"]
            out(r.choice([1, 10, 50, 100, 4000, 4095, 4096]))
            back = r.choice([1, 2, 5, 50, x["pos"] - a, x["pos"] - a - 1])
            n = max(0, x["pos"] - back)
            self.cmd(f"seekout {s} {n}", "seekout", s=s, n=n)
            x["pos"] = n
            if r.random() < .8:
                out(r.choice([0, 1, back - 1, back, back + 1, 4090, 4096, 4097, 5000]))
            if r.random() < .5:
                self.cmd(f"posout {s}", "posout", s=s)
            if r.random() < .6:
                self.cmd_flush(s)

    def step(self):
        r = self.r
        p = r.random()
        used = [s for s in range(1, 10) if self.slots[s] and (not self.slots[s]["closed"] or r.random() < .12)]
        if len([s for s in used if s < 7]) < 2 or p < .08:
            return self.open()
        if p < .12:
            return self.close(r.choice(used))
        if p < .14:
            return self.cmd(f"exists {(f := r.choice([1, 2, 3, 4, 6]))}", "exists", f=f)
        if p < .16:
            f = r.choice([1, 2, 3])
            if not self.live(f):
                self.cmd(f"remove {f}", "remove", f=f)
                self.files[f] = None
            return
        if p < .18:
            return self.api(r.choice([7, 8, 9]), r.choice("to"))
        if r.random() < .15:
            s = r.choice([7, 7, 8, 9])
        else:
            s = r.choice([x for x in used if x < 7] or [7])
        if self.slots[s]["dir"] == "in":
            self.read(s)
        else:
            self.write(s)


def fifo_writer(path, data, seed):
    r = vf.rng("fifo", seed)

    def go():
        try:
            with open(path, "wb", buffering=0) as h:
                p = 0
                while p < len(data):
                    k = r.choice([1, 3, 60, 100, 1000, 4096, 5000])
                    h.write(data[p:p + k])
                    p += k
                    time.sleep(r.choice([0, .0005, .002]))
        except OSError:
            pass
    t = threading.Thread(target=go, daemon=True)
    t.start()
    return t


def execute(ins, exe, g, top):
    d = f"{top}/h{g.k}"
    os.makedirs(f"{d}/d")
    for f in (1, 2, 3):
        if f in g.init:
            open(f"{d}/f{f}", "wb").write(g.init[f])
    t = None
    if g.fifo_used:
        os.mkfifo(f"{d}/f5")
        t = fifo_writer(f"{d}/f5", g.init[F_FIFO], g.k)
    open(f"{d}/cmds", "w").write("\n".join(c for c, _ in g.cmds) + "\n")
    rc, out, err = vf.run([exe, f"{d}/cmds", f"{d}/log", d], inp=g.init[F_IN], env=ins.env(), timeout=60)
    lines = open(f"{d}/log", encoding="latin-1").read().split("\n")[:-1] if os.path.exists(f"{d}/log") else []
    bad = None
    if rc != 0 or len(lines) != len(g.cmds):
        bad = f"driver status {rc}, {len(lines)} answers to {len(g.cmds)} commands; next: {g.cmds[min(len(lines), len(g.cmds) - 1)][0][:80]}; {err[-200:]}"
    for (c, e), ln in zip(g.cmds, lines):
        w = ln.split(" ")
        if e["op"] == "api":
            continue
        if w[0] == "ok":
            e["r"] = "ok"
            e["out"] = list(bytes.fromhex(w[1])) if len(w) > 1 and w[1] else []
        elif w[0] == "num":
            n = int(w[1].replace("~", "-"))
            e["r"], e["num"] = ("ok", n) if -2 ** 31 <= n < 2 ** 31 else ("big", 0)
        else:
            e["r"] = ln[:60]
    evs = g.evs
    if bad is None:
        for f in (1, 2, 3):
            try:
                g.ev("final", f=f, r="ok", out=open(f"{d}/f{f}", "rb").read())
            except FileNotFoundError:
                g.ev("final", f=f, r="none")
        g.ev("final", f=F_OUT, r="ok", out=out.encode("latin-1"))
        g.ev("final", f=F_ERR, r="ok", out=err.encode("latin-1"))
    shutil.rmtree(d, ignore_errors=True)
    return bad


def check(c):
    ins = vf.build()
    for side in ("out", "in"):
        c.add_model(f"BufIO ({side}put channel, buffer of 3)", vf.tlc("BufIO", cfg=f"Buf{side}" + vf.scale("", "big"), timeout=600), least=300)
    exe = vf.driver(ins, "streamio")
    top = vf.scratch("io")
    gs = []
    for k in range(vf.scale(360, 2500)):
        r = vf.rng("c14", k)
        g = Gen(r, k)
        for _ in range(r.choice([12, 25, 40, 60])):
            g.step()
        gs.append(g)
    bads = vf.pmap(lambda g: execute(ins, exe, g, top), gs)
    for g, bad in zip(gs, bads):
        if bad:
            c.violation(f"history {g.k}: {bad}", {"commands": [x for x, _ in g.cmds], "files": {f: v.hex() for f, v in g.init.items()}})
    good = [g for g, b in zip(gs, bads) if not b]
    hists = [g.evs for g in good]
    n = sum(map(len, hists))
    rejs, states = vf.tlc_traces("StreamIOTrace", hists, parts=vf.NCPU, heap="2g", timeout=800)
    c.add_traces("stream histories", len(hists), states, n)
    for h, l, t in rejs[:10]:
        e = hists[h][l] if l < len(hists[h]) else None
        short = {k: v if not isinstance(v, list) or len(v) < 40 else v[:40] + ["..."] for k, v in (e or {}).items()}
        c.violation(f"history {good[h].k}, event {l + 1}: {short} is not what the streams' contents allow: {t[:300]}",
                    {"commands": [x for x, _ in good[h].cmds], "event": e, "files": {f: v.hex() for f, v in good[h].init.items()}})
    for g in good[:3]:
        c.sample([x[:60] for x, _ in g.cmds[:12]])
    ops = {}
    for h in hists:
        for e in h:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.cov["operations"] = ops
    c.assumptions += ["files of at most about 25 kB; the buffer of 4096 bytes is crossed in every alignment the generator favours",
                      "BufIO.tla abstracts the buffer size to 3 bytes and bounds the number of operations",
                      "positions of append streams and concurrent unflushed writers of one file are left unspecified"]
