"""C27: histories of a process with Unix domain and loopback sockets are behaviours of specs/Sock.tla."""
import os
import vf
from proc import Proc


def stuff(n, ln):
    return [(n * 37 + i * 11 + (i // 29) * n) % 256 for i in range(ln)]


class S:
    def __init__(self, spec, k):
        self.h, self.k, self.st, self.name, self.peer, self.pend = spec, k, "new", None, None, []
        self.q, self.eof, self.nosend, self.norecv, self.taint = [], False, False, False, False


class Hist:
    def __init__(self, r, exe, d, env, port):
        self.r, self.port, self.evs, self.bad = r, port, [], None
        self.p = Proc(exe, d, env)
        self.socks, self.nspec, self.drv, self.addrs, self.k = [], 0, 0, [], 0
        self.names = {}

    def ask(self, line, op, s=None, **kw):
        out = None if self.bad else self.p.ask(line, 30)
        if out is None and self.bad:
            return None
        if out is None:
            rc, err = self.p.end()
            self.bad = f"no reply (status {rc}) to '{line[:100]}': {err[-200:]}"
            return None
        ev = dict(op=op, h=s.h if s else 0, g=0, k="", a="", to=0, toolong=False, how=0, data=[], ofs=0, size=-1000, vec=True, n=0, got=0,
                  buf=[], peek=False, out=out, r=[], w=[], rs=[], ws=[], xs=[])
        ev.update(kw)
        self.evs.append(ev)
        return ev

    def new(self, k):
        if self.ask(f"new {k}", "new", k=k):
            self.nspec += 1
            self.drv += 1
            s = S(self.nspec, k)
            s.d = self.drv
            self.socks.append(s)
            return s

    def name(self, s, fresh):
        r = self.r
        if s.k[0] == "i":
            if not fresh and self.names:
                xs = [a for a, o in self.names.items() if a[0] == "I" and o.k == s.k and o.st != "closed"]
                if xs:
                    return r.choice(xs)
            self.port[0] += 1
            return f"I:{self.port[0]}"
        xs = [a for a in self.names if a[0] == "F"]
        if not fresh and xs and r.random() < .93:
            return r.choice(xs)
        self.k += 1
        pre = f"n{self.k}"
        return "F:" + (pre if r.random() < .6 else pre + "x" * (r.choice([20, 90, 104, 105, 106, 107]) - len(pre)))

    def long(self):
        return "F:" + "y" * self.r.choice([108, 109, 120, 300])

    def bind(self, s, a=None):
        if a is None and s.k[0] == "f" and self.r.random() < .04:
            self.ask(f"bind {s.d} {(a := self.long())}", "bind", s, a=a, toolong=True)
            return
        a = a or self.name(s, self.r.random() < .9)
        if s.name and a in self.names:
            return
        e = self.ask(f"bind {s.d} {a}", "bind", s, a=a)
        if e and e["out"] == "ok":
            s.name = a
            self.names[a] = s

    def listener(self, k):
        s = self.new(k)
        if s is None:
            return
        while not self.bad and s.name is None:
            self.bind(s, self.name(s, True))
        if not self.bad and self.ask(f"listen {s.d} 5", "listen", s):
            s.st = "listen"
        return s

    def await_(self, s):
        if not self.bad and s.k[0] == "i":
            self.ask(f"await {s.d} 3000", "await", s)

    def ready(self, s):
        return bool(s.pend) if s.st == "listen" else bool(s.q) or s.eof or s.norecv

    def wait(self, s):
        return "3000" if self.ready(s) else "0"

    def connect(self, s, a=None, to=0):
        if to:
            arg, key = f"A:{to}", self.addrs[to - 1]
        else:
            arg = key = a or self.name(s, False)
        o = self.names.get(key)
        if o and o.st == "listen" and len(o.pend) > 3:
            return
        if o and o.k[0] == "i" and o.k != s.k:
            return
        if o is None and s.k[0] == "i":
            pass
        e = self.ask(f"connect {s.d} {arg}", "connect", s, a=a or ("" if to else arg), to=to)
        if e and e["out"] == "ok":
            self.nspec += 1
            t = S(self.nspec, s.k)
            t.st, t.peer, s.st, s.peer, t.d = "pending", s, "conn", t, None
            if o is None:
                self.bad = "connected to nothing"
                return
            o.pend.append(t)
            if s.k[0] == "i" and s.name is None:
                s.name = "?"

    def fill(self):
        """Little room is left in the minor heap when the next accept, select or recvFrom is called."""
        if self.r.random() < .5:
            self.ask(f"fill {self.r.randrange(90)}", "fill")

    def accept(self, s):
        self.fill()
        if s.st == "conn" and s.k[0] == "i":
            return
        now = s.st != "listen"
        e = self.ask(f"accept {s.d} {'now' if now else self.wait(s)} {s.k[0]}", "accept", s)
        if e and e["out"] in ("ok", "127.0.0.1") and s.pend:
            t = s.pend.pop(0)
            t.st = "conn"
            self.drv += 1
            t.d = self.drv
            self.addrs.append(t.peer.name if s.k[0] == "f" else None)
            self.socks.append(t)

    def part(self, n):
        """ofs, size for a buffer of n bytes: (ofs, size or None)"""
        r = self.r
        if r.random() < .5:
            return 0, None
        if r.random() < .08:
            return r.choice([(-1, None), (0, n + 1), (n + 1, None), (n, 1), (1, n), (0, -1), (n + 1, 0), (3, -1)])
        o = r.randint(0, n)
        return o, r.choice([None, r.randint(0, n - o)])

    def total(self, s):
        return sum(len(m) if isinstance(m, list) else 1 for m in s.q)

    def send(self, s):
        r = self.r
        n = r.choice([1, 1, 2, 5, 20, 100, 100, 1000])
        k = r.randrange(500)
        o, z = self.part(n)
        zz = n - o if z is None else z
        ok = o >= 0 and zz >= 0 and o + zz <= n
        if s.st == "conn":
            p = s.peer
            if s.taint or p.st == "closed" and s.k[0] == "i" or p.norecv and s.k[0] == "i" or len(p.q) + zz > 4000 or p.cnt > 15 or (ok and zz == 0):
                return
        elif s.k[0] == "i":
            return
        kind = r.choice(["vec", "arr", "vec'", "arr'"])
        e = self.ask(f"send {s.d} {kind} {k}.{n} {sm(o)} {'-' if z is None else sm(z)}", "send", s, data=stuff(k, n), ofs=o, size=-1000 if z is None else z)
        if e and e["out"].isdigit() and s.st == "conn":
            s.peer.q += stuff(k, n)[o:o + zz]
            s.peer.cnt += 1

    def sendto(self, s):
        r = self.r
        n = r.choice([0, 1, 2, 5, 20, 100, 1000])
        k = r.randrange(500)
        o, z = self.part(n)
        zz = n - o if z is None else z
        fam = s.k[0].upper()
        to = 0
        cands = [i + 1 for i, a in enumerate(self.addrs) if a is not None and (a[:1] == fam or fam == "F" and a == "" or a[:1] == "P" and fam == "I")]
        if cands and r.random() < .5:
            to = r.choice(cands)
            arg, key = f"A:{to}", self.addrs[to - 1]
        elif fam == "F" and r.random() < .03:
            arg = key = self.long()
        else:
            own = [a for a, x in self.names.items() if x.k == s.k and a[0] == fam]
            arg = key = r.choice(own) if own and r.random() < .93 else self.name(s, False)
            if arg[0] == "P":
                return
        t = self.names.get(key)
        if t and (t.k != s.k and fam == "I" or len(t.q) > 5):
            return
        if t is None and fam == "I":
            return
        e = self.ask(f"sendto {s.d} {arg} {r.choice(['vec', 'arr', chr(118) + 'ec' + chr(39), 'arr' + chr(39)])} {k}.{n} {sm(o)} {'-' if z is None else sm(z)}", "sendto", s,
                     a="" if to else arg, to=to, toolong=len(key) > 109, data=stuff(k, n), ofs=o, size=-1000 if z is None else z)
        if e and e["out"].isdigit():
            if fam == "I" and s.name is None:
                s.name = f"P{s.h}"
                self.names[s.name] = s
            if t and t.st != "closed":
                t.q.append((s, stuff(k, n)[o:o + zz]))

    def recv(self, s, op):
        r = self.r
        n = r.choice([0, 1, 3, 10, 50, 1000, 5000])
        kind = r.choice(["vec", "arr", "vec'", "arr'"])
        vec = kind.startswith("vec")
        o, z = (0, None) if vec else self.part(n)
        peek = kind.endswith("'") and r.random() < .5
        zz = n if vec else n - o if z is None else z
        now = op == "recv" and s.st == "new" and s.k[0] == "f"
        if op == "recv" and s.st == "new" and not now or s.st == "listen" or s.taint:
            return
        if zz == 0 and op == "recv":
            return
        if op == "recvfrom":
            self.fill()
        e = self.ask(f"{op} {s.d} {kind} {n} {sm(o)} {'-' if z is None else sm(z)} {int(peek)} {'now' if now else self.wait(s)}", op, s, vec=vec, n=n, ofs=o,
                     size=-1000 if z is None else z, peek=peek)
        if not e or not (e["out"].startswith("=") or e["out"][:1].isdigit()):
            return
        w = e["out"].split(" ")
        buf = list(bytes.fromhex(w[1])) if len(w) > 1 else []
        got = len(buf) if vec else int(w[0])
        e.update(out="got", buf=buf, got=got)
        if op == "recvfrom":
            self.addrs.append((s.q[0][0].name or "") if s.q else None)
            if not peek:
                s.q = s.q[1:]
        elif not peek:
            s.q = s.q[got:]
            if not s.q:
                s.cnt = 0

    def burst(self, s, n):
        """A long message through a stream, in one send."""
        k = self.r.randrange(500)
        kind = self.r.choice(["vec", "arr", "vec'", "arr'"])
        if s.peer.q or s.peer.st != "conn" or s.nosend or s.taint or s.peer.norecv or s.norecv:
            return
        e = self.ask(f"send {s.d} {kind} {k}.{n} 0 -", "send", s, data=stuff(k, n))
        if e and e["out"].isdigit():
            t = s.peer
            t.q += stuff(k, n)
            while t.q and not self.bad:
                m = len(t.q)
                e = self.ask(f"recv {t.d} vec {n + 10} 0 - 0 3000", "recv", t, vec=True, n=n + 10)
                if not e or not e["out"].startswith("="):
                    break
                buf = list(bytes.fromhex(e["out"][2:]))
                e.update(out="got", buf=buf, got=len(buf))
                t.q = t.q[len(buf):]
                if len(t.q) == m:
                    break

    def close(self, s):
        if s.pend or s.st == "new" and s.k[0] == "i" and s.k[1] == "s" and s.name == "?":
            return
        if s.st == "conn":
            if s.q:
                if self.r.random() < .9:
                    return
                s.peer.taint = True
            if s.peer.st == "pending":
                return
        if self.ask(f"close {s.d}", "close", s):
            if s.st == "conn":
                s.peer.eof = True
            s.st = "closed"

    def shutdown(self, s):
        if s.st != "conn":
            return
        if s.k == "is" and (s.nosend or s.eof or s.peer.st == "pending"):
            return
        how = 1 if s.k == "is" else self.r.choice([0, 1, 1, 2])
        e = self.ask(f"shutdown {s.d} {how}", "shutdown", s, how=how)
        if e and e["out"] == "ok":
            if how in (0, 2):
                s.norecv = True
            if how in (1, 2):
                s.nosend = s.peer.eof = True

    def select(self):
        r = self.r
        xs = [s for s in self.socks if s.st in ("listen", "conn") or s.k[1] == "d" and s.st == "new"]
        xs = [s for s in xs if not s.taint and not (s.k == "is" and s.st == "conn" and s.peer.st == "closed" and s.nosend)]
        if not xs:
            return
        pick = lambda: [r.choice(xs) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        a, b, x = pick(), pick(), pick()
        for s in set(a):
            if self.ready(s):
                self.await_(s)
        if self.bad:
            return
        some = any(self.ready(s) for s in a) or any(s.st != "listen" for s in b)
        f = lambda l: ",".join(str(s.d) for s in l) or "-"
        e = self.ask(f"select {f(a)} {f(b)} {f(x)} {r.choice(['none', '3000', '0']) if some else r.choice(['0', '1', '15'])}", "select",
                     r=[s.h for s in a], w=[s.h for s in b])
        if e:
            m = {str(s.d): s.h for s in self.socks}
            v = [[m.get(y, -1) for y in p.split(",") if y] for p in e["out"].split("|")]
            e.update(rs=v[0], ws=v[1], xs=v[2], out="")

    def random(self, n):
        r = self.r
        for s in (self.listener("fs"), self.listener("is")):
            pass
        for _ in range(n):
            if self.bad or len(self.socks) > 350 or len(self.addrs) > 380:
                break
            live = [s for s in self.socks if s.st != "closed"]
            op = r.choices(["new", "listener", "bind", "connect", "accept", "close", "shutdown", "send", "sendto", "recv", "recvfrom", "select", "compare", "gc", "listen", "badaddr", "gc2"],
                           [6, 1, 3, 7, 6, 1.5, 1, 18, 12, 18, 10, 10, 1, 1, 1, .3, 2])[0]
            if op == "new" and len(live) < 40:
                self.new(r.choice(["fs", "is", "fd", "id", "fd", "id"]))
            elif op == "listener" and len(live) < 40:
                self.listener(r.choice(["fs", "is"]))
            elif op == "gc":
                self.ask("gc", "gc")
            elif op == "select" and r.random() < .4:
                self.fill()
                self.select()
            elif op == "badaddr" and live:
                s = r.choice(live)
                a = r.choice(["1.2.3.256", "x", "1..2", "300.1.1.1", "127.0.0.1.5"])
                self.ask(f"bind {s.d} B:{a}", "badaddr", s)
            elif op == "select":
                self.select()
            elif op == "gc2" and self.big and live:
                xs = [s for s in live if s.st == "conn" and s.d]
                if xs:
                    self.big -= 1
                    self.burst(r.choice(xs), r.choice([5000, 32767, 32768, 40000, 66000]))
            elif op == "compare" and live:
                s, t = r.choice(live), r.choice(live)
                self.ask(f"compare {s.d} {t.d}", "compare", s, g=t.h)
            elif live:
                ok = {"bind": lambda s: s.st == "new", "connect": lambda s: s.k[1] == "s" and s.st in ("new", "conn"),
                      "accept": lambda s: s.k[1] == "s", "send": lambda s: s.k[1] == "s" and s.st != "listen", "recv": lambda s: s.k[1] == "s" and s.st != "listen",
                      "sendto": lambda s: s.k[1] == "d", "recvfrom": lambda s: s.k[1] == "d", "shutdown": lambda s: s.k[1] == "s",
                      "listen": lambda s: s.k == "fs" or s.st == "conn" and s.k == "is", "close": lambda s: True}.get(op)
                if ok is None:
                    continue
                xs = [s for s in live if ok(s)]
                if not xs:
                    continue
                pref = {"accept": [s for s in xs if s.st == "listen"], "connect": [s for s in xs if s.st == "new"], "send": [s for s in xs if s.st == "conn"],
                        "recv": [s for s in xs if s.st == "conn"], "recvfrom": [s for s in xs if s.q]}.get(op) or xs
                s = r.choice(pref if r.random() < .93 else xs)
                if op in ("recv", "recvfrom"):
                    self.recv(s, op)
                elif op == "listen":
                    if s.k == "fs" or s.st == "conn" and not s.nosend and not s.eof:
                        e = self.ask(f"listen {s.d} 5", "listen", s)
                        if e and e["out"] == "ok":
                            s.st = "listen"
                elif op == "connect" and s.st == "new" and r.random() < .8:
                    ls = [a for a, o in self.names.items() if o.st == "listen" and o.k == s.k]
                    if ls:
                        self.connect(s, r.choice(ls))
                elif op == "connect" and s.k == "fs" and r.random() < .3:
                    cs = [i + 1 for i, a in enumerate(self.addrs) if a is not None and a[:1] in ("F", "")]
                    if cs:
                        self.connect(s, to=r.choice(cs))
                elif op == "connect" and s.k == "is" and r.random() < .5 and s.st == "new":
                    dead = [a for a, o in self.names.items() if o.st == "closed" and o.k == "is" and a[0] == "I"]
                    if dead and s.name is None:
                        self.connect(self.new("is"), r.choice(dead))
                elif op == "connect" and (s.k == "fs" or s.st == "conn"):
                    self.connect(s)
                elif op != "connect":
                    getattr(self, op)(s)
        if not self.bad:
            self.p.end()


S.cnt = 0


def sm(n):
    return f"~{-n}" if n < 0 else str(n)


def check(c):
    ins = vf.build(extra=("msocket",))
    c.add_model("SockMC", vf.tlc("SockMC", cfg=vf.scale("SockMC", "SockMCbig"), timeout=1500))
    exe = vf.driver(ins, "sock")
    base = os.path.dirname(exe)
    n = vf.scale(64, 400)

    def go(i):
        d = f"{base}/h{i}"
        os.makedirs(d)
        # ports below the ephemeral range, of this run alone as far as possible; one in use is skipped
        port = [10000 + (os.getpid() * 7 + i * 311) % 21000]
        h = Hist(vf.rng("C27", i), exe, d, ins.env(CAMLRUNPARAM=["s=4096", "", "s=4096 i=4096 o=10"][i % 3], LD_LIBRARY_PATH=ins.lib), port)
        h.big = 4 if i % 6 == 0 else 0
        h.random(vf.scale(250, 400))
        return h

    hs = vf.pmap(go, range(n), 8)
    for h in hs:
        if h.bad:
            c.violation(h.bad, {"history": h.evs[-40:]})
    t = [h.evs for h in hs]
    rej, states = vf.tlc_traces("SockTrace", t, parts=8)
    c.add_traces("socket histories", len(t), states, sum(map(len, t)))
    c.sample({"history": [{k: v for k, v in e.items() if v not in ([], 0, "", False)} for e in t[0][:12]]})
    c.cov["operations"] = {o: sum(e["op"] == o for x in t for e in x) for o in sorted({e["op"] for x in t for e in x})}
    c.cov["errors"] = {o: sum(e["out"] == o for x in t for e in x) for o in sorted({e["out"] for x in t for e in x if e["out"].startswith("E:")})}
    vf.explain(c, t, rej, "sockets do not behave as specified")
    c.assumptions += ["the kernel's sockets are those of Linux (error codes, readiness)", "receives of datagrams and streams that would block are not attempted (a select decides)"]
