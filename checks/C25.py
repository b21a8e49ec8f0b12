"""C25: FileSys acts on the tree as specs/Fs.tla; Path computes what specs/Paths.tla determines."""
import itertools, os, shutil, stat, tempfile
import vf
from proc import Proc

NOBODY = 65534


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("latin-1")).hex() or "-"


def unhx(s):
    return "" if s == "-" else bytes.fromhex(s).decode("latin-1")


# ------------------------------------------------------------------ structure Path

def strings(n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product("a./", repeat=k)]


def rpath(r):
    return r.choice(["", "", "/", "/", "//"]) + r.choice(["", "", "", "/", "./", "../"]) + "/".join(
        r.choice(["a", "b", "ab", "a", "", ".", "..", "...", ".a", "a.", "a.b", "b.c.d", "..a", "a\xe6 b"]) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 6])))


def c(s):
    return list(s.encode("latin-1"))


def paths_events(r, part, parts):
    evs = []

    def two(p, q):
        for op in ("concat", "joindf", "mkabs", "mkrel"):
            evs.append((f"{op} {hx(p)} {hx(q)}", {"op": op, "p": c(p), "q": c(q)}))

    def one(p):
        for op in ("fromString", "canon", "tests", "vol", "parent", "splitdf", "splitbe", "unix", "tounix"):
            evs.append((f"{op} {hx(p)}", {"op": op, "p": c(p)}))
        for e in ("none", "=-", "=" + hx("x"), "=" + hx("x.y")):
            evs.append((f"joinbe {hx(p)} {e}", {"op": "joinbe", "p": c(p), "has": e != "none", "ext": [] if e == "none" else c(unhx(e[1:]))}))
    todo = [(one, (p,)) for p in strings(vf.scale(5, 7))] + [(two, (p, q)) for p in strings(3) for q in strings(vf.scale(2, 3))]
    for f, a in todo[part::parts]:
        f(*a)
    for _ in range(vf.scale(60, 1500)):
        p, q = rpath(r), rpath(r)
        if r.random() < .4:        # related paths
            p = q + r.choice(["/", "/a", "/../b", "/./", "", "/a/b.c"])
        one(p)
        two(p, q)
        two("/" + p, "/" + q)
        arcs = [rpath(r).replace("/", "") for _ in range(r.choice([0, 1, 2, 3]))]
        ab, vol = r.random() < .5, "" if r.random() < .9 else "C:"
        evs.append((f"toString {'T' if ab else 'F'} {hx(vol)} {','.join(map(hx, arcs)) or '[]'}", {"op": "toString", "abs": ab, "vol": c(vol), "arcs": [c(a) for a in arcs]}))
    return evs


def paths_reply(op, o):
    w = o.split(" ")
    t = lambda s: [x == "T" for x in s]
    if op == "fromString":
        return {"abs": w[0] == "T", "vol": c(unhx(w[1])), "arcs": [] if w[2] == "[]" else [c(unhx(x)) for x in w[2].split(",")]}
    if op == "tests":
        return {"b": t(o)}
    if op == "vol":
        return {"vol": c(unhx(w[0])), "b": t(w[1])}
    if op == "splitdf":
        return {"dir": c(unhx(w[0])), "file": c(unhx(w[1])), "b": t(w[2])}
    if op == "splitbe":
        return {"base": c(unhx(w[0])), "has": w[1] != "none", "ext": [] if w[1] == "none" else c(unhx(w[1][1:])), "b": t(w[2])}
    if o.startswith("="):
        return {"ex": "", "s": c(unhx(o[1:]))}
    return {"ex": o, "s": []}


def paths(ck, ins, exe):
    def go(i):
        evs = paths_events(vf.rng("C25p", i), i, 8)
        return evs, vf.feed(ins, exe, [l for l, _ in evs])
    traces = []
    for i, (evs, (out, bad)) in enumerate(vf.pmap(go, list(range(8)))):
        t = []
        for (l, e), o in zip(evs, out):
            try:
                t.append(dict(e, o=paths_reply(e["op"], o)))
            except (ValueError, IndexError):
                ck.violation(f"no proper answer to '{l}': {o[:200]}", {"command": l, "answer": o}, key=e["op"])
        if bad or len(out) != len(evs):
            ck.violation(f"path driver {i}: {bad or 'wrong number of replies'}", {"job": i, "next": [l for l, _ in evs][len(out):len(out) + 1]})
        traces += [t[k:k + 200] for k in range(0, len(t), 200)]
    rej, states = vf.tlc_traces("PathsTrace", traces, timeout=900, parts=8)
    ck.add_traces("paths", len(traces), states, sum(map(len, traces)))
    ck.sample({"paths": traces[0][:3]})
    seen = {}
    for x in rej:
        seen.setdefault(traces[x[0]][x[1]]["op"], x)
    vf.explain(ck, traces, list(seen.values()), "not what the path means", keyf=lambda h, l: h[l]["op"])


# ------------------------------------------------------------------ structure FileSys

class Escape(Exception):
    pass


class Tree:
    """The scratch tree: keeps every path that is given to the driver inside base."""

    def __init__(self, base):
        self.base, self.fd = base, os.open(base, os.O_RDONLY)

    def cwd(self):
        return os.readlink(f"/proc/self/fd/{self.fd}")

    def chdir(self, p):
        fd = os.open(self.resolve(p), os.O_RDONLY)
        os.close(self.fd)
        self.fd = fd

    def resolve(self, p, last=True):
        """The real place p leads to (as far as it exists); Escape if the way leaves base."""
        n = [0]

        def walk(at, arcs):
            while arcs:
                a, arcs = arcs[0], arcs[1:]
                if a in ("", "."):
                    continue
                if a == "..":
                    if at == self.base:
                        raise Escape
                    at = os.path.dirname(at)
                    continue
                q = f"{at}/{a}"
                if os.path.islink(q) and (arcs or last):
                    n[0] += 1
                    if n[0] > 60:
                        return q
                    t = os.readlink(q)
                    if t.startswith("/"):
                        if t != self.base and not t.startswith(self.base + "/"):
                            raise Escape
                        at, t = self.base, t[len(self.base):]
                    arcs = t.split("/") + arcs
                else:
                    at = q
            return at
        if p.startswith("/"):
            if p != self.base and not p.startswith(self.base + "/"):
                raise Escape
            return walk(self.base, p[len(self.base):].split("/"))
        return walk(self.cwd(), p.split("/"))

    def all(self):
        out = []
        for d, ds, fs in os.walk(self.base):
            out += [os.path.join(d, x) for x in ds + fs]
        return out

    def spec(self, p):
        """p as the specification has it: [abs, arcs]"""
        ab = p.startswith("/")
        if ab:
            p = p[len(self.base):]
            p = p[1:] if p.startswith("/") else p
        return {"abs": ab, "arcs": ["*long" if len(a) > 255 else a for a in p.split("/")] if p else []}

    def end(self):
        os.close(self.fd)


NAMES = ["a", "b", "c", "d.e", "a", "b", "e" * 120, "x y", ".h"]


def gen_path(r, t, ext):
    k = r.random()
    here = t.cwd()
    old = ext["all"]
    if old and k < .62:
        p = r.choice(old)
        if r.random() < .55:
            p = os.path.relpath(p, here)
        if r.random() < .35:
            p += "/" + r.choice(NAMES)
        if r.random() < .12:
            q = r.choice(old)
            p = os.path.relpath(q, here)
            a = p.split("/")
            a.insert(r.randint(0, len(a)), r.choice([".", "", "..", "."]))
            p = "/".join(a)
            if p.startswith("/"):
                p = "." + p
    else:
        p = "/".join(r.choice(NAMES + [".", ".."]) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))
        if r.random() < .25:
            p = t.base + "/" + p
    if r.random() < .08:
        p += "/"
    if r.random() < .012:
        p = r.choice(["", "n" * 300, t.base, t.base + "/", ".", "..", "a/" + "n" * 300, "/".join(["."] * 700)])
    return p


READS = ["isdir", "islink", "readlink", "full", "real", "size", "access", "modtime", "list", "same", "getdir"]
WRITES = ["mkdir"] * 4 + ["rmdir"] * 2 + ["remove"] * 2 + ["rename"] * 5 + ["chdir"] * 3 + ["settime", "now", "write", "write", "write", "append",
                                                                                       "symlink", "symlink", "symlink", "sparse", "hardlink", "hardlink", "chmod", "tmp"]


def big(n):
    return [n >> 30, n & (1 << 30) - 1]


def reply(t, op, o):
    r = {"len": [0, 0], "e": 0, "s": "", "n": 0, "us": 0, "abs": False, "arcs": [], "names": []}
    if o == "Io":
        r["e"] = -1
    elif o[:1] == "E" and o[1:].isdigit():
        r["e"] = int(o[1:])
    elif op == "list":
        f, ns = o.split(" ")
        r.update(s=f, names=[] if ns == "[]" else [unhx(x) for x in ns.split(",")])
    elif op == "modtime":
        a, b = o.split(" ")
        r.update(s=a, us=int(b))
    elif op == "size":
        r["len"] = big(int(o))
    elif o.startswith("="):
        p = unhx(o[1:])
        if p.startswith("/") and p != t.base and not p.startswith(t.base + "/"):
            r.update(abs=True, arcs=["outside", p])
        else:
            r.update(t.spec(p))
    elif o in ("ok", "T", "F") or op == "same" and len(o) == 4:
        r["s"] = o
    else:
        raise ValueError(o)
    return r


def history(ck, r, exe, env, base, su, n):
    t = Tree(base)
    kw = {} if su else {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    p = Proc(exe, base, env, umask=0o022, **kw)
    evs, log, mine = [], [], lambda q: None if su else os.lchown(q, NOBODY, NOBODY)

    def ask(line, ev):
        o = p.ask(line, 60)
        log.append([line, o])
        if o is None:
            ck.violation(f"no answer to '{line}'", {"commands": log})
            return None
        try:
            ev["o"] = reply(t, ev["op"], o)
        except ValueError:
            ck.violation(f"no proper answer to '{line}': {o[:200]}", {"commands": log}, key=ev["op"])
            return None
        ev["su"] = su
        evs.append(ev)
        return ev["o"]

    def harness(op, a, b):
        """What others do to the tree; False if it was not done."""
        q = {"op": op, "su": su, "p": t.spec(a)}
        try:
            if op == "symlink":
                t.resolve(a, False)
                os.symlink(b, a, dir_fd=t.fd)
                mine(t.resolve(a, False))
                q["q"] = t.spec(b)
            elif op == "hardlink":
                x = t.resolve(a, False), t.resolve(b, False)
                st = os.stat(a, dir_fd=t.fd, follow_symlinks=False)
                if not stat.S_ISREG(st.st_mode):
                    return
                os.link(a, b, src_dir_fd=t.fd, dst_dir_fd=t.fd, follow_symlinks=False)
                q["q"] = t.spec(b)
            elif op == "sparse":
                z = t.resolve(a)
                if not os.path.isfile(z):
                    return
                os.stat(a, dir_fd=t.fd)
                n = r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 3, 2 ** 33 - 1, 70000])
                os.truncate(z, n)
                q["len"] = big(n)
            elif op == "chmod":
                z = t.resolve(a)
                m = r.choice([7, 7, 6, 5, 5, 4, 3, 1, 0] if os.path.isdir(z) else [6, 6, 4, 7, 2, 0])
                os.chmod(a, m << 6, dir_fd=t.fd)
                q["m"] = m
            elif op == "many":
                z = t.resolve(a)
                names = [f"{'w' * r.randint(0, 200)}{i:03}" for i in range(r.choice([150, 400]))]
                os.stat(a, dir_fd=t.fd)
                if not os.path.isdir(z):
                    return
                for x in names:
                    os.close(os.open(f"{z}/{x}", os.O_CREAT | os.O_WRONLY, 0o600))
                    mine(f"{z}/{x}")
                q["names"] = names
        except (OSError, Escape):
            return
        log.append([op, a, b])
        evs.append(q)

    def ok(*ps):
        try:
            for a in ps:
                t.resolve(a)
                t.resolve(a, False)
        except Escape:
            return False
        return True
    crowded = False
    try:
        while len(evs) < n:
            ext = {"all": [a for a in t.all() if "www" not in a or r.random() < .05]}
            op = r.choice(WRITES if r.random() < .55 else READS)
            a, b = gen_path(r, t, ext), gen_path(r, t, ext)
            if len(ext["all"]) > 25 and op in ("mkdir", "write"):
                op = "remove"
            if r.random() < .006 and not crowded:
                op, crowded = "many", True
            if op == "rename" and r.random() < .4 and ext["all"]:
                a = os.path.relpath(r.choice(ext["all"]), t.cwd())
            if op == "symlink":
                b = r.choice(["a", "b", "c", "../a", "../b", "a/b", "./c", "..", ".", t.base + "/a", t.base + "/b/a", "d.e/../a", t.base, "x y", "/".join(["e" * 120] * 9), "/".join(["e" * 120] * 3)]) if r.random() < .7 else b
                if not b or len(b) > 1500:
                    continue
                harness(op, a, b)
                continue
            if not ok(a, b):
                continue
            if op in ("hardlink", "chmod", "many", "sparse"):
                harness(op, a, b)
                continue
            ev = {"op": op, "p": t.spec(a)}
            w = [op, hx(a)]
            if op in ("rename", "same"):
                ev["q"] = t.spec(b)
                w.append(hx(b))
            elif op in ("getdir", "tmp"):
                w = [op]
            elif op == "access":
                m = r.choice(["0", "r", "w", "x", "rw", "rx", "wx", "rwx", "xwr"])
                ev["modes"] = [] if m == "0" else [{"r": 4, "w": 2, "x": 1}[x] for x in m]
                w.append(m)
            elif op == "settime":
                us = r.choice([0, 1, 999999, 1000000, 10 ** 15 + 123456, 86400 * 10 ** 6, r.randrange(2 * 10 ** 15), r.randrange(8 * 10 ** 15), 2 ** 32 * 10 ** 6 + 5])
                ev["sec"] = str(us // 10 ** 6)
                w.append(str(us))
            elif op == "list":
                w.append(str(r.choice([-1, 0, 1, 2, 5])).replace("-", "~"))
            elif op in ("write", "append"):
                ev["n"] = r.choice([0, 1, 5, 100, 4096, 5000])
                w.append(str(ev["n"]))
            if op == "rmdir" and t.resolve(a, False) == t.cwd():
                continue
            if op == "rename" and t.resolve(b, False) in (t.cwd(), t.base):
                continue
            if op in ("rename", "rmdir", "remove") and t.resolve(a, False) == t.base:     # the scratch directory is not a real root
                continue
            o = ask(" ".join(w), ev)
            if o is None:
                break
            if op == "chdir" and o["e"] == 0:
                t.chdir(a)
    except OSError as e:
        vf.note(f"history cut short: {e!r}") if hasattr(vf, "note") else None
    finally:
        t.end()
        rc, err = p.end()
    return evs, log, rc, err


def files(ck, ins, exe):
    top = os.path.realpath(tempfile.mkdtemp(prefix="vf-fs-"))
    vf._scratch.append(top)
    os.chmod(top, 0o755)
    os.chmod(os.path.dirname(exe), 0o755)
    unpriv = os.geteuid() == 0
    env = ins.env(CAMLRUNPARAM="s=4096")
    if unpriv:
        try:        # is there an unprivileged user, and can it run the driver?
            q = Proc(exe, top, env, user=NOBODY, group=NOBODY, extra_groups=[])
            unpriv = q.ask("getdir") == "=" + hx(top)
            q.end()
        except (OSError, PermissionError, ValueError):
            unpriv = False

    def go(i):
        out = []
        for j in range(vf.scale(10, 60)):
            base = f"{top}/{i}-{j}" + ("/" + "long" * 50) * {1: 1, 2: 8}.get(j, 0)
            os.makedirs(base)
            su = not unpriv or i % 4 == 3
            su = su and os.geteuid() == 0
            if not su and os.geteuid() == 0:
                os.chown(base, NOBODY, NOBODY)
            os.chmod(base, 0o755)
            out.append(history(ck, vf.rng("C25f", i * 1000 + j), exe, env, base, su, vf.scale(160, 250)))
            shutil.rmtree(f"{top}/{i}-{j}")
        return out
    traces = []
    for i, hs in enumerate(vf.pmap(go, list(range(8)))):
        for evs, log, rc, err in hs:
            traces.append(evs)
            if rc != 0 or err:
                ck.violation(f"file driver {i}: rc {rc} {err[:300]}", {"commands": log[-40:]})
    rej, states = vf.tlc_traces("FsTrace", traces, timeout=900, parts=8)
    ck.add_traces("files", len(traces), states, sum(map(len, traces)))
    ck.sample({"files": traces[0][:4], "unprivileged": unpriv})
    vf.explain(ck, traces, rej, "not what the file tree gives", keyf=lambda h, l: h[l]["op"])


def check(ck):
    ins = vf.build()
    ck.add_model("PathsMC", vf.tlc("PathsMC", cfg=vf.scale("PathsMC", "PathsMCbig"), timeout=1500))
    ck.add_model("FsMC", vf.tlc("FsMC", cfg=vf.scale("FsMC", "FsMCbig"), timeout=1500))
    exe = vf.driver(ins, "fs")
    paths(ck, ins, exe)
    files(ck, ins, exe)
