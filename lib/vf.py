"""Shared machinery of the checks: build /repo, run Moscow ML, run TLC / Quint, report.

Every check:
  * builds Moscow ML from /repo's current working tree (build()),
  * records behaviours of the real code (run/compile helpers),
  * has TLC (or Quint) decide whether the specification allows them,
  * reports through Check (VIOLATION / KNOWN-FINDING lines, evidence file, exit code).
"""
import fcntl, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPECS = f"{VERIF}/specs"
BUILD = f"{VERIF}/.build"
EVID = os.environ.get("VF_EVIDENCE") or f"{VERIF}/evidence"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"
NCPU = min(8, os.cpu_count() or 8)
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def scale(quick, thorough):
    return quick if QUICK else thorough


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


# ------------------------------------------------------------------ build

def _sources():
    p = subprocess.run(["git", "-C", REPO, "-c", f"safe.directory={REPO}", "ls-files", "-z", "-co",
                        "--exclude-standard", "src"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    names = [n for n in p.stdout.decode("utf-8", "surrogateescape").split("\0") if n]
    if p.returncode or not names:
        names = []
        for d, _, fs in os.walk(f"{REPO}/src"):
            names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    return sorted(n for n in set(names) if os.path.isfile(f"{REPO}/{n}") or os.path.islink(f"{REPO}/{n}"))


SKIP = re.compile(r"src/(compiler\.cminusminus|doc|config\.w32|launch\.w32|convert)/|\.w32$|src/(mosmllib|test|compiler)/test/")


def _make(src, d, inst, *args, jobs=NCPU, log):
    cmd = ["make", "-C", f"{src}/{d}" if d else src, *args, f"PREFIX={inst}", "CC=gcc"]
    if jobs > 1:
        cmd.insert(1, f"-j{jobs}")
    r = subprocess.run(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=_benv())
    return r.returncode == 0


def _benv():
    e = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL", "CAMLRUNPARAM")}
    e.update(LC_ALL="C", TZ="UTC", HOME="/root")
    return e


class Inst:
    def __init__(self, top):
        self.top, self.src, self.inst = top, f"{top}/src", f"{top}/inst"
        self.bin, self.lib, self.inc = f"{top}/inst/bin", f"{top}/inst/lib/mosml", f"{top}/inst/include/mosml"
        self.camlrunm = f"{self.bin}/camlrunm"

    def env(self, **kw):
        e = _benv()
        e["PATH"] = f"{self.bin}:" + e.get("PATH", "/usr/bin:/bin")
        e.update({k: str(v) for k, v in kw.items()})
        return e


def build(extra=()):
    """Builds /repo's current sources; cached by content. extra: dynlibs beyond intinf msocket munix."""
    names = [n for n in _sources() if not SKIP.search(n)]
    h = hashlib.sha256()
    for n in names:
        p = f"{REPO}/{n}"
        h.update(n.encode("utf-8", "surrogateescape") + b"\0")
        h.update(os.readlink(p).encode() if os.path.islink(p) else open(p, "rb").read())
        h.update(b"\0x" if os.access(p, os.X_OK) else b"\0-")
    os.makedirs(BUILD, exist_ok=True)
    top = f"{BUILD}/{h.hexdigest()[:20]}"
    with open(f"{BUILD}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(f"{top}/done"):
            olds = sorted(glob.glob(f"{BUILD}/*/"), key=os.path.getmtime)
            for old in olds[:-2]:
                if len(olds) > 8 or time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            for jobs in (NCPU, 1):   # the Makefiles' dependencies are not all written for -j: fall back
                if _build_once(top, names, jobs):
                    break
            else:
                raise CheckError(f"{REPO} does not build; see {top}/log\n" +
                                 "".join(open(f"{top}/log", errors="replace").readlines()[-25:]))
            open(f"{top}/done", "w").close()
        os.utime(top)
        ins = Inst(top)
        for x in extra:
            mark = f"{top}/done-{x}"
            if not os.path.exists(mark):
                with open(f"{top}/log-{x}", "w") as log:
                    args = []
                    if x == "mgdbm":
                        os.makedirs(f"{top}/gdbm", exist_ok=True)
                        link = f"{top}/gdbm/libgdbm.a"
                        if not os.path.lexists(link):
                            os.symlink("/usr/lib/x86_64-linux-gnu/libgdbm.so", link)
                        args = [f"GDBMLIBDIR={top}/gdbm", "GDBMINCDIR=/usr/include"]
                    ok = _make(ins.src, f"dynlibs/{x}", ins.inst, "all", *args, jobs=1, log=log) and \
                        (x not in ("mgdbm", "mregex", "intinf", "msocket", "munix")
                         or _make(ins.src, f"dynlibs/{x}", ins.inst, "install", *args, jobs=1, log=log))
                if not ok:
                    raise CheckError(f"dynlibs/{x} does not build; see {top}/log-{x}")
                open(mark, "w").close()
    return ins


def _build_once(top, names, jobs):
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    made = set()
    for n in names:
        d = os.path.dirname(f"{top}/{n}")
        if d not in made:
            os.makedirs(d, exist_ok=True)
            made.add(d)
        shutil.copy(f"{REPO}/{n}", f"{top}/{n}", follow_symlinks=False)
        if not os.path.islink(f"{top}/{n}"):
            os.utime(f"{top}/{n}", (1600000000, 1600000000))
    src, inst = f"{top}/src", f"{top}/inst"
    with open(f"{top}/log", "a") as log:
        mk = lambda d, *a, j=jobs: _make(src, d, inst, *a, jobs=j, log=log)
        if not (mk("config", "all", j=1) and mk("runtime", "all")):
            return False
        shutil.copy(f"{src}/runtime/camlrunm", f"{src}/camlrunm")
        if not (mk("mosmlyac", "all") and mk("mosmllib", "all")):
            return False
        for d in ("compiler", "toolssrc", "lex", "launch"):
            if not mk(d, "all"):
                return False
        for d in ("bin", "lib/mosml", "include/mosml", "share/mosml/tools"):
            os.makedirs(f"{inst}/{d}", exist_ok=True)
        for d in ("runtime", "launch", "mosmlyac", "mosmllib", "compiler", "toolssrc", "lex"):
            if not mk(d, "install", j=1):
                return False
    return True


# ------------------------------------------------------------------ scratch and processes

_scratch = []


def scratch(name="w"):
    d = tempfile.mkdtemp(prefix=f"vf-{name}-")
    _scratch.append(d)
    return d


def cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


def run(cmd, cwd=None, inp=None, env=None, timeout=60, merge=False, shell=False, limit=None):
    """Returns (rc, stdout, stderr) as latin-1 text; rc is None on timeout. Own session, killed as a whole."""
    e = env or _benv()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, shell=shell, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         start_new_session=True)
    try:
        o, er = p.communicate(inp.encode("latin-1") if isinstance(inp, str) else inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return rc, (o or b"").decode("latin-1"), (er or b"").decode("latin-1")


def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def mosmlc(ins, d, src, out, *opts, timeout=120):
    """Compiles src (a file name in directory d) to the executable out."""
    rc, o, _ = run(["mosmlc", *opts, src, "-o", out], cwd=d, env=ins.env(), timeout=timeout, merge=True)
    return rc, o


def driver(ins, name, *opts, work=None):
    """Compiles /verif/ml/NAME.sml with the freshly built compiler and returns the path of the executable."""
    d = work or scratch("drv")
    shutil.copy(f"{VERIF}/ml/{name}.sml", d)
    rc, o = mosmlc(ins, d, f"{name}.sml", f"{name}.exe", "-toplevel", *opts)
    if rc != 0 or not os.path.exists(f"{d}/{name}.exe"):
        raise DriverFailure(f"mosmlc {name}.sml failed (rc {rc}):\n{o[-3000:]}")
    return f"{d}/{name}.exe"


class DriverFailure(Exception):
    """A driver program that compiles on a correct tree did not compile: counts against the tree."""


# ------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self, rc, out, t):
        self.rc, self.out, self.wall = rc, out, t
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", out, re.M)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, -1)
        self.ok = rc == 0 and "No error has been found" in out and self.left == 0
        self.prints = re.findall(r"^<<.*>>$", out, re.M)

    def tagged(self, tag):
        """Parsed PrintT(<<tag, ...>>) lines (a long tuple is printed over several lines by TLC)."""
        res = []
        for m in re.finditer(r'^<< ?"%s",(.*?)>>$' % tag, self.out, re.M | re.S):
            res.append(re.sub(r"\s+", " ", m[1]).strip())
        return res


def tlc(module, cfg=None, env=None, workers=None, timeout=600, heap="3g", opts=(), cwd=None, props=()):
    """Runs TLC on SPECS/module.tla with SPECS/cfg.cfg in a private metadir."""
    d = cwd or SPECS
    meta = tempfile.mkdtemp(prefix="vf-tlc-")
    t0 = time.time()
    try:
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", *props, "-cp", TLAJAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or NCPU),
               "-config", f"{cfg or module}.cfg", *opts, f"{module}.tla"]
        rc, o, e = run(cmd, cwd=d, env=dict(_benv(), **(env or {})), timeout=timeout, merge=True)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, o, time.time() - t0)


def _chunks(hists, n):
    """Splits into n groups of similar weight, remembering the original indices."""
    order = sorted(range(len(hists)), key=lambda i: -len(hists[i]))
    groups, load = [[] for _ in range(n)], [0] * n
    for i in order:
        k = load.index(min(load))
        groups[k].append(i)
        load[k] += len(hists[i]) + 1
    return [g for g in groups if g]


def tlc_traces(module, hists, cfg=None, timeout=600, parts=None, heap="3g", env=None, extra=0, complete=None):
    """Validates recorded histories (lists of JSON-able events) against SPECS/module.tla.

    The module follows the convention of specs/TraceLib.tla: one initial state per history, one
    successor per accepted event, PrintT(<<"REJECT", h, l, ...>>) at the first event no successor
    explains. Returns (rejections, distinct_states): rejections = [(history index, event index, text)].
    complete: a set that receives the histories for which the module printed <<"COMPLETE", h>>.
    Raises CheckError if TLC itself fails or if fewer states were visited than events were given.
    """
    total = sum(map(len, hists))
    n = parts or max(1, min(NCPU, total // 4000 + 1))
    groups = _chunks(hists, n)
    d = scratch("tr")

    def one(gi):
        k, g = gi
        f = f"{d}/t{k}.ndjson"
        with open(f, "w") as h:
            for i in g:
                h.write(json.dumps(hists[i], separators=(",", ":")) + "\n")
        r = tlc(module, cfg=cfg, env=dict(env or {}, TRACE=f), workers=max(1, NCPU // len(groups)), timeout=timeout,
                heap=heap)
        rej = []
        for t in r.tagged("REJECT"):
            m = re.match(r"(\d+), (\d+)(?:, (.*))?$", t, re.S)
            rej.append((g[int(m[1]) - 1], int(m[2]) - 1, m[3] or ""))
        if complete is not None:
            complete.update(g[int(t) - 1] for t in r.tagged("COMPLETE"))
        rej = sorted(set(rej))
        if not r.ok:
            k = max(r.out.find("Error:"), 0)
            at = re.findall(r"^/\\ (h|l) = (\d+)$", r.out[k:], re.M)
            if rej:                                   # what was rejected before stands
                return rej, r.distinct
            if "The behavior up to this point is" in r.out and "OutOfMemory" not in r.out and "StackOverflow" not in r.out and dict(at).keys() == {"h", "l"}:
                at = dict(at)                         # the last state of the behaviour that TLC shows
                return [(g[int(at["h"]) - 1], int(at["l"]) - 1, "the specification is not defined on this event: " + r.out[k:k + 600])], r.distinct
            raise CheckError(f"TLC failed on {module}: {r.out[k:k + 1500]}")
        want = sum(len(hists[i]) + 1 + extra for i in g)
        bad = {x[0] for x in rej}
        least = sum((len(hists[i]) + 1 + extra) for i in g if i not in bad)
        if r.distinct < least:
            raise CheckError(f"{module}: {r.distinct} states for {want} expected")
        return rej, r.distinct

    res = pmap(one, list(enumerate(groups)))
    return [x for r, _ in res for x in r], sum(s for _, s in res)


# ------------------------------------------------------------------ reporting

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.violations, self.known, self.cov = [], [], {}
        self.samples, self.assumptions = [], []
        self.states = self.transitions = self.traces = self.events = 0
        f = f"{VERIF}/known/{pid}.json"
        self.findings = json.load(open(f))["findings"] if os.path.exists(f) else []

    def add_model(self, name, r, least=2):
        """Account for an exhaustive TLC run of a specification (r: TlcResult)."""
        if not r.ok:
            raise CheckError(f"model {name}: TLC did not finish cleanly\n{r.out[-3000:]}")
        if r.distinct < least:
            raise CheckError(f"model {name}: only {r.distinct} states")
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", {})[name] = {"distinct_states": r.distinct, "states_generated": r.generated}

    def add_traces(self, name, n, states, events):
        self.states += states
        self.transitions += events
        self.traces += n
        self.events += events
        c = self.cov.setdefault("conformance", {}).setdefault(name, {"behaviours": 0, "events": 0, "spec_states": 0})
        c["behaviours"] += n
        c["events"] += events
        c["spec_states"] += states

    def sample(self, s, k=6):
        if len(self.samples) < k:
            s = s if isinstance(s, (dict, list, str)) else repr(s)
            t = json.dumps(s)
            self.samples.append(s if len(t) < 1500 else t[:1500])

    def violation(self, what, replay, key=None):
        """what: one line; replay: JSON-able material with which to see it again; key: finding key."""
        for k in self.findings:
            if key is not None and k.get("key") == key:
                line = f"KNOWN-FINDING: property={self.pid} {k['what']}"
                if line not in self.known:
                    self.known.append(line)
                    print(line, flush=True)
                return
        os.makedirs(f"{EVID}/replay", exist_ok=True)
        p = f"{EVID}/replay/{self.pid}-{len(self.violations) + 1}.json"
        with open(p, "w") as h:
            json.dump({"property": self.pid, "what": what, "key": key, "seed": SEED, "tier": TIER, "replay": replay},
                      h, indent=1, default=str)
        self.violations.append(what)
        if len(self.violations) <= 5:
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
            print("  " + what[:600].replace("\n", "\n  "), flush=True)

    def finish(self):
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        cov.setdefault("evaluations", self.events)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(f"{EVID}/{self.pid}.json", "w") as h:
            json.dump(ev, h, indent=1)
        print(f"{self.pid}: {self.traces} behaviours, {self.events} events against the implementation, "
              f"{self.states} spec states, {len(self.violations)} violations, {ev['wall_s']} s", flush=True)
        return 1 if self.violations else 0


def main(pid, body, level="model_checking"):
    """Runs body(check); maps outcomes to exit codes."""
    c = Check(pid, level)
    rc = 2
    try:
        try:
            body(c)
        except DriverFailure as e:
            c.violation(f"a program of the check that a correct tree compiles and runs failed: {e}", {"error": str(e)})
        rc = c.finish()
    except CheckError as e:
        print(f"CHECK-ERROR {pid}: {e}", flush=True)
        if c.violations:      # violations already shown stand
            rc = c.finish()
    finally:
        cleanup()
    sys.stdout.flush()
    os._exit(rc)


def rng(*salt):
    return random.Random(f"{SEED}:" + ":".join(map(str, salt)))


# ------------------------------------------------------------------ line-oriented drivers

def tlc_generate(module, cfg, num, depth, seed=None, tag="HIST", timeout=300, env=None):
    """Behaviours generated by TLC (-simulate) from a specification; PrintT(<<tag, ToJson(hist)>>)."""
    r = tlc(module, cfg=cfg, workers=1, timeout=timeout, env=env,
            opts=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED if seed is None else seed)])
    out = []
    for m in re.finditer(r'^<<"%s", (".*")>>$' % tag, r.out, re.M):
        out.append(json.loads(json.loads(m[1])))
    if len(out) < num or "Error" in r.out:
        raise CheckError(f"TLC generated {len(out)} of {num} behaviours from {module}/{cfg}: {r.out[-2000:]}")
    return out


def feed(ins, exe, lines, timeout=300, args=(), **env):
    """Feeds command lines to a driver, returns (output lines, failure or None)."""
    rc, o, e = run([exe, *args], inp="\n".join(lines) + "\n", env=ins.env(**env), timeout=timeout)
    res = o.split("\n")
    if res and res[-1] == "":
        res.pop()
    bad = None
    if rc is None:
        bad = f"driver did not finish within {timeout} s"
    elif rc != 0:
        bad = f"driver ended with status {rc}: {e[-400:]}"
    return res, bad


def explain(c, hists, rejs, what, keyf=None, limit=5):
    """Turns rejections into violations, with the history up to the rejected event as the replay."""
    for h, l, t in rejs[:limit] if len(rejs) > limit else rejs:
        ev = hists[h][l] if l < len(hists[h]) else None
        c.violation(f"{what}: event {l + 1} of history {h}: {json.dumps(ev)[:300]}",
                    {"history": hists[h][:l + 1], "specification": t}, key=keyf(hists[h], l) if keyf else None)
