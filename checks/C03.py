"""C03: random core-language programs, compiled and at the interactive system, behave as the abstract machine of specs/Eval.tla."""
import re
import vf, mlgen

# `run` starts program i under frames of recursion and handlers, so that the runtime's stack is reallocated at various points of it
MAIN = '''
val count = ref 0
fun log (n : int) = (count := !count + 1; if !count > 3000 then (print "@cut\\n"; raise Fail "cut") else (); print ("@" ^ Int.toString n ^ "\\n"); n)
fun deep 0 (f : unit -> int) = f ()
  | deep d f = 0 + deep (d - 1) f
exception Unused of int
fun layers [] f = f ()
  | layers (d :: ds) f = deep d (fn () => layers ds f) handle Unused n => n
fun run i ds f = (count := 0; print ("@begin " ^ Int.toString i ^ "\\n"); (ignore (layers ds f); print "@done\\n") handle e => print ("@exn " ^ exnName e ^ "\\n"))
'''
RUNS = ("s=32768", "s=4096", "s=4096 i=4096 o=10", "s=8192 o=300")


def depth(r):
    d = lambda: r.choice([0, 0, r.randint(1, 200), r.randint(200, 2000), r.randint(700, 1100), r.randint(700, 1100), r.randint(2000, 20000)])
    return [d() for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]


def outcome(lines, n):
    """Per program: [outputs, end]."""
    res = {}
    cur = None
    for ln in lines:
        for w in re.findall(r"@(begin \d+|done|cut|exn \S+|~?\d+)", ln):
            if w.startswith("begin "):
                cur = res[int(w[6:])] = [[], "?"]
            elif cur is None:
                pass
            elif w == "done" or w == "cut" or w.startswith("exn "):
                if cur[1] == "?":
                    cur[1] = w[4:] if w[0] == "e" else w
            else:
                cur[0].append(w)
    return res


def gen(c, tag, i, k, sizes):
    out = []
    for j in range(k):
        r = vf.rng("C03", tag, i, j)
        P, root, t = mlgen.program(r, *r.choice(sizes))
        out.append((P, root, t, depth(r)))
    return out


def check(c):
    ins = vf.build()
    c.add_model("EvalMC", vf.tlc("EvalMC", cfg=vf.scale("EvalMC", "EvalMCbig")))
    SIZES = [(60, 5), (140, 7), (140, 7), (300, 8)]
    hists, where, dropped = [], [], [0]

    def judge(progs, start, rc, o, e, tag, i, bads):
        """Records what happened; returns the next program to start from, or None."""
        res = outcome(o.split("\n"), len(progs))
        nxt = None
        got = []
        for j in range(start, len(progs)):
            if j not in res:
                if nxt is None:
                    bads.append(f"{tag} {i}: program {j} never began (status {rc}): {str(e)[-200:]}{o[-300:]}")
                break
            if res[j][1] == "?":
                res[j][1] = "no end" if rc is None else "runtime failure"
                nxt = j + 1
                got.append(j)
                if rc is not None and rc < 0 or rc in (134, 139):
                    bads.append(f"{tag} {i}: program {j} killed the runtime (status {rc})")
                break
            got.append(j)
        return res, got, nxt

    def collect(progs, res, got, tag, i):
        h, w, d = [], [], 0
        for j in got:
            P, root, t, dep = progs[j]
            if res[j][1] == "cut" or len(res[j][0]) >= 3000:
                d += 1
                continue
            h.append([dict(p=P, root=root, out=res[j][0], end=res[j][1])])
            w.append(f"{tag} {i} program {j} under {dep} frames: {t[:3000]}")
        return h, w, d

    def compiled(i):
        r = vf.rng("C03", "batch", i)
        k = vf.scale(24, 40)
        progs = gen(c, "compiled", i, k, SIZES)
        style = i % 3
        src = [mlgen.HEADER.split("fun log")[0] + MAIN]
        for j, (P, root, t, dep) in enumerate(progs):
            src.append(f"fun p{j} () : int = {t}" if style != 1 else f"val _ = if starting {j} then run {j} {dep} (fn () => {t}) else ()")
        start = "fun starting j = case CommandLine.arguments () of [s] => j >= Option.valOf (Int.fromString s) | _ => true\n"
        if style == 1:
            src.insert(1, start)
        else:
            src.append(start + "\n".join(f"val _ = if starting {j} then run {j} {progs[j][3]} p{j} else ()" for j in range(k)))
        d = vf.scratch(f"c03_{i}_")
        text = "\n".join(src) + "\n"
        opts = ["-toplevel"] if style != 2 else ["-structure"]
        open(f"{d}/prog.sml", "w").write(text)
        rc, o = vf.mosmlc(ins, d, "prog.sml", "prog", *opts)
        bads = []
        if rc != 0:
            return [], [], 0, [f"batch {i} does not compile: {re.sub(r'.*Warning.*', '', o)[-600:]}"], text
        h, w, dr = [], [], 0
        at = 0
        for _ in range(6):
            rc, o, e = vf.run([f"{d}/prog", str(at)], cwd=d, timeout=20, env=ins.env(CAMLRUNPARAM=RUNS[i % 4]))
            res, got, nxt = judge(progs, at, rc, o, e, "batch", i, bads)
            a, b, dd = collect(progs, res, got, "batch", i)
            h += a
            w += b
            dr += dd
            if nxt is None or nxt >= k:
                break
            at = nxt
        return h, w, dr, bads, text

    def typed(i):
        k = vf.scale(14, 24)
        progs = gen(c, "typed", i, k, SIZES[:3])
        src = ['load "Int";', mlgen.HEADER.split("fun log")[0] + ";" + MAIN + ";"]
        for j, (P, root, t, dep) in enumerate(progs):
            if j % 2:
                src.append(f"val p{j} = fn () => {t};\nrun {j} {dep} p{j};")
            else:
                src.append(f"run {j} {dep} (fn () => {t});")
        text = "\n".join(src) + "\n"
        rc, o, e = vf.run(["mosml", "-quietdec"], inp=text, timeout=60, env=ins.env(CAMLRUNPARAM=RUNS[i % 4]))
        bads = []
        res, got, nxt = judge(progs, 0, rc, o, e, "session", i, bads)
        h, w, dr = collect(progs, res, got, "session", i)
        return h, w, dr, bads, text

    jobs = [("b", i) for i in range(vf.scale(16, 110))] + [("t", i) for i in range(vf.scale(8, 40))]
    for (kind, i), (h, w, dr, bads, text) in zip(jobs, vf.pmap(lambda a: compiled(a[1]) if a[0] == "b" else typed(a[1]), jobs)):
        hists += h
        where += w
        dropped[0] += dr
        for b in bads:
            c.violation(b, {"source": text[:30000]})
    # an expression that holds very many intermediate values at once
    d = vf.scratch("c03_wide")
    open(f"{d}/wide.sml", "w").write("fun f x = [" + ",".join(["x"] * 20000) + "]\nval _ = print (Int.toString (List.length (f 1)) ^ \"\\n\")\n")
    rc, o = vf.mosmlc(ins, d, "wide.sml", "wide")
    rc, o, e = vf.run([f"{d}/wide"], env=ins.env())
    if o != "20000\n":
        c.violation(f"a list expression of 20000 variables: status {rc}, output {o[:80]!r}", {"program": f"fun f x = [x, x, ... 20000 times ...]; length (f 1)"}, key="wide-expression")
    done = set()
    rej, states = vf.tlc_traces("EvalTrace", hists, complete=done, parts=vf.NCPU)
    c.add_traces("programs", len(hists), states, sum(len(h[0]["out"]) for h in hists))
    c.cov["programs decided to their end"] = len(done)
    c.cov["programs without a decided end (numbers or steps beyond the specification's limits)"] = len(hists) - len(done) - len(rej)
    c.cov["programs that print too much, not compared"] = dropped[0]
    c.cov["nodes evaluated from"] = sum(len(h[0]["p"]) for h in hists)
    for h, l, t in rej[:5]:
        c.violation(f"{where[h][:200]} ... behaves differently from the abstract machine: output {hists[h][0]['out'][:12]}..., end {hists[h][0]['end']}; specification: {str(t)[:300]}",
                    {"program": where[h], "history": {"out": hists[h][0]["out"], "end": hists[h][0]["end"]}})
    if len(done) < len(hists) // 3:
        raise vf.CheckError(f"only {len(done)} of {len(hists)} programs could be decided")
    c.sample({"program": where[0], "out": hists[0][0]["out"][:10], "end": hists[0][0]["end"]})
