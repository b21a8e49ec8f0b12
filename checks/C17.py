"""C17: runs of parsers generated by mosmlyac are behaviours of specs/Lalr.tla."""
import os, shutil
import vf

TYPES = {"S": ("string", 'fn n => Int.toString n ^ "?"', "fn s => valOf (Int.fromString s)"),
         "I": ("int", "fn n => n", "fn n => n"),
         "L": ("int list", "fn n => [n, n + 1, n + 2]", "fn [a, b, c] => if b = a + 1 andalso c = a + 2 then a else ~9 | _ => ~9"),
         "R": ("real", "fn n => real n", "fn r => floor r"),
         "F": ("int -> int", "fn n => fn k => n + k", "fn f => f 0"),
         "P": ("int * string", 'fn n => (n, Int.toString n)', "fn (a, s) => if s = Int.toString a then a else ~9")}


class Grammar:
    """nonterminals 1..nt, tokens nt+1.., the last token is EOF; entry i starts at nonterminal starts[i]."""
    def __init__(self, nt, tok, prods, starts, levels=(), dummies=0):
        self.nt, self.tok, self.prods, self.starts = nt, tok, prods, starts    # prods: (l, r, precsym or None)
        self.levels = levels          # [(assoc, [token index 1.. or tok+1.. for dummies])]
        self.dummies = dummies
        self.prec = {}
        for i, (a, ts) in enumerate(levels):
            for t in ts:
                self.prec[t] = (i + 1, a)

    def sane(self):
        nt = self.nt
        prods = self.prods
        fix = lambda step: (lambda f: f(f, set()))(lambda f, s: s if step(s) <= s else f(f, s | step(s)))
        nullable = fix(lambda n: {l for l, r, _ in prods if all(x in n for x in r)})
        productive = fix(lambda n: {l for l, r, _ in prods if all(x > nt or x in n for x in r)})
        reach = fix(lambda n: set(self.starts) | {x for l, r, _ in prods if l in n for x in r if x <= nt})
        if len(productive) < nt or len(reach) < nt:
            return False
        if any(x in self.starts for _, r, _ in prods for x in r):
            return False
        # A =>+ A, or hidden left recursion: the machine need not terminate
        unit, hid, left = set(), set(), set()
        for l, r, _ in prods:
            for k, x in enumerate(r):
                if x <= nt:
                    if all(y in nullable for y in r[:k]):
                        left.add((l, x))
                        if k:
                            hid.add((l, x))
                        if all(y in nullable for y in r[k + 1:]):
                            unit.add((l, x))
        tr = lambda e: fix(lambda s: s | e | {(a, d) for a, b in s | e for c, d in e if b == c})
        if any(a == b for a, b in tr(unit)):
            return False
        tl = tr(left)
        if any(a == b or (b, a) in tl for a, b in hid):
            return False
        return True

    def tla(self):
        none = (0, "n")
        ps = []
        for l, r, px in self.prods:
            ts = [x - self.nt for x in r if x > self.nt]
            p = self.prec.get(px, none) if px else self.prec.get(ts[-1], none) if ts else none
            ps.append(dict(l=l, r=list(r), prec=p[0], assoc=p[1]))
        t = [self.prec.get(k, none) for k in range(1, self.tok + 1)]
        return dict(nt=self.nt, tok=self.tok, prods=ps, starts=list(self.starts), prec=[x[0] for x in t], assoc=[x[1] for x in t])


def random_grammar(r):
    while True:
        ns = r.choice([1, 1, 1, 2, 3])
        inner = r.choice([1, 2, 2, 3, 3, 4, 5])
        nt, tok = ns + inner, r.choice([2, 3, 4, 5, 6]) + 1
        eof = nt + tok
        T = lambda: nt + r.randrange(1, tok)
        X = lambda: r.randrange(ns + 1, nt + 1)
        prods = []
        for s in range(1, ns + 1):
            prods.append((s, [X(), eof], None))
            if r.random() < .2:
                prods.append((s, [T(), X(), eof], None))
        for a in range(ns + 1, nt + 1):
            k = r.choice([1, 2, 2, 3, 3, 4])
            for _ in range(k):
                n = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
                rhs = [X() if r.random() < .5 else T() for _ in range(n)]
                if r.random() < .25:
                    rhs = [a, T(), a]
                if not any(p[0] == a and p[1] == rhs for p in prods):
                    prods.append((a, rhs, None))
        levels, dummies = [], 0
        if r.random() < .6:
            ts = list(range(1, tok))
            r.shuffle(ts)
            dummies = r.choice([0, 0, 1, 2])
            ts = ts[:r.randrange(1, tok)] + list(range(tok + 1, tok + 1 + dummies))
            r.shuffle(ts)
            while ts:
                k = min(len(ts), r.choice([1, 1, 2]))
                levels.append((r.choice("llrrn"), ts[:k]))
                ts = ts[k:]
            prods = [(l, rhs, r.choice(r.choice(levels)[1]) if r.random() < .15 else px) for l, rhs, px in prods]
        g = Grammar(nt, tok, prods, list(range(1, ns + 1)), levels, dummies)
        if g.sane():
            return g


def operators(r):
    """One ambiguous expression grammar, disambiguated by declarations alone."""
    k = r.choice([3, 5, 8])
    nt, tok = 2, k + 5           # operators, then ATOM LP RP PRE EOF
    A, L, R, M, E = (nt + k + i for i in range(1, 6))
    prods = [(1, [2, E], None), (2, [A], None), (2, [L, 2, R], None)]
    prods += [(2, [2, nt + i, 2], None) for i in range(1, k + 1)]
    if r.random() < .7:
        prods.append((2, [M, 2], tok + 1 if r.random() < .7 else None))
    if r.random() < .3:
        prods.append((2, [2, M], None))
    if r.random() < .3:
        prods.append((2, [2, 2], tok + 1))
    r.shuffle(prods)
    ts = list(range(1, k + 1)) + [tok + 1] + ([k + 4] if r.random() < .6 else [])
    r.shuffle(ts)
    levels = []
    while ts:
        n = min(len(ts), r.choice([1, 1, 2, 3]))
        levels.append((r.choice("lrn"), ts[:n]))
        ts = ts[n:]
    return Grammar(nt, tok, prods, [1], levels, 1)


def layered(r, depth=6, per=3):
    """Unambiguous expression levels: many states, a wide table."""
    nt = depth + 3
    tok = depth * per + 6
    t = lambda k: nt + k
    A, L, R, C, D, E = (t(depth * per + i) for i in range(1, 7))
    prods = [(1, [3, E], None)]
    for d in range(depth):
        me, up = 3 + d, 4 + d
        for j in range(per):
            prods.append((me, [me, t(d * per + j + 1), up] if d % 2 == 0 else [up, t(d * per + j + 1), me], None))
        prods.append((me, [up], None))
    at = nt
    prods += [(at, [A], None), (at, [L, 3, R], None), (at, [A, L, 2, R], None), (at, [C, 3, D, at], None),
              (2, [], None), (2, [2, 3, C], None)]
    return Grammar(nt, tok, prods, [1])


def lists(r):
    """Right and left recursion and nesting, for deep stacks."""
    nt, tok = 4, 5
    A, B, L, R, E = range(nt + 1, nt + 6)
    prods = [(1, [3, E], None), (2, [4, E], None), (3, [A, 3], None), (3, [], None), (3, [L, 4, R], None),
             (4, [4, B], None), (4, [L, 4, R], None), (4, [A], None), (4, [B, 3, R], None)]
    return Grammar(nt, tok, prods, [1, 2])


def commands(r, n=26, tok=70):
    """Many long keyword rules: hundreds of states, a hundred tokens."""
    nt, tok = 4, tok
    T = lambda: nt + r.randrange(1, tok)
    prods = [(1, [2, nt + tok], None), (2, [2, 3], None), (2, [3], None)]
    for i in range(n):
        rhs = [T() for _ in range(r.randrange(5, 16))]
        for _ in range(r.randrange(3)):
            rhs[r.randrange(1, len(rhs))] = r.choice([3, 4, 4])
        prods.append((3, [nt + 1 + i] + rhs, None))
    prods += [(4, [T()], None), (4, [nt + tok - 1, 2, nt + tok - 1, nt + tok - 2], None), (4, [4, nt + tok - 2], None)]
    return Grammar(nt, tok, prods, [1])


def name(g, x):
    return f"n{x}" if x <= g.nt else f"T{x - g.nt}"


def grm(g, r, ty):
    out = ["%{", HEADER, "%}"]
    by = {}
    for k in range(1, g.tok + 1):
        by.setdefault(ty.get(g.nt + k), []).append(f"T{k}")
    for t, ts in by.items():
        out.append(f"%token {'<' + TYPES[t][0] + '> ' if t else ''}{' '.join(ts)}")
    if r.random() < .3:
        out.append("/* a comment % { */")
    for a, ts in g.levels:
        out.append({"l": "%left", "r": "%right", "n": "%nonassoc"}[a] + " " + " ".join(f"T{t}" if t <= g.tok else f"DUMMY{t - g.tok}" for t in ts))
    for s in g.starts:
        out.append(f"%start n{s}")
    for n in range(1, g.nt + 1):
        out.append(f"%type <{TYPES[ty[n]][0]}> n{n}")
    out.append("%%")
    last = None
    for i, (l, rhs, px) in enumerate(g.prods):
        vals = ", ".join(f"un{ty[x]} (${k + 1})" if x in ty else "0" for k, x in enumerate(rhs))
        act = f"mk{ty[l]} (red {i + 1} [{vals}])"
        if r.random() < .2:
            act = f"let val x = \"}} $9 ' {{\" in (* $7 }} ' *) {act} end"
        elif r.random() < .2:
            act = f"case {act} of\n     v => v"
        syms = [name(g, x) for x in rhs]
        pp = (["%prec"] + [f"T{px}" if px <= g.tok else f"DUMMY{px - g.tok}"]) if px else []
        body = " ".join(syms + pp)
        nxt = g.prods[i + 1][0] if i + 1 < len(g.prods) else None
        head = f"n{l}:" if l != last else "  |"
        out.append(f"{head} {body}\n      {{ {act} }}" + ("" if nxt == l else "\n;"))
        last = l
    out.append("%%")
    return "\n".join(out) + "\n"


HEADER = r'''
prim_val gc_minor : unit -> unit = 1 "gc_minor"
val count = ref 0
val failat = ref 0
val reds = ref 0
fun num n = if n < 0 then "-" ^ Int.toString (~n) else Int.toString n
fun fresh () = (count := !count + 1; !count)
fun red p vals =
  let val id = fresh ()
      val () = reds := !reds + 1
      val n = length vals
      fun each f k = if k > n then "" else " " ^ num (f k) ^ each f (k + 1)
      val () = if id mod 3 = 0 then gc_minor () else ()
  in print ("R " ^ num p ^ " " ^ num id ^ " " ^ num (Parsing.symbolStart ()) ^ " " ^ num (Parsing.symbolEnd ()) ^ " V"
            ^ String.concat (map (fn v => " " ^ num v) vals) ^ " S" ^ each Parsing.itemStart 1 ^ " E" ^ each Parsing.itemEnd 1 ^ "\n");
     if !reds = !failat then raise Fail "stop" else (); id end
''' + "\n".join(f"val mk{k} : int -> ({t}) = {mk}\nval un{k} : ({t}) -> int = {un}" for k, (t, mk, un) in TYPES.items())

POST = r'''
prim_val obj_repr : 'a -> obj = 1 "identity"
val ins = TextIO.openIn (hd (CommandLine.arguments ()))
exception Lexer
fun go () = case TextIO.inputLine ins of NONE => () | SOME ln =>
  let val e :: f :: w = map (valOf o Int.fromString) (String.tokens Char.isSpace ln)
      val rest = ref w
      val k = ref 0
      val last = ref NONE
      fun lexer lb = case !rest of
          [] => (print "X\n"; raise Lexer)
        | t :: r => let val id = fresh ()
                        val tok = mktok t id
                    in rest := r; k := !k + 1; last := SOME tok;
                       Lexing.setLexAbsPos lb (10 * !k); Lexing.setLexStartPos lb 3; Lexing.setLexCurrPos lb 7;
                       print ("T " ^ num t ^ " " ^ num id ^ " " ^ num (10 * !k + 3) ^ " " ^ num (10 * !k + 7) ^ "\n"); tok end
  in print ("B " ^ num e ^ "\n"); failat := f; reds := 0;
     (print ("A " ^ num (parse e lexer (Lexing.createLexerString "")) ^ "\n"))
       handle ParseError f => print (if (case !last of NONE => false | SOME t => f (obj_repr t)) then "E 1\n" else "E 0\n")
            | Lexer => print "Z\n" | Fail "stop" => print "Z\n" | x => print ("? " ^ General.exnName x ^ "\n");
     if f mod 2 = 1 then Parsing.clearParser () else ();
     go () end
val () = go ()
'''


def sentence(g, r, s, fuel):
    """A random sentence of nonterminal s with about fuel symbols."""
    height = {}
    for _ in range(g.nt + 2):
        for l, rhs, _ in g.prods:
            if all(x > g.nt or x in height for x in rhs):
                h = 1 + max([height[x] for x in rhs if x <= g.nt], default=0)
                height[l] = min(h, height.get(l, h))
    ps = {}
    for l, rhs, _ in g.prods:
        ps.setdefault(l, []).append(rhs)
    out, todo = [], [s]
    low = {l: [x for x in q if 1 + max([height.get(y, 0) for y in x], default=0) == height[l]] for l, q in ps.items()}
    n = 0
    while todo and len(out) < 4000:
        x = todo.pop()
        if x > g.nt:
            out.append(x - g.nt)
            continue
        n += 1
        rhs = r.choice(ps[x] if n + len(todo) < fuel else low[x])
        if fuel > 90 and n < fuel and r.random() < .9:
            rhs = max(r.sample(ps[x], min(3, len(ps[x]))), key=lambda q: sum(y <= g.nt for y in q) + r.random())
        todo.extend(reversed(rhs))
    return out


def inputs(g, r, n, deep):
    """(entry, failat, tokens) for n parses."""
    res = []
    for k in range(n):
        e = r.randrange(len(g.starts))
        fuel = r.choice([150, 300, 700]) if deep and k < 3 else r.choice([1, 2, 5, 8, 12, 20, 30])
        w = sentence(g, r, g.starts[e], fuel)
        m = r.random()
        if m < .45:
            for _ in range(r.choice([1, 1, 2])):
                op, i = r.randrange(4), r.randrange(len(w) + 1)
                if op == 0:
                    w.insert(i, r.randrange(1, g.tok + 1))
                elif op == 1 and w:
                    del w[min(i, len(w) - 1)]
                elif op == 2 and w:
                    w[min(i, len(w) - 1)] = r.randrange(1, g.tok + 1)
                elif w:
                    j = min(i, len(w) - 1)
                    w[j - 1], w[j] = w[j], w[j - 1]
        elif m < .55:
            w = [r.randrange(1, g.tok + 1) for _ in range(r.randrange(8))]
        elif m < .6:
            w = w[:r.randrange(len(w) + 1)]
        res.append((e + 1, r.choice([0] * 8 + [1, 2, 5, 9]), w + [g.tok] * r.choice([0, 1])))
    return res


def one(ins, top, k, nin):
    r = vf.rng("c17", k)
    g = layered(r, 4 if vf.QUICK else 6) if k == 0 else commands(r) if k % 100 == 3 else lists(r) if k % 12 == 1 else operators(r) if k % 4 == 2 else random_grammar(r)
    ty = {x: r.choice("SSILRFP") for x in range(1, g.nt + 1)}
    ty.update({g.nt + t: r.choice("SILFP") for t in range(1, g.tok + 1) if r.random() < .5})
    text = grm(g, r, ty)
    d = f"{top}/g{k}"
    os.makedirs(d)
    open(f"{d}/p.grm", "w").write(text)
    fail = lambda m: (dict(k=k, what=m, grm=text), [])
    rc, o, _ = vf.run(["mosmlyac"] + (["-v"] if r.random() < .3 else []) + ["p.grm"], cwd=d, env=ins.env(), timeout=60, merge=True)
    if rc != 0 or not os.path.exists(f"{d}/p.sml"):
        return fail(f"mosmlyac failed ({rc}): {o[-300:]}")
    sr = rr = 0
    for ln in o.split("\n"):
        w = ln.replace(",", " ").split()
        for i in range(len(w) - 1):
            if w[i + 1].startswith("shift/reduce"):
                sr = int(w[i])
            if w[i + 1].startswith("reduce/reduce"):
                rr = int(w[i])
    if k % 4 == 0:          # the interface and the unit also compile on their own
        rc, o, _ = vf.run(["mosmlc", "-c", "-liberal", "p.sig", "p.sml"], cwd=d, env=ins.env(), timeout=120, merge=True)
        if rc:
            return fail(f"the generated unit does not compile: {o[-300:]}")
    mk = "\n".join((f"fun mktok {t} id = " if t == 1 else f"  | mktok {t} id = ") + f"T{t}" + (f" (mk{ty[g.nt + t]} id)" if g.nt + t in ty else "")
                   for t in range(1, g.tok + 1)) + "\n  | mktok _ _ = raise Fail \"token\"\n"
    ps = "\n".join(("fun" if i == 0 else "  |") + f" parse {i + 1} lexer lb = un{ty[s]} (n{s} lexer lb)" for i, s in enumerate(g.starts)) \
         + "\n  | parse _ _ _ = raise Fail \"entry\"\n"
    open(f"{d}/q.sml", "w").write(open(f"{d}/p.sml").read() + mk + ps + POST)
    rc, o, _ = vf.run(["mosmlc", "-toplevel", "q.sml", "-o", "q"], cwd=d, env=ins.env(), timeout=120, merge=True)
    if rc:
        return fail(f"the generated parser does not compile: {o[-600:]}")
    jobs = inputs(g, r, nin, k % 12 in (0, 1, 2))
    open(f"{d}/in", "w").write("".join(f"{e} {f} {' '.join(map(str, w))}\n" for e, f, w in jobs))
    rc, o, e = vf.run(["./q", "in"], cwd=d, env=ins.env(CAMLRUNPARAM=r.choice(["s=4096", "s=32768", "s=4096 i=8 o=20"])), timeout=60)
    base = dict(p=0, v=0, a=0, b=0, vals=[])
    base.update({"as": [], "bs": []})
    evs = [dict(base, op="grammar", g=g.tla(), sr=sr, rr=rr)]
    for ln in o.split("\n"):
        w = ln.split()
        if not w:
            continue
        if w[0] == "B":
            evs.append(dict(base, op="start", p=int(w[1])))
        elif w[0] == "T":
            evs.append(dict(base, op="tok", p=g.nt + int(w[1]), v=int(w[2]) if g.nt + int(w[1]) in ty else 0, a=int(w[3]), b=int(w[4])))
        elif w[0] == "R":
            i, j, m = w.index("V"), w.index("S"), w.index("E")
            ev = dict(base, op="red", p=int(w[1]), v=int(w[2]), a=int(w[3]), b=int(w[4]), vals=[int(x) for x in w[i + 1:j]])
            ev["as"], ev["bs"] = [int(x) for x in w[j + 1:m]], [int(x) for x in w[m + 1:]]
            evs.append(ev)
        elif w[0] == "A":
            evs.append(dict(base, op="acc", v=int(w[1])))
        elif w[0] == "E":
            evs.append(dict(base, op="err", v=int(w[1])))
        elif w[0] == "Z":
            evs.append(dict(base, op="raised"))
        elif w[0] != "X":
            evs.append(dict(base, op=ln[:40]))
    shutil.rmtree(d, ignore_errors=True)
    n = sum(x["op"] in ("acc", "err", "raised") for x in evs)
    if rc or n != len(jobs):
        return dict(k=k, what=f"the parser program ended with status {rc} after {n} of {len(jobs)} parses: {e[-300:]}", grm=text), []
    return dict(k=k, what=None, grm=text), evs


def check(c):
    c.add_model("LALR(1) machine against languages and operator trees", vf.tlc("LalrMC", cfg="LalrMC" + vf.scale("", "big"), timeout=600), least=20000)
    ins = vf.build()
    top = vf.scratch("yac")
    res = vf.pmap(lambda k: one(ins, top, k, vf.scale(30, 60)), list(range(vf.scale(320, 2000))))
    for info, evs in res:
        if info["what"]:
            c.violation(f"grammar {info['k']}: {info['what']}", {"grammar": info["grm"]})
    good = [(i, e) for i, e in res if not i["what"]]
    hists = [e for _, e in good]
    n = sum(map(len, hists))
    rejs, states = vf.tlc_traces("LalrTrace", hists, parts=vf.NCPU, heap="3g", timeout=800)
    c.add_traces("runs of generated parsers", len(hists), states, n)
    for h, l, t in rejs[:10]:
        e = hists[h][l] if l < len(hists[h]) else None
        short = {k: v for k, v in (e or {}).items() if k != "g"}
        c.violation(f"grammar {good[h][0]['k']}, event {l + 1}: {short} is not a step of the LALR(1) parser: {t[:300]}",
                    {"grammar": good[h][0]["grm"], "events": [{k: v for k, v in x.items() if k != "g"} for x in hists[h][max(0, l - 40):l + 1]]})
    ops = {}
    for h in hists:
        for e in h:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.cov["events"] = ops
    c.cov["grammars with conflicts"] = sum(h[0]["sr"] + h[0]["rr"] > 0 for h in hists)
    good and c.sample([ln for ln in good[-1][0]["grm"].split("%%")[1].split("\n") if ln][:12])
    c.assumptions += ["grammars of at most about 60 productions; no cycles and no hidden left recursion (there a table-driven parser need not end)",
                      "positions are checked for symbols that do not begin or end with the empty string"]
