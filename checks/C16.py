"""C16: lexers generated by mosmllex from random specifications behave as specs/Lex.tla says, however the input is delivered."""
import json, os, shutil
import vf

ALPHA = [97, 97, 98, 99, 100, 48, 49, 32, 10, 95, 120, 200, 255, 128, 127, 1, 34, 40, 42, 96, 92]


# ---- regular expressions: (kind, ...) with a concrete syntax (mosmllex) and an encoding (specs/Lex.tla)

def chars(neg, *iv):
    return dict(t="chars", neg=neg, iv=[list(x) for x in iv])


def lit(s):
    if not s:
        return dict(t="eps", text='""')
    r = None
    for ch in reversed(s):
        x = chars(False, (ch, ch))
        r = x if r is None else dict(t="seq", a=x, b=r)
    r["text"] = '"' + "".join(strch(c) for c in s) + '"'
    return r


def strch(c):
    if c in (34, 92):
        return "\\" + chr(c)
    if c == 10:
        return "\\n"
    if 32 <= c < 127:
        return chr(c)
    return "\\%03d" % c


def chch(c):
    if c in (92, 96):
        return "`\\" + chr(c) + "`"
    if 32 <= c < 127:
        return "`" + chr(c) + "`"
    if c == 9:
        return "`\\t`"
    if 160 <= c < 255 and c % 2:
        return "`" + chr(c) + "`"
    return "`\\%03d`" % c


def show(r, p=0):
    """Concrete syntax; p: 0 alternative allowed, 1 sequence, 2 postfix operand."""
    t = r["t"]
    if "text" in r:
        return r["text"]
    if t == "chars":
        if r.get("under"):
            return "_"
        if r.get("eof"):
            return "eof"
        iv = r["iv"]
        if not r["neg"] and len(iv) == 1 and iv[0][0] == iv[0][1]:
            return chch(iv[0][0])
        return "[" + ("^ " if r["neg"] else "") + " ".join(chch(a) if a == b else f"{chch(a)}-{chch(b)}" for a, b in iv) + "]"
    if t == "name":
        return f"n{r['n']}"
    par = lambda s, b: f"({s})" if b else s
    if t == "seq":
        return par(f"{show(r['a'], 1)} {show(r['b'], 1)}", p > 1)
    if t == "alt":
        return par(f"{show(r['a'], 0)} | {show(r['b'], 0)}", p > 0)
    return show(r["a"], 2) + {"star": "* ", "plus": "+", "maybe": "?"}[t]    # "*)" would close a comment


def enc(r):
    t = r["t"]
    if t == "eps":
        return dict(t="eps")
    if t == "chars":
        return dict(t="chars", neg=r["neg"], iv=r["iv"])
    if t == "name":
        return dict(t="name", n=r["n"])
    if t in ("seq", "alt"):
        return dict(t=t, a=enc(r["a"]), b=enc(r["b"]))
    return dict(t=t, a=enc(r["a"]))


def rclass(r):
    n = r.choice([1, 1, 2, 3])
    iv = []
    for _ in range(n):
        a = r.choice(ALPHA)
        b = r.choice([a, a, a + 1, a + 3, 122, 255, 57])
        iv.append((a, b if b >= a and b <= 255 else a))
    return chars(r.random() < .3, *iv)


def regex(r, depth, names=0):
    p = r.random()
    if depth <= 0 or p < .3:
        q = r.random()
        if q < .45:
            return chars(False, (c := r.choice(ALPHA), c))
        if q < .65:
            return rclass(r)
        if q < .72:
            return dict(chars(True), under=True)
        if q < .8 and names:
            return dict(t="name", n=r.randrange(names) + 1)
        if q < .83:
            return lit([])
        return lit([r.choice(ALPHA[:10]) for _ in range(r.choice([1, 2, 2, 3, 4]))])
    k = r.choices(["seq", "alt", "star", "plus", "maybe"], [5, 3, 2, 2, 1.5])[0]
    if k in ("seq", "alt"):
        return dict(t=k, a=regex(r, depth - 1, names), b=regex(r, depth - 1, names))
    return dict(t=k, a=regex(r, depth - 1, names))


def sample(r, x, env, budget):
    """A random word of the language (so that inputs contain interesting tokens)."""
    t = x["t"]
    if t == "eps":
        return []
    if t == "chars":
        if x.get("eof"):
            return []
        for _ in range(20):
            c = r.choice(ALPHA) if x["neg"] or r.random() < .2 else r.randint(*r.choice(x["iv"]))
            ok = any(a <= c <= b for a, b in x["iv"]) != x["neg"]
            if ok and c:
                return [c]
        return []
    if t == "name":
        return sample(r, env[x["n"] - 1], env, budget)
    if t == "seq":
        return sample(r, x["a"], env, budget) + sample(r, x["b"], env, budget)
    if t == "alt":
        return sample(r, x[r.choice("ab")], env, budget)
    n = {"star": r.choice([0, 0, 1, 2, 3, 6]), "plus": r.choice([1, 1, 2, 3, 6]), "maybe": r.choice([0, 1])}[t]
    out = []
    for _ in range(n):
        out += sample(r, x["a"], env, budget)
        if len(out) > budget:
            break
    return out


def classic(r):
    """A programming-language-like lexer: keywords, identifiers, numbers, comments through a second entry point."""
    letter, digit = chars(False, (97, 122), (65, 90)), chars(False, (48, 57))
    alnum = chars(False, (97, 122), (48, 57), (95, 95))
    env = [letter, dict(t="plus", a=digit)]
    num = dict(t="name", n=2)
    dot = chars(False, (46, 46))
    e1 = [lit([105, 102]), lit([105, 110]), dict(t="seq", a=dict(t="name", n=1), b=dict(t="star", a=alnum)), num,
          dict(t="seq", a=num, b=dict(t="seq", a=dot, b=num)),
          dict(t="seq", a=num, b=dict(t="seq", a=dot, b=dict(t="seq", a=num, b=dict(t="seq", a=chars(False, (101, 101)), b=num)))),
          dict(t="plus", a=chars(False, (32, 32), (10, 10), (9, 9))), lit([40, 42]),
          dict(chars(False, (0, 0)), eof=True), dict(chars(True), under=True)]
    e2 = [lit([42, 41]), lit([40, 42]), dict(chars(False, (0, 0)), eof=True), dict(chars(True), under=True)]
    if r.random() < .5:
        r.shuffle(e1)
    return env, [e1, e2]


def long_lexer(r):
    """Cheap rules for an input longer than 16 bits can count."""
    return [], [[dict(t="plus", a=chars(False, (97, 122))), dict(t="plus", a=chars(False, (32, 32))), dict(chars(False, (0, 0)), eof=True)]]


def spec(r):
    if r.random() < .02:        # an entry point whose rules match only the empty string
        return [], [[lit([])], [lit([97]), lit([])]]
    if r.random() < .15:
        return classic(r)
    env = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        env.append(regex(r, 2, len(env)))
    entries = []
    for _ in range(r.choice([1, 1, 2, 3])):
        rules = [regex(r, r.choice([0, 1, 2, 3, 4]), len(env)) for _ in range(r.choice([1, 2, 3, 4, 5, 8]))]
        if r.random() < .4:     # prefixes and equal words, so that length and order both matter
            w = [r.choice(ALPHA[:6]) for _ in range(4)]
            rules += [lit(w[:k]) for k in r.sample([1, 2, 3, 4], 2)]
            r.shuffle(rules)
        if r.random() < .5:
            rules.insert(r.randrange(len(rules) + 1), dict(chars(False, (0, 0)), eof=True))
        if r.random() < .2:
            x = dict(chars(False, (0, 0)), eof=True)
            rules.append(dict(t="seq", a=regex(r, 1), b=x))
        if r.random() < .6:
            rules.append(dict(chars(True), under=True))
        entries.append(rules)
    return env, entries


def lexfile(r, env, entries):
    act = lambda e, k: r.choice([
        "T {e} {k} lexbuf", "(T {e} {k} lexbuf)", "let val x = {{a = 1, b = {{c = 2}}}} in T {e} (#a x + {k} - 1) lexbuf end",
        'case "}} \\" {{" of "" => () | _ => T {e} {k} lexbuf', "(* }} {{ \" *) T {e} {k} lexbuf (* (* }} *) *)",
        "T {e}\n      {k}\n   lexbuf", "T {e} {k} lexbuf"]).format(e=e + 1, k=k + 1)
    out = ["{ val zero = 0 }"] if r.random() < .5 else []
    for i, x in enumerate(env):
        out.append(f"let n{i + 1} = {show(x)}")
    for e, rules in enumerate(entries):
        bars = [f"    {show(x)}\n    {{ {act(e, k)} }}" for k, x in enumerate(rules)]
        out.append(("rule" if e == 0 else "and") + f" e{e + 1} = parse\n" + "\n  | ".join(bars))
    return "(* generated *)\n" + "\n".join(out) + "\n;\n"


PRE = r'''
val hexd = "0123456789abcdef"
fun hex s = String.concat (map (fn c => str (String.sub (hexd, ord c div 16)) ^ str (String.sub (hexd, ord c mod 16))) (explode s))
fun unhex "-" = "" | unhex s = let fun v c = if c >= #"a" then ord c - 87 else ord c - 48
  in CharVector.tabulate (size s div 2, fn i => chr (16 * v (String.sub (s, 2*i)) + v (String.sub (s, 2*i+1)))) end
fun T e k lexbuf =
  let val l = Lexing.getLexeme lexbuf
      val l' = CharVector.tabulate (size l, fn i => Lexing.getLexemeChar lexbuf i)
  in print ("T " ^ Int.toString e ^ " " ^ Int.toString k ^ " " ^ Int.toString (Lexing.getLexemeStart lexbuf) ^ " "
            ^ Int.toString (Lexing.getLexemeEnd lexbuf) ^ " " ^ (if l = "" then "-" else hex l) ^ (if l = l' then "" else " differs") ^ "\n") end
'''

POST = r'''
prim_val gc_minor : unit -> unit = 1 "gc_minor"
fun sub1 (buff : CharArray.array) i s = CharArray.copyVec {src = s, dst = buff, di = i}
fun reader chunk gc s =
  let val p = ref 0 val k = ref 0
  in fn buff => fn n => let val () = k := !k * 5 + 7
                            val c = if chunk > 0 then chunk else 1 + (!k mod (~chunk))
                            val m = Int.min (Int.min (c, n), size s - !p)
                        in if gc then (ignore (List.tabulate (300, fn i => [i])); gc_minor ()) else ();
                           sub1 buff 0 (String.substring (s, !p, m)); p := !p + m; k := !k mod 1000; m end end
val ins = TextIO.openIn (hd (CommandLine.arguments ()))
fun go () = case TextIO.inputLine ins of NONE => () | SOME ln =>
  let val [m, mx, sch, h] = String.tokens Char.isSpace ln
      val s = unhex h
      val num = valOf o Int.fromString
      val lexbuf = case m of "s" => Lexing.createLexerString s
                    | "f" => let val os = BasicIO.open_out_bin "in.bin" in BasicIO.output (os, s); BasicIO.close_out os;
                               let val is = Nonstdio.open_in_bin "in.bin" in Lexing.createLexer (fn b => fn n => Nonstdio.buff_input is b 0 n) end end
                    | _ => Lexing.createLexer (reader (num (String.extract (m, 1, NONE))) (String.sub (m, 0) = #"g") s)
      fun loop 0 _ = print "END\n"
        | loop k q = let val e = q mod (Vector.length entries)
                     in if q mod 7 = 0 then gc_minor () else ();
                        print ("C " ^ Int.toString (e + 1) ^ "\n");
                        Vector.sub (entries, e) lexbuf; loop (k - 1) (if num sch = 0 then q else (q * 31 + 11) mod 1009) end
  in loop (num mx) (num sch) handle Fail s => print ("F " ^ s ^ "\n") | e => print ("X " ^ General.exnName e ^ "\n"); go () end
val () = go ()
'''


def one(ins, top, k, ninp):
    r = vf.rng("c16", k)
    env, entries = spec(r) if k else long_lexer(r)
    text = lexfile(r, env, entries)
    d = f"{top}/l{k}"
    os.makedirs(d)
    open(f"{d}/lx.lex", "w", encoding="latin-1").write(text)
    fail = lambda m, **kw: (dict(k=k, what=m, lex=text, **kw), [])
    rc, o, _ = vf.run(["mosmllex", "lx.lex"], cwd=d, env=ins.env(), timeout=60, merge=True)
    if rc != 0 or not os.path.exists(f"{d}/lx.sml"):
        return fail(f"mosmllex failed ({rc}): {o[-300:]}")
    ents = "val entries : (Lexing.lexbuf -> unit) vector = Vector.fromList [" + ", ".join(f"e{i + 1}" for i in range(len(entries))) + "]\n"
    open(f"{d}/p.sml", "w", encoding="latin-1").write(PRE + open(f"{d}/lx.sml", encoding="latin-1").read() + ents + POST)
    rc, o = vf.mosmlc(ins, d, "p.sml", "p.exe", "-toplevel")
    if rc != 0:
        return fail(f"the generated lexer does not compile: {o[-400:]}")
    cases, cmds = [], []
    for i in range(ninp):
        e = r.randrange(len(entries))
        inp = []
        want = r.choice([0, 5, 20, 20, 60, 200] + ([1015, 1024, 1100, 1300] if i == 0 and k % 4 == 0 else []))
        while len(inp) < want:
            rules = r.choice(entries)
            inp += sample(r, r.choice(rules), env, 40) if r.random() < .85 else [r.choice(ALPHA)]
            if r.random() < .1:
                inp.append(r.choice(ALPHA))
            if r.random() < .02 and len(inp) > 3:
                inp += inp[:3]
            if not any(sample(r, x, env, 5) for x in rules):
                inp.append(97)
        inp = [c for c in inp if c][:want + 30]
        mx = r.choice([3, 20, 60])
        if k == 0 and i == 0:
            inp, mx = [32 if j % 1009 == 1008 else 97 + j % 26 + (j // 1009) % 2 * (j % 2) * (j % 26 != 25) for j in range(66500)], 200
            cases.append(("s", inp))
            cmds.append(f"s {mx} 0 {bytes(inp).hex()}")
            continue
        sch = 0 if len(entries) == 1 else r.choice([0, 1, 2, 3, 500])
        for m in r.sample(["s", "f", "c1", "c3", "c60", "c1000", "c1024", "c-50", "g7", "g-200", "g1024"], 3 if i else 4):
            cases.append((m, inp))
            cmds.append(f"{m} {mx} {sch} {bytes(inp).hex() or '-'}")
    open(f"{d}/cmds", "w").write("\n".join(cmds) + "\n")
    rc, o, er = vf.run([f"{d}/p.exe", "cmds"], cwd=d, env=ins.env(CAMLRUNPARAM="s=4096"), timeout=60)
    if rc != 0:
        return fail(f"the lexer program ended with status {rc}: {er[-300:]}", commands=cmds)
    runs, cur, at, bad = [], [], None, None
    lines = o.split("\n")[:-1]
    evs = [dict(op="lexer", env=[enc(x) for x in env], entries=[[enc(x) for x in e] for e in entries])]
    ci = 0
    hist = []
    for ln in lines:
        w = ln.split(" ")
        if at is None:
            hist.append(dict(op="input", inp=cases[ci][1]))
            at = 0
        if w[0] == "C":
            at = int(w[1])
        elif w[0] == "T":
            hist.append(dict(op="tok", entry=int(w[1]), rule=int(w[2]),
                             **{"from": int(w[3].replace("~", "-")), "to": int(w[4].replace("~", "-"))},
                             lexeme=list(bytes.fromhex(w[5])) if w[5] != "-" else []))
            if at != int(w[1]) or len(w) > 6:
                hist[-1]["rule"] = -1
        else:
            if w[0] == "F":
                if ln != "F lexer: illegal symbol in input":
                    if ln == "F lexer: token too long" and cases[ci][0] != "s":
                        hist.append(dict(op="toolong", entry=at))
                    else:
                        bad = bad or f"case {cmds[ci][:60]} raised {ln}"
                else:
                    hist.append(dict(op="fail", entry=at))
            elif w[0] != "END":
                bad = bad or f"case {cmds[ci][:60]}: {ln}"
            ci += 1
            at = None
    if ci != len(cases) and not bad:
        bad = f"{ci} of {len(cases)} cases answered: {er[-200:]}"
    shutil.rmtree(d, ignore_errors=True)
    if k == 0 and len(hist) > 122:
        hist[1:122] = [dict(op="jump", to=hist[121]["to"])]
    if bad:
        return fail(bad, commands=cmds)
    return None, (evs + hist, text, cmds)


def check(c):
    ins = vf.build()
    c.add_model("LexMC", vf.tlc("LexMC", cfg=vf.scale("LexMC", "LexMCbig"), timeout=800))
    top = vf.scratch("lex")
    n = vf.scale(240, 2500)
    res = vf.pmap(lambda k: one(ins, top, k, vf.scale(4, 6)), range(n))
    hists, texts = [], []
    for f, x in res:
        if f:
            c.violation(f"lexer {f['k']}: {f['what']}", f)
        else:
            hists.append(x[0])
            texts.append(x)
    total = sum(map(len, hists))
    rejs, states = vf.tlc_traces("LexTrace", hists, parts=vf.NCPU, heap="2g", timeout=800)
    c.add_traces("lexer runs", len(hists), states, total)
    for h, l, t in rejs[:10]:
        c.violation(f"lexer {h}, event {l + 1}: {json.dumps(hists[h][l])[:200]} but the specification says {t[-300:]}",
                    {"lexer": texts[h][1], "commands": texts[h][2], "event": hists[h][l]})
    for x in texts[:3]:
        c.sample(x[1][:500])
    c.cov["tokens"] = sum(e["op"] == "tok" for h in hists for e in h)
    c.cov["failures_to_match"] = sum(e["op"] == "fail" for h in hists for e in h)
    c.assumptions += ["tokens longer than 1024 characters may be refused (the lexer buffer's documented limit)",
                      "eof occurs at most once in a rule, at its end; inputs contain no NUL character"]
