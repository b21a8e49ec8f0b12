"""Random well-typed core-language programs: as node tables for specs/Eval.tla and as Standard ML text."""

INT, BOOL, STR, UNIT, EXN, FUEL = "int", "bool", "string", "unit", "exn", "fuel"
SHAPE, COLOR = "shape", "color"
CONS = {SHAPE: [("Leaf", []), ("Node", [SHAPE, INT, SHAPE]), ("Wrap", [INT]), ("Tag", [BOOL, STR]), ("Many", [("list", INT)])],
        COLOR: [("Red", []), ("Green", []), ("Blue", []), ("Grey", []), ("Black", [])]}
HEADER = '''datatype shape = Leaf | Node of shape * int * shape | Wrap of int | Tag of bool * string | Many of int list
datatype color = Red | Green | Blue | Grey | Black
fun log (n : int) = (print ("@" ^ Int.toString n ^ "\\n"); n)
'''
LABELS = ["a", "b", "c", "x1", "y"]


def ty(t):
    if isinstance(t, str):
        return "int" if t == FUEL else t
    k = t[0]
    if k in ("list", "ref", "option"):
        return f"{ty(t[1])} {k}"
    if k == "tup":
        return "(" + " * ".join(map(ty, t[1])) + ")"
    if k == "rec":
        return "{" + ", ".join(f"{n} : {ty(u)}" for n, u in zip(t[1], t[2])) + "}"
    return "(" + " -> ".join(map(ty, t[1])) + " -> " + ty(t[2]) + ")"


def eq_type(t):
    if isinstance(t, str):
        return t != EXN
    if t[0] == "ref":
        return True
    if t[0] in ("list", "option"):
        return eq_type(t[1])
    if t[0] == "tup":
        return all(map(eq_type, t[1]))
    if t[0] == "rec":
        return all(map(eq_type, t[2]))
    return False


def quote(s):
    return '"' + s + '"'


class Gen:
    def __init__(self, r, size=120):
        self.r, self.left, self.P = r, size, []
        self.fun_depth = 0

    # ---- nodes: every builder returns (node id, text)
    def node(self, o, k=(), s="", n=0, l=()):
        self.P.append({"o": o, "k": list(k), "s": s, "n": n, "l": list(l)})
        return len(self.P)

    def name(self):
        return self.r.choice(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "u", "v", "w", "x'", "y_1"])

    def int_(self, n):
        return self.node("int", n=n), str(n).replace("-", "~")

    def typ(self, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .5:
            return r.choice([INT, INT, INT, BOOL, STR, SHAPE, COLOR, UNIT])
        sub = lambda: self.typ(d - 1)
        k = r.randrange(8)
        if k <= 1:
            return ("list", sub())
        if k == 2:
            return ("tup", tuple(sub() for _ in range(r.choice([2, 2, 3]))))
        if k == 3:
            return ("ref", sub())
        if k == 4:
            return ("option", sub())
        if k == 5:
            ls = tuple(sorted(r.sample(LABELS, r.choice([1, 2, 3]))))
            return ("rec", ls, tuple(sub() for _ in ls))
        if k == 6 and d > 1:
            return ("fun", tuple(sub() for _ in range(r.choice([1, 1, 2, 3]))), r.choice([INT, INT, BOOL, sub()]))
        return r.choice([EXN, INT])

    # ---- values and patterns
    def prim(self, op, args, text):
        return self.node("prim", [a[0] for a in args], s=op), text

    def leaf(self, t, env):
        """Smallest expression of type t."""
        r = self.r
        vs = [x for x, u in env.items() if u == t]
        if vs and r.random() < .7:
            x = r.choice(vs)
            return self.node("var", s=x), x
        if t in (INT, FUEL):
            return self.int_(r.choice([0, 1, 2, 3, 4]) if t == FUEL else r.choice([0, 1, 2, 3, 5, 7, 10, 100, -1, -2, -7, 127, 128, 255, 256, -128, -129, 30000]))
        if t == BOOL:
            b = r.choice(["true", "false"])
            return self.node("con", s=b), b
        if t == STR:
            s = r.choice(["", "a", "b", "ab", "hello", "xyz xyz"])
            return self.node("str", s=s), quote(s)
        if t == UNIT:
            return self.node("tup"), "()"
        if t == EXN:
            xs = [x for x, u in env.items() if isinstance(u, tuple) and u[0] == "exc" and u[1] is None] + ["Div", "Match", "Empty"]
            x = r.choice(xs)
            return self.node("exc", s=x), x
        if isinstance(t, str):
            c, args = r.choice(CONS[t] if t == COLOR else [CONS[t][0], CONS[t][0], CONS[t][2], CONS[t][3], CONS[t][4]])
            return self.con(c, [self.leaf(u, env) for u in args])
        k = t[0]
        if k == "list":
            return self.node("con", s="nil"), f"([] : {ty(t)})"
        if k == "option":
            return self.node("con", s="NONE"), f"(NONE : {ty(t)})"
        if k == "tup":
            return self.tup([self.leaf(u, env) for u in t[1]])
        if k == "rec":
            return self.rec(t, [self.leaf(u, env) for u in t[2]], list(range(len(t[1]))))
        if k == "ref":
            e = self.leaf(t[1], env)
            return self.prim("ref", [e], f"(ref {e[1]} : {ty(t)})")
        return self.lam(t, env, 0)

    def con(self, c, es):
        n = self.node("con", [e[0] for e in es], s=c)
        if not es:
            return n, c
        return n, f"({c} {es[0][1]})" if len(es) == 1 else f"({c} ({', '.join(e[1] for e in es)}))"

    def tup(self, es):
        return self.node("tup", [e[0] for e in es]), "(" + ", ".join(e[1] for e in es) + ")"

    def rec(self, t, es, order):
        """es in textual order; order[i] = index (in the sorted labels) of the i-th expression as written."""
        pos = [order.index(j) + 1 for j in range(len(order))]
        return (self.node("rec", [e[0] for e in es], l=pos),
                "{" + ", ".join(f"{t[1][order[i]]} = {es[i][1]}" for i in range(len(es))) + "}")

    def pat(self, t, env, d, refut=True):
        """(node, text, bindings)"""
        r = self.r
        k = r.random()
        if d <= 0 or k < .25 or isinstance(t, str) and t in (EXN, UNIT, FUEL) and k < .9 or isinstance(t, tuple) and t[0] == "fun":
            if r.random() < .3 or t == FUEL:
                return self.node("pwild"), f"_", {}
            x = self.name()
            return self.node("pvar", s=x), f"({x} : {ty(t)})", {x: t}
        if k < .33:
            x = self.name()
            p = self.pat(t, env, d - 1, refut)
            if x in p[2]:
                return p
            return self.node("pas", [p[0]], s=x), f"({x} as {p[1]})", {x: t, **p[2]}

        def many(ts):
            ps, b = [], {}
            for u in ts:
                for _ in range(8):
                    m = len(self.P)
                    p = self.pat(u, env, d - 1, refut)
                    if not set(p[2]) & set(b):
                        break
                else:
                    p = (self.node("pwild"), "_", {})
                ps.append(p)
                b.update(p[2])
            return ps, b
        if t == INT and refut:
            n = r.choice([0, 1, 2, 3, 5, -1, 100, 127, 255, 256])
            return self.node("pint", n=n), str(n).replace("-", "~"), {}
        if t == STR and refut:
            s = r.choice(["", "a", "b", "ab", "hello"])
            return self.node("pstr", s=s), quote(s), {}
        if t == BOOL and refut:
            b = r.choice(["true", "false"])
            return self.node("pcon", s=b), b, {}
        if t == UNIT:
            return self.node("ptup"), "()", {}
        if t == EXN:
            xs = [(x, u[1]) for x, u in env.items() if isinstance(u, tuple) and u[0] == "exc"] + [("Div", None), ("Match", None), ("Bind", None), ("Fail", STR)]
            x, u = r.choice(xs)
            if u is None:
                return self.node("pexc", s=x), x, {}
            p = self.pat(u, env, d - 1, refut)
            return self.node("pexc", [p[0]], s=x), f"({x} {p[1]})", p[2]
        if isinstance(t, tuple) and t[0] == "tup":
            ps, b = many(t[1])
            return self.node("ptup", [p[0] for p in ps]), "(" + ", ".join(p[1] for p in ps) + ")", b
        if isinstance(t, tuple) and t[0] == "rec":
            idx = [i for i in range(len(t[1])) if r.random() < .7] or [0]
            r.shuffle(idx)
            ps, b = many([t[2][i] for i in idx])
            dots = [] if len(idx) == len(t[1]) else ["..."]
            return (self.node("psel", [p[0] for p in ps], l=[i + 1 for i in idx]),
                    "({" + ", ".join([f"{t[1][i]} = {p[1]}" for i, p in zip(idx, ps)] + dots) + f"}} : {ty(t)})", b)
        if isinstance(t, tuple) and t[0] == "ref":
            p = self.pat(t[1], env, d - 1, refut)
            return self.node("pref", [p[0]]), f"(ref {p[1]})", p[2]
        if refut and isinstance(t, tuple) and t[0] == "list":
            if r.random() < .3:
                return self.node("pcon", s="nil"), "[]", {}
            ps, b = many([t[1], t])
            return self.node("pcon", [p[0] for p in ps], s="::"), f"({ps[0][1]} :: {ps[1][1]})", b
        if refut and isinstance(t, tuple) and t[0] == "option":
            if r.random() < .3:
                return self.node("pcon", s="NONE"), "NONE", {}
            p = self.pat(t[1], env, d - 1, refut)
            return self.node("pcon", [p[0]], s="SOME"), f"(SOME {p[1]})", p[2]
        if refut and t in CONS:
            c, args = r.choice(CONS[t])
            ps, b = many(args)
            n = self.node("pcon", [p[0] for p in ps], s=c)
            if not args:
                return n, c, b
            return n, f"({c} {ps[0][1]})" if len(ps) == 1 else f"({c} ({', '.join(p[1] for p in ps)}))", b
        x = self.name()
        return self.node("pvar", s=x), f"({x} : {ty(t)})", {x: t}

    def rules(self, t, u, env, d, total, eager=3):
        """[pattern, body, ...], text of the rules."""
        r = self.r
        ks, tx = [], []
        for i in range(r.choice([1, 2, 3, 4, 6])):
            p = self.pat(t, env, 2 if i < 3 else 1)
            e = self.gen(u, {**env, **p[2]}, d - 1)
            ks += [p[0], e[0]]
            tx.append(f"{p[1]} => {e[1]}")
        if total:
            x = self.name()
            w = r.random() < .5
            e = self.gen(u, env if w else {**env, x: t}, min(d - 1, 1))
            ks += [self.node("pwild") if w else self.node("pvar", s=x), e[0]]
            tx.append(f"{'_' if w else x} => {e[1]}")
        return ks, " | ".join(tx)

    def lam(self, t, env, d):
        """An anonymous function of curried type t: one fn per argument, or nested rules."""
        r = self.r
        _, args, res = t
        if r.random() < .25 and len(args) == 1 and d > 0:
            ks, tx = self.rules(args[0], res, env, d, r.random() < .8)
            return self.node("lam", ks, n=1), f"(fn {tx})"
        ps, b = [], {}
        for u in args:      # fn p1 => fn p2 => ...: later patterns shadow earlier ones
            p = self.pat(u, env, 1, refut=False)
            ps.append(p)
            b.update(p[2])
        e = self.gen(res, {**env, **b}, d - 1) if d > 0 else self.leaf(res, {**env, **b})
        n = e[0]
        for p in reversed(ps):
            n = self.node("lam", [p[0], n], n=1)
        return n, "(" + "".join(f"fn {p[1]} => " for p in ps) + e[1] + ")"

    # ---- expressions
    def many(self, ts, env, d):
        return [self.gen(t, env, d - 1) for t in ts]

    def app(self, f, args):
        return self.node("app", [f[0]] + [a[0] for a in args]), "(" + f[1] + "".join(" " + (a[1] if a[1][0] in '("{[' or a[1].isalnum() else f"({a[1]})") for a in args) + ")"

    def gen(self, t, env, d):
        r = self.r
        self.left -= 1
        if d <= 0 or self.left <= 0:
            e = self.leaf(t, env)
            return self.prim("log", [e], f"(log {e[1]})") if t == INT and r.random() < .15 else e
        if t == FUEL:
            return self.leaf(t, env)
        k = r.random()
        # functions in scope that yield t
        if k < .22:
            fs = [(x, u) for x, u in env.items() if isinstance(u, tuple) and u[0] == "fun" and u[2] == t]
            part = [(x, u) for x, u in env.items() if isinstance(u, tuple) and u[0] == "fun" and isinstance(t, tuple) and t[0] == "fun" and len(u[1]) > len(t[1])
                    and u[2] == t[2] and u[1][-len(t[1]):] == t[1]]
            if part and r.random() < .5:
                x, u = r.choice(part)
                return self.app((self.node("var", s=x), x), self.many(u[1][:-len(t[1])], env, d))
            over = [(x, u) for x, u in env.items() if isinstance(u, tuple) and u[0] == "fun" and isinstance(u[2], tuple) and u[2][0] == "fun" and u[2][2] == t]
            if over and r.random() < .6:
                x, u = r.choice(over)
                return self.app((self.node("var", s=x), x), self.many(u[1] + u[2][1], env, d))
            if fs:
                x, u = r.choice(fs)
                args = self.many(u[1], env, d)
                f = (self.node("var", s=x), x)
                if r.random() < .2 and len(args) > 1:      # through a partial application bound first
                    j = r.randrange(1, len(args))
                    y = "part"
                    g = self.app(f, args[:j])
                    p = self.node("pvar", s=y)
                    dec = self.node("val", [p, g[0]])
                    b = self.app((self.node("var", s=y), y), args[j:])
                    # the remaining arguments are evaluated inside the let: names are unaffected
                    return self.node("let", [dec, b[0]]), f"(let val {y} = {g[1]} in {b[1]} end)"
                return self.app(f, args)
        if k < .30:
            rf = [(x, u) for x, u in env.items() if isinstance(u, tuple) and u[0] == "rec!" and u[2] == t]
            if rf:
                x, u = r.choice(rf)
                m = self.prim("-", [(self.node("var", s=u[3]), u[3]), self.int_(1)], f"({u[3]} - 1)")
                return self.app((self.node("var", s=x), x), [m] + self.many(u[1][1:], env, d))
        if k < .36:
            c = self.gen(BOOL, env, d - 1)
            a, b = self.gen(t, env, d - 1), self.gen(t, env, d - 1)
            return self.node("if", [c[0], a[0], b[0]]), f"(if {c[1]} then {a[1]} else {b[1]})"
        if k < .43:
            return self.let(t, env, d)
        if k < .49:
            u = self.typ()
            if isinstance(u, tuple) and u[0] == "fun":
                u = SHAPE
            e = self.gen(u, env, d - 1)
            ks, tx = self.rules(u, t, env, d, r.random() < .85)
            return self.node("case", [e[0]] + ks), f"(case {e[1]} of {tx})"
        if k < .54:
            e = self.gen(t, env, d - 1)
            if r.random() < .4:
                b = self.raise_(env, d)
                e = (self.node("seq", [b[0], e[0]]), f"(ignore {b[1]}; {e[1]})")
                self.P[b[0] - 1]  # the raise is typed unit by ignore
            ks, tx = self.rules(EXN, t, env, d, r.random() < .5)
            return self.node("handle", [e[0]] + ks), f"({e[1]} handle {tx})"
        if k < .56:
            x = self.raise_(env, d)
            return x[0], f"({x[1]} : {ty(t)})"
        if k < .61:
            a = self.effect(env, d)
            e = self.gen(t, env, d - 1)
            return self.node("seq", [a[0], e[0]]), f"({a[1]}; {e[1]})"
        if k < .64:
            rs = [x for x, u in env.items() if u == ("ref", t)]
            e = (lambda x: (self.node("var", s=x), x))(r.choice(rs)) if rs else self.gen(("ref", t), env, d - 1)
            return self.prim("!", [e], f"(!{e[1]})" if e[1][0] == "(" or e[1].isalnum() else f"(! {e[1]})")
        if k < .67:      # selection
            n = r.choice([2, 3])
            i = r.randrange(n)
            if r.random() < .5:
                u = ("tup", tuple(t if j == i else self.typ(0) for j in range(n)))
                e = self.gen(u, env, d - 1)
                return self.node("sel", [e[0]], n=i + 1), f"(#{i + 1} ({e[1]} : {ty(u)}))"
            ls = tuple(sorted(r.sample(LABELS, n)))
            u = ("rec", ls, tuple(t if j == i else self.typ(0) for j in range(n)))
            e = self.gen(u, env, d - 1)
            return self.node("sel", [e[0]], n=i + 1), f"(#{ls[i]} ({e[1]} : {ty(u)}))"
        if k < .70:      # immediate application
            ts = tuple(self.typ(1) for _ in range(r.choice([1, 2])))
            ts = tuple(INT if isinstance(u, tuple) and u[0] == "fun" else u for u in ts)
            f = self.lam(("fun", ts, t), env, d - 1)
            return self.app(f, self.many(ts, env, d))
        return self.intro(t, env, d)

    def raise_(self, env, d):
        e = self.gen(EXN, env, d - 1)
        return self.node("raise", [e[0]]), f"(raise {e[1]})"

    def intro(self, t, env, d):
        r = self.r
        if t == INT:
            k = r.randrange(10)
            if k < 5:
                op = r.choice(["+", "-", "+", "-", "*", "div", "mod"])
                a, b = self.many([INT, INT], env, d)
                if r.random() < .15:
                    tp = self.tup([a, b])
                    return self.app((self.node("primf", s=op), f"op {op}"), [tp])
                e = self.prim(op, [a, b], f"({a[1]} {op} {b[1]})")
                return e if r.random() < .6 else self.prim("mod", [e, self.int_(97)], f"({e[1]} mod 97)")
            if k < 8:
                e = self.gen(INT, env, d - 1)
                return self.prim("log", [e], f"(log {e[1]})")
            if k == 8:
                e = self.gen(STR, env, d - 1)
                return self.prim("size", [e], f"(size {e[1]})")
            e = self.gen(INT, env, d - 1)
            return self.prim("~", [e], f"(~ {e[1]})")
        if t == BOOL:
            k = r.randrange(8)
            if k < 3:
                op = r.choice(["<", "<=", ">", ">="])
                a, b = self.many([INT, INT], env, d)
                return self.prim(op, [a, b], f"({a[1]} {op} {b[1]})")
            if k < 5:
                u = self.typ()
                while not eq_type(u):
                    u = self.typ(1)
                op = r.choice(["=", "<>"])
                a, b = self.many([u, u], env, d)
                if r.random() < .3:
                    return self.let_twice(u, op, env, d)
                return self.prim(op, [a, b], f"({a[1]} {op} ({b[1]} : {ty(u)}))")
            if k < 7:
                a, b = self.many([BOOL, BOOL], env, d)
                o = r.choice(["and", "or"])
                return self.node(o, [a[0], b[0]]), f"({a[1]} {'andalso' if o == 'and' else 'orelse'} {b[1]})"
            e = self.gen(BOOL, env, d - 1)
            return self.prim("not", [e], f"(not {e[1]})")
        if t == STR:
            k = r.randrange(4)
            if k < 2:
                a, b = self.many([STR, STR], env, d)
                return self.prim("^", [a, b], f"({a[1]} ^ {b[1]})")
            if k == 2:
                e = self.gen(INT, env, d - 1)
                return self.prim("Int.toString", [e], f"(Int.toString {e[1]})")
            e = self.gen(EXN, env, d - 1)
            return self.prim("exnName", [e], f"(exnName {e[1]})")
        if t == UNIT:
            return self.effect(env, d, unit=True)
        if t == EXN:
            xs = [(x, u[1]) for x, u in env.items() if isinstance(u, tuple) and u[0] == "exc"] + [("Fail", STR), ("Div", None)]
            x, u = r.choice(xs)
            if u is None:
                return self.node("exc", s=x), x
            e = self.gen(u, env, d - 1)
            if r.random() < .2:
                return self.app((self.node("var", s=x), x), [e])
            return self.node("exc", [e[0]], s=x), f"({x} {e[1]})"
        if isinstance(t, str):
            c, args = r.choice(CONS[t])
            es = self.many(args, env, d)
            if args and r.random() < .15:
                f = (self.node("conf", s=c, n=len(args)), c)
                g = self.name()
                p, dec = self.node("pvar", s=g), None
                dec = self.node("val", [p, f[0]])
                b = self.app((self.node("var", s=g), g), [es[0] if len(args) == 1 else self.tup(es)])
                # the arguments are evaluated where g is visible, so they must not mention it
                if not any(f" {g} " in f" {e[1].replace('(', ' ').replace(')', ' ').replace(',', ' ')} " for e in es):
                    return self.node("let", [dec, b[0]]), f"(let val {g} = {c} in {b[1]} end)"
            return self.con(c, es)
        k = t[0]
        if k == "list":
            if r.random() < .4:
                es = self.many([t[1]] * r.choice([1, 2, 3]), env, d)
                return self.node("list", [e[0] for e in es]), "[" + ", ".join(e[1] for e in es) + "]"
            a, b = self.many([t[1], t], env, d)
            return self.node("con", [a[0], b[0]], s="::"), f"({a[1]} :: {b[1]})"
        if k == "option":
            e = self.gen(t[1], env, d - 1)
            return self.node("con", [e[0]], s="SOME"), f"(SOME {e[1]})"
        if k == "tup":
            return self.tup(self.many(t[1], env, d))
        if k == "rec":
            order = list(range(len(t[1])))
            r.shuffle(order)
            return self.rec(t, [self.gen(t[2][i], env, d - 1) for i in order], order)
        if k == "ref":
            e = self.gen(t[1], env, d - 1)
            return self.prim("ref", [e], f"(ref ({e[1]} : {ty(t[1])}))")
        return self.lam(t, env, d)

    def let_twice(self, u, op, env, d):
        """let val x = e in x op x' where x' shares x."""
        x, y = "tw", "tw2"
        e = self.gen(u, env, d - 1)
        d1 = self.node("val", [self.node("pvar", s=x), e[0]])
        v = lambda: (self.node("var", s=x), x)
        e2 = self.gen(u, {**env, x: u}, 1)
        b = self.prim(op, [v(), e2], f"({x} {op} {e2[1]})")
        return self.node("let", [d1, b[0]]), f"(let val {x} : {ty(u)} = {e[1]} in {b[1]} end)"

    def effect(self, env, d, unit=False):
        """An expression of type unit when unit, else of any type."""
        r = self.r
        rs = [(x, u) for x, u in env.items() if isinstance(u, tuple) and u[0] == "ref"]
        k = r.random()
        if rs and k < .5:
            x, u = r.choice(rs)
            v = (self.node("var", s=x), x)
            e = self.gen(u[1], env, d - 1)
            return self.prim(":=", [v, e], f"({x} := {e[1]})")
        if k < .6 and d > 1:      # a loop over a fresh counter
            x = "ctr"
            n = r.choice([1, 2, 3, 7])
            c = self.prim("<", [self.prim("!", [(self.node("var", s=x), x)], ""), self.int_(n)], "")
            body = self.effect({**env}, d - 1)
            inc = self.prim(":=", [(self.node("var", s=x), x), self.prim("+", [self.prim("!", [(self.node("var", s=x), x)], ""), self.int_(1)], "")], "")
            bod = self.node("seq", [body[0], inc[0]])
            w = self.node("while", [c[0], bod])
            dec = self.node("val", [self.node("pvar", s=x), self.prim("ref", [self.int_(0)], "")[0]])
            return self.node("let", [dec, w]), f"(let val {x} = ref 0 in while !{x} < {n} do ({body[1]}; {x} := !{x} + 1) end)"
        e = self.gen(INT, env, d - 1)
        e = self.prim("log", [e], f"(log {e[1]})")
        return self.prim("ignore", [e], f"(ignore {e[1]})") if unit else e

    def let(self, t, env, d, extra=0):
        r = self.r
        ks, tx = [], []
        env = dict(env)
        for _ in range(r.choice([1, 1, 2, 3]) + extra):
            k = r.random()
            if k < .35:
                u = self.typ()
                x = self.name()
                e = self.gen(u, env, d - 1)
                ks.append(self.node("val", [self.node("pvar", s=x), e[0]]))
                tx.append(f"val {x} : {ty(u)} = {e[1]}")
                env[x] = u
            elif k < .47:
                u = self.typ()
                e = self.gen(u, env, d - 1)
                p = self.pat(u, env, 2, refut=r.random() < .2)
                ks.append(self.node("val", [p[0], e[0]]))
                tx.append(f"val {p[1]} = {e[1]}")
                env.update(p[2])
            elif k < .62:
                x = r.choice("ABCDE")
                xs = [y for y, u in env.items() if isinstance(u, tuple) and u[0] == "exc"]
                if xs and r.random() < .25:
                    y = r.choice(xs)
                    ks.append(self.node("alias", s=x, l=[y]))
                    tx.append(f"exception {x} = {y}")
                    env[x] = env[y]
                else:
                    u = r.choice([None, INT, STR, ("tup", (INT, BOOL)), SHAPE])
                    ks.append(self.node("exn", s=x))
                    tx.append(f"exception {x}" + (f" of {ty(u)}" if u else ""))
                    env[x] = ("exc", u)
            else:
                kk, t1, new = self.fun(env, d)
                ks.append(kk)
                tx.append(t1)
                env.update(new)
                for f in new:      # call it here and now, twice perhaps, and look at the result
                    for _ in range(r.choice([0, 1, 1, 2])):
                        _, args, res = new[f]
                        es = [self.int_(r.choice([1, 2, 3, 4])) if u == FUEL else self.gen(u, env, min(2, d - 1)) for u in args]
                        e = self.app((self.node("var", s=f), f), es)
                        if isinstance(res, tuple) and res[0] == "fun" and r.random() < .8:      # more arguments than the function takes
                            more = self.many(res[1], env, 2)
                            e = self.node("app", self.P[e[0] - 1]["k"] + [a[0] for a in more]), "(" + e[1][1:-1] + "".join(f" ({a[1]})" for a in more) + ")"
                            res = res[2]
                        if not (isinstance(res, tuple) and res[0] == "fun"):
                            e = self.use(res, e, env)
                            e = self.prim("log", [e], f"(log {e[1]})")
                        if r.random() < .4:
                            b = self.leaf(INT if e[1].startswith("(log") else res, env)
                            e = (self.node("handle", [e[0], self.node("pwild"), b[0]]), f"({e[1]} handle _ => {b[1]})")
                        ks.append(self.node("val", [self.node("pwild"), e[0]]))
                        tx.append(f"val _ = {e[1]}")
        e = self.gen(t, env, d - 1)
        return self.node("let", ks + [e[0]]), "(let " + " ".join(tx) + f" in {e[1]} end)"

    def fun(self, env, d):
        """A fun declaration: one or two mutually recursive functions whose first argument is fuel, or plain clauses."""
        r = self.r
        if r.random() < .4 or self.fun_depth > 2:
            f = self.name()
            args = tuple(self.typ(1) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])))
            res = r.choice([INT, INT, BOOL, STR, SHAPE, self.typ(1), ('fun', (INT,), INT), ('fun', (INT, BOOL), INT)])
            env2 = {x: u for x, u in env.items() if x != f}
            ks, tx = [], []
            m = r.choice([1, 1, 2, 3])
            for i in range(m):
                ps, b = [], {}
                for u in args:
                    for _ in range(8):
                        p = self.pat(u, env2, 2, refut=m > 1 and i < m - 1)
                        if not set(p[2]) & (set(b) | {f}):
                            break
                    else:
                        p = (self.node("pwild"), "_", {})
                    ps.append(p)
                    b.update(p[2])
                e = self.gen(res, {**env2, **b}, d - 1)
                ks += [p[0] for p in ps] + [e[0]]
                tx.append(f"{f} " + " ".join(p[1] for p in ps) + (f" : {ty(res)}" if r.random() < .9 else "") + f" = {e[1]}")
            g = self.node("fun", [self.node("lam", ks, n=len(args))], l=[f])
            if m == 1 and r.random() < .2:      # the same as val rec
                pass
            return g, "fun " + " | ".join(tx), {f: ("fun", args, res)}
        self.fun_depth += 1
        n = r.choice([1, 1, 1, 2])
        fs = r.sample(["f", "g", "h", "loop", "go"], n)
        sig = {f: ("fun", (FUEL,) + tuple(self.typ(1) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))), r.choice([INT, INT, BOOL, STR, ('fun', (INT,), INT), ('fun', (INT, INT), INT), ("list", INT), SHAPE])) for f in fs}
        base = {x: u for x, u in env.items() if x not in fs}
        lams, tx = [], []
        for f in fs:
            _, args, res = sig[f]
            z = "n"
            ps, b = [(self.node("pvar", s=z), f"({z} : int)", {z: INT})], {}
            for u in args[1:]:
                for _ in range(8):
                    p = self.pat(u, base, 1, refut=False)
                    if not set(p[2]) & (set(b) | set(fs) | {z}):
                        break
                else:
                    p = (self.node("pwild"), "_", {})
                ps.append(p)
                b.update(p[2])
            e0 = self.gen(res, {**base, **b}, d - 2)
            calls = {g: ("rec!",) + sig[g][1:] + (z,) for g in fs}
            inner = {**base, **b, z: INT, **calls}
            e1 = self.tail(res, inner, d - 1) if r.random() < .6 else self.gen(res, inner, d - 1)
            c = self.prim("<=", [(self.node("var", s=z), z), self.int_(0)], "")
            body = self.node("if", [c[0], e0[0], e1[0]])
            lams.append(self.node("lam", [p[0] for p in ps] + [body], n=len(ps)))
            tx.append(f"{f} " + " ".join(p[1] for p in ps) + f" : {ty(res)} = if {z} <= 0 then {e0[1]} else {e1[1]}")
        self.fun_depth -= 1
        return self.node("fun", lams, l=fs), "fun " + " and ".join(tx), sig

    def tail(self, t, env, d):
        """An expression of type t that ends, on most paths, in a recursive call."""
        r = self.r
        k = r.random()
        if d > 1 and k < .15:
            c, a, b = self.gen(BOOL, env, 2), self.tail(t, env, d - 1), self.tail(t, env, d - 1)
            return self.node("if", [c[0], a[0], b[0]]), f"(if {c[1]} then {a[1]} else {b[1]})"
        if d > 1 and k < .3:
            a, e = self.effect(env, 2), self.tail(t, env, d - 1)
            return self.node("seq", [a[0], e[0]]), f"({a[1]}; {e[1]})"
        if d > 1 and k < .45:
            x, u = self.name(), self.typ(1)
            a = self.gen(u, env, 2)
            if isinstance(env.get(x), tuple) and env[x][0] == "rec!":
                return self.gen(t, env, d)
            e = self.tail(t, {**env, x: u}, d - 1)
            v = self.node("val", [self.node("pvar", s=x), a[0]])
            return self.node("let", [v, e[0]]), f"(let val {x} : {ty(u)} = {a[1]} in {e[1]} end)"
        rf = [(x, u) for x, u in env.items() if isinstance(u, tuple) and u[0] == "rec!" and u[2] == t and env.get(u[3]) == INT]
        if not rf or k > .97:
            return self.gen(t, env, d)
        x, u = r.choice(rf)
        m = self.prim("-", [(self.node("var", s=u[3]), u[3]), self.int_(1)], f"({u[3]} - 1)")
        return self.app((self.node("var", s=x), x), [m] + [self.gen(v, env, min(d - 1, 2)) for v in u[1][1:]])

    def use(self, t, e, env, d=2):
        """An int made from e : t, examining all of it that can be."""
        if t in (INT, FUEL):
            return e
        if t == STR:
            return self.prim("size", [e], f"(size {e[1]})")
        if t == BOOL:
            a, b = self.int_(1), self.int_(0)
            return self.node("if", [e[0], a[0], b[0]]), f"(if {e[1]} then 1 else 0)"
        ks, tx = self.rules(t, INT, env, 2, True)
        return self.node("case", [e[0]] + ks), f"(case {e[1]} of {tx})"


def program(r, size=140, depth=7):
    """(node table, root, text of an expression of type int that has the program's effects)."""
    g = Gen(r, size)
    env = {}
    parts = []
    for _ in range(r.choice([1, 2, 3])):
        t = g.typ(1)
        while isinstance(t, tuple) and t[0] in ("fun",) or t == EXN:
            t = g.typ(1)
        g.left = max(g.left, size // 3)
        e = g.let(t, env, depth, extra=1)
        u = g.use(t, e, env)
        part = g.prim("log", [u], f"(log {u[1]})")
        if r.random() < .7:     # survive the part's exceptions, and show which
            x = g.prim("log", [g.prim("size", [g.prim("exnName", [(g.node("var", s="ex"), "ex")], "")], "")], "")
            part = (g.node("handle", [part[0], g.node("pvar", s="ex"), x[0]]), f"({part[1]} handle ex => log (size (exnName ex)))")
        parts.append(part)
    root = g.node("seq", [p[0] for p in parts]) if len(parts) > 1 else parts[0][0]
    return g.P, root, "(" + "; ".join(p[1] for p in parts) + ")"
