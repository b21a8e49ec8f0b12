-------------------------------- MODULE Eval ---------------------------------
(* The dynamic semantics of the core language as an abstract machine. A program is a table P of nodes                   *)
(* [o |-> operator, s |-> name or text, n |-> number, k |-> children, l |-> names].                                     *)
(* Values: <<"i", n>>, <<"s", text>>, <<"c", constructor, args>> (tuples and records: constructor ""), <<"r", address>>,*)
(* <<"e", exception id, name, args>>, <<"xc", exception id, name>>, <<"kc", constructor, arity>>, <<"p", primitive>> and       *)
(* closures <<"f", lambda node, environment, group of functions declared with it, arguments received so far>>.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC
I(n) == <<"i", n>>
S(x) == <<"s", x>>
C(c, a) == <<"c", c, a>>
B(b) == IF b THEN C("true", <<>>) ELSE C("false", <<>>)
Unit == C("", <<>>)
Tup(a) == C("", a)
Exn(id, name) == <<"e", id, name, <<>>>>
MatchX == Exn(-1, "Match")
BindX == Exn(-2, "Bind")
DivX == Exn(-3, "Div")
Limit == 30000
Big == <<"stop", "number too large for the specification">>
NoEnv == [x \in {} |-> 0]
Predef == [Match |-> <<"xc", -1, "Match">>, Bind |-> <<"xc", -2, "Bind">>, Div |-> <<"xc", -3, "Div">>, Fail |-> <<"xc", -4, "Fail">>,
           Empty |-> <<"xc", -5, "Empty">>, Subscript |-> <<"xc", -6, "Subscript">>]
Ext(env, x, v) == (x :> v) @@ env
FDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Show(n) == IF n < 0 THEN "~" \o ToString(-n) ELSE ToString(n)
ListOf(vs) == FoldRight(LAMBDA v, acc : C("::", <<v, acc>>), vs, C("nil", <<>>))

(* ---- machine states: c control, e environment, k continuation, s store, o output, x exception names used ---- *)
Val(m, v) == [m EXCEPT !.c = <<"v", v>>]
Throw(m, v) == [m EXCEPT !.c = <<"x", v>>]
Go(m, id, env) == [m EXCEPT !.c = <<"e", id>>, !.e = env]
Frame(m, kind, id, vals) == [m EXCEPT !.k = <<kind, id, m.e, vals, m.k>>]

RECURSIVE PMatch(_, _, _, _, _)
(* Pattern id of P against v: the environment extended, or <<>> when it does not match. *)
PMatch(P, id, v, env, s) ==
  LET p == P[id]
      all(ps, vs) == FoldLeft(LAMBDA acc, i : IF acc = <<>> THEN acc ELSE PMatch(P, ps[i], vs[i], acc[1], s), <<env>>, [i \in 1..Len(ps) |-> i])
  IN CASE p.o = "pwild" -> <<env>>
       [] p.o = "pvar" -> <<Ext(env, p.s, v)>>
       [] p.o = "pint" -> IF v[2] = p.n THEN <<env>> ELSE <<>>
       [] p.o = "pstr" -> IF v[2] = p.s THEN <<env>> ELSE <<>>
       [] p.o = "pcon" -> IF v[2] = p.s THEN all(p.k, v[3]) ELSE <<>>
       [] p.o = "ptup" -> all(p.k, v[3])
       [] p.o = "psel" -> all(p.k, [i \in 1..Len(p.l) |-> v[3][p.l[i]]])
       [] p.o = "pas" -> PMatch(P, p.k[1], v, Ext(env, p.s, v), s)
       [] p.o = "pref" -> PMatch(P, p.k[1], s[v[2]], env, s)
       [] p.o = "pexc" -> IF env[p.s][2] = v[2] THEN all(p.k, v[4]) ELSE <<>>
(* Rules in node id from child i on, each n patterns and a body, against the values vs. *)
RECURSIVE Rules(_, _, _, _, _, _, _)
Rules(P, ks, i, n, vs, env, s) ==
  IF i > Len(ks) THEN <<>>
  ELSE LET r == FoldLeft(LAMBDA acc, j : IF acc = <<>> THEN acc ELSE PMatch(P, ks[i + j - 1], vs[j], acc[1], s), <<env>>, [j \in 1..n |-> j])
       IN IF r = <<>> THEN Rules(P, ks, i + n + 1, n, vs, env, s) ELSE <<ks[i + n], r[1]>>

(* The functions of a fun declaration node g, in env. *)
Group(P, g, env) == FoldLeft(LAMBDA acc, i : Ext(acc, P[g].l[i], <<"f", P[g].k[i], env, g, <<>>>>), env, [i \in 1..Len(P[g].l) |-> i])

Prim(m, p, v) ==
  LET a == v[3]
      x == a[1][2]
      y == a[2][2]
      num == p \in {"+", "-", "*", "div", "mod"}
  IN IF num /\ (x > Limit \/ y > Limit \/ x < -Limit \/ y < -Limit) THEN [m EXCEPT !.c = Big]
     ELSE CASE p = "+" -> Val(m, I(x + y)) [] p = "-" -> Val(m, I(x - y)) [] p = "*" -> Val(m, I(x * y))
       [] p = "div" -> IF y = 0 THEN Throw(m, DivX) ELSE Val(m, I(FDiv(x, y)))
       [] p = "mod" -> IF y = 0 THEN Throw(m, DivX) ELSE Val(m, I(x - y * FDiv(x, y)))
       [] p = "~" -> Val(m, I(-(v[2])))
       [] p = "<" -> Val(m, B(x < y)) [] p = "<=" -> Val(m, B(x <= y)) [] p = ">" -> Val(m, B(x > y)) [] p = ">=" -> Val(m, B(x >= y))
       [] p = "=" -> Val(m, B(a[1] = a[2])) [] p = "<>" -> Val(m, B(a[1] # a[2]))
       [] p = "^" -> IF Len(x) + Len(y) > 400 THEN [m EXCEPT !.c = Big] ELSE Val(m, S(x \o y))
       [] p = "size" -> Val(m, I(Len(v[2])))
       [] p = "Int.toString" -> Val(m, S(Show(v[2])))
       [] p = "not" -> Val(m, B(v[2] = "false"))
       [] p = "ref" -> [m EXCEPT !.s = Append(@, v), !.c = <<"v", <<"r", Len(m.s) + 1>>>>]
       [] p = "!" -> Val(m, m.s[v[2]])
       [] p = ":=" -> [m EXCEPT !.s[x] = a[2], !.c = <<"v", Unit>>]
       [] p = "log" -> [m EXCEPT !.o = Append(@, Show(v[2])), !.c = <<"v", v>>]
       [] p = "exnName" -> Val(m, S(v[3]))
       [] p = "ignore" -> Val(m, Unit)

(* f applied to the arguments args in turn; m.k is what follows. *)
Apply(P, m, f, args) ==
  LET more(mm, n) == IF Len(args) = n THEN mm ELSE [mm EXCEPT !.k = <<"more", 0, NoEnv, SubSeq(args, n + 1, Len(args)), m.k>>]
  IN CASE f[1] = "f" ->
         LET need == P[f[2]].n - Len(f[5])
         IN IF Len(args) < need THEN Val(m, <<"f", f[2], f[3], f[4], f[5] \o args>>)
            ELSE LET all == f[5] \o SubSeq(args, 1, need)
                     env == IF f[4] = 0 THEN f[3] ELSE Group(P, f[4], f[3])
                     r == Rules(P, P[f[2]].k, 1, P[f[2]].n, all, env, m.s)
                     mm == more(m, need)
                 IN IF r = <<>> THEN Throw(mm, MatchX) ELSE Go(mm, r[1], r[2])
       [] f[1] = "p" -> Prim(more(m, 1), f[2], args[1])
       [] f[1] = "kc" -> Val(more(m, 1), C(f[2], IF f[3] = 1 THEN <<args[1]>> ELSE args[1][3]))
       [] f[1] = "xc" -> Val(more(m, 1), <<"e", f[2], f[3], <<args[1]>>>>)

(* All children of node id have values vs. *)
Combine(P, m, id, vs) ==
  LET p == P[id] IN
  CASE p.o = "con" -> Val(m, C(p.s, vs))
    [] p.o = "tup" -> Val(m, Tup(vs))
    [] p.o = "rec" -> Val(m, Tup([i \in 1..Len(vs) |-> vs[p.l[i]]]))
    [] p.o = "list" -> Val(m, ListOf(vs))
    [] p.o = "sel" -> Val(m, vs[1][3][p.n])
    [] p.o = "prim" -> Prim(m, p.s, IF Len(vs) = 1 THEN vs[1] ELSE Tup(vs))
    [] p.o = "app" -> Apply(P, m, vs[1], Tail(vs))
    [] p.o = "exc" -> Val(m, <<"e", m.e[p.s][2], m.e[p.s][3], vs>>)
    [] p.o = "raise" -> Throw(m, vs[1])
Strict == {"con", "tup", "rec", "list", "sel", "prim", "app", "exc", "raise"}

(* Declarations: child i of the let node id comes next. *)
Dec(P, m, id, i) ==
  LET p == P[id] IN
  IF i = Len(p.k) THEN Go(m, p.k[i], m.e)
  ELSE LET d == P[p.k[i]] IN
    CASE d.o = "val" -> [Frame(m, "val", id, <<i>>) EXCEPT !.c = <<"e", d.k[2]>>]
      [] d.o = "fun" -> [m EXCEPT !.e = Group(P, p.k[i], m.e), !.c = <<"dec", id, i + 1>>]
      [] d.o = "exn" -> [m EXCEPT !.e = Ext(m.e, d.s, <<"xc", m.x, d.s>>), !.x = @ + 1, !.c = <<"dec", id, i + 1>>]
      [] d.o = "alias" -> [m EXCEPT !.e = Ext(m.e, d.s, m.e[d.l[1]]), !.c = <<"dec", id, i + 1>>]

EvalNode(P, m, id) ==
  LET p == P[id] IN
  CASE p.o \in Strict -> IF p.k = <<>> THEN Combine(P, m, id, <<>>) ELSE [Frame(m, "args", id, <<>>) EXCEPT !.c = <<"e", p.k[1]>>]
    [] p.o = "int" -> Val(m, I(p.n))
    [] p.o = "str" -> Val(m, S(p.s))
    [] p.o = "var" -> Val(m, m.e[p.s])
    [] p.o = "primf" -> Val(m, <<"p", p.s>>)
    [] p.o = "conf" -> Val(m, <<"kc", p.s, p.n>>)
    [] p.o = "lam" -> Val(m, <<"f", id, m.e, 0, <<>>>>)
    [] p.o \in {"if", "and", "or", "seq", "case", "while"} -> [Frame(m, p.o, id, <<1>>) EXCEPT !.c = <<"e", p.k[1]>>]
    [] p.o = "handle" -> [Frame(m, "hand", id, <<>>) EXCEPT !.c = <<"e", p.k[1]>>]
    [] p.o = "let" -> Dec(P, m, id, 1)

(* Value v arrives at the innermost frame. *)
Ret(P, m0, v) ==
  LET f == m0.k
      id == f[2]
      p == P[id]
      m == [m0 EXCEPT !.k = f[5], !.e = f[3]]
  IN CASE f[1] = "args" -> LET vs == Append(f[4], v)
                           IN IF Len(vs) = Len(p.k) THEN Combine(P, m, id, vs)
                              ELSE [m EXCEPT !.k = <<"args", id, m.e, vs, m.k>>, !.c = <<"e", p.k[Len(vs) + 1]>>]
       [] f[1] = "if" -> Go(m, IF v[2] = "true" THEN p.k[2] ELSE p.k[3], m.e)
       [] f[1] = "and" -> IF v[2] = "true" THEN Go(m, p.k[2], m.e) ELSE Val(m, v)
       [] f[1] = "or" -> IF v[2] = "true" THEN Val(m, v) ELSE Go(m, p.k[2], m.e)
       [] f[1] = "seq" -> LET i == f[4][1] + 1 IN
                          IF i = Len(p.k) THEN Go(m, p.k[i], m.e) ELSE [Frame(m, "seq", id, <<i>>) EXCEPT !.c = <<"e", p.k[i]>>]
       [] f[1] = "while" -> IF f[4][1] = 2 THEN Go(m, id, m.e)
                            ELSE IF v[2] = "false" THEN Val(m, Unit) ELSE [Frame(m, "while", id, <<2>>) EXCEPT !.c = <<"e", p.k[2]>>]
       [] f[1] = "case" -> LET r == Rules(P, p.k, 2, 1, <<v>>, m.e, m.s) IN IF r = <<>> THEN Throw(m, MatchX) ELSE Go(m, r[1], r[2])
       [] f[1] = "val" -> LET i == f[4][1]
                              r == PMatch(P, P[p.k[i]].k[1], v, m.e, m.s)
                          IN IF r = <<>> THEN Throw(m, BindX) ELSE [m EXCEPT !.e = r[1], !.c = <<"dec", id, i + 1>>]
       [] f[1] = "hand" -> Val(m, v)
       [] f[1] = "more" -> Apply(P, m, v, f[4])
(* Exception v arrives at the innermost frame. *)
Unwind(P, m0, v) ==
  LET f == m0.k
      m == [m0 EXCEPT !.k = f[5], !.e = f[3]]
  IN IF f[1] # "hand" THEN m
     ELSE LET r == Rules(P, P[f[2]].k, 2, 1, <<v>>, m.e, m.s) IN IF r = <<>> THEN m ELSE Go(m, r[1], r[2])

Step(P, m) ==
  CASE m.c[1] = "e" -> EvalNode(P, m, m.c[2])
    [] m.c[1] = "dec" -> Dec(P, m, m.c[2], m.c[3])
    [] m.c[1] = "v" -> IF m.k = <<>> THEN [m EXCEPT !.c = <<"end", "done">>] ELSE Ret(P, m, m.c[2])
    [] m.c[1] = "x" -> IF m.k = <<>> THEN [m EXCEPT !.c = <<"end", m.c[2][3]>>] ELSE Unwind(P, m, m.c[2])
    [] OTHER -> m
Boot(root) == [c |-> <<"e", root>>, e |-> Predef, k |-> <<>>, s |-> <<>>, o |-> <<>>, x |-> 1]
Ended(m) == m.c[1] \in {"end", "stop"}
RunN(P, m, ticks) == FoldLeft(LAMBDA mm, i : IF Ended(mm) THEN mm ELSE Step(P, mm), m, ticks)
=============================================================================
