------------------------------- MODULE EvalMC --------------------------------
(* Every program of a small grammar: the abstract machine never gets stuck, comes to an end, and agrees with a natural  *)
(* ("big-step") semantics given independently on the programs' trees.                                                   *)
EXTENDS Eval, FiniteSets
CONSTANT Deep
(* ---- trees ---- *)
T0 == {<<"int", 1>>, <<"int", 2>>, <<"var", "x">>, <<"get">>, <<"raise", "A">>, <<"raise", "Div">>}
Grow(X, Y) ==
  {<<"add", a, b>> : a \in X, b \in Y} \cup {<<"log", a>> : a \in X} \cup {<<"let", a, b>> : a \in X, b \in Y} \cup {<<"fn", a, b>> : a \in X, b \in Y}
  \cup {<<"curry", a, b>> : a \in X, b \in Y} \cup {<<"set", a, b>> : a \in X, b \in Y} \cup {<<"exn", a>> : a \in X}
  \cup {<<"handle", a, h, b>> : a \in X, h \in {"A", "Div"}, b \in Y} \cup {<<"down", a, b>> : a \in X, b \in Y} \cup {<<"div", a, b>> : a \in X, b \in Y}
  \cup {<<"less", a, b>> : a \in X, b \in Y}
S0 == {<<"int", 2>>, <<"var", "x">>, <<"get">>, <<"raise", "A">>}
T1 == Grow(T0, S0)
Programs == T1 \cup Grow(T1, IF Deep THEN S0 ELSE {<<"var", "x">>, <<"raise", "A">>})
               \cup Grow(IF Deep THEN S0 ELSE {<<"get">>, <<"raise", "A">>}, T1)

(* ---- natural semantics: state [s the reference's contents, o output, x next exception id]; result [v or x, state] ---- *)
IsV(r) == r[1] = "v"
RECURSIVE Ev(_, _, _)
Ev(t, env, s) ==
  LET both(a, b, f(_, _, _)) == LET ra == Ev(a, env, s) IN IF ~IsV(ra) THEN ra ELSE LET rb == Ev(b, env, ra[3]) IN IF ~IsV(rb) THEN rb ELSE f(ra[2], rb[2], rb[3])
  IN CASE t[1] = "int" -> <<"v", t[2], s>>
       [] t[1] = "var" -> <<"v", env.x, s>>
       [] t[1] = "get" -> <<"v", s.s, s>>
       [] t[1] = "raise" -> <<"x", IF t[2] = "A" THEN env.A ELSE -3, s>>
       [] t[1] = "add" -> both(t[2], t[3], LAMBDA a, b, u : <<"v", a + b, u>>)
       [] t[1] = "div" -> both(t[2], t[3], LAMBDA a, b, u : IF b = 0 THEN <<"x", -3, u>> ELSE <<"v", FDiv(a, b), u>>)
       [] t[1] = "less" -> both(t[2], t[3], LAMBDA a, b, u : <<"v", IF a < b THEN 1 ELSE 0, u>>)
       [] t[1] = "log" -> LET r == Ev(t[2], env, s) IN IF IsV(r) THEN <<"v", r[2], [r[3] EXCEPT !.o = Append(@, Show(r[2]))]>> ELSE r
       [] t[1] = "let" -> LET r == Ev(t[2], env, s) IN IF IsV(r) THEN Ev(t[3], [env EXCEPT !.x = r[2]], r[3]) ELSE r
       (* (fn y => let val x = y + 1 in t[3] end) t[2] *)
       [] t[1] = "fn" -> LET r == Ev(t[2], env, s) IN IF IsV(r) THEN Ev(t[3], [env EXCEPT !.x = r[2] + 1], r[3]) ELSE r
       (* (fn y => fn x => x - y) t[2] t[3]: the arguments in order, both before the body *)
       [] t[1] = "curry" -> both(t[2], t[3], LAMBDA a, b, u : <<"v", b - a, u>>)
       [] t[1] = "set" -> LET r == Ev(t[2], env, s) IN IF IsV(r) THEN Ev(t[3], env, [r[3] EXCEPT !.s = r[2]]) ELSE r
       [] t[1] = "exn" -> Ev(t[2], [env EXCEPT !.A = s.x], [s EXCEPT !.x = @ + 1])
       [] t[1] = "handle" -> LET r == Ev(t[2], env, s) IN
                             IF ~IsV(r) /\ r[2] = (IF t[3] = "A" THEN env.A ELSE -3) THEN Ev(t[4], env, r[3]) ELSE r
       (* let fun f n = if n < 1 then t[3] else log (f (n - 1)) in f t[2] end *)
       [] t[1] = "down" -> LET r == Ev(t[2], env, s) IN
                           IF ~IsV(r) THEN r
                           ELSE LET e == Ev(t[3], env, r[3])
                                    n == IF r[2] < 0 THEN 0 ELSE r[2]
                                IN IF IsV(e) THEN <<"v", e[2], [e[3] EXCEPT !.o = @ \o [i \in 1..n |-> Show(e[2])]]>> ELSE e

(* ---- the same program as a node table ---- *)
N(o, s, n, k, l) == [o |-> o, s |-> s, n |-> n, k |-> k, l |-> l]
(* Lin(P, t): the table extended by t; its root is the last node. *)
RECURSIVE Lin(_, _)
Lin(P, t) ==
  LET sub(Q, u) == Lin(Q, u)
      two(a, b, mk(_, _)) == LET Q == sub(P, a) R == sub(Q, b) IN Append(R, mk(Len(Q), Len(R)))
      var(x) == N("var", x, 0, <<>>, <<>>)
      pv(x) == N("pvar", x, 0, <<>>, <<>>)
  IN CASE t[1] = "int" -> Append(P, N("int", "", t[2], <<>>, <<>>))
       [] t[1] = "var" -> Append(P, var("x"))
       [] t[1] = "get" -> LET Q == Append(P, var("r")) IN Append(Q, N("prim", "!", 0, <<Len(Q)>>, <<>>))
       [] t[1] = "raise" -> LET Q == Append(P, N("exc", t[2], 0, <<>>, <<>>)) IN Append(Q, N("raise", "", 0, <<Len(Q)>>, <<>>))
       [] t[1] = "add" -> two(t[2], t[3], LAMBDA a, b : N("prim", "+", 0, <<a, b>>, <<>>))
       [] t[1] = "div" -> two(t[2], t[3], LAMBDA a, b : N("prim", "div", 0, <<a, b>>, <<>>))
       [] t[1] = "less" -> LET Q == two(t[2], t[3], LAMBDA a, b : N("prim", "<", 0, <<a, b>>, <<>>))
                               R == Q \o <<N("int", "", 1, <<>>, <<>>), N("int", "", 0, <<>>, <<>>)>>
                           IN Append(R, N("if", "", 0, <<Len(Q), Len(Q) + 1, Len(Q) + 2>>, <<>>))
       [] t[1] = "log" -> LET Q == sub(P, t[2]) IN Append(Q, N("prim", "log", 0, <<Len(Q)>>, <<>>))
       [] t[1] = "let" -> LET Q == sub(P, t[2])
                              R == Q \o <<pv("x"), N("val", "", 0, <<Len(Q) + 1, Len(Q)>>, <<>>)>>
                              U == sub(R, t[3])
                          IN Append(U, N("let", "", 0, <<Len(R), Len(U)>>, <<>>))
       [] t[1] = "fn" -> LET Q == sub(P, t[2])
                             n == Len(Q)
                             R == Q \o <<var("y"), N("int", "", 1, <<>>, <<>>), N("prim", "+", 0, <<n + 1, n + 2>>, <<>>), pv("x"), N("val", "", 0, <<n + 4, n + 3>>, <<>>), pv("y")>>
                             U == sub(R, t[3])
                             W == U \o <<N("let", "", 0, <<n + 5, Len(U)>>, <<>>), N("lam", "", 1, <<n + 6, Len(U) + 1>>, <<>>)>>
                         IN Append(W, N("app", "", 0, <<Len(W), n>>, <<>>))
       [] t[1] = "curry" -> LET Q == sub(P, t[2])
                                n == Len(Q)
                                R == sub(Q, t[3])
                                m == Len(R)
                                U == R \o <<var("x"), var("y"), N("prim", "-", 0, <<m + 1, m + 2>>, <<>>), pv("x"), pv("y"),
                                            N("lam", "", 1, <<m + 4, m + 3>>, <<>>), N("lam", "", 1, <<m + 5, m + 6>>, <<>>)>>
                            IN Append(U, N("app", "", 0, <<Len(U), n, m>>, <<>>))
       [] t[1] = "set" -> LET Q == sub(P, t[2])
                              n == Len(Q)
                              R == Q \o <<var("r"), N("prim", ":=", 0, <<n + 1, n>>, <<>>)>>
                              U == sub(R, t[3])
                          IN Append(U, N("seq", "", 0, <<Len(R), Len(U)>>, <<>>))
       [] t[1] = "exn" -> LET Q == Append(P, N("exn", "A", 0, <<>>, <<>>))
                              R == sub(Q, t[2])
                          IN Append(R, N("let", "", 0, <<Len(Q), Len(R)>>, <<>>))
       [] t[1] = "handle" -> LET Q == sub(P, t[2])
                                 R == Append(Q, N("pexc", t[3], 0, <<>>, <<>>))
                                 U == sub(R, t[4])
                             IN Append(U, N("handle", "", 0, <<Len(Q), Len(R), Len(U)>>, <<>>))
       [] t[1] = "down" -> LET Q == sub(P, t[2])
                               R == sub(Q, t[3])
                               m == Len(R)
                               U == R \o <<pv("n"), var("n"), N("int", "", 1, <<>>, <<>>), N("prim", "<", 0, <<m + 2, m + 3>>, <<>>),
                                           N("prim", "-", 0, <<m + 2, m + 3>>, <<>>), var("f"), N("app", "", 0, <<m + 6, m + 5>>, <<>>), N("prim", "log", 0, <<m + 7>>, <<>>),
                                           N("if", "", 0, <<m + 4, m, m + 8>>, <<>>), N("lam", "", 1, <<m + 1, m + 9>>, <<>>), N("fun", "", 0, <<m + 10>>, <<"f">>),
                                           N("app", "", 0, <<m + 6, Len(Q)>>, <<>>)>>
                           IN Append(U, N("let", "", 0, <<m + 11, m + 12>>, <<>>))
(* exception A let val r = ref 5 val x = 3 in t end *)
Table(t) ==
  LET P == <<N("exn", "A", 0, <<>>, <<>>), N("int", "", 5, <<>>, <<>>), N("prim", "ref", 0, <<2>>, <<>>), N("pvar", "r", 0, <<>>, <<>>), N("val", "", 0, <<4, 3>>, <<>>),
             N("int", "", 3, <<>>, <<>>), N("pvar", "x", 0, <<>>, <<>>), N("val", "", 0, <<7, 6>>, <<>>)>>
      Q == Lin(P, t)
      R == Append(Q, N("prim", "log", 0, <<Len(Q)>>, <<>>))
  IN Append(R, N("let", "", 0, <<1, 5, 8, Len(R)>>, <<>>))

VARIABLES t, m
Init == t \in Programs /\ m = Boot(Len(Table(t)))
Steps == [i \in 1..400 |-> i]
Next == ~Ended(m) /\ m' = RunN(Table(t), m, Steps) /\ UNCHANGED t
Expected == Ev(t, [x |-> 3, A |-> 1], [s |-> 5, o |-> <<>>, x |-> 2])
Terminates == (m # Boot(Len(Table(t)))) => m.c[1] = "end"
Agrees == Ended(m) => LET r == Expected IN
  IF IsV(r) THEN m.c[2] = "done" /\ m.o = Append(r[3].o, Show(r[2])) ELSE m.c[2] = (IF r[2] = -3 THEN "Div" ELSE "A") /\ m.o = r[3].o
StoreOk == Ended(m) => m.s = <<I(Expected[3].s)>>
=============================================================================
