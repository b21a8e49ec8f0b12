------------------------------- MODULE Match ---------------------------------
(* Pattern matching. Values: <<"c", constructor, <<arg>> or <<>> >>, <<"k", literal>>, <<"t", components>>,                  *)
(* <<"r", contents>>, <<"a", elements>> (vectors), <<"x", exception, <<arg>> or <<>> >>, <<"o", text>> (opaque).               *)
(* Patterns: <<"w">>, <<"v", name>>, <<"as", name, p>> and, with patterns inside, "c", "k", "t", "r", "a", "x".                 *)
(* sigs: for a constructor, the sequence of [c, n (0 or 1 arguments)] of all constructors of its type.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

RECURSIVE PM(_, _, _)
(* Bindings of pattern p on value v added to the function b, or <<>> when it does not match; otherwise <<b'>>. *)
PM(p, v, b) ==
  LET all(ps, vs) == FoldLeft(LAMBDA acc, i : IF acc = <<>> THEN acc ELSE PM(ps[i], vs[i], acc[1]), <<b>>, [i \in 1..Len(ps) |-> i])
  IN CASE p[1] = "w" -> <<b>>
       [] p[1] = "v" -> <<(p[2] :> v) @@ b>>
       [] p[1] = "as" -> PM(p[3], v, (p[2] :> v) @@ b)
       [] p[1] = "k" -> IF v[2] = p[2] THEN <<b>> ELSE <<>>
       [] p[1] \in {"c", "x"} -> IF v[2] = p[2] THEN all(p[3], v[3]) ELSE <<>>
       [] p[1] = "t" -> all(p[2], v[2])
       [] p[1] = "a" -> IF Len(v[2]) = Len(p[2]) THEN all(p[2], v[2]) ELSE <<>>
       [] p[1] = "r" -> PM(p[2], v[2], b)
(* The first of the rules ps (sequences of patterns) that matches the sequence of values, with its bindings; <<>> if none. *)
First(rules, vs) ==
  LET try(i) == FoldLeft(LAMBDA acc, j : IF acc = <<>> THEN acc ELSE PM(rules[i].ps[j], vs[j], acc[1]), <<[x \in {} |-> 0]>>, [j \in 1..Len(vs) |-> j])
  IN FoldLeft(LAMBDA acc, i : IF acc # <<>> THEN acc ELSE LET r == try(i) IN IF r = <<>> THEN <<>> ELSE <<i, r[1]>>, <<>>, [i \in 1..Len(rules) |-> i])

RECURSIVE Show(_)
Join(ss) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN ss[i] ELSE acc \o "," \o ss[i], "", [i \in 1..Len(ss) |-> i])
Many(vs) == Join([i \in 1..Len(vs) |-> Show(vs[i])])
Show(v) ==
  CASE v[1] \in {"k", "o"} -> v[2]
    [] v[1] \in {"c", "x"} -> IF v[3] = <<>> THEN v[2] ELSE v[2] \o " " \o Show(v[3][1])
    [] v[1] = "t" -> "(" \o Many(v[2]) \o ")"
    [] v[1] = "r" -> "ref " \o Show(v[2])
    [] v[1] = "a" -> "#[" \o Many(v[2]) \o "]"
Answer(rules, vs, none) ==
  LET r == First(rules, vs) IN
  IF r = <<>> THEN none ELSE FoldLeft(LAMBDA acc, x : acc \o ";" \o Show(r[2][x]), ToString(r[1] - 1), rules[r[1]].outs)

(* ---- which values are left: rows P (sequences of patterns) and a row q; is there a value that q matches and no row of P does? ---- *)
Wild(n) == [i \in 1..n |-> <<"w">>]
RECURSIVE Strip(_)
Strip(p) == IF p[1] = "as" THEN Strip(p[3]) ELSE IF p[1] = "v" THEN <<"w">> ELSE p
(* the head of a pattern that is not a wildcard: what kind, which, how many arguments *)
Hd(p) == CASE p[1] \in {"c", "x"} -> <<p[1], p[2], Len(p[3])>> [] p[1] = "k" -> <<"k", p[2], 0>> [] p[1] = "t" -> <<"t", "", Len(p[2])>>
           [] p[1] = "r" -> <<"r", "", 1>> [] p[1] = "a" -> <<"a", "", Len(p[2])>>
Args(p) == CASE p[1] \in {"c", "x"} -> p[3] [] p[1] = "k" -> <<>> [] p[1] \in {"t", "a"} -> p[2] [] p[1] = "r" -> <<p[2]>>
(* rows specialised to head h *)
Spec(P, h) == FoldLeft(LAMBDA acc, row : LET p == Strip(row[1]) IN
                         IF p[1] = "w" THEN Append(acc, Wild(h[3]) \o Tail(row)) ELSE IF Hd(p) = h THEN Append(acc, Args(p) \o Tail(row)) ELSE acc, <<>>, P)
Dflt(P) == FoldLeft(LAMBDA acc, row : IF Strip(row[1])[1] = "w" THEN Append(acc, Tail(row)) ELSE acc, <<>>, P)
(* the heads of the first column, and whether they are all there are *)
Heads(P) == {Hd(Strip(P[i][1])) : i \in {j \in 1..Len(P) : Strip(P[j][1])[1] # "w"}}
Chars == {"#" \o ToString(n) : n \in 0..255}
Complete(H, sigs) ==
  IF H = {} THEN FALSE
  ELSE LET h == CHOOSE x \in H : TRUE IN
       CASE h[1] \in {"t", "r"} -> TRUE
         [] h[1] = "c" -> \A i \in 1..Len(sigs[h[2]]) : \E x \in H : x[2] = sigs[h[2]][i].c
         [] h[1] = "k" /\ h[2] \in Chars -> Cardinality(H) = 256
         [] OTHER -> FALSE
RECURSIVE Useful(_, _, _)
Useful(P, q, sigs) ==
  IF q = <<>> THEN P = <<>>
  ELSE LET p == Strip(q[1]) IN
       IF p[1] # "w" THEN Useful(Spec(P, Hd(p)), Args(p) \o Tail(q), sigs)
       ELSE LET H == Heads(P) IN
            IF Complete(H, sigs) THEN \E h \in H : Useful(Spec(P, h), Wild(h[3]) \o Tail(q), sigs)
            ELSE Useful(Dflt(P), Tail(q), sigs)
Rows(rules, n) == [i \in 1..n |-> rules[i].ps]
Inexhaustive(rules, sigs) == Useful(Rows(rules, Len(rules)), Wild(Len(rules[1].ps)), sigs)
SomeUnused(rules, sigs) == \E i \in 2..Len(rules) : ~Useful(Rows(rules, i - 1), rules[i].ps, sigs)
=============================================================================
