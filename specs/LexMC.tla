------------------------------- MODULE LexMC -------------------------------
(* The matcher of Lex.tla (partial derivatives) against the defining equations of the languages, for all pairs of  *)
(* rules from a small set of expressions and all short inputs: the longest prefix, the earliest rule among equals. *)
EXTENDS Lex
CONSTANTS MaxLen, Second
Ch(c) == [t |-> "chars", neg |-> FALSE, iv |-> <<<<c, c>>>>]
NotA == [t |-> "chars", neg |-> TRUE, iv |-> <<<<1, 1>>>>]
Eof == Ch(0)
Env == <<[t |-> "alt", a |-> Ch(1), b |-> [t |-> "seq", a |-> Ch(2), b |-> Ch(2)]]>>
Name == [t |-> "name", n |-> 1]
RECURSIVE Ends(_)
Ends(r) == CASE r.t = "chars" -> In(r, 0)
             [] r.t \in {"seq", "alt"} -> Ends(r.a) \/ Ends(r.b)
             [] r.t \in {"star", "plus", "maybe"} -> Ends(r.a)
             [] OTHER -> FALSE
Leaf == {Eps, Ch(1), Ch(2), NotA, Eof, Name}
Un(S) == {[t |-> k, a |-> x] : k \in {"star", "plus", "maybe"}, x \in {y \in S : ~Ends(y)}}
Bin(S, T) == {[t |-> k, a |-> x, b |-> y] : k \in {"seq", "alt"}, x \in S, y \in T}
R1 == Leaf \cup Un(Leaf) \cup Bin(Leaf, Leaf)
R2 == R1 \cup Un(R1) \cup Bin(R1, Leaf) \cup Bin(Leaf, R1)

RECURSIVE Member(_, _)
Member(r, w) ==
  CASE r.t = "eps" -> w = <<>>
    [] r.t = "chars" -> Len(w) = 1 /\ In(r, w[1])
    [] r.t = "seq" -> \E k \in 0..Len(w) : Member(r.a, SubSeq(w, 1, k)) /\ Member(r.b, SubSeq(w, k + 1, Len(w)))
    [] r.t = "alt" -> Member(r.a, w) \/ Member(r.b, w)
    [] r.t = "maybe" -> w = <<>> \/ Member(r.a, w)
    [] r.t = "star" -> w = <<>> \/ \E k \in 1..Len(w) : Member(r.a, SubSeq(w, 1, k)) /\ Member(r, SubSeq(w, k + 1, Len(w)))
    [] r.t = "plus" -> \E k \in 0..Len(w) : Member(r.a, SubSeq(w, 1, k)) /\ Member([t |-> "star", a |-> r.a], SubSeq(w, k + 1, Len(w)))
    [] r.t = "name" -> Member(Env[r.n], w)

VARIABLES rules, inp
Init == rules \in {<<x, y>> : x \in R2, y \in IF Second = "leaf" THEN Leaf ELSE R1} /\ inp = <<>>
Next == Len(inp) < MaxLen /\ \E c \in {1, 2} : inp' = Append(inp, c) /\ UNCHANGED rules
Spec == Init /\ [][Next]_<<rules, inp>>
(* an expression of this size takes at most three ends of input *)
Right ==
  LET m == Match(Env, rules, inp, 0)
      ps == {p \in 0..(Len(inp) + 3) : \E i \in 1..2 : Member(rules[i], Slice(inp, 0, p))}
  IN IF ps = {} THEN m.rule = 0
     ELSE LET top == CHOOSE p \in ps : \A q \in ps : q <= p
          IN m.end = top /\ m.rule = (IF Member(rules[1], Slice(inp, 0, top)) THEN 1 ELSE 2)
=============================================================================
