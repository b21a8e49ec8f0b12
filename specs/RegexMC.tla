------------------------------ MODULE RegexMC ------------------------------
(* Regex.tla against the textbook definition: membership in the language by Brzozowski derivatives, for every        *)
(* expression of a small grammar and every string of a small length.                                                 *)
EXTENDS Regex
CONSTANTS Depth, MaxLen
VARIABLES r, s
A == [t |-> "set", iv |-> <<<<97, 97>>>>, neg |-> FALSE]
B == [t |-> "set", iv |-> <<<<98, 98>>>>, neg |-> FALSE]
Eps == [t |-> "eps"]
Nil == [t |-> "nil"]
RECURSIVE Exprs(_), Strs(_)
Exprs(d) == IF d = 0 THEN {A, B, [t |-> "any"]}
            ELSE LET E == Exprs(d - 1) IN
                 E \cup {[t |-> "seq", a |-> x, b |-> y] : x \in E, y \in E} \cup {[t |-> "alt", a |-> x, b |-> y] : x \in E, y \in E}
                   \cup {[t |-> "rep", a |-> x, lo |-> p[1], hi |-> p[2]] : x \in E, p \in {<<0, 0 - 1>>, <<1, 0 - 1>>, <<0, 1>>, <<2, 3>>}}
Strs(n) == IF n = 0 THEN {<<>>} ELSE LET T == Strs(n - 1) IN T \cup {Append(u, ch) : u \in T, ch \in {97, 98}}
RECURSIVE Null(_), D(_, _), InL(_, _)
Null(e) == CASE e.t \in {"set", "any", "nil"} -> FALSE [] e.t = "eps" -> TRUE [] e.t = "seq" -> Null(e.a) /\ Null(e.b)
             [] e.t = "alt" -> Null(e.a) \/ Null(e.b) [] e.t = "rep" -> e.lo = 0 \/ Null(e.a)
D(e, ch) == CASE e.t \in {"eps", "nil"} -> Nil
              [] e.t = "any" -> Eps
              [] e.t = "set" -> IF In(e.iv, ch) THEN Eps ELSE Nil
              [] e.t = "alt" -> [t |-> "alt", a |-> D(e.a, ch), b |-> D(e.b, ch)]
              [] e.t = "seq" -> LET f == [t |-> "seq", a |-> D(e.a, ch), b |-> e.b]
                                IN IF Null(e.a) THEN [t |-> "alt", a |-> f, b |-> D(e.b, ch)] ELSE f
              [] e.t = "rep" -> IF e.hi = 0 THEN Nil
                                ELSE [t |-> "seq", a |-> D(e.a, ch), b |-> [e EXCEPT !.lo = Max0(@ - 1), !.hi = IF @ < 0 THEN @ ELSE @ - 1]]
InL(e, w) == IF w = <<>> THEN Null(e) ELSE InL(D(e, w[1]), Tail(w))
Init == r \in Exprs(Depth) /\ s = <<>>
Next == s = <<>> /\ UNCHANGED r /\ s' \in Strs(MaxLen)
X == [s |-> s, icase |-> FALSE, newline |-> FALSE, notbol |-> FALSE, noteol |-> FALSE]
Spans == {<<i, j>> \in (0..Len(s)) \X (0..Len(s)) : i <= j /\ InL(r, SubSeq(s, i + 1, j))}
Good == LET m == Match(X, r, 0) IN
        IF Spans = {} THEN m.from = 0 - 1
        ELSE /\ <<m.from, m.to>> \in Spans
             /\ \A p \in Spans : m.from < p[1] \/ (m.from = p[1] /\ m.to >= p[2])
=============================================================================
