------------------------------- MODULE Regex -------------------------------
(* POSIX regular expressions over character codes: the set of all ways an expression can match from a position, with *)
(* what each group then denotes; the match is the leftmost one, the longest of those. From it, splitting and         *)
(* replacing are determined.                                                                                          *)
(* x is the context: s the string (from its own beginning to its own end), icase, newline, notbol, noteol.           *)
(* A position i lies before s[i + 1]. Captures: c[n] = <<from, to>>, or Unset.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Unset == <<0 - 1, 0 - 1>>
Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
Upper(ch) == IF ch \in 97..122 THEN ch - 32 ELSE ch
In(iv, ch) == \E k \in DOMAIN iv : iv[k][1] <= ch /\ ch <= iv[k][2]
Among(x, r, ch) == LET hit == In(r.iv, ch) \/ (x.icase /\ (In(r.iv, Lower(ch)) \/ In(r.iv, Upper(ch))))
                   IN IF r.neg THEN ~hit /\ ~(x.newline /\ ch = 10) ELSE hit
Same(x, a, b) == a = b \/ (x.icase /\ Lower(a) = Lower(b))

Max0(n) == IF n < 0 THEN 0 ELSE n
RECURSIVE Ps(_, _, _, _), Rep(_, _, _, _, _, _)
Ps(x, r, i, c) ==
  CASE r.t = "set" -> IF i < Len(x.s) /\ Among(x, r, x.s[i + 1]) THEN {<<i + 1, c>>} ELSE {}
    [] r.t = "any" -> IF i < Len(x.s) /\ ~(x.newline /\ x.s[i + 1] = 10) THEN {<<i + 1, c>>} ELSE {}
    [] r.t = "eps" -> {<<i, c>>}
    [] r.t = "bol" -> IF (i = 0 /\ ~x.notbol) \/ (x.newline /\ i > 0 /\ x.s[i] = 10) THEN {<<i, c>>} ELSE {}
    [] r.t = "eol" -> IF (i = Len(x.s) /\ ~x.noteol) \/ (x.newline /\ i < Len(x.s) /\ x.s[i + 1] = 10) THEN {<<i, c>>} ELSE {}
    [] r.t = "seq" -> UNION {Ps(x, r.b, p[1], p[2]) : p \in Ps(x, r.a, i, c)}
    [] r.t = "alt" -> Ps(x, r.a, i, c) \cup Ps(x, r.b, i, c)
    [] r.t = "group" -> {<<p[1], [p[2] EXCEPT ![r.n] = <<i, p[1]>>]>> : p \in Ps(x, r.a, i, c)}
    [] r.t = "back" -> LET g == c[r.n] IN
                       IF g = Unset \/ i + g[2] - g[1] > Len(x.s) THEN {}
                       ELSE IF \A k \in 1..(g[2] - g[1]) : Same(x, x.s[g[1] + k], x.s[i + k]) THEN {<<i + g[2] - g[1], c>>} ELSE {}
    [] r.t = "rep" -> Rep(x, r.a, r.lo, r.hi, i, c)
(* hi < 0: no upper bound. An iteration that matches the empty string ends an unbounded repetition; it need not be     *)
(* the one that the captures show.                                                                                     *)
Rep(x, a, lo, hi, i, c) ==
  (IF lo = 0 THEN {<<i, c>>} ELSE {})
  \cup (IF hi = 0 THEN {}
        ELSE UNION {IF p[1] > i THEN Rep(x, a, Max0(lo - 1), IF hi < 0 THEN hi ELSE hi - 1, p[1], p[2])
                    ELSE {p, <<i, c>>} \cup (IF lo > 1 \/ hi > 1 THEN Rep(x, a, Max0(lo - 1), IF hi < 0 THEN hi ELSE hi - 1, i, p[2]) ELSE {})
                    : p \in Ps(x, a, i, c)})

NoCaps(g) == [n \in 1..g |-> Unset]
(* [from, to, caps], caps the set of admissible captures; or from = -1 *)
RECURSIVE From(_, _, _, _)
From(x, r, g, i) ==
  IF i > Len(x.s) THEN [from |-> 0 - 1, to |-> 0 - 1, caps |-> {}]
  ELSE LET ps == Ps(x, r, i, NoCaps(g))
       IN IF ps = {} THEN From(x, r, g, i + 1)
          ELSE LET ends == {p[1] : p \in ps}
                   j == CHOOSE e \in ends : \A d \in ends : d <= e
               IN [from |-> i, to |-> j, caps |-> {p[2] : p \in {q \in ps : q[1] = j}}]
Match(x, r, g) == From(x, r, g, 0)

(* ---- what a match vector must be: base + offset, groups that took no part are the empty beginning of the base ---- *)
VecOk(vec, m, g, off) ==
  /\ Len(vec) = g + 1
  /\ vec[1] = <<m.from + off, m.to - m.from>>
  /\ \E c \in m.caps : \A n \in 1..g : vec[n + 1] = IF c[n] = Unset THEN <<0, 0>> ELSE <<c[n][1] + off, c[n][2] - c[n][1]>>

(* ---- the decomposition of s by successive matches of the rest: recorded vectors vs[1], ...; end: "no progress" or "" ---- *)
Ctx(e, s, nb, ne) == [s |-> s, icase |-> e.icase, newline |-> e.newline, notbol |-> nb, noteol |-> ne]
RECURSIVE Split(_, _, _, _, _)
Split(e, off, nb, ne, acc) ==      \* acc: the spans <<from, to>> of the matches so far
  LET rest == SubSeq(e.s, off + 1, Len(e.s))
      m == Match(Ctx(e, rest, nb, ne), e.r, e.g)
  IN IF m.from < 0 THEN [spans |-> acc, ms |-> <<>>, stuck |-> FALSE]
     ELSE LET here == Append(acc, <<off + m.from, off + m.to>>)
          IN IF m.from = 0 /\ m.to = 0 THEN [spans |-> here, ms |-> <<>>, stuck |-> TRUE]
             ELSE Split(e, off + m.to, nb, ne, here)
Piece(s, a, b) == SubSeq(s, a + 1, b)
(* the pieces between the matches, the last one being the rest *)
Between(s, spans) == [k \in 1..(Len(spans) + 1) |->
   Piece(s, IF k = 1 THEN 0 ELSE spans[k - 1][2], IF k = Len(spans) + 1 THEN Len(s) ELSE spans[k][1])]
=============================================================================
