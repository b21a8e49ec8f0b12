------------------------------- MODULE ListsMC -------------------------------
(* Lists at small size: substrings always lie inside their base string, an operation that raises changes nothing, and
   laws that connect the operations hold for all short sequences.                                                    *)
EXTENDS Lists
CONSTANTS N, Depth
VARIABLES st, x, d
vars == <<st, x, d>>
E(k, op, p) == [k |-> k, op |-> op, p |-> p, out |-> <<>>]
I == -1..N
Small == [z |-> [i \in 0..5 |-> IF i = 1 THEN <<97, 98, 97>> ELSE IF i = 2 THEN <<97>> ELSE <<>>],
          u |-> [i \in 0..5 |-> [b |-> IF i = 1 THEN <<97, 98, 97>> ELSE <<>>, i |-> 0, n |-> IF i = 1 THEN 3 ELSE 0]],
          l |-> [i \in 0..5 |-> IF i = 1 THEN <<17, 1>> ELSE <<>>]]
Ops == {E(k, o, <<s, t, i, n>>) : k \in {"Z", "U"}, o \in {"extract"}, s \in 1..2, t \in 1..2, i \in I, n \in {NONE, 0, 1, 2}}
  \cup {E("U", "slice", <<s, t, i, n>>) : s \in 1..2, t \in 1..2, i \in I, n \in {NONE, 0, 1, 2}}
  \cup {E("U", o, <<s, t, i>>) : o \in {"triml", "trimr"}, s \in 1..2, t \in 1..2, i \in I}
  \cup {E("U", "splitAt", <<s, 1, 2, i>>) : s \in 1..2, i \in I} \cup {E("U", "position", <<s, 1, 2, t>>) : s \in 1..2, t \in 1..2}
  \cup {E("U", "splitr", <<s, 1, 2, 0, 2>>) : s \in 1..2} \cup {E("U", "span", <<s, t, 2>>) : s \in 1..2, t \in 1..2}
  \cup {E("U", o, <<s, t>>) : o \in {"full", "string", "base", "getc"}, s \in 1..2, t \in 1..2}
  \cup {E("L", "take", <<s, t, i>>) : s \in 1..2, t \in 1..2, i \in I} \cup {E("L", "revAppend", <<1, 2, 2>>), E("L", "tl", <<2, 2>>)}
Init == st = Small /\ x = "" /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ \E e \in Ops : LET r == SStep(e, st) IN st' = r.st /\ x' = r.x
Spec == Init /\ [][Next]_vars
View == <<st, d>>
Windows == \A s \in 0..5 : LET w == st.u[s] IN 0 <= w.i /\ 0 <= w.n /\ w.i + w.n <= Len(w.b)
Frame == [][x' # "" => st' = st]_vars

Words(n, S) == UNION {[1..m -> S] : m \in 0..n}
W == Words(4, {97, 98})
D(c) == c = 98
Ap(k, op, p, z) == SStep(E(k, op, p), z)
With(z1, z2) == [Small EXCEPT !.z[1] = z1, !.z[2] = z2, !.u[1] = [b |-> z1, i |-> 0, n |-> Len(z1)]]
Laws ==
  /\ \A s \in W : /\ Join(<<98>>, Fields(s, D)) = s
                  /\ Len(Fields(s, D)) = Count(s, 98) + 1
                  /\ \A j \in 1..Len(Fields(s, D)) : \A q \in Range(Fields(s, D)[j]) : ~D(q)
                  /\ Cat(NonEmpty(Fields(s, D))) = SelectSeq(s, LAMBDA q : ~D(q))
  /\ \A s \in W, t \in Words(2, {97, 98}) :
        LET r == Ap("U", "position", <<1, 2, 3, 2>>, With(s, t)).st
            pre == Str(r.u[2])
            suf == Str(r.u[3])
        IN /\ pre \o suf = s /\ (suf = <<>> \/ Prefix(t, suf)) /\ (t # <<>> => (Infix(t, s) <=> suf # <<>>))
           /\ \A k \in 1..Len(pre) : ~Occurs(t, s, k)
           /\ (* span puts the parts together again *)
              Str(Ap("U", "span", <<2, 3, 4>>, r).st.u[4]) = s
  /\ \A s \in W, t \in W : LET c == Collate(0, s, t) IN
        c = 0 - Collate(0, t, s) /\ (c = 0 <=> s = t) /\ \A u \in Words(2, {97, 98}) : (c < 0 /\ Collate(0, t, u) <= 0 => Collate(0, s, u) < 0)
  /\ \A s \in Words(3, {1, 2, 17}), m \in 0..2 : \E t \in Words(3, {1, 2, 17}) : Sorted(m, t) /\ SameBag(s, t)
ASSUME Laws
=============================================================================
