------------------------------ MODULE ValuesMC -------------------------------
(* All small graphs: reading back gives an isomorphic graph that shares nothing with the original; equality is an
   equivalence, a congruence for reading back immutable values, and stable. *)
EXTENDS Values
CONSTANT MaxHeap
VARIABLES st, last
E(op, d, s, a, b, t, f) == [op |-> op, d |-> d, s |-> s, a |-> a, b |-> b, t |-> t, f |-> f, out |-> "", x |-> ""]
R == 0..1
Operand == {-1} \cup {r + 1 : r \in R}
Ops == {E("mk", d, 0, 0, 0, t, <<x, y>>) : d \in R, t \in {"b0", "b250"}, x \in Operand, y \in Operand}
   \cup {E("str", d, 0, 0, 0, "s61", <<>>) : d \in R}
   \cup {E("set", 0, s, 0, y, "", <<>>) : s \in {r \in R : st.reg[r] > 0 /\ st.heap[st.reg[r]].t = "b250"}, y \in Operand}
   \cup {E("fld", d, s, 0, 0, "", <<>>) : d \in R, s \in {r \in R : st.reg[r] > 0 /\ st.heap[st.reg[r]].f # <<>>}}
   \cup {E("out", 0, s, 0, 0, "", <<>>) : s \in R}
   \cup {E("in", d, 0, 0, 0, "", <<>>) : d \in {1}}
Init == st = Start /\ last = <<>>
Next == \E e \in Ops : st' = Step(e, st).st /\ last' = <<e.op, e.s, e.d, st>>
Bounded == Len(st.heap) <= MaxHeap /\ Len(st.str[0]) <= 1
Depth == TLCGet("level") <= 6
Spec == Init /\ [][Next]_<<st, last>>
View == st
Small == Len(st.heap) <= MaxHeap + 3
WellFormed == \A i \in 1..Len(st.heap) : \A j \in 1..Len(st.heap[i].f) : st.heap[i].f[j] <= Len(st.heap)
RECURSIVE Sees(_, _, _)
Sees(h, seen, todo) == IF todo = {} THEN seen
  ELSE Sees(h, seen \cup todo, {h[i].f[j] : i \in todo, j \in 1..2} \ (seen \cup todo \cup {0, -1}))
(* what is read is what was written, even if the original was changed since, and is fresh *)
RoundTrip == [][last'[1] = "in" /\ st.str[0] # <<>> =>
   /\ Canon(st'.heap, st'.reg[last'[3]]) = st.str[0][1]
   /\ \A i \in 1..Len(st.heap) : st'.heap[i] = st.heap[i]
   /\ \A i \in 1..Len(st.heap) : \A j \in 1..Len(st.heap[i].f) : st.heap[i].f[j] <= Len(st.heap)]_<<st, last>>
CanonIdem == \A r \in R : LET c == Canon(st.heap, st.reg[r]) IN Canon(Import(<<>>, c), c.r) = c
EqEquiv == LET V == {-1} \cup 1..Len(st.heap) IN
   /\ \A v \in V : Eq(st.heap, v, v)
   /\ \A v, w \in V : Eq(st.heap, v, w) = Eq(st.heap, w, v)
   /\ \A v, w, u \in V : Eq(st.heap, v, w) /\ Eq(st.heap, w, u) => Eq(st.heap, v, u)
=============================================================================
