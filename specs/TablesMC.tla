------------------------------ MODULE TablesMC -------------------------------
(* Exhaustive exploration of Tables at small size: sharing, independence of copies, at-most-once suspensions. *)
EXTENDS Tables
CONSTANT MaxHeap
VARIABLES st, last
E(op, d, s, a, b) == [op |-> op, d |-> d, s |-> s, a |-> a, b |-> b, out |-> <<>>]
S2 == 0..1
Live(k) == {s \in S2 : st.env[s] # 0 /\ Obj(st, s).k = k}
Ops == {E("pnew", d, 0, 0, 0) : d \in S2}
   \cup {E("darray", d, 0, 1, 0) : d \in S2} \cup {E("bnew", d, 0, 1, 0) : d \in S2}
   \cup {E("sdelay", d, 0, 1, b) : d \in S2, b \in 0..1}
   \cup {E(o, d, s, a, 1) : o \in {"pins", "ppeekins", "prem"}, d \in {0}, s \in Live("map"), a \in 0..1}
   \cup {E("pcopy", d, s, 0, 0) : d \in S2, s \in Live("map")}
   \cup {E("dupd", 0, s, a, b) : s \in Live("dyn"), a \in -1..1, b \in 0..1}
   \cup {E("dsubarr", d, s, a, 1) : d \in S2, s \in Live("dyn"), a \in 0..2}
   \cup {E("bchar", 0, s, 1, 0) : s \in Live("buf")} \cup {E("bcont", d, s, 0, 0) : d \in S2, s \in Live("buf")}
   \cup {E("bclear", 0, s, 0, 0) : s \in Live("buf")}
   \cup {E("schain", d, s, 1, 0) : d \in S2, s \in Live("susp")} \cup {E("sforce", 0, s, 0, 0) : s \in Live("susp")}
   \cup {E("alias", d, s, 0, 0) : d \in S2, s \in S2}
Init == st = Start /\ last = E("", 0, 0, 0, 0)
Next == /\ Len(st.heap) <= MaxHeap
        /\ \E e \in Ops : st' = Step(e, st).st /\ last' = e
Spec == Init /\ [][Next]_<<st, last>>
Bounded == Len(st.heap) <= MaxHeap /\ \A n \in 1..Len(st.heap) : st.heap[n].k = "buf" => Len(st.heap[n].s) <= 2
(* Only the object an operation is applied to may change (forcing may force what it depends on). *)
Frame == [][\A n \in 1..Len(st.heap) : st'.heap[n] = st.heap[n]
              \/ (last'.op # "sforce" /\ n = st.env[last'.s]) \/ st.heap[n].k = "susp"]_<<st, last>>
(* A suspension is evaluated successfully at most once, and its value never changes afterwards. *)
Once == \A n \in 1..Len(st.heap) : st.heap[n].k = "susp" => st.heap[n].t <= (IF st.heap[n].f THEN 2 ELSE 8)
Memo == [][\A n \in 1..Len(st.heap) : st.heap[n].k = "susp" /\ st.heap[n].f => st'.heap[n] = st.heap[n]]_<<st, last>>
=============================================================================
