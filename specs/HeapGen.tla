------------------------------- MODULE HeapGen -------------------------------
(* Generates histories of Heap (run with -simulate), and (Gen = FALSE) checks Heap itself exhaustively at small size. *)
EXTENDS Heap, Json
CONSTANTS Depth, Weak, Gen
VARIABLES st, hist
R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
Cons == <<"int", "real", "str", "bytes", "z", "ref", "ref", "ref", "arr", "arr", "big", "big", "pair", "pair", "vec", "clo", "pap", "exn">>
Mutn == <<"set", "set", "set", "set", "bset", "blit">>
Acc == <<"get", "get", "get", "copy", "eq", "dump">>
Stk == <<"call", "call", "local", "ret", "raise">>
Gc == <<"minor", "major", "full", "churn", "churn", "churn", "fill", "fill", "deep">>
Wk == <<"warr", "wbig", "wset", "wset", "wset", "wget", "wget", "wget", "wdead", "wpay", "wpay", "wapp", "wfoldl", "wfoldr">>
Classes == IF Weak THEN <<Cons, Mutn, Acc, Gc, Wk, Wk, Wk>> ELSE <<Cons, Cons, Mutn, Mutn, Mutn, Acc, Acc, Stk, Gc>>
Lens == {0, 1, 7, 8, 100, 2039, 2040, 2047, 2048, 5000}
Ev(op) == [op |-> op, r |-> R(Slot), a |-> R(Slot), b |-> R(Slot),
           n |-> IF op \in {"get", "set", "bset", "wset", "wget", "wdead", "wpay"} THEN R(0..3) ELSE R(0..99),
           m |-> IF op = "str" THEN R(Lens) ELSE R(0..99), out |-> <<>>, idx |-> <<>>]
SmallN(op) == IF op = "bset" THEN 1 ELSE 2
(* The expected reply of the deterministic commands; the weak reads are assumed alive while generating. *)
After(e) == IF Step([e EXCEPT !.out = <<"bad">>], st).ok THEN st ELSE Step(e, st).st
Applies(e) == ~Step([e EXCEPT !.out = <<"bad">>], st).ok
Init == st = Start /\ hist = <<>>
(* Three candidates, the first applicable one is used. *)
GenNext == /\ Gen /\ Len(hist) < Depth
           /\ \E x \in {Ev(Pick(Pick(Classes)))} : \E y \in {Ev(Pick(Pick(Classes)))} : \E z \in {Ev(Pick(Pick(Classes)))} :
              LET e == IF Applies(x) THEN x ELSE IF Applies(y) THEN y ELSE z
              IN st' = After(e) /\ hist' = Append(hist, e)
Emit == Gen /\ Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
(* Exhaustive: every command with every operand, few objects. *)
Ops == [op : {"int", "ref", "pair", "set", "get", "copy", "warr", "wset", "full", "call", "ret", "raise"},
        r : Slot, a : Slot, b : Slot, n : 0..1, m : {0}, out : {<<>>}, idx : {<<>>}]
Next == ~Gen /\ Len(st.obj) < Depth /\ \E e \in Ops : st' = After(e) /\ UNCHANGED hist
Spec == Init /\ [][Next \/ GenNext]_<<st, hist>>
Small == Len(st.stk) <= 1
(* Every reference leads to an object; what is live and not weak has live fields; a full collection changes nothing
   that a dump of a slot can see. *)
WellFormed == /\ \A i \in Slot : st.slot[i] \in 1..Len(st.obj)
              /\ \A x \in 1..Len(st.obj) : \A i \in 1..Len(st.obj[x].f) :
                    st.obj[x].f[i] \in (IF st.obj[x].k = "weak" THEN 0..Len(st.obj) ELSE 1..Len(st.obj))
ReapInvisible == LET s2 == Reap(st) IN /\ \A i \in Slot : DumpOf(st, st.slot[i]) = DumpOf(s2, s2.slot[i])
                                       /\ Live(s2) = Live(st)
=============================================================================
