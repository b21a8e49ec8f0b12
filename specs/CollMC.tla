-------------------------------- MODULE CollMC -------------------------------
(* Exhaustive check of Coll at small size; with Gen = TRUE (run with -simulate) a generator of operation
   histories, which the check replays in the real library. *)
EXTENDS Coll, Json
CONSTANTS MaxKey, NSlots, Depth, SetOps, Gen
Keys == 0..MaxKey
Slots == 0..(NSlots - 1)
VARIABLES st, hist
E(op, d, s, a, b) == [impl |-> IF SetOps THEN "rs" ELSE "bm", op |-> op, d |-> d, s |-> s, a |-> a, b |-> b]
Init == st = [i \in Slots |-> EmptyC(0)] /\ hist = <<>>
MapOps == {E("ins", d, s, k, v) : d \in Slots, s \in Slots, k \in Keys, v \in 1..2}
          \cup {E("rem", d, s, k, 0) : d \in Slots, s \in Slots, k \in Keys}
          \cup {E("transf", d, s, 0, 0) : d \in Slots, s \in Slots}
SOps == {E("add", d, s, k, 0) : d \in Slots, s \in Slots, k \in Keys}
          \cup {E("del", d, s, k, 0) : d \in Slots, s \in Slots, k \in Keys}
          \cup {E(o, d, s, t, 0) : o \in {"union", "inter", "diff"}, d \in Slots, s \in Slots, t \in Slots}
          \cup {E("subseti", d, s, a, b) : d \in Slots, s \in Slots, a \in Keys, b \in Keys}
Ops == IF SetOps THEN SOps ELSE MapOps
Next == /\ ~Gen
        /\ \E e \in Ops : st' = After(e, st) /\ UNCHANGED hist
(* Generation: one random operation per step. *)
R(S) == RandomElement(S)
GenNext == /\ Gen /\ Len(hist) < Depth
           /\ \E e \in {E(R({o.op : o \in Ops}), R(Slots), R(Slots), R(Slots), R(1..2))} :
              LET f == IF e.op \in {"union", "inter", "diff"} THEN e ELSE [e EXCEPT !.a = R(Keys)]
              IN st' = After(f, st) /\ hist' = Append(hist, f)
Spec == Init /\ [][Next \/ GenNext]_<<st, hist>>

Small == \A i \in Slots : \A k \in Dom(st[i]) : st[i].m[k] <= 3
Emit == Gen /\ Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)

(* The model is a map algebra: what was put is found, all else is untouched. *)
OneSlot == [][\E d \in Slots : \A i \in Slots \ {d} : st'[i] = st[i]]_<<st, hist>>
TypeOK == \A i \in Slots : Dom(st[i]) \subseteq Keys
(* The ordered listing exists and is unique. *)
Listing == \A i \in Slots : IsKeys(st[i], KeySeq(st[i]))
                            /\ \A j \in Slots : LexCmp(st[i], st[j]) = 1 <=> Dom(st[i]) = Dom(st[j])
SetLaws == \A i, j \in Slots : LET e == E("union", 0, i, j, 0) IN
      /\ Cardinality(Dom(Result(e, st))) + Cardinality(Dom(Result([e EXCEPT !.op = "inter"], st)))
            = Cardinality(Dom(st[i])) + Cardinality(Dom(st[j]))
      /\ Dom(Result([e EXCEPT !.op = "diff"], st)) = Dom(st[i]) \ Dom(Result([e EXCEPT !.op = "inter"], st))
=============================================================================
