------------------------------ MODULE CollTrace ------------------------------
(* Conformance: recorded histories of the library's collections are behaviours of Coll. *)
EXTENDS Coll, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == /\ h \in 1..Len(Traces) /\ l = 1
        /\ st = [i \in 0..7 |-> EmptyC(0)]
Matches == IF Raises(Ev, st) # "" THEN Ev.x = Raises(Ev, st)
           ELSE Ev.x = "" /\ Delivers(Ev, st, Ev.out)
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ IF Matches THEN st' = After(Ev, st) /\ l' = l + 1
           ELSE PrintT(<<"REJECT", h, l, ToJson(Ev)>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
