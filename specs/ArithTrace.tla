----------------------------- MODULE ArithTrace ------------------------------
(* Conformance: recorded operations on integers, words and reals are legal; histories over IntInf are behaviours. *)
EXTENDS Arith, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, z
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ z = [i \in 0..5 |-> Zero]
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == IF Ev.t = "Z" THEN ZStep(Ev, z) ELSE [z |-> z, ok |-> Legal(Ev)]
           IN IF r.ok THEN z' = r.z /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson(Ev)>>) /\ l' = 1000000 /\ UNCHANGED z
=============================================================================
