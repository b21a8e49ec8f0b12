----------------------------- MODULE ValuesTrace -----------------------------
(* Conformance: recorded histories of building, writing, reading, comparing and hashing values are behaviours of Values. *)
EXTENDS Values, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Step(Ev, st)
           IN IF r.ok THEN st' = r.st /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson([op |-> Ev.op, s |-> Ev.s, d |-> Ev.d, out |-> Ev.out])>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
