---------------------------- MODULE CallbackTrace ----------------------------
(* Conformance: recorded histories of registrations and calls between ML and C are behaviours of Callback. *)
EXTENDS Callback, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Step(Ev, st)
           IN IF r.ok THEN st' = r.st /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson(Ev)>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
