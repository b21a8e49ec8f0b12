----------------------------- MODULE ListsTrace ------------------------------
(* Conformance: recorded histories of the strings, substrings and lists are behaviours of Lists. *)
EXTENDS Lists, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = LStart
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == SStep(Ev, st)
           IN IF Ev.x = r.x /\ r.ok THEN st' = r.st /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson(Ev)>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
