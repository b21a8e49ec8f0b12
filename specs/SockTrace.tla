------------------------------ MODULE SockTrace ------------------------------
(* Conformance: recorded histories of a process with sockets are behaviours of Sock. *)
EXTENDS Sock, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Op(st, Ev)
           IN IF r.ok THEN st' = r.s /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson(st.sk[IF Ev.h > 0 /\ Ev.h <= Len(st.sk) THEN Ev.h ELSE 1])>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
