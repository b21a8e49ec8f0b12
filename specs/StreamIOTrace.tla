----------------------------- MODULE StreamIOTrace -----------------------------
(* Conformance: recorded histories of stream operations are behaviours of StreamIO. *)
EXTENDS StreamIO, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Step(Ev, st)
           IN IF r.ok THEN st' = r.st /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson([op |-> Ev.op, s |-> Ev.s, r |-> Ev.r, n |-> Ev.n, num |-> Ev.num, lo |-> Len(Ev.out), slot |-> st.slots[Max2(1, Ev.s)], fl |-> st.files[Ev.f].fl, size |-> Len(st.files[Ev.f].data)])>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
