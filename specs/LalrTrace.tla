----------------------------- MODULE LalrTrace -----------------------------
(* Conformance: recorded runs of generated parsers are behaviours of Lalr. *)
EXTENDS Lalr, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* the automata, computed once
Ms == TLCEval([i \in 1..Len(Traces) |-> TLCEval(Machine(Traces[i][1].g))])
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Idle
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Step(Ms[h], Ev, st)
           IN IF r.ok THEN st' = r.st /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson([ev |-> Ev, la |-> st.la, depth |-> Len(st.stack), sr |-> Ms[h].tab.sr, rr |-> Ms[h].tab.rr, act |-> IF st.stack # <<>> /\ st.la.t # 0 THEN Act(Ms[h], st, st.la.t) ELSE Error])>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
