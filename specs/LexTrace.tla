----------------------------- MODULE LexTrace -----------------------------
(* Conformance: recorded runs of generated lexers are behaviours of Lex. *)
EXTENDS Lex, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Step(Ev, st)
           IN IF r.ok THEN st' = r.st /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson([ev |-> Ev, pos |-> st.pos, m |-> IF Ev.op \in {"tok", "fail"} THEN Match(st.env, st.entries[Ev.entry], st.inp, st.pos) ELSE NoMatch])>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
