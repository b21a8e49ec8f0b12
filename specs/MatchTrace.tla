----------------------------- MODULE MatchTrace ------------------------------
(* Conformance: the first event describes a match and the compiler's warnings about it, the others its behaviour on values. *)
EXTENDS Match, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
M == Traces[h][1]
Ev == Traces[h][l]
Right == IF l = 1 THEN IF M.warn = 0 THEN TRUE ELSE Inexhaustive(M.rules, M.sigs) = (M.inex = 1) /\ (SomeUnused(M.rules, M.sigs) = (M.unused = 1))
         ELSE Answer(M.rules, Ev.v, M.none) = Ev.r
Say == IF l = 1 THEN ToString(<<"inexhaustive", Inexhaustive(M.rules, M.sigs), "unused", SomeUnused(M.rules, M.sigs)>>) ELSE Answer(M.rules, Ev.v, M.none)
Init == h \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ IF Right THEN l' = l + 1 ELSE PrintT(<<"REJECT", h, l, Say>>) /\ l' = 1000000
=============================================================================
