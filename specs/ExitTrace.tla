----------------------------- MODULE ExitTrace -----------------------------
(* Conformance: a program's output, messages and exit code are those of the machine in Exit.tla. *)
EXTENDS Exit, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
Ev == Traces[h][l]
Env(e) == [v \in {e.env[i].v : i \in DOMAIN e.env} |-> (CHOOSE i \in DOMAIN e.env : e.env[i].v = v)]
Vars(e) == LET m == Env(e) IN [v \in DOMAIN m |-> e.env[m[v]].x]
Init == h \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET M == Run(Begin(Ev.prog, Vars(Ev)))
           IN IF Legal(M, Ev.o) THEN l' = l + 1 ELSE PrintT(<<"REJECT", h, l, M.n, M.out, M.err \o M.msg>>) /\ l' = 1000000
Spec == Init /\ [][Next]_<<h, l>>
=============================================================================
