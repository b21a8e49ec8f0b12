------------------------------ MODULE DbmTrace ------------------------------
(* Conformance: recorded histories of one or two processes working on table files are behaviours of Dbm. *)
EXTENDS Dbm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Begin == [files |-> [f \in {"a", "b", "c", "g"} |-> IF f = "g" THEN Alien ELSE Absent], proc |-> [p \in 1..2 |-> Fresh]]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Begin
Good(r) == r.out = Ev.out /\ (r.out = "list" => Lists(st, Ev))
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET r == Step(st, Ev)
           IN IF Good(r) THEN st' = r.s /\ l' = l + 1
              ELSE PrintT(<<"REJECT", h, l, ToJson(r.out)>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
