------------------------------ MODULE EvalTrace ------------------------------
(* Conformance: the output and the end of a compiled program are those of the abstract machine. *)
EXTENDS Eval, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ticks == [i \in 1..400 |-> i]
Fuel == 120
T == Traces[h][1]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = Boot(Traces[h][1].root)
Good(m) == /\ IsPrefix(m.o, T.out)
           /\ m.c[1] = "end" => m.o = T.out /\ m.c[2] = T.end
Next == /\ l <= Fuel /\ ~Ended(st) /\ h' = h
        /\ LET m == RunN(T.p, st, Ticks)
           IN IF Good(m) THEN st' = m /\ l' = l + 1 /\ (IF m.c[1] = "end" THEN PrintT(<<"COMPLETE", h>>) ELSE TRUE)
              ELSE PrintT(<<"REJECT", h, 1, ToJson([specout |-> m.o, c |-> IF m.c[1] = "end" THEN m.c[2] ELSE "running"])>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
