-------------------------------- MODULE Memo ---------------------------------
(* The outcome of a computation is a function of the computation alone: whatever the collector's parameters and state
   are when it runs. Each history starts with an undisturbed run; events [op |-> computation, out |-> outcome]. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, memo
Ev == Traces[h][l]
Init == h \in 1..Len(Traces) /\ l = 1 /\ memo = <<>>
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ IF Ev.op \notin DOMAIN memo THEN memo' = (Ev.op :> Ev.out) @@ memo /\ l' = l + 1
           ELSE IF memo[Ev.op] = Ev.out THEN l' = l + 1 /\ UNCHANGED memo
           ELSE PrintT(<<"REJECT", h, l, ToJson(Ev)>>) /\ l' = 1000000 /\ UNCHANGED memo
=============================================================================
