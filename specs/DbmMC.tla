------------------------------- MODULE DbmMC -------------------------------
EXTENDS Dbm
CONSTANTS F, K, V, P, Depth, MaxTabs
VARIABLES s, n, ok
Ev == [op |-> "", p |-> 1, t |-> 1, k |-> "", v |-> "", fm |-> <<>>, inner |-> "", list |-> <<>>]
Init == s = [files |-> [f \in F |-> IF f = "alien" THEN Alien ELSE Absent], proc |-> [p \in P |-> Fresh]] /\ n = 0 /\ ok = TRUE
Do(e) == LET r == Step(s, e) IN s' = r.s /\ n' = n + 1 /\ ok' = FailureKeeps(s, r)
FM == F \X Modes
Next ==
  /\ n < Depth
  /\ \E p \in P :
       \/ Len(s.proc[p].tabs) < MaxTabs /\ \E x \in FM : Do([Ev EXCEPT !.op = "open", !.p = p, !.fm = <<x>>])
       \/ Len(s.proc[p].tabs) + 1 < MaxTabs /\ \E x, y \in FM : Do([Ev EXCEPT !.op = "open", !.p = p, !.fm = <<x, y>>])
       \/ s.proc[p].frames # <<>> /\ \E o \in {"return", "raise"} : Do([Ev EXCEPT !.op = o, !.p = p])
       \/ s.proc[p].frames # <<>> /\ \E t \in DOMAIN s.proc[p].tabs, k \in K, v \in V :
             \E o \in {"add", "insert", "remove"} : Do([Ev EXCEPT !.op = o, !.p = p, !.t = t, !.k = k, !.v = v])
       \/ s.proc[p].frames # <<>> /\ \E t \in DOMAIN s.proc[p].tabs, k \in K, v \in V :
             \E o \in {"add", "find", "remove"} : Do([Ev EXCEPT !.op = "escape", !.inner = o, !.p = p, !.t = t, !.k = k, !.v = v])
       \/ s.proc[p] # Fresh /\ Do([Ev EXCEPT !.op = "die", !.p = p])
Good == ok /\ OneWriter(s) /\ OpenIsFramed(s) /\ OpenFiles(s)
=============================================================================
