------------------------------- MODULE ExitMC -------------------------------
(* All small programs: each exit action starts at most once, later registered ones first; when an exit runs to its end *)
(* every registered action has been started; the normal end, terminate and an uncaught exception start none; and an   *)
(* exit does not return. Every output but the last is a prefix of the next.                                           *)
EXTENDS Exit
CONSTANTS Len1
P(x) == [s |-> "print", a |-> x]
E == [k |-> "name", n |-> "E1"]
Base == {P("a"), [s |-> "exit", n |-> 3], [s |-> "term", n |-> 4], [s |-> "raise", e |-> E]}
Blocks == {<<>>} \cup {<<x>> : x \in Base} \cup {<<P("b"), x>> : x \in Base}
Wrap(B) == {[s |-> "atexit", b |-> b] : b \in B} \cup {[s |-> "try", c |-> c, show |-> FALSE, b |-> b, h |-> h] : c \in {"all", "ES"}, b \in B, h \in {<<>>, <<[s |-> "exit", n |-> 5]>>}}
Stmts == Base \cup Wrap(Blocks) \cup {[s |-> "atexit", b |-> <<x>>] : x \in {[s |-> "try", c |-> "all", show |-> FALSE, b |-> b, h |-> <<P("h")>>] : b \in Blocks}}
VARIABLES prog, M
vars == <<prog, M>>
Init == prog \in {<<x>> : x \in Stmts} /\ M = [Begin(<<>>, [v \in {} |-> ""]) EXCEPT !.code = "new"]
(* the program is made longer, then it runs *)
Next == \/ M.code = "new" /\ Len(prog) < Len1 /\ \E x \in Stmts : prog' = Append(prog, x) /\ UNCHANGED M
        \/ M.code = "new" /\ M' = Begin(prog, [v \in {} |-> ""]) /\ UNCHANGED prog
        \/ M.code = "run" /\ M' = Step(M) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars
Once == \A i, j \in DOMAIN M.ran : M.ran[i] = M.ran[j] => i = j
Pending == M.code \in {"run", "done"} => {M.tasks[i].id : i \in DOMAIN M.tasks} \cup ToSet(M.ran) = ToSet(M.reg) /\ Len(M.tasks) + Len(M.ran) = Len(M.reg)
Complete == [][M.code = "run" /\ M'.code = "done" /\ M.k # <<>> /\ Last(M.k).t = "exit" => M.tasks = <<>>]_vars
Only == [][M.ran' # M.ran /\ M.code = "run" => Last(M.k).t = "exit" /\ M'.ran = Append(M.ran, M.tasks[1].id) /\ \A j \in DOMAIN M'.tasks : M'.tasks[j].id < M.tasks[1].id]_vars
NoReturn == [][M.code = "run" /\ M.k # <<>> /\ Last(M.k).t = "exit" => Len(M'.k) > Len(M.k) \/ M'.code = "done"]_vars
Grows == [][M.code = "run" => Len(M'.out) >= Len(M.out) /\ SubSeq(M'.out, 1, Len(M.out)) = M.out]_vars
=============================================================================
