-------------------------------- MODULE Exit --------------------------------
(* How a program ends (structures Process and Unix, and the runtime's handling of uncaught exceptions). A program is a *)
(* block of statements; M is the machine that runs it:                                                                *)
(* k: frames, innermost last: "seq" (what remains of a block), "try", "exit" (a call of Process.exit in progress);    *)
(* tasks: exit actions, the latest first; out, err: what has been written; last: the last status obtained;             *)
(* kids: child processes [kind, text, n, got, taken, eof, gone]; code: "run" or the exit code.                        *)
(* reg, ran: the actions (by number) as they were registered and started.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Seq1(b) == [t |-> "seq", b |-> b]
Begin(prog, env) == [k |-> <<Seq1(prog)>>, tasks |-> <<>>, out |-> "", err |-> "", last |-> 0, kids |-> [i \in 1..8 |-> [kind |-> "none"]], env |-> env,
                     code |-> "run", n |-> 0, msg |-> "", reg |-> <<>>, ran |-> <<>>, ok |-> TRUE]

(* ---- exceptions ---- *)
Show(e) == CASE e.k \in {"name", "int", "other"} -> e.n
             [] e.k \in {"str", "real", "syserr"} -> e.n \o ": " \o e.a
             [] e.k = "io" -> "Io: " \o e.f \o " failed on `" \o e.a \o "'; Fail: " \o e.c
Catches(c, e) == c = "all" \/ c = e.n
End(M, n) == [M EXCEPT !.k = <<>>, !.code = "done", !.n = n]
RECURSIVE Raise(_, _)
Raise(M, e) ==
  IF M.k = <<>> THEN [End(M, 2) EXCEPT !.msg = "Uncaught exception:\n" \o Show(e) \o "\n"]
  ELSE LET f == Last(M.k)
           N == [M EXCEPT !.k = Front(@)]
       IN IF f.t = "try" /\ Catches(f.c, e)
          THEN [N EXCEPT !.out = IF f.show THEN @ \o "<" \o e.n \o "|" \o Show(e) \o ">" ELSE @, !.k = Append(@, Seq1(f.h))]
          ELSE Raise(N, e)

(* ---- children: what child c has written to its standard output when it has read `got` and (eof) the end of it ---- *)
Written(c) == CASE c.kind \in {"cat", "catn"} -> c.got
                [] c.kind = "say" -> c.text
                [] c.kind = "sig" -> ""
                [] c.kind = "nocmd" -> "Could not exec " \o c.text \o "\n"
Ends(c) == c.eof \/ c.gone \/ c.kind \in {"say", "sig", "nocmd"}      \* its output is complete
Status(c) == CASE c.gone \/ c.kind = "sig" -> 0 - 1 [] c.kind = "cat" -> 0 [] c.kind = "nocmd" -> 1 [] OTHER -> c.n
PM(n) == IF n = 0 THEN "+" ELSE "-"
Get(M, v) == IF v \in DOMAIN M.env THEN "<" \o M.env[v] \o ">" ELSE "<none>"

(* ---- one statement s; M has it removed ---- *)
Do(M, s) ==
  LET Kid(i) == M.kids[i]
      Put(x) == [M EXCEPT !.out = @ \o x]
  IN CASE s.s = "print" -> Put(s.a)
       [] s.s = "eprint" -> [M EXCEPT !.err = @ \o s.a]
       [] s.s = "atexit" -> [M EXCEPT !.tasks = <<[b |-> s.b, id |-> Len(M.reg) + 1]>> \o @, !.reg = Append(@, Len(@) + 1)]
       [] s.s = "exit" -> [M EXCEPT !.k = Append(@, [t |-> "exit", n |-> s.n])]
       [] s.s = "exitlast" -> [M EXCEPT !.k = Append(@, [t |-> "exit", n |-> M.last])]
       [] s.s = "term" -> End(M, s.n)
       [] s.s = "raise" -> Raise(M, s.e)
       [] s.s = "try" -> [M EXCEPT !.k = @ \o <<[t |-> "try", c |-> s.c, show |-> s.show, h |-> s.h], Seq1(s.b)>>]
       [] s.s = "deep" -> [M EXCEPT !.k = Append(@, Seq1(s.b))]
       [] s.s = "gc" -> M
       [] s.s = "sys" -> [M EXCEPT !.out = @ \o s.a \o PM(s.n), !.last = s.n]
       [] s.s = "spawn" -> [M EXCEPT !.kids[s.i] = [kind |-> s.kind, text |-> s.a, n |-> s.n, got |-> "", taken |-> 0, eof |-> FALSE, gone |-> FALSE]]
       [] s.s = "send" -> [M EXCEPT !.kids[s.i].got = @ \o s.a]
       [] s.s = "closeout" -> [M EXCEPT !.kids[s.i].eof = TRUE]
       [] s.s = "recv" -> LET c == Kid(s.i) IN [Put(SubSeq(Written(c), c.taken + 1, c.taken + s.n)) EXCEPT !.kids[s.i].taken = @ + s.n, !.ok = @ /\ Len(Written(c)) >= c.taken + s.n]
       [] s.s = "readall" -> LET c == Kid(s.i) IN [Put(SubSeq(Written(c), c.taken + 1, Len(Written(c)))) EXCEPT !.kids[s.i].taken = Len(Written(c)), !.ok = @ /\ Ends(c)]
       [] s.s = "kill" -> [M EXCEPT !.kids[s.i].gone = TRUE]
       [] s.s = "reap" -> LET c == Kid(s.i)      \* it closes the streams
                              n == Status(c)
                          IN IF c.kind = "none" THEN Raise(M, [k |-> "str", n |-> "Fail", a |-> "Unix.reap: No child processes"])
                             ELSE [Put(PM(n)) EXCEPT !.last = n, !.kids[s.i].kind = "none"]
       [] s.s = "getenv" -> Put(Get(M, s.a))
Step(M) ==
  LET f == Last(M.k)
      N == [M EXCEPT !.k = Front(@)]
  IN IF M.k = <<>> THEN End(M, 0)               \* the normal end calls no exit action
     ELSE CASE f.t = "seq" -> IF f.b = <<>> THEN N ELSE Do([N EXCEPT !.k = Append(@, Seq1(Tail(f.b)))], f.b[1])
            [] f.t = "try" -> N
            [] f.t = "exit" -> IF M.tasks = <<>> THEN End(M, f.n)
                               ELSE [M EXCEPT !.tasks = Tail(@), !.k = Append(@, Seq1(M.tasks[1].b)), !.ran = Append(@, M.tasks[1].id)]
RECURSIVE Run(_)
Run(M) == IF M.code # "run" THEN M ELSE Run(Step(M))

(* the diagnostic message may be cut, but not below 199 characters *)
Message(m, x) == IF Len(m) <= 199 THEN x = m ELSE Len(x) >= 199 /\ Len(x) <= Len(m) /\ x = SubSeq(m, 1, Len(x))
Legal(M, o) == /\ M.ok /\ o.code = M.n % 256 /\ o.out = M.out
               /\ Len(o.err) >= Len(M.err) /\ SubSeq(o.err, 1, Len(M.err)) = M.err
               /\ Message(M.msg, SubSeq(o.err, Len(M.err) + 1, Len(o.err)))
=============================================================================
