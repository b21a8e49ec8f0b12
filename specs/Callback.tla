------------------------------ MODULE Callback -------------------------------
(* ML values registered for C, calls from C into ML, and C pointers called from ML.                                     *)
(* Control is a stack of frames, innermost last:                                                                        *)
(*   C frames   [k |-> "call", rest |-> slots still to be called in turn, kept |-> what the C code keeps as a root],    *)
(*   ML frames  [k |-> "deep"/"try"], and any frame with h |-> TRUE has a handler in ML just outside it.                *)
(* `need` says what must happen next: any operation, the entry to a function, an arrival in C, a handler being entered. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Fun(f) == [k |-> "fun", f |-> f, v |-> <<>>]
Data(v) == [k |-> "data", f |-> -1, v |-> v]
Empty == [k |-> "none", f |-> -1, v |-> <<>>]
Never == [k |-> "never", f |-> -1, v |-> <<>>]
None == -1                       \* a slot of the C code that holds no value pointer
Op == [k |-> "op", f |-> 0, v |-> <<>>, kept |-> <<>>]
Enter(f, a) == [k |-> "enter", f |-> f, v |-> a, kept |-> <<>>]
Back(v, kept) == [k |-> "back", f |-> 0, v |-> v, kept |-> kept]
\* Exceptions are [e |-> name, v |-> argument].
Caught(x) == [k |-> "caught", f |-> 0, v |-> x, kept |-> <<>>]
Uncaught(x) == [k |-> "top", f |-> 0, v |-> x, kept |-> <<>>]
Failure == [e |-> "Fail", v |-> <<>>]

\* reg: name -> registered value; slot: slot -> name whose value pointer it holds; cp: registered C pointers; lib: loaded libraries.
Start == [reg |-> [n \in 0..7 |-> Never], slot |-> [s \in 0..15 |-> None], stk |-> <<>>, need |-> Op,
          cp |-> [n \in 0..3 |-> -1], lib |-> [i \in 0..3 |-> [open |-> FALSE, syms |-> 0]]]

IsIn(r) == r.k \in {"fun", "data"}
(* An exception leaves every frame up to and including the nearest one with a handler. *)
Raise(st, x) ==
  LET hs == {i \in 1..Len(st.stk) : st.stk[i].h}
      top == IF hs = {} THEN 0 ELSE CHOOSE i \in hs : \A j \in hs : j <= i
  IN [st EXCEPT !.stk = IF top = 0 THEN <<>> ELSE SubSeq(st.stk, 1, top - 1), !.need = IF top = 0 THEN Uncaught(x) ELSE Caught(x)]
(* C calls the function denoted by the value pointer in slot s, as registered now. *)
CallSlot(st, s, args) ==
  LET r == IF st.slot[s] = None THEN Empty ELSE st.reg[st.slot[s]]
  IN IF ~IsIn(r) THEN Raise(st, Failure) ELSE [st EXCEPT !.need = Enter(r.f, args)]
Push(st, fr) == [st EXCEPT !.stk = Append(st.stk, fr)]
Frame(k, h, rest, kept) == [k |-> k, h |-> h, rest |-> rest, kept |-> kept]
Register(st, n, v) == IF IsIn(st.reg[n]) THEN [st |-> st, x |-> "Fail"] ELSE [st |-> [st EXCEPT !.reg[n] = v], x |-> ""]
Unregister(st, n) == IF st.reg[n] = Never THEN [st |-> st, x |-> "Fail"] ELSE [st |-> [st EXCEPT !.reg[n] = Empty], x |-> ""]

R(st, ok) == [st |-> st, ok |-> ok]
CFun(k, a, b) == CASE k = 0 -> <<4711>> [] k = 1 -> a [] k = 2 -> b \o <<-1>> \o a [] k = 3 -> <<7, -1>> \o a \o <<-1>> \o b
                 [] k = 4 -> <<8, -1, 7, -1>> \o b \o <<-1>> \o a [] OTHER -> <<9, -1>> \o a \o <<-1, 8, -1>> \o b \o <<-1, 7>>
(* One logged event; ok: it is allowed in st. *)
Step(e, st) ==
  LET q == st.need IN
  IF q.k # "op" THEN
    R([st EXCEPT !.need = Op],
      /\ e.t = q.k
      /\ CASE q.k = "enter" -> e.f = q.f /\ e.v = q.v
           [] q.k = "back" -> e.v = q.v /\ e.kept = q.kept
           [] q.k \in {"caught", "top"} -> e.x = q.v)
  ELSE
  CASE e.t \in {"reg", "creg"} -> LET r == Register(st, e.n, IF e.n >= 6 THEN Data(e.v) ELSE Fun(e.f)) IN R(r.st, e.x = r.x)
    [] e.t \in {"unreg", "cunreg"} -> LET r == Unregister(st, e.n) IN R(r.st, e.x = r.x)
    [] e.t = "isreg" -> R(st, e.r = IF IsIn(st.reg[e.n]) THEN 1 ELSE 0)
    [] e.t = "ptr" -> R([st EXCEPT !.slot[e.s] = IF IsIn(st.reg[e.n]) THEN e.n ELSE None], e.r = IF IsIn(st.reg[e.n]) THEN 1 ELSE 0)
    [] e.t = "null" -> R([st EXCEPT !.slot[e.s] = None], TRUE)
    [] e.t = "val" -> LET v == IF st.slot[e.s] = None THEN Empty ELSE st.reg[st.slot[e.s]]
                      IN R(st, IF st.slot[e.s] = None THEN e.k = "Fail" ELSE e.k = v.k /\ e.f = v.f /\ e.v = v.v)
    [] e.t = "call" -> R(CallSlot(Push(st, Frame("call", e.h = 1, <<>>, e.kept)), e.s, e.a), TRUE)
    [] e.t = "chain" -> R(CallSlot(Push(st, Frame("call", e.h = 1, <<e.s2>>, e.kept)), e.s, e.a), TRUE)
    [] e.t = "try" -> R(Push(st, Frame("try", TRUE, <<>>, <<>>)), TRUE)
    [] e.t = "deep" -> R(Push(st, Frame("deep", FALSE, <<>>, <<e.n>>)), TRUE)
    [] e.t = "gc" -> R(st, TRUE)
    [] e.t = "nop" -> R(st, st.stk = <<>>)
    [] e.t = "ret" ->
         IF st.stk = <<>> THEN R(st, FALSE)
         ELSE LET fr == Last(st.stk)
                  out == [st EXCEPT !.stk = Front(st.stk)]
              IN R(IF fr.rest # <<>>
                   THEN CallSlot([st EXCEPT !.stk[Len(st.stk)].rest = Tail(fr.rest)], fr.rest[1], <<e.v, <<>>, <<>>>>)
                   ELSE [out EXCEPT !.need = Back(e.v, fr.kept)], TRUE)
    [] e.t = "raise" -> R(Raise(st, [e |-> "E", v |-> e.v]), TRUE)
    [] e.t = "regc" -> IF st.cp[e.n] # -1 THEN R(st, e.x = "Fail") ELSE R([st EXCEPT !.cp[e.n] = e.k], e.x = "")
    [] e.t = "app" -> R(st, IF st.cp[e.n] = -1 THEN e.x = "Fail" ELSE e.x = "" /\ e.v = CFun(e.k, e.a, e.b))
    [] e.t = "open" -> R([st EXCEPT !.lib[e.n] = [open |-> TRUE, syms |-> 1]], e.x = "")
    [] e.t = "close" -> R([st EXCEPT !.lib[e.n].open = FALSE], e.x = "")
    [] e.t = "sym" -> R(st, e.x = IF st.lib[e.n].open THEN "" ELSE "Closed")
    [] e.t = "dlapp" -> R(st, e.x = IF st.lib[e.n].open THEN "" ELSE "Closed")
    [] OTHER -> R(st, FALSE)
=============================================================================
