-------------------------------- MODULE Heap ---------------------------------
(* What a program can see of the heap: objects with identity or contents, reached from slots and from the stack.
   Collections ("minor", "major", "full", "churn", "fill", "deep") are stuttering steps of this specification,
   except that weak pointers may become dead.

   State: slot -> object id, obj = sequence of objects [k, p (payload, integers), f (object ids; 0 = dead weak entry)]; a weak
   array also has weak pointers to the contents of its elements, their targets' ids in p,
   stk = frames of the running (nested) evaluation: [v |-> object held in a local variable, hd |-> has a handler].
   Step(e, st) = [st |-> next state, ok |-> whether the reply e.out is right]. A command that does not apply to the
   objects at hand replies <<"bad">> and changes nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K                                            \* number of slots
Slot == 0..(K - 1)
Start == [slot |-> [i \in Slot |-> 1], obj |-> <<[k |-> "int", p |-> <<0>>, f |-> <<>>]>>, stk |-> <<>>]

Mut == {"ref", "arr", "big"}                           \* mutable, with identity
Idn == Mut \cup {"bytes"}
Fielded == Mut \cup {"pair", "vec", "clo", "pap", "exn"}
O(st, s) == st.obj[st.slot[s]]
New(st, s, k, p, f) == [st EXCEPT !.obj = Append(@, [k |-> k, p |-> p, f |-> f]), !.slot[s] = Len(st.obj) + 1]

(* ---- strong reachability (object 1, a constant of the program, always lives) ---- *)
RECURSIVE Close(_, _, _)
Close(st, done, todo) ==
  IF todo = {} THEN done
  ELSE LET d == done \cup todo
           nx == UNION {IF st.obj[x].k = "weak" THEN {} ELSE {st.obj[x].f[i] : i \in 1..Len(st.obj[x].f)} : x \in todo}
       IN Close(st, d, nx \ d)
Live(st) == Close(st, {}, {1} \cup {st.slot[i] : i \in Slot} \cup {st.stk[i].v : i \in 1..Len(st.stk)})

(* ---- the text of a value: preorder, mutable objects numbered at their first visit ---- *)
Fuel == 40
Tok(o) == o.k \o (IF o.k \in {"int", "real", "z"} THEN ToString(o.p[1])
                   ELSE IF o.k = "str" THEN ToString(o.p[1]) \o ":" \o ToString(o.p[2])
                   ELSE IF o.k \in {"arr", "vec"} THEN ToString(Len(o.f)) ELSE "")
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Dump(_, _, _)
(* todo: sequence of object ids still to print; acc = [out, seen] *)
Dump(st, todo, acc) ==
  IF todo = <<>> THEN acc.out
  ELSE IF Len(acc.out) >= Fuel THEN Append(acc.out, "...")
  ELSE LET x == todo[1]
           o == st.obj[x]
           rest == Tail(todo)
       IN IF o.k \in Idn /\ In(acc.seen, x) THEN Dump(st, rest, [acc EXCEPT !.out = Append(@, "@" \o ToString(Index(acc.seen, x)))])
          ELSE IF o.k = "bytes"
               THEN Dump(st, rest, [out |-> Append(acc.out, "bytes" \o ToString(o.p)), seen |-> Append(acc.seen, x)])
          ELSE IF o.k = "weak" THEN Dump(st, rest, [acc EXCEPT !.out = Append(@, "weak")])
          ELSE Dump(st, o.f \o rest, [out |-> Append(acc.out, Tok(o)),
                                      seen |-> IF o.k \in Idn THEN Append(acc.seen, x) ELSE acc.seen])
DumpOf(st, x) == Dump(st, <<x>>, [out |-> <<>>, seen |-> <<>>])

Bad(e, st) == [st |-> st, ok |-> e.out = <<"bad">>]
OK(e, st) == [st |-> st, ok |-> e.out = <<"ok">>]
Reply(e, st, o) == [st |-> st, ok |-> e.out = o]

(* Weak entries that are certainly dead after full collections. *)
Reap(st) == LET L == Live(st) IN
  [st EXCEPT !.obj = [x \in 1..Len(st.obj) |->
      IF st.obj[x].k = "weak"
      THEN [st.obj[x] EXCEPT !.f = [i \in 1..Len(st.obj[x].f) |-> IF st.obj[x].f[i] \in L THEN st.obj[x].f[i] ELSE 0],
                             !.p = [i \in 1..Len(st.obj[x].p) |-> IF st.obj[x].p[i] \in L THEN st.obj[x].p[i] ELSE 0]]
      ELSE st.obj[x]]]
Handlers(st) == {i \in 1..Len(st.stk) : st.stk[i].hd}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Step(e, st) ==
  LET a == O(st, e.a)
      ai == st.slot[e.a]
      b == O(st, e.b)
      bi == st.slot[e.b]
      N(k, p, f) == OK(e, New(st, e.r, k, p, f))
      Put(x) == OK(e, [st EXCEPT !.slot[e.r] = x])
  IN
  CASE e.op \in {"minor", "major", "churn", "fill"} -> OK(e, st)
    [] e.op = "full" -> OK(e, Reap(st))
    [] e.op = "deep" -> Put(ai)
    [] e.op = "int" -> N("int", <<e.n>>, <<>>)
    [] e.op = "real" -> N("real", <<e.n>>, <<>>)
    [] e.op = "z" -> N("z", <<e.n>>, <<>>)
    [] e.op = "str" -> N("str", <<e.n, e.m>>, <<>>)
    [] e.op = "bytes" -> N("bytes", [i \in 1..((e.m % 4) + 1) |-> e.n % 200], <<>>)
    [] e.op = "ref" -> N("ref", <<>>, <<ai>>)
    [] e.op = "arr" -> N("arr", <<>>, [i \in 1..((e.n % 4) + 1) |-> ai])
    [] e.op = "big" -> N("big", <<>>, <<ai, ai, ai>>)
    [] e.op = "pair" -> N("pair", <<>>, <<ai, bi>>)
    [] e.op = "vec" -> N("vec", <<>>, <<ai, bi, ai>>)
    [] e.op = "clo" -> N("clo", <<>>, <<ai, bi>>)
    [] e.op = "pap" -> N("pap", <<>>, <<ai>>)
    [] e.op = "exn" -> N("exn", <<>>, <<ai>>)
    [] e.op = "copy" -> Put(ai)
    [] e.op = "get" -> IF a.k \in Fielded /\ e.n < Len(a.f) THEN Put(a.f[e.n + 1]) ELSE Bad(e, st)
    [] e.op = "set" -> IF a.k \in Mut /\ e.n < Len(a.f)
                       THEN OK(e, [st EXCEPT !.obj[ai].f[e.n + 1] = bi]) ELSE Bad(e, st)
    [] e.op = "bset" -> IF a.k = "bytes" /\ e.n < Len(a.p)
                        THEN OK(e, [st EXCEPT !.obj[ai].p[e.n + 1] = e.m % 200]) ELSE Bad(e, st)
    [] e.op = "blit" -> IF a.k = "arr" /\ b.k = "arr" /\ Len(a.f) <= Len(b.f)
                        THEN OK(e, [st EXCEPT !.obj[bi].f = [i \in 1..Len(b.f) |-> IF i <= Len(a.f) THEN a.f[i] ELSE b.f[i]]])
                        ELSE Bad(e, st)
    [] e.op = "eq" -> IF a.k \in Idn /\ b.k = a.k THEN Reply(e, st, <<IF ai = bi THEN "T" ELSE "F">>) ELSE Bad(e, st)
    [] e.op = "dump" -> Reply(e, st, DumpOf(st, ai))
    \* the stack
    [] e.op = "call" -> OK(e, [st EXCEPT !.stk = Append(@, [v |-> ai, hd |-> (e.n % 2) = 1])])
    [] e.op = "local" -> IF st.stk = <<>> THEN Bad(e, st) ELSE Put(st.stk[Len(st.stk)].v)
    [] e.op = "ret" -> IF st.stk = <<>> THEN Bad(e, st)
                       ELSE OK(e, [st EXCEPT !.slot[e.r] = st.stk[Len(st.stk)].v, !.stk = SubSeq(@, 1, Len(@) - 1)])
    [] e.op = "raise" -> IF Handlers(st) = {} THEN Bad(e, st)
                         ELSE OK(e, [st EXCEPT !.slot[e.r] = ai, !.stk = SubSeq(@, 1, MaxOf(Handlers(st)) - 1)])
    \* weak arrays
    [] e.op = "warr" -> N("weak", [i \in 1..((e.n % 4) + 1) |-> 0], [i \in 1..((e.n % 4) + 1) |-> 0])
    [] e.op = "wbig" -> N("weak", [i \in 1..4 |-> 0], [i \in 1..4 |-> 0])
    [] e.op = "wset" -> IF a.k = "weak" /\ e.n < Len(a.f)
                        THEN OK(e, [st EXCEPT !.obj[ai].f[e.n + 1] = bi, !.obj[ai].p[e.n + 1] = bi]) ELSE Bad(e, st)
    \* the weak pointer to the contents (string, real, big integer, closure, ...) of the element
    [] e.op = "wpay" -> IF ~(a.k = "weak" /\ e.n < Len(a.f)) THEN Bad(e, st)
                        ELSE LET t == a.p[e.n + 1] IN
                             IF e.out = <<"dead">>
                             THEN [st |-> [st EXCEPT !.obj[ai].p[e.n + 1] = 0], ok |-> t = 0 \/ t \notin Live(st)]
                             ELSE [st |-> st, ok |-> t # 0 /\ e.out = <<DumpOf(st, t)[1]>>]
    [] e.op \in {"wget", "wdead"} ->
         IF ~(a.k = "weak" /\ e.n < Len(a.f)) THEN Bad(e, st)
         ELSE LET t == a.f[e.n + 1]
                  dead == [st EXCEPT !.obj[ai].f[e.n + 1] = 0]
              IN IF e.out = <<"dead">> THEN [st |-> dead, ok |-> t = 0 \/ t \notin Live(st)]
                 ELSE IF e.op = "wdead" THEN Reply(e, st, IF t = 0 THEN <<"dead">> ELSE <<"alive">>)
                 ELSE IF t = 0 THEN [st |-> st, ok |-> FALSE]
                 ELSE LET s2 == [st EXCEPT !.slot[e.r] = t] IN Reply(e, s2, DumpOf(st, t))
    [] e.op \in {"wapp", "wfoldl", "wfoldr"} ->
         \* e.idx: the indices visited (in order), e.out: the heads of the elements met
         IF a.k # "weak" THEN Bad(e, st)
         ELSE LET L == Live(st)
                  V == {e.idx[i] : i \in 1..Len(e.idx)}
                  gone == {i \in 1..Len(a.f) : a.f[i] # 0 /\ (i - 1) \notin V}
                  s2 == [st EXCEPT !.obj[ai].f = [i \in 1..Len(a.f) |-> IF i \in gone THEN 0 ELSE a.f[i]]]
              IN [st |-> s2,
                  ok |-> /\ Len(e.out) = Len(e.idx) /\ V \subseteq 0..(Len(a.f) - 1)
                         /\ \A i \in 1..(Len(e.idx) - 1) : IF e.op = "wfoldr" THEN e.idx[i] > e.idx[i + 1] ELSE e.idx[i] < e.idx[i + 1]
                         /\ \A i \in 1..Len(e.idx) : a.f[e.idx[i] + 1] # 0 /\ e.out[i] = DumpOf(st, a.f[e.idx[i] + 1])[1]
                         /\ \A i \in gone : a.f[i] \notin L]
=============================================================================
