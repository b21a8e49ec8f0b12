-------------------------------- MODULE Coll --------------------------------
(* The applicative collections of the library (Binarymap, Splaymap, Redblackmap, Intmap, Binaryset,
   Splayset, Intset, Rbset) as ordered finite maps and sets.

   State: a store of named slots, each holding a map or set value [o |-> ordering, m |-> function].
   A set is a map from its elements to 0. Every operation reads slots and writes at most slot d with a new
   value: earlier values persist.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Lt(o, x, y) == CASE o = 0 -> x < y
                 [] o = 1 -> y < x
                 [] OTHER -> IF x % 7 # y % 7 THEN x % 7 < y % 7 ELSE x < y
Cmp(o, x, y) == IF x = y THEN 1 ELSE IF Lt(o, x, y) THEN 0 ELSE 2   \* LESS EQUAL GREATER = 0 1 2

Dom(c) == DOMAIN c.m
EmptyC(o) == [o |-> o, m |-> <<>>]
SetC(o, S) == [o |-> o, m |-> [x \in S |-> 0]]
Put(c, k, v) == [c EXCEPT !.m = [x \in (DOMAIN c.m) \cup {k} |-> IF x = k THEN v ELSE c.m[x]]]
Del(c, k) == [c EXCEPT !.m = [x \in (DOMAIN c.m) \ {k} |-> c.m[x]]]
Map(c, f(_, _)) == [c EXCEPT !.m = [x \in DOMAIN c.m |-> f(x, c.m[x])]]

(* The ordered listing, as a sequence of keys (insertion into sorted sequences is avoided: SortSeq is strict
   in the given order, so the result is unique). *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
KeySeq(c) == SortSeq(SeqOf(Dom(c)), LAMBDA x, y : Lt(c.o, x, y))

(* out is the listing of map c / of set c, in increasing order. *)
IsKeys(c, out) == /\ Len(out) = Cardinality(Dom(c))
                  /\ \A i \in 1..Len(out) : /\ out[i] \in Dom(c)
                                            /\ i > 1 => Lt(c.o, out[i-1], out[i])
IsPairs(c, out) == /\ Len(out) = 2 * Cardinality(Dom(c))
                   /\ \A i \in 1..(Len(out) \div 2) :
                         /\ out[2*i-1] \in Dom(c) /\ out[2*i] = c.m[out[2*i-1]]
                         /\ i > 1 => Lt(c.o, out[2*i-3], out[2*i-1])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

InIntv(o, a, b, x) == (a < 0 \/ ~Lt(o, x, a)) /\ (b < 0 \/ Lt(o, x, b))

LexCmp(c1, c2) ==
  LET s == KeySeq(c1)  t == KeySeq(c2)
      n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      D == {i \in 1..n : s[i] # t[i]}
  IN IF D = {} THEN (IF Len(s) < Len(t) THEN 0 ELSE IF Len(s) > Len(t) THEN 2 ELSE 1)
     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN Cmp(c1.o, s[i], t[i])

SumSq(S) == LET RECURSIVE Go(_)
                Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN x * x + 1 + Go(T \ {x})
            IN Go(S)

B(p) == IF p THEN <<1>> ELSE <<0>>

IsMapKind(impl) == impl \in {"bm", "sm", "rm", "im"}

(* Operations on e = [impl, op, d, s, a, b]; st is the store of that implementation.
   Raises: the exception the operation must raise (or "").  *)
MonoOk(c, a, o2) == \A x, y \in Dom(c) : Lt(c.o, x, y) => Lt(o2, x * a, y * a)
Raises(e, st) ==
  LET c == st[e.s]
  IN CASE e.op \in {"rem", "remq", "del", "delq", "find", "retrieve"} ->
             IF IsMapKind(e.impl) \/ e.op \in {"del", "delq", "retrieve"}
             THEN (IF e.a \in Dom(c) THEN "" ELSE "NotFound") ELSE ""
       [] e.op = "mapmono" -> IF MonoOk(c, e.a, e.b) THEN "" ELSE "NonMonotonic"
       [] OTHER -> ""

(* The value written to slot d by e, when it writes one. *)
Writes == {"new", "single", "ins", "insq", "rem", "remq", "map", "transf", "add", "addq", "add'", "addlist", "del",
           "delq", "union", "inter", "diff", "subseti", "mapmono"}
Result(e, st) ==
  LET c == st[e.s]
      c2 == st[e.a]
  IN CASE e.op = "new" -> EmptyC(e.a)
       [] e.op = "single" -> SetC(e.b, {e.a})
       [] e.op \in {"ins", "insq"} -> Put(c, e.a, e.b)
       [] e.op \in {"rem", "remq", "del", "delq"} -> Del(c, e.a)
       [] e.op = "map" /\ IsMapKind(e.impl) -> Map(c, LAMBDA k, v : (k * 3 + v) % 1000)
       [] e.op = "transf" -> Map(c, LAMBDA k, v : (v + 1) % 1000)
       [] e.op \in {"add", "addq", "add'"} -> Put(c, e.a, 0)
       [] e.op = "addlist" -> SetC(c.o, Dom(c) \cup {(e.a * (i + 1)) % 97 : i \in 0..(e.b - 1)})
       [] e.op = "union" -> SetC(c.o, Dom(c) \cup Dom(c2))
       [] e.op = "inter" -> SetC(c.o, Dom(c) \cap Dom(c2))
       [] e.op = "diff" -> SetC(c.o, Dom(c) \ Dom(c2))
       [] e.op = "subseti" -> SetC(c.o, {x \in Dom(c) : InIntv(c.o, e.a, e.b, x)})
       [] e.op = "map" -> SetC(e.b, {(x * e.a) % 23 : x \in Dom(c)})
       [] e.op = "mapmono" -> SetC(e.b, {x * e.a : x \in Dom(c)})

(* out is what the operation delivers. *)
Delivers(e, st, out) ==
  LET c == st[e.s]
      c2 == st[e.a]
      mp == IsMapKind(e.impl)
      r == Result(e, st)
  IN CASE e.op \in {"insq", "addq", "delq"} -> out = <<Cardinality(Dom(r))>>
       [] e.op = "rem" -> /\ Len(out) >= 1 /\ out[1] = c.m[e.a] /\ IsPairs(r, Tail(out))
       [] e.op = "remq" -> out = <<c.m[e.a], Cardinality(Dom(r))>>
       [] e.op \in Writes -> IF mp THEN IsPairs(r, out) ELSE IsKeys(r, out)
       [] e.op = "find" /\ mp -> out = <<c.m[e.a]>>
       [] e.op = "peek" -> IF e.a \in Dom(c) THEN out = <<IF mp THEN c.m[e.a] ELSE e.a>> ELSE out = <<>>
       [] e.op = "retrieve" -> out = <<e.a>>
       [] e.op = "member" -> out = B(e.a \in Dom(c))
       [] e.op = "num" -> out = <<Cardinality(Dom(c))>>
       [] e.op = "isempty" -> out = B(Dom(c) = {})
       [] e.op \in {"list", "foldr"} \/ (e.op = "app" /\ ~mp) -> IF mp THEN IsPairs(c, out) ELSE IsKeys(c, out)
            \* app collects v :: k :: rest and reverses, hence k1 v1 k2 v2 ...
       [] e.op = "app" -> IsPairs(c, out)
       [] e.op = "revapp" -> IF mp
             THEN /\ Len(out) % 2 = 0
                  /\ IsPairs(c, [i \in 1..Len(out) |-> IF i % 2 = 1 THEN out[Len(out) - i] ELSE out[Len(out) + 2 - i]])
             ELSE IsKeys(c, Rev(out))
       [] e.op = "foldl" -> IF mp
             THEN /\ Len(out) % 2 = 0
                  /\ IsPairs(c, [i \in 1..Len(out) |-> IF i % 2 = 1 THEN out[Len(out) - i] ELSE out[Len(out) + 2 - i]])
             ELSE IsKeys(c, Rev(out))
       [] e.op = "equal" -> out = B(Dom(c) = Dom(c2))
       [] e.op = "subset" -> out = B(Dom(c) \subseteq Dom(c2))
       [] e.op = "find" -> LET ok == {x \in Dom(c) : x % 5 = e.a % 5}
                           IN IF ok = {} THEN out = <<>>
                              ELSE /\ Len(out) = 1 /\ out[1] \in ok     \* any such item (Rbset: the first)
                                   /\ e.impl = "rs" => \A y \in ok : ~Lt(c.o, y, out[1])
       [] e.op = "min" -> IF Dom(c) = {} THEN out = <<>>
                          ELSE Len(out) = 1 /\ out[1] \in Dom(c) /\ \A y \in Dom(c) : ~Lt(c.o, y, out[1])
       [] e.op = "max" -> IF Dom(c) = {} THEN out = <<>>
                          ELSE Len(out) = 1 /\ out[1] \in Dom(c) /\ \A y \in Dom(c) : ~Lt(c.o, out[1], y)
       [] e.op = "hash" -> out = <<SumSq(Dom(c))>>
       [] e.op = "compare" -> out = <<LexCmp(c, c2)>>
       [] e.op = "sublist" -> IsKeys(SetC(c.o, {x \in Dom(c) : InIntv(c.o, e.a, e.b, x)}), out)
       [] e.op = "order" -> out = <<Cmp(c.o, e.a, e.b)>>

IsWrite(e) == e.op \in Writes

(* One step of the system: the store after e. *)
After(e, st) == IF Raises(e, st) = "" /\ IsWrite(e) THEN [st EXCEPT ![e.d] = Result(e, st)] ELSE st
=============================================================================
