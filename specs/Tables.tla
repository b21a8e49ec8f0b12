------------------------------- MODULE Tables --------------------------------
(* Mutable containers of the library: Polyhash tables, Hashset sets, Dynarray arrays, Buffer string buffers and
   Susp suspensions, as a heap of abstract objects reached through slots (slots may alias one object).

   State s = [env |-> slot -> object number (0: none), heap |-> sequence of objects, held |-> slot -> string
   obtained from a buffer earlier, runs |-> number of suspension bodies evaluated so far].
   Objects: [k |-> "map", m |-> finite map]            Polyhash (Hashset: elements mapped to 0)
            [k |-> "dyn", m |-> map, d |-> default]    index -> non-default value
            [k |-> "buf", s |-> sequence of codes]
            [k |-> "susp", b |-> body, f |-> forced, v |-> value, t |-> times evaluated, o |-> other object]  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slots == 0..7
Start == [env |-> [i \in Slots |-> 0], heap |-> <<>>, held |-> [i \in Slots |-> <<>>], runs |-> 0]
B(p) == IF p THEN <<1>> ELSE <<0>>
Upd(m, k, v) == [x \in (DOMAIN m) \cup {k} |-> IF x = k THEN v ELSE m[x]]
Rem(m, S) == [x \in (DOMAIN m) \ S |-> m[x]]
New(st, d, o) == [st EXCEPT !.heap = Append(@, o), !.env[d] = Len(st.heap) + 1]
Set(st, s, o) == [st EXCEPT !.heap[st.env[s]] = o]
Obj(st, s) == st.heap[st.env[s]]
Elts(a, b) == {(a * (i + 1)) % 97 : i \in 0..(b - 1)}
MStr(a, n) == [i \in 1..n |-> (a + (i - 1) * 7) % 256]
Dyn(n, f(_), d) == LET I == {i \in 0..(n - 1) : f(i) # d} IN [k |-> "dyn", m |-> [i \in I |-> f(i)], d |-> d]
DSub(o, i) == IF i \in DOMAIN o.m THEN o.m[i] ELSE o.d
RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + Sum(f, S \ {x})
IsPairs(m, out) == /\ Len(out) = 2 * Cardinality(DOMAIN m)
                   /\ {out[2*i-1] : i \in 1..(Len(out) \div 2)} = DOMAIN m
                   /\ \A i \in 1..(Len(out) \div 2) : out[2*i] = m[out[2*i-1]]
IsElts(m, out) == Len(out) = Cardinality(DOMAIN m) /\ {out[i] : i \in 1..Len(out)} = DOMAIN m
SumSeq(s) == LET RECURSIVE G(_) G(i) == IF i = 0 THEN 0 ELSE s[i] + G(i - 1) IN G(Len(s))

(* Forcing: [x |-> raised?, v |-> value, st |-> state after]. *)
RECURSIVE Force(_, _)
Force(st, n) ==
  LET o == st.heap[n]
      st1 == [st EXCEPT !.runs = @ + 1, !.heap[n].t = @ + 1]
  IN IF o.f THEN [x |-> "", v |-> o.v, st |-> st]
     ELSE IF o.o = 0
          THEN IF o.b = 1 /\ o.t = 0 THEN [x |-> "Overflow", v |-> 0, st |-> st1]
               ELSE [x |-> "", v |-> o.v, st |-> [st1 EXCEPT !.heap[n].f = TRUE]]
          ELSE LET r1 == Force(st1, o.o)
               IN IF r1.x # "" THEN r1
                  ELSE LET r2 == Force(r1.st, o.o)
                           v == r1.v + r2.v + o.v
                       IN [x |-> "", v |-> v, st |-> [r2.st EXCEPT !.heap[n].f = TRUE, !.heap[n].v = v]]

(* Step(e, st): [x |-> exception or "", st |-> new state, ok |-> whether e.out is what the operation delivers].
   A raising operation delivers nothing and (suspensions apart) changes nothing. *)
Ok(st, p) == [x |-> "", st |-> st, ok |-> p]
Raise(st, x) == [x |-> x, st |-> st, ok |-> TRUE]
Step(e, st) ==
  LET nil == e.out = <<>>
      o == Obj(st, e.s)
      o2 == Obj(st, e.a)
      In == e.a \in DOMAIN o.m
  IN
  CASE e.op = "alias" -> Ok([st EXCEPT !.env[e.d] = st.env[e.s]], nil)
    [] e.op \in {"pnew", "hnew"} -> Ok(New(st, e.d, [k |-> "map", m |-> <<>>, h |-> e.a]), nil)
    [] e.op = "hsingle" -> Ok(New(st, e.d, [k |-> "map", m |-> (e.b :> 0), h |-> e.a]), nil)
    [] e.op = "pins" -> Ok(Set(st, e.s, [o EXCEPT !.m = Upd(o.m, e.a, e.b)]), nil)
    [] e.op = "ppeekins" -> IF In THEN Ok(st, e.out = <<o.m[e.a]>>)
                            ELSE Ok(Set(st, e.s, [o EXCEPT !.m = Upd(o.m, e.a, e.b)]), nil)
    [] e.op = "pfind" -> IF In THEN Ok(st, e.out = <<o.m[e.a]>>) ELSE Raise(st, "NoKey")
    [] e.op = "ppeek" -> Ok(st, IF In THEN e.out = <<o.m[e.a]>> ELSE nil)
    [] e.op = "prem" -> IF In THEN Ok(Set(st, e.s, [o EXCEPT !.m = Rem(o.m, {e.a})]), e.out = <<o.m[e.a]>>)
                        ELSE Raise(st, "NoKey")
    [] e.op \in {"pnum", "hnum"} -> Ok(st, e.out = <<Cardinality(DOMAIN o.m)>>)
    [] e.op = "plist" -> Ok(st, IsPairs(o.m, e.out))
    [] e.op = "papp" -> Ok(st, IsPairs(o.m, e.out))
    [] e.op = "pmap" -> Ok(New(st, e.d, [o EXCEPT !.m = [x \in DOMAIN o.m |-> (x * 3 + o.m[x]) % 1000]]), nil)
    [] e.op = "ptransf" -> Ok(New(st, e.d, [o EXCEPT !.m = [x \in DOMAIN o.m |-> (o.m[x] + e.a) % 1000]]), nil)
    [] e.op = "pfilter" -> Ok(Set(st, e.s, [o EXCEPT !.m = Rem(o.m, {x \in DOMAIN o.m : (x + o.m[x]) % e.b = e.a})]), nil)
    [] e.op \in {"pcopy", "hcopy"} -> Ok(New(st, e.d, o), nil)
    [] e.op = "pbuckets" -> Ok(st, SumSeq(e.out) = Cardinality(DOMAIN o.m))
    [] e.op = "hadd" -> Ok(Set(st, e.s, [o EXCEPT !.m = Upd(o.m, e.a, 0)]), nil)
    [] e.op = "haddlist" -> Ok(Set(st, e.s, [o EXCEPT !.m = [x \in (DOMAIN o.m) \cup Elts(e.a, e.b) |-> 0]]), nil)
    [] e.op = "hdel" -> IF In THEN Ok(Set(st, e.s, [o EXCEPT !.m = Rem(o.m, {e.a})]), nil) ELSE Raise(st, "NotFound")
    [] e.op = "hmember" -> Ok(st, e.out = B(In))
    [] e.op = "hretrieve" -> IF In THEN Ok(st, e.out = <<e.a>>) ELSE Raise(st, "NotFound")
    [] e.op = "hpeek" -> Ok(st, IF In THEN e.out = <<e.a>> ELSE nil)
    [] e.op = "hisempty" -> Ok(st, e.out = B(DOMAIN o.m = {}))
    [] e.op = "hsubset" -> Ok(st, e.out = B(DOMAIN o.m \subseteq DOMAIN o2.m))
    [] e.op = "hequal" -> Ok(st, e.out = B(DOMAIN o.m = DOMAIN o2.m))
    [] e.op \in {"hlist", "happ", "hfold"} -> Ok(st, IsElts(o.m, e.out))
    [] e.op = "hall" -> Ok(st, e.out = B(\A x \in DOMAIN o.m : x % e.b # e.a))
    [] e.op = "hexists" -> Ok(st, e.out = B(\E x \in DOMAIN o.m : x % e.b = e.a))
    [] e.op = "hfind" -> LET S == {x \in DOMAIN o.m : x % e.b = e.a}
                         IN Ok(st, IF S = {} THEN nil ELSE Len(e.out) = 1 /\ e.out[1] \in S)
    [] e.op = "hhash" -> Ok(st, Len(e.out) = 1 /\
            (o.h = 0 => e.out[1] = Sum(LAMBDA x : x, DOMAIN o.m)) /\ (o.h = 1 => e.out[1] = 7 * Cardinality(DOMAIN o.m)))
    [] e.op = "darray" -> IF e.a < 0 THEN Raise(st, "Size") ELSE Ok(New(st, e.d, Dyn(0, LAMBDA i : 0, e.b)), nil)
    [] e.op = "dfromlist" -> Ok(New(st, e.d, Dyn(e.a, LAMBDA i : (i * 5 + 1) % 13, e.b)), nil)
    [] e.op = "dtab" -> IF e.a < 0 THEN Raise(st, "Size")
                        ELSE Ok(New(st, e.d, Dyn(e.a, LAMBDA i : (i * 3) % 11, e.b)), e.out = [i \in 1..e.a |-> i - 1])
    [] e.op = "dsubarr" -> IF e.b < e.a THEN Raise(st, "Size")
                           ELSE Ok(New(st, e.d, Dyn(e.b - e.a + 1, LAMBDA i : DSub(o, e.a + i), o.d)), nil)
    [] e.op = "dsub" -> IF e.a < 0 THEN Raise(st, "Subscript") ELSE Ok(st, e.out = <<DSub(o, e.a)>>)
    [] e.op = "dsubs" -> Ok(st, e.out = [i \in 1..e.b |-> DSub(o, e.a + i - 1)])
    [] e.op = "dupd" -> IF e.a < 0 THEN Raise(st, "Subscript")
                        ELSE Ok(Set(st, e.s, [o EXCEPT !.m = IF e.b = o.d THEN Rem(o.m, {e.a}) ELSE Upd(o.m, e.a, e.b)]), nil)
    [] e.op = "ddefault" -> Ok(st, e.out = <<o.d>>)
    [] e.op = "dbound" -> Ok(st, Len(e.out) = 1 /\ \A i \in DOMAIN o.m : i <= e.out[1])
    [] e.op = "bnew" -> IF e.a <= 0 THEN Raise(st, "Size") ELSE Ok(New(st, e.d, [k |-> "buf", s |-> <<>>]), nil)
    [] e.op = "bchar" -> Ok(Set(st, e.s, [o EXCEPT !.s = Append(@, e.a)]), nil)
    [] e.op = "bstr" -> Ok(Set(st, e.s, [o EXCEPT !.s = @ \o MStr(e.a, e.b)]), nil)
    [] e.op = "bsub" -> Ok(Set(st, e.s, [o EXCEPT !.s = @ \o MStr((e.a + 14) % 256, e.b)]), nil)
    [] e.op = "bcont" -> Ok([st EXCEPT !.held[e.d] = o.s], e.out = o.s)
    [] e.op = "bheld" -> Ok(st, e.out = st.held[e.s])
    [] e.op = "bsize" -> Ok(st, e.out = <<Len(o.s)>>)
    [] e.op \in {"bclear", "breset"} -> Ok(Set(st, e.s, [o EXCEPT !.s = <<>>]), nil)
    [] e.op = "sdelay" -> Ok(New(st, e.d, [k |-> "susp", b |-> e.b, f |-> FALSE, v |-> e.a * 2, t |-> 0, o |-> 0]), nil)
    [] e.op = "schain" -> Ok(New(st, e.d, [k |-> "susp", b |-> 0, f |-> FALSE, v |-> e.a, t |-> 0, o |-> st.env[e.s]]), nil)
    [] e.op = "sforce" -> LET r == Force(st, st.env[e.s])
                          IN IF r.x # "" THEN Raise(r.st, r.x) ELSE Ok(r.st, e.out = <<r.v, r.st.runs>>)
    [] e.op = "sruns" -> Ok(st, e.out = <<st.runs>>)
=============================================================================
