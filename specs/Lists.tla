------------------------------- MODULE Lists ---------------------------------
(* String, Substring, List, ListPair, Listsort and Arraysort as functions on mathematical sequences (operators and
   functional arguments as in Arrays).

   State: z |-> slot -> string (sequence of character codes), u |-> slot -> substring [b |-> base string, i, n],
          l |-> slot -> list of numbers.
   Events as in Arrays; when an operation raises, out is what its functional arguments had reported until then.   *)
EXTENDS Arrays, SequencesExt

LStart == [z |-> [i \in 0..5 |-> Seqn(i, LAMBDA j : 97 + ((i + j) % 3))],
           u |-> [i \in 0..5 |-> [b |-> Seqn(i, LAMBDA j : 97 + ((i + j) % 3)), i |-> 0, n |-> i]],
           l |-> [i \in 0..5 |-> Seqn(i, LAMBDA j : i * 16 + j)]]
Str(w) == SubSeq(w.b, w.i + 1, w.i + w.n)
Sub(w, i, n) == [w EXCEPT !.i = @ + i, !.n = n]
RaiseL(st, x, p) == [x |-> x, st |-> st, ok |-> p]
Flat(ss) == <<Len(ss)>> \o Cat([j \in 1..Len(ss) |-> <<Len(ss[j])>> \o ss[j]])
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Suffix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Occurs(s, t, k) == k + Len(s) - 1 <= Len(t) /\ SubSeq(t, k, k + Len(s) - 1) = s              (* at position k >= 1 *)
Infix(s, t) == \E k \in 1..(Len(t) + 1) : Occurs(s, t, k)
Join(sep, ss) == Cat([j \in 1..Len(ss) |-> (IF j > 1 THEN sep ELSE <<>>) \o ss[j]])
Trans(m, c) == [j \in 1..(c % m) |-> (c + j) % 256]
(* The pieces of t between delimiters (fields), and the non-empty ones (tokens). *)
Fields(t, D(_)) ==
  LET e == SetToSortSeq({k \in 1..Len(t) : D(t[k])} \cup {Len(t) + 1}, LAMBDA x, y : x < y)
  IN [j \in 1..Len(e) |-> SubSeq(t, IF j = 1 THEN 1 ELSE e[j - 1] + 1, e[j] - 1)]
NonEmpty(ss) == SelectSeq(ss, LAMBDA s : s # <<>>)
(* Length of the longest prefix (suffix) all of whose elements satisfy P. *)
PreLen(t, P(_)) == First(t, LAMBDA q : ~P(t[q])) - 1
SufLen(t, P(_)) == LET r == Rev(t) IN First(r, LAMBDA q : ~P(r[q])) - 1

Sorted(m, s) == \A j \in 1..(Len(s) - 1) : Cmp(m, s[j], s[j + 1]) <= 0
Strict(m, s) == \A j \in 1..(Len(s) - 1) : Cmp(m, s[j], s[j + 1]) < 0
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x)
(* The lists encoded in out by Flat. *)
RECURSIVE Unflat(_)
Unflat(o) == IF o = <<>> THEN <<>> ELSE <<SubSeq(o, 2, o[1] + 1)>> \o Unflat(SubSeq(o, o[1] + 2, Len(o)))
PairUp(a, b) == LET n == Min2(Len(a), Len(b)) IN [j \in 1..(2 * n) |-> IF j % 2 = 1 THEN a[(j + 1) \div 2] ELSE b[j \div 2]]
RevPs(ps) == [j \in 1..Len(ps) |-> IF j % 2 = 1 THEN ps[Len(ps) - j] ELSE ps[Len(ps) - j + 2]]
FoldP(r, ps) == LET RECURSIVE G(_) G(j) == IF j = 0 THEN r ELSE Acc(G(j - 1), ps[2 * j - 1] + 3 * ps[2 * j]) IN G(Len(ps) \div 2)
OrdB(b) == IF b THEN 1 ELSE 0
CutP(ps, j) == SubSeq(ps, 1, Min2(2 * j, Len(ps)))

ZStep(e, st) ==
  LET p == e.p
      s == st.z[p[1]]
      n == Len(s)
      t == st.z[p[2]]
      D(x) == P1(p[2], p[3], x)
      SetZ(d, v) == Ok([st EXCEPT !.z[d] = v], e.out = v)
  IN
  CASE e.op = "dump" -> Ok(st, e.out = s)
    [] e.op = "size" -> Ok(st, e.out = <<n>>)
    [] e.op = "sub" -> IF Fits(p[2], 1, n) THEN Ok(st, e.out = <<s[p[2] + 1]>>) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op \in {"extract", "substring"} ->
         IF InWin(p[3], p[4], n) THEN SetZ(p[2], SubSeq(s, p[3] + 1, p[3] + Size(p[3], p[4], n))) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op \in {"concat", "implode"} ->
         SetZ(p[1], IF e.op = "implode" THEN SubSeq(p, 2, Len(p)) ELSE Cat([j \in 1..(Len(p) - 1) |-> st.z[p[j + 1]]]))
    [] e.op = "concatWith" -> SetZ(p[1], Join(t, [j \in 1..(Len(p) - 2) |-> st.z[p[j + 2]]]))
    [] e.op = "cat" -> SetZ(p[3], s \o t)
    [] e.op = "str" -> SetZ(p[1], <<p[2]>>)
    (* large strings, delivered as their size only *)
    [] e.op = "rep" -> Ok([st EXCEPT !.z[p[1]] = [j \in 1..p[2] |-> p[3]]], e.out = <<p[2]>>)
    [] e.op = "catq" -> Ok([st EXCEPT !.z[p[3]] = s \o t], e.out = <<n + Len(t)>>)
    [] e.op = "explode" -> Ok([st EXCEPT !.l[p[2]] = s], e.out = s)
    [] e.op = "map" -> LET v == [j \in 1..n |-> F1(p[3], s[j])] IN Ok([st EXCEPT !.z[p[2]] = v], e.out = s \o <<-1>> \o v)
    [] e.op = "translate" -> LET v == Cat([j \in 1..n |-> Trans(p[3], s[j])]) IN Ok([st EXCEPT !.z[p[2]] = v], e.out = s \o <<-1>> \o v)
    [] e.op = "tokens" -> Ok(st, e.out = Flat(NonEmpty(Fields(s, D))))
    [] e.op = "fields" -> Ok(st, e.out = Flat(Fields(s, D)))
    [] e.op = "compare" -> Ok(st, e.out = LET c == Collate(0, s, t) IN <<c, OrdB(c < 0), OrdB(c <= 0), OrdB(c > 0), OrdB(c >= 0), OrdB(c = 0)>>)
    [] e.op = "collate" -> Ok(st, e.out = <<Collate(p[3], s, t)>>)
    [] e.op = "fixes" -> Ok(st, e.out = <<OrdB(Prefix(s, t)), OrdB(Suffix(s, t)), OrdB(Infix(s, t))>>)

UStep(e, st) ==
  LET p == e.p
      w == st.u[p[1]]
      s == Str(w)
      n == w.n
      Q(x) == P1(p[4], p[5], x)            (* op s d d' a b *)
      U1(d, v) == Ok([st EXCEPT !.u[d] = v], e.out = <<v.i, v.n>>)
      U2(v1, v2) == Ok([st EXCEPT !.u = [@ EXCEPT ![p[2]] = v1, ![p[3]] = v2]], e.out = <<v1.i, v1.n, v2.i, v2.n>>)
      SetZ(d, v) == Ok([st EXCEPT !.z[d] = v], e.out = v)
  IN
  CASE e.op = "dump" -> Ok(st, e.out = s)
    [] e.op \in {"extract", "substring"} ->      (* of string p[1] *)
         LET b == st.z[p[1]] IN
         IF InWin(p[3], p[4], Len(b)) THEN U1(p[2], [b |-> b, i |-> p[3], n |-> Size(p[3], p[4], Len(b))]) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "full" -> U1(p[2], [b |-> st.z[p[1]], i |-> 0, n |-> Len(st.z[p[1]])])
    [] e.op = "string" -> SetZ(p[2], s)
    [] e.op = "base" -> Ok([st EXCEPT !.z[p[2]] = w.b], e.out = <<w.i, n>>)
    [] e.op = "isEmpty" -> Ok(st, e.out = <<OrdB(n = 0), n>>)
    [] e.op = "getc" -> IF n = 0 THEN Ok(st, e.out = <<>>) ELSE Ok([st EXCEPT !.u[p[2]] = Sub(w, 1, n - 1)], e.out = <<s[1]>>)
    [] e.op = "first" -> Ok(st, e.out = IF n = 0 THEN <<>> ELSE <<s[1]>>)
    [] e.op = "triml" -> IF p[3] < 0 THEN RaiseL(st, "Subscript", TRUE) ELSE LET k == Min2(p[3], n) IN U1(p[2], Sub(w, k, n - k))
    [] e.op = "trimr" -> IF p[3] < 0 THEN RaiseL(st, "Subscript", TRUE) ELSE LET k == Min2(p[3], n) IN U1(p[2], Sub(w, 0, n - k))
    [] e.op = "sub" -> IF Fits(p[2], 1, n) THEN Ok(st, e.out = <<s[p[2] + 1]>>) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "slice" -> IF InWin(p[3], p[4], n) THEN U1(p[2], Sub(w, p[3], Size(p[3], p[4], n))) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "splitAt" -> IF 0 <= p[4] /\ p[4] <= n THEN U2(Sub(w, 0, p[4]), Sub(w, p[4], n - p[4])) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "splitl" -> LET k == PreLen(s, Q) IN U2(Sub(w, 0, k), Sub(w, k, n - k))
    [] e.op = "splitr" -> LET k == SufLen(s, Q) IN U2(Sub(w, 0, n - k), Sub(w, n - k, k))
    [] e.op = "takel" -> U1(p[2], Sub(w, 0, PreLen(s, Q)))
    [] e.op = "dropl" -> LET k == PreLen(s, Q) IN U1(p[2], Sub(w, k, n - k))
    [] e.op = "taker" -> LET k == SufLen(s, Q) IN U1(p[2], Sub(w, n - k, k))
    [] e.op = "dropr" -> U1(p[2], Sub(w, 0, n - SufLen(s, Q)))
    [] e.op = "position" ->                      (* of string p[4] in the substring *)
         LET t == st.z[p[4]]
             S == {k \in 1..(n + 1) : Occurs(t, s, k)}
             k == IF S = {} THEN n ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
         IN U2(Sub(w, 0, k), Sub(w, k, n - k))
    [] e.op = "span" -> LET v == st.u[p[2]] IN
         IF w.b = v.b /\ w.i <= v.i + v.n THEN U1(p[3], [w EXCEPT !.n = v.i + v.n - w.i]) ELSE RaiseL(st, "Span", TRUE)
    [] e.op = "concat" -> SetZ(p[1], Cat([j \in 1..(Len(p) - 1) |-> Str(st.u[p[j + 1]])]))
    [] e.op = "concatWith" -> SetZ(p[1], Join(st.z[p[2]], [j \in 1..(Len(p) - 2) |-> Str(st.u[p[j + 2]])]))
    [] e.op = "explode" -> Ok([st EXCEPT !.l[p[2]] = s], e.out = s)
    [] e.op = "compare" -> Ok(st, e.out = <<Collate(0, s, Str(st.u[p[2]]))>>)
    [] e.op = "collate" -> Ok(st, e.out = <<Collate(p[3], s, Str(st.u[p[2]]))>>)
    [] e.op = "fixes" -> Ok(st, e.out = LET t == st.z[p[2]] IN <<OrdB(Prefix(t, s)), OrdB(Suffix(t, s)), OrdB(Infix(t, s))>>)
    [] e.op = "translate" -> LET v == Cat([j \in 1..n |-> Trans(p[3], s[j])]) IN Ok([st EXCEPT !.z[p[2]] = v], e.out = s \o <<-1>> \o v)
    [] e.op = "tokens" -> Ok(st, e.out = Flat(NonEmpty(Fields(s, LAMBDA x : P1(p[2], p[3], x)))))
    [] e.op = "fields" -> Ok(st, e.out = Flat(Fields(s, LAMBDA x : P1(p[2], p[3], x))))
    [] e.op = "foldl" -> Ok(st, e.out = s \o <<-1, FoldAcc(p[2], s)>>)
    [] e.op = "foldr" -> Ok(st, e.out = Rev(s) \o <<-1, FoldAcc(p[2], Rev(s))>>)
    [] e.op = "app" -> Ok(st, e.out = s)

LStep(e, st) ==
  LET p == e.p
      s == st.l[p[1]]
      n == Len(s)
      t == st.l[p[2]]
      P(x) == P1(p[2], p[3], x)
      SetL(d, v) == Ok([st EXCEPT !.l[d] = v], e.out = v)
      LogL(d, v) == Ok([st EXCEPT !.l[d] = v], e.out = s \o <<-1>> \o v)
      ps == PairUp(s, t)
      m == Len(ps) \div 2
      Eq == Len(s) = Len(t)
      PP(j) == (ps[2 * j - 1] + ps[2 * j]) % p[4] = p[3]
      F(j) == (ps[2 * j - 1] + 2 * ps[2 * j]) % 256
  IN
  CASE e.op = "dump" -> Ok(st, e.out = s)
    [] e.op = "list" -> SetL(p[1], SubSeq(p, 2, Len(p)))
    [] e.op = "null" -> Ok(st, e.out = <<OrdB(n = 0), n>>)
    [] e.op = "hd" -> IF n = 0 THEN RaiseL(st, "Empty", TRUE) ELSE Ok(st, e.out = <<s[1]>>)
    [] e.op = "tl" -> IF n = 0 THEN RaiseL(st, "Empty", TRUE) ELSE SetL(p[2], SubSeq(s, 2, n))
    [] e.op = "last" -> IF n = 0 THEN RaiseL(st, "Empty", TRUE) ELSE Ok(st, e.out = <<s[n]>>)
    [] e.op = "nth" -> IF Fits(p[2], 1, n) THEN Ok(st, e.out = <<s[p[2] + 1]>>) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "take" -> IF Fits(p[3], 0, n) THEN SetL(p[2], SubSeq(s, 1, p[3])) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "drop" -> IF Fits(p[3], 0, n) THEN SetL(p[2], SubSeq(s, p[3] + 1, n)) ELSE RaiseL(st, "Subscript", TRUE)
    [] e.op = "rev" -> SetL(p[2], Rev(s))
    [] e.op = "append" -> SetL(p[3], s \o t)
    [] e.op = "revAppend" -> SetL(p[3], Rev(s) \o t)
    [] e.op = "concat" -> SetL(p[1], Cat([j \in 1..(Len(p) - 1) |-> st.l[p[j + 1]]]))
    [] e.op = "getItem" -> IF n = 0 THEN Ok(st, e.out = <<>>) ELSE Ok([st EXCEPT !.l[p[2]] = SubSeq(s, 2, n)], e.out = <<s[1]>>)
    [] e.op = "app" -> Ok(st, e.out = s)
    [] e.op = "map" -> LogL(p[2], [j \in 1..n |-> F1(p[3], s[j])])
    [] e.op = "mapPartial" -> LogL(p[4], LET k == SelectSeq(s, P) IN [j \in 1..Len(k) |-> F1(1, k[j])])
    [] e.op = "filter" -> LogL(p[4], SelectSeq(s, P))
    [] e.op = "partition" -> LET a == SelectSeq(s, P)
                                 b == SelectSeq(s, LAMBDA x : ~P(x))
                             IN Ok([st EXCEPT !.l = [@ EXCEPT ![p[4]] = a, ![p[5]] = b]], e.out = s \o <<-1>> \o a \o <<-1>> \o b)
    [] e.op = "find" -> LET j == First(s, LAMBDA q : P(s[q])) IN Ok(st, e.out = SubSeq(s, 1, Min2(j, n)) \o <<-1>> \o IF j > n THEN <<>> ELSE <<s[j]>>)
    [] e.op = "exists" -> LET j == First(s, LAMBDA q : P(s[q])) IN Ok(st, e.out = SubSeq(s, 1, Min2(j, n)) \o <<-1, OrdB(j <= n)>>)
    [] e.op = "all" -> LET j == First(s, LAMBDA q : ~P(s[q])) IN Ok(st, e.out = SubSeq(s, 1, Min2(j, n)) \o <<-1, OrdB(j > n)>>)
    [] e.op = "foldl" -> Ok(st, e.out = s \o <<-1, FoldAcc(p[2], s)>>)
    [] e.op = "foldr" -> Ok(st, e.out = Rev(s) \o <<-1, FoldAcc(p[2], Rev(s))>>)
    [] e.op = "collate" -> Ok(st, e.out = <<Collate(p[3], s, t)>>)
    [] e.op = "tabulate" -> IF p[2] < 0 THEN RaiseL(st, "Size", e.out = <<>>)
                            ELSE LET v == Tab(p[2], p[3]) IN Ok([st EXCEPT !.l[p[1]] = v], e.out = Seqn(p[2], LAMBDA i : i) \o <<-1>> \o v)
    (* ListPair *)
    [] e.op = "zip" -> Ok(st, e.out = ps)
    [] e.op = "unzip" -> Ok(st, e.out = SubSeq(s, 1, m) \o <<-1>> \o SubSeq(t, 1, m))
    [] e.op = "zipEq" -> IF Eq THEN Ok(st, e.out = ps) ELSE RaiseL(st, "UnequalLengths", TRUE)
    [] e.op = "pmap" -> LET v == [j \in 1..m |-> F(j)] IN Ok([st EXCEPT !.l[p[3]] = v], e.out = ps \o <<-1>> \o v)
    [] e.op = "pmapEq" -> LET v == [j \in 1..m |-> F(j)] IN
                          IF Eq THEN Ok([st EXCEPT !.l[p[3]] = v], e.out = ps \o <<-1>> \o v) ELSE RaiseL(st, "UnequalLengths", e.out = ps)
    [] e.op = "papp" -> Ok(st, e.out = ps)
    [] e.op = "pappEq" -> IF Eq THEN Ok(st, e.out = ps) ELSE RaiseL(st, "UnequalLengths", e.out = ps)
    [] e.op = "pall" -> LET j == First([q \in 1..m |-> q], LAMBDA q : ~PP(q)) IN Ok(st, e.out = CutP(ps, j) \o <<-1, OrdB(j > m)>>)
    [] e.op = "pexists" -> LET j == First([q \in 1..m |-> q], PP) IN Ok(st, e.out = CutP(ps, j) \o <<-1, OrdB(j <= m)>>)
    [] e.op = "pallEq" -> LET j == First([q \in 1..m |-> q], LAMBDA q : ~PP(q)) IN Ok(st, e.out = CutP(ps, j) \o <<-1, OrdB(j > m /\ Eq)>>)
    [] e.op = "pfoldl" -> Ok(st, e.out = ps \o <<-1, FoldP(p[3], ps)>>)
    [] e.op = "pfoldr" -> Ok(st, e.out = RevPs(ps) \o <<-1, FoldP(p[3], RevPs(ps))>>)
    [] e.op = "pfoldlEq" -> IF Eq THEN Ok(st, e.out = ps \o <<-1, FoldP(p[3], ps)>>) ELSE RaiseL(st, "UnequalLengths", e.out = ps)
    [] e.op = "pfoldrEq" -> IF Eq THEN Ok(st, e.out = RevPs(ps) \o <<-1, FoldP(p[3], RevPs(ps))>>) ELSE RaiseL(st, "UnequalLengths", e.out = <<>>)
    (* Listsort and Arraysort; the order of equivalent elements is free, the result is what is left in slot p[2] *)
    [] e.op \in {"sort", "asort"} -> Ok([st EXCEPT !.l[p[2]] = e.out], Sorted(p[3], e.out) /\ SameBag(s, e.out))
    [] e.op \in {"sorted", "asorted"} -> Ok(st, e.out = <<OrdB(Sorted(p[2], s))>>)
    [] e.op = "merge" ->          (* of lists sorted by the driver's earlier sort *)
         Ok([st EXCEPT !.l[p[3]] = e.out], Sorted(p[4], s) /\ Sorted(p[4], t) => Sorted(p[4], e.out) /\ SameBag(s \o t, e.out))
    [] e.op = "mergeUniq" ->      (* of lists without duplicates; with duplicates in one list the library may keep them *)
         Ok([st EXCEPT !.l[p[3]] = e.out], Sorted(p[4], s) /\ Sorted(p[4], t) =>
              /\ Sorted(p[4], e.out) /\ (Strict(p[4], s) /\ Strict(p[4], t) => Strict(p[4], e.out))
              /\ Range(e.out) \subseteq Range(s \o t) /\ \A x \in Range(s \o t) : \E y \in Range(e.out) : Cmp(p[4], x, y) = 0)
    [] e.op = "eqclasses" ->
         LET cs == Unflat(Tail(e.out)) IN
         Ok(st, /\ Len(cs) = e.out[1] /\ SameBag(s, Cat(cs)) /\ Strict(p[2], [j \in 1..Len(cs) |-> cs[j][1]])
                /\ \A j \in 1..Len(cs) : cs[j] # <<>> /\ \A k \in 1..Len(cs[j]) : Cmp(p[2], cs[j][1], cs[j][k]) = 0)

SStep(e, st) == CASE e.k = "Z" -> ZStep(e, st) [] e.k = "U" -> UStep(e, st) [] e.k = "L" -> LStep(e, st)
=============================================================================
