------------------------------- MODULE Arrays --------------------------------
(* Array, Vector, CharArray, CharVector, Word8Array, Word8Vector, their slices and Array2, as mathematical sequences
   with aliasing.

   State s = [arr |-> slot -> array object, heap |-> sequence of contents, vec |-> slot -> content,
              asl |-> slot -> window on an array object, vsl |-> slot -> window on a vector content,
              mat |-> slot -> matrix object, mheap |-> sequence of matrices (sequences of rows), mcol |-> their columns].
   Contents are sequences of numbers 0..255.  A container is looked at through a window: [c |-> elements seen,
   i |-> index in the underlying sequence of the first].

   An event is [k |-> kind of container, op, p |-> arguments, x |-> exception or "", out |-> numbers delivered];
   functional arguments report their own arguments, in the order of the calls, in out before a -1.  Numbers beyond
   +-10^9 stand for the largest (smallest) integers; NONE for an absent size.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == 777777
B(p) == IF p THEN <<1>> ELSE <<0>>
Seqn(n, f(_)) == [j \in 1..n |-> f(j - 1)]
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(SubSeq(ss, 2, Len(ss)))

Start == [arr |-> [i \in 0..5 |-> i + 1],
          heap |-> [i \in 1..6 |-> Seqn(i - 1, LAMBDA j : (i - 1) * 16 + j)],
          vec |-> [i \in 0..5 |-> Seqn(i, LAMBDA j : 100 + i * 16 + j)],
          asl |-> [i \in 0..5 |-> [o |-> i + 1, i |-> 0, n |-> i]],
          vsl |-> [i \in 0..5 |-> [v |-> Seqn(i, LAMBDA j : 100 + i * 16 + j), i |-> 0, n |-> i]],
          mat |-> [i \in 0..3 |-> i + 1],
          mheap |-> [i \in 1..4 |-> Seqn(i - 1, LAMBDA a : Seqn(2, LAMBDA b : a * 10 + b))],
          mcol |-> <<2, 2, 2, 2>>]

(* The window through which slot s of kind k shows its elements. *)
Win(st, k, s) ==
  CASE k = "A" -> [c |-> st.heap[st.arr[s]], i |-> 0]
    [] k = "V" -> [c |-> st.vec[s], i |-> 0]
    [] k = "S" -> LET w == st.asl[s] IN [c |-> SubSeq(st.heap[w.o], w.i + 1, w.i + w.n), i |-> w.i]
    [] k = "T" -> LET w == st.vsl[s] IN [c |-> SubSeq(w.v, w.i + 1, w.i + w.n), i |-> w.i]
Obj(st, k, s) == IF k = "A" THEN st.arr[s] ELSE st.asl[s].o
Store(a, i, c) == [j \in 1..Len(a) |-> IF i < j /\ j <= i + Len(c) THEN c[j - i] ELSE a[j]]   (* c written at i.. *)
NewArr(st, d, c) == [st EXCEPT !.heap = Append(@, c), !.arr[d] = Len(st.heap) + 1]

(* Functional arguments used by the driver. *)
P1(a, b, x) == x % b = a
P2(a, b, i, x) == (i + x) % b = a
F1(a, x) == (x * 3 + a) % 256
F2(a, i, x) == (x + i * a) % 256
Acc(r, x) == (r * 7 + x) % 10007
(* The logs of functions applied left to right (right to left) to a window; elements, or index-element pairs. *)
Pairs(w) == [j \in 1..(2 * Len(w.c)) |-> IF j % 2 = 1 THEN w.i + (j - 1) \div 2 ELSE w.c[j \div 2]]
Rev(c) == [j \in 1..Len(c) |-> c[Len(c) + 1 - j]]
RevPairs(w) == LET n == Len(w.c) IN [j \in 1..(2 * n) |-> IF j % 2 = 1 THEN w.i + n - 1 - (j - 1) \div 2 ELSE w.c[n + 1 - j \div 2]]
FoldAcc(r, c) == LET RECURSIVE G(_) G(j) == IF j = 0 THEN r ELSE Acc(G(j - 1), c[j]) IN G(Len(c))
FoldPairs(r, c) == LET RECURSIVE G(_) G(j) == IF j = 0 THEN r ELSE Acc(G(j - 1), c[2 * j - 1] + c[2 * j]) IN G(Len(c) \div 2)
(* Least position satisfying T, or Len + 1. *)
First(c, T(_)) == LET S == {j \in 1..Len(c) : T(j)} IN IF S = {} THEN Len(c) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k
Cut(w, j) == [c |-> SubSeq(w.c, 1, Min2(j, Len(w.c))), i |-> w.i]
Cmp(m, x, y) == LET a == IF m = 2 THEN x \div 16 ELSE x
                    b == IF m = 2 THEN y \div 16 ELSE y
                IN IF a = b THEN 0 ELSE IF (a < b) = (m # 1) THEN -1 ELSE 1
Collate(m, c1, c2) == LET n == Min2(Len(c1), Len(c2))
                          j == First(SubSeq(c1, 1, n), LAMBDA q : Cmp(m, c1[q], c2[q]) # 0)
                      IN IF j <= n THEN Cmp(m, c1[j], c2[j])
                         ELSE IF Len(c1) < Len(c2) THEN -1 ELSE IF Len(c1) > Len(c2) THEN 1 ELSE 0
InWin(i, n, len) == 0 <= i /\ (IF n = NONE THEN i <= len ELSE 0 <= n /\ i + n <= len)
Size(i, n, len) == IF n = NONE THEN len - i ELSE n
Fits(di, n, len) == 0 <= di /\ di + n <= len
Tab(n, b) == Seqn(n, LAMBDA i : (i * b + 3) % 256)

(* Matrices: rows of equal length nc; cell positions of a region in either order. *)
Cells(r, nr, c, nc, col) == LET n == nr * nc IN
  [j \in 1..n |-> IF col THEN <<r + ((j - 1) % nr), c + (j - 1) \div nr>> ELSE <<r + (j - 1) \div nc, c + ((j - 1) % nc)>>]
At(m, q) == m[q[1] + 1][q[2] + 1]
Triples(m, qs) == [j \in 1..(3 * Len(qs)) |-> LET q == qs[(j + 2) \div 3] IN IF j % 3 = 1 THEN q[1] ELSE IF j % 3 = 2 THEN q[2] ELSE At(m, q)]
Elts(m, qs) == [j \in 1..Len(qs) |-> At(m, qs[j])]
FoldCells(r, m, qs) == LET RECURSIVE G(_) G(j) == IF j = 0 THEN r ELSE Acc(G(j - 1), qs[j][1] + 2 * qs[j][2] + At(m, qs[j])) IN G(Len(qs))
MapCells(m, S, f(_)) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> IF <<i - 1, j - 1>> \in S THEN f(<<i - 1, j - 1>>) ELSE m[i][j]]]
Range(qs) == {qs[j] : j \in 1..Len(qs)}
CopyReg(src, r, nr, c, nc, dst, dr, dc) ==
  MapCells(dst, {<<dr + a, dc + b>> : a \in 0..(nr - 1), b \in 0..(nc - 1)}, LAMBDA q : src[r + q[1] - dr + 1][c + q[2] - dc + 1])
Dump(m, nc) == <<Len(m), nc>> \o Cat(m)

Ok(st, p) == [x |-> "", st |-> st, ok |-> p]
Raise(st, x) == [x |-> x, st |-> st, ok |-> TRUE]

(* Operations on one matrix; o: its number. *)
MStep(e, st) ==
  LET p == e.p
      o == st.mat[p[1]]
      m == st.mheap[o]
      nr == Len(m)
      nc == st.mcol[o]
      New(d, rows, cols) == [st EXCEPT !.mheap = Append(@, rows), !.mcol = Append(@, cols), !.mat[d] = Len(st.mheap) + 1]
      Qs(col) == Cells(0, nr, 0, nc, col)
      Valid == InWin(p[3], p[5], nr) /\ InWin(p[4], p[6], nc)         (* region: op tr row col nrows ncols *)
      RQ == Cells(p[3], Size(p[3], p[5], nr), p[4], Size(p[4], p[6], nc), p[2] = 1)
  IN
  CASE e.op = "alias" -> Ok([st EXCEPT !.mat[p[2]] = o], e.out = <<>>)
    [] e.op = "new" -> IF p[2] < 0 \/ p[3] < 0 THEN Raise(st, "Size")
                       ELSE Ok(New(p[1], Seqn(p[2], LAMBDA a : Seqn(p[3], LAMBDA b : p[4])), p[3]), e.out = <<>>)
    [] e.op = "tab" -> IF p[3] < 0 \/ p[4] < 0 THEN Raise(st, "Size")
                       ELSE LET rows == Seqn(p[3], LAMBDA a : Seqn(p[4], LAMBDA b : (a * 7 + b * p[5]) % 256))
                            IN Ok(New(p[1], rows, p[4]), LET q == Cells(0, p[3], 0, p[4], p[2] = 1)
                                     IN e.out = [j \in 1..(2 * Len(q)) |-> q[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2]])
    [] e.op = "list" ->   (* row lengths p[3].. *)
         LET ls == SubSeq(p, 3, Len(p)) IN
         IF \E j \in 1..Len(ls) : ls[j] # ls[1] THEN Raise(st, "Size")
         ELSE Ok(New(p[1], Seqn(Len(ls), LAMBDA a : Seqn(ls[a + 1], LAMBDA b : (p[2] + a * 16 + b) % 256)),
                     IF ls = <<>> THEN 0 ELSE ls[1]), e.out = <<>>)
    [] e.op = "dump" -> Ok(st, e.out = Dump(m, nc))
    [] e.op = "eq" -> Ok(st, e.out = B(o = st.mat[p[2]]))
    [] e.op = "sub" -> IF Fits(p[2], 1, nr) /\ Fits(p[3], 1, nc) THEN Ok(st, e.out = <<At(m, <<p[2], p[3]>>)>>) ELSE Raise(st, "Subscript")
    [] e.op = "upd" -> IF Fits(p[2], 1, nr) /\ Fits(p[3], 1, nc) THEN Ok([st EXCEPT !.mheap[o][p[2] + 1][p[3] + 1] = p[4]], e.out = <<>>)
                       ELSE Raise(st, "Subscript")
    [] e.op = "row" -> IF Fits(p[2], 1, nr) THEN Ok([st EXCEPT !.vec[p[3]] = m[p[2] + 1]], e.out = m[p[2] + 1]) ELSE Raise(st, "Subscript")
    [] e.op = "col" -> IF Fits(p[2], 1, nc) THEN LET v == [j \in 1..nr |-> m[j][p[2] + 1]] IN Ok([st EXCEPT !.vec[p[3]] = v], e.out = v)
                       ELSE Raise(st, "Subscript")
    [] e.op = "fold" -> LET c == Elts(m, Qs(p[2] = 1)) IN Ok(st, e.out = c \o <<-1, FoldAcc(5, c)>>)
    [] e.op = "app" -> Ok(st, e.out = Elts(m, Qs(p[2] = 1)))
    [] e.op = "modify" -> Ok([st EXCEPT !.mheap[o] = MapCells(m, Range(Qs(FALSE)), LAMBDA q : F1(p[3], At(m, q)))], e.out = Elts(m, Qs(p[2] = 1)))
    [] e.op = "appi" -> IF Valid THEN Ok(st, e.out = Triples(m, RQ)) ELSE Raise(st, "Subscript")
    [] e.op = "foldi" -> IF Valid THEN Ok(st, e.out = Triples(m, RQ) \o <<-1, FoldCells(5, m, RQ)>>) ELSE Raise(st, "Subscript")
    [] e.op = "modifyi" -> IF Valid THEN Ok([st EXCEPT !.mheap[o] = MapCells(m, Range(RQ), LAMBDA q : F2(p[7], q[1] + 3 * q[2], At(m, q)))],
                                            e.out = Triples(m, RQ)) ELSE Raise(st, "Subscript")
    [] e.op = "copy" ->   (* src dst row col nrows ncols dst_row dst_col *)
         LET d == st.mat[p[2]]
             n1 == Size(p[3], p[5], nr)
             n2 == Size(p[4], p[6], nc)
         IN IF Valid /\ Fits(p[7], n1, Len(st.mheap[d])) /\ Fits(p[8], n2, st.mcol[d])
            THEN Ok([st EXCEPT !.mheap[d] = CopyReg(m, p[3], n1, p[4], n2, st.mheap[d], p[7], p[8])], e.out = <<>>)
            ELSE Raise(st, "Subscript")

Step(e, st) ==
  IF e.k = "M" THEN MStep(e, st) ELSE
  LET p == e.p
      k == e.k
      w == Win(st, k, p[1])
      c == w.c
      n == Len(c)
      nil == e.out = <<>>
      SetVec(d, v) == Ok([st EXCEPT !.vec[d] = v], e.out = v)
      (* the mutable window of slot p[1] now holds v *)
      Put(v) == [st EXCEPT !.heap[Obj(st, k, p[1])] = Store(@, w.i, v)]
      Subseq == IF InWin(p[3], p[4], n) THEN Size(p[3], p[4], n) ELSE -1
  IN
  CASE e.op = "dump" -> Ok(st, e.out = c)
    [] e.op = "length" -> Ok(st, e.out = <<n>>)
    [] e.op = "sub" -> IF Fits(p[2], 1, n) THEN Ok(st, e.out = <<c[p[2] + 1]>>) ELSE Raise(st, "Subscript")
    [] e.op = "find" -> LET j == First(c, LAMBDA q : P1(p[2], p[3], c[q]))
                        IN Ok(st, e.out = Cut(w, j).c \o <<-1>> \o IF j > n THEN <<>> ELSE <<c[j]>>)
    [] e.op = "findi" -> LET j == First(c, LAMBDA q : P2(p[2], p[3], w.i + q - 1, c[q]))
                         IN Ok(st, e.out = Pairs(Cut(w, j)) \o <<-1>> \o IF j > n THEN <<>> ELSE <<w.i + j - 1, c[j]>>)
    [] e.op = "exists" -> LET j == First(c, LAMBDA q : P1(p[2], p[3], c[q])) IN Ok(st, e.out = Cut(w, j).c \o <<-1>> \o B(j <= n))
    [] e.op = "all" -> LET j == First(c, LAMBDA q : ~P1(p[2], p[3], c[q])) IN Ok(st, e.out = Cut(w, j).c \o <<-1>> \o B(j > n))
    [] e.op = "app" -> Ok(st, e.out = c)
    [] e.op = "appi" -> Ok(st, e.out = Pairs(w))
    [] e.op = "foldl" -> Ok(st, e.out = c \o <<-1, FoldAcc(p[2], c)>>)
    [] e.op = "foldr" -> Ok(st, e.out = Rev(c) \o <<-1, FoldAcc(p[2], Rev(c))>>)
    [] e.op = "foldli" -> Ok(st, e.out = Pairs(w) \o <<-1, FoldPairs(p[2], Pairs(w))>>)
    [] e.op = "foldri" -> Ok(st, e.out = RevPairs(w) \o <<-1, FoldPairs(p[2], RevPairs(w))>>)
    [] e.op = "collate" -> Ok(st, e.out = <<Collate(p[3], c, Win(st, k, p[2]).c)>>)
    [] e.op = "isEmpty" -> Ok(st, e.out = B(n = 0))
    [] e.op = "vector" -> SetVec(p[2], c)
    [] e.op = "map" -> LET v == [j \in 1..n |-> F1(p[3], c[j])] IN Ok([st EXCEPT !.vec[p[2]] = v], e.out = c)
    [] e.op = "mapi" -> LET v == [j \in 1..n |-> F2(p[3], w.i + j - 1, c[j])] IN Ok([st EXCEPT !.vec[p[2]] = v], e.out = Pairs(w))
    [] e.op = "concat" -> SetVec(p[1], Cat([j \in 1..(Len(p) - 1) |-> Win(st, k, p[j + 1]).c]))
    (* creation *)
    [] e.op = "new" -> IF p[2] < 0 \/ p[2] > 500000000 THEN Raise(st, "Size") ELSE Ok(NewArr(st, p[1], Seqn(p[2], LAMBDA i : p[3])), nil)
    [] e.op = "tab" -> IF p[2] < 0 \/ p[2] > 500000000 THEN Raise(st, "Size")
                       ELSE IF p[4] < p[2] THEN Raise(st, "Div")           (* the function raises at index p[4] *)
                       ELSE LET v == Tab(p[2], p[3])
                            IN Ok(IF k = "A" THEN NewArr(st, p[1], v) ELSE [st EXCEPT !.vec[p[1]] = v], e.out = Seqn(p[2], LAMBDA i : i))
    [] e.op = "list" -> LET v == SubSeq(p, 2, Len(p)) IN Ok(IF k = "A" THEN NewArr(st, p[1], v) ELSE [st EXCEPT !.vec[p[1]] = v], nil)
    [] e.op = "alias" -> Ok([st EXCEPT !.arr[p[2]] = st.arr[p[1]]], nil)
    [] e.op = "eq" -> Ok(st, e.out = B(IF k = "A" THEN st.arr[p[1]] = st.arr[p[2]] ELSE c = st.vec[p[2]]))
    (* update *)
    [] e.op = "upd" -> IF ~Fits(p[2], 1, n) THEN Raise(st, "Subscript")
                       ELSE IF k = "V" THEN LET v == [c EXCEPT ![p[2] + 1] = p[3]] IN Ok([st EXCEPT !.vec[p[4]] = v], nil)
                       ELSE Ok(Put([c EXCEPT ![p[2] + 1] = p[3]]), nil)
    [] e.op = "modify" -> Ok(Put([j \in 1..n |-> F1(p[2], c[j])]), e.out = c)
    [] e.op = "modifyi" -> Ok(Put([j \in 1..n |-> F2(p[2], w.i + j - 1, c[j])]), e.out = Pairs(w))
    [] e.op = "modifyx" ->   (* raises at call p[2], counted from 1; the elements before are updated *)
         IF p[2] <= n THEN Raise(Put([j \in 1..n |-> IF j < p[2] THEN F1(3, c[j]) ELSE c[j]]), "Div")
         ELSE Ok(Put([j \in 1..n |-> F1(3, c[j])]), nil)
    [] e.op = "modifys" ->   (* the function adds the first element of the underlying array as it then is *)
         LET a == st.heap[Obj(st, k, p[1])]
             f == IF n = 0 THEN 0 ELSE a[1]
             f1 == IF w.i = 0 THEN (2 * f) % 256 ELSE f
         IN Ok(Put([j \in 1..n |-> IF j = 1 THEN (c[j] + f) % 256 ELSE (c[j] + f1) % 256]), nil)
    [] e.op = "copy" ->   (* source (any kind), destination array, index *)
         LET d == st.arr[p[2]] IN
         IF Fits(p[3], n, Len(st.heap[d])) THEN Ok([st EXCEPT !.heap[d] = Store(@, p[3], c)], nil) ELSE Raise(st, "Subscript")
    (* slices *)
    [] e.op = "full" -> Ok(IF k = "A" THEN [st EXCEPT !.asl[p[2]] = [o |-> st.arr[p[1]], i |-> 0, n |-> n]]
                           ELSE [st EXCEPT !.vsl[p[2]] = [v |-> c, i |-> 0, n |-> n]], nil)
    [] e.op = "slice" ->   (* of an array, vector or slice *)
         IF Subseq < 0 THEN Raise(st, "Subscript")
         ELSE Ok(CASE k = "A" -> [st EXCEPT !.asl[p[2]] = [o |-> st.arr[p[1]], i |-> p[3], n |-> Subseq]]
                   [] k = "S" -> [st EXCEPT !.asl[p[2]] = [o |-> st.asl[p[1]].o, i |-> w.i + p[3], n |-> Subseq]]
                   [] k = "V" -> [st EXCEPT !.vsl[p[2]] = [v |-> c, i |-> p[3], n |-> Subseq]]
                   [] k = "T" -> [st EXCEPT !.vsl[p[2]] = [v |-> st.vsl[p[1]].v, i |-> w.i + p[3], n |-> Subseq]], nil)
    [] e.op = "base" -> Ok(IF k = "S" THEN [st EXCEPT !.arr[p[2]] = st.asl[p[1]].o] ELSE [st EXCEPT !.vec[p[2]] = st.vsl[p[1]].v], e.out = <<w.i, n>>)
    [] e.op = "getItem" ->
         IF n = 0 THEN Ok(st, nil)
         ELSE Ok(IF k = "S" THEN [st EXCEPT !.asl[p[2]] = [st.asl[p[1]] EXCEPT !.i = @ + 1, !.n = @ - 1]]
                 ELSE [st EXCEPT !.vsl[p[2]] = [st.vsl[p[1]] EXCEPT !.i = @ + 1, !.n = @ - 1]], e.out = <<c[1]>>)
=============================================================================
