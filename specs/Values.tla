------------------------------- MODULE Values --------------------------------
(* Data values as finite graphs: writing, reading back, equality and hashing.

   heap: sequence of blocks [t |-> kind, f |-> fields]. t is "b<tag>" for a block with fields ("b250" is a mutable cell or
   array), "s<bytes>" a string, "d<bits>" a real, "clo" a closure, "x..." an abstract value.
   A field, and the contents of a register, is a value: n > 0 is the block n, n <= 0 stands for an immediate
   (integer or nullary constructor; which one does not matter).
   Every value has a canonical form: the reachable blocks numbered in breadth-first order. Two values have the same
   canonical form iff they are isomorphic, with the same sharing and the same cycles. *)
EXTENDS Integers, Sequences, TLC
NREG == 8
NSTREAM == 4
Start == [heap |-> <<>>, reg |-> [i \in 0..(NREG - 1) |-> 0], str |-> [k \in 0..(NSTREAM - 1) |-> <<>>], hs |-> <<>>]

(* ---- canonical form: [r |-> root, n |-> sequence of blocks] ---- *)
RECURSIVE Fields(_, _, _, _)
Fields(f, i, ord, num) ==        \* gives numbers to the blocks among f[i..]
  IF i > Len(f) THEN [ord |-> ord, num |-> num]
  ELSE IF f[i] <= 0 \/ (f[i] > 0 /\ num[f[i]] # 0) THEN Fields(f, i + 1, ord, num)
  ELSE Fields(f, i + 1, Append(ord, f[i]), [num EXCEPT ![f[i]] = Len(ord) + 1])
RECURSIVE Bfs(_, _, _, _)
Bfs(heap, k, ord, num) ==
  IF k > Len(ord) THEN [ord |-> ord, num |-> num]
  ELSE LET r == Fields(heap[ord[k]].f, 1, ord, num) IN Bfs(heap, k + 1, r.ord, r.num)
Canon(heap, v) ==
  IF v <= 0 THEN [r |-> v, n |-> <<>>]
  ELSE LET b == Bfs(heap, 1, <<v>>, [i \in 1..Len(heap) |-> IF i = v THEN 1 ELSE 0])
       IN [r |-> 1, n |-> [k \in 1..Len(b.ord) |->
             [t |-> heap[b.ord[k]].t,
              f |-> LET g == heap[b.ord[k]].f IN [i \in 1..Len(g) |-> IF g[i] <= 0 THEN g[i] ELSE b.num[g[i]]]]]]

(* A fresh copy of a canonical form. *)
Shift(x, o) == IF x <= 0 THEN x ELSE x + o
Import(heap, c) == heap \o [k \in 1..Len(c.n) |-> [t |-> c.n[k].t, f |-> [i \in 1..Len(c.n[k].f) |-> Shift(c.n[k].f[i], Len(heap))]]]

(* Values that cannot be written. *)
Opaque(c) == \E k \in 1..Len(c.n) : c.n[k].t \in {"clo", "x251"}

(* ---- structural equality; mutable cells by identity ---- *)
RECURSIVE Eq(_, _, _)
Eq(heap, v, w) ==
  \/ v = w
  \/ /\ v > 0 /\ w > 0
     /\ heap[v].t = heap[w].t /\ heap[v].t # "b250"
     /\ Len(heap[v].f) = Len(heap[w].f)
     /\ \A i \in 1..Len(heap[v].f) : Eq(heap, heap[v].f[i], heap[w].f[i])

(* ---- transitions ---- *)
New(st, d, t, f) == [st EXCEPT !.heap = Append(@, [t |-> t, f |-> f]), !.reg[d] = Len(st.heap) + 1]
Put(st, d, v) == [st EXCEPT !.reg[d] = v]
Val(st, a) == IF a > 0 THEN st.reg[a - 1] ELSE a       \* operand: n > 0 is register n - 1
OKs(e, st) == [st |-> st, ok |-> e.x = "" /\ e.out = "ok"]
Refuse(e, st) == [st |-> st, ok |-> e.x # ""]

Step(e, st) ==
  LET h == st.heap
      sv == st.reg[e.s]
      c == Canon(h, sv)
  IN CASE e.op = "mk" -> OKs(e, New(st, e.d, e.t, [i \in 1..Len(e.f) |-> Val(st, e.f[i])]))
       [] e.op = "big" ->                              \* block of e.b fields cycling over fresh cells holding e.f
            LET m == Len(e.f)
                o == Len(h)
                cells == [i \in 1..m |-> [t |-> "b250", f |-> <<e.f[i]>>]]
                blk == [t |-> e.t, f |-> [i \in 1..e.b |-> o + 1 + (((i - 1) * e.c) % m)]]
            IN OKs(e, [st EXCEPT !.heap = h \o cells \o <<blk>>, !.reg[e.d] = o + m + 1])
       [] e.op = "list" ->
            LET m == Len(e.f)
                o == Len(h)
                v == Val(st, e.a)
                cells == [i \in 1..m |-> [t |-> "b1", f |-> <<e.f[i], IF i = m THEN v ELSE o + i + 1>>]]
            IN OKs(e, [st EXCEPT !.heap = h \o cells, !.reg[e.d] = o + 1])
       [] e.op \in {"str", "dbl", "clo", "abs"} -> OKs(e, New(st, e.d, e.t, <<>>))
       [] e.op = "set" -> OKs(e, [st EXCEPT !.heap[sv].f[e.a + 1] = Val(st, e.b)])
       [] e.op = "fld" -> OKs(e, Put(st, e.d, h[sv].f[e.a + 1]))
       [] e.op = "mov" -> OKs(e, Put(st, e.d, Val(st, e.a)))
       [] e.op \in {"out", "cout"} ->
            IF Opaque(c) THEN Refuse(e, st) ELSE OKs(e, [st EXCEPT !.str[e.a] = Append(@, c)])
       [] e.op = "in" ->
            IF st.str[e.a] = <<>> THEN Refuse(e, st)
            ELSE LET x == st.str[e.a][1]
                 IN OKs(e, [st EXCEPT !.str[e.a] = Tail(@), !.heap = Import(h, x), !.reg[e.d] = Shift(x.r, Len(h))])
       [] e.op = "strv" -> IF Opaque(c) THEN Refuse(e, st)
                           ELSE OKs(e, [st EXCEPT !.heap = Import(h, c), !.reg[e.d] = Shift(c.r, Len(h))])
       [] e.op = "enc" -> OKs(e, [st EXCEPT !.heap = Import(h, c), !.reg[e.d] = Shift(c.r, Len(h))])
       [] e.op = "eq" -> [st |-> st, ok |-> e.x = "" /\ e.out = (IF Eq(h, sv, st.reg[e.d]) THEN "true" ELSE "false")]
       [] e.op \in {"hash", "hashp"} ->                \* equal values have equal hash values, whatever cells contain
            [st |-> [st EXCEPT !.hs = Append(@, <<sv, e.f, e.out>>)],
             ok |-> e.x = "" /\ \A i \in 1..Len(st.hs) : st.hs[i][2] = e.f /\ Eq(h, st.hs[i][1], sv) => st.hs[i][3] = e.out]
       [] e.op = "dump" -> [st |-> st, ok |-> e.x = "" /\ e.dump = c]
       [] e.op = "gc" -> OKs(e, st)
       [] e.op = "reset" -> OKs(e, Start)
=============================================================================
