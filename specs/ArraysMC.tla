------------------------------ MODULE ArraysMC -------------------------------
(* Arrays at small size: windows always lie inside what they look at; an operation changes only the object it is
   applied to, and nothing if it raises; element-by-element copying in the direction the library chooses is the
   mathematical copy whatever the overlap (Loops). *)
EXTENDS Arrays
CONSTANTS N, Depth
VARIABLES st, last, d
vars == <<st, last, d>>
E(k, op, p) == [k |-> k, op |-> op, p |-> p, out |-> <<>>]
Small == [Start EXCEPT !.heap = [i \in 1..6 |-> Seqn(IF i <= 3 THEN i - 1 ELSE 0, LAMBDA j : i * 10 + j)],
                       !.asl = [i \in 0..5 |-> [o |-> IF i <= 2 THEN i + 1 ELSE 1, i |-> 0, n |-> IF i <= 2 THEN i ELSE 0]],
                       !.vec = [i \in 0..5 |-> <<>>], !.vsl = [i \in 0..5 |-> [v |-> <<1, 2>>, i |-> 0, n |-> 2]],
                       !.mheap = <<<<>>, <<<<1, 2>>>>, <<<<3, 4>>, <<5, 6>>>>, <<>>>>]
I == -1..N
Ops == {E("A", "new", <<s, n, 7>>) : s \in {1}, n \in {-1, 1, 2}}
  \cup {E("A", o, <<s, t>>) : o \in {"alias", "full"}, s \in 1..2, t \in 1..2}
  \cup {E(k, "upd", <<s, i, 9>>) : k \in {"A", "S"}, s \in 1..2, i \in I}
  \cup {E(k, "copy", <<s, t, i>>) : k \in {"A", "S", "T"}, s \in 1..2, t \in 1..2, i \in I}
  \cup {E(k, "slice", <<s, t, i, n>>) : k \in {"A", "S", "T"}, s \in 1..2, t \in 1..2, i \in I, n \in {NONE, 0, 1, 2}}
  \cup {E(k, "getItem", <<s, t>>) : k \in {"S", "T"}, s \in 1..2, t \in 1..2}
  \cup {E("S", "base", <<s, t>>) : s \in 1..2, t \in 1..2} \cup {E("S", "modifys", <<s>>) : s \in 1..2}
  \cup {E("S", "modifyx", <<s, n>>) : s \in 1..2, n \in 1..2}
  \cup {E("M", "copy", <<s, t, i, 0, n, NONE, j, 0>>) : s \in 1..2, t \in 1..2, i \in I, n \in {NONE, 1}, j \in I}
Init == st = Small /\ last = [e |-> E("", "", <<1>>), x |-> ""] /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E e \in Ops : LET r == Step(e, st) IN st' = r.st /\ last' = [e |-> e, x |-> r.x]
Spec == Init /\ [][Next]_vars
View == <<st, d>>
Windows == /\ \A s \in 0..5 : LET w == st.asl[s] IN w.o \in 1..Len(st.heap) /\ 0 <= w.i /\ 0 <= w.n /\ w.i + w.n <= Len(st.heap[w.o])
           /\ \A s \in 0..5 : LET w == st.vsl[s] IN 0 <= w.i /\ 0 <= w.n /\ w.i + w.n <= Len(w.v)
           /\ \A s \in 0..3 : \A r \in 1..Len(st.mheap[st.mat[s]]) : Len(st.mheap[st.mat[s]][r]) = st.mcol[st.mat[s]]
Target(e) == IF e.k \in {"A", "S", "T"} /\ e.op = "copy" THEN st.arr[e.p[2]]
             ELSE IF e.k \in {"A", "S"} /\ e.op \in {"upd", "modifys", "modifyx"} THEN Obj(st, e.k, e.p[1]) ELSE 0
MTarget(e) == IF e.k = "M" THEN st.mat[e.p[2]] ELSE 0
Frame == [][/\ \A o \in 1..Len(st.heap) : Len(st'.heap[o]) = Len(st.heap[o]) /\ (o # Target(last'.e) => st'.heap[o] = st.heap[o])
            /\ \A o \in 1..Len(st.mheap) : (o # MTarget(last'.e) => st'.mheap[o] = st.mheap[o])
            /\ ((last'.x # "" /\ last'.e.op # "modifyx") => st' = st)]_vars

(* Copying loops of the library on one array a: n elements from i1 to i2, in the order given. *)
RECURSIVE Loop(_, _, _, _, _)
Loop(a, i1, i2, js, k) == IF k > Len(js) THEN a ELSE Loop([a EXCEPT ![i2 + js[k] + 1] = a[i1 + js[k] + 1]], i1, i2, js, k + 1)
Up(n) == [k \in 1..n |-> k - 1]
Down(n) == [k \in 1..n |-> n - k]
L == N + 3
Id == [k \in 1..L |-> k]
Loops == \A i1 \in 0..L, i2 \in 0..L, n \in 0..L : i1 + n <= L /\ i2 + n <= L =>
            Loop(Id, i1, i2, IF i1 < i2 THEN Down(n) ELSE Up(n), 1) = Store(Id, i2, SubSeq(Id, i1 + 1, i1 + n))
ASSUME Loops
=============================================================================
