-------------------------------- MODULE Big ----------------------------------
(* Integers of any size: [s |-> -1, 0 or 1, m |-> magnitude], the magnitude a sequence of limbs in base Base, least
   significant first, without leading zeros.                                                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT Base
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Limb(m, k) == IF k <= Len(m) THEN m[k] ELSE 0
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))
(* Propagate carries through column sums (any non-negative numbers); borrows if they are negative. *)
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
Carry(cols) == LET r == FoldLeft(LAMBDA acc, x : LET t == x + acc[1] IN <<t \div Base, Append(acc[2], t % Base)>>, <<0, <<>>>>, cols)
               IN r[2] \o Limbs(r[1])
MCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE LET RECURSIVE G(_) G(k) == IF k = 0 THEN 0 ELSE IF a[k] = b[k] THEN G(k - 1) ELSE IF a[k] < b[k] THEN -1 ELSE 1
                   IN G(Len(a))
MAdd(a, b) == Carry([k \in 1..MaxI(Len(a), Len(b)) |-> Limb(a, k) + Limb(b, k)])
MSub(a, b) == Trim(Carry([k \in 1..Len(a) |-> a[k] - Limb(b, k)]))          (* a >= b *)
Col(a, b, k) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[k - i + 1], 0,
                         [j \in 1..(MinI(k, Len(a)) - MaxI(1, k - Len(b) + 1) + 1) |-> j + MaxI(1, k - Len(b) + 1) - 1])
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Col(a, b, k)]))

Mk(s, m) == IF m = <<>> THEN [s |-> 0, m |-> <<>>] ELSE [s |-> s, m |-> m]
Of(n) == IF n < 0 THEN Mk(-1, Limbs(-n)) ELSE Mk(1, Limbs(n))
Zero == Of(0)
One == Of(1)
Neg(a) == [a EXCEPT !.s = -a.s]
Abs(a) == [a EXCEPT !.s = IF a.s = 0 THEN 0 ELSE 1]
Cmp2(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s = -1 THEN MCmp(b.m, a.m) ELSE MCmp(a.m, b.m)
Lt(a, b) == Cmp2(a, b) < 0
Le(a, b) == Cmp2(a, b) <= 0
Add(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
             ELSE IF a.s = b.s THEN Mk(a.s, MAdd(a.m, b.m))
             ELSE LET c == MCmp(a.m, b.m) IN IF c = 0 THEN Zero ELSE IF c > 0 THEN Mk(a.s, MSub(a.m, b.m)) ELSE Mk(b.s, MSub(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Mk(a.s * b.s, MMul(a.m, b.m))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE LET h == Pow(a, n \div 2) IN IF n % 2 = 0 THEN Mul(h, h) ELSE Mul(a, Mul(h, h))
(* Division, by its defining properties. *)
FloorDiv(q, a, b) == LET r == Sub(a, Mul(q, b)) IN (r.s = 0 \/ r.s = b.s) /\ Lt(Abs(r), Abs(b))
FloorMod(r, q, a, b) == FloorDiv(q, a, b) /\ r = Sub(a, Mul(q, b))
TruncDiv(q, a, b) == LET r == Sub(a, Mul(q, b)) IN (r.s = 0 \/ r.s = a.s) /\ Lt(Abs(r), Abs(b))
(* The value of digits (most significant first) in the given base. *)
Horner(ds, b, z) == FoldLeft(LAMBDA acc, d : Add(Mul(acc, b), Of(d)), z, ds)
=============================================================================
