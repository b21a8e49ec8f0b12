------------------------------ MODULE ArithMC --------------------------------
(* Arith at small word and limb size, against TLC's own integers: an accumulator to which operations are applied.
   Every operation has exactly one legal outcome, and it is the one native arithmetic gives.                     *)
EXTENDS Arith, FiniteSets
VARIABLES acc, last
B == 2^(WI - 1)
Ints == -B..(B - 1)
Uns(n) == IF n < 0 THEN n + 2 * B ELSE n
Toward(n, d) == IF n % d = 0 \/ n >= 0 THEN n \div d ELSE n \div d + 1
FloorN(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
TruncN(a, b) == LET q == IF a < 0 THEN -a ELSE a
                    r == IF b < 0 THEN -b ELSE b
                IN IF (a < 0) = (b < 0) THEN q \div r ELSE -(q \div r)
Native(op, a, b) == CASE op = "add" -> a + b [] op = "sub" -> a - b [] op = "mul" -> a * b [] op = "neg" -> -a
                      [] op = "div" -> FloorN(a, b) [] op = "mod" -> a - b * FloorN(a, b)
                      [] op = "quot" -> TruncN(a, b) [] op = "rem" -> a - b * TruncN(a, b)
BinOps == {"add", "sub", "mul", "neg", "div", "mod", "quot", "rem"}
Ev(t, op, a, b, q, x, r) == [t |-> t, op |-> op, a |-> <<Of(a), Of(b)>>, q |-> Of(q), x |-> x, r |-> IF x = "" THEN <<Of(r)>> ELSE <<>>]
Wit(op, a, b) == IF b = 0 THEN 0 ELSE IF op = "rem" THEN TruncN(a, b) ELSE FloorN(a, b)
Exns == {"Overflow", "Div"}
Outcomes(t, op, a, b, S) == {r \in S : Legal(Ev(t, op, a, b, Wit(op, a, b), "", r))}
IntStep(op, b, out, x) ==
  LET S == Outcomes("I", op, acc, b, Ints)
      X == {y \in Exns : Legal(Ev("I", op, acc, b, Wit(op, acc, b), y, 0))}
      zero == b = 0 /\ op \in {"div", "mod", "quot", "rem"}
      v == Native(op, acc, b)
  IN /\ Assert(Cardinality(S) + Cardinality(X) = 1, <<"int", op, acc, b, S, X>>)
     /\ Assert(IF zero THEN X = {"Div"} ELSE IF v \in Ints THEN S = {v} ELSE X = {"Overflow"}, <<"int", op, acc, b, S, X>>)
     /\ out = IF S = {} THEN acc ELSE CHOOSE r \in S : TRUE
WOps == {"add", "sub", "mul", "neg", "div", "mod", "andb", "orb", "xorb", "notb", "shl", "shr", "sar"}
RECURSIVE BitN(_, _, _)
BitN(op, a, b) == IF a = 0 /\ b = 0 THEN 0
                  ELSE (CASE op = "andb" -> (a % 2) * (b % 2) [] op = "orb" -> MaxI(a % 2, b % 2) [] op = "xorb" -> (a + b) % 2) + 2 * BitN(op, a \div 2, b \div 2)
NativeW(op, a, b) ==
  LET s == IF a >= B THEN a - 2 * B ELSE a
      p == IF b >= WI THEN 2 * B ELSE 2^b
  IN CASE op \in {"add", "sub", "mul", "neg"} -> Native(op, a, b) % (2 * B)
       [] op \in {"div", "mod"} -> Native(op, a, b)
       [] op \in {"andb", "orb", "xorb"} -> BitN(op, a, b)
       [] op = "notb" -> 2 * B - 1 - a
       [] op = "shl" -> (a * p) % (2 * B)
       [] op = "shr" -> a \div p
       [] op = "sar" -> (s \div p) % (2 * B)
WordStep(op, b, out) ==
  LET a == Uns(acc)
      S == Outcomes("W", op, a, b, 0..(2 * B))
      zero == b = 0 /\ op \in {"div", "mod"}
      r == CHOOSE r \in S : TRUE
  IN /\ Assert(IF zero THEN S = {} /\ Legal(Ev("W", op, a, b, 0, "Div", 0)) ELSE S = {NativeW(op, a, b)}, <<"word", op, a, b, S>>)
     /\ out = IF S = {} THEN acc ELSE IF r >= B THEN r - 2 * B ELSE r
(* Reals acc * 2^k, k <= 0. *)
RealStep(op, k, out) ==
  LET d == 2^(0 - k)
      q == acc \div d
      f == acc % d
      v == CASE op = "floor" -> q [] op = "ceil" -> (IF f = 0 THEN q ELSE q + 1) [] op = "trunc" -> TruncN(acc, d)
             [] op = "round" -> (IF 2 * f < d THEN q ELSE IF 2 * f > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1)
  IN /\ Assert({r \in Ints : Legal(Ev("R", op, acc, k, q, "", r))} = {v}, <<"real", op, acc, k>>) /\ out = v
Init == acc = 0 /\ last = <<>>
Next == \/ \E op \in BinOps, b \in Ints : IntStep(op, b, acc', "") /\ last' = <<"I", op, b>>
        \/ \E op \in WOps, b \in 0..(2 * B - 1) : WordStep(op, b, acc') /\ last' = <<"W", op, b>>
        \/ \E op \in {"floor", "ceil", "trunc", "round"}, k \in -3..0 : RealStep(op, k, acc') /\ last' = <<"R", op, k>>
Spec == Init /\ [][Next]_<<acc, last>>
View == acc
InRange == acc \in Ints
(* Arithmetic on limbs is arithmetic. *)
R == -70..70
ASSUME \A a \in R, b \in R : Add(Of(a), Of(b)) = Of(a + b) /\ Sub(Of(a), Of(b)) = Of(a - b) /\ Mul(Of(a), Of(b)) = Of(a * b)
                             /\ Cmp2(Of(a), Of(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
ASSUME Pow(Of(0), 0) = One /\ \A a \in -5..5, n \in 1..6 : Pow(Of(a), n) = Of(a^n)
=============================================================================
