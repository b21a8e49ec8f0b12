------------------------------- MODULE Arith ---------------------------------
(* Int (integers of WI bits, two's complement), Word (words of WI bits), Word8, conversions from reals, and IntInf.

   Legal(e): the result of the operation e = [t |-> type, op, a |-> numbers, x |-> exception or "", r |-> numbers].
   A word is its unsigned value.  e.q is the quotient that goes with a
   remainder, or the integer part of a real. Type "R": a real is <<m, e>> for m * 2^e.                                         *)
EXTENDS Big, Bitwise
CONSTANT WI
Bnd == Pow(Of(2), WI - 1)
Fits(n) == Le(Neg(Bnd), n) /\ Lt(n, Bnd)
Val(e, n) == e.x = "" /\ e.r = <<n>>
Total(e, n) == IF Fits(n) THEN Val(e, n) ELSE e.x = "Overflow"
B01(p) == IF p THEN One ELSE Zero
CmpAll(e, a, b) == LET c == Cmp2(a, b) IN
  e.x = "" /\ e.r = <<Of(c), B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0), B01(c = 0), B01(c # 0)>>
Div0(e, b, p) == IF b.s = 0 THEN e.x = "Div" ELSE p
(* A quotient may fail to be representable only for the smallest integer and -1. *)
NoQuot(a, b) == a = Neg(Bnd) /\ b = Of(-1)
Res(e, P(_)) == e.x = "" /\ Len(e.r) = 1 /\ P(e.r[1])

IntOk(e) ==
  LET a == e.a[1]
      b == e.a[2]
  IN
  CASE e.op = "add" -> Total(e, Add(a, b))
    [] e.op = "sub" -> Total(e, Sub(a, b))
    [] e.op = "mul" -> Total(e, Mul(a, b))
    [] e.op = "div" -> Div0(e, b, IF NoQuot(a, b) THEN e.x = "Overflow" ELSE Res(e, LAMBDA q : FloorDiv(q, a, b)))
    [] e.op = "quot" -> Div0(e, b, IF NoQuot(a, b) THEN e.x = "Overflow" ELSE Res(e, LAMBDA q : TruncDiv(q, a, b)))
    [] e.op = "mod" -> Div0(e, b, Res(e, LAMBDA r : FloorMod(r, e.q, a, b)))
    [] e.op = "rem" -> Div0(e, b, Res(e, LAMBDA r : TruncDiv(e.q, a, b) /\ r = Sub(a, Mul(e.q, b))))
    [] e.op = "neg" -> Total(e, Neg(a))
    [] e.op = "abs" -> Total(e, Abs(a))
    [] e.op = "cmp" -> CmpAll(e, a, b)
    [] e.op = "min" -> Val(e, IF Lt(a, b) THEN a ELSE b)
    [] e.op = "max" -> Val(e, IF Lt(a, b) THEN b ELSE a)
    [] e.op = "sign" -> Val(e, Of(a.s))
    [] e.op = "same" -> Val(e, B01(a.s = b.s))
    [] e.op = "succ" -> Total(e, Add(a, One))
    [] e.op = "pred" -> Total(e, Sub(a, One))
    [] e.op = "dbl" -> Total(e, Add(a, a))
    [] e.op = "sqr" -> Total(e, Mul(a, a))

LBits == [b \in {2, 4, 8, 16, 4096} |-> CASE b = 2 -> 1 [] b = 4 -> 2 [] b = 8 -> 3 [] b = 16 -> 4 [] b = 4096 -> 12]
LB == LBits[Base]
(* r is n modulo 2^w. *)
Modulo(r, n, w) == /\ 0 <= r.s /\ Lt(r, Pow(Of(2), w))
                   /\ LET d == Sub(n, r)                  (* d is divisible by 2^w: its low w bits vanish *)
                          k == w \div LB
                          j == w % LB
                      IN d.s = 0 \/ ((\A i \in 1..k : Limb(d.m, i) = 0) /\ Limb(d.m, k + 1) % (2^j) = 0)
Bits(f(_, _), a, b) == LET n == MaxI(Len(a.m), Len(b.m)) IN Mk(1, Trim([k \in 1..n |-> f(Limb(a.m, k), Limb(b.m, k))]))
Signed(a, w) == IF Lt(a, Pow(Of(2), w - 1)) THEN a ELSE Sub(a, Pow(Of(2), w))
Ones(w) == Sub(Pow(Of(2), w), One)
Big2(k) == k.s = 0 \/ (Len(k.m) * LB <= 12)                 (* a shift count that is not huge *)
RECURSIVE Small(_)
Small(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * Small(Tail(m))
(* Words of w bits; sh is the shift count. *)
WordOk(e, w) ==
  LET a == e.a[1]
      b == e.a[2]
      M(n) == Res(e, LAMBDA r : Modulo(r, n, w))
      wide == ~Big2(b) \/ Small(b.m) >= w
      Pw == Pow(Of(2), Small(b.m))
  IN
  CASE e.op = "add" -> M(Add(a, b))
    [] e.op = "sub" -> M(Sub(a, b))
    [] e.op = "mul" -> M(Mul(a, b))
    [] e.op = "neg" -> M(Neg(a))
    [] e.op = "div" -> Div0(e, b, Res(e, LAMBDA q : FloorDiv(q, a, b)))
    [] e.op = "mod" -> Div0(e, b, Res(e, LAMBDA r : FloorMod(r, e.q, a, b)))
    [] e.op = "andb" -> Val(e, Bits(LAMBDA p, q : p & q, a, b))
    [] e.op = "orb" -> Val(e, Bits(LAMBDA p, q : p | q, a, b))
    [] e.op = "xorb" -> Val(e, Bits(LAMBDA p, q : p ^^ q, a, b))
    [] e.op = "notb" -> Val(e, Sub(Ones(w), a))
    [] e.op = "shl" -> IF wide THEN Val(e, Zero) ELSE M(Mul(a, Pw))
    [] e.op = "shr" -> IF wide THEN Val(e, Zero) ELSE Res(e, LAMBDA r : FloorDiv(r, a, Pw))
    [] e.op = "sar" -> IF wide THEN Val(e, IF Signed(a, w).s < 0 THEN Ones(w) ELSE Zero)
                       ELSE Res(e, LAMBDA r : 0 <= r.s /\ Lt(r, Pow(Of(2), w)) /\ FloorDiv(Signed(r, w), Signed(a, w), Pw))
    [] e.op = "cmp" -> CmpAll(e, a, b)
    [] e.op = "min" -> Val(e, IF Lt(a, b) THEN a ELSE b)
    [] e.op = "max" -> Val(e, IF Lt(a, b) THEN b ELSE a)
    [] e.op \in {"toInt", "toLargeInt"} -> Total(e, a)
    [] e.op = "toIntX" -> e.x = "" /\ e.r = <<Signed(a, w), Signed(a, w)>>
    [] e.op = "fromInt" -> e.x = "" /\ Len(e.r) = 2 /\ e.r[1] = e.r[2] /\ Modulo(e.r[1], a, w)
    (* toLarge, toLargeX and their synonyms; fromLarge of a word of WI bits *)
    [] e.op = "large" -> LET g == Signed(a, w)
                             m == IF g.s < 0 THEN Add(g, Pow(Of(2), WI)) ELSE g
                         IN e.x = "" /\ e.r = <<a, m, a, m>>
    [] e.op = "fromLarge" -> e.x = "" /\ Len(e.r) = 2 /\ e.r[1] = e.r[2] /\ Modulo(e.r[1], a, w)

(* Conversions of m * 2^k to integers. *)
RealOk(e) ==
  LET m == e.a[1]
      k == e.a[2]
      sc == Pow(Of(2), Small(k.m))
      n == IF k.s >= 0 THEN Mul(m, sc) ELSE m
      d == IF k.s >= 0 THEN One ELSE sc             (* the real is n/d *)
      q == e.q                                      (* floor(n/d), checked *)
      fr == Sub(n, Mul(q, d))                       (* n/d - q = fr/d *)
      c2 == Cmp2(Mul(Of(2), fr), d)
      even == Limb(q.m, 1) % 2 = 0
      up == Add(q, One)
  IN FloorDiv(q, n, d) /\
  CASE e.op = "floor" -> Total(e, q)
    [] e.op = "ceil" -> Total(e, IF fr.s = 0 THEN q ELSE up)
    [] e.op = "trunc" -> Total(e, IF n.s >= 0 \/ fr.s = 0 THEN q ELSE up)
    [] e.op = "round" -> Total(e, IF c2 < 0 \/ (c2 = 0 /\ even) THEN q ELSE up)

Legal(e) == CASE e.t \in {"I", "J"} -> IntOk(e) [] e.t = "W" -> WordOk(e, WI) [] e.t = "B" -> WordOk(e, 8) [] e.t = "R" -> RealOk(e)
(* IntInf.  z |-> slot -> integer.  An event is [t |-> "Z", op, p |-> arguments (slots and small numbers), a |-> numbers,
   x, r |-> the results, also left in slots p[..], q |-> witness, s |-> text (codes), v |-> digit values of the text].   *)
DigVal(c) == IF 48 <= c /\ c <= 57 THEN c - 48 ELSE IF 97 <= c /\ c <= 122 THEN c - 87 ELSE IF 65 <= c /\ c <= 90 THEN c - 55 ELSE 99
IsSpace(c) == c = 32 \/ (9 <= c /\ c <= 13)
(* The text begins with blanks, a sign and digits of base b: the number of characters used and the integer, or 0. *)
Scan(s, b) ==
  LET RECURSIVE Skip(_) Skip(k) == IF k <= Len(s) /\ IsSpace(s[k]) THEN Skip(k + 1) ELSE k
      Digs(f) == LET k == SelectInSeq(SubSeq(s, f, Len(s)), LAMBDA c : DigVal(c) >= b) IN IF k = 0 THEN Len(s) + 1 ELSE f + k - 1   (* first non-digit *)
      i == Skip(1)
      sg == i <= Len(s) /\ s[i] \in {126, 45, 43}
      j == IF sg THEN i + 1 ELSE i
      k == Digs(j)
      n == Horner([q \in 1..(k - j) |-> DigVal(s[j + q - 1])], Of(b), Zero)
  IN IF k = j THEN [n |-> 0, v |-> Zero] ELSE [n |-> k - 1, v |-> IF sg /\ s[i] # 43 THEN Neg(n) ELSE n]
(* The text is the numeral of n in base b. *)
Numeral(s, n, b) == LET ds == IF n.s < 0 THEN Tail(s) ELSE s IN
  /\ Len(s) > 0 /\ (n.s < 0 => s[1] = 126) /\ Len(ds) > 0 /\ (Len(ds) > 1 => ds[1] # 48)
  /\ (\A k \in 1..Len(ds) : DigVal(ds[k]) < b) /\ Horner([k \in 1..Len(ds) |-> DigVal(ds[k])], Of(b), Zero) = Abs(n)

ZStep(e, z) ==
  LET p == e.p
      a == z[p[1]]
      b == z[p[2]]
      Put(d, P(_)) == [z |-> IF e.x = "" THEN [z EXCEPT ![d] = e.r[1]] ELSE z, ok |-> Res(e, P)]
      Is(d, n) == Put(d, LAMBDA r : r = n)
      DivP(d, P(_)) == IF b.s = 0 THEN [z |-> z, ok |-> e.x = "Div"] ELSE Put(d, P)
      Two(P(_, _)) == IF b.s = 0 THEN [z |-> z, ok |-> e.x = "Div"]
                      ELSE [z |-> IF e.x = "" THEN [[z EXCEPT ![p[3]] = e.r[1]] EXCEPT ![p[4]] = e.r[2]] ELSE z,
                            ok |-> e.x = "" /\ Len(e.r) = 2 /\ P(e.r[1], e.r[2])]
      Look(ok) == [z |-> z, ok |-> ok]
  IN
  CASE e.op = "add" -> Is(p[3], Add(a, b))
    [] e.op = "sub" -> Is(p[3], Sub(a, b))
    [] e.op = "mul" -> Is(p[3], Mul(a, b))
    [] e.op = "div" -> DivP(p[3], LAMBDA q : FloorDiv(q, a, b))
    [] e.op = "quot" -> DivP(p[3], LAMBDA q : TruncDiv(q, a, b))
    [] e.op = "mod" -> DivP(p[3], LAMBDA r : FloorMod(r, e.q, a, b))
    [] e.op = "rem" -> DivP(p[3], LAMBDA r : TruncDiv(e.q, a, b) /\ r = Sub(a, Mul(e.q, b)))
    [] e.op = "divMod" -> Two(LAMBDA q, r : FloorMod(r, q, a, b))
    [] e.op = "quotRem" -> Two(LAMBDA q, r : TruncDiv(q, a, b) /\ r = Sub(a, Mul(q, b)))
    [] e.op = "neg" -> Is(p[2], Neg(a))
    [] e.op = "abs" -> Is(p[2], Abs(a))
    [] e.op = "min" -> Is(p[3], IF Lt(a, b) THEN a ELSE b)
    [] e.op = "max" -> Is(p[3], IF Lt(a, b) THEN b ELSE a)
    [] e.op = "pow" -> IF p[3] >= 0 THEN Is(p[2], Pow(a, p[3]))
                       ELSE IF a.s = 0 THEN Look(e.x = "Div")
                       ELSE Is(p[2], IF Abs(a) # One THEN Zero ELSE IF p[3] % 2 = 0 THEN One ELSE a)
    [] e.op = "log2" -> Look(IF a.s <= 0 THEN e.x = "Domain" ELSE LET k == Small(e.r[1].m) IN
                               e.x = "" /\ e.r[1].s >= 0 /\ Le(Pow(Of(2), k), a) /\ Lt(a, Pow(Of(2), k + 1)))
    [] e.op = "cmp" -> Look(CmpAll(e, a, b))
    [] e.op = "sign" -> Look(Val(e, Of(a.s)))
    [] e.op = "same" -> Look(Val(e, B01(a.s = b.s)))
    [] e.op = "fromInt" -> Is(p[1], e.a[1])
    [] e.op = "toInt" -> Look(Total(e, a))
    [] e.op = "show" -> Look(e.x = "" /\ Numeral(e.s, a, p[2]))
    [] e.op = "read" -> LET t == Scan(e.s, p[2]) IN       (* r[2]: characters used *)
                        IF t.n = 0 THEN Look(e.x = "NONE")
                        ELSE [z |-> [z EXCEPT ![p[1]] = t.v], ok |-> e.x = "" /\ e.r = <<t.v, Of(t.n)>>]
    [] e.op = "dump" -> Look(Val(e, a))
=============================================================================
