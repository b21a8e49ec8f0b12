------------------------------ MODULE Convert ------------------------------
(* Texts of numbers, truth values, characters and strings: what a scanner takes from a text, and what a value's text is. *)
(* A text is a sequence of codes. Numbers are Big.tla's.                                                               *)
EXTENDS Big

(* ---- characters ---- *)
Space(c) == c = 32 \/ c \in 9..13
Lower(c) == c \in 97..122
Upper(c) == c \in 65..90
Dec(c) == c \in 48..57
Alpha(c) == Lower(c) \/ Upper(c)
Printable(c) == c \in 32..126
DV(c) == IF Dec(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
Is(k, c) == CASE k = 1 -> Lower(c) [] k = 2 -> Upper(c) [] k = 3 -> Dec(c) [] k = 4 -> Alpha(c) [] k = 5 -> DV(c) < 16
              [] k = 6 -> Alpha(c) \/ Dec(c) [] k = 7 -> Printable(c) [] k = 8 -> Space(c) [] k = 9 -> Printable(c) /\ c # 32 /\ ~Alpha(c) /\ ~Dec(c)
              [] k = 10 -> Printable(c) /\ c # 32 [] k = 11 -> c < 128 [] k = 12 -> c < 32 \/ c > 126
ToLow(c) == IF Upper(c) THEN c + 32 ELSE c
ToUp(c) == IF Lower(c) THEN c - 32 ELSE c

(* ---- scanning: the number of characters of s from position i on that satisfy P ---- *)
Count(s, i, P(_)) == LET t == SubSeq(s, i, Len(s))
                         k == SelectInSeq(t, LAMBDA c : ~P(c))
                     IN IF k = 0 THEN Len(t) ELSE k - 1
Skip(s, i, P(_)) == i + Count(s, i, P)
Digits(s, i, radix) == Count(s, i, LAMBDA c : DV(c) < radix)
At(s, i, set) == i <= Len(s) /\ s[i] \in set
None == [ok |-> FALSE]
Values(s, i, n) == [k \in 1..n |-> DV(s[i + k - 1])]
Number(s, i, n, radix, neg) == [ok |-> TRUE, rest |-> Len(s) + 1 - (i + n), v |-> LET x == Horner(Values(s, i, n), Of(radix), Zero) IN IF neg THEN Neg(x) ELSE x]
Signs == {43, 45, 126}
ScanInt(s, radix) ==
  LET a == Skip(s, 1, Space)
      b == IF At(s, a, Signs) THEN a + 1 ELSE a
      pre == radix = 16 /\ At(s, b, {48}) /\ At(s, b + 1, {88, 120}) /\ Digits(s, b + 2, 16) > 0
      d == IF pre THEN b + 2 ELSE b
      n == Digits(s, d, radix)
  IN IF n = 0 THEN None ELSE Number(s, d, n, radix, At(s, a, {45, 126}))
(* the possible results for a word: 0w1F in base 16 is documented as 0 but taken as a number *)
ScanWord(s, radix) ==
  LET a == Skip(s, 1, Space)
      zero == At(s, a, {48})
      w == zero /\ At(s, a + 1, {119})
      x(i) == radix = 16 /\ zero /\ At(s, i, {88, 120})
      starts == {a} \cup (IF w THEN {a + 2} ELSE {}) \cup (IF x(a + 1) THEN {a + 2} ELSE {}) \cup (IF w /\ x(a + 2) THEN {a + 3} ELSE {})
      good == {i \in starts : Digits(s, i, radix) > 0}
      i == CHOOSE k \in good : \A m \in good : m <= k
      R(k) == Number(s, k, Digits(s, k, radix), radix, FALSE)
  IN IF good = {} THEN {None} ELSE {R(i)} \cup (IF radix = 16 /\ w /\ i = a + 2 THEN {R(a)} ELSE {})
ScanBool(s) ==
  LET a == Skip(s, 1, Space)
      has(t) == Len(s) - a + 1 >= Len(t) /\ \A k \in 1..Len(t) : ToLow(s[a + k - 1]) = t[k]
      r(t, b) == [ok |-> TRUE, rest |-> Len(s) - a + 1 - Len(t), v |-> b]
  IN IF has(<<116, 114, 117, 101>>) THEN r(<<116, 114, 117, 101>>, "T") ELSE IF has(<<102, 97, 108, 115, 101>>) THEN r(<<102, 97, 108, 115, 101>>, "F") ELSE None
(* a decimal: d * 10^k, with nd significant digits, n of all before and f after the point *)
Small(ds) == FoldLeft(LAMBDA a, d : IF a > 100000 THEN a ELSE 10 * a + d, 0, ds)
ScanReal(s) ==
  LET a == Skip(s, 1, Space)
      b == IF At(s, a, Signs) THEN a + 1 ELSE a
      n == Digits(s, b, 10)
      p == b + n
      f == IF At(s, p, {46}) THEN Digits(s, p + 1, 10) ELSE 0
      q == IF f > 0 THEN p + 1 + f ELSE p
      g == IF At(s, q + 1, Signs) THEN q + 2 ELSE q + 1
      e == IF At(s, q, {69, 101}) THEN Digits(s, g, 10) ELSE 0
      all == Values(s, b, n) \o (IF f > 0 THEN Values(s, p + 1, f) ELSE <<>>)
      lead == SelectInSeq(all, LAMBDA c : c # 0)
      ex == LET x == Small(Values(s, g, e)) IN IF At(s, q + 1, {45, 126}) THEN 0 - x ELSE x
  IN IF n + f = 0 THEN None
     ELSE [ok |-> TRUE, rest |-> Len(s) + 1 - (IF e > 0 THEN g + e ELSE q), neg |-> At(s, a, {45, 126}), f |-> f, n |-> n,
           d |-> Horner(all, Of(10), Zero), nd |-> IF lead = 0 THEN 1 ELSE Len(all) - lead + 1, k |-> (IF e > 0 THEN ex ELSE 0) - f, e |-> e, x |-> IF e > 0 THEN ex ELSE 0]

(* ---- texts of numbers ---- *)
DigitOf(v) == IF v < 10 THEN 48 + v ELSE 55 + v
(* t is the text of v in a radix *)
IsInt(t, v, radix) == LET m == IF t # <<>> /\ t[1] = 126 THEN Tail(t) ELSE t
                      IN /\ m # <<>> /\ \A i \in 1..Len(m) : DV(m[i]) < radix /\ m[i] = DigitOf(DV(m[i]))
                         /\ (m[1] = 48 => Len(t) = 1)
                         /\ LET x == Horner([i \in 1..Len(m) |-> DV(m[i])], Of(radix), Zero) IN v = IF m = t THEN x ELSE Neg(x)
P10(n) == Pow(Of(10), n)
P2(n) == Pow(Of(2), n)
Pos(n) == IF n > 0 THEN n ELSE 0
(* |m * 2^e - d * 10^k| <= 10^u / 2, for u <= k *)
Near(m, e, d, k, u) ==
  LET s2 == P2(Pos(0 - e))
      lo == MinI(MinI(u, k), 0)
      A == Mul(Mul(Abs(m), P2(Pos(e))), P10(0 - lo))
      B == Mul(Mul(d, P10(k - lo)), s2)
  IN Le(Mul(Of(2), Abs(Sub(A, B))), Mul(P10(u - lo), s2))
(* the text of the real m * 2^e, with its parts by ScanReal; no sign but ~, no space, all of it *)
Parts(t) == LET r == ScanReal(t) IN IF t = <<>> \/ t[1] \in {32, 43, 45} \/ ~r.ok THEN None ELSE IF r.rest # 0 THEN None ELSE r
Sgn(r, m) == (r.neg => m.s <= 0) /\ (m.s < 0 /\ r.d.s # 0 => r.neg)
(* the exponent is written without + and superfluous zeros *)
ExpOk(t, r) == LET i == SelectInSeq(t, LAMBDA c : c = 69) IN i = 0 \/ LET x == SubSeq(t, i + 1, Len(t)) IN IsInt(x, Of(r.x), 10) /\ 101 \notin {t[j] : j \in 1..Len(t)}
HasE(t) == \E i \in 1..Len(t) : t[i] = 69
HasPt(t) == \E i \in 1..Len(t) : t[i] = 46
LeadOk(t) == LET u == IF t[1] = 126 THEN Tail(t) ELSE t IN u[1] # 48 \/ Len(u) = 1 \/ u[2] \in {46, 69}
IsFix(t, m, e, n) == LET r == Parts(t) IN r.ok /\ ~HasE(t) /\ LeadOk(t) /\ r.n > 0 /\ r.f = n /\ Sgn(r, m) /\ Near(m, e, Abs(r.d), r.k, r.k)
IsSci(t, m, e, n) == LET r == Parts(t) IN r.ok /\ HasE(t) /\ r.n = 1 /\ r.f = n /\ (m.s # 0 => r.nd = n + 1) /\ (m.s = 0 => r.d.s = 0) /\ ExpOk(t, r) /\ Sgn(r, m) /\ Near(m, e, Abs(r.d), r.k, r.k)
(* p significant digits, in the shorter of the two forms, without superfluous zeros *)
IsGen(t, m, e, p) ==
  LET r == Parts(t)
      X == r.nd - 1 + r.k                   \* the decimal exponent
      stop == IF HasE(t) THEN SelectInSeq(t, LAMBDA c : c = 69) - 1 ELSE Len(t)
      u == X - p + 1
      (* digits after the last non-zero one *)
      zeros == stop - SelectLastInSeq(SubSeq(t, 1, stop), LAMBDA c : c # 48)
  IN r.ok /\ Sgn(r, m) /\ LeadOk(t)
     /\ IF m.s = 0 THEN r.d.s = 0 /\ ~HasE(t) /\ r.n = 1 /\ r.f = 1
        ELSE /\ r.d.s # 0
             /\ IF HasE(t) THEN (X < 0 - 4 \/ X >= p) /\ r.n = 1 /\ ExpOk(t, r) /\ (r.f > 0 => zeros = 0)
                ELSE X >= 0 - 4 /\ X < p /\ r.f > 0 /\ (zeros = 0 \/ (r.f = 1 /\ t[Len(t)] = 48))
             /\ IF u <= r.k THEN Near(m, e, Abs(r.d), r.k, u)
                ELSE r.f = 1 /\ ~HasE(t) /\ u = r.k + 1 /\ t[Len(t)] = 48 /\ Near(m, e, Abs(r.d), r.k, u)      \* the 0 of .0
(* what was read, given as a text of 17 significant digits, is within x of d * 10^k, up to 2^-b of it *)
Close(t, r, b) == LET v == Parts(t)
                      lo == IF v.k < r.k THEN v.k ELSE r.k
                      A == Mul(Abs(v.d), P10(v.k - lo))
                      B == Mul(Abs(r.d), P10(r.k - lo))
                  IN v.ok /\ Le(Mul(P2(b), Abs(Sub(A, B))), B) /\ (r.d.s # 0 => v.neg = r.neg)

(* ---- characters and strings ---- *)
Letter(c) == CASE c = 7 -> 97 [] c = 8 -> 98 [] c = 9 -> 116 [] c = 10 -> 110 [] c = 11 -> 118 [] c = 12 -> 102 [] c = 13 -> 114
CharText(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF Printable(c) THEN <<c>> ELSE IF c \in 7..13 THEN <<92, Letter(c)>>
               ELSE IF c < 32 THEN <<92, 94, c + 64>> ELSE <<92, 48 + (c \div 100), 48 + ((c \div 10) % 10), 48 + (c % 10)>>
StringText(s) == FlattenSeq([i \in 1..Len(s) |-> CharText(s[i])])
Named(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13
Letters == {97, 98, 116, 110, 118, 102, 114}
(* the character at position i of s, where an escape may begin: [c, n] with the next position, or with c = -1 if ill-formed, *)
(* -2 if the text ends with a gap, -3 if a gap has a character that is not everywhere a space                               *)
RECURSIVE MLChar(_, _)
MLChar(s, i) ==
  IF s[i] # 92 THEN [c |-> s[i], n |-> i + 1]
  ELSE IF At(s, i + 1, Letters) THEN [c |-> Named(s[i + 1]), n |-> i + 2]
  ELSE IF At(s, i + 1, {34, 92}) THEN [c |-> s[i + 1], n |-> i + 2]
  ELSE IF At(s, i + 1, {94}) THEN IF At(s, i + 2, 64..95) THEN [c |-> s[i + 2] - 64, n |-> i + 3] ELSE [c |-> 0 - 1, n |-> i]
  ELSE IF At(s, i + 1, 48..57) THEN
         IF At(s, i + 2, 48..57) /\ At(s, i + 3, 48..57) /\ Small(Values(s, i + 1, 3)) < 256 THEN [c |-> Small(Values(s, i + 1, 3)), n |-> i + 4] ELSE [c |-> 0 - 1, n |-> i]
  ELSE IF At(s, i + 1, {32, 9, 10}) THEN
         LET j == Skip(s, i + 1, Space) IN IF ~At(s, j, {92}) THEN [c |-> 0 - 1, n |-> i] ELSE IF j = Len(s) THEN [c |-> 0 - 2, n |-> i] ELSE MLChar(s, j + 1)
  ELSE IF At(s, i + 1, {11, 12, 13}) THEN [c |-> 0 - 3, n |-> i]
  ELSE [c |-> 0 - 1, n |-> i]
CChar(s, i) ==
  IF s[i] # 92 THEN [c |-> s[i], n |-> i + 1]
  ELSE IF At(s, i + 1, Letters) THEN [c |-> Named(s[i + 1]), n |-> i + 2]
  ELSE IF At(s, i + 1, {34, 39, 63, 92}) THEN [c |-> s[i + 1], n |-> i + 2]
  ELSE LET oct == LET k == Digits(s, i + 1, 8) IN IF k > 3 THEN 3 ELSE k
           hex == Digits(s, i + 2, 16)
           o == FoldLeft(LAMBDA a, d : 8 * a + d, 0, Values(s, i + 1, oct))
           h == FoldLeft(LAMBDA a, d : IF a > 255 THEN a ELSE 16 * a + d, 0, Values(s, i + 2, hex))
       IN IF oct > 0 THEN IF o < 256 THEN [c |-> o, n |-> i + 1 + oct] ELSE [c |-> 0 - 1, n |-> i]
          ELSE IF At(s, i + 1, {120}) /\ hex > 0 THEN IF h < 256 THEN [c |-> h, n |-> i + 2 + hex] ELSE [c |-> 0 - 1, n |-> i]
          ELSE [c |-> 0 - 1, n |-> i]
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(s, i, acc, ml) == IF i > Len(s) THEN [c |-> 0, s |-> acc]
                           ELSE LET r == IF ml THEN MLChar(s, i) ELSE CChar(s, i) IN IF r.c < 0 THEN [c |-> r.c, s |-> acc] ELSE ReadFrom(s, r.n, Append(acc, r.c), ml)
ReadML(s) == ReadFrom(s, 1, <<>>, TRUE)
ReadC(s) == ReadFrom(s, 1, <<>>, FALSE)
(* the value of a string constant of a program, without its quotes *)
Constant(t) == LET r == ReadML(t) IN IF \E i \in 1..Len(t) : t[i] < 32 \/ t[i] \in {127, 255} THEN [c |-> 0 - 1, s |-> <<>>] ELSE r
Quoted(t, s) == Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 /\ Constant(SubSeq(t, 2, Len(t) - 1)) = [c |-> 0, s |-> s]
=============================================================================
