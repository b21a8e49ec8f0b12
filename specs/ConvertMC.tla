----------------------------- MODULE ConvertMC -----------------------------
(* The scanners of Convert.tla take the longest prefix in the documented grammar, which is stated here as such, for every  *)
(* text over an alphabet; and the texts of characters and strings are read back as what they stand for.                   *)
EXTENDS Convert, FiniteSets
CONSTANTS Alphabet, MaxLen, Codes
VARIABLES s, pair
vars == <<s, pair>>
Init == s = <<>> /\ pair \in Codes \X Codes
Next == pair' = pair /\ Len(s) < MaxLen /\ pair = <<0, 0>> /\ \E c \in Alphabet : s' = Append(s, c)
Cut(t, i, j) == SubSeq(t, i, j)
All(t, P(_)) == \A i \in 1..Len(t) : P(t[i])
Numeral(t, radix) == t # <<>> /\ All(t, LAMBDA c : DV(c) < radix)
Opt(t, set) == t = <<>> \/ t \in set
(* t = spaces \o sign \o prefix \o numeral *)
InInt(t, radix) == \E i, j, k \in 0..Len(t) : /\ i <= j /\ j <= k /\ All(Cut(t, 1, i), Space) /\ Opt(Cut(t, i + 1, j), {<<x>> : x \in Signs})
                                              /\ Opt(Cut(t, j + 1, k), IF radix = 16 THEN {<<48, 120>>, <<48, 88>>} ELSE {}) /\ Numeral(Cut(t, k + 1, Len(t)), radix)
InWord(t, radix) == \E i, k \in 0..Len(t) : /\ i <= k /\ All(Cut(t, 1, i), Space)
                                            /\ Opt(Cut(t, i + 1, k), IF radix = 16 THEN {<<48, 119, 120>>, <<48, 119, 88>>, <<48, 120>>, <<48, 88>>} ELSE {<<48, 119>>}) /\ Numeral(Cut(t, k + 1, Len(t)), radix)
InReal(t) == \E i, j, k, m, n, o \in 0..Len(t) :
                /\ i <= j /\ j <= k /\ k <= m /\ m <= n /\ n <= o
                /\ All(Cut(t, 1, i), Space) /\ Opt(Cut(t, i + 1, j), {<<x>> : x \in Signs})
                /\ All(Cut(t, j + 1, k), LAMBDA c : DV(c) < 10)
                /\ (m = k \/ (m >= k + 2 /\ t[k + 1] = 46 /\ Numeral(Cut(t, k + 2, m), 10)))
                /\ (k > j \/ m > k)
                /\ IF n = m THEN n = Len(t) ELSE n = m + 1 /\ t[n] \in {69, 101} /\ Opt(Cut(t, n + 1, o), {<<x>> : x \in Signs}) /\ Numeral(Cut(t, o + 1, Len(t)), 10)
Longest(In(_), r) == IF ~r.ok THEN \A n \in 0..Len(s) : ~In(Cut(s, 1, n))
                     ELSE LET n == Len(s) - r.rest IN In(Cut(s, 1, n)) /\ \A m \in (n + 1)..Len(s) : ~In(Cut(s, 1, m))
Scanners == /\ \A radix \in {2, 10, 16} : /\ Longest(LAMBDA t : InInt(t, radix), ScanInt(s, radix))
                                          /\ \E r \in ScanWord(s, radix) : Longest(LAMBDA t : InWord(t, radix), r)
            /\ Longest(InReal, ScanReal(s))
Texts == /\ LET t == StringText(pair) IN ReadML(t) = [c |-> 0, s |-> pair] /\ Constant(t) = [c |-> 0, s |-> pair] /\ All(t, Printable)
         /\ Quoted(<<34>> \o StringText(pair) \o <<34>>, pair)
=============================================================================
