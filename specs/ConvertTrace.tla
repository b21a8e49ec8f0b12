--------------------------- MODULE ConvertTrace ---------------------------
(* Conformance: what the conversion functions returned is what Convert.tla determines. Every event is an operation of its own. *)
EXTENDS Convert, Json, IOUtils, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS WI
VARIABLES h, l
Ev == Traces[h][l]
O == Ev.o
Highest(op, r) == CASE op = "iscan" -> Sub(P2(WI - 1), One) [] op = "wscan" -> Sub(P2(WI), One) [] op = "bscan" -> Of(255)
Lowest(op) == IF op = "iscan" THEN Neg(P2(WI - 1)) ELSE Zero
(* O.a: by a reader of substrings; O.b: from a string; O.c: by fromString. Each [x |-> "" or "NONE" or "Overflow", v, rest] *)
Is3(r, Good(_, _)) == Good(O.a, r) /\ Good(O.b, r) /\ Good(O.c, r) /\ (O.a.x = "" => O.a.rest = r.rest)
Scanned(o, r) == IF ~r.ok THEN o.x = "NONE"
                 ELSE IF Lt(Highest(Ev.op, 0), r.v) \/ Lt(r.v, Lowest(Ev.op)) THEN o.x = "Overflow"
                 ELSE o.x = "" /\ o.v = r.v
ScannedB(o, r) == IF r.ok THEN o.x = "" /\ o.v = r.v ELSE o.x = "NONE"
ScannedR(o, r) == IF ~r.ok THEN o.x = "NONE"
                  ELSE IF r.x > 400 /\ r.d.s # 0 THEN o.x = "Overflow"
                  ELSE IF r.x \notin (0 - 250)..250 THEN TRUE
                  ELSE o.x = "" /\ Close(o.v, r, 44)
Same3 == O.b = O.a /\ O.c = O.a
Opt(o, r) == CASE r.c = 0 -> o.x = "" /\ o.v = r.s [] r.c = 0 - 1 -> o.x = "NONE" [] r.c = 0 - 2 -> o.x = "NONE" \/ o.v = r.s [] r.c = 0 - 3 -> TRUE
OptC(o, r) == IF r.c >= 0 THEN o.x = "" /\ o.v = <<r.c>> ELSE r.c = 0 - 3 \/ o.x = "NONE"
Dig == IF Ev.n = "none" THEN (IF Ev.k = "G" THEN 12 ELSE 6) ELSE Ev.d
Bad(k, d) == d > 400 \/ d < (IF k = "G" THEN 1 ELSE 0)
RealText(t) == CASE Ev.k = "F" -> IsFix(t, Ev.m, Ev.e, Dig) [] Ev.k = "S" -> IsSci(t, Ev.m, Ev.e, Dig) [] Ev.k = "G" -> IsGen(t, Ev.m, Ev.e, Dig)
Fits(v, lo, hi) == Le(lo, v) /\ Le(v, hi)
LitVal == CASE Ev.k = "i" -> Number(Ev.t, IF Ev.neg THEN 2 ELSE 1, Len(Ev.t) - (IF Ev.neg THEN 1 ELSE 0), 10, Ev.neg).v
            [] Ev.k = "x" -> LET p == IF Ev.neg THEN 4 ELSE 3 IN Number(Ev.t, p, Len(Ev.t) + 1 - p, 16, Ev.neg).v
            [] Ev.k = "w" -> Number(Ev.t, 3, Len(Ev.t) - 2, 10, FALSE).v
            [] Ev.k = "v" -> Number(Ev.t, 4, Len(Ev.t) - 3, 16, FALSE).v
LitFits == IF Ev.k \in {"i", "x"} THEN Fits(LitVal, Neg(P2(WI - 1)), Sub(P2(WI - 1), One)) ELSE Fits(LitVal, Zero, Sub(P2(WI), One))
PadTo(n, c, s, left) == LET p == [i \in 1..(IF n > Len(s) THEN n - Len(s) ELSE 0) |-> c] IN IF left THEN p \o s ELSE s \o p
Ok ==
  CASE Ev.op \in {"iscan", "bscan", "wscan"} ->
         IF Ev.op = "iscan" THEN Is3(ScanInt(Ev.t, Ev.r), Scanned) ELSE \E r \in ScanWord(Ev.t, Ev.r) : Is3(r, Scanned)
    [] Ev.op = "oscan" -> Is3(ScanBool(Ev.t), ScannedB)
    [] Ev.op = "rscan" -> Is3(ScanReal(Ev.t), ScannedR)
    [] Ev.op = "ifmt" -> Same3 /\ IsInt(O.a, Ev.v, Ev.r)
    [] Ev.op \in {"wfmt", "bfmt"} -> Same3 /\ IsInt(O.a, Ev.v, Ev.r)
    [] Ev.op = "ofmt" -> O.a = <<116, 114, 117, 101>> /\ O.b = <<102, 97, 108, 115, 101>>
    [] Ev.op = "rfmt" -> IF Ev.n # "none" /\ Bad(Ev.k, Ev.d) THEN O.x = "Size" ELSE O.x = "" /\ Same3 /\ RealText(O.a)
    [] Ev.op = "rspec" -> IF Ev.n # "none" /\ Bad(Ev.k, Ev.d) THEN O.x = "Size" ELSE O.x = "ok"
    [] Ev.op = "lit" -> IF Ev.k = "r" THEN LET r == ScanReal(Ev.t) IN IF Len(Ev.t) > 63 THEN O.x = "Fail" \/ Close(O.t, r, 50) ELSE O.x = "" /\ Close(O.t, r, 50)
                        ELSE IF LitFits THEN O.x = "" /\ O.v = LitVal ELSE O.x = "Fail"
    [] Ev.op = "char" -> O.a = CharText(Ev.c) /\ ReadC(O.b) = [c |-> 0, s |-> <<Ev.c>>] /\ Len(O.b) <= 4 /\ (\A i \in 1..Len(O.b) : Printable(O.b[i]))
                         /\ O.c[1] = 35 /\ Quoted(Tail(O.c), <<Ev.c>>)
    [] Ev.op = "cfrom" -> IF Ev.t = <<>> THEN O.a.x = "NONE" /\ O.b.x = "NONE" ELSE OptC(O.a, MLChar(Ev.t, 1)) /\ OptC(O.b, CChar(Ev.t, 1))
    [] Ev.op = "str" -> O.a = StringText(Ev.t) /\ ReadC(O.b) = [c |-> 0, s |-> Ev.t] /\ (\A i \in 1..Len(O.b) : Printable(O.b[i])) /\ Quoted(O.c, Ev.t)
    [] Ev.op = "sfrom" -> Opt(O.a, ReadML(Ev.t)) /\ Opt(O.b, ReadC(Ev.t))
    [] Ev.op = "class" -> /\ \A k \in 1..12 : O.k[k] = Is(k, Ev.c)
                          /\ O.lo = ToLow(Ev.c) /\ O.up = ToUp(Ev.c)
                          /\ O.su = (IF Ev.c = 255 THEN 0 - 1 ELSE Ev.c + 1) /\ O.pr = Ev.c - 1
    [] Ev.op = "contains" -> O.a = (\E i \in 1..Len(Ev.t) : Ev.t[i] = Ev.c) /\ O.b = ~O.a
    [] Ev.op = "chr" -> IF Ev.c \in 0..255 THEN O.c = Ev.c ELSE O.c = 0 - 1
    [] Ev.op = "pad" -> O.a = PadTo(Ev.n, Ev.c, Ev.t, TRUE) /\ O.b = PadTo(Ev.n, Ev.c, Ev.t, FALSE)
    [] Ev.op = "split" -> LET n == Count(Ev.t, 1, LAMBDA c : Is(Ev.k, c))
                              w == Count(Ev.t, 1, Space)
                              p == SubSeq(Ev.t, 1, n)
                              r == SubSeq(Ev.t, n + 1, Len(Ev.t))
                          IN O.s = <<p, r, p, r, SubSeq(Ev.t, w + 1, Len(Ev.t))>>
Init == h \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ IF Ok THEN l' = l + 1 ELSE PrintT(<<"REJECT", h, l, "none">>) /\ l' = 1000000
=============================================================================
