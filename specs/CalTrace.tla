------------------------------ MODULE CalTrace ------------------------------
(* Conformance: what Date and Time returned is what Cal.tla determines. st: the dates in the driver's slots. *)
EXTENDS Cal, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
O == Ev.o
Z == Traces[h][1].zone
D == st[Ev.k + 1]
Keep == UNCHANGED st
Fits(d) == Proper(d) /\ d.y < 10000
Same(d, e) == d.y = e.y /\ d.m = e.m /\ d.d = e.d /\ d.h = e.h /\ d.mi = e.mi /\ d.s = e.s
Key(d) == <<d.y, d.m, d.d, d.h, d.mi, d.s>>
Order(a, b) == LET k == SelectInSeq([i \in 1..6 |-> a[i] - b[i]], LAMBDA x : x # 0) IN IF k = 0 THEN "=" ELSE IF a[k] < b[k] THEN "<" ELSE ">"
Ord(a, b) == IF Less(a, b) THEN "<" ELSE IF Less(b, a) THEN ">" ELSE "="
TF(x) == IF x THEN "T" ELSE "F"
Set == st' = [st EXCEPT ![Ev.k + 1] = O.d]
Step ==
  CASE Ev.op = "zone" -> Keep
    [] Ev.op = "date" -> IF Ev.y < 0 THEN O.ex = "Date" /\ Keep ELSE O.ex = "" /\ IsDate(O.d, Ev, Z) /\ Set
    [] Ev.op = "univ" -> O.ex = "" /\ IsUniv(O.d, Ev.w) /\ Set
    [] Ev.op = "local" -> O.ex = "" /\ IsLocal(O.d, Ev.w, Z) /\ Set
    [] Ev.op = "totime" -> /\ Keep
                           /\ IF ~Proper(D) THEN O.ex = "Date"
                              ELSE LET ms == Means(D, Z, IF D.off = "none" THEN 0 ELSE East(D.west))
                                   IN \/ O.ex = "Date" /\ \E x \in ms : x[1] < 0
                                      \/ O.ex = "" /\ O.us = 0 /\ O.w \in ms /\ O.w[1] >= 0
    [] Ev.op = "str" -> Keep /\ IF Fits(D) THEN O.ex = "" /\ O.s = Text(D) ELSE ~Proper(D) => O.ex = "Date"
    [] Ev.op = "fmt" -> Keep /\ IF Fits(D) THEN LET s == Format(Ev.f, D) IN IF Len(s) > 255 THEN O.ex \in {"Date", ""} /\ (O.ex = "" => O.s = s) ELSE O.ex = "" /\ O.s = s
                                ELSE ~Proper(D) => O.ex = "Date"
    [] Ev.op = "cmp" -> Keep /\ O.ex = "" /\ O.r = Order(Key(D), Key(st[Ev.j + 1]))
    [] Ev.op \in {"scan", "fromstr"} ->      \* Ev.want: the fields that the text was made of; bad: it is no date
         IF Ev.bad THEN O.ex = "NONE" /\ Keep
         ELSE /\ O.ex = "" /\ (Ev.op = "scan" => O.rest = Ev.rest)
              /\ Same(O.d, Ev.want) /\ O.d.wday = Ev.want.wday /\ (Proper(O.d) => O.d.yday = YearDay(O.d.y, O.d.m, O.d.d)) /\ O.d.dst = "?" /\ O.d.off = "none" /\ Set
    [] Ev.op = "localoff" -> Keep /\ O.t = <<West(Z.std), 0>>
    [] Ev.op = "now" -> Keep /\ O.b = "T"
    [] Ev.op = "tbin" -> /\ Keep /\ O.sum = Plus(Ev.a, Ev.b) /\ O.diff = Minus(Ev.a, Ev.b)
                         /\ O.r = Ord(Ev.a, Ev.b)
                         /\ O.cmp = TF(Less(Ev.a, Ev.b)) \o TF(~Less(Ev.b, Ev.a)) \o TF(Less(Ev.b, Ev.a)) \o TF(~Less(Ev.a, Ev.b))
    [] Ev.op = "tconv" -> LET m == Mag(Ev.a)      \* truncated towards zero, as magnitudes
                              neg(x) == Neg(Ev.a) /\ x # 0
                          IN /\ Keep /\ O.sec = <<neg(m[1]), m[1]>>
                             /\ O.ms = <<neg(m[1] + m[2] \div 1000), m[1], m[2] \div 1000>>
                             /\ O.us = Ev.a /\ O.b = "T" /\ Rounded(O.str, Ev.a, 3)
    [] Ev.op = "tunits" -> Keep /\ O.s = Ev.s /\ O.ms = Ev.ms /\ O.us = Ev.us
    [] Ev.op = "tfmt" -> Keep /\ Rounded(O.str, Ev.a, IF Ev.p < 0 THEN 0 ELSE Ev.p)
    [] Ev.op = "tscan" -> LET w == ScanTime(Ev.s)
                          IN /\ Keep /\ O.b = "T"
                             /\ IF ~w.ok THEN O.ex = "NONE"
                                ELSE /\ O.ex = "" /\ O.rest \in {w.rest} \cup (IF w.dangling THEN {w.rest - 1} ELSE {})
                                     /\ LET v == {w.t} \cup (IF w.more THEN {Plus(w.t, <<0, 1>>)} ELSE {})
                                        IN \E x \in v : O.t = IF w.neg THEN Minus(<<0, 0>>, x) ELSE x
Nil == [y |-> 1970, m |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, wday |-> 4, yday |-> 0, dst |-> "0", off |-> "0", west |-> 0]
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = [k \in 1..8 |-> Nil]
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ \/ Step /\ l' = l + 1
           \/ ~ENABLED Step /\ PrintT(<<"REJECT", h, l, ToJson(st)>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
