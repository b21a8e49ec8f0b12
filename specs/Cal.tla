-------------------------------- MODULE Cal --------------------------------
(* The Gregorian calendar, time zones with daylight saving rules, and times. A time is <<s, us>>: s seconds from 1970 *)
(* (possibly negative) and 0 <= us < 10^6. A moment is <<day, sec>> with 0 <= sec < 86400, day 0 = 1 January 1970.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE MonthLen(y, m - 1) + Before(y, m - 1)
YearDay(y, m, d) == Before(y, m) + d - 1
(* days from 1 January 1970 to 1 January of year y *)
NewYear(y) == LET z == y - 1 IN 365 * (y - 1970) + ((z \div 4) - (z \div 100) + (z \div 400)) - 477
DayNo(y, m, d) == NewYear(y) + YearDay(y, m, d)
WeekDay(n) == (n + 4) % 7                     \* 0 = Sunday; 1 January 1970 was a Thursday
(* moment + seconds *)
Shift(w, s) == <<w[1] + ((w[2] + s) \div 86400), (w[2] + s) % 86400>>
After(v, w) == v[1] > w[1] \/ (v[1] = w[1] /\ v[2] >= w[2])
Moment(s) == <<s \div 86400, s % 86400>>

(* ---- zones: [std, dst: seconds east; has; from, to: [m, w, d, t]]: the w-th (5: last) day d of month m at local time t ---- *)
RuleDay(y, r) == LET first == DayNo(y, r.m, 1)
                     k == first + ((r.d - WeekDay(first)) % 7) + 7 * (r.w - 1)
                 IN IF k >= first + MonthLen(y, r.m) THEN k - 7 ELSE k
Begins(z, y) == Shift(<<RuleDay(y, z.from), z.from.t>>, 0 - z.std)
Ends(z, y) == Shift(<<RuleDay(y, z.to), z.to.t>>, 0 - z.dst)
Dst(z, w, y) == z.has /\ LET b == Begins(z, y)
                             e == Ends(z, y)
                         IN IF After(e, b) THEN After(w, b) /\ ~After(w, e) ELSE After(w, b) \/ ~After(w, e)

(* ---- dates: [y, m, d, h, mi, s, wday, yday, dst ("0", "1", "?"), off ("none" or seconds west)] ---- *)
Clock(d) == <<DayNo(d.y, d.m, d.d), d.h * 3600 + d.mi * 60 + d.s>>       \* as a moment; sec may be 86400 or 86401
Normal(d) == /\ d.m \in 1..12 /\ d.d \in 1..MonthLen(d.y, d.m) /\ d.h \in 0..23 /\ d.mi \in 0..59 /\ d.s \in 0..59
             /\ d.wday = WeekDay(DayNo(d.y, d.m, d.d)) /\ d.yday = YearDay(d.y, d.m, d.d)
Proper(d) == /\ d.y >= 1900 /\ d.d \in 1..MonthLen(d.y, d.m) /\ d.h \in 0..23 /\ d.mi \in 0..59 /\ d.s \in 0..61
(* seconds east, of an offset west that is given as a date's *)
East(off) == LET r == IF off < 0 THEN 0 - ((0 - off) % 86400) ELSE off % 86400 IN IF r < 43200 THEN 0 - r ELSE 86400 - r
West(east) == (86400 - east) % 86400
B(x) == IF x THEN "1" ELSE "0"

(* the date of moment w in zone z *)
IsLocal(d, w, z) == LET dst == Dst(z, w, d.y)     \* no zone changes its time at the turn of the year
                    IN Normal(d) /\ Clock(d) = Shift(w, IF dst THEN z.dst ELSE z.std) /\ d.dst = B(dst) /\ d.off = "none"
IsUniv(d, w) == Normal(d) /\ Clock(d) = w /\ d.dst = "0" /\ d.off = "0"
(* the moments that a date can mean: on local time as such, or *)
Means(d, z, east) ==
  LET c == Shift(Clock(d), 0)
      a == Shift(c, 0 - z.std)
      b == Shift(c, 0 - z.dst)
      ok == {x \in {a, b} : Dst(z, x, d.y) = (x = b /\ a # b) /\ (d.dst = "?" \/ d.dst = B(Dst(z, x, d.y)))}
  IN IF d.off # "none" THEN {Shift(c, 0 - east)}
     ELSE IF ~z.has THEN {a}
     ELSE IF ok # {} THEN ok ELSE {a, b}          \* a local time that does not exist
(* date {y, m, ...}: e = arguments *)
Carry(e) == LET mn == e.mi + (e.s \div 60)
                hr == e.h + (mn \div 60)
                days == IF e.off = "none" THEN 0 ELSE IF e.west < 0 THEN 0 - ((0 - e.west) \div 86400) ELSE e.west \div 86400
            IN <<DayNo(e.y, e.m, 1) + (e.d - 1) + (hr \div 24) + days, (hr % 24) * 3600 + (mn % 60) * 60 + (e.s % 60)>>
IsDate(d, e, z) ==
  LET c == Carry(e)
      same == Normal(d) /\ Clock(d) = c
      inrange == c[1] >= DayNo(1970, 1, 1) /\ c[1] <= DayNo(2037, 12, 31)
  IN IF e.off # "none" THEN same /\ d.dst = "0" /\ d.off = ToString(West(East(e.west)))
     ELSE /\ d.off = "none"
          /\ IF ~inrange THEN same /\ d.dst = "?"
             ELSE IF ~z.has THEN same /\ d.dst = "0"
             ELSE LET a == Shift(c, 0 - z.std)
                      b == Shift(c, 0 - z.dst)
                  IN /\ Normal(d)
                     /\ IF Dst(z, a, d.y) /\ ~Dst(z, b, d.y) THEN IsLocal(d, a, z) \/ IsLocal(d, b, z)   \* no such local time
                        ELSE same /\ (IsLocal(d, a, z) \/ IsLocal(d, b, z))

(* ---- texts ---- *)
Digit(n) == 48 + n
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digit(n)>> ELSE Append(Dec(n \div 10), Digit(n % 10))
Pad(n, k, ch) == LET t == Dec(n) IN [i \in 1..(IF Len(t) < k THEN k - Len(t) ELSE 0) |-> ch] \o t
Z2(n) == Pad(n, 2, 48)
Days == <<<<83, 117, 110, 100, 97, 121>>, <<77, 111, 110, 100, 97, 121>>, <<84, 117, 101, 115, 100, 97, 121>>, <<87, 101, 100, 110, 101, 115, 100, 97, 121>>,
          <<84, 104, 117, 114, 115, 100, 97, 121>>, <<70, 114, 105, 100, 97, 121>>, <<83, 97, 116, 117, 114, 100, 97, 121>>>>
Months == <<<<74, 97, 110, 117, 97, 114, 121>>, <<70, 101, 98, 114, 117, 97, 114, 121>>, <<77, 97, 114, 99, 104>>, <<65, 112, 114, 105, 108>>, <<77, 97, 121>>,
            <<74, 117, 110, 101>>, <<74, 117, 108, 121>>, <<65, 117, 103, 117, 115, 116>>, <<83, 101, 112, 116, 101, 109, 98, 101, 114>>,
            <<79, 99, 116, 111, 98, 101, 114>>, <<78, 111, 118, 101, 109, 98, 101, 114>>, <<68, 101, 99, 101, 109, 98, 101, 114>>>>
Three(t) == SubSeq(t, 1, 3)
Text(d) == Three(Days[d.wday + 1]) \o <<32>> \o Three(Months[d.m]) \o <<32>> \o Pad(d.d, 2, 32) \o <<32>> \o Z2(d.h) \o <<58>> \o Z2(d.mi) \o <<58>> \o Z2(d.s) \o <<32>> \o Dec(d.y)
(* one conversion of fmt *)
Conv(c, d) ==
  CASE c = 97 -> Three(Days[d.wday + 1])                      \* a
    [] c = 65 -> Days[d.wday + 1]                             \* A
    [] c = 98 -> Three(Months[d.m])                           \* b
    [] c = 66 -> Months[d.m]                                  \* B
    [] c = 99 -> Text(d)                                      \* c
    [] c = 100 -> Z2(d.d)                                     \* d
    [] c = 72 -> Z2(d.h)                                      \* H
    [] c = 73 -> Z2(((d.h + 11) % 12) + 1)                    \* I
    [] c = 106 -> Pad(d.yday + 1, 3, 48)                      \* j
    [] c = 109 -> Z2(d.m)                                     \* m
    [] c = 77 -> Z2(d.mi)                                     \* M
    [] c = 112 -> IF d.h < 12 THEN <<65, 77>> ELSE <<80, 77>> \* p
    [] c = 83 -> Z2(d.s)                                      \* S
    [] c = 85 -> Z2((d.yday + 7 - d.wday) \div 7)             \* U
    [] c = 119 -> Dec(d.wday)                                 \* w
    [] c = 87 -> Z2((d.yday + 7 - ((d.wday + 6) % 7)) \div 7) \* W
    [] c = 120 -> Z2(d.m) \o <<47>> \o Z2(d.d) \o <<47>> \o Z2(d.y % 100)
    [] c = 88 -> Z2(d.h) \o <<58>> \o Z2(d.mi) \o <<58>> \o Z2(d.s)
    [] c = 121 -> Z2(d.y % 100)                               \* y
    [] c = 89 -> Dec(d.y)                                     \* Y
    [] c = 37 -> <<37>>
RECURSIVE Format(_, _)
Format(f, d) == IF f = <<>> THEN <<>> ELSE IF f[1] = 37 THEN Conv(f[2], d) \o Format(SubSeq(f, 3, Len(f)), d) ELSE <<f[1]>> \o Format(Tail(f), d)

(* ---- times ---- *)
Mega == 1000000
Norm(s, us) == <<s + (us \div Mega), us % Mega>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Neg(a) == a[1] < 0
Mag(a) == IF Neg(a) THEN Norm(0 - a[1], 0 - a[2]) ELSE a
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000 [] k >= 6 -> Mega
(* a to p decimals, as [neg, s, f]: f the decimals as a number; a tie may go either way *)
Rounded(o, a, p) ==
  LET u == Pow10(6 - p)
      m == Mag(a)
      lo == m[2] \div u
      r == m[2] % u
      Up == Norm(m[1], (lo + 1) * u)
      Is(x) == o.s = x[1] /\ o.f = x[2] \div u
  IN /\ o.neg => Neg(a)
     /\ (Neg(a) /\ (o.s > 0 \/ o.f > 0)) => o.neg
     /\ \/ 2 * r <= u /\ Is(<<m[1], lo * u>>)
        \/ 2 * r >= u /\ r > 0 /\ Is(Up)
(* the time at the head of a text (of codes): [ok, neg, t, rest, loose]; loose: more than six decimals, or a dangling point *)
Space(ch) == ch = 32 \/ ch \in 9..13
IsDigit(ch) == ch \in 48..57
RECURSIVE Value(_)
Drop(s, P(_)) == LET k == SelectInSeq(s, LAMBDA ch : ~P(ch)) IN IF k = 0 THEN <<>> ELSE SubSeq(s, k, Len(s))
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(Front(s)) + (Last(s) - 48)
Taken(s, t) == SubSeq(s, 1, Len(s) - Len(t))
ScanTime(s) ==
  LET a == Drop(s, Space)
      signed == a # <<>> /\ a[1] \in {43, 126, 45}
      b == IF signed THEN Tail(a) ELSE a
      c == Drop(b, IsDigit)
      n == Taken(b, c)
      pt == c # <<>> /\ c[1] = 46
      e == IF pt THEN Drop(Tail(c), IsDigit) ELSE c
      f == IF pt THEN Taken(Tail(c), e) ELSE <<>>
      six == [k \in 1..6 |-> IF k <= Len(f) THEN f[k] ELSE 48]
  IN IF n = <<>> /\ f = <<>> THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, neg |-> signed /\ a[1] # 43, t |-> <<Value(n), Value(six)>>, rest |-> Len(IF f = <<>> THEN c ELSE e),
           dangling |-> pt /\ f = <<>>, more |-> Len(f) > 6]
=============================================================================
