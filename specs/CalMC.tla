------------------------------- MODULE CalMC -------------------------------
(* Cal.tla against a calendar that is counted day by day, and each time zone against its two changes a year. *)
EXTENDS Cal
CONSTANTS First, End
VARIABLES y, m, d, n, wd, yd
vars == <<y, m, d, n, wd, yd>>
Init == y = First /\ m = 1 /\ d = 1 /\ yd = 0 /\ n = NewYear(First) /\ wd = WeekDay(NewYear(First))
Next == /\ y < End /\ n' = n + 1 /\ wd' = (wd + 1) % 7
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ yd' = yd + 1 /\ UNCHANGED <<y, m>>
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ yd' = yd + 1 /\ UNCHANGED y
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ yd' = 0
Zones == {[std |-> 3600, dst |-> 7200, has |-> TRUE, from |-> [m |-> 3, w |-> 5, d |-> 0, t |-> 7200], to |-> [m |-> 10, w |-> 5, d |-> 0, t |-> 10800]],
          [std |-> 36000, dst |-> 39600, has |-> TRUE, from |-> [m |-> 10, w |-> 1, d |-> 0, t |-> 7200], to |-> [m |-> 4, w |-> 1, d |-> 0, t |-> 10800]]}
Noon == <<n, 43200>>
Epoch == DayNo(1970, 1, 1) = 0 /\ DayNo(2000, 3, 1) = 11017 /\ DayNo(2038, 1, 19) = 24855
Laws == /\ DayNo(y, m, d) = n /\ YearDay(y, m, d) = yd /\ WeekDay(n) = wd /\ Epoch
        /\ \A z \in Zones :
             /\ WeekDay(RuleDay(y, z.from)) = 0 /\ WeekDay(RuleDay(y, z.to)) = 0
             /\ RuleDay(y, z.from) \in DayNo(y, z.from.m, 1)..(DayNo(y, z.from.m, 1) + MonthLen(y, z.from.m) - 1)
             /\ Dst(z, Noon, y) # Dst(z, Shift(Noon, 86400), y) => n \in {RuleDay(y, z.from) - 1, RuleDay(y, z.to) - 1, RuleDay(y, z.from), RuleDay(y, z.to)}
             /\ LET c == [y |-> y, m |-> m, d |-> d, h |-> 12, mi |-> 0, s |-> 0, dst |-> "?", off |-> "none"] IN Cardinality(Means(c, z, 0)) = 1
=============================================================================
