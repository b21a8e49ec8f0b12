------------------------------ MODULE MatchMC --------------------------------
(* Every small match: the rows' usefulness, decided from the patterns, is that found by trying all values. *)
EXTENDS Match, FiniteSets
CONSTANT Rows3
CO(c, n) == [c |-> c, n |-> n]
Sigs == [A |-> <<CO("A", 0), CO("B", 0), CO("C", 1)>>, B |-> <<CO("A", 0), CO("B", 0), CO("C", 1)>>, C |-> <<CO("A", 0), CO("B", 0), CO("C", 1)>>,
         T |-> <<CO("T", 0), CO("F", 0)>>, F |-> <<CO("T", 0), CO("F", 0)>>]
Bools == {<<"c", "T", <<>>>>, <<"c", "F", <<>>>>}
Vals1 == {<<"c", "A", <<>>>>, <<"c", "B", <<>>>>} \cup {<<"c", "C", <<b>>>> : b \in Bools}
Lits == {<<"k", n>> : n \in {"1", "2", "other"}}
(* the matched type: a pair of the datatype and (a truth value or an integer) *)
Values(second) == {<<"t", <<x, y>>>> : x \in Vals1, y \in second}
W == {<<"w">>}
PBool == Bools \cup W
PData == {<<"c", "A", <<>>>>, <<"c", "B", <<>>>>, <<"v", "x">>} \cup {<<"c", "C", <<p>>>> : p \in PBool}
PLit == W \cup {<<"k", "1">>, <<"as", "z", <<"k", "2">>>>}
Pats(second) == {<<"w">>} \cup {<<"t", <<p, q>>>> : p \in PData, q \in second}
VARIABLES kind, rows
vars == <<kind, rows>>
Second == IF kind = "bool" THEN PBool ELSE PLit
Init == kind \in {"bool", "lit"} /\ rows = <<>>
Next == /\ Len(rows) < (IF Rows3 THEN 3 ELSE 2)
        /\ \E p \in Pats(Second) : rows' = Append(rows, [ps |-> <<p>>, outs |-> <<>>])
        /\ UNCHANGED kind
Vs == Values(IF kind = "bool" THEN Bools ELSE Lits)
Hits(i) == {v \in Vs : PM(rows[i].ps[1], v, [x \in {} |-> 0]) # <<>>}
Taken(i) == {v \in Vs : First(rows, <<v>>) # <<>> /\ First(rows, <<v>>)[1] = i}
Exhaustion == rows # <<>> => (Inexhaustive(rows, Sigs) <=> UNION {Hits(i) : i \in 1..Len(rows)} # Vs)
Redundancy == rows # <<>> => (SomeUnused(rows, Sigs) <=> \E i \in 1..Len(rows) : Taken(i) = {})
(* What is taken by a rule is what it matches less what earlier rules match. *)
FirstMatch == \A i \in 1..Len(rows) : Taken(i) = Hits(i) \ UNION {Hits(j) : j \in 1..(i - 1)}
=============================================================================
