------------------------------ MODULE PathsMC ------------------------------
(* Laws of Paths.tla on all short paths over a, dot and slash. *)
EXTENDS Paths
CONSTANT N
VARIABLES p, q
RECURSIVE All(_)
All(n) == IF n = 0 THEN {<<>>} ELSE LET S == All(n - 1) IN S \cup {Append(s, ch) : s \in S, ch \in {97, 46, 47}}
Init == p \in All(N) /\ q = <<>>
Next == q = <<>> /\ UNCHANGED p /\ q' \in All(3)
Laws == /\ Spell(Abs(p), Arcs(p)) = p
        /\ IsCanon(Canon(p)) /\ Den(Canon(p)) = Den(p)
        /\ \A a \in Range(Arcs(Canon(p))) : a # <<>> \/ IsRoot(Canon(p))
        /\ Canon(p) # Dot => Dot \notin Range(Arcs(Canon(p)))
        /\ ~Abs(q) => Den(Glue(p, q)) = From(Den(p), q)
        /\ LET as == Arcs(p) IN p # <<>> => Glue(Spell(Abs(p), Front(as)), Last(as)) = p \/ ~IsCanon(p)
        /\ DotAt(p) > 0 => p[DotAt(p)] = 46 /\ DotAt(p) < Len(p)
=============================================================================
