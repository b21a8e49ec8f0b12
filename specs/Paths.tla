------------------------------- MODULE Paths -------------------------------
(* Unix paths as character sequences. The syntax (arcs, files, extensions) is given exactly; of the functions that    *)
(* compute a path, what the result denotes: a place reached from the root or from the current directory by going up   *)
(* and then down along names (without symbolic links). Meta: out = [ex, s].                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Slash == 47
Dot == <<46>>
DotDot == <<46, 46>>
Abs(p) == p # <<>> /\ p[1] = Slash
RECURSIVE Fields(_), Join(_)
Fields(s) == LET k == SelectInSeq(s, LAMBDA ch : ch = Slash)
             IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Fields(SubSeq(s, k + 1, Len(s)))
Join(as) == IF as = <<>> THEN <<>> ELSE IF Len(as) = 1 THEN as[1] ELSE as[1] \o <<Slash>> \o Join(Tail(as))
Arcs(p) == IF p = <<>> THEN <<>> ELSE Fields(IF Abs(p) THEN Tail(p) ELSE p)
Spell(abs, as) == IF abs THEN <<Slash>> \o Join(as) ELSE Join(as)

(* ---- denotation ---- *)
Go(d, a) == CASE a = <<>> \/ a = Dot -> d
              [] a = DotDot -> IF d.names # <<>> THEN [d EXCEPT !.names = Front(@)] ELSE IF d.abs THEN d ELSE [d EXCEPT !.ups = @ + 1]
              [] OTHER -> [d EXCEPT !.names = Append(@, a)]
RECURSIVE Follow(_, _)
Follow(d, as) == IF as = <<>> THEN d ELSE Follow(Go(d, as[1]), Tail(as))
Den(p) == Follow([abs |-> Abs(p), ups |-> 0, names |-> <<>>], Arcs(p))
From(d, p) == IF Abs(p) THEN Den(p) ELSE Follow(d, Arcs(p))
Canon(p) == LET d == Den(p)
                as == [k \in 1..d.ups |-> DotDot] \o d.names
            IN IF as = <<>> THEN (IF d.abs THEN <<Slash>> ELSE Dot) ELSE Spell(d.abs, as)
IsCanon(p) == Canon(p) = p
IsRoot(p) == p = <<Slash>>

(* ---- what the functions return: a predicate on the outcome o = [ex, s] ---- *)
Is(o, s) == o.ex = "" /\ o.s = s
Raises(o) == o.ex = "Path"
ToStr(o, abs, vol, as) == IF vol # <<>> \/ (~abs /\ as # <<>> /\ as[1] = <<>>) THEN Raises(o) ELSE Is(o, Spell(abs, as))
Canonical(o, p) == Is(o, Canon(p))
Parent(o, p) == /\ o.ex = "" /\ Den(o.s) = Go(Den(p), DotDot)
                /\ IsCanon(p) => IsCanon(o.s) /\ (o.s = p <=> IsRoot(p))
Glue(p, q) == IF p = <<>> THEN q ELSE IF Last(p) = Slash THEN p \o q ELSE p \o <<Slash>> \o q
Concat(o, p, q) == IF Abs(q) THEN Raises(o) ELSE Is(o, Glue(p, q))
MkAbs(o, p, q) == IF ~Abs(q) THEN Raises(o) ELSE IF Abs(p) THEN Is(o, p) ELSE Is(o, Canon(Glue(q, p)))
MkRel(o, p, q) == CASE ~Abs(q) -> Raises(o)
                    [] Abs(q) /\ ~Abs(p) -> Is(o, p)
                    [] OTHER -> \/ /\ o.ex = "" /\ ~Abs(o.s) /\ From(Den(q), o.s) = Den(p)
                                   /\ IsCanon(p) /\ IsCanon(q) => IsCanon(o.s)
                                \/ Raises(o) /\ ~IsCanon(p)
SplitDF(dir, file, p) == LET as == Arcs(p) IN IF as = <<>> THEN dir = <<>> /\ file = <<>>
                                              ELSE file = Last(as) /\ dir = Spell(Abs(p), Front(as))
(* 0 if p has no extension, else where its dot is *)
DotAt(p) == LET as == Arcs(p)
                f == IF as = <<>> THEN <<>> ELSE Last(as)
                k == SelectLastInSeq(f, LAMBDA ch : ch = 46)
            IN IF k <= 1 \/ k = Len(f) THEN 0 ELSE Len(p) - Len(f) + k
(* has, ext: the extension *)
SplitBE(base, has, ext, p) ==
  LET k == DotAt(p)
  IN IF k = 0 THEN base = p /\ ~has
     ELSE /\ has /\ ext = SubSeq(p, k + 1, Len(p))
          /\ IF IsCanon(p) THEN base = SubSeq(p, 1, k - 1) ELSE Den(base) = Den(SubSeq(p, 1, k - 1))
JoinBE(o, base, has, ext) == Is(o, IF has /\ ext # <<>> THEN base \o <<46>> \o ext ELSE base)
=============================================================================
