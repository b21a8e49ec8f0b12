--------------------------------- MODULE GC ----------------------------------
(* The storage manager: generational (minor heap, remembered set) with an incremental mark / weak / sweep major
   collector, as in runtime/minor_gc.c, major_gc.c, memory.c and the weak-pointer primitives of mosml.c.

   Block identifiers stand for addresses (the sweep goes through them in order). Block 1 is the global data.
   Each block has NF fields holding 0 (an immediate) or a block. The mutator holds R roots (stack, C roots).
   Collector steps may come between any two mutator steps; major slices run only when the minor heap is empty
   (they follow a minor collection).

   Switches (all TRUE in the real design) let TLC show what each mechanism is needed for. *)
EXTENDS Naturals, FiniteSets
CONSTANTS N, NF, R, Weak,
          Barrier,       \* Modify darkens the overwritten value while marking
          RefTab,        \* Modify / initialize record old-to-young pointers
          AllocBlack,    \* blocks allocated ahead of the sweep pointer, or while marking, are black
          WeakDarken,    \* reading a weak pointer while marking darkens its target
          WeakDead       \* in the weak phase a white target counts as dead
O == 1..N
F == 1..NF
Rs == 1..R
VARIABLES gen, col, fld, weak, root, reft, phase, swp, warr
vars == <<gen, col, fld, weak, root, reft, phase, swp, warr>>

Nil == [f \in F |-> 0]
Init == /\ gen = [o \in O |-> IF o = 1 THEN "old" ELSE "free"]
        /\ col = [o \in O |-> IF o = 1 THEN "gray" ELSE "white"]
        /\ fld = [o \in O |-> Nil] /\ weak = [o \in O |-> FALSE]
        /\ root = [r \in Rs |-> 0] /\ reft = {} /\ phase = "mark" /\ swp = 1 /\ warr = {}

Young(v) == v # 0 /\ gen[v] = "young"
Old(v) == v # 0 /\ gen[v] = "old"
White(v) == Old(v) /\ col[v] = "white"
Darken(c, v) == IF v # 0 /\ gen[v] = "old" /\ c[v] = "white" THEN [c EXCEPT ![v] = "gray"] ELSE c
NewCol(o) == IF AllocBlack /\ (phase = "mark" \/ o >= swp) THEN "black" ELSE "white"
Vals == {root[r] : r \in Rs} \cup {0, 1}

(* ---- reachability ---- *)
Succ(S) == S \cup {fld[o][f] : o \in {x \in S : x # 0 /\ ~weak[x]}, f \in F}
RECURSIVE Close(_)
Close(S) == IF Succ(S) = S THEN S ELSE Close(Succ(S))
Reach == Close({1} \cup {root[r] : r \in Rs}) \ {0}

(* ---- mutator ---- *)
AllocYoung == \E r \in Rs, v \in Vals : \E o \in O :
   /\ gen[o] = "free" /\ \A p \in O : p < o => gen[p] # "free"
   /\ gen' = [gen EXCEPT ![o] = "young"] /\ fld' = [fld EXCEPT ![o] = [f \in F |-> IF f = 1 THEN v ELSE 0]]
   /\ root' = [root EXCEPT ![r] = o]
   /\ weak' = [weak EXCEPT ![o] = FALSE]
   /\ UNCHANGED <<col, reft, phase, swp, warr>>
AllocOld == \E r \in Rs, v \in Vals, w \in (IF Weak THEN BOOLEAN ELSE {FALSE}) : \E o \in O :
   /\ gen[o] = "free"
   /\ gen' = [gen EXCEPT ![o] = "old"] /\ col' = [col EXCEPT ![o] = NewCol(o)]
   /\ LET x == IF w THEN 0 ELSE v IN
        /\ fld' = [fld EXCEPT ![o] = [f \in F |-> IF f = 1 THEN x ELSE 0]]
        /\ reft' = IF RefTab /\ Young(x) THEN reft \cup {<<o, 1>>} ELSE reft
   /\ weak' = [weak EXCEPT ![o] = w]
   /\ root' = [root EXCEPT ![r] = o]
   /\ UNCHANGED <<phase, swp, warr>>
Modify == \E o \in Vals \ {0}, f \in F, v \in Vals :
   /\ (o = 1 \/ \E r \in Rs : root[r] = o)
   /\ fld' = [fld EXCEPT ![o][f] = v]
   /\ IF gen[o] = "old"
      THEN LET old == fld[o][f] IN
           /\ col' = IF Barrier /\ phase = "mark" THEN Darken(col, old) ELSE col
           /\ reft' = IF RefTab /\ Young(v) /\ ~Young(old) THEN reft \cup {<<o, f>>} ELSE reft
      ELSE UNCHANGED <<col, reft>>
   /\ UNCHANGED <<gen, weak, root, phase, swp, warr>>
Read == \E r \in Rs, o \in Vals \ {0}, f \in F :
   /\ ~weak[o] /\ root' = [root EXCEPT ![r] = fld[o][f]]
   /\ UNCHANGED <<gen, col, fld, weak, reft, phase, swp, warr>>
Drop == \E r \in Rs : root' = [root EXCEPT ![r] = 0] /\ UNCHANGED <<gen, col, fld, weak, reft, phase, swp, warr>>
Dead(v) == v = 0 \/ (WeakDead /\ phase = "weak" /\ White(v))
WeakSub == \E r \in Rs, o \in Vals \ {0}, f \in F :
   /\ weak[o] /\ ~Dead(fld[o][f])
   /\ root' = [root EXCEPT ![r] = fld[o][f]]
   /\ col' = IF WeakDarken /\ phase = "mark" THEN Darken(col, fld[o][f]) ELSE col
   /\ UNCHANGED <<gen, fld, weak, reft, phase, swp, warr>>

(* ---- minor collection: everything reachable from roots and remembered fields is promoted ---- *)
Minor ==
   /\ \E o \in O : gen[o] = "young"
   /\ LET Start == {root[r] : r \in Rs} \cup {fld[p[1]][p[2]] : p \in reft}
          RECURSIVE Y(_)
          Y(S) == LET T == S \cup {v \in {fld[o][f] : o \in S, f \in F} : Young(v)} IN IF T = S THEN S ELSE Y(T)
          Live == Y({v \in Start : Young(v)})
      IN /\ gen' = [o \in O |-> IF o \in Live THEN "old" ELSE IF gen[o] = "young" THEN "free" ELSE gen[o]]
         /\ col' = [o \in O |-> IF o \in Live THEN NewCol(o) ELSE col[o]]
   /\ reft' = {}
   /\ UNCHANGED <<fld, weak, root, phase, swp, warr>>

(* ---- major slices ---- *)
Empty == \A o \in O : gen[o] # "young"
MarkStep ==
   /\ phase = "mark" /\ Empty
   /\ \E o \in O : /\ gen[o] = "old" /\ col[o] = "gray"
        /\ LET c1 == [col EXCEPT ![o] = "black"] IN
           IF weak[o] THEN col' = c1 /\ warr' = warr \cup {o}
           ELSE /\ col' = [x \in O |-> IF gen[x] = "old" /\ c1[x] = "white" /\ \E f \in F : fld[o][f] = x
                                       THEN "gray" ELSE c1[x]]
                /\ UNCHANGED warr
   /\ UNCHANGED <<gen, fld, weak, root, reft, phase, swp>>
MarkDone ==
   /\ phase = "mark" /\ Empty /\ \A o \in O : ~(gen[o] = "old" /\ col[o] = "gray")
   /\ phase' = "weak" /\ swp' = 1 /\ UNCHANGED <<gen, col, fld, weak, root, reft, warr>>
WeakPhase ==
   /\ phase = "weak" /\ Empty
   /\ fld' = [o \in O |-> IF o \in warr THEN [f \in F |-> IF White(fld[o][f]) THEN 0 ELSE fld[o][f]] ELSE fld[o]]
   /\ warr' = {} /\ phase' = "sweep" /\ UNCHANGED <<gen, col, weak, root, reft, swp>>
SweepStep ==
   /\ phase = "sweep" /\ Empty /\ swp <= N
   /\ swp' = swp + 1
   /\ IF gen[swp] = "old" /\ col[swp] = "white"
      THEN /\ gen' = [gen EXCEPT ![swp] = "free"] /\ fld' = [fld EXCEPT ![swp] = Nil]
           /\ weak' = [weak EXCEPT ![swp] = FALSE] /\ UNCHANGED col
      ELSE /\ col' = [col EXCEPT ![swp] = "white"] /\ UNCHANGED <<gen, fld, weak>>
   /\ UNCHANGED <<root, reft, phase, warr>>
StartCycle ==
   /\ phase = "sweep" /\ Empty /\ swp = N + 1
   /\ phase' = "mark" /\ swp' = 1
   /\ col' = [o \in O |-> IF gen[o] = "old" /\ (o = 1 \/ \E r \in Rs : root[r] = o) THEN "gray" ELSE col[o]]
   /\ UNCHANGED <<gen, fld, weak, root, reft, warr>>

Mutator == AllocYoung \/ AllocOld \/ Modify \/ Read \/ Drop \/ WeakSub
Collector == Minor \/ MarkStep \/ MarkDone \/ WeakPhase \/ SweepStep \/ StartCycle
Next == Mutator \/ Collector
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
(* No block the program can reach is ever reclaimed. *)
NoDangling == \A o \in Reach : gen[o] # "free"
(* A weak pointer in a reachable weak array is dead or refers to an existing block. *)
WeakOk == \A o \in Reach : weak[o] => \A f \in F : fld[o][f] = 0 \/ gen[fld[o][f]] # "free"
(* Pointers from old to young blocks are remembered. *)
Remembered == \A o \in Reach : Old(o) => \A f \in F : Young(fld[o][f]) => <<o, f>> \in reft
(* While sweeping, whatever is reachable and not yet swept is black. *)
SweepInv == phase \in {"weak", "sweep"} => \A o \in Reach : Old(o) /\ o >= swp => col[o] = "black"
(* While marking, whatever is reachable and white will still be found: it hangs below a gray block through white ones. *)
RECURSIVE Front(_)
Front(S) == LET T == S \cup {v \in {fld[o][f] : o \in {x \in S : ~weak[x]}, f \in F} : White(v)} IN IF T = S THEN S ELSE Front(T)
GrayProtected == phase = "mark" => LET P == Front({o \in O : gen[o] = "old" /\ col[o] = "gray"})
                                   IN \A o \in Reach : White(o) => o \in P
(* The collector never changes what the program sees: contents of reachable strong fields, and weak targets that
   are still strongly reachable. *)
Invisible == [][Collector => /\ Reach' = Reach
                             /\ \A o \in Reach : \A f \in F :
                                   fld'[o][f] = fld[o][f] \/ (weak[o] /\ fld[o][f] \notin Reach /\ fld'[o][f] = 0)]_vars
(* A weak target that is reported dead was not strongly reachable. *)
DeadOk == \A o \in Reach : weak[o] => \A f \in F : (fld[o][f] # 0 /\ Dead(fld[o][f])) => fld[o][f] \notin Reach
=============================================================================
