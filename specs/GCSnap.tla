------------------------------- MODULE GCSnap --------------------------------
(* The invariants of GC.tla, evaluated on snapshots of the real heap (c/heapwalk.c).
   A snapshot: phase, nodes (the graph below the driver's slots; node 1 is the slot array), each with gen, col ("free":
   not an allocated block), ahead (at or beyond the sweep pointer), prot (the marker will still reach it through white
   blocks from a gray one), weak, f = sequence of <<target, young, remembered>> (target: node, -1 beyond the horizon or
   only weakly reached, -2 not an allocated block); bad: violations of the block structure of the heap; rootbad: roots
   of the process (stack, C roots, global data) that are not allocated blocks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
S == Traces[h][l]
RECURSIVE Close(_, _, _)
Close(s, done, todo) ==
  IF todo = {} THEN done
  ELSE LET d == done \cup todo
           nx == UNION {IF s.nodes[x].weak THEN {} ELSE {s.nodes[x].f[i][1] : i \in 1..Len(s.nodes[x].f)} : x \in todo}
       IN Close(s, d, {x \in nx : x > 0} \ d)
Reach(s) == Close(s, {}, {1})
NoDangling(s, R) == \A x \in R : /\ s.nodes[x].col # "free"
                                 /\ \A i \in 1..Len(s.nodes[x].f) : s.nodes[x].f[i][1] # -2
Remembered(s, R) == \A x \in R : s.nodes[x].gen = "old" =>
                       \A i \in 1..Len(s.nodes[x].f) : s.nodes[x].f[i][2] = 1 => s.nodes[x].f[i][3] = 1
SweepInv(s, R) == s.phase \in {"weak", "sweep"} =>
                       \A x \in R : s.nodes[x].gen = "old" /\ s.nodes[x].ahead => s.nodes[x].col = "black"
GrayProtected(s, R) == s.phase = "mark" =>
                       \A x \in R : s.nodes[x].gen = "old" /\ s.nodes[x].col = "white" => s.nodes[x].prot
Structure(s) == s.bad = 0 /\ s.rootbad = 0
Why(s) == LET R == Reach(s) IN
  IF ~Structure(s) THEN "heap structure" ELSE IF ~NoDangling(s, R) THEN "dangling pointer"
  ELSE IF ~Remembered(s, R) THEN "old-to-young pointer not remembered"
  ELSE IF ~SweepInv(s, R) THEN "reachable block will be swept"
  ELSE IF ~GrayProtected(s, R) THEN "reachable block escapes the marker" ELSE ""
Init == h \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ LET w == Why(S) IN IF w = "" THEN l' = l + 1 ELSE PrintT(<<"REJECT", h, l, w>>) /\ l' = 1000000
=============================================================================
