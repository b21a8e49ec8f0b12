----------------------------- MODULE PathsTrace -----------------------------
(* Conformance: what the functions of structure Path returned is what Paths.tla allows. *)
EXTENDS Paths, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
Ev == Traces[h][l]
O == Ev.o
Step ==
  CASE Ev.op = "fromString" -> O.abs = Abs(Ev.p) /\ O.vol = <<>> /\ O.arcs = Arcs(Ev.p)
    [] Ev.op = "toString" -> ToStr(O, Ev.abs, Ev.vol, Ev.arcs)
    [] Ev.op = "canon" -> Canonical(O, Ev.p)
    [] Ev.op = "tests" -> O.b = <<Abs(Ev.p), ~Abs(Ev.p), IsRoot(Ev.p), IsCanon(Ev.p)>>
    [] Ev.op = "vol" -> O.vol = <<>> /\ O.b = <<Ev.p = <<>>, Ev.p = <<>>>>
    [] Ev.op = "parent" -> Parent(O, Ev.p)
    [] Ev.op = "concat" -> Concat(O, Ev.p, Ev.q)
    [] Ev.op = "joindf" -> Concat(O, Ev.p, Ev.q)
    [] Ev.op = "mkabs" -> MkAbs(O, Ev.p, Ev.q)
    [] Ev.op = "mkrel" -> MkRel(O, Ev.p, Ev.q)
    [] Ev.op = "splitdf" -> SplitDF(O.dir, O.file, Ev.p) /\ O.b = <<TRUE>>
    [] Ev.op = "splitbe" -> SplitBE(O.base, O.has, O.ext, Ev.p) /\ O.b = <<TRUE>>
    [] Ev.op = "joinbe" -> JoinBE(O, Ev.p, Ev.has, Ev.ext)
    [] Ev.op \in {"unix", "tounix"} -> Is(O, Ev.p)
Init == h \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ \/ Step /\ l' = l + 1
           \/ ~Step /\ PrintT(<<"REJECT", h, l>>) /\ l' = l + 1
=============================================================================
