------------------------------- MODULE FsTrace -------------------------------
(* Conformance: what FileSys did in a scratch tree, and what it said, is what Fs.tla has. o = the reply: e (errno, 0 = *)
(* success, -1 = Io), s, n, us, abs, arcs, names.                                                                     *)
EXTENDS Fs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, S
Ev == Traces[h][l]
O == Ev.o
Do(r) == (IF r.errs = {} THEN O.e = 0 ELSE O.e \in r.errs) /\ S' = r.st
Io(r) == (IF r.errs = {} THEN O.e = 0 ELSE O.e = 0 - 1) /\ S' = r.st
Ask(w, ok) == S' = S /\ IF w.e # 0 THEN O.e = w.e ELSE O.e = 0 /\ ok
B(x) == IF x THEN "T" ELSE "F"
RECURSIVE Lex(_, _)
Lex(d, as) == IF as = <<>> THEN d ELSE Lex(CASE as[1] \in {"", "."} -> d [] as[1] = ".." -> (IF d = <<>> THEN <<"?">> ELSE Front(d)) [] OTHER -> Append(d, as[1]), Tail(as))
(* realpath asks for every prefix of the absolute path, not of the given one: where some directory may not be searched, *)
(* it may be refused                                                                                                    *)
Canon(Ok(_)) ==
  LET w == Find(S, Ev.p, TRUE)
      v == Find([S EXCEPT !.su = TRUE], Ev.p, TRUE)
      shut == ~S.su /\ \E i \in DOMAIN S.ino : T(S, i) = "d" /\ ~May(S, i, 1)
  IN IF shut THEN S' = S /\ IF O.e = 0 THEN v.e = 0 /\ Ok(v) ELSE O.e \in {EACCES, v.e, w.e}
     ELSE Ask(w, Ok(w))

Step ==
  CASE Ev.op = "mkdir" -> Do(MkDir(S, Ev.p))
    [] Ev.op = "rmdir" -> Do(RmDir(S, Ev.p))
    [] Ev.op = "remove" -> Do(Unlink(S, Ev.p))
    [] Ev.op = "rename" -> Do(Rename(S, Ev.p, Ev.q))
    [] Ev.op = "chdir" -> Do(ChDir(S, Ev.p))
    [] Ev.op = "settime" -> Do(SetTime(S, Ev.p, Ev.sec))
    [] Ev.op = "write" -> Io(Write(S, Ev.p, Ev.n, FALSE))
    [] Ev.op = "append" -> Io(Write(S, Ev.p, Ev.n, TRUE))
    [] Ev.op = "symlink" -> S' = Symlink(S, Ev.p, Ev.q)
    [] Ev.op = "hardlink" -> S' = Hardlink(S, Ev.p, Ev.q)
    [] Ev.op = "chmod" -> S' = ChMod(S, Ev.p, Ev.m)
    [] Ev.op = "sparse" -> S' = Sparse(S, Ev.p, Ev.len)
    [] Ev.op = "many" -> S' = Many(S, Ev.p, Ev.names)
    [] Ev.op = "getdir" -> S' = S /\ O.e = 0 /\ O.abs /\ O.arcs = PathOf(S, S.cwd)
    [] Ev.op = "isdir" -> LET w == Find(S, Ev.p, TRUE) IN Ask(w, O.s = B(T(S, w.i) = "d"))
    [] Ev.op = "islink" -> LET w == Find(S, Ev.p, FALSE) IN Ask(w, O.s = B(T(S, w.i) = "l"))
    [] Ev.op = "readlink" -> LET w == Find(S, Ev.p, FALSE)
                             IN IF w.e = 0 /\ T(S, w.i) # "l" THEN S' = S /\ O.e = EINVAL
                                ELSE Ask(w, O.abs = S.ino[w.i].abs /\ O.arcs = S.ino[w.i].arcs)
    [] Ev.op = "full" -> Canon(LAMBDA w : O.abs /\ O.arcs = Real(S, w))
    [] Ev.op = "real" -> Canon(LAMBDA w : /\ O.abs = Ev.p.abs
                                          /\ IF O.abs THEN O.arcs = Real(S, w)
                                             ELSE O.arcs # <<>> /\ Lex(PathOf(S, S.cwd), O.arcs) = Real(S, w))
    [] Ev.op = "size" -> LET w == Find(S, Ev.p, TRUE) IN Ask(w, T(S, w.i) = "d" \/ O.len = S.ino[w.i].len)
    [] Ev.op = "access" -> LET w == Find(S, Ev.p, TRUE)
                           IN S' = S /\ O.e = 0 /\ O.s = B(w.e = 0 /\ \A k \in DOMAIN Ev.modes : May(S, w.i, Ev.modes[k]))
    [] Ev.op = "modtime" -> LET w == Find(S, Ev.p, TRUE) IN Ask(w, O.us = 0 /\ S.ino[w.i].mt \in {"?", O.s})
    [] Ev.op = "now" -> LET r == SetTime(S, Ev.p, "?") IN Do(r) /\ (r.errs = {} => O.s = "T")
    [] Ev.op = "list" -> LET w == Find(S, Ev.p, TRUE)
                             e == IF w.e # 0 THEN w ELSE [w EXCEPT !.e = IF T(S, w.i) # "d" THEN ENOTDIR ELSE IF ~May(S, w.i, 4) THEN EACCES ELSE 0]
                             ent == DOMAIN S.ino[w.i].ent
                         IN Ask(e, O.s = "T" /\ Len(O.names) = Cardinality(ent) /\ Range(O.names) = ent)
    [] Ev.op = "same" -> LET v == Find(S, Ev.p, TRUE)
                             w == Find(S, Ev.q, TRUE)
                         IN Ask(IF v.e # 0 THEN v ELSE w, IF v.i = w.i THEN O.s = "T=T=" ELSE O.s \in {"F<T>", "F>T<"})
    [] Ev.op = "tmp" -> S' = S /\ O.e = 0 /\ O.s = "T"
Init == h \in 1..Len(Traces) /\ l = 1 /\ S = Start(Traces[h][1].su)
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ \/ Step /\ l' = l + 1
           \/ ~ENABLED Step /\ PrintT(<<"REJECT", h, l, ToJson(S)>>) /\ l' = 1000000 /\ UNCHANGED S
=============================================================================
