--------------------------------- MODULE Fs ---------------------------------
(* A Unix file tree as structure FileSys shows it. Inodes are numbered; inode 1 is the root. A path is [abs, arcs];   *)
(* an operation gives [errs, st]: the reasons for which it may fail (it succeeds iff there is none) and what it      *)
(* leaves. S.su: the process is privileged.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

(* lengths: [n \div 2^30, n % 2^30] *)
Plus(a, n) == <<a[1] + ((a[2] + n) \div 1073741824), (a[2] + n) % 1073741824>>
None == [x \in {} |-> 0]
Dir(up) == [t |-> "d", ent |-> None, up |-> up, len |-> <<0, 0>>, mt |-> "?", mode |-> 7, abs |-> FALSE, arcs |-> <<>>]
File(n) == [t |-> "f", ent |-> None, up |-> 0, len |-> Plus(<<0, 0>>, n), mt |-> "?", mode |-> 6, abs |-> FALSE, arcs |-> <<>>]
Link(q) == [t |-> "l", ent |-> None, up |-> 0, len |-> <<0, 0>>, mt |-> "?", mode |-> 7, abs |-> q.abs, arcs |-> q.arcs]
Start(su) == [ino |-> <<Dir(1)>>, cwd |-> 1, su |-> su]
ENOENT == 2  EACCES == 13  EBUSY == 16  EEXIST == 17  ENOTDIR == 20  EISDIR == 21  EINVAL == 22  ENAMETOOLONG == 36  ENOTEMPTY == 39  ELOOP == 40

T(S, i) == S.ino[i].t
May(S, i, b) == \/ (S.su /\ (b # 1 \/ T(S, i) = "d" \/ S.ino[i].mode % 2 = 1))
                \/ (~S.su /\ (S.ino[i].mode \div b) % 2 = 1)      \* b: 4 read, 2 write, 1 execute or search
Long(a) == a = "*long"                                             \* stands for a name of more than 255 bytes

(* ---- looking up a path: [e, i, d, nm, last]; e = ENOENT with last: only the last arc is missing, in directory d ---- *)
RECURSIVE Strip(_)
Strip(as) == IF as # <<>> /\ Last(as) = "" THEN Strip(Front(as)) ELSE as
At(i, d, nm) == [e |-> 0, i |-> i, d |-> d, nm |-> nm, last |-> FALSE]
Bad(e, d, nm, last) == [e |-> e, i |-> 0, d |-> d, nm |-> nm, last |-> last]
RECURSIVE Walk(_, _, _, _, _)
Walk(S, at, as, fol, n) ==
  IF as = <<>> THEN at
  ELSE IF T(S, at.i) # "d" THEN Bad(ENOTDIR, 0, "", FALSE)
  ELSE IF Strip(as) = <<>> THEN at
  ELSE IF ~May(S, at.i, 1) THEN Bad(EACCES, 0, "", FALSE)
  ELSE LET a == as[1]
           ent == S.ino[at.i].ent
           up == S.ino[at.i].up
       IN CASE a \in {"", "."} -> Walk(S, at, Tail(as), fol, n)
            [] a = ".." -> Walk(S, At(up, up, ".."), Tail(as), fol, n)
            [] Long(a) -> Bad(ENAMETOOLONG, 0, "", FALSE)
            [] a \notin DOMAIN ent \cup {"", ".", ".."} /\ ~Long(a) -> Bad(ENOENT, at.i, a, Len(as) = 1)
            [] a \in DOMAIN ent ->
                 LET c == ent[a]
                     L == S.ino[c]
                 IN IF L.t = "l" /\ (fol \/ Len(as) > 1)
                    THEN IF n = 0 THEN Bad(ELOOP, 0, "", FALSE)
                         ELSE Walk(S, IF L.abs THEN At(1, 1, "") ELSE at, L.arcs \o Tail(as), fol, n - 1)
                    ELSE Walk(S, At(c, at.i, a), Tail(as), fol, n)
Find(S, p, fol) == IF ~p.abs /\ p.arcs = <<>> THEN Bad(ENOENT, 0, "", FALSE)
                   ELSE Walk(S, IF p.abs THEN At(1, 1, "") ELSE At(S.cwd, S.cwd, "."), p.arcs, fol, 40)

(* the directory in which the last name of p is, and that name ("" for the root itself); slash: p ends in a slash *)
Par(S, p) ==
  LET as == Strip(p.arcs)
      w == IF as = <<>> THEN Find(S, p, TRUE)
           ELSE Walk(S, IF p.abs THEN At(1, 1, "") ELSE At(S.cwd, S.cwd, "."), Front(as), TRUE, 40)
      nm == IF as = <<>> THEN "" ELSE Last(as)
      e == IF w.e # 0 THEN w.e ELSE IF T(S, w.i) # "d" THEN ENOTDIR ELSE IF as # <<>> /\ ~May(S, w.i, 1) THEN EACCES ELSE IF Long(nm) THEN ENAMETOOLONG ELSE 0
      i == IF e = 0 /\ nm \in DOMAIN S.ino[w.i].ent THEN S.ino[w.i].ent[nm] ELSE 0
  IN [e |-> e, d |-> w.i, nm |-> nm, i |-> i, dots |-> nm \in {"", ".", ".."}, slash |-> as # p.arcs]

(* ---- changing directories ---- *)
With(S, d, nm, i) == [S EXCEPT !.ino[d].ent = (nm :> i) @@ @, !.ino[d].mt = "?"]
Without(S, d, nm) == [S EXCEPT !.ino[d].ent = [x \in DOMAIN @ \ {nm} |-> @[x]], !.ino[d].mt = "?"]
Add(S, d, nm, node) == With([S EXCEPT !.ino = Append(@, node)], d, nm, Len(S.ino) + 1)
RECURSIVE Within(_, _, _)
Within(S, i, d) == i = d \/ (d # 1 /\ Within(S, i, S.ino[d].up))    \* directory d is i or below it
Err(b, e) == IF b THEN {e} ELSE {}
Res(errs, st, S) == [errs |-> errs, st |-> IF errs = {} THEN st ELSE S]

MkDir(S, p) ==
  LET w == Par(S, p)
      errs == IF w.e # 0 THEN {w.e} ELSE IF w.dots \/ w.i # 0 THEN {EEXIST} ELSE Err(~May(S, w.d, 2), EACCES)
  IN Res(errs, Add(S, w.d, w.nm, Dir(w.d)), S)
RmDir(S, p) ==
  LET w == Par(S, p)
      errs == IF w.e # 0 THEN {w.e}
              ELSE IF w.dots THEN {CASE w.nm = "" -> EBUSY [] w.nm = "." -> EINVAL [] w.nm = ".." -> ENOTEMPTY}
              ELSE IF w.i = 0 THEN {ENOENT}
              ELSE Err(~May(S, w.d, 2), EACCES) \cup Err(T(S, w.i) # "d", ENOTDIR) \cup Err(DOMAIN S.ino[w.i].ent # {}, ENOTEMPTY)
  IN Res(errs, Without(S, w.d, w.nm), S)
Unlink(S, p) ==
  LET w == Par(S, p)
      errs == IF w.e # 0 THEN {w.e} ELSE IF w.dots THEN {EISDIR} ELSE IF w.i = 0 THEN {ENOENT}
              ELSE Err(~May(S, w.d, 2), EACCES) \cup Err(T(S, w.i) = "d", EISDIR) \cup Err(w.slash /\ T(S, w.i) # "d", ENOTDIR)
  IN Res(errs, Without(S, w.d, w.nm), S)
Rename(S, p, q) ==
  LET a == Par(S, p)
      b == Par(S, q)
      isd == T(S, a.i) = "d"
      onto == b.i # 0
      early == ({a.e, b.e} \ {0}) \cup Err((a.e = 0 /\ a.dots) \/ (b.e = 0 /\ b.dots), EBUSY) \cup Err(a.e = 0 /\ ~a.dots /\ a.i = 0, ENOENT)
      errs == IF early # {} THEN early
              ELSE LET hard == Err(~isd /\ (a.slash \/ b.slash), ENOTDIR)
                               \cup Err(isd /\ Within(S, a.i, b.d), EINVAL)
                               \cup Err(onto /\ T(S, b.i) = "d" /\ Within(S, b.i, a.d), ENOTEMPTY)
                   IN IF a.i = b.i THEN hard
                      ELSE hard \cup Err(~May(S, a.d, 2) \/ ~May(S, b.d, 2) \/ (isd /\ a.d # b.d /\ ~May(S, a.i, 2)), EACCES)
                           \cup (IF onto THEN Err(isd /\ T(S, b.i) # "d", ENOTDIR) \cup Err(~isd /\ T(S, b.i) = "d", EISDIR)
                                              \cup Err(isd /\ T(S, b.i) = "d" /\ DOMAIN S.ino[b.i].ent # {}, ENOTEMPTY)
                                 ELSE {})
      moved == With(Without(S, a.d, a.nm), b.d, b.nm, a.i)
  IN Res(errs, IF a.i = b.i THEN S ELSE IF isd THEN [moved EXCEPT !.ino[a.i].up = b.d, !.ino[a.i].mt = "?"] ELSE moved, S)
ChDir(S, p) ==
  LET w == Find(S, p, TRUE)
      errs == IF w.e # 0 THEN {w.e} ELSE IF T(S, w.i) # "d" THEN {ENOTDIR} ELSE Err(~May(S, w.i, 1), EACCES)
  IN Res(errs, [S EXCEPT !.cwd = w.i], S)
SetTime(S, p, sec) == LET w == Find(S, p, TRUE) IN Res(IF w.e # 0 THEN {w.e} ELSE {}, [S EXCEPT !.ino[w.i].mt = sec], S)
(* opening for output: make the file, through links if need be; keep: append *)
Write(S, p, n, keep) ==
  LET w == Find(S, p, TRUE)
      errs == IF w.e = 0 THEN Err(T(S, w.i) = "d", EISDIR) \cup Err(~May(S, w.i, 2), EACCES)
              ELSE IF w.e = ENOENT /\ w.last THEN Err(~May(S, w.d, 2), EACCES) ELSE {w.e}
  IN Res(errs, IF w.e = 0 THEN [S EXCEPT !.ino[w.i].len = IF keep THEN Plus(@, n) ELSE Plus(<<0, 0>>, n), !.ino[w.i].mt = "?"] ELSE Add(S, w.d, w.nm, File(n)), S)

(* ---- what others do to the tree ---- *)
Symlink(S, p, q) == LET w == Par([S EXCEPT !.su = TRUE], p) IN Add(S, w.d, w.nm, Link(q))
Hardlink(S, p, q) == LET R == [S EXCEPT !.su = TRUE]
                         a == Find(R, p, FALSE)
                         b == Par(R, q) IN With(S, b.d, b.nm, a.i)
ChMod(S, p, m) == LET a == Find([S EXCEPT !.su = TRUE], p, TRUE) IN [S EXCEPT !.ino[a.i].mode = m]
Sparse(S, p, len) == LET a == Find([S EXCEPT !.su = TRUE], p, TRUE) IN [S EXCEPT !.ino[a.i].len = len, !.ino[a.i].mt = "?"]
Many(S, p, names) == LET a == Find([S EXCEPT !.su = TRUE], p, TRUE)
                         n == Len(S.ino)
                     IN [S EXCEPT !.ino = [i \in 1..(n + Len(names)) |->
                            IF i > n THEN File(0) ELSE IF i # a.i THEN @[i]
                            ELSE [@[i] EXCEPT !.mt = "?", !.ent = [x \in Range(names) |-> n + (CHOOSE k \in DOMAIN names : names[k] = x)] @@ @]]]

(* ---- what is reported ---- *)
RECURSIVE PathOf(_, _)
PathOf(S, d) == IF d = 1 THEN <<>> ELSE LET up == S.ino[d].up IN Append(PathOf(S, up), CHOOSE x \in DOMAIN S.ino[up].ent : S.ino[up].ent[x] = d)
Real(S, w) == IF T(S, w.i) = "d" THEN PathOf(S, w.i) ELSE Append(PathOf(S, w.d), w.nm)

(* ---- the tree is a tree ---- *)
Dirs(S) == {i \in DOMAIN S.ino : T(S, i) = "d"}
RECURSIVE Live(_, _)
Live(S, i) == {i} \cup UNION {Live(S, S.ino[i].ent[x]) : x \in DOMAIN S.ino[i].ent}
Tree(S) == \A i \in Live(S, 1) : \A x \in DOMAIN S.ino[i].ent :
             LET c == S.ino[i].ent[x]
             IN T(S, c) = "d" => /\ S.ino[c].up = i
                                 /\ \A j \in Live(S, 1) : \A y \in DOMAIN S.ino[j].ent : S.ino[j].ent[y] = c => j = i /\ y = x
=============================================================================
