-------------------------------- MODULE FsMC --------------------------------
(* All short histories of Fs.tla over a few paths: the tree stays a tree, nothing is lost or doubled by renaming, a    *)
(* failing operation changes nothing, and looking up what has just been made finds it.                                *)
EXTENDS Fs
CONSTANTS Depth, Wide
VARIABLES S, k, old
R(as) == [abs |-> FALSE, arcs |-> as]
A(as) == [abs |-> TRUE, arcs |-> as]
P == {R(<<"a">>), R(<<"b">>), R(<<"a", "b">>), A(<<"a">>), R(<<"..", "a">>), R(<<"a", ".">>)}
     \cup (IF Wide THEN {R(<<"a", "">>), R(<<"b", "a">>), R(<<"b", "..", "a">>), A(<<"">>), R(<<".">>), R(<<"..">>)} ELSE {})
Bs(s) == [s EXCEPT !.ino = [i \in DOMAIN @ |-> [@[i] EXCEPT !.mt = "?"]]]
Gone(s) == s.cwd \notin Live(s, 1)
Ops == {MkDir(S, p) : p \in P} \cup {RmDir(S, p) : p \in P} \cup {Unlink(S, p) : p \in P} \cup {Rename(S, p, q) : p \in P, q \in P}
       \cup {ChDir(S, p) : p \in P} \cup {Write(S, p, 1, FALSE) : p \in P}
       \cup {[errs |-> {}, st |-> Symlink(S, p, q)] : p \in {x \in P : Par(S, x).e = 0 /\ ~Par(S, x).dots /\ Par(S, x).i = 0}, q \in {R(<<"a">>), R(<<"..", "b">>), A(<<"a", "b">>)}}
       \cup {[errs |-> {}, st |-> ChMod(S, p, m)] : p \in {x \in P : Find([S EXCEPT !.su = TRUE], x, TRUE).e = 0}, m \in {7, 5, 6}}
Init == S \in {Start(TRUE), Start(FALSE)} /\ k = 0 /\ old = S
Next == k < Depth /\ k' = k + 1 /\ old' = S /\ \E o \in Ops : (o.errs # {} => o.st = S) /\ ~Gone(o.st) /\ S' = Bs(o.st)
Files(s) == {i \in Live(s, 1) : s.ino[i].t # "d"}
Laws == /\ Tree(S)
        /\ Cardinality(Files(old) \ Files(S)) <= 1 /\ Cardinality(Files(S) \ Files(old)) <= 1
        /\ \A p \in P : LET w == Find(S, p, TRUE)
                        IN w.e = 0 => /\ Find([S EXCEPT !.su = TRUE], A(Real(S, w)), FALSE).i = w.i
                                      /\ T(S, w.i) # "l"
=============================================================================
