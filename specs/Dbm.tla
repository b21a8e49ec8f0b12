-------------------------------- MODULE Dbm --------------------------------
(* Gdbm and Polygdbm tables: named files holding finite maps, opened by the transactions of several processes.     *)
(*                                                                                                                   *)
(* files[f] is "absent", "alien" (present, but not a table) or a table with a finite map from keys to data.          *)
(* proc[p] is a process: tabs, every table value it ever obtained (file, mode, open or closed), and frames, the      *)
(* withtable(s) calls in progress, innermost first, each the list of the tables it opened.                           *)
(* A table is open for reading in any number of places or for writing in one. Every operation is answered with       *)
(* "ok", a result or the name of the exception; one that is answered with an exception changes no file.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Absent == [k |-> "absent", m |-> <<>>]
Alien == [k |-> "alien", m |-> <<>>]
Table(m) == [k |-> "table", m |-> m]
Fresh == [tabs |-> <<>>, frames |-> <<>>]
Modes == {"READER", "WRITER", "WRCREAT", "NEWDB"}

Empty == [x \in {} |-> ""]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

(* the open tables on file f, over all processes *)
Holders(s, f) == {<<p, i>> \in UNION {{p} \X (1..Len(s.proc[p].tabs)) : p \in DOMAIN s.proc} :
                    s.proc[p].tabs[i].open /\ s.proc[p].tabs[i].f = f}
Locked(s, f, m) == \E x \in Holders(s, f) : m # "READER" \/ s.proc[x[1]].tabs[x[2]].m # "READER"

CanOpen(s, f, m) == /\ f \in DOMAIN s.files
                    /\ ~Locked(s, f, m)
                    /\ CASE m \in {"READER", "WRITER"} -> s.files[f].k = "table"
                         [] m = "WRCREAT" -> s.files[f].k # "alien"
                         [] m = "NEWDB" -> TRUE
Opened(s, p, f, m) ==
  [files |-> IF m = "NEWDB" \/ (m = "WRCREAT" /\ s.files[f].k = "absent")
             THEN [s.files EXCEPT ![f] = Table(Empty)] ELSE s.files,
   proc |-> [s.proc EXCEPT ![p].tabs = Append(@, [f |-> f, m |-> m, open |-> TRUE])]]
Close(s, p, is) == [s EXCEPT !.proc[p].tabs = [i \in DOMAIN @ |-> IF i \in is THEN [@[i] EXCEPT !.open = FALSE] ELSE @[i]]]

(* withtables: opens fm[1], fm[2], ... in that order; at the first failure closes what it opened *)
RECURSIVE OpenAll(_, _, _, _)
OpenAll(s, p, fm, is) ==
  IF fm = <<>> THEN [s |-> [s EXCEPT !.proc[p].frames = <<is>> \o @], out |-> "ok"]
  ELSE IF CanOpen(s, fm[1][1], fm[1][2])
       THEN OpenAll(Opened(s, p, fm[1][1], fm[1][2]), p, Tail(fm), Append(is, Len(s.proc[p].tabs) + 1))
       ELSE LET c == Close(s, p, {is[i] : i \in DOMAIN is})    \* the tables of a failed withtables are never seen
            IN [s |-> [c EXCEPT !.proc[p].tabs = SubSeq(@, 1, Len(@) - Len(is))], out |-> "GdbmError"]

(* the end of the innermost transaction, however it comes about *)
Leave(s, p) == LET c == Close(s, p, {s.proc[p].frames[1][i] : i \in DOMAIN s.proc[p].frames[1]})
               IN [c EXCEPT !.proc[p].frames = Tail(@)]

Updates == {"add", "insert", "remove", "reorganize"}
Map(s, p, t) == s.files[s.proc[p].tabs[t].f].m

(* op e on table e.t of process e.p: its answer and the state after it *)
Operate(s, e) ==
  LET t == s.proc[e.p].tabs[e.t]
      m == Map(s, e.p, e.t)
      same(o) == [s |-> s, out |-> o]
      upd(n) == [s |-> [s EXCEPT !.files[t.f].m = n], out |-> "ok"]
  IN IF ~t.open THEN same("Closed")
     ELSE IF e.op = "reorganize" THEN same(IF t.m = "READER" THEN "GdbmError" ELSE "ok")
     ELSE IF e.op \in Updates /\ t.m = "READER" THEN same("NotWriter")
     ELSE CASE e.op = "add" -> IF e.k \in DOMAIN m THEN same("AlreadyThere") ELSE upd(Put(m, e.k, e.v))
            [] e.op = "insert" -> upd(Put(m, e.k, e.v))
            [] e.op = "remove" -> IF e.k \in DOMAIN m THEN upd(Del(m, e.k)) ELSE same("NotFound")
            [] e.op = "find" -> same(IF e.k \in DOMAIN m THEN "=" \o m[e.k] ELSE "NotFound")
            [] e.op = "peek" -> same(IF e.k \in DOMAIN m THEN "=" \o m[e.k] ELSE "NONE")
            [] e.op = "hasKey" -> same(IF e.k \in DOMAIN m THEN "true" ELSE "false")
            [] e.op = "numItems" -> same(ToString(Cardinality(DOMAIN m)))
            [] OTHER -> same("list")

(* a listing names every key once, in some order, with its datum *)
Lists(s, e) ==
  LET m == Map(s, e.p, e.t)
        o == IF e.op = "escape" THEN e.inner ELSE e.op
  IN IF o = "listKeys" THEN Len(e.list) = Cardinality(DOMAIN m) /\ ToSet(e.list) = DOMAIN m
     ELSE /\ Len(e.list) = Cardinality(DOMAIN m)
          /\ \A i \in DOMAIN e.list : e.list[i][1] \in DOMAIN m /\ e.list[i][2] = m[e.list[i][1]]
          /\ {e.list[i][1] : i \in DOMAIN e.list} = DOMAIN m

Step(s, e) ==
  CASE e.op = "open" -> OpenAll(s, e.p, e.fm, <<>>)
    [] e.op = "return" -> [s |-> Leave(s, e.p), out |-> "ok"]
    [] e.op = "raise" -> [s |-> Leave(s, e.p), out |-> "Quit"]
    [] e.op = "escape" -> LET r == Operate(s, [e EXCEPT !.op = e.inner])     \* the exception of an operation leaves the transaction
                          IN IF r.out \in {"Closed", "NotWriter", "NotFound", "AlreadyThere", "GdbmError"}
                             THEN [s |-> Leave(r.s, e.p), out |-> "escaped " \o r.out] ELSE r
    [] e.op = "die" -> [s |-> [s EXCEPT !.proc[e.p] = Fresh], out |-> "dead"]
    [] OTHER -> Operate(s, e)

---------------------------------------------------------------------------
(* what the interface promises, of any state and any step *)
OneWriter(s) == \A f \in DOMAIN s.files :
   \/ \A x \in Holders(s, f) : s.proc[x[1]].tabs[x[2]].m = "READER"
   \/ Cardinality(Holders(s, f)) = 1
OpenIsFramed(s) == \A p \in DOMAIN s.proc : \A i \in DOMAIN s.proc[p].tabs :
   s.proc[p].tabs[i].open <=> \E n \in DOMAIN s.proc[p].frames : i \in ToSet(s.proc[p].frames[n])
Exns == {"Closed", "NotWriter", "NotFound", "AlreadyThere", "GdbmError", "Quit", "dead"}
FailureKeeps(s, r) == r.out \in Exns \cup {"escaped " \o x : x \in Exns} =>
   \/ r.s.files = s.files
   \/ /\ r.out = "GdbmError"              \* a failed withtables has opened, hence perhaps created or emptied, a first table
      /\ \A f \in DOMAIN s.files : r.s.files[f] # s.files[f] => r.s.files[f] = Table(Empty)
OpenFiles(s) == \A p \in DOMAIN s.proc : \A i \in DOMAIN s.proc[p].tabs :
   s.proc[p].tabs[i].open => s.files[s.proc[p].tabs[i].f].k = "table"
=============================================================================
