----------------------------- MODULE RegexTrace -----------------------------
(* Conformance: what the functions of structure Regex returned is what Regex.tla determines. A history holds several  *)
(* compiled expressions at a time, in slots.                                                                           *)
EXTENDS Regex, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, st
Ev == Traces[h][l]
Slot(k) == st[k + 1]

(* ---- c: an expression is compiled, or refused ---- *)
Comp == /\ Ev.out = IF Ev.bad THEN "Regex" ELSE "ok"
        /\ st' = [st EXCEPT ![Ev.k + 1] = [r |-> Ev.r, g |-> Ev.g, icase |-> Ev.icase, newline |-> Ev.newline]]

(* ---- x: the matching functions ---- *)
Exec == LET e == Slot(Ev.k)
            own == SubSeq(Ev.s, Ev.from + 1, Ev.from + Ev.len)
            m == Match(Ctx(e, own, Ev.notbol, Ev.noteol) , e.r, e.g)
            Ok(res, off) == IF m.from < 0 THEN res = <<>> ELSE res # <<>> /\ VecOk(res, m, e.g, off)
        IN Ok(Ev.a, Ev.from) /\ Ok(Ev.c, 0) /\ Ok(Ev.e, 0) /\ Ev.yes = IF m.from < 0 THEN "FFF" ELSE "TTT"

(* ---- d: the functions that decompose a string ---- *)
RECURSIVE Digits(_), Flat(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Flat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Flat(Tail(xs))
Sub(s, v) == Piece(s, v[1], v[1] + v[2])
One(s, v, p, g) == CASE p.t = "S" -> p.s
                     [] p.t = "U" -> Sub(s, v[p.n + 1])
                     [] p.t = "T" -> Append(Reverse(Sub(s, v[p.n + 1])), 33)
                     [] p.t = "V" -> Digits(g + 1)
Repl(s, v, rp, g) == Flat([k \in DOMAIN rp |-> One(s, v, rp[k], g)])
Weave(ps, ms) == [k \in 1..(Len(ps) + Len(ms)) |-> IF k % 2 = 1 THEN ps[(k + 1) \div 2] ELSE ms[k \div 2]]
Is(o, ex, v) == IF ex # "" THEN o.ex = ex ELSE o.ex = "" /\ o.v = v

Decompose ==
  LET e == Slot(Ev.k)
      s == Ev.s
      X == [s |-> s, r |-> e.r, g |-> e.g, icase |-> e.icase, newline |-> e.newline]
      F == Split(X, 0, TRUE, TRUE, <<>>)        \* fields and tokens
      D == Split(X, 0, FALSE, FALSE, <<>>)      \* the others
      n == Len(D.spans)
      W == Ev.app.v                             \* the vectors that app saw, one for each match
      bad == \E k \in DOMAIN Ev.rp : Ev.rp[k].t \in {"U", "T"} /\ Ev.rp[k].n > e.g
      stuck == IF D.stuck THEN "Regex" ELSE ""
      ps == Between(s, D.spans)
      whole == [k \in 1..n |-> Piece(s, D.spans[k][1], D.spans[k][2])]
      fs == Between(s, F.spans)
  IN /\ Len(W) = n
     /\ \A k \in 1..n :
          LET off == IF k = 1 THEN 0 ELSE D.spans[k - 1][2]
              m == Match(Ctx(X, SubSeq(s, off + 1, Len(s)), FALSE, FALSE), e.r, e.g)
          IN VecOk(W[k], m, e.g, off)
     /\ Ev.app.ex = stuck
     /\ Is(Ev.map, stuck, W)
     /\ Is(Ev.fields, IF F.stuck THEN "Regex" ELSE "", fs)
     /\ Is(Ev.tokens, IF F.stuck THEN "Regex" ELSE "", SelectSeq(fs, LAMBDA x : x # <<>>))
     /\ Is(Ev.fold, stuck, Weave(ps, whole))
     /\ Is(Ev.subst, stuck, Flat(Weave(ps, [k \in 1..n |-> <<60>> \o whole[k] \o <<62>>])))
     /\ Is(Ev.replace, IF bad /\ n > 0 THEN "Subscript" ELSE stuck, IF bad THEN s ELSE Flat(Weave(ps, [k \in 1..n |-> Repl(s, W[k], Ev.rp, e.g)])))
     /\ LET left == Piece(s, 0, D.spans[1][1])
            right == Piece(s, D.spans[1][2], Len(s))
        IN IF n = 0 THEN Is(Ev.replace1, "", s) /\ Is(Ev.subst1, "", s)
           ELSE /\ Is(Ev.subst1, "", left \o <<60>> \o whole[1] \o <<62>> \o right)
                /\ Is(Ev.replace1, IF bad THEN "Subscript" ELSE "", IF bad THEN s ELSE left \o Repl(s, W[1], Ev.rp, e.g) \o right)

Step == CASE Ev.op = "c" -> Comp
          [] Ev.op = "x" -> Exec /\ UNCHANGED st
          [] Ev.op = "d" -> Decompose /\ UNCHANGED st
Init == h \in 1..Len(Traces) /\ l = 1 /\ st = [k \in 1..16 |-> [g |-> 0]]
Next == /\ l <= Len(Traces[h]) /\ h' = h
        /\ \/ Step /\ l' = l + 1
           \/ ~ENABLED Step /\ PrintT(<<"REJECT", h, l, ToJson(Slot(Ev.k))>>) /\ l' = 1000000 /\ UNCHANGED st
=============================================================================
