-------------------------------- MODULE Lalr --------------------------------
(* What a parser generated by mosmlyac does.  The specification has two parts: the LALR(1) automaton of a grammar    *)
(* with the yacc resolution of conflicts by precedence and associativity, computed here from its definition by       *)
(* fixpoints; and the machine that runs it, whose steps are calls of the lexer, semantic actions and results.        *)
(* A grammar: nt nonterminals 1..nt, tokens nt+1..nt+tok; prods: sequence of [l, r, prec, assoc]; prec/assoc of      *)
(* tokens; starts: nonterminals.  Entry e has the pseudo-token nt+tok+e and the pseudo-production 0 -> that, start.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

End == 0
Prods(g) == g.prods \o [e \in 1..Len(g.starts) |-> [l |-> 0, r |-> <<g.nt + g.tok + e, g.starts[e]>>, prec |-> 0, assoc |-> "n"]]

\* ---------------------------------------------------------------- nullable, first
RECURSIVE NullFix(_, _), FirstFix(_, _, _, _), ClosFix(_, _, _), StatesFix(_, _, _, _, _), FollowFix(_, _)
NullFix(P, N) == LET M == N \cup {P[i].l : i \in {i \in DOMAIN P : \A k \in DOMAIN P[i].r : P[i].r[k] \in N}}
                 IN IF M = N THEN N ELSE NullFix(P, M)
\* the symbols that may come first in r, from position d on, given F on nonterminals
SeqFirst(r, d, nt, N, F) ==
    UNION {IF r[k] <= nt THEN F[r[k]] ELSE {r[k]} : k \in {k \in d..Len(r) : \A j \in d..(k - 1) : r[j] \in N}}
SeqNull(r, d, N) == \A k \in d..Len(r) : r[k] \in N
FirstFix(P, nt, N, F) ==
    LET G == [A \in 1..nt |-> F[A] \cup UNION {SeqFirst(P[i].r, 1, nt, N, F) : i \in {i \in DOMAIN P : P[i].l = A}}]
    IN IF G = F THEN F ELSE FirstFix(P, nt, N, G)

\* ---------------------------------------------------------------- LR(0) states: closed sets of items <<production, dot>>
NextSym(P, it) == IF it[2] < Len(P[it[1]].r) THEN P[it[1]].r[it[2] + 1] ELSE -1
ClosFix(P, by, I) == LET J == I \cup UNION {by[A] : A \in {NextSym(P, it) : it \in I} \cap DOMAIN by}
                     IN IF J = I THEN I ELSE ClosFix(P, by, J)
Goto(P, by, I, X) == ClosFix(P, by, {<<it[1], it[2] + 1>> : it \in {it \in I : NextSym(P, it) = X}})
\* S: sequence of states, T: their transitions so far, k: next state to expand; idx: state -> number
StatesFix(P, by, S, T, k) ==
    IF k > Len(S) THEN [S |-> S, T |-> T]
    ELSE LET X == {NextSym(P, it) : it \in S[k]} \ {-1}
             to == TLCEval([x \in X |-> TLCEval(Goto(P, by, S[k], x))])
             new == {to[x] : x \in X} \ {S[i] : i \in DOMAIN S}
             S2 == S \o SetToSeq(new)
             num == [x \in X |-> CHOOSE i \in DOMAIN S2 : S2[i] = to[x]]
         IN StatesFix(P, by, TLCEval(S2), Append(T, TLCEval(num)), k + 1)

\* ---------------------------------------------------------------- lookaheads
RECURSIVE Walk(_, _, _, _)
Walk(T, q, r, k) == IF k > Len(r) THEN q ELSE Walk(T, T[q][r[k]], r, k + 1)     \* from q along r[k..]
\* base: what can directly follow; inc: the pairs whose follow sets are included
FollowFix(inc, F) == LET G == TLCEval([x \in DOMAIN F |-> F[x] \cup UNION {F[y] : y \in inc[x]}])
                     IN IF G = F THEN F ELSE FollowFix(inc, G)

\* ---------------------------------------------------------------- conflicts
\* the candidate actions of a state on a token in the order shift, reductions by production number; pref is the
\* action preferred so far ("none": two nonassociative candidates cancelled each other)
RECURSIVE Resolve(_, _, _, _)
Resolve(P, cands, k, acc) ==
    IF k > Len(cands) THEN acc
    ELSE LET c == cands[k]
             p == acc.pref
             choose == [acc EXCEPT !.pref = c, !.out = (@ \ {p}) \cup {c}]
         IN Resolve(P, cands, k + 1,
              IF p.prec > 0 /\ c.prec > 0 THEN
                   IF p.prec < c.prec THEN choose
                   ELSE IF p.prec > c.prec THEN acc
                   ELSE IF p.k = "reduce" THEN [acc EXCEPT !.rr = @ + 1]
                   ELSE IF p.assoc = "l" THEN choose
                   ELSE IF p.assoc = "r" THEN acc
                   ELSE [acc EXCEPT !.out = @ \ {p}]
              ELSE IF p.k = "shift" THEN [acc EXCEPT !.sr = @ + 1]
              ELSE [acc EXCEPT !.rr = @ + 1])
SortRed(R) == SetToSortSeq(R, LAMBDA i, j : i < j)

RECURSIVE AddUp(_)
AddUp(Z) == IF Z = {} THEN 0 ELSE LET z == CHOOSE z \in Z : TRUE IN z[2] + AddUp(Z \ {z})
Error == [k |-> "error", n |-> 0]
\* ---------------------------------------------------------------- the automaton of a grammar
Table(g) ==
    LET P == Prods(g)
        np == Len(g.prods)
        nt == g.nt
        NT == 1..nt
        N == NullFix(P, {})
        F == FirstFix(P, nt, N, [A \in NT |-> {}])
        by == [A \in NT |-> {<<i, 0>> : i \in {i \in DOMAIN P : P[i].l = A}}]
        A0 == StatesFix(P, by, <<ClosFix(P, by, {<<np + e, 0>> : e \in DOMAIN g.starts})>>, <<>>, 1)
        S == A0.S
        T == A0.T
        Q == DOMAIN S
        pairs == {<<q, A>> \in Q \X NT : A \in DOMAIN T[q]}
        \* where the items of state r can be completed or have been moved to: <<state, item>> pairs from r's initial items
        inits(r) == {it \in S[r] : it[2] = 0 /\ P[it[1]].l > 0}
        pre(r, it, d) == Walk(T, r, SubSeq(P[it[1]].r, 1, d), 1)
        direct == TLCEval([x \in pairs |-> UNION {SeqFirst(P[it[1]].r, it[2] + 2, nt, N, F) : it \in {it \in S[x[1]] : NextSym(P, it) = x[2]}}
                                   \cup (IF \E it \in S[x[1]] : NextSym(P, it) = x[2] /\ P[it[1]].l = 0 THEN {End} ELSE {})])
        \* follow(r, B) is included in follow(q, A) when B -> beta A gamma, gamma nullable, and beta leads from r to q
        edges == TLCEval(UNION {UNION {{<<<<pre(r, it, d), P[it[1]].r[d + 1]>>, <<r, P[it[1]].l>>>> :
                                  d \in {d \in 0..(Len(P[it[1]].r) - 1) : P[it[1]].r[d + 1] \in NT /\ SeqNull(P[it[1]].r, d + 2, N)}}
                               : it \in inits(r)} : r \in Q})
        inc == TLCEval([x \in pairs |-> {e[2] : e \in {e \in edges : e[1] = x}}])
        Fol == TLCEval(FollowFix(inc, direct))
        done == TLCEval(UNION {{<<pre(r, it, Len(P[it[1]].r)), it[1], r>> : it \in inits(r)} : r \in Q})
        comp(q) == {it[1] : it \in {it \in S[q] : NextSym(P, it) = -1}}           \* complete productions
        la == TLCEval([q \in Q |-> [p \in comp(q) |-> IF P[p].l = 0 THEN {End} ELSE UNION {Fol[<<d[3], P[p].l>>] : d \in {d \in done : d[1] = q /\ d[2] = p}}]])
        toks == (nt + 1)..(nt + g.tok)
        entry(q) == \E p \in comp(q) : p > np
        cands(q, t) == (IF t \in DOMAIN T[q] THEN <<[k |-> "shift", n |-> T[q][t], prec |-> g.prec[t - nt], assoc |-> g.assoc[t - nt]]>> ELSE <<>>)
                       \o LET rs == SortRed({p \in comp(q) : t \in la[q][p]})
                          IN [i \in DOMAIN rs |-> [k |-> "reduce", n |-> rs[i], prec |-> P[rs[i]].prec, assoc |-> P[rs[i]].assoc]]
        res(q, t) == LET c == cands(q, t) IN IF c = <<>> THEN [pref |-> Error, out |-> {}, sr |-> 0, rr |-> 0]
                                             ELSE Resolve(P, c, 2, [pref |-> c[1], out |-> {c[1]}, sr |-> 0, rr |-> 0])
        sees(q) == (DOMAIN T[q] \cup UNION {la[q][p] : p \in comp(q)}) \cap toks
        all == TLCEval([q \in Q |-> [t \in sees(q) |-> res(q, t)]])
        act == TLCEval([q \in Q |-> [t \in sees(q) |-> LET o == all[q][t].out IN IF o = {} THEN Error ELSE LET c == CHOOSE c \in o : TRUE IN [k |-> c.k, n |-> c.n]]])
        \* a production that may be reduced without a look at the next token
        sole == [q \in Q |-> {p \in comp(q) : \A t \in sees(q) : (act[q][t].k = "reduce" /\ act[q][t].n = p) \/ (act[q][t].k = "error" /\ t \notin DOMAIN T[q])}]
        sum(f(_)) == LET RECURSIVE add(_)
                         add(k) == IF k = 0 THEN 0 ELSE AddUp({<<t, f(all[k][t])>> : t \in sees(k)}) + add(k - 1)
                     IN add(Len(S))
    IN [T |-> T, comp |-> [q \in Q |-> comp(q)], act |-> act, sole |-> sole, n |-> Len(S), np |-> np,
        sr |-> sum(LAMBDA x : x.sr), rr |-> sum(LAMBDA x : x.rr)]

\* ---------------------------------------------------------------- the machine
\* m: [g |-> grammar, tab |-> its automaton].  stack: sequence of [q, sym, v, a, b] with attribute v and extent a..b
\* (-1: unspecified, for what begins or ends with the empty string); la: the token read but not yet shifted
\* ([t |-> 0] if none); doomed: it is known to be in error
Machine(g) == [g |-> g, tab |-> TLCEval(Table(g))]
NoTok == [t |-> 0, v |-> 0, a |-> 0, b |-> 0]
Idle == [on |-> 0, stack |-> <<>>, la |-> NoTok, doomed |-> FALSE]
Top(st) == st.stack[Len(st.stack)].q
Act(m, st, t) == LET r == m.tab.act[Top(st)] IN IF t \in DOMAIN r THEN r[t] ELSE Error
Push(st, q, sym, v, a, b) == [st EXCEPT !.stack = Append(@, [q |-> q, sym |-> sym, v |-> v, a |-> a, b |-> b])]
Shift(m, st) == [Push(st, Act(m, st, st.la.t).n, st.la.t, st.la.v, st.la.a, st.la.b) EXCEPT !.la = NoTok]
CanShift(m, st) == st.la.t # 0 /\ ~st.doomed /\ Act(m, st, st.la.t).k = "shift"
Settle(m, st) == IF CanShift(m, st) THEN Shift(m, st) ELSE st

Begin(m, e) == [on |-> e, doomed |-> FALSE, la |-> NoTok,
                stack |-> <<[q |-> m.tab.T[1][m.g.nt + m.g.tok + e], sym |-> 0, v |-> 0, a |-> -1, b |-> -1]>>]
\* a token is delivered when the previous one has been shifted
Read(m, st, t, v, a, b) == [st |-> [Settle(m, st) EXCEPT !.la = [t |-> t, v |-> v, a |-> a, b |-> b]],
                            ok |-> st.on > 0 /\ (st.la.t = 0 \/ CanShift(m, st))]
\* may production p be reduced now?
MayReduce(m, st, p) == /\ p \in m.tab.comp[Top(st)] /\ p <= m.tab.np
                       /\ IF st.la.t = 0 THEN p \in m.tab.sole[Top(st)]
                          ELSE LET c == Act(m, st, st.la.t) IN (c.k = "reduce" /\ c.n = p) \/ c.k = "error" \/ st.doomed
Args(m, st, p) == SubSeq(st.stack, Len(st.stack) - Len(m.g.prods[p].r) + 1, Len(st.stack))
\* st is settled
Reduce(m, st, p, v) ==
    LET pr == m.g.prods[p]
        k == Len(pr.r)
        arg == Args(m, st, p)
        base == SubSeq(st.stack, 1, Len(st.stack) - k)
        q == base[Len(base)].q
        a == IF k = 0 THEN -1 ELSE arg[1].a
        b == IF k = 0 THEN -1 ELSE arg[k].b
    IN [Push([st EXCEPT !.stack = base], m.tab.T[q][pr.l], pr.l, v, a, b)
          EXCEPT !.doomed = st.doomed \/ (st.la.t # 0 /\ Act(m, st, st.la.t).k = "error")]
\* the start symbol has been recognised; its attribute is the result
Accepting(m, st) == /\ st.on > 0 /\ Len(st.stack) = 2 /\ st.stack[2].sym = m.g.starts[st.on]
                    /\ (m.tab.np + st.on) \in m.tab.comp[Top(st)]
Failing(m, st) == st.on > 0 /\ st.la.t # 0 /\ (st.doomed \/ Act(m, st, st.la.t).k = "error")

Pos(x, y) == x = -1 \/ x = y
Step(m, e, st) ==
    CASE e.op = "grammar" -> [st |-> Idle, ok |-> e.sr = m.tab.sr /\ e.rr = m.tab.rr]   \* the conflicts reported
      [] e.op = "start" -> [st |-> Begin(m, e.p), ok |-> TRUE]
      [] e.op = "tok" -> Read(m, st, e.p, e.v, e.a, e.b)
      [] e.op = "red" -> LET s == Settle(m, st)
                             arg == Args(m, s, e.p)
                             new == Reduce(m, s, e.p, e.v)
                             new0 == new.stack[Len(new.stack)]
                         IN IF ~(st.on > 0 /\ MayReduce(m, s, e.p)) THEN [st |-> st, ok |-> FALSE]
                            ELSE [st |-> new, ok |-> /\ Len(e.vals) = Len(arg)
                                                     /\ \A k \in DOMAIN arg : /\ e.vals[k] = arg[k].v
                                                                              /\ Pos(arg[k].a, e.as[k]) /\ Pos(arg[k].b, e.bs[k])
                                                     /\ Pos(new0.a, e.a) /\ Pos(new0.b, e.b)]
      [] e.op = "acc" -> LET s == Settle(m, st) IN
                         [st |-> Idle, ok |-> Accepting(m, s) /\ e.v = s.stack[2].v]
      [] e.op = "err" -> [st |-> Idle, ok |-> Failing(m, st) /\ e.v = 1]
      \* the lexer or an action raised an exception: the parse ends with it
      [] e.op = "raised" -> [st |-> Idle, ok |-> st.on > 0]
      [] OTHER -> [st |-> st, ok |-> FALSE]
=============================================================================
