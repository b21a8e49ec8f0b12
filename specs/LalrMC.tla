------------------------------- MODULE LalrMC -------------------------------
(* The machine of Lalr against the language of the grammar: for grammars without conflicts it accepts exactly the     *)
(* derivable token sequences and reports an error at the first token that no derivable sequence continues with; for   *)
(* an ambiguous operator grammar the tree it builds is the one the declared precedences and associativities demand.   *)
EXTENDS Lalr
CONSTANT N                                 \* length of the inputs, without the end marker
p(l, r) == [l |-> l, r |-> r, prec |-> 0, assoc |-> "n"]
G(nt, tok, ps) == [nt |-> nt, tok |-> tok, prods |-> ps, starts |-> <<1>>, prec |-> [i \in 1..tok |-> 0], assoc |-> [i \in 1..tok |-> "n"]]
\* every grammar: 1 -> 2 EOF; EOF is the last token
Gs == << \* S -> ( S ) S | empty
         G(2, 3, <<p(1, <<2, 5>>), p(2, <<3, 2, 4, 2>>), p(2, <<>>)>>),
         \* E -> E + T | T, T -> a | ( E )
         G(3, 5, <<p(1, <<2, 8>>), p(2, <<2, 4, 3>>), p(2, <<3>>), p(3, <<5>>), p(3, <<6, 2, 7>>)>>),
         \* LALR but not SLR: S -> L = R | R, L -> * R | a, R -> L
         G(4, 4, <<p(1, <<2, 8>>), p(2, <<3, 5, 4>>), p(2, <<4>>), p(3, <<6, 4>>), p(3, <<7>>), p(4, <<3>>)>>),
         \* nullable lists: S -> A b B, A -> A a | empty, B -> a B | empty
         G(4, 3, <<p(1, <<2, 7>>), p(2, <<3, 6, 4>>), p(3, <<3, 5>>), p(3, <<>>), p(4, <<5, 4>>), p(4, <<>>)>>),
         \* LR(1) and LALR(1) lookaheads from different contexts: S -> a A c | b B c | a B b | b A b would not be LALR; drop one
         G(4, 4, <<p(1, <<2, 8>>), p(2, <<5, 3, 7>>), p(2, <<6, 4, 7>>), p(2, <<5, 4, 6>>), p(3, <<5>>), p(4, <<5, 5>>), p(3, <<>>)>>) >>
Ops == [nt |-> 2, tok |-> 6, starts |-> <<1>>, prec |-> <<1, 2, 3, 4, 0, 0>>, assoc |-> <<"n", "l", "r", "l", "n", "n">>,
        prods |-> <<p(1, <<2, 8>>), [l |-> 2, r |-> <<2, 3, 2>>, prec |-> 1, assoc |-> "n"], [l |-> 2, r |-> <<2, 4, 2>>, prec |-> 2, assoc |-> "l"],
                    [l |-> 2, r |-> <<2, 5, 2>>, prec |-> 3, assoc |-> "r"], [l |-> 2, r |-> <<6, 2>>, prec |-> 4, assoc |-> "l"], p(2, <<7>>)>>]
All == Append(Gs, Ops)

Words(g, n) == UNION {[1..k -> (g.nt + 1)..(g.nt + g.tok - 1)] : k \in 0..n}
\* the sentences of each nonterminal up to length n
RECURSIVE Cat(_, _, _, _), Lang(_, _, _)
Cat(L, r, k, n) == IF k > Len(r) THEN {<<>>}
                   ELSE LET rest == Cat(L, r, k + 1, n)
                            here == IF r[k] \in DOMAIN L THEN L[r[k]] ELSE {<<r[k]>>}
                        IN {w \in {x \o y : x \in here, y \in rest} : Len(w) <= n}
Lang(g, L, n) == LET M == [A \in 1..g.nt |-> L[A] \cup UNION {Cat(L, g.prods[i].r, 1, n) : i \in {i \in DOMAIN g.prods : g.prods[i].l = A}}]
                 IN IF M = L THEN L ELSE Lang(g, M, n)
Ls == TLCEval([i \in DOMAIN Gs |-> TLCEval(Lang(Gs[i], [A \in 1..Gs[i].nt |-> {}], N + 2)[1])])

Pre == TLCEval([i \in DOMAIN Gs |-> TLCEval(UNION {{SubSeq(x, 1, k) : k \in 0..Len(x)} : x \in Ls[i]})])

VARIABLES i, m, w, st, pos, res            \* attributes are trees <<production, children>>; tokens <<0, symbol>>
vars == <<i, m, w, st, pos, res>>
Seen == <<i, w, st, pos, res>>
Init == /\ i \in DOMAIN All
        /\ m = Machine(All[i])
        /\ w \in {Append(x, All[i].nt + All[i].tok) : x \in Words(All[i], N)}
        /\ st = Begin(m, 1) /\ pos = 1 /\ res = "run"
Next == /\ res = "run" /\ UNCHANGED <<i, m, w>>
        /\ \/ /\ Accepting(m, Settle(m, st)) /\ res' = "acc" /\ st' = Settle(m, st) /\ UNCHANGED pos
           \/ /\ Failing(m, st) /\ res' = "err" /\ UNCHANGED <<st, pos>>
           \/ /\ ~Accepting(m, Settle(m, st)) /\ pos <= Len(w)
              /\ Read(m, st, w[pos], <<0, w[pos]>>, pos, pos).ok
              /\ st' = Read(m, st, w[pos], <<0, w[pos]>>, pos, pos).st /\ pos' = pos + 1 /\ UNCHANGED res
           \/ \E q \in m.tab.comp[Top(Settle(m, st))] :
                LET s == Settle(m, st) IN
                /\ MayReduce(m, s, q) /\ UNCHANGED <<pos, res>>
                /\ st' = Reduce(m, s, q, <<q, [k \in DOMAIN Args(m, s, q) |-> Args(m, s, q)[k].v]>>)
Spec == Init /\ [][Next]_vars

Derivable == i \in DOMAIN Gs =>
    CASE res = "acc" -> w \in Ls[i]
      [] res = "err" -> w \notin Ls[i] /\ SubSeq(w, 1, pos - 1) \notin Pre[i]
      [] OTHER -> TRUE
\* what has been shifted (all but the last token read) can be continued, when short enough to tell
Viable == (i \in DOMAIN Gs /\ res = "run" /\ pos <= 3) => SubSeq(w, 1, pos - 2) \in Pre[i]
NoConflict == i \in DOMAIN Gs => m.tab.sr = 0 /\ m.tab.rr = 0
\* the tree of the operator grammar: operands of an operator bind tighter, or as tightly on the side it associates to
Prec(t) == IF t[1] \in 2..5 THEN Ops.prec[t[1] - 1] ELSE 10
RECURSIVE Bound(_)
Bound(t) == CASE t[1] \in 2..4 -> LET a == t[2][1] b == t[2][3] q == Prec(t) s == Ops.assoc[t[1] - 1]
                                  \* prefix operators reach as far right as they can on the left-hand side
                                  IN /\ Bound(a) /\ Bound(b)
                                     /\ Prec(a) > q \/ (Prec(a) = q /\ s = "l") \/ t[2][1][1] = 5
                                     /\ Prec(b) > q \/ (Prec(b) = q /\ s = "r")
              [] t[1] = 5 -> Bound(t[2][2]) /\ Prec(t[2][2]) >= 4
              [] OTHER -> TRUE
RECURSIVE Yield(_), YieldSeq(_, _)
YieldSeq(ts, k) == IF k > Len(ts) THEN <<>> ELSE Yield(ts[k]) \o YieldSeq(ts, k + 1)
Yield(t) == IF t[1] = 0 THEN <<t[2]>> ELSE YieldSeq(t[2], 1)
Tree == (res = "acc") => LET t == st.stack[2].v IN
    /\ Yield(t) = w
    /\ i \notin DOMAIN Gs => Bound(t[2][1])
\* the parser stops, and never without a reason
Ends == (res = "run" /\ ~ENABLED Next) => FALSE
=============================================================================
