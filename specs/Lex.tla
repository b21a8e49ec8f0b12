-------------------------------- MODULE Lex --------------------------------
(* What a lexer specification means (mosmllex): from the current position, the entry point's rules are matched     *)
(* against the rest of the input; the longest prefix matched by any rule wins, the earliest rule among equals.     *)
(* Regular expressions are given by their partial derivatives.  The end of the input is the symbol 0, repeated.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eps == [t |-> "eps"]
Cat(x, y) == IF x.t = "eps" THEN y ELSE [t |-> "seq", a |-> x, b |-> y]
\* a character class: intervals, possibly complemented; a complement never contains the end of input
In(r, c) == LET m == \E i \in 1..Len(r.iv) : r.iv[i][1] <= c /\ c <= r.iv[i][2]
            IN IF r.neg THEN c # 0 /\ ~m ELSE m

RECURSIVE Nullable(_, _), PD(_, _, _)
Nullable(env, r) == CASE r.t = "eps" -> TRUE
                      [] r.t = "chars" -> FALSE
                      [] r.t = "seq" -> Nullable(env, r.a) /\ Nullable(env, r.b)
                      [] r.t = "alt" -> Nullable(env, r.a) \/ Nullable(env, r.b)
                      [] r.t = "plus" -> Nullable(env, r.a)
                      [] r.t = "name" -> Nullable(env, env[r.n])
                      [] OTHER -> TRUE                              \* star, maybe
PD(env, r, c) == CASE r.t = "eps" -> {}
                   [] r.t = "chars" -> IF In(r, c) THEN {Eps} ELSE {}
                   [] r.t = "seq" -> {Cat(x, r.b) : x \in PD(env, r.a, c)} \cup (IF Nullable(env, r.a) THEN PD(env, r.b, c) ELSE {})
                   [] r.t = "alt" -> PD(env, r.a, c) \cup PD(env, r.b, c)
                   [] r.t = "star" -> {Cat(x, r) : x \in PD(env, r.a, c)}
                   [] r.t = "plus" -> {Cat(x, [t |-> "star", a |-> r.a]) : x \in PD(env, r.a, c)}
                   [] r.t = "maybe" -> PD(env, r.a, c)
                   [] r.t = "name" -> PD(env, env[r.n], c)

Sym(inp, p) == IF p < Len(inp) THEN inp[p + 1] ELSE 0
NoMatch == [rule |-> 0, end |-> 0, read |-> 0]
\* ss[i]: what remains of rule i to be matched after the symbols up to p
RECURSIVE Longest(_, _, _, _, _)
Longest(env, ss, inp, p, best) ==
    LET acc == {i \in 1..Len(ss) : \E x \in ss[i] : Nullable(env, x)}
        now == IF acc = {} THEN best ELSE [rule |-> CHOOSE i \in acc : \A j \in acc : i <= j, end |-> p, read |-> p]
        c == Sym(inp, p)
        nxt == [i \in 1..Len(ss) |-> UNION {PD(env, x, c) : x \in ss[i]}]
    IN IF \A i \in 1..Len(ss) : ss[i] = {} THEN [best EXCEPT !.read = p] ELSE Longest(env, nxt, inp, p + 1, now)
Match(env, rules, inp, p) == Longest(env, [i \in 1..Len(rules) |-> {rules[i]}], inp, p, NoMatch)

\* ---------------------------------------------------------------- a lexer at work
Start == [env |-> <<>>, entries |-> <<>>, inp |-> <<>>, pos |-> 0, dead |-> FALSE]
Slice(s, p, q) == [i \in 1..(q - p) |-> Sym(s, p + i - 1)]
Step(e, st) ==
    CASE e.op = "lexer" -> [st |-> [st EXCEPT !.env = e.env, !.entries = e.entries], ok |-> TRUE]
      [] e.op = "input" -> [st |-> [st EXCEPT !.inp = e.inp, !.pos = 0, !.dead = FALSE], ok |-> TRUE]
      \* the start of a long input is not looked at
      [] e.op = "jump" -> [st |-> [st EXCEPT !.pos = e.to], ok |-> TRUE]
      [] e.op = "fail" -> [st |-> [st EXCEPT !.dead = TRUE],
                           ok |-> ~st.dead /\ Match(st.env, st.entries[e.entry], st.inp, st.pos).rule = 0]
      \* a token and its lookahead are only guaranteed to fit the lexer buffer up to 1024 characters
      [] e.op = "toolong" -> [st |-> [st EXCEPT !.dead = TRUE],
                              ok |-> ~st.dead /\ Match(st.env, st.entries[e.entry], st.inp, st.pos).read - st.pos > 1024]
      [] e.op = "tok" ->
           LET m == Match(st.env, st.entries[e.entry], st.inp, st.pos)
               past == st.pos > Len(st.inp)     \* positions past the end of the input have no meaning
           IN [st |-> [st EXCEPT !.pos = m.end],
               ok |-> /\ ~st.dead /\ m.rule # 0 /\ e.rule = m.rule
                      /\ past \/ (e.from = st.pos /\ e.to = m.end /\ e.lexeme = Slice(st.inp, st.pos, m.end))]
      [] OTHER -> [st |-> st, ok |-> FALSE]
=============================================================================
