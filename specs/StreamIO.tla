------------------------------ MODULE StreamIO ------------------------------
(* Files, pipes and the streams on them as TextIO, BinIO, BasicIO and Nonstdio document them.  A file is a byte    *)
(* sequence; an input stream is a position in it; an output stream a position at which bytes are put.  Buffering    *)
(* is visible in one way only: bytes written but not yet flushed may or may not be on disk, so a file has a         *)
(* guaranteed length fl besides its logical contents.  BufIO.tla shows that the buffered channels implement this.   *)
EXTENDS Integers, Sequences, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
At(f, i) == IF i < Len(f) THEN f[i + 1] ELSE 0
Put(f, p, s) == IF s = <<>> THEN f
                ELSE IF p = Len(f) THEN f \o s
                ELSE IF p < Len(f) THEN SubSeq(f, 1, p) \o s \o SubSeq(f, p + Len(s) + 1, Len(f))
                ELSE f \o [i \in 1..(p - Len(f)) |-> 0] \o s
Int32(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
ToInt32(b) == (IF b[1] >= 128 THEN b[1] - 256 ELSE b[1]) * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]

NoFile == [kind |-> "none", data |-> <<>>, fl |-> 0, wild |-> FALSE, dirty |-> 0]
File(k, d) == [kind |-> k, data |-> d, fl |-> Len(d), wild |-> FALSE, dirty |-> 0]
NoSlot == [dir |-> "no", closed |-> FALSE, f |-> 0, pos |-> 0, app |-> FALSE, api |-> "t", pend |-> 0]

OK(st, ok) == [st |-> st, ok |-> ok]

\* ---------------------------------------------------------------- opening, names
Open(e, st) ==
    LET F == st.files[e.f]
        bad == IF e.api = "o" THEN "syserr" ELSE "io"
        slot == [dir |-> IF e.op = "openin" THEN "in" ELSE "out", closed |-> FALSE, f |-> e.f, pos |-> 0,
                 app |-> e.op = "openapp", api |-> e.api, pend |-> 0]
        opened(g) == [st EXCEPT !.files[e.f] = g, !.slots[e.s] = slot]
    IN IF e.op = "openin"
       THEN IF F.kind \in {"none", "nodir"} THEN OK(st, e.r = bad)
            ELSE OK(opened(F), e.r = "ok")
       ELSE IF F.kind \in {"dir", "nodir"} THEN OK(st, e.r = bad)
       ELSE IF F.kind = "full" THEN OK(opened(F), e.r = "ok")
       ELSE IF e.op = "openapp" /\ F.kind = "reg" THEN OK(opened(F), e.r = "ok")
       ELSE OK(opened(File("reg", <<>>)), e.r = "ok")

\* ---------------------------------------------------------------- input
Reading(e, st) ==
    LET S == st.slots[e.s]
        F == st.files[S.f]
        D == F.data
        p == S.pos
        o == e.out
        fits == o = <<>> \/ (p + Len(o) <= Len(D) /\ SubSeq(D, p + 1, p + Len(o)) = o)
        end(k) == p + k >= F.fl                  \* after k more bytes the stream may be at its end
        to(q) == [st EXCEPT !.slots[e.s].pos = q, !.files[S.f].fl = IF q > p THEN Max2(F.fl, Min2(q, Len(D))) ELSE F.fl]
        adv == to(p + Len(o))
        ok == e.r = "ok"
        none == e.r = "none"
        noline(k) == \A i \in 1..k : o[i] # 10
    IN IF e.op = "inputN" /\ e.n < 0 /\ S.api # "o" THEN OK(st, e.r = "size")
       ELSE IF e.op = "noblock" /\ S.api = "b" THEN OK(st, e.r = "fail")        \* documented as not implemented
       ELSE IF S.closed THEN
            OK(st, CASE e.op \in {"input", "inputN", "inputAll", "noblock"} -> ok /\ o = <<>>
                     [] e.op \in {"input1", "inputLine", "look"} -> IF S.api = "o" THEN ok /\ o = <<>> ELSE none
                     [] e.op = "eos" -> e.r = "true"
                     [] e.op = "can" -> e.r = (IF e.n = 0 THEN "true" ELSE "false")
                     [] e.op = "buffin" -> ok /\ o = <<>>
                     [] e.op = "scan" -> ok /\ o = <<>>
                     [] OTHER -> e.r = "syserr")
       ELSE IF F.kind = "dir" /\ e.op \notin {"seek", "pos", "length"} /\ ~(e.op \in {"inputN", "can", "scan"} /\ e.n <= 0) /\ ~(e.op = "really" /\ e.m <= 0) /\ ~(e.op = "buffin" /\ (e.n < 0 \/ e.m <= 0 \/ e.n + e.m > e.k)) THEN OK(st, e.r = "syserr")
       ELSE CASE e.op = "input" -> OK(adv, ok /\ fits /\ (o = <<>> => end(0)))
              [] e.op = "noblock" -> IF none THEN OK(st, F.kind = "fifo")
                                     ELSE OK(adv, ok /\ fits /\ (o = <<>> => end(0)))
              [] e.op = "inputN" -> OK(adv, ok /\ fits /\ (IF e.n <= 0 THEN o = <<>>
                                                           ELSE Len(o) = e.n \/ (Len(o) < e.n /\ end(Len(o)))))
              [] e.op = "inputAll" -> OK(adv, ok /\ fits /\ end(Len(o)))
              [] e.op = "input1" -> IF none THEN OK(st, end(0)) ELSE OK(adv, ok /\ Len(o) = 1 /\ fits)
              [] e.op = "look" -> IF none \/ (S.api = "o" /\ o = <<>>) THEN OK(st, end(0))
                                  ELSE OK([adv EXCEPT !.slots[e.s].pos = p], ok /\ Len(o) = 1 /\ fits)
              [] e.op = "eos" -> IF e.r = "true" THEN OK(st, end(0))
                                 ELSE OK([to(p + 1) EXCEPT !.slots[e.s].pos = p], e.r = "false" /\ p < Len(D))
              [] e.op = "inputLine" /\ S.api # "o" ->
                   IF none THEN OK(st, end(0))
                   ELSE IF ok /\ o # <<>> /\ o[Len(o)] = 10 /\ noline(Len(o) - 1) THEN
                        IF fits THEN OK(adv, TRUE)
                        \* the end of the stream came first: a newline is added
                        ELSE LET k == Len(o) - 1
                             IN OK(to(p + k), k > 0 /\ p + k <= Len(D) /\ SubSeq(D, p + 1, p + k) = SubSeq(o, 1, k) /\ end(k))
                   ELSE OK(st, FALSE)
              [] e.op = "inputLine" ->
                   OK(adv, ok /\ fits /\ noline(Len(o) - 1) /\ ((o # <<>> /\ o[Len(o)] = 10) \/ end(Len(o))))
              \* a true answer is a promise; a false one says nothing about more characters than the next one
              [] e.op = "can" -> IF e.r = "true" THEN OK([to(p + Max2(e.n, 0)) EXCEPT !.slots[e.s].pos = p],
                                                         e.n >= 0 /\ (e.n = 0 \/ p + e.n <= Len(D)))
                                 ELSE OK(st, e.r = "false" /\ (e.n < 0 \/ e.n > 1 \/ (e.n = 1 /\ end(0))))
              [] e.op = "inputChar" -> IF e.r = "size" THEN OK(st, end(0)) ELSE OK(adv, ok /\ Len(o) = 1 /\ fits)
              [] e.op = "inputInt" -> IF e.r = "size" THEN OK(to(Max2(p, Len(D))), F.fl = Len(D) /\ p + 4 > Len(D))
                                      ELSE OK(to(p + 4), ok /\ p + 4 <= Len(D) /\ e.num = ToInt32(SubSeq(D, p + 1, p + 4)))
              [] e.op = "buffin" -> IF e.n < 0 \/ e.m < 0 \/ e.n + e.m > e.k THEN OK(st, e.r = "fail")
                                    ELSE OK(adv, ok /\ fits /\ Len(o) <= e.m /\ (o = <<>> => e.m = 0 \/ end(0)))
              [] e.op = "really" -> IF e.r = "fail" THEN OK(to(Max2(p, Len(D))), F.fl = Len(D) /\ p + e.m > Len(D))
                                    ELSE OK(adv, ok /\ fits /\ Len(o) = Max2(e.m, 0))
              \* a scanner that reads n characters and then re-reads the last m of them
              [] e.op = "scan" -> LET k == Min2(e.n, Max2(0, Len(D) - p))
                                      b == Min2(e.m, k)
                                  IN IF b > 512 THEN OK(to(p + k), e.r = "fail")
                                     ELSE OK(to(p + k), ok /\ F.fl = Len(D)
                                                        /\ o = SubSeq(D, p + 1, p + k) \o SubSeq(D, p + k - b + 1, p + k))
              [] e.op = "seek" -> IF e.n < 0 THEN OK(st, e.r = "syserr")
                                  ELSE OK([st EXCEPT !.slots[e.s].pos = e.n], ok)
              [] e.op = "pos" -> OK(st, ok /\ e.num = p)
              [] e.op = "length" -> IF F.kind = "dir" THEN OK(st, TRUE)
                                    ELSE OK([st EXCEPT !.files[S.f].fl = Max2(F.fl, Min2(e.num, Len(D)))],
                                            ok /\ e.num >= F.fl /\ e.num <= Len(D))
              [] OTHER -> OK(st, FALSE)

\* ---------------------------------------------------------------- output
Bytes(e) == CASE e.op = "outInt" -> Int32(e.num)
              [] e.op = "outByte" -> <<e.n % 256>>
              [] e.op \in {"outSub", "buffout"} -> SubSeq(e.data, e.n + 1, e.n + e.m)
              [] OTHER -> e.data
Writing(e, st) ==
    LET S == st.slots[e.s]
        F == st.files[S.f]
        w == Bytes(e)
        p == IF S.app \/ F.kind # "reg" THEN Len(F.data) ELSE S.pos
        put == [F EXCEPT !.data = Put(F.data, p, w), !.wild = F.wild \/ (w # <<>> /\ p < Len(F.data)), !.dirty = IF w = <<>> THEN F.dirty ELSE e.s]
        clean(G) == [G EXCEPT !.fl = Len(G.data), !.wild = FALSE, !.dirty = 0]
        own == w = <<>> \/ F.dirty \in {0, e.s}
        flush == IF F.dirty = e.s THEN clean(F) ELSE F
        with(G, q) == [st EXCEPT !.files[S.f] = G, !.slots[e.s].pos = q]
        ok == e.r = "ok"
    IN IF S.closed THEN OK(st, IF e.op = "close" THEN ok ELSE e.r = (IF S.api = "o" THEN "syserr" ELSE "io"))
       ELSE IF e.op = "buffout" /\ (e.n < 0 \/ e.m < 0 \/ e.n + e.m > Len(e.data)) THEN OK(st, e.r = "fail")
       ELSE IF F.kind = "full" THEN
            \* a device that accepts nothing: the failure is reported at the latest by flush or close
            CASE e.op \in {"flush", "close"} -> OK([st EXCEPT !.slots[e.s].closed = (e.op = "close" /\ ok)],
                                                   IF S.pend > 0 THEN e.r = "syserr" ELSE ok \/ S.pend < 0)
              [] e.op \in {"posout", "seekout"} -> OK(st, TRUE)
              [] OTHER -> OK([st EXCEPT !.slots[e.s].pend = IF w = <<>> THEN S.pend ELSE IF ok THEN Max2(S.pend, 0) + Len(w)
                                                                    ELSE IF S.pend > 0 THEN S.pend ELSE -1], e.r \in {"ok", "syserr"})
       ELSE CASE e.op = "flush" -> OK(with(flush, S.pos), ok)
              [] e.op = "close" -> OK([with(flush, S.pos) EXCEPT !.slots[e.s].closed = TRUE], ok)
              [] e.op = "seekout" -> IF e.n < 0 THEN OK(st, e.r = "syserr") ELSE OK(with(F, e.n), ok)
              [] e.op = "posout" -> OK(st, ok /\ e.num = S.pos)
              [] OTHER -> OK(with(IF e.op = "print" \/ e.s = 9 THEN clean(put) ELSE put, p + Len(w)), ok /\ own)

\* ---------------------------------------------------------------- all events
Start == [files |-> [i \in 1..10 |-> NoFile], slots |-> [i \in 1..9 |-> NoSlot]]
Step(e, st) ==
    CASE e.op = "mk" -> OK([st EXCEPT !.files[e.f] = File(e.r, e.data)], TRUE)     \* the environment provides a file
      [] e.op = "std" -> OK([st EXCEPT !.slots[e.s] = [NoSlot EXCEPT !.dir = e.r, !.f = e.f, !.api = "t"]], TRUE)
      [] e.op = "api" -> OK([st EXCEPT !.slots[e.s].api = e.api], TRUE)             \* standard streams through the other library
      [] e.op \in {"openin", "openout", "openapp"} -> Open(e, st)
      [] e.op = "exists" -> OK(st, e.r = (IF st.files[e.f].kind \in {"none", "nodir"} THEN "false" ELSE "true"))
      [] e.op = "remove" -> IF st.files[e.f].kind = "reg" THEN OK([st EXCEPT !.files[e.f] = NoFile], e.r = "ok")
                            ELSE OK(st, e.r = "syserr")
      \* what the file holds after the program has ended
      [] e.op = "final" -> LET F == st.files[e.f]
                           IN OK(st, IF F.kind = "reg" THEN e.r = "ok" /\ (F.wild \/ (/\ Len(e.out) >= F.fl /\ Len(e.out) <= Len(F.data)
                                                                                 /\ e.out = SubSeq(F.data, 1, Len(e.out))))
                                     ELSE IF F.kind = "out" THEN e.out = F.data
                                     ELSE e.r = "none")
      [] st.slots[e.s].dir = "in" /\ e.op = "close" -> OK([st EXCEPT !.slots[e.s].closed = TRUE], e.r = "ok")
      [] st.slots[e.s].dir = "in" -> Reading(e, st)
      [] st.slots[e.s].dir = "out" -> Writing(e, st)
      [] OTHER -> OK(st, FALSE)
=============================================================================
