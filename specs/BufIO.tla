------------------------------- MODULE BufIO -------------------------------
(* The buffered channels of src/runtime/io.c (putblock, putch, flush, seek_out; getblock, refill, seek_in),       *)
(* with a buffer of B bytes, next to the abstract streams they implement (StreamIO.tla).  Refinement: the file     *)
(* overlaid with the pending buffer is always the abstract file, positions agree, every read returns the bytes of  *)
(* the file at the abstract position, and flush leaves exactly the abstract file on disk.                          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS B,          \* IO_BUFFER_SIZE
          MaxLen,     \* bound on the file's length
          MaxN,       \* longest block written or read by one operation
          MaxOps,
          Side,       \* "out" or "in": the channel explored
          ResetMax,   \* putblock's direct write empties a buffer whose contents lie after the position (repaired)
          KeepPos     \* flush keeps a position inside the buffer (repaired)
VARIABLES disk, fdpos, off, buf, cur, max,   \* concrete output channel
          abs, apos,                         \* abstract file and position
          src, ifd, ioff, ibuf, icur, imax, ipos, got,   \* concrete input channel on the fixed file src; abstract position
          ops
out == <<disk, fdpos, off, buf, cur, max, abs, apos>>
inp == <<src, ifd, ioff, ibuf, icur, imax, ipos, got>>
vars == <<disk, fdpos, off, buf, cur, max, abs, apos, src, ifd, ioff, ibuf, icur, imax, ipos, got, ops>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
At(f, i) == IF i < Len(f) THEN f[i + 1] ELSE 0
\* f with the bytes s written at position p (0-based); a gap reads as zeros
Put(f, p, s) == IF s = <<>> THEN f
                ELSE [i \in 1..Max2(Len(f), p + Len(s)) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE At(f, i - 1)]
Slice(f, p, n) == SubSeq(f, p + 1, Min2(Len(f), p + n))

Init == /\ disk \in (IF Side = "out" THEN {<<>>, <<1>>, <<1, 2, 3, 1>>} ELSE {<<>>}) /\ fdpos = 0 /\ off = 0 /\ buf = <<>> /\ cur = 0 /\ max = 0
        /\ abs = disk /\ apos = 0
        /\ src \in (IF Side = "in" THEN {<<>>, <<1>>, <<1, 2, 3>>, <<2, 1, 3, 1, 2, 3, 3>>, <<1, 2, 3, 3, 2, 1>>} ELSE {<<>>})
        /\ ifd = 0 /\ ioff = 0 /\ ibuf = <<>> /\ icur = 0 /\ imax = 0 /\ ipos = 0 /\ got = TRUE /\ ops = 0

\* write(2) of s at the file offset, from channel state [d, f]
Wr(d, f, s) == [d |-> Put(d, f, s), f |-> f + Len(s)]
Buf(b, at, s) == Put(b, at, s)

\* putblock
Write(s) ==
    LET n == Len(s)
        m == B - cur
    IN /\ apos + n <= MaxLen
       /\ abs' = Put(abs, apos, s) /\ apos' = apos + n
       /\ IF cur = 0 /\ n >= m
          THEN LET w == Wr(disk, fdpos, s)
               IN disk' = w.d /\ fdpos' = w.f /\ off' = off + n /\ cur' = cur /\ buf' = buf
                  /\ max' = IF ResetMax THEN 0 ELSE max
          ELSE IF n <= m
          THEN /\ buf' = Buf(buf, cur, s) /\ cur' = cur + n /\ max' = Max2(max, cur + n)
               /\ UNCHANGED <<disk, fdpos, off>>
          ELSE LET full == SubSeq(Buf(buf, cur, SubSeq(s, 1, m)), 1, B)
                   w == Wr(disk, fdpos, full)
                   rest == SubSeq(s, m + 1, n)
               IN IF Len(rest) <= B
                  THEN disk' = w.d /\ fdpos' = w.f /\ off' = off + B /\ buf' = rest /\ cur' = Len(rest) /\ max' = Len(rest)
                  ELSE LET w2 == Wr(w.d, w.f, rest)
                       IN disk' = w2.d /\ fdpos' = w2.f /\ off' = off + B + Len(rest) /\ buf' = <<>> /\ cur' = 0 /\ max' = 0
Pending == SubSeq(buf, 1, max)
Flushed == LET w == Wr(disk, fdpos, Pending)
           IN IF max = 0 THEN [d |-> disk, f |-> fdpos, o |-> off]
              ELSE IF KeepPos /\ cur # max THEN [d |-> w.d, f |-> off + cur, o |-> off + cur]
              ELSE [d |-> w.d, f |-> w.f, o |-> off + max]
Flush == /\ disk' = Flushed.d /\ fdpos' = Flushed.f /\ off' = Flushed.o
         /\ cur' = (IF max = 0 THEN cur ELSE 0) /\ max' = 0 /\ buf' = (IF max = 0 THEN buf ELSE <<>>)
         /\ UNCHANGED <<abs, apos>>
SeekOut(d) ==
    /\ apos' = d /\ abs' = abs
    /\ IF d >= off /\ d <= off + max
       THEN cur' = d - off /\ UNCHANGED <<disk, fdpos, off, buf, max>>
       ELSE disk' = Flushed.d /\ fdpos' = d /\ off' = d /\ buf' = <<>> /\ cur' = 0 /\ max' = 0

\* getblock
Read(n) ==
    LET m == imax - icur
        k == IF n <= m THEN n ELSE IF m > 0 THEN m ELSE 0
        l == Slice(src, ifd, IF n < B THEN B ELSE n)
        r == IF n <= m \/ m > 0 THEN SubSeq(ibuf, icur + 1, icur + k)
             ELSE IF n < B THEN SubSeq(l, 1, Min2(n, Len(l))) ELSE l
    IN /\ n > 0
       /\ IF n <= m \/ m > 0 THEN icur' = icur + k /\ UNCHANGED <<ifd, ioff, ibuf, imax>>
          ELSE IF n < B
          THEN ifd' = ifd + Len(l) /\ ioff' = ioff + Len(l) /\ ibuf' = l /\ imax' = Len(l) /\ icur' = Min2(n, Len(l))
          ELSE ifd' = ifd + Len(l) /\ ioff' = ioff + Len(l) /\ ibuf' = <<>> /\ imax' = 0 /\ icur' = 0
       \* a read returns a non-empty prefix of what follows the abstract position, nothing only at the end
       /\ got' = (r = Slice(src, ipos, Len(r)) /\ Len(r) <= n /\ (r = <<>> => ipos >= Len(src)))
       /\ ipos' = ipos + Len(r) /\ src' = src
\* getch / refill; at the end of file refill changes nothing
Char == IF icur < imax
        THEN /\ got' = (ibuf[icur + 1] = At(src, ipos) /\ ipos < Len(src))
             /\ icur' = icur + 1 /\ ipos' = ipos + 1 /\ UNCHANGED <<src, ifd, ioff, ibuf, imax>>
        ELSE LET l == Slice(src, ifd, B)
             IN IF l = <<>> THEN got' = (ipos >= Len(src)) /\ UNCHANGED <<src, ifd, ioff, ibuf, icur, imax, ipos>>
                ELSE /\ got' = (l[1] = At(src, ipos) /\ ipos < Len(src))
                     /\ ifd' = ifd + Len(l) /\ ioff' = ioff + Len(l) /\ ibuf' = l /\ imax' = Len(l) /\ icur' = 1
                     /\ ipos' = ipos + 1 /\ src' = src
SeekIn(d) == /\ ipos' = d /\ got' = got /\ src' = src
             /\ IF d >= ioff - imax /\ d <= ioff
                THEN icur' = imax - (ioff - d) /\ UNCHANGED <<ifd, ioff, ibuf, imax>>
                ELSE ifd' = d /\ ioff' = d /\ icur' = 0 /\ imax' = 0 /\ ibuf' = <<>>
\* channel_size reads the length and returns to channel->offset
Size == ifd' = ioff /\ UNCHANGED <<src, ioff, ibuf, icur, imax, ipos, got>>

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ /\ Side = "out" /\ UNCHANGED inp
              /\ \/ \E n \in 1..MaxN : Write([i \in 1..n |-> ((ops + i) % 3) + 1])
                 \/ Flush
                 \/ \E d \in 0..MaxLen : SeekOut(d)
           \/ /\ Side = "in" /\ UNCHANGED out
              /\ \/ \E n \in 1..MaxN : Read(n)
                 \/ Char \/ Size
                 \/ \E d \in 0..(Len(src) + 1) : SeekIn(d)
Spec == Init /\ [][Next]_vars

Positions == apos = off + cur /\ ipos = ioff - (imax - icur)
OutRefines == Put(disk, off, Pending) = abs /\ fdpos = off /\ cur <= max /\ max <= B
FlushComplete == Flushed.d = abs
InRefines == got /\ ifd = ioff /\ icur <= imax /\ imax <= B
             /\ ibuf = (IF imax = 0 THEN ibuf ELSE Slice(src, ioff - imax, imax))
=============================================================================
