-------------------------------- MODULE Sock --------------------------------
(* Sockets of one process, over files and over the loopback interface.                                              *)
(*                                                                                                                   *)
(* sk[h] is the h'th socket obtained: its kind ("fs", "is": streams, "fd", "id": datagrams), its condition st        *)
(* ("new", "listen", "conn", "closed"), the name it is bound to ("" if none), the queue q of what has arrived (bytes *)
(* or messages [src, data], named by their sender when they are received), its peer, the pending connections back (of a listener), and what has been shut down:    *)
(* eof (nothing more will arrive), nosend (by itself), norecv (by itself).                                           *)
(* owner[a] is the socket bound to address a; the file of a closed socket stays. addr[k] is the k'th address         *)
(* obtained from accept or recvFrom: the name of the sender, "" when it has none.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Start == [sk |-> <<>>, owner |-> [a \in {} |-> 0], addr |-> <<>>]
NewSock(k) == [k |-> k, st |-> "new", name |-> "", q |-> <<>>, peer |-> 0, back |-> <<>>, eof |-> FALSE, nosend |-> FALSE, norecv |-> FALSE]
Stream(x) == x.k \in {"fs", "is"}
File(x) == x.k \in {"fs", "fd"}
No == [ok |-> FALSE]
Yes(s) == [ok |-> TRUE, s |-> s]
If(c, s) == IF c THEN Yes(s) ELSE No
Bound(s, a) == a \in DOMAIN s.owner

Bind(s, e) ==
  LET x == s.sk[e.h]
      outs == (IF e.toolong THEN {"E:ENAMETOOLONG"} ELSE {}) \cup (IF x.name # "" THEN {"E:EINVAL"} ELSE {}) \cup (IF Bound(s, e.a) THEN {"E:EADDRINUSE"} ELSE {})
  IN IF e.toolong THEN If(e.out = "E:ENAMETOOLONG", s)
     ELSE IF e.out # "ok" THEN If(e.out \in outs \cup (IF File(x) THEN {} ELSE {"E:EADDRINUSE"}), s)   \* others use ports, too
     ELSE If(outs = {}, [s EXCEPT !.sk[e.h].name = e.a, !.owner = [b \in DOMAIN @ \cup {e.a} |-> IF b = e.a THEN e.h ELSE @[b]]])

Listen(s, e) == LET x == s.sk[e.h] IN
  IF x.st = "conn" \/ (File(x) /\ x.name = "") THEN If(e.out = "E:EINVAL", s)
  ELSE If(e.out = "ok", [s EXCEPT !.sk[e.h].st = "listen"])

(* a stream connects: the other end waits, nameless or named, in the listener's queue; what is sent to it meanwhile *)
(* is received once it is accepted.                                                                                 *)
Target(s, e) == IF e.to > 0 THEN s.addr[e.to] ELSE e.a
Connect(s, e) ==
  LET x == s.sk[e.h]
      a == Target(s, e)
      o == IF Bound(s, a) THEN s.owner[a] ELSE 0
      n == Len(s.sk) + 1
  IN IF e.toolong THEN If(e.out = "E:ENAMETOOLONG", s)
     ELSE IF a = "" THEN If(e.out = "E:EINVAL", s)
     ELSE IF x.st = "conn" /\ ~File(x) THEN If(e.out = "E:EISCONN", s)
     ELSE IF o = 0 /\ File(x) THEN If(e.out = "E:ENOENT", s)
     ELSE IF o = 0 THEN If(e.out = "E:ECONNREFUSED", s)
     ELSE IF File(x) /\ s.sk[o].st # "closed" /\ s.sk[o].k # x.k THEN If(e.out = "E:EUNSPECIFIED", s)
     ELSE IF s.sk[o].st # "listen" THEN If(e.out = "E:ECONNREFUSED", s)
     ELSE IF x.st = "conn" THEN If(e.out = "E:EISCONN", s)
     ELSE If(e.out = "ok",
          [s EXCEPT !.sk = [Append(@, [NewSock(x.k) EXCEPT !.st = "pending", !.peer = e.h, !.name = "of " \o s.sk[o].name])
                            EXCEPT ![e.h].st = "conn", ![e.h].peer = n, ![o].back = Append(@, n)]])

(* (A connection's other end is in sk before the program has obtained it by accept.)                                *)
Accept(s, e) ==
  LET x == s.sk[e.h] IN
  IF x.st # "listen" THEN If(e.out = "E:EINVAL", s)
  ELSE IF x.back = <<>> THEN If(e.out = "block", s)
  ELSE LET n == x.back[1] IN
       If(e.out = (IF File(x) THEN "ok" ELSE "127.0.0.1"),
          [s EXCEPT !.sk[e.h].back = Tail(@), !.sk[n].st = "conn", !.addr = Append(@, s.sk[s.sk[n].peer].name)])

Close(s, e) ==
  LET x == s.sk[e.h]
      t == [s EXCEPT !.sk[e.h].st = "closed"]
  IN If(e.out = "ok", IF x.st = "conn" THEN [t EXCEPT !.sk[x.peer].eof = TRUE] ELSE t)

(* how: 0 no more receives, 1 no more sends, 2 neither *)
Shut(s, e) ==
  LET x == s.sk[e.h]
      t == [s EXCEPT !.sk[e.h].norecv = @ \/ e.how \in {0, 2}, !.sk[e.h].nosend = @ \/ e.how \in {1, 2}]
  IN IF x.st # "conn" THEN If(e.out = "E:ENOTCONN", s)
     ELSE If(e.out = "ok", IF e.how \in {1, 2} THEN [t EXCEPT !.sk[x.peer].eof = TRUE] ELSE t)

(* the part of a buffer of length n that [ofs, size] denotes *)
Part(n, ofs, size) == LET z == IF size < 0 - 999 THEN n - ofs ELSE size        \* -1000: NONE
                      IN [ok |-> ofs >= 0 /\ z >= 0 /\ ofs + z <= n, z |-> z]
Slice(d, ofs, z) == SubSeq(d, ofs + 1, ofs + z)

Send(s, e) ==
  LET x == s.sk[e.h]
      p == Part(Len(e.data), e.ofs, e.size)
  IN IF ~p.ok THEN If(e.out = "Subscript", s)
     ELSE IF x.st # "conn" THEN If(e.out = "E:ENOTCONN", s)
     ELSE IF x.nosend \/ s.sk[x.peer].st = "closed" \/ (File(x) /\ s.sk[x.peer].norecv) THEN If(e.out = "E:EPIPE", s)
     ELSE If(e.out = ToString(p.z), [s EXCEPT !.sk[x.peer].q = @ \o Slice(e.data, e.ofs, p.z)])

(* a datagram socket on the network that sends without a name is given one *)
Named(s, h) == IF File(s.sk[h]) \/ s.sk[h].name # "" THEN s
               ELSE LET a == "port of " \o ToString(h)
                    IN [s EXCEPT !.sk[h].name = a, !.owner = [b \in DOMAIN @ \cup {a} |-> IF b = a THEN h ELSE @[b]]]
SendTo(s, e) ==
  LET x == s.sk[e.h]
      p == Part(Len(e.data), e.ofs, e.size)
      a == Target(s, e)
  IN IF e.toolong THEN If(e.out = "E:ENAMETOOLONG", s)
     ELSE IF ~p.ok THEN If(e.out = "Subscript", s)
     ELSE IF a = "" THEN If(e.out = "E:EINVAL", s)
     ELSE IF ~Bound(s, a) THEN If(e.out = (IF File(x) THEN "E:ENOENT" ELSE ToString(p.z)), Named(s, e.h))
     ELSE LET o == s.owner[a]
              t == Named(s, e.h)
          IN IF s.sk[o].st = "closed" THEN If(e.out = (IF File(x) THEN "E:ECONNREFUSED" ELSE ToString(p.z)), t)
             ELSE IF s.sk[o].k # x.k THEN If(File(x) /\ e.out = "E:EUNSPECIFIED", t)
             ELSE If(e.out = ToString(p.z),
                     [t EXCEPT !.sk[o].q = Append(@, [src |-> e.h, data |-> Slice(e.data, e.ofs, p.z)])])

Readable(s, h) == LET x == s.sk[h] IN
  IF x.st = "listen" THEN x.back # <<>> ELSE x.q # <<>> \/ x.eof \/ x.norecv
Writable(s, h) == s.sk[h].st # "listen"

(* what a receive of up to n bytes did to a buffer of zs: e.got bytes, e.buf the buffer afterwards *)
Filled(e, n, got) ==
  IF e.vec THEN e.buf = got
  ELSE /\ Len(e.buf) = n
       /\ \A i \in 1..n : e.buf[i] = IF i > e.ofs /\ i <= e.ofs + Len(got) THEN got[i - e.ofs] ELSE 122
Recv(s, e) ==
  LET x == s.sk[e.h]
      p == IF e.vec THEN [ok |-> TRUE, z |-> e.n] ELSE Part(e.n, e.ofs, e.size)
  IN IF e.out = "block" THEN If(~Readable(s, e.h), s)
     ELSE IF ~p.ok THEN If(e.out = "Subscript", s)
     ELSE IF x.st # "conn" THEN If(e.out = (IF File(x) THEN "E:EINVAL" ELSE "E:ENOTCONN"), s)
     ELSE IF e.out # "got" THEN No
     ELSE LET most == IF p.z < Len(x.q) THEN p.z ELSE Len(x.q)
              got == SubSeq(x.q, 1, e.got)
          IN If(/\ e.got <= most
                /\ (File(x) => e.got = most)               \* the network may deliver what was sent piecemeal
                /\ (most > 0 => e.got > 0)
                /\ Filled(e, e.n, got),
                IF e.peek THEN s ELSE [s EXCEPT !.sk[e.h].q = SubSeq(@, e.got + 1, Len(@))])
RecvFrom(s, e) ==
  LET x == s.sk[e.h]
      p == IF e.vec THEN [ok |-> TRUE, z |-> e.n] ELSE Part(e.n, e.ofs, e.size)
  IN IF e.out = "block" THEN If(~Readable(s, e.h), s)
     ELSE IF ~p.ok THEN If(e.out = "Subscript", s)
     ELSE IF e.out # "got" \/ x.q = <<>> THEN No
     ELSE LET m == x.q[1]
              z == IF p.z < Len(m.data) THEN p.z ELSE Len(m.data)
              t == [s EXCEPT !.addr = Append(@, s.sk[m.src].name)]
          IN If(e.got = z /\ Filled(e, e.n, SubSeq(m.data, 1, z)), IF e.peek THEN t ELSE [t EXCEPT !.sk[e.h].q = Tail(@)])

Select(s, e) == If(/\ e.rs = SelectSeq(e.r, LAMBDA h : Readable(s, h))
                   /\ e.ws = SelectSeq(e.w, LAMBDA h : Writable(s, h))
                   /\ e.xs = <<>>, s)
Compare(s, e) == If(e.out = "true==" <=> e.h = e.g, s)

Op(s, e) ==
  CASE e.op = "new" -> If(e.out = "ok", [s EXCEPT !.sk = Append(@, NewSock(e.k))])
    [] e.op = "bind" -> Bind(s, e)
    [] e.op = "listen" -> Listen(s, e)
    [] e.op = "connect" -> Connect(s, e)
    [] e.op = "accept" -> Accept(s, e)
    [] e.op = "close" -> Close(s, e)
    [] e.op = "shutdown" -> Shut(s, e)
    [] e.op = "send" -> Send(s, e)
    [] e.op = "sendto" -> SendTo(s, e)
    [] e.op = "recv" -> Recv(s, e)
    [] e.op = "recvfrom" -> RecvFrom(s, e)
    [] e.op = "select" -> Select(s, e)
    [] e.op = "await" -> If(e.out = (IF Readable(s, e.h) THEN "ok" ELSE "block"), s)
    [] e.op = "compare" -> If(IF e.h = e.g THEN e.out = "true==" ELSE e.out \in {"false<>", "false><"}, s)
    [] e.op = "badaddr" -> If(e.out = "E:Invalid address", s)
    [] OTHER -> If(e.out = "ok", s)
=============================================================================
