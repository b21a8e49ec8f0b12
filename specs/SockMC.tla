------------------------------- MODULE SockMC -------------------------------
(* Every byte sent on a stream is received once, in order, by the other end; messages arrive whole and in order.    *)
EXTENDS Sock
CONSTANTS Depth, MaxSk, Kinds
VARIABLES s, n, sent, got
vars == <<s, n, sent, got>>
E0 == [op |-> "", h |-> 1, g |-> 1, k |-> "", a |-> "", to |-> 0, toolong |-> FALSE, how |-> 0, data |-> <<>>, ofs |-> 0, size |-> 0 - 1000,
       vec |-> TRUE, n |-> 0, got |-> 0, buf |-> <<>>, peek |-> FALSE, out |-> "ok", r |-> <<>>, w |-> <<>>, rs |-> <<>>, ws |-> <<>>, xs |-> <<>>]
H == DOMAIN s.sk
Init == s = Start /\ n = 0 /\ sent = [i \in 1..MaxSk |-> <<>>] /\ got = [i \in 1..MaxSk |-> <<>>]
Do(e) == LET r == Op(s, e) IN r.ok /\ s' = r.s /\ n' = n + 1
Quiet == UNCHANGED <<sent, got>>
Live(h) == s.sk[h].st \in {"new", "listen", "conn"}
Outs == {"ok", "E:EINVAL", "E:ECONNREFUSED", "E:ENOENT", "E:EISCONN", "E:EADDRINUSE", "E:EUNSPECIFIED", "127.0.0.1"}
SendIt(h) == LET x == s.sk[h]
                 d == <<n, n + 50>>
                 e == [E0 EXCEPT !.op = "send", !.h = h, !.data = d, !.out = "2"]
             IN Do(e) /\ sent' = [sent EXCEPT ![x.peer] = @ \o d] /\ UNCHANGED got
RecvIt(h, m) == LET x == s.sk[h]
                    z == IF m < Len(x.q) THEN m ELSE Len(x.q)
                    d == SubSeq(x.q, 1, z)
                    e == [E0 EXCEPT !.op = "recv", !.h = h, !.n = m, !.got = z, !.buf = d, !.out = "got"]
                IN Readable(s, h) /\ Do(e) /\ got' = [got EXCEPT ![h] = @ \o d] /\ UNCHANGED sent
Next ==
  /\ n < Depth
  /\ \/ Len(s.sk) < MaxSk /\ \E k \in Kinds : Do([E0 EXCEPT !.op = "new", !.k = k]) /\ Quiet
     \/ \E h \in H : Live(h) /\
          \/ \E a \in {"F:x", "F:y"}, o \in Outs : File(s.sk[h]) /\ (\E op \in {"bind"} : Do([E0 EXCEPT !.op = op, !.h = h, !.a = a, !.out = o])) /\ Quiet
          \/ \E a \in {"F:x", "F:y"}, o \in Outs : Len(s.sk) < MaxSk /\ Stream(s.sk[h]) /\ s.sk[h].st # "listen" /\ Do([E0 EXCEPT !.op = "connect", !.h = h, !.a = a, !.out = o]) /\ Quiet
          \/ Stream(s.sk[h]) /\ \E o \in Outs : Do([E0 EXCEPT !.op = "listen", !.h = h, !.out = o]) /\ Quiet
          \/ Stream(s.sk[h]) /\ \E o \in Outs : Do([E0 EXCEPT !.op = "accept", !.h = h, !.out = o]) /\ Quiet
          \/ s.sk[h].q = <<>> /\ s.sk[h].back = <<>> /\ Do([E0 EXCEPT !.op = "close", !.h = h]) /\ Quiet
          \/ s.sk[h].st = "conn" /\ \E w \in 0..2 : Do([E0 EXCEPT !.op = "shutdown", !.h = h, !.how = w]) /\ Quiet
          \/ s.sk[h].st = "conn" /\ SendIt(h)
          \/ s.sk[h].st = "conn" /\ \E m \in {1, 3} : RecvIt(h, m)
          \/ s.sk[h].k = "fd" /\ \E a \in {"F:x", "F:y"} :
               LET d == <<n>> IN Do([E0 EXCEPT !.op = "sendto", !.h = h, !.a = a, !.data = d, !.out = "1"]) /\ sent' = [sent EXCEPT ![s.owner[a]] = @ \o d] /\ UNCHANGED got
          \/ s.sk[h].k = "fd" /\ s.sk[h].q # <<>> /\
               LET d == s.sk[h].q[1].data IN Do([E0 EXCEPT !.op = "recvfrom", !.h = h, !.n = 5, !.got = Len(d), !.buf = d, !.out = "got"]) /\ got' = [got EXCEPT ![h] = @ \o d] /\ UNCHANGED sent
Flat(h) == IF Stream(s.sk[h]) THEN s.sk[h].q ELSE FlattenSeq([i \in DOMAIN s.sk[h].q |-> s.sk[h].q[i].data])
Delivered == \A h \in H : sent[h] = got[h] \o Flat(h)
Paired == \A h \in H : s.sk[h].peer # 0 => /\ s.sk[s.sk[h].peer].peer = h
                                           /\ s.sk[h].st \in {"conn", "pending", "closed"}
Waiting == \A h \in H : s.sk[h].st = "pending" <=> \E g \in H : s.sk[g].st = "listen" /\ h \in ToSet(s.sk[g].back)
Owners == \A a \in DOMAIN s.owner : s.sk[s.owner[a]].name = a
EndOfStream == \A h \in H : Stream(s.sk[h]) /\ s.sk[h].eof => s.sk[s.sk[h].peer].nosend \/ s.sk[s.sk[h].peer].st = "closed"
Good == Delivered /\ Paired /\ Waiting /\ Owners /\ EndOfStream
=============================================================================
