------------------------------ MODULE Blocking ------------------------------
(***************************************************************************)
(* The blocking client: every call writes its packet and reads until the   *)
(* answer to it has come; what else it reads is kept for the application.  *)
(* The calls that do not wait note what they asked for until the           *)
(* application says that it is complete.                                   *)
(*   up    there is a connection (it may have ended)                       *)
(*   sess  there is a session; without it nothing with an identifier goes  *)
(*   buf   what the server wrote and nobody has read; it may end with      *)
(*         "EOF" or with "BAD", which no reading gets past                 *)
(*   un    packets read that were no answer to the call under way          *)
(*   pend  what was asked without waiting: [t, id, l, q]                   *)
(*   out   what the server was sent on this connection                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pk(k, id) == [k |-> k, id |-> id, q |-> 0, d |-> 0, m |-> 0, r |-> 0, p |-> 0, rc |-> 0, l |-> <<>>]
R0 == [ret |-> "ok", id |-> 0, rc |-> 0, x |-> 0, l |-> <<>>, p |-> 0, good |-> 1, pkt |-> <<>>]
Err == [R0 EXCEPT !.ret = "err"]
Block == [R0 EXCEPT !.ret = "block"]

NewBlocking(c) == [cfg |-> c, up |-> FALSE, sess |-> c.given = 1, buf |-> <<>>, un |-> <<>>, pend |-> {}, out |-> <<>>]
V5(B) == B.cfg.ver = 5
Ends(f) == f.k \in {"EOF", "BAD"}
One(b) == IF b THEN 1 ELSE 0
PendIds(B) == {x.id : x \in B.pend}

Write(B, p) == [B EXCEPT !.out = Append(@, p)]
\* Reads up to the first packet that Want accepts: [B, f] where f is that packet, an end, or nothing.
Await(B, Want(_)) ==
  LET hits == {i \in 1..Len(B.buf) : Want(B.buf[i]) \/ Ends(B.buf[i])} IN
  IF hits = {} THEN [B |-> [B EXCEPT !.un = @ \o B.buf, !.buf = <<>>], f |-> Pk("NONE", 0)]
  ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
           f == B.buf[i]
       IN [B |-> [B EXCEPT !.un = @ \o SubSeq(B.buf, 1, i - 1), !.buf = SubSeq(@, IF Ends(f) THEN i ELSE i + 1, Len(@))], f |-> f]
Tell(w, r) == [B |-> w.B, r |-> IF w.f.k = "NONE" THEN Block ELSE IF Ends(w.f) THEN Err ELSE r]

Codes(B, f, n) == IF V5(B) \/ f.k # "UNSUBACK" THEN f.l ELSE [i \in 1..n |-> 0]
Request(B, p, ack) ==
  LET w == Await(Write(B, p), LAMBDA f : f.k = ack /\ f.id = p.id)
      l == Codes(B, w.f, Len(p.l))
  IN Tell(w, [R0 EXCEPT !.id = p.id, !.l = l, !.p = w.f.p,
        !.x = IF ack = "SUBACK" THEN Cardinality({i \in 1..Len(l) : l[i] <= 2}) ELSE 0,
        !.good = One(\A i \in 1..Len(l) : IF ack = "SUBACK" THEN l[i] <= 2 ELSE l[i] \in {0, 17})])
Result(p, f) == [R0 EXCEPT !.id = p.id, !.rc = f.rc, !.x = p.q, !.p = f.p, !.good = One(f.rc < 128)]
Publish(B, p) ==
  IF p.q = 0 THEN [B |-> Write(B, p), r |-> [R0 EXCEPT !.rc = -1]]
  ELSE IF p.q = 1 THEN LET w == Await(Write(B, p), LAMBDA f : f.k = "PUBACK" /\ f.id = p.id) IN Tell(w, Result(p, w.f))
  ELSE LET w == Await(Write(B, p), LAMBDA f : f.k = "PUBREC" /\ f.id = p.id) IN
       IF w.f.k # "PUBREC" \/ w.f.rc >= 128 THEN Tell(w, Result(p, w.f))
       ELSE LET v == Await(Write(w.B, Pk("PUBREL", p.id)), LAMBDA f : f.k = "PUBCOMP" /\ f.id = p.id) IN Tell(v, Result(p, v.f))

\* A new connection: nothing of the old one is read any more.
Opened(B, fs) ==
  LET lone == B.cfg.lone = 1
      cl == IF lone THEN [B.cfg.cl EXCEPT ![2] = 1] ELSE B.cfg.cl
  IN [B EXCEPT !.up = TRUE, !.sess = ~lone, !.buf = fs, !.out = <<[Pk("CONNECT", 0) EXCEPT !.m = B.cfg.cm, !.l = cl]>>]
Greet(B) ==
  IF B.buf = <<>> THEN [B |-> B, r |-> Block]
  ELSE LET f == Head(B.buf)
           N == IF Ends(f) THEN B ELSE [B EXCEPT !.buf = Tail(@)]
       IN IF f.k # "CONNACK" THEN [B |-> N, r |-> Err]
          ELSE [B |-> IF f.rc = 0 /\ f.d = 0 THEN [N EXCEPT !.pend = {}] ELSE N,
                r |-> [R0 EXCEPT !.rc = f.rc, !.x = f.d, !.p = f.p, !.good = One(f.rc = 0)]]

PublishPk(a, id) == [Pk("PUBLISH", IF a.q > 0 THEN id ELSE 0) EXCEPT !.q = a.q, !.m = a.m, !.r = a.r]
ListPk(k, a, id) == [Pk(k, id) EXCEPT !.l = a.l]
Note(B, t, id, l, q) == [B EXCEPT !.pend = {x \in @ : x.t # t \/ x.id # id} \cup {[t |-> t, id |-> id, l |-> l, q |-> q]}]
Told(B, id) == [B |-> B, r |-> [R0 EXCEPT !.id = id]]

NeedsSession(op) == op \in {"sub", "unsub", "pub", "subsend", "unsubsend", "pubsend", "many"}
NeedsStream(op) == NeedsSession(op) \/ op \in {"ping", "pingsend", "disc", "discsend", "recv"}
\* whether the call writes a packet with an identifier of its own
Numbered(B, c) == B.up /\ B.sess /\ NeedsSession(c.op) /\ c.op # "many" /\ ~(c.op \in {"pub", "pubsend"} /\ c.a.q = 0)

\* id: the identifier the call's own packet bears
Step(B0, c, id) ==
  LET a == c.a
      B == [B0 EXCEPT !.buf = @ \o a.fs]
  IN
  IF c.op = "connect" \/ c.op = "connsend" THEN
       IF B.cfg.down = 1 THEN [B |-> B, r |-> IF c.op = "connect" THEN Err ELSE R0]
       ELSE IF c.op = "connect" THEN Greet(Opened(B, a.fs)) ELSE [B |-> Opened(B, a.fs), r |-> R0]
  ELSE IF (NeedsSession(c.op) /\ ~B.sess) \/ (NeedsStream(c.op) /\ ~B.up) THEN [B |-> B, r |-> Err]
  ELSE CASE c.op = "sub" -> Request(B, ListPk("SUBSCRIBE", a, id), "SUBACK")
    [] c.op = "unsub" -> Request(B, ListPk("UNSUBSCRIBE", a, id), "UNSUBACK")
    [] c.op = "pub" -> Publish(B, PublishPk(a, id))
    [] c.op = "ping" -> Tell(Await(Write(B, Pk("PINGREQ", 0)), LAMBDA f : f.k = "PINGRESP"), R0)
    [] c.op \in {"disc", "discsend"} -> [B |-> Write(B, [Pk("DISCONNECT", 0) EXCEPT !.rc = IF V5(B) /\ c.op = "disc" THEN a.rc ELSE 0]), r |-> R0]
    [] c.op = "subsend" -> Told(Note(Write(B, ListPk("SUBSCRIBE", a, id)), "s", id, <<a.l[1] \div 64>>, 0), id)
    [] c.op = "unsubsend" -> Told(Note(Write(B, ListPk("UNSUBSCRIBE", a, id)), "u", id, a.l, 0), id)
    [] c.op = "pubsend" -> IF a.q = 0 THEN Told(Write(B, PublishPk(a, 0)), 0)
                           ELSE Told(Note(Write(B, PublishPk(a, id)), "p", id, <<a.m>>, a.q), id)
    [] c.op = "pingsend" -> [B |-> Write(B, Pk("PINGREQ", 0)), r |-> R0]
    [] c.op = "recv" -> IF B.buf = <<>> THEN [B |-> B, r |-> Block]
         ELSE LET f == Head(B.buf) IN
              IF f.k = "EOF" THEN [B |-> B, r |-> R0]
              ELSE IF f.k = "BAD" THEN [B |-> B, r |-> Err]
              ELSE [B |-> [B EXCEPT !.buf = Tail(@)], r |-> [R0 EXCEPT !.pkt = <<f>>]]
    [] c.op = "popun" -> IF B.un = <<>> THEN [B |-> B, r |-> R0]
                         ELSE [B |-> [B EXCEPT !.un = Tail(@)], r |-> [R0 EXCEPT !.pkt = <<Head(B.un)>>]]
    [] c.op = "clearun" -> [B |-> [B EXCEPT !.un = <<>>], r |-> R0]
    [] c.op = "clearpend" -> [B |-> [B EXCEPT !.pend = {}], r |-> R0]
    [] c.op = "done" -> LET h == {x \in B.pend : x.t = <<"s", "u", "p">>[a.m] /\ x.id = a.n} IN
         [B |-> [B EXCEPT !.pend = @ \ h],
          r |-> IF h = {} THEN R0 ELSE LET x == CHOOSE x \in h : TRUE IN [R0 EXCEPT !.x = 1, !.l = x.l, !.rc = x.q]]
    \* a.n publications that are complete as soon as they are sent; the result counts packets and identifiers taken
    [] c.op = "many" -> [B |-> B, r |-> [R0 EXCEPT !.id = a.n]]
    [] c.op = "end" -> [B |-> [B EXCEPT !.up = FALSE], r |-> R0]
=============================================================================
