------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The MQTT client engine of emqx/flowsdk as a deterministic state machine *)
(* structured like the code: one operator per public call.  Step(E, c)     *)
(* yields the next state, the call's result, the events it returns and the *)
(* packets it hands out.  The model-checking modules (MC*.tla) explore it  *)
(* with a broker and check the properties; EngineTrace.tla evaluates it on *)
(* every recorded call of the real engine.                                 *)
(*                                                                         *)
(* Times are milliseconds.  -1 stands for "none".  Packets and events are  *)
(* uniform records:                                                        *)
(*   packet [k,id,q,d,m,r,p,rc,l]  kind, identifier, QoS, dup (CONNACK:    *)
(*     session present), message number (stands for topic and payload),    *)
(*     retain, user-property tag, reason code, list (filters, codes,       *)
(*     CONNECT contents)                                                   *)
(*   event  [k,id,rc,q,m,d,r,p,x,l]                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pk(k, id) == [k |-> k, id |-> id, q |-> 0, d |-> 0, m |-> 0, r |-> 0, p |-> 0, rc |-> 0, l |-> <<>>]
Ev(k) == [k |-> k, id |-> 0, rc |-> 0, q |-> 0, m |-> 0, d |-> 0, r |-> 0, p |-> 0, x |-> -1, l |-> <<>>]

NewEngine(c, now) ==
  [cfg |-> c,
   conn |-> FALSE,        \* accepted by the server and not ended
   sess |-> FALSE,        \* connect() has been called
   pq |-> <<>>,           \* accepted publishes not yet sent, in leaving order
   out |-> <<>>,          \* packets not yet taken by the transport
   bur |-> <<>>,          \* [a, b]: index ranges of out sent on one timeout, in any order
   strtx |-> <<>>,        \* retransmissions for logical streams
   infl |-> <<>>,         \* unfinished exchanges
   seqn |-> 0,            \* order in which exchanges (or their PUBREL) started
   last |-> now,          \* time a packet was last sent
   ping |-> -1,           \* time of the outstanding PINGREQ
   ev |-> <<>>,           \* events not yet returned
   att |-> 0, nrc |-> -1, \* reconnection attempts, reconnection deadline
   rm |-> IF c.rm = 0 THEN 65535 ELSE c.rm,
   q2 |-> {},             \* incoming QoS 2 identifiers whose PUBREL is due
   inb |-> <<>>]          \* complete incoming packets not yet processed

V5(E) == E.cfg.ver = 5
Min(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* Unfinished exchanges *)
HoldsSlot(e) == e.pkt.k \in {"PUBLISH", "PUBREL"}
Slots(E) == Len(SelectSeq(E.infl, HoldsSlot))
InflIds(E) == {E.infl[i].id : i \in 1..Len(E.infl)}
QueuedIds(E) == {E.pq[i].pkt.id : i \in {j \in 1..Len(E.pq) : E.pq[j].pkt.q > 0}}
LiveIds(E) == InflIds(E) \cup QueuedIds(E)
EntryOf(E, id) == LET i == CHOOSE i \in 1..Len(E.infl) : E.infl[i].id = id IN E.infl[i]

Track(E, id, pkt, q, st, now) ==
  [E EXCEPT !.infl = Append(SelectSeq(@, LAMBDA e : e.id # id),
                            [id |-> id, pkt |-> pkt, sent |-> now, n |-> E.seqn, st |-> st, q |-> q]),
            !.seqn = @ + 1]
Forget(E, id) == [E EXCEPT !.infl = SelectSeq(@, LAMBDA e : e.id # id)]

Dup(pkt) == IF pkt.k = "PUBLISH" THEN [pkt EXCEPT !.d = 1] ELSE pkt

---------------------------------------------------------------------------
(* The queue of publishes: descending priority, first in first out within one *)
Insert(pq, x) ==
  LET i == Len(SelectSeq(pq, LAMBDA y : y.pr >= x.pr))
  IN SubSeq(pq, 1, i) \o <<x>> \o SubSeq(pq, i + 1, Len(pq))

\* the oldest item of the lowest priority present
EvictPos(pq) ==
  LET low == pq[Len(pq)].pr
  IN Len(SelectSeq(pq, LAMBDA y : y.pr > low)) + 1
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Enqueue(E, x) ==
  LET q == Insert(E.pq, x)
  IN [E EXCEPT !.pq = IF Len(q) > E.cfg.qcap THEN RemoveAt(q, EvictPos(q)) ELSE q]

RECURSIVE Drain(_, _)
Drain(E, now) ==
  IF ~E.conn \/ Len(E.out) >= E.cfg.maxout \/ E.pq = <<>> \/ Slots(E) >= E.rm THEN E
  ELSE LET h == Head(E.pq) IN
    IF h.bad = 1
    THEN Drain([E EXCEPT !.pq = Tail(@), !.ev = Append(@, Ev("Error"))], now)
    ELSE LET E1 == [E EXCEPT !.pq = Tail(@), !.out = Append(@, h.pkt), !.last = now]
         IN Drain(IF h.pkt.q > 0 THEN Track(E1, h.pkt.id, h.pkt, h.pkt.q, -1, now) ELSE E1, now)

---------------------------------------------------------------------------
(* Incoming packets: HandlePacket yields the state and the direct responses *)
Published(id, rc, q, p) == [Ev("Published") EXCEPT !.id = id, !.rc = rc, !.q = q, !.p = p]

\* what was sent on a stream of this very connection is not part of it
Resend(E) == LET s == SortSeq(SelectSeq(E.infl, LAMBDA e : e.st < 0), LAMBDA a, b : a.n < b.n)
             IN [i \in 1..Len(s) |-> Dup(s[i].pkt)]

OnConnack(E, f) ==
  LET ok == f.rc = 0
      E1 == [E EXCEPT !.conn = ok,
                      !.att = IF ok THEN 0 ELSE @,
                      !.nrc = IF ok THEN -1 ELSE @,
                      !.q2 = IF ok /\ f.d = 0 THEN {} ELSE @,
                      !.rm = IF V5(E) /\ f.q > 0 THEN f.q ELSE @,
                      !.ev = Append(@, [Ev("Connected") EXCEPT !.rc = f.rc, !.x = f.d,
                                        !.q = IF V5(E) THEN f.q ELSE 0, !.p = f.p])]
  IN [E |-> IF f.d = 1 THEN [E1 EXCEPT !.out = @ \o Resend(E1)] ELSE E1, resp |-> <<>>]

OnPublish(E, f, st) ==
  LET dupl == f.q = 2 /\ E.cfg.aa = 1 /\ f.id \in E.q2
      evs == <<[Ev("PublishReceived") EXCEPT !.id = f.id, !.x = st],
               [Ev("MessageReceived") EXCEPT !.id = f.id, !.q = f.q, !.m = f.m, !.d = f.d, !.r = f.r, !.p = f.p]>>
  IN [E |-> [E EXCEPT !.ev = IF dupl THEN @ ELSE @ \o evs,
                      !.q2 = IF f.q = 2 /\ E.cfg.aa = 1 THEN @ \cup {f.id} ELSE @],
      resp |-> IF E.cfg.aa = 0 \/ f.q = 0 THEN <<>>
               ELSE <<Pk(IF f.q = 1 THEN "PUBACK" ELSE "PUBREC", f.id)>>]

OnPubrec(E, f, st, now) ==
  IF f.id \notin InflIds(E) THEN [E |-> E, resp |-> <<>>]
  ELSE LET e == EntryOf(E, f.id)
           E1 == Forget(E, f.id)
           rel == Pk("PUBREL", f.id)
       IN IF f.rc >= 128
          THEN [E |-> [E1 EXCEPT !.ev = Append(@, Published(f.id, f.rc, e.q, f.p))], resp |-> <<>>]
          ELSE [E |-> Track(E1, f.id, rel, 2, st, now), resp |-> <<rel>>]

OnFinalAck(E, f) ==       \* PUBACK, PUBCOMP
  IF f.id \notin InflIds(E) THEN [E |-> E, resp |-> <<>>]
  ELSE LET e == EntryOf(E, f.id)
       IN [E |-> [Forget(E, f.id) EXCEPT !.ev = Append(@, Published(f.id, f.rc, e.q, f.p))], resp |-> <<>>]

HandlePacket(E, f, st, now) ==
  CASE f.k = "CONNACK" -> OnConnack(E, f)
    [] f.k = "PUBLISH" -> OnPublish(E, f, st)
    [] f.k \in {"PUBACK", "PUBCOMP"} -> OnFinalAck(E, f)
    [] f.k = "PUBREC" -> OnPubrec(E, f, st, now)
    [] f.k = "PUBREL" ->
         [E |-> [E EXCEPT !.q2 = @ \ {f.id},
                          !.ev = Append(@, [Ev("PubRelReceived") EXCEPT !.id = f.id, !.x = st])],
          resp |-> IF E.cfg.aa = 1 THEN <<Pk("PUBCOMP", f.id)>> ELSE <<>>]
    [] f.k = "SUBACK" ->
         [E |-> [Forget(E, f.id) EXCEPT !.ev = Append(@, [Ev("Subscribed") EXCEPT !.id = f.id, !.l = f.l, !.p = f.p])],
          resp |-> <<>>]
    [] f.k = "UNSUBACK" ->
         [E |-> [Forget(E, f.id) EXCEPT !.ev =
                   Append(@, [Ev("Unsubscribed") EXCEPT !.id = f.id, !.l = IF V5(E) THEN f.l ELSE <<>>, !.p = f.p])],
          resp |-> <<>>]
    [] f.k = "PINGRESP" ->
         [E |-> [E EXCEPT !.ping = -1, !.ev = Append(@, [Ev("PingResponse") EXCEPT !.x = 1])], resp |-> <<>>]
    [] f.k = "DISCONNECT" /\ V5(E) ->
         [E |-> [E EXCEPT !.conn = FALSE, !.ev = Append(@, [Ev("Disconnected") EXCEPT !.rc = f.rc])], resp |-> <<>>]
    [] OTHER -> [E |-> E, resp |-> <<>>]

\* Process complete packets until the event limit is reached; a malformed packet stays.
RECURSIVE Process(_, _)
Process(E, now) ==
  IF E.inb = <<>> \/ Len(E.ev) >= E.cfg.maxev THEN E
  ELSE LET f == Head(E.inb) IN
    IF f.k = "BAD" THEN [E EXCEPT !.ev = Append(@, Ev("Error"))]
    ELSE LET h == HandlePacket([E EXCEPT !.inb = Tail(@)], f, -1, now)
         IN Process([h.E EXCEPT !.out = @ \o h.resp,
                                !.last = IF h.resp = <<>> THEN @ ELSE now], now)

---------------------------------------------------------------------------
(* Calls.  Res: next state, result, events returned, packets returned. *)
Res(E, ret, evs, out) == [E |-> E, ret |-> ret, evs |-> evs, out |-> out, str |-> <<>>, bur |-> <<>>]
Ok(E) == Res(E, "ok", <<>>, <<>>)
Fail(E, ret) == Res(E, ret, <<>>, <<>>)
Full(E) == Len(E.out) >= E.cfg.maxout

Send(E, pkt, now) == [E EXCEPT !.out = Append(@, pkt), !.last = now]

Connect(E, now) ==
  IF E.conn THEN Ok(E)
  ELSE Ok([E EXCEPT !.sess = TRUE,
                    !.out = <<[Pk("CONNECT", 0) EXCEPT !.m = E.cfg.cm, !.l = E.cfg.cl]>> \o @,
                    !.bur = [i \in 1..Len(@) |-> [a |-> @[i].a + 1, b |-> @[i].b + 1]],
                    !.last = now])

Lost(E) == [E EXCEPT !.conn = FALSE, !.ping = -1, !.out = <<>>, !.bur = <<>>, !.strtx = <<>>, !.inb = <<>>,
                   !.infl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.st = -1]]]
Reset(E, now) == [Lost(E) EXCEPT !.nrc = -1, !.last = now]

Pow2(n) == 2 ^ n
Backoff(c, n) == LET d == c.base * Pow2(Min(n, 10)) IN Min(d, c.maxd)
Schedule(E, now) ==
  IF E.cfg.maxatt > 0 /\ E.att >= E.cfg.maxatt THEN [E EXCEPT !.nrc = -1]
  ELSE LET d == Backoff(E.cfg, E.att)
       IN [E EXCEPT !.nrc = now + d, !.att = @ + 1,
                    !.ev = Append(@, [Ev("ReconnectScheduled") EXCEPT !.x = E.att + 1, !.m = d])]

PublishPk(E, a, id) ==
  [Pk("PUBLISH", IF a.q > 0 THEN id ELSE 0) EXCEPT
     !.q = a.q, !.m = a.m, !.r = a.r, !.p = IF V5(E) THEN a.p ELSE 0]
SubscribePk(E, a, id) ==
  [Pk("SUBSCRIBE", id) EXCEPT !.p = IF V5(E) THEN a.p ELSE 0,
     !.l = [i \in 1..Len(a.l) |-> IF V5(E) THEN a.l[i] ELSE (a.l[i] \div 64) * 64 + (a.l[i] % 4)]]
UnsubscribePk(E, a, id) ==
  [Pk("UNSUBSCRIBE", id) EXCEPT !.p = IF V5(E) THEN a.p ELSE 0, !.l = a.l]

Publish(E, a, id, now) ==
  IF a.q > 0 /\ ~E.sess THEN Fail(E, "err")
  ELSE Ok(Drain(Enqueue(E, [pr |-> a.pr, bad |-> a.bad, pkt |-> PublishPk(E, a, id)]), now))

\* SUBSCRIBE and UNSUBSCRIBE
Request(E, a, pkt, now) ==
  IF ~E.sess THEN Fail(E, "err")
  ELSE IF Full(E) THEN Fail(E, "full")
  ELSE IF a.bad = 1 THEN Fail(E, "err")
  ELSE Ok(Track(Send(E, pkt, now), pkt.id, pkt, 1, -1, now))

PublishEncoded(E, a, id, now) ==
  LET pkt == PublishPk(E, a, id) IN
  IF (a.q > 0 /\ ~E.sess) \/ a.bad = 1 THEN Fail(E, "err")
  ELSE IF a.q > 0 /\ Slots(E) >= E.rm THEN Fail(E, "full")
  ELSE LET E1 == [E EXCEPT !.last = now]
       IN Res(IF a.q > 0 THEN Track(E1, id, pkt, a.q, a.st, now) ELSE E1, "ok", <<>>, <<pkt>>)

RequestEncoded(E, a, pkt, now) ==
  IF ~E.sess \/ a.bad = 1 THEN Fail(E, "err")
  ELSE Res(Track([E EXCEPT !.last = now], pkt.id, pkt, 1, a.st, now), "ok", <<>>, <<pkt>>)

Disconnect(E, now, ret) ==
  IF ~E.conn THEN Ok(E)
  ELSE IF Full(E) THEN (IF ret THEN Fail(E, "full") ELSE Ok([E EXCEPT !.conn = FALSE]))
  ELSE Ok([Send(E, Pk("DISCONNECT", 0), now) EXCEPT !.conn = FALSE])

Ping(E, now, ret) ==
  IF Full(E) THEN (IF ret THEN Fail(E, "full") ELSE Ok(E))
  ELSE Ok([Send(E, Pk("PINGREQ", 0), now) EXCEPT !.ping = now])

Auth(E, a, now) ==
  IF ~V5(E) \/ Full(E) THEN Ok(E)
  ELSE Ok(Send(E, [Pk("AUTH", 0) EXCEPT !.rc = a.rc, !.p = a.p], now))

TakeEvents(E) == Res([E EXCEPT !.ev = <<>>], "ok", E.ev, <<>>)

Incoming(E, fs, now) ==
  TakeEvents(Drain(Process([E EXCEPT !.inb = @ \o fs], now), now))

Ingest(E, f, st, now) ==
  LET h == HandlePacket(E, f, st, now)
      E1 == Drain([h.E EXCEPT !.last = IF h.resp = <<>> THEN @ ELSE now], now)
  IN [TakeEvents(E1) EXCEPT !.out = h.resp]

KA(E) == E.cfg.ka * 1000
Due(E, now) == SelectSeq(E.infl, LAMBDA e : now - e.sent >= E.cfg.rto)
Retransmit(E, now) ==
  LET due == Due(E, now)
      plain == SelectSeq(due, LAMBDA e : e.st < 0)
      onstr == SelectSeq(due, LAMBDA e : e.st >= 0)
  IN IF V5(E) \/ due = <<>> THEN E
     ELSE [E EXCEPT
             !.infl = SelectSeq(@, LAMBDA e : now - e.sent < E.cfg.rto)
                        \o [i \in 1..Len(due) |-> [due[i] EXCEPT !.sent = now]],
             !.out = @ \o [i \in 1..Len(plain) |-> Dup(plain[i].pkt)],
             !.bur = Append(@, [a |-> Len(E.out) + 1, b |-> Len(E.out) + Len(plain)]),
             !.strtx = @ \o [i \in 1..Len(onstr) |-> [st |-> onstr[i].st, b |-> <<Dup(onstr[i].pkt)>>]],
             !.last = now]

Tick(E, now) ==
  IF ~E.conn
  THEN TakeEvents(IF E.nrc >= 0 /\ now >= E.nrc
                  THEN [E EXCEPT !.nrc = -1, !.ev = Append(@, Ev("ReconnectNeeded"))] ELSE E)
  ELSE IF KA(E) > 0 /\ E.ping >= 0 /\ now - E.ping >= KA(E) * E.cfg.mult
  THEN TakeEvents(Schedule(Lost([E EXCEPT !.ev = Append(@, Ev("ReconnectNeeded"))]), now))
  ELSE LET E1 == IF E.ping < 0 /\ E.cfg.auto = 1 /\ KA(E) > 0 /\ now - E.last >= KA(E)
                 THEN Ping(E, now, FALSE).E ELSE E
       IN TakeEvents(Retransmit(E1, now))

\* Earliest time something is due, -1 if nothing is.
EarliestOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Duty(E) ==
  IF ~E.conn THEN E.nrc
  ELSE EarliestOf(
    (IF KA(E) = 0 THEN {}
     ELSE IF E.ping >= 0 THEN {E.ping + KA(E) * E.cfg.mult}
     ELSE IF E.cfg.auto = 1 THEN {E.last + KA(E)} ELSE {})
    \cup (IF V5(E) THEN {} ELSE {E.infl[i].sent + E.cfg.rto : i \in 1..Len(E.infl)}))

---------------------------------------------------------------------------
Commands == {"pub", "pubenc", "sub", "subenc", "unsub", "unsubenc"}
\* c: [op, now, a]; id: the identifier assigned if the call assigns one
Step(E, c, id) ==
  LET now == c.now  a == c.a IN
  CASE c.op = "connect" -> Connect(E, now)
    [] c.op = "lost" -> Ok(Lost(E))
    [] c.op = "reset" -> Ok(Reset(E, now))
    [] c.op = "sched" -> Ok(Schedule(E, now))
    [] c.op = "resetrec" -> Ok([E EXCEPT !.att = 0, !.nrc = -1])
    [] c.op = "pub" -> Publish(E, a, id, now)
    [] c.op = "pubenc" -> PublishEncoded(E, a, id, now)
    [] c.op = "sub" -> Request(E, a, SubscribePk(E, a, id), now)
    [] c.op = "unsub" -> Request(E, a, UnsubscribePk(E, a, id), now)
    [] c.op = "subenc" -> RequestEncoded(E, a, SubscribePk(E, a, id), now)
    [] c.op = "unsubenc" -> RequestEncoded(E, a, UnsubscribePk(E, a, id), now)
    [] c.op = "disc" -> Disconnect(E, now, FALSE)
    [] c.op = "trydisc" -> Disconnect(E, now, TRUE)
    [] c.op = "ping" -> Ping(E, now, FALSE)
    [] c.op = "tryping" -> Ping(E, now, TRUE)
    [] c.op = "auth" -> Auth(E, a, now)
    [] c.op = "in" -> Incoming(E, a.fs, now)
    [] c.op = "ingest" -> Ingest(E, a.fs[1], a.st, now)
    [] c.op = "tick" -> Tick(E, now)
    [] c.op = "take" -> [Res([E EXCEPT !.out = <<>>, !.bur = <<>>], "ok", <<>>, E.out) EXCEPT !.bur = E.bur]
    [] c.op = "takeev" -> TakeEvents(E)
    [] c.op = "takestr" -> [Ok([E EXCEPT !.strtx = <<>>]) EXCEPT !.str = E.strtx]
    [] c.op = "burn" -> IF E.sess THEN Ok(E) ELSE Fail(E, "err")

\* Does the call, when it succeeds, assign an identifier?
Assigns(c) == c.op \in Commands /\ (c.op \in {"pub", "pubenc"} => c.a.q > 0)
=============================================================================
