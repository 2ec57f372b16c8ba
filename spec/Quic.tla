-------------------------------- MODULE Quic --------------------------------
(***************************************************************************)
(* MQTT over QUIC: the engine of Engine.tla with a control stream, data    *)
(* streams opened by either side, half-closes, graceful and abrupt         *)
(* connection closes, reconnection and early data.  The network is         *)
(* abstracted to "Run": everything both sides have to say is delivered.    *)
(* Between runs calls only queue; a lone tick hands queued packets to the  *)
(* transport.                                                              *)
(*                                                                         *)
(* A stream: out/cnt the client's queue, wire what the transport has and   *)
(* the server has not seen, fin 0 open, 1 closing asked for, 2 closed, 3   *)
(* reset; gone: the transport knows the server has it all; net/rx what the *)
(* server wrote before/after arrival, ending in FIN, RST or STOP; bad: a   *)
(* malformed packet arrived; stop the client's request to stop sending;    *)
(* hf/hr/hs: close, reset and stop codes the server has not seen yet.      *)
(***************************************************************************)
EXTENDS Engine

NewStream ==
  [out |-> <<>>, cnt |-> 0, wire |-> <<>>, fin |-> 0, gone |-> FALSE, net |-> <<>>, rx |-> <<>>, bad |-> FALSE,
   rdone |-> FALSE, stop |-> FALSE, hf |-> 0, hr |-> -1, hs |-> -1]
NoStreams == [i \in {} |-> NewStream]

NewQuic(c, now) ==
  [e |-> NewEngine(c, now),
   z |-> "Disabled",      \* what is known about early data
   zc |-> -1,             \* size of the ticket cache, -1: none
   zr |-> -1,             \* early data: -1 off, 0 on, 1 with replay
   tk |-> <<>>,           \* tickets: epoch of the server that issued them
   te |-> 0,              \* epoch of the ticket in use
   ep |-> 0,              \* the server's epoch
   cfgd |-> FALSE,        \* connect was called
   cn |-> "none",         \* none, shake, open, lost
   ctl |-> -1,            \* the control stream; its record is c
   c |-> NewStream,
   s |-> NoStreams,       \* data streams
   so |-> [i \in {} |-> <<>>], \* streams of the server not known to the client yet
   left |-> <<>>,         \* streams given up in this run: [st, r, t], t: packets that need not leave any more
   dp |-> -1, ds |-> -1,  \* default streams
   nx |-> 0,              \* next stream of the client
   jr |-> <<>>,           \* early bytes: [st, role, b, n]
   pend |-> <<>>,         \* events about early data not reported yet
   pc |-> -1,             \* close wanted with this code once all is sent
   cl |-> -1,             \* code of a close the server has not seen
   sc |-> -1,             \* code of the server's close the client has not seen
   stl |-> {},            \* streams the server does not read
   loose |-> FALSE]       \* packets of a burst are in some queue

Upd(Q, id, st) == [Q EXCEPT !.s = (id :> st) @@ @]
Drop(Q, id) == [Q EXCEPT !.left = Append(@, [st |-> id, r |-> Q.s[id], t |-> <<>>]), !.s = [i \in DOMAIN @ \ {id} |-> @[i]],
                         !.dp = IF @ = id THEN -1 ELSE @, !.ds = IF @ = id THEN -1 ELSE @]
EarlyPhase(Q) == Q.z = "Attempted"
Allowed(Q) == Q.e.conn \/ (EarlyPhase(Q) /\ Q.pc < 0)

\* no trace of the previous connection remains
Blank(Q) == [Q EXCEPT !.cn = "none", !.ctl = -1, !.c = NewStream, !.s = NoStreams, !.dp = -1, !.ds = -1, !.nx = 0,
                      !.so = [i \in {} |-> <<>>], !.left = <<>>, !.jr = <<>>, !.pend = <<>>, !.pc = -1, !.cl = -1, !.sc = -1, !.stl = {}]
Renew(Q, now) == [Blank(Q) EXCEPT !.e = Reset(Q.e, now)]

---------------------------------------------------------------------------
(* Establishing *)
Journal(Q, id, b, n) ==
  IF ~EarlyPhase(Q) THEN Q
  ELSE [Q EXCEPT !.jr = [i \in 1..Len(@) |-> IF @[i].st = id THEN [@[i] EXCEPT !.b = @ \o b, !.n = @ + n] ELSE @[i]]]

Establish(Q, now) ==
  LET Q1 == [Q EXCEPT !.cn = "shake"] IN
  IF Q.zr < 0 THEN Q1
  ELSE IF Q.tk = <<>> THEN [Q1 EXCEPT !.z = "Unavailable", !.pend = Append(@, Ev("ZeroRttUnavailable"))]
  ELSE LET E1 == Connect(Q.e, now).E IN
       [Q1 EXCEPT !.z = "Attempted", !.pend = Append(@, Ev("ZeroRttAttempted")),
                  !.te = Q.tk[Len(Q.tk)], !.tk = SubSeq(@, 1, Len(@) - 1),
                  !.ctl = 0, !.nx = 4, !.e = [E1 EXCEPT !.out = <<>>], !.c.out = E1.out,
                  !.jr = <<[st |-> 0, role |-> "ctl", b |-> E1.out, n |-> 1]>>]

QConnect(Q, a, now) ==
  LET size == 8 + 8 * a.r
      Q1 == [Renew(Q, now) EXCEPT !.cfgd = TRUE, !.zr = a.n - 1, !.z = IF a.n = 0 THEN "Disabled" ELSE "Unavailable"]
  IN Establish(IF a.n > 0 /\ Q.zc # size THEN [Q1 EXCEPT !.zc = size, !.tk = <<>>] ELSE Q1, now)

\* The client opens a stream.
CanOpen(Q) == Q.cn \in {"shake", "open"} /\ Q.nx < 4 * Q.e.cfg.slim
OpenAs(Q, role) ==
  LET Q1 == [Upd(Q, Q.nx, NewStream) EXCEPT !.nx = @ + 4]
  IN IF EarlyPhase(Q) THEN [Q1 EXCEPT !.jr = Append(@, [st |-> Q.nx, role |-> role, b |-> <<>>, n |-> 0])] ELSE Q1

Replay(Q) ==
  LET row(r) == [NewStream EXCEPT !.out = r.b, !.cnt = r.n]
      data == {i \in 1..Len(Q.jr) : Q.jr[i].role # "ctl"}
      of(role) == LET S == {i \in data : Q.jr[i].role = role}
                  IN IF S = {} THEN -1 ELSE Q.jr[CHOOSE i \in S : \A j \in S : j <= i].st
  IN [Q EXCEPT !.ctl = 0, !.c = [row(Q.jr[1]) EXCEPT !.cnt = 0], !.nx = 4 * Len(Q.jr),
               !.s = [st \in {Q.jr[i].st : i \in data} |-> row(Q.jr[CHOOSE i \in data : Q.jr[i].st = st])],
               !.dp = of("pub"), !.ds = of("sub")]

\* The handshake completes: [Q, evs]
Shaken(Q, now) ==
  LET Q1 == [Q EXCEPT !.cn = "open",
               !.tk = IF Q.zr < 0 THEN @ ELSE LET t == @ \o <<Q.ep, Q.ep>> IN SubSeq(t, IF Len(t) > 8 THEN Len(t) - 7 ELSE 1, Len(t))]
  IN IF ~EarlyPhase(Q)
     THEN LET E1 == Connect(Q.e, now).E IN
          [Q |-> IF Q.ctl >= 0 THEN Q1 ELSE [Q1 EXCEPT !.ctl = 0, !.nx = 4, !.e = E1], evs |-> <<>>]
     ELSE IF Q.te = Q.ep THEN [Q |-> [Q1 EXCEPT !.z = "Accepted", !.jr = <<>>], evs |-> <<Ev("ZeroRttAccepted")>>]
     ELSE LET Q2 == [Q1 EXCEPT !.z = "Rejected", !.ctl = -1, !.c = NewStream, !.s = NoStreams, !.dp = -1, !.ds = -1,
                               !.nx = 0]
          IN [Q |-> [(IF Q.zr = 1 THEN Replay(Q2) ELSE Q2) EXCEPT !.jr = <<>>], evs |-> <<Ev("ZeroRttRejected")>>]

---------------------------------------------------------------------------
(* What arrives.  The result carries events with the stream they belong to. *)
On(x, evs) == [i \in 1..Len(evs) |-> [x |-> x, v |-> evs[i]]]
Broken == [Ev("Disconnected") EXCEPT !.rc = -1]
StreamEv(k, id, m) == [Ev(k) EXCEPT !.x = id, !.m = m]

\* the control stream is over, and with it the session
Terminal(Q) == [Q EXCEPT !.left = Append(@, [st |-> Q.ctl, r |-> Q.c, t |-> Q.c.out \o Q.e.out]), !.ctl = -1, !.c = [NewStream EXCEPT !.fin = 2], !.e = Lost(Q.e)]

RECURSIVE ReadControl(_, _)
ReadControl(R, now) ==
  LET Q == R.Q IN
  IF Q.ctl < 0 \/ Q.c.rx = <<>> THEN R
  ELSE LET f == Head(Q.c.rx)
           Q1 == [Q EXCEPT !.c.rx = Tail(@)]
           over(k, m) == [Q |-> Terminal(Q1), evs |-> R.evs \o On(Q.ctl, <<StreamEv(k, Q.ctl, m), Broken>>), cut |-> TRUE]
       IN IF (Q.c.stop \/ Q.c.rdone) /\ f.k # "STOP" THEN ReadControl([R EXCEPT !.Q = Q1], now)
          ELSE IF f.k = "FIN" THEN over("StreamClosed", 1)
          ELSE IF f.k = "RST" THEN over("StreamReset", f.rc)
          ELSE IF f.k = "STOP" THEN (IF Q.c.gone THEN ReadControl([R EXCEPT !.Q = Q1], now) ELSE over("StreamStopped", f.rc))
          ELSE LET r == TakeEvents(Process([Q.e EXCEPT !.inb = Append(@, f)], now))
               IN ReadControl([R EXCEPT !.Q = [Q1 EXCEPT !.e = r.E], !.evs = @ \o On(Q.ctl, r.evs)], now)

RECURSIVE ReadData(_, _, _)
ReadData(R, id, now) ==
  LET Q == R.Q IN
  IF id \notin DOMAIN Q.s \/ Q.s[id].rx = <<>> THEN R
  ELSE LET st == Q.s[id]
           f == Head(st.rx)
           st1 == [st EXCEPT !.rx = Tail(@)]
           skip == ReadData([R EXCEPT !.Q = Upd(Q, id, st1)], id, now)
           leave(k) == [R EXCEPT !.Q = Drop(Q, id), !.evs = @ \o On(id, <<StreamEv(k, id, f.rc)>>)]
       IN IF st.stop /\ f.k # "STOP" THEN skip
          ELSE IF f.k = "RST" THEN leave("StreamReset")
          ELSE IF f.k = "STOP" THEN (IF st.gone THEN skip ELSE leave("StreamStopped"))
          ELSE IF st.cnt >= Q.e.cfg.maxout THEN R
          ELSE IF f.k = "FIN"
          THEN ReadData([R EXCEPT !.Q = Upd(Q, id, [st1 EXCEPT !.rdone = TRUE]),
                                  !.evs = @ \o On(id, <<StreamEv("StreamClosed", id, 1)>>)], id, now)
          ELSE IF st.bad THEN skip
          ELSE IF f.k = "BAD"
          THEN ReadData([R EXCEPT !.Q = Upd(Q, id, [st1 EXCEPT !.bad = TRUE]), !.evs = @ \o On(id, <<Ev("Error")>>)], id, now)
          ELSE LET r == Ingest(Q.e, f, id, now)
                   st2 == IF r.out = <<>> \/ st.fin >= 2 THEN st1
                          ELSE [st1 EXCEPT !.out = @ \o r.out, !.cnt = @ + 1]
               IN ReadData([R EXCEPT !.Q = [Upd(Q, id, st2) EXCEPT !.e = r.E], !.evs = @ \o On(id, r.evs)], id, now)

RECURSIVE ReadAll(_, _, _)
ReadAll(R, S, now) ==
  IF S = {} THEN R
  ELSE LET id == CHOOSE i \in S : \A j \in S : i <= j
       IN ReadAll(ReadData(R, id, now), S \ {id}, now)

---------------------------------------------------------------------------
(* What leaves *)
FlushOne(st, drains, up) ==
  LET s1 == IF drains /\ st.fin < 2 /\ st.out # <<>> THEN [st EXCEPT !.wire = @ \o st.out, !.out = <<>>, !.cnt = 0] ELSE st
  IN IF s1.fin = 1 /\ s1.out = <<>> THEN [s1 EXCEPT !.fin = 2, !.hf = IF up THEN 1 ELSE @] ELSE s1

\* all: whatever the server reads also drains
Flush(Q, now, all) ==
  IF Q.cn = "none" THEN Q
  ELSE LET t == Step(Q.e, [op |-> "take", now |-> now, a |-> [fs |-> <<>>]], 0)
           Q1 == IF Q.c.fin > 0 THEN Q
                 ELSE Journal([Q EXCEPT !.e = t.E, !.c.out = @ \o t.out], Q.ctl, t.out, 0)
           drains(id) == Q.cn # "lost" /\ (all \/ Q.e.cfg.win = 0) /\ id \notin Q.stl
       IN [Q1 EXCEPT !.c = IF Q.ctl < 0 THEN @ ELSE FlushOne(@, drains(Q.ctl), Q.cn # "lost"),
                     !.s = [id \in DOMAIN @ |-> FlushOne(@[id], drains(id), Q.cn # "lost")]]

RECURSIVE Exchange(_, _)
Exchange(R, now) ==
  LET R1 == ReadAll(ReadControl(R, now), DOMAIN R.Q.s, now)
      Q2 == Flush(R1.Q, now, TRUE)
  IN IF Q2 = R.Q THEN R ELSE Exchange([R1 EXCEPT !.Q = Q2], now)

Sent(Q) == Q.c.out = <<>> /\ \A id \in DOMAIN Q.s : Q.s[id].out = <<>>
\* the deferred close
Closing(Q) ==
  IF Q.pc < 0 \/ ~Sent(Q) \/ Q.cn = "none" THEN Q
  ELSE [Q EXCEPT !.pc = -1, !.e = Lost(@), !.cn = "lost", !.cl = IF Q.cn = "lost" THEN Q.cl ELSE Q.pc]

\* the engine's own timers; retransmissions return to their streams
RECURSIVE Enqueue2(_, _)
Enqueue2(Q, L) ==
  IF L = <<>> THEN Q
  ELSE LET x == Head(L)
           ok == x.st \in DOMAIN Q.s /\ Q.s[x.st].fin = 0 /\ Q.s[x.st].cnt < Q.e.cfg.maxout
       IN Enqueue2(IF ok THEN Upd(Q, x.st, [Q.s[x.st] EXCEPT !.out = @ \o x.b, !.cnt = @ + 1]) ELSE Q, Tail(L))
Timers(R, now) ==
  LET r == Tick(R.Q.e, now)
      burst == Len(r.E.strtx) > 1 \/ Len(r.E.bur) > Len(R.Q.e.bur)
  IN [R EXCEPT !.Q = Enqueue2([R.Q EXCEPT !.e = [r.E EXCEPT !.strtx = <<>>], !.loose = @ \/ burst], r.E.strtx),
               !.evs = @ \o On(-1, r.evs)]

---------------------------------------------------------------------------
(* What the server sees *)
Hidden(Q, id) == id \in Q.stl
SeenOf(Q, id, st, t) ==
  IF Hidden(Q, id) THEN [st |-> id, b |-> <<>>, t |-> <<>>, fin |-> 0, rst |-> -1, stop |-> st.hs]
  ELSE [st |-> id, b |-> st.wire, t |-> t, fin |-> IF st.hr >= 0 THEN 0 ELSE st.hf, rst |-> st.hr, stop |-> st.hs]
Told(Q, id, st) ==
  LET s1 == IF Hidden(Q, id) THEN st ELSE [st EXCEPT !.wire = <<>>, !.hf = 0, !.hr = -1]
  IN [s1 EXCEPT !.hs = -1, !.gone = @ \/ st.fin >= 2]
Silent(x) == x.b = <<>> /\ x.t = <<>> /\ x.fin = 0 /\ x.rst < 0 /\ x.stop < 0
Arrive(st) == [st EXCEPT !.rx = @ \o st.net, !.net = <<>>]

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o SeqOf(S \ {i})

QRes(Q, ret, evs) == [Q |-> Q, ret |-> ret, evs |-> evs, seen |-> <<>>, close |-> -1, nc |-> 0, alpn |-> 0, id |-> -1, cut |-> FALSE, loose |-> FALSE,
                       done |-> <<>>, opt |-> <<>>]
QOk(Q) == QRes(Q, "ok", <<>>)

\* The server shows a certificate that the client trusts, for the name it was given.
Genuine(c) == c.vfy \notin {2, 5}

Run(Q, now) ==
  LET pend == On(-1, Q.pend)
      Q0 == [Q EXCEPT !.pend = <<>>]
      refused == Q.cn = "shake" /\ ~Genuine(Q.e.cfg)
      shake == Q.cn = "shake" /\ ~refused
      \* one tick may pass before the handshake completes
      W == IF Q.cn = "shake" THEN Timers([Q |-> Flush(Q0, now, TRUE), evs |-> pend, cut |-> FALSE], now) ELSE [Q |-> Q0, evs |-> pend, cut |-> FALSE]
      H == IF shake THEN Shaken(W.Q, now) ELSE [Q |-> W.Q, evs |-> <<>>]
      R0 == [Q |-> H.Q, evs |-> W.evs \o On(-1, H.evs), cut |-> FALSE]
      gonep == Q.sc >= 0 \/ refused
      over == Q.cn = "lost" /\ Q.cl < 0
      R1 == IF gonep
            THEN [Q |-> [Blank(R0.Q) EXCEPT !.e = Reset(R0.Q.e, now), !.cn = "lost", !.nx = R0.Q.nx],
                  evs |-> R0.evs \o On(-1, <<[Ev("TransportClosed") EXCEPT !.x = IF refused THEN 0 ELSE 1, !.m = IF refused THEN -1 ELSE Q.sc], Broken>>), cut |-> FALSE]
            ELSE IF Q.cn = "lost" THEN [R0 EXCEPT !.Q.c.net = <<>>, !.Q.s = [id \in DOMAIN @ |-> [@[id] EXCEPT !.net = <<>>]]]
            ELSE [R0 EXCEPT !.Q.c = Arrive(@), !.Q.so = [i \in {} |-> <<>>],
                            !.Q.s = [id \in DOMAIN @ \cup DOMAIN R0.Q.so |->
                                       IF id \in DOMAIN @ THEN Arrive(@[id]) ELSE [NewStream EXCEPT !.rx = R0.Q.so[id]]]]
      R2 == IF R1.Q.cn = "none" THEN R1 ELSE Exchange(R1, now)
      closed == R2.Q.pc >= 0 /\ Sent(R2.Q) /\ R2.Q.cn # "none"
      R3 == Timers([R2 EXCEPT !.Q = Closing(@)], now)
      Q4 == Flush(R3.Q, now, TRUE)
      ids == SeqOf(DOMAIN Q4.s)
      gone == [i \in 1..Len(Q4.left) |-> SeenOf(Q4, Q4.left[i].st, Q4.left[i].r, Q4.left[i].t)]
      sall == gone \o (IF Q4.ctl < 0 THEN <<>> ELSE <<SeenOf(Q4, Q4.ctl, Q4.c, <<>>)>>) \o [i \in 1..Len(ids) |-> SeenOf(Q4, ids[i], Q4.s[ids[i]], <<>>)]
      \* streams whose every byte is now known to have arrived
      fresh(st) == st.fin = 2 /\ ~st.gone
      done == (IF Q4.ctl >= 0 /\ fresh(Q4.c) THEN <<StreamEv("StreamClosed", Q4.ctl, 0)>> ELSE <<>>)
              \o [i \in 1..Len(SelectSeq(ids, LAMBDA j : fresh(Q4.s[j]))) |->
                    StreamEv("StreamClosed", SelectSeq(ids, LAMBDA j : fresh(Q4.s[j]))[i], 0)]
      \* once closed, the server looks at nothing any more
      T4 == IF Q4.cl >= 0 \/ over THEN [Q4 EXCEPT !.stl = {}] ELSE Q4
      Q5 == [T4 EXCEPT !.c = IF T4.ctl < 0 THEN @ ELSE Told(T4, T4.ctl, @), !.s = [id \in DOMAIN @ |-> Told(T4, id, @[id])],
                       !.cl = -1, !.loose = FALSE, !.left = <<>>]
  IN [QRes(Q5, "ok", R3.evs) EXCEPT !.seen = IF over THEN <<>> ELSE SelectSeq(sall, LAMBDA x : ~Silent(x)), !.close = IF refused THEN -2 ELSE Q4.cl,
        !.nc = IF Q.cn = "shake" THEN 1 ELSE 0, !.alpn = IF shake THEN Q.e.cfg.alpn ELSE 0, !.cut = closed \/ R3.cut,
        !.loose = R3.Q.loose \/ \E i \in 1..Len(R3.evs) : R3.evs[i].v.k = "Connected" /\ R3.evs[i].v.x = 1,
        !.done = IF Q.cn = "lost" THEN <<>> ELSE done,
        !.opt = [i \in 1..Len(Q4.left) |-> StreamEv("StreamClosed", Q4.left[i].st, 0)]]

LoneTick(Q, now) ==
  LET Q1 == Closing(Flush([Q EXCEPT !.pend = <<>>], now, FALSE))
      R == Timers([Q |-> Q1, evs |-> On(-1, Q.pend), cut |-> FALSE], now)
  IN QRes(R.Q, "ok", R.evs)

---------------------------------------------------------------------------
(* Calls *)
Ret(Q, ret) == QRes(Q, ret, <<>>)
Room(Q, id) == IF Q.s[id].fin > 0 THEN "err" ELSE IF Q.s[id].cnt >= Q.e.cfg.maxout THEN "full" ELSE "ok"

\* Send on the stream a packet the engine prepares
Prepared(Q, id, r) ==
  LET room == Room(Q, id) IN
  IF room # "ok" THEN Ret(Q, room)
  ELSE IF r.ret # "ok" THEN Ret(Q, r.ret)
  ELSE Ret(Journal([Upd(Q, id, [Q.s[id] EXCEPT !.out = @ \o r.out, !.cnt = @ + 1]) EXCEPT !.e = r.E], id, r.out, 1), "ok")

Encoded(Q, op, a, st, id, now) ==
  LET a1 == [a EXCEPT !.st = st] IN
  CASE op = "pub" -> PublishEncoded(Q.e, a1, id, now)
    [] op = "sub" -> RequestEncoded(Q.e, a1, SubscribePk(Q.e, a, id), now)
    [] op = "unsub" -> RequestEncoded(Q.e, a1, UnsubscribePk(Q.e, a, id), now)

Addressed(Q, op, a, id, now) ==
  IF ~Allowed(Q) \/ a.st \notin DOMAIN Q.s THEN Ret(Q, "err")
  ELSE Prepared(Q, a.st, Encoded(Q, op, a, a.st, id, now))

ByDefault(Q, op, a, id, now) ==
  LET have == IF op = "pub" THEN Q.dp ELSE Q.ds
      Q1 == IF have >= 0 THEN Q
            ELSE LET O == OpenAs(Q, IF op = "pub" THEN "pub" ELSE "sub")
                 IN IF op = "pub" THEN [O EXCEPT !.dp = Q.nx] ELSE [O EXCEPT !.ds = Q.nx]
      st == IF have >= 0 THEN have ELSE Q.nx
  IN IF ~Allowed(Q) \/ (have < 0 /\ ~CanOpen(Q)) THEN Ret(Q, "err")
     ELSE Prepared(Q1, st, Encoded(Q1, op, a, st, id, now))

OpenData(Q) ==
  IF ~Allowed(Q) \/ ~CanOpen(Q) THEN Ret(Q, "err")
  ELSE [QOk(OpenAs(Q, "data")) EXCEPT !.id = Q.nx]

Known(Q, id) == id = Q.ctl \/ id \in DOMAIN Q.s
Raw(Q, id, fs) ==
  IF id < 0 \/ ~Known(Q, id) THEN Ret(Q, "err")
  ELSE IF id = Q.ctl
  THEN (IF Q.c.fin > 0 THEN Ret(Q, "err") ELSE QOk(Journal([Q EXCEPT !.c.out = @ \o fs], id, fs, 0)))
  ELSE IF Q.s[id].fin > 0 THEN Ret(Q, "err")
  ELSE QOk(Journal(Upd(Q, id, [Q.s[id] EXCEPT !.out = @ \o fs]), id, fs, 0))

Finish(Q, id, now) ==
  IF ~Known(Q, id) THEN Ret(Q, "err")
  ELSE IF id = Q.ctl
  THEN LET Q1 == Journal([Q EXCEPT !.c.out = @ \o Q.e.out, !.e = Lost(@)], id, Q.e.out, 0)
       IN QOk([Q1 EXCEPT !.c.fin = IF @ = 0 THEN 1 ELSE @])
  ELSE QOk(Upd(Q, id, [Q.s[id] EXCEPT !.fin = IF @ = 0 THEN 1 ELSE @]))

ResetOne(st, rc) ==
  [st EXCEPT !.out = <<>>, !.cnt = 0, !.fin = 3, !.hf = IF st.gone \/ st.fin = 3 THEN @ ELSE 0,
             !.hr = IF st.gone \/ st.fin = 3 THEN @ ELSE rc]
Abort(Q, id, rc) ==
  IF ~Known(Q, id) THEN Ret(Q, "err")
  ELSE LET st == IF id = Q.ctl THEN Q.c ELSE Q.s[id]
           st1 == [ResetOne(st, rc) EXCEPT !.fin = IF st.fin = 2 /\ st.gone THEN 2 ELSE 3, !.hr = IF Q.cn = "lost" THEN st.hr ELSE @]
       IN Ret(IF id = Q.ctl THEN [Q EXCEPT !.c = st1, !.e = Lost(@)] ELSE Upd(Q, id, st1),
              IF st.gone \/ st.fin = 3 THEN "err" ELSE "ok")
StopIt(Q, id, rc) ==
  IF ~Known(Q, id) THEN Ret(Q, "err")
  ELSE LET st == IF id = Q.ctl THEN Q.c ELSE Q.s[id]
           st1 == [st EXCEPT !.stop = TRUE, !.hs = IF Q.cn = "lost" THEN @ ELSE rc]
       IN IF st.stop \/ st.rdone THEN Ret(Q, "err")
          ELSE QOk(IF id = Q.ctl THEN [Q EXCEPT !.c = st1] ELSE Upd(Q, id, st1))

QPing(Q, now) ==
  IF Q.c.fin > 0 \/ ~Q.e.conn THEN Ret(Q, "err")
  ELSE LET r == Ping(Q.e, now, TRUE) IN Ret([Q EXCEPT !.e = r.E], r.ret)
DisconnectAndClose(Q, rc, now) ==
  IF Q.cn = "none" THEN Ret(Q, "err")
  ELSE LET r == Disconnect(Q.e, now, TRUE)
       IN IF r.ret # "ok" THEN Ret([Q EXCEPT !.e = r.E], r.ret) ELSE QOk([Q EXCEPT !.e = r.E, !.pc = rc])
CloseNow(Q, rc) ==
  IF Q.cn = "none" THEN Ret([Q EXCEPT !.pc = -1], "err")
  ELSE QOk([Q EXCEPT !.pc = -1, !.e = Lost(@), !.cl = IF Q.cn = "lost" THEN @ ELSE rc, !.cn = "lost", !.so = [i \in {} |-> <<>>],
                     !.c.net = <<>>, !.s = [id \in DOMAIN @ |-> [@[id] EXCEPT !.net = <<>>]]])

\* the server writes f on the stream
Written(Q, id, f) ==
  IF id = Q.ctl THEN [Q EXCEPT !.c.net = @ \o f]
  ELSE IF id \in DOMAIN Q.s THEN Upd(Q, id, [Q.s[id] EXCEPT !.net = @ \o f])
  ELSE IF id \in DOMAIN Q.so THEN [Q EXCEPT !.so[id] = @ \o f] ELSE Q
Code(k, rc) == <<[Pk(k, 0) EXCEPT !.rc = rc]>>

QStep(Q, c, id) ==
  LET now == c.now  a == c.a IN
  CASE c.op = "qconn" -> QOk(QConnect(Q, a, now))
    [] c.op = "qre" -> IF Q.cfgd THEN QOk(Establish(Renew(Q, now), now)) ELSE Ret(Q, "err")
    [] c.op = "clear" -> QOk([Q EXCEPT !.tk = <<>>])
    [] c.op = "open" -> OpenData(Q)
    [] c.op \in {"pub", "sub", "unsub"} -> ByDefault(Q, c.op, a, id, now)
    [] c.op = "pubon" -> Addressed(Q, "pub", a, id, now)
    [] c.op = "subon" -> Addressed(Q, "sub", a, id, now)
    [] c.op = "unsubon" -> Addressed(Q, "unsub", a, id, now)
    [] c.op = "ping" -> QPing(Q, now)
    [] c.op = "qping" -> Ret(Q, IF Q.cn = "none" THEN "err" ELSE "ok")
    [] c.op = "disc" -> QOk([Q EXCEPT !.e = Disconnect(Q.e, now, FALSE).E])
    [] c.op = "dclose" -> DisconnectAndClose(Q, a.rc, now)
    [] c.op = "close" -> CloseNow(Q, a.rc)
    [] c.op = "csil" -> QOk(Renew(Q, now))
    [] c.op = "fin" -> Finish(Q, a.st, now)
    [] c.op = "rst" -> Abort(Q, a.st, a.rc)
    [] c.op = "stop" -> StopIt(Q, a.st, a.rc)
    [] c.op \in {"raw", "ackon"} -> Raw(Q, a.st, a.fs)
    [] c.op = "takeev" -> LET r == TakeEvents(Q.e) IN
                          QRes([Q EXCEPT !.pend = <<>>, !.e = r.E], "ok", On(-1, Q.pend \o r.evs))
    [] c.op = "rebind" -> QOk(Q)
    [] c.op = "run" -> Run(Q, now)
    [] c.op = "tick" -> LoneTick(Q, now)
    \* the server's doings
    [] c.op = "reject" -> QOk([Q EXCEPT !.ep = @ + 1])
    [] c.op = "stall" -> QOk([Q EXCEPT !.stl = IF a.n = 1 THEN @ \cup {a.st} ELSE @ \ {a.st}])
    [] c.op = "sopen" -> QOk([Q EXCEPT !.so = (id :> a.fs) @@ @])
    [] c.op = "srv" -> QOk(Written(Q, a.st, a.fs))
    [] c.op = "sfin" -> QOk(Written(Q, a.st, Code("FIN", 0)))
    [] c.op = "srst" -> QOk(Written(Q, a.st, Code("RST", a.rc)))
    [] c.op = "sstop" -> QOk(Written(Q, a.st, Code("STOP", a.rc)))
    [] c.op = "sclose" -> QOk([Q EXCEPT !.sc = IF Q.cn \in {"shake", "open"} THEN a.rc ELSE @])

QAssigns(c) == c.op \in {"pub", "pubon", "sub", "subon", "unsub", "unsubon"} /\ (c.op \in {"pub", "pubon"} => c.a.q > 0)
=============================================================================
