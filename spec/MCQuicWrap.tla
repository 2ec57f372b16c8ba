----------------------------- MODULE MCQuicWrap -----------------------------
(* Explores QuicWrap.tla next to the bare engine of Quic.tla given the same   *)
(* calls: nothing is told twice, left out or reordered by the interface, and  *)
(* a server that is not genuine sees nothing.                                 *)
EXTENDS QuicWrap

CONSTANTS Iface, Vfy, NPub, NSrv, NTick, NConn, NTake, MaxOut

C0 == [ver |-> 5, ka |-> 1, auto |-> 1, mult |-> 1, rto |-> 1000, maxout |-> MaxOut, maxev |-> 100,
       rm |-> 5, aa |-> 1, base |-> 500, maxd |-> 1500, maxatt |-> 0, qcap |-> 1000, cl |-> <<>>, cm |-> 1, pbuf |-> 16384,
       via |-> Iface, ctor |-> 0, vfy |-> Vfy, alpn |-> 1, tlsv |-> 13, win |-> 0, slim |-> 4, loss |-> 0, each |-> 0]
A0 == [m |-> 0, q |-> 0, r |-> 0, p |-> 0, pr |-> 0, bad |-> 0, st |-> -1, rc |-> 0, n |-> 0, l |-> <<>>, fs |-> <<>>]

VARIABLES F, Q, now, g, last
vars == <<F, Q, now, g, last>>
\* all: what the bare engine told; rep: returned by calls; got: taken; seen: packets the server saw
Init == /\ F = NewQuicWrap(C0, 0) /\ Q = NewQuic(C0, 0) /\ now = 0 /\ last = "init"
        /\ g = [pub |-> 0, srv |-> 0, tick |-> 0, conn |-> 0, take |-> 0, run |-> 0, ans |-> <<>>, all |-> <<>>, rep |-> <<>>, got |-> <<>>, seen |-> <<>>,
                given |-> <<>>, wrong |-> {}]

Answer(st, p) ==
  LET a(k) == <<[st |-> st, p |-> Pk(k, p.id)]>> IN
  CASE p.k = "CONNECT" -> a("CONNACK")
    [] p.k = "PUBLISH" /\ p.q = 1 -> a("PUBACK")
    [] p.k = "PUBLISH" /\ p.q = 2 -> a("PUBREC")
    [] p.k = "PUBREL" -> a("PUBCOMP")
    [] OTHER -> <<>>
RECURSIVE Owed(_, _)
Owed(st, b) == IF b = <<>> THEN <<>> ELSE Answer(st, Head(b)) \o Owed(st, Tail(b))
RECURSIVE All(_)
All(rows) == IF rows = <<>> THEN <<>> ELSE Owed(Head(rows).st, Head(rows).b) \o All(Tail(rows))

Do(op, t, a, id, upd(_)) ==
  LET c == [op |-> op, now |-> t, a |-> a]
      f == FStep(F, c, id)
      take == op \in {"takeev", "takelist"}
      n == QStep(Q, IF op = "takelist" THEN [c EXCEPT !.op = "takeev"] ELSE c, id)
      g1 == [g EXCEPT !.all = @ \o n.evs, !.rep = IF take THEN @ ELSE @ \o f.r.evs, !.got = IF take THEN @ \o Outlines(f.r.evs) ELSE @,
                      !.seen = @ \o n.seen, !.ans = IF op = "qconn" THEN <<>> ELSE @ \o All(f.r.seen), !.run = IF op = "run" THEN 1 ELSE 0,
                      !.wrong = @ \cup (IF f.r.ret = "full" \/ (f.r.ret = "ok") # (n.ret = "ok") \/ f.r.seen # n.seen THEN {op} ELSE {})]
  IN F' = f.F /\ Q' = n.Q /\ g' = upd(g1) /\ last' = op /\ now' = t
Same(x) == x
Conn == g.conn < NConn /\ Do("qconn", now, A0, 0, LAMBDA x : [x EXCEPT !.conn = @ + 1])
RunNow == Q.cn # "none" /\ g.run = 0 /\ Do("run", now, A0, 0, Same)
TickW == \E d \in {0, 1000} : g.tick < NTick /\ Q.cn # "none" /\ last # "tick" /\ Do("tick", now + d, A0, 0, LAMBDA x : [x EXCEPT !.tick = @ + 1])
Fresh == CHOOSE i \in 1..9 : i \notin LiveIds(Q.e) \cup {g.ans[j].p.id : j \in 1..Len(g.ans)} \cup UNION {{w[k].id : k \in 1..Len(w)} : w \in {Q.s[st].net : st \in DOMAIN Q.s} \cup {Q.c.net}}
Pub == \E q \in 0..2 : g.pub < NPub /\ Do("pub", now, [A0 EXCEPT !.q = q, !.m = g.pub + 1], IF q = 0 THEN 0 ELSE Fresh, LAMBDA x : [x EXCEPT !.pub = @ + 1])
Reply == /\ g.ans # <<>> /\ Q.cn = "open"
         /\ LET x == Head(g.ans) IN Do("srv", now, [A0 EXCEPT !.st = x.st, !.fs = <<x.p>>], 0, LAMBDA y : [y EXCEPT !.ans = Tail(@)])
Srv == /\ g.srv < NSrv /\ Q.cn = "open" /\ Q.e.conn
       /\ LET f == [Pk("PUBLISH", g.srv + 1) EXCEPT !.q = 1, !.m = g.srv + 1]
          IN Do("srv", now, [A0 EXCEPT !.st = 0, !.fs = <<f>>], 0, LAMBDA x : [x EXCEPT !.srv = @ + 1, !.given = Append(@, f.m)])
SClose == Q.cn = "open" /\ last = "run" /\ Do("sclose", now, [A0 EXCEPT !.rc = 5], 0, Same)
Disc == Q.e.conn /\ g.pub = NPub /\ Do("disc", now, A0, 0, Same)
TakeEv == \E op \in {"takeev", "takelist"} : g.take < NTake /\ Do(op, now, A0, 0, LAMBDA x : [x EXCEPT !.take = @ + 1])
Next == Conn \/ RunNow \/ TickW \/ Pub \/ Reply \/ Srv \/ SClose \/ Disc \/ TakeEv
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Results == g.wrong = {}
State == F.q = Q
Events == g.got \o Outlines(F.kept) = Outlines(Rows(g.all))
Returned == g.rep = IF CApi(C0) THEN <<>> ELSE SelectSeq(Rows(g.all), LAMBDA r : TRUE)
Veiled == \A i \in 1..Len(g.got) : g.got[i].v.k \notin {"PublishReceived", "PubRelReceived", "TransportClosed"}
Trust == ~Genuine(C0) => (g.seen = <<>> /\ ~Q.e.conn /\ \A i \in 1..Len(g.all) : g.all[i].v.k # "Connected")
Msgs == LET s == SelectSeq(g.got \o Outlines(F.kept), LAMBDA r : r.v.k = "MessageReceived") IN [i \in 1..Len(s) |-> s[i].v.m]
Once == g.conn > 1 \/ (Len(Msgs) <= Len(g.given) /\ SubSeq(g.given, 1, Len(Msgs)) = Msgs)
=============================================================================
