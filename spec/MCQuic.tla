-------------------------------- MODULE MCQuic --------------------------------
(* Explores Quic.tla with a scripted server and checks, over what the two     *)
(* sides see of every stream, what MQTT over QUIC promises.                   *)
EXTENDS Quic

CONSTANTS Zero,    \* early data: 0 off, 1 on, 2 on with replay
          NPub, NReq, NOpen, NSrv, NEnd, NSEnd, NConn, NTick, NRej, NStall, NClose, Win, MaxOut

C0 == [ver |-> 5, ka |-> 0, auto |-> 0, mult |-> 1, rto |-> 1000, maxout |-> MaxOut, maxev |-> 100,
       rm |-> 5, aa |-> 1, base |-> 500, maxd |-> 1500, maxatt |-> 0, qcap |-> 1000, cl |-> <<>>, cm |-> 1, pbuf |-> 16384,
       via |-> 10, ctor |-> 0, vfy |-> 1, alpn |-> 1, tlsv |-> 13, win |-> Win, slim |-> 4, loss |-> 0, each |-> 0]
A0 == [m |-> 0, q |-> 0, r |-> 0, p |-> 0, pr |-> 0, bad |-> 0, st |-> 0, rc |-> 0, n |-> 0, l |-> <<>>, fs |-> <<>>]

VARIABLES Q, now, g, last
vars == <<Q, now, g, last>>
None == [i \in {} |-> <<>>]
At(f, st) == IF st \in DOMAIN f THEN f[st] ELSE <<>>
Put(f, st, x) == (st :> (At(f, st) \o x)) @@ f
\* acc: requests accepted per stream; seen: what the server saw; giv: what the server wrote; ev: events of this connection
\* ans: answers the server owes; old: packets of earlier connections; early: accepted before the connection was up
\* cut: streams reset or stopped; fin: requests accepted before the stream's end was asked for; over: the same for the connection
G0 == [n |-> [pub |-> 0, req |-> 0, open |-> 0, srv |-> 0, end |-> 0, send |-> 0, conn |-> 0, tick |-> 0, rej |-> 0, stall |-> 0, close |-> 0, run |-> 0],
       acc |-> None, seen |-> None, giv |-> None, ev |-> <<>>, ans |-> <<>>, old |-> {}, cut |-> {}, fin |-> None, over |-> <<>>, pol |-> FALSE,
       zev |-> <<>>, wrong |-> {}, lastm |-> 0, sid |-> 1]
Init == Q = NewQuic(C0, 0) /\ now = 0 /\ g = G0 /\ last = "init"

Requests == {"PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"}
Plain(p) == [p EXCEPT !.d = 0]
Reqs(s) == SelectSeq(s, LAMBDA p : p.k \in Requests)
RECURSIVE Firsts(_)
Firsts(s) == IF s = <<>> THEN <<>>
             ELSE LET r == Firsts(SubSeq(s, 1, Len(s) - 1))  p == Plain(s[Len(s)])
                  IN IF \E i \in 1..Len(r) : r[i] = p THEN r ELSE Append(r, p)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Ids(s) == {s[i].id : i \in 1..Len(s)}
Early(k) == k \in {"ZeroRttAttempted", "ZeroRttAccepted", "ZeroRttRejected", "ZeroRttUnavailable"}

Answer(st, p) ==
  LET a(k) == <<[st |-> st, p |-> Pk(k, p.id)]>> IN
  CASE p.k = "CONNECT" -> <<[st |-> st, p |-> [Pk("CONNACK", 0) EXCEPT !.d = 1]]>>
    [] p.k = "PUBLISH" /\ p.q = 1 -> a("PUBACK")
    [] p.k = "PUBLISH" /\ p.q = 2 -> a("PUBREC")
    [] p.k = "PUBREL" -> a("PUBCOMP")
    [] p.k = "SUBSCRIBE" -> <<[st |-> st, p |-> [Pk("SUBACK", p.id) EXCEPT !.l = <<0>>]]>>
    [] OTHER -> <<>>
RECURSIVE Owed(_, _)
Owed(st, b) == IF b = <<>> THEN <<>> ELSE Answer(st, Head(b)) \o Owed(st, Tail(b))
RECURSIVE Take(_, _)
Take(x, rows) == IF rows = <<>> THEN x
                 ELSE LET w == Head(rows) IN
                      Take([x EXCEPT !.seen = Put(@, w.st, w.b), !.ans = @ \o Owed(w.st, w.b)], Tail(rows))
\* what a step shows at once
AtRun(r, x) ==
  LET fins == {i \in 1..Len(r.seen) : r.seen[i].fin = 1}
      lost == {st \in DOMAIN x.fin : \E i \in fins : r.seen[i].st = st /\ ~Prefix(x.fin[st], Firsts(Reqs(At(x.seen, st))))}
      short == r.close >= 0 /\ x.over # <<>>
               /\ \E st \in DOMAIN x.over[1] : st \notin x.cut /\ st \notin Q.stl /\ ~Prefix(x.over[1][st], Firsts(Reqs(At(x.seen, st))))
      late == r.close >= 0 /\ x.over # <<>> /\ \E st \in DOMAIN x.seen : Len(Firsts(Reqs(x.seen[st]))) > Len(At(x.over[1], st)) + Cardinality(g.old)
      \* DISCONNECT is there, and nothing the application asked for follows it on the control stream
      rude == r.close >= 0 /\ x.over # <<>> /\ x.pol /\ 0 \notin x.cut /\ 0 \notin DOMAIN x.fin
              /\ ~\E i \in 1..Len(At(x.seen, 0)) : x.seen[0][i].k = "DISCONNECT"
                    /\ \A j \in i..Len(x.seen[0]) : x.seen[0][j].k \notin Requests \cup {"PINGREQ"}
      rej == Q.z = "Attempted" /\ r.Q.z = "Rejected"
      ok == Q.z = "Attempted" /\ r.Q.z = "Accepted"
      once(st) == Reqs(At(x.seen, st)) = x.acc[st]
      all == \A st \in DOMAIN x.acc \ x.cut : once(st)
      none == x.seen = None
  IN (IF lost # {} THEN {"finish lost packets"} ELSE {})
     \cup (IF short THEN {"close lost packets"} ELSE {}) \cup (IF late THEN {"late packets"} ELSE {}) \cup (IF rude THEN {"close before DISCONNECT"} ELSE {})
     \cup (IF rej /\ r.Q.zr = 1 /\ r.Q.stl = {} /\ ~all THEN {"not replayed once"} ELSE {})
     \cup (IF rej /\ r.Q.zr = 0 /\ ~none THEN {"replayed unasked"} ELSE {})
     \cup (IF ok /\ r.Q.stl = {} /\ ~all THEN {"early data not once"} ELSE {})

New(x) == [x EXCEPT !.acc = None, !.seen = None, !.giv = None, !.ev = <<>>, !.ans = <<>>, !.cut = {}, !.fin = None, !.over = <<>>, !.zev = <<>>,
                    !.sid = 1, !.old = @ \cup UNION {Ids(x.acc[st]) : st \in DOMAIN x.acc}]
Do(op, a, id, t, upd(_)) ==
  LET c == [op |-> op, now |-> t, a |-> a]
      r == QStep(Q, c, id)
      asks == QAssigns(c) \/ op \in {"pub", "pubon"}
      st == IF op \in {"pubon", "subon"} THEN a.st ELSE IF op = "pub" THEN r.Q.dp ELSE r.Q.ds
      pkt == IF op \in {"pub", "pubon"} THEN PublishPk(Q.e, a, id) ELSE SubscribePk(Q.e, a, id)
      g1 == IF asks /\ r.ret = "ok" THEN [g EXCEPT !.acc = Put(@, st, <<pkt>>)]
            ELSE IF asks /\ (r.Q.e.infl # Q.e.infl \/ \E i \in DOMAIN Q.s : r.Q.s[i] # Q.s[i]) THEN [g EXCEPT !.wrong = @ \cup {"refusal changed something"}]
            ELSE IF op \in {"qconn", "qre", "csil"} THEN New(g)
            ELSE g
      g2 == LET h == IF op = "run" THEN Take(g1, r.seen) ELSE g1
                h1 == [h EXCEPT !.ev = @ \o r.evs, !.zev = @ \o SelectSeq([i \in 1..Len(r.evs) |-> r.evs[i].v.k], Early)]
            IN IF op # "run" THEN h1
               ELSE [h1 EXCEPT !.wrong = @ \cup AtRun(r, h1), !.acc = IF Q.z = "Attempted" /\ r.Q.z = "Rejected" /\ r.Q.zr = 0 THEN None ELSE @,
                               !.n.run = @ + 1]
      g3 == [g2 EXCEPT !.n.run = IF op = "run" THEN @ ELSE 0,
                       !.fin = IF op = "fin" /\ r.ret = "ok" /\ a.st \notin DOMAIN @ THEN (a.st :> At(g.acc, a.st)) @@ @ ELSE @,
                       !.over = IF op = "dclose" /\ r.ret = "ok" THEN <<g.acc>> ELSE @,
                       !.pol = IF op = "dclose" /\ r.ret = "ok" THEN Q.e.conn ELSE @,
                       !.cut = IF op \in {"rst", "sstop"} /\ r.ret = "ok" THEN @ \cup {a.st} ELSE @]
  IN Q' = r.Q /\ g' = upd(g3) /\ last' = op /\ now' = t

Up == Q.cn \in {"shake", "open"}
LiveNow == LiveIds(Q.e) \cup {g.ans[i].p.id : i \in 1..Len(g.ans)} \cup UNION {Ids(Q.s[st].rx \o Q.s[st].net) : st \in DOMAIN Q.s} \cup Ids(Q.c.rx \o Q.c.net)
Fresh == CHOOSE i \in 1..12 : i \notin LiveNow /\ \A j \in 1..12 : j \notin LiveNow => i <= j
Conn == /\ g.n.conn < NConn
        /\ \E op \in IF Q.cfgd THEN {"qre"} ELSE {"qconn"} :
             Do(op, [A0 EXCEPT !.n = Zero], 0, now, LAMBDA x : [x EXCEPT !.n.conn = @ + 1])
RunNow == /\ Q.cn # "none" /\ g.n.run = 0 /\ Do("run", A0, 0, now, LAMBDA x : x)
RunLate == /\ g.n.tick < NTick /\ Q.e.conn /\ Do("run", A0, 0, now + 1000, LAMBDA x : [x EXCEPT !.n.tick = @ + 1])
LoneT == /\ g.n.tick < NTick /\ last \notin {"tick", "run", "init"} /\ Do("tick", A0, 0, now, LAMBDA x : [x EXCEPT !.n.tick = @ + 1])
Pub == \E q \in {0, 2} : g.n.pub < NPub /\ Up /\ Allowed(Q)
         /\ \E st \in {-1} \cup DOMAIN Q.s :
              Do(IF st < 0 THEN "pub" ELSE "pubon", [A0 EXCEPT !.q = q, !.m = g.n.pub + 1, !.st = st], IF q = 0 THEN 0 ELSE Fresh, now, LAMBDA x : [x EXCEPT !.n.pub = @ + 1])
Req == /\ g.n.req < NReq /\ Up /\ Allowed(Q)
       /\ \E st \in {-1} \cup DOMAIN Q.s : Do(IF st < 0 THEN "sub" ELSE "subon", [A0 EXCEPT !.st = st, !.l = <<64>>], Fresh, now, LAMBDA x : [x EXCEPT !.n.req = @ + 1])
Open == /\ g.n.open < NOpen /\ Up /\ Do("open", A0, 0, now, LAMBDA x : [x EXCEPT !.n.open = @ + 1])
End == /\ g.n.end < NEnd /\ Up
       /\ \E op \in {"fin", "rst"}, st \in DOMAIN Q.s \cup (IF Q.ctl >= 0 THEN {Q.ctl} ELSE {}) :
            Do(op, [A0 EXCEPT !.st = st, !.rc = 7], 0, now, LAMBDA x : [x EXCEPT !.n.end = @ + 1])
\* a stream the server knows: it has seen something on it
Used == {st \in DOMAIN g.seen \cup {s \in DOMAIN g.giv : s % 4 = 1} : TRUE}
Closed(st) == \E i \in 1..Len(At(g.giv, st)) : g.giv[st][i].k \in {"FIN", "RST"}
Write(st, op, f, upd(_)) == Do(op, [A0 EXCEPT !.st = st, !.rc = 9, !.fs = <<f>>], 0, now, upd)
Reply == \E i \in 1..Len(g.ans) :
           LET x == g.ans[i]
               upd(y) == [y EXCEPT !.ans = [j \in 1..Len(@) - 1 |-> IF j < i THEN @[j] ELSE @[j + 1]], !.giv = Put(@, x.st, <<x.p>>)]
           IN Q.cn = "open" /\ ~Closed(x.st) /\ (\A j \in 1..i - 1 : g.ans[j].st # x.st) /\ Write(x.st, "srv", x.p, upd)
Srv == /\ g.n.srv < NSrv /\ Q.cn = "open" /\ Q.e.conn
       /\ LET f == [Pk("PUBLISH", 20 + g.n.srv) EXCEPT !.q = 1 + (g.n.srv % 2), !.m = g.n.srv + 1]
              upd(st, x) == [x EXCEPT !.n.srv = @ + 1, !.giv = Put(@, st, <<f>>)]
          IN \/ \E st \in Used : ~Closed(st) /\ LET u(x) == upd(st, x) IN Write(st, "srv", f, u)
             \/ g.sid < 6 /\ LET u(x) == [upd(g.sid, x) EXCEPT !.sid = @ + 4]
                             IN Do("sopen", [A0 EXCEPT !.fs = <<f>>], g.sid, now, u)
SEnd == /\ g.n.send < NSEnd /\ Q.cn = "open"
        /\ \E st \in Used, k \in {"FIN", "RST", "STOP", "BAD"} :
             /\ ~Closed(st) /\ (k # "FIN" => st # 0 /\ Q.sc < 0) /\ (k = "RST" => last = "run") /\ (k = "STOP" => Known(Q, st) /\ st \notin DOMAIN g.fin)
             /\ LET u(x) == [x EXCEPT !.n.send = @ + 1, !.giv = Put(@, st, <<[Pk(k, 0) EXCEPT !.rc = IF k \in {"FIN", "BAD"} THEN 0 ELSE 9]>>)]
                IN Write(st, CASE k = "FIN" -> "sfin" [] k = "RST" -> "srst" [] k = "STOP" -> "sstop" [] OTHER -> "srv", Pk("BAD", 0), u)
Reject == /\ g.n.rej < NRej /\ Q.cn \in {"none", "lost"} /\ Do("reject", A0, 0, now, LAMBDA x : [x EXCEPT !.n.rej = @ + 1])
Stall == /\ g.n.stall < NStall /\ Q.cn = "open" /\ last = "run"
         /\ \E st \in Used \ Q.stl : Do("stall", [A0 EXCEPT !.st = st, !.n = 1], 0, now, LAMBDA x : [x EXCEPT !.n.stall = @ + 1])
Unstall == \E st \in Q.stl : Do("stall", [A0 EXCEPT !.st = st], 0, now, LAMBDA x : x)
Close == /\ g.n.close < NClose /\ Q.cn \in {"shake", "open"}
         /\ \E op \in {"dclose", "close", "csil", "sclose"} :
              (op = "sclose" => last = "run" /\ Q.cn = "open") /\ Do(op, [A0 EXCEPT !.rc = 5], 0, now, LAMBDA x : [x EXCEPT !.n.close = @ + 1])
Next == Conn \/ RunNow \/ RunLate \/ LoneT \/ Pub \/ Req \/ Open \/ End \/ Reply \/ Srv \/ SEnd \/ Reject \/ Stall \/ Unstall \/ Close
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Acks == {"PUBACK", "PUBREC", "PUBCOMP"}
AckFor(k) == IF k = "PUBCOMP" THEN {"PUBREL"} ELSE {"PUBLISH"}
\* X01: requests travel on their stream, each first time in the order accepted; answers return where the packet came from
Own == \A st \in DOMAIN g.seen \ {0} :
         \/ Prefix(Firsts(Reqs(g.seen[st])), At(g.acc, st))
         \/ Q.z = "Rejected" /\ Q.zr = 0
Answers == \A st \in DOMAIN g.seen : \A i \in 1..Len(g.seen[st]) :
             g.seen[st][i].k \in Acks => \E j \in 1..Len(At(g.giv, st)) : g.giv[st][j].id = g.seen[st][i].id /\ g.giv[st][j].k \in AckFor(g.seen[st][i].k)
Control == /\ \A st \in DOMAIN g.seen \ {0} : \A i \in 1..Len(g.seen[st]) : g.seen[st][i].k \in Requests \cup Acks \cup {"PUBREL"}
           /\ \A i \in 1..Len(At(g.seen, 0)) : g.seen[0][i].k \in Requests => g.seen[0][i].id \in g.old \/ 0 \in DOMAIN g.fin \cup g.cut
           /\ Q.ctl >= 0 => Q.ctl = 0
\* the first thing on the control stream, and on the connection, is CONNECT, once
Hello == /\ At(g.seen, 0) # <<>> => g.seen[0][1].k = "CONNECT"
         /\ \A i \in 2..Len(At(g.seen, 0)) : g.seen[0][i].k # "CONNECT"
\* X02: each stream's messages are reported once each, in order, up to its end
Msgs(st) == LET s == SelectSeq(g.ev, LAMBDA e : e.x = st /\ e.v.k = "MessageReceived") IN [i \in 1..Len(s) |-> s[i].v.m]
Given(st) == LET s == SelectSeq(At(g.giv, st), LAMBDA f : f.k = "PUBLISH") IN [i \in 1..Len(s) |-> s[i].m]
Spoilt(st) == \E i \in 1..Len(At(g.giv, st)) : g.giv[st][i].k \in {"BAD", "STOP"}
Framed == \A st \in DOMAIN g.giv : Prefix(Msgs(st), Given(st))
Complete == last = "run" /\ g.ev # <<>> => \A st \in DOMAIN g.giv :
              (Q.cn = "open" /\ Q.ctl >= 0 /\ Q.e.conn /\ ~Spoilt(st) /\ Q.stl = {} /\ st \notin g.cut /\ g.n.close = 0) => Msgs(st) = Given(st)
\* a stream's close is reported once, after its messages, as a reset is
Last == \A i \in 1..Len(g.ev) : \A j \in 1..i - 1 :
          g.ev[j].v.k \in {"StreamReset", "StreamStopped"} /\ g.ev[i].x = g.ev[j].x => g.ev[j].v.x # g.ev[i].x \/ g.ev[i].v.k = "Disconnected"
ClosedOnce == \A i \in 1..Len(g.ev) : \A j \in 1..Len(g.ev) : g.ev[i] = g.ev[j] /\ g.ev[i].v.k = "StreamClosed" => i = j
ClosedLast == \A i \in 1..Len(g.ev) : \A j \in 1..i - 1 :
          g.ev[j].v.k = "StreamClosed" /\ g.ev[j].v.m = 1 /\ g.ev[j].x = g.ev[i].x => g.ev[i].v.k \in {"Disconnected", "StreamStopped"}
\* only the control stream's end ends the session
Isolated == Q.cn = "open" /\ Q.ctl >= 0 /\ 0 \notin DOMAIN g.fin /\ 0 \notin g.cut /\ Q.pc < 0
            => (Q.e.conn \/ ~\E i \in 1..Len(g.ev) : g.ev[i].v.k = "Connected") \/ g.n.close > 0
\* X03: early data is told once, in order
Told3 == g.zev \in {<<>>, <<"ZeroRttUnavailable">>, <<"ZeroRttAttempted">>, <<"ZeroRttAttempted", "ZeroRttAccepted">>, <<"ZeroRttAttempted", "ZeroRttRejected">>}
EarlyOnly == Q.cn # "open" /\ g.seen = None /\ g.acc # None => Q.z \in {"Attempted"} \/ Q.cn = "lost" \/ Q.cn = "none"
\* a close that was asked for is done as soon as everything has left
Ends == last = "run" /\ Q.stl = {} => Q.pc < 0
\* X03, X04: nothing wrong at any step
Steps == g.wrong = {}
=============================================================================
