------------------------------- MODULE MCTokio -------------------------------
(* Explores Tokio.tla: an application that asks for several things at once, a *)
(* server that answers in any order, refuses, closes or keeps silent, time    *)
(* that passes, and a worker that serves commands, reads and its timer in any *)
(* order.  The invariants state T01 and T02 over what the application and the *)
(* server see.                                                                *)
EXTENDS Tokio

CONSTANTS Ver, Auto, MaxAtt, Rm, KeepAlive,
          NConn, NPub, NReq, NPing, NDisc, NAuto, NSrv, NBad, NEnd, NDown, NTick, NRef, NOpen, Cq, Rd

C0 == [ver |-> Ver, ka |-> KeepAlive, auto |-> 1, mult |-> 1, rto |-> 700, maxout |-> 9, maxev |-> 100,
       rm |-> Rm, aa |-> 1, base |-> 500, maxd |-> 800, maxatt |-> MaxAtt, qcap |-> 100, cl |-> <<>>, cm |-> 1]
A0 == [m |-> 0, q |-> 0, r |-> 0, p |-> 0, pr |-> 0, bad |-> 0, st |-> 0, rc |-> 0, n |-> 0, l |-> <<>>, fs |-> <<>>]

VARIABLES X, now, g, last
vars == <<X, now, g, last>>
\* cmd: what was asked, in order; res: results [n, ret, v]; got: packets per connection; owe: answers the server owes on this one
\* giv: reports the server wrote, wri: messages the server wrote on this connection; log: all callbacks
\* fin: the time and number of the attempt awaited; seen: the wait began
G0 == [n |-> [conn |-> 0, pub |-> 0, req |-> 0, ping |-> 0, disc |-> 0, auto |-> 0, srv |-> 0, bad |-> 0, end |-> 0, down |-> 0, tick |-> 0, ref |-> 0],
       cmd |-> <<>>, res |-> <<>>, got |-> [c \in 0..NOpen |-> <<>>], owe |-> <<>>, giv |-> {}, wri |-> <<>>,
       msg |-> <<>>, due |-> <<>>, up |-> <<>>, own |-> TRUE, wrong |-> {}]
Init == X = NewTokio(C0, Auto, 0) /\ now = 0 /\ g = G0 /\ last = "init"

Wait == X.cq
Asked == Len(g.cmd)
Give(op, a, budget) ==
  LET c == [op |-> op, n |-> Asked + 1, id |-> Asked + 1, a |-> a] IN
  /\ Len(X.cq) < Cq
  /\ X' = [X EXCEPT !.cq = Append(@, c)]
  /\ g' = [g EXCEPT !.cmd = Append(@, c), !.n[budget] = @ + 1]
  /\ last' = "ask" /\ UNCHANGED now
App ==
  \/ g.n.conn < NConn /\ \E op \in {"conn", "connsync"} : Give(op, A0, "conn")
  \/ g.n.pub < NPub /\ \E q \in {1, 2} : Give("pubsync", [A0 EXCEPT !.q = q, !.m = Asked + 1], "pub")
  \/ g.n.req < NReq /\ \E op \in {"subsync", "unsubsync"} : Give(op, [A0 EXCEPT !.l = <<64>>], "req")
  \/ g.n.ping < NPing /\ Give("pingsync", A0, "ping")
  \/ g.n.disc < NDisc /\ Give("disc", A0, "disc")
  \/ g.n.auto < NAuto /\ Give("setauto", [A0 EXCEPT !.n = IF X.auto THEN 0 ELSE 1], "auto")

\* a turn: what it wrote becomes answers due, what it reported and resolved is noted
Answer(p) ==
  LET a(k) == <<[Pk(k, p.id) EXCEPT !.p = IF Ver = 5 THEN p.m + p.id ELSE 0]>> IN
  CASE p.k = "CONNECT" -> <<Pk("CONNACK", 0)>>
    [] p.k = "PUBLISH" /\ p.q = 1 -> a("PUBACK")
    [] p.k = "PUBLISH" /\ p.q = 2 -> a("PUBREC")
    [] p.k = "PUBREL" -> a("PUBCOMP")
    [] p.k = "SUBSCRIBE" -> <<[Pk("SUBACK", p.id) EXCEPT !.l = <<p.id>>]>>
    [] p.k = "UNSUBSCRIBE" -> <<[Pk("UNSUBACK", p.id) EXCEPT !.l = <<p.id>>]>>
    [] p.k = "PINGREQ" -> <<Pk("PINGRESP", 0)>>
    [] OTHER -> <<>>
RECURSIVE Note(_, _, _)
Note(h, s, c) == IF s = <<>> THEN h
                 ELSE Note([h EXCEPT !.got[Head(s).c] = Append(@, Head(s).p),
                                     !.owe = IF Head(s).c = c THEN @ \o Answer(Head(s).p) ELSE @], Tail(s), c)
RECURSIVE Seqd(_)
Seqd(D) == IF D = {} THEN <<>> ELSE LET d == CHOOSE d \in D : \A y \in D : d.n <= y.n IN <<d>> \o Seqd(D \ {d})
Lose(a, b) == a.str >= 0 /\ b.str # a.str
Says(Y, k) == \E i \in 1..Len(Y.log) : Y.log[i].k = k
Asks(c) == c.op \in {"conn", "connsync"}
Wrongs(what, Y, t) ==
  LET own == what = "take" /\ Asks(Head(X.cq))
      lone == ~own /\ (Y.nc > X.nc)
  IN (IF lone /\ (~X.auto \/ X.ud) THEN {"unasked connection"} ELSE {})
     \cup (IF lone /\ (g.due = <<>> \/ t < g.due[1]) THEN {"attempt before its time"} ELSE {})
     \cup (IF own /\ X.ud /\ X.acc /\ Y.nc = X.nc THEN {"connect ignored"} ELSE {})
     \cup (IF what = "wake" /\ Lose(X, Y) /\ ~X.e.conn THEN {"connection attempt given up"} ELSE {})
     \cup (IF Y.e.att > X.e.att + 1 THEN {"two attempts for one loss"} ELSE {})
     \cup (IF Y.nc > X.nc + 1 THEN {"two connections"} ELSE {})
     \cup (IF Y.nc > X.nc /\ X.str >= 0 /\ ~Says(Y, "Lost") THEN {"second connection"} ELSE {})
Waits(E) == Backoff(E.cfg, E.att - 1)
Turn(what, Y, t) ==
  LET h0 == IF Y.nc > X.nc \/ Lose(X, Y) THEN [g EXCEPT !.owe = <<>>, !.wri = <<>>] ELSE g
      h1 == Note(h0, Y.sent, Y.str)
      h2 == [h1 EXCEPT !.res = @ \o Seqd(Y.done),
                       !.due = IF Y.e.nrc >= 0 /\ Y.e.nrc # X.e.nrc THEN <<t + Waits(Y.e)>> ELSE IF Y.e.nrc < 0 /\ Y.str >= 0 THEN <<>> ELSE @,
                       !.msg = @ \o [i \in 1..Len(SelectSeq(Y.log, LAMBDA v : v.k = "MessageReceived")) |-> SelectSeq(Y.log, LAMBDA v : v.k = "MessageReceived")[i].m],
                       !.up = @ \o SelectSeq(Y.log, LAMBDA v : v.k \in {"Connected", "Lost"}),
                       !.wrong = @ \cup Wrongs(what, Y, t)]
  IN /\ last' = what
     /\ X' = [Y EXCEPT !.log = <<>>, !.done = {}, !.sent = <<>>, !.mix = FALSE]
     /\ g' = h2
     /\ now' = t
Take == CanCommand(X) /\ Turn("take", TakeCommand(X, now), now)
Rea == CanRead(X) /\ Turn("read", Read(X, now), now)
Wk == CanTick(X, now) /\ Turn("wake", Wake(X, now), now)
Busy == Turns(X, now) # {}

\* the server
CanWrite == X.str >= 0 /\ X.eof = 0 /\ Len(X.rd) < Rd
Write(f, h) == X' = [X EXCEPT !.rd = Append(@, <<f>>)] /\ g' = h /\ last' = "srv" /\ UNCHANGED now
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Greeted == g.owe = <<>> \/ \A i \in 1..Len(g.owe) : g.owe[i].k # "CONNACK"
Reply ==
  /\ CanWrite
  /\ \E i \in 1..Len(g.owe) :
       LET f == g.owe[i]  h == [g EXCEPT !.owe = Drop(@, i)] IN
       /\ f.k = "CONNACK" \/ Greeted
       /\ \/ f.k = "CONNACK" /\ \E d \in {0, 1} : Write([f EXCEPT !.d = d], h)
          \/ f.k = "CONNACK" /\ g.n.ref < NRef /\ Write([f EXCEPT !.rc = 5], [h EXCEPT !.n.ref = @ + 1, !.owe = <<>>])
          \/ f.k # "CONNACK" /\ Write(f, [h EXCEPT !.giv = @ \cup {f}])
          \/ f.k = "PUBREC" /\ Ver = 5 /\ g.n.ref < NRef /\ LET b == [f EXCEPT !.rc = 151] IN Write(b, [h EXCEPT !.n.ref = @ + 1, !.giv = @ \cup {b}])
Srv == /\ CanWrite /\ Greeted /\ g.n.srv < NSrv /\ X.e.conn
       /\ \E q \in {0, 1} : Write([Pk("PUBLISH", 40 + g.n.srv) EXCEPT !.q = q, !.m = 50 + g.n.srv], [g EXCEPT !.n.srv = @ + 1, !.wri = Append(@, 50 + g.n.srv)])
Bad == /\ CanWrite /\ g.n.bad < NBad
       /\ \E f \in {Pk("PUBACK", 60), Pk("SUBACK", 60), Pk("PINGRESP", 0)} : Write(f, [g EXCEPT !.n.bad = @ + 1])
End == /\ X.str >= 0 /\ X.eof = 0 /\ g.n.end < NEnd
       /\ \E k \in {1, 2} : X' = [X EXCEPT !.eof = k]
       /\ g' = [g EXCEPT !.n.end = @ + 1] /\ last' = "srv" /\ UNCHANGED now
Down == /\ (g.n.down < NDown \/ ~X.acc)
        /\ X' = [X EXCEPT !.acc = ~@] /\ g' = [g EXCEPT !.n.down = @ + 1] /\ last' = "srv" /\ UNCHANGED now
Pass == /\ ~Busy /\ X.tm > now /\ g.n.tick < NTick
        /\ now' = X.tm /\ g' = [g EXCEPT !.n.tick = @ + 1] /\ last' = "time" /\ UNCHANGED X
Next == App \/ Take \/ Rea \/ Wk \/ Reply \/ Srv \/ Bad \/ End \/ Down \/ Pass
Spec == Init /\ [][Next]_vars
Bounded == X.nc <= NOpen

---------------------------------------------------------------------------
ResOf(n) == SelectSeq(g.res, LAMBDA r : r.n = n)
Sync(c) == c.op \in {"connsync", "pubsync", "subsync", "unsubsync", "pingsync"}
InQ(n) == \E i \in 1..Len(X.cq) : X.cq[i].n = n
\* an operation gets one result, and only if somebody awaits it
Once == \A i \in 1..Len(g.cmd) : Len(ResOf(i)) <= IF Sync(g.cmd[i]) THEN 1 ELSE 0
\* the result is the server's answer to this operation's own packet
Own(c, r) ==
  CASE c.op = "connsync" -> r.ret = "err" \/ r.v.k = "Connected"
    [] c.op = "pingsync" -> r.ret = "err" \/ r.v.k = "PingResponse"
    [] c.op = "pubsync" -> r.ret = "ok" /\
         (\/ r.v.id = -1 /\ r.v.rc = 128
          \/ /\ r.v.k = "Published" /\ r.v.id = c.id /\ r.v.q = c.a.q
             /\ \E f \in g.giv : /\ f.id = c.id /\ f.rc = r.v.rc /\ f.p = r.v.p
                                 /\ f.k = IF c.a.q = 1 THEN "PUBACK" ELSE IF f.rc >= 128 THEN "PUBREC" ELSE "PUBCOMP")
    [] c.op = "subsync" -> r.v.k = "Subscribed" /\ (r.v.l = <<128>> \/ (r.v.id = c.id /\ r.v.l = <<c.id>> /\ \E f \in g.giv : f.k = "SUBACK" /\ f.id = c.id))
    [] OTHER -> r.v.k = "Unsubscribed" /\ (r.v.l = <<128>> \/ (r.v.id = c.id /\ \E f \in g.giv : f.k = "UNSUBACK" /\ f.id = c.id))
Outcomes == \A i \in 1..Len(g.res) : Own(g.cmd[g.res[i].n], g.res[i])
\* nothing that only this connection could answer is still awaited without one
NoOrphan == X.str < 0 => X.con = <<>> /\ X.png < 0
\* every awaited operation is in the queue, resolved, or waits where its answer will find it
Tracked == \A i \in 1..Len(g.cmd) : LET c == g.cmd[i] IN
  Sync(c) /\ ~InQ(i) /\ ResOf(i) = <<>> =>
    CASE c.op = "connsync" -> \E j \in 1..Len(X.con) : X.con[j] = i
      [] c.op = "pingsync" -> X.png = i
      [] c.op = "pubsync" -> c.id \in DOMAIN X.pub /\ X.pub[c.id] = i /\ c.id \in LiveIds(X.e)
      [] c.op = "subsync" -> c.id \in DOMAIN X.sub /\ c.id \in InflIds(X.e)
      [] OTHER -> c.id \in DOMAIN X.uns /\ c.id \in InflIds(X.e)
\* a connection starts with CONNECT, and has one
Hello == \A c \in DOMAIN g.got : g.got[c] # <<>> => g.got[c][1].k = "CONNECT" /\ \A i \in 2..Len(g.got[c]) : g.got[c][i].k # "CONNECT"
\* it holds no connection but the last one made
OneConn == X.str \in {-1, X.nc - 1}
\* connections and their ends are reported in turn
Turned == \A i \in 1..Len(g.up) - 1 : g.up[i].k = "Connected" /\ g.up[i].rc = 0 => g.up[i + 1].k = "Lost"
\* the server's messages are reported once each, in order
Sub(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Increasing == \A i \in 1..Len(g.msg) - 1 : g.msg[i] < g.msg[i + 1]
All == X.str >= 0 /\ X.rd = <<>> /\ X.eof = 0 => \A i \in 1..Len(g.wri) : \E j \in 1..Len(g.msg) : g.msg[j] = g.wri[i]
\* after a loss an attempt is scheduled and the timer is set for it, unless it may not try again
Spent == MaxAtt > 0 /\ X.e.att >= MaxAtt
Waked == X.str < 0 /\ g.up # <<>> /\ g.up[Len(g.up)].k = "Lost" /\ X.auto /\ ~X.ud /\ g.n.auto = 0 /\ ~Spent
           => X.e.nrc >= 0 /\ X.tm >= 0 /\ X.tm <= IF X.e.nrc > now THEN X.e.nrc ELSE now + 10
Quiet == X.str < 0 /\ (X.ud \/ ~X.auto) => X.e.nrc < 0
\* who disconnected is not connected, not even by an answer still under way
Obeyed == X.ud => ~X.e.conn
Steps == g.wrong = {}
=============================================================================
