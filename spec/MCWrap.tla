------------------------------- MODULE MCWrap -------------------------------
(* Explores Wrap.tla, next to the bare engine of Engine.tla given the same   *)
(* calls, and checks over whole histories what the interfaces promise.       *)
EXTENDS Wrap

CONSTANTS Iface, NPub, NSrv, NTick, NLoss

C0 == [ver |-> 5, ka |-> 1, auto |-> 1, mult |-> 1, rto |-> 1000, maxout |-> 100, maxev |-> 2,
       rm |-> 1, aa |-> 1, base |-> 500, maxd |-> 1500, maxatt |-> 0, qcap |-> 1000, cl |-> <<>>, cm |-> 1, pbuf |-> 16384,
       via |-> Iface, ctor |-> 0, vfy |-> 0, alpn |-> 1, tlsv |-> 13]
A0 == [m |-> 0, q |-> 0, r |-> 0, p |-> 0, pr |-> 0, bad |-> 0, st |-> -1, rc |-> 0, n |-> 0, l |-> <<>>, fs |-> <<>>]

VARIABLES W, N, now, g, last
vars == <<W, N, now, g, last>>
\* pend: packets for the server side to answer; sent: packets the server sent; seen: packets the server saw
\* all: the bare engine's events; rep: events returned; got: events taken; nout: the bare engine's packets
Init == /\ W = NewWrap(C0, 0) /\ N = NewEngine(C0, 0) /\ now = 0 /\ last = "init"
        /\ g = [pub |-> 0, srv |-> 0, tick |-> 0, loss |-> 0, ans |-> <<>>, sent |-> <<>>, seen |-> <<>>,
                all |-> <<>>, rep |-> <<>>, got |-> <<>>, nout |-> <<>>, wrong |-> {}]

Answer(p) ==
  CASE p.k = "CONNECT" -> <<Pk("CONNACK", 0)>>
    [] p.k = "PUBLISH" /\ p.q = 1 -> <<Pk("PUBACK", p.id)>>
    [] p.k = "PUBLISH" /\ p.q = 2 -> <<Pk("PUBREC", p.id)>>
    [] p.k = "PUBREL" -> <<Pk("PUBCOMP", p.id)>>
    [] p.k = "PINGREQ" -> <<Pk("PINGRESP", 0)>>
    [] OTHER -> <<>>
RECURSIVE Answers(_)
Answers(ps) == IF ps = <<>> THEN <<>> ELSE Answer(Head(ps)) \o Answers(Tail(ps))

\* What the bare engine does on the same call; over TLS the packets enter and leave at a tick.
Bare(E, c, id) ==
  IF c.op \in {"shake", "sock", "takesock"} \/ (Tls(C0) /\ c.op = "take") THEN Res(E, "ok", <<>>, <<>>)
  ELSE IF c.op = "tick" /\ Tls(C0)
  THEN LET a == IF W.fed THEN Step(E, [Call("in", c.now) EXCEPT !.a = [A0 EXCEPT !.fs = W.rx]], 0) ELSE Res(E, "ok", <<>>, <<>>)
           b == Step(a.E, Call("take", c.now), 0)
           d == Step(b.E, Call("tick", c.now), 0)
       IN Res(d.E, "ok", a.evs \o d.evs, b.out)
  ELSE IF c.op = "takeev" THEN [Step(E, c, id) EXCEPT !.evs = <<>>]
  ELSE Step(E, c, id)

Do(op, t, a, id, upd(_)) ==
  LET c == [op |-> op, now |-> t, a |-> a]
      w == WStep(W, c, id)
      n == Bare(N, c, id)
      g1 == [g EXCEPT !.all = @ \o Via(C0, n.evs), !.nout = @ \o n.out,
                      !.rep = IF op = "takeev" THEN @ ELSE @ \o w.evs,
                      !.got = IF op = "takeev" THEN @ \o w.evs ELSE @,
                      !.seen = @ \o w.out, !.ans = @ \o Answers(w.out)]
      g2 == [g1 EXCEPT !.wrong = IF w.ret = n.ret THEN @ ELSE @ \cup {op}]
  IN W' = w.W /\ N' = n.E /\ g' = upd(g2) /\ last' = op /\ now' = t

Same(x) == x
Start == /\ last = "init"
         /\ Do("connect", now, A0, 0, Same)
Shake == /\ Tls(C0) /\ ~W.up /\ last # "init"
         /\ Do("shake", now, A0, 0, Same)
Fresh == LET ids(s) == {s[j].id : j \in 1..Len(s)}
         IN CHOOSE i \in 1..9 : i \notin LiveIds(W.e) \cup ids(g.ans) \cup ids(W.rx)
Pub == \E q \in {0, 2} :
         /\ g.pub < NPub /\ last # "init"
         /\ Do("pub", now, [A0 EXCEPT !.q = q, !.m = g.pub + 1], Fresh, LAMBDA x : [x EXCEPT !.pub = @ + 1])
Take == /\ ~Tls(C0) /\ W.e.out # <<>> /\ Do("take", now, A0, 0, Same)
TakeSock == /\ Tls(C0) /\ W.up /\ W.tx # <<>> /\ Do("takesock", now, A0, 0, Same)
In(f, upd(_)) == IF Tls(C0) THEN Do("sock", now, [A0 EXCEPT !.fs = <<f>>, !.m = 1], 0, upd)
                 ELSE Do("in", now, [A0 EXCEPT !.fs = <<f>>], 0, upd)
Deliver == /\ g.ans # <<>> /\ (Tls(C0) => W.up)
           /\ LET upd(x) == [x EXCEPT !.ans = SubSeq(@, 2, Len(@)), !.sent = Append(@, Head(g.ans))] IN In(Head(g.ans), upd)
Srv == /\ g.srv < NSrv /\ W.e.conn
       /\ LET f == [Pk("PUBLISH", g.srv + 1) EXCEPT !.q = 1, !.m = g.srv + 1]
              upd(x) == [x EXCEPT !.srv = @ + 1, !.sent = Append(@, f)]
          IN In(f, upd)
TakeEv == /\ W.kept # <<>> \/ W.e.ev # <<>>
          /\ Do("takeev", now, A0, 0, Same)
TickW == \E d \in {0, 500} : g.tick < NTick /\ Do("tick", now + d, A0, 0, LAMBDA x : [x EXCEPT !.tick = @ + 1])
Lose == /\ ~Tls(C0) /\ W.e.conn /\ g.loss < NLoss
        /\ Do("lost", now, A0, 0, LAMBDA x : [x EXCEPT !.loss = @ + 1, !.ans = <<>>])
Disc == /\ W.e.conn /\ g.pub = NPub /\ Do("disc", now, A0, 0, Same)
Next == Start \/ Shake \/ Pub \/ Take \/ TakeSock \/ Deliver \/ Srv \/ TakeEv \/ TickW \/ Lose \/ Disc
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Chain == g.seen \o W.tx \o W.e.out
\* the same results, the same packets in the same order, as the engine itself
Results == g.wrong = {}
Packets == g.seen \o W.tx = g.nout
State == W.e.conn = N.conn /\ W.e.out = N.out /\ W.e.infl = N.infl
\* every event the engine reports is returned and is kept, once, in order, until taken
Events == IF Foreign(C0) THEN g.got \o W.kept = g.all ELSE g.rep = g.all
Returned == Foreign(C0) /\ ~CApi(C0) => g.rep = g.all
Hidden == Foreign(C0) => \A i \in 1..Len(g.got) : g.got[i].k \notin {"PublishReceived", "PubRelReceived"}
\* nothing handed to the connection is dropped, reordered or altered
Extends == [][last' \notin {"connect", "lost"} =>
               LET a == Chain b == g'.seen \o W'.tx \o W'.e.out IN (~W'.e.conn /\ W.e.conn) \/ (Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a)]_vars
\* nothing leaves before the TLS handshake, and the first packet is CONNECT
Hello == /\ Tls(C0) /\ ~W.up => g.seen = <<>>
         /\ g.seen # <<>> => g.seen[1].k = "CONNECT"
\* every message the server sent is reported once in order; all of them once taken in
Msgs(evs) == LET s == SelectSeq(evs, LAMBDA e : e.k = "MessageReceived") IN [i \in 1..Len(s) |-> s[i].m]
Received ==
  LET all == IF Foreign(C0) THEN g.got \o W.kept ELSE g.rep \o <<>>
      ms == Msgs(all \o Via(C0, W.e.ev))
  IN /\ \A i \in 1..Len(ms) : ms[i] = i
     /\ g.loss = 0 /\ W.rx = <<>> /\ W.e.inb = <<>> /\ W.e.conn => Len(ms) = g.srv
=============================================================================
