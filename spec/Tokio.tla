------------------------------- MODULE Tokio -------------------------------
(***************************************************************************)
(* The worker task of the tokio client: it owns one engine and at most one *)
(* transport, takes the application's commands from a queue, reads from    *)
(* the transport and keeps one timer.  Each turn of its loop serves one of *)
(* the three and then writes what the engine wants sent.                   *)
(*                                                                         *)
(* X is the worker together with what is waiting for it and what it has    *)
(* done since the last look at it:                                         *)
(*   e      engine (Engine.tla)                                            *)
(*   str    number of the connection it holds, -1 if none;  nc  used so far *)
(*   auto, ud   reconnect automatically; the application disconnected      *)
(*   tm     when its timer fires, -1: never                                *)
(*   pub, sub, uns   awaited operations by packet identifier; con, png     *)
(*   dead   shut down                                                      *)
(*   cq     commands not yet taken                                         *)
(*   rd     reads the transport will deliver (packets completed by each)   *)
(*   eof    what comes after them: 0 nothing, 1 end, 2 reset               *)
(*   acc    does the server accept connections                             *)
(*   log    callbacks made, done: operations resolved [n, ret, v],         *)
(*   sent   packets written [c, p], mix: some of them in any order         *)
(***************************************************************************)
EXTENDS Engine

NewTokio(c, auto, now) ==
  [e |-> NewEngine(c, now), str |-> -1, nc |-> 0, auto |-> auto, ud |-> FALSE, tm |-> -1,
   pub |-> <<>>, sub |-> <<>>, uns |-> <<>>, con |-> <<>>, png |-> -1, dead |-> FALSE,
   cq |-> <<>>, rd |-> <<>>, eof |-> 0, acc |-> TRUE,
   log |-> <<>>, done |-> {}, sent |-> <<>>, mix |-> FALSE]

Say(X, v) == [X EXCEPT !.log = Append(@, v)]
Resolve(X, n, ret, v) == [X EXCEPT !.done = @ \cup {[n |-> n, ret |-> ret, v |-> v]}]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* an operation that waits under an identifier is given up if another takes its place
Put(X, f, k, n) == IF k \in DOMAIN f THEN Resolve(X, f[k], "err", Ev("")) ELSE X
With(f, k, n) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN n ELSE f[x]]

RECURSIVE ResolveAll(_, _, _, _)
ResolveAll(X, q, ret, v) == IF q = <<>> THEN X ELSE ResolveAll(Resolve(X, Head(q), ret, v), Tail(q), ret, v)

NoPing == [Ev("PingResponse") EXCEPT !.x = 0]
WLost(X, now) ==
  LET X1 == ResolveAll([X EXCEPT !.str = -1, !.rd = <<>>, !.eof = 0, !.e = Lost(@), !.con = <<>>, !.png = -1], X.con, "err", Ev(""))
      X2 == Say(IF X.png >= 0 THEN Resolve(X1, X.png, "ok", NoPing) ELSE X1, Ev("Lost"))
  IN IF ~X2.auto \/ X2.ud THEN [X2 EXCEPT !.e.att = 0, !.e.nrc = -1]
     ELSE IF Duty(X2.e) < 0 THEN [X2 EXCEPT !.e = Schedule(@, now)] ELSE X2

\* a request to connect while the server has yet to close the connection the application gave up
Abandon(X, now) == IF X.ud /\ X.str >= 0 THEN WLost(X, now) ELSE X

WConnect(X0, now) ==
  IF X0.str >= 0 THEN X0
  ELSE LET X == [X0 EXCEPT !.ud = FALSE] IN
    IF X.acc
    THEN [X EXCEPT !.str = X.nc, !.nc = @ + 1, !.e = Connect(Reset(@, now), now).E]
    ELSE LET X1 == Say(X, Ev("Error"))
             X2 == ResolveAll([X1 EXCEPT !.con = <<>>], X1.con, "err", Ev(""))
         IN IF X2.auto THEN [X2 EXCEPT !.e = Schedule(@, now)] ELSE X2

Handle(X, v, now) ==
  CASE v.k = "Connected" -> Say(ResolveAll([X EXCEPT !.con = <<>>], X.con, "ok", v), v)
    [] v.k = "Disconnected" -> WLost(Say(X, v), now)
    [] v.k = "Published" ->
         Say(IF v.id \in DOMAIN X.pub THEN Resolve([X EXCEPT !.pub = Without(@, v.id)], X.pub[v.id], "ok", v) ELSE X, v)
    [] v.k = "Subscribed" ->
         Say(IF v.id \in DOMAIN X.sub THEN Resolve([X EXCEPT !.sub = Without(@, v.id)], X.sub[v.id], "ok", v) ELSE X, v)
    [] v.k = "Unsubscribed" ->
         Say(IF v.id \in DOMAIN X.uns THEN Resolve([X EXCEPT !.uns = Without(@, v.id)], X.uns[v.id], "ok", v) ELSE X, v)
    [] v.k = "PingResponse" ->
         Say(IF X.png >= 0 THEN Resolve([X EXCEPT !.png = -1], X.png, "ok", v) ELSE X, v)
    [] v.k \in {"MessageReceived", "Error"} -> Say(X, v)
    [] v.k = "ReconnectNeeded" -> IF X.str >= 0 THEN WLost(X, now) ELSE WConnect(X, now)
    [] v.k = "ReconnectScheduled" -> Say(X, [Ev("Attempt") EXCEPT !.x = v.x])
    [] OTHER -> X

RECURSIVE Dispatch(_, _, _)
Dispatch(X, evs, now) == IF evs = <<>> THEN X ELSE Dispatch(Handle(X, Head(evs), now), Tail(evs), now)

Failed(k, id, q, l) == [Ev(k) EXCEPT !.id = id, !.rc = IF k = "Published" THEN 128 ELSE 0, !.q = q, !.l = l]
Already == [Ev("Connected") EXCEPT !.x = 0]

\* c: [op, n, id, a]; n numbers the operation, id is the identifier its packet will carry
Command(X, c, now) ==
  LET a == c.a
      r == Step(X.e, [op |-> IF c.op \in {"pub", "pubsync"} THEN "pub" ELSE IF c.op \in {"sub", "subsync"} THEN "sub" ELSE "unsub",
                      now |-> now, a |-> a], c.id)
      ok == r.ret = "ok"
  IN
  CASE c.op = "conn" -> WConnect(Abandon(X, now), now)
    [] c.op = "connsync" ->
         IF X.str >= 0 /\ X.e.conn THEN Resolve(X, c.n, "ok", Already)
         ELSE WConnect([Abandon(X, now) EXCEPT !.con = Append(@, c.n)], now)
    [] c.op \in {"pub", "sub", "unsub"} -> IF ok THEN [X EXCEPT !.e = r.E] ELSE Say(X, Ev("Error"))
    [] c.op = "pubsync" /\ a.q = 0 ->       \* answered before the worker sees it
         IF ok THEN [X EXCEPT !.e = r.E] ELSE Say(X, Ev("Error"))
    [] c.op = "pubsync" ->
         IF ok THEN LET X1 == Put(X, X.pub, c.id, c.n) IN [X1 EXCEPT !.e = r.E, !.pub = With(@, c.id, c.n)]
         ELSE Say(Resolve(X, c.n, "ok", Failed("Published", -1, a.q, <<>>)), Ev("Error"))
    [] c.op = "subsync" ->
         IF ok THEN LET X1 == Put(X, X.sub, c.id, c.n) IN [X1 EXCEPT !.e = r.E, !.sub = With(@, c.id, c.n)]
         ELSE Say(Resolve(X, c.n, "ok", Failed("Subscribed", 0, 0, <<128>>)), Ev("Error"))
    [] c.op = "unsubsync" ->
         IF ok THEN LET X1 == Put(X, X.uns, c.id, c.n) IN [X1 EXCEPT !.e = r.E, !.uns = With(@, c.id, c.n)]
         ELSE Say(Resolve(X, c.n, "ok", Failed("Unsubscribed", 0, 0, <<128>>)), Ev("Error"))
    [] c.op = "ping" -> [X EXCEPT !.e = Ping(@, now, FALSE).E]
    [] c.op = "pingsync" ->
         LET X1 == IF X.png >= 0 THEN Resolve(X, X.png, "err", Ev("")) ELSE X
         IN [X1 EXCEPT !.png = c.n, !.e = Ping(@, now, FALSE).E]
    [] c.op = "auth" -> [X EXCEPT !.e = Auth(@, a, now).E]
    [] c.op = "setauto" -> [X EXCEPT !.auto = a.n = 1,
                                     !.e.att = IF a.n = 1 THEN @ ELSE 0, !.e.nrc = IF a.n = 1 THEN @ ELSE -1]
    [] c.op = "disc" ->
         LET X1 == [X EXCEPT !.e = Disconnect(@, now, FALSE).E, !.ud = TRUE]
             X2 == IF X.str >= 0 /\ ~X.e.conn /\ ~X.ud THEN WLost(X1, now) ELSE X1
         IN [X2 EXCEPT !.e.att = 0, !.e.nrc = -1]
    [] c.op = "shut" -> [X EXCEPT !.dead = TRUE, !.str = -1, !.cq = <<>>, !.rd = <<>>, !.eof = 0]

---------------------------------------------------------------------------
Timer(X, now) == LET d == Duty(X.e) IN [X EXCEPT !.tm = IF d < 0 THEN -1 ELSE IF d > now THEN d ELSE now + 10]
\* every turn ends with what the engine wants sent, and a new timer
Flush(X, now) ==
  IF X.dead THEN X
  ELSE LET out == X.e.out
           X1 == [X EXCEPT !.e.out = <<>>, !.e.bur = <<>>]
       IN Timer(IF out = <<>> THEN X1
                ELSE IF X.str >= 0 /\ X.eof # 2
                THEN [X1 EXCEPT !.sent = @ \o [i \in 1..Len(out) |-> [c |-> X.str, p |-> out[i]]],
                                !.mix = @ \/ X.e.bur # <<>>]
                ELSE WLost(Say(X1, Ev("Error")), now), now)

CanCommand(X) == ~X.dead /\ X.cq # <<>>
CanRead(X) == ~X.dead /\ X.str >= 0 /\ (X.rd # <<>> \/ X.eof # 0)
CanTick(X, now) == ~X.dead /\ X.tm >= 0 /\ X.tm <= now

TakeCommand(X, now) == Flush(Command([X EXCEPT !.cq = Tail(@)], Head(X.cq), now), now)
Read(X, now) ==
  Flush(IF X.rd # <<>>
        THEN LET r == Incoming(X.e, Head(X.rd), now) IN Dispatch([X EXCEPT !.rd = Tail(@), !.e = r.E], r.evs, now)
        ELSE WLost(Say(X, Ev("Error")), now), now)
Wake(X, now) == LET r == Tick(X.e, now) IN Flush(Dispatch([X EXCEPT !.e = r.E], r.evs, now), now)

Turns(X, now) ==
  (IF CanCommand(X) THEN {TakeCommand(X, now)} ELSE {})
  \cup (IF CanRead(X) THEN {Read(X, now)} ELSE {})
  \cup (IF CanTick(X, now) THEN {Wake(X, now)} ELSE {})

\* all ways the worker can come to rest
RECURSIVE Rest(_, _)
Rest(S, now) ==
  LET T == {X \in S : Turns(X, now) # {}}
  IN IF T = {} THEN S ELSE Rest((S \ T) \cup UNION {Turns(X, now) : X \in T}, now)

\* events a command left in the engine come out with the next read or tick, or earlier
Early(S, now) == S \cup {Flush(Dispatch([X EXCEPT !.e.ev = <<>>], X.e.ev, now), now) : X \in {Y \in S : ~Y.dead /\ Y.e.ev # <<>>}}
=============================================================================
