-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* The interfaces in front of the engine: the methods offered to other     *)
(* languages (via 1), the C functions (via 2), MQTT over TLS (via 3), its   *)
(* methods (via 4) and C functions (via 5).  Each is the engine of          *)
(* Engine.tla plus                                                         *)
(*   kept   events reported by a call and kept for the next "take events"  *)
(*   rx     packets that arrived over TLS since the last tick, fed: bytes did,*)
(*          or packets were left behind because of the event limit          *)
(*   tx     packets handed to TLS and not yet seen by the server           *)
(*   up     the TLS handshake is complete                                  *)
(* The foreign-language interface renders an event with fewer fields, and  *)
(* leaves out events about the wire.                                       *)
(***************************************************************************)
EXTENDS Engine

Foreign(c) == c.via \in {1, 2, 4, 5, 6, 7}
CApi(c) == c.via \in {2, 5, 7}
Tls(c) == c.via \in 3..5
\* The server's certificate is accepted, and so is the client's.
Trusted(c) == c.vfy \notin {2, 4}

NewWrap(c, now) ==
  [e |-> NewEngine(c, now), kept |-> <<>>, rx |-> <<>>, fed |-> FALSE, tx |-> <<>>, txb |-> <<>>, up |-> FALSE]

Shown(k) == k \notin {"PublishReceived", "PubRelReceived", "TransportClosed", "ZeroRttAttempted", "ZeroRttAccepted", "ZeroRttRejected", "ZeroRttUnavailable"}
Render(v) ==
  CASE v.k = "Connected" -> [v EXCEPT !.q = 0, !.p = 0]
    [] v.k = "MessageReceived" -> [v EXCEPT !.id = 0, !.d = 0, !.p = 0]
    [] OTHER -> [v EXCEPT !.p = 0]
\* what the functions on a list of events tell
Outline(v) ==
  CASE v.k = "Connected" -> [Ev(v.k) EXCEPT !.rc = v.rc]
    [] v.k = "MessageReceived" -> [Ev(v.k) EXCEPT !.m = v.m]
    [] v.k \in {"Published", "Subscribed"} -> [Ev(v.k) EXCEPT !.id = v.id]
    [] v.k \in {"StreamClosed", "StreamReset", "StreamStopped"} -> [Ev(v.k) EXCEPT !.x = v.x, !.m = v.m]
    [] OTHER -> Ev(v.k)
Foreignly(evs) == LET s == SelectSeq(evs, LAMBDA v : Shown(v.k)) IN [i \in 1..Len(s) |-> Render(s[i])]
Outlined(evs) == [i \in 1..Len(evs) |-> Outline(evs[i])]
Via(c, evs) == IF Foreign(c) THEN Foreignly(evs) ELSE evs

WRes(W, ret, evs, out) == [W |-> W, ret |-> ret, evs |-> evs, out |-> out, str |-> <<>>, bur |-> <<>>, id |-> -1]
\* a call that reports events: the foreign-language interface also keeps them
Report(W, c, evs) ==
  LET v == Via(c, evs)
  IN WRes(IF Foreign(c) THEN [W EXCEPT !.kept = @ \o v] ELSE W, "ok", IF CApi(c) THEN <<>> ELSE v, <<>>)

Call(op, now) == [op |-> op, now |-> now, a |-> [fs |-> <<>>]]
Shift(bur, n) == [i \in 1..Len(bur) |-> [a |-> bur[i].a + n, b |-> bur[i].b + n]]

\* One tick over TLS: what arrived goes in, what there is to send goes out, then timers.
TlsTick(W, now) ==
  LET r1 == Step(W.e, [Call("in", now) EXCEPT !.a.fs = W.rx], 0)
      E1 == IF W.fed THEN r1.E ELSE W.e
      r2 == Step(E1, Call("take", now), 0)
      r3 == Step(r2.E, Call("tick", now), 0)
      p == Process([W.e EXCEPT !.inb = @ \o W.rx], now).ev
      left == W.fed /\ Len(p) >= W.e.cfg.maxev /\ p[Len(p)].k # "Error"
  IN Report([W EXCEPT !.e = r3.E, !.rx = <<>>, !.fed = left, !.tx = @ \o r2.out, !.txb = @ \o Shift(r2.bur, Len(W.tx))],
            W.e.cfg, (IF W.fed THEN r1.evs ELSE <<>>) \o r3.evs)
TlsOut(W) == [WRes([W EXCEPT !.tx = <<>>, !.txb = <<>>], "ok", <<>>, W.tx) EXCEPT !.bur = W.txb]

Kept(W, now) ==
  LET r == Step(W.e, Call("takeev", now), 0)
  IN WRes([W EXCEPT !.e = r.E, !.kept = <<>>], "ok", W.kept \o Via(W.e.cfg, r.evs), <<>>)

WStep(W, c, id) ==
  LET cfg == W.e.cfg  now == c.now IN
  CASE c.op = "shake" -> IF Trusted(cfg) THEN [TlsOut([W EXCEPT !.up = TRUE]) EXCEPT !.id = cfg.alpn] ELSE WRes(W, "err", <<>>, <<>>)
    [] c.op = "sock" -> WRes([W EXCEPT !.rx = @ \o c.a.fs, !.fed = @ \/ c.a.m > 0], "ok", <<>>, <<>>)
    [] c.op = "takesock" -> IF W.up THEN TlsOut(W) ELSE WRes(W, "ok", <<>>, <<>>)
    [] c.op = "tick" /\ Tls(cfg) -> TlsTick(W, now)
    [] c.op = "takeev" -> Kept(W, now)
    [] c.op = "takelist" -> LET r == Kept(W, now) IN [r EXCEPT !.evs = Outlined(@)]
    [] c.op = "ver" -> [WRes(W, "ok", <<>>, <<>>) EXCEPT !.id = cfg.ver]
    [] c.op = "null" -> [WRes(W, "ok", <<>>, <<>>) EXCEPT !.id = 0]
    [] OTHER ->
         LET r == Step(W.e, c, id)
             w == Report([W EXCEPT !.e = r.E], cfg, r.evs)
         IN [w EXCEPT !.ret = IF Foreign(cfg) /\ r.ret = "full" THEN "err" ELSE r.ret, !.out = r.out, !.bur = r.bur,
                      !.id = IF c.op = "pub" /\ r.ret = "ok" /\ c.a.q = 0 THEN 0 ELSE -1]
=============================================================================
