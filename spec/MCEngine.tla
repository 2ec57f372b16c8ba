------------------------------ MODULE MCEngine ------------------------------
(* Explores Engine.tla against an application, a network and a broker, all   *)
(* nondeterministic, and checks the properties on what is *observed* (packets *)
(* on the wire, events, results), recorded in the ghost record g.  The same   *)
(* exploration, with GEN = TRUE, prints the path of every transition; those    *)
(* paths are replayed on the real engine and validated by EngineTrace.tla.    *)
EXTENDS Engine, Json

CONSTANTS
  Cfg,       \* engine configuration
  Menu,      \* names of the enabled actions
  NMsg,      \* publishes the application issues
  Prios, Qoss,
  Ids,       \* identifiers to choose from
  NSrv,      \* incoming messages the broker issues
  SrvIds,
  NLoss,     \* transport losses
  RMs,       \* receive maxima the broker may announce (0: none)
  Steps,     \* time steps the clock may take
  TMax,      \* end of time
  GEN,       \* record and print paths
  MaxLen     \* longest path

VARIABLES E, now, up, ans, sv, g, last, hist, fc
vars == <<E, now, up, ans, sv, g, last, hist, fc>>
View == <<E, now, up, ans, sv, g, last, fc>>

A0 == [m |-> 0, q |-> 0, r |-> 0, p |-> 0, pr |-> 0, bad |-> 0, st |-> -1, rc |-> 0, n |-> 0,
       l |-> <<>>, fs |-> <<>>]

\* g.msg[m]: [id, q, pr, ph, wait]; wait = messages that were queued when m was accepted
G0 == [msg |-> <<>>, wire |-> FALSE, bad |-> {}, losses |-> 0,
       subs |-> {}, nsub |-> 0, inm |-> <<>>, got |-> <<>>, want |-> <<>>]

Init ==
  /\ E = NewEngine(Cfg, 0)
  /\ now = 0 /\ up = FALSE /\ ans = {} /\ sv = [q2 |-> <<>>, n |-> 0, sess |-> FALSE]
  /\ g = G0 /\ last = "init" /\ hist = <<>> /\ fc = 0
  /\ GEN => PrintT("CFG " \o ToJson(Cfg))

---------------------------------------------------------------------------
(* Ghost bookkeeping from observations only *)
Phase(gg, S) == {m \in 1..Len(gg.msg) : gg.msg[m].ph \in S}
ById(gg, id, S) == {m \in Phase(gg, S) : gg.msg[m].id = id}
Flag(gg, b, name) == IF b THEN gg ELSE [gg EXCEPT !.bad = @ \cup {name}]

\* a packet enters the outgoing buffer
OnLeave(gg, p) ==
  CASE p.k = "PUBLISH" ->
         LET g3 == Flag(gg, /\ p.m \in 1..Len(gg.msg) /\ gg.msg[p.m].id = p.id /\ gg.msg[p.m].q = p.q, "identity")
             ph == gg.msg[p.m].ph
             newd == ph = "queued"
             \* a repeated PUBLISH is marked DUP and repeats an unfinished message
             g4 == Flag(g3, IF newd THEN p.d = 0 ELSE p.d = 1, "dup")
             g4b == Flag(g4, ph \in {"queued", "sent"}, "republish")
             \* nothing that had to go first is still waiting
             g5 == Flag(g4b, newd => \A w \in gg.msg[p.m].wait : gg.msg[w].pr >= gg.msg[p.m].pr
                                       => gg.msg[w].ph # "queued", "order")
             g6 == Flag(g5, newd => \A w \in Phase(gg, {"queued"}) :
                              p.m \in gg.msg[w].wait => gg.msg[w].pr <= gg.msg[p.m].pr, "order2")
         IN IF newd THEN [g6 EXCEPT !.msg[p.m].ph = IF p.q = 0 THEN "done" ELSE "sent"] ELSE g6
    [] p.k = "PUBREL" -> Flag(gg, ById(gg, p.id, {"recd"}) # {}, "pubrel")
    [] OTHER -> gg
RECURSIVE Leave(_, _)
Leave(gg, ps) == IF ps = <<>> THEN gg ELSE Leave(OnLeave(gg, Head(ps)), Tail(ps))
Added(op, o0, o1) == IF op = "connect" \/ Len(o1) <= Len(o0) THEN <<>> ELSE SubSeq(o1, Len(o0) + 1, Len(o1))

\* a packet reaches the wire
OnWire(gg, p) == Flag([gg EXCEPT !.wire = TRUE], ~gg.wire <=> p.k = "CONNECT", "connect-first")
RECURSIVE Wire(_, _)
Wire(gg, ps) == IF ps = <<>> THEN gg ELSE Wire(OnWire(gg, Head(ps)), Tail(ps))

OnEvent(gg, e) ==
  CASE e.k = "Published" ->
         LET ms == ById(gg, e.id, {"sent", "recd"})
         IN IF Cardinality(ms) # 1 THEN Flag(gg, FALSE, "completion")
            ELSE LET m == CHOOSE m \in ms : TRUE
                 IN Flag([gg EXCEPT !.msg[m].ph = "done"],
                         /\ e.q = gg.msg[m].q
                         /\ (gg.msg[m].q = 2 /\ e.rc < 128 => gg.msg[m].ph = "recd"), "completion-state")
    [] e.k = "Subscribed" -> [gg EXCEPT !.subs = @ \ {e.id}]
    [] e.k = "MessageReceived" -> [gg EXCEPT !.got = Append(@, e.m)]
    [] OTHER -> gg
RECURSIVE Events(_, _)
Events(gg, es) == IF es = <<>> THEN gg ELSE Events(OnEvent(gg, Head(es)), Tail(es))

\* an incoming packet has just been handled by the client (for the wire-level phase)
\* Packets the model took in this step, in order
Consumed(E0, fs, E1) ==
  LET all == E0.inb \o fs IN SubSeq(all, 1, Len(all) - Len(E1.inb))
Recd(gg, fs) ==
  [gg EXCEPT !.msg = [m \in 1..Len(@) |->
     IF @[m].ph = "sent" /\ @[m].q = 2
        /\ \E i \in 1..Len(fs) : fs[i].k = "PUBREC" /\ fs[i].id = @[m].id /\ fs[i].rc < 128
     THEN [@[m] EXCEPT !.ph = "recd"] ELSE @[m]]]

\* The broker's possible answers to packets it receives
Answers(p) ==
  CASE p.k = "CONNECT" -> {[Pk("CONNACK", 0) EXCEPT !.d = d, !.rc = rc, !.q = q] :
                             d \in (IF sv.sess THEN {0, 1} ELSE {0}),
                             rc \in (IF "refuse" \in Menu THEN {0, 5} ELSE {0}), q \in RMs}
    [] p.k = "PUBLISH" /\ p.q = 1 -> {[Pk("PUBACK", p.id) EXCEPT !.rc = rc] : rc \in (IF "err" \in Menu THEN {0, 128} ELSE {0})}
    [] p.k = "PUBLISH" /\ p.q = 2 -> {[Pk("PUBREC", p.id) EXCEPT !.rc = rc] : rc \in (IF "err" \in Menu THEN {0, 128} ELSE {0})}
    [] p.k = "PUBREL" -> {Pk("PUBCOMP", p.id)}
    [] p.k = "SUBSCRIBE" -> {[Pk("SUBACK", p.id) EXCEPT !.l = <<1>>]}
    [] p.k = "UNSUBSCRIBE" -> {Pk("UNSUBACK", p.id)}
    [] p.k = "PINGREQ" -> {Pk("PINGRESP", 0)}
    [] OTHER -> {}

\* the application's own record of a publish it issues
Accept(gg, op, a, id, ret) ==
  IF op # "pub" THEN gg
  ELSE [gg EXCEPT !.msg = Append(@,
          [id |-> id, q |-> a.q, pr |-> a.pr, ph |-> IF ret = "ok" THEN "queued" ELSE "refused",
           wait |-> Phase(gg, {"queued"})])]
\* overflow drops the oldest of the lowest priority present
Overflow(gg) ==
  LET S == Phase(gg, {"queued"})
  IN IF Cardinality(S) <= Cfg.qcap THEN gg
     ELSE LET m == CHOOSE m \in S : \A n \in S \ {m} : \/ gg.msg[m].pr < gg.msg[n].pr
                                                   \/ (gg.msg[m].pr = gg.msg[n].pr /\ m < n)
          IN [gg EXCEPT !.msg[m].ph = "dropped"]

Do(op, a, id, upd(_, _)) ==
  LET c == [op |-> op, now |-> now, a |-> a]
      r == Step(E, c, id)
      rec == [op |-> op, now |-> now, a |-> a, mid |-> id, ok |-> r.ret]
  IN /\ E' = r.E
     /\ last' = op
     /\ g' = upd(r, Events(Leave(Recd(Overflow(Accept(g, op, a, id, r.ret)), Consumed(E, a.fs, r.E)), Added(op, E.out, r.E.out)), r.evs))
     /\ IF GEN /\ Len(hist) < MaxLen
        THEN hist' = Append(hist, rec) /\ PrintT("PATH " \o ToJson(Append(hist, rec)))
        ELSE hist' = hist

Same(r, gg) == gg
Lowest(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : \A y \in S : x <= y}
\* Assumption: 65535 identifiers are cycled through, so none is reused while the answer to
\* a repeated packet of its previous exchange is still on the way.
Unused == (Ids \ LiveIds(E)) \ ({f.id : f \in ans} \cup {E.out[i].id : i \in 1..Len(E.out)})

UnusedIds == IF GEN THEN Lowest(Unused) ELSE Unused

Pub(q, pr) ==
  /\ Len(g.msg) < NMsg
  /\ \E id \in IF q = 0 THEN {0} ELSE UnusedIds :
       LET a == [A0 EXCEPT !.m = Len(g.msg) + 1, !.q = q, !.pr = pr]
       IN Do("pub", a, id, Same)
  /\ UNCHANGED <<now, up, ans, sv, fc>>
Sub ==
  /\ g.nsub < 1
  /\ \E id \in UnusedIds :
       LET upd(r, gg) == [gg EXCEPT !.nsub = @ + 1, !.subs = IF r.ret = "ok" THEN @ \cup {id} ELSE @] IN
       Do("sub", [A0 EXCEPT !.l = <<1>>], id, upd)
  /\ UNCHANGED <<now, up, ans, sv, fc>>

Connecting ==
  /\ ~up
  /\ up' = TRUE
  /\ LET upd(r, gg) == [gg EXCEPT !.wire = FALSE] IN Do("connect", A0, 0, upd)
  /\ UNCHANGED <<now, ans, sv, fc>>
Take ==
  /\ E.out # <<>>
  /\ LET upd(r, gg) == IF up THEN Wire(gg, r.out) ELSE gg IN Do("take", A0, 0, upd)
  /\ ans' = IF up THEN ans \cup UNION {Answers(E.out[i]) : i \in 1..Len(E.out)} ELSE ans
  /\ sv' = IF up /\ \E i \in 1..Len(E.out) : E.out[i].k \in {"PUBREC", "PUBCOMP"}
           THEN [sv EXCEPT !.q2 = [i \in 1..Len(@) |->
                  IF \E j \in 1..Len(E.out) : E.out[j].k = "PUBREC" /\ E.out[j].id = @[i].id /\ @[i].s = 0
                  THEN [@[i] EXCEPT !.s = 1] ELSE @[i]]]
           ELSE sv
  /\ UNCHANGED <<now, up, fc>>
\* A connection is answered by a single CONNACK; acknowledgements with different
\* codes are alternatives.
Alternatives(f) == {x \in ans : x.k = f.k /\ x.id = f.id}
Deliver ==
  /\ up
  /\ \E f \in ans :
       /\ f.k # "CONNACK" => \A x \in ans : x.k # "CONNACK"
       /\ (LET upd(r, gg) ==
                IF f.k = "CONNACK" THEN Flag(gg, 
                    \* a resumed session resends exactly what is unfinished, a new one nothing
                    LET added == Added("in", E.out, r.E.out)
                        old == SelectSeq(added, LAMBDA p : p.k \in {"PUBREL", "SUBSCRIBE"} \/ p.d = 1)
                        ids(S, k) == {<<k, g.msg[m].id>> : m \in Phase(g, S)}
                        want == IF f.d = 1 /\ f.rc = 0
                                THEN {w \in ids({"sent"}, "PUBLISH") \cup ids({"recd"}, "PUBREL") : w[2] # 0}
                                      \cup {<<"SUBSCRIBE", i>> : i \in g.subs}
                                ELSE {}
                    IN \/ NSrv > 0
                       \/ \E i \in 1..Len(r.E.inb) : r.E.inb[i] = f
                       \/ E.inb # <<>>
                       \/ /\ {<<old[i].k, old[i].id>> : i \in 1..Len(old)} = want
                          /\ Len(old) = Cardinality(want)
                          /\ \A i \in 1..Len(old) : added[i] = old[i], "resume")
                ELSE gg
           IN Do("in", [A0 EXCEPT !.fs = <<f>>], 0, upd))
       /\ ans' = ans \ Alternatives(f)
       /\ sv' = IF f.k = "CONNACK" /\ f.rc = 0
                THEN [sv EXCEPT !.sess = TRUE,
                         !.q2 = IF f.d = 0 THEN <<>> ELSE [i \in 1..Len(@) |-> IF @[i].s = 2 THEN [@[i] EXCEPT !.s = 1] ELSE @[i]]]
                ELSE sv
  /\ UNCHANGED <<now, up, fc>>
\* an acknowledgement nobody waits for
Stray ==
  /\ up /\ fc < 1
  /\ \E k \in {"PUBACK", "PUBREC", "PUBCOMP"} : \E id \in Ids \ LiveIds(E) :
       Do("in", [A0 EXCEPT !.fs = <<Pk(k, id)>>], 0, Same)
  /\ fc' = fc + 1
  /\ UNCHANGED <<now, up, ans, sv>>
SrvPublish ==
  /\ up /\ E.conn /\ sv.n < NSrv
  /\ \E q \in Qoss, id \in SrvIds :
       /\ \A i \in 1..Len(sv.q2) : sv.q2[i].id # id
       /\ (LET f == [Pk("PUBLISH", IF q = 0 THEN 0 ELSE id) EXCEPT !.q = q, !.m = sv.n + 1]
               upd(r, gg) == [gg EXCEPT !.want = Append(@, sv.n + 1)]
           IN Do("in", [A0 EXCEPT !.fs = <<f>>], 0, upd))
       /\ sv' = [sv EXCEPT !.n = @ + 1, !.q2 = IF q = 2 THEN Append(@, [id |-> id, m |-> sv.n + 1, s |-> 0]) ELSE @]
  /\ UNCHANGED <<now, up, ans, fc>>
SrvAgain ==
  /\ up /\ E.conn /\ fc < 2
  /\ \E i \in 1..Len(sv.q2) :
       /\ sv.q2[i].s < 2
       /\ Do("in", [A0 EXCEPT !.fs = <<[Pk("PUBLISH", sv.q2[i].id) EXCEPT !.q = 2, !.m = sv.q2[i].m, !.d = 1]>>], 0, Same)
  /\ fc' = fc + 1
  /\ UNCHANGED <<now, up, ans, sv>>
SrvRel ==
  /\ up /\ E.conn
  /\ \E i \in 1..Len(sv.q2) :
       /\ sv.q2[i].s >= 1
       /\ Do("in", [A0 EXCEPT !.fs = <<Pk("PUBREL", sv.q2[i].id)>>], 0, Same)
       /\ sv' = [sv EXCEPT !.q2 = RemoveAt(@, i)]
  /\ UNCHANGED <<now, up, ans, fc>>
TakeEv ==
  /\ E.ev # <<>> \/ E.inb # <<>>
  /\ Do("in", A0, 0, Same)
  /\ UNCHANGED <<now, up, ans, sv, fc>>
Lose(op) ==
  /\ up /\ g.losses < NLoss
  /\ up' = FALSE /\ ans' = {}
  /\ LET upd(r, gg) == [gg EXCEPT !.losses = @ + 1] IN Do(op, A0, 0, upd)
  /\ UNCHANGED <<now, sv, fc>>

\* Time: the driver ticks at arbitrary moments; the ghost remembers the announced duty.
Tick_ ==
  /\ \E d \in Steps : now + d <= TMax /\ now' = now + d
  /\ LET c == [op |-> "tick", now |-> now', a |-> A0]
         r == Step(E, c, 0)
         rec == [op |-> "tick", now |-> now', a |-> A0, mid |-> 0, ok |-> r.ret]
         names == {r.evs[i].k : i \in 1..Len(r.evs)}
         d == Duty(E)
         did == r.evs # <<>> \/ Len(r.E.out) > Len(E.out) \/ Len(r.E.strtx) > Len(E.strtx)
         g1 == Flag(Events(g, r.evs), did /\ E.ev = <<>> => d >= 0 /\ d <= now', "early")
         \* a tick at a due time performs the duty or moves it forward
         g2 == Flag(g1, Duty(r.E) < 0 \/ Duty(r.E) > now' \/ Full(E), "overdue")
         g3 == Flag(g2, "ReconnectNeeded" \in names =>
                     \/ E.nrc >= 0 /\ now' >= E.nrc
                     \/ E.ping >= 0 /\ now' - E.ping >= Cfg.ka * 1000 * Cfg.mult
                     \/ E.ev # <<>>, "gave-up-early")
         newp == SelectSeq(SubSeq(r.E.out, Len(E.out) + 1, Len(r.E.out)), LAMBDA p : p.k = "PINGREQ")
         g4 == Flag(g3, newp # <<>> => E.ping < 0 /\ Cfg.ka > 0 /\ Cfg.auto = 1, "ping")
         g5 == Flag(g4, V5(E) /\ r.E.conn => \A i \in Len(E.out) + 1..Len(r.E.out) : r.E.out[i].k = "PINGREQ", "v5-rexmit")
     IN /\ E' = r.E /\ g' = g5 /\ last' = "tick"
        /\ up' = (up /\ ~(E.conn /\ ~r.E.conn))
        /\ ans' = IF E.conn /\ ~r.E.conn THEN {} ELSE ans
        /\ IF GEN /\ Len(hist) < MaxLen
           THEN hist' = Append(hist, rec) /\ PrintT("PATH " \o ToJson(Append(hist, rec)))
           ELSE hist' = hist
  /\ UNCHANGED <<sv, fc>>
Sched ==
  /\ ~E.conn /\ E.att < 3
  /\ Do("sched", A0, 0, Same)
  /\ UNCHANGED <<now, up, ans, sv, fc>>

Next ==
  \/ "pub" \in Menu /\ \E q \in Qoss, pr \in Prios : Pub(q, pr)
  \/ "sub" \in Menu /\ Sub
  \/ Connecting
  \/ Take
  \/ Deliver
  \/ "stray" \in Menu /\ Stray
  \/ "srv" \in Menu /\ (SrvPublish \/ SrvAgain \/ SrvRel)
  \/ TakeEv
  \/ "lost" \in Menu /\ Lose("lost")
  \/ "reset" \in Menu /\ Lose("reset")
  \/ "tick" \in Menu /\ Tick_
  \/ "sched" \in Menu /\ Sched

Spec == Init /\ [][Next]_vars

Bound == ~GEN \/ Len(hist) <= MaxLen

---------------------------------------------------------------------------
(* Properties *)
Unfinished == Phase(g, {"queued", "sent", "recd"})
NoBad == g.bad = {}
\* E01
IdsDistinct == \A m, n \in Unfinished :
                 m # n /\ g.msg[m].q > 0 /\ g.msg[n].q > 0 => g.msg[m].id # g.msg[n].id
IdsOk == \A m \in 1..Len(g.msg) : g.msg[m].q > 0 => g.msg[m].id # 0
\* E02: engine and observer agree on what is unfinished, so nothing is forgotten
NothingForgotten ==
  \A m \in Unfinished : g.msg[m].q > 0 => g.msg[m].id \in LiveIds(E) \/ E.ev # <<>>
\* E04
Window == Cardinality(RMs) = 1 =>
            Cardinality({m \in Phase(g, {"sent", "recd"}) : g.msg[m].q > 0}) <= E.rm
NoNeedlessWait ==
  last \in {"pub", "in"} /\ E.conn /\ ~Full(E) /\ Slots(E) < E.rm => E.pq = <<>>
\* E03: in order, each at most once; all of them when nothing is pending
InOrder == \A i \in 1..Len(g.got) : \A j \in 1..i - 1 : g.got[j] < g.got[i]
AllIn == E.inb = <<>> /\ E.ev = <<>> /\ g.losses = 0 => g.got = g.want
\* E11
OutBound == NSrv = 0 /\ g.losses = 0 /\ Cfg.maxout >= 2 /\ "tick" \notin Menu => Len(E.out) <= Cfg.maxout + 4
\* E08
BackoffOk == E.nrc >= 0 => E.nrc <= now + Cfg.maxd

\* Liveness: with a well-behaved broker and no more losses everything completes.
AllDone == <>[](\A m \in 1..Len(g.msg) : g.msg[m].ph \in {"done", "refused"})
FairSpec == Spec /\ WF_vars(Take) /\ WF_vars(Deliver) /\ WF_vars(Connecting) /\ WF_vars(TakeEv)
                 /\ WF_vars(\E q \in Qoss, pr \in Prios : Pub(q, pr))

---------------------------------------------------------------------------
C0 == [ver |-> 5, ka |-> 0, auto |-> 1, mult |-> 2, rto |-> 1000, maxout |-> 1000, maxev |-> 1000,
       rm |-> 0, aa |-> 1, base |-> 500, maxd |-> 1500, maxatt |-> 0, qcap |-> 1000, cl |-> <<>>, cm |-> 1, pbuf |-> 16384]
CfgWindow == [C0 EXCEPT !.rm = 1]
CfgWindow2 == [C0 EXCEPT !.rm = 2, !.ver = 5]
CfgSmall == [C0 EXCEPT !.maxout = 2, !.maxev = 1, !.rm = 2]
CfgV3 == [C0 EXCEPT !.ver = 4, !.rto = 1000, !.ka = 2]
CfgTime == [C0 EXCEPT !.ka = 1, !.maxatt = 2]
CfgIn == [C0 EXCEPT !.maxev = 2]
CfgRm1 == [C0 EXCEPT !.rm = 1]
CfgQueueRm == [C0 EXCEPT !.qcap = 2, !.rm = 1]
=============================================================================
