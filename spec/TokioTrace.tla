----------------------------- MODULE TokioTrace -----------------------------
(* Validates recorded steps of the real tokio client against Tokio.tla.  A step *)
(* gives the worker its stimuli and lasts until it rests; in which order it     *)
(* serves them is its own choice, so the specification follows all orders and   *)
(* keeps those that explain what was seen.                                      *)
EXTENDS Tokio, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, S, U, ok
vars == <<s, l, S, U, ok>>
Ops == Tr[s].ops

Count(a, x) == Cardinality({n \in 1..Len(a) : a[n] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Count(a, b[i]) = Count(b, b[i])
OfConn(q, c) == SelectSeq(q, LAMBDA x : x.c = c)
SentOk(o, X) ==
  \A c \in {o.sent[i].c : i \in 1..Len(o.sent)} \cup {X.sent[i].c : i \in 1..Len(X.sent)} :
    \/ OfConn(o.sent, c) = OfConn(X.sent, c)
    \/ X.mix /\ SameBag(OfConn(o.sent, c), OfConn(X.sent, c))

Awaits(c) == c.to # -2
\* operations awaited in this step: not yet finished, with their time-outs
Awaited(u, c, now) ==
  {x \in u : \A i \in 1..Len(c.cancel) : x.n # c.cancel[i]}
    \cup {[n |-> c.cmds[i].n, dl |-> IF c.cmds[i].to < 0 THEN -1 ELSE now + c.cmds[i].to,
           q0 |-> c.cmds[i].op = "pubsync" /\ c.cmds[i].a.q = 0] : i \in {j \in 1..Len(c.cmds) : Awaits(c.cmds[j])}}
Sent0 == [Ev("Published") EXCEPT !.id = -1]
\* the results an awaited operation may have got by now
Results(x, X, now) ==
  IF x.q0 THEN {[n |-> x.n, ret |-> "ok", v |-> Sent0]}
  ELSE LET R == {r \in X.done : r.n = x.n}
           T == IF x.dl >= 0 /\ x.dl <= now THEN {[n |-> x.n, ret |-> "timeout", v |-> Ev("")]} ELSE {}
       IN R \cup T
DoneDiff(o, X, u, now) ==
  UNION {LET got == SelectSeq(o.done, LAMBDA d : d.n = x.n)
             may == Results(x, X, now)
         IN IF Len(got) > 1 THEN {"done.twice"}
            ELSE IF got = <<>> THEN (IF may = {} THEN {} ELSE {"done.missing"})
            ELSE IF got[1] \in may THEN {} ELSE {"done." \o got[1].ret} : x \in u}
  \cup (IF \E i \in 1..Len(o.done) : \A x \in u : x.n # o.done[i].n THEN {"done.unasked"} ELSE {})

Kinds(a, b) == {a[i].k : i \in 1..Len(a)} \cup {b[i].k : i \in 1..Len(b)}
OfKind(a, k) == SelectSeq(a, LAMBDA x : x.k = k)
LogDiff(a, b) ==
  IF a = b THEN {}
  ELSE LET ks == {k \in Kinds(a, b) : OfKind(a, k) # OfKind(b, k)}
       IN IF ks = {} THEN {"log.order"} ELSE {"log." \o k : k \in ks}

Facets(o, X, u, now) ==
  DoneDiff(o, X, u, now) \cup LogDiff(o.log, X.log)
  \cup (IF SentOk(o, X) THEN {} ELSE {"sent"})
  \cup (IF o.open = X.str /\ o.nc = X.nc THEN {} ELSE {"conn"})

Clear(X) == [X EXCEPT !.log = <<>>, !.done = {}, !.sent = <<>>, !.mix = FALSE]
Given(X, c) == [X EXCEPT !.acc = c.acc = 1, !.cq = c.cmds,
                         !.rd = IF X.str >= 0 THEN c.rd ELSE <<>>, !.eof = IF X.str >= 0 THEN c.eof ELSE 0]

\* how much one read takes in is the client's choice
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))
RECURSIVE Grouped(_, _)
Grouped(q, k) == IF Len(q) <= k THEN <<Join(q)>> ELSE <<Join(SubSeq(q, 1, k))>> \o Grouped(SubSeq(q, k + 1, Len(q)), k)
Reads(X) == {X} \cup (IF Len(X.rd) < 2 THEN {} ELSE {[X EXCEPT !.rd = Grouped(@, k)] : k \in {2, 4, 16}})
Init == /\ s \in 1..Len(Tr)
        /\ l = 1
        /\ S = {NewTokio(Tr[s].cfg, Tr[s].auto = 1, Tr[s].now)}
        /\ U = {}
        /\ ok = TRUE
Next ==
  /\ l <= Len(Ops)
  /\ LET c == Ops[l].s
         o == Ops[l].o
         now == Ops[l].now
         u == Awaited(U, c, now)
         R == Early(Rest(UNION {Reads(Given(X, c)) : X \in S}, now), now)
         G == {X \in R : Facets(o, X, u, now) = {}}
         finished == {o.done[i].n : i \in 1..Len(o.done)}
     IN IF ~ok THEN UNCHANGED <<S, U, ok>>
        ELSE /\ S' = {Clear(X) : X \in G}
             /\ U' = {x \in u : x.n \notin finished}
             /\ ok' = (G # {})
             /\ IF G # {} THEN TRUE
                ELSE LET B == CHOOSE X \in R : \A Y \in R : Cardinality(Facets(o, X, u, now)) <= Cardinality(Facets(o, Y, u, now))
                     IN PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> Facets(o, B, u, now), op |-> "step", ways |-> Cardinality(R),
                          expected |-> [log |-> B.log, done |-> B.done, sent |-> B.sent, open |-> B.str, nc |-> B.nc],
                          observed |-> o]))
  /\ l' = l + 1
  /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Tr[i].ops) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Tr))
=============================================================================
