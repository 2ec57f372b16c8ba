------------------------------- MODULE Units -------------------------------
(* The client session, the server session and the priority queue: each is a   *)
(* state and a step [S |-> next state, r |-> observable result].              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pk(k, id) == [k |-> k, id |-> id, q |-> 0, d |-> 0, m |-> 0, r |-> 0, p |-> 0, rc |-> 0, l |-> <<>>]
Nothing == [ret |-> "ok", out |-> <<>>, n |-> 0]
Out(ps) == [Nothing EXCEPT !.out = ps]
Bad(rc) == rc >= 128

RECURSIVE AnyOrder(_)
AnyOrder(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o AnyOrder(s \ {x})
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* How a session answers an incoming PUBLISH.
Answer(f) == CASE f.q = 1 -> <<Pk("PUBACK", f.id)>>
               [] f.q = 2 -> <<Pk("PUBREC", f.id)>>
               [] OTHER   -> <<>>

(***************************** client session ******************************)
\* pub: publishes sent without PUBACK or PUBREC; rel: releases sent without PUBCOMP
NewCs == [pub |-> {}, rel |-> {}, last |-> 0]
After(id) == IF id = 65535 THEN 1 ELSE id + 1

CsResend(S) == {[f EXCEPT !.d = 1] : f \in {f \in S.pub : f.id \notin {g.id : g \in S.rel}}} \cup S.rel

CsStep(S, op, f, n) ==
  LET forget == [S EXCEPT !.pub = {g \in @ : g.id # f.id}] IN
  CASE op = "send"    -> [S |-> IF f.q = 0 \/ \E g \in S.pub : g.id = f.id THEN S ELSE [S EXCEPT !.pub = @ \cup {f}], r |-> Nothing]
    [] op = "sendrel" -> [S |-> [S EXCEPT !.rel = {g \in @ : g.id # f.id} \cup {f}], r |-> Nothing]
    [] op = "publish" -> [S |-> S, r |-> Out(Answer(f))]
    [] op = "pubrel"  -> [S |-> S, r |-> Out(<<Pk("PUBCOMP", f.id)>>)]
    [] op = "puback"  -> [S |-> forget, r |-> Nothing]
    [] op = "pubrec"  -> [S |-> forget, r |-> Out(IF Bad(f.rc) THEN <<>> ELSE <<Pk("PUBREL", f.id)>>)]
    [] op = "pubcomp" -> [S |-> [S EXCEPT !.rel = {g \in @ : g.id # f.id}], r |-> Nothing]
    [] op = "resend"  -> [S |-> S, r |-> Out(AnyOrder(CsResend(S)))]
    [] op = "clear"   -> [S |-> [S EXCEPT !.pub = {}, !.rel = {}], r |-> Nothing]
    [] op = "next"    -> LET last == ((S.last + n - 1) % 65535) + 1 IN [S |-> [S EXCEPT !.last = last], r |-> [Nothing EXCEPT !.n = last]]

(***************************** server session ******************************)
\* subs: filters; pend: queued messages; used: slots of the window; rel: releases without PUBCOMP
NewSs(rm) == [rm |-> rm, subs |-> {}, pend |-> <<>>, used |-> 0, rel |-> {}]
Freed(S) == [S EXCEPT !.used = IF @ > 0 THEN @ - 1 ELSE 0]

\* As many queued messages as the window lets go, in order; QoS 0 takes no slot.
RECURSIVE Hand(_, _)
Hand(S, out) ==
  IF S.pend = <<>> \/ (Head(S.pend).q > 0 /\ S.used >= S.rm) THEN [S |-> S, out |-> out]
  ELSE Hand([S EXCEPT !.pend = Tail(@), !.used = @ + (IF Head(S.pend).q > 0 THEN 1 ELSE 0)], Append(out, Head(S.pend)))

RECURSIVE Times(_, _)
Times(n, x) == IF n = 0 THEN <<>> ELSE <<x>> \o Times(n - 1, x)

SsStep(S, op, f, l) ==
  CASE op = "sub"     -> [S |-> [S EXCEPT !.subs = @ \cup l], r |-> Nothing]
    [] op = "unsub"   -> [S |-> [S EXCEPT !.subs = @ \ l], r |-> Nothing]
    [] op = "publish" -> [S |-> [S EXCEPT !.pend = @ \o Times(Cardinality(S.subs), f)], r |-> Out(Answer(f))]
    [] op = "pubrel"  -> [S |-> S, r |-> Out(<<Pk("PUBCOMP", f.id)>>)]
    [] op = "puback"  -> [S |-> Freed(S), r |-> Nothing]
    [] op = "pubrec"  -> IF Bad(f.rc) THEN [S |-> Freed(S), r |-> Nothing]
                         ELSE [S |-> [S EXCEPT !.rel = @ \cup {Pk("PUBREL", f.id)}], r |-> Out(<<Pk("PUBREL", f.id)>>)]
    [] op = "pubcomp" -> [S |-> [Freed(S) EXCEPT !.rel = @ \ {Pk("PUBREL", f.id)}], r |-> Nothing]
    [] op = "resend"  -> LET h == Hand(S, <<>>) IN [S |-> h.S, r |-> Out(AnyOrder(S.rel) \o h.out)]

(***************************** priority queue ******************************)
\* q: elements [pr, x] in the order they were added
NewPq(cap) == [cap |-> cap, q |-> <<>>]
Highest(q) == CHOOSE i \in 1..Len(q) : /\ \A j \in 1..Len(q) : q[j].pr <= q[i].pr
                                       /\ \A j \in 1..(i - 1) : q[j].pr < q[i].pr
Lowest(q) == CHOOSE i \in 1..Len(q) : /\ \A j \in 1..Len(q) : q[j].pr >= q[i].pr
                                      /\ \A j \in 1..(i - 1) : q[j].pr > q[i].pr
PqResult(q) == [ret |-> "ok", out |-> q, n |-> Len(q)]
Fails(S) == [S |-> S, r |-> [PqResult(<<>>) EXCEPT !.ret = "err"]]

\* Saving keeps the queue, loading what was saved gives the same queue; where either
\* cannot work it says so and the queue in memory stays as it is.
PqStep(S, op, x) ==
  CASE op = "enq"   -> LET q == Append(S.q, x) IN
                       [S |-> [S EXCEPT !.q = IF Len(q) > S.cap THEN Without(q, Lowest(q)) ELSE q], r |-> PqResult(<<>>)]
    [] op = "deq"   -> IF S.q = <<>> THEN [S |-> S, r |-> PqResult(<<>>)]
                       ELSE [S |-> [S EXCEPT !.q = Without(@, Highest(@))], r |-> PqResult(<<S.q[Highest(S.q)]>>)]
    [] op = "peek"  -> [S |-> S, r |-> PqResult(IF S.q = <<>> THEN <<>> ELSE <<S.q[Highest(S.q)]>>)]
    [] op = "len"   -> [S |-> S, r |-> [PqResult(<<>>) EXCEPT !.n = Len(S.q)]]
    [] op = "iter"  -> [S |-> S, r |-> PqResult(S.q)]
    [] op = "clear" -> [S |-> [S EXCEPT !.q = <<>>], r |-> PqResult(<<>>)]
    [] op = "swap"  -> [S |-> S, r |-> PqResult(<<>>)]
    [] op \in {"full", "cut", "nofile"} -> Fails(S)
=============================================================================
