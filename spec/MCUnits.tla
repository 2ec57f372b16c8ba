------------------------------ MODULE MCUnits ------------------------------
(* Explores the client session, the server session and the priority queue and *)
(* checks S01, S02 and Q01 on histories, independently of the states that     *)
(* Units.tla keeps.  With GEN = TRUE prints the calls leading to every        *)
(* transition, for replay on the implementation.                              *)
EXTENDS Units, Json

CONSTANTS MODE,    \* "cs", "ss" or "pq"
          GEN, LEN, IDS, CAP

VARIABLES S, h, log
vars == <<S, h, log>>

NoPk == Pk("", 0)
NoX == [pr |-> 0, x |-> 0]
Call(op) == [op |-> op, f |-> NoPk, n |-> 0, l |-> <<>>, x |-> NoX]
Pub(id, q, m) == [Pk("PUBLISH", IF q = 0 THEN 0 ELSE id) EXCEPT !.q = q, !.m = m]

(* what happened so far, in the words of the properties *)
CsFacts == [open |-> {}, released |-> {}]
SsFacts == [queued |-> <<>>, handed |-> <<>>, wait |-> <<>>, over |-> FALSE]
PqFacts == [map |-> [p \in {} |-> <<>>], got |-> <<>>, want |-> <<>>]

Init == /\ S = CASE MODE = "cs" -> NewCs [] MODE = "ss" -> NewSs(CAP) [] MODE = "pq" -> NewPq(CAP)
        /\ h = CASE MODE = "cs" -> CsFacts [] MODE = "ss" -> SsFacts [] MODE = "pq" -> PqFacts
        /\ log = <<>>

(***************************** client session ******************************)
CsCalls ==
     {[Call("send") EXCEPT !.f = Pub(id, q, id)] : id \in {i \in IDS : i \notin h.released}, q \in 1..2}
\cup {[Call("sendrel") EXCEPT !.f = Pk("PUBREL", id)] : id \in {i \in IDS : \A g \in h.open : g.id # i}}
\cup {[Call(k) EXCEPT !.f = Pk(p, id)] : k \in {"puback"}, p \in {"PUBACK"}, id \in IDS}
\cup {[Call("pubrec") EXCEPT !.f = [Pk("PUBREC", id) EXCEPT !.rc = rc]] : id \in IDS, rc \in {0, 128}}
\cup {[Call("pubcomp") EXCEPT !.f = Pk("PUBCOMP", id)] : id \in IDS}
\cup {Call("clear")}
CsFactsNext(c) ==
  CASE c.op = "send" -> IF \E g \in h.open : g.id = c.f.id THEN h ELSE [h EXCEPT !.open = @ \cup {c.f}]
    [] c.op \in {"puback", "pubrec"} -> [h EXCEPT !.open = {g \in @ : g.id # c.f.id}]
    [] c.op = "sendrel" -> [h EXCEPT !.released = @ \cup {c.f.id}]
    [] c.op = "pubcomp" -> [h EXCEPT !.released = @ \ {c.f.id}]
    [] c.op = "clear" -> CsFacts
    [] OTHER -> h
CsOk == LET R == CsResend(S) IN
  /\ {[f EXCEPT !.d = 0] : f \in {f \in R : f.k = "PUBLISH"}} = h.open
  /\ {f.id : f \in {f \in R : f.k = "PUBREL"}} = h.released
  /\ \A f \in R : f.k = "PUBLISH" => f.d = 1 /\ f.id \notin h.released

(***************************** server session ******************************)
\* h.wait: handed-out messages that are not finished: [id, q, st]
Filters == {"a", "b"}
SsCalls ==
     {[Call("publish") EXCEPT !.f = Pub(Len(h.queued) + 1, q, Len(h.queued) + 1)] : q \in IF Len(h.queued) < LEN - 3 THEN 0..2 ELSE {}}
\cup {[Call(k) EXCEPT !.l = <<x>>] : k \in {"sub", "unsub"}, x \in Filters}
\cup {Call("resend")}
\cup {[Call("puback") EXCEPT !.f = Pk("PUBACK", h.wait[i].id)] : i \in {i \in 1..Len(h.wait) : h.wait[i].q = 1}}
\cup {[Call("pubrec") EXCEPT !.f = [Pk("PUBREC", h.wait[i].id) EXCEPT !.rc = rc]] : rc \in {0, 131}, i \in {i \in 1..Len(h.wait) : h.wait[i].q = 2}}
\cup {[Call("pubcomp") EXCEPT !.f = Pk("PUBCOMP", h.wait[i].id)] : i \in {i \in 1..Len(h.wait) : h.wait[i].q = 3}}
First(w, id, q) == CHOOSE i \in 1..Len(w) : w[i].id = id /\ w[i].q = q /\ \A j \in 1..(i - 1) : ~(w[j].id = id /\ w[j].q = q)
SsFactsNext(c, out) ==
  LET p == SelectSeq(out, LAMBDA f : f.k = "PUBLISH")
      q == SelectSeq(p, LAMBDA f : f.q > 0)
      w == h.wait \o [i \in 1..Len(q) |-> [id |-> q[i].id, q |-> q[i].q]] IN
  CASE c.op = "publish" -> [h EXCEPT !.queued = @ \o Times(Cardinality(S.subs), c.f)]
    [] c.op = "resend" -> [h EXCEPT !.handed = @ \o p, !.wait = w, !.over = @ \/ Len(w) > CAP]
    [] c.op = "puback" -> [h EXCEPT !.wait = Without(@, First(@, c.f.id, 1))]
    [] c.op = "pubrec" /\ Bad(c.f.rc) -> [h EXCEPT !.wait = Without(@, First(@, c.f.id, 2))]
    [] c.op = "pubrec" -> [h EXCEPT !.wait[First(h.wait, c.f.id, 2)].q = 3]
    [] c.op = "pubcomp" -> [h EXCEPT !.wait = Without(@, First(@, c.f.id, 3))]
    [] OTHER -> h
SsOk ==
  /\ ~h.over                                                  \* never more than the window
  /\ h.handed = SubSeq(h.queued, 1, Len(h.handed))            \* in order, each once
  /\ S.used = Len(h.wait)                                     \* each finish frees one slot
  /\ LET n == Hand(S, <<>>).out IN                            \* none waits needlessly
     Len(h.handed) < Len(h.queued) /\ Len(h.wait) < CAP => n # <<>>

(***************************** priority queue ******************************)
\* h.map: the design of the code, a FIFO per priority
PqCalls == {[Call("enq") EXCEPT !.x = [pr |-> p, x |-> Len(log) + 1]] : p \in 0..2}
      \cup {Call(k) : k \in {"deq", "peek", "clear", "swap"}}
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
Min(s) == CHOOSE x \in s : \A y \in s : y >= x
Size(m) == Cardinality(UNION {{<<p, i>> : i \in 1..Len(m[p])} : p \in DOMAIN m})
Drop(m, p) == IF Len(m[p]) = 1 THEN [q \in DOMAIN m \ {p} |-> m[q]] ELSE [m EXCEPT ![p] = Tail(@)]
PqFactsNext(c, out) ==
  LET m == h.map IN
  CASE c.op = "enq" ->
         LET p == c.x.pr
             m1 == IF p \in DOMAIN m THEN [m EXCEPT ![p] = Append(@, c.x.x)]
                   ELSE [q \in DOMAIN m \cup {p} |-> IF q = p THEN <<c.x.x>> ELSE m[q]] IN
         [h EXCEPT !.map = IF Size(m1) > CAP THEN Drop(m1, Min(DOMAIN m1)) ELSE m1]
    [] c.op \in {"deq", "peek"} ->
         IF DOMAIN m = {} THEN [h EXCEPT !.got = out, !.want = <<>>]
         ELSE LET p == Max(DOMAIN m) IN
              [map |-> IF c.op = "deq" THEN Drop(m, p) ELSE m, got |-> out, want |-> <<[pr |-> p, x |-> m[p][1]]>>]
    [] c.op = "clear" -> [h EXCEPT !.map = PqFacts.map]
    [] OTHER -> h
RECURSIVE OfPrio(_, _)
OfPrio(q, p) == IF q = <<>> THEN <<>> ELSE (IF Head(q).pr = p THEN <<Head(q).x>> ELSE <<>>) \o OfPrio(Tail(q), p)
PqOk ==
  /\ Len(S.q) <= CAP
  /\ h.got = h.want
  /\ DOMAIN h.map = {S.q[i].pr : i \in 1..Len(S.q)}
  /\ \A p \in DOMAIN h.map : h.map[p] = OfPrio(S.q, p)

(***************************************************************************)
Calls == CASE MODE = "cs" -> CsCalls [] MODE = "ss" -> SsCalls [] MODE = "pq" -> PqCalls
Step(c) == CASE MODE = "cs" -> CsStep(S, c.op, c.f, c.n)
             [] MODE = "ss" -> SsStep(S, c.op, c.f, {c.l[i] : i \in 1..Len(c.l)})
             [] MODE = "pq" -> PqStep(S, c.op, c.x)
Next == \E c \in Calls :
  /\ Len(log) < LEN
  /\ LET n == Step(c) IN
     /\ S' = n.S
     /\ h' = CASE MODE = "cs" -> CsFactsNext(c) [] MODE = "ss" -> SsFactsNext(c, n.r.out) [] MODE = "pq" -> PqFactsNext(c, n.r.out)
     /\ log' = Append(log, c)
     /\ GEN => PrintT("PATH " \o ToJson(log'))
Spec == Init /\ [][Next]_vars
\* GEN: one path per state; otherwise all of them up to the bound
View == IF MODE = "pq" THEN <<S.q, h.map, IF GEN THEN 0 ELSE Len(log)>> ELSE <<S, h, IF GEN THEN 0 ELSE Len(log)>>
Ok == CASE MODE = "cs" -> CsOk [] MODE = "ss" -> SsOk [] MODE = "pq" -> PqOk
=============================================================================
