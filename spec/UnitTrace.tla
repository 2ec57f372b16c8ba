----------------------------- MODULE UnitTrace -----------------------------
(* Validates recorded calls of the sessions and the priority queue.          *)
EXTENDS Units, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, S
vars == <<s, l, S>>
Ops == Tr[s].ops
Kind == Tr[s].kind

Step(c) ==
  CASE Kind = "cs" -> CsStep(S, c.op, c.f, c.n)
    [] Kind = "ss" -> SsStep(S, c.op, c.f, {c.l[i] : i \in 1..Len(c.l)})
    [] Kind = "pq" -> PqStep(S, c.op, c.x)

Count(a, x) == Cardinality({i \in 1..Len(a) : a[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Count(a, b[i]) = Count(b, b[i])
Publishes(a) == SelectSeq(a, LAMBDA x : x.k = "PUBLISH")

\* The order of resent packets, and of iteration, is not fixed; that of handed-out messages is.
Same(c, o, r) ==
  CASE Kind = "cs" -> SameBag(o.out, r.out)
    [] Kind = "ss" -> SameBag(o.out, r.out) /\ Publishes(o.out) = Publishes(r.out)
    [] Kind = "pq" -> IF c.op = "iter" THEN SameBag(o.out, r.out) ELSE o.out = r.out

\* n: the identifier given, or the length (which is reported after every call on a queue)
Facets(c, o, r, S2) ==
  IF o.ret = "panic" THEN {"panic"}
  ELSE (IF o.ret # r.ret THEN {"ret." \o c.op} ELSE {})
  \cup (IF ~Same(c, o, r) THEN {"out." \o c.op} ELSE {})
  \cup (IF Kind = "pq" THEN IF o.n # Len(S2.q) THEN {"len." \o c.op} ELSE {}
        ELSE IF c.op = "next" /\ (o.n # r.n \/ ~o.all) THEN {"id"} ELSE {})

Init == /\ s \in 1..Len(Tr)
        /\ l = 1
        /\ S = CASE Kind = "cs" -> NewCs [] Kind = "ss" -> NewSs(Tr[s].cap) [] Kind = "pq" -> NewPq(Tr[s].cap)
Next ==
  /\ l <= Len(Ops)
  /\ LET c == Ops[l]
         n == Step(c)
         fs == Facets(c, c.o, n.r, n.S)
     IN /\ S' = n.S
        /\ IF fs = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> fs, op |-> c.op, expected |-> n.r, observed |-> c.o]))
  /\ l' = l + 1
  /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Tr[i].ops) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Tr))
=============================================================================
