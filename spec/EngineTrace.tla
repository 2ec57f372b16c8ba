---------------------------- MODULE EngineTrace ----------------------------
(* Validates recorded calls of the real engine against Engine.tla.  Each line *)
(* of the trace file is one scenario: [cfg, ops]; every op carries the call   *)
(* and what was observed.  Disagreements are printed with the facet of the    *)
(* behaviour they concern; the model continues with its own state.            *)
EXTENDS Engine, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, E
vars == <<s, l, E>>

Ops == Tr[s].ops

Kinds(a, b) == {a[i].k : i \in 1..Len(a)} \cup {b[i].k : i \in 1..Len(b)}
OfKind(a, k) == SelectSeq(a, LAMBDA x : x.k = k)
SeqDiff(pre, a, b) ==
  IF a = b THEN {}
  ELSE LET ks == {k \in Kinds(a, b) : OfKind(a, k) # OfKind(b, k)}
       IN IF ks = {} THEN {pre \o "order"} ELSE {pre \o k : k \in ks}

\* Packets sent on one timeout may leave in any order.
Count(a, i, j, x) == Cardinality({n \in i..j : a[n] = x})
SameOut(a, r) ==
  \/ a = r.out
  \/ /\ Len(a) = Len(r.out)
     /\ \A i \in 1..Len(a) : a[i] = r.out[i] \/ \E k \in 1..Len(r.bur) : r.bur[k].a <= i /\ i <= r.bur[k].b
     /\ \A k \in 1..Len(r.bur) : \A i \in r.bur[k].a..r.bur[k].b :
          Count(a, r.bur[k].a, r.bur[k].b, r.out[i]) = Count(r.out, r.bur[k].a, r.bur[k].b, r.out[i])
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Count(a, 1, Len(a), b[i]) = Count(b, 1, Len(b), b[i])

InRuns(id, runs) == \E i \in 1..Len(runs) : runs[i][1] <= id /\ id <= runs[i][2]
RunsOk(e, runs) == ~InRuns(0, runs) /\ \A id \in LiveIds(e) : ~InRuns(id, runs)

NtOk(e, nt) == LET d == Duty(e) IN d >= 0 => nt >= 0 /\ nt <= d
PrevNt == IF l = 1 THEN -1 ELSE Ops[l - 1].o.nt

Fresh(e) == CHOOSE i \in 1..65535 : i \notin LiveIds(e)
IdOk(e, o) == o.id \in 1..65535 /\ o.id \notin LiveIds(e)

\* r: model result; e: model state before; o: observation
Facets(c, e, r, o) ==
  IF o.ret = "panic" THEN {"panic"}
  ELSE (IF o.ret # r.ret THEN {"ret." \o c.op} ELSE {})
  \cup (IF Assigns(c) /\ o.ret = "ok" /\ ~IdOk(e, o) THEN {"id"} ELSE {})
  \cup (IF c.op = "burn" /\ ~RunsOk(e, o.runs) THEN {"id"} ELSE {})
  \cup SeqDiff("ev.", o.evs, r.evs)
  \cup (IF SameOut(o.out, r) THEN {} ELSE SeqDiff("out.", o.out, r.out))
  \cup (IF ~SameBag(o.str, r.str) THEN {"str"} ELSE {})
  \cup (IF o.conn # (IF r.E.conn THEN 1 ELSE 0) THEN {"conn"} ELSE {})
  \cup (IF o.nt # -2 /\ ~NtOk(r.E, o.nt) THEN {"nt"} ELSE {})
  \cup (IF /\ c.op = "tick" /\ PrevNt >= 0 /\ c.now >= PrevNt
           /\ o.nt >= 0 /\ o.nt <= c.now
           /\ r.evs = <<>> /\ Len(r.E.out) = Len(e.out) /\ Len(r.E.strtx) = Len(e.strtx)
           /\ ~Full(e)
        THEN {"spin"} ELSE {})

Init == /\ s \in 1..Len(Tr)
        /\ l = 1
        /\ E = NewEngine(Tr[s].cfg, Tr[s].now)

Next ==
  /\ l <= Len(Ops)
  /\ LET c == Ops[l]
         o == c.o
         id == IF ~Assigns(c) THEN 0 ELSE IF IdOk(E, o) THEN o.id ELSE Fresh(E)
         r == Step(E, c, id)
         fs == Facets(c, E, r, o)
     IN /\ E' = r.E
        /\ IF fs = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> fs, op |-> c.op,
                  expected |-> [ret |-> r.ret, evs |-> r.evs, out |-> r.out, str |-> r.str,
                                conn |-> r.E.conn, duty |-> Duty(r.E)],
                  observed |-> o]))
  /\ l' = l + 1
  /\ UNCHANGED s

Spec == Init /\ [][Next]_vars

\* every line of every scenario was consumed
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Tr[i].ops) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Tr))
=============================================================================
