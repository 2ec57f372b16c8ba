--------------------------- MODULE BlockingTrace ---------------------------
(* Validates recorded calls of the blocking client against Blocking.tla.     *)
EXTENDS Blocking, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, B
vars == <<s, l, B>>
Ops == Tr[s].ops

\* a call that replaces or ends the connection shows all that was written on it
Closing(c) == c.op = "end" \/ (c.op \in {"connect", "connsend"} /\ Tr[s].cfg.down = 0)
Facets(c, o, r, N) ==
  IF o.ret = "panic" THEN {"panic"}
  ELSE (IF o.ret # r.ret THEN {"ret." \o c.op}
        ELSE IF o.ret = "ok" /\ <<o.id, o.rc, o.x, o.l, o.p, o.good, o.pkt>> # <<r.id, r.rc, r.x, r.l, r.p, r.good, r.pkt>> THEN {"result." \o c.op} ELSE {})
  \cup (IF Numbered(B, c) /\ (o.sid \notin 1..65535 \/ o.sid \in PendIds(B)) THEN {"id"} ELSE {})
  \cup (IF ~Numbered(B, c) /\ o.sid # 0 THEN {"id"} ELSE {})
  \cup (IF c.op # "end" /\ o.un # N.un THEN {"unhandled"} ELSE {})
  \cup (IF c.op # "end" /\ {o.pend[i] : i \in 1..Len(o.pend)} # N.pend THEN {"pending"} ELSE {})
  \cup (IF Closing(c) /\ o.out # B.out THEN {"sent"} ELSE {})

Init == s \in 1..Len(Tr) /\ l = 1 /\ B = NewBlocking(Tr[s].cfg)
Next ==
  /\ l <= Len(Ops)
  /\ LET c == Ops[l]
         n == Step(B, c, c.o.sid)
         fs == Facets(c, c.o, n.r, n.B)
     IN /\ B' = n.B
        /\ IF fs = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> fs, op |-> c.op, expected |-> n.r, observed |-> c.o, un |-> n.B.un, pend |-> n.B.pend, out |-> B.out]))
  /\ l' = l + 1
  /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Tr[i].ops) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Tr))
=============================================================================
