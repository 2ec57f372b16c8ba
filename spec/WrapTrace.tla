----------------------------- MODULE WrapTrace -----------------------------
(* Validates calls recorded at the interfaces of Wrap.tla. *)
EXTENDS Wrap, EngineTrace

Eq(r) == [E |-> r.W.e, ret |-> r.ret, evs |-> r.evs, out |-> r.out, str |-> r.str, bur |-> r.bur]
WFacets(c, W, r, o) ==
  Facets(c, W.e, Eq(r), o) \cup (IF r.id >= 0 /\ o.ret = "ok" /\ o.id # r.id THEN {"val." \o c.op} ELSE {})

WInit == /\ s \in 1..Len(Tr)
         /\ l = 1
         /\ E = NewWrap(Tr[s].cfg, Tr[s].now)
WNext ==
  /\ l <= Len(Ops)
  /\ LET c == Ops[l]
         o == c.o
         id == IF ~Assigns(c) THEN 0 ELSE IF IdOk(E.e, o) THEN o.id ELSE Fresh(E.e)
         r == WStep(E, c, id)
         fs == WFacets(c, E, r, o)
     IN /\ E' = r.W
        /\ IF fs = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> fs, op |-> c.op,
                  expected |-> [ret |-> r.ret, evs |-> r.evs, out |-> r.out, id |-> r.id, conn |-> r.W.e.conn, duty |-> Duty(r.W.e)],
                  observed |-> o]))
  /\ l' = l + 1
  /\ UNCHANGED s
WSpec == WInit /\ [][WNext]_vars
=============================================================================
