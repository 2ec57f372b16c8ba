------------------------------ MODULE QuicWrap ------------------------------
(***************************************************************************)
(* MQTT over QUIC as offered to other languages: methods (via 6) and C     *)
(* functions (via 7) in front of the engine of Quic.tla.  As in Wrap.tla,  *)
(* events are rendered with fewer fields, events about the wire are left   *)
(* out, and what a call reports is also kept for the next "take events".   *)
(***************************************************************************)
EXTENDS Quic, Wrap

NewQuicWrap(c, now) == [q |-> NewQuic(c, now), kept |-> <<>>, done |-> <<>>, opt |-> <<>>]

Rows(rows) == LET f == SelectSeq(rows, LAMBDA r : Shown(r.v.k)) IN [i \in 1..Len(f) |-> [f[i] EXCEPT !.v = Render(@)]]
Outlines(rows) == [i \in 1..Len(rows) |-> [rows[i] EXCEPT !.v = Outline(@)]]
FRes(F, r) == [F |-> F, r |-> r]

FStep(F, c, id) ==
  LET cfg == F.q.e.cfg
      r0 == QStep(F.q, IF c.op = "takelist" THEN [c EXCEPT !.op = "takeev"] ELSE c, id)
      r == [r0 EXCEPT !.evs = Rows(@), !.ret = IF @ = "full" THEN "err" ELSE @]
  IN IF ~Foreign(cfg) THEN FRes([F EXCEPT !.q = r0.Q], r0)
     ELSE CASE c.op = "null" -> FRes(F, [QOk(F.q) EXCEPT !.id = 0])
            [] c.op \in {"run", "tick"} ->
                 FRes([q |-> r.Q, kept |-> F.kept \o r.evs, done |-> F.done \o (IF r.cut THEN <<>> ELSE r.done),
                       opt |-> F.opt \o r.opt \o (IF r.cut THEN r.done ELSE <<>>)],
                      IF CApi(cfg) THEN [r EXCEPT !.evs = <<>>, !.done = <<>>, !.opt = <<>>] ELSE r)
            [] c.op \in {"takeev", "takelist"} ->
                 LET all == [r EXCEPT !.evs = F.kept \o @, !.done = F.done, !.opt = F.opt]
                     out(q) == [i \in 1..Len(q) |-> Outline(q[i])]
                 IN FRes([q |-> r.Q, kept |-> <<>>, done |-> <<>>, opt |-> <<>>],
                         IF c.op = "takeev" THEN all ELSE [all EXCEPT !.evs = Outlines(@), !.done = out(@), !.opt = out(@)])
            [] OTHER -> FRes([F EXCEPT !.q = r.Q], r)
=============================================================================
