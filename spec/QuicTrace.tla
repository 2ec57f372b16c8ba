----------------------------- MODULE QuicTrace -----------------------------
(* Validates recorded histories of the QUIC engine against a real QUIC server. *)
EXTENDS QuicWrap, EngineTrace

Bag(a, b) == SameBag(a, b)
Acks == {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* a is b without some trailing acknowledgements
Shortened(a, b) == IsPrefix(a, b) /\ \A i \in Len(a) + 1..Len(b) : b[i].k \in Acks

RowOf(L, st) == LET S == {i \in 1..Len(L) : L[i].st = st}
                IN IF S = {} THEN [st |-> st, b |-> <<>>, t |-> <<>>, fin |-> 0, rst |-> -1, stop |-> -1]
                   ELSE L[CHOOSE i \in S : TRUE]
StreamsOf(a, b) == {a[i].st : i \in 1..Len(a)} \cup {b[i].st : i \in 1..Len(b)}
SeenDiff(o, r) ==
  UNION {LET x == RowOf(o.q.seen, st)  y == RowOf(r.seen, st)
             same == \/ x.b = y.b
                     \/ IsPrefix(y.b, x.b) /\ IsPrefix(x.b, y.b \o y.t)
                     \/ r.loose /\ Bag(x.b, y.b)
                     \/ (r.cut \/ y.rst >= 0) /\ Shortened(x.b, y.b)
                     \/ y.rst >= 0 /\ IsPrefix(x.b, y.b)
         IN (IF same THEN {} ELSE {"seen"})
            \cup (IF x.fin = y.fin THEN {} ELSE {"seen.fin"})
            \cup (IF x.rst = y.rst THEN {} ELSE {"seen.rst"})
            \cup (IF x.stop = y.stop THEN {} ELSE {"seen.stop"})
         : st \in StreamsOf(o.q.seen, r.seen)}

NotErr(q) == SelectSeq(q, LAMBDA v : v.k # "Error")
Values(q) == [i \in 1..Len(q) |-> q[i].v]
Closed(v) == v.k = "StreamClosed" /\ v.m = 0
RECURSIVE Subseq(_, _)
Subseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) = Head(b) THEN Subseq(Tail(a), Tail(b)) ELSE Subseq(a, Tail(b))
Num(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})

EvDiff(o, r, e) ==
  LET exp == Values(r.evs)
      a == SelectSeq(NotErr(o.evs), LAMBDA v : ~Closed(v))
      b == SelectSeq(NotErr(exp), LAMBDA v : ~Closed(v))
      ca == SelectSeq(o.evs, Closed)
      xs == {r.evs[i].x : i \in 1..Len(r.evs)}
      na == Len(OfKind(o.evs, "Error"))  nb == Len(OfKind(exp, "Error"))
      ks == {k \in Kinds(a, b) : ~Bag(OfKind(a, k), OfKind(b, k))}
  IN {"ev." \o k : k \in ks}
     \cup (IF ks = {} /\ \E x \in xs : ~Subseq(NotErr(Values(SelectSeq(r.evs, LAMBDA t : t.x = x))), a) THEN {"ev.order"} ELSE {})
     \cup (IF \/ nb > 0 /\ na = 0
              \/ na > nb /\ r.Q.e.inb = <<>> /\ e.e.inb = <<>> THEN {"ev.Error"} ELSE {})
     \cup (IF \/ \E i \in 1..Len(ca) : Num(ca, ca[i]) > 1 \/ (Num(r.done, ca[i]) = 0 /\ Num(r.opt, ca[i]) = 0)
              \/ ~r.cut /\ \E i \in 1..Len(r.done) : Num(ca, r.done[i]) = 0 THEN {"ev.sendclosed"} ELSE {})

\* what the engine tells about its streams and early data
Insight(o, r) ==
  (IF o.q.n = Cardinality(DOMAIN r.Q.s) THEN {} ELSE {"n"})
  \cup (IF o.q.ctl = r.Q.ctl THEN {} ELSE {"ctl"})
  \cup (IF o.q.z = r.Q.z THEN {} ELSE {"z"})

QFacets(c, Q, r, o) ==
  IF o.ret \in {"panic", "noend"} THEN {o.ret}
  ELSE (IF o.ret # r.ret THEN {"ret." \o c.op} ELSE {})
  \cup (IF QAssigns(c) /\ o.ret = "ok" /\ ~IdOk(Q.e, o) THEN {"id"} ELSE {})
  \cup (IF c.op \in {"pub", "pubon"} /\ c.a.q = 0 /\ o.ret = "ok" /\ o.id # 0 THEN {"id"} ELSE {})
  \cup (IF c.op = "null" /\ o.id # 0 THEN {"null"} ELSE {})
  \cup (IF c.op = "open" /\ o.ret = "ok" /\ o.id # r.id THEN {"sid"} ELSE {})
  \cup EvDiff(o, r, Q)
  \cup SeenDiff(o, r)
  \cup (IF o.q.close = (IF r.close >= 0 THEN <<r.close, 1>> ELSE IF r.close = -2 THEN <<-2, 0>> ELSE <<>>) THEN {} ELSE {"close"})
  \cup (IF o.q.nc = r.nc THEN {} ELSE {"nc"})
  \cup (IF o.conn = (IF r.Q.e.conn THEN 1 ELSE 0) THEN {} ELSE {"conn"})
  \cup (IF o.q.alpn = r.alpn THEN {} ELSE {"alpn"})
  \cup (IF Foreign(Q.e.cfg) THEN {} ELSE Insight(o, r))

QInit == /\ s \in 1..Len(Tr)
         /\ l = 1
         /\ E = NewQuicWrap(Tr[s].cfg, Tr[s].now)
QNext ==
  /\ l <= Len(Ops)
  /\ LET c == Ops[l]
         o == c.o
         id == IF c.op = "sopen" THEN o.id
               ELSE IF ~QAssigns(c) THEN 0 ELSE IF IdOk(E.q.e, o) THEN o.id
               ELSE CHOOSE i \in 1..65535 : i \notin LiveIds(E.q.e)
         f == FStep(E, c, id)
         r == f.r
         fs == QFacets(c, E.q, r, o)
     IN /\ E' = f.F
        /\ IF fs = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> fs, op |-> c.op,
                  expected |-> [ret |-> r.ret, evs |-> r.evs, done |-> r.done, opt |-> r.opt, seen |-> r.seen, close |-> r.close, nc |-> r.nc,
                                id |-> r.id, conn |-> r.Q.e.conn, n |-> DOMAIN r.Q.s, ctl |-> r.Q.ctl, z |-> r.Q.z],
                  observed |-> o]))
  /\ l' = l + 1
  /\ UNCHANGED s
QSpec == QInit /\ [][QNext]_vars
=============================================================================
