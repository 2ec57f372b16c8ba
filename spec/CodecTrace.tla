----------------------------- MODULE CodecTrace -----------------------------
(* Validates recorded codec calls against Codec.tla.                          *)
EXTENDS Relay, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, buf
vars == <<s, l, buf>>

Ops == Tr[s].ops
Ver == Tr[s].cfg.ver

Kind(b) == IF b = <<>> THEN "EMPTY" ELSE KindName(b[1] \div 16)
Fits(b) == LET f == Frame(b) IN f.st = "ok" /\ f.last = Len(b)

EncFacets(o) ==
  LET v == EncVerdict(o.x)
      K == KindName(o.x.k)
      right == LET d == Decode(o.x.ver, o.b) IN d.v \in {"pkt", "either"} /\ d.x = o.x /\ Fits(o.b)
  IN IF o.r = "panic" THEN {"panic"}
     ELSE IF o.r = "clobbered" THEN {"enc." \o K}
     ELSE CASE v = "refuse" -> IF o.r = "pkt" THEN {"enc.unrepresentable." \o K} ELSE {}
            [] v = "any" -> {}
            [] v = "either" -> IF o.r = "pkt" /\ ~right THEN {"enc." \o K} ELSE {}
            [] OTHER -> IF o.r # "pkt" THEN {"enc.refused." \o K} ELSE IF right THEN {} ELSE {"enc." \o K}

\* verdict d against result r with contents x; K names the kind
Judge(pre, K, d, r, x) ==
  CASE r = "panic" -> {"panic"}
    [] r = "pkt" -> CASE d.v = "bad" -> {pre \o "accepts." \o K}
                      [] d.v \in {"more", "none", "none/err"} -> {pre \o "early." \o K}
                      [] d.v = "any" -> {}
                      [] OTHER -> IF x = d.x THEN {} ELSE {pre \o "wrong." \o K}
    [] OTHER -> IF d.v = "pkt" THEN {pre \o "rejects." \o K} ELSE {}

DecFacets(o) ==
  LET d == Decode(Ver, o.b) IN
  Judge("dec.", Kind(o.b), d, o.r, o.x)
  \cup IF o.r = "pkt" /\ d.v \in {"pkt", "either"} /\ o.n # Frame(o.b).last THEN {"dec.consumed." \o Kind(o.b)} ELSE {}

LevFacets(o) ==
  LET d == NextOut(Ver, o.level, o.b) IN
  Judge("lev.", Kind(o.b), d, o.r, o.x)
  \cup IF o.r = "pkt" /\ d.v \in {"pkt", "either", "any"} /\ o.n # Frame(o.b).last THEN {"lev.consumed." \o Kind(o.b)} ELSE {}

NextFacets(o) ==
  LET d == NextOut(Ver, o.level, buf) IN
  Judge("next.", Kind(buf), d, o.r, o.x)
  \cup IF o.r = "err" /\ d.v = "none" THEN {"next.refuses." \o Kind(buf)} ELSE {}
  \cup IF o.r = "none" /\ d.v \in {"bad", "either", "any"} THEN {"next.stalls." \o Kind(buf)} ELSE {}

\* the protocol version in the bytes of a CONNECT that starts after off bytes
Vsn(b, off) ==
  IF Len(b) <= off THEN -1
  ELSE IF b[off + 1] # 16 THEN -1
  ELSE LET v == RdVbi(b, off + 2, Len(b)) IN
       IF v.st # "ok" THEN -1
       ELSE LET n == RdStr(b, v.p, Len(b)) IN
            IF ~n.ok THEN -1 ELSE IF n.p > Len(b) THEN -1 ELSE b[n.p]
VsnFacets(o) ==
  IF o.r = "panic" THEN {"panic"}
  ELSE LET v == Vsn(o.b, o.off) IN
       IF v < 0 THEN IF o.r = "ok" THEN {"vsn"} ELSE {}
       ELSE IF o.r = "ok" /\ o.n = v THEN {} ELSE {"vsn"}

BigFacets(o) ==
  LET body == 3 + B01(Ver = 5) + o.n
      head == <<48>> \o Vbi(body) \o <<0, 1, 116>> \o (IF Ver = 5 THEN <<0>> ELSE <<>>) \o [j \in 1..12 |-> 97]
  IN IF o.r = "panic" \/ o.back = "panic" THEN {"panic"}
     ELSE IF body > MaxVbi THEN IF o.r = "pkt" THEN {"enc.unrepresentable.PUBLISH"} ELSE {}
     ELSE IF o.r # "pkt" THEN {"enc.refused.PUBLISH"}
     ELSE (IF o.tot # 1 + VbiLen(body) + body \/ o.b # SubSeq(head, 1, IF o.tot < 12 THEN o.tot ELSE 12) THEN {"enc.PUBLISH"} ELSE {})
          \cup (IF o.back = "differs" THEN {"dec.wrong.PUBLISH"} ELSE {})

\* through a gRPC stream message; messages without a packet
RelayFacets(o) ==
  LET K == KindName(o.x.k)
      m == RelayOut(o.x, o.seq, o.dir)
  IN IF o.r = "panic" THEN {"panic"}
     ELSE IF EncVerdict(o.x) \notin {"pkt", "either"} THEN {}
     ELSE IF o.r # "pkt" THEN {"relay.lost." \o K}
     ELSE (IF o.y # m.y THEN {"relay.changed." \o K} ELSE {})
          \cup (LET d == Decode(o.x.ver, o.b) IN IF d.v \in {"pkt", "either"} /\ d.x = m.y /\ Fits(o.b) THEN {} ELSE {"relay.bytes." \o K})
          \cup (IF o.seq2 # m.seq \/ o.dir2 # m.dir THEN {"relay.envelope"} ELSE {})
NoPacketFacets(o) == CASE o.r = "none" -> {} [] o.r = "panic" -> {"panic"} [] OTHER -> {"relay.invented"}

Facets(o) ==
  CASE o.o = "enc" -> EncFacets(o)
    [] o.o = "dec" -> DecFacets(o)
    [] o.o = "lev" -> LevFacets(o)
    [] o.o = "next" -> NextFacets(o)
    [] o.o = "vsn" -> VsnFacets(o)
    [] o.o = "big" -> BigFacets(o)
    [] o.o = "relay" -> RelayFacets(o)
    [] o.o = "nopacket" -> NoPacketFacets(o)
    [] OTHER -> {}
Expected(o) ==
  CASE o.o = "enc" -> [v |-> EncVerdict(o.x)]
    [] o.o = "dec" -> Decode(Ver, o.b)
    [] o.o = "lev" -> NextOut(Ver, o.level, o.b)
    [] o.o = "next" -> NextOut(Ver, o.level, buf)
    [] o.o = "vsn" -> [v |-> Vsn(o.b, o.off)]
    [] o.o = "relay" -> RelayOut(o.x, o.seq, o.dir)
    [] OTHER -> [v |-> "?"]

Init == s \in 1..Len(Tr) /\ l = 1 /\ buf = <<>>
Next ==
  /\ l <= Len(Ops)
  /\ LET o == Ops[l]
         fs == Facets(o)
     IN /\ buf' = CASE o.o = "open" -> <<>>
                    [] o.o = "feed" -> buf \o o.b
                    [] o.o = "next" /\ o.r = "pkt" -> LET f == Frame(buf) IN IF f.st = "ok" THEN Rest(buf, f) ELSE buf
                    [] OTHER -> buf
        /\ IF fs = {} THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([s |-> s, l |-> l, facets |-> fs, op |-> o.o, expected |-> Expected(o), observed |-> o]))
  /\ l' = l + 1
  /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

RECURSIVE Lines(_)
Lines(n) == IF n = 0 THEN 0 ELSE Len(Tr[n].ops) + 1 + Lines(n - 1)
Accepted == TLCGet("stats").distinct = Lines(Len(Tr))
=============================================================================
