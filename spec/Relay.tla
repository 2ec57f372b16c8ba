-------------------------------- MODULE Relay --------------------------------
(* A packet as a gRPC stream message and back.  A message is a list of fields; *)
(* on the wire a scalar field without presence is left out when it has its    *)
(* default value, so what has no presence cannot be told from the default.    *)
EXTENDS Codec

Fld(n, v) == <<[n |-> n, v |-> v, out |-> Len(v) > 0]>>       \* a string or a list
Nmb(n, v) == <<[n |-> n, v |-> v, out |-> v # 0]>>            \* a number or a flag
Opt(n, has, v) == IF has THEN <<[n |-> n, v |-> v, out |-> TRUE]>> ELSE <<>>   \* a field with presence
Wire(fs) == LET Out(f) == f.out IN SelectSeq(fs, Out)

FHas(fs, n) == \E j \in 1..Len(fs) : fs[j].n = n
FGet(fs, n) == fs[CHOOSE j \in 1..Len(fs) : fs[j].n = n].v
FNum(fs, n) == IF FHas(fs, n) THEN FGet(fs, n) ELSE 0
FStr(fs, n) == IF FHas(fs, n) THEN FGet(fs, n) ELSE <<>>

StrAt(x, k) == x.s[k]
UserAt(x) == 3 + 2 * x.i[4]
ToFields(x) ==
  CASE x.k = CONNECT ->
         Fld(1, x.s[2]) \o Fld(2, x.s[1]) \o Nmb(3, x.i[1]) \o Nmb(4, x.i[2]) \o Nmb(5, x.i[3])
         \o Opt(6, x.i[7] = 1, IF x.i[7] = 1 THEN StrAt(x, UserAt(x)) ELSE <<>>)
         \o Opt(7, x.i[8] = 1, IF x.i[8] = 1 THEN StrAt(x, UserAt(x) + x.i[7]) ELSE <<>>)
         \o Opt(8, x.i[4] = 1, IF x.i[4] = 1 THEN Wire(Fld(1, x.s[3]) \o Fld(2, x.s[4]) \o Nmb(3, x.i[5]) \o Nmb(4, x.i[6]) \o Fld(5, x.q)) ELSE <<>>)
         \o Fld(9, x.p)
    [] x.k = CONNACK -> Nmb(1, x.i[1]) \o Nmb(2, x.i[2]) \o Fld(3, x.p)
    [] x.k = PUBLISH -> Fld(1, x.s[1]) \o Nmb(2, x.i[4]) \o Nmb(3, x.i[2]) \o Nmb(4, x.i[3]) \o Nmb(5, x.i[1]) \o Fld(6, x.s[2]) \o Fld(7, x.p)
    [] x.k \in Acks -> Nmb(1, x.i[1]) \o Nmb(2, x.i[2]) \o Fld(3, x.p)
    [] x.k = SUBSCRIBE -> Nmb(1, x.i[1]) \o Fld(2, [n \in 1..Len(x.s) |-> Wire(Fld(1, x.s[n]) \o Nmb(2, x.i[n + 1]))]) \o Fld(3, x.p)
    [] x.k \in {SUBACK, UNSUBACK} -> Nmb(1, x.i[1]) \o Fld(2, Tail(x.i)) \o Fld(3, x.p)
    [] x.k = UNSUBSCRIBE -> Nmb(1, x.i[1]) \o Fld(2, x.s) \o Fld(3, x.p)
    [] x.k = DISCONNECT -> IF x.ver = 5 THEN Nmb(1, x.i[1]) \o Fld(2, x.p) ELSE <<>>
    [] x.k = AUTH -> Nmb(1, x.i[1]) \o Fld(2, x.p)
    [] OTHER -> <<>>

FromFields(k, ver, fs) ==
  LET p9 == FStr(fs, 9) p3 == FStr(fs, 3) IN
  CASE k = CONNECT ->
         LET w == FStr(fs, 8)
             h(n) == B01(FHas(fs, n))
         IN [k |-> k, ver |-> ver,
             i |-> <<FNum(fs, 3), FNum(fs, 4), FNum(fs, 5), h(8), FNum(w, 3), FNum(w, 4), h(6), h(7)>>,
             s |-> <<FStr(fs, 2), FStr(fs, 1)>> \o (IF FHas(fs, 8) THEN <<FStr(w, 1), FStr(w, 2)>> ELSE <<>>)
                   \o (IF FHas(fs, 6) THEN <<FGet(fs, 6)>> ELSE <<>>) \o (IF FHas(fs, 7) THEN <<FGet(fs, 7)>> ELSE <<>>),
             p |-> p9, q |-> IF FHas(fs, 8) THEN FStr(w, 5) ELSE <<>>]
    [] k = CONNACK \/ k \in Acks -> Mk(k, ver, <<FNum(fs, 1), FNum(fs, 2)>>, <<>>, p3)
    [] k = PUBLISH -> Mk(k, ver, <<FNum(fs, 5), FNum(fs, 3), FNum(fs, 4), FNum(fs, 2)>>, <<FStr(fs, 1), FStr(fs, 6)>>, FStr(fs, 7))
    [] k = SUBSCRIBE -> LET l == FStr(fs, 2) IN
         Mk(k, ver, <<FNum(fs, 1)>> \o [n \in 1..Len(l) |-> FNum(l[n], 2)], [n \in 1..Len(l) |-> FStr(l[n], 1)], p3)
    [] k \in {SUBACK, UNSUBACK} -> Mk(k, ver, <<FNum(fs, 1)>> \o FStr(fs, 2), <<>>, p3)
    [] k = UNSUBSCRIBE -> Mk(k, ver, <<FNum(fs, 1)>>, FStr(fs, 2), p3)
    [] k = DISCONNECT -> Mk(k, ver, IF ver = 5 THEN <<FNum(fs, 1)>> ELSE <<>>, <<>>, IF ver = 5 THEN FStr(fs, 2) ELSE <<>>)
    [] k = AUTH -> Mk(k, ver, <<FNum(fs, 1)>>, <<>>, FStr(fs, 2))
    [] OTHER -> Mk(k, ver, <<>>, <<>>, <<>>)

\* the stream message: sequence number, direction, and the packet's kind, version and fields
ToMsg(x, seq, dir) == [seq |-> seq, dir |-> dir, k |-> x.k, ver |-> x.ver, fs |-> Wire(ToFields(x))]
FromMsg(m) == FromFields(m.k, m.ver, m.fs)
RelayOut(x, seq, dir) == LET m == ToMsg(x, seq, dir) IN [y |-> FromMsg(m), seq |-> m.seq, dir |-> m.dir]
=============================================================================
