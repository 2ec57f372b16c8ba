------------------------------- MODULE Codec -------------------------------
(* The MQTT 3.1.1 and 5.0 wire format as functions between packets and byte   *)
(* sequences, and the stream parser as a state machine over them.             *)
(*                                                                            *)
(* A packet is [k, ver, i, s, p, q]: kind (its MQTT type number), version (4  *)
(* or 5), integer fields, string fields (byte sequences), properties and will *)
(* properties.  A property is [id, v, w]: its value as bytes (a variable byte *)
(* integer is <<n>>; a four-byte integer stays bytes, TLC's integers are 32   *)
(* bits wide), w only for the second half of a user property.                 *)
(*   CONNECT      i = <<level, clean, keep, will, wqos, wretain, user, pw>>   *)
(*                s = <<name, client [, wtopic, wpayload] [, user] [, pw]>>   *)
(*   CONNACK      i = <<session present, code>>                               *)
(*   PUBLISH      i = <<dup, qos, retain, id or 0>>  s = <<topic, payload>>   *)
(*   PUBACK..     i = <<id, code>>                                            *)
(*   SUBSCRIBE    i = <<id, options...>>  s = filters                         *)
(*   SUBACK       i = <<id, codes...>>   (UNSUBACK alike; v3: <<id>>)         *)
(*   UNSUBSCRIBE  i = <<id>>  s = filters                                     *)
(*   DISCONNECT5, AUTH  i = <<code>>                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONNECT == 1      CONNACK == 2   PUBLISH == 3      PUBACK == 4    PUBREC == 5
PUBREL == 6       PUBCOMP == 7   SUBSCRIBE == 8    SUBACK == 9    UNSUBSCRIBE == 10
UNSUBACK == 11    PINGREQ == 12  PINGRESP == 13    DISCONNECT == 14  AUTH == 15
Names == <<"CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE",
           "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH">>
KindName(k) == IF k \in 1..15 THEN Names[k] ELSE "TYPE0"
Acks == {PUBACK, PUBREC, PUBREL, PUBCOMP}

MaxVbi == 268435455
Bit(n, w) == (n \div w) % 2
B01(b) == IF b THEN 1 ELSE 0

RECURSIVE SumLen(_, _)
SumLen(ss, i) == IF i > Len(ss) THEN 0 ELSE Len(ss[i]) + SumLen(ss, i + 1)
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)

---------------------------------------------------------------------------
(* Encoding *)
U16(n) == <<n \div 256, n % 256>>
RECURSIVE Vbi(_)
Vbi(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Vbi(n \div 128)
Str(b) == U16(Len(b)) \o b

\* how the value of a property travels: one byte, two, four, variable, string, binary, pair
PropType(id) ==
  CASE id \in {1, 23, 25, 36, 37, 40, 41, 42} -> "1"
    [] id \in {19, 33, 34, 35} -> "2"
    [] id \in {2, 17, 24, 39} -> "4"
    [] id = 11 -> "v"
    [] id \in {3, 8, 18, 21, 26, 28, 31} -> "s"
    [] id \in {9, 22} -> "b"
    [] id = 38 -> "p"
    [] OTHER -> "none"
Prop(x) ==
  LET t == PropType(x.id) IN
  <<x.id>> \o (CASE t \in {"1", "2", "4"} -> x.v
                 [] t = "v" -> Vbi(x.v[1])
                 [] t \in {"s", "b"} -> Str(x.v)
                 [] OTHER -> Str(x.v) \o Str(x.w))
RECURSIVE PropList(_, _)
PropList(ps, i) == IF i > Len(ps) THEN <<>> ELSE Prop(ps[i]) \o PropList(ps, i + 1)
Props(ps) == LET l == PropList(ps, 1) IN Vbi(Len(l)) \o l

Strs(ss) == Flat([n \in 1..Len(ss) |-> Str(ss[n])], 1)

ConnectFlags(i) == i[7] * 128 + i[8] * 64 + i[6] * 32 + i[5] * 8 + i[4] * 4 + i[2] * 2

Body(x) ==
  LET v5 == x.ver = 5
      PP == IF v5 THEN Props(x.p) ELSE <<>>
      i == x.i
  IN CASE x.k = CONNECT ->
            Str(x.s[1]) \o <<i[1], ConnectFlags(i)>> \o U16(i[3]) \o PP \o Str(x.s[2])
            \o (IF i[4] = 1 /\ v5 THEN Props(x.q) ELSE <<>>) \o Strs(SubSeq(x.s, 3, Len(x.s)))
       [] x.k = CONNACK -> <<i[1], i[2]>> \o PP
       [] x.k = PUBLISH -> Str(x.s[1]) \o (IF i[2] > 0 THEN U16(i[4]) ELSE <<>>) \o PP \o x.s[2]
       [] x.k \in Acks -> U16(i[1]) \o (IF ~v5 \/ (i[2] = 0 /\ x.p = <<>>) THEN <<>> ELSE <<i[2]>> \o PP)
       [] x.k = SUBSCRIBE -> U16(i[1]) \o PP \o Flat([n \in 1..Len(x.s) |-> Str(x.s[n]) \o <<i[n + 1]>>], 1)
       [] x.k \in {SUBACK, UNSUBACK} -> U16(i[1]) \o PP \o SubSeq(i, 2, Len(i))
       [] x.k = UNSUBSCRIBE -> U16(i[1]) \o PP \o Strs(x.s)
       [] x.k = DISCONNECT -> IF ~v5 \/ (i[1] = 0 /\ x.p = <<>>) THEN <<>> ELSE <<i[1]>> \o PP
       [] x.k = AUTH -> <<i[1]>> \o PP
       [] OTHER -> <<>>

Flags(x) == CASE x.k = PUBLISH -> x.i[1] * 8 + x.i[2] * 2 + x.i[3]
              [] x.k \in {PUBREL, SUBSCRIBE, UNSUBSCRIBE} -> 2
              [] OTHER -> 0

Encode(x) == LET b == Body(x) IN <<x.k * 16 + Flags(x)>> \o Vbi(Len(b)) \o b

---------------------------------------------------------------------------
(* Strings, topics and filters *)
Cont(b, j, e) == j <= e /\ b[j] \in 128..191
\* number of continuation bytes the byte at j asks for
Need(c) == CASE c < 128 -> 0 [] c \in 194..223 -> 1 [] c \in 224..239 -> 2 [] c \in 240..244 -> 3 [] OTHER -> 9
LeadOk(b, j, e) ==
  LET c == b[j] IN
  CASE c < 128 -> TRUE
    [] c \in 194..223 -> Cont(b, j + 1, e)
    [] c \in 224..239 -> /\ Cont(b, j + 1, e) /\ Cont(b, j + 2, e)
                         /\ (c = 224 => b[j + 1] >= 160) /\ (c = 237 => b[j + 1] < 160)
    [] c \in 240..244 -> /\ Cont(b, j + 1, e) /\ Cont(b, j + 2, e) /\ Cont(b, j + 3, e)
                         /\ (c = 240 => b[j + 1] >= 144) /\ (c = 244 => b[j + 1] < 144)
    [] OTHER -> FALSE
ContCovered(b, j, f) == \E d \in 1..3 : j - d >= f /\ Need(b[j - d]) \in d..3
\* b[f..e] is UTF-8 without U+0000
Utf8Ok(b, f, e) ==
  \A j \in f..e : /\ b[j] # 0
                  /\ IF b[j] \in 128..191 THEN ContCovered(b, j, f) ELSE LeadOk(b, j, e)

Slash == 47  Hash == 35  Plus == 43
HasWild(t) == \E j \in 1..Len(t) : t[j] \in {Hash, Plus}
FilterOk(f) ==
  /\ f # <<>>
  /\ \A j \in 1..Len(f) :
       /\ (f[j] = Hash => j = Len(f) /\ (j = 1 \/ f[j - 1] = Slash))
       /\ (f[j] = Plus => (j = 1 \/ f[j - 1] = Slash) /\ (j = Len(f) \/ f[j + 1] = Slash))
SharePfx == <<36, 115, 104, 97, 114, 101, 47>>      \* "$share/"
IsShare(f) == Len(f) >= 7 /\ SubSeq(f, 1, 7) = SharePfx
ShareOk(f) ==
  \E j \in 9..(Len(f) - 1) :
    /\ f[j] = Slash
    /\ \A n \in 8..(j - 1) : f[n] \notin {Slash, Hash, Plus}
    /\ FilterOk(SubSeq(f, j + 1, Len(f)))
Filter5Ok(f) == FilterOk(f) /\ (IsShare(f) => ShareOk(f))
FilterValid(ver, f) == IF ver = 5 THEN Filter5Ok(f) ELSE FilterOk(f)

---------------------------------------------------------------------------
(* Reading.  Readers work on b from position p up to and including e.         *)
No == [ok |-> FALSE]
RdU16(b, p, e) == IF p + 1 <= e THEN [ok |-> TRUE, v |-> b[p] * 256 + b[p + 1], p |-> p + 2] ELSE No
RdBin(b, p, e) ==
  LET l == RdU16(b, p, e) IN
  IF ~l.ok \/ p + 1 + l.v > e THEN No ELSE [ok |-> TRUE, v |-> SubSeq(b, p + 2, p + 1 + l.v), p |-> p + 2 + l.v]
RdStr(b, p, e) ==
  LET r == RdBin(b, p, e) IN IF r.ok /\ Utf8Ok(b, p + 2, r.p - 1) THEN r ELSE No

\* st: "ok", "more" (ends too early), "bad" (more than four bytes, or not the shortest form)
RECURSIVE RdVbi_(_, _, _, _, _, _)
RdVbi_(b, p, e, n, mul, acc) ==
  IF p > e THEN [st |-> "more"]
  ELSE IF b[p] >= 128
       THEN IF n = 3 THEN [st |-> "bad"] ELSE RdVbi_(b, p + 1, e, n + 1, mul * 128, acc + (b[p] - 128) * mul)
       ELSE IF n > 0 /\ b[p] = 0 THEN [st |-> "bad"]
       ELSE [st |-> "ok", v |-> acc + b[p] * mul, p |-> p + 1]
RdVbi(b, p, e) == RdVbi_(b, p, e, 0, 1, 0)

RdProp(b, p, e) ==
  LET idr == RdVbi(b, p, e) IN
  IF idr.st # "ok" THEN No
  ELSE LET t == PropType(idr.v)
           o == idr.p
           fix(n) == IF o + n - 1 <= e THEN [ok |-> TRUE, x |-> [id |-> idr.v, v |-> SubSeq(b, o, o + n - 1), w |-> <<>>], p |-> o + n] ELSE No
           one(r) == IF r.ok THEN [ok |-> TRUE, x |-> [id |-> idr.v, v |-> r.v, w |-> <<>>], p |-> r.p] ELSE No
       IN CASE t = "1" -> fix(1)
            [] t = "2" -> fix(2)
            [] t = "4" -> fix(4)
            [] t = "v" -> LET r == RdVbi(b, o, e) IN
                          IF r.st = "ok" THEN [ok |-> TRUE, x |-> [id |-> 11, v |-> <<r.v>>, w |-> <<>>], p |-> r.p] ELSE No
            [] t = "s" -> one(RdStr(b, o, e))
            [] t = "b" -> one(RdBin(b, o, e))
            [] t = "p" -> LET k == RdStr(b, o, e) IN
                          IF ~k.ok THEN No
                          ELSE LET v == RdStr(b, k.p, e) IN
                               IF v.ok THEN [ok |-> TRUE, x |-> [id |-> 38, v |-> k.v, w |-> v.v], p |-> v.p] ELSE No
            [] OTHER -> No
RECURSIVE RdPropList(_, _, _, _)
RdPropList(b, p, e, acc) ==
  IF p > e THEN [ok |-> TRUE, v |-> acc, p |-> p]
  ELSE LET r == RdProp(b, p, e) IN IF r.ok THEN RdPropList(b, r.p, e, Append(acc, r.x)) ELSE No
RdProps(b, p, e) ==
  LET l == RdVbi(b, p, e) IN
  IF l.st # "ok" THEN No
  ELSE IF l.p + l.v - 1 > e THEN No
  ELSE RdPropList(b, l.p, l.p + l.v - 1, <<>>)

RECURSIVE RdStrs(_, _, _, _)
RdStrs(b, p, e, acc) ==
  IF p > e THEN [ok |-> TRUE, v |-> acc]
  ELSE LET r == RdStr(b, p, e) IN IF r.ok THEN RdStrs(b, r.p, e, Append(acc, r.v)) ELSE No
RECURSIVE RdSubs(_, _, _, _, _)
RdSubs(b, p, e, acc, opts) ==
  IF p > e THEN [ok |-> TRUE, v |-> acc, o |-> opts]
  ELSE LET r == RdStr(b, p, e) IN
       IF ~r.ok \/ r.p > e THEN No ELSE RdSubs(b, r.p + 1, e, Append(acc, r.v), Append(opts, b[r.p]))

---------------------------------------------------------------------------
(* Decoding one complete frame b[1..Len(b)].  The verdict is                  *)
(*   pkt     this packet                                                      *)
(*   bad     malformed: must not yield a packet                               *)
(*   either  tolerated or refused (the standard calls it a protocol error, or *)
(*           leaves it to the receiver), but if a packet comes then this one  *)
Bad == [v |-> "bad"]
Pkt(x) == [v |-> "pkt", x |-> x]
Either(x) == [v |-> "either", x |-> x]
Mk(k, ver, i, s, p) == [k |-> k, ver |-> ver, i |-> i, s |-> s, p |-> p, q |-> <<>>]

WillIds == <<24, 1, 2, 3, 8, 9>>
\* will properties have fixed fields: the last of a kind counts, in this order, then user properties
LastOf(ps, id) == LET js == {j \in 1..Len(ps) : ps[j].id = id} IN
                  IF js = {} THEN <<>> ELSE <<ps[CHOOSE j \in js : \A n \in js : n <= j]>>
WillProps(ps) == Flat([n \in 1..6 |-> LastOf(ps, WillIds[n])], 1) \o SelectSeq(ps, LAMBDA x : x.id = 38)

Allowed(k) ==
  CASE k = CONNECT -> {17, 33, 39, 34, 25, 23, 38, 21, 22}
    [] k = CONNACK -> {17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22}
    [] k = PUBLISH -> {1, 2, 3, 8, 9, 11, 35, 38}
    [] k = SUBSCRIBE -> {11, 38}
    [] k = UNSUBSCRIBE -> {38}
    [] k = DISCONNECT -> {17, 31, 38, 28}
    [] k = AUTH -> {21, 22, 31, 38}
    [] OTHER -> {31, 38}
WillAllowed == {24, 1, 2, 3, 8, 9, 38}
ValueOdd(x) == \/ x.id \in {1, 23, 25, 36, 37, 40, 41, 42} /\ x.v[1] > 1
               \/ x.id \in {33, 35} /\ x.v = <<0, 0>>
               \/ x.id = 39 /\ x.v = <<0, 0, 0, 0>>
               \/ x.id = 11 /\ x.v = <<0>>
               \/ x.id = 8 /\ HasWild(x.v)
PropsOdd(ps, al, k) ==
  \/ \E j \in 1..Len(ps) : ps[j].id \notin al \/ ValueOdd(ps[j])
  \/ \E j, n \in 1..Len(ps) : j < n /\ ps[j].id = ps[n].id /\ ps[j].id # 38 /\ ~(ps[j].id = 11 /\ k = PUBLISH)
\* reason codes the standard does not define are left to the receiver
Bom(t) == Len(t) >= 3 /\ SubSeq(t, 1, 3) = <<239, 187, 191>>

DecConnect(ver, b, p, e) ==
  LET nm == RdStr(b, p, e) IN
  IF ~nm.ok THEN Bad ELSE IF nm.p + 3 > e THEN Bad ELSE
  LET lv == b[nm.p]
      fl == b[nm.p + 1]
      ka == b[nm.p + 2] * 256 + b[nm.p + 3]
      will == Bit(fl, 4)  wq == (fl \div 8) % 4  wr == Bit(fl, 32)
      user == Bit(fl, 128)  pw == Bit(fl, 64)
      o1 == nm.p + 4
      pr == IF ver = 5 THEN RdProps(b, o1, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> o1]
  IN
  IF ver = 5 /\ nm.v # <<77, 81, 84, 84>> THEN Bad
  ELSE IF ver # 5 /\ ~(nm.v = <<77, 81, 84, 84>> /\ lv = 4) /\ ~(nm.v = <<77, 81, 73, 115, 100, 112>> /\ lv = 3) THEN Bad
  ELSE IF fl % 2 = 1 \/ wq = 3 \/ (will = 0 /\ (wq # 0 \/ wr # 0)) THEN Bad
  ELSE IF ver # 5 /\ pw = 1 /\ user = 0 THEN Bad
  ELSE IF ~pr.ok THEN Bad
  ELSE LET cid == RdStr(b, pr.p, e) IN
  IF ~cid.ok THEN Bad
  ELSE LET wp == IF will = 1 /\ ver = 5 THEN RdProps(b, cid.p, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> cid.p] IN
  IF ~wp.ok THEN Bad
  ELSE LET wt == IF will = 1 THEN RdStr(b, wp.p, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> wp.p] IN
  IF ~wt.ok THEN Bad
  ELSE LET wm == IF will = 1 THEN RdBin(b, wt.p, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> wt.p] IN
  IF ~wm.ok THEN Bad
  ELSE LET us == IF user = 1 THEN RdStr(b, wm.p, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> wm.p] IN
  IF ~us.ok THEN Bad
  ELSE LET pd == IF pw = 1 THEN RdBin(b, us.p, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> us.p] IN
  IF ~pd.ok \/ pd.p # e + 1 THEN Bad
  ELSE IF ver = 5 /\ will = 1 /\ wt.v = <<>> THEN Bad
  ELSE LET x == [k |-> CONNECT, ver |-> ver, i |-> <<lv, Bit(fl, 2), ka, will, wq, wr, user, pw>>,
                 s |-> <<nm.v, cid.v>> \o (IF will = 1 THEN <<wt.v, wm.v>> ELSE <<>>)
                       \o (IF user = 1 THEN <<us.v>> ELSE <<>>) \o (IF pw = 1 THEN <<pd.v>> ELSE <<>>),
                 p |-> pr.v, q |-> WillProps(wp.v)]
       IN IF \/ ver = 5 /\ lv # 5
             \/ ver = 5 /\ (PropsOdd(pr.v, Allowed(CONNECT), CONNECT) \/ PropsOdd(wp.v, WillAllowed, CONNECT))
             \/ will = 1 /\ (wt.v = <<>> \/ HasWild(wt.v))
             \/ ver # 5 /\ cid.v = <<>> /\ Bit(fl, 2) = 0
          THEN Either(x) ELSE Pkt(x)

\* a packet that starts with its identifier
Ided(b, p, e) == LET r == RdU16(b, p, e) IN IF r.ok /\ r.v # 0 THEN r ELSE No

DecBody(ver, b, p, e) ==
  LET k == b[1] \div 16
      fl == b[1] % 16
      size == e - p + 1
      v5 == ver = 5
      pr(o) == IF v5 THEN RdProps(b, o, e) ELSE [ok |-> TRUE, v |-> <<>>, p |-> o]
      judge(x) == IF v5 /\ PropsOdd(x.p, Allowed(k), k) THEN Either(x) ELSE Pkt(x)
  IN
  IF k = 0 \/ (k = AUTH /\ ~v5) THEN Bad
  ELSE IF k # PUBLISH /\ fl # (IF k \in {PUBREL, SUBSCRIBE, UNSUBSCRIBE} THEN 2 ELSE 0) THEN Bad
  ELSE
  CASE k = CONNECT -> DecConnect(ver, b, p, e)
    [] k = CONNACK ->
         IF size < 2 THEN Bad
         ELSE IF b[p] > 1 THEN Bad
         ELSE LET r == pr(p + 2) IN
              IF ~r.ok \/ r.p # e + 1 THEN Bad
              ELSE IF ~v5 /\ b[p + 1] > 5 THEN Bad
              ELSE LET x == Mk(k, ver, <<b[p], b[p + 1]>>, <<>>, r.v) IN
                   IF b[p] = 1 /\ b[p + 1] # 0 THEN Either(x) ELSE judge(x)
    [] k = PUBLISH ->
         LET dup == Bit(fl, 8)  qos == (fl \div 2) % 4
             t == RdStr(b, p, e)
         IN IF qos = 3 \/ (v5 /\ qos = 0 /\ dup = 1) \/ ~t.ok THEN Bad
            ELSE IF HasWild(t.v) THEN Bad
            ELSE LET id == IF qos > 0 THEN Ided(b, t.p, e) ELSE [ok |-> TRUE, v |-> 0, p |-> t.p] IN
                 IF ~id.ok THEN Bad
                 ELSE LET r == pr(id.p) IN
                      IF ~r.ok THEN Bad
                      ELSE IF t.v = <<>> /\ (~v5 \/ \A j \in 1..Len(r.v) : r.v[j].id # 35) THEN Bad
                      ELSE LET x == Mk(k, ver, <<dup, qos, fl % 2, id.v>>, <<t.v, SubSeq(b, r.p, e)>>, r.v) IN
                           IF qos = 0 /\ dup = 1 THEN Either(x) ELSE judge(x)
    [] k \in Acks \/ (k = UNSUBACK /\ ~v5) ->
         LET id == Ided(b, p, e) IN
         IF ~id.ok THEN Bad
         ELSE IF ~v5 THEN IF size = 2 THEN Pkt(Mk(k, ver, IF k = UNSUBACK THEN <<id.v>> ELSE <<id.v, 0>>, <<>>, <<>>)) ELSE Bad
         ELSE IF size = 2 THEN Pkt(Mk(k, ver, <<id.v, 0>>, <<>>, <<>>))
         ELSE IF size = 3 THEN Pkt(Mk(k, ver, <<id.v, b[p + 2]>>, <<>>, <<>>))
         ELSE LET r == RdProps(b, p + 3, e) IN
              IF ~r.ok \/ r.p # e + 1 THEN Bad ELSE judge(Mk(k, ver, <<id.v, b[p + 2]>>, <<>>, r.v))
    [] k = SUBSCRIBE ->
         LET id == Ided(b, p, e) IN
         IF ~id.ok THEN Bad
         ELSE LET r == pr(id.p) IN
         IF ~r.ok THEN Bad
         ELSE LET ss == RdSubs(b, r.p, e, <<>>, <<>>) IN
         IF ~ss.ok THEN Bad
         ELSE IF ss.v = <<>> \/ \E n \in 1..Len(ss.v) : ~FilterValid(ver, ss.v[n]) THEN Bad
         ELSE IF \E n \in 1..Len(ss.o) : \/ ss.o[n] % 4 = 3 \/ ss.o[n] > 63 \/ (ss.o[n] \div 16) % 4 = 3
                                         \/ ~v5 /\ ss.o[n] > 2
                                         \/ v5 /\ Bit(ss.o[n], 4) = 1 /\ IsShare(ss.v[n]) THEN Bad
         ELSE judge(Mk(k, ver, <<id.v>> \o ss.o, ss.v, r.v))
    [] k \in {SUBACK, UNSUBACK} ->
         LET id == Ided(b, p, e) IN
         IF ~id.ok THEN Bad
         ELSE LET r == pr(id.p) IN
         IF ~r.ok THEN Bad
         ELSE LET cs == SubSeq(b, r.p, e)
                  x == Mk(k, ver, <<id.v>> \o cs, <<>>, r.v)
              IN IF v5 THEN IF cs = <<>> THEN Bad ELSE judge(x)
                 ELSE IF \E n \in 1..Len(cs) : cs[n] \notin {0, 1, 2, 128} THEN Bad
                 ELSE IF cs = <<>> THEN Either(x) ELSE Pkt(x)
    [] k = UNSUBSCRIBE ->
         LET id == Ided(b, p, e) IN
         IF ~id.ok THEN Bad
         ELSE LET r == pr(id.p) IN
         IF ~r.ok THEN Bad
         ELSE LET ss == RdStrs(b, r.p, e, <<>>) IN
         IF ~ss.ok THEN Bad
         ELSE IF v5 /\ ss.v = <<>> THEN Bad
         ELSE IF \E n \in 1..Len(ss.v) : ~FilterValid(ver, ss.v[n]) /\ ~(v5 /\ ss.v[n] = <<>>) THEN Bad
         ELSE LET x == Mk(k, ver, <<id.v>>, ss.v, r.v) IN
              IF ss.v = <<>> \/ \E n \in 1..Len(ss.v) : ss.v[n] = <<>> THEN Either(x) ELSE judge(x)
    [] k \in {PINGREQ, PINGRESP} -> IF size = 0 THEN Pkt(Mk(k, ver, <<>>, <<>>, <<>>)) ELSE Bad
    [] k = DISCONNECT ->
         IF ~v5 THEN IF size = 0 THEN Pkt(Mk(k, ver, <<>>, <<>>, <<>>)) ELSE Bad
         ELSE IF size = 0 THEN Pkt(Mk(k, ver, <<0>>, <<>>, <<>>))
         ELSE IF size = 1 THEN Pkt(Mk(k, ver, <<b[p]>>, <<>>, <<>>))
         ELSE LET r == RdProps(b, p + 1, e) IN
              IF ~r.ok \/ r.p # e + 1 THEN Bad ELSE judge(Mk(k, ver, <<b[p]>>, <<>>, r.v))
    [] OTHER ->                                                         \* AUTH
         IF size = 0 THEN Either(Mk(k, ver, <<0>>, <<>>, <<>>))
         ELSE IF size = 1 THEN Either(Mk(k, ver, <<b[p]>>, <<>>, <<>>))
         ELSE LET r == RdProps(b, p + 1, e) IN
              IF ~r.ok \/ r.p # e + 1 THEN Bad ELSE judge(Mk(k, ver, <<b[p]>>, <<>>, r.v))

\* the frame at the head of b: "more", "bad" (length field), or ok with its last index
Frame(b) ==
  IF Len(b) < 2 THEN [st |-> "more"]
  ELSE LET l == RdVbi(b, 2, Len(b)) IN
       IF l.st # "ok" THEN l
       ELSE IF l.p + l.v - 1 > Len(b) THEN [st |-> "more"]
       ELSE [st |-> "ok", body |-> l.p, last |-> l.p + l.v - 1]

\* the head of b as a whole: also "more"
Decode(ver, b) ==
  LET f == Frame(b) IN
  IF f.st = "more" THEN [v |-> "more"]
  ELSE IF f.st = "bad" THEN Bad
  ELSE DecBody(ver, b, f.body, f.last)

---------------------------------------------------------------------------
(* What an encoder must do with a packet value: encode it ("pkt"), refuse it  *)
(* because MQTT has no encoding for it ("refuse"), either of the two, or      *)
(* anything ("any": its fields can be written down, but MQTT forbids it).     *)
RECURSIVE VbiLen(_)
VbiLen(n) == IF n < 128 THEN 1 ELSE 1 + VbiLen(n \div 128)
Texts(x) ==      \* the indices of x.s that are text
  CASE x.k = PUBLISH -> {1}
    [] x.k = CONNECT -> {1, 2} \cup (IF x.i[4] = 1 THEN {3} ELSE {}) \cup (IF x.i[7] = 1 THEN {IF x.i[4] = 1 THEN 5 ELSE 3} ELSE {})
    [] OTHER -> 1..Len(x.s)
PTexts(p) == IF p.id = 38 THEN {p.v, p.w} ELSE IF PropType(p.id) = "s" THEN {p.v} ELSE {}
HasNul(t) == \E j \in 1..Len(t) : t[j] = 0
SomeText(x, P(_)) == \/ \E n \in Texts(x) : P(x.s[n])
                     \/ \E n \in 1..Len(x.p) : \E t \in PTexts(x.p[n]) : P(t)
                     \/ \E n \in 1..Len(x.q) : \E t \in PTexts(x.q[n]) : P(t)
TooLong(x) == \/ \E n \in 1..Len(x.s) : Len(x.s[n]) > 65535 /\ ~(x.k = PUBLISH /\ n = 2)
              \/ \E n \in 1..Len(x.p) : Len(x.p[n].v) > 65535 \/ Len(x.p[n].w) > 65535
              \/ \E n \in 1..Len(x.q) : Len(x.q[n].v) > 65535 \/ Len(x.q[n].w) > 65535
VbiTooBig(x) == \E n \in 1..Len(x.p) : x.p[n].id = 11 /\ x.p[n].v[1] > MaxVbi
EncVerdict(x) ==
  IF \/ TooLong(x) \/ VbiTooBig(x) \/ SomeText(x, HasNul)
     \/ x.k = PUBLISH /\ (x.i[2] > 2 \/ (x.i[2] > 0 /\ x.i[4] < 0))
     \/ x.k = SUBSCRIBE /\ \E n \in 2..Len(x.i) : x.i[n] % 4 = 3 \/ (x.i[n] \div 16) % 4 = 3
  THEN "refuse"
  ELSE LET d == Decode(x.ver, Encode(x)) IN
       IF d.v \in {"bad", "more"} THEN "any"
       ELSE IF d.v = "either" \/ SomeText(x, Bom) THEN "either" ELSE "pkt"

---------------------------------------------------------------------------
(* Parsing at a reduced level: what is known of the frame b[1..e] whose full  *)
(* decoding is x.                                                             *)
HdrLen(x, size) ==
  LET pl == IF x.ver = 5 THEN Len(Props(x.p)) ELSE 0 IN
  CASE x.k = CONNECT -> Len(x.s[1]) + 6 + pl
    [] x.k = CONNACK -> 2 + pl
    [] x.k = PUBLISH -> Len(x.s[1]) + 2 + (IF x.i[2] > 0 THEN 2 ELSE 0) + pl
    [] x.k \in {SUBSCRIBE, SUBACK, UNSUBSCRIBE} \/ (x.k = UNSUBACK /\ x.ver = 5) -> 2 + pl
    [] OTHER -> size
Header(x) ==
  CASE x.k = CONNECT -> [i |-> <<x.i[1], x.i[2], x.i[3], ConnectFlags(x.i)>>, s |-> <<x.s[1]>>]
    [] x.k = PUBLISH -> [i |-> x.i, s |-> <<x.s[1]>>]
    [] x.k \in Acks -> [i |-> IF x.ver = 5 THEN x.i ELSE <<x.i[1]>>, s |-> <<>>]
    [] x.k \in {SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK} -> [i |-> <<x.i[1]>>, s |-> <<>>]
    [] OTHER -> [i |-> x.i, s |-> <<>>]

---------------------------------------------------------------------------
(* The stream parser: bytes not yet decoded, and the level (0 full, 1 header, *)
(* 2 raw body, 3 type only).  NextOut gives the verdict on the next result    *)
(* and what it must contain; a result of "err" ends the parser's life.        *)
FrameBytes(b, f) == SubSeq(b, 1, f.last)
Rest(b, f) == SubSeq(b, f.last + 1, Len(b))
NextOut(ver, level, b) ==
  IF b = <<>> THEN [v |-> "none"]
  ELSE LET f == Frame(b) IN
  IF f.st = "more" THEN IF b[1] < 16 THEN [v |-> "none/err"] ELSE [v |-> "none"]
  ELSE IF f.st = "bad" \/ b[1] < 16 THEN Bad
  ELSE LET d == DecBody(ver, b, f.body, f.last)
           raw == [k |-> b[1] \div 16, fl |-> b[1] % 16]
       IN
       CASE level = 0 -> d
         [] level \in {2, 3} ->
              [v |-> "pkt", x |-> [k |-> raw.k, fl |-> raw.fl, rest |-> IF level = 2 THEN SubSeq(b, f.body, f.last) ELSE <<>>]]
         [] OTHER ->
              IF d.v = "bad" THEN [v |-> "any"]
              ELSE LET h == Header(d.x)
                       x == [k |-> raw.k, fl |-> raw.fl, ver |-> ver, i |-> h.i, s |-> h.s, p |-> d.x.p,
                             rest |-> SubSeq(b, f.body + HdrLen(d.x, f.last - f.body + 1), f.last)]
                   IN [v |-> d.v, x |-> x]
=============================================================================
