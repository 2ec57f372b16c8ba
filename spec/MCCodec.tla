------------------------------ MODULE MCCodec ------------------------------
(* Checks Codec.tla: every packet of a universe survives encoding and         *)
(* decoding, whatever one changes about its bytes is never read as something  *)
(* inconsistent, and the stream parser's results do not depend on how the     *)
(* bytes are cut or on the level.                                             *)
EXTENDS Relay, Json

CONSTANTS MODE,      \* "packets", "bytes", "parser"
          GEN,       \* print the packets
          NFRAMES    \* frames in the parser's stream

P(id, v) == [id |-> id, v |-> v, w |-> <<>>]
a == <<97>>
sample(id) ==
  LET t == PropType(id) IN
  CASE t = "1" -> {P(id, <<0>>), P(id, <<1>>)}
    [] t = "2" -> {P(id, <<0, 1>>), P(id, <<255, 255>>)}
    [] t = "4" -> {P(id, <<0, 0, 0, 1>>), P(id, <<255, 255, 255, 255>>)}
    [] t = "v" -> {P(id, <<1>>), P(id, <<127>>), P(id, <<128>>), P(id, <<16384>>), P(id, <<MaxVbi>>)}
    [] t = "p" -> {[id |-> id, v |-> <<107>>, w |-> a], [id |-> id, v |-> <<>>, w |-> <<>>]}
    [] OTHER -> {P(id, a), P(id, <<>>)}
One(k) == UNION {{<<x>> : x \in sample(id)} : id \in Allowed(k)}
First(id) == CHOOSE x \in sample(id) : TRUE
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
Every(k) == LET ids == SeqOf(Allowed(k)) IN [n \in 1..Len(ids) |-> First(ids[n])]
UP == First(38)
PS(k) == {<<>>} \cup One(k) \cup {Every(k), <<UP, UP>>}
PSmall(k) == {<<>>, <<UP>>}
Will1 == {<<>>, <<P(24, <<0, 0, 0, 9>>)>>, <<P(24, <<0, 0, 0, 9>>), P(1, <<1>>), P(2, <<0, 0, 1, 0>>), P(3, a), P(8, a), P(9, a), UP>>}

V(ver, ps) == IF ver = 5 THEN ps ELSE {<<>>}
X(k, ver, i, s, p) == Mk(k, ver, i, s, p)
Name == <<77, 81, 84, 84>>
Connects(ver) ==
  {[k |-> CONNECT, ver |-> ver, i |-> <<IF ver = 5 THEN 5 ELSE 4, c, ka, w, wq, wr, u, pw>>,
    s |-> <<Name, a>> \o (IF w = 1 THEN <<<<116>>, m>> ELSE <<>>) \o (IF u = 1 THEN <<m>> ELSE <<>>) \o (IF pw = 1 THEN <<m>> ELSE <<>>),
    p |-> p, q |-> IF w = 1 THEN q ELSE <<>>] :
      c \in {0, 1}, ka \in {0, 258}, w \in {0, 1}, wq \in 0..2, wr \in {0, 1}, u \in {0, 1}, pw \in {0, 1}, m \in {<<>>, <<119>>},
      p \in V(ver, {<<>>, <<UP>>}), q \in V(ver, {<<>>, <<P(24, <<0, 0, 0, 9>>)>>})}
ConnectsOk(ver) == {x \in Connects(ver) : /\ (x.i[4] = 0 => x.i[5] = 0 /\ x.i[6] = 0) /\ (ver = 5 \/ x.i[8] = 0 \/ x.i[7] = 1)}
ConnectsP == {[k |-> CONNECT, ver |-> 5, i |-> <<5, 1, 60, 1, 0, 0, 0, 0>>, s |-> <<Name, a, <<116>>, a>>, p |-> p, q |-> q] :
                p \in PS(CONNECT), q \in Will1}
Publishes(ver) ==
  {X(PUBLISH, ver, <<d, q, r, IF q = 0 THEN 0 ELSE id>>, <<t, m>>, p) :
     d \in {0, 1}, q \in 0..2, r \in {0, 1}, id \in {1, 258, 65535}, t \in {a, <<97, 47, 98>>, <<195, 169>>}, m \in {<<>>, <<0, 255>>}, p \in V(ver, PSmall(PUBLISH))}
PublishesOk(ver) == {x \in Publishes(ver) : x.i[2] > 0 \/ x.i[1] = 0}
PublishesP == {X(PUBLISH, 5, <<0, q, 0, q>>, <<t, a>>, p) : q \in {0, 1}, t \in {<<>>, a}, p \in PS(PUBLISH)}
PublishesPOk == {x \in PublishesP : x.s[1] # <<>> \/ \E n \in 1..Len(x.p) : x.p[n].id = 35}
Ids == {1, 258, 65535}
FiltersU == {a, <<35>>, <<43>>, <<97, 47, 43, 47, 35>>, SharePfx \o <<103, 47, 97>>}
Subs(ver) == {X(SUBSCRIBE, ver, <<id, o1>>, <<f1>>, p) : id \in Ids, o1 \in (IF ver = 5 THEN {0, 1, 2, 4, 8, 16, 32, 46} ELSE 0..2), f1 \in FiltersU, p \in V(ver, PS(SUBSCRIBE))}
        \cup {X(SUBSCRIBE, ver, <<7, 0, 1>>, <<f1, f2>>, <<>>) : f1 \in FiltersU, f2 \in FiltersU}
SubsOk(ver) == {x \in Subs(ver) : ~(ver = 5 /\ \E n \in 1..Len(x.s) : Bit(x.i[n + 1], 4) = 1 /\ IsShare(x.s[n]))}
SubAcks(k, ver) == {X(k, ver, <<id>> \o cs, <<>>, p) : id \in Ids, cs \in {<<0>>, <<1, 128>>, <<2, 0, 1>>}, p \in V(ver, PS(k))}
Unsubs(ver) == {X(UNSUBSCRIBE, ver, <<id>>, fs, p) : id \in Ids, fs \in {<<f>> : f \in FiltersU} \cup {<<a, <<35>>>>, <<a, a, a>>}, p \in V(ver, PS(UNSUBSCRIBE))}
AcksU(ver) == {X(k, ver, <<id, c>>, <<>>, p) : k \in Acks, id \in Ids, c \in (IF ver = 5 THEN {0, 16, 146} ELSE {0}), p \in V(ver, PS(PUBACK))}
Univ(ver) ==
  ConnectsOk(ver) \cup PublishesOk(ver) \cup SubsOk(ver) \cup Unsubs(ver) \cup AcksU(ver) \cup SubAcks(SUBACK, ver)
  \cup (IF ver = 5 THEN SubAcks(UNSUBACK, 5) ELSE {X(UNSUBACK, 4, <<id>>, <<>>, <<>>) : id \in Ids})
  \cup {X(CONNACK, ver, <<sp, c>>, <<>>, p) : sp \in {0}, c \in {0, 5}, p \in V(ver, PS(CONNACK))}
  \cup {X(CONNACK, ver, <<1, 0>>, <<>>, p) : p \in V(ver, {<<>>, <<UP>>})}
  \cup {X(k, ver, <<>>, <<>>, <<>>) : k \in {PINGREQ, PINGRESP}}
  \cup (IF ver = 5 THEN {X(DISCONNECT, 5, <<c>>, <<>>, p) : c \in {0, 4, 130}, p \in PS(DISCONNECT)}
                        \cup {X(AUTH, 5, <<c>>, <<>>, p) : c \in {0, 24}, p \in PS(AUTH)}
                        \cup ConnectsP \cup PublishesPOk
        ELSE {X(DISCONNECT, 4, <<>>, <<>>, <<>>)})

\* one packet of each shape, for the modes that work on bytes
Few(ver) ==
  {[k |-> CONNECT, ver |-> ver, i |-> <<IF ver = 5 THEN 5 ELSE 4, 1, 0, 1, 1, 0, 1, 1>>, s |-> <<Name, <<>>, a, a, a, a>>, p |-> <<>>, q |-> <<>>],
   X(CONNACK, ver, <<0, 0>>, <<>>, <<>>), X(PUBLISH, ver, <<0, 0, 0, 0>>, <<a, a>>, <<>>), X(PUBLISH, ver, <<1, 2, 1, 258>>, <<a, a>>, IF ver = 5 THEN <<UP>> ELSE <<>>),
   X(PUBACK, ver, <<1, 0>>, <<>>, <<>>), X(PUBREL, ver, <<1, IF ver = 5 THEN 146 ELSE 0>>, <<>>, <<>>),
   X(SUBSCRIBE, ver, <<1, 1>>, <<a>>, <<>>), X(SUBACK, ver, <<1, 1>>, <<>>, <<>>), X(UNSUBSCRIBE, ver, <<1>>, <<a>>, <<>>),
   X(PINGREQ, ver, <<>>, <<>>, <<>>), X(DISCONNECT, ver, IF ver = 5 THEN <<4>> ELSE <<>>, <<>>, IF ver = 5 THEN <<UP>> ELSE <<>>)}
  \cup (IF ver = 5 THEN {X(AUTH, 5, <<24>>, <<>>, <<P(21, a)>>), X(UNSUBACK, 5, <<1, 0>>, <<>>, <<>>)} ELSE {X(UNSUBACK, 4, <<1>>, <<>>, <<>>)})

VARIABLES x, n, w,            \* the packet; which byte is changed, and to what
          sent, fed, buf, lvl, out, dead
vars == <<x, n, w, sent, fed, buf, lvl, out, dead>>
Idle == n = 0 /\ w = 0 /\ sent = <<>> /\ fed = 0 /\ buf = <<>> /\ lvl = 0 /\ out = <<>> /\ dead = FALSE

Malformed(ver) == {<<48, 3, 0, 1, 35>>, <<64, 2, 0, 0>>, <<0, 0>>, <<192, 1, 0>>, <<192, 128, 0>>, <<97, 2, 0, 1>>}
Streams(ver) ==
  LET F == {Encode(f) : f \in {y \in Few(ver) : y.k \in {PUBLISH, PUBACK, PUBREL, SUBSCRIBE, PINGREQ, DISCONNECT, CONNACK}}}
  IN {<<f, g>> : f \in F, g \in F \cup Malformed(ver)}
     \cup (IF NFRAMES >= 3 THEN {<<f, g, h>> : f \in F, g \in F, h \in F \cup Malformed(ver)} ELSE {})

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Frames == sent
Stream == Cat(Frames)
Ver == x.ver

Init ==
  CASE MODE = "packets" -> x \in Univ(4) \cup Univ(5) /\ Idle
    [] MODE = "bytes" -> /\ x \in Few(4) \cup Few(5)
                         /\ n \in 1..Len(Encode(x)) /\ w \in 0..255
                         /\ sent = <<>> /\ fed = 0 /\ buf = <<>> /\ lvl = 0 /\ out = <<>> /\ dead = FALSE
    [] OTHER -> /\ x \in {X(PINGREQ, 4, <<>>, <<>>, <<>>), X(PINGREQ, 5, <<>>, <<>>, <<>>)}
                /\ sent \in Streams(x.ver)
                /\ lvl \in 0..3
                /\ n = 0 /\ w = 0 /\ fed = 0 /\ buf = <<>> /\ out = <<>> /\ dead = FALSE

Feed == /\ MODE = "parser" /\ ~dead /\ fed < Len(Stream)
        /\ \E k \in 1..(Len(Stream) - fed) :
             /\ buf' = buf \o SubSeq(Stream, fed + 1, fed + k)
             /\ fed' = fed + k
        /\ UNCHANGED <<x, n, w, sent, lvl, out, dead>>
\* where the specification leaves a choice, both ways
Results == LET r == NextOut(Ver, lvl, buf) IN
           CASE r.v \in {"pkt", "any"} -> {"pkt"} \cup (IF r.v = "any" THEN {"err"} ELSE {})
             [] r.v = "either" -> {"pkt", "err"}
             [] r.v = "none/err" -> {"none", "err"}
             [] r.v = "bad" -> {"err"}
             [] OTHER -> {"none"}
Take == /\ MODE = "parser" /\ ~dead
        /\ \E res \in Results :
             /\ res # "none"
             /\ out' = Append(out, [res |-> res, lvl |-> lvl, y |-> NextOut(Ver, lvl, buf)])
             /\ IF res = "pkt" THEN buf' = Rest(buf, Frame(buf)) /\ dead' = FALSE ELSE buf' = buf /\ dead' = TRUE
        /\ UNCHANGED <<x, n, w, sent, fed, lvl>>
SetLevel == /\ MODE = "parser" /\ ~dead /\ fed < Len(Stream)
            /\ \E m \in 0..3 : m # lvl /\ lvl' = m
            /\ UNCHANGED <<x, n, w, sent, fed, buf, out, dead>>
Next == Feed \/ Take \/ SetLevel
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Feed) /\ WF_vars(Take)

---------------------------------------------------------------------------
Printed == ~GEN \/ PrintT("PACKET " \o ToJson(x))

RoundTrip == MODE = "packets" => EncVerdict(x) = "pkt" /\ Decode(x.ver, Encode(x)) = Pkt(x)
Minimal == MODE = "packets" => LET b == Encode(x) IN Frame(b).last = Len(b) /\ Frame(b).body = 3 + (IF Len(Body(x)) > 127 THEN 1 ELSE 0)
Prefixes == MODE = "packets" => LET b == Encode(x) IN \A j \in 0..(Len(b) - 1) : Decode(x.ver, SubSeq(b, 1, j)).v = "more"
Trailing == MODE = "packets" => LET b == Encode(x) IN \A t \in {0, 48, 255} : Decode(x.ver, b \o <<t>>) = Decode(x.ver, b)
\* at every level the frame ends at the same place, and the header shows what the packet holds
Levels == MODE = "packets" =>
  LET b == Encode(x)
      h == NextOut(x.ver, 1, b)
  IN /\ h.v = "pkt" /\ h.x.k = x.k /\ h.x.p = x.p /\ h.x.ver = x.ver
     /\ HdrLen(x, Len(Body(x))) \in 0..Len(Body(x))
     /\ h.x.rest = SubSeq(Body(x), HdrLen(x, Len(Body(x))) + 1, Len(Body(x)))
     /\ NextOut(x.ver, 2, b).x.rest = Body(x)
     /\ NextOut(x.ver, 3, b).x.k = x.k

\* what goes through a gRPC stream message comes back the same
Relayed == MODE = "packets" => \A seq \in {<<0, 0>>, <<7, 1>>}, dir \in {0, 1} : RelayOut(x, seq, dir) = [y |-> x, seq |-> seq, dir |-> dir]

\* a changed byte: what is read is a packet that stands for itself, or nothing
Changed == MODE = "bytes" =>
  LET b == [Encode(x) EXCEPT ![n] = w]
      d == Decode(x.ver, b)
  IN CASE d.v = "pkt" -> EncVerdict(d.x) = "pkt" /\ Decode(x.ver, Encode(d.x)) = d /\ (b # Encode(x) => (d.x # x \/ Encode(d.x) # b))
       [] d.v = "either" -> EncVerdict(d.x) \in {"either", "pkt", "any", "refuse"}
       [] OTHER -> TRUE

\* the parser: its results are those of the frames, one by one
Ends == [j \in 0..Len(Frames) |-> Len(Cat(SubSeq(Frames, 1, j)))]
FramesRead == MODE = "parser" =>
  \A j \in 1..Len(out) :
    LET f == Frames[j]
        y == NextOut(Ver, out[j].lvl, f)
    IN IF out[j].y.v = "none/err" THEN y.v = "bad" ELSE out[j].y = y
NothingLost == MODE = "parser" =>
  LET got == Cardinality({j \in 1..Len(out) : out[j].res = "pkt"}) IN
  buf = SubSeq(Stream, Ends[got] + 1, fed)
\* nothing is read before its last byte is there, and everything that is there can be read
InTime == MODE = "parser" =>
  /\ \A j \in 1..Len(out) : out[j].res = "pkt" => Ends[j] <= fed
  /\ (~dead /\ Results = {"none"}) => (Len(out) = Len(Frames) \/ Ends[Len(out) + 1] > fed)
AllRead == MODE = "parser" => <>(dead \/ Len(out) = Len(Frames))
=============================================================================
