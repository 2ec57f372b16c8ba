----------------------------- MODULE MCBlocking -----------------------------
(* Explores Blocking.tla: every sequence of calls, and before each everything *)
(* the server may write in its course, up to the given lengths.  The          *)
(* invariants state B01 over the call last made.                              *)
EXTENDS Blocking

CONSTANTS Ver, Lone, NCall, NArr, Ids, Calls
C0 == [ver |-> Ver, cl |-> <<Ver, 0>>, cm |-> 1, given |-> 0, lone |-> Lone, down |-> 0]
A0 == [m |-> 0, q |-> 0, r |-> 0, rc |-> 0, n |-> 0, l |-> <<>>, fs |-> <<>>]

\* n: calls made; arr: what the server wrote on this connection; open: what was asked without waiting and not completed
VARIABLES B, n, arr, open, h
vars == <<B, n, arr, open, h>>
None == [op |-> "none"]
Init == B = NewBlocking(C0) /\ n = 0 /\ arr = <<>> /\ open = {} /\ h = None

Verdicts == IF Ver = 5 THEN {0, 128} ELSE {0}
Acks(k) == {[Pk(k, i) EXCEPT !.rc = c] : i \in Ids, c \in Verdicts}
Arrivals(op, q) ==
  {Pk("EOF", 0), Pk("BAD", 0), [Pk("PUBLISH", 0) EXCEPT !.m = 1]} \cup
  CASE op \in {"pub", "pubsend"} /\ q = 1 -> Acks("PUBACK")
    [] op \in {"pub", "pubsend"} /\ q = 2 -> Acks("PUBREC") \cup {Pk("PUBCOMP", i) : i \in Ids}
    [] op \in {"sub", "subsend"} -> {[Pk("SUBACK", i) EXCEPT !.l = <<c>>] : i \in Ids, c \in {1, 128}}
    [] op \in {"unsub", "unsubsend"} -> {[Pk("UNSUBACK", i) EXCEPT !.l = IF Ver = 5 THEN <<c>> ELSE <<>>] : i \in Ids, c \in Verdicts}
    [] op \in {"ping", "pingsend"} -> {Pk("PINGRESP", 0)}
    [] op \in {"connect", "connsend"} -> {[Pk("CONNACK", 0) EXCEPT !.rc = c, !.d = d] : c \in {0, 5}, d \in {0, 1}}
    [] OTHER -> {}
Alive(s) == \A i \in 1..Len(s) - 1 : ~Ends(s[i])
Writes(op, q) == {s \in UNION {[1..k -> Arrivals(op, q)] : k \in 0..NArr} : Alive(s)}

Args(op) ==
  CASE op \in {"pub", "pubsend"} -> {[A0 EXCEPT !.q = q, !.m = n + 1] : q \in 0..2}
    [] op \in {"sub", "subsend"} -> {[A0 EXCEPT !.l = <<64 + 1>>]}
    [] op \in {"unsub", "unsubsend"} -> {[A0 EXCEPT !.l = <<1>>]}
    [] op = "done" -> {[A0 EXCEPT !.m = m, !.n = i] : m \in 1..3, i \in Ids}
    [] OTHER -> {A0}
Quiet == {"popun", "clearun", "clearpend", "done", "end"}
Call(op) ==
  \E a0 \in Args(op) :
  \E fs \in IF op \in Quiet \/ (op \notin {"connect", "connsend"} /\ (~B.up \/ (arr # <<>> /\ Ends(arr[Len(arr)])))) THEN {<<>>} ELSE Writes(op, a0.q) :
  LET c == [op |-> op, a |-> [a0 EXCEPT !.fs = fs]] IN
  \E id \in IF Numbered(B, c) THEN Ids \ PendIds(B) ELSE {0} :
  LET s == Step(B, c, id) IN
  /\ s.r.ret # "block"
  /\ B' = s.B /\ n' = n + 1
  /\ h' = [op |-> op, a |-> c.a, id |-> id, b |-> B, r |-> s.r, arr |-> arr, open |-> open]
  /\ arr' = IF op \in {"connect", "connsend"} THEN fs ELSE arr \o fs
  /\ open' = CASE op = "subsend" /\ s.r.ret = "ok" -> open \cup {<<"s", id>>}
               [] op = "unsubsend" /\ s.r.ret = "ok" -> open \cup {<<"u", id>>}
               [] op = "pubsend" /\ s.r.ret = "ok" /\ a0.q > 0 -> open \cup {<<"p", id>>}
               [] op = "done" -> open \ {<< <<"s", "u", "p">>[a0.m], a0.n>>}
               [] op = "clearpend" -> {}
               [] op = "connect" /\ s.r.ret = "ok" /\ s.r.rc = 0 /\ s.r.x = 0 -> {}
               [] OTHER -> open
Next == n < NCall /\ \E op \in Calls : Call(op)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Waits == {"sub", "unsub", "pub", "ping"}
New(s, t) == SubSeq(t, Len(s) + 1, Len(t))
Before == h.b.buf \o h.a.fs                        \* what there was to read
Read == SubSeq(Before, 1, Len(Before) - Len(B.buf))
Sent == New(h.b.out, B.out)
Made == h # None
Waited == Made /\ h.op \in Waits /\ h.b.up /\ (h.op = "ping" \/ h.b.sess)
\* what answers the call, independent of how it is read
AckKind == CASE h.op = "sub" -> "SUBACK" [] h.op = "unsub" -> "UNSUBACK" [] h.op = "ping" -> "PINGRESP" [] h.a.q = 1 -> "PUBACK" [] OTHER -> "PUBREC"
Own(f, k) == f.k = k /\ f.id = h.id
Firsts(k, from) == {i \in from..Len(Before) : (Own(Before[i], k) \/ Ends(Before[i])) /\ \A j \in from..i - 1 : ~(Own(Before[j], k) \/ Ends(Before[j]))}
\* positions in Before of the packets the call takes as its answers; a position of an end stands for the error
Answers ==
  IF h.op = "pub" /\ h.a.q = 0 THEN {}
  ELSE LET one == Firsts(AckKind, 1) IN
       IF h.op = "pub" /\ h.a.q = 2 /\ one # {} THEN
         LET i == CHOOSE i \in one : TRUE IN
         IF Before[i].k = "PUBREC" /\ Before[i].rc < 128 THEN one \cup Firsts("PUBCOMP", i + 1) ELSE one
       ELSE one
Last == CHOOSE i \in Answers : \A j \in Answers : j <= i

\* every packet read is the answer or kept, once, in the order it came; what lies behind the answer is not read
Kept == Waited =>
  LET rest == SelectSeq([i \in 1..Len(Read) |-> [i |-> i, f |-> Read[i]]], LAMBDA x : x.i \notin Answers)
  IN /\ New(h.b.un, B.un) = [i \in 1..Len(rest) |-> rest[i].f]
     /\ SubSeq(B.un, 1, Len(h.b.un)) = h.b.un
     /\ Answers # {} => Len(Read) = IF Ends(Before[Last]) THEN Last - 1 ELSE Last
\* the result is that of the answer
Verdict == Waited =>
  IF Answers = {} THEN h.op = "pub" /\ h.a.q = 0 /\ h.r.ret = "ok" /\ h.r.rc = -1
  ELSE LET f == Before[Last] IN
       IF Ends(f) THEN h.r.ret = "err"
       ELSE /\ h.r.ret = "ok" /\ h.r.id = h.id
            /\ h.op = "sub" => h.r.l = f.l /\ (h.r.good = 1) = (\A i \in 1..Len(f.l) : f.l[i] < 128)
            /\ h.op = "unsub" => (h.r.good = 1) = (\A i \in 1..Len(f.l) : f.l[i] < 128)
            /\ h.op = "pub" => h.r.rc = f.rc /\ (h.r.good = 1) = (f.rc < 128)
\* its own packet, and a release exactly when the publication was accepted
Written == Waited =>
  /\ Len(Sent) >= 1 /\ Sent[1].id = (IF h.op = "ping" \/ (h.op = "pub" /\ h.a.q = 0) THEN 0 ELSE h.id)
  /\ New(<<Sent[1]>>, Sent) = IF h.op = "pub" /\ h.a.q = 2 /\ \E i \in Answers : Before[i].k = "PUBREC" /\ Before[i].rc < 128
                             THEN <<Pk("PUBREL", h.id)>> ELSE <<>>
\* nothing of an old connection is read, and nothing is written before CONNECT
Anew == Made /\ h.op \in {"connect", "connsend"} =>
  /\ Len(B.out) = 1 /\ B.out[1].k = "CONNECT"
  /\ B.buf = h.a.fs \/ B.buf = Tail(h.a.fs)
  /\ B.un = h.b.un
\* what is listed as open is what was asked without waiting and has not been completed
Listed == {<<x.t, x.id>> : x \in B.pend} = open /\ \A x, y \in B.pend : x.id = y.id => x = y
\* everything that arrived and is neither kept, told nor taken is still to be read: its order never changes
RECURSIVE Sub(_, _)
Sub(s, t) == s = <<>> \/ (t # <<>> /\ IF Head(s) = Head(t) THEN Sub(Tail(s), Tail(t)) ELSE Sub(s, Tail(t)))
Ordered == Sub(B.buf, arr)
Looking == Made /\ h.op \in Quiet \cup {"recv"} => B.out = h.b.out /\ (h.op # "popun" => Sub(B.un, h.b.un))
Refused == Made /\ h.r.ret = "err" /\ ~Waited /\ h.op \in Waits => B.out = h.b.out /\ B.un = h.b.un /\ B.pend = h.b.pend
NoSession == Lone = 1 /\ Made /\ h.op \in {"sub", "unsub", "pub", "subsend", "unsubsend", "pubsend"} => h.r.ret = "err"
=============================================================================
