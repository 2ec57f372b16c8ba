#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
ENG="src/mqtt_client/engine.rs"; INF="src/mqtt_client/inflight.rs"; PQ="src/priority_queue.rs"
CS="src/mqtt_session/client_session.rs"; SS="src/mqtt_session/server_session.rs"
TOK="src/mqtt_client/tokio_async_client.rs"; STREAM="src/mqtt_serde/parser/stream.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=hook)))

OBS=["bytes returned by take_outgoing","events returned by handle_incoming / handle_tick / take_events","results of the command methods"]

p("E01","Packet identifiers are never zero and never shared by live exchanges",
 "Every packet identifier the client engine assigns to a publish, subscribe or unsubscribe is between 1 and 65535 and differs from the identifier of every exchange that is still queued or unacknowledged, in whatever order the earlier ones complete and also after the counter has wrapped around or the connection was replaced. An assigned identifier is the one carried by the packet on the wire and by its completion event.",
 ["histories","inputs"],"All histories of commands, acknowledgements, losses and reconnections, including more than 65535 allocations with long-lived exchanges in between.",
 "Tests allocate a handful of identifiers and acknowledge them at once; none wraps the 16-bit counter while an old exchange is open.",
 [ENG,CS],[("MqttEngine::next_packet_id",ENG),("ClientSession::next_packet_id",CS)],
 [("packet_id_counter","last identifier handed out",CS),("inflight entries","identifiers in use",INF)],OBS)
p("E02","A QoS 1/2 publish runs its handshake exactly once to one completion",
 "For each accepted QoS 1 publish the client sends one PUBLISH and reports completion exactly once, when its PUBACK arrives; for each QoS 2 publish it sends PUBLISH, answers a successful PUBREC with one PUBREL on the same channel, and reports completion exactly once, on PUBCOMP or on a PUBREC carrying an error reason (after which no PUBREL is sent). Acknowledgements for identifiers that are not outstanding change nothing, complete nothing and are not answered with a PUBREL, and a completion carries the identifier, QoS and reason code of its exchange.",
 ["histories","schedules"],"All interleavings of up to many concurrent QoS 0/1/2 publishes with broker acknowledgements in any order, repeated or stray, for MQTT 3.1.1 and 5.0.",
 "Tests acknowledge one message at a time in order with success; duplicate, stray, reordered and failing acknowledgements across several exchanges are not sampled.",
 [ENG,INF],[("MqttEngine::handle_packet (PubAck/PubRec/PubComp)",ENG),("InflightQueue::push_with_stream / acknowledge",INF)],
 [("inflight entries","unfinished outgoing exchanges",INF)],OBS)
p("E03","Incoming messages are delivered and acknowledged as their QoS demands",
 "Every incoming PUBLISH is handed to the application once with the topic, payload, QoS, retain and dup flag and properties it carried, in arrival order; with automatic acknowledgement QoS 1 is answered by one PUBACK and QoS 2 by one PUBREC per PUBLISH and one PUBCOMP per PUBREL with the same identifier, and without it nothing is sent. With automatic acknowledgement a QoS 2 PUBLISH repeated before its PUBREL is acknowledged again but not delivered again, also across a resumed session, while the same identifier after PUBREL, or in a new session, is a new message.",
 ["histories","inputs"],"All sequences of incoming PUBLISH/PUBREL with any QoS, flags, identifiers and repetitions, with and without automatic acknowledgement, interleaved with commands and reconnections.",
 "Tests feed one or two well-formed packets; repetition, interleaving and reconnection combinations are not explored.",
 [ENG],[("MqttEngine::handle_packet (Publish/PubRel)",ENG),("MqttEngine::is_new_publish",ENG)],
 [("qos2_received","identifiers of QoS 2 messages whose PUBREL is due",ENG)],OBS)
p("E04","Unfinished publishes never exceed the receive maximum, and none waits needlessly",
 "The number of QoS 1/2 publishes sent and not finished (PUBACK, PUBCOMP or an error PUBREC) never exceeds the receive maximum in force, be it the configured one or the one the server announced in CONNACK; as soon as a slot is free while connected and the outgoing buffer has room, the next engine call that processes input or a publish sends the next queued publish. Identifiers freed out of order free exactly one slot each.",
 ["histories","configurations"],"All histories of publishes, acknowledgements (any order, errors, strays) and reconnections, for receive maximum 1..65535 configured or announced.",
 "Tests use one or two messages with a fixed maximum and in-order acknowledgements.",
 [ENG,INF],[("InflightQueue::can_push_publish / occupies_slot / acknowledge",INF),("MqttEngine::process_queue",ENG)],
 [("publish_count","occupied slots",INF),("receive_maximum","limit in force",INF)],OBS)
p("E05","Queued publishes leave by priority, then in order, each exactly once",
 "Publishes that cannot be sent at once leave in order of descending priority and, within one priority, in the order they were accepted, each exactly once and unaltered (topic, payload, QoS, retain, identifier, properties). The queue holds at most 1000 publishes; overflowing drops exactly the oldest publish of the lowest priority present, and a publish that cannot be encoded is dropped with an error event instead of blocking the others.",
 ["histories","inputs"],"All sequences of publishes with any priorities, QoS and sizes while disconnected, blocked by receive maximum or blocked by a full outgoing buffer, and any drain order.",
 "Tests enqueue a few items; the interaction of priority, flow control, buffer limit, eviction and unencodable packets is not covered.",
 [ENG,PQ],[("PriorityQueue::enqueue/dequeue/peek",PQ),("MqttEngine::process_queue",ENG)],
 [("priority_queue","publishes accepted and not sent",ENG)],OBS)
p("E06","A resumed session resends exactly the unfinished exchanges, in order",
 "When the server reports the session as present, the client resends exactly the packets it has not had acknowledged: PUBLISH (marked DUP), PUBREL for QoS 2 messages already received by the server, and unacknowledged SUBSCRIBE/UNSUBSCRIBE, with their original identifiers and contents, each once, in their original order and before any newly queued publish. When the session is not present nothing is resent, and exchanges finished before the loss are never resent.",
 ["histories","crash_points"],"Connection loss at every point of every combination of concurrent outgoing exchanges, followed by reconnection with session present or not, repeatedly.",
 "Tests resume a session with a single message; the loss points inside several concurrent handshakes and the ordering are not explored.",
 [ENG,INF],[("MqttEngine::handle_packet (ConnAck)",ENG),("InflightQueue::get_all_for_reconnect",INF)],
 [("inflight entries with sequence numbers","what must be resent and in which order",INF)],OBS)
p("E07","Only MQTT 3.1.1 retransmits on timeout, once per timeout, until acknowledged",
 "On an MQTT 3.1.1 connection every unacknowledged packet is sent again (PUBLISH with DUP set, same identifier and contents, on the channel it was first sent on) each time the retransmission timeout passes without acknowledgement, never earlier, at most once per tick, and never again once acknowledged. On an MQTT 5.0 connection the client never retransmits while connected.",
 ["schedules","histories"],"All interleavings of sends, acknowledgements and clock ticks of any size, for any retransmission timeout including zero.",
 "Tests sleep once for one message; repeated timeouts, several entries with different ages, identifier reuse and acknowledgement between timeouts are not explored.",
 [INF,ENG],[("InflightQueue::get_expired_with_stream",INF),("MqttEngine::handle_retransmissions",ENG)],
 [("deadline_queue","pending retransmission deadlines",INF)],OBS)
p("E08","Reconnection is offered once per delay, with capped exponential backoff",
 "After each scheduled reconnection the client reports the attempt number and a delay of min(base * 2^n, maximum) for the n-th consecutive attempt (exponent capped at 10), asks for a reconnection exactly once, not before that delay has passed, and after the configured maximum number of attempts schedules no further one. A successful CONNACK, and nothing else but an explicit reset, starts the sequence anew; a refused CONNACK does not.",
 ["histories","configurations"],"All histories of losses, schedules, ticks, refused and accepted CONNACKs, for all base/maximum delays and attempt limits.",
 "Tests check a few attempts for one configuration and never interleave refusals, ticks and resets.",
 [ENG],[("MqttEngine::schedule_reconnect / reset_reconnect_state / handle_tick",ENG)],
 [("reconnect_attempts","consecutive attempts",ENG),("next_reconnect_at","pending deadline",ENG)],OBS)
p("E09","An idle connection is pinged and a silent one is given up, never sooner",
 "With automatic keep-alive the client sends PINGREQ when nothing was sent for the keep-alive interval and no ping is outstanding, never while one is outstanding and never when keep-alive is zero or automatic keep-alive is off. A connection is declared lost (reconnect needed, then scheduled) exactly when a PINGREQ has been unanswered for keep-alive times the timeout multiplier; a PINGRESP in time or a replaced transport cancels that, and absence of other traffic alone never does it.",
 ["schedules","configurations"],"All schedules of traffic, ticks and PINGRESPs for any keep-alive, multiplier and automatic keep-alive setting.",
 "Tests sleep through one interval; boundaries, outstanding pings across traffic, and reconnections are not covered.",
 [ENG],[("MqttEngine::handle_tick / send_ping_at",ENG)],
 [("ping_sent_at","outstanding PINGREQ",ENG),("last_packet_sent","idle clock",ENG)],OBS)
p("E10","Sleeping until the announced wake-up time never misses a deadline",
 "The wake-up time the engine announces is never later than the earliest pending duty (reconnection, PINGREQ, ping timeout, 3.1.1 retransmission), it announces one whenever a duty is pending, and a tick at the announced time always performs the duty or moves the announced time forward. A driver that only sleeps until the announced time therefore meets every deadline and never spins.",
 ["schedules","histories"],"All engine histories: after every call the announced time is compared with every duty pending then, and a tick is taken at exactly that time.",
 "Tests query the wake-up time in one or two states and never relate it to all pending duties.",
 [ENG,INF],[("MqttEngine::next_tick_at",ENG),("InflightQueue::next_expiration",INF)],
 [("next_reconnect_at / ping_sent_at / deadline_queue","pending duties",ENG)],["return value of next_tick_at after every call"])
p("E11","Buffer limits push back without losing, inventing or reordering anything",
 "With a limit on outgoing packets, a command either is refused as full and leaves no trace, or its packet is sent exactly once; queued publishes wait and go out as room appears; required acknowledgements and session resends are never dropped; and packets leave in the order they were accepted. With a limit on pending events the engine pauses and resumes incoming processing without dropping, repeating or reordering any packet.",
 ["histories","configurations"],"All histories of commands, input chunks, drains and event reads for all limits from 0 or 1 upwards.",
 "Tests fill one buffer with one kind of packet; mixtures of commands, acknowledgements and limits are not explored.",
 [ENG],[("MqttEngine::enqueue_packet / process_queue / handle_incoming",ENG)],
 [("outgoing_buffer","encoded packets not yet taken",ENG),("events","events not yet taken",ENG)],OBS)
p("E12","The connection state follows the protocol and CONNECT always comes first",
 "The engine is connected exactly from an accepting CONNACK until a DISCONNECT in either direction, a lost or replaced transport, or a refusing CONNACK; on every new transport the first packet is a CONNECT carrying the configured client id, clean start, keep-alive, credentials, will and session options, no bytes of the previous transport precede or follow it, and queued publishes wait for CONNACK. Every CONNACK and server DISCONNECT is reported by exactly one matching event, in order, and a malformed packet by an error event.",
 ["histories","configurations"],"All histories of connects, losses at any point (including inside a packet), replacements, disconnects and server packets, for all option combinations.",
 "Tests run one happy connect per version; losses between bytes of a packet, connects with queued traffic and option combinations are not covered.",
 [ENG,"src/mqtt_client/opts.rs"],[("MqttEngine::connect / handle_connection_lost / reset_for_new_transport / disconnect",ENG)],
 [("is_connected","connection state",ENG),("parser","partial incoming packet",ENG)],OBS)
p("E13","Each subscribe or unsubscribe is sent as asked and completed by its own ack",
 "An accepted subscribe or unsubscribe sends exactly one packet with the given filters, options and properties in order; every SUBACK and UNSUBACK is reported once with its identifier, reason codes in order and properties, and ends the exchange with that identifier so that it is neither resent nor keeps its identifier reserved. A subscribe or unsubscribe does not occupy a receive-maximum slot and is not blocked by a full window.",
 ["histories","inputs"],"All histories mixing subscribes, unsubscribes, publishes and their acknowledgements in any order, both protocol versions, any filter lists and options.",
 "Tests send one subscription and one acknowledgement.",
 [ENG],[("MqttEngine::subscribe / unsubscribe / handle_packet (SubAck/UnsubAck)",ENG)],
 [("inflight entries","unfinished exchanges",INF)],OBS)
p("C01","Every packet encodes to the bytes MQTT prescribes and decodes back unchanged",
 "For MQTT 3.1.1 and 5.0, encoding any well-formed packet yields one complete frame in the layout the standard prescribes (fixed header with the packet's flags, minimal remaining length and variable byte integers, fields and properties in order), and decoding those bytes consumes exactly all of them and yields the same packet, also when other data follows. A packet value that MQTT cannot represent (a string or binary field over 65535 bytes, a body or variable byte integer over 268435455, U+0000 in a string, QoS 3, a QoS 1/2 publish without identifier) is refused, never encoded as something else.",
 ["inputs"],"All packets of all types: every optional field present or absent, every property, lengths around 0, 127/128, 16383/16384, 65535, 2097151/2, 268435455/6, all flag combinations.",
 "Tests round-trip fixed examples; boundary lengths, property combinations and the exact bytes are sampled sparsely.",
 ["src/mqtt_serde/control_packet.rs","src/mqtt_serde/mod.rs","src/mqtt_serde/mqttv5","src/mqtt_serde/mqttv3"],
 [("MqttControlPacket::to_bytes / encode_to_buffer / from_bytes implementations","src/mqtt_serde")],(),["to_bytes / from_bytes results"])
p("C02","How the byte stream is cut never changes what is decoded",
 "Feeding the same byte stream to the stream parser (or reading it from a reader) in pieces of any sizes yields the same packets in the same order and an error at the same packet as feeding it at once; a packet is produced as soon as its last byte has arrived and never before. An incomplete packet never yields a packet or, if its beginning is valid, an error; data after a complete packet never influences how that packet is decoded.",
 ["inputs","schedules"],"All packet sequences, all cuts (including inside the fixed header and the length), both versions, with malformed packets at any position.",
 "Tests cut at a few places of a few packets.",
 [STREAM],[("MqttParser::feed / next_packet",STREAM),("packet_frame_len","src/mqtt_serde/parser/leveled.rs"),("MqttStream::next",STREAM)],
 [("buffer","bytes not yet decoded",STREAM)],["sequence of next_packet results"])
p("C03","Malformed input is rejected without crashing, hanging or over-reading",
 "No byte sequence makes decoding panic, loop or read past the packet's declared length: each call returns a packet, asks for more data, or reports an error. A frame the standard calls malformed is never returned as a packet: a length that disagrees with the contents or a truncated field, a variable byte integer over four bytes or not in its shortest form, a reserved packet type, wrong fixed-header flags, reserved flag or option bits set, QoS 3, a zero packet identifier, inconsistent will flags in CONNECT, an unknown property identifier, invalid UTF-8, an empty SUBSCRIBE or an empty list of MQTT 5 filters or reason codes.",
 ["inputs"],"All byte strings up to the bound, all single mutations of valid packets of every type, both versions, strict decoding.",
 "Tests contain some hand-written malformed packets per type.",
 ["src/mqtt_serde",STREAM],[("from_bytes implementations and length checks","src/mqtt_serde")],(),["from_bytes / next_packet results"])
p("C04","Levelled parsing agrees with full parsing",
 "For every stream, parsing at the type-only, raw-body or headers level walks over exactly the same packet boundaries as full parsing and reports the same packet type and flags; the raw body is exactly the bytes after the fixed header, and the headers level reports the same identifiers, flags, codes, topic, keep-alive and properties that full parsing yields, with the rest of the body untouched as payload. Changing the level between packets loses or repeats nothing.",
 ["inputs","schedules"],"All packet sequences, cuts and levels, level changes between packets, both versions.",
 "Tests check each level on isolated packets.",
 [STREAM,"src/mqtt_serde/parser/leveled.rs"],[("MqttParser::next_parsed",STREAM),("parse_headers_only / parse_raw_body / parse_type_only","src/mqtt_serde/parser/leveled.rs")],(),["next_parsed results"])
p("C05","Topic, filter and UTF-8 rules are enforced exactly",
 "With strict checking (the default), a filter in an incoming SUBSCRIBE or UNSUBSCRIBE is accepted exactly when it is well formed: non-empty (an MQTT 5 UNSUBSCRIBE may carry an empty one), `+` alone in its level, `#` alone in the last level, and for MQTT 5 `$share/` followed by a name without wildcards, `/` and a well-formed filter. The topic of an incoming PUBLISH is accepted exactly when it contains no wildcard and is non-empty unless an MQTT 5 topic alias replaces it. A string anywhere in an incoming packet is accepted exactly when it is valid UTF-8 without U+0000 (surrogates, overlong forms and values over U+10FFFF are invalid).",
 ["inputs"],"All strings over an alphabet of separators, wildcards, NUL, multi-byte characters and broken sequences up to the bound, in every position.",
 "Tests list some good and bad examples.",
 ["src/mqtt_serde/mqttv5/subscribe.rs","src/mqtt_serde/mod.rs","src/mqtt_serde/base_data.rs"],[("topic/filter/UTF-8 validation","src/mqtt_serde")],(),["from_bytes results"])
p("S01","A client session resends exactly what is unacknowledged",
 "After any history a client session's resend set is exactly the QoS 1/2 publishes handed to it that have had neither PUBACK nor PUBREC, marked DUP, plus the releases handed to it that have had no PUBCOMP, each with its original identifier and contents; a message already released is never resent as PUBLISH. Incoming publishes are answered as their QoS demands, an error PUBREC yields no release, and identifiers cycle through 1..65535.",
 ["histories"],"All histories of outgoing/incoming packets over several identifiers in any order including repeats and strays, and clearing.",
 "Tests follow a few straight-line handshakes.",
 [CS],[("ClientSession handlers",CS)],[("unacknowledged_publishes / unacknowledged_pubrels","open exchanges",CS)],["handler results","resend_pending_messages"])
p("S02","A server session respects the client's receive maximum and its order",
 "A server session hands out queued messages in order, each once and unaltered, and never has more handed-out QoS 1/2 messages unfinished (PUBACK, PUBCOMP or an error PUBREC) than the client's receive maximum, while every finish frees exactly one slot and none waits while a slot is free; QoS 0 messages take no slot. Releases are resent until PUBCOMP without taking slots. Incoming publishes are queued once per current subscription and answered as their QoS demands, and subscribing again to a filter replaces instead of adding.",
 ["histories"],"All histories of subscribe, unsubscribe, publish, fetch and acknowledgement operations over several identifiers for any receive maximum.",
 "Tests follow a few straight-line cases.",
 [SS],[("ServerSession handlers",SS)],[("inflight_messages / pending_publishes","window and queue",SS)],["handler results","resend_pending_messages results"])
p("Q01","The priority queue is a bounded priority FIFO and survives saving",
 "The queue always returns the highest priority present and, within it, the oldest item; it never holds more than its capacity, evicting exactly the oldest item of the lowest priority present (possibly the newcomer); length, emptiness, peek and iteration always agree with the contents. Saving to a file and loading yields a queue that behaves identically from then on, and a save that could not be written or a file that is incomplete is reported as an error.",
 ["histories","inputs"],"All operation sequences over several priorities and capacities from 0 upwards, with save/load at any point.",
 "Tests exercise a few fixed sequences.",
 [PQ],[("PriorityQueue methods",PQ)],[("map / size / capacity","contents",PQ)],["method results"])
p("X01","Over QUIC each exchange stays on its own stream and control stays on control",
 "Over QUIC the handshake, pings and disconnect travel on the control stream and each publish, subscribe or unsubscribe travels whole and in order on the stream it was addressed to (by default one dedicated stream for publishes and one for subscriptions); every acknowledgement the client sends goes out on the stream that carried the packet it answers, and retransmissions on the same connection return to the stream first used (after a reconnect, a resumed session sends them on the control stream). Operations on finished, reset or unknown streams are refused and change nothing. A server whose certificate does not verify for the given name is sent nothing of the session, and the configured application protocol is the one negotiated.",
 ["histories","schedules"],"All histories of operations and server packets over several streams, with and without stream closure, loss-free and lossy datagram schedules.",
 "Tests use one or two streams on a clean path.",
 [ENG],[("QuicMqttEngine::publish_on / subscribe_on / send side of handle_tick",ENG)],
 [("data_streams / control_stream / default streams","routing state",ENG)],["bytes received per stream by a real QUIC server endpoint","events"])
p("X02","QUIC streams are framed independently and delivered completely",
 "Packets arriving on different QUIC streams are decoded independently, so any interleaving and cutting of the streams' bytes yields per stream exactly its packets in order, each reported once with its stream; a malformed packet, reset or close on a data stream affects that stream only, while loss of the control stream ends the MQTT connection. Bytes received before the orderly close of a stream are processed before that close is reported.",
 ["schedules","fault_sequences"],"All interleavings of byte fragments of several streams with closes, resets, malformed packets and datagram loss or reordering.",
 "Tests interleave two streams in one fixed way.",
 [ENG],[("QuicMqttEngine::handle_tick receive side",ENG)],[("per-stream parser","partial packet",ENG)],["events","connection state"])
p("X03","QUIC 0-RTT data is sent once: accepted as sent or replayed exactly",
 "With 0-RTT enabled, commands are accepted before the connection is established only while early data is being attempted; if the server accepts it, nothing is sent again, and if it rejects it, exactly the early bytes of every stream are sent once more in order as ordinary data (or none if replay is off). Status changes are reported once each in the order they happen.",
 ["histories","fault_sequences"],"All sequences of early commands on several streams, with acceptance or rejection, replay on or off, and repeated reconnections.",
 "Tests cover one early publish per outcome.",
 [ENG],[("early stream journal",ENG)],[("early_stream_journal / zero_rtt_status","early bytes per stream",ENG)],["bytes received per stream by a real QUIC server endpoint","events"])
p("X04","A graceful QUIC close delivers everything accepted before it",
 "When the application disconnects and closes, or finishes a stream, every packet accepted before (up to and including DISCONNECT) reaches the peer before the end of the stream or connection, nothing accepted later does, and the close carries the given code and reason. (The close waits for streams that flow control holds up, not for data that congestion control or pacing still holds back.) A reconnect starts from fresh streams with CONNECT as the first bytes and nothing left from the previous connection.",
 ["histories","fault_sequences"],"All sequences of publishes, finishes, closes and reconnects with slow, lossy or flow-controlled paths.",
 "Tests close on an idle clean path.",
 [ENG],[("disconnect_and_close / finish_stream / reset_connection_state",ENG)],[("pending_close / finishing","deferred close",ENG)],["bytes and close code seen by a real QUIC server endpoint"])
p("T01","Each awaited async operation returns its own outcome, exactly once",
 "Every awaited connect, publish, subscribe, unsubscribe and ping of the async client resolves exactly once, with the outcome the server gave for that operation's own packet, whatever the number of concurrent operations and the order of acknowledgements, or with an error when its time-out passes or, for a connect or a ping, when the connection it waits on ends; it never stays pending after that. A publish, subscribe or unsubscribe survives a loss and resolves with the answer given after the reconnection. Incoming messages and lifecycle changes are reported to the handler once each in order.",
 ["schedules","fault_sequences"],"All interleavings of concurrent operations with server acknowledgements in any order, delays, refusals and connection losses at any point.",
 "Tests run one operation at a time against a friendly server.",
 [TOK],[("TokioAsyncClientWorker event dispatch",TOK)],[("pending_* maps","awaiting callers",TOK)],["results of *_sync calls","handler callbacks"])
p("T02","The async client reconnects as configured and never against the user's will",
 "After an unexpected loss the async client with automatic reconnection connects again by itself, one attempt at a time with the configured backoff, sends CONNECT first and resumes queued work; with it switched off, or after the application asked to disconnect, it never connects again by itself, not even for an attempt already scheduled or in progress. It holds at most one connection, and a later connect request is always acted upon. Messages accepted before a loss are delivered after reconnection as session rules demand, and none is silently dropped.",
 ["fault_sequences","schedules"],"All sequences of losses (before CONNACK, mid-packet, idle), refusals, disconnect requests and reconnections.",
 "Tests cover a single loss, if any, against a friendly server.",
 [TOK],[("reconnect handling in the worker loop",TOK)],[("user_disconnected / auto_reconnect","policy",TOK)],["connections accepted by a scripted server","bytes per connection"])
p("B01","Each blocking call returns its own answer; nothing else that arrives is lost",
 "Every call of the blocking client writes exactly the packet it was asked for, in the protocol version configured: a connect writes CONNECT with every configured option first on a new connection, and a publish, subscribe or unsubscribe bears an identifier between 1 and 65535 that no request still listed as pending holds. A waiting call (connect, publish, subscribe, unsubscribe, ping) returns the codes, properties and success verdict of the server's answer to that very packet, whatever else arrives before it; a connect takes only CONNACK as its answer and fails on anything else. A QoS 2 publish is released with one PUBREL exactly when a PUBREC accepts it and otherwise returns that refusal. Every other packet that a waiting publish, subscribe, unsubscribe or ping reads is kept once, unaltered and in order among the unhandled packets, and what lies behind the answer is left to be read next. If the connection ends or a malformed packet comes first, the call returns an error and sends nothing further. A request sent without waiting is listed as pending with its identifier until the application completes or clears it or a connect is accepted without a session, and nothing of an earlier connection is read on a new one.",
 ["inputs","histories","fault_sequences"],"All sequences of blocking and non-waiting calls, connections and inspections of the client's lists, with every sequence of packets (answers to other packets, refusals, messages, repeated or stray acknowledgements, malformed packets, ends inside a packet) in any pieces before, between and behind the answers, identifiers going round, both protocol versions, every option.",
 "The client's own tests cover constructors and result helpers; the rest needs a live broker that answers each request at once, so unrelated packets, refusals, ends and wrapped identifiers never occur.",
 ["src/mqtt_client/client.rs",STREAM,CS],[("MqttClient::recv_for_packet / handle_qos2 / receive_for_puback","src/mqtt_client/client.rs"),("MqttClient::connected / connect_send","src/mqtt_client/client.rs"),("MqttStream::next",STREAM)],
 [("unhandled_packets","packets read that were no answer","src/mqtt_client/client.rs"),("pending_subscribes / pending_unsubscribes / pending_publishes","requests sent without waiting","src/mqtt_client/client.rs")],
 ["results of the calls","unhandled and pending lists","bytes received by a scripted TCP server"])
p("F01","The foreign-language interface behaves exactly like the engine it wraps",
 "Driving a client (plain, over TLS or over QUIC) through the C/FFI interface with any sequence of calls yields the same outgoing bytes, the same events in the same order and the same results as driving the native engine with the same calls, with every option passed through unaltered. No call sequence, including null or empty arguments where permitted, corrupts memory or loses events.",
 ["histories","configurations"],"All call sequences and options of the FFI engines (plain, TLS, QUIC), both protocol versions.",
 "FFI tests check construction and one or two calls.",
 ["flowsdk_ffi/src/engine.rs","flowsdk_ffi/src/lib.rs"],[("MqttEngineFFI methods","flowsdk_ffi/src/engine.rs")],(),["bytes, events and results returned by the FFI functions"])
p("L01","MQTT over TLS carries exactly the engine's packets, whole and in order",
 "Over TLS the server receives exactly the packets the engine sends, unaltered and in order, and the engine processes exactly the packets the server sends, whatever their size and however the encrypted bytes are cut into pieces. Nothing is sent before the handshake completes, CONNECT comes first, the configured ALPN protocol, roots, verification choice and client certificate take effect, and a server certificate that does not verify ends the handshake unless verification was turned off.",
 ["histories","configurations"],"All histories of operations, ticks and server packets of any size, in any pieces, with every TLS option, TLS 1.2 and 1.3.",
 "Tests only construct the TLS engine or push a few bytes through it.",
 ["src/mqtt_client/tls_engine.rs"],[("TlsMqttEngine::handle_tick / handle_socket_data / take_socket_data","src/mqtt_client/tls_engine.rs")],[("tls_connection / incoming_plaintext","TLS state, bytes not yet handled","src/mqtt_client/tls_engine.rs")],["plaintext seen by a real TLS server","events"])
p("G01","Relaying a packet through gRPC changes nothing",
 "Any MQTT 3.1.1 or 5.0 packet converted to its gRPC stream message, encoded, decoded and converted back encodes to the same MQTT bytes: same type, flags, identifiers, strings, payload, reason codes and properties in the same order. Sequence number and direction are carried unchanged, and a message carrying no packet yields none.",
 ["inputs"],"All well-formed packets of all types with all property combinations, both versions.",
 "Tests convert a few packets with few properties.",
 ["mqtt_grpc_duality/src/lib.rs"],[("convert_mqtt_to_stream_message / convert_stream_message_to_mqtt_packet","mqtt_grpc_duality/src/lib.rs")],(),["converted packets"])
os.chdir(os.path.join(os.path.dirname(__file__),".."))
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
