"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification model-checked with TLC; behaviours of the specification replayed on the code and recorded executions of the code validated against it"
NOTE = {
    "S": "Exhaustive for the specification up to the history lengths in tools/unit_checks.py against statements over whole histories; the code is bound to it by replaying the calls leading to every transition and by validating seeded random histories call by call.",
    "Q": "Exhaustive for the specification up to the history lengths in tools/unit_checks.py, including its refinement by a map of FIFOs; the code is bound to it by replaying the calls leading to every transition and by validating seeded random histories (with saving, loading, full device, truncated file) call by call.",
    "C": "The byte layout and the stream parser are specified in Codec.tla and checked on MCCodec's universe (every packet shape, every single-byte change of small packets, every cut and level of short streams); the code is bound to it by sending the universe, seeded random packets, mutations, exhaustive short frames and streams through it and validating every result.",
    "G": "Relay.tla specifies what a stream message carries; TLC checks on the whole packet universe of MCCodec that relaying changes no byte; the code is bound to it by relaying the universe and seeded random packets and validating every result.",
    "F": "Wrap.tla specifies the foreign-language interfaces as the engine plus what they keep and leave out; TLC checks it against the bare engine given the same calls; the code is bound to it by validating seeded random call sequences at the methods and the C functions, over TLS and over QUIC too.",
    "L": "Wrap.tla specifies MQTT over TLS as the engine behind an ordered connection; TLC checks order, completeness and that nothing leaves before the handshake; the code is bound to it by validating seeded random histories (messages beyond every buffer, TLS 1.2 and 1.3, certificate refusals, ALPN, any fragmentation) against a rustls server.",
    "X": "Quic.tla specifies the QUIC engine (streams, closes, early data, retransmissions) over the MQTT engine of Engine.tla; TLC checks MCQuic with a scripted server within the budgets of tools/quic_checks.py; the code is bound to it by validating seeded random histories against a real quinn server over a simulated network with loss, reordering, small windows, slow readers, rejected early data and reconnects.",
    "B": "Blocking.tla specifies the blocking client; TLC checks MCBlocking (every sequence of calls and everything the server may write in their course, within the bounds of tools/blocking_checks.py) against statements over positions in what was read; the code is bound to it by running the real client against a scripted server over TCP (unrelated packets, refusals, ends and malformed packets at any point, identifiers going round) and validating every call.",
    "T": "Tokio.tla specifies the worker of the tokio client (commands, reads, timer, reconnection) over the MQTT engine of Engine.tla; TLC checks MCTokio (concurrent operations, answers in any order, refusals, closes, time-outs, every order of the worker's turns) within the budgets of tools/tokio_checks.py; the code is bound to it by running the real client under a virtual clock against a scripted server and asking for every recorded step whether some order of turns explains it. Plain TCP transport only.",
    "E": "Exhaustive for the specification within the bounds of tools/models.py; the code is bound to it by replaying the path of every transition of small models and by validating seeded random executions call by call.",
}
PENDING = "check under construction; not claimed yet"
CLAIMED = [p for p in ALL if p[0] in "ECSQGFLXTB"]
import sys
if os.path.exists(os.path.join(V, "tools/claimed.txt")):
    CLAIMED = open(os.path.join(V, "tools/claimed.txt")).read().split()
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                "level_note": NOTE.get(p, NOTE.get(p[0], NOTE["E"]))} for p in CLAIMED],
    "not_applicable": [{"property": p, "reason": PENDING} for p in ALL if p not in CLAIMED],
    "notes": "See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
