//! Drives the client session, the server session and the priority queue.
use crate::codec::{ofps, to_prop};
use crate::rng::Rng;
use crate::wire::{self, pk, Pk};
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::{puback::MqttPubAck, pubcomp::MqttPubComp, publish::MqttPublish, pubrec::MqttPubRec, pubrel::MqttPubRel};
use flowsdk::mqtt_serde::mqttv5::{subscribe::{MqttSubscribe, TopicSubscription}, unsubscribe::MqttUnsubscribe};
use flowsdk::mqtt_session::{client_session::ClientSession, server_session::ServerSession};
use flowsdk::priority_queue::PriorityQueue;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct X { pub pr: i64, pub x: i64 }
#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Call {
    pub op: String,
    #[serde(default)]
    pub f: Pk,
    #[serde(default)]
    pub n: i64,
    #[serde(default)]
    pub l: Vec<String>,
    #[serde(default)]
    pub x: X,
}
fn call(op: &str) -> Call { Call { op: op.into(), ..Default::default() } }

enum Obj { Cs(ClientSession), Ss(ServerSession), Pq(PriorityQueue<i32, (i64, String)>) }
pub struct Unit { kind: &'static str, cap: i64, o: Obj, ops: Vec<Value>, dir: String, dead: bool }

fn publish(f: &Pk) -> MqttPublish {
    MqttPublish {
        dup: f.d == 1, qos: f.q as u8, retain: f.r == 1, topic_name: wire::topic(f.m),
        packet_id: if f.q > 0 { Some(f.id as u16) } else { None }, payload: wire::payload(f.m),
        properties: wire::plist("PUB>", f.p).iter().map(|p| to_prop(p).unwrap()).collect(),
    }
}
fn show(p: &MqttPacket) -> Pk {
    let t = |k: &str, id: u16, rc: u8, ps: &[flowsdk::mqtt_serde::mqttv5::common::properties::Property]| Pk { id: id as i64, rc: rc as i64, p: wire::ptag("ACK", &ofps(ps)), ..pk(k) };
    match p {
        MqttPacket::Publish5(f) => Pk {
            id: f.packet_id.map(|i| i as i64).unwrap_or(0), q: f.qos as i64, d: f.dup as i64, r: f.retain as i64,
            m: wire::msgno(f.topic_name.as_bytes(), &f.payload), p: wire::ptag("PUB>", &ofps(&f.properties)), ..pk("PUBLISH")
        },
        MqttPacket::PubAck5(f) => t("PUBACK", f.packet_id, f.reason_code, &f.properties),
        MqttPacket::PubRec5(f) => t("PUBREC", f.packet_id, f.reason_code, &f.properties),
        MqttPacket::PubRel5(f) => t("PUBREL", f.packet_id, f.reason_code, &f.properties),
        MqttPacket::PubComp5(f) => t("PUBCOMP", f.packet_id, f.reason_code, &f.properties),
        _ => pk("OTHER"),
    }
}
fn text(x: i64) -> String { match x % 4 { 0 => String::new(), 1 => format!("é\"\n{x}"), 2 => "\u{0}\\}]".repeat(3), _ => "y".repeat((x % 40) as usize) } }
fn item(p: i64, i: &(i64, String)) -> Value { json!({"pr": p, "x": if text(i.0) == i.1 { i.0 } else { -99 }}) }

impl Unit {
    pub fn new(kind: &'static str, cap: i64, dir: &str) -> Unit {
        let o = match kind {
            "cs" => Obj::Cs(ClientSession::new()),
            "ss" => Obj::Ss(ServerSession::new(cap as u16)),
            _ => Obj::Pq(PriorityQueue::new(cap as usize)),
        };
        Unit { kind, cap, o, ops: vec![], dir: dir.into(), dead: false }
    }
    pub fn call(&mut self, c: &Call) -> Value {
        if self.dead { return Value::Null; }
        let dir = self.dir.clone();
        let r = catch_unwind(AssertUnwindSafe(|| match &mut self.o {
            Obj::Cs(s) => cs(s, c),
            Obj::Ss(s) => ss(s, c),
            Obj::Pq(q) => pq(q, c, &dir),
        }));
        let o = r.unwrap_or_else(|_| { self.dead = true; json!({"ret": "panic", "out": [], "n": 0, "all": true}) });
        let mut v = serde_json::to_value(c).unwrap();
        v["o"] = o.clone();
        self.ops.push(v);
        o
    }
    pub fn done(self, fam: &str) -> Value { json!({"fam": fam, "kind": self.kind, "cap": self.cap, "ops": self.ops}) }
}

fn ok(out: Vec<Pk>) -> Value { json!({"ret": "ok", "out": out, "n": 0, "all": true}) }
fn cs(s: &mut ClientSession, c: &Call) -> Value {
    let id = c.f.id as u16;
    let (rc, none) = (c.f.rc as u8, Vec::new);
    ok(match c.op.as_str() {
        "send" => { s.handle_outgoing_publish(publish(&c.f)); vec![] }
        "sendrel" => { s.handle_outgoing_pubrel(MqttPubRel { packet_id: id, reason_code: rc, properties: none() }); vec![] }
        "publish" => s.handle_incoming_publish(publish(&c.f)).iter().map(show).collect(),
        "pubrel" => vec![show(&MqttPacket::PubComp5(s.handle_incoming_pubrel(MqttPubRel { packet_id: id, reason_code: rc, properties: none() })))],
        "puback" => { s.handle_incoming_puback(MqttPubAck { packet_id: id, reason_code: rc, properties: none() }); vec![] }
        "pubrec" => s.handle_incoming_pubrec(MqttPubRec { packet_id: id, reason_code: rc, properties: none() }).map(MqttPacket::PubRel5).iter().map(show).collect(),
        "pubcomp" => { s.handle_incoming_pubcomp(MqttPubComp { packet_id: id, reason_code: rc, properties: none() }); vec![] }
        "resend" => s.resend_pending_messages().iter().map(show).collect(),
        "clear" => { s.clear(); vec![] }
        "next" => {
            // each of the n identifiers follows the one before it
            let mut last = 0u16;
            let mut all = true;
            for i in 0..c.n {
                let id = s.next_packet_id();
                all &= id != 0 && (i == 0 || id == last % 65535 + 1);
                last = id;
            }
            return json!({"ret": "ok", "out": [], "n": last, "all": all});
        }
        x => panic!("{x}"),
    })
}
fn ss(s: &mut ServerSession, c: &Call) -> Value {
    let id = c.f.id as u16;
    let (rc, none) = (c.f.rc as u8, Vec::new);
    ok(match c.op.as_str() {
        "sub" => {
            let v = c.l.iter().map(|f| TopicSubscription::new(f.clone(), c.f.q as u8, c.f.r == 1, false, 0)).collect();
            s.handle_incoming_subscribe(MqttSubscribe::new(id, v, vec![]));
            vec![]
        }
        "unsub" => { s.handle_incoming_unsubscribe(MqttUnsubscribe::new(id, c.l.clone(), vec![])); vec![] }
        "publish" => s.handle_incoming_publish(publish(&c.f)).iter().map(show).collect(),
        "pubrel" => vec![show(&MqttPacket::PubComp5(s.handle_incoming_pubrel(MqttPubRel { packet_id: id, reason_code: rc, properties: none() })))],
        "puback" => { s.handle_incoming_puback(MqttPubAck { packet_id: id, reason_code: rc, properties: none() }); vec![] }
        "pubrec" => s.handle_incoming_pubrec(MqttPubRec { packet_id: id, reason_code: rc, properties: none() }).map(MqttPacket::PubRel5).iter().map(show).collect(),
        "pubcomp" => { s.handle_incoming_pubcomp(MqttPubComp { packet_id: id, reason_code: rc, properties: none() }); vec![] }
        "resend" => s.resend_pending_messages().iter().map(show).collect(),
        x => panic!("{x}"),
    })
}
fn pq(q: &mut PriorityQueue<i32, (i64, String)>, c: &Call, dir: &str) -> Value {
    let f = format!("{dir}/queue.json");
    let mut ret = "ok";
    let out = match c.op.as_str() {
        "enq" => { q.enqueue(c.x.pr as i32, (c.x.x, text(c.x.x))); vec![] }
        "deq" => q.dequeue().iter().map(|(p, x)| item(*p as i64, x)).collect(),
        "peek" => q.peek().iter().map(|(p, x)| item(**p as i64, x)).collect(),
        "len" => vec![],
        "iter" => q.iter().map(|(p, x)| item(*p as i64, x)).collect(),
        "clear" => { q.clear(); vec![] }
        "swap" => {
            match q.save_to_file(&f).and_then(|_| PriorityQueue::load_from_file(&f)) { Ok(n) => *q = n, Err(_) => ret = "err" }
            vec![]
        }
        // a device without space
        "full" => { if q.save_to_file("/dev/full").is_err() { ret = "err" } vec![] }
        // only the first part reached the disk
        "cut" => {
            q.save_to_file(&f).unwrap();
            let b = std::fs::read(&f).unwrap();
            std::fs::write(&f, &b[..c.n as usize % b.len()]).unwrap();
            match PriorityQueue::load_from_file(&f) { Ok(n) => *q = n, Err(_) => ret = "err" }
            vec![]
        }
        "nofile" => {
            let bad = [q.save_to_file(format!("{dir}/none/queue.json")).is_err(), PriorityQueue::<i32, (i64, String)>::load_from_file(format!("{dir}/nothing")).is_err()];
            if bad == [true, true] { ret = "err" }
            vec![]
        }
        x => panic!("{x}"),
    };
    let n = q.len();
    if q.is_empty() != (n == 0) || q.peek().is_none() != (n == 0) { ret = "empty" }
    json!({"ret": ret, "out": out, "n": n, "all": true})
}

/// Behaviours generated from MCUnits.tla: one path for every transition.
pub fn paths(t: &str, kind: &'static str, cap: i64, max: usize, r: &mut Rng, dir: &str) -> Vec<Value> {
    let mut v: Vec<String> = t.lines().filter_map(|l| serde_json::from_str::<String>(l).ok()).filter_map(|l| l.strip_prefix("PATH ").map(|x| x.to_string())).collect();
    while v.len() > max { let i = r.below(v.len()); v.swap_remove(i); }
    v.iter().map(|p| {
        let cs: Vec<Call> = serde_json::from_str(p).unwrap();
        let mut u = Unit::new(kind, cap, dir);
        for c in &cs {
            u.call(c);
            match kind { "cs" => { u.call(&call("resend")); } "pq" => { u.call(&call("peek")); } _ => {} }
        }
        match kind {
            "pq" => { u.call(&call("iter")); for _ in 0..=cap.min(10) { u.call(&call("deq")); } }
            _ => { u.call(&call("resend")); }
        }
        u.done("path")
    }).collect()
}

pub fn family(fam: &str, r: &mut Rng, dir: &str) -> Value {
    match fam {
        "cs" => {
            let mut u = Unit::new("cs", 0, dir);
            let ids: Vec<i64> = match r.below(3) { 0 => vec![1, 2, 3], 1 => vec![1, 255, 256, 65534, 65535], _ => (1..=12).collect() };
            let mut m = 0;
            // what the session should still have open, to keep to meaningful histories
            let (mut open, mut rel): (std::collections::BTreeMap<i64, Pk>, std::collections::BTreeSet<i64>) = Default::default();
            let n = 20 + r.below(80);
            for _ in 0..n {
                let id = *r.pick(&ids);
                let f = |k: &str| Pk { id, ..pk(k) };
                let c = match r.below(20) {
                    0..=4 => {
                        m += 1;
                        let q = *r.pick(&[0, 1, 1, 2, 2, 2]);
                        if q > 0 && rel.contains(&id) { continue }
                        let mut g = Pk { id: if q > 0 { id } else { 0 }, q, m, r: r.below(2) as i64, p: if r.p(30) { r.range(1, 99) } else { 0 }, ..pk("PUBLISH") };
                        // a repeat of a publish still open
                        if q > 0 { if let Some(o) = open.get(&id) { g = Pk { d: 1, ..o.clone() } } else { open.insert(id, g.clone()); } }
                        Call { f: g, ..call("send") }
                    }
                    5 | 6 => { if open.contains_key(&id) { continue } rel.insert(id); Call { f: f("PUBREL"), ..call("sendrel") } }
                    7 | 8 => { open.remove(&id); Call { f: Pk { rc: *r.pick(&[0, 0, 16, 128, 151]), ..f("PUBACK") }, ..call("puback") } }
                    9..=12 => {
                        let rc = *r.pick(&[0, 0, 0, 16, 127, 128, 151, 255]);
                        open.remove(&id);
                        let c = Call { f: Pk { rc, ..f("PUBREC") }, ..call("pubrec") };
                        u.call(&c);
                        if rc < 128 && r.p(80) { rel.insert(id); Call { f: f("PUBREL"), ..call("sendrel") } } else { continue }
                    }
                    13 | 14 => { rel.remove(&id); Call { f: Pk { rc: *r.pick(&[0, 0, 146]), ..f("PUBCOMP") }, ..call("pubcomp") } }
                    15 => { m += 1; let q = r.range(0, 2); Call { f: Pk { id: if q > 0 { id } else { 0 }, q, m, d: r.below(2) as i64 * (q > 0) as i64, ..pk("PUBLISH") }, ..call("publish") } }
                    16 => Call { f: f("PUBREL"), ..call("pubrel") },
                    17 => Call { n: *r.pick(&[1, 1, 2, 3, 254, 30000, 65534, 65535, 65536]), ..call("next") },
                    18 if r.p(30) => { open.clear(); rel.clear(); call("clear") }
                    _ => call("resend"),
                };
                u.call(&c);
            }
            u.call(&call("resend"));
            u.done(fam)
        }
        "ss" => {
            let cap = *r.pick(&[1, 1, 2, 2, 3, 5, 20, 65535]);
            let mut u = Unit::new("ss", cap, dir);
            let names = ["a", "b/+", "c/#", "$share/g/a", "é"];
            // handed-out messages that are not finished: (identifier, 1 = PUBACK, 2 = PUBREC, 3 = PUBCOMP awaited)
            let mut wait: Vec<(i64, i64)> = vec![];
            let mut m = 0;
            let n = 25 + r.below(70);
            let busy = r.below(4);
            for _ in 0..n {
                let c = match r.below(16) {
                    0 | 1 => Call { l: (0..1 + r.below(3)).map(|_| r.pick(&names).to_string()).collect(), f: Pk { id: 1, q: r.range(0, 2), r: r.below(2) as i64, ..pk("SUBSCRIBE") }, ..call("sub") },
                    2 => Call { l: (0..1 + r.below(2)).map(|_| r.pick(&names).to_string()).collect(), f: Pk { id: 1, ..pk("UNSUBSCRIBE") }, ..call("unsub") },
                    3..=6 => {
                        m += 1;
                        let q = *r.pick(&[0, 1, 1, 2, 2]);
                        let id = if q > 0 { if m % 50 == 0 { 65535 } else { m } } else { 0 };
                        Call { f: Pk { id, q, m, r: r.below(2) as i64, p: if r.p(30) { r.range(1, 99) } else { 0 }, ..pk("PUBLISH") }, ..call("publish") }
                    }
                    7 => Call { f: Pk { id: r.range(1, 65535), ..pk("PUBREL") }, ..call("pubrel") },
                    8 | 9 => call("resend"),
                    _ => {
                        if wait.is_empty() { continue }
                        let mut done = false;
                        for _ in 0..1 + r.below(1 + busy) {
                            if wait.is_empty() { break }
                            let i = r.below(wait.len());
                            let (id, st) = wait[i];
                            let rc = if r.p(25) { *r.pick(&[128, 131, 151]) } else { *r.pick(&[0, 0, 16]) };
                            let (op, k) = [("puback", "PUBACK"), ("pubrec", "PUBREC"), ("pubcomp", "PUBCOMP")][st as usize - 1];
                            u.call(&Call { f: Pk { id, rc: if st == 3 { 0 } else { rc }, ..pk(k) }, ..call(op) });
                            if st == 2 && rc < 128 { wait[i].1 = 3 } else { wait.remove(i); }
                            done = true;
                        }
                        if done && r.p(50) { call("resend") } else { continue }
                    }
                };
                let o = u.call(&c);
                if c.op == "resend" {
                    let ps: Vec<Pk> = serde_json::from_value(o["out"].clone()).unwrap_or_default();
                    for p in ps { if p.k == "PUBLISH" && p.q > 0 { wait.push((p.id, p.q)) } }
                }
            }
            u.call(&call("resend"));
            u.done(fam)
        }
        _ => {
            let cap = *r.pick(&[0, 1, 1, 2, 3, 4, 7, 30, 1000]);
            let mut u = Unit::new("pq", cap, dir);
            let prios: Vec<i64> = match r.below(4) { 0 => vec![5], 1 => vec![0, 1], 2 => vec![-3, 0, 7], _ => (-10..30).chain([i32::MIN as i64, i32::MAX as i64]).collect() };
            let n = 20 + r.below(if cap > 100 { 200 } else { 80 });
            let save = if r.p(50) { 1 } else { 6 };
            for i in 0..n {
                let enq = |r: &mut Rng| Call { x: X { pr: *r.pick(&prios), x: i as i64 }, ..call("enq") };
                let c = match r.below(24 + save) {
                    0..=11 => enq(r),
                    12..=15 => call("deq"),
                    16 | 17 => call("peek"),
                    18 => call("len"),
                    19 => call("iter"),
                    20 if r.p(30) => call("clear"),
                    21 if r.p(30) => call("full"),
                    22 if r.p(40) => Call { n: r.range(0, 100000), ..call("cut") },
                    23 if r.p(20) => call("nofile"),
                    24.. => call("swap"),
                    _ => enq(r),
                };
                u.call(&c);
            }
            if r.p(50) { u.call(&call("swap")); }
            for _ in 0..8 { u.call(&call("deq")); }
            u.call(&call("iter"));
            u.done(fam)
        }
    }
}
