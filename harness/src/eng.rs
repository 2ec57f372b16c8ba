//! Executes engine calls on the real `MqttEngine` and records what is observable.
use crate::codec::{ofps, to_prop};
use crate::{vclock, wire, wire::Pk};
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::{MqttClientError, MqttClientOptions, NoIoMqttClient};
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::subscribe::TopicSubscription;
use flowsdk::mqtt_serde::mqttv5::will::{Will, WillProperties};
use flowsdk::mqtt_serde::parser::{ParseOk};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Cfg {
    pub ver: i64,
    pub ka: i64,
    pub auto: i64,
    pub mult: i64,
    pub rto: i64,
    pub maxout: i64,
    pub maxev: i64,
    pub rm: i64,
    pub aa: i64,
    pub base: i64,
    pub maxd: i64,
    pub maxatt: i64,
    pub qcap: i64,
    pub pbuf: i64,
    /// contents the CONNECT packet must show (see wire::decode)
    pub cl: Vec<i64>,
    pub cm: i64,
    /// what the calls go through, see wrap.rs
    #[serde(default)]
    pub via: i64,
    /// which constructor
    #[serde(default)]
    pub ctor: i64,
    /// TLS: 0 certificate not verified, 1 verified, 2 other authority (refused); and a client certificate wanted: 3 given, 4 missing
    #[serde(default)]
    pub vfy: i64,
    /// TLS: 1 "mqtt", 2 another application protocol
    #[serde(default)]
    pub alpn: i64,
    #[serde(default)]
    pub tlsv: i64,
    /// QUIC: the server's window per stream (0: large), streams it allows, percent of datagrams disturbed, tick per datagram
    #[serde(default)]
    pub win: i64,
    #[serde(default)]
    pub slim: i64,
    #[serde(default)]
    pub loss: i64,
    #[serde(default)]
    pub each: i64,
}
impl Cfg {
    pub fn basic(ver: i64) -> Cfg {
        Cfg {
            ver, ka: 0, auto: 1, mult: 2, rto: 5000, maxout: 1000, maxev: 1000, rm: 100, aa: 1,
            base: 1000, maxd: 60000, maxatt: 0, qcap: 1000, pbuf: 16384,
            cl: vec![], cm: 1, via: 0, ctor: 0, vfy: 0, alpn: 1, tlsv: 13, win: 0, slim: 100, loss: 0, each: 0,
        }
        .with_connect(true, -1, -1, -1, -1, -1, [-1; 4], 0)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn with_connect(mut self, clean: bool, user: i64, pw: i64, wt: i64, wq: i64, wr: i64, ps: [i64; 4], wp: i64) -> Cfg {
        self.cl = vec![if self.ver == 5 { 5 } else { 4 }, clean as i64, self.ka, user, pw, wt, wq, wr, ps[0], ps[1], ps[2], ps[3], wp];
        self
    }
    pub fn options(&self) -> MqttClientOptions {
        let c = &self.cl;
        let mut o = MqttClientOptions::builder()
            .peer("broker:1883")
            .client_id(format!("c{}", self.cm))
            .clean_start(c[1] == 1)
            .keep_alive(self.ka as u16)
            .auto_keepalive(self.auto == 1)
            .auto_ack(self.aa == 1)
            .mqtt_version(if self.ver == 5 { 5 } else { 4 })
            .reconnect_base_delay_ms(self.base as u64)
            .reconnect_max_delay_ms(self.maxd as u64)
            .max_reconnect_attempts(self.maxatt as u32)
            .retransmission_timeout_ms(self.rto as u64)
            .ping_timeout_multiplier(self.mult as u32)
            .max_outgoing_packet_count(self.maxout as usize)
            .max_event_count(self.maxev as usize)
            .receive_maximum(self.rm as u16)
            .parser_buffer_size(self.pbuf as usize);
        if c[3] >= 0 { o = o.username(format!("u{}", c[3])); }
        if c[4] >= 0 { o = o.password(format!("w{}", c[4]).into_bytes()); }
        if c[5] >= 0 {
            let mut props = WillProperties::default();
            for p in uprops("WILL", c[12]) {
                match p {
                    Property::WillDelayInterval(v) => props.will_delay_interval = Some(v),
                    Property::PayloadFormatIndicator(v) => props.payload_format_indicator = Some(v),
                    Property::MessageExpiryInterval(v) => props.message_expiry_interval = Some(v),
                    Property::ContentType(v) => props.content_type = Some(v),
                    Property::ResponseTopic(v) => props.response_topic = Some(v),
                    Property::CorrelationData(v) => props.correlation_data = Some(v),
                    p => props.user_properties.push(p),
                }
            }
            o = o.will(Will {
                will_qos: c[6] as u8, will_retain: c[7] == 1, will_topic: wire::topic(c[5]),
                will_message: wire::payload(c[5]), properties: props,
            });
        }
        if c[8] >= 0 { o = o.session_expiry_interval(c[8] as u32); }
        if c[9] >= 0 { o = o.maximum_packet_size(c[9] as u32); }
        if c[10] >= 0 { o = o.request_response_information(c[10] == 1); }
        if c[11] >= 0 { o = o.request_problem_information(c[11] == 1); }
        o.build()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Args {
    #[serde(default)]
    pub m: i64,
    #[serde(default)]
    pub q: i64,
    #[serde(default)]
    pub r: i64,
    #[serde(default)]
    pub p: i64,
    #[serde(default)]
    pub pr: i64,
    #[serde(default)]
    pub bad: i64,
    #[serde(default)]
    pub st: i64,
    #[serde(default)]
    pub rc: i64,
    #[serde(default)]
    pub n: i64,
    #[serde(default)]
    pub l: Vec<i64>,
    /// packets completed by this call
    #[serde(default)]
    pub fs: Vec<Pk>,
    /// the bytes fed, in hex
    #[serde(default)]
    pub by: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    pub now: i64,
    #[serde(default)]
    pub a: Args,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub c: Option<Cfg>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Ev {
    pub k: String,
    pub id: i64,
    pub rc: i64,
    pub q: i64,
    pub m: i64,
    pub d: i64,
    pub r: i64,
    pub p: i64,
    pub x: i64,
    pub l: Vec<i64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct SPk {
    pub st: i64,
    pub b: Vec<Pk>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Obs {
    pub ret: String,
    pub id: i64,
    pub evs: Vec<Ev>,
    pub out: Vec<Pk>,
    pub str: Vec<SPk>,
    pub runs: Vec<Vec<i64>>,
    pub conn: i64,
    pub nt: i64,
    #[cfg(feature = "ffi")]
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub q: Option<crate::quic::QObs>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub op: String,
    pub now: i64,
    pub a: Args,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub c: Option<Cfg>,
    pub o: Obs,
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn ptag(k: &str, ps: &[Property]) -> i64 { wire::ptag(k, &ofps(ps)) }
pub fn uprops(k: &str, p: i64) -> Vec<Property> { wire::plist(k, p).iter().map(|p| to_prop(p).unwrap()).collect() }

pub fn event(e: &MqttEvent) -> Ev {
    let mut v = Ev { x: -1, ..Default::default() };
    match e {
        MqttEvent::Connected(c) => {
            v.k = "Connected".into();
            v.rc = c.reason_code as i64;
            v.x = c.session_present as i64;
            v.p = c.properties.as_ref().map(|p| ptag("CONNACK", p)).unwrap_or(0);
            v.q = c.properties.iter().flatten().find_map(|p| if let Property::ReceiveMaximum(n) = p { Some(*n as i64) } else { None }).unwrap_or(0);
        }
        MqttEvent::Disconnected(rc) => {
            v.k = "Disconnected".into();
            v.rc = rc.map(|c| c as i64).unwrap_or(-1);
        }
        MqttEvent::Published(r) => {
            v.k = "Published".into();
            v.id = r.packet_id.map(|c| c as i64).unwrap_or(-1);
            v.rc = r.reason_code.map(|c| c as i64).unwrap_or(-1);
            v.q = r.qos as i64;
            v.p = r.properties.as_ref().map(|p| ptag("ACK", p)).unwrap_or(0);
        }
        MqttEvent::Subscribed(r) => {
            v.k = "Subscribed".into();
            v.id = r.packet_id as i64;
            v.l = r.reason_codes.iter().map(|c| *c as i64).collect();
            v.p = ptag("ACK", &r.properties);
        }
        MqttEvent::Unsubscribed(r) => {
            v.k = "Unsubscribed".into();
            v.id = r.packet_id as i64;
            v.l = r.reason_codes.iter().map(|c| *c as i64).collect();
            v.p = ptag("ACK", &r.properties);
        }
        MqttEvent::PublishReceived { packet_id, stream } => {
            v.k = "PublishReceived".into();
            v.id = packet_id.map(|c| c as i64).unwrap_or(0);
            v.x = stream.map(|c| c as i64).unwrap_or(-1);
        }
        MqttEvent::MessageReceived(m) => {
            v.k = "MessageReceived".into();
            v.id = m.packet_id.map(|c| c as i64).unwrap_or(0);
            v.q = m.qos as i64;
            v.m = wire::msgno(m.topic_name.as_bytes(), &m.payload);
            v.d = m.dup as i64;
            v.r = m.retain as i64;
            v.p = ptag("PUB<", &m.properties);
        }
        MqttEvent::PubRelReceived { packet_id, stream } => {
            v.k = "PubRelReceived".into();
            v.id = *packet_id as i64;
            v.x = stream.map(|c| c as i64).unwrap_or(-1);
        }
        MqttEvent::PingResponse(r) => {
            v.k = "PingResponse".into();
            v.x = r.success as i64;
        }
        MqttEvent::Error(_) => v.k = "Error".into(),
        MqttEvent::ReconnectNeeded => v.k = "ReconnectNeeded".into(),
        MqttEvent::ReconnectScheduled { attempt, delay } => {
            v.k = "ReconnectScheduled".into();
            v.x = *attempt as i64;
            v.m = delay.as_millis() as i64;
        }
        MqttEvent::TransportClosed { by_peer, error_code, .. } => {
            v.k = "TransportClosed".into();
            v.x = *by_peer as i64;
            v.m = error_code.map(|c| c as i64).unwrap_or(-1);
        }
        MqttEvent::StreamClosed { stream_id, by_peer, .. } => {
            v.k = "StreamClosed".into();
            v.x = *stream_id as i64;
            v.m = *by_peer as i64;
        }
        MqttEvent::StreamReset { stream_id, error_code } => {
            v.k = "StreamReset".into();
            v.x = *stream_id as i64;
            v.m = *error_code as i64;
        }
        MqttEvent::StreamStopped { stream_id, error_code } => {
            v.k = "StreamStopped".into();
            v.x = *stream_id as i64;
            v.m = *error_code as i64;
        }
        MqttEvent::ZeroRttStatusChanged { status } => v.k = format!("ZeroRtt{status:?}"),
    }
    v
}

pub fn err(e: &MqttClientError) -> String {
    match e { MqttClientError::BufferFull { .. } => "full".into(), _ => "err".into() }
}

pub fn publish_cmd(a: &Args) -> PublishCommand {
    let t = if a.bad == 1 { format!("t/{}", "x".repeat(70000)) } else { wire::topic(a.m) };
    PublishCommand::new(t, wire::payload(a.m), a.q as u8, a.r == 1, false, None, uprops("PUB>", a.p), a.pr as u8)
}
pub fn sub_cmd(a: &Args) -> SubscribeCommand {
    let mut v: Vec<TopicSubscription> = a.l.iter().map(|x| {
        let (f, o) = (x / 64, x % 64);
        TopicSubscription::new(wire::filter(f), (o & 3) as u8, o & 4 != 0, o & 8 != 0, (o >> 4) as u8)
    }).collect();
    if a.bad == 1 { v[0].topic_filter = "x".repeat(70000); }
    SubscribeCommand::new(None, v, uprops("SUBSCRIBE", a.p))
}
pub fn unsub_cmd(a: &Args) -> UnsubscribeCommand {
    let mut v: Vec<String> = a.l.iter().map(|f| wire::filter(*f)).collect();
    if a.bad == 1 { v[0] = "x".repeat(70000); }
    UnsubscribeCommand::new(None, v, uprops("UNSUBSCRIBE", a.p))
}

/// What the calls of a scenario are made on.
pub trait Target {
    fn apply(&mut self, op: &Op, o: &mut Obs);
    fn conn(&self) -> bool;
    /// -1: nothing due, -2: not told
    fn nt(&self) -> i64;
}
pub struct Exec {
    t: Box<dyn Target>,
}
impl Exec {
    pub fn new(cfg: &Cfg) -> Exec {
        #[cfg(feature = "ffi")]
        if cfg.via >= 6 { return Exec { t: crate::quic::target(cfg) }; }
        #[cfg(feature = "ffi")]
        if cfg.via > 0 { return Exec { t: crate::wrap::target(cfg) }; }
        if cfg.ctor == NOIO { return Exec { t: Box::new(NoIo { e: NoIoMqttClient::new(cfg.options()), ver: cfg.ver }) }; }
        Exec { t: Box::new(Native { e: MqttEngine::new(cfg.options()), ver: cfg.ver }) }
    }
    pub fn run(&mut self, op: &Op) -> Obs {
        vclock::set(op.now);
        crate::beat();
        let mut o = Obs { ret: "ok".into(), ..Default::default() };
        let r = catch_unwind(AssertUnwindSafe(|| self.t.apply(op, &mut o)));
        if r.is_err() { o.ret = "panic".into(); return o; }
        o.conn = self.t.conn() as i64;
        o.nt = self.t.nt();
        o
    }
}

/// The engine behind NoIoMqttClient
pub const NOIO: i64 = 9;
struct NoIo {
    e: NoIoMqttClient,
    ver: i64,
}
impl Target for NoIo {
    fn conn(&self) -> bool { self.e.is_connected() }
    fn nt(&self) -> i64 { self.e.next_tick_at().map(vclock::ms).unwrap_or(-1) }
    fn apply(&mut self, op: &Op, o: &mut Obs) {
        let a = &op.a;
        let ver = self.ver;
        let e = &mut self.e;
        let evs = |v: Vec<MqttEvent>| v.iter().map(event).collect::<Vec<_>>();
        match op.op.as_str() {
            "connect" => e.connect(),
            "lost" => e.handle_connection_lost(),
            "disc" => e.disconnect(),
            "ping" => e.ping(),
            "auth" => e.auth(a.rc as u8, uprops("AUTH", a.p)),
            "tick" => o.evs = evs(e.handle_tick(vclock::at(op.now))),
            "take" => o.out = wire::decode_all(ver, &e.take_outgoing()),
            "takeev" => o.evs = evs(e.take_events()),
            "pub" => match e.publish(publish_cmd(a)) {
                Ok(id) => o.id = id.map(|x| x as i64).unwrap_or(0),
                Err(x) => o.ret = err(&x),
            },
            "sub" => match e.subscribe(sub_cmd(a)) { Ok(id) => o.id = id as i64, Err(x) => o.ret = err(&x) },
            "unsub" => match e.unsubscribe(unsub_cmd(a)) { Ok(id) => o.id = id as i64, Err(x) => o.ret = err(&x) },
            "in" => o.evs = evs(e.handle_incoming(&unhex(&a.by))),
            x => panic!("unknown op {x}"),
        }
    }
}

pub struct Native {
    pub e: MqttEngine,
    pub ver: i64,
}
impl Target for Native {
    fn conn(&self) -> bool { self.e.is_connected() }
    fn nt(&self) -> i64 { self.e.next_tick_at().map(vclock::ms).unwrap_or(-1) }
    fn apply(&mut self, op: &Op, o: &mut Obs) {
        let a = &op.a;
        let ver = self.ver;
        let e = &mut self.e;
        let evs = |v: Vec<MqttEvent>| v.iter().map(event).collect::<Vec<_>>();
        let st = (a.st >= 0).then_some(a.st as u64);
        match op.op.as_str() {
            "connect" => e.connect(),
            "lost" => e.handle_connection_lost(),
            "reset" => e.reset_for_new_transport(),
            "sched" => e.schedule_reconnect(vclock::at(op.now)),
            "resetrec" => e.reset_reconnect_state(),
            "disc" => e.disconnect(),
            "trydisc" => if let Err(x) = e.try_disconnect() { o.ret = err(&x) },
            "ping" => e.send_ping(),
            "tryping" => if let Err(x) = e.try_send_ping() { o.ret = err(&x) },
            "auth" => e.auth(a.rc as u8, uprops("AUTH", a.p)),
            "tick" => o.evs = evs(e.handle_tick(vclock::at(op.now))),
            "take" => o.out = wire::decode_all(ver, &e.take_outgoing()),
            "takeev" => o.evs = evs(e.take_events()),
            "takestr" => o.str = e.take_stream_retransmissions().into_iter()
                .map(|(s, b)| SPk { st: s as i64, b: wire::decode_all(ver, &b) }).collect(),
            "pub" => match e.publish(publish_cmd(a)) {
                Ok(id) => o.id = id.map(|x| x as i64).unwrap_or(0),
                Err(x) => o.ret = err(&x),
            },
            "sub" => match e.subscribe(sub_cmd(a)) { Ok(id) => o.id = id as i64, Err(x) => o.ret = err(&x) },
            "unsub" => match e.unsubscribe(unsub_cmd(a)) { Ok(id) => o.id = id as i64, Err(x) => o.ret = err(&x) },
            "pubenc" => match e.publish_encoded(publish_cmd(a), st) {
                Ok((id, b)) => { o.id = id.map(|x| x as i64).unwrap_or(0); o.out = wire::decode_all(ver, &b) }
                Err(x) => o.ret = err(&x),
            },
            "subenc" => match e.subscribe_encoded(sub_cmd(a), st) {
                Ok((id, b)) => { o.id = id as i64; o.out = wire::decode_all(ver, &b) }
                Err(x) => o.ret = err(&x),
            },
            "unsubenc" => match e.unsubscribe_encoded(unsub_cmd(a), st) {
                Ok((id, b)) => { o.id = id as i64; o.out = wire::decode_all(ver, &b) }
                Err(x) => o.ret = err(&x),
            },
            "in" => o.evs = evs(e.handle_incoming(&unhex(&a.by))),
            "ingest" => {
                let b = unhex(&a.by);
                let p = match MqttPacket::from_bytes_with_version(&b, if ver == 5 { 5 } else { 4 }) {
                    Ok(ParseOk::Packet(p, _)) => p,
                    x => panic!("ingest {x:?}"),
                };
                let (v, out) = e.ingest_stream_packet(p, a.st as u64);
                o.evs = evs(v);
                o.out = wire::decode_all(ver, &out);
            }
            "burn" => {
                let mut runs: Vec<Vec<i64>> = vec![];
                for _ in 0..a.n {
                    match e.next_packet_id() {
                        Ok(id) => {
                            let id = id as i64;
                            match runs.last_mut() {
                                Some(r) if r[1] + 1 == id => r[1] = id,
                                _ => runs.push(vec![id, id]),
                            }
                        }
                        Err(x) => { o.ret = err(&x); break }
                    }
                }
                o.runs = runs;
            }
            x => panic!("unknown op {x}"),
        }
    }
}
