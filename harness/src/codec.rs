//! Packets in the form of Codec.tla, their conversion to and from the crate's types, and the
//! codec calls whose results are recorded.
use bytes::Bytes;
use flowsdk::mqtt_serde::control_packet::{ControlPacketType, MqttPacket};
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::{will, *};
use flowsdk::mqtt_serde::parser::leveled::*;
use flowsdk::mqtt_serde::parser::stream::{MqttParser, MqttStream};
use flowsdk::mqtt_serde::parser::{ParseError, ParseOk};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Prop { pub id: i64, pub v: Vec<i64>, pub w: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mp { pub k: i64, pub ver: i64, pub i: Vec<i64>, pub s: Vec<Vec<u8>>, pub p: Vec<Prop>, pub q: Vec<Prop> }

fn st(b: &[u8]) -> Option<String> { String::from_utf8(b.to_vec()).ok() }
fn pb(id: i64, v: &[u8]) -> Prop { Prop { id, v: v.iter().map(|x| *x as i64).collect(), w: vec![] } }
fn raw(p: &Prop) -> Vec<u8> { p.v.iter().map(|x| *x as u8).collect() }
fn u32of(p: &Prop) -> u32 { let r = raw(p); u32::from_be_bytes([r[0], r[1], r[2], r[3]]) }
fn u16of(p: &Prop) -> u16 { let r = raw(p); u16::from_be_bytes([r[0], r[1]]) }

pub fn to_prop(p: &Prop) -> Option<Property> {
    use Property::*;
    let r = raw(p);
    Some(match p.id {
        1 => PayloadFormatIndicator(r[0]),
        2 => MessageExpiryInterval(u32of(p)),
        3 => ContentType(st(&r)?),
        8 => ResponseTopic(st(&r)?),
        9 => CorrelationData(r),
        11 => SubscriptionIdentifier(p.v[0] as u32),
        17 => SessionExpiryInterval(u32of(p)),
        18 => AssignedClientIdentifier(st(&r)?),
        19 => ServerKeepAlive(u16of(p)),
        21 => AuthenticationMethod(st(&r)?),
        22 => AuthenticationData(r),
        23 => RequestProblemInformation(r[0]),
        24 => WillDelayInterval(u32of(p)),
        25 => RequestResponseInformation(r[0]),
        26 => ResponseInformation(st(&r)?),
        28 => ServerReference(st(&r)?),
        31 => ReasonString(st(&r)?),
        33 => ReceiveMaximum(u16of(p)),
        34 => TopicAliasMaximum(u16of(p)),
        35 => TopicAlias(u16of(p)),
        36 => MaximumQoS(r[0]),
        37 => RetainAvailable(r[0]),
        38 => UserProperty(st(&r)?, st(&p.w)?),
        39 => MaximumPacketSize(u32of(p)),
        40 => WildcardSubscriptionAvailable(r[0]),
        41 => SubscriptionIdentifierAvailable(r[0]),
        42 => SharedSubscriptionAvailable(r[0]),
        _ => return None,
    })
}
pub fn of_prop(p: &Property) -> Prop {
    use Property::*;
    match p {
        PayloadFormatIndicator(x) => pb(1, &[*x]),
        MessageExpiryInterval(x) => pb(2, &x.to_be_bytes()),
        ContentType(x) => pb(3, x.as_bytes()),
        ResponseTopic(x) => pb(8, x.as_bytes()),
        CorrelationData(x) => pb(9, x),
        SubscriptionIdentifier(x) => Prop { id: 11, v: vec![*x as i64], w: vec![] },
        SessionExpiryInterval(x) => pb(17, &x.to_be_bytes()),
        AssignedClientIdentifier(x) => pb(18, x.as_bytes()),
        ServerKeepAlive(x) => pb(19, &x.to_be_bytes()),
        AuthenticationMethod(x) => pb(21, x.as_bytes()),
        AuthenticationData(x) => pb(22, x),
        RequestProblemInformation(x) => pb(23, &[*x]),
        WillDelayInterval(x) => pb(24, &x.to_be_bytes()),
        RequestResponseInformation(x) => pb(25, &[*x]),
        ResponseInformation(x) => pb(26, x.as_bytes()),
        ServerReference(x) => pb(28, x.as_bytes()),
        ReasonString(x) => pb(31, x.as_bytes()),
        ReceiveMaximum(x) => pb(33, &x.to_be_bytes()),
        TopicAliasMaximum(x) => pb(34, &x.to_be_bytes()),
        TopicAlias(x) => pb(35, &x.to_be_bytes()),
        MaximumQoS(x) => pb(36, &[*x]),
        RetainAvailable(x) => pb(37, &[*x]),
        UserProperty(a, b) => Prop { w: b.as_bytes().to_vec(), ..pb(38, a.as_bytes()) },
        MaximumPacketSize(x) => pb(39, &x.to_be_bytes()),
        WildcardSubscriptionAvailable(x) => pb(40, &[*x]),
        SubscriptionIdentifierAvailable(x) => pb(41, &[*x]),
        SharedSubscriptionAvailable(x) => pb(42, &[*x]),
    }
}
fn tops(p: &[Prop]) -> Option<Vec<Property>> { p.iter().map(to_prop).collect() }
pub fn ofps(p: &[Property]) -> Vec<Prop> { p.iter().map(of_prop).collect() }

/// The crate's value for a packet; None where it has no such value.
pub fn to_real(m: &Mp) -> Option<MqttPacket> {
    let i = &m.i;
    let v5 = m.ver == 5;
    let p = tops(&m.p)?;
    Some(match m.k {
        1 => {
            let (mut n, will, user, pw) = (2, i[3] == 1, i[6] == 1, i[7] == 1);
            let mut next = || { n += 1; m.s[n - 1].clone() };
            let wtm = if will { Some((st(&next())?, next())) } else { None };
            let username = if user { Some(st(&next())?) } else { None };
            let password = if pw { Some(next()) } else { None };
            if v5 {
                MqttPacket::Connect5(connectv5::MqttConnect {
                    protocol_name: st(&m.s[0])?, protocol_version: i[0] as u8, keep_alive: i[2] as u16, client_id: st(&m.s[1])?,
                    will: match wtm {
                        None => None,
                        Some((t, b)) => {
                            let mut w = will::WillProperties::default();
                            for x in &m.q {
                                match to_prop(x)? {
                                    Property::WillDelayInterval(v) => w.will_delay_interval = Some(v),
                                    Property::PayloadFormatIndicator(v) => w.payload_format_indicator = Some(v),
                                    Property::MessageExpiryInterval(v) => w.message_expiry_interval = Some(v),
                                    Property::ContentType(v) => w.content_type = Some(v),
                                    Property::ResponseTopic(v) => w.response_topic = Some(v),
                                    Property::CorrelationData(v) => w.correlation_data = Some(v),
                                    v => w.user_properties.push(v),
                                }
                            }
                            Some(will::Will { will_qos: i[4] as u8, will_retain: i[5] == 1, will_topic: t, will_message: b, properties: w })
                        }
                    },
                    username, password, properties: p, clean_start: i[1] == 1,
                })
            } else {
                MqttPacket::Connect3(connectv3::MqttConnect {
                    protocol_name: st(&m.s[0])?, protocol_version: i[0] as u8, clean_session: i[1] == 1, keep_alive: i[2] as u16,
                    client_id: st(&m.s[1])?,
                    will: wtm.map(|(topic, message)| connectv3::Will { retain: i[5] == 1, qos: i[4] as u8, topic, message }),
                    username, password,
                })
            }
        }
        2 if v5 => MqttPacket::ConnAck5(connackv5::MqttConnAck { session_present: i[0] == 1, reason_code: i[1] as u8, properties: Some(p) }),
        2 => MqttPacket::ConnAck3(connackv3::MqttConnAck { session_present: i[0] == 1, return_code: i[1] as u8 }),
        3 => {
            let id = if i[1] > 0 && i[3] >= 0 { Some(i[3] as u16) } else { None };
            let (t, b) = (st(&m.s[0])?, m.s[1].clone());
            if v5 {
                MqttPacket::Publish5(publishv5::MqttPublish { topic_name: t, qos: i[1] as u8, dup: i[0] == 1, retain: i[2] == 1, packet_id: id, payload: b, properties: p })
            } else {
                MqttPacket::Publish3(publishv3::MqttPublish { dup: i[0] == 1, qos: i[1] as u8, retain: i[2] == 1, topic_name: t, message_id: id, payload: b })
            }
        }
        4 if v5 => MqttPacket::PubAck5(pubackv5::MqttPubAck { packet_id: i[0] as u16, reason_code: i[1] as u8, properties: p }),
        5 if v5 => MqttPacket::PubRec5(pubrecv5::MqttPubRec { packet_id: i[0] as u16, reason_code: i[1] as u8, properties: p }),
        6 if v5 => MqttPacket::PubRel5(pubrelv5::MqttPubRel { packet_id: i[0] as u16, reason_code: i[1] as u8, properties: p }),
        7 if v5 => MqttPacket::PubComp5(pubcompv5::MqttPubComp { packet_id: i[0] as u16, reason_code: i[1] as u8, properties: p }),
        4 => MqttPacket::PubAck3(pubackv3::MqttPubAck { message_id: i[0] as u16 }),
        5 => MqttPacket::PubRec3(pubrecv3::MqttPubRec { message_id: i[0] as u16 }),
        6 => MqttPacket::PubRel3(pubrelv3::MqttPubRel { message_id: i[0] as u16 }),
        7 => MqttPacket::PubComp3(pubcompv3::MqttPubComp { message_id: i[0] as u16 }),
        8 if v5 => MqttPacket::Subscribe5(subscribev5::MqttSubscribe {
            packet_id: i[0] as u16, properties: p,
            subscriptions: m.s.iter().zip(&i[1..]).map(|(f, o)| Some(subscribev5::TopicSubscription {
                topic_filter: st(f)?, qos: (o & 3) as u8, no_local: o & 4 != 0, retain_as_published: o & 8 != 0, retain_handling: (o >> 4) as u8,
            })).collect::<Option<_>>()?,
        }),
        8 => MqttPacket::Subscribe3(subscribev3::MqttSubscribe {
            message_id: i[0] as u16,
            subscriptions: m.s.iter().zip(&i[1..]).map(|(f, o)| Some(subscribev3::SubscriptionTopic { topic_filter: st(f)?, qos: *o as u8 })).collect::<Option<_>>()?,
        }),
        9 | 11 if v5 => {
            let rc = i[1..].iter().map(|x| *x as u8).collect();
            if m.k == 9 { MqttPacket::SubAck5(subackv5::MqttSubAck { packet_id: i[0] as u16, reason_codes: rc, properties: p }) }
            else { MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck { packet_id: i[0] as u16, reason_codes: rc, properties: p }) }
        }
        9 => MqttPacket::SubAck3(subackv3::MqttSubAck { message_id: i[0] as u16, return_codes: i[1..].iter().map(|x| *x as u8).collect() }),
        10 => {
            let fs = m.s.iter().map(|f| st(f)).collect::<Option<Vec<_>>>()?;
            if v5 { MqttPacket::Unsubscribe5(unsubscribev5::MqttUnsubscribe { packet_id: i[0] as u16, topic_filters: fs, properties: p }) }
            else { MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe { message_id: i[0] as u16, topic_filters: fs }) }
        }
        11 => MqttPacket::UnsubAck3(unsubackv3::MqttUnsubAck { message_id: i[0] as u16 }),
        12 if v5 => MqttPacket::PingReq5(pingreqv5::MqttPingReq::new()),
        12 => MqttPacket::PingReq3(pingreqv3::MqttPingReq::new()),
        13 if v5 => MqttPacket::PingResp5(pingrespv5::MqttPingResp::new()),
        13 => MqttPacket::PingResp3(pingrespv3::MqttPingResp::new()),
        14 if v5 => MqttPacket::Disconnect5(disconnectv5::MqttDisconnect { reason_code: i[0] as u8, properties: p }),
        14 => MqttPacket::Disconnect3(disconnectv3::MqttDisconnect::new()),
        15 => MqttPacket::Auth(authv5::MqttAuth { reason_code: i[0] as u8, properties: p }),
        _ => return None,
    })
}

fn mk(k: i64, ver: i64, i: Vec<i64>, s: Vec<Vec<u8>>, p: Vec<Prop>) -> Mp { Mp { k, ver, i, s, p, q: vec![] } }
fn id_of(qos: u8, id: Option<u16>) -> i64 { match id { Some(x) => if qos == 0 { 100_000 + x as i64 } else { x as i64 }, None => if qos == 0 { 0 } else { -1 } } }

pub fn of_real(x: &MqttPacket) -> Mp {
    use MqttPacket::*;
    let b = |s: &String| s.as_bytes().to_vec();
    match x {
        Connect5(c) => {
            let (w, u, p) = (&c.will, &c.username, &c.password);
            let mut s = vec![b(&c.protocol_name), b(&c.client_id)];
            let mut q = vec![];
            if let Some(w) = w {
                s.push(b(&w.will_topic));
                s.push(w.will_message.clone());
                let z = &w.properties;
                if let Some(v) = z.will_delay_interval { q.push(pb(24, &v.to_be_bytes())) }
                if let Some(v) = z.payload_format_indicator { q.push(pb(1, &[v])) }
                if let Some(v) = z.message_expiry_interval { q.push(pb(2, &v.to_be_bytes())) }
                if let Some(v) = &z.content_type { q.push(pb(3, v.as_bytes())) }
                if let Some(v) = &z.response_topic { q.push(pb(8, v.as_bytes())) }
                if let Some(v) = &z.correlation_data { q.push(pb(9, v)) }
                q.extend(ofps(&z.user_properties));
            }
            if let Some(u) = u { s.push(b(u)) }
            if let Some(p) = p { s.push(p.clone()) }
            Mp { k: 1, ver: 5, s, p: ofps(&c.properties), q,
                i: vec![c.protocol_version as i64, c.clean_start as i64, c.keep_alive as i64, w.is_some() as i64,
                    w.as_ref().map_or(0, |w| w.will_qos as i64), w.as_ref().map_or(0, |w| w.will_retain as i64), u.is_some() as i64, p.is_some() as i64] }
        }
        Connect3(c) => {
            let (w, u, p) = (&c.will, &c.username, &c.password);
            let mut s = vec![b(&c.protocol_name), b(&c.client_id)];
            if let Some(w) = w { s.push(b(&w.topic)); s.push(w.message.clone()); }
            if let Some(u) = u { s.push(b(u)) }
            if let Some(p) = p { s.push(p.clone()) }
            mk(1, 4, vec![c.protocol_version as i64, c.clean_session as i64, c.keep_alive as i64, w.is_some() as i64,
                    w.as_ref().map_or(0, |w| w.qos as i64), w.as_ref().map_or(0, |w| w.retain as i64), u.is_some() as i64, p.is_some() as i64], s, vec![])
        }
        ConnAck5(c) => mk(2, 5, vec![c.session_present as i64, c.reason_code as i64], vec![], ofps(c.properties.as_deref().unwrap_or(&[]))),
        ConnAck3(c) => mk(2, 4, vec![c.session_present as i64, c.return_code as i64], vec![], vec![]),
        Publish5(c) => mk(3, 5, vec![c.dup as i64, c.qos as i64, c.retain as i64, id_of(c.qos, c.packet_id)], vec![b(&c.topic_name), c.payload.clone()], ofps(&c.properties)),
        Publish3(c) => mk(3, 4, vec![c.dup as i64, c.qos as i64, c.retain as i64, id_of(c.qos, c.message_id)], vec![b(&c.topic_name), c.payload.clone()], vec![]),
        PubAck5(c) => mk(4, 5, vec![c.packet_id as i64, c.reason_code as i64], vec![], ofps(&c.properties)),
        PubRec5(c) => mk(5, 5, vec![c.packet_id as i64, c.reason_code as i64], vec![], ofps(&c.properties)),
        PubRel5(c) => mk(6, 5, vec![c.packet_id as i64, c.reason_code as i64], vec![], ofps(&c.properties)),
        PubComp5(c) => mk(7, 5, vec![c.packet_id as i64, c.reason_code as i64], vec![], ofps(&c.properties)),
        PubAck3(c) => mk(4, 4, vec![c.message_id as i64, 0], vec![], vec![]),
        PubRec3(c) => mk(5, 4, vec![c.message_id as i64, 0], vec![], vec![]),
        PubRel3(c) => mk(6, 4, vec![c.message_id as i64, 0], vec![], vec![]),
        PubComp3(c) => mk(7, 4, vec![c.message_id as i64, 0], vec![], vec![]),
        Subscribe5(c) => {
            let mut i = vec![c.packet_id as i64];
            for t in &c.subscriptions { i.push(t.qos as i64 + 4 * t.no_local as i64 + 8 * t.retain_as_published as i64 + 16 * t.retain_handling as i64) }
            mk(8, 5, i, c.subscriptions.iter().map(|t| b(&t.topic_filter)).collect(), ofps(&c.properties))
        }
        Subscribe3(c) => {
            let mut i = vec![c.message_id as i64];
            for t in &c.subscriptions { i.push(t.qos as i64) }
            mk(8, 4, i, c.subscriptions.iter().map(|t| b(&t.topic_filter)).collect(), vec![])
        }
        SubAck5(c) => mk(9, 5, std::iter::once(c.packet_id as i64).chain(c.reason_codes.iter().map(|x| *x as i64)).collect(), vec![], ofps(&c.properties)),
        SubAck3(c) => mk(9, 4, std::iter::once(c.message_id as i64).chain(c.return_codes.iter().map(|x| *x as i64)).collect(), vec![], vec![]),
        Unsubscribe5(c) => mk(10, 5, vec![c.packet_id as i64], c.topic_filters.iter().map(b).collect(), ofps(&c.properties)),
        Unsubscribe3(c) => mk(10, 4, vec![c.message_id as i64], c.topic_filters.iter().map(b).collect(), vec![]),
        UnsubAck5(c) => mk(11, 5, std::iter::once(c.packet_id as i64).chain(c.reason_codes.iter().map(|x| *x as i64)).collect(), vec![], ofps(&c.properties)),
        UnsubAck3(c) => mk(11, 4, vec![c.message_id as i64], vec![], vec![]),
        PingReq5(_) => mk(12, 5, vec![], vec![], vec![]),
        PingReq3(_) => mk(12, 4, vec![], vec![], vec![]),
        PingResp5(_) => mk(13, 5, vec![], vec![], vec![]),
        PingResp3(_) => mk(13, 4, vec![], vec![], vec![]),
        Disconnect5(c) => mk(14, 5, vec![c.reason_code as i64], vec![], ofps(&c.properties)),
        Disconnect3(_) => mk(14, 4, vec![], vec![], vec![]),
        Auth(c) => mk(15, 5, vec![c.reason_code as i64], vec![], ofps(&c.properties)),
    }
}

/// What the parser reports at a reduced level, as Codec.tla writes it.
fn of_parsed(p: &ParsedPacket) -> Value {
    use VariableHeader::*;
    match p {
        ParsedPacket::Full(x) => serde_json::to_value(of_real(x)).unwrap(),
        ParsedPacket::TypeOnly(t) => json!({"k": t.packet_type as i64, "fl": t.flags, "rest": []}),
        ParsedPacket::RawBody(t) => json!({"k": t.packet_type as i64, "fl": t.flags, "rest": t.remaining.to_vec()}),
        ParsedPacket::HeadersParsed(h) => {
            let pt = h.packet_type as i64;
            let mut s: Vec<Vec<u8>> = vec![];
            let none: Vec<Property> = vec![];
            let (k, ver, i, p): (i64, i64, Vec<i64>, &Vec<Property>) = match &h.variable_header {
                ConnectV5 { protocol_name, protocol_version, clean_start, keep_alive, connect_flags, properties } => {
                    s.push(protocol_name.as_bytes().to_vec());
                    (1, 5, vec![*protocol_version as i64, *clean_start as i64, *keep_alive as i64, *connect_flags as i64], properties)
                }
                ConnectV3 { protocol_name, protocol_version, clean_session, keep_alive, connect_flags } => {
                    s.push(protocol_name.as_bytes().to_vec());
                    (1, 4, vec![*protocol_version as i64, *clean_session as i64, *keep_alive as i64, *connect_flags as i64], &none)
                }
                ConnAckV5 { session_present, reason_code, properties } => (2, 5, vec![*session_present as i64, *reason_code as i64], properties.as_ref().unwrap_or(&none)),
                ConnAckV3 { session_present, return_code } => (2, 4, vec![*session_present as i64, *return_code as i64], &none),
                PublishV5 { topic_name, qos, dup, retain, packet_id, properties } => {
                    s.push(topic_name.as_bytes().to_vec());
                    (3, 5, vec![*dup as i64, *qos as i64, *retain as i64, id_of(*qos, *packet_id)], properties)
                }
                PublishV3 { topic_name, qos, dup, retain, message_id } => {
                    s.push(topic_name.as_bytes().to_vec());
                    (3, 4, vec![*dup as i64, *qos as i64, *retain as i64, id_of(*qos, *message_id)], &none)
                }
                PubAckV5 { packet_id, reason_code, properties } => (4, 5, vec![*packet_id as i64, *reason_code as i64], properties),
                PubRecV5 { packet_id, reason_code, properties } => (5, 5, vec![*packet_id as i64, *reason_code as i64], properties),
                PubRelV5 { packet_id, reason_code, properties } => (6, 5, vec![*packet_id as i64, *reason_code as i64], properties),
                PubCompV5 { packet_id, reason_code, properties } => (7, 5, vec![*packet_id as i64, *reason_code as i64], properties),
                SubscribeV5 { packet_id, properties } => (8, 5, vec![*packet_id as i64], properties),
                SubAckV5 { packet_id, properties } => (9, 5, vec![*packet_id as i64], properties),
                UnsubscribeV5 { packet_id, properties } => (10, 5, vec![*packet_id as i64], properties),
                UnsubAckV5 { packet_id, properties } => (11, 5, vec![*packet_id as i64], properties),
                DisconnectV5 { reason_code, properties } => (14, 5, vec![*reason_code as i64], properties),
                AuthV5 { reason_code, properties } => (15, 5, vec![*reason_code as i64], properties),
                PacketIdOnlyV3 { message_id } => (if (4..=11).contains(&pt) { pt } else { 100 }, 4, vec![*message_id as i64], &none),
                Empty => (if pt >= 12 { pt } else { 101 }, h.mqtt_version as i64, vec![], &none),
            };
            // the header must be of the packet's own type and version
            let k = if k == pt { k } else { 200 + k };
            let ver = if ver == h.mqtt_version.max(4) as i64 { ver } else { 200 + ver };
            json!({"k": k, "fl": h.flags, "ver": ver, "i": i, "s": s, "p": ofps(p), "rest": h.raw_payload.to_vec()})
        }
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

/// A recorded conversation with the codec, in the form CodecTrace.tla reads.
pub struct Rec { pub ver: i64, pub fam: String, pub ops: Vec<Value>, parser: Option<MqttParser>, level: u8 }
fn lev(n: u8) -> ParseLevel { ParseLevel::from(n) }

impl Rec {
    pub fn new(ver: i64, fam: &str) -> Rec { Rec { ver, fam: fam.into(), ops: vec![], parser: None, level: 0 } }
    pub fn done(self) -> Value { json!({"cfg": {"ver": self.ver}, "fam": self.fam, "ops": self.ops}) }

    pub fn enc(&mut self, x: &Mp) -> Option<Vec<u8>> {
        let real = to_real(x)?;
        let r = guard(|| real.to_bytes());
        let (r, b) = match r { None => ("panic", vec![]), Some(Err(_)) => ("err", vec![]), Some(Ok(b)) => ("pkt", b) };
        self.ops.push(json!({"o": "enc", "x": x, "r": r, "b": b}));
        if r == "pkt" { Some(b) } else { None }
    }
    /// The encoder that appends to a buffer, with something in the buffer already.
    pub fn enc_append(&mut self, x: &Mp, pre: &[u8]) {
        use flowsdk::mqtt_serde::control_packet::MqttControlPacket as M;
        let Some(real) = to_real(x) else { return };
        let mut buf = pre.to_vec();
        let r = guard(|| match &real {
            MqttPacket::Connect5(p) => p.encode_to_buffer(&mut buf), MqttPacket::ConnAck5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::Publish5(p) => p.encode_to_buffer(&mut buf), MqttPacket::PubAck5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::PubRec5(p) => p.encode_to_buffer(&mut buf), MqttPacket::PubRel5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::PubComp5(p) => p.encode_to_buffer(&mut buf), MqttPacket::Subscribe5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::SubAck5(p) => p.encode_to_buffer(&mut buf), MqttPacket::Unsubscribe5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::UnsubAck5(p) => p.encode_to_buffer(&mut buf), MqttPacket::PingReq5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::PingResp5(p) => p.encode_to_buffer(&mut buf), MqttPacket::Disconnect5(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::Auth(p) => p.encode_to_buffer(&mut buf), MqttPacket::Connect3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::ConnAck3(p) => p.encode_to_buffer(&mut buf), MqttPacket::Publish3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::PubAck3(p) => p.encode_to_buffer(&mut buf), MqttPacket::PubRec3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::PubRel3(p) => p.encode_to_buffer(&mut buf), MqttPacket::PubComp3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::Subscribe3(p) => p.encode_to_buffer(&mut buf), MqttPacket::SubAck3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::Unsubscribe3(p) => p.encode_to_buffer(&mut buf), MqttPacket::UnsubAck3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::PingReq3(p) => p.encode_to_buffer(&mut buf), MqttPacket::PingResp3(p) => p.encode_to_buffer(&mut buf),
            MqttPacket::Disconnect3(p) => p.encode_to_buffer(&mut buf),
        });
        let r = match r { None => "panic", Some(Err(_)) => "err", Some(Ok(())) => "pkt" };
        // what was in the buffer stays as it was
        let r = if buf.starts_with(pre) { r } else { "clobbered" };
        let b = if r == "pkt" { buf[pre.len()..].to_vec() } else { vec![] };
        self.ops.push(json!({"o": "enc", "x": x, "r": r, "b": b}));
    }

    /// Decoding without the stream parser; `b` may be too short or carry further bytes.
    pub fn dec(&mut self, b: &[u8]) {
        let v = if self.ver == 5 { 5 } else { 4 };
        let r = guard(|| MqttPacket::from_bytes_with_version(b, v));
        let (r, x, n) = match r {
            None => ("panic", json!({}), 0),
            Some(Ok(ParseOk::Packet(p, n))) => ("pkt", serde_json::to_value(of_real(&p)).unwrap(), n),
            Some(Ok(ParseOk::Continue(..))) | Some(Err(ParseError::More(..))) => ("more", json!({}), 0),
            Some(_) => ("err", json!({}), 0),
        };
        self.ops.push(json!({"o": "dec", "b": b, "r": r, "x": x, "n": n}));
    }
    /// The same at a reduced level.
    pub fn lev(&mut self, level: u8, b: &[u8]) {
        let v = if self.ver == 5 { 5 } else { 4 };
        let by = Bytes::copy_from_slice(b);
        let r = guard(|| match level { 1 => parse_headers_only(by, v), 2 => parse_raw_body(by), _ => parse_type_only(b) });
        let (r, x, n) = match r {
            None => ("panic", json!({}), 0),
            Some(Ok(LeveledParseOk::Packet(p, n))) => ("pkt", of_parsed(&p), n),
            Some(Ok(LeveledParseOk::Continue(..))) => ("more", json!({}), 0),
            Some(Err(_)) => ("err", json!({}), 0),
        };
        self.ops.push(json!({"o": "lev", "level": level, "b": b, "r": r, "x": x, "n": n}));
    }

    pub fn open(&mut self, level: u8, cap: usize) {
        let v = if self.ver == 5 { 5 } else { 4 };
        self.parser = Some(if level == 0 { MqttParser::new(cap, v) } else { MqttParser::with_level(cap, v, lev(level)) });
        self.level = level;
        self.ops.push(json!({"o": "open", "level": level}));
    }
    pub fn feed(&mut self, b: &[u8]) {
        let p = self.parser.as_mut().unwrap();
        p.feed(b);
        self.ops.push(json!({"o": "feed", "b": b}));
    }
    pub fn level(&mut self, l: u8) {
        self.parser.as_mut().unwrap().set_parse_level(lev(l));
        self.level = l;
        self.ops.push(json!({"o": "level", "level": l}));
    }
    /// One call of the parser; `full` asks for a fully decoded packet whatever the level.
    pub fn next(&mut self, full: bool) -> &'static str {
        let p = self.parser.as_mut().unwrap();
        let r = guard(|| if full { p.next_packet().map(|x| x.map(ParsedPacket::Full)) } else { p.next_parsed() });
        let (r, x) = match r {
            None => ("panic", json!({})),
            Some(Ok(Some(x))) => ("pkt", of_parsed(&x)),
            Some(Ok(None)) => ("none", json!({})),
            Some(Err(_)) => ("err", json!({})),
        };
        self.ops.push(json!({"o": "next", "level": if full { 0 } else { self.level }, "r": r, "x": x}));
        r
    }
    /// Calls the parser until it wants more; false when its life has ended.
    pub fn drain(&mut self) -> bool {
        for _ in 0..400 {
            match self.next(false) { "pkt" => {} "none" => return true, _ => return false }
        }
        false
    }

    /// The iterator over a reader that hands out these pieces.
    pub fn reader(&mut self, pieces: Vec<Vec<u8>>) {
        struct Src { pieces: std::collections::VecDeque<Vec<u8>>, log: std::rc::Rc<std::cell::RefCell<Vec<Vec<u8>>>> }
        impl std::io::Read for Src {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                let Some(mut x) = self.pieces.pop_front() else { return Ok(0) };
                let n = x.len().min(buf.len());
                buf[..n].copy_from_slice(&x[..n]);
                self.log.borrow_mut().push(x[..n].to_vec());
                if n < x.len() { self.pieces.push_front(x.split_off(n)); }
                Ok(n)
            }
        }
        let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let total: usize = pieces.len() + 400;
        let src = Src { pieces: pieces.into_iter().filter(|x| !x.is_empty()).collect(), log: log.clone() };
        let mut s = MqttStream::new(src, 64, if self.ver == 5 { 5 } else { 4 });
        self.ops.push(json!({"o": "open", "level": 0}));
        for _ in 0..total {
            let r = guard(|| s.next());
            for b in log.borrow_mut().drain(..) {
                // the reader is only asked when no packet is complete
                self.ops.push(json!({"o": "next", "level": 0, "r": "none", "x": {}}));
                self.ops.push(json!({"o": "feed", "b": b}));
            }
            let (r, x) = match r {
                None => ("panic", json!({})),
                Some(None) => ("none", json!({})),
                Some(Some(Ok(p))) => ("pkt", serde_json::to_value(of_real(&p)).unwrap()),
                Some(Some(Err(_))) => ("err", json!({})),
            };
            self.ops.push(json!({"o": "next", "level": 0, "r": r, "x": x}));
            if r != "pkt" { break }
        }
    }

    /// The packet as a gRPC stream message, over the wire and back.
    #[cfg(feature = "grpc")]
    pub fn relay(&mut self, x: &Mp, seq: u64, dir: i64) {
        use mqtt_grpc_proxy::{convert_mqtt_to_stream_message as to, convert_stream_message_to_mqtt_packet as from, mqtt_unified_pb as pb};
        use prost::Message;
        let Some(real) = to_real(x) else { return };
        if !matches!(guard(|| real.to_bytes()), Some(Ok(_))) { return }
        let d = if dir == 0 { pb::MessageDirection::ClientToBroker } else { pb::MessageDirection::BrokerToClient };
        let r = guard(|| {
            let m = to(&real, seq, d)?;
            let m = pb::MqttStreamMessage::decode(&m.encode_to_vec()[..]).ok()?;
            let (s, d) = (m.sequence_id, m.direction as i64);
            let y = from(m)?;
            let b = y.to_bytes().unwrap_or_default();
            Some((s, d, of_real(&y), b))
        });
        self.ops.push(match r {
            None => json!({"o": "relay", "x": x, "seq": [seq >> 32, seq & 0xffff_ffff], "dir": dir, "r": "panic"}),
            Some(None) => json!({"o": "relay", "x": x, "seq": [seq >> 32, seq & 0xffff_ffff], "dir": dir, "r": "none"}),
            Some(Some((s, d, y, b))) => json!({"o": "relay", "x": x, "seq": [seq >> 32, seq & 0xffff_ffff], "dir": dir, "r": "pkt",
                "y": y, "b": b, "seq2": [s >> 32, s & 0xffff_ffff], "dir2": d}),
        });
    }
    /// Messages that carry no packet.
    #[cfg(feature = "grpc")]
    pub fn nopacket(&mut self, which: i64) {
        use mqtt_grpc_proxy::{convert_stream_message_to_mqtt_packet as from, mqtt_unified_pb as pb, mqttv3pb, mqttv5pb};
        use pb::mqtt_stream_message::Payload::*;
        let p = match which {
            0 => None,
            1 => Some(MqttV3Packet(mqttv3pb::MqttPacket { packet: None })),
            2 => Some(MqttV5Packet(mqttv5pb::MqttPacket { packet: None })),
            n => Some(SessionControl(pb::SessionControl { control_type: (n - 3) as i32, client_id: "c".into() })),
        };
        let m = pb::MqttStreamMessage { sequence_id: 9, direction: 1, payload: p };
        let r = match guard(|| from(m)) { None => "panic", Some(None) => "none", Some(Some(_)) => "pkt" };
        self.ops.push(json!({"o": "nopacket", "which": which, "r": r}));
    }

    /// Reading the protocol version off the bytes of a new connection.
    pub fn vsn(&mut self, b: &[u8], off: usize) {
        let mut p = MqttParser::new(64, 0);
        p.feed(b);
        let r = guard(|| p.set_mqtt_vsn(off));
        let (r, n) = match r { None => ("panic", 0), Some(Ok(v)) => ("ok", v as i64), Some(Err(_)) => ("err", 0) };
        self.ops.push(json!({"o": "vsn", "b": b, "off": off, "r": r, "n": n}));
    }

    /// A PUBLISH with a payload of `n` bytes: the head and length of its encoding, and what decodes.
    pub fn big(&mut self, n: usize, decode: bool) {
        let x = Mp { k: 3, ver: self.ver, i: vec![0, 0, 0, 0], s: vec![b"t".to_vec(), vec![0x61; n]], p: vec![], q: vec![] };
        let real = to_real(&x).unwrap();
        let r = guard(|| real.to_bytes());
        let (r, b) = match r { None => ("panic", vec![]), Some(Err(_)) => ("err", vec![]), Some(Ok(b)) => ("pkt", b) };
        let mut back = "skipped";
        if r == "pkt" && decode {
            let mut p = MqttParser::new(1024, if self.ver == 5 { 5 } else { 4 });
            back = match guard(|| {
                let (a, z) = b.split_at(b.len() - 1);
                p.feed(a);
                if !matches!(p.next_packet(), Ok(None)) { return false }
                p.feed(z);
                matches!(p.next_packet(), Ok(Some(y)) if y == real) && matches!(p.next_packet(), Ok(None))
            }) { Some(true) => "same", Some(false) => "differs", None => "panic" };
            if back == "same" && n < 2_200_000 {
                // a reader that gives a few bytes at a time
                struct Slow<'a>(&'a [u8]);
                impl std::io::Read for Slow<'_> {
                    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                        let n = self.0.len().min(buf.len()).min(37);
                        buf[..n].copy_from_slice(&self.0[..n]);
                        self.0 = &self.0[n..];
                        Ok(n)
                    }
                }
                let mut s = MqttStream::new(Slow(&b), 64, if self.ver == 5 { 5 } else { 4 });
                back = match guard(|| matches!(s.next(), Some(Ok(y)) if y == real) && s.next().is_none()) {
                    Some(true) => "same", Some(false) => "differs", None => "panic" };
            }
        }
        self.ops.push(json!({"o": "big", "n": n, "r": r, "tot": b.len(), "b": b[..b.len().min(12)], "back": back}));
    }
}
#[allow(dead_code)]
fn _types(_: ControlPacketType) {}
