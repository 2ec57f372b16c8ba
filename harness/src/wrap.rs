//! The engine behind other interfaces: 1 the methods offered to other languages, 2 the C
//! functions, 3 the TLS engine, 4 its methods, 5 its C functions.
use crate::eng::*;
use crate::{vclock, wire};
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use flowsdk_ffi::engine::ffi_types::*;
use flowsdk_ffi::engine::*;
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::ffi::{CStr, CString};
use std::io::{Read, Write};
use std::os::raw::c_char;
use std::ptr::{null, null_mut};
use std::sync::Arc;

pub const T0: i64 = 1000;
pub const CA: &str = include_str!("../certs/ca.pem");
pub const OTHER: &str = include_str!("../certs/other.pem");
pub const LEAF: (&str, &str) = (include_str!("../certs/leaf.pem"), include_str!("../certs/leaf.key"));
const CLI: (&str, &str) = (include_str!("../certs/cli.pem"), include_str!("../certs/cli.key"));
pub const ALPN: [&str; 2] = ["mqtt", "x-mqtt/2"];

pub fn target(cfg: &Cfg) -> Box<dyn Target> {
    let _ = rustls::crypto::ring::default_provider().install_default();
    match cfg.via {
        1 => Box::new(Meth(if cfg.ctor == 0 { MqttEngineFFI::new_with_opts(opts(cfg)) } else {
            MqttEngineFFI::new((cfg.ctor == 1).then(|| format!("c{}", cfg.cm)), cfg.ver as u8)
        }, cfg.ver)),
        2 => Box::new(CApi::new(cfg)),
        3 => {
            let t = tlsopts(cfg);
            let b = rustls::ClientConfig::builder();
            let mut c = if t.insecure_skip_verify {
                b.dangerous().with_custom_certificate_verifier(Arc::new(Any)).with_no_client_auth()
            } else {
                let mut r = rustls::RootCertStore::empty();
                r.add(cert(if cfg.vfy == 2 { OTHER } else { CA })).unwrap();
                let b = b.with_root_certificates(r);
                if cfg.vfy == 3 { b.with_client_auth_cert(vec![cert(CLI.0)], key(CLI.1)).unwrap() } else { b.with_no_client_auth() }
            };
            c.alpn_protocols = t.alpn_protocols.iter().map(|s| s.clone().into_bytes()).collect();
            tls(cfg, Side::Native(TlsMqttEngine::new(cfg.options(), "localhost", Arc::new(c)).unwrap()))
        }
        4 => tls(cfg, Side::Meth(TlsMqttEngineFFI::new(opts(cfg), tlsopts(cfg), "localhost".into()))),
        5 => {
            let p = |x: &Option<CString>| x.as_ref().map_or(null(), |x| x.as_ptr());
            let id = (cfg.ctor < 2).then(|| CString::new(format!("c{}", cfg.cm)).unwrap());
            let host = (cfg.cm % 2 == 0).then(|| CString::new("localhost").unwrap());
            tls(cfg, Side::C(with_tls(cfg, |o| unsafe { mqtt_tls_engine_new(p(&id), cfg.ver as u8, p(&host), o) })))
        }
        n => panic!("via {n}"),
    }
}
pub fn opts(cfg: &Cfg) -> MqttOptionsFFI {
    let c = &cfg.cl;
    MqttOptionsFFI {
        client_id: format!("c{}", cfg.cm),
        mqtt_version: cfg.ver as u8,
        clean_start: c[1] == 1,
        keep_alive: cfg.ka as u16,
        username: (c[3] >= 0).then(|| format!("u{}", c[3])),
        password: (c[4] >= 0).then(|| format!("w{}", c[4])),
        reconnect_base_delay_ms: cfg.base as u64,
        reconnect_max_delay_ms: cfg.maxd as u64,
        max_reconnect_attempts: cfg.maxatt as u32,
    }
}
pub fn cert(pem: &str) -> CertificateDer<'static> { CertificateDer::from_pem_slice(pem.as_bytes()).unwrap() }
pub fn key(pem: &str) -> PrivateKeyDer<'static> { PrivateKeyDer::from_pem_slice(pem.as_bytes()).unwrap() }
pub fn file(name: &str, text: &str) -> String {
    let p = format!("{}/{name}", crate::scratch());
    if !std::path::Path::new(&p).exists() { std::fs::write(&p, text).unwrap(); }
    p
}
pub fn tlsopts(cfg: &Cfg) -> MqttTlsOptionsFFI {
    MqttTlsOptionsFFI {
        ca_cert_file: match cfg.vfy { 0 | 6 => None, 2 => Some(file("other.pem", OTHER)), _ => Some(file("ca.pem", CA)) },
        client_cert_file: (cfg.vfy == 3).then(|| file("cli.pem", CLI.0)),
        client_key_file: (cfg.vfy == 3).then(|| file("cli.key", CLI.1)),
        insecure_skip_verify: cfg.vfy == 0,
        alpn_protocols: if cfg.alpn == 1 && cfg.via != 3 { vec![] } else { vec![ALPN[cfg.alpn as usize - 1].into()] },
        enable_key_log: false,
    }
}
/// The options for a C function
pub fn with_tls<T>(cfg: &Cfg, f: impl FnOnce(*const MqttTlsOptionsC) -> T) -> T {
    let t = tlsopts(cfg);
    let s = |x: &Option<String>| x.as_ref().map(|x| CString::new(x.as_str()).unwrap());
    let p = |x: &Option<CString>| x.as_ref().map_or(null(), |x| x.as_ptr());
    let (ca, cc, ck) = (s(&t.ca_cert_file), s(&t.client_cert_file), s(&t.client_key_file));
    let al = (cfg.alpn != 1).then(|| CString::new(ALPN[cfg.alpn as usize - 1]).unwrap());
    f(&MqttTlsOptionsC {
        ca_cert_file: p(&ca), client_cert_file: p(&cc), client_key_file: p(&ck), alpn: p(&al),
        insecure_skip_verify: t.insecure_skip_verify as u8, enable_key_log: 0,
    })
}
#[derive(Debug)]
struct Any;
impl rustls::client::danger::ServerCertVerifier for Any {
    fn verify_server_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: &rustls::pki_types::ServerName<'_>, _: &[u8],
        _: rustls::pki_types::UnixTime) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct)
        -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct)
        -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> { vec![rustls::SignatureScheme::ECDSA_NISTP256_SHA256] }
}

fn ev(k: &str) -> Ev { Ev { k: k.into(), x: -1, ..Default::default() } }
fn opt<T: Into<i64>>(x: Option<T>) -> i64 { x.map(|v| v.into()).unwrap_or(-1) }
fn codes(v: &[u8]) -> Vec<i64> { v.iter().map(|c| *c as i64).collect() }
pub fn ffi_event(e: &MqttEventFFI) -> Ev {
    match e {
        MqttEventFFI::Connected(c) => Ev { rc: c.reason_code as i64, x: c.session_present as i64, ..ev("Connected") },
        MqttEventFFI::Disconnected { reason_code } => Ev { rc: opt(*reason_code), ..ev("Disconnected") },
        MqttEventFFI::MessageReceived(m) =>
            Ev { q: m.qos as i64, m: wire::msgno(m.topic.as_bytes(), &m.payload), r: m.retain as i64, ..ev("MessageReceived") },
        MqttEventFFI::Published(r) => Ev { id: opt(r.packet_id), rc: opt(r.reason_code), q: r.qos as i64, ..ev("Published") },
        MqttEventFFI::Subscribed(r) => Ev { id: r.packet_id as i64, l: codes(&r.reason_codes), ..ev("Subscribed") },
        MqttEventFFI::Unsubscribed(r) => Ev { id: r.packet_id as i64, l: codes(&r.reason_codes), ..ev("Unsubscribed") },
        MqttEventFFI::PingResponse { success } => Ev { x: *success as i64, ..ev("PingResponse") },
        MqttEventFFI::Error { .. } => ev("Error"),
        MqttEventFFI::ReconnectNeeded => ev("ReconnectNeeded"),
        MqttEventFFI::ReconnectScheduled { attempt, delay_ms } => Ev { x: *attempt as i64, m: *delay_ms as i64, ..ev("ReconnectScheduled") },
        MqttEventFFI::StreamClosed { stream_id, by_peer, .. } => Ev { x: *stream_id as i64, m: *by_peer as i64, ..ev("StreamClosed") },
        MqttEventFFI::StreamReset { stream_id, error_code } => Ev { x: *stream_id as i64, m: *error_code as i64, ..ev("StreamReset") },
        MqttEventFFI::StreamStopped { stream_id, error_code } => Ev { x: *stream_id as i64, m: *error_code as i64, ..ev("StreamStopped") },
    }
}
pub fn evs(v: &[MqttEventFFI]) -> Vec<Ev> { v.iter().map(ffi_event).collect() }
/// An event as the C functions render it in JSON.
pub fn json_event(v: &serde_json::Value) -> Ev {
    let (k, f) = match v {
        serde_json::Value::String(s) => (s.as_str(), &serde_json::Value::Null),
        serde_json::Value::Object(o) if o.len() == 1 => { let (k, f) = o.iter().next().unwrap(); (k.as_str(), f) }
        _ => return ev("?"),
    };
    let n = |x: &str| match &f[x] { serde_json::Value::Bool(b) => *b as i64, v => v.as_i64().unwrap_or(-1) };
    let l = |x: &str| f[x].as_array().map(|a| a.iter().map(|v| v.as_i64().unwrap_or(-99)).collect::<Vec<_>>()).unwrap_or_default();
    match k {
        "Connected" => Ev { rc: n("reason_code"), x: n("session_present"), ..ev(k) },
        "Disconnected" => Ev { rc: n("reason_code"), ..ev(k) },
        "MessageReceived" => {
            let pl: Vec<u8> = l("payload").iter().map(|x| *x as u8).collect();
            Ev { q: n("qos"), r: n("retain"), m: wire::msgno(f["topic"].as_str().unwrap_or("").as_bytes(), &pl), ..ev(k) }
        }
        "Published" => Ev { id: n("packet_id"), rc: n("reason_code"), q: n("qos"), ..ev(k) },
        "Subscribed" | "Unsubscribed" => Ev { id: n("packet_id"), l: l("reason_codes"), ..ev(k) },
        "PingResponse" => Ev { x: n("success"), ..ev(k) },
        "ReconnectScheduled" => Ev { x: n("attempt"), m: n("delay_ms"), ..ev(k) },
        "StreamClosed" => Ev { x: n("stream_id"), m: n("by_peer"), ..ev(k) },
        "StreamReset" | "StreamStopped" => Ev { x: n("stream_id"), m: n("error_code"), ..ev(k) },
        _ => ev(k),
    }
}
pub unsafe fn json_events(p: *mut c_char) -> Vec<Ev> {
    let v: serde_json::Value = serde_json::from_str(CStr::from_ptr(p).to_str().unwrap()).unwrap();
    mqtt_engine_free_string(p);
    v.as_array().unwrap().iter().map(json_event).collect()
}
unsafe fn text(p: *mut c_char) -> Option<String> {
    if p.is_null() { return None; }
    let s = CStr::from_ptr(p).to_str().unwrap().to_string();
    mqtt_engine_free_string(p);
    Some(s)
}
unsafe fn bytes(p: *mut u8, n: usize) -> Vec<u8> {
    if p.is_null() { return vec![]; }
    let v = std::slice::from_raw_parts(p, n).to_vec();
    mqtt_engine_free_bytes(p, n);
    v
}
/// Everything the C functions tell about a list of events; it is freed.
pub unsafe fn list_events(p: *mut MqttEventListFFI) -> Vec<Ev> {
    const K: [&str; 14] = ["?", "Connected", "Disconnected", "MessageReceived", "Published", "Subscribed", "Unsubscribed", "PingResponse", "Error",
        "ReconnectNeeded", "ReconnectScheduled", "StreamClosed", "StreamReset", "StreamStopped"];
    let n = mqtt_event_list_len(p);
    let mut v = vec![];
    for i in 0..n {
        let k = K.get(mqtt_event_list_get_tag(p, i) as usize).copied().unwrap_or("?");
        let mut e = ev(k);
        let mut len = 77usize;
        let topic = text(mqtt_event_list_get_message_topic(p, i));
        let pl = mqtt_event_list_get_message_payload(p, i, &mut len);
        if let Some(t) = &topic { e.m = wire::msgno(t.as_bytes(), &bytes(pl, len)); }
        let rc = mqtt_event_list_get_connected_rc(p, i) as i64;
        let (pp, sp) = (mqtt_event_list_get_published_pid(p, i) as i64, mqtt_event_list_get_subscribed_pid(p, i) as i64);
        let er = text(mqtt_event_list_get_error_message(p, i));
        let (sid, sec) = (mqtt_event_list_get_stream_id(p, i) as i64, mqtt_event_list_get_stream_error_code(p, i) as i64);
        let (sr, sb) = (text(mqtt_event_list_get_stream_close_reason(p, i)), mqtt_event_list_get_stream_closed_by_peer(p, i) as i64);
        // each function answers for its own kind of event only
        let own = (topic.is_some() == (k == "MessageReceived")) && (len != 77 || !pl.is_null()) == (k == "MessageReceived")
            && (k == "Connected" || rc == 0) && (k == "Published") == (pp >= 0) && (k == "Subscribed") == (sp >= 0)
            && (k == "Error") == er.is_some() && (k.starts_with("Stream") || sid == 0) && (k == "StreamReset" || k == "StreamStopped" || sec == 0)
            && (k == "StreamClosed") == sr.is_some() && (k == "StreamClosed") == (sb >= 0);
        e.rc = rc;
        if pp >= 0 { e.id = pp }
        if sp >= 0 { e.id = sp }
        if k.starts_with("Stream") { e.x = sid; e.m = if k == "StreamClosed" { sb } else { sec }; }
        if !own { e.k = format!("{k}?"); }
        v.push(e);
    }
    if mqtt_event_list_get_tag(p, n) != 0 || !mqtt_event_list_get_message_topic(p, n + 5).is_null() || mqtt_event_list_get_published_pid(p, n) != -1 {
        v.push(ev("beyond"));
    }
    mqtt_event_list_free(p);
    v
}
pub fn code(o: &mut Obs, n: i32) { if n < 0 { o.ret = if n == -1 { "err".into() } else { "other".into() } } else { o.id = n as i64 } }

struct Meth(MqttEngineFFI, i64);
impl Target for Meth {
    fn conn(&self) -> bool { self.0.is_connected() }
    fn nt(&self) -> i64 { let n = self.0.next_tick_ms(); if n < 0 { n } else { n + T0 } }
    fn apply(&mut self, op: &Op, o: &mut Obs) {
        let (a, e) = (&op.a, &self.0);
        match op.op.as_str() {
            "connect" => e.connect(),
            "lost" => e.handle_connection_lost(),
            "disc" => e.disconnect(),
            "auth" => e.auth(a.rc as u8),
            "tick" => o.evs = evs(&e.handle_tick((op.now - T0) as u64)),
            "take" => o.out = wire::decode_all(self.1, &e.take_outgoing()),
            "takeev" => o.evs = evs(&e.take_events()),
            "pub" => {
                let c = publish_cmd(a);
                code(o, e.publish(c.topic_name, c.payload, a.q as u8, (a.pr != 128).then_some(a.pr as u8)))
            }
            "sub" => code(o, e.subscribe(sub_cmd(a).subscriptions[0].topic_filter.clone(), (a.l[0] & 3) as u8)),
            "unsub" => code(o, e.unsubscribe(unsub_cmd(a).topics[0].clone())),
            "in" => o.evs = evs(&e.handle_incoming(unhex(&a.by))),
            "ver" => o.id = e.get_version() as i64,
            x => panic!("unknown op {x}"),
        }
    }
}

/// A pointer to the first byte, never null
pub fn ptr(b: &[u8]) -> *const u8 { b.as_ptr() }
struct CApi(*mut MqttEngineFFI, i64);
impl CApi {
    fn new(cfg: &Cfg) -> CApi {
        let s = |x: Option<String>| x.map(|x| CString::new(x).unwrap());
        let p = |x: &Option<CString>| x.as_ref().map_or(null(), |x| x.as_ptr());
        let id = s((cfg.ctor < 2).then(|| format!("c{}", cfg.cm)));
        let o = opts(cfg);
        let (u, w) = (s(o.username), s(o.password));
        let c = MqttOptionsC {
            client_id: p(&id), mqtt_version: o.mqtt_version, clean_start: o.clean_start, keep_alive: o.keep_alive, username: p(&u), password: p(&w),
            reconnect_base_delay_ms: o.reconnect_base_delay_ms, reconnect_max_delay_ms: o.reconnect_max_delay_ms,
            max_reconnect_attempts: o.max_reconnect_attempts,
        };
        CApi(unsafe { if cfg.ctor == 0 { mqtt_engine_new_with_opts(&c) } else { mqtt_engine_new(p(&id), cfg.ver as u8) } }, cfg.ver)
    }
}
impl Drop for CApi {
    fn drop(&mut self) { unsafe { mqtt_engine_free(self.0) } }
}
impl Target for CApi {
    fn conn(&self) -> bool { unsafe { mqtt_engine_is_connected(self.0) == 1 } }
    fn nt(&self) -> i64 { let n = unsafe { mqtt_engine_next_tick_ms(self.0) }; if n < 0 { n } else { n + T0 } }
    fn apply(&mut self, op: &Op, o: &mut Obs) {
        let (a, e) = (&op.a, self.0);
        unsafe {
            match op.op.as_str() {
                "connect" => mqtt_engine_connect(e),
                "lost" => mqtt_engine_handle_connection_lost(e),
                "disc" => mqtt_engine_disconnect(e),
                "auth" => mqtt_engine_auth(e, a.rc as u8),
                "tick" => mqtt_engine_handle_tick(e, (op.now - T0) as u64),
                "take" => {
                    let mut n = 99;
                    let p = mqtt_engine_take_outgoing(e, &mut n);
                    if p.is_null() != (n == 0) { o.ret = "len".into(); }
                    o.out = wire::decode_all(self.1, &bytes(p, n));
                }
                "takeev" => o.evs = json_events(mqtt_engine_take_events(e)),
                "takelist" => o.evs = list_events(mqtt_engine_take_events_list(e)),
                "pub" => {
                    let c = publish_cmd(a);
                    let t = CString::new(c.topic_name).unwrap();
                    code(o, mqtt_engine_publish(e, t.as_ptr(), ptr(&c.payload), c.payload.len(), a.q as u8))
                }
                "sub" => {
                    let t = CString::new(sub_cmd(a).subscriptions[0].topic_filter.clone()).unwrap();
                    code(o, mqtt_engine_subscribe(e, t.as_ptr(), (a.l[0] & 3) as u8))
                }
                "unsub" => { let t = CString::new(unsub_cmd(a).topics[0].clone()).unwrap(); code(o, mqtt_engine_unsubscribe(e, t.as_ptr())) }
                "in" => { let b = unhex(&a.by); mqtt_engine_handle_incoming(e, ptr(&b), b.len()) }
                "ver" => o.id = mqtt_engine_get_version(e) as i64,
                "null" => {
                    // no engine
                    let z = null_mut();
                    let mut n = 5;
                    mqtt_engine_free(z); mqtt_engine_connect(z); mqtt_engine_handle_incoming(z, b"x".as_ptr(), 1); mqtt_engine_handle_tick(z, 5);
                    mqtt_engine_disconnect(z); mqtt_engine_auth(z, 0); mqtt_engine_handle_connection_lost(z);
                    mqtt_engine_free_bytes(null_mut(), 3); mqtt_engine_free_string(null_mut()); mqtt_event_list_free(null_mut());
                    let t = c"t".as_ptr();
                    let bad = [mqtt_engine_next_tick_ms(z) != -1, !mqtt_engine_take_outgoing(z, &mut n).is_null(),
                        mqtt_engine_publish(z, t, b"x".as_ptr(), 1, 0) != -1, mqtt_engine_subscribe(z, t, 0) != -1, mqtt_engine_unsubscribe(z, t) != -1,
                        mqtt_engine_is_connected(z) != 0, !mqtt_engine_take_events(z).is_null(), !mqtt_engine_take_events_list(z).is_null(),
                        !mqtt_engine_new_with_opts(null()).is_null(), mqtt_event_list_len(null()) != 0, mqtt_event_list_get_tag(null(), 0) != 0,
                        // no argument
                        mqtt_engine_publish(e, null(), b"x".as_ptr(), 1, 0) != -1, mqtt_engine_subscribe(e, null(), 0) != -1,
                        mqtt_engine_unsubscribe(e, null()) != -1];
                    mqtt_engine_handle_incoming(e, null(), 0);
                    o.id = bad.iter().enumerate().map(|(i, b)| (*b as i64) << i).sum();
                }
                x => panic!("unknown op {x}"),
            }
        }
    }
}

enum Side {
    Native(TlsMqttEngine),
    Meth(TlsMqttEngineFFI),
    C(*mut TlsMqttEngineFFI),
}
/// A TLS engine and the server it talks to
struct Tls {
    s: Side,
    srv: rustls::ServerConnection,
    cfg: Cfg,
    got: Vec<u8>,
    wrong: bool,
    n: usize,
}
fn tls(cfg: &Cfg, s: Side) -> Box<dyn Target> {
    let v: &[&rustls::SupportedProtocolVersion] = if cfg.tlsv == 12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13] };
    let b = rustls::ServerConfig::builder_with_protocol_versions(v);
    let b = if cfg.vfy >= 3 {
        let mut r = rustls::RootCertStore::empty();
        r.add(cert(CA)).unwrap();
        b.with_client_cert_verifier(rustls::server::WebPkiClientVerifier::builder(Arc::new(r)).build().unwrap())
    } else { b.with_no_client_auth() };
    let mut c = b.with_single_cert(vec![cert(LEAF.0)], key(LEAF.1)).unwrap();
    c.alpn_protocols = ALPN.iter().rev().map(|s| s.as_bytes().to_vec()).collect();
    let mut srv = rustls::ServerConnection::new(Arc::new(c)).unwrap();
    srv.set_buffer_limit(None);
    Box::new(Tls { s, srv, cfg: cfg.clone(), got: vec![], wrong: false, n: 0 })
}
impl Drop for Tls {
    fn drop(&mut self) { if let Side::C(p) = self.s { unsafe { mqtt_tls_engine_free(p) } } }
}
impl Tls {
    fn take(&mut self) -> Vec<u8> {
        match &mut self.s {
            Side::Native(e) => e.take_socket_data(),
            Side::Meth(e) => e.take_socket_data(),
            Side::C(e) => unsafe {
                let mut n = 99;
                let p = mqtt_tls_engine_take_socket_data(*e, &mut n);
                if p.is_null() != (n == 0) { panic!("length") }
                bytes(p, n)
            },
        }
    }
    fn give(&mut self, b: &[u8]) {
        match &mut self.s {
            Side::Native(e) => if e.handle_socket_data(b).is_err() { self.wrong = true },
            Side::Meth(e) => e.handle_socket_data(b.to_vec()),
            Side::C(e) => unsafe { mqtt_tls_engine_handle_socket_data(*e, ptr(b), b.len()) },
        }
    }
    /// Everything the client has for the server
    fn pump(&mut self) {
        loop {
            let v = self.take();
            if v.is_empty() { break }
            let mut d = &v[..];
            while !d.is_empty() {
                if self.srv.read_tls(&mut d).unwrap_or(0) == 0 { break }
                if self.srv.process_new_packets().is_err() { self.wrong = true; return; }
                let mut b = [0; 4096];
                while let Ok(n) = self.srv.reader().read(&mut b) { if n == 0 { break } self.got.extend(&b[..n]); }
            }
        }
    }
    /// Everything the server has for the client, in pieces
    fn push(&mut self) {
        let mut v = vec![];
        while self.srv.wants_write() { self.srv.write_tls(&mut v).unwrap(); }
        self.n += 1;
        let step = match self.n % 4 { 0 => 1 + v.len() / 3, 1 => 7, 2 => 5000, _ => v.len().max(1) }.max(v.len() / 4000).max(1);
        for c in v.chunks(step) { self.give(c); }
    }
}
impl Target for Tls {
    fn conn(&self) -> bool {
        match &self.s {
            Side::Native(e) => e.is_connected(),
            Side::Meth(e) => e.is_connected(),
            Side::C(e) => unsafe { mqtt_tls_engine_is_connected(*e) == 1 },
        }
    }
    fn nt(&self) -> i64 { -2 }
    fn apply(&mut self, op: &Op, o: &mut Obs) {
        let a = &op.a;
        match op.op.as_str() {
            "shake" => {
                for _ in 0..4 { self.pump(); if self.wrong { break } self.push(); }
                self.pump();
                if self.wrong || self.srv.is_handshaking() { o.ret = "err".into() } else {
                    o.id = self.srv.alpn_protocol().and_then(|p| ALPN.iter().position(|x| x.as_bytes() == p)).map_or(0, |x| x as i64 + 1);
                }
                o.out = wire::decode_all(self.cfg.ver, &std::mem::take(&mut self.got));
            }
            "takesock" => {
                self.pump();
                if self.wrong { o.ret = "err".into() }
                o.out = wire::decode_all(self.cfg.ver, &std::mem::take(&mut self.got));
            }
            "sock" => {
                self.srv.writer().write_all(&unhex(&a.by)).unwrap();
                self.push();
                if self.wrong { o.ret = "err".into() }
            }
            _ => match &mut self.s {
                Side::Native(e) => match op.op.as_str() {
                    "connect" => e.connect(),
                    "disc" => e.disconnect(),
                    "tick" => o.evs = e.handle_tick(vclock::at(op.now)).iter().map(event).collect(),
                    "takeev" => o.evs = e.take_events().iter().map(event).collect(),
                    "pub" => match e.publish(publish_cmd(a)) { Ok(id) => o.id = id.map(|x| x as i64).unwrap_or(0), Err(x) => o.ret = err(&x) },
                    "sub" => match e.subscribe(sub_cmd(a)) { Ok(id) => o.id = id as i64, Err(x) => o.ret = err(&x) },
                    "unsub" => match e.unsubscribe(unsub_cmd(a)) { Ok(id) => o.id = id as i64, Err(x) => o.ret = err(&x) },
                    x => panic!("unknown op {x}"),
                },
                Side::Meth(e) => match op.op.as_str() {
                    "connect" => e.connect(),
                    "disc" => e.disconnect(),
                    "tick" => o.evs = evs(&e.handle_tick((op.now - T0) as u64)),
                    "takeev" => o.evs = evs(&e.take_events()),
                    "pub" => { let c = publish_cmd(a); code(o, e.publish(c.topic_name, c.payload, a.q as u8)) }
                    "sub" => code(o, e.subscribe(sub_cmd(a).subscriptions[0].topic_filter.clone(), (a.l[0] & 3) as u8)),
                    "unsub" => code(o, e.unsubscribe(unsub_cmd(a).topics[0].clone())),
                    x => panic!("unknown op {x}"),
                },
                Side::C(e) => unsafe {
                    let e = *e;
                    match op.op.as_str() {
                        "connect" => mqtt_tls_engine_connect(e),
                        "disc" => mqtt_tls_engine_disconnect(e),
                        "tick" => mqtt_tls_engine_handle_tick(e, (op.now - T0) as u64),
                        "takeev" => o.evs = json_events(mqtt_tls_engine_take_events(e)),
                        "takelist" => o.evs = list_events(mqtt_tls_engine_take_events_list(e)),
                        "pub" => {
                            let c = publish_cmd(a);
                            let t = CString::new(c.topic_name).unwrap();
                            code(o, mqtt_tls_engine_publish(e, t.as_ptr(), ptr(&c.payload), c.payload.len(), a.q as u8))
                        }
                        "sub" => {
                            let t = CString::new(sub_cmd(a).subscriptions[0].topic_filter.clone()).unwrap();
                            code(o, mqtt_tls_engine_subscribe(e, t.as_ptr(), (a.l[0] & 3) as u8))
                        }
                        "unsub" => { let t = CString::new(unsub_cmd(a).topics[0].clone()).unwrap(); code(o, mqtt_tls_engine_unsubscribe(e, t.as_ptr())) }
                        "null" => {
                            let z = null_mut();
                            let mut n = 5;
                            mqtt_tls_engine_free(z); mqtt_tls_engine_connect(z); mqtt_tls_engine_handle_socket_data(z, b"x".as_ptr(), 1);
                            mqtt_tls_engine_handle_tick(z, 5); mqtt_tls_engine_disconnect(z); mqtt_tls_engine_handle_socket_data(e, null(), 0);
                            let t = c"t".as_ptr();
                            let bad = [!mqtt_tls_engine_take_socket_data(z, &mut n).is_null(), mqtt_tls_engine_publish(z, t, b"x".as_ptr(), 1, 0) != -1,
                                mqtt_tls_engine_subscribe(z, t, 0) != -1, mqtt_tls_engine_unsubscribe(z, t) != -1, mqtt_tls_engine_is_connected(z) != 0,
                                !mqtt_tls_engine_take_events(z).is_null(), !mqtt_tls_engine_take_events_list(z).is_null(),
                                mqtt_tls_engine_publish(e, null(), b"x".as_ptr(), 1, 0) != -1, mqtt_tls_engine_subscribe(e, null(), 0) != -1,
                                mqtt_tls_engine_unsubscribe(e, null()) != -1];
                            o.id = bad.iter().enumerate().map(|(i, b)| (*b as i64) << i).sum();
                        }
                        x => panic!("unknown op {x}"),
                    }
                },
            },
        }
    }
}
