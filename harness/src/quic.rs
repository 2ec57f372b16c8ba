//! The QUIC engine against a real QUIC server: datagrams are carried by the driver, which
//! may lose, repeat and reorder them; the server side is scripted.
use crate::eng::*;
use crate::rng::Rng;
use crate::wire::{self, Pk};
use crate::{vclock, wrap};
use flowsdk::mqtt_client::engine::{MqttEvent, QuicMqttEngine, QuicZeroRttConfig};
use flowsdk::mqtt_client::MqttClientError;
use quinn_proto::{Connection, ConnectionError, ConnectionHandle, DatagramEvent, Dir, Endpoint, EndpointConfig, Event, ReadError, ServerConfig, StreamEvent,
    StreamId, TransportConfig, VarInt};
use flowsdk_ffi::engine::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::SocketAddr;
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// What the server saw on one stream; -1: not closed that way
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Seen {
    pub st: i64,
    pub b: Vec<Pk>,
    pub fin: i64,
    pub rst: i64,
    pub stop: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct QObs {
    pub seen: Vec<Seen>,
    /// code and whether the reason is ours
    pub close: Vec<i64>,
    /// connections accepted
    pub nc: i64,
    pub n: i64,
    pub ctl: i64,
    pub z: String,
    /// the application protocol agreed on, 0: no connection completed
    pub alpn: i64,
    /// time at the end
    pub t: i64,
}

#[derive(Default)]
struct SStream {
    buf: Vec<u8>,
    rdone: bool,
    idle: bool,
    fin: i64,
    rst: i64,
    stop: i64,
    out: Vec<u8>,
}
impl SStream {
    fn new() -> SStream { SStream { rst: -1, stop: -1, ..Default::default() } }
}
struct Net {
    srv: Endpoint,
    conn: Option<(ConnectionHandle, Connection)>,
    st: BTreeMap<StreamId, SStream>,
    stalled: BTreeSet<u64>,
    to_srv: VecDeque<(SocketAddr, Vec<u8>)>,
    to_cli: VecDeque<Vec<u8>>,
    sn: i64,
    caddr: SocketAddr,
    saddr: SocketAddr,
    nc: i64,
    alpn: i64,
    close: Vec<i64>,
    r: Rng,
    loss: u64,
    budget: u64,
    cfg: Cfg,
}
fn server_config(cfg: &Cfg) -> Arc<ServerConfig> {
    let mut c = rustls::ServerConfig::builder().with_no_client_auth().with_single_cert(vec![wrap::cert(wrap::LEAF.0)], wrap::key(wrap::LEAF.1)).unwrap();
    c.alpn_protocols = wrap::ALPN.iter().map(|s| s.as_bytes().to_vec()).collect();
    c.max_early_data_size = u32::MAX;
    let mut s = ServerConfig::with_crypto(Arc::new(quinn_proto::crypto::rustls::QuicServerConfig::try_from(c).unwrap()));
    let mut t = TransportConfig::default();
    t.max_idle_timeout(None);
    t.max_concurrent_bidi_streams(VarInt::from_u32(cfg.slim as u32));
    if cfg.win > 0 { t.stream_receive_window(VarInt::from_u32(cfg.win as u32)); }
    s.transport_config(Arc::new(t));
    Arc::new(s)
}
impl Net {
    fn new(cfg: &Cfg) -> Net {
        let (caddr, saddr) = ("127.0.0.1:4000".parse().unwrap(), "127.0.0.1:14567".parse().unwrap());
        Net {
            srv: Endpoint::new(Arc::new(EndpointConfig::default()), Some(server_config(cfg)), true, None), conn: None, st: BTreeMap::new(),
            stalled: BTreeSet::new(), to_srv: VecDeque::new(), to_cli: VecDeque::new(), sn: 0, caddr, saddr, nc: 0, alpn: 0, close: vec![],
            r: Rng::new((cfg.cm as u64).wrapping_mul(7919).wrapping_add(cfg.loss as u64)), loss: cfg.loss as u64, budget: 0, cfg: cfg.clone(),
        }
    }
    fn now(&self) -> Instant { vclock::at(0) + Duration::from_millis(self.sn as u64) }
    fn id(&self, st: i64) -> Option<StreamId> { self.st.keys().copied().find(|i| u64::from(*i) as i64 == st) }
    fn receive(&mut self, from: SocketAddr, d: Vec<u8>) {
        let now = self.now();
        let mut buf = vec![];
        match self.srv.handle(now, from, None, None, bytes::BytesMut::from(&d[..]), &mut buf) {
            Some(DatagramEvent::NewConnection(inc)) => {
                let mut b = vec![];
                if let Ok((ch, c)) = self.srv.accept(inc, now, &mut b, None) {
                    self.conn = Some((ch, c));
                    self.st.clear();
                    self.stalled.clear();
                    self.nc += 1;
                } else if !b.is_empty() { self.to_cli.push_back(b); }
            }
            Some(DatagramEvent::ConnectionEvent(ch, ev)) => if let Some((h, c)) = &mut self.conn { if *h == ch { c.handle_event(ev); } },
            Some(DatagramEvent::Response(_)) => self.to_cli.push_back(buf),
            None => {}
        }
        self.pump();
    }
    fn pump(&mut self) {
        let now = self.now();
        let Some((ch, c)) = &mut self.conn else { return };
        c.handle_timeout(now);
        while let Some(id) = c.streams().accept(Dir::Bi) { self.st.insert(id, SStream::new()); }
        let mut over = false;
        while let Some(ev) = c.poll() {
            match ev {
                Event::Stream(StreamEvent::Stopped { id, error_code }) => if let Some(s) = self.st.get_mut(&id) { s.stop = u64::from(error_code) as i64 },
                Event::Stream(StreamEvent::Readable { id }) => if let Some(s) = self.st.get_mut(&id) { s.idle = false },
                Event::Connected => {
                    let d = c.crypto_session().handshake_data().and_then(|d| d.downcast::<quinn_proto::crypto::rustls::HandshakeData>().ok());
                    self.alpn = d.and_then(|d| d.protocol).and_then(|p| wrap::ALPN.iter().position(|x| x.as_bytes() == p)).map_or(9, |x| x as i64 + 1);
                }
                Event::ConnectionLost { reason } => {
                    self.close = match reason {
                        ConnectionError::ApplicationClosed(a) => {
                            let code = u64::from(a.error_code) as i64;
                            vec![code, (a.reason[..] == *reason_for(code).as_bytes()) as i64]
                        }
                        _ => vec![-2, 0],
                    };
                    over = true;
                }
                _ => {}
            }
        }
        for (id, s) in self.st.iter_mut() {
            if s.rdone || s.idle || self.stalled.contains(&u64::from(*id)) { continue }
            s.idle = true;
            let mut rs = c.recv_stream(*id);
            if let Ok(mut ch) = rs.read(true) {
                loop {
                    match ch.next(65536) {
                        Ok(Some(x)) => s.buf.extend(&x.bytes[..]),
                        Ok(None) => { s.fin = 1; s.rdone = true; break }
                        Err(ReadError::Reset(e)) => { s.rst = u64::from(e) as i64; s.rdone = true; break }
                        Err(_) => break,
                    }
                }
            };
        }
        for (id, s) in self.st.iter_mut() {
            while !s.out.is_empty() {
                match c.send_stream(*id).write(&s.out) { Ok(n) => { s.out.drain(..n); } Err(_) => break }
            }
        }
        loop {
            let mut any = false;
            while let Some(ev) = c.poll_endpoint_events() { if let Some(ce) = self.srv.handle_event(*ch, ev) { c.handle_event(ce); } }
            let mut buf = vec![];
            while c.poll_transmit(now, 1, &mut buf).is_some() { self.to_cli.push_back(std::mem::take(&mut buf)); any = true; }
            if !any { break }
        }
        if over { self.conn = None; }
    }
    /// Does the network lose (0), repeat (2) or hold back (3) this datagram?
    fn fate(&mut self) -> u8 {
        if self.budget == 0 || self.loss == 0 || !self.r.p(self.loss) { return 1 }
        self.budget -= 1;
        *self.r.pick(&[0, 0, 2, 3, 3])
    }
    /// The handshake's own datagrams are repeated and reordered but not lost: quinn 0.11 can wait for
    /// ever for a lost Finished that followed early data.
    fn carry<T: Clone>(&mut self, q: &mut VecDeque<T>, first: fn(&T) -> u8) -> Vec<T> {
        let mut v = vec![];
        let mut held = vec![];
        while let Some(d) = q.pop_front() {
            let hand = |b: u8| b & 0x80 != 0 && (b >> 4) & 3 != 1;
            match self.fate() { 0 if hand(first(&d)) => held.push(d), 0 => {} 2 => { v.push(d.clone()); v.push(d) } 3 => held.push(d), _ => v.push(d) }
        }
        for d in held { let i = self.r.below(v.len() + 1); v.insert(i, d) }
        v
    }
    fn seen(&mut self) -> Vec<Seen> {
        let ver = self.cfg.ver;
        let mut v = vec![];
        for (id, s) in self.st.iter_mut() {
            let mut b = vec![];
            while let Some(n) = wire::frame_len(&s.buf).filter(|n| *n <= s.buf.len()) {
                let f: Vec<u8> = s.buf.drain(..n).collect();
                b.push(wire::decode(ver, &f));
            }
            if !b.is_empty() || s.fin > 0 || s.rst >= 0 || s.stop >= 0 {
                if s.fin > 0 && !s.buf.is_empty() { b.push(wire::pk("PART")); }
                v.push(Seen { st: u64::from(*id) as i64, b, fin: std::mem::take(&mut s.fin), rst: std::mem::replace(&mut s.rst, -1), stop: std::mem::replace(&mut s.stop, -1) });
            }
        }
        v
    }
}
pub fn reason_for(code: i64) -> String { format!("because {code}") }

/// The client: the engine itself, its methods for other languages, its C functions
enum Side {
    Native(Box<QuicMqttEngine>),
    Meth(QuicMqttEngineFFI),
    C(*mut QuicMqttEngineFFI),
}
pub struct Quic {
    s: Side,
    net: Net,
    cfg: Cfg,
    tls: rustls::ClientConfig,
    ctl: i64,
}
pub fn target(cfg: &Cfg) -> Box<dyn Target> {
    let _ = rustls::crypto::ring::default_provider().install_default();
    let s = match cfg.via {
        6 => Side::Meth(QuicMqttEngineFFI::new(wrap::opts(cfg))),
        7 => {
            let id = (cfg.ctor < 2).then(|| CString::new(format!("c{}", cfg.cm)).unwrap());
            Side::C(unsafe { mqtt_quic_engine_new(id.as_ref().map_or(null(), |x| x.as_ptr()), cfg.ver as u8) })
        }
        _ => Side::Native(Box::new(QuicMqttEngine::new(cfg.options()).unwrap())),
    };
    // the authorities this machine trusts
    std::env::set_var("SSL_CERT_FILE", wrap::file("ca.pem", wrap::CA));
    Box::new(Quic { s, net: Net::new(cfg), cfg: cfg.clone(), tls: crypto(cfg), ctl: -1 })
}
impl Drop for Quic {
    fn drop(&mut self) { if let Side::C(p) = self.s { unsafe { mqtt_quic_engine_free(p) } } }
}
impl Side {
    fn native(&mut self) -> &mut QuicMqttEngine { match self { Side::Native(e) => e, _ => panic!("native only") } }
    fn datagram(&mut self, d: Vec<u8>, from: SocketAddr, t: i64) {
        match self {
            Side::Native(e) => e.handle_datagram(d, from, vclock::at(t)),
            Side::Meth(e) => e.handle_datagram(d, from.to_string(), (t - wrap::T0) as u64),
            Side::C(e) => unsafe { let a = CString::new(from.to_string()).unwrap(); mqtt_quic_engine_handle_datagram(*e, wrap::ptr(&d), d.len(), a.as_ptr()) },
        }
    }
    fn tick(&mut self, t: i64) -> Vec<Ev> {
        match self {
            Side::Native(e) => events(e.handle_tick(vclock::at(t))),
            Side::Meth(e) => wrap::evs(&e.handle_tick((t - wrap::T0) as u64)),
            Side::C(e) => { unsafe { mqtt_quic_engine_handle_tick(*e, (t - wrap::T0) as u64) }; vec![] }
        }
    }
    fn outgoing(&mut self) -> Vec<(String, Vec<u8>)> {
        match self {
            Side::Native(e) => e.take_outgoing_datagrams().into_iter().map(|d| (d.0.to_string(), d.1)).collect(),
            Side::Meth(e) => e.take_outgoing_datagrams().into_iter().map(|d| (d.addr, d.data)).collect(),
            Side::C(e) => unsafe {
                let mut n = 99;
                let p = mqtt_quic_engine_take_outgoing_datagrams(*e, &mut n);
                if p.is_null() != (n == 0) { panic!("length") }
                let v = (0..n).map(|i| {
                    let d = &*p.add(i);
                    (CStr::from_ptr(d.addr).to_str().unwrap().to_string(), std::slice::from_raw_parts(d.data, d.data_len).to_vec())
                }).collect();
                mqtt_quic_engine_free_datagrams(p, n);
                v
            },
        }
    }
    /// Calls offered to other languages
    fn foreign(&mut self, op: &Op, o: &mut Obs, cfg: &Cfg, srv: SocketAddr) {
        let a = &op.a;
        let t = wrap::tlsopts(cfg);
        let name = if cfg.vfy == 5 { "elsewhere" } else { "localhost" };
        let topic = match op.op.as_str() {
            "pub" => publish_cmd(a).topic_name,
            "sub" => sub_cmd(a).subscriptions[0].topic_filter.clone(),
            "unsub" => unsub_cmd(a).topics[0].clone(),
            _ => String::new(),
        };
        match self {
            Side::Native(_) => panic!("not native"),
            Side::Meth(e) => match op.op.as_str() {
                "qconn" => e.connect(srv.to_string(), name.into(), t, (op.now - wrap::T0) as u64),
                "disc" => e.disconnect(),
                "takeev" => o.evs = wrap::evs(&e.take_events()),
                "pub" => wrap::code(o, e.publish(topic, publish_cmd(a).payload, a.q as u8)),
                "sub" => wrap::code(o, e.subscribe(topic, (a.l[0] & 3) as u8)),
                "unsub" => wrap::code(o, e.unsubscribe(topic)),
                x => panic!("unknown op {x}"),
            },
            Side::C(e) => unsafe {
                let e = *e;
                let c = CString::new(topic).unwrap();
                match op.op.as_str() {
                    "qconn" => {
                        let (a, n) = (CString::new(srv.to_string()).unwrap(), CString::new(name).unwrap());
                        wrap::with_tls(cfg, |p| if mqtt_quic_engine_connect(e, a.as_ptr(), n.as_ptr(), if cfg.vfy == 6 && cfg.alpn == 1 { null() } else { p }) != 0 { o.ret = "err".into() });
                    }
                    "disc" => mqtt_quic_engine_disconnect(e),
                    "takeev" => o.evs = wrap::json_events(mqtt_quic_engine_take_events(e)),
                    "takelist" => o.evs = wrap::list_events(mqtt_quic_engine_take_events_list(e)),
                    "pub" => { let p = publish_cmd(a).payload; wrap::code(o, mqtt_quic_engine_publish(e, c.as_ptr(), wrap::ptr(&p), p.len(), a.q as u8)) }
                    "sub" => wrap::code(o, mqtt_quic_engine_subscribe(e, c.as_ptr(), (a.l[0] & 3) as u8)),
                    "unsub" => wrap::code(o, mqtt_quic_engine_unsubscribe(e, c.as_ptr())),
                    "null" => {
                        let z = null_mut();
                        let mut n = 5;
                        let (t, ad) = (c"t".as_ptr(), c"127.0.0.1:1".as_ptr());
                        mqtt_quic_engine_free(z); mqtt_quic_engine_handle_datagram(z, b"x".as_ptr(), 1, ad); mqtt_quic_engine_handle_tick(z, 5);
                        mqtt_quic_engine_disconnect(z); mqtt_quic_engine_free_datagrams(null_mut(), 3);
                        mqtt_quic_engine_handle_datagram(e, null(), 0, ad); mqtt_quic_engine_handle_datagram(e, b"x".as_ptr(), 1, null());
                        let bad = [mqtt_quic_engine_connect(z, ad, t, null()) != -1, mqtt_quic_engine_connect(e, null(), t, null()) != -1,
                            mqtt_quic_engine_connect(e, ad, null(), null()) != -1, !mqtt_quic_engine_take_outgoing_datagrams(z, &mut n).is_null(),
                            mqtt_quic_engine_publish(z, t, b"x".as_ptr(), 1, 0) != -1, mqtt_quic_engine_subscribe(z, t, 0) != -1,
                            mqtt_quic_engine_unsubscribe(z, t) != -1, mqtt_quic_engine_is_connected(z) != 0, !mqtt_quic_engine_take_events(z).is_null(),
                            !mqtt_quic_engine_take_events_list(z).is_null(), mqtt_quic_engine_publish(e, null(), b"x".as_ptr(), 1, 0) != -1,
                            mqtt_quic_engine_subscribe(e, null(), 0) != -1, mqtt_quic_engine_unsubscribe(e, null()) != -1];
                        o.id = bad.iter().enumerate().map(|(i, b)| (*b as i64) << i).sum();
                    }
                    x => panic!("unknown op {x}"),
                }
            },
        }
    }
}
fn crypto(cfg: &Cfg) -> rustls::ClientConfig {
    let mut r = rustls::RootCertStore::empty();
    r.add(wrap::cert(if cfg.vfy == 2 { wrap::OTHER } else { wrap::CA })).unwrap();
    let mut c = rustls::ClientConfig::builder().with_root_certificates(r).with_no_client_auth();
    if cfg.alpn == 2 { c.alpn_protocols = vec![wrap::ALPN[1].into()]; }
    c
}
fn res<T>(o: &mut Obs, r: Result<T, MqttClientError>) -> Option<T> {
    match r { Ok(x) => Some(x), Err(e) => { o.ret = err(&e); None } }
}
fn events(v: Vec<MqttEvent>) -> Vec<Ev> { v.iter().map(event).collect() }

impl Quic {
    fn run(&mut self, now: i64, clean: bool, o: &mut Obs) {
        let lossy = self.cfg.loss > 0;
        let (mut t, mut idle, mut rounds) = (now, 0, 0);
        let all = if lossy && !clean { 14 } else { 0 };
        let spent = |n: &Net| n.budget < all;
        self.net.budget = all;
        if let Some((_, c)) = &mut self.net.conn { if !c.is_handshaking() { c.ping(); } }
        self.net.pump();
        loop {
            rounds += 1;
            vclock::set(t);
            crate::beat();
            let mut moved = false;
            let mut q = std::mem::take(&mut self.net.to_cli);
            moved |= !q.is_empty();
            for d in self.net.carry(&mut q, |d| d[0]) { self.s.datagram(d, self.net.saddr, t); if self.cfg.each == 1 { o.evs.extend(self.s.tick(t)); } }
            let v = self.s.tick(t);
            let news = v.iter().any(|e| e.k != "Error");
            // a repeated complaint is told once
            for e in v { if !(e.k == "Error" && o.evs.last().is_some_and(|l| l.k == "Error")) { o.evs.push(e) } }
            let (from, to) = (self.net.caddr, self.net.saddr.to_string());
            self.net.to_srv.extend(self.s.outgoing().into_iter().filter(|d| d.0 == to).map(|d| (from, d.1)));
            self.net.sn += if lossy { 10 } else { 30 };
            let mut q = std::mem::take(&mut self.net.to_srv);
            moved |= !q.is_empty();
            for (a, d) in self.net.carry(&mut q, |d| d.1[0]) { self.net.receive(a, d); }
            self.net.pump();
            moved |= !self.net.to_cli.is_empty();
            idle = if moved || news { 0 } else { idle + 1 };
            // probes come at doubling distances: wait long enough for the next one
            if idle >= if !lossy { 3 } else if spent(&self.net) { 500 } else { 150 } { break }
            if rounds > 40000 { o.ret = "noend".into(); break }
            if lossy { t += if idle > 100 { 100 } else { 10 }; }
        }
        let q = o.q.as_mut().unwrap();
        q.t = t;
        q.seen = self.net.seen();
        q.close = std::mem::take(&mut self.net.close);
        q.nc = std::mem::take(&mut self.net.nc);
        q.alpn = std::mem::take(&mut self.net.alpn);
        if q.alpn > 0 { self.ctl = 0; }
    }
    fn server(&mut self, op: &str, a: &Args, o: &mut Obs) {
        let n = &mut self.net;
        match op {
            "reject" => { n.srv.set_server_config(Some(server_config(&self.cfg))); return }
            "stall" => { if n.id(a.st).is_none() { o.ret = "none".into(); } else if a.n == 1 { n.stalled.insert(a.st as u64); } else { n.stalled.remove(&(a.st as u64)); } return }
            _ => {}
        }
        let id = n.id(a.st);
        let Some((_, c)) = &mut n.conn else { o.ret = "none".into(); return };
        let none = match op {
            "sopen" => match c.streams().open(Dir::Bi) {
                Some(i) => { let mut s = SStream::new(); s.out = unhex(&a.by); n.st.insert(i, s); o.id = u64::from(i) as i64; false }
                None => true,
            },
            "sclose" => { let now = vclock::at(0) + Duration::from_millis(n.sn as u64); c.close(now, VarInt::from_u32(a.rc as u32), bytes::Bytes::new()); n.pump(); n.conn = None; return }
            _ => match id {
                None => true,
                Some(i) => match op {
                    "srv" => { if c.send_stream(i).write(&[]).is_err() || c.send_stream(i).stopped() != Ok(None) { true } else { n.st.get_mut(&i).unwrap().out.extend(unhex(&a.by)); false } }
                    "sfin" => c.send_stream(i).finish().is_err(),
                    "srst" => c.send_stream(i).reset(VarInt::from_u32(a.rc as u32)).is_err(),
                    "sstop" => c.recv_stream(i).stop(VarInt::from_u32(a.rc as u32)).is_err(),
                    x => panic!("unknown op {x}"),
                },
            },
        };
        if none { o.ret = "none".into(); } else { n.pump(); }
    }
}
impl Target for Quic {
    fn conn(&self) -> bool {
        match &self.s { Side::Native(e) => e.is_connected(), Side::Meth(e) => e.is_connected(), Side::C(e) => unsafe { mqtt_quic_engine_is_connected(*e) == 1 } }
    }
    fn nt(&self) -> i64 { -2 }
    fn apply(&mut self, op: &Op, o: &mut Obs) {
        let a = &op.a;
        let now = vclock::at(op.now);
        let st = a.st as u64;
        o.q = Some(QObs { t: op.now, ..Default::default() });
        if op.op == "qconn" { self.ctl = -1; }
        if !matches!(self.s, Side::Native(_)) {
            match op.op.as_str() {
                "run" => self.run(op.now, a.n == 1, o),
                "tick" => o.evs = self.s.tick(op.now),
                "reject" | "stall" | "sopen" | "sclose" | "srv" | "sfin" | "srst" | "sstop" => self.server(&op.op, a, o),
                _ => self.s.foreign(op, o, &self.cfg, self.net.saddr),
            }
            let q = o.q.as_mut().unwrap();
            (q.n, q.ctl) = (-1, self.ctl);
            return;
        }
        let e = match &mut self.s { Side::Native(e) => e, _ => return };
        let name = if self.cfg.vfy == 5 { "elsewhere" } else { "localhost" };
        match op.op.as_str() {
            "qconn" => {
                let r = if a.n == 0 { e.connect(self.net.saddr, name, self.tls.clone(), now) } else {
                    e.connect_with_zero_rtt(self.net.saddr, name, self.tls.clone(), QuicZeroRttConfig { session_cache_size: 8 + 8 * a.r as usize, replay_on_reject: a.n == 2 }, now)
                };
                res(o, r);
            }
            "qre" => { let r = e.reconnect(now); res(o, r); }
            "clear" => e.clear_quic_session_cache(),
            "open" => { let r = e.open_data_stream(); if let Some(x) = res(o, r) { o.id = x as i64 } }
            "pub" => { let r = e.publish(publish_cmd(a)); if let Some(x) = res(o, r) { o.id = x.map_or(0, |x| x as i64) } }
            "pubon" => { let r = e.publish_on(st, publish_cmd(a)); if let Some(x) = res(o, r) { o.id = x.map_or(0, |x| x as i64) } }
            "sub" => { let r = e.subscribe(sub_cmd(a)); if let Some(x) = res(o, r) { o.id = x as i64 } }
            "subon" => { let r = e.subscribe_on(st, sub_cmd(a)); if let Some(x) = res(o, r) { o.id = x as i64 } }
            "unsub" => { let r = e.unsubscribe(unsub_cmd(a)); if let Some(x) = res(o, r) { o.id = x as i64 } }
            "unsubon" => { let r = e.unsubscribe_on(st, unsub_cmd(a)); if let Some(x) = res(o, r) { o.id = x as i64 } }
            "ping" => { let r = e.ping(); res(o, r); }
            "qping" => { let r = e.quic_ping(); res(o, r); }
            "disc" => e.disconnect(),
            "dclose" => { let r = e.disconnect_and_close(a.rc as u64, reason_for(a.rc).as_bytes()); res(o, r); }
            "close" => { let r = e.close(a.rc as u64, reason_for(a.rc).as_bytes()); res(o, r); }
            "csil" => e.close_silent(),
            "fin" => { let r = e.finish_stream(st); res(o, r); }
            "rst" => { let r = e.reset_stream(st, a.rc as u64); res(o, r); }
            "stop" => { let r = e.stop_stream(st, a.rc as u64); res(o, r); }
            "raw" => { let r = e.send_raw_on(st, &unhex(&a.by)); res(o, r); }
            "ackon" => {
                let id = a.fs[0].id as u16;
                let r = match a.fs[0].k.as_str() { "PUBACK" => e.puback_on(st, id), "PUBREC" => e.pubrec_on(st, id), "PUBREL" => e.pubrel_on(st, id), _ => e.pubcomp_on(st, id) };
                res(o, r);
            }
            "takeev" => o.evs = events(e.take_events()),
            "rebind" => {
                self.net.caddr.set_port(self.net.caddr.port() + 1);
                let r = e.notify_local_address_changed();
                res(o, r);
            }
            "run" => self.run(op.now, a.n == 1, o),
            "tick" => o.evs = events(e.handle_tick(now)),
            s => self.server(s, a, o),
        }
        let q = o.q.as_mut().unwrap();
        let e = self.s.native();
        q.n = e.data_stream_count() as i64;
        q.ctl = e.control_stream_id().map_or(-1, |x| x as i64);
        q.z = format!("{:?}", e.zero_rtt_status());
    }
}
