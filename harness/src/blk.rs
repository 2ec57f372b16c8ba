//! Drives the real blocking client (`MqttClient`) against a server on the loopback interface.
//!
//! The client's calls run on this thread, the server on threads of its own: it answers the
//! packets of a call by the call's script and records what it wrote and what it was sent.
use crate::codec::of_real;
use crate::eng::*;
use crate::rng::Rng;
use crate::wire::{self, pk, Pk};
use flowsdk::mqtt_client::client::MqttClient;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_session::ClientSession;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Pend { pub t: String, pub id: i64, pub l: Vec<i64>, pub q: i64 }
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct BObs {
    pub ret: String, pub id: i64, pub rc: i64, pub x: i64, pub l: Vec<i64>, pub p: i64, pub good: i64, pub pkt: Vec<Pk>,
    pub sid: i64, pub un: Vec<Pk>, pub pend: Vec<Pend>, pub out: Vec<Pk>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BLine { pub op: String, pub a: Args, pub o: BObs }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCfg { pub ver: i64, pub cl: Vec<i64>, pub cm: i64, pub given: i64, pub lone: i64, pub down: i64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BScenario { pub fam: String, pub cfg: BCfg, pub ops: Vec<BLine> }

struct Conn { w: TcpStream, got: Vec<u8>, out: Vec<Pk>, ended: bool, closed: bool }
#[derive(Default)]
struct Srv {
    ver: i64,
    conns: Vec<Conn>,
    /// what is written when a packet of this kind comes; id -1 stands for that packet's identifier, -2 for the next one
    script: VecDeque<(String, Vec<Pk>)>,
    wrote: Vec<Pk>,
    /// the call's own packet
    own: Option<Pk>,
    since: Option<Instant>,
    over: bool,
    /// packets are counted instead of kept: how many, and how many bear an identifier that is taken
    count: Option<(i64, i64)>,
    taken: Vec<i64>,
    rng: u64,
}
type Shared = Arc<(Mutex<Srv>, Condvar)>;
impl Srv {
    fn put(&mut self, fs: &[Pk]) {
        for f in fs {
            let Some(c) = self.conns.last_mut() else { return };
            if c.ended { return; }
            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let h = (self.rng >> 33) as usize;
            if f.k == "EOF" {
                // the end may come inside a packet
                if f.m > 0 {
                    let b = wire::encode(self.ver, &Pk { m: f.m, q: 1, id: 5, ..pk("PUBLISH") });
                    if c.w.write_all(&b[..1 + h % (b.len() - 1)]).is_err() { return; }
                }
                let _ = c.w.shutdown(Shutdown::Write);
                c.ended = true;
            } else {
                let b = wire::encode(self.ver, f);
                let cut = if h % 3 == 0 { h / 3 % (b.len() + 1) } else { b.len() };
                if c.w.write_all(&b[..cut]).is_err() { return; }
                if h % 30 == 0 { std::thread::sleep(Duration::from_millis(1)); }
                if c.w.write_all(&b[cut..]).is_err() { return; }
            }
            let mut f = f.clone();
            if f.k != "SUBACK" && f.k != "UNSUBACK" { f.l.clear(); }
            if self.ver != 5 { f.p = 0; if f.k == "UNSUBACK" { f.l.clear(); } }
            if f.k == "EOF" || f.k == "BAD" { f.m = 0; }
            self.wrote.push(f);
        }
    }
    fn packet(&mut self, i: usize, b: &[u8]) {
        let p = wire::decode(self.ver, b);
        if let Some((n, bad)) = &mut self.count {
            *n += 1;
            if p.k != "PUBLISH" || p.q != 1 || p.id < 1 || self.taken.contains(&p.id) { *bad += 1; }
            return;
        }
        self.conns[i].out.push(p.clone());
        if i + 1 != self.conns.len() { return; }
        if self.script.front().is_some_and(|s| s.0 == p.k) {
            let (_, mut fs) = self.script.pop_front().unwrap();
            for f in &mut fs { if f.id < 0 { f.id = (p.id - 1 - f.id - 1).rem_euclid(65535) + 1; } }
            self.put(&fs);
        }
        if self.own.is_none() && p.k != "PUBREL" { self.own = Some(p); }
    }
}
fn serve(sh: &Shared, i: usize, mut s: TcpStream) {
    let mut b = [0u8; 65536];
    loop {
        let n = s.read(&mut b).unwrap_or(0);
        let (m, cv) = &**sh;
        let mut g = m.lock().unwrap();
        g.conns[i].got.extend(&b[..n]);
        while let Some(n) = { let c = &g.conns[i]; wire::frame_len(&c.got).filter(|n| *n <= c.got.len()) } {
            let f: Vec<u8> = g.conns[i].got.drain(..n).collect();
            g.packet(i, &f);
        }
        if n == 0 {
            if !g.conns[i].got.is_empty() { g.conns[i].out.push(pk("CORRUPT")); }
            g.conns[i].closed = true;
        }
        cv.notify_all();
        if n == 0 { return; }
    }
}

fn render(x: &MqttPacket) -> Pk {
    let m = of_real(x);
    let i = &m.i;
    let t = |k: &str| wire::ptag(k, &m.p);
    match m.k {
        2 => Pk { d: i[0], rc: i[1], p: t("CONNACK"), q: m.p.iter().find(|p| p.id == 33).map_or(0, |p| p.v[0] << 8 | p.v[1]), ..pk("CONNACK") },
        3 => Pk { d: i[0], q: i[1], r: i[2], id: if i[1] > 0 { i[3] } else { 0 }, m: wire::msgno(&m.s[0], &m.s[1]), p: t("PUB<"), ..pk("PUBLISH") },
        4..=7 => Pk { id: i[0], rc: i[1], p: t("ACK"), ..pk(["PUBACK", "PUBREC", "PUBREL", "PUBCOMP"][m.k as usize - 4]) },
        9 => Pk { id: i[0], l: i[1..].to_vec(), p: t("ACK"), ..pk("SUBACK") },
        11 => Pk { id: i[0], l: i[1..].to_vec(), p: t("ACK"), ..pk("UNSUBACK") },
        13 => pk("PINGRESP"),
        14 => Pk { rc: i.first().copied().unwrap_or(0), p: t("DISCONNECT"), ..pk("DISCONNECT") },
        15 => Pk { rc: i[0], p: t("AUTH"), ..pk("AUTH") },
        k => pk(&format!("?{k}")),
    }
}
fn topicno(s: &str) -> i64 { s.split('/').nth(1).and_then(|x| x.parse().ok()).filter(|m| wire::topic(*m) == s).unwrap_or(-99) }

pub struct Blk {
    cfg: BCfg,
    c: Option<MqttClient>,
    sh: Shared,
    addr: std::net::SocketAddr,
    /// the client has a connection, a session
    str: bool,
    sess: bool,
    failed: bool,
}
impl Blk {
    pub fn new(cfg: &Cfg, b: &BCfg, skip: i64, seed: u64) -> Blk {
        let p = std::process::id();
        let lis = (0..50).find_map(|k| TcpListener::bind(format!("127.{}.{}.{}:0", 64 + (p >> 16) % 128, (p >> 8) & 255, (p & 255).max(1) ^ (k * 3) as u32 & 255)).ok()).expect("no loopback address");
        let addr = lis.local_addr().unwrap();
        let sh: Shared = Arc::new((Mutex::new(Srv { ver: b.ver, rng: seed, ..Default::default() }), Condvar::new()));
        if b.down == 1 { drop(lis) } else {
            let sh = sh.clone();
            std::thread::spawn(move || loop {
                let Ok((s, _)) = lis.accept() else { return };
                let (m, _) = &*sh;
                let mut g = m.lock().unwrap();
                if g.over { return; }
                s.set_nodelay(true).unwrap();
                let i = g.conns.len();
                g.conns.push(Conn { w: s.try_clone().unwrap(), got: vec![], out: vec![], ended: false, closed: false });
                drop(g);
                let sh = sh.clone();
                std::thread::spawn(move || serve(&sh, i, s));
            });
        }
        {
            // a call that waits for what never comes sees the connection end
            let sh = sh.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(200));
                let (m, _) = &*sh;
                let mut g = m.lock().unwrap();
                if g.over { return; }
                let Some(t) = g.since else { continue };
                if t.elapsed() > Duration::from_secs(12) { g.put(&[pk("EOF")]); }
                if t.elapsed() > Duration::from_secs(25) { for c in &g.conns { let _ = c.w.shutdown(Shutdown::Both); } }
            });
        }
        let mut o = cfg.options();
        o.peer = addr.to_string();
        o.sessionless = b.lone == 1;
        let c = if b.given == 1 {
            let mut s = ClientSession::new();
            for _ in 0..skip { s.next_packet_id(); }
            MqttClient::new_with_sess(o, s)
        } else { MqttClient::new(o) };
        Blk { cfg: b.clone(), c: Some(c), sh, addr, str: false, sess: b.given == 1, failed: false }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Srv> { self.sh.0.lock().unwrap() }
    /// Waits until it holds, at most five seconds.
    fn until(&self, f: impl Fn(&Srv) -> bool) {
        let t = Instant::now();
        let mut g = self.lock();
        while !f(&g) && t.elapsed() < Duration::from_secs(5) { g = self.sh.1.wait_timeout(g, Duration::from_millis(100)).unwrap().0; }
    }
    fn call(&mut self, op: &str, a: &Args) -> BObs {
        let mut o = BObs { ret: "ok".into(), good: 1, ..Default::default() };
        let c = self.c.as_mut().unwrap();
        let fl: Vec<String> = a.l.iter().map(|f| wire::filter(*f)).collect();
        let fl: Vec<&str> = fl.iter().map(|s| s.as_str()).collect();
        let (t, b) = (wire::topic(a.m), wire::payload(a.m));
        let tag = |k: &str, p: &[_]| wire::ptag(k, &crate::codec::ofps(p));
        let codes = |l: &[u8]| l.iter().map(|c| *c as i64).collect::<Vec<i64>>();
        let sub = || (wire::filter(a.l[0] / 64), (a.l[0] % 64) as u8);
        let r: std::io::Result<()> = (|| {
            match op {
                "connect" => {
                    let r = c.connected()?;
                    o.rc = r.reason_code as i64;
                    o.x = r.session_present as i64;
                    o.p = r.properties.as_deref().map_or(0, |p| tag("CONNACK", p));
                    o.good = if r.is_success() != r.is_failure() { r.is_success() as i64 } else { 2 };
                }
                "connsend" => c.connect_send()?,
                "sub" => {
                    let (f, q) = sub();
                    let r = c.subscribed(&f, q)?;
                    o.id = r.packet_id as i64;
                    o.l = codes(&r.reason_codes);
                    o.p = tag("ACK", &r.properties);
                    o.good = r.is_success() as i64;
                    o.x = r.successful_subscriptions() as i64;
                }
                "unsub" => {
                    let r = if fl.len() == 1 && a.st == 1 { c.unsubscribed_single(fl[0])? } else { c.unsubscribed(fl)? };
                    o.id = r.packet_id as i64;
                    o.l = codes(&r.reason_codes);
                    o.p = tag("ACK", &r.properties);
                    o.good = r.is_success() as i64;
                }
                "pub" => {
                    let r = c.published(&t, &b, a.q as u8, a.r == 1)?;
                    o.id = r.packet_id.map_or(0, |x| x as i64);
                    o.rc = r.reason_code.map_or(-1, |x| x as i64);
                    o.x = r.qos as i64;
                    o.p = r.properties.as_deref().map_or(0, |p| tag("ACK", p));
                    o.good = r.is_success() as i64;
                }
                "ping" => o.good = c.pingd()?.success as i64,
                "disc" => c.disconnected(a.rc as u8)?,
                "discsend" => c.disconnect_send()?,
                "subsend" => { let (f, q) = sub(); o.id = c.subscribe_send(&f, q)? as i64 }
                "unsubsend" => o.id = if fl.len() == 1 && a.st == 1 { c.unsubscribe_send_single(fl[0])? } else { c.unsubscribe_send(fl)? } as i64,
                "pubsend" => o.id = c.publish_send(&t, &b, a.q as u8, a.r == 1)?.map_or(0, |x| x as i64),
                "pingsend" => c.ping_send()?,
                "recv" => o.pkt = c.recv_packet()?.iter().map(render).collect(),
                "popun" => o.pkt = c.pop_unhandled_packet().iter().map(render).collect(),
                "clearun" => if a.st == 1 { c.unhandled_packets_mut().clear() } else { c.clear_unhandled_packets() },
                "clearpend" => c.clear_pending_operations(),
                "done" => {
                    let id = a.n as u16;
                    match a.m {
                        1 => if let Some(t) = c.complete_subscribe(id) { o.x = 1; o.l = vec![wire::filterno(&t)]; },
                        2 => if let Some(t) = c.complete_unsubscribe(id) { o.x = 1; o.l = t.iter().map(|s| wire::filterno(s)).collect(); },
                        _ => if let Some((t, q)) = c.complete_publish(id) { o.x = 1; o.l = vec![topicno(&t)]; o.rc = q as i64; },
                    }
                }
                "many" => for _ in 0..a.n {
                    if let Some(id) = c.publish_send(&t, &b, 1, false)? { c.complete_publish(id); }
                    crate::beat();
                },
                x => panic!("unknown call {x}"),
            }
            Ok(())
        })();
        if r.is_err() { o = BObs { ret: "err".into(), good: 1, ..Default::default() } }
        o
    }
    /// One call.  `pre` is written before it, `script` answers its packets.
    pub fn run(&mut self, op: &str, mut a: Args, pre: Vec<Pk>, script: Vec<(String, Vec<Pk>)>) -> BLine {
        crate::beat();
        let closing = op == "end" || (op.starts_with("conn") && self.cfg.down == 0);
        let before = self.lock().conns.len();
        if self.failed { std::thread::sleep(Duration::from_millis(2)); }
        let taken = self.pend().iter().map(|p| p.id).collect();
        {
            let mut g = self.lock();
            g.script = script.into();
            g.own = None;
            g.since = Some(Instant::now());
            if op == "many" { g.count = Some((0, 0)); g.taken = taken; }
            g.put(&pre);
        }
        let mut o = if op == "end" { self.c = None; BObs { ret: "ok".into(), good: 1, ..Default::default() } } else {
            catch_unwind(AssertUnwindSafe(|| self.call(op, &a))).unwrap_or_else(|_| BObs { ret: "panic".into(), ..Default::default() })
        };
        self.failed = o.ret != "ok";
        if op.starts_with("conn") && self.cfg.down == 0 { self.str = true; self.sess = self.cfg.lone == 0; }
        let numbered = op.starts_with("sub") || op.starts_with("unsub") || op.starts_with("pub");
        let writes = (op.starts_with("conn") && self.cfg.down == 0) || (self.str && (numbered && self.sess || op.starts_with("ping") || op.starts_with("disc")));
        if writes { self.until(|g| g.own.is_some()); }
        if op == "many" { let n = a.n; self.until(|g| g.count.is_some_and(|c| c.0 == n)); }
        if closing && before > 0 { self.until(|g| g.conns[before - 1].closed); }
        let mut g = self.sh.0.lock().unwrap();
        g.since = None;
        g.script.clear();
        if let Some((n, bad)) = g.count.take() { o.id = n; o.x = bad; }
        a.fs = std::mem::take(&mut g.wrote);
        o.sid = g.own.as_ref().map_or(0, |p| p.id);
        if closing && before > 0 { o.out = g.conns[before - 1].out.clone(); }
        drop(g);
        if let Some(c) = &self.c { o.un = c.peek_unhandled_packets().iter().map(render).collect(); }
        o.pend = self.pend();
        BLine { op: op.into(), a, o }
    }
    fn pend(&self) -> Vec<Pend> {
        let Some(c) = &self.c else { return vec![] };
        let mut v = vec![];
        for (id, t) in c.get_pending_subscribes() { v.push(Pend { t: "s".into(), id: *id as i64, l: vec![wire::filterno(t)], q: 0 }) }
        for (id, t) in c.get_pending_unsubscribes() { v.push(Pend { t: "u".into(), id: *id as i64, l: t.iter().map(|s| wire::filterno(s)).collect(), q: 0 }) }
        for (id, (t, q)) in c.get_pending_publishes() { v.push(Pend { t: "p".into(), id: *id as i64, l: vec![topicno(t)], q: *q as i64 }) }
        v
    }
    fn ended(&self) -> bool { self.lock().conns.last().is_none_or(|c| c.ended) }
}
impl Drop for Blk {
    fn drop(&mut self) {
        self.c = None;
        self.lock().over = true;
        if self.cfg.down == 0 { let _ = TcpStream::connect(self.addr); }
    }
}

struct Gen<'a> { r: &'a mut Rng, b: Blk, ver: i64, ops: Vec<BLine>, n: i64, bad: bool, p: Prof }
struct Prof { ops: usize, end: u64, noise: usize, refuse: u64, wait: u32, send: u32, look: u32, conn: u32, big: u64 }
impl Gen<'_> {
    fn tag(&mut self) -> i64 { if self.ver == 5 && self.r.p(40) { self.r.range(1, 60) } else { 0 } }
    fn fresh(&mut self) -> i64 { self.n += 1; if self.r.p(self.p.big) { 5000 + self.n } else { self.n } }
    fn rc(&mut self, ok: &[i64], bad: &[i64]) -> i64 {
        if self.ver != 5 { return 0; }
        if self.r.p(self.p.refuse) { *self.r.pick(bad) } else { *self.r.pick(ok) }
    }
    fn answer(&mut self, k: &str, id: i64, n: usize) -> Pk {
        let mut f = Pk { id, p: self.tag(), ..pk(k) };
        match k {
            "SUBACK" => f.l = (0..n).map(|_| if self.r.p(self.p.refuse) { *self.r.pick(if self.ver == 5 { &[0x80, 0x87, 0x8f, 0x9e] } else { &[0x80] }) } else { self.r.range(0, 2) }).collect(),
            "UNSUBACK" => f.l = if self.ver == 5 { (0..n).map(|_| self.rc(&[0, 0, 17], &[0x80, 0x87, 0x8f])).collect() } else { vec![] },
            "PUBACK" | "PUBREC" => f.rc = self.rc(&[0, 0, 0, 0x10], &[0x80, 0x83, 0x87, 0x97]),
            "PUBCOMP" | "PUBREL" => f.rc = self.rc(&[0], &[0x92]),
            _ => f.p = 0,
        }
        f
    }
    /// What the server sends of its own accord, or in answer to something else
    fn other(&mut self) -> Pk {
        match self.r.weighted(&[40, 8, 6, 6, 6, 4, 4, 4, if self.ver == 5 { 3 } else { 0 }, 2]) {
            0 => { let q = self.r.range(0, 2); Pk { q, id: if q > 0 { self.r.range(1, 9) } else { 0 }, m: self.fresh(), r: self.r.range(0, 1), d: (q > 0 && self.r.p(20)) as i64, p: self.tag(), ..pk("PUBLISH") } }
            i @ 1..=7 => {
                let k = ["PUBACK", "SUBACK", "UNSUBACK", "PUBREC", "PUBCOMP", "PUBREL", "PINGRESP"][i - 1];
                // the identifier may be the one the call under way uses, on a packet of another kind
                let id = if self.r.p(60) { -1 - self.r.range(0, 1) } else { self.r.range(1, 70) };
                if k == "PINGRESP" { pk(k) } else { let n = self.r.below(3) + 1; self.answer(k, id, n) }
            }
            8 => Pk { rc: 0x18, p: self.tag(), ..pk("AUTH") },
            _ => Pk { rc: self.r.range(0, 5) * (self.ver == 5 || self.r.p(50)) as i64, d: 0, ..pk("CONNACK") },
        }
    }
    fn noise(&mut self) -> Vec<Pk> {
        let n = if self.r.p(60) { 0 } else { self.r.below(self.p.noise + 1) };
        (0..n).map(|_| self.other()).collect()
    }
    fn fin(&mut self) -> Pk {
        if self.r.p(40) { Pk { m: self.r.range(0, 3), ..pk("BAD") } }
        else { Pk { m: if self.r.p(30) { self.r.range(1, 30) } else { 0 }, ..pk("EOF") } }
    }
    /// Whatever comes before the answer, the answer, and what comes behind; or the end.
    fn reply(&mut self, f: Pk) -> Vec<Pk> {
        let mut v = self.noise();
        if self.r.p(self.p.end) { v.push(self.fin()); return v; }
        v.push(f);
        if self.r.p(30) { let w = self.noise(); v.extend(w); }
        if self.r.p(self.p.end / 2) { v.push(self.fin()); }
        v
    }
    fn push(&mut self, op: &str, a: Args, pre: Vec<Pk>, script: Vec<(String, Vec<Pk>)>) {
        let l = self.b.run(op, a, pre, script);
        if op.starts_with("conn") { self.bad = false; }
        self.bad |= l.a.fs.iter().any(|f| f.k == "BAD");
        self.ops.push(l);
    }
    fn connect(&mut self) {
        let rc = if self.r.p(self.p.refuse) { if self.ver == 5 { *self.r.pick(&[0x80, 0x86, 0x87, 0x88, 0x95]) } else { self.r.range(1, 5) } } else { 0 };
        let mut f = Pk { rc, d: (rc == 0 && self.r.p(40)) as i64, p: self.tag(), q: if self.ver == 5 && self.r.p(20) { self.r.range(1, 9) } else { 0 }, ..pk("CONNACK") };
        if self.r.p(4) { f = self.other(); f.id = f.id.abs(); }
        let mut v = if self.r.p(self.p.end) { vec![self.fin()] } else { vec![f] };
        if v[0].k != "EOF" && v[0].k != "BAD" { for mut x in self.noise() { x.id = x.id.abs(); v.push(x); } }
        let op = if self.r.p(75) { "connect" } else { "connsend" };
        if op == "connsend" && self.r.p(20) { v.clear(); }
        self.push(op, Args::default(), vec![], vec![("CONNECT".into(), v)]);
    }
    fn one(&mut self) {
        let p = &self.p;
        // the server is done writing: nothing may wait for it
        let over = self.bad || self.b.ended();
        let w = [p.conn, p.wait, p.send, p.look];
        match self.r.weighted(&w) {
            0 => self.connect(),
            1 => self.wait(over),
            2 => self.send(over),
            _ => self.look(over),
        }
    }
    fn args(&mut self, k: &str) -> Args {
        let mut a = Args::default();
        match k {
            "sub" => a.l = vec![self.r.range(0, 40) * 64 + self.r.range(0, 2)],
            "unsub" => { let n = self.r.below(3) + 1; a.l = (0..n).map(|_| self.r.range(0, 40)).collect(); a.st = self.r.range(0, 1); }
            "pub" => { a.m = self.fresh(); a.q = self.r.range(0, 2); a.r = self.r.range(0, 1); }
            _ => {}
        }
        a
    }
    fn wait(&mut self, over: bool) {
        let k = *self.r.pick(&["sub", "unsub", "pub", "pub", "pub", "ping"]);
        let a = self.args(k);
        if over || !self.b.str { return self.push(k, a, vec![], vec![]); }
        let n = a.l.len();
        let mut s = vec![];
        match (k, a.q) {
            ("sub", _) => { let f = self.answer("SUBACK", -1, n); s.push(("SUBSCRIBE".into(), self.reply(f))); }
            ("unsub", _) => { let f = self.answer("UNSUBACK", -1, n); s.push(("UNSUBSCRIBE".into(), self.reply(f))); }
            ("ping", _) => { let v = self.reply(pk("PINGRESP")); s.push(("PINGREQ".into(), v)); }
            (_, 0) => { let v = self.noise(); s.push(("PUBLISH".into(), v)); }
            (_, 1) => { let f = self.answer("PUBACK", -1, 0); s.push(("PUBLISH".into(), self.reply(f))); }
            _ => {
                let f = self.answer("PUBREC", -1, 0);
                let v = self.reply(f);
                let more = !v.iter().any(|f| f.k == "EOF" || f.k == "BAD");
                s.push(("PUBLISH".into(), v));
                if more { let f = self.answer("PUBCOMP", -1, 0); s.push(("PUBREL".into(), self.reply(f))); }
            }
        }
        let pre = self.noise().into_iter().map(|mut f| { f.id = f.id.abs(); f }).collect();
        self.push(k, a, pre, s);
    }
    fn send(&mut self, over: bool) {
        let k = *self.r.pick(&["sub", "unsub", "pub", "pub", "ping", "disc"]);
        if k == "disc" {
            if self.r.p(60) { return; }
            let op = if self.r.p(50) { "disc" } else { "discsend" };
            let a = Args { rc: *self.r.pick(&[0, 0, 4, 0x80]), ..Default::default() };
            let v = if !over && self.r.p(50) { vec![pk("EOF")] } else { vec![] };
            return self.push(op, a, vec![], vec![("DISCONNECT".into(), v)]);
        }
        let a = self.args(k);
        let n = a.l.len();
        let mut s: Vec<(String, Vec<Pk>)> = vec![];
        if !over && self.r.p(70) {
            let (p, f) = match (k, a.q) {
                ("sub", _) => ("SUBSCRIBE", self.answer("SUBACK", -1, n)),
                ("unsub", _) => ("UNSUBSCRIBE", self.answer("UNSUBACK", -1, n)),
                ("ping", _) => ("PINGREQ", pk("PINGRESP")),
                (_, 0) => ("PUBLISH", self.other()),
                (_, 1) => ("PUBLISH", self.answer("PUBACK", -1, 0)),
                _ => ("PUBLISH", self.answer("PUBREC", -1, 0)),
            };
            s.push((p.into(), self.reply(f)));
        }
        self.push(&format!("{k}send"), a, vec![], s);
    }
    fn look(&mut self, over: bool) {
        match self.r.weighted(&[40, 30, 6, 20, 3]) {
            0 => {
                let mut pre: Vec<Pk> = vec![];
                if !over && self.b.str { pre = self.noise(); if pre.is_empty() { pre.push(self.other()); } if self.r.p(self.p.end / 2) { pre.push(self.fin()); } }
                for f in &mut pre { f.id = f.id.abs(); }
                self.push("recv", Args::default(), pre, vec![]);
            }
            1 => self.push("popun", Args::default(), vec![], vec![]),
            2 => { let a = Args { st: self.r.range(0, 1), ..Default::default() }; self.push("clearun", a, vec![], vec![]) }
            3 => {
                let p = self.b.pend();
                let (t, n) = if p.is_empty() || self.r.p(20) { (self.r.range(1, 3), self.r.range(1, 9)) } else { let x = self.r.pick(&p); (match x.t.as_str() { "s" => 1, "u" => 2, _ => 3 }, x.id) };
                let m = if self.r.p(10) { self.r.range(1, 3) } else { t };
                self.push("done", Args { m, n, ..Default::default() }, vec![], vec![])
            }
            _ => self.push("clearpend", Args::default(), vec![], vec![]),
        }
    }
}
pub fn family(fam: &str, r: &mut Rng) -> BScenario {
    let mut p = Prof { ops: 40, end: 6, noise: 3, refuse: 12, wait: 45, send: 20, look: 25, conn: 4, big: 2 };
    match fam {
        "bmix" => {}
        "bend" => { p.end = 30; p.conn = 15; p.noise = 5; }
        "bsend" => { p.send = 60; p.wait = 15; p.look = 40; }
        "bbusy" => { p.noise = 12; p.wait = 70; p.end = 2; }
        "bid" => { p.send = 40; p.look = 8; p.end = 1; p.conn = 1; p.big = 0; p.ops = 30; }
        x => panic!("unknown family {x}"),
    }
    let ver = *r.pick(&[3, 5, 5]);
    let mut cfg = Cfg::basic(ver);
    cfg.ka = *r.pick(&[0, 30, 300]);
    let m = |r: &mut Rng, n: i64| if r.p(50) { -1 } else { r.range(0, n) };
    let (u, w, wt) = (m(r, 9), m(r, 9), m(r, 30));
    let w = if ver == 3 && u < 0 { -1 } else { w };
    let v5 = ver == 5;
    let ps = if v5 { [m(r, 1000), m(r, 65535), m(r, 1), m(r, 1)] } else { [-1; 4] };
    let ps = [ps[0], if ps[1] == 0 { 9 } else { ps[1] }, ps[2], ps[3]];
    let wp = if v5 && wt >= 0 && r.p(50) { r.range(1, 60) } else { 0 };
    cfg = cfg.with_connect(r.p(50), u, w, wt, if wt >= 0 { r.range(0, 2) } else { -1 }, if wt >= 0 { r.range(0, 1) } else { -1 }, ps, wp);
    let ids = fam == "bid";
    let b = BCfg { ver, cl: cfg.cl.clone(), cm: cfg.cm, given: (ids || r.p(25)) as i64, lone: (!ids && r.p(8)) as i64, down: (!ids && r.p(3)) as i64 };
    let skip = if ids || r.p(30) { r.range(65520, 65540) } else { r.range(0, 20) };
    let seed = r.next();
    let mut g = Gen { b: Blk::new(&cfg, &b, skip, seed), r, ver, ops: vec![], n: 0, bad: false, p };
    if g.r.p(8) { g.one(); }
    g.connect();
    if ids {
        // some are left open while the counter goes round
        for _ in 0..6 { let over = g.bad || g.b.ended(); g.send(over); }
        if g.b.str && g.b.sess && b.down == 0 {
            let a = Args { n: 65530 - g.r.range(0, 30), m: 0, ..Default::default() };
            g.push("many", a, vec![], vec![]);
        }
    }
    for _ in 0..g.p.ops { g.one(); }
    g.push("end", Args::default(), vec![], vec![]);
    BScenario { fam: fam.into(), cfg: b, ops: std::mem::take(&mut g.ops) }
}
