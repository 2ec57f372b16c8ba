//! Drives the real tokio client against a scripted server on the loopback interface.
//!
//! One thread runs everything: the client's worker only moves inside `settle`, which lets it
//! run until it rests.  Time is the virtual clock, so timers fire when the driver says so.
//! The kernel is asked (TCP_INFO) until every byte and every close has arrived, so that a
//! recorded step does not depend on how busy the machine is.
use crate::eng::*;
use crate::rng::Rng;
use crate::vclock;
use crate::wire::{self, pk, Pk};
use async_trait::async_trait;
use flowsdk::mqtt_client::client::{ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_client::engine::MqttEvent;
use flowsdk::mqtt_client::tokio_async_client::*;
use flowsdk::mqtt_client::MqttClientError;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Cmd {
    pub op: String,
    /// number of the operation; awaited with this time-out (-1 none, -2 not awaited)
    pub n: i64,
    pub to: i64,
    /// the identifier its packet turned out to carry
    pub id: i64,
    pub a: Args,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Done { pub n: i64, pub ret: String, pub v: Ev }
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct CPk { pub c: i64, pub p: Pk }
/// What a step made visible.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct TObs {
    pub log: Vec<Ev>,
    pub done: Vec<Done>,
    pub sent: Vec<CPk>,
    /// the connection the client holds, and how many it made
    pub open: i64,
    pub nc: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Step {
    pub acc: i64,
    pub cmds: Vec<Cmd>,
    pub cancel: Vec<i64>,
    pub rd: Vec<Vec<Pk>>,
    pub eof: i64,
}

struct Log(Arc<Mutex<Vec<Ev>>>);
impl Log {
    fn say(&self, v: Ev) { self.0.lock().unwrap().push(v); }
    fn ev(&self, k: &str, x: i64) { self.say(Ev { k: k.into(), x, ..Default::default() }) }
}
#[async_trait]
impl TokioMqttEventHandler for Log {
    async fn on_connected(&mut self, r: &ConnectionResult) { self.say(event(&MqttEvent::Connected(r.clone()))) }
    async fn on_disconnected(&mut self, r: Option<u8>) { self.say(event(&MqttEvent::Disconnected(r))) }
    async fn on_published(&mut self, r: &PublishResult) { self.say(event(&MqttEvent::Published(r.clone()))) }
    async fn on_subscribed(&mut self, r: &SubscribeResult) { self.say(event(&MqttEvent::Subscribed(r.clone()))) }
    async fn on_unsubscribed(&mut self, r: &UnsubscribeResult) { self.say(event(&MqttEvent::Unsubscribed(r.clone()))) }
    async fn on_message_received(&mut self, m: &MqttMessage) { self.say(event(&MqttEvent::MessageReceived(m.clone()))) }
    async fn on_ping_response(&mut self, r: &PingResult) { self.say(event(&MqttEvent::PingResponse(r.clone()))) }
    async fn on_error(&mut self, _: &MqttClientError) { self.ev("Error", -1) }
    async fn on_connection_lost(&mut self) { self.ev("Lost", -1) }
    async fn on_reconnect_attempt(&mut self, n: u32) { self.ev("Attempt", n as i64) }
    async fn on_pending_operations_cleared(&mut self) { self.ev("Cleared", -1) }
    async fn on_parse_error(&mut self, _: &[u8], _: &flowsdk::mqtt_serde::parser::ParseError, _: bool) { self.ev("ParseError", -1) }
}
use flowsdk::mqtt_client::engine::MqttMessage;

fn tcp_info(fd: RawFd) -> Option<(u8, i64, i64)> {
    let mut b = [0u8; 256];
    let mut n = b.len() as libc::socklen_t;
    let r = unsafe { libc::getsockopt(fd, libc::IPPROTO_TCP, 11, b.as_mut_ptr().cast(), &mut n) };
    if r != 0 { return None; }
    let at = |i: usize| i64::from_ne_bytes(b[i..i + 8].try_into().unwrap());
    Some((b[0], at(120), at(128)))
}
fn ioctl(fd: RawFd, what: libc::c_ulong) -> i64 {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, what as _, &mut n) };
    n as i64
}
/// Borrowed view of somebody else's socket.
fn with<T>(fd: RawFd, f: impl FnOnce(&TcpStream) -> T) -> T {
    let s = std::mem::ManuallyDrop::new(unsafe { TcpStream::from_raw_fd(fd) });
    f(&s)
}
fn is_socket(fd: RawFd) -> bool {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFSOCK }
}

/// How many of the bytes are whole packets
fn frames(b: &[u8]) -> usize {
    let mut i = 0;
    while let Some(n) = wire::frame_len(&b[i..]) { if i + n > b.len() { break; } i += n; }
    i
}

struct Conn {
    s: Option<TcpStream>,
    /// the client's end
    peer: SocketAddr,
    got: Vec<u8>,
    wrote: i64,
    ended: i64,
}
pub struct Tok {
    rt: tokio::runtime::Runtime,
    client: Option<Arc<TokioAsyncMqttClient>>,
    log: Arc<Mutex<Vec<Ev>>>,
    done: Arc<Mutex<Vec<Done>>>,
    tasks: BTreeMap<i64, tokio::task::JoinHandle<()>>,
    addr: SocketAddr,
    lis: Option<TcpListener>,
    conns: Vec<Conn>,
    ver: i64,
}
fn io(r: Result<(), std::io::Error>) -> (String, Ev) { (if r.is_ok() { "ok" } else { "err" }.into(), Ev { x: -1, ..Default::default() }) }
fn res<T>(r: Result<T, MqttClientError>, f: impl FnOnce(T) -> MqttEvent) -> (String, Ev) {
    match r {
        Ok(v) => ("ok".into(), event(&f(v))),
        Err(MqttClientError::OperationTimeout { .. }) => ("timeout".into(), Ev { x: -1, ..Default::default() }),
        Err(_) => ("err".into(), Ev { x: -1, ..Default::default() }),
    }
}
async fn call(c: &TokioAsyncMqttClient, k: &Cmd) -> (String, Ev) {
    let a = &k.a;
    let t = k.to as u64;
    match k.op.as_str() {
        "conn" => io(c.connect().await),
        "disc" => io(c.disconnect().await),
        "ping" => io(c.ping().await),
        "auth" => io(c.auth(a.rc as u8, uprops("AUTH", a.p)).await),
        "setauto" => io(c.set_auto_reconnect(a.n == 1).await),
        "pub" => io(match a.st {
            1 => c.publish(&wire::topic(a.m), &wire::payload(a.m), a.q as u8, a.r == 1).await,
            2 => c.publish_with_priority(&wire::topic(a.m), &wire::payload(a.m), a.q as u8, a.r == 1, a.pr as u8).await,
            _ => c.publish_with_command(publish_cmd(a)).await,
        }),
        "sub" => io(if a.st == 1 { c.subscribe(&wire::filter(a.l[0] / 64), (a.l[0] % 4) as u8).await } else { c.subscribe_with_command(sub_cmd(a)).await }),
        "unsub" => io(if a.st == 1 { let t: Vec<String> = a.l.iter().map(|f| wire::filter(*f)).collect(); c.unsubscribe(t.iter().map(|s| s.as_str()).collect()).await } else { c.unsubscribe_with_command(unsub_cmd(a)).await }),
        "connsync" => res(if a.st == 3 { c.connect_sync_with_timeout(t).await } else { c.connect_sync().await }, MqttEvent::Connected),
        "pingsync" => res(if a.st == 3 { c.ping_sync_with_timeout(t).await } else { c.ping_sync().await }, MqttEvent::PingResponse),
        "pubsync" => res(match a.st {
            1 => c.publish_sync(&wire::topic(a.m), &wire::payload(a.m), a.q as u8, a.r == 1).await,
            2 => c.publish_sync_with_priority(&wire::topic(a.m), &wire::payload(a.m), a.q as u8, a.r == 1, a.pr as u8).await,
            3 => c.publish_sync_with_timeout(&wire::topic(a.m), &wire::payload(a.m), a.q as u8, a.r == 1, t).await,
            _ => c.publish_with_command_sync(publish_cmd(a)).await,
        }, MqttEvent::Published),
        "subsync" => res(match a.st {
            1 => c.subscribe_sync(&wire::filter(a.l[0] / 64), (a.l[0] % 4) as u8).await,
            3 => c.subscribe_sync_with_timeout(&wire::filter(a.l[0] / 64), (a.l[0] % 4) as u8, t).await,
            _ => c.subscribe_with_command_sync(sub_cmd(a)).await,
        }, MqttEvent::Subscribed),
        "unsubsync" => {
            let f: Vec<String> = a.l.iter().map(|f| wire::filter(*f)).collect();
            let f: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
            res(match a.st {
                1 => c.unsubscribe_sync(f).await,
                3 => c.unsubscribe_sync_with_timeout(f, t).await,
                _ => c.unsubscribe_with_command_sync(unsub_cmd(a)).await,
            }, MqttEvent::Unsubscribed)
        }
        x => panic!("unknown command {x}"),
    }
}

impl Tok {
    /// `to`: time-outs of connect, publish, subscribe, unsubscribe, ping (-1 none)
    pub fn new(cfg: &Cfg, auto: bool, to: &[i64], cap: usize) -> Tok {
        let p = std::process::id();
        let lis = (0..50).find_map(|k| TcpListener::bind(format!("127.{}.{}.{}:0", 64 + (p >> 16) % 128 , (p >> 8) & 255, (p & 255).max(1) ^ (k * 3) as u32 & 255)).ok()).expect("no loopback address");
        lis.set_nonblocking(true).unwrap();
        let addr = lis.local_addr().unwrap();
        vclock::on();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let log = Arc::new(Mutex::new(vec![]));
        let mut o = cfg.options();
        o.peer = if cfg.ctor == 1 { format!("mqtt://{addr}") } else { addr.to_string() };
        let t = |i: usize| if to[i] < 0 { None } else { Some(to[i] as u64) };
        let mut c = TokioAsyncClientConfig::builder().auto_reconnect(auto).command_queue_size(cap).build();
        c.connect_timeout_ms = t(0);
        c.publish_ack_timeout_ms = t(1);
        c.subscribe_timeout_ms = t(2);
        c.unsubscribe_timeout_ms = t(3);
        c.ping_timeout_ms = t(4);
        let h = Box::new(Log(log.clone()));
        let client = rt.block_on(TokioAsyncMqttClient::new(o, h, c)).unwrap();
        let mut t = Tok { rt, client: Some(Arc::new(client)), log, done: Default::default(), tasks: BTreeMap::new(), addr, lis: Some(lis), conns: vec![], ver: cfg.ver };
        t.settle();
        t
    }
    fn listen(&mut self, on: bool) {
        if !on { self.lis = None; }
        else if self.lis.is_none() {
            let l = TcpListener::bind(self.addr).expect("bind again");
            l.set_nonblocking(true).unwrap();
            self.lis = Some(l);
        }
    }
    /// The client's sockets: descriptor and local address.
    fn ends(&self) -> Vec<(RawFd, SocketAddr, u8)> {
        let mut v = vec![];
        for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
            let Ok(fd) = e.file_name().to_str().unwrap_or("").parse::<RawFd>() else { continue };
            if !is_socket(fd) { continue; }
            let Some(i) = tcp_info(fd) else { continue };
            if let Ok(l) = with(fd, |s| s.local_addr()) {
                if l == self.addr { continue; }
                if i.0 == 2 || self.conns.iter().any(|c| c.peer == l) || with(fd, |s| s.peer_addr()).is_ok_and(|p| p == self.addr) { v.push((fd, l, i.0)); }
            }
        }
        v
    }
    /// Everything written has arrived and every close is known to the other side.
    fn synced(&mut self) -> bool {
        while let Some(Ok((s, peer))) = self.lis.as_ref().map(|l| l.accept()) {
            s.set_nonblocking(true).unwrap();
            s.set_nodelay(true).unwrap();
            self.conns.push(Conn { s: Some(s), peer, got: vec![], wrote: 0, ended: 0 });
        }
        let ends = self.ends();
        for (_, l, st) in &ends {
            if *st == 2 || !self.conns.iter().any(|c| c.peer == *l) { return false; }
        }
        let mut all = true;
        for c in self.conns.iter_mut() {
            let end = ends.iter().find(|e| e.1 == c.peer);
            let Some(s) = &mut c.s else {
                if let (Some(e), 2) = (end, c.ended) { all &= e.2 == 7; }
                continue
            };
            // the comparison first: what it finds arrived is read below
            let there = || -> bool {
                let Some((st, _, recv)) = tcp_info(s.as_raw_fd()) else { return false };
                match end {
                    Some((fd, _, cst)) => {
                        let Some((_, acked, crecv)) = tcp_info(*fd) else { return false };
                        if crecv < c.wrote { return false; }
                        if c.ended == 1 && *cst != 8 { return false; }
                        *cst == 7 || acked - 1 + ioctl(*fd, libc::TIOCOUTQ) <= recv
                    }
                    None => !matches!(st, 1 | 4 | 5),
                }
            };
            all &= there();
            let mut b = [0u8; 65536];
            loop {
                match s.read(&mut b) {
                    Ok(0) => { c.s = None; break }
                    Ok(n) => c.got.extend(&b[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => { c.s = None; break }
                }
            }
        }
        all
    }
    fn wait(&mut self) -> bool {
        for i in 0..3000 {
            if self.synced() { return true; }
            if i > 20 { std::thread::sleep(std::time::Duration::from_millis(1)); }
        }
        false
    }
    fn settle(&mut self) {
        let mut last = (usize::MAX, 0, 0, 0);
        let mut same = 0;
        for _ in 0..3000 {
            self.rt.block_on(async { for _ in 0..8 { tokio::task::yield_now().await } });
            crate::beat();
            if !self.wait() { break; }
            let left: i64 = self.ends().iter().map(|e| ioctl(e.0, libc::FIONREAD)).sum();
            let sig = (self.log.lock().unwrap().len() + self.done.lock().unwrap().len(), self.conns.iter().map(|c| c.got.len()).sum::<usize>(), self.ends().len(), left);
            same = if sig == last { same + 1 } else { 0 };
            last = sig;
            // a packet of which a part has arrived will be written on
            let ends = self.ends();
            let part = self.conns.iter().any(|c| ends.iter().any(|e| e.1 == c.peer) && frames(&c.got) < c.got.len());
            if part { std::thread::sleep(std::time::Duration::from_millis(1)); }
            if same >= if part { 20 } else { 2 } { break; }
        }
    }
    fn held(&self) -> i64 {
        let e = self.ends();
        self.conns.iter().position(|c| e.iter().any(|x| x.1 == c.peer)).map_or(-1, |i| i as i64)
    }
    /// The server writes on the connection the client holds.
    fn write(&mut self, b: &[u8]) -> bool {
        let h = self.held();
        if h < 0 { return false; }
        let c = &mut self.conns[h as usize];
        if c.ended != 0 { return false; }
        let Some(s) = &mut c.s else { return false };
        let mut b = b;
        while !b.is_empty() {
            match s.write(b) {
                Ok(n) => { c.wrote += n as i64; b = &b[n..]; }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(std::time::Duration::from_millis(1)),
                Err(_) => return false,
            }
        }
        true
    }
    fn end(&mut self, how: i64) {
        let h = self.held();
        if h < 0 { return; }
        let c = &mut self.conns[h as usize];
        if c.ended != 0 { return; }
        c.ended = how;
        if how == 1 { if let Some(s) = &c.s { let _ = s.shutdown(Shutdown::Write); } return; }
        if let Some(s) = c.s.take() {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, (&l as *const libc::linger).cast(), std::mem::size_of::<libc::linger>() as u32) };
        }
    }
    /// One step: the stimuli, then the client runs until it rests.
    pub fn step(&mut self, now: i64, s: &Step, bytes: &[u8]) -> TObs {
        vclock::set(now);
        self.listen(s.acc == 1);
        for n in &s.cancel { if let Some(t) = self.tasks.remove(n) { t.abort(); } }
        if !bytes.is_empty() { self.write(bytes); }
        if s.eof > 0 { self.end(s.eof); }
        self.wait();
        for k in &s.cmds {
            if k.op == "shut" {
                // the handle is the only one left
                self.tasks.clear();
                if let Some(c) = self.client.take() {
                    match Arc::try_unwrap(c) {
                        Ok(c) if k.a.n == 1 => { self.rt.spawn(async move { let _ = c.shutdown().await; }); }
                        Ok(c) => drop(c),
                        Err(_) => panic!("operations are pending"),
                    }
                }
                continue;
            }
            let Some(c) = self.client.clone() else { continue };
            let (k, d) = (k.clone(), self.done.clone());
            let n = k.n;
            let t = self.rt.spawn(async move {
                let (ret, v) = call(&c, &k).await;
                if k.to != -2 || ret != "ok" { d.lock().unwrap().push(Done { n: k.n, ret, v }); }
            });
            if s.cmds.iter().any(|k| k.n == n && k.to != -2) { self.tasks.insert(n, t); }
        }
        self.settle();
        let mut o = TObs { log: std::mem::take(&mut *self.log.lock().unwrap()), done: std::mem::take(&mut *self.done.lock().unwrap()), open: self.held(), nc: self.conns.len() as i64, ..Default::default() };
        for d in &o.done { self.tasks.remove(&d.n); }
        o.done.sort_by_key(|d| d.n);
        for (i, c) in self.conns.iter_mut().enumerate() {
            // what is left is the start of a packet the client has not finished writing
            let n = frames(&c.got);
            let b: Vec<u8> = c.got.drain(..n).collect();
            o.sent.extend(wire::decode_all(self.ver, &b).into_iter().map(|p| CPk { c: i as i64, p }));
        }
        o
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TLine { pub op: String, pub now: i64, pub s: Step, pub o: TObs }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TScenario { pub fam: String, pub cfg: Cfg, pub auto: i64, pub now: i64, pub ops: Vec<TLine> }

#[derive(Clone)]
struct Prof {
    ops: usize, publ: u32, req: u32, ping: u32, conn: u32, srv: u32, answer: u32, time: u32, end: u32, disc: u32, misc: u32,
    combo: u64, sync: u64, errack: u64, refuse: u64, resume: u64, badpub: u64, badin: u64, chunk: u64, noanswer: u64, down: u64, big: u64,
    auto: u64, wild: u64, burst: usize, down_ops: u64,
}
impl Default for Prof {
    fn default() -> Prof {
        Prof { ops: 45, publ: 20, req: 12, ping: 4, conn: 4, srv: 10, answer: 26, time: 10, end: 3, disc: 1, misc: 2, combo: 45, sync: 70, errack: 12, refuse: 6,
            resume: 60, badpub: 3, badin: 1, chunk: 20, noanswer: 8, down: 15, big: 4, auto: 80, wild: 5, burst: 3, down_ops: 40 }
    }
}
struct Gen<'a> {
    r: &'a mut Rng,
    p: Prof,
    t: Tok,
    cfg: Cfg,
    to: Vec<i64>,
    now: i64,
    ops: Vec<TLine>,
    n: i64,
    open: i64,
    greeted: bool,
    acc: bool,
    ended: bool,
    session: bool,
    /// answers due, and what of them has not been written yet
    pend: Vec<Pk>,
    tail: Vec<u8>,
    ends: Vec<(usize, Pk)>,
    sq: BTreeMap<i64, (Pk, u8)>,
    waiting: Vec<i64>,
    times: Vec<i64>,
    next: Step,
    bytes: Vec<u8>,
    nbytes: usize,
    bad: bool,
    over: bool,
    lost_at: i64,
    tries: u32,
}
impl Gen<'_> {
    fn opno(&mut self) -> i64 { self.n += 1; self.n }
    fn cmd(&mut self, op: &str, a: Args, sync: Option<usize>) {
        let n = self.opno();
        let mut a = a;
        let to = match sync {
            None => -2,
            Some(i) => if a.st == 3 { *self.r.pick(&[1, 50, 3000]) } else { self.to[i] },
        };
        if sync.is_none() && a.st == 3 { a.st = 0; }
        self.next.cmds.push(Cmd { op: op.into(), n, to, id: 0, a });
    }
    fn publish(&mut self) {
        let sync = self.r.p(self.p.sync);
        let q = *self.r.pick(&[0, 1, 1, 2, 2]);
        let bad = self.r.p(self.p.badpub) as i64;
        let st = if bad == 1 { 0 } else { self.r.range(0, 3) };
        let mut a = Args { m: self.n + 1, q, st, bad, r: self.r.p(20) as i64, ..Default::default() };
        if self.r.p(self.p.big) { a.m += 5000; }
        if st == 0 && self.r.p(30) { a.p = self.r.range(1, 40); }
        if (st == 0 || st == 2) && self.r.p(60) { a.pr = *self.r.pick(&[0, 100, 128, 200, 255]); }
        else if st == 1 || st == 3 || st == 0 { a.pr = if st == 0 { 0 } else { 128 }; }
        self.cmd(if sync { "pubsync" } else { "pub" }, a, sync.then_some(1));
        let k = self.next.cmds.last_mut().unwrap();
        if k.op == "pub" && st == 3 { k.a.pr = 0; }
    }
    fn request(&mut self) {
        let sync = self.r.p(self.p.sync);
        let sub = self.r.p(60);
        let bad = self.r.p(self.p.badpub) as i64;
        let mut st = if bad == 1 { 0 } else { *self.r.pick(&[0, 1, 3]) };
        if st == 3 && !sync { st = 0; }
        let k = if st == 0 || !sub { self.r.range(1, 2) } else { 1 };
        let f0 = (self.n + 1) * 2;
        let l = (0..k).map(|i| if sub { (f0 + i) * 64 + self.r.range(0, 2) + if st == 0 { self.r.range(0, 1) * 4 + self.r.range(0, 1) * 8 + self.r.range(0, 2) * 16 } else { 0 } } else { f0 + i }).collect();
        let a = Args { l, st, bad, p: if st == 0 && self.r.p(20) { self.r.range(1, 40) } else { 0 }, ..Default::default() };
        let op = match (sub, sync) { (true, true) => "subsync", (true, false) => "sub", (false, true) => "unsubsync", _ => "unsub" };
        self.cmd(op, a, sync.then_some(if sub { 2 } else { 3 }));
    }
    fn simple(&mut self, op: &str, sync: Option<usize>) {
        let st = if sync.is_some() && self.r.p(30) { 3 } else { 0 };
        self.cmd(op, Args { st, ..Default::default() }, sync);
    }
    fn connect(&mut self) { if self.r.p(70) { self.simple("connsync", Some(0)) } else { self.simple("conn", None) } }
    /// Runs what has been collected.
    fn go(&mut self) {
        let mut s = std::mem::take(&mut self.next);
        s.acc = self.acc as i64;
        let bytes = std::mem::take(&mut self.bytes);
        // the worker reads up to 4096 bytes at a time
        let mut rd: Vec<Vec<Pk>> = vec![];
        let n = bytes.len();
        let mut i = 0;
        while i < n {
            let j = (i + 4096).min(n);
            let mut v = vec![];
            self.ends.retain(|e| { if e.0 <= j { v.push(e.1.clone()); false } else { true } });
            rd.push(v);
            i = j;
        }
        for e in self.ends.iter_mut() { e.0 -= n; }
        self.nbytes = 0;
        s.rd = rd;
        let o = self.t.step(self.now, &s, &bytes);
        for k in &s.cmds { if k.to != -2 { self.waiting.push(k.n); } }
        self.waiting.retain(|n| !o.done.iter().any(|d| d.n == *n) && !s.cancel.contains(n));
        let was = self.open;
        if o.open != self.open || s.eof > 0 {
            self.ended = false;
            self.open = o.open;
            if o.open >= 0 && o.nc > was + 1 || o.open < 0 { self.fresh(); }
        }
        if o.log.iter().any(|v| v.k == "Lost" || v.k == "Error") { self.lost_at = self.now; }
        for v in &o.log { if v.k == "Attempt" { self.tries = v.x as u32; } if v.k == "Connected" && v.rc == 0 { self.tries = 0; } }
        let sent = o.sent.clone();
        self.ops.push(TLine { op: "step".into(), now: self.now, s, o });
        self.times.push(self.now);
        for x in sent { if x.c == self.open { self.broker(&x.p); } }
    }
    fn fresh(&mut self) {
        self.greeted = false;
        self.bad = false;
        self.pend.clear();
        self.tail.clear();
        self.ends.clear();
        for s in self.sq.values_mut() { if s.1 == 2 { s.1 = 1; } }
    }
    fn rc(&mut self, bad: &[i64]) -> i64 { if self.cfg.ver == 5 && self.r.p(self.p.errack) { *self.r.pick(bad) } else { 0 } }
    fn broker(&mut self, k: &Pk) {
        let v5 = self.cfg.ver == 5;
        let mut a = match k.k.as_str() {
            "CONNECT" => {
                let mut a = pk("CONNACK");
                if self.r.p(self.p.refuse) { a.rc = if v5 { 0x87 } else { 5 } } else {
                    a.d = (self.session && self.r.p(self.p.resume)) as i64;
                    if v5 && self.r.p(30) { a.q = *self.r.pick(&[1, 2, 3, 65535]); }
                    if a.d == 0 { self.sq.clear(); }
                    self.session = true;
                }
                a
            }
            "PUBLISH" if k.q == 1 => Pk { id: k.id, rc: self.rc(&[0x80, 0x97]), ..pk("PUBACK") },
            "PUBLISH" if k.q == 2 => Pk { id: k.id, rc: self.rc(&[0x80]), ..pk("PUBREC") },
            "PUBREL" => Pk { id: k.id, ..pk("PUBCOMP") },
            "SUBSCRIBE" => Pk { id: k.id, l: k.l.iter().map(|_| *self.r.pick(&[0, 1, 2, 128])).collect(), ..pk("SUBACK") },
            "UNSUBSCRIBE" => Pk { id: k.id, l: if v5 { k.l.iter().map(|_| *self.r.pick(&[0, 17])).collect() } else { vec![] }, ..pk("UNSUBACK") },
            "PINGREQ" => pk("PINGRESP"),
            "PUBREC" => { if let Some(s) = self.sq.get_mut(&k.id) { s.1 = s.1.max(1); } return }
            "PUBCOMP" => { self.sq.remove(&k.id); return }
            _ => return,
        };
        if a.k != "CONNACK" && self.r.p(self.p.noanswer) { return; }
        if v5 && a.k != "PINGRESP" && self.r.p(15) { a.p = self.r.range(1, 40); }
        self.pend.push(a);
    }
    fn queue(&mut self, f: Pk) {
        let b = wire::encode(self.cfg.ver, &f);
        self.tail.extend(b);
        // ends are counted from the first byte not yet handed to a step
        let at = self.nbytes + self.tail.len();
        self.ends.push((at, f));
    }
    fn write(&mut self, all: bool) {
        if self.tail.is_empty() || self.ended { return; }
        let n = if !all && self.r.p(self.p.chunk) { 1 + self.r.below(self.tail.len()) } else { self.tail.len() };
        // no more than the client's socket takes in before anyone reads
        let n = n.min(50000usize.saturating_sub(self.nbytes));
        let b: Vec<u8> = self.tail.drain(..n).collect();
        self.nbytes += n;
        self.bytes.extend(b);
    }
    fn answer(&mut self) {
        if self.open < 0 || self.ended { return; }
        for _ in 0..1 + self.r.below(4) {
            if self.pend.is_empty() { break; }
            let i = if self.pend[0].k == "CONNACK" || self.r.p(50) { 0 } else { self.r.below(self.pend.len()) };
            let f = self.pend.remove(i);
            let hello = f.k == "CONNACK";
            if hello { self.greeted = f.rc == 0; }
            if hello && f.rc > 0 { self.queue(f); self.write(true); return; }
            self.queue(f);
        }
        self.write(false);
    }
    fn server(&mut self) {
        if self.open < 0 || self.ended || !self.greeted { return; }
        for _ in 0..1 + self.r.below(self.p.burst) {
            match self.r.below(10) {
                0..=6 => {
                    let n = self.opno();
                    let mut f = Pk { m: n, q: self.r.range(0, 2), r: self.r.p(20) as i64, ..pk("PUBLISH") };
                    if self.r.p(self.p.big) { f.m += 5000; }
                    if self.cfg.ver == 5 && self.r.p(20) { f.p = self.r.range(1, 40); }
                    if f.q > 0 {
                        let free: Vec<i64> = [1, 2, 3, 4, 7, 300, 65535].into_iter().filter(|i| !self.sq.contains_key(i)).collect();
                        if free.is_empty() { continue; }
                        f.id = *self.r.pick(&free);
                        if f.q == 2 { self.sq.insert(f.id, (f.clone(), 0)); }
                    }
                    self.queue(f);
                }
                7 => { let c: Vec<Pk> = self.sq.values().filter(|s| s.1 == 0).map(|s| s.0.clone()).collect(); if !c.is_empty() { let mut f = self.r.pick(&c).clone(); f.d = 1; self.queue(f); } }
                _ => {
                    let c: Vec<i64> = self.sq.iter().filter(|s| s.1 .1 == 1).map(|s| *s.0).collect();
                    if !c.is_empty() { let id = *self.r.pick(&c); self.sq.get_mut(&id).unwrap().1 = 2; self.queue(Pk { id, ..pk("PUBREL") }); }
                }
            }
        }
        if self.r.p(self.p.wild) { let f = self.wild(); self.queue(f); }
        if self.r.p(self.p.badin) && !self.bad { let m = self.r.range(0, 3); self.queue(Pk { m, ..pk("BAD") }); self.write(true); self.bad = true; }
        self.write(false);
    }
    /// Something nobody asked for
    fn wild(&mut self) -> Pk {
        let id = self.r.range(1, 12);
        let v5 = self.cfg.ver == 5;
        match self.r.below(5) {
            0 => Pk { id: 0, ..pk("PINGRESP") },
            1 => Pk { id, ..pk("PUBREL") },
            2 if v5 => Pk { rc: *self.r.pick(&[0x8b, 0x8e, 0x81]), ..pk("DISCONNECT") },
            3 => Pk { id: 60000 + id, ..pk("PUBACK") },
            _ => Pk { id: 60000 + id, l: vec![0], ..pk("SUBACK") },
        }
    }
    fn end(&mut self, ) {
        if self.open < 0 || self.ended { return; }
        if self.r.p(65) {
            if self.r.p(30) { self.write(true); }
            self.tail.clear();
            self.next.eof = 1;
        } else if self.bytes.is_empty() {
            self.tail.clear();
            self.next.eof = 2;
        } else { return; }
        self.ended = true;
    }
    fn time(&mut self) {
        // moves on alone: only timers are due
        self.flush();
        let d = self.to.iter().copied().filter(|t| *t > 0).collect::<Vec<_>>();
        let mut c = vec![1, 10, 11, 50, 1000, self.cfg.rto, self.cfg.rto, 70000];
        if self.cfg.ka > 0 { c.extend([self.cfg.ka * 1000, self.cfg.ka * 1000, self.cfg.ka * 1000 * self.cfg.mult, self.cfg.ka * 1000 * self.cfg.mult]); }
        c.extend(d);
        let mut dt = *self.r.pick(&c);
        if self.open < 0 && self.r.p(70) {
            // around the moment the next attempt is due
            let due = self.lost_at + (self.cfg.base << self.tries.min(10)).min(self.cfg.maxd);
            dt = (due + *self.r.pick(&[-1, 0, 0, 1, 5]) - self.now).max(1);
        } else if self.r.p(30) && !self.times.is_empty() {
            let t = *self.r.pick(&self.times[self.times.len().saturating_sub(8)..]) + *self.r.pick(&c) + self.r.range(-1, 1);
            dt = (t - self.now).max(1);
        }
        self.now += dt;
        self.go();
    }
    fn flush(&mut self) { if !self.bytes.is_empty() || !self.next.cmds.is_empty() || self.next.eof > 0 { self.go(); } }
    fn step(&mut self) {
        let p = self.p.clone();
        let k = 1 + if self.r.p(p.combo) { self.r.below(3) } else { 0 };
        if self.r.p(60) { self.now += self.r.range(0, 3); }
        for _ in 0..k {
            if self.next.eof > 0 && self.next.cmds.len() > 2 { break; }
            let up = self.open >= 0;
            let live = up || self.r.p(p.down_ops);
            let ws = [if live { p.publ } else { 0 }, if live { p.req } else { 0 }, if live { p.ping } else { 0 }, if up { p.conn } else { p.conn * 4 }, p.srv, p.answer, p.time * if up { 1 } else { 3 }, p.end, p.disc, p.misc];
            let mut x = self.r.below(ws.iter().sum::<u32>() as usize) as u32;
            let i = ws.iter().position(|w| if x < *w { true } else { x -= *w; false }).unwrap();
            if self.next.cmds.len() >= 3 && i < 4 { continue; }
            match i {
                0 => self.publish(),
                1 => self.request(),
                2 => if self.r.p(p.sync) { self.simple("pingsync", Some(4)) } else { self.simple("ping", None) },
                3 => self.connect(),
                4 => self.server(),
                5 => self.answer(),
                6 => { self.time(); return; }
                7 => self.end(),
                8 => self.simple("disc", None),
                _ => match self.r.below(5) {
                    0 => { let n = self.r.p(60) as i64; self.cmd("setauto", Args { n, ..Default::default() }, None) }
                    1 => { let rc = *self.r.pick(&[0x18, 0x19]); let p = if self.r.p(50) { self.r.range(1, 40) } else { 0 }; self.cmd("auth", Args { rc, p, ..Default::default() }, None) }
                    2 | 3 => if !self.waiting.is_empty() { let n = *self.r.pick(&self.waiting); if !self.next.cancel.contains(&n) { self.next.cancel.push(n); } },
                    _ => { self.acc = !self.acc; }
                },
            }
        }
        if !self.acc && self.r.p(25) { self.acc = true; }
        if self.acc && self.r.p(p.down) && self.open < 0 { self.acc = false; }
        if self.r.p(4) || !self.next.cancel.is_empty() { self.go() } else { self.flush() }
    }
}

pub fn family(fam: &str, r: &mut Rng) -> TScenario {
    let ver = if r.p(50) { 5 } else { 3 };
    let mut p = Prof::default();
    let mut c = Cfg::basic(ver);
    c.base = *r.pick(&[10, 100, 1000]);
    c.maxd = *r.pick(&[1000, 5000, 60000]);
    c.ka = *r.pick(&[0, 0, 5, 60]);
    c.mult = *r.pick(&[1, 2, 3]);
    c.maxatt = if r.p(80) { 0 } else { r.range(1, 3) };
    c.ctor = r.p(30) as i64;
    c.rm = *r.pick(&[100, 100, 2, 1]);
    let mut to = vec![30000, 10000, 10000, 10000, 5000];
    if r.p(30) { to = (0..5).map(|_| *r.pick(&[-1, 20, 500, 3000])).collect(); }
    let mut cap = 1000;
    match fam {
        "tmix" => {}
        "tops" => { p = Prof { publ: 26, req: 22, ping: 6, time: 4, end: 1, disc: 0, misc: 2, combo: 75, sync: 92, noanswer: 4, errack: 25, badin: 0, ..p }; c.ka = 0; }
        "tlost" => { p = Prof { end: 12, time: 16, down: 35, combo: 50, conn: 5, resume: 70, noanswer: 15, down_ops: 70, misc: 4, ..p }; c.ka = *r.pick(&[0, 5, 5]); }
        "twill" => { p = Prof { disc: 12, conn: 14, end: 8, time: 18, misc: 10, down: 30, publ: 8, req: 6, auto: 60, ..p }; c.base = *r.pick(&[10, 100]); }
        "ttime" => { p = Prof { noanswer: 45, time: 26, end: 1, misc: 3, sync: 90, ..p }; c.ka = *r.pick(&[0, 5, 5, 60]); to = (0..5).map(|_| *r.pick(&[20, 500, 3000, 10000])).collect(); }
        "tsmall" => { c.maxev = *r.pick(&[1, 2, 4]); c.maxout = *r.pick(&[1, 2, 1000]); c.qcap = 1000; p = Prof { srv: 22, burst: 8, publ: 24, combo: 60, badin: 0, big: 10, ..p }; cap = *r.pick(&[1, 2, 1000]); c.ka = 0; }
        x => panic!("unknown family {x}"),
    }
    let auto = r.p(p.auto);
    let clean = r.p(50);
    let c = c.with_connect(clean, if r.p(20) { 1 } else { -1 }, if r.p(10) { 1 } else { -1 }, -1, -1, -1, [-1; 4], 0);
    let t = Tok::new(&c, auto, &to, cap);
    let mut g = Gen { r, p, t, cfg: c.clone(), to, now: 0, ops: vec![], n: 0, open: -1, greeted: false, acc: true, ended: false, session: false, pend: vec![], tail: vec![], ends: vec![],
        sq: BTreeMap::new(), waiting: vec![], times: vec![], next: Step::default(), bytes: vec![], nbytes: 0, bad: false, over: false, lost_at: 0, tries: 0 };
    if g.r.p(15) { g.acc = false; }
    if g.r.p(90) { g.connect(); g.go(); if g.r.p(90) { g.answer(); g.go(); } }
    while g.ops.len() < g.p.ops && !g.over { g.step(); }
    if g.r.p(40) {
        g.flush();
        g.next.cancel = g.waiting.clone();
        g.go();
        let n = g.r.p(60) as i64;
        g.cmd("shut", Args { n, ..Default::default() }, None);
        g.go();
    }
    let mut ops = std::mem::take(&mut g.ops);
    drop(g);
    identify(&mut ops);
    TScenario { fam: fam.into(), cfg: c, auto: auto as i64, now: 0, ops }
}

/// The identifier of each command's packet, as seen on the wire afterwards.
fn identify(ops: &mut [TLine]) {
    let mut seen: BTreeMap<(String, i64), i64> = BTreeMap::new();
    for l in ops.iter() {
        for x in &l.o.sent {
            let key = match x.p.k.as_str() { "PUBLISH" => x.p.m, "SUBSCRIBE" => x.p.l.first().map_or(-1, |f| f / 64), "UNSUBSCRIBE" => x.p.l.first().copied().unwrap_or(-1), _ => continue };
            seen.entry((x.p.k.clone(), key)).or_insert(x.p.id);
        }
    }
    for l in ops.iter_mut() {
        for k in l.s.cmds.iter_mut() {
            let key = match k.op.as_str() {
                "pub" | "pubsync" => ("PUBLISH".to_string(), k.a.m),
                "sub" | "subsync" => ("SUBSCRIBE".to_string(), k.a.l[0] / 64),
                "unsub" | "unsubsync" => ("UNSUBSCRIBE".to_string(), k.a.l[0]),
                _ => continue,
            };
            k.id = seen.get(&key).copied().unwrap_or(70000 + k.n);
        }
    }
}
