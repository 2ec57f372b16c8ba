//! Seeded scenario generator for the engine: random commands, a simulated broker
//! (late, reordered, repeated, failing acknowledgements), chunked input, losses and ticks.
use crate::eng::*;
use crate::rng::Rng;
use crate::wire::{self, pk, Pk};
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize)]
pub struct Scenario {
    pub fam: String,
    pub now: i64,
    pub cfg: Cfg,
    pub ops: Vec<Line>,
}

/// Relative weights of the things a scenario does.
#[derive(Clone)]
pub struct Prof {
    pub ops: usize,
    pub big: u32,
    /// most packets the server sends at once
    pub burst: usize,
    /// the application never asks for events
    pub hold: bool,
    pub publ: u32,
    pub sub: u32,
    pub enc: u32,
    pub deliver: u32,
    pub srv: u32,
    pub take: u32,
    pub tick: u32,
    pub lost: u32,
    pub sdisc: u32,
    pub ping: u32,
    pub disc: u32,
    pub sched: u32,
    pub burn: u32,
    pub badpub: u64,
    pub badin: u64,
    pub reorder: u64,
    pub dup: u64,
    pub stray: u64,
    pub errack: u64,
    pub refuse: u64,
    pub resume: u64,
    pub chunk: u64,
    pub stream: u64,
    pub q: [u32; 3],
    pub prios: Vec<i64>,
    /// start with this many publishes while disconnected
    pub preload: usize,
    /// always reconnect promptly after a loss
    pub prompt: u64,
}
impl Default for Prof {
    fn default() -> Self {
        Prof {
            ops: 90, big: 8, burst: 3, hold: false, publ: 22, sub: 5, enc: 3, deliver: 25, srv: 10, take: 18, tick: 8, lost: 3, sdisc: 1,
            ping: 1, disc: 1, sched: 1, burn: 0, badpub: 2, badin: 2, reorder: 40, dup: 10, stray: 6,
            errack: 15, refuse: 8, resume: 60, chunk: 35, stream: 30, q: [2, 4, 4],
            prios: vec![128, 128, 0, 200], preload: 0, prompt: 85,
        }
    }
}

fn cfg_base(r: &mut Rng) -> Cfg {
    let ver = *r.pick(&[5, 5, 4, 4, 3]);
    let mut c = Cfg::basic(ver);
    c.cm = r.range(1, 9);
    c.rm = *r.pick(&[0, 1, 1, 2, 3, 5, 20]);
    c.maxout = *r.pick(&[1000, 1000, 1, 2, 3, 6]);
    c.maxev = *r.pick(&[1000, 1000, 1, 2, 4]);
    c.aa = r.p(80) as i64;
    c.ka = *r.pick(&[0, 0, 1, 2, 5]);
    c.mult = *r.pick(&[1, 2, 3]);
    c.auto = r.p(80) as i64;
    c.rto = *r.pick(&[500, 1000, 2500, 5000]);
    c.base = *r.pick(&[1, 100, 1000]);
    c.maxd = *r.pick(&[400, 5000, 60000]);
    c.maxatt = *r.pick(&[0, 0, 3]);
    c.pbuf = *r.pick(&[16384, 16384, 64]);
    connect_opts(r, c)
}
fn connect_opts(r: &mut Rng, c: Cfg) -> Cfg {
    let v5 = c.ver == 5;
    let user = if r.p(40) { r.range(0, 99) } else { -1 };
    let pw = if (v5 || user >= 0) && r.p(50) { r.range(0, 99) } else { -1 };
    let will = r.p(40);
    let o = |r: &mut Rng, hi: i64, lo: i64| if v5 && r.p(40) { r.range(lo, hi) } else { -1 };
    let ps = [o(r, 100000, 0), o(r, 100000, 1), o(r, 1, 0), o(r, 1, 0)];
    let clean = r.p(40);
    let (wt, wq, wr, wp) = if will { (r.range(1, 40), r.range(0, 2), r.range(0, 1), if v5 && r.p(40) { r.range(1, 9) } else { 0 }) } else { (-1, -1, -1, 0) };
    c.with_connect(clean, user, pw, wt, wq, wr, ps, wp)
}

pub struct Gen<'a> {
    r: &'a mut Rng,
    p: Prof,
    x: Exec,
    now: i64,
    ops: Vec<Line>,
    cfg: Cfg,
    nt: i64,
    conn: bool,
    mno: i64,
    // transport and broker
    up: bool,
    greeted: bool,
    tail: Vec<u8>,
    ends: Vec<(usize, Pk)>,
    fed: usize,
    pend: Vec<Pk>,
    session: bool,
    live: BTreeMap<i64, &'static str>,
    sq: BTreeMap<i64, (Pk, u8)>, // server's QoS 2 messages: 0 = PUBREC awaited, 1 = PUBREL may go, 2 = PUBREL sent
    broken: bool,
    dead: bool,
    shaken: bool,
    streams: BTreeSet<i64>,
    strm: BTreeMap<i64, i64>,
    spend: Vec<(Pk, i64)>, // pending packets on streams
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Prof, cfg: Cfg) -> Self {
        crate::vclock::on();
        crate::vclock::set(1000);
        let x = Exec::new(&cfg);
        Gen {
            r, p, x, now: 1000, ops: vec![], cfg, nt: -1, conn: false, mno: 0, up: false, greeted: false,
            tail: vec![], ends: vec![], fed: 0, pend: vec![], session: false, live: BTreeMap::new(),
            sq: BTreeMap::new(), broken: false, dead: false, shaken: false, streams: BTreeSet::new(), strm: BTreeMap::new(), spend: vec![],
        }
    }
    pub fn op(&mut self, op: &str, a: Args) -> Obs {
        if self.dead { return Obs::default(); }
        if !self.offered(op) { return Obs { ret: "none".into(), conn: self.conn as i64, nt: self.nt, ..Default::default() }; }
        self.now += 1;
        self.op_at(op, a)
    }
    fn tls(&self) -> bool { self.cfg.via >= 3 }
    /// Is the call part of the interface the scenario goes through?
    fn offered(&self, op: &str) -> bool {
        match (self.cfg.via, op) {
            (0, _) | (_, "connect" | "disc" | "tick" | "takeev" | "pub" | "sub" | "unsub") => true,
            (2 | 5, "takelist" | "null") => true,
            (1 | 2, "lost" | "auth" | "take" | "in" | "ver") => true,
            (3.., "sock" | "takesock" | "shake") => true,
            _ => false,
        }
    }
    /// Options of publishes and subscriptions beyond QoS can be given
    fn rich(&self) -> bool { matches!(self.cfg.via, 0 | 3) }
    fn op_at(&mut self, op: &str, mut a: Args) -> Obs {
        let o = self.x.run(&Op { op: op.into(), now: self.now, a: a.clone(), c: None });
        if self.cfg.via > 0 { a.l.truncate(20); if a.by.len() > 200 { a.by = "..".into(); } }
        self.ops.push(Line { op: op.into(), now: self.now, a, c: None, o: o.clone() });
        if o.ret == "panic" { self.dead = true; }
        self.nt = o.nt;
        let was = self.conn;
        self.conn = o.conn == 1;
        // An unanswered ping ends the transport too.
        if op == "tick" && was && !self.conn { self.down(); }
        o
    }
    pub fn simple(&mut self, op: &str) -> Obs {
        let op = match op { "tryping" if self.noio() => "ping", "trydisc" if self.noio() => "disc", o => o };
        self.op(op, Args::default())
    }
    fn noio(&self) -> bool { self.cfg.via == 0 && self.cfg.ctor == NOIO }

    pub fn publish(&mut self, op: &str, q: i64, pr: i64, st: i64) -> Obs {
        self.mno += 1;
        let mut a = Args {
            m: self.mno, q, r: self.r.p(25) as i64, p: if self.r.p(25) { self.r.range(1, 99) } else { 0 }, pr, st,
            bad: self.r.p(self.p.badpub) as i64, ..Default::default()
        };
        if !self.rich() { (a.r, a.p) = (0, 0); if self.cfg.via != 1 { a.pr = 128; } }
        if self.big() { a.m += 5000; }
        let bad = a.bad;
        let o = self.op(op, a);
        if o.ret == "ok" && q > 0 && !(bad == 1 && op == "pubenc") {
            self.live.insert(o.id, if q == 1 { "q1" } else { "q2" });
            if st >= 0 { self.strm.insert(o.id, st); } else { self.strm.remove(&o.id); }
        }
        if op == "pubenc" { for k in &o.out { self.broker(k, st); } }
        o
    }
    fn request(&mut self, sub: bool, enc: bool, st: i64) {
        let rich = self.rich();
        let n = if rich { self.r.range(1, 3) } else { 1 };
        let l = (0..n).map(|_| {
            let f = self.r.range(0, 30);
            if sub && !rich { f * 64 + self.r.range(0, 2) }
            else if sub { f * 64 + self.r.range(0, 2) + 4 * self.r.range(0, 1) * (f % 4 != 3) as i64 + 8 * self.r.range(0, 1) + 16 * self.r.range(0, 2) } else { f }
        }).collect();
        let a = Args { l, p: if rich && self.r.p(25) { self.r.range(1, 99) } else { 0 }, st, bad: self.r.p(self.p.badpub) as i64, ..Default::default() };
        let op = match (sub, enc) { (true, false) => "sub", (true, true) => "subenc", (false, false) => "unsub", _ => "unsubenc" };
        let o = self.op(op, a);
        if o.ret == "ok" {
            self.live.insert(o.id, if sub { "sub" } else { "unsub" });
            if st >= 0 { self.strm.insert(o.id, st); } else { self.strm.remove(&o.id); }
        }
        if enc { for k in &o.out { self.broker(k, st); } }
    }

    /// The simulated broker sees a packet from the client.
    fn broker(&mut self, k: &Pk, st: i64) {
        if !self.up { return; }
        let v5 = self.cfg.ver == 5;
        let mut ans = match k.k.as_str() {
            "CONNECT" => {
                let mut a = pk("CONNACK");
                if self.r.p(self.p.refuse) {
                    a.rc = if v5 { *self.r.pick(&[0x80, 0x87, 0x88, 0x97]) } else { self.r.range(1, 5) };
                } else {
                    a.d = (self.session && self.r.p(self.p.resume)) as i64;
                    if v5 && self.r.p(35) { a.q = *self.r.pick(&[1, 1, 2, 3, 10, 65535]); }
                    if a.d == 0 { self.sq.clear(); }
                    self.session = true;
                }
                a
            }
            "PUBLISH" if k.q == 1 => Pk { id: k.id, rc: self.rc(&[0x10], &[0x80, 0x87, 0x97]), ..pk("PUBACK") },
            "PUBLISH" if k.q == 2 => Pk { id: k.id, rc: self.rc(&[0x10], &[0x80, 0x97]), ..pk("PUBREC") },
            "PUBREL" => Pk { id: k.id, rc: self.rc(&[], &[0x92]), ..pk("PUBCOMP") },
            "SUBSCRIBE" => Pk { id: k.id, l: k.l.iter().map(|_| *self.r.pick(&[0, 1, 2, 128])).collect(), ..pk("SUBACK") },
            "UNSUBSCRIBE" => Pk { id: k.id, l: k.l.iter().map(|_| *self.r.pick(&[0, 17, 128])).collect(), ..pk("UNSUBACK") },
            "PINGREQ" => if self.r.p(85) { pk("PINGRESP") } else { return },
            "PUBREC" => {
                if let Some(s) = self.sq.get_mut(&k.id) { s.1 = s.1.max(1); }
                return;
            }
            "PUBCOMP" => { self.sq.remove(&k.id); return; }
            _ => return,
        };
        if v5 && !matches!(ans.k.as_str(), "PINGRESP") && self.r.p(25) { ans.p = self.r.range(1, 99); }
        if !v5 { ans.rc = if ans.k == "CONNACK" { ans.rc } else { 0 }; if ans.k == "UNSUBACK" { ans.l.clear(); } }
        if v5 && self.r.p(30) && ans.k.starts_with("PUB") { ans.l = vec![1]; }
        if st >= 0 { self.spend.push((ans, st)) } else if ans.k == "CONNACK" { self.pend.insert(0, ans) } else { self.pend.push(ans) }
    }
    fn rc(&mut self, good: &[i64], bad: &[i64]) -> i64 {
        if self.cfg.ver != 5 { return 0; }
        if self.r.p(self.p.errack) { *self.r.pick(bad) } else if !good.is_empty() && self.r.p(15) { *self.r.pick(good) } else { 0 }
    }
    /// May this acknowledgement be delivered without meaning a different exchange?
    fn fits(&self, f: &Pk) -> bool {
        let l = self.live.get(&f.id).copied().unwrap_or("");
        match f.k.as_str() {
            "PUBACK" => matches!(l, "" | "q1"),
            "PUBREC" => matches!(l, "" | "q2") || (l == "rel" && f.rc < 128),
            "PUBCOMP" => matches!(l, "" | "rel"),
            "SUBACK" => matches!(l, "" | "sub"),
            "UNSUBACK" => matches!(l, "" | "unsub"),
            _ => true,
        }
    }
    fn seen(&mut self, f: &Pk) {
        match f.k.as_str() {
            "PUBACK" | "PUBCOMP" | "SUBACK" | "UNSUBACK" => { self.live.remove(&f.id); }
            "PUBREC" if f.rc >= 128 => { self.live.remove(&f.id); }
            "PUBREC" => if let Some(l) = self.live.get_mut(&f.id) { *l = "rel" },
            _ => {}
        }
    }

    /// Feed bytes; returns what was observed.
    fn feed(&mut self, n: usize) -> Obs {
        let n = n.min(self.tail.len() - self.fed);
        let by = hex(&self.tail[self.fed..self.fed + n]);
        self.fed += n;
        let mut fs = vec![];
        while !self.ends.is_empty() && self.ends[0].0 <= self.fed { fs.push(self.ends.remove(0).1); }
        let o = self.op(if self.tls() { "sock" } else { "in" }, Args { fs: fs.clone(), by, m: n as i64, ..Default::default() });
        if o.ret == "none" { return o; }
        for f in &fs { self.seen(f); if f.k == "CONNACK" { self.greeted = f.rc == 0; } if f.k == "DISCONNECT" { self.greeted = false; } }
        o
    }
    fn queue(&mut self, f: Pk) {
        let b = wire::encode(self.cfg.ver, &f);
        self.tail.extend(b);
        let n = self.tail.len();
        // The three forms of a v5 acknowledgement are one packet to the model.
        let mut g = f;
        if g.k.starts_with("PUB") { g.l.clear(); }
        self.ends.push((n, g));
    }
    pub fn flush_in(&mut self) {
        while self.fed < self.tail.len() && !self.dead {
            let left = self.tail.len() - self.fed;
            let n = if self.r.p(self.p.chunk) { 1 + self.r.below(left) } else { left };
            self.feed(n);
            if self.r.p(25) { break; }
        }
        if self.fed == self.tail.len() && self.r.p(20) { self.feed(0); }
    }
    fn deliver(&mut self) {
        if !self.up { return; }
        let n = 1 + self.r.below(4);
        for _ in 0..n {
            if self.pend.is_empty() { break; }
            let i = if self.r.p(self.p.reorder) && self.pend[0].k != "CONNACK" { self.r.below(self.pend.len()) } else { 0 };
            let f = self.pend.remove(i);
            if self.r.p(self.p.dup) && f.k != "CONNACK" && f.k != "PINGRESP" { self.pend.push(f.clone()); }
            if self.okay(&f) { self.queue(f); }
        }
        self.flush_in();
    }
    /// `fits`, taking into account what is queued in front of it.
    fn okay(&mut self, f: &Pk) -> bool {
        if matches!(f.k.as_str(), "CONNACK" | "PUBLISH" | "PUBREL" | "PINGRESP" | "DISCONNECT" | "AUTH" | "BAD") { return true; }
        !self.ends.iter().any(|e| e.1.id == f.id && e.1.k.starts_with("PUB") != f.k.starts_with("PUB"))
            && !self.ends.iter().any(|e| e.1.id == f.id && !matches!(e.1.k.as_str(), "PUBLISH" | "PUBREL"))
            && self.fits(f)
    }
    fn server(&mut self) {
        if !self.up || !self.greeted { return; }
        let v5 = self.cfg.ver == 5;
        let n = 1 + self.r.below(self.p.burst);
        for _ in 0..n {
            match self.r.below(10) {
                0..=5 => {
                    self.mno += 1;
                    let mut f = pk("PUBLISH");
                    f.m = self.mno + if self.big() { 5000 } else { 0 };
                    f.q = self.r.range(0, 2);
                    f.r = self.r.p(20) as i64;
                    if v5 && self.r.p(30) { f.p = self.r.range(1, 99); }
                    if f.q > 0 {
                        let free: Vec<i64> = [1, 2, 3, 4, 7, 300, 65535].into_iter().filter(|i| !self.sq.contains_key(i)).collect();
                        if free.is_empty() { continue; }
                        f.id = *self.r.pick(&free);
                        if f.q == 1 && self.r.p(15) { f.d = 1; }
                        if f.q == 2 { self.sq.insert(f.id, (f.clone(), 0)); }
                    }
                    self.queue(f);
                }
                6 | 7 => {
                    // repeat an unfinished QoS 2 PUBLISH
                    let c: Vec<Pk> = self.sq.values().filter(|s| s.1 < 2).map(|s| s.0.clone()).collect();
                    if !c.is_empty() { let mut f = self.r.pick(&c).clone(); f.d = 1; self.queue(f); }
                }
                8 => {
                    let c: Vec<i64> = self.sq.iter().filter(|s| s.1 .1 >= 1).map(|s| *s.0).collect();
                    if !c.is_empty() {
                        let id = *self.r.pick(&c);
                        let fin = self.cfg.aa == 0 || self.r.p(30);
                        self.queue(Pk { id, ..pk("PUBREL") });
                        if fin { self.sq.remove(&id); } else if let Some(s) = self.sq.get_mut(&id) { s.1 = 2; }
                    }
                }
                _ => {
                    let x = self.r.below(4);
                    if self.r.p(self.p.stray * 3) {
                        let id = if self.r.p(50) { self.r.range(1, 30) } else { self.r.range(1, 65535) };
                        let f = Pk { id, ..pk(["PUBACK", "PUBREC", "PUBCOMP", "SUBACK"][x]) };
                        let f = if f.k == "SUBACK" { Pk { l: vec![1], ..f } } else { f };
                        if self.okay(&f) { self.queue(f); }
                    } else if v5 && x == 0 { self.queue(Pk { rc: 24, ..pk("AUTH") }); }
                }
            }
        }
        // make progress on QoS 2: PUBRELs the broker owes
        if self.r.p(50) {
            let c: Vec<i64> = self.sq.iter().filter(|s| s.1 .1 == 1).map(|s| *s.0).collect();
            for id in c { self.queue(Pk { id, ..pk("PUBREL") }); self.sq.get_mut(&id).unwrap().1 = 2; }
        }
        self.flush_in();
    }
    /// Now and then a message larger than the buffers of the transport
    fn big(&mut self) -> bool { let n = self.p.big as u64; self.tls() && self.r.p(n) }
    fn shake(&mut self) {
        if !self.tls() || self.shaken || self.dead { return; }
        let o = self.simple("shake");
        if o.ret != "ok" { self.dead = true; }
        self.shaken = true;
        for k in &o.out { self.broker(k, -1); }
    }
    pub fn take(&mut self) {
        if self.tls() {
            if self.r.p(85) { self.simple("tick"); }
            let o = self.simple("takesock");
            for k in &o.out { self.broker(k, -1); }
            return;
        }
        let o = self.simple("take");
        for k in &o.out { self.broker(k, -1); }
        if !self.noio() && (self.r.below(100) < 30 || self.p.stream > 50) {
            let o = self.simple("takestr");
            for s in &o.str { for k in &s.b { self.broker(k, s.st); } }
        }
    }
    fn down(&mut self) {
        self.up = false;
        self.greeted = false;
        self.broken = false;
        self.tail.clear();
        self.ends.clear();
        self.fed = 0;
        self.pend.clear();
        self.spend.clear();
    }
    pub fn lose(&mut self) {
        // stop anywhere, also inside a packet
        if self.tls() { self.dead = true; return; }
        if !self.tail.is_empty() && self.r.p(50) { let n = self.r.below(self.tail.len() - self.fed + 1); self.feed(n); }
        self.down();
        let reset = self.cfg.via == 0 && !self.noio() && self.r.p(40);
        self.simple(if reset { "reset" } else { "lost" });
        if self.r.p(self.p.sched as u64 * 10) { self.simple("sched"); }
        if reset && self.r.p(50) { self.simple("lost"); }
    }
    pub fn connect(&mut self) {
        if self.up { return; }
        self.up = true;
        // PUBREL the server had sent may be repeated, PUBLISH too
        for s in self.sq.values_mut() { if s.1 == 2 { s.1 = 1; } }
        if self.r.p(30) { self.shake(); }
        self.simple("connect");
        if self.tls() && self.r.p(50) { self.simple("tick"); }
        self.shake();
        if self.r.p(80) { self.take(); }
        if self.r.p(80) { self.deliver(); }
        if self.r.p(70) && self.fed < self.tail.len() { let n = self.tail.len(); self.feed(n); }
    }
    pub fn tick(&mut self) {
        let ka = self.cfg.ka * 1000;
        let cands = [self.nt, self.nt - 1, self.nt + 1, self.now + self.cfg.rto, self.now + self.cfg.rto - 1, self.now + ka, self.now + ka - 1,
            self.now + ka * self.cfg.mult, self.now + 500, self.now + 20, self.now + 3000, self.now + self.cfg.maxd];
        if self.tls() && self.r.p(50) { self.simple("tick"); return; }
        let t = if self.nt >= 0 && self.r.p(50) { self.nt } else { *self.r.pick(&cands) };
        self.now = t.max(self.now + 1);
        let n = 1 + self.r.below(2);
        self.op_at("tick", Args::default());
        for _ in 1..n { if self.dead { return; } self.now += 1; self.op_at("tick", Args::default()); }
    }
    pub fn step(&mut self) {
        let p = self.p.clone();
        if self.cfg.via > 0 && self.r.p(12) {
            let o = *self.r.pick(&["takeev", "takeev", "takelist", "takelist", "ver", "null"]);
            if !(p.hold && o.starts_with("take")) { self.simple(o); }
        }
        let w = [p.publ, p.sub, p.enc, p.deliver, p.srv, p.take, p.tick, p.lost, p.sdisc, p.ping, p.disc, p.sched, p.burn];
        if !self.up && self.r.p(p.prompt / 3) { self.connect(); return; }
        if self.broken && self.r.p(40) { self.lose(); return; }
        match self.r.weighted(&w) {
            0 => {
                for _ in 0..1 + self.r.below(3) {
                    let q = self.r.weighted(&p.q) as i64;
                    let pr = *self.r.pick(&p.prios);
                    self.publish("pub", q, pr, -1);
                }
            }
            1 => { let s = self.r.p(60); self.request(s, false, -1) }
            2 => {
                let st = if self.r.p(p.stream.max(30)) { 4 * self.r.range(1, 3) } else { -1 };
                match self.r.below(4) {
                    0 => { let s = self.r.p(60); self.request(s, true, st) }
                    _ => { let q = self.r.weighted(&p.q) as i64; self.publish("pubenc", q, 0, st); }
                }
            }
            3 => {
                if !self.spend.is_empty() && self.r.p(60) { self.ingest(); } else { self.deliver(); }
            }
            4 => self.server(),
            5 => self.take(),
            6 => self.tick(),
            7 => self.lose(),
            8 => {
                if self.up && self.greeted && !self.broken {
                    if self.r.p(p.badin * 20) {
                        // a malformed packet, often right behind good ones
                        let m = self.r.range(0, 3);
                        if self.r.p(50) { self.server(); }
                        self.queue(Pk { m, ..pk("BAD") });
                        self.broken = true;
                        let n = self.tail.len();
                        self.feed(n);
                        if self.r.p(50) { self.feed(0); }
                    } else if self.cfg.ver == 5 {
                        let f = Pk { rc: *self.r.pick(&[0, 4, 0x8b, 0x97]), p: if self.r.p(30) { 5 } else { 0 }, ..pk("DISCONNECT") };
                        self.queue(f);
                        self.flush_in();
                        if self.r.p(80) { self.lose(); }
                    }
                }
            }
            9 => {
                let o = ["ping", "tryping", "takeev", "auth"][self.r.below(4)];
                let a = Args { rc: 24, p: if self.rich() { self.r.range(0, 5) } else { 0 }, ..Default::default() };
                if o == "auth" { self.op(o, a); } else { self.simple(o); }
            }
            10 => {
                let o = ["disc", "trydisc"][self.r.below(2)];
                self.simple(o);
                if self.r.p(80) { self.take(); }
                if self.r.p(70) { self.lose(); }
            }
            11 => {
                match self.r.below(6) {
                    0 => { self.simple("resetrec"); }
                    _ => { self.simple("sched"); }
                }
            }
            _ => { let n = *self.r.pick(&[1, 100, 30000, 65000, 65535]); self.op("burn", Args { n, ..Default::default() }); }
        }
    }
    fn ingest(&mut self) {
        let i = if self.r.p(self.p.reorder) { self.r.below(self.spend.len()) } else { 0 };
        let (f, st) = self.spend.remove(i);
        if !self.fits(&f) || !self.okay(&f) { return; }
        self.ingest_pk(f, st);
    }
    fn ingest_pk(&mut self, f: Pk, st: i64) {
        let by = hex(&wire::encode(self.cfg.ver, &f));
        let mut g = f;
        if g.k.starts_with("PUB") { g.l.clear(); }
        let o = self.op("ingest", Args { fs: vec![g.clone()], by, st, ..Default::default() });
        self.seen(&g);
        for k in &o.out { self.broker(k, st); }
    }
    pub fn run(mut self, fam: &str) -> Scenario {
        for _ in 0..self.p.preload {
            if self.ops.is_empty() && self.cfg.via < 3 && self.r.p(90) { self.up = true; self.simple("connect"); }
            let q = self.r.weighted(&self.p.q.clone()) as i64;
            let pr = *self.r.pick(&self.p.prios.clone());
            self.publish("pub", q, pr, -1);
        }
        if self.r.p(85) { self.connect(); }
        let n = self.ops.len() + self.p.ops;
        while self.ops.len() < n && !self.dead { self.step(); }
        // Drain: a quiet end in which everything still owed can complete.
        for _ in 0..4 {
            if self.dead { break; }
            self.take();
            self.deliver();
        }
        if self.cfg.via > 0 { self.simple("takeev"); }
        Scenario { fam: fam.into(), now: 1000, cfg: self.cfg, ops: self.ops }
    }
}

/// What a client of the foreign-language interface can choose
#[cfg(feature = "ffi")]
pub fn cfg_via(r: &mut Rng, via: i64) -> Cfg {
    let alpn = r.range(1, 2);
    let vfy = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4]);
    let tlsv = *r.pick(&[13, 13, 12]);
    if via == 3 {
        let mut c = cfg_base(r);
        (c.via, c.alpn, c.vfy, c.tlsv) = (3, alpn, vfy, tlsv);
        return c;
    }
    let mut c = Cfg::basic(*r.pick(&[5, 5, 4, 4, 3]));
    (c.via, c.alpn, c.vfy, c.tlsv, c.rm) = (via, alpn, vfy, tlsv, 65535);
    c.cm = r.range(1, 9);
    c.ctor = match via { 5 => r.range(1, 2), 4 => 0, _ => *r.pick(&[0, 0, 0, 1, 2]) };
    if c.ctor > 0 {
        c.ka = 60;
        if via == 5 { c.maxd = 30000; }
        if c.ctor == 2 { c.cm = -99; }
        return c.with_connect(true, -1, -1, -1, -1, -1, [-1; 4], 0);
    }
    c.ka = *r.pick(&[0, 1, 2, 5, 60, 300]);
    c.base = *r.pick(&[1, 100, 1000]);
    c.maxd = *r.pick(&[400, 5000, 60000]);
    c.maxatt = *r.pick(&[0, 0, 3]);
    let user = if r.p(50) { r.range(0, 99) } else { -1 };
    let pw = if (c.ver == 5 || user >= 0) && r.p(60) { r.range(0, 99) } else { -1 };
    let clean = r.p(40);
    c.with_connect(clean, user, pw, -1, -1, -1, [-1; 4], 0)
}

pub fn family(fam: &str, r: &mut Rng) -> Scenario {
    let mut c = cfg_base(r);
    let mut p = Prof::default();
    match fam {
        #[cfg(feature = "ffi")]
        "ffi" | "hold" | "tls3" | "tlsffi" | "tlsbig" => {
            p.ops = if fam == "tlsbig" { 30 } else { 60 };
            match r.below(6) {
                0 => { p.lost = 10; p.sdisc = 6; p.refuse = 20; p.resume = 80; }
                1 => { p.srv = 35; p.publ = 8; }
                2 => { p.tick = 30; p.srv = 3; p.deliver = 12; }
                3 => { p.sub = 25; }
                4 => { p.srv = 1; p.reorder = 70; p.publ = 35; p.prios = vec![0, 1, 128, 200, 255, 7]; }
                _ => {}
            }
            if fam == "hold" { p.hold = true; p.burst = 150; p.srv = 60; p.lost = 1; }
            let via = match fam { "hold" => *r.pick(&[1, 2, 4, 5]), "ffi" => r.range(1, 2), "tlsffi" => r.range(4, 5), _ => 3 };
            c = cfg_via(r, via);
            if fam == "tlsbig" { p.big = 60; p.publ = 35; p.srv = 20; }
        }
        "ids" => { p.burn = 3; p.lost = 5; p.sub = 10; c.maxout = 1000; p.enc = 5; }
        "out" => { p.srv = 2; p.q = [1, 4, 6]; c.rm = *r.pick(&[0, 5, 20]); c.maxout = *r.pick(&[1000, 1000, 4]); p.tick = 3; }
        "in" => { p.srv = 40; p.publ = 6; p.sub = 2; p.lost = 5; }
        "window" => { p.srv = 1; p.sub = 4; p.q = [1, 4, 4]; c.rm = *r.pick(&[1, 2, 3]); p.reorder = 70; p.lost = 4; c.maxout = *r.pick(&[1000, 1000, 5]); p.enc = 5; }
        "queue" => {
            p.srv = 1; p.sub = 1; p.badpub = 6; p.prios = vec![0, 1, 128, 200, 255, 7]; p.publ = 30; p.preload = *r.pick(&[0, 5, 20, 40]);
            c.rm = *r.pick(&[0, 1, 2, 3]); c.maxout = *r.pick(&[1000, 1, 2, 5]);
        }
        "evict" => {
            p.prios = match r.below(3) { 0 => vec![0, 1, 128, 200, 255, 7], 1 => vec![5], _ => vec![9, 8] };
            p.preload = 1000 + r.below(40); p.ops = 20; p.badpub = 0; c.rm = *r.pick(&[0, 20]); c.maxout = *r.pick(&[1000, 5]);
            c.maxev = 1000;
        }
        "resume" => { p.lost = 9; p.resume = 85; p.srv = 3; p.sub = 8; p.errack = 8; p.prompt = 95; p.refuse = 4; p.enc = 5; c.maxout = *r.pick(&[1000, 1000, 3]); c = connect_opts(r, c); }
        "rexmit" => {
            c.ver = *r.pick(&[4, 4, 3, 5]); c = c.clone().with_connect(r.p(50), -1, -1, -1, -1, -1, [-1; 4], 0);
            c.rto = *r.pick(&[0, 1, 500, 1000, 2500]); p.tick = 30; p.srv = 1; p.enc = 12; p.stream = 60; p.sub = 6; p.lost = 4; p.deliver = 15;
            c.ka = *r.pick(&[0, 0, 5]);
            let cl = c.cl.clone(); c.cl = cl; c.cl[2] = c.ka;
        }
        "backoff" => {
            p.ops = 70; p.sched = 30; p.tick = 30; p.lost = 14; p.refuse = 45; p.publ = 3; p.srv = 1; p.sub = 1; p.enc = 1; p.prompt = 40;
            c.base = *r.pick(&[0, 1, 100, 250, 1000, 7]); c.maxd = *r.pick(&[100, 400, 3000, 60000, 2000000]); c.maxatt = *r.pick(&[0, 0, 1, 2, 5, 14]);
            c.ka = *r.pick(&[0, 1]); c.cl[2] = c.ka;
        }
        "alive" => {
            c.ka = *r.pick(&[0, 1, 1, 2, 5, 60]); c.cl[2] = c.ka; c.mult = *r.pick(&[1, 2, 3]); p.tick = 45; p.ping = 6; p.publ = 8; p.srv = 6; p.deliver = 18;
            p.lost = 4; p.sched = 2; c.rto = *r.pick(&[700, 5000, 100000]); c.maxout = *r.pick(&[1000, 1000, 2]);
        }
        "timer" => { c.ka = *r.pick(&[0, 1, 2, 5]); c.cl[2] = c.ka; p.tick = 40; p.sched = 4; p.lost = 5; p.ping = 4; c.rto = *r.pick(&[0, 1, 700, 1000, 5000]); p.enc = 6; }
        "limits" => { c.maxout = *r.pick(&[1, 1, 2, 3, 6, 0]); c.maxev = *r.pick(&[1, 2, 3, 5]); p.srv = 18; p.sub = 8; p.ping = 5; p.disc = 3; p.take = 9; p.reorder = 50; }
        "life" => { p.lost = 12; p.sdisc = 8; p.disc = 5; p.refuse = 15; p.badin = 3; p.chunk = 60; p.publ = 12; c = connect_opts(r, c); }
        "subs" => { p.sub = 35; p.publ = 12; p.srv = 2; p.lost = 4; p.resume = 80; p.enc = 8; c.rm = *r.pick(&[1, 2, 20]); }
        _ => {}
    }
    if c.via == 0 && !matches!(fam, "backoff" | "ids" | "qmix") && r.p(12) {
        // the same through NoIoMqttClient, which offers less
        c.ctor = NOIO;
        (p.enc, p.burn, p.sched) = (0, 0, 0);
    }
    let g = Gen::new(r, p, c);
    g.run(fam)
}
