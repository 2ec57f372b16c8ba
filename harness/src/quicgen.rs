//! Seeded scenarios over QUIC: several streams in both directions, closes of every kind,
//! reconnections, early data, slow readers and disturbed datagrams.
use crate::eng::*;
use crate::engen::Scenario;
use crate::rng::Rng;
use crate::wire::{self, pk, Pk};
use std::collections::BTreeMap;

#[derive(Clone, Default, Debug)]
struct S {
    used: bool,
    ours: bool,
    cfin: bool,
    crst: bool,
    cstop: bool,
    sfin: bool,
    srst: bool,
    sstop: bool,
    stall: bool,
    blocked: bool,
    bad: bool,
    tail: Vec<u8>,
    ends: Vec<(usize, Pk)>,
}
#[derive(Clone)]
pub struct Prof {
    ops: usize,
    publ: u32,
    sub: u32,
    open: u32,
    run: u32,
    tick: u32,
    answer: u32,
    srv: u32,
    half: u32,
    shalf: u32,
    lose: u32,
    misc: u32,
    raw: u32,
    stall: u32,
    time: u32,
    burst: usize,
    badpub: u64,
    badin: u64,
    errack: u64,
    refuse: u64,
    resume: u64,
    wrong: u64,
    chunk: u64,
    on: u64,
    big: u64,
    zero: u64,
    early: usize,
    reject: u64,
    graceful: u64,
}
impl Default for Prof {
    fn default() -> Prof {
        Prof {
            ops: 70, publ: 20, sub: 8, open: 6, run: 25, tick: 6, answer: 22, srv: 12, half: 2, shalf: 2, lose: 2, misc: 3, raw: 2, stall: 0, time: 8,
            burst: 3, badpub: 2, badin: 1, errack: 12, refuse: 6, resume: 60, wrong: 8, chunk: 35, on: 50, big: 0, zero: 0, early: 6, reject: 40, graceful: 40,
        }
    }
}
struct Gen<'a> {
    r: &'a mut Rng,
    p: Prof,
    x: Exec,
    cfg: Cfg,
    now: i64,
    lastrun: i64,
    times: Vec<i64>,
    ops: Vec<Line>,
    conn: bool,
    ctl: i64,
    mno: i64,
    up: bool,
    known: bool,
    st: BTreeMap<i64, S>,
    pend: Vec<(i64, Pk)>,
    live: BTreeMap<i64, &'static str>,
    sq: BTreeMap<i64, (Pk, u8, i64)>,
    batch: Vec<i64>,
    unrun: Vec<i64>,
    session: bool,
    greeted: bool,
    dead: bool,
    small: bool,
}
impl Gen<'_> {
    fn op(&mut self, op: &str, a: Args) -> Obs {
        self.now += 1;
        self.op_at(op, a)
    }
    fn simple(&mut self, op: &str) -> Obs { self.op(op, Args::default()) }
    fn op_at(&mut self, op: &str, mut a: Args) -> Obs {
        if self.dead { return Obs { ret: "none".into(), ..Default::default() }; }
        let o = self.x.run(&Op { op: op.into(), now: self.now, a: a.clone(), c: None });
        if o.ret == "none" { return o; }
        if a.by.len() > 200 { a.by = "..".into(); }
        match op {
            "run" => self.unrun.clear(),
            "srv" | "sfin" => self.unrun.push(a.st),
            "sopen" => self.unrun.push(o.id),
            _ => {}
        }
        self.ops.push(Line { op: op.into(), now: self.now, a, c: None, o: o.clone() });
        if o.ret == "panic" || o.ret == "noend" { self.dead = true; return o; }
        self.conn = o.conn == 1;
        let q = o.q.as_ref().unwrap();
        self.now = self.now.max(q.t);
        self.ctl = q.ctl;
        self.times.push(self.now);
        o
    }
    fn stream(&mut self, st: i64) -> &mut S { self.st.entry(st).or_default() }

    fn run(&mut self, clean: bool) {
        self.lastrun = self.now + 1;
        let o = self.op("run", Args { n: clean as i64, ..Default::default() });
        self.after(&o);
    }
    fn after(&mut self, o: &Obs) {
        let waits: Vec<i64> = self.st.values().flat_map(|s| s.ends.iter().map(|e| e.1.id)).collect();
        self.batch.retain(|b| waits.contains(&(b % 100000)));
        let Some(q) = &o.q else { return };
        for s in &q.seen {
            self.stream(s.st).used = true;
            for k in &s.b { self.broker(s.st, k); }
        }
        for e in &o.evs {
            match e.k.as_str() {
                "TransportClosed" => { self.down(); }
                "MessageReceived" if self.cfg.aa == 0 && e.q > 0 => {}
                _ => {}
            }
        }
        if self.cfg.aa == 0 {
            // acknowledge by hand
            let mut st = -1;
            for e in o.evs.clone() {
                match e.k.as_str() {
                    "PublishReceived" => st = e.x,
                    "MessageReceived" if e.q > 0 && st >= 0 && self.r.p(85) => {
                        self.op("ackon", Args { st, fs: vec![Pk { id: e.id, ..pk(if e.q == 1 { "PUBACK" } else { "PUBREC" }) }], ..Default::default() });
                    }
                    "PubRelReceived" if e.x >= 0 && self.r.p(85) => { self.op("ackon", Args { st: e.x, fs: vec![Pk { id: e.id, ..pk("PUBCOMP") }], ..Default::default() }); }
                    _ => {}
                }
            }
        }
    }
    /// The connection and its streams are gone.
    fn down(&mut self) {
        self.up = false;
        self.greeted = false;
        self.st.clear();
        self.pend.clear();
        self.batch.clear();
        for s in self.sq.values_mut() { if s.1 == 2 { s.1 = 1; } s.2 = 0; }
    }
    fn broker(&mut self, st: i64, k: &Pk) {
        let v5 = self.cfg.ver == 5;
        let mut ans = match k.k.as_str() {
            "CONNECT" => {
                let mut a = pk("CONNACK");
                if self.r.p(self.p.refuse) { a.rc = if v5 { 0x87 } else { 5 } } else {
                    a.d = (self.session && self.r.p(self.p.resume)) as i64;
                    if v5 && self.r.p(25) { a.q = *self.r.pick(&[1, 2, 3, 65535]); }
                    if a.d == 0 { self.sq.clear(); }
                    self.session = true;
                }
                a
            }
            "PUBLISH" if k.q == 1 => Pk { id: k.id, rc: self.rc(&[0x80, 0x97]), ..pk("PUBACK") },
            "PUBLISH" if k.q == 2 => Pk { id: k.id, rc: self.rc(&[0x80]), ..pk("PUBREC") },
            "PUBREL" => Pk { id: k.id, ..pk("PUBCOMP") },
            "SUBSCRIBE" => Pk { id: k.id, l: k.l.iter().map(|_| *self.r.pick(&[0, 1, 2, 128])).collect(), ..pk("SUBACK") },
            "UNSUBSCRIBE" => Pk { id: k.id, l: if v5 { k.l.iter().map(|_| *self.r.pick(&[0, 17])).collect() } else { vec![] }, ..pk("UNSUBACK") },
            "PINGREQ" => if self.r.p(85) { pk("PINGRESP") } else { return },
            "PUBREC" => { if let Some(s) = self.sq.get_mut(&k.id) { s.1 = s.1.max(1); } return }
            "PUBCOMP" => { self.sq.remove(&k.id); return }
            _ => return,
        };
        if v5 && ans.k != "PINGRESP" && self.r.p(15) { ans.p = self.r.range(1, 40); }
        let to = if ans.k != "CONNACK" && ans.k != "PINGRESP" && self.r.p(self.p.wrong) {
            let c: Vec<i64> = self.st.iter().filter(|s| s.1.used).map(|s| *s.0).collect();
            if c.is_empty() { st } else { *self.r.pick(&c) }
        } else { st };
        self.pend.push((to, ans));
    }
    fn rc(&mut self, bad: &[i64]) -> i64 { if self.cfg.ver == 5 && self.r.p(self.p.errack) { *self.r.pick(bad) } else { 0 } }
    fn fits(&self, f: &Pk) -> bool {
        let l = self.live.get(&f.id).copied().unwrap_or("");
        match f.k.as_str() {
            "PUBACK" => matches!(l, "" | "q1"),
            "PUBREC" => matches!(l, "" | "q2") || (l == "rel" && f.rc < 128),
            "PUBCOMP" => matches!(l, "" | "rel"),
            "SUBACK" => matches!(l, "" | "sub"),
            "UNSUBACK" => matches!(l, "" | "unsub"),
            _ => true,
        }
    }
    fn heard(&mut self, f: &Pk) {
        match f.k.as_str() {
            "PUBACK" | "PUBCOMP" | "SUBACK" | "UNSUBACK" => { self.live.remove(&f.id); }
            "PUBREC" if f.rc >= 128 => { self.live.remove(&f.id); }
            "PUBREC" => if let Some(l) = self.live.get_mut(&f.id) { *l = "rel" },
            _ => {}
        }
    }
    fn queue(&mut self, st: i64, f: Pk) {
        let b = wire::encode(self.cfg.ver, &f);
        let s = self.stream(st);
        s.tail.extend(b);
        let n = s.tail.len();
        s.ends.push((n, f));
    }
    /// Bytes of the stream's tail leave the server.
    fn write(&mut self, st: i64, all: bool) {
        let chunk = !all && self.r.p(self.p.chunk) && (st != self.ctl || self.cfg.ka == 0);
        let k = self.r.next() as usize;
        let s = self.stream(st);
        if s.tail.is_empty() { return; }
        let n = if chunk { 1 + k % s.tail.len() } else { s.tail.len() };
        let by: Vec<u8> = s.tail.drain(..n).collect();
        let mut fs = vec![];
        for e in s.ends.iter_mut() { if e.0 <= n { fs.push(e.1.clone()) } }
        s.ends.retain(|e| e.0 > n);
        for e in s.ends.iter_mut() { e.0 -= n; }
        s.blocked |= s.stall;
        let ghost = s.cstop || s.bad;
        let o = self.op("srv", Args { st, by: hex(&by), fs: fs.clone(), m: n as i64, ..Default::default() });
        if o.ret != "ok" { let s = self.stream(st); s.sfin = true; s.tail.clear(); s.ends.clear(); return; }
        if !ghost { for f in &fs { self.heard(f); } }
    }
    fn open_for_server(&self, st: i64) -> bool { self.st.get(&st).is_some_and(|s| s.used && !s.sfin && !s.srst) }
    fn answer(&mut self) {
        for _ in 0..1 + self.r.below(4) {
            if self.pend.is_empty() { break; }
            let i = if self.r.p(50) { self.r.below(self.pend.len()) } else { 0 };
            let (st, f) = self.pend.remove(i);
            if !self.open_for_server(st) { continue; }
            if f.k == "CONNACK" {
                self.flush();
                self.run(true);
                let ok = f.rc == 0;
                self.queue(st, f);
                self.flush();
                self.run(true);
                self.greeted = ok;
                continue;
            }
            if f.id > 0 && self.batch.contains(&f.id) { self.flush(); self.run(true); }
            if !self.fits(&f) { continue; }
            let wrong = f.id > 0;
            if wrong { self.batch.push(f.id); }
            self.queue(st, f);
            if self.r.p(60) { self.write(st, false); }
        }
        if self.r.p(50) { self.flush(); }
    }
    fn flush(&mut self) {
        let ids: Vec<i64> = self.st.iter().filter(|s| !s.1.tail.is_empty()).map(|s| *s.0).collect();
        for i in ids { self.write(i, true); }
    }
    fn message(&mut self) -> Option<Pk> {
        self.next_m();
        let mut f = pk("PUBLISH");
        f.m = self.mno + if self.r.p(self.p.big) { 5000 } else { 0 };
        f.q = self.r.range(0, 2);
        f.r = self.r.p(20) as i64;
        if self.cfg.ver == 5 && self.r.p(20) { f.p = self.r.range(1, 40); }
        if f.q > 0 {
            let free: Vec<i64> = [1, 2, 3, 4, 7, 300, 65535].into_iter().filter(|i| !self.sq.contains_key(i)).collect();
            if free.is_empty() { return None; }
            f.id = *self.r.pick(&free);
        }
        Some(f)
    }
    fn server(&mut self) {
        if !self.up || !self.greeted { return; }
        let c: Vec<i64> = self.st.keys().copied().filter(|s| self.open_for_server(*s)).collect();
        for _ in 0..1 + self.r.below(self.p.burst) {
            if self.r.p(12) {
                // a stream of the server's
                let Some(f) = self.message() else { continue };
                let st = -1;
                let o = self.op("sopen", Args { st, by: hex(&wire::encode(self.cfg.ver, &f)), fs: vec![f.clone()], ..Default::default() });
                if o.ret == "ok" {
                    let st = o.id;
                    *self.stream(st) = S { used: true, ours: false, ..Default::default() };
                    if f.q == 2 { self.sq.insert(f.id, (f, 0, st)); }
                }
                continue;
            }
            if c.is_empty() { return; }
            let st = *self.r.pick(&c);
            match self.r.below(10) {
                0..=6 => {
                    let Some(f) = self.message() else { continue };
                    if f.q == 2 { self.sq.insert(f.id, (f.clone(), 0, st)); }
                    if f.q == 1 && self.batch.contains(&(f.id + 100000)) { continue; }
                    if f.q == 1 { self.batch.push(f.id + 100000); }
                    self.queue(st, f);
                }
                7 => {
                    let c: Vec<(Pk, i64)> = self.sq.values().filter(|s| s.1 < 2 && s.2 > 0).map(|s| (s.0.clone(), s.2)).collect();
                    if !c.is_empty() { let (mut f, st) = self.r.pick(&c).clone(); f.d = 1; if self.open_for_server(st) { self.queue(st, f); } }
                }
                _ => {
                    let c: Vec<i64> = self.sq.iter().filter(|s| s.1 .1 >= 1 && !self.batch.contains(&(s.0 + 200000))).map(|s| *s.0).collect();
                    if !c.is_empty() {
                        let id = *self.r.pick(&c);
                        let home = self.sq[&id].2;
                        let st = if self.open_for_server(home) { home } else { st };
                        if st != home { self.flush(); self.run(false); if !self.open_for_server(st) || !self.sq.contains_key(&id) { continue; } }
                        self.batch.push(id + 200000);
                        self.queue(st, Pk { id, ..pk("PUBREL") });
                        if let Some(s) = self.sq.get_mut(&id) { s.1 = 2; }
                        if self.cfg.aa == 0 { self.sq.remove(&id); }
                        // the identifier may be used again only after a run
                        self.flush();
                        self.run(false);
                    }
                }
            }
            if self.r.p(60) { self.write(st, false); }
        }
        if self.r.p(self.p.badin * 10) && !c.is_empty() {
            let st = *self.r.pick(&c);
            if !self.stream(st).bad {
                self.flush();
                let m = self.r.range(0, 3);
                self.queue(st, Pk { m, ..pk("BAD") });
                self.write(st, true);
                self.stream(st).bad = true;
                self.run(false);
            }
        }
    }
    fn next_m(&mut self) {
        self.mno += 1;
        while self.small && matches!(self.mno % 11, 3 | 7 | 9) { self.mno += 1; }
    }
    fn ours(&mut self) -> i64 {
        let c: Vec<i64> = self.st.iter().map(|s| *s.0).filter(|s| *s != self.ctl).collect();
        if c.is_empty() || self.r.p(3) { *self.r.pick(&[4, 8, 60, 1]) } else { *self.r.pick(&c) }
    }
    fn publish(&mut self) {
        self.next_m();
        let q = *self.r.pick(&[0, 1, 1, 2, 2]);
        let on = self.r.p(self.p.on);
        let rich = self.cfg.via == 10;
        let mut a = Args { m: self.mno, q, r: (rich && self.r.p(20)) as i64, p: if rich && self.r.p(20) { self.r.range(1, 40) } else { 0 }, bad: self.r.p(self.p.badpub) as i64, st: -1, ..Default::default() };
        if !rich { a.pr = 128; }
        if self.r.p(self.p.big) { a.m += 5000; }
        if on { a.st = if self.r.p(3) { self.ctl.max(0) } else { self.ours() }; }
        let o = self.op(if on { "pubon" } else { "pub" }, a);
        if o.ret == "ok" && q > 0 { self.live.insert(o.id, if q == 1 { "q1" } else { "q2" }); }
        self.discover(&o);
    }
    /// Streams opened on first use
    fn discover(&mut self, _o: &Obs) {}
    fn request(&mut self) {
        let sub = self.r.p(60);
        let on = self.r.p(self.p.on);
        let rich = self.cfg.via == 10;
        let n = if rich { self.r.range(1, 2) } else { 1 };
        let l = (0..n).map(|_| { let f = self.r.range(0, 30); if sub { f * 64 + self.r.range(0, 2) } else { f } }).collect();
        let st = if on { self.ours() } else { -1 };
        let a = Args { l, p: if rich && self.r.p(20) { self.r.range(1, 40) } else { 0 }, st, bad: self.r.p(self.p.badpub) as i64, ..Default::default() };
        let op = match (sub, on) { (true, true) => "subon", (true, false) => "sub", (false, true) => "unsubon", _ => "unsub" };
        let o = self.op(op, a);
        if o.ret == "ok" { self.live.insert(o.id, if sub { "sub" } else { "unsub" }); }
    }
    fn open(&mut self) {
        let o = self.simple("open");
        if o.ret == "ok" { *self.stream(o.id) = S { ours: true, ..Default::default() }; }
    }
    fn settle(&mut self) { self.flush(); self.run(true); }
    /// Half-closes by the client
    fn half(&mut self) {
        let st = if self.r.p(15) { self.ctl } else { self.ours() };
        if st < 0 { return; }
        let s = self.st.get(&st).cloned().unwrap_or_default();
        match self.r.below(5) {
            0..=2 => {
                if s.stall { self.unstall(); self.run(true); }
                if st == self.ctl { self.flush(); }
                if self.unrun.contains(&st) { self.run(true); }
                if self.r.p(50) { match self.r.below(4) { 0 => { self.simple("ping"); } 1 => self.request(), _ => self.publish() } }
                self.op("fin", Args { st, ..Default::default() });
                self.stream(st).cfin = true;
                self.run(true);
                if st == self.ctl && self.r.p(80) { self.run(true); self.lose(); }
            }
            3 => {
                if (s.cfin || s.crst) && self.r.p(85) { return; }
                if s.cfin { self.run(true); }
                self.flush();
                if self.r.p(60) || st == self.ctl { self.run(true); }
                let rc = self.code();
                self.op("rst", Args { st, rc, ..Default::default() });
                self.stream(st).crst = true;
                self.run(true);
            }
            _ => {
                if s.sfin || s.srst || s.cstop || s.blocked { return; }
                self.settle();
                let rc = self.code();
                let o = self.op("stop", Args { st, rc, ..Default::default() });
                if o.ret == "ok" { self.stream(st).cstop = true; }
                self.run(true);
            }
        }
    }
    fn code(&mut self) -> i64 { *self.r.pick(&[0, 1, 7, 0x0a, 300, 70000]) }
    /// Half-closes by the server
    fn shalf(&mut self) {
        let c: Vec<i64> = self.st.keys().copied().filter(|s| self.open_for_server(*s)).collect();
        if c.is_empty() { return; }
        let st = *self.r.pick(&c);
        if st == self.ctl && self.r.p(70) { return; }
        let s = self.st[&st].clone();
        match self.r.below(5) {
            0..=2 => {
                if self.r.p(70) { self.write(st, true); }
                if st == self.ctl && self.r.p(40) { self.run(true); }
                self.op("sfin", Args { st, ..Default::default() });
                let s = self.stream(st);
                s.sfin = true;
                s.tail.clear();
                s.ends.clear();
                if st == self.ctl { self.run(false); }
            }
            3 => {
                if s.stall || s.cstop { return; }
                self.settle();
                let rc = self.code();
                self.op("srst", Args { st, rc, ..Default::default() });
                self.stream(st).srst = true;
                self.run(true);
            }
            _ => {
                if s.cfin || s.crst || s.stall || s.sstop { return; }
                self.settle();
                let rc = self.code();
                let o = self.op("sstop", Args { st, rc, ..Default::default() });
                if o.ret == "ok" { self.stream(st).sstop = true; }
                self.run(true);
            }
        }
    }
    fn takeev(&mut self) { let list = self.cfg.via == 7 && self.r.p(50); self.simple(if list { "takelist" } else { "takeev" }); }
    fn lose(&mut self) {
        let rc = self.code();
        let a = Args { rc, ..Default::default() };
        if self.cfg.via < 10 {
            match self.r.below(4) {
                0 | 1 => { self.settle(); self.run(true); self.op("sclose", a); self.run(true); }
                2 => { self.flush(); self.simple("disc"); self.run(true); }
                _ => {}
            }
            self.down();
            if self.r.p(30) { self.takeev(); }
            if self.r.p(15) { self.simple("tick"); }
            return;
        }
        if self.r.p(self.p.graceful) {
            if self.p.big > 0 { self.settle(); }
            if self.st.values().any(|s| s.stall && s.blocked) { self.unstall(); self.run(true); }
            if !self.unrun.is_empty() { self.run(true); }
            self.op("dclose", a);
            if self.r.p(30) { let q = self.r.below(3); if q == 0 { self.publish() } else if q == 1 { self.op("takeev", Args::default()); } else { self.request() } }
            self.run(true);
            if self.st.values().any(|s| s.stall) { self.unstall(); self.run(true); }
        } else {
            match self.r.below(6) {
                0 => {
                    // a CONNECTION_CLOSE waits for the congestion window when data is still to be sent again
                    if self.cfg.loss > 0 { self.run(true); }
                    self.op("close", a);
                    self.lastrun = self.now - 59990; if self.cfg.loss > 0 || self.r.p(70) { self.run(true); }
                }
                1 => { self.simple("csil"); }
                2 | 3 => { self.settle(); self.unstall(); self.run(true); self.op("sclose", a); self.run(true); }
                4 => { self.flush(); self.simple("disc"); self.run(true); if self.r.p(50) { self.simple("csil"); } }
                _ => return,
            }
        }
        self.down();
        if self.r.p(30) { self.simple("takeev"); }
        if self.r.p(15) { self.simple("tick"); }
    }
    fn unstall(&mut self) {
        let ids: Vec<i64> = self.st.iter().filter(|s| s.1.stall).map(|s| *s.0).collect();
        for st in ids { self.op("stall", Args { st, n: 0, ..Default::default() }); let s = self.stream(st); s.stall = false; s.blocked = false; }
    }
    fn connect(&mut self) {
        self.down();
        let zero = self.r.p(self.p.zero);
        if zero && self.known && self.r.p(self.p.reject) { self.simple("reject"); }
        if zero && self.r.p(4) { self.simple("clear"); }
        if self.known && self.cfg.via == 10 && self.r.p(65) { self.simple("qre"); } else {
            let n = if zero { self.r.range(1, 2) } else { 0 };
            let r = (zero && self.r.p(5)) as i64;
            self.op("qconn", Args { n, r, ..Default::default() });
        }
        self.up = true;
        self.known = true;
        if self.r.p(15) { self.takeev(); }
        let early = self.ctl >= 0;
        if early || self.r.p(20) {
            for _ in 0..self.r.below(self.p.early + 1) {
                match self.r.below(9) {
                    0..=3 => self.publish(),
                    4 => self.request(),
                    5 => if self.cfg.via == 10 { self.open() },
                    6 => { self.simple("tick"); }
                    7 | 8 if self.cfg.via < 10 => self.takeev(),
                    7 => if early && self.r.p(50) { self.raw() } else { self.simple("ping"); },
                    _ => if early && self.r.p(30) { let st = self.ours(); if self.st.contains_key(&st) { self.op("fin", Args { st, ..Default::default() }); self.stream(st).cfin = true; } },
                }
            }
        }
        self.run(false);
        if self.ctl < 0 { self.up = false; return; }
        if self.r.p(85) { self.answer(); self.flush(); self.run(false); }
    }
    fn raw(&mut self) {
        let st = if self.r.p(40) { self.ctl } else { self.ours() };
        if st < 0 { return; }
        self.next_m();
        let f = Pk { m: self.mno, q: 0, ..pk("PUBLISH") };
        let by = hex(&wire::encode(self.cfg.ver, &f));
        self.op("raw", Args { st, by, fs: vec![f], ..Default::default() });
    }
    fn time(&mut self) {
        let (ka, rto, mult) = (self.cfg.ka * 1000, self.cfg.rto, self.cfg.mult);
        let d = [rto, rto, rto - 1, ka, ka - 1, ka * mult, ka * mult - 1, 20, 500, 3000];
        let n = self.times.len();
        let base = if n > 0 { self.times[n - 1 - self.r.below(n.min(8))] } else { self.now };
        let t = (base + *self.r.pick(&d)).min(self.lastrun + 60000).max(self.now + 1);
        self.now = t - 1;
        if self.r.p(80) { self.run(false); } else { self.simple("tick"); }
    }
    fn step(&mut self) {
        if !self.up && self.r.p(55) { self.connect(); return; }
        if self.up && !self.conn && self.greeted && self.r.p(50) { self.lose(); return; }
        let p = self.p.clone();
        let w = [p.publ, p.sub, p.open, p.run, p.tick, p.answer, p.srv, p.half, p.shalf, p.lose, p.misc, p.raw, p.stall, p.time];
        match self.r.weighted(&w) {
            0 => for _ in 0..1 + self.r.below(3) { self.publish() },
            1 => self.request(),
            2 => self.open(),
            3 => self.run(false),
            4 => { self.simple("tick"); }
            5 => self.answer(),
            6 => self.server(),
            7 => self.half(),
            8 => self.shalf(),
            9 => self.lose(),
            10 if self.cfg.via < 10 => match self.r.below(5) {
                0 if self.cfg.via == 7 => { self.simple("null"); }
                _ => self.takeev(),
            },
            10 => match self.r.below(6) {
                0 => { self.simple("ping"); }
                1 => { self.simple("qping"); }
                2 => { self.simple("takeev"); }
                3 => if self.up { self.simple("rebind"); self.run(true); },
                4 => { self.simple("ping"); }
                _ => if self.cfg.ver == 5 && self.greeted && self.open_for_server(self.ctl) && self.r.p(30) {
                    let c = self.ctl;
                    self.settle();
                    let rc = *self.r.pick(&[0, 0x8b]);
                    self.queue(c, Pk { rc, ..pk("DISCONNECT") });
                    self.settle();
                },
            },
            11 => self.raw(),
            12 => {
                if self.st.values().any(|s| s.stall) && self.r.p(45) { self.unstall(); self.run(true); } else {
                    let c: Vec<i64> = self.st.keys().copied().filter(|s| self.open_for_server(*s) && !self.st[s].cfin && !self.st[s].crst).collect();
                    if c.is_empty() { return; }
                    let st = *self.r.pick(&c);
                    self.settle();
                    let o = self.op("stall", Args { st, n: 1, ..Default::default() });
                    if o.ret == "ok" { self.stream(st).stall = true; }
                }
            }
            _ => self.time(),
        }
    }
}

pub fn family(fam: &str, r: &mut Rng) -> Scenario {
    let mut c = Cfg::basic(*r.pick(&[5, 5, 4]));
    c.via = 10;
    c.cm = r.range(1, 9);
    c.aa = r.p(85) as i64;
    c.rm = *r.pick(&[2, 5, 20, 20]);
    c.each = r.p(30) as i64;
    c.rto = 1_000_000_000;
    c.alpn = r.range(1, 2);
    c.vfy = *r.pick(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 5]);
    let mut p = Prof::default();
    let mut small = true;
    match fam {
        "qmix" => {
            c.ka = *r.pick(&[0, 1, 2, 5]);
            c.mult = *r.pick(&[1, 2, 3]);
            c.rto = *r.pick(&[500, 1000, 2500]);
            c.base = *r.pick(&[100, 1000]);
            c.each = 0;
            if c.ver != 5 { p.time = 15; }
        }
        "qfull" => { c.maxout = *r.pick(&[1, 2, 3, 6]); p.publ = 40; p.run = 12; p.tick = 3; p.on = 40; p.srv = 15; }
        "qstall" => { c.win = 1; c.maxout = *r.pick(&[1, 2, 3, 6, 100]); p.stall = 14; p.publ = 25; p.srv = 20; p.tick = 3; p.lose = 1; p.graceful = 70; p.ops = 55; }
        "qev" => { c.maxev = *r.pick(&[1, 1, 2, 4]); p.srv = 45; p.burst = 8; p.badin = 6; p.shalf = 6; p.chunk = 50; p.publ = 10; }
        "qzero" => { p.zero = 90; p.lose = 12; p.publ = 8; p.answer = 25; p.early = 9; p.ops = 60; p.half = 1; p.shalf = 1; }
        "qloss" => { small = false; c.loss = *r.pick(&[5, 15, 30, 45]); p.ops = 35; p.big = 4; p.time = 0; p.chunk = 60; p.zero = 40; }
        "qlarge" => { small = false; c.loss = 1; p.big = 40; p.ops = 30; p.time = 0; p.srv = 20; }
        "qclose" => { p.lose = 12; p.half = 12; p.shalf = 10; p.graceful = 55; p.raw = 5; p.zero = 20; }
        "qffi" => {
            let (cm, alpn) = (c.cm, c.alpn);
            let via = r.range(6, 7);
            c = crate::engen::cfg_via(r, if via == 6 { 4 } else { 5 });
            if c.cm > 0 { c.cm = cm; }
            (c.via, c.alpn, c.vfy, c.slim) = (via, alpn, *r.pick(&[0, 0, 1, 1, 1, 6, 6, 6, 6, 2, 5]), *r.pick(&[100, 100, 2, 1]));
            p.open = 0; p.half = 0; p.raw = 0; p.on = 0; p.badpub = 0; p.badin = 0; p.lose = 6; p.misc = 8; p.shalf = 7;
        }
        "qlimit" => { c.slim = r.range(1, 4); p.open = 20; p.half = 0; p.shalf = 0; p.raw = 0; }
        f => panic!("family {f}"),
    }
    if r.p(30) { let cl = c.cl.clone(); c.cl = cl; }
    let c = if c.via < 10 { c } else { let clean = r.p(40); let ka = c.ka; let mut c = c; c.ka = ka; c.with_connect(clean, -1, -1, -1, -1, -1, [-1; 4], 0) };
    crate::vclock::on();
    crate::vclock::set(1000);
    let x = Exec::new(&c);
    let n = p.ops;
    let mut g = Gen {
        r, p, x, cfg: c, now: 1000, lastrun: 1000, times: vec![], ops: vec![], conn: false, ctl: -1, mno: 0, up: false, known: false, st: BTreeMap::new(), pend: vec![],
        live: BTreeMap::new(), sq: BTreeMap::new(), batch: vec![], unrun: vec![], session: false, greeted: false, dead: false, small,
    };
    if g.r.p(90) { g.connect(); }
    let mut turns = 0;
    while g.ops.len() < n && !g.dead && turns < 10 * n { g.step(); turns += 1; }
    g.unstall();
    for _ in 0..3 { if g.dead { break } g.run(true); g.answer(); g.flush(); }
    g.run(true);
    if g.cfg.via < 10 { g.takeev(); }
    Scenario { fam: fam.into(), now: 1000, cfg: g.cfg, ops: g.ops }
}
