//! Independent minimal MQTT 3.1.1 / 5.0 codec used by the drivers: it encodes what the
//! simulated broker sends and decodes what the client sent into abstract packets.
//! It shares no code with the crate under test.
use crate::codec::Prop;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Pk {
    pub k: String,
    #[serde(default)]
    pub id: i64,
    #[serde(default)]
    pub q: i64,
    #[serde(default)]
    pub d: i64,
    #[serde(default)]
    pub m: i64,
    #[serde(default)]
    pub r: i64,
    #[serde(default)]
    pub p: i64,
    #[serde(default)]
    pub rc: i64,
    #[serde(default)]
    pub l: Vec<i64>,
}
pub fn pk(k: &str) -> Pk {
    Pk { k: k.into(), ..Default::default() }
}

/// Topic and payload of message number m (m < 0: not one of ours).
pub fn topic(m: i64) -> String {
    if m % 5 == 4 { format!("t/{}/é/{}", m, m % 3) } else { format!("t/{}", m) }
}
pub fn payload(m: i64) -> Vec<u8> {
    let n = if m >= 5000 { 30000 + (m % 5) as usize * 20000 } else { match m % 11 { 0 => 0, 1 => 1, 3 => 130, 7 => 300, 9 if m % 3 == 0 => 17000, _ => 8 + (m % 5) as usize } };
    let mut v = Vec::with_capacity(n);
    let mut x = (m as u32).wrapping_mul(2654435761).wrapping_add(12345);
    for _ in 0..n {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.push((x >> 24) as u8);
    }
    v
}
/// Message number of a (topic, payload) pair, -99 if they are not a pair made by us.
pub fn msgno(t: &[u8], pl: &[u8]) -> i64 {
    let s = match std::str::from_utf8(t) { Ok(s) => s, Err(_) => return -99 };
    let mut it = s.split('/');
    if it.next() != Some("t") { return -99; }
    let m: i64 = match it.next().and_then(|x| x.parse().ok()) { Some(m) => m, None => return -99 };
    if topic(m) == s && payload(m) == pl { m } else { -99 }
}
pub fn filter(f: i64) -> String {
    match f % 4 { 0 => format!("f/{}", f), 1 => format!("f/{}/+", f), 2 => format!("f/{}/#", f), _ => format!("$share/g/f/{}", f) }
}
pub fn filterno(s: &str) -> i64 {
    let s2 = s.strip_prefix("$share/g/").unwrap_or(s);
    let n = s2.split('/').nth(1).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-99);
    if n >= 0 && filter(n) == s { n } else { -99 }
}
fn tagged(s: &str, pre: &str) -> i64 {
    s.strip_prefix(pre).and_then(|x| x.parse().ok()).unwrap_or(-99)
}

pub fn varint(mut n: usize, out: &mut Vec<u8>) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 { out.push(b | 0x80) } else { out.push(b); break }
    }
}
fn str16(s: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}
fn frame(b0: u8, body: Vec<u8>) -> Vec<u8> {
    let mut v = vec![b0];
    varint(body.len(), &mut v);
    v.extend(body);
    v
}
/// The properties a packet of this kind carries when its tag is p: always the user property
/// ("p", p), with other properties chosen by p in front of it and behind it.
pub fn plist(k: &str, p: i64) -> Vec<Prop> {
    if p <= 0 { return vec![]; }
    let pb = |id: i64, v: &[u8]| Prop { id, v: v.iter().map(|x| *x as i64).collect(), w: vec![] };
    let up = |k: &str, v: &str| Prop { w: v.as_bytes().to_vec(), ..pb(38, k.as_bytes()) };
    let h = (p as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
    let n = (p as u32 * 2654435).to_be_bytes();
    let text = format!("x{}é", "y".repeat(p as usize * 3));
    let t = text.as_bytes();
    let body = vec![pb(1, &[0]), pb(2, &n), pb(3, t), pb(8, b"re/ply"), pb(9, &n[..(p % 5) as usize])];
    let mut all = match k {
        "CONNACK" => vec![pb(17, &n), pb(36, &[1]), pb(37, &[1]), pb(39, &[0, 1, 0, 0]), pb(18, t), pb(34, &n[..2]), pb(31, t), pb(40, &[1]), pb(41, &[1]),
            pb(42, &[1]), pb(26, b"info"), pb(28, b"other")],
        "PUB>" => body,
        "PUB<" => { let mut b = body; b.push(Prop { id: 11, v: vec![p * 3000], w: vec![] }); b.push(Prop { id: 11, v: vec![p], w: vec![] }); b }
        "WILL" => { let mut b = vec![pb(24, &n)]; b.extend(body); b }
        "SUBSCRIBE" => vec![Prop { id: 11, v: vec![p * 3000], w: vec![] }],
        "ACK" => vec![pb(31, t)],
        "DISCONNECT" => vec![pb(31, t), pb(28, b"other")],
        "AUTH" => vec![pb(21, b"M"), pb(22, &n), pb(31, t)],
        _ => vec![],
    };
    if p % 3 == 0 { all.clear(); }
    let mut i = 0;
    all.retain(|_| { i += 1; h >> i & 1 == 1 });
    if p % 3 > 0 && h >> 14 & 1 == 1 { all.push(up("a", "b")); all.push(up("a", "")); }
    let at = if k == "WILL" { all.len() } else { (h >> 20) as usize % (all.len() + 1) };
    all.insert(at, up("p", &p.to_string()));
    all
}
/// The tag of a property list, -99 if it is not one of ours. A receive maximum is left aside.
pub fn ptag(k: &str, ps: &[Prop]) -> i64 {
    let ps: Vec<Prop> = ps.iter().filter(|p| p.id != 33).cloned().collect();
    if ps.is_empty() { return 0; }
    let p = ps.iter().find(|p| p.id == 38 && p.v == [b'p' as i64]).and_then(|p| String::from_utf8(p.w.clone()).ok()).and_then(|s| s.parse().ok()).unwrap_or(-99);
    if p > 0 && plist(k, p) == ps { p } else { -99 }
}
fn props(v5: bool, k: &str, p: i64, rm: i64, out: &mut Vec<u8>) {
    if !v5 { return; }
    let mut l = plist(k, p);
    if rm > 0 {
        let at = (p % (l.len() as i64 + 1)) as usize;
        l.insert(at, Prop { id: 33, v: (rm as u16).to_be_bytes().iter().map(|x| *x as i64).collect(), w: vec![] });
    }
    let mut b = vec![];
    for p in &l {
        b.push(p.id as u8);
        let v: Vec<u8> = p.v.iter().map(|x| *x as u8).collect();
        match p.id {
            3 | 8 | 9 | 18 | 21 | 22 | 26 | 28 | 31 => str16(&v, &mut b),
            38 => { str16(&v, &mut b); str16(&p.w, &mut b); }
            11 => varint(p.v[0] as usize, &mut b),
            _ => b.extend(v),
        }
    }
    varint(b.len(), out);
    out.extend(b);
}

/// Encode a packet a server sends.
pub fn encode(ver: i64, x: &Pk) -> Vec<u8> {
    let v5 = ver == 5;
    let id = (x.id as u16).to_be_bytes();
    match x.k.as_str() {
        "CONNACK" => {
            let mut b = vec![x.d as u8, x.rc as u8];
            props(v5, "CONNACK", x.p, x.q, &mut b);
            frame(0x20, b)
        }
        "PUBLISH" => {
            let mut b = vec![];
            str16(topic(x.m).as_bytes(), &mut b);
            if x.q > 0 { b.extend_from_slice(&id); }
            props(v5, "PUB<", x.p, 0, &mut b);
            b.extend(payload(x.m));
            frame(0x30 | ((x.d as u8) << 3) | ((x.q as u8) << 1) | x.r as u8, b)
        }
        "PUBACK" | "PUBREC" | "PUBREL" | "PUBCOMP" => {
            let b0 = match x.k.as_str() { "PUBACK" => 0x40, "PUBREC" => 0x50, "PUBREL" => 0x62, _ => 0x70 };
            let mut b = id.to_vec();
            // Exercise all three v5 forms: id only, id + reason, id + reason + properties.
            if v5 && (x.rc != 0 || x.p > 0 || x.l.first() == Some(&1)) {
                b.push(x.rc as u8);
                if x.p > 0 || x.l.first() == Some(&1) { props(true, "ACK", x.p, 0, &mut b); }
            }
            frame(b0, b)
        }
        "SUBACK" => {
            let mut b = id.to_vec();
            props(v5, "ACK", x.p, 0, &mut b);
            b.extend(x.l.iter().map(|c| *c as u8));
            frame(0x90, b)
        }
        "UNSUBACK" => {
            let mut b = id.to_vec();
            props(v5, "ACK", x.p, 0, &mut b);
            if v5 { b.extend(x.l.iter().map(|c| *c as u8)); }
            frame(0xB0, b)
        }
        "PINGRESP" => vec![0xD0, 0],
        "DISCONNECT" => {
            if x.rc == 0 && x.p == 0 { vec![0xE0, 0] } else {
                let mut b = vec![x.rc as u8];
                props(v5, "DISCONNECT", x.p, 0, &mut b);
                frame(0xE0, b)
            }
        }
        "AUTH" => {
            let mut b = vec![x.rc as u8];
            props(v5, "AUTH", x.p, 0, &mut b);
            frame(0xF0, b)
        }
        // Complete frames that are malformed
        "BAD" => match x.m % 4 {
            0 => frame(0x36, { let mut b = vec![]; str16(b"t", &mut b); b.extend([0, 1]); props(v5, "ACK", 0, 0, &mut b); b }),
            1 => frame(0x30, vec![0, 9, b't']),
            2 => frame(0x40, vec![7]),
            _ => frame(0x90, vec![0]),
        },
        k => panic!("encode {k}"),
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n { return None; }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<i64> { self.take(1).map(|b| b[0] as i64) }
    fn u16(&mut self) -> Option<i64> { self.take(2).map(|b| (b[0] as i64) << 8 | b[1] as i64) }
    fn u32(&mut self) -> Option<i64> { Some(self.u16()? << 16 | self.u16()?) }
    fn str(&mut self) -> Option<&'a [u8]> { let n = self.u16()?; self.take(n as usize) }
    fn string(&mut self) -> Option<String> { String::from_utf8(self.str()?.to_vec()).ok() }
    fn vint(&mut self) -> Option<usize> {
        let (mut n, mut sh) = (0usize, 0);
        loop {
            let b = self.u8()? as usize;
            n |= (b & 127) << sh;
            if b < 128 { return Some(n); }
            sh += 7;
            if sh > 21 { return None; }
        }
    }
}

/// Frame length of the packet at the start of `b`, if complete.
pub fn frame_len(b: &[u8]) -> Option<usize> {
    let mut r = Rd(b.get(1..)?);
    let n = r.vint()?;
    let h = b.len() - r.0.len();
    (b.len() >= h + n).then_some(h + n)
}

fn rprops(r: &mut Rd) -> Option<Vec<Prop>> {
    let n = r.vint()?;
    let mut s = Rd(r.take(n)?);
    let mut l = vec![];
    while !s.0.is_empty() {
        let id = s.u8()?;
        let i = |b: &[u8]| b.iter().map(|x| *x as i64).collect::<Vec<i64>>();
        let mut w = vec![];
        let v = match id {
            1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => i(s.take(1)?),
            19 | 33 | 34 | 35 => i(s.take(2)?),
            2 | 17 | 24 | 39 => i(s.take(4)?),
            11 => vec![s.vint()? as i64],
            3 | 8 | 9 | 18 | 21 | 22 | 26 | 28 | 31 => i(s.str()?),
            38 => { let k = i(s.str()?); w = s.str()?.to_vec(); k }
            _ => return None,
        };
        l.push(Prop { id, v, w });
    }
    Some(l)
}
/// The tag of the property section
fn rtag(r: &mut Rd, k: &str) -> Option<i64> {
    let l = rprops(r)?;
    if l.iter().any(|p| p.id == 33) { return Some(-99); }
    Some(ptag(k, &l))
}

/// Decode one packet a client sends; "CORRUPT" if it is not well formed.
pub fn decode(ver: i64, f: &[u8]) -> Pk {
    dec(ver, f).unwrap_or_else(|| pk("CORRUPT"))
}
fn dec(ver: i64, f: &[u8]) -> Option<Pk> {
    let v5 = ver == 5;
    let b0 = f[0];
    let mut r = Rd(&f[1..]);
    if r.vint()? != r.0.len() { return None; }
    let mut x = Pk::default();
    let mut ex: Vec<(u8, i64)> = vec![];
    let fl = b0 & 15;
    match b0 >> 4 {
        1 => {
            x.k = "CONNECT".into();
            if fl != 0 || r.string()? != "MQTT" { return None; }
            let lvl = r.u8()?;
            let fg = r.u8()?;
            if fg & 1 != 0 { return None; }
            let ka = r.u16()?;
            if v5 {
                for p in rprops(&mut r)? { ex.push((p.id as u8, p.v.iter().fold(0, |a, b| a << 8 | b))); }
            }
            let cid = r.string()?;
            x.m = tagged(&cid, "c");
            let (mut wt, mut wp) = (-1, -1);
            if fg & 4 != 0 {
                if v5 { wp = rtag(&mut r, "WILL")?; }
                let t = r.str()?;
                let pl = r.str()?;
                wt = msgno(t, pl);
            } else if fg & 0x38 != 0 { return None; }
            if !v5 { wp = wp.max(0) } else if fg & 4 == 0 { wp = 0 }
            let user = if fg & 0x80 != 0 { tagged(&r.string()?, "u") } else { -1 };
            let pw = if fg & 0x40 != 0 { tagged(&String::from_utf8(r.str()?.to_vec()).ok()?, "w") } else { -1 };
            let g = |c: u8| ex.iter().find(|e| e.0 == c).map(|e| e.1).unwrap_or(-1);
            if ex.iter().any(|e| ![0x11, 0x27, 0x19, 0x17].contains(&e.0)) { return None; }
            let mut codes: Vec<u8> = ex.iter().map(|e| e.0).collect();
            codes.sort();
            codes.dedup();
            if codes.len() != ex.len() { return None; }
            x.l = vec![lvl, (fg >> 1) & 1, ka, user, pw, wt, if fg & 4 != 0 { (fg >> 3) & 3 } else { -1 },
                if fg & 4 != 0 { (fg >> 5) & 1 } else { -1 }, g(0x11), g(0x27), g(0x19), g(0x17), wp];
        }
        3 => {
            x.k = "PUBLISH".into();
            x.d = (fl >> 3) as i64;
            x.q = ((fl >> 1) & 3) as i64;
            x.r = (fl & 1) as i64;
            let t = r.str()?;
            if x.q > 0 { x.id = r.u16()?; if x.id == 0 { return None; } }
            if v5 { x.p = rtag(&mut r, "PUB>")?; }
            x.m = msgno(t, r.0);
            r.0 = &[];
        }
        n @ 4..=7 => {
            x.k = ["PUBACK", "PUBREC", "PUBREL", "PUBCOMP"][n as usize - 4].into();
            if fl != if n == 6 { 2 } else { 0 } { return None; }
            x.id = r.u16()?;
            if v5 && !r.0.is_empty() {
                x.rc = r.u8()?;
                if !r.0.is_empty() { x.p = rtag(&mut r, "ACK")?; }
            }
        }
        8 => {
            x.k = "SUBSCRIBE".into();
            if fl != 2 { return None; }
            x.id = r.u16()?;
            if v5 { x.p = rtag(&mut r, "SUBSCRIBE")?; }
            while !r.0.is_empty() {
                let n = filterno(&r.string()?);
                let o = r.u8()?;
                x.l.push(n * 64 + o);
            }
            if x.l.is_empty() { return None; }
        }
        10 => {
            x.k = "UNSUBSCRIBE".into();
            if fl != 2 { return None; }
            x.id = r.u16()?;
            if v5 { x.p = rtag(&mut r, "UNSUBSCRIBE")?; }
            while !r.0.is_empty() { x.l.push(filterno(&r.string()?)); }
            if x.l.is_empty() { return None; }
        }
        12 => { x.k = "PINGREQ".into(); if fl != 0 { return None; } }
        14 => {
            x.k = "DISCONNECT".into();
            if fl != 0 { return None; }
            if v5 && !r.0.is_empty() { x.rc = r.u8()?; if !r.0.is_empty() { x.p = rtag(&mut r, "DISCONNECT")?; } }
        }
        15 if v5 => {
            x.k = "AUTH".into();
            if !r.0.is_empty() { x.rc = r.u8()?; x.p = rtag(&mut r, "AUTH")?; }
        }
        _ => return None,
    }
    r.0.is_empty().then_some(x)
}

/// Decode a byte string that must consist of whole packets.
pub fn decode_all(ver: i64, mut b: &[u8]) -> Vec<Pk> {
    let mut v = vec![];
    while !b.is_empty() {
        match frame_len(b) {
            Some(n) => { v.push(decode(ver, &b[..n])); b = &b[n..]; }
            None => { v.push(pk("CORRUPT")); break }
        }
    }
    v
}
