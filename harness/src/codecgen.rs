//! Inputs for the codec: packets of every kind, byte mutations of them, small frames, strings.
use crate::codec::{Mp, Prop, Rec};
use crate::rng::Rng;
use serde_json::Value;

const CHARS: &[&str] = &["a", "b", "/", "x", "1", " ", "$", "é", "中", "😀", "\u{7f}", "\u{1}", "\u{feff}", "\u{ffff}", "\u{d7ff}", "\u{e000}", "~"];
pub fn text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) { 0..=7 => 0, 8..=33 => 1 + r.below(6), 34..=37 => 1 + r.below(30), 38 => 100 + r.below(60), _ => *r.pick(&[126, 127, 128, 129, 254, 255, 256, 257]) };
    if n > 90 { return vec![b'a' + (r.below(26) as u8); n] }
    let mut s = String::new();
    for _ in 0..n { let m = if r.p(75) { 6 } else { CHARS.len() }; s.push_str(r.pick(&CHARS[..m])) }
    s.into_bytes()
}
pub fn blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(30) { 0..=7 => 0, 8..=25 => 1 + r.below(9), 26..=28 => 100 + r.below(60), _ => *r.pick(&[127, 128, 255, 256, 300]) };
    (0..n).map(|_| r.next() as u8).collect()
}
fn topic(r: &mut Rng) -> Vec<u8> {
    if r.p(3) { return text(r) }
    r.pick(&["a", "a/b", "/", "//", "sensor/1/t", "$SYS/x", "é/中", " ", "a b"]).as_bytes().to_vec()
}
fn filter(r: &mut Rng) -> Vec<u8> {
    if r.p(3) { return text(r) }
    r.pick(&["a", "a/b", "#", "+", "a/#", "+/b", "a/+/b", "/", "/+", "$share/g/a", "$share/g/#", "$SYS/#", "é/+", "+/+/#", "//#"]).as_bytes().to_vec()
}
fn id(r: &mut Rng) -> i64 { *r.pick(&[1, 2, 255, 256, 257, 32767, 32768, 65279, 65280, 65535, 4660]) }
fn bytes(v: &[u8]) -> Vec<i64> { v.iter().map(|x| *x as i64).collect() }
fn u32b(r: &mut Rng) -> Vec<i64> { bytes(&(*r.pick(&[1u32, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX, 0x0102_0304])).to_be_bytes()) }
pub fn prop(r: &mut Rng, id: i64, odd: bool) -> Prop {
    let v = match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => vec![if odd && r.p(10) { r.below(256) as i64 } else { r.below(2) as i64 }],
        19 | 33 | 34 | 35 => bytes(&(if odd && r.p(10) { 0 } else { *r.pick(&[1u16, 2, 255, 256, 65535]) }).to_be_bytes()),
        39 if odd && r.p(10) => vec![0, 0, 0, 0],
        2 | 17 | 24 | 39 => u32b(r),
        11 => vec![if odd && r.p(10) { *r.pick(&[0, 268_435_456, 2_000_000_000]) } else { *r.pick(&[1, 2, 127, 128, 16383, 16384, 2_097_151, 2_097_152, 268_435_455]) }],
        8 => bytes(&topic(r)),
        9 | 22 => bytes(&blob(r)),
        _ => bytes(&text(r)),
    };
    Prop { id, v, w: if id == 38 { text(r) } else { vec![] } }
}
const ALL: &[i64] = &[1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42];
pub fn allowed(k: i64) -> &'static [i64] {
    match k {
        1 => &[17, 33, 39, 34, 25, 23, 38, 21, 22],
        2 => &[17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22],
        3 => &[1, 2, 3, 8, 9, 11, 35, 38],
        8 => &[11, 38],
        10 => &[38],
        14 => &[17, 31, 38, 28],
        15 => &[21, 22, 31, 38],
        _ => &[31, 38],
    }
}
fn props(r: &mut Rng, from: &[i64], odd: bool, k: i64) -> Vec<Prop> {
    let n = match r.below(10) { 0..=2 => 0, 3..=7 => 1 + r.below(3), 8 => from.len(), _ => 1 + r.below(6) };
    let mut v: Vec<Prop> = vec![];
    for _ in 0..n {
        let i = if odd && r.p(8) { *r.pick(ALL) } else { *r.pick(from) };
        if v.iter().any(|p| p.id == i) && i != 38 && !(i == 11 && k == 3) && !(odd && r.p(20)) { continue }
        v.push(prop(r, i, odd));
    }
    v
}
fn will_props(r: &mut Rng) -> Vec<Prop> {
    let mut v = vec![];
    for i in [24, 1, 2, 3, 8, 9] { if r.p(35) { v.push(prop(r, i, false)) } }
    while r.p(30) { v.push(prop(r, 38, false)) }
    v
}

/// A packet of kind `k`; with `odd`, sometimes one MQTT forbids or cannot carry.
pub fn packet(r: &mut Rng, k: i64, ver: i64, odd: bool) -> Mp {
    let v5 = ver == 5;
    let o = |r: &mut Rng, pc: u64| odd && r.p(pc);
    let mut m = Mp { k, ver, i: vec![], s: vec![], p: vec![], q: vec![] };
    if v5 && ![12, 13].contains(&k) { m.p = props(r, allowed(k), odd, k) }
    match k {
        1 => {
            let will = r.p(50);
            let user = r.p(50);
            let pw = if v5 { r.p(50) } else { user && r.p(60) };
            let v31 = !v5 && r.p(15);
            let lvl = if v5 { 5 } else if v31 { 3 } else { 4 };
            let clean = r.p(50);
            let wq = if will { if o(r, 10) { 3 } else { r.below(3) as i64 } } else { 0 };
            m.i = vec![lvl, clean as i64, *r.pick(&[0, 1, 60, 255, 256, 65535]), will as i64, wq, (will && r.p(50)) as i64, user as i64, pw as i64];
            m.s = vec![if v31 { b"MQIsdp".to_vec() } else { b"MQTT".to_vec() }, if r.p(25) { vec![] } else { text(r) }];
            if !clean && !v5 && m.s[1].is_empty() && !odd { m.s[1] = b"c".to_vec() }
            if will { let t = if o(r, 10) { filter(r) } else { topic(r) }; m.s.push(t); m.s.push(blob(r)); if v5 { m.q = will_props(r) } }
            if user { m.s.push(text(r)) }
            if pw { m.s.push(blob(r)) }
            if o(r, 5) { m.i[0] = *r.pick(&[0, 3, 4, 5, 6, 255]) }
            if o(r, 5) { m.s[0] = text(r) }
        }
        2 => {
            let sp = r.p(40);
            let code = if sp && !odd { 0 } else if v5 { *r.pick(&[0, 0, 128, 129, 133, 135, 149, 151, 159]) } else { r.below(6) as i64 };
            m.i = vec![sp as i64, if o(r, 10) { r.below(256) as i64 } else { code }];
        }
        3 => {
            let qos = if o(r, 5) { 3 } else { r.below(3) as i64 };
            let dup = qos > 0 && r.p(40) || o(r, 5);
            m.i = vec![dup as i64, qos, r.below(2) as i64, if qos == 0 { 0 } else if o(r, 5) { *r.pick(&[0, -1]) } else { id(r) }];
            m.s = vec![if o(r, 8) { filter(r) } else { topic(r) }, blob(r)];
            if v5 && m.p.iter().any(|p| p.id == 35) && r.p(60) { m.s[0] = vec![] }
        }
        4..=7 => {
            let code = if !v5 { 0 } else if o(r, 10) { r.below(256) as i64 } else if k < 6 { *r.pick(&[0, 0, 16, 128, 131, 135, 144, 145, 151, 153]) } else { *r.pick(&[0, 146]) };
            m.i = vec![if o(r, 5) { 0 } else { id(r) }, code];
            if !v5 { m.p = vec![] }
        }
        8 => {
            m.i = vec![if o(r, 5) { 0 } else { id(r) }];
            let n = if o(r, 5) { 0 } else { 1 + r.below(3) };
            for _ in 0..n {
                let f = filter(r);
                let share = f.starts_with(b"$share/");
                let op = if !v5 { if o(r, 5) { 3 } else { r.below(3) as i64 } } else {
                    r.below(3) as i64 + if share && !odd { 0 } else { 4 * r.below(2) as i64 } + 8 * r.below(2) as i64 + 16 * r.below(3) as i64 };
                m.s.push(f);
                m.i.push(if v5 && o(r, 5) { r.below(64) as i64 } else { op });
            }
        }
        9 | 11 => {
            m.i = vec![if o(r, 5) { 0 } else { id(r) }];
            if k == 9 || v5 {
                let n = if o(r, 5) { 0 } else { 1 + r.below(3) };
                for _ in 0..n {
                    let c = if o(r, 8) { r.below(256) as i64 } else if !v5 { *r.pick(&[0, 1, 2, 128]) } else if k == 9 { *r.pick(&[0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162]) } else { *r.pick(&[0, 17, 128, 131, 135, 143, 145]) };
                    m.i.push(c);
                }
            }
        }
        10 => {
            m.i = vec![if o(r, 5) { 0 } else { id(r) }];
            let n = if o(r, 5) { 0 } else { 1 + r.below(3) };
            for _ in 0..n { let f = filter(r); m.s.push(f) }
        }
        14 => if v5 { m.i = vec![if o(r, 8) { r.below(256) as i64 } else { *r.pick(&[0, 0, 4, 128, 129, 130, 141, 142, 152, 160]) }] },
        15 => m.i = vec![if o(r, 8) { r.below(256) as i64 } else { *r.pick(&[0, 24, 25]) }],
        _ => {}
    }
    m
}
pub fn kinds(ver: i64) -> i64 { if ver == 5 { 15 } else { 14 } }
fn any(r: &mut Rng, ver: i64, odd: bool) -> Mp { let k = 1 + r.below(kinds(ver) as usize) as i64; packet(r, k, ver, odd) }
/// The bytes of a packet, from the crate's own encoder.
pub fn bytes_of(m: &Mp) -> Vec<u8> { crate::codec::to_real(m).and_then(|p| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.to_bytes().ok())).ok().flatten()).unwrap_or_default() }
fn good(r: &mut Rng, ver: i64) -> Vec<u8> { for _ in 0..20 { let b = bytes_of(&any(r, ver, false)); if !b.is_empty() { return b } } vec![0xC0, 0] }
fn small(r: &mut Rng, ver: i64) -> Vec<u8> { for _ in 0..20 { let b = good(r, ver); if b.len() < 90 { return b } } vec![0xC0, 0] }

fn hdr(b: &[u8]) -> usize { let mut n = 1; while n < b.len() && n < 5 && b[n] >= 128 { n += 1 } n + 1 }
fn reframe(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    let mut n = body.len();
    loop { let d = (n % 128) as u8; n /= 128; v.push(if n > 0 { d | 128 } else { d }); if n == 0 { break } }
    v.extend(body);
    v
}
/// One change of a valid frame that mostly makes it malformed.
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let h = hdr(b).min(b.len());
    let mut body = b[h..].to_vec();
    let first = b[0];
    let at = |r: &mut Rng, n: usize| if r.p(50) { r.below(n.min(14)) } else { r.below(n) };
    match r.below(14) {
        0 => return reframe(first ^ (1 << r.below(8)), &body),
        1 if !body.is_empty() => { let i = at(r, body.len()); body[i] ^= 1 << r.below(8) }
        2 if !body.is_empty() => { let i = at(r, body.len()); body[i] = *r.pick(&[0, 1, 2, 3, 5, 38, 127, 128, 0xC0, 0xED, 0xF5, 255]) }
        3 if !body.is_empty() => { let n = at(r, body.len()); body.truncate(n) }
        4 => { let i = at(r, body.len() + 1); body.insert(i, *r.pick(&[0, 1, 2, 38, 47, 128, 255])) }
        5 if !body.is_empty() => { let i = at(r, body.len()); body.remove(i); }
        6 => for _ in 0..1 + r.below(3) { body.push(r.next() as u8) },
        7 => { // a length that is not in its shortest form
            let mut v = b[..h].to_vec();
            let l = v.len() - 1;
            v[l] |= 128;
            for _ in 0..r.below(3) { v.push(128) }
            v.push(0);
            v.extend(&body);
            return v;
        }
        8 => { // a length that disagrees with the contents
            let mut v = b.to_vec();
            if h == 2 { let d = *r.pick(&[-2i64, -1, 1, 2, 5]); v[1] = (v[1] as i64 + d).rem_euclid(128) as u8 }
            return v;
        }
        9 if body.len() > 2 => { // raise or lower a byte by one: inner lengths
            let i = at(r, body.len());
            body[i] = if r.p(50) { body[i].wrapping_add(1) } else { body[i].wrapping_sub(1) };
        }
        10 if body.len() > 2 => { // another packet of the same body
            return reframe((1 + r.below(15) as u8) << 4 | if r.p(70) { first & 15 } else { r.below(16) as u8 }, &body);
        }
        11 if body.len() > 3 => { // repeat a stretch
            let i = r.below(body.len());
            let n = 1 + r.below((body.len() - i).min(8));
            let x = body[i..i + n].to_vec();
            for (j, y) in x.into_iter().enumerate() { body.insert(i + n + j, y) }
        }
        12 => { let mut v = vec![first, 255, 255, 255, *r.pick(&[127u8, 128, 255])]; v.extend(&body); return v }
        13 if body.len() > 3 => { let i = at(r, body.len() - 1); let z = r.next(); body[i] = z as u8; body[i + 1] = (z >> 8) as u8 }
        _ => {}
    }
    reframe(first, &body)
}
fn put(v: &mut Vec<u8>, s: &[u8]) { v.extend(&(s.len() as u16).to_be_bytes()); v.extend(s) }

/// A frame with this string in one of the places where a string may stand.
pub fn place(ver: i64, pos: usize, s: &[u8], alias: bool) -> Vec<u8> {
    let v5 = ver == 5;
    let mut b = vec![];
    let np = |b: &mut Vec<u8>| if v5 { b.push(0) };
    let first = match pos {
        0 => { put(&mut b, s); if v5 { if alias { b.extend([3, 35, 0, 1]) } else { b.push(0) } } b.push(b'm'); 0x30 }
        1 => { b.extend([0, 7]); np(&mut b); put(&mut b, s); b.push(1); 0x82 }
        2 => { b.extend([0, 7]); np(&mut b); put(&mut b, s); 0xA2 }
        3 => { b.extend([0, 7]); np(&mut b); put(&mut b, b"ok"); b.push(0); put(&mut b, s); b.push(0); 0x82 }
        4..=6 => { // CONNECT: client id, will topic, user name
            put(&mut b, b"MQTT");
            b.push(if v5 { 5 } else { 4 });
            b.push(2 | if pos == 5 { 4 } else { 0 } | if pos == 6 { 128 } else { 0 });
            b.extend([0, 0]);
            np(&mut b);
            if pos == 4 { put(&mut b, s) } else { put(&mut b, b"c") }
            if pos == 5 { np(&mut b); put(&mut b, s); put(&mut b, b"w") }
            if pos == 6 { put(&mut b, s) }
            0x10
        }
        7 | 8 => { // a user property's key or value in an acknowledgement (v5), the topic of a QoS 1 publish (v3)
            if !v5 { put(&mut b, s); b.extend([0, 9, b'm']); return reframe(0x32, &b) }
            let mut p = vec![38];
            if pos == 7 { put(&mut p, s); put(&mut p, b"v") } else { put(&mut p, b"k"); put(&mut p, s) }
            b.extend([0, 7, 0, p.len() as u8]);
            b.extend(p);
            0x40
        }
        9 => { // reason string of a DISCONNECT (v5), second filter of an UNSUBSCRIBE (v3)
            if !v5 { b.extend([0, 7]); put(&mut b, b"ok"); put(&mut b, s); return reframe(0xA2, &b) }
            let mut p = vec![31];
            put(&mut p, s);
            b.extend([0x80, p.len() as u8]);
            b.extend(p);
            0xE0
        }
        10 => { // response topic / content type of a publish, by the length's parity
            if !v5 { put(&mut b, s); b.extend([0, 9, b'm']); return reframe(0x3D, &b) }
            put(&mut b, b"t");
            let mut p = vec![if s.len() % 2 == 0 { 8 } else { 3 }];
            put(&mut p, s);
            b.push(p.len() as u8);
            b.extend(p);
            0x30
        }
        _ => { put(&mut b, s); b.extend([0, 9]); if v5 { if alias { b.extend([3, 35, 0, 1]) } else { b.push(0) } } if alias { 0x34 } else { 0x32 } }
    };
    reframe(first, &b)
}
pub const PLACES: usize = 12;
const TOK: &[&[u8]] = &[b"/", b"+", b"#", b"a", b"$share", b"\0", "é".as_bytes(), b"$", b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b" ", b"$share/g/", b"$share//"];
fn tokens(r: &mut Rng) -> Vec<u8> {
    let n = r.below(7);
    let m = if r.p(60) { 5 } else { TOK.len() };
    (0..n).flat_map(|_| r.pick(&TOK[..m]).to_vec()).collect()
}

/// `idx` walks through the exhaustive families; the others use `r` alone.
pub fn family(fam: &str, r: &mut Rng, idx: u64) -> Value {
    let ver = if r.p(60) { 5 } else { 4 };
    let mut c = Rec::new(ver, fam);
    match fam {
        // packets through the encoder and back
        "rt" | "rtodd" => for _ in 0..14 {
            let m = any(r, ver, fam == "rtodd");
            if r.p(12) { c.enc_append(&m, b"\x01\x02\x03") }
            if let Some(b) = c.enc(&m) {
                c.dec(&b);
                if r.p(40) { let mut t = b.clone(); t.extend((0..1 + r.below(5)).map(|_| r.next() as u8)); c.dec(&t) }
                if r.p(40) { let n = r.below(b.len()); c.dec(&b[..n]) }
            }
        },
        // one change away from a valid packet
        "mut" => for _ in 0..25 {
            let b = small(r, ver);
            let mut x = mutate(r, &b);
            while r.p(15) && x.len() > 2 { x = mutate(r, &x) }
            // further data must not make up for what the frame lacks
            if r.p(30) { let n = 1 + r.below(9); for _ in 0..n { x.push(*r.pick(&[0, 0, 1, 97, 255])) } }
            c.dec(&x);
            match r.below(8) {
                0 => { c.open(0, 64); c.feed(&x); c.next(false); }
                1 => c.lev(1 + r.below(3) as u8, &x),
                2 => { let n = r.below(x.len()); c.dec(&x[..n]) }
                _ => {}
            }
        },
        // every place of a valid packet: cut there, and a changed byte there
        "walk" => {
            let k = 1 + (idx % kinds(ver) as u64) as i64;
            let b = { let mut b = vec![]; for _ in 0..40 { b = bytes_of(&packet(r, k, ver, false)); if !b.is_empty() && b.len() < 70 { break } } b };
            if !b.is_empty() && b.len() < 160 {
                let h = hdr(&b);
                for n in 0..b.len() { c.dec(&b[..n]) }
                for n in h..b.len() { c.dec(&reframe(b[0], &b[h..n])) }
                for n in h..b.len() {
                    for d in [1u8, 255, 128, 4] { let mut x = b.clone(); x[n] = x[n].wrapping_add(d); c.dec(&x) }
                    let mut x = b[h..].to_vec();
                    x.remove(n - h);
                    c.dec(&reframe(b[0], &x));
                }
                for f in 0..16 { let mut x = b.clone(); x[0] = x[0] & 0xF0 | f; c.dec(&x) }
                for n in 1..4 { let mut x = b[h..].to_vec(); x.extend(vec![0; n]); c.dec(&reframe(b[0], &x)) }
            }
        }
        // all short frames over a small alphabet, 60 at a time
        "short" => {
            const AL: &[u8] = &[0, 1, 2, 4, 31, 38, 47, 128, 255];
            c.ver = if idx % 2 == 0 { 5 } else { 4 };
            for j in 0..60u64 {
                let mut z = idx / 2 * 60 + j;
                let first = (z % 256) as u8;
                z /= 256;
                let mut body = vec![];
                while z > 0 && body.len() < 5 { z -= 1; body.push(AL[(z % 9) as usize]); z /= 9 }
                c.dec(&reframe(first, &body));
            }
        }
        // any bytes at all
        "junk" => for _ in 0..30 {
            let n = r.below(24);
            let b: Vec<u8> = (0..n).map(|_| if r.p(60) { *r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 10, 38, 31, 77, 81, 84, 128, 255, 16, 48, 50, 52, 130, 162]) } else { r.next() as u8 }).collect();
            match r.below(6) {
                0 => c.dec(&b),
                1 => c.lev(1 + r.below(3) as u8, &b),
                2 => { c.open(r.below(4) as u8, 16); c.feed(&b); c.drain(); }
                3 => c.vsn(&b, r.below(n + 2)),
                _ => { let x = reframe(r.next() as u8, &b); c.dec(&x) }
            }
        },
        // strings of a small alphabet in every place
        "topic" => for _ in 0..6 {
            let s = tokens(r);
            for pos in 0..PLACES { let a = r.p(50); c.dec(&place(ver, pos, &s, a)) }
        },
        // all filters and topics up to four tokens, numbered
        "filters" => for j in 0..30u64 {
            let mut z = idx * 30 + j;
            let mut s: Vec<u8> = vec![];
            let mut n = 0;
            while z > 0 && n < 6 { z -= 1; s.extend(TOK[(z % 5) as usize]); z /= 5; n += 1 }
            for pos in [0, 1, 2] { c.dec(&place(ver, pos, &s, false)) }
            let pos = 3 + r.below(PLACES - 3);
            c.dec(&place(ver, pos, &s, true));
        },
        // streams, cut anywhere
        "stream" | "level" | "reader" => {
            let n = 1 + r.below(6);
            let mut all = vec![];
            let mut ends = vec![];
            for i in 0..n {
                let b = if i + 1 == n && r.p(30) { let b = small(r, ver); mutate(r, &b) } else if r.p(90) { small(r, ver) } else { good(r, ver) };
                all.extend(b);
                ends.push(all.len());
            }
            if r.p(25) { let k = r.below(all.len()); all.truncate(all.len() - k.min(20)) }
            let mut cuts = vec![];
            let one = r.p(20) && all.len() < 80;
            let mut p = 0;
            while p < all.len() {
                let q = if one { p + 1 } else {
                    match r.below(6) {
                        0 => p + 1,
                        1 => p + 1 + r.below(4),
                        2 => *ends.iter().find(|e| **e > p).unwrap_or(&all.len()),
                        3 => (*ends.iter().find(|e| **e > p).unwrap_or(&all.len())).saturating_sub(1).max(p + 1),
                        4 => (*ends.iter().find(|e| **e > p).unwrap_or(&all.len())) + 1 + r.below(2),
                        _ => p + 1 + r.below(all.len()),
                    }
                }.min(all.len());
                cuts.push(all[p..q].to_vec());
                p = q;
            }
            if fam == "reader" { c.reader(cuts) } else {
                let lv = if fam == "level" { r.below(4) as u8 } else { 0 };
                c.open(lv, *r.pick(&[1, 16, 16384]));
                let change = fam == "level" && r.p(60);
                for x in cuts {
                    c.feed(&x);
                    if change && r.p(40) { c.level(r.below(4) as u8) }
                    if r.p(10) { continue }
                    let ok = if change {
                        let mut ok = true;
                        for _ in 0..12 {
                            let full = r.p(15);
                            match c.next(full) { "pkt" => {} "none" => break, _ => { ok = false; break } }
                            if r.p(60) { c.level(r.below(4) as u8) }
                        }
                        ok
                    } else { c.drain() };
                    if !ok { break }
                }
                if c.ops.last().map_or(false, |o| o["o"] == "feed") { c.drain(); }
            }
        }
        // reduced levels without the stream parser
        "lev" => for _ in 0..12 {
            let mut b = small(r, ver);
            if r.p(25) { b = mutate(r, &b) }
            if r.p(30) { b.extend((0..1 + r.below(5)).map(|_| r.next() as u8)) }
            if r.p(20) { let n = r.below(b.len()); b.truncate(n) }
            for l in 1..4 { c.lev(l, &b) }
        },
        "vsn" => for _ in 0..20 {
            let v = if r.p(50) { 5 } else { 4 };
            let mut b = bytes_of(&packet(r, 1, v, true));
            if b.is_empty() { continue }
            if r.p(30) { b = mutate(r, &b) }
            let mut off = 0;
            if r.p(30) { let n = r.below(4); let mut x = vec![0u8; n]; x.extend(&b); b = x; off = if r.p(80) { n } else { r.below(6) } }
            if r.p(40) { let n = r.below(b.len().min(16)); b.truncate(n) }
            c.vsn(&b, off);
        },
        // strings and bodies around the limits of their length fields
        "long" => {
            let n = *r.pick(&[16383usize, 16384, 65534, 65535, 65535, 65536, 65537, 70000]);
            let mut m;
            loop {
                let k = *r.pick(&[1, 1, 2, 3, 3, 4, 8, 9, 10, 10, 14]);
                m = packet(r, k, ver, false);
                let big = vec![b'a'; n];
                let ns = if k == 3 { 1 } else { m.s.len() };
                if k != 1 && ns > 0 && r.p(50) { let j = r.below(ns); m.s[j] = big; break }
                if k == 1 && r.p(70) { let j = 1 + r.below(m.s.len() - 1); m.s[j] = big; break }
                let l = m.p.len();
                if l > 0 {
                    let j = r.below(l);
                    if [38, 31, 21, 26, 28, 22, 9].contains(&m.p[j].id) { if m.p[j].id == 38 && r.p(50) { m.p[j].w = big } else { m.p[j].v = bytes(&big) } break }
                }
                if k == 3 && r.p(30) { m.s[1] = big; break }
            }
            if let Some(b) = c.enc(&m) { c.dec(&b) }
        }
        "big" => {
            let e = if ver == 5 { 4 } else { 3 };
            let n = match idx { 0 => 268_435_455 - e, 1 => 268_435_456 - e, 2 => 2_097_151 - e, 3 => 2_097_152 - e, 4 => 16_383 - e, 5 => 16_384 - e, 6 => 127 - e, 7 => 128 - e, 8 => 300_000_000, _ => r.below(3_000_000) };
            c.big(n, true)
        }
        // packets as gRPC messages
        #[cfg(feature = "grpc")]
        "relay" => {
            let dir = r.below(2) as i64;
            for n in 0..16 {
                let k = if n == 0 { 1 + (idx % kinds(ver) as u64) as i64 } else { 1 + r.below(kinds(ver) as usize) as i64 };
                let m = packet(r, k, ver, false);
                let seq = *r.pick(&[0, 1, 2, 255, 65536, u32::MAX as u64, 1 << 33, u64::MAX, 77]);
                c.relay(&m, seq, if r.p(80) { dir } else { 1 - dir });
            }
        }
        #[cfg(feature = "grpc")]
        "nopacket" => for w in 0..7 { c.nopacket(w) },
        f => panic!("no codec family {f}"),
    }
    c.done()
}

/// The packets of MCCodec's universe: through the encoder and decoder, with every cut, in pairs and
/// at every level.
pub fn universe(packets: &[Mp], pairs: usize, r: &mut Rng) -> Vec<Value> {
    let mut out = vec![];
    for m in packets.iter().filter(|_| pairs > 0) {
        let mut c = Rec::new(m.ver, "universe");
        if let Some(b) = c.enc(m) {
            c.dec(&b);
            for n in 0..b.len() { c.dec(&b[..n]) }
            let mut t = b.clone();
            t.push(r.next() as u8);
            c.dec(&t);
            for l in 1..4 { c.lev(l, &b) }
        }
        out.push(c.done());
    }
    if pairs == 0 {
        // only the gRPC relay
        out.clear();
        #[cfg(feature = "grpc")]
        for m in packets { let mut c = Rec::new(m.ver, "universe"); c.relay(m, r.next(), r.below(2) as i64); out.push(c.done()); }
        return out;
    }
    for ver in [4i64, 5] {
        let v: Vec<Vec<u8>> = packets.iter().filter(|m| m.ver == ver).map(bytes_of).filter(|b| !b.is_empty()).collect();
        for _ in 0..pairs {
            let (a, b) = (r.pick(&v).clone(), r.pick(&v).clone());
            let all = [a.clone(), b].concat();
            if all.len() > 60 { continue }
            let lv = r.below(4) as u8;
            for cut in 0..=all.len() {
                let mut c = Rec::new(ver, "pairs");
                c.open(lv, 32);
                c.feed(&all[..cut]);
                if c.drain() { c.feed(&all[cut..]); c.drain(); }
                out.push(c.done());
            }
        }
    }
    out
}
