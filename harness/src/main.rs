mod blk;
mod codec;
mod codecgen;
mod eng;
mod engen;
mod engpath;
mod rng;
mod unit;
mod vclock;
mod wire;
#[cfg(feature = "tokio")]
mod tok;
#[cfg(feature = "ffi")]
mod quic;
#[cfg(feature = "ffi")]
mod quicgen;
#[cfg(feature = "ffi")]
mod wrap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static WHAT: Mutex<String> = Mutex::new(String::new());
/// Tells the watchdog that the code under test answered.
pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }
pub fn what(s: String) { beat(); *WHAT.lock().unwrap() = s; }

/// A call that does not return within 40 s is reported and ends the process with status 3.
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut n) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            n = if b == last { n + 1 } else { 0 };
            last = b;
            if n > 80 { println!("no answer: {}", WHAT.lock().unwrap()); std::process::exit(3); }
        }
    });
}

/// A directory of this process under TMPDIR
pub fn scratch() -> String {
    let d = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d.to_str().unwrap().into()
}

fn main() {
    std::panic::set_hook(Box::new(|i| if std::env::var_os("VPANIC").is_some() { eprintln!("{i}") }));
    watchdog();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // enggen OUT SEED fam=n,fam=n,...
        Some("enggen") => {
            let seed: u64 = a[3].parse().unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            for part in a[4].split(',') {
                let (fam, n) = part.split_once('=').unwrap();
                for i in 0..n.parse::<u64>().unwrap() {
                    let h = fam.bytes().fold(seed.wrapping_mul(1_000_003).wrapping_add(i), |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
                    what(format!("enggen {fam} #{i} seed {seed}"));
                    #[cfg(feature = "ffi")]
                    let s = if fam.starts_with('q') && fam != "queue" { quicgen::family(fam, &mut rng::Rng::new(h)) } else { engen::family(fam, &mut rng::Rng::new(h)) };
                    #[cfg(not(feature = "ffi"))]
                    let s = engen::family(fam, &mut rng::Rng::new(h));
                    beat();
                    writeln!(f, "{}", serde_json::to_string(&s).unwrap()).unwrap();
                }
            }
            let _ = std::fs::remove_dir_all(scratch());
        }
        // tokgen OUT SEED fam=n,..
        #[cfg(feature = "tokio")]
        Some("tokgen") => {
            let seed: u64 = a[3].parse().unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            for part in a[4].split(',') {
                let (fam, n) = part.split_once('=').unwrap();
                for i in 0..n.parse::<u64>().unwrap() {
                    let h = fam.bytes().fold(seed.wrapping_mul(1_000_003).wrapping_add(i), |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
                    what(format!("tokgen {fam} #{i} seed {seed}"));
                    let s = tok::family(fam, &mut rng::Rng::new(h));
                    writeln!(f, "{}", serde_json::to_string(&s).unwrap()).unwrap();
                }
            }
        }
        // blkgen OUT SEED fam=n,..
        Some("blkgen") => {
            let seed: u64 = a[3].parse().unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            for part in a[4].split(',') {
                let (fam, n) = part.split_once('=').unwrap();
                for i in 0..n.parse::<u64>().unwrap() {
                    let h = fam.bytes().fold(seed.wrapping_mul(1_000_003).wrapping_add(i), |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
                    what(format!("blkgen {fam} #{i} seed {seed}"));
                    let s = blk::family(fam, &mut rng::Rng::new(h));
                    writeln!(f, "{}", serde_json::to_string(&s).unwrap()).unwrap();
                }
            }
        }
        // codecgen OUT SEED fam=n[@start],...   codecuni TLCOUTPUT OUT SEED PAIRS
        Some("codecgen") => {
            let seed: u64 = a[3].parse().unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            for part in a[4].split(',') {
                let (fam, n) = part.split_once('=').unwrap();
                let (n, start) = n.split_once('@').map_or((n, 0), |(n, s)| (n, s.parse::<u64>().unwrap()));
                for i in start..start + n.parse::<u64>().unwrap() {
                    let h = fam.bytes().fold(seed.wrapping_mul(1_000_003).wrapping_add(i), |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
                    what(format!("codecgen {fam} #{i} seed {seed}"));
                    let s = codecgen::family(fam, &mut rng::Rng::new(h), i);
                    beat();
                    if s["ops"].as_array().map_or(true, |o| o.is_empty()) { continue }
                    writeln!(f, "{}", serde_json::to_string(&s).unwrap()).unwrap();
                }
            }
        }
        Some("codecuni") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let ps: Vec<codec::Mp> = t.lines().filter_map(|l| serde_json::from_str::<String>(l).ok())
                .filter_map(|l| l.strip_prefix("PACKET ").and_then(|x| serde_json::from_str(x).ok())).collect();
            what("codecuni".into());
            for s in codecgen::universe(&ps, a[5].parse().unwrap(), &mut rng::Rng::new(a[4].parse().unwrap())) {
                beat();
                if s["ops"].as_array().map_or(true, |o| o.is_empty()) { continue }
                writeln!(f, "{}", serde_json::to_string(&s).unwrap()).unwrap();
            }
        }
        // unitgen OUT SEED fam=n,..   unitpaths TLCOUTPUT OUT SEED KIND CAP MAX
        Some("unitgen") => {
            let seed: u64 = a[3].parse().unwrap();
            let dir = scratch();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            for part in a[4].split(',') {
                let (fam, n) = part.split_once('=').unwrap();
                for i in 0..n.parse::<u64>().unwrap() {
                    let h = fam.bytes().fold(seed.wrapping_mul(1_000_003).wrapping_add(i), |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
                    what(format!("unitgen {fam} #{i} seed {seed}"));
                    writeln!(f, "{}", unit::family(fam, &mut rng::Rng::new(h), &dir)).unwrap();
                }
            }
            std::fs::remove_dir_all(&dir).unwrap();
        }
        Some("unitpaths") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let dir = scratch();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            let kind = ["cs", "ss", "pq"].into_iter().find(|k| *k == a[5]).unwrap();
            for s in unit::paths(&t, kind, a[6].parse().unwrap(), a[7].parse().unwrap(), &mut rng::Rng::new(a[4].parse().unwrap()), &dir) {
                beat();
                writeln!(f, "{s}").unwrap();
            }
            std::fs::remove_dir_all(&dir).unwrap();
        }
        // engpaths TLCOUTPUT OUT MAX SEED
        Some("engpaths") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            for s in engpath::run(&t, a[4].parse().unwrap(), a[5].parse().unwrap()) {
                beat();
                writeln!(f, "{}", serde_json::to_string(&s).unwrap()).unwrap();
            }
        }
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
}
