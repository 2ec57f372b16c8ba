//! Replays behaviours generated from MCEngine.tla on the real engine.
use crate::engen::Scenario;
use crate::eng::*;
use crate::rng::Rng;
use crate::wire::{self, Pk};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone)]
struct Step {
    op: String,
    now: i64,
    a: Args,
    mid: i64,
}

/// `input`: TLC's output (lines "PATH [...]" and "CFG {...}" as printed strings).
pub fn run(input: &str, max: usize, seed: u64) -> Vec<Scenario> {
    let mut cfg = Cfg::basic(5);
    let mut paths: BTreeSet<String> = BTreeSet::new();
    for l in input.lines() {
        let Ok(s) = serde_json::from_str::<String>(l.trim()) else { continue };
        if let Some(c) = s.strip_prefix("CFG ") { cfg = serde_json::from_str(c).unwrap(); }
        if let Some(p) = s.strip_prefix("PATH ") {
            // one spelling per path
            let v: Vec<Step> = serde_json::from_str(p).unwrap();
            let t = serde_json::to_string(&v).unwrap();
            paths.insert(t[..t.len() - 1].into());
        }
    }
    // keep maximal paths only: a prefix sorts directly before its extensions
    let v: Vec<String> = paths.into_iter().collect();
    let mut keep: Vec<&String> = vec![];
    for i in 0..v.len() {
        if i + 1 < v.len() && v[i + 1].starts_with(&format!("{},", v[i])) { continue; }
        keep.push(&v[i]);
    }
    let mut r = Rng::new(seed);
    while keep.len() > max { let i = r.below(keep.len()); keep.swap_remove(i); }
    let mut c = cfg.clone().with_connect(true, -1, -1, -1, -1, -1, [-1; 4], 0);
    c.pbuf = 16384;
    keep.iter().map(|p| {
        let steps: Vec<Step> = serde_json::from_str(&format!("{p}]")).unwrap();
        one(&c, steps)
    }).collect()
}

fn one(cfg: &Cfg, steps: Vec<Step>) -> Scenario {
    crate::vclock::on();
    crate::vclock::set(1000);
    let mut x = Exec::new(cfg);
    let mut map: BTreeMap<i64, i64> = BTreeMap::new();
    let mut ops = vec![];
    for s in steps {
        let mut a = s.a.clone();
        a.fs = a.fs.iter().map(|f| {
            let mine = matches!(f.k.as_str(), "PUBACK" | "PUBREC" | "PUBCOMP" | "SUBACK" | "UNSUBACK");
            Pk { id: if mine { map.get(&f.id).copied().unwrap_or(60000 + f.id) } else { f.id }, ..f.clone() }
        }).collect();
        a.by = hex(&a.fs.iter().flat_map(|f| wire::encode(cfg.ver, f)).collect::<Vec<u8>>());
        let op = Op { op: s.op.clone(), now: 1000 + s.now, a: a.clone(), c: None };
        let o = x.run(&op);
        if s.mid > 0 && o.ret == "ok" { map.insert(s.mid, o.id); }
        let dead = o.ret == "panic";
        ops.push(Line { op: s.op, now: op.now, a, c: None, o });
        if dead { break; }
    }
    Scenario { fam: "path".into(), now: 1000, cfg: cfg.clone(), ops }
}
