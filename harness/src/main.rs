//! Bounded companion of the proofs: drives the real crate and looks for an input on which a property fails.
//!   vh PROP OUT SECONDS SEED        search
//!   vh --replay FILE                run one recorded case
mod consume;
mod core;
mod deep;
mod map;
mod seq;
mod toks;
use crate::core::*;
use archery::{ArcTK, RcK};
use map::*;
use rpds::*;
use seq::*;
use std::time::Duration;

fn slot(r: &mut Rng) -> u32 { (if r.below(3) == 0 { r.below(3) as u32 } else { 0 }) << 8 | (r.below(3) as u32) << 10 }
fn rnd_seq(r: &mut Rng, _: u32) -> u32 {
    // additions twice as often as anything else
    let op = if r.below(3) == 0 { 0 } else { r.below(16) as u32 };
    op | slot(r) | (r.below(1 << 20) as u32) << 12
}
fn rnd_map(r: &mut Rng, _: u32) -> u32 {
    let op = [0, 0, 6, 7, 1, 1, 1, 8, 2, 3, 4, 5, 0, 1, 7, 6][r.below(if r.0 % 5 == 0 { 16 } else { 15 }) as usize];
    op | slot(r) | (r.below(1 << 20) as u32) << 12
}
fn seq_sc<C: SeqC>(name: &'static str, cfgs: Vec<u32>, len: usize, weight: u32) -> Scenario {
    let n = C::NOPS;
    let mut alphabet = vec![];
    for op in 0..2 * n { alphabet.push(op | (1 << 10) | (17 * (op + 3)) << 12); }
    alphabet.push(2 * n | 1 << 10);
    alphabet.push(2 * n | 2 << 10 | 1 << 12);
    alphabet.push(2 * n + 1 | 1 << 10 | 2 << 12);
    alphabet.push(0 | 1 << 8 | 5 << 12);
    alphabet.push(n - 1 | 1 << 8 | 0x41 << 12);
    Scenario { name, run: run_seq::<C>, cfgs, alphabet, exhaustive_len: len, random: rnd_seq, random_len: 160, weight }
}
fn map_sc<C: MapC>(name: &'static str, cfgs: Vec<u32>, len: usize, weight: u32) -> Scenario {
    let mut alphabet = vec![];
    for key in 0..3 { alphabet.push(0 | key << 12); alphabet.push(1 | key << 12); }
    alphabet.push(3 | 1 << 10 | 3 << 12);
    alphabet.push(4 | 1 << 10 | 1 << 12);
    alphabet.push(5 | 2 << 10);
    alphabet.push(5 | 1 << 10 | 1 << 12);
    alphabet.push(6 | 1 << 10 | 8 << 12);
    alphabet.push(2 | 2 << 8 | 1 << 12);
    Scenario { name, run: run_map::<C>, cfgs, alphabet, exhaustive_len: len, random: rnd_map, random_len: 120, weight }
}

fn all() -> Vec<Scenario> {
    let mut v = vec![];
    v.push(seq_sc::<List<u32>>("list", vec![0], 4, 1));
    v.push(seq_sc::<Stack<u32>>("stack", vec![0], 4, 1));
    v.push(seq_sc::<Queue<u32>>("queue", vec![0], 5, 1));
    v.push(seq_sc::<Vector<u32>>("vector", vec![1, 2, 0, 3, 1, 8, 2, 5, 7], 3, 3));
    let o = vec![0x000, 0x100, 0x200, 0x300];
    let mut h = vec![];
    for u in [0, 1, 2, 3] { for (d, m) in [(0, 0), (1, 1), (2, 2), (1, 3), (0, 4), (3, 5), (1, 6), (4, 7), (5, 0), (0, 2), (1, 0), (2, 4), (0, 5), (1, 2)] { h.push(d | m << 4 | u << 8); } }
    v.push(map_sc::<RedBlackTreeMap<K, u32, RcK>>("rbt_map", o.clone(), 4, 3));
    v.push(map_sc::<RedBlackTreeMap<K, u32, ArcTK>>("rbt_map_sync", o.clone(), 2, 1));
    v.push(map_sc::<RedBlackTreeSet<K, RcK>>("rbt_set", o.clone(), 4, 2));
    v.push(map_sc::<RedBlackTreeSet<K, ArcTK>>("rbt_set_sync", o, 2, 1));
    v.push(map_sc::<HashTrieMap<K, u32, RcK, BH>>("ht_map", h.clone(), 3, 3));
    v.push(map_sc::<HashTrieMap<K, u32, ArcTK, BH>>("ht_map_sync", h.clone(), 2, 1));
    v.push(map_sc::<HashTrieSet<K, RcK, BH>>("ht_set", h.clone(), 3, 2));
    v.push(map_sc::<HashTrieSet<K, ArcTK, BH>>("ht_set_sync", h, 1, 1));
    // large ones
    let big = |mut s: Scenario, cfgs: &[u32]| { s.cfgs = cfgs.to_vec(); s.exhaustive_len = 1; s.random_len = 10; s.weight = 1; s };
    let f = |n: u32, c: u32| n << 16 | c;
    let l = [f(17, 0), f(33, 0), f(65, 0), f(129, 0), f(260, 0), f(1030, 0), f(4100, 0)];
    v.push(big(seq_sc::<List<u32>>("list_big", vec![], 1, 1), &l));
    v.push(big(seq_sc::<Stack<u32>>("stack_big", vec![], 1, 1), &l));
    v.push(big(seq_sc::<Queue<u32>>("queue_big", vec![], 1, 1), &l));
    v.push(big(seq_sc::<Vector<u32>>("vector_big", vec![], 1, 1), &[f(64, 1), f(33, 0), f(256, 2), f(512, 3), f(257, 4), f(1024, 0), f(1057, 0), f(4096, 6), f(65, 6), f(256, 7), f(260, 7), f(33, 8), f(4097, 2), f(1025, 1), f(32770, 0)]));
    let b = [f(41, 0x100), f(130, 0x200), f(300, 0x300), f(1500, 0x400), f(500, 0x400), f(1001, 0x400)];
    v.push(big(map_sc::<RedBlackTreeMap<K, u32, RcK>>("rbt_map_big", vec![], 1, 1), &b));
    v.push(big(map_sc::<RedBlackTreeSet<K, RcK>>("rbt_set_big", vec![], 1, 1), &b));
    let mut h = vec![];
    for (d, m) in [(0, 0), (1, 1), (2, 2), (1, 3), (0, 4), (3, 5), (1, 6), (4, 7), (5, 0), (0, 2), (1, 0), (2, 4), (0, 5), (1, 2)] { for (n, u) in [(41, 1), (130, 2), (700, 4)] { if (n, m) != (700, 3) { h.push(f(n, d | m << 4 | u << 8)); } } }
    v.push(big(map_sc::<HashTrieMap<K, u32, RcK, BH>>("ht_map_big", vec![], 1, 1), &h));
    v.push(big(map_sc::<HashTrieSet<K, RcK, BH>>("ht_set_big", vec![], 1, 1), &h));
    v.push(Scenario { name: "deep", run: deep::run_deep, cfgs: (0..6).collect(), alphabet: (0..16).map(|o| o | 1 << 10 | 3 << 12).collect(), exhaustive_len: 2, random: deep::rnd_deep, random_len: 12, weight: 1 });
    v.push(Scenario { name: "deep_long", run: deep::run_deep, cfgs: vec![6, 10, 7, 8], alphabet: [1, 11, 12].map(|o| o | 1 << 10 | 3 << 12).to_vec(), exhaustive_len: 1, random: deep::rnd_deep, random_len: 3, weight: 1 });
    v.push(Scenario { name: "config", run: run_config, cfgs: (0..260).collect(), alphabet: vec![], exhaustive_len: 0, random: |r, _| (r.below(1 << 20) as u32) << 12, random_len: 1, weight: 1 });
    v
}

fn plan(prop: &str) -> (Mode, &'static [&'static str]) {
    const SEQ: &[&str] = &["list", "stack", "queue", "vector"];
    const RBT: &[&str] = &["rbt_map", "rbt_map_sync", "rbt_set", "rbt_set_sync"];
    const HT: &[&str] = &["ht_map", "ht_map_sync", "ht_set", "ht_set_sync"];
    const ALL: &[&str] = &["list", "stack", "queue", "vector", "rbt_map", "rbt_map_sync", "rbt_set", "rbt_set_sync", "ht_map", "ht_map_sync", "ht_set", "ht_set_sync"];
    match prop {
        "C01" => (Mode::Content, &["list"]),
        "C02" => (Mode::Content, &["vector"]),
        "C03" => (Mode::Content, &["queue"]),
        "C04" => (Mode::Content, &["stack"]),
        "C05" => (Mode::Content, &["ht_map", "ht_map_sync"]),
        "C06" => (Mode::Content, &["rbt_map", "rbt_map_sync"]),
        "C07" => (Mode::Balance, RBT),
        "C08" => (Mode::Iter, RBT),
        "C09" => (Mode::Range, RBT),
        "C10" => (Mode::Iter, HT),
        "C11" => (Mode::Iter, SEQ),
        "C12" => (Mode::Algebra, &["rbt_set", "rbt_set_sync", "ht_set", "ht_set_sync"]),
        "C13" => (Mode::Persist, ALL),
        "C14" => (Mode::Eq, ALL),
        "C15" => (Mode::OrdHash, &["list", "stack", "queue", "vector", "rbt_map", "rbt_map_sync", "rbt_set", "rbt_set_sync"]),
        "C16" => (Mode::Panic, &["config", "list", "stack", "queue", "vector", "rbt_map", "rbt_map_sync", "rbt_set", "rbt_set_sync", "ht_map", "ht_map_sync", "ht_set", "ht_set_sync"]),
        "C17" => (Mode::Bulk, ALL),
        "C18" => (Mode::Serde, ALL),
        "C19" => (Mode::Panic, &["deep", "deep_long"]),
        _ => panic!("unknown property {prop}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    let scs = all();
    if a[1] == "--replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
        let prop = get("property");
        let (mode0, _) = plan(&prop);
        let mode = [Mode::Content, mode0].into_iter().find(|m| format!("{m:?}") == get("mode")).unwrap_or(mode0);
        let sc = scs.iter().find(|s| s.name == get("scenario")).expect("scenario");
        let ops: Vec<u32> = get("ops").split_whitespace().map(|x| x.parse().unwrap()).collect();
        match run_case(sc, mode, get("cfg").parse().unwrap(), &ops) {
            Ok(()) => println!("the case passes"),
            Err(e) => { println!("the case fails: {e}"); std::process::exit(1) }
        }
        return;
    }
    let (prop, out, secs, seed) = (a[1].clone(), a[2].clone(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap());
    let (mode, names) = plan(&prop);
    let modes: Vec<Mode> = if prop == "C12" { vec![Mode::Content, Mode::Algebra] } else { vec![mode] };
    let mut jobs: Vec<(Mode, &Scenario)> = vec![];
    for &m in &modes { for s in &scs { if names.contains(&s.name.trim_end_matches("_big")) && !(m == Mode::Bulk && s.name.ends_with("_big")) { jobs.push((m, s)); } } }
    let total: u32 = jobs.iter().map(|j| j.1.weight).sum();
    let mut d = Driver::new(&prop, mode, &out);
    let mut done = vec![];
    for (m, s) in jobs {
        d.mode = m;
        let share = secs * s.weight as f64 / total as f64;
        let bound = if s.name == "config" {
            for &c in &s.cfgs { for ops in [&[][..], &[59 << 12]] { d.one(s, c, ops); } }
            "every configuration".to_string()
        } else if m == Mode::Bulk {
            let mut rng = Rng(seed.wrapping_mul(0x51_7cc1_b727_220a).wrapping_add(s.weight as u64));
            for n in 0..6u32 { let ops: Vec<u32> = (0..n).map(|i| (i * 7 + 1) << 12).collect(); for &c in s.cfgs.iter().take(60) { d.one(s, c, &ops); } }
            // every hint kind
            for c in 0..9 { for n in [0u32, 1, 3, 33, 100, 1100] { let ops: Vec<u32> = (0..n).map(|_| rng.next() as u32).collect(); d.one(s, s.cfgs[0] & !15 | c, &ops); } }
            d.random(s, &mut rng, Duration::from_secs_f64(share * 0.8));
            "random".to_string()
        } else {
            let full = d.exhaustive(s, Duration::from_secs_f64(share * 0.5));
            let mut rng = Rng(seed.wrapping_mul(0x51_7cc1_b727_220a).wrapping_add(s.name.len() as u64 * 77 + m as u64));
            d.random(s, &mut rng, Duration::from_secs_f64(share * 0.5));
            format!("{} sequences of up to {} of {} operations in each of {} configurations; random sequences of up to {} operations", if full { "all" } else { "some" }, s.exhaustive_len, s.alphabet.len(), s.cfgs.len(), s.random_len)
        };
        done.push(format!("{{\"scenario\":\"{}\",\"mode\":\"{m:?}\",\"bound\":\"{bound}\",\"cases\":{}}}", s.name, d.per.get(s.name).copied().unwrap_or(0)));
    }
    let checks = CHECKS.with(|c| c.get());
    let samples: Vec<String> = d.samples.iter().map(|s| format!("\"{}\"", s.replace('"', "'"))).collect();
    println!("STATS {{\"cases\":{},\"operations\":{},\"comparisons\":{checks},\"scenarios\":[{}],\"samples\":[{}]}}", d.cases, d.ops, done.join(","), samples.join(","));
}
