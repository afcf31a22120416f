//! Maps and sets against `BTreeMap`.
use crate::consume;
use crate::core::*;
use crate::seq::{rec, Hinted};
use archery::{ArcTK, RcK};
use crate::toks::{self, Tok};
use rpds::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Bound;

/// Lookup key; comparisons are recorded.
#[derive(Clone, Copy, Debug)]
pub struct Q(pub u32);
/// Stored key.
#[derive(Clone, Copy, Debug)]
pub struct K(pub Q);

thread_local! { static CMPS: RefCell<Option<Vec<(u32, u32)>>> = const { RefCell::new(None) }; }
fn note(a: u32, b: u32) { CMPS.with(|c| if let Some(v) = c.borrow_mut().as_mut() { v.push((a, b)) }) }

impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { note(self.0, o.0); self.0 == o.0 } }
impl Eq for Q {}
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Q { fn cmp(&self, o: &Q) -> Ordering { note(self.0, o.0); self.0.cmp(&o.0) } }
impl Hash for Q { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u32(self.0) } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.0.cmp(&o.0)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl Borrow<Q> for K { fn borrow(&self) -> &Q { &self.0 } }
impl Serialize for K { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0 .0.serialize(s) } }
impl<'de> Deserialize<'de> for K { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<K, D::Error> { u32::deserialize(d).map(k) } }
pub fn k(x: u32) -> K { K(Q(x)) }

/// A hasher builder with a state.
#[derive(Clone, Copy, Debug, Default)]
pub struct BH(pub u32);
pub struct HH { mode: u32, x: u64 }
impl BuildHasher for BH { type Hasher = HH; fn build_hasher(&self) -> HH { HH { mode: self.0, x: 0 } } }
impl Hasher for HH {
    fn write(&mut self, b: &[u8]) { for c in b { self.x = self.x.wrapping_mul(257).wrapping_add(*c as u64) } }
    fn write_u32(&mut self, v: u32) { self.x = self.x.wrapping_mul(0x1_0001).wrapping_add(v as u64) }
    fn finish(&self) -> u64 {
        let x = self.x;
        match self.mode % 8 {
            0 => x.wrapping_mul(0x9e3779b97f4a7c15),
            1 => x,
            2 => 0x0123456789abcdef,
            3 => x & 3,
            4 => (x % 3) << 62 | 0x2aaa,
            5 => x << 59 | (x & 1),
            6 => x / 4,
            _ => (x % 5) * 0x1084_2108_4210_8421 | (x & 1) << 63,
        }
    }
}

pub trait MapC: Clone + PartialEq + Sized {
    const SET: bool;
    const ORDERED: bool;
    fn fresh(cfg: u32) -> Self;
    fn ins_mut(&mut self, key: u32, v: u32);
    fn ins(&self, key: u32, v: u32) -> Self;
    fn rem_mut(&mut self, key: u32) -> bool;
    fn rem(&self, key: u32) -> Self;
    /// key found and value
    fn look(&self, key: u32) -> Option<(u32, u32)>;
    /// every other way to look a key up
    fn look_more(&self, key: u32, want: Option<u32>) -> R;
    fn write(&mut self, _key: u32, _v: u32) -> Option<u32> { None }
    fn size_(&self) -> (usize, bool);
    fn ends(&self) -> Option<(Option<(u32, u32)>, Option<(u32, u32)>)> { None }
    fn all(&self) -> Vec<(u32, u32)>;
    fn iter_check(&self, want: &[(u32, u32)], pat: u32) -> R;
    fn par(&self) -> Option<Vec<(u32, u32)>> { None }
    fn other_kind_eq(&self, content: &[(u32, u32)], cfg: u32) -> bool;
    fn ord(&self, _o: &Self) -> Option<(Ordering, Option<Ordering>)> { None }
    fn ord_ops(&self, _o: &Self) -> Option<([bool; 4], Self, Self)> { None }
    fn ord_other_kind(&self, _c: &[(u32, u32)]) -> Option<Ordering> { None }
    fn hash_pair(_a: &Self, _b: &Self) -> Option<Vec<u8>> { None }
    fn ranges(&self, _all: &[(u32, u32)], _lo: Bound<u32>, _hi: Bound<u32>, _pat: u32) -> R { Ok(()) }
    fn algebra(&self, _o: &Self, _a: &[(u32, u32)], _b: &[(u32, u32)], _cfg: u32) -> R { Ok(()) }
    fn json(&self) -> String;
    fn from_json(s: &str) -> Result<Self, String>;
    /// made at once: `how` chooses collecting (and the size hint) or deserializing
    fn made(content: &[(u32, u32)], how: u32) -> Result<Self, String>;
    fn toks(&self) -> Result<Vec<Tok>, String>;
    fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String>;
    fn into_place(&mut self, t: &[Tok], hint: u32) -> R;
    fn bulk(items: &[(u32, u32)], cfg: u32) -> Vec<(&'static str, Vec<(u32, u32)>)>;
}

pub fn uni(cfg: u32) -> u32 { [4, 12, 40, 200, 1500][(cfg >> 8) as usize % 5] }

fn access<C: MapC>(c: &C, cfg: u32) -> Vec<(u32, u32)> { (0..uni(cfg)).filter_map(|x| c.look(x)).collect() }

pub fn build<C: MapC>(content: &[(u32, u32)], cfg: u32, way: u32) -> C {
    let mut c = C::fresh(cfg);
    let u = uni(cfg);
    match way % 4 {
        0 => for (a, b) in content { c.ins_mut(*a, *b) },
        1 => for (a, b) in content.iter().rev() { c = c.ins(*a, *b) },
        2 => {
            for x in 0..u { c.ins_mut(x, 7) }
            for (a, b) in content { c.ins_mut(*a, *b) }
            for x in 0..u { if !content.iter().any(|y| y.0 == x) { c.rem_mut(x); } }
        }
        _ => {
            c.ins_mut(u + 1, 3);
            for (a, b) in content { c.ins_mut(*a, b + 1) }
            c.rem_mut(u + 1);
            for (a, b) in content.iter().rev() { c.ins_mut(*a, *b) }
        }
    }
    c
}

fn size_bound(n: usize) -> usize { (2.0 * ((n + 1) as f64).log2()).floor() as usize }

/// Runs `f` and counts the distinct stored keys that were compared with another key.
fn visited<T>(probe: u32, f: impl FnOnce() -> T) -> (usize, T) {
    CMPS.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    let v = CMPS.with(|c| c.borrow_mut().take().unwrap());
    let mut s = BTreeSet::new();
    let mut same = 0;
    for (a, b) in v {
        if a != probe { s.insert(a); }
        if b != probe { s.insert(b); }
        if a == probe && b == probe { same = 1 }
    }
    (s.len() + same, r)
}

pub fn run_map<C: MapC>(mode: Mode, cfg: u32, ops: &[u32]) -> R {
    let u = uni(cfg & 0xffff);
    if mode == Mode::Bulk {
        let items: Vec<(u32, u32)> = ops.iter().enumerate().map(|(i, x)| ((x >> 12) % u, if C::SET { 0 } else { i as u32 + 1 })).collect();
        for (what, got) in C::bulk(&items, cfg) {
            let mut m = BTreeMap::new();
            let lit = what.contains('!');
            if what.starts_with("empty") {} else if lit { for (a, b) in [(3, 1), (1, 2), (3, 4), (7, 8)] { m.insert(a, if C::SET { 0 } else { b }); } } else { for (a, b) in &items { m.insert(*a, *b); } }
            let m: Vec<_> = m.into_iter().collect();
            eq(what, got, m)?;
        }
        return Ok(());
    }
    let mut slots: Vec<(C, BTreeMap<u32, u32>)> = (0..3).map(|_| (C::fresh(cfg), BTreeMap::new())).collect();
    let mut tick = 0u32;
    // large collections to begin with
    let fill = cfg >> 16;
    let cfg = cfg & 0xffff;
    if fill > 0 {
        let r = guard(|| {
            let mut g = Rng(fill as u64);
            for i in 0..fill {
                let key = match fill % 3 { 0 => i % u, 1 => u - 1 - i % u, _ => g.below(u as u64) as u32 };
                tick += 1;
                let v = if C::SET { 0 } else { tick };
                slots[0].0.ins_mut(key, v);
                slots[0].1.insert(key, v);
            }
            slots[1] = slots[0].clone();
            if fill % 2 == 1 { let v: Vec<(u32, u32)> = slots[0].1.iter().map(|(a, b)| (*a, *b)).collect(); slots[1].0 = C::made(&v, fill)?; }
            Ok(())
        }).and_then(|x: R| x);
        if let Err(e) = r { if matches!(mode, Mode::Content | Mode::Panic) { return Err(e); } else { return Ok(()); } }
    }
    for (n, &code) in ops.iter().enumerate() {
        let op = (code & 0xff) % 9;
        let s = ((code >> 8) & 3) as usize % 3;
        let d = ((code >> 10) & 3) as usize % 3;
        let arg = code >> 12;
        let key = arg % u;
        tick += 1;
        let v = if C::SET { 0 } else { tick };
        let last = n + 1 == ops.len();
        let cheap = u <= 40 || last || n % 8 == 7;
        let before: Vec<Vec<(u32, u32)>> = if mode == Mode::Persist { slots.iter().map(|x| access(&x.0, cfg)).collect() } else { vec![] };
        let mut touched = s;
        let mut tick2 = tick;
        let r = guard(|| -> R {
            match op {
                0 | 7 => {
                    let n = if op == 0 { 1 } else { 1 + (arg >> 8) % 24 };
                    let (c, m) = &mut slots[s];
                    for j in 0..n {
                        let key = if arg & 128 == 0 { (key + j) % u } else { (key + u - j % u) % u };
                        let v = if C::SET { 0 } else { tick2 };
                        tick2 += 1;
                        if mode == Mode::Balance {
                            let size = c.size_().0;
                            let (k, ()) = visited(key, || c.ins_mut(key, v));
                            if k > size_bound(size).max(1) { return Err(format!("inserting {key} into {size} entries compares with {k} of them")); }
                        } else {
                            c.ins_mut(key, v);
                        }
                        m.insert(key, v);
                    }
                    Ok(())
                }
                1 | 8 => {
                    let n = if op == 1 { 1 } else { 1 + (arg >> 8) % 24 };
                    let (c, m) = &mut slots[s];
                    for j in 0..n {
                        let key = if arg & 128 == 0 { (key + j) % u } else { (key + u - j % u) % u };
                        let w = m.remove(&key).is_some();
                        let got = if mode == Mode::Balance {
                            let size = c.size_().0;
                            let (k, got) = visited(key, || c.rem_mut(key));
                            if k > size_bound(size).max(1) { return Err(format!("removing {key} from {size} entries compares with {k} of them")); }
                            got
                        } else { c.rem_mut(key) };
                        eq("remove reports", got, w)?;
                    }
                    Ok(())
                }
                2 => {
                    if C::SET { return Ok(()); }
                    let (c, m) = &mut slots[s];
                    let old = m.get(&key).copied();
                    if old.is_some() { m.insert(key, v); }
                    eq("get_mut", c.write(key, v), old)
                }
                3 => { let c = slots[s].0.ins(key, v); let mut m = slots[s].1.clone(); m.insert(key, v); slots[d] = (c, m); touched = d; Ok(()) }
                4 => { let c = slots[s].0.rem(key); let mut m = slots[s].1.clone(); m.remove(&key); slots[d] = (c, m); touched = d; Ok(()) }
                5 => { if arg & 1 == 1 { let src = slots[s].clone(); slots[d].0.clone_from(&src.0); slots[d].1 = src.1; } else { slots[d] = slots[s].clone(); } touched = d; Ok(()) }
                _ if arg & 24 != 0 => {
                    let m = slots[s].1.clone();
                    let mut v: Vec<(u32, u32)> = m.iter().map(|(a, b)| (*a, *b)).collect();
                    match (arg >> 5) & 3 {
                        0 | 1 => {}
                        2 => v.reverse(),
                        _ => { let mut g = Rng(arg as u64); for i in 1..v.len() { let j = g.below(i as u64 + 1) as usize; v.swap(i, j); } let mut w: Vec<_> = v.iter().take(5).map(|x| (x.0, 0)).collect(); w.extend(v); v = w; }
                    }
                    slots[d] = (C::made(&v, arg >> 7)?, m);
                    touched = d;
                    Ok(())
                }
                _ => { slots[d] = (C::fresh(cfg ^ (arg % 4)), BTreeMap::new()); touched = d; Ok(()) }
            }
        });
        tick = tick2;
        let stop = match r {
            Err(p) => match mode { Mode::Panic | Mode::Content => return Err(format!("operation {op} on key {key}: {p}")), _ => true },
            Ok(Err(e)) => match mode { Mode::Content | Mode::Balance => return Err(e), _ => false },
            Ok(Ok(())) => false,
        };
        match mode {
            Mode::Persist => {
                for (i, b) in before.iter().enumerate() {
                    if i != touched {
                        eq(&format!("contents of value {i} after operation {op} on value {s}"), &access(&slots[i].0, cfg), b)?;
                        let mut x = slots[i].0.all();
                        x.sort_unstable();
                        eq(&format!("iteration of value {i} after operation {op} on value {s}"), &x, b)?;
                        eq(&format!("size of value {i} after operation {op} on value {s}"), slots[i].0.size_().0, b.len())?;
                    }
                }
                if op == 5 { eq("clone", &access(&slots[d].0, cfg), &before[s])?; }
            }
            Mode::Content => {
                let (c, m) = &slots[touched];
                eq("size", c.size_(), (m.len(), m.is_empty()))?;
                eq("lookup", c.look(key), m.get(&key).map(|v| (key, *v)))?;
                c.look_more(key, m.get(&key).copied())?;
                if cheap {
                    for x in 0..u {
                        eq(&format!("lookup of {x}"), c.look(x), m.get(&x).map(|v| (x, *v)))?;
                        if u <= 40 { c.look_more(x, m.get(&x).copied())?; }
                    }
                    eq("lookup outside", c.look(u + 5), None)?;
                    if let Some(e) = c.ends() { eq("first and last", e, (m.iter().next().map(|(a, b)| (*a, *b)), m.iter().next_back().map(|(a, b)| (*a, *b))))?; }
                    if C::SET {
                        let mut all = c.all();
                        all.sort_unstable();
                        eq("elements", all, m.iter().map(|(a, b)| (*a, *b)).collect())?;
                    }
                }
            }
            Mode::Iter if cheap => {
                let c = &slots[touched].0;
                let a = access(c, cfg);
                if !C::ORDERED {
                    let mut x = c.all();
                    x.sort_unstable();
                    eq("iteration", &x, &a)?;
                    if last || n % 8 == 7 {
                        if let Some(mut x) = c.par() { x.sort_unstable(); eq("parallel iteration", &x, &a)?; }
                    }
                }
                c.iter_check(&a, arg)?;
            }
            Mode::Panic if cheap => {
                let c = &slots[touched].0;
                guard(|| {
                    let a = access(c, cfg);
                    let _ = c.iter_check(&a, arg);
                    let _ = c.par();
                    let _ = c.ends();
                })?;
            }
            Mode::Balance => {
                let c = &slots[touched].0;
                let n = c.size_().0;
                let keys: Vec<u32> = if cheap { (0..=u).collect() } else { vec![key, (key + 1) % u, 0, u - 1, u / 2] };
                for x in keys {
                    let (v, _) = visited(x, || c.look(x));
                    if v > size_bound(n) { return Err(format!("looking up {x} among {n} entries compares with {v} of them, more than 2 log2({n} + 1)")); }
                }
            }
            Mode::Range if cheap => {
                let c = &slots[touched].0;
                let a = access(c, cfg);
                let b = |x: u32| { let y = (x / 4) % (u + 1); match x % 4 { 0 => Bound::Unbounded, 1 => Bound::Excluded(y), _ => Bound::Included(y) } };
                if u <= 4 {
                    for x in 0..3 * (u + 1) { for y in 0..3 * (u + 1) {
                        let f = |x: u32| match x % 3 { 0 => Bound::Included(x / 3), 1 => Bound::Excluded(x / 3), _ => Bound::Unbounded };
                        for p in 0..4 { c.ranges(&a, f(x), f(y), p)?; }
                    } }
                } else {
                    let mut g = Rng(arg as u64);
                    for p in 0..6 { let (x, y) = (g.next() as u32, g.next() as u32); c.ranges(&a, b(x), b(y), p)?; }
                }
            }
            _ => {}
        }
        if stop { break; }
    }
    let acc: Vec<Vec<(u32, u32)>> = slots.iter().map(|x| access(&x.0, cfg)).collect();
    match mode {
        Mode::Eq => for i in 0..3 {
            for j in 0..3 {
                eq("==", slots[i].0 == slots[j].0, acc[i] == acc[j])?;
                eq("!=", slots[i].0 != slots[j].0, acc[i] != acc[j])?;
                eq("== across pointer kinds", slots[i].0.other_kind_eq(&acc[j], cfg), acc[i] == acc[j])?;
            }
            for way in 0..4 {
                let o: C = build(&acc[i], cfg ^ way * 0x13, way);
                if access(&o, cfg) != acc[i] { continue; }
                if !(o == slots[i].0) || !(slots[i].0 == o) { return Err(format!("same contents {:?}, built differently, not equal", acc[i])); }
            }
            // near misses
            for way in 0..3u32 {
                let mut a = acc[i].clone();
                match way { 0 => { a.pop(); } 1 => if let Some(x) = a.last_mut() { if C::SET { x.0 += 1 } else { x.1 += 1 } }, _ => if let Some(x) = a.first_mut() { x.0 = u } }
                let o: C = build(&a, cfg, 0);
                let mut u2 = access(&o, cfg);
                if let Some(x) = o.look(u) { u2.push(x) }
                u2.sort_unstable();
                a.sort_unstable();
                if u2 != a { continue; }
                eq("== of different contents", o == slots[i].0, a == acc[i])?;
                eq("== of different contents", slots[i].0 == o, a == acc[i])?;
            }
        },
        Mode::OrdHash => for i in 0..3 {
            for j in 0..3 {
                let w = acc[i].cmp(&acc[j]);
                if let Some((a, b)) = slots[i].0.ord(&slots[j].0) { eq("cmp", a, w)?; eq("partial_cmp", b, Some(w))?; }
                if let Some((a, b, c)) = slots[i].0.ord_ops(&slots[j].0) {
                    eq("comparison operators", a, [w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()])?;
                    eq("max and min", (access(&b, cfg), access(&c, cfg)), (acc[i].clone().max(acc[j].clone()), acc[i].clone().min(acc[j].clone())))?;
                }
                if let Some(a) = slots[i].0.ord_other_kind(&acc[j]) { eq("partial_cmp across pointer kinds", a, w)?; }
                for k in 0..3 { for l in 0..3 {
                    let same = acc[i] == acc[k] && acc[j] == acc[l];
                    if let (Some(a), Some(b)) = (C::hash_pair(&slots[i].0, &slots[j].0), C::hash_pair(&slots[k].0, &slots[l].0)) {
                        if (a == b) != same { return Err(format!("hash input of pairs {:?} and {:?} is {}", (&acc[i], &acc[j]), (&acc[k], &acc[l]), if same { "different" } else { "equal" })); }
                    }
                } }
            }
            for way in 0..4 {
                let o: C = build(&acc[i], cfg, way);
                if access(&o, cfg) != acc[i] { continue; }
                if let (Some(a), Some(b)) = (C::hash_pair(&o, &o), C::hash_pair(&slots[i].0, &slots[i].0)) { eq("hash input of equal values", a, b)?; }
                if let Some((a, b)) = slots[i].0.ord(&o) { eq("cmp of equal values", a, Ordering::Equal)?; eq("partial_cmp of equal values", b, Some(Ordering::Equal))?; }
            }
            let a = &acc[i];
            let empty: C = C::fresh(cfg);
            for cut in 0..a.len().min(20) {
                let (p, q): (C, C) = (build(&a[..cut], cfg, 0), build(&a[cut..], cfg, 0));
                if let (Some(x), Some(y)) = (C::hash_pair(&p, &q), C::hash_pair(&slots[i].0, &empty)) {
                    if x == y { return Err(format!("{:?} split at {cut} feeds the same data to the hasher", a)); }
                }
            }
        },
        Mode::Algebra => for i in 0..3 { for j in 0..3 { slots[i].0.algebra(&slots[j].0, &acc[i], &acc[j], cfg)?; } },
        Mode::Serde => for (i, (c, _)) in slots.iter().enumerate() {
            let it = c.all();
            let j = c.json();
            let want = if C::SET { format!("[{}]", it.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(",")) } else { format!("{{{}}}", it.iter().map(|x| format!("\"{}\":{}", x.0, x.1)).collect::<Vec<_>>().join(",")) };
            eq("serialized form", &j, &want)?;
            let b = C::from_json(&j)?;
            eq("deserialized contents", &access(&b, cfg), &acc[i])?;
            eq("deserialized size", b.size_().0, acc[i].len())?;
            if C::ORDERED { eq("deserialized iteration", b.all(), it.clone())?; }
            if !(b == *c) { return Err("deserialized value is not equal".into()); }
            let t = c.toks()?;
            if matches!(t[0], Tok::Seq(_)) != C::SET || !matches!(t[0], Tok::Seq(_) | Tok::Map(_)) { return Err(format!("serialized as {:?}", t[0])); }
            let mut want = vec![t[0].clone()];
            for x in &it { want.push(Tok::Num(x.0 as u64)); if !C::SET { want.push(Tok::Num(x.1 as u64)); } }
            want.push(Tok::End);
            eq("serialized tokens", &t, &want)?;
            for hint in 0..6 {
                let b = guard(|| C::from_toks(&t, hint)).and_then(|x| x).map_err(|e| format!("size hint kind {hint}: {e}"))?;
                eq("deserialized contents (tokens)", &access(&b, cfg), &acc[i])?;
                eq("deserialized size (tokens)", b.size_().0, acc[i].len())?;
                let mut b = slots[0].0.clone();
                b.into_place(&t, hint)?;
                eq("contents deserialized in place", &access(&b, cfg), &acc[i])?;
                // an input that fails half way is refused
                let mut f = t.clone();
                f.insert(1 + (hint as usize * 7) % (t.len() - 1), Tok::Fail);
                if let Ok(b) = guard(|| C::from_toks(&f, hint))? { return Err(format!("a failing input was accepted as {:?}", access(&b, cfg))); }
            }
            if C::SET {
                // elements given twice count once
                let mut f = vec![Tok::Seq(None)];
                f.extend(acc[i].iter().chain(acc[i].iter().rev()).map(|x| Tok::Num(x.0 as u64)));
                f.push(Tok::End);
                let b = C::from_toks(&f, cfg)?;
                eq("deserialized with repeated elements", &access(&b, cfg), &acc[i])?;
                eq("size with repeated elements", b.size_().0, acc[i].len())?;
            }
            // entries given twice: the last one wins
            if !C::SET {
                let mut s = String::from("{");
                for (n, x) in acc[i].iter().chain(acc[i].iter().rev()).enumerate() { s += &format!("{}\"{}\":{}", if n == 0 { "" } else { "," }, x.0, n); }
                s.push('}');
                let b = C::from_json(&s)?;
                let n = acc[i].len() * 2;
                eq("deserialized with repeated keys", access(&b, cfg), acc[i].iter().enumerate().map(|(p, x)| (x.0, (n - 1 - p) as u32)).collect())?;
            }
        },
        _ => {}
    }
    Ok(())
}

fn degree(cfg: u32) -> u8 { [64, 2, 4, 8, 16, 32][(cfg & 15) as usize % 6] }
fn bh(cfg: u32) -> BH { BH((cfg >> 4) & 15) }

fn fwd<T: PartialEq + std::fmt::Debug + Clone, I: Iterator<Item = T>>(what: &str, mut it: I, want: &[T]) -> R {
    for (i, w) in want.iter().enumerate() {
        eq(&format!("{what}: size_hint before step {i}"), it.size_hint(), (want.len() - i, Some(want.len() - i)))?;
        eq(&format!("{what}: step {i}"), it.next(), Some(w.clone()))?;
    }
    for _ in 0..3 {
        eq(&format!("{what}: size_hint at the end"), it.size_hint(), (0, Some(0)))?;
        eq(&format!("{what}: after the end"), it.next(), None)?;
    }
    Ok(())
}
fn both<T: PartialEq + std::fmt::Debug + Clone, I: DoubleEndedIterator<Item = T>>(what: &str, mut it: I, want: &[T], pat: u32, sized: bool) -> R {
    let (mut lo, mut hi) = (0, want.len());
    let mut p = pat.wrapping_mul(2654435761) | 1;
    for step in 0..want.len() + 4 {
        if sized { eq(&format!("{what}: remaining"), it.size_hint(), (hi - lo, Some(hi - lo)))?; }
        let back = match pat % 6 { 0 => false, 1 => true, 2 => step % 2 == 0, 3 => step % 3 != 0, _ => { p ^= p << 13; p ^= p >> 17; p ^= p << 5; p & 1 == 0 } };
        let w = if lo < hi { Some(if back { hi -= 1; want[hi].clone() } else { lo += 1; want[lo - 1].clone() }) } else { None };
        let g = if back { it.next_back() } else { it.next() };
        eq(&format!("{what}: {}", if back { "next_back" } else { "next" }), g, w)?;
    }
    Ok(())
}
fn sorted(mut v: Vec<u32>) -> Vec<u32> { v.sort_unstable(); v }
/// `len` agrees with `size_hint`
fn lens<I: ExactSizeIterator>(mut it: I, n: usize, pat: u32) -> R {
    let a = pat as usize % (n + 1);
    for _ in 0..a { it.next(); }
    eq(&format!("len after {a} of {n} steps"), it.len(), n - a)
}
fn lens2<I: ExactSizeIterator + DoubleEndedIterator>(mut it: I, n: usize, pat: u32) -> R {
    let a = pat as usize % (n + 1);
    let b = (pat >> 8) as usize % (n - a + 1);
    for _ in 0..a { it.next(); }
    for _ in 0..b { it.next_back(); }
    eq(&format!("len after {a} steps and {b} back of {n}"), it.len(), n - a - b)
}
/// in the order of `next`
fn stepped<T, I: Iterator<Item = T>>(mut it: I, n: usize) -> Vec<T> { let mut v = vec![]; while v.len() <= n { match it.next() { Some(x) => v.push(x), None => break } } v }
/// remaining counts of a hash iterator
fn counts<I: Iterator>(mut it: I, n: usize) -> R {
    for i in 0..=n {
        eq("remaining", it.size_hint(), (n - i, Some(n - i)))?;
        eq("step yields", it.next().is_some(), i < n)?;
    }
    for _ in 0..3 { eq("after the end", it.next().is_none(), true)?; }
    eq("remaining at the end", it.size_hint(), (0, Some(0)))
}

fn in_bounds(x: u32, lo: Bound<u32>, hi: Bound<u32>) -> bool {
    (match lo { Bound::Included(l) => x >= l, Bound::Excluded(l) => x > l, Bound::Unbounded => true })
        && (match hi { Bound::Included(h) => x <= h, Bound::Excluded(h) => x < h, Bound::Unbounded => true })
}
fn bad_bounds(lo: Bound<u32>, hi: Bound<u32>) -> bool {
    match (lo, hi) {
        (Bound::Excluded(a), Bound::Excluded(b)) => a >= b,
        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a > b,
        _ => false,
    }
}
fn bq(b: Bound<u32>) -> Bound<Q> { match b { Bound::Included(x) => Bound::Included(Q(x)), Bound::Excluded(x) => Bound::Excluded(Q(x)), _ => Bound::Unbounded } }

struct PoolHolder(Option<rayon::ThreadPool>);
thread_local! { static POOL: RefCell<PoolHolder> = const { RefCell::new(PoolHolder(None)) }; }
fn pool<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        p.0.get_or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(24).build().unwrap()).install(f)
    })
}

/// A pool of one thread splits the work once only, so that what is left of it is folded in one go.
fn pool1<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    thread_local! { static POOL1: RefCell<PoolHolder> = const { RefCell::new(PoolHolder(None)) }; }
    POOL1.with(|p| {
        let mut p = p.borrow_mut();
        p.0.get_or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap()).install(f)
    })
}

fn pairs<I: Iterator<Item = (u32, u32)>>(i: I) -> Vec<(u32, u32)> { let mut v: Vec<_> = i.collect(); v.sort_unstable(); v }
fn hint<T>(items: Vec<T>, kind: u32) -> Hinted<std::vec::IntoIter<T>> { let left = items.len(); Hinted { it: items.into_iter(), kind: kind.wrapping_add(left as u32), left } }

macro_rules! rbm {
    ($p:ty, $po:ty) => {
        impl MapC for RedBlackTreeMap<K, u32, $p> {
            const SET: bool = false;
            const ORDERED: bool = true;
            fn fresh(_: u32) -> Self { RedBlackTreeMap::new_with_ptr_kind() }
            fn ins_mut(&mut self, key: u32, v: u32) { self.insert_mut(k(key), v) }
            fn ins(&self, key: u32, v: u32) -> Self { self.insert(k(key), v) }
            fn rem_mut(&mut self, key: u32) -> bool { self.remove_mut(&Q(key)) }
            fn rem(&self, key: u32) -> Self { self.remove(&Q(key)) }
            fn look(&self, key: u32) -> Option<(u32, u32)> { self.get(&Q(key)).map(|v| (key, *v)) }
            fn look_more(&self, key: u32, want: Option<u32>) -> R {
                eq("get by key", self.get(&k(key)).copied(), want)?;
                eq("contains_key", self.contains_key(&Q(key)), want.is_some())?;
                eq("get_key_value", self.get_key_value(&Q(key)).map(|(a, b)| (a.0 .0, *b)), want.map(|v| (key, v)))?;
                if let Some(w) = want { eq("index", self[&Q(key)], w)?; }
                Ok(())
            }
            fn write(&mut self, key: u32, v: u32) -> Option<u32> { self.get_mut(&Q(key)).map(|x| std::mem::replace(x, v)) }
            fn size_(&self) -> (usize, bool) { (self.size(), self.is_empty()) }
            fn ends(&self) -> Option<(Option<(u32, u32)>, Option<(u32, u32)>)> { Some((self.first().map(|(a, b)| (a.0 .0, *b)), self.last().map(|(a, b)| (a.0 .0, *b)))) }
            fn all(&self) -> Vec<(u32, u32)> { self.iter().map(|(a, b)| (a.0 .0, *b)).collect() }
            fn iter_check(&self, want: &[(u32, u32)], pat: u32) -> R {
                let ks: Vec<u32> = want.iter().map(|x| x.0).collect();
                let vs: Vec<u32> = want.iter().map(|x| x.1).collect();
                fwd("iter", self.iter().map(|(a, b)| (a.0 .0, *b)), want)?;
                fwd("into_iter", self.into_iter().map(|(a, b)| (a.0 .0, *b)), want)?;
                fwd("keys", self.keys().map(|a| a.0 .0), &ks)?;
                fwd("values", self.values().copied(), &vs)?;
                for p in [1, pat] {
                    both("iter", self.iter().map(|(a, b)| (a.0 .0, *b)), want, p, true)?;
                    both("keys", self.keys().map(|a| a.0 .0), &ks, p, true)?;
                    both("values", self.values().copied(), &vs, p, true)?;
                }
                consume::fwd("iter", || self.iter(), |(a, b)| (a.0 .0, *b), want, pat, true)?;
                consume::back("iter", || self.iter(), |(a, b)| (a.0 .0, *b), want, pat)?;
                lens2(self.iter(), want.len(), pat)?;
                lens2(self.keys(), want.len(), pat)?;
                lens2(self.values(), want.len(), pat)?;
                consume::back("keys", || self.keys(), |a| a.0 .0, &ks, pat ^ 1)?;
                consume::back("values", || self.values(), |a| *a, &vs, pat ^ 2)
            }
            fn other_kind_eq(&self, c: &[(u32, u32)], cfg: u32) -> bool { let o: RedBlackTreeMap<K, u32, $po> = build(c, cfg, 0); let r = *self == o; if (o == *self) != r { panic!("== is not symmetric") } r }
            fn ord(&self, o: &Self) -> Option<(Ordering, Option<Ordering>)> { Some((self.cmp(o), self.partial_cmp(o))) }
            fn ord_ops(&self, o: &Self) -> Option<([bool; 4], Self, Self)> { Some(([self < o, self <= o, self > o, self >= o], self.clone().max(o.clone()), self.clone().min(o.clone()))) }
            fn ord_other_kind(&self, c: &[(u32, u32)]) -> Option<Ordering> { let o: RedBlackTreeMap<K, u32, $po> = build(c, 0, 0); self.partial_cmp(&o) }
            fn hash_pair(a: &Self, b: &Self) -> Option<Vec<u8>> { Some(rec(&(a, b))) }
            fn ranges(&self, all: &[(u32, u32)], lo: Bound<u32>, hi: Bound<u32>, pat: u32) -> R {
                let want: Vec<(u32, u32)> = all.iter().copied().filter(|x| in_bounds(x.0, lo, hi)).collect();
                let what = format!("range {lo:?} {hi:?}");
                if bad_bounds(lo, hi) {
                    if guard(|| self.range((bq(lo), bq(hi))).count()).is_ok() { return Err(format!("{what}: does not panic")); }
                    return Ok(());
                }
                guard(|| both(&what, self.range((bq(lo), bq(hi))).map(|(a, b)| (a.0 .0, *b)), &want, pat, false)).map_err(|e| format!("{what}: {e}"))??;
                guard(|| consume::fwd(&what, || self.range((bq(lo), bq(hi))), |(a, b)| (a.0 .0, *b), &want, pat, true)).map_err(|e| format!("{what}: {e}"))??;
                guard(|| consume::back(&what, || self.range((bq(lo), bq(hi))), |(a, b)| (a.0 .0, *b), &want, pat)).map_err(|e| format!("{what}: {e}"))??;
                let r = guard(|| match (lo, hi) {
                    (Bound::Included(a), Bound::Excluded(b)) => both(&what, self.range(k(a)..k(b)).map(|(a, b)| (a.0 .0, *b)), &want, pat, false),
                    (Bound::Included(a), Bound::Included(b)) => both(&what, self.range(Q(a)..=Q(b)).map(|(a, b)| (a.0 .0, *b)), &want, pat, false),
                    (Bound::Included(a), Bound::Unbounded) => both(&what, self.range(Q(a)..).map(|(a, b)| (a.0 .0, *b)), &want, pat, false),
                    (Bound::Unbounded, Bound::Excluded(b)) => both(&what, self.range(..Q(b)).map(|(a, b)| (a.0 .0, *b)), &want, pat, false),
                    (Bound::Unbounded, Bound::Included(b)) => both(&what, self.range(..=k(b)).map(|(a, b)| (a.0 .0, *b)), &want, pat, false),
                    (Bound::Unbounded, Bound::Unbounded) => both(&what, self.range::<K, _>(..).map(|(a, b)| (a.0 .0, *b)), &want, pat, false),
                    _ => Ok(()),
                });
                r.map_err(|e| format!("{what}: {e}"))?
            }
            fn json(&self) -> String { serde_json::to_string(self).unwrap() }
            fn from_json(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
            fn made(content: &[(u32, u32)], how: u32) -> Result<Self, String> {
                if how % 4 == 3 {
                    let mut t = vec![Tok::Map(Some(content.len()))];
                    for x in content { t.push(Tok::Num(x.0 as u64)); t.push(Tok::Num(x.1 as u64)); }
                    t.push(Tok::End);
                    return toks::read(&t, how >> 2);
                }
                Ok(hint(content.iter().map(|x| (k(x.0), x.1)).collect(), how >> 2).collect())
            }
            fn toks(&self) -> Result<Vec<Tok>, String> { toks::write(self) }
            fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String> { toks::read(t, hint) }
            fn into_place(&mut self, t: &[Tok], hint: u32) -> R { toks::read_into(t, hint, self) }
            fn bulk(items: &[(u32, u32)], cfg: u32) -> Vec<(&'static str, Vec<(u32, u32)>)> {
                let c: Self = hint(items.iter().map(|x| (k(x.0), x.1)).collect(), cfg).collect();
                let lk: Vec<_> = (0..uni(cfg)).filter_map(|x| c.look(x)).collect();
                vec![("collect", lk), ("collect, iterated", pairs(c.all().into_iter())), ("empty", Self::default().all()), ("empty with_ptr_kind", Self::new_with_ptr_kind().all()),
                    ("empty new", RedBlackTreeMap::<K, u32>::new().all()), ("empty new_sync", RedBlackTreeMapSync::<K, u32>::new_sync().all()),
                    ("rbt_map!", pairs(rbt_map![3 => 1, 1 => 2, 3 => 4, 7 => 8].iter().map(|(a, b)| (*a, *b)))),
                    ("rbt_map_sync!", pairs(rbt_map_sync![3 => 1, 1 => 2, 3 => 4, 7 => 8].iter().map(|(a, b)| (*a, *b))))]
            }
        }
        impl MapC for RedBlackTreeSet<K, $p> {
            const SET: bool = true;
            const ORDERED: bool = true;
            fn fresh(_: u32) -> Self { RedBlackTreeSet::new_with_ptr_kind() }
            fn ins_mut(&mut self, key: u32, _: u32) { self.insert_mut(k(key)) }
            fn ins(&self, key: u32, _: u32) -> Self { self.insert(k(key)) }
            fn rem_mut(&mut self, key: u32) -> bool { self.remove_mut(&Q(key)) }
            fn rem(&self, key: u32) -> Self { self.remove(&Q(key)) }
            fn look(&self, key: u32) -> Option<(u32, u32)> { if self.contains(&Q(key)) { Some((key, 0)) } else { None } }
            fn look_more(&self, key: u32, want: Option<u32>) -> R {
                eq("contains by key", self.contains(&k(key)), want.is_some())?;
                eq("get", self.get(&Q(key)).map(|x| x.0 .0), want.map(|_| key))
            }
            fn size_(&self) -> (usize, bool) { (self.size(), self.is_empty()) }
            fn ends(&self) -> Option<(Option<(u32, u32)>, Option<(u32, u32)>)> { Some((self.first().map(|a| (a.0 .0, 0)), self.last().map(|a| (a.0 .0, 0)))) }
            fn all(&self) -> Vec<(u32, u32)> { self.iter().map(|a| (a.0 .0, 0)).collect() }
            fn iter_check(&self, want: &[(u32, u32)], pat: u32) -> R {
                let ks: Vec<u32> = want.iter().map(|x| x.0).collect();
                fwd("iter", self.iter().map(|a| a.0 .0), &ks)?;
                fwd("into_iter", self.into_iter().map(|a| a.0 .0), &ks)?;
                for p in [1, pat] { both("iter", self.iter().map(|a| a.0 .0), &ks, p, true)?; }
                consume::fwd("iter", || self.iter(), |a| a.0 .0, &ks, pat, true)?;
                lens2(self.iter(), want.len(), pat)?;
                consume::back("iter", || self.iter(), |a| a.0 .0, &ks, pat)
            }
            fn other_kind_eq(&self, c: &[(u32, u32)], cfg: u32) -> bool { let o: RedBlackTreeSet<K, $po> = build(c, cfg, 0); let r = *self == o; if (o == *self) != r { panic!("== is not symmetric") } r }
            fn ord(&self, o: &Self) -> Option<(Ordering, Option<Ordering>)> { Some((self.cmp(o), self.partial_cmp(o))) }
            fn ord_ops(&self, o: &Self) -> Option<([bool; 4], Self, Self)> { Some(([self < o, self <= o, self > o, self >= o], self.clone().max(o.clone()), self.clone().min(o.clone()))) }
            fn ord_other_kind(&self, c: &[(u32, u32)]) -> Option<Ordering> { let o: RedBlackTreeSet<K, $po> = build(c, 0, 0); self.partial_cmp(&o) }
            fn hash_pair(a: &Self, b: &Self) -> Option<Vec<u8>> { Some(rec(&(a, b))) }
            fn ranges(&self, all: &[(u32, u32)], lo: Bound<u32>, hi: Bound<u32>, pat: u32) -> R {
                let want: Vec<u32> = all.iter().map(|x| x.0).filter(|x| in_bounds(*x, lo, hi)).collect();
                let what = format!("set range {lo:?} {hi:?}");
                if bad_bounds(lo, hi) {
                    if guard(|| self.range((bq(lo), bq(hi))).count()).is_ok() { return Err(format!("{what}: does not panic")); }
                    return Ok(());
                }
                guard(|| consume::back(&what, || self.range((bq(lo), bq(hi))), |a| a.0 .0, &want, pat)).map_err(|e| format!("{what}: {e}"))??;
                guard(|| both(&what, self.range((bq(lo), bq(hi))).map(|a| a.0 .0), &want, pat, false)).map_err(|e| format!("{what}: {e}"))?
            }
            fn algebra(&self, o: &Self, a: &[(u32, u32)], b: &[(u32, u32)], cfg: u32) -> R {
                let (x, y): (BTreeSet<u32>, BTreeSet<u32>) = (a.iter().map(|x| x.0).collect(), b.iter().map(|x| x.0).collect());
                let w = (x.is_subset(&y), x.is_superset(&y), x.is_disjoint(&y));
                eq(&format!("subset, superset, disjoint of {x:?}, {y:?}"), (self.is_subset(o), self.is_superset(o), self.is_disjoint(o)), w)?;
                let o2: RedBlackTreeSet<K, $po> = build(b, cfg, 0);
                eq(&format!("(across pointer kinds) subset, superset, disjoint of {x:?}, {y:?}"), (self.is_subset(&o2), self.is_superset(&o2), self.is_disjoint(&o2)), w)?;
                let o3: Self = build(b, cfg, 3);
                eq(&format!("(rebuilt) subset, superset, disjoint of {x:?}, {y:?}"), (self.is_subset(&o3), self.is_superset(&o3), self.is_disjoint(&o3)), w)
            }
            fn json(&self) -> String { serde_json::to_string(self).unwrap() }
            fn from_json(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
            fn made(content: &[(u32, u32)], how: u32) -> Result<Self, String> {
                if how % 4 == 3 {
                    let mut t = vec![Tok::Seq(Some(content.len()))];
                    for x in content { t.push(Tok::Num(x.0 as u64)); }
                    t.push(Tok::End);
                    return toks::read(&t, how >> 2);
                }
                Ok(hint(content.iter().map(|x| k(x.0)).collect(), how >> 2).collect())
            }
            fn toks(&self) -> Result<Vec<Tok>, String> { toks::write(self) }
            fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String> { toks::read(t, hint) }
            fn into_place(&mut self, t: &[Tok], hint: u32) -> R { toks::read_into(t, hint, self) }
            fn bulk(items: &[(u32, u32)], cfg: u32) -> Vec<(&'static str, Vec<(u32, u32)>)> {
                let c: Self = hint(items.iter().map(|x| k(x.0)).collect(), cfg).collect();
                let lk: Vec<_> = (0..uni(cfg)).filter_map(|x| c.look(x)).collect();
                vec![("collect", lk), ("collect, iterated", c.all()), ("empty", Self::default().all()), ("empty with_ptr_kind", Self::new_with_ptr_kind().all()),
                    ("empty new", RedBlackTreeSet::<K>::new().all()), ("empty new_sync", RedBlackTreeSetSync::<K>::new_sync().all()),
                    ("rbt_set!", pairs(rbt_set![3, 1, 3, 7].iter().map(|a| (*a, 0)))), ("rbt_set_sync!", pairs(rbt_set_sync![3, 1, 3, 7].iter().map(|a| (*a, 0))))]
            }
        }
    };
}
rbm!(RcK, ArcTK);
rbm!(ArcTK, RcK);

macro_rules! htm {
    ($p:ty, $po:ty, $par:expr) => {
        impl MapC for HashTrieMap<K, u32, $p, BH> {
            const SET: bool = false;
            const ORDERED: bool = false;
            fn fresh(cfg: u32) -> Self { HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(bh(cfg), degree(cfg)) }
            fn ins_mut(&mut self, key: u32, v: u32) { self.insert_mut(k(key), v) }
            fn ins(&self, key: u32, v: u32) -> Self { self.insert(k(key), v) }
            fn rem_mut(&mut self, key: u32) -> bool { self.remove_mut(&Q(key)) }
            fn rem(&self, key: u32) -> Self { self.remove(&Q(key)) }
            fn look(&self, key: u32) -> Option<(u32, u32)> { self.get(&Q(key)).map(|v| (key, *v)) }
            fn look_more(&self, key: u32, want: Option<u32>) -> R {
                eq("get by key", self.get(&k(key)).copied(), want)?;
                eq("contains_key", self.contains_key(&Q(key)), want.is_some())?;
                eq("get_key_value", self.get_key_value(&Q(key)).map(|(a, b)| (a.0 .0, *b)), want.map(|v| (key, v)))?;
                if let Some(w) = want { eq("index", self[&Q(key)], w)?; }
                Ok(())
            }
            fn write(&mut self, key: u32, v: u32) -> Option<u32> { self.get_mut(&Q(key)).map(|x| std::mem::replace(x, v)) }
            fn size_(&self) -> (usize, bool) { (self.size(), self.is_empty()) }
            fn all(&self) -> Vec<(u32, u32)> { self.iter().map(|(a, b)| (a.0 .0, *b)).collect() }
            fn iter_check(&self, want: &[(u32, u32)], pat: u32) -> R {
                let order = stepped(self.iter().map(|(a, b)| (a.0 .0, *b)), want.len());
                consume::fwd("iter", || self.iter(), |(a, b)| (a.0 .0, *b), &order, pat, false)?;
                consume::fwd("keys", || self.keys(), |a| a.0 .0, &stepped(self.keys().map(|a| a.0 .0), want.len()), pat ^ 1, false)?;
                consume::fwd("values", || self.values(), |a| *a, &stepped(self.values().copied(), want.len()), pat ^ 2, false)?;
                lens(self.iter(), want.len(), pat)?;
                lens(self.keys(), want.len(), pat)?;
                lens(self.values(), want.len(), pat)?;
                counts(self.iter(), want.len())?;
                counts(self.keys(), want.len())?;
                counts(self.values(), want.len())?;
                eq("into_iter", pairs(self.into_iter().map(|(a, b)| (a.0 .0, *b))), want.to_vec())?;
                eq("keys", sorted(self.keys().map(|a| a.0 .0).collect()), want.iter().map(|x| x.0).collect())?;
                eq("values", sorted(self.values().copied().collect()), sorted(want.iter().map(|x| x.1).collect()))
            }
            fn par(&self) -> Option<Vec<(u32, u32)>> { let f: fn(&Self) -> Option<Vec<(u32, u32)>> = $par; f(self) }
            fn other_kind_eq(&self, c: &[(u32, u32)], cfg: u32) -> bool { let o: HashTrieMap<K, u32, $po, BH> = build(c, cfg ^ 0x21, 0); let r = *self == o; if (o == *self) != r { panic!("== is not symmetric") } r }
            fn json(&self) -> String { serde_json::to_string(self).unwrap() }
            fn from_json(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
            fn made(content: &[(u32, u32)], how: u32) -> Result<Self, String> {
                if how % 4 == 3 {
                    let mut t = vec![Tok::Map(Some(content.len()))];
                    for x in content { t.push(Tok::Num(x.0 as u64)); t.push(Tok::Num(x.1 as u64)); }
                    t.push(Tok::End);
                    return toks::read(&t, how >> 2);
                }
                Ok(hint(content.iter().map(|x| (k(x.0), x.1)).collect(), how >> 2).collect())
            }
            fn toks(&self) -> Result<Vec<Tok>, String> { toks::write(self) }
            fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String> { toks::read(t, hint) }
            fn into_place(&mut self, t: &[Tok], hint: u32) -> R { toks::read_into(t, hint, self) }
            fn bulk(items: &[(u32, u32)], cfg: u32) -> Vec<(&'static str, Vec<(u32, u32)>)> {
                let c: Self = hint(items.iter().map(|x| (k(x.0), x.1)).collect(), cfg).collect();
                let lk: Vec<_> = (0..uni(cfg)).filter_map(|x| c.look(x)).collect();
                let d: HashTrieMapSync<u32, u32> = items.iter().copied().collect();
                vec![("collect", lk), ("collect, iterated", pairs(c.all().into_iter())), ("collect sync", pairs(d.iter().map(|(a, b)| (*a, *b)))), ("empty", Self::default().all()),
                    ("empty with", Self::new_with_hasher_and_ptr_kind(bh(cfg)).all()), ("empty degree", Self::fresh(cfg).all()),
                    ("empty new", pairs(HashTrieMap::<u32, u32>::new().iter().map(|(a, b)| (*a, *b)))), ("empty new_with_degree", pairs(HashTrieMap::<u32, u32>::new_with_degree(degree(cfg)).iter().map(|(a, b)| (*a, *b)))),
                    ("empty new_sync", pairs(HashTrieMapSync::<u32, u32>::new_sync().iter().map(|(a, b)| (*a, *b)))), ("empty new_sync_with_degree", pairs(HashTrieMapSync::<u32, u32>::new_sync_with_degree(degree(cfg)).iter().map(|(a, b)| (*a, *b)))),
                    ("ht_map!", pairs(ht_map![3 => 1, 1 => 2, 3 => 4, 7 => 8].iter().map(|(a, b)| (*a, *b)))),
                    ("ht_map_sync!", pairs(ht_map_sync![3 => 1, 1 => 2, 3 => 4, 7 => 8].iter().map(|(a, b)| (*a, *b))))]
            }
        }
        impl MapC for HashTrieSet<K, $p, BH> {
            const SET: bool = true;
            const ORDERED: bool = false;
            fn fresh(cfg: u32) -> Self { HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(bh(cfg), degree(cfg)) }
            fn ins_mut(&mut self, key: u32, _: u32) { self.insert_mut(k(key)) }
            fn ins(&self, key: u32, _: u32) -> Self { self.insert(k(key)) }
            fn rem_mut(&mut self, key: u32) -> bool { self.remove_mut(&Q(key)) }
            fn rem(&self, key: u32) -> Self { self.remove(&Q(key)) }
            fn look(&self, key: u32) -> Option<(u32, u32)> { if self.contains(&Q(key)) { Some((key, 0)) } else { None } }
            fn look_more(&self, key: u32, want: Option<u32>) -> R {
                eq("contains by key", self.contains(&k(key)), want.is_some())?;
                eq("get", self.get(&Q(key)).map(|x| x.0 .0), want.map(|_| key))
            }
            fn size_(&self) -> (usize, bool) { (self.size(), self.is_empty()) }
            fn all(&self) -> Vec<(u32, u32)> { self.iter().map(|a| (a.0 .0, 0)).collect() }
            fn iter_check(&self, want: &[(u32, u32)], pat: u32) -> R {
                consume::fwd("iter", || self.iter(), |a| a.0 .0, &stepped(self.iter().map(|a| a.0 .0), want.len()), pat, false)?;
                lens(self.iter(), want.len(), pat)?;
                counts(self.iter(), want.len())?;
                eq("into_iter", sorted(self.into_iter().map(|a| a.0 .0).collect()), want.iter().map(|x| x.0).collect())
            }
            fn other_kind_eq(&self, c: &[(u32, u32)], cfg: u32) -> bool { let o: HashTrieSet<K, $po, BH> = build(c, cfg ^ 0x21, 0); let r = *self == o; if (o == *self) != r { panic!("== is not symmetric") } r }
            fn algebra(&self, o: &Self, a: &[(u32, u32)], b: &[(u32, u32)], cfg: u32) -> R {
                let (x, y): (BTreeSet<u32>, BTreeSet<u32>) = (a.iter().map(|x| x.0).collect(), b.iter().map(|x| x.0).collect());
                let w = (x.is_subset(&y), x.is_superset(&y), x.is_disjoint(&y));
                eq(&format!("subset, superset, disjoint of {x:?}, {y:?}"), (self.is_subset(o), self.is_superset(o), self.is_disjoint(o)), w)?;
                let o3: Self = build(b, cfg ^ 0x32, 3);
                eq(&format!("(rebuilt) subset, superset, disjoint of {x:?}, {y:?}"), (self.is_subset(&o3), self.is_superset(&o3), self.is_disjoint(&o3)), w)
            }
            fn json(&self) -> String { serde_json::to_string(self).unwrap() }
            fn from_json(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
            fn made(content: &[(u32, u32)], how: u32) -> Result<Self, String> {
                if how % 4 == 3 {
                    let mut t = vec![Tok::Seq(Some(content.len()))];
                    for x in content { t.push(Tok::Num(x.0 as u64)); }
                    t.push(Tok::End);
                    return toks::read(&t, how >> 2);
                }
                Ok(hint(content.iter().map(|x| k(x.0)).collect(), how >> 2).collect())
            }
            fn toks(&self) -> Result<Vec<Tok>, String> { toks::write(self) }
            fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String> { toks::read(t, hint) }
            fn into_place(&mut self, t: &[Tok], hint: u32) -> R { toks::read_into(t, hint, self) }
            fn bulk(items: &[(u32, u32)], cfg: u32) -> Vec<(&'static str, Vec<(u32, u32)>)> {
                let c: Self = hint(items.iter().map(|x| k(x.0)).collect(), cfg).collect();
                let lk: Vec<_> = (0..uni(cfg)).filter_map(|x| c.look(x)).collect();
                let d: HashTrieSetSync<u32> = items.iter().map(|x| x.0).collect();
                vec![("collect", lk), ("collect, iterated", pairs(c.all().into_iter())), ("collect sync", pairs(d.iter().map(|a| (*a, 0)))), ("empty", Self::default().all()),
                    ("empty with", Self::new_with_hasher_with_ptr_kind(bh(cfg)).all()), ("empty degree", Self::fresh(cfg).all()),
                    ("empty new", pairs(HashTrieSet::<u32>::new().iter().map(|a| (*a, 0)))), ("empty new_with_degree", pairs(HashTrieSet::<u32>::new_with_degree(degree(cfg)).iter().map(|a| (*a, 0)))),
                    ("empty new_sync", pairs(HashTrieSetSync::<u32>::new_sync().iter().map(|a| (*a, 0)))), ("empty new_with_degree_sync", pairs(HashTrieSetSync::<u32>::new_with_degree_sync(degree(cfg)).iter().map(|a| (*a, 0)))),
                    ("ht_set!", pairs(ht_set![3, 1, 3, 7].iter().map(|a| (*a, 0)))), ("ht_set_sync!", pairs(ht_set_sync![3, 1, 3, 7].iter().map(|a| (*a, 0))))]
            }
        }
    };
}
htm!(RcK, ArcTK, |_| None);
htm!(ArcTK, RcK, |m| {
    use rayon::iter::{IntoParallelIterator, ParallelIterator};
    let a: Vec<(u32, u32)> = pool(|| m.into_par_iter().map(|(a, b)| (a.0 .0, *b)).collect());
    // the smallest splits
    let n = pool(|| m.into_par_iter().count());
    if n != a.len() { return Some(vec![(u32::MAX, n as u32)]); }
    let (x, y) = pool(|| (m.into_par_iter().map(|(a, b)| (a.0 .0, *b)).reduce_with(|a, b| (a.0 ^ b.0, a.1 ^ b.1)), m.into_par_iter().fold(|| 0usize, |c, _| c + 1).sum::<usize>()));
    let w = a.iter().copied().reduce(|a, b| (a.0 ^ b.0, a.1 ^ b.1));
    if x != w || y != n { return Some(vec![(u32::MAX - 1, n as u32)]); }
    let mut b: Vec<(u32, u32)> = pool1(|| m.into_par_iter().map(|(a, b)| (a.0 .0, *b)).collect());
    let mut c = a.clone();
    b.sort_unstable();
    c.sort_unstable();
    if b != c { return Some(b); }
    let probe = a.len() / 2;
    if let Some(p) = a.get(probe).copied() {
        let (x, y) = pool(|| (m.into_par_iter().find_any(|(k, _)| k.0 .0 == p.0).map(|(k, v)| (k.0 .0, *v)), m.into_par_iter().any(|(k, _)| k.0 .0 == u32::MAX)));
        if x != Some(p) || y { return Some(vec![(u32::MAX - 2, n as u32)]); }
    }
    Some(a)
});

/// Configurations and documented panics.
pub fn run_config(_: Mode, cfg: u32, ops: &[u32]) -> R {
    let b = cfg as u8;
    let n = 40 + ops.first().map_or(0, |x| x >> 12) % 60;
    if cfg < 256 {
        let r = guard(|| Vector::<u32>::new_with_bits(b));
        if (1..=16).contains(&b) { if let Err(e) = &r { return Err(format!("Vector::new_with_bits({b}) is rejected: {e}")); } }
        let rs = guard(|| VectorSync::<u32>::new_with_bits(b));
        eq(&format!("Vector::VectorSync::new_with_bits({b}) accepts"), rs.is_ok(), r.is_ok())?;
        if let Ok(mut v) = r {
            guard(|| -> R {
                for i in 0..n { v.push_back_mut(i); }
                for i in 0..n { eq("get", v.get(i as usize), Some(&i))?; eq("set", v.set_mut(i as usize, i + 1), true)?; }
                eq("iteration", v.iter().copied().collect::<Vec<_>>(), (1..=n).collect())?;
                eq("reverse iteration", v.iter().rev().copied().collect::<Vec<_>>(), (1..=n).rev().collect())?;
                eq("get past the end", v.get(usize::MAX), None)?;
                for i in (0..n).rev() { eq("drop_last", v.drop_last_mut(), true)?; eq("len", v.len(), i as usize)?; }
                Ok(())
            }).map_err(|e| format!("Vector::new_with_bits({b}) is accepted: {e}"))?.map_err(|e| format!("Vector::new_with_bits({b}) is accepted: {e}"))?;
        }
        let r = guard(|| HashTrieMap::<K, u32, RcK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH(0), b));
        let r2 = guard(|| HashTrieSet::<K, RcK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH(0), b));
        eq(&format!("degree {b}: the set accepts"), r2.is_ok(), r.is_ok())?;
        if [2, 4, 8, 16, 32, 64].contains(&b) { if let Err(e) = &r { return Err(format!("degree {b} is rejected: {e}")); } }
        if r.is_ok() {
            for h in 0..8 {
                guard(|| -> R {
                    let mut m = HashTrieMap::<K, u32, RcK, BH>::new_with_hasher_and_degree_and_ptr_kind(BH(h), b);
                    for i in 0..n { m.insert_mut(k(i), i); }
                    for i in 0..n { eq("get", m.get(&Q(i)), Some(&i))?; }
                    eq("iteration", m.iter().count(), n as usize)?;
                    for i in 0..n { eq("remove", m.remove_mut(&Q(i)), true)?; }
                    eq("size", m.size(), 0)
                }).map_err(|e| format!("degree {b} is accepted: {e}"))?.map_err(|e| format!("degree {b} is accepted: {e}"))?;
            }
        }
        return Ok(());
    }
    // indexing something that is not there panics, and nothing else does
    guard(|| -> R {
        let v: Vector<u32> = (0..n).collect();
        eq("index past the end panics", guard(|| v[n as usize]).is_err(), true)?;
        let mut w = v.clone();
        eq("mutable index past the end panics", guard(|| w[n as usize] = 1).is_err(), true)?;
        let m: RedBlackTreeMap<K, u32> = (0..n).map(|i| (k(i), i)).collect();
        eq("indexing a missing key panics", guard(|| m[&Q(n)]).is_err(), true)?;
        let m: HashTrieMap<K, u32> = (0..n).map(|i| (k(i), i)).collect();
        eq("indexing a missing key panics", guard(|| m[&Q(n)]).is_err(), true)?;
        // size hints are only hints
        for kind in 0..6 {
            let items: Vec<u32> = (0..n).collect();
            let x: List<u32> = hint(items.clone(), kind).collect();
            eq("collected", x.len(), n as usize)?;
            let x: Stack<u32> = hint(items.clone(), kind).collect();
            eq("collected", x.size(), n as usize)?;
            let x: Queue<u32> = hint(items.clone(), kind).collect();
            eq("collected", x.len(), n as usize)?;
            let x: Vector<u32> = hint(items.clone(), kind).collect();
            eq("collected", x.len(), n as usize)?;
            let x: RedBlackTreeSet<u32> = hint(items.clone(), kind).collect();
            eq("collected", x.size(), n as usize)?;
            let x: HashTrieSet<u32> = hint(items, kind).collect();
            eq("collected", x.size(), n as usize)?;
        }
        Ok(())
    })?
}
