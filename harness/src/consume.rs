//! Consuming an iterator that was already advanced through its provided methods.
use crate::core::*;
use std::fmt::Debug;

const FWD: u32 = 13;
const BACK: u32 = 9;

/// Which consumers, and how many elements to take first.
fn choices(pat: u32, n: usize, kinds: u32) -> Vec<(u32, u32)> {
    let mut g = Rng(pat as u64 ^ 0x5eed);
    if n <= 6 { (0..kinds).map(|k| (k, g.next() as u32)).collect() } else { (0..2).map(|_| (g.below(kinds as u64) as u32, g.next() as u32)).collect() }
}

/// `want` is the whole sequence in iteration order.  When `!ordered` the bulk consumers may use another order.
pub fn fwd<T: PartialEq + Debug + Clone + Ord, X, I: Iterator<Item = X>>(what: &str, mk: impl Fn() -> I, f: impl Fn(X) -> T + Copy, want: &[T], pat: u32, ordered: bool) -> R {
    let n = want.len();
    for (kind, r) in choices(pat, n, FWD) {
        let a = r as usize % (n + 1);
        let j = (r >> 8) as usize % (n - a + 2);
        let mut it = mk();
        for i in 0..a { eq(&format!("{what}: step {i}"), it.next().map(f), Some(want[i].clone()))?; }
        let rest = &want[a..];
        let name = |m: &str| format!("{what}: {m} after {a} of {n} steps");
        let same = |m: &str, mut got: Vec<T>, mut w: Vec<T>| -> R { if !ordered { got.sort(); w.sort(); } eq(&name(m), got, w) };
        match kind {
            0 => same("collect", it.map(f).collect(), rest.to_vec())?,
            1 => same("fold", it.fold(vec![], |mut v, x| { v.push(f(x)); v }), rest.to_vec())?,
            2 => { let mut v = vec![]; it.for_each(|x| v.push(f(x))); same("for_each", v, rest.to_vec())? }
            3 => eq(&name("count"), it.count(), rest.len())?,
            4 => { let l = it.last().map(f); if ordered { eq(&name("last"), l, rest.last().cloned())? } else { eq(&name("last"), l.is_none(), rest.is_empty())?; if let Some(l) = l { eq(&name("last"), rest.contains(&l), true)?; } } }
            5 => {
                let x = it.nth(j).map(f);
                let left = rest.len().saturating_sub(j + 1);
                if ordered { eq(&name(&format!("nth({j})")), x, rest.get(j).cloned())?; same(&format!("the rest after nth({j})"), it.map(f).collect(), rest[rest.len() - left..].to_vec())?; }
                else { eq(&name(&format!("nth({j})")), x.is_some(), j < rest.len())?; eq(&name(&format!("the rest after nth({j})")), it.count(), left)?; }
            }
            6 => { let mut v: Vec<T> = it.by_ref().take(j).map(f).collect(); v.extend(it.map(f)); same("take and the rest", v, rest.to_vec())? }
            7 => { let (mut seen, t) = (vec![], j); let all = it.all(|x| { seen.push(f(x)); seen.len() < t }); eq(&name("all"), all, seen.is_empty() || seen.len() < t)?; seen.extend(it.map(f)); same("all and the rest", seen, rest.to_vec())? }
            8 => { let mut seen = vec![]; let p = it.position(|x| { seen.push(f(x)); seen.len() > j }); eq(&name("position"), p, if j < rest.len() { Some(j) } else { None })?; seen.extend(it.map(f)); same("position and the rest", seen, rest.to_vec())? }
            9 => { let mut v = vec![]; let r: Result<(), ()> = it.try_for_each(|x| { v.push(f(x)); if v.len() > j { Err(()) } else { Ok(()) } }); eq(&name("try_for_each"), r.is_err(), j < rest.len())?; v.extend(it.map(f)); same("try_for_each and the rest", v, rest.to_vec())? }
            10 => { eq(&name("min and max"), (it.map(f).min(), mk().map(f).max()), (rest.iter().min().cloned(), want.iter().max().cloned()))? }
            11 => { let mut v = vec![]; for x in it.by_ref() { v.push(f(x)); if v.len() == j { break; } } let left = rest.len() - v.len(); eq(&name("rest after a loop"), it.count(), left)? }
            _ => if ordered { let s = 1 + j; eq(&name(&format!("step_by({s})")), it.step_by(s).map(f).collect::<Vec<_>>(), rest.iter().step_by(s).cloned().collect())? } else { let v: Vec<T> = it.skip(j).map(f).collect(); eq(&name(&format!("skip({j})")), v.len(), rest.len().saturating_sub(j))? },
        }
    }
    Ok(())
}

pub fn back<T: PartialEq + Debug + Clone + Ord, X, I: DoubleEndedIterator<Item = X>>(what: &str, mk: impl Fn() -> I, f: impl Fn(X) -> T + Copy, want: &[T], pat: u32) -> R {
    let n = want.len();
    for (kind, r) in choices(pat, n, BACK + FWD) {
        let a = r as usize % (n + 1);
        let b = (r >> 8) as usize % (n - a + 1);
        let j = (r >> 16) as usize % (n - a - b + 2);
        let mut it = mk();
        for i in 0..a { eq(&format!("{what}: step {i}"), it.next().map(f), Some(want[i].clone()))?; }
        for i in 0..b { eq(&format!("{what}: back step {i}"), it.next_back().map(f), Some(want[n - 1 - i].clone()))?; }
        let rest = &want[a..n - b];
        let rev: Vec<T> = rest.iter().rev().cloned().collect();
        let name = |m: &str| format!("{what}: {m} after {a} steps and {b} back of {n}");
        match kind {
            0 => eq(&name("rfold"), it.rfold(vec![], |mut v, x| { v.push(f(x)); v }), rev)?,
            1 => eq(&name("rev().collect"), it.rev().map(f).collect::<Vec<_>>(), rev)?,
            2 => {
                eq(&name(&format!("nth_back({j})")), it.nth_back(j).map(f), rev.get(j).cloned())?;
                eq(&name(&format!("the rest after nth_back({j})")), it.map(f).collect::<Vec<_>>(), rest[..rest.len().saturating_sub(j + 1)].to_vec())?;
            }
            3 => { let mut v = vec![]; let r: Option<T> = it.rfind(|_| { v.push(()); v.len() > j }).map(f); eq(&name("rfind"), r, rev.get(j).cloned())?; eq(&name("the rest after rfind"), it.map(f).collect::<Vec<_>>(), rest[..rest.len().saturating_sub(j + 1)].to_vec())? }
            4 => { let mut v = vec![]; let r: Result<(), ()> = it.try_rfold((), |(), x| { v.push(f(x)); if v.len() > j { Err(()) } else { Ok(()) } }); eq(&name("try_rfold"), r.is_err(), j < rest.len())?; v.extend(it.rev().map(f)); eq(&name("try_rfold and the rest"), v, rev)? }
            5 => eq(&name("rev().fold"), it.rev().fold(vec![], |mut v, x| { v.push(f(x)); v }), rev)?,
            6 => eq(&name("rev().last"), it.rev().last().map(f), rest.first().cloned())?,
            7 => { let mut v = vec![]; it.rev().for_each(|x| v.push(f(x))); eq(&name("rev().for_each"), v, rev)? }
            8 => { let x = it.nth(j).map(f); let from = (j + 1).min(rest.len()); eq(&name(&format!("nth({j})")), x, rest.get(j).cloned())?; eq(&name("next_back after nth"), it.next_back().map(f), rest[from..].last().cloned())?; }
            9 => eq(&name("collect"), it.map(f).collect::<Vec<_>>(), rest.to_vec())?,
            10 => eq(&name("count"), it.count(), rest.len())?,
            11 => eq(&name("last"), it.last().map(f), rest.last().cloned())?,
            12 => { let mut v = vec![]; it.for_each(|x| v.push(f(x))); eq(&name("for_each"), v, rest.to_vec())? }
            13 => { let mut v: Vec<T> = vec![]; v.extend(it.by_ref().take(j).map(f)); v.extend(it.map(f)); eq(&name("take and the rest"), v, rest.to_vec())? }
            14 => { let mut v = vec![]; let r: Result<(), ()> = it.try_fold((), |(), x| { v.push(f(x)); if v.len() > j { Err(()) } else { Ok(()) } }); eq(&name("try_fold"), r.is_err(), j < rest.len())?; v.extend(it.map(f)); eq(&name("try_fold and the rest"), v, rest.to_vec())? }
            _ => eq(&name("fold"), it.fold(vec![], |mut v, x| { v.push(f(x)); v }), rest.to_vec())?,
        }
    }
    Ok(())
}
