//! List, Vector, Queue and Stack against `Vec`.
use crate::consume;
use crate::core::*;
use crate::toks::{self, Tok};
use rpds::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Records what is written to the hasher.
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { let mut d = DefaultHasher::new(); d.write(&self.0); d.finish() }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); self.0.push(0xfe); }
}
pub fn rec<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }

pub trait SeqC: Clone + PartialEq + Ord + Hash + Sized {
    type Sync: Clone;
    const NOPS: u32;
    fn fresh(cfg: u32) -> Self;
    /// In place; `Ok(false)` when refused.  Returns the description of a wrong return value.
    fn op_mut(&mut self, k: u32, arg: u32, m: &mut Vec<u32>) -> R;
    fn op_new(&self, k: u32, arg: u32, m: &mut Vec<u32>) -> Result<Option<Self>, String>;
    /// observers other than iteration
    fn observe(&self, m: &[u32]) -> R;
    /// contents by element access
    fn access(&self) -> Vec<u32>;
    fn iterate(&self) -> Vec<u32>;
    fn iter_check(&self, want: &[u32], pat: u32) -> R;
    fn build_other_way(content: &[u32], cfg: u32) -> Vec<Self>;
    fn eq_sync(&self, content: &[u32]) -> (bool, Option<Ordering>);
    fn json(&self) -> String;
    fn from_json(s: &str) -> Result<Self, String>;
    /// made at once: `how` chooses collecting (and the size hint) or deserializing
    fn made(content: &[u32], how: u32) -> Result<Self, String>;
    fn toks(&self) -> Result<Vec<Tok>, String>;
    fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String>;
    fn into_place(&mut self, t: &[Tok], hint: u32) -> R;
    fn bulk(items: &[u32], cfg: u32) -> Vec<(&'static str, Vec<u32>, Vec<u32>)>;
}

/// Iterators with different size hints.
pub struct Hinted<I> { pub it: I, pub kind: u32, pub left: usize }
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { let r = self.it.next(); if r.is_some() { self.left -= 1; } r }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.kind % 9 {
            0 => (self.left, Some(self.left)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (self.left / 2, Some(self.left + 3)),
            4 => (self.left, None),
            5 => (self.left / 2, None),
            6 => (self.left.min(1), None),
            7 => (self.left - self.left.min(1), Some(self.left * 2)),
            _ => (0, Some(self.left + 1)),
        }
    }
}
pub fn hinted(items: &[u32], kind: u32) -> Hinted<std::vec::IntoIter<u32>> { Hinted { it: items.to_vec().into_iter(), kind: kind.wrapping_add(items.len() as u32), left: items.len() } }

/// Forward iteration with exact remaining counts.
pub fn iter_forward<'a, I: Iterator<Item = &'a u32>>(it: I, len: impl Fn(&I) -> usize, want: &[u32]) -> R {
    let mut it = it;
    let mut got = vec![];
    loop {
        if let Some(h) = it.size_hint().1 {
            eq("size_hint lower", it.size_hint().0, want.len().saturating_sub(got.len()))?;
            eq("size_hint upper", h, want.len().saturating_sub(got.len()))?;
        } else {
            return Err("size_hint has no upper bound".into());
        }
        eq("len", len(&it), want.len().saturating_sub(got.len()))?;
        match it.next() {
            Some(x) => got.push(*x),
            None => break,
        }
        if got.len() > want.len() { return Err(format!("iteration yields too much: {got:?}, expected {want:?}")); }
    }
    eq("iteration", &got[..], want)?;
    for _ in 0..3 { eq("iteration after the end", it.next().copied(), None)?; }
    eq("size_hint after the end", it.size_hint().0, 0)
}

/// Interleaved double-ended iteration; the bits of `pat` choose the end.
pub fn iter_both<'a, I: DoubleEndedIterator<Item = &'a u32> + ExactSizeIterator>(mut it: I, want: &[u32], pat: u32) -> R {
    let (mut lo, mut hi) = (0usize, want.len());
    let mut p = pat.wrapping_mul(2654435761) | 1;
    for step in 0..want.len() + 4 {
        eq("remaining count", it.len(), hi - lo)?;
        let back = match pat % 5 { 0 => false, 1 => true, 2 => step % 2 == 0, _ => { p ^= p << 13; p ^= p >> 17; p ^= p << 5; p & 1 == 0 } };
        let want_x = if lo < hi { Some(if back { hi -= 1; want[hi] } else { lo += 1; want[lo - 1] }) } else { None };
        let got = if back { it.next_back() } else { it.next() };
        eq(if back { "next_back" } else { "next" }, got.copied(), want_x)?;
    }
    Ok(())
}

pub fn run_seq<C: SeqC>(mode: Mode, cfg: u32, ops: &[u32]) -> R {
    if mode == Mode::Bulk {
        let items: Vec<u32> = ops.iter().map(|x| x >> 12).collect();
        for (what, got, want) in C::bulk(&items, cfg) { eq(what, got, want)?; }
        return Ok(());
    }
    let n = C::NOPS;
    let mut slots: Vec<(C, Vec<u32>)> = (0..3).map(|_| (C::fresh(cfg), vec![])).collect();
    // large collections to begin with
    let fill = cfg >> 16;
    let cfg = cfg & 0xffff;
    let r = guard(|| -> R {
        for i in 0..fill { let (c, m) = &mut slots[0]; c.op_mut(0, i * 7 + 1, m)?; }
        if fill > 0 { let m = slots[0].1.clone(); slots[1] = if fill % 2 == 0 { slots[0].clone() } else { (C::made(&m, fill)?, m) }; }
        Ok(())
    });
    match r { Ok(Ok(())) => {} Err(e) | Ok(Err(e)) => { if matches!(mode, Mode::Content | Mode::Panic) { return Err(e); } } }
    for &code in ops {
        let op = (code & 0xff) % (2 * n + 2);
        let s = ((code >> 8) & 3) as usize % 3;
        let d = ((code >> 10) & 3) as usize % 3;
        let arg = code >> 12;
        let before: Vec<Vec<u32>> = if mode == Mode::Persist { slots.iter().map(|x| x.0.access()).collect() } else { vec![] };
        let mut touched = s;
        let mut in_place = false;
        let r = guard(|| -> R {
            if op < n {
                let (c, m) = &mut slots[s];
                in_place = true;
                c.op_mut(op, arg, m)
            } else if op < 2 * n {
                let mut m = slots[s].1.clone();
                if let Some(c) = slots[s].0.op_new(op - n, arg, &mut m)? {
                    slots[d] = (c, m);
                    touched = d;
                }
                Ok(())
            } else if op == 2 * n {
                if arg & 1 == 1 {
                    let src = slots[s].clone();
                    slots[d].0.clone_from(&src.0);
                    slots[d].1 = src.1;
                } else {
                    slots[d] = slots[s].clone();
                }
                touched = d;
                Ok(())
            } else if arg & 6 != 0 {
                let m = slots[s].1.clone();
                slots[d] = (C::made(&m, arg >> 3)?, m);
                touched = d;
                Ok(())
            } else {
                slots[d] = (C::fresh(cfg + arg % 3 * 16), vec![]);
                touched = d;
                Ok(())
            }
        });
        let stop = match r {
            Err(p) => match mode { Mode::Panic | Mode::Content => return Err(format!("operation {op}: {p}")), _ => true },
            Ok(Err(e)) => match mode { Mode::Content => return Err(e), _ => false },
            Ok(Ok(())) => false,
        };
        match mode {
            Mode::Persist => {
                for (i, b) in before.iter().enumerate() {
                    if i != touched || (op >= n && op < 2 * n && touched == s && i == s && false) {
                        eq(&format!("contents of value {i} after operation {op} on value {s}"), &slots[i].0.access(), b)?;
                        eq(&format!("iteration of value {i} after operation {op} on value {s}"), &slots[i].0.iterate(), b)?;
                    }
                }
                if op == 2 * n { eq("clone", &slots[d].0.access(), &before[s])?; }
                let _ = in_place;
            }
            Mode::Content => {
                let (c, m) = &slots[touched];
                c.observe(m)?;
                eq("iteration", &c.iterate(), m)?;
            }
            Mode::Iter => {
                let c = &slots[touched].0;
                let Ok(a) = guard(|| c.access()) else { return Ok(()) };
                c.iter_check(&a, arg)?;
            }
            Mode::Panic => {
                let (c, m) = &slots[touched];
                guard(|| { let _ = c.observe(m); let _ = c.iterate(); let _ = c.iter_check(m, arg); })?;
            }
            Mode::Eq | Mode::OrdHash | Mode::Serde => {}
            _ => {}
        }
        if stop { break; }
    }
    match mode {
        Mode::Eq => {
            let acc: Vec<Vec<u32>> = slots.iter().map(|x| x.0.access()).collect();
            for i in 0..3 {
                for j in 0..3 {
                    eq("==", slots[i].0 == slots[j].0, acc[i] == acc[j])?;
                    eq("!=", slots[i].0 != slots[j].0, acc[i] != acc[j])?;
                    eq("== across pointer kinds", slots[i].0.eq_sync(&acc[j]).0, acc[i] == acc[j])?;
                }
                for o in C::build_other_way(&acc[i], cfg) {
                    if o.access() != acc[i] { continue; }
                    if !(o == slots[i].0) || !(slots[i].0 == o) { return Err(format!("same contents {:?}, built differently, not equal", acc[i])); }
                }
            }
        }
        Mode::OrdHash => {
            let acc: Vec<Vec<u32>> = slots.iter().map(|x| x.0.access()).collect();
            for i in 0..3 {
                for j in 0..3 {
                    let w = acc[i].cmp(&acc[j]);
                    eq("cmp", slots[i].0.cmp(&slots[j].0), w)?;
                    eq("partial_cmp", slots[i].0.partial_cmp(&slots[j].0), Some(w))?;
                    let (a, b) = (&slots[i].0, &slots[j].0);
                    eq("comparison operators", (a < b, a <= b, a > b, a >= b), (w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()))?;
                    eq("max and min", (a.clone().max(b.clone()).access(), a.clone().min(b.clone()).access()), (acc[i].clone().max(acc[j].clone()), acc[i].clone().min(acc[j].clone())))?;
                    eq("partial_cmp across pointer kinds", slots[i].0.eq_sync(&acc[j]).1, Some(w))?;
                    if acc[i] == acc[j] { eq("hash of equal values", rec(&slots[i].0), rec(&slots[j].0))?; }
                    // adjacent collections
                    for k in 0..3 {
                        for l in 0..3 {
                            let (a, b) = ((&acc[i], &acc[j]), (&acc[k], &acc[l]));
                            if a != b && rec(&(&slots[i].0, &slots[j].0)) == rec(&(&slots[k].0, &slots[l].0)) {
                                return Err(format!("pairs {a:?} and {b:?} feed the same data to the hasher"));
                            }
                        }
                    }
                }
                for o in C::build_other_way(&acc[i], cfg) {
                    if o.access() != acc[i] { continue; }
                    eq("hash of equal values built differently", rec(&o), rec(&slots[i].0))?;
                    eq("hash of equal slices", rec(&vec![o.clone(), o.clone()]), rec(&vec![slots[i].0.clone(), o.clone()]))?;
                    eq("cmp of equal values built differently", o.cmp(&slots[i].0), Ordering::Equal)?;
                }
                // a pair split differently
                let a = &acc[i];
                for cut in (0..=a.len()).step_by(a.len() / 40 + 1) {
                    let (x, y) = (&a[..cut], &a[cut..]);
                    let (p, q) = (C::build_other_way(x, cfg).pop().unwrap(), C::build_other_way(y, cfg).pop().unwrap());
                    let whole = rec(&(&C::build_other_way(a, cfg).pop().unwrap(), &C::fresh(cfg)));
                    if cut != a.len() && rec(&(&p, &q)) == whole { return Err(format!("{x:?},{y:?} and {a:?},[] feed the same data to the hasher")); }
                }
            }
        }
        Mode::Serde => {
            let slots_first = slots[0].0.clone();
            for (c, _) in &slots {
                let a = c.access();
                let j = c.json();
                eq("serialized form", j.clone(), serde_json::to_string(&a).unwrap())?;
                let b = C::from_json(&j)?;
                eq("deserialized contents", b.access(), a.clone())?;
                eq("deserialized iteration", b.iterate(), c.iterate())?;
                if !(b == *c) { return Err("deserialized value is not equal".into()); }
                let t = c.toks()?;
                let mut want = vec![t[0].clone()];
                if !matches!(t[0], Tok::Seq(_)) { return Err(format!("serialized as {:?}", t[0])); }
                want.extend(a.iter().map(|x| Tok::Num(*x as u64)));
                want.push(Tok::End);
                eq("serialized tokens", &t, &want)?;
                for hint in 0..6 {
                    let b = guard(|| C::from_toks(&t, hint)).and_then(|x| x).map_err(|e| format!("size hint kind {hint}: {e}"))?;
                    eq("deserialized contents (tokens)", b.access(), a.clone())?;
                    let mut b = slots_first.clone();
                    b.into_place(&t, hint)?;
                    eq("contents deserialized in place", b.access(), a.clone())?;
                    // an input that fails half way is refused
                    let mut f = t.clone();
                    f.insert(1 + (hint as usize * 7) % (a.len() + 1), Tok::Fail);
                    if let Ok(b) = guard(|| C::from_toks(&f, hint))? { return Err(format!("a failing input was accepted as {:?}", b.access())); }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

macro_rules! common {
    ($sync:ty) => {
        fn json(&self) -> String { serde_json::to_string(self).unwrap() }
        fn from_json(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
        fn made(content: &[u32], how: u32) -> Result<Self, String> {
            if how % 4 == 3 {
                let mut t = vec![Tok::Seq(Some(content.len()))];
                t.extend(content.iter().map(|x| Tok::Num(*x as u64)));
                t.push(Tok::End);
                return toks::read(&t, how >> 2);
            }
            Ok(hinted(content, how >> 2).collect())
        }
        fn toks(&self) -> Result<Vec<Tok>, String> { toks::write(self) }
        fn from_toks(t: &[Tok], hint: u32) -> Result<Self, String> { toks::read(t, hint) }
        fn into_place(&mut self, t: &[Tok], hint: u32) -> R { toks::read_into(t, hint, self) }
        fn iterate(&self) -> Vec<u32> {
            let a: Vec<u32> = self.iter().copied().collect();
            let mut b = vec![];
            for x in self { b.push(*x); }
            if a != b { panic!("iter and into_iter differ") }
            a
        }
    };
}

impl SeqC for List<u32> {
    type Sync = ListSync<u32>;
    const NOPS: u32 = 3;
    common!(ListSync<u32>);
    fn fresh(_: u32) -> Self { List::new() }
    fn op_mut(&mut self, k: u32, arg: u32, m: &mut Vec<u32>) -> R {
        match k {
            0 => { self.push_front_mut(arg); m.insert(0, arg); Ok(()) }
            1 => { let w = !m.is_empty(); if w { m.remove(0); } eq("drop_first_mut", self.drop_first_mut(), w) }
            _ => { self.reverse_mut(); m.reverse(); Ok(()) }
        }
    }
    fn op_new(&self, k: u32, arg: u32, m: &mut Vec<u32>) -> Result<Option<Self>, String> {
        match k {
            0 => { m.insert(0, arg); Ok(Some(self.push_front(arg))) }
            1 => { let r = self.drop_first(); eq("drop_first", r.is_some(), !m.is_empty())?; if !m.is_empty() { m.remove(0); } Ok(r) }
            _ => { m.reverse(); Ok(Some(self.reverse())) }
        }
    }
    fn observe(&self, m: &[u32]) -> R {
        eq("first", self.first(), m.first())?;
        eq("last", self.last(), m.last())?;
        eq("len", self.len(), m.len())?;
        eq("is_empty", self.is_empty(), m.is_empty())
    }
    fn access(&self) -> Vec<u32> {
        let mut c = self.clone();
        let mut v = vec![];
        while let Some(x) = c.first() { v.push(*x); c = c.drop_first().unwrap(); }
        v
    }
    fn iter_check(&self, want: &[u32], pat: u32) -> R { iter_forward(self.iter(), ExactSizeIterator::len, want)?; iter_forward(self.into_iter(), ExactSizeIterator::len, want)?; consume::fwd("iter", || self.iter(), |x| *x, want, pat, true) }
    fn build_other_way(c: &[u32], _: u32) -> Vec<Self> {
        let mut a = List::new();
        for x in c { a.push_front_mut(*x); }
        let mut b = List::new().push_front(7);
        b.drop_first_mut();
        for x in c.iter().rev() { b = b.push_front(*x); }
        vec![a.reverse(), c.iter().copied().collect(), b]
    }
    fn eq_sync(&self, c: &[u32]) -> (bool, Option<Ordering>) { let s: ListSync<u32> = c.iter().copied().collect(); (*self == s && s == *self, self.partial_cmp(&s)) }
    fn bulk(items: &[u32], cfg: u32) -> Vec<(&'static str, Vec<u32>, Vec<u32>)> {
        let l: List<u32> = hinted(items, cfg).collect();
        let s: ListSync<u32> = hinted(items, cfg).collect();
        let mut o: List<u32> = list![];
        for x in items.iter().rev() { o.push_front_mut(*x); }
        let w = items.to_vec();
        let mut r = vec![
            ("collect", l.access(), w.clone()),
            ("collect, iterated", l.iterate(), w.clone()),
            ("collect sync", s.iter().copied().collect(), w.clone()),
            ("collect first/last/len", vec![l.len() as u32, l.first().copied().unwrap_or(9), l.last().copied().unwrap_or(9)], vec![w.len() as u32, w.first().copied().unwrap_or(9), w.last().copied().unwrap_or(9)]),
            ("one by one", o.access(), w.clone()),
            ("list!", list![1, 2, 3].access(), vec![1, 2, 3]),
            ("list![1]", list![1].access(), vec![1]),
            ("list! of 5", list![5, 4, 3, 2, 1].access(), vec![5, 4, 3, 2, 1]),
            ("list_sync!", list_sync![1u32, 2, 3].iter().copied().collect(), vec![1, 2, 3]),
            ("empty", List::<u32>::default().iterate(), vec![]),
            ("new_sync", ListSync::<u32>::new_sync().iter().copied().collect(), vec![]),
            ("new_with_ptr_kind", List::<u32>::new_with_ptr_kind().access(), vec![]),
        ];
        if let [a, b, c, d] = *items { r.push(("list![a, b, c, d]", list![a, b, c, d].access(), w.clone())); r.push(("list_sync![a, b, c, d]", list_sync![a, b, c, d].iter().copied().collect(), w.clone())); }
        if let [a, b] = *items { r.push(("list![a, b]", list![a, b].access(), w.clone())); }
        r
    }
}

impl SeqC for Stack<u32> {
    type Sync = StackSync<u32>;
    const NOPS: u32 = 2;
    common!(StackSync<u32>);
    fn fresh(_: u32) -> Self { Stack::new() }
    // the model is from the top
    fn op_mut(&mut self, k: u32, arg: u32, m: &mut Vec<u32>) -> R {
        match k {
            0 => { self.push_mut(arg); m.insert(0, arg); Ok(()) }
            _ => { let w = !m.is_empty(); if w { m.remove(0); } eq("pop_mut", self.pop_mut(), w) }
        }
    }
    fn op_new(&self, k: u32, arg: u32, m: &mut Vec<u32>) -> Result<Option<Self>, String> {
        match k {
            0 => { m.insert(0, arg); Ok(Some(self.push(arg))) }
            _ => { let r = self.pop(); eq("pop", r.is_some(), !m.is_empty())?; if !m.is_empty() { m.remove(0); } Ok(r) }
        }
    }
    fn observe(&self, m: &[u32]) -> R {
        eq("peek", self.peek(), m.first())?;
        eq("size", self.size(), m.len())?;
        eq("is_empty", self.is_empty(), m.is_empty())
    }
    fn access(&self) -> Vec<u32> {
        let mut c = self.clone();
        let mut v = vec![];
        while let Some(x) = c.peek() { v.push(*x); c = c.pop().unwrap(); }
        v
    }
    fn iter_check(&self, want: &[u32], pat: u32) -> R { iter_forward(self.iter(), ExactSizeIterator::len, want)?; iter_forward(self.into_iter(), ExactSizeIterator::len, want)?; consume::fwd("iter", || self.iter(), |x| *x, want, pat, true) }
    fn build_other_way(c: &[u32], _: u32) -> Vec<Self> {
        let mut a = Stack::new().push(3);
        a.pop_mut();
        for x in c.iter().rev() { a.push_mut(*x); }
        vec![c.iter().copied().collect(), a]
    }
    fn eq_sync(&self, c: &[u32]) -> (bool, Option<Ordering>) { let mut s: StackSync<u32> = StackSync::new_sync(); for x in c.iter().rev() { s.push_mut(*x); } (*self == s && s == *self, self.partial_cmp(&s)) }
    fn bulk(items: &[u32], cfg: u32) -> Vec<(&'static str, Vec<u32>, Vec<u32>)> {
        let l: Stack<u32> = hinted(items, cfg).collect();
        let s: StackSync<u32> = hinted(items, cfg).collect();
        let w = items.to_vec();
        let mut r = vec![
            ("collect", l.access(), w.clone()),
            ("collect, iterated", l.iterate(), w.clone()),
            ("collect sync", s.iter().copied().collect(), w.clone()),
            ("stack!", stack![1, 2, 3].access(), vec![3, 2, 1]),
            ("stack_sync!", stack_sync![1u32, 2, 3].iter().copied().collect(), vec![3, 2, 1]),
            ("empty", Stack::<u32>::default().iterate(), vec![]),
            ("new_sync", StackSync::<u32>::new_sync().iter().copied().collect(), vec![]),
            ("new_with_ptr_kind", Stack::<u32>::new_with_ptr_kind().access(), vec![]),
        ];
        if let [a, b, c, d] = *items { let mut q = w.clone(); q.reverse(); r.push(("stack![a, b, c, d]", stack![a, b, c, d].access(), q.clone())); r.push(("stack_sync![a, b, c, d]", stack_sync![a, b, c, d].iter().copied().collect(), q)); }
        r
    }
}

impl SeqC for Queue<u32> {
    type Sync = QueueSync<u32>;
    const NOPS: u32 = 2;
    common!(QueueSync<u32>);
    fn fresh(_: u32) -> Self { Queue::new() }
    fn op_mut(&mut self, k: u32, arg: u32, m: &mut Vec<u32>) -> R {
        match k {
            0 => { self.enqueue_mut(arg); m.push(arg); Ok(()) }
            _ => { let w = !m.is_empty(); if w { m.remove(0); } eq("dequeue_mut", self.dequeue_mut(), w) }
        }
    }
    fn op_new(&self, k: u32, arg: u32, m: &mut Vec<u32>) -> Result<Option<Self>, String> {
        match k {
            0 => { m.push(arg); Ok(Some(self.enqueue(arg))) }
            _ => { let r = self.dequeue(); eq("dequeue", r.is_some(), !m.is_empty())?; if !m.is_empty() { m.remove(0); } Ok(r) }
        }
    }
    fn observe(&self, m: &[u32]) -> R {
        eq("peek", self.peek(), m.first())?;
        eq("len", self.len(), m.len())?;
        eq("is_empty", self.is_empty(), m.is_empty())
    }
    fn access(&self) -> Vec<u32> {
        let mut c = self.clone();
        let mut v = vec![];
        while let Some(x) = c.peek() { v.push(*x); c = c.dequeue().unwrap(); }
        v
    }
    fn iter_check(&self, want: &[u32], pat: u32) -> R { iter_forward(self.iter(), |i| i.size_hint().0, want)?; iter_forward(self.into_iter(), |i| i.size_hint().0, want)?; consume::fwd("iter", || self.iter(), |x| *x, want, pat, true) }
    fn build_other_way(c: &[u32], _: u32) -> Vec<Self> {
        let mut a = Queue::new();
        for x in c { a.enqueue_mut(*x); }
        let mut b = Queue::new().enqueue(1).enqueue(2);
        let h = c.len() / 2;
        for x in &c[..h] { b.enqueue_mut(*x); }
        b.dequeue_mut();
        for x in &c[h..] { b = b.enqueue(*x); }
        b.dequeue_mut();
        vec![c.iter().copied().collect(), b, a]
    }
    fn eq_sync(&self, c: &[u32]) -> (bool, Option<Ordering>) { let mut s: QueueSync<u32> = QueueSync::new_sync(); for x in c { s.enqueue_mut(*x); } (*self == s && s == *self, self.partial_cmp(&s)) }
    fn bulk(items: &[u32], cfg: u32) -> Vec<(&'static str, Vec<u32>, Vec<u32>)> {
        let l: Queue<u32> = hinted(items, cfg).collect();
        let s: QueueSync<u32> = hinted(items, cfg).collect();
        let w = items.to_vec();
        let mut r = vec![
            ("collect", l.access(), w.clone()),
            ("collect, iterated", l.iterate(), w.clone()),
            ("collect sync", s.iter().copied().collect(), w.clone()),
            ("queue!", queue![1, 2, 3].access(), vec![1, 2, 3]),
            ("queue_sync!", queue_sync![1u32, 2, 3].iter().copied().collect(), vec![1, 2, 3]),
            ("empty", Queue::<u32>::default().iterate(), vec![]),
            ("new_sync", QueueSync::<u32>::new_sync().iter().copied().collect(), vec![]),
            ("new_with_ptr_kind", Queue::<u32>::new_with_ptr_kind().access(), vec![]),
        ];
        if let [a, b, c, d] = *items { r.push(("queue![a, b, c, d]", queue![a, b, c, d].access(), w.clone())); r.push(("queue_sync![a, b, c, d]", queue_sync![a, b, c, d].iter().copied().collect(), w.clone())); }
        r
    }
}

/// cfg & 15 = bits (0: default)
pub fn vec_bits(cfg: u32) -> u8 { match (cfg & 15) + ((cfg >> 4) & 3) { 0 => 5, b @ 1..=6 => b as u8, 7 => 8, 8 => 33, _ => 2 } }

impl SeqC for Vector<u32> {
    type Sync = VectorSync<u32>;
    const NOPS: u32 = 6;
    common!(VectorSync<u32>);
    fn fresh(cfg: u32) -> Self { Vector::new_with_bits(vec_bits(cfg)) }
    fn op_mut(&mut self, k: u32, arg: u32, m: &mut Vec<u32>) -> R {
        let i = if m.is_empty() { 0 } else { (arg >> 4) as usize % (m.len() + 1) };
        match k {
            0 => { self.push_back_mut(arg); m.push(arg); Ok(()) }
            1 => { let w = m.pop().is_some(); eq("drop_last_mut", self.drop_last_mut(), w) }
            2 => { let w = i < m.len(); if w { m[i] = arg; } eq("set_mut", self.set_mut(i, arg), w) }
            3 => match self.get_mut(i) {
                Some(x) => { if i >= m.len() { return Err("get_mut out of range gives a value".into()); } eq("get_mut", *x, m[i])?; *x = arg; m[i] = arg; Ok(()) }
                None => eq("get_mut refused", i >= m.len(), true),
            },
            4 => { let e: Vec<u32> = (0..arg % 40).collect(); self.extend(hinted(&e, arg)); m.extend(e); Ok(()) }
            _ => { let k = 1 + arg % 40; for j in 0..k { if !eq("drop_last_mut", self.drop_last_mut(), m.pop().is_some()).is_ok() { return Err(format!("drop_last_mut, {j} more")); } } Ok(()) }
        }
    }
    fn op_new(&self, k: u32, arg: u32, m: &mut Vec<u32>) -> Result<Option<Self>, String> {
        let i = if m.is_empty() { 0 } else { (arg >> 4) as usize % (m.len() + 1) };
        match k {
            0 => { m.push(arg); Ok(Some(self.push_back(arg))) }
            1 => { let r = self.drop_last(); eq("drop_last", r.is_some(), !m.is_empty())?; m.pop(); Ok(r) }
            2 => { let r = self.set(i, arg); eq("set", r.is_some(), i < m.len())?; if i < m.len() { m[i] = arg; } Ok(r) }
            3 => { let mut c = self.clone(); if i < m.len() { c[i] = arg; m[i] = arg; } Ok(Some(c)) }
            4 => { let mut c = self.clone(); for j in 0..arg % 40 { c = c.push_back(j); m.push(j); } Ok(Some(c)) }
            _ => { let mut c = self.clone(); for _ in 0..1 + arg % 40 { match c.drop_last() { Some(x) => { eq("drop_last", m.pop().is_some(), true)?; c = x } None => { eq("drop_last refused", m.is_empty(), true)?; } } } Ok(Some(c)) }
        }
    }
    fn observe(&self, m: &[u32]) -> R {
        eq("first", self.first(), m.first())?;
        eq("last", self.last(), m.last())?;
        eq("len", self.len(), m.len())?;
        eq("is_empty", self.is_empty(), m.is_empty())?;
        for i in 0..m.len() {
            eq("get", self.get(i), Some(&m[i]))?;
            eq("index", self[i], m[i])?;
        }
        for i in [m.len(), m.len() + 1, m.len() * 2 + 3, usize::MAX / 2, usize::MAX] { if i >= m.len() { eq("get past the end", self.get(i), None)?; } }
        Ok(())
    }
    fn access(&self) -> Vec<u32> { (0..self.len()).map(|i| *self.get(i).unwrap()).collect() }
    fn iter_check(&self, want: &[u32], pat: u32) -> R {
        iter_forward(self.iter(), ExactSizeIterator::len, want)?;
        iter_both(self.iter(), want, pat)?;
        iter_both(self.into_iter(), want, 1)?;
        consume::fwd("iter", || self.iter(), |x| *x, want, pat, true)?;
        consume::back("iter", || self.iter(), |x| *x, want, pat)
    }
    fn build_other_way(c: &[u32], cfg: u32) -> Vec<Self> {
        let mut a = Vector::new_with_bits(vec_bits(cfg + 3));
        for x in c { a.push_back_mut(*x); }
        let mut b = Vector::new_with_bits(1);
        for x in c { b.push_back_mut(x.wrapping_add(1)); }
        b.push_back_mut(0);
        b.drop_last_mut();
        for (i, x) in c.iter().enumerate() { b.set_mut(i, *x); }
        vec![b, c.iter().copied().collect(), a]
    }
    fn eq_sync(&self, c: &[u32]) -> (bool, Option<Ordering>) { let s: VectorSync<u32> = c.iter().copied().collect(); (*self == s && s == *self, self.partial_cmp(&s)) }
    fn bulk(items: &[u32], cfg: u32) -> Vec<(&'static str, Vec<u32>, Vec<u32>)> {
        let l: Vector<u32> = hinted(items, cfg).collect();
        let s: VectorSync<u32> = hinted(items, cfg).collect();
        let w = items.to_vec();
        let h = items.len() / 3;
        let mut e = Vector::new_with_bits(vec_bits(cfg));
        for x in &items[..h] { e.push_back_mut(*x); }
        e.extend(hinted(&items[h..], cfg));
        let mut e0 = Vector::new_with_bits(vec_bits(cfg));
        e0.extend(hinted(items, cfg));
        let mut e1 = Vector::new_with_bits(vec_bits(cfg));
        for x in items { e1.push_back_mut(*x); }
        while e1.drop_last_mut() {}
        e1.extend(hinted(items, cfg));
        let mut r = vec![
            ("extend from empty", e0.access(), w.clone()),
            ("extend from emptied", e1.iterate(), w.clone()),
            ("collect", l.access(), w.clone()),
            ("collect, iterated", l.iterate(), w.clone()),
            ("collect sync", s.iter().copied().collect(), w.clone()),
            ("extend", e.access(), w.clone()),
            ("vector!", vector![1, 2, 3].access(), vec![1, 2, 3]),
            ("vector_sync!", vector_sync![1u32, 2, 3].iter().copied().collect(), vec![1, 2, 3]),
            ("empty", Vector::<u32>::default().iterate(), vec![]),
            ("new", Vector::<u32>::new().iterate(), vec![]),
            ("new_sync", VectorSync::<u32>::new_sync().iter().copied().collect(), vec![]),
            ("new_with_ptr_kind", Vector::<u32>::new_with_ptr_kind().access(), vec![]),
        ];
        if let [a, b, c, d] = *items { r.push(("vector![a, b, c, d]", vector![a, b, c, d].access(), w.clone())); r.push(("vector_sync![a, b, c, d]", vector_sync![a, b, c, d].iter().copied().collect(), w.clone())); }
        r
    }
}
