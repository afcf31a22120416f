//! Long lists, stacks and queues built, shared and dropped on a small call stack.
use crate::core::*;
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;

/// length of a long run
fn long(cfg: u32) -> u32 { if cfg >= 6 { 1_100_000 } else { 12_000 } }
const STACK: usize = 192 << 10;

trait DeepC: Clone {
    fn fresh() -> Self;
    fn grow(&mut self, n: u32);
    fn shrink(&mut self, n: u32);
    fn shrink_new(&self) -> Self;
    fn turn(&mut self);
    fn turn_new(&self) -> Self;
    fn collect(n: u32) -> Self;
    fn count(&self) -> usize;
}
impl<P: SharedPointerKind> DeepC for List<u32, P> {
    fn fresh() -> Self { List::new_with_ptr_kind() }
    fn grow(&mut self, n: u32) { for i in 0..n { self.push_front_mut(i); } }
    fn shrink(&mut self, n: u32) { for _ in 0..n { self.drop_first_mut(); } }
    fn shrink_new(&self) -> Self { self.drop_first().unwrap_or_else(Self::fresh) }
    fn turn(&mut self) { self.reverse_mut(); }
    fn turn_new(&self) -> Self { self.reverse() }
    fn collect(n: u32) -> Self { (0..n).collect() }
    fn count(&self) -> usize { self.len() }
}
impl<P: SharedPointerKind> DeepC for Stack<u32, P> {
    fn fresh() -> Self { Stack::new_with_ptr_kind() }
    fn grow(&mut self, n: u32) { for i in 0..n { self.push_mut(i); } }
    fn shrink(&mut self, n: u32) { for _ in 0..n { self.pop_mut(); } }
    fn shrink_new(&self) -> Self { self.pop().unwrap_or_else(Self::fresh) }
    fn turn(&mut self) { self.pop_mut(); self.push_mut(1); }
    fn turn_new(&self) -> Self { self.push(1) }
    fn collect(n: u32) -> Self { (0..n).collect() }
    fn count(&self) -> usize { self.size() }
}
impl<P: SharedPointerKind> DeepC for Queue<u32, P> {
    fn fresh() -> Self { Queue::new_with_ptr_kind() }
    fn grow(&mut self, n: u32) { for i in 0..n { self.enqueue_mut(i); } }
    fn shrink(&mut self, n: u32) { for _ in 0..n { self.dequeue_mut(); } }
    fn shrink_new(&self) -> Self { self.dequeue().unwrap_or_else(Self::fresh) }
    fn turn(&mut self) { self.dequeue_mut(); self.enqueue_mut(1); }
    fn turn_new(&self) -> Self { self.dequeue().unwrap_or_else(Self::fresh).enqueue(1) }
    fn collect(n: u32) -> Self { (0..n).collect() }
    fn count(&self) -> usize { self.len() }
}

#[allow(non_snake_case)]
fn body<C: DeepC>(N: u32, ops: &[u32]) -> R {
    let mut v: Vec<(C, usize)> = (0..3).map(|_| (C::fresh(), 0)).collect();
    v[0].0.grow(N);
    v[0].1 = N as usize;
    let stack_like = { let mut c = C::fresh(); c.grow(1); c.turn_new().count() == 2 };
    for &code in ops {
        let s = ((code >> 8) & 3) as usize % 3;
        let d = ((code >> 10) & 3) as usize % 3;
        let arg = code >> 12;
        // a few long runs only
        let n = if arg % 3 == 0 { N } else { arg % 7 };
        match code & 15 {
            0 | 8 => { v[s].0.grow(n); v[s].1 += n as usize; }
            1 | 9 => v[d] = v[s].clone(),
            2 | 10 => v[s] = (C::fresh(), 0),
            3 => { let k = arg % 5; v[s].0.shrink(k); v[s].1 = v[s].1.saturating_sub(k as usize); }
            4 => { let c = v[s].0.shrink_new(); v[d] = (c, v[s].1.saturating_sub(1)); }
            5 => { v[s].0.turn(); if v[s].1 == 0 && v[s].0.count() == 1 { v[s].1 = 1; } }
            6 => { let c = v[s].0.turn_new(); let k = c.count(); v[d] = (c, k); }
            7 => v[s] = (C::collect(n), n as usize),
            // dropped while its tail is still held by another version
            11 => { let mut c = v[s].0.clone(); c.grow(n); drop(c); }
            // the tail goes first, then the version on top of it
            12 => { let mut c = v[s].0.clone(); c.grow(n); v[s] = (C::fresh(), 0); drop(c); }
            13 => { let c = v[s].0.clone(); v[s].0.shrink(3); v[s].1 = v[s].1.saturating_sub(3); drop(c); }
            14 => { let mut c = v[s].0.clone(); c.shrink(2); let mut e = c.clone(); e.grow(n); drop(c); v[d] = (C::fresh(), 0); drop(e); }
            _ => { let mut c = v[s].0.clone(); c.turn(); v[s].0.turn(); if v[s].1 == 0 { v[s].1 = v[s].0.count(); } drop(c); }
        }
    }
    let _ = stack_like;
    for (c, k) in &v { eq("length", c.count(), *k)?; }
    if ops.len() % 2 == 0 { while v.pop().is_some() {} }
    Ok(())
}

pub fn run_deep(_: Mode, cfg: u32, ops: &[u32]) -> R {
    let ops = ops.to_vec();
    let f: fn(u32, &[u32]) -> R = match cfg % 6 {
        0 => body::<List<u32, RcK>>,
        1 => body::<List<u32, ArcTK>>,
        2 => body::<Stack<u32, RcK>>,
        3 => body::<Stack<u32, ArcTK>>,
        4 => body::<Queue<u32, RcK>>,
        _ => body::<Queue<u32, ArcTK>>,
    };
    match std::thread::Builder::new().stack_size(STACK).spawn(move || guard(|| f(long(cfg), &ops))).unwrap().join() {
        Ok(Ok(r)) => r,
        Ok(Err(p)) => Err(p),
        Err(_) => Err("the thread panicked".into()),
    }
}
pub fn rnd_deep(r: &mut Rng, _: u32) -> u32 { r.next() as u32 & 0xffff_ff }
