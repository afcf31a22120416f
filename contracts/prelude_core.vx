// Trusted models of the library items the extracted code calls.  Everything marked external_body or axiom here is
// listed in the evidence as an assumption.
pub use std::rc::Rc;
pub use core::cmp::Ordering;
pub use core::marker::PhantomData;
pub use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};

// ---------------------------------------------------------------- shared pointers (archery)
pub broadcast axiom fn ax_rc_clone<T>(a: Rc<T>, b: Rc<T>)
    ensures #[trigger] cloned::<Rc<T>>(a, b) ==> a == b && vx_shared(b);

/// Lawful `Clone`: a clone is indistinguishable from its origin.
pub open spec fn lawful_clone<T: Clone>() -> bool {
    forall|x: &T, y: T| #[trigger] call_ensures(T::clone, (x,), y) ==> *x == y
}

pub assume_specification<T>[core::mem::drop::<T>](x: T);
pub assume_specification<T>[core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T: core::default::Default>[core::mem::take::<T>](dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest));
pub assume_specification<T>[core::hint::black_box::<T>](x: T) -> (r: T)
    ensures r == x;
pub assume_specification<T>[core::convert::identity::<T>](x: T) -> (r: T)
    ensures r == x;

pub struct SharedPointer;

impl SharedPointer {
    #[verifier::external_body]
    pub fn new<T>(v: T) -> (r: Rc<T>)
        ensures *r == v,
    { Rc::new(v) }

    #[verifier::external_body]
    pub fn clone<T>(p: &Rc<T>) -> (r: Rc<T>)
        ensures r == *p, vx_shared(r),
    { Rc::clone(p) }

    /// Copy on write: the pointee is first cloned when it is shared.
    #[verifier::external_body]
    pub fn make_mut<T: Clone>(p: &mut Rc<T>) -> (r: &mut T)
        requires lawful_clone::<T>(),
        ensures **old(p) == *r, **final(p) == *final(r),
    { Rc::make_mut(p) }

    #[verifier::external_body]
    pub fn as_ptr<T>(p: &Rc<T>) -> (r: VxPtr<T>)
        ensures r.target() == Some(**p),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn try_unwrap<T>(p: Rc<T>) -> (r: Result<T, Rc<T>>)
        ensures match r { Ok(v) => v == *p, Err(q) => q == p && vx_shared(q) },
    { Rc::try_unwrap(p) }

    #[verifier::external_body]
    pub fn get_mut<T>(p: &mut Rc<T>) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => **old(p) == *x && **final(p) == *final(x),
            None => *final(p) == *old(p) && vx_shared(*old(p)),
        },
    { Rc::get_mut(p) }

    #[verifier::external_body]
    pub fn strong_count<T>(p: &Rc<T>) -> (r: usize)
        ensures r >= 1, r > 1 ==> vx_shared(*p),
    { Rc::strong_count(p) }

    #[verifier::external_body]
    pub fn ptr_eq<T>(a: &Rc<T>, b: &Rc<T>) -> (r: bool)
        ensures r ==> **a == **b,
    { Rc::ptr_eq(a, b) }
}

/// Another owner of what `p` points to exists, so dropping `p` frees nothing.
pub uninterp spec fn vx_shared<T>(p: Rc<T>) -> bool;
/// Dropping the value frees a bounded number of nested allocations.
pub trait VxDropOk { spec fn drop_ok(&self) -> bool; }
pub open spec fn vx_drop_ok<T: VxDropOk>(x: T) -> bool { x.drop_ok() }
impl VxDropOk for () { open spec fn drop_ok(&self) -> bool { true } }
impl VxDropOk for bool { open spec fn drop_ok(&self) -> bool { true } }
impl VxDropOk for usize { open spec fn drop_ok(&self) -> bool { true } }
impl<T> VxDropOk for &T { open spec fn drop_ok(&self) -> bool { true } }
impl<T> VxDropOk for &mut T { open spec fn drop_ok(&self) -> bool { true } }
impl<T: VxDropOk> VxDropOk for Option<T> { open spec fn drop_ok(&self) -> bool { match *self { Some(x) => x.drop_ok(), None => true } } }
impl<T: VxDropOk, E: VxDropOk> VxDropOk for Result<T, E> { open spec fn drop_ok(&self) -> bool { match *self { Ok(x) => x.drop_ok(), Err(x) => x.drop_ok() } } }

/// Model of a raw pointer: what it points to, when not null.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPtr<T> { p: PhantomData<T> }
impl<T> VxPtr<T> {
    pub uninterp spec fn target(&self) -> Option<T>;

    /// A cast between types that differ only in the pointer kind, which the extraction drops.
    pub fn vx_cast(self) -> (r: Self)
        ensures r == self,
    { self }
}
#[verifier::external_body]
pub fn vx_ptr_null<T>() -> (r: VxPtr<T>)
    ensures r.target() is None,
{ unimplemented!() }

/// The same address holds the same value; null is equal to null only.
#[verifier::external_body]
pub fn vx_ptr_eq<T>(a: VxPtr<T>, b: VxPtr<T>) -> (r: bool)
    ensures r ==> a.target() == b.target(), a.target() is None && b.target() is None ==> r,
{ unimplemented!() }

// ---------------------------------------------------------------- machine integers
pub use vstd::arithmetic::power2::pow2;
pub const VX_USIZE_BITS: u32 = 64;

#[verifier::external_body]
pub fn vx_leading_zeros(u: usize) -> (r: u32)
    ensures r <= 64, u == 0 ==> r == 64,
        u > 0 ==> r < 64 && pow2((63 - r) as nat) <= u && u < pow2((64 - r) as nat),
{ u.leading_zeros() }

/// Panics for zero.
pub fn vx_ilog2(u: usize) -> (r: u32)
    requires u > 0,
    ensures r < 64, pow2(r as nat) <= u, u < pow2((r + 1) as nat),
{ 63 - vx_leading_zeros(u) }

pub fn vx_div_ceil(a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == a / b + if a % b > 0 { 1int } else { 0int },
{ 
    assert(a % b > 0 ==> b > 1 && a / b < a) by (nonlinear_arith) requires b > 0;
    if a % b > 0 { a / b + 1 } else { a / b }
}

pub trait VxInt: Sized {
    spec fn vi(self) -> int;
    fn vx_usize(self) -> (r: usize)
        ensures r == self.vi();
}
impl VxInt for bool {
    open spec fn vi(self) -> int { if self { 1 } else { 0 } }
    fn vx_usize(self) -> usize { if self { 1 } else { 0 } }
}
impl VxInt for u8 {
    open spec fn vi(self) -> int { self as int }
    fn vx_usize(self) -> usize { self as usize }
}
impl VxInt for u16 {
    open spec fn vi(self) -> int { self as int }
    fn vx_usize(self) -> usize { self as usize }
}
pub fn vx_usize_from<A: VxInt>(a: A) -> (r: usize)
    ensures r == a.vi(),
{ a.vx_usize() }
pub fn vx_u32_from(a: u8) -> (r: u32)
    ensures r == a,
{ a as u32 }
pub fn vx_u64_from(a: u8) -> (r: u64)
    ensures r == a,
{ a as u64 }

/// Vectors with the same elements are indistinguishable (the capacity is not observed).
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures a@ == b@ ==> a == b;

// ---------------------------------------------------------------- concatenation
#[verifier::opaque]
pub open spec fn cat<A>(s: Seq<Seq<A>>) -> Seq<A>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }

pub proof fn lemma_cat_empty<A>()
    ensures cat(Seq::<Seq<A>>::empty()) == Seq::<A>::empty(),
{ reveal(cat); }

pub proof fn lemma_cat_push<A>(s: Seq<Seq<A>>, x: Seq<A>)
    ensures cat(s.push(x)) == cat(s) + x,
{ reveal(cat); assert(s.push(x).drop_last() =~= s); }

pub proof fn lemma_cat_add<A>(s: Seq<Seq<A>>, t: Seq<Seq<A>>)
    ensures cat(s + t) == cat(s) + cat(t),
    decreases t.len(),
{
    reveal(cat);
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(cat(s) + cat(t) =~= cat(s));
    } else {
        lemma_cat_add(s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert(cat(s) + (cat(t.drop_last()) + t.last()) =~= (cat(s) + cat(t.drop_last())) + t.last());
    }
}

pub proof fn lemma_cat_at<A>(s: Seq<Seq<A>>, k: int)
    requires 0 <= k < s.len(),
    ensures cat(s) == cat(s.take(k)) + s[k] + cat(s.skip(k + 1)), cat(s.take(k + 1)) == cat(s.take(k)) + s[k],
{
    lemma_cat_push(s.take(k), s[k]);
    assert(s.take(k).push(s[k]) =~= s.take(k + 1));
    lemma_cat_add(s.take(k + 1), s.skip(k + 1));
    assert(s.take(k + 1) + s.skip(k + 1) =~= s);
}

pub proof fn lemma_cat_update<A>(s: Seq<Seq<A>>, k: int, x: Seq<A>)
    requires 0 <= k < s.len(),
    ensures cat(s.update(k, x)) == cat(s.take(k)) + x + cat(s.skip(k + 1)),
{
    lemma_cat_at(s.update(k, x), k);
    assert(s.update(k, x).take(k) =~= s.take(k));
    assert(s.update(k, x).skip(k + 1) =~= s.skip(k + 1));
}

pub proof fn lemma_cat_uniform<A>(s: Seq<Seq<A>>, c: nat)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == c,
    ensures cat(s).len() == s.len() * c,
    decreases s.len(),
{
    reveal(cat);
    if s.len() > 0 {
        lemma_cat_uniform(s.drop_last(), c);
        assert(s.len() * c == (s.len() - 1) * c + c) by (nonlinear_arith);
    } else {
        assert(0 * c == 0) by (nonlinear_arith);
    }
}

// ---------------------------------------------------------------- conversions
pub trait VxAsRef: Sized {
    type O;
    spec fn ar(self) -> Self::O;
    fn vx_as_ref(self) -> (r: Self::O)
        ensures r == self.ar();
}

impl<'a, T> VxAsRef for &'a Option<T> {
    type O = Option<&'a T>;
    open spec fn ar(self) -> Option<&'a T> { match self { Some(x) => Some(x), None => None } }
    fn vx_as_ref(self) -> Option<&'a T> { proof { let _ = self.ar(); } self.as_ref() }
}

impl<'a, T> VxAsRef for &'a Rc<T> {
    type O = &'a T;
    open spec fn ar(self) -> &'a T { &**self }
    fn vx_as_ref(self) -> &'a T { proof { let _ = self.ar(); } &**self }
}

pub trait Borrow<Q: ?Sized> {
    spec fn bor(&self) -> &Q;
    fn borrow(&self) -> (r: &Q)
        ensures r == self.bor();
}

impl<T> Borrow<T> for Rc<T> {
    open spec fn bor(&self) -> &T { &**self }
    fn borrow(&self) -> (r: &T) { proof { let _ = Borrow::<T>::bor(self); } &**self }
}

impl<T> Borrow<T> for T {
    open spec fn bor(&self) -> &T { self }
    fn borrow(&self) -> (r: &T) { self }
}

// ---------------------------------------------------------------- sequences and references
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

// ---------------------------------------------------------------- assertions
/// `assert!`, `debug_assert!`: a proof obligation, also of the run-time check.
pub fn vx_assert(c: bool)
    requires c,
{}

/// Run-time view of `assert!`: execution continues only when the condition holds.
#[verifier::external_body]
pub fn vx_assert_rt(c: bool)
    ensures c,
{ if !c { panic!() } }

pub fn vx_panic() -> !
    requires false,
{ loop { } }

#[verifier::external_body]
pub fn vx_panic_rt() -> !
    ensures false,
{ panic!() }

#[verifier::external_body]
pub fn vx_unwrap_rt<T>(o: Option<T>) -> (r: T)
    ensures o == Some(r),
{ o.unwrap() }

// ---------------------------------------------------------------- capacity
/// A vector of `n` elements of `T` can be allocated (uninterpreted; only downward closed).
pub uninterp spec fn fits<T>(n: nat) -> bool;

pub broadcast axiom fn ax_fits<T>(m: nat, n: nat)
    requires m <= n, #[trigger] fits::<T>(n),
    ensures #[trigger] fits::<T>(m);

/// No collection has more elements than this: each occupies at least 16 of the at most 2^63 bytes a process can address.
pub open spec fn vx_max_len() -> nat { 0x07ff_ffff_ffff_ffff }

/// A vector of pointers has at most `isize::MAX / 8` elements.
pub broadcast axiom fn ax_fits_ref<'a, T>(n: nat)
    requires n <= vx_max_len(),
    ensures #[trigger] fits::<&'a T>(n);

/// Panics ("capacity overflow") or aborts unless that many elements fit.
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= 1 || fits::<T>(n as nat), // one value of any type can be allocated
    ensures r@ == Seq::<T>::empty(),
{ Vec::with_capacity(n) }

// ---------------------------------------------------------------- iterators
/// Model of `core::iter::Iterator` for finite iterators: `rest` is what is still to come.
pub trait Iterator: Sized {
    type Item;
    spec fn iwf(&self) -> bool;
    spec fn rest(&self) -> Seq<Self::Item>;

    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iwf(),
        ensures
            final(self).iwf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0])
                && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int);

    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.iwf(),
        ensures r.0 <= self.rest().len(), r.1 matches Some(h) ==> self.rest().len() <= h,
    { (0, None) }

    // provided methods of core that an implementation may override: it then has to satisfy these contracts
    fn nth(&mut self, n: usize) -> (r: Option<Self::Item>)
        requires old(self).iwf(),
        ensures
            final(self).iwf(),
            n >= old(self).rest().len() ==> r is None && final(self).rest().len() == 0,
            n < old(self).rest().len() ==> r == Some(old(self).rest()[n as int]) && final(self).rest() =~= old(self).rest().skip(n + 1),
    {
        let mut i = n;
        while i > 0
            invariant self.iwf(), i <= n, n - i <= old(self).rest().len(),
                self.rest() =~= old(self).rest().skip(n - i),
            decreases i,
        {
            if self.next().is_none() {
                return None;
            }
            i -= 1;
        }
        self.next()
    }

    fn count(self) -> (r: usize)
        requires self.iwf(), self.rest().len() <= usize::MAX,
        ensures r == self.rest().len(),
    {
        let ghost all = self.rest();
        let mut it = self;
        let mut n: usize = 0;
        while it.next().is_some()
            invariant it.iwf(), n + it.rest().len() == all.len(), all.len() <= usize::MAX,
            ensures n == all.len(),
            decreases it.rest().len(),
        {
            n += 1;
        }
        n
    }

    fn last(self) -> (r: Option<Self::Item>)
        requires self.iwf(),
        ensures r == (if self.rest().len() == 0 { None } else { Some(self.rest().last()) }),
    {
        let ghost all = self.rest();
        let mut it = self;
        let mut l: Option<Self::Item> = None;
        loop
            invariant it.iwf(), it.rest().len() <= all.len(), it.rest() =~= all.skip(all.len() - it.rest().len()),
                it.rest().len() == all.len() ==> l is None,
                it.rest().len() < all.len() ==> l == Some(all[all.len() - it.rest().len() - 1]),
            ensures it.rest().len() == 0,
            decreases it.rest().len(),
        {
            match it.next() {
                Some(x) => l = Some(x),
                None => break,
            }
        }
        l
    }
}

pub trait DoubleEndedIterator: Iterator {
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iwf(),
        ensures
            final(self).iwf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r == Some(old(self).rest().last())
                && final(self).rest() =~= old(self).rest().drop_last();

    fn nth_back(&mut self, n: usize) -> (r: Option<Self::Item>)
        requires old(self).iwf(),
        ensures
            final(self).iwf(),
            n >= old(self).rest().len() ==> r is None && final(self).rest().len() == 0,
            n < old(self).rest().len() ==> r == Some(old(self).rest()[old(self).rest().len() - 1 - n])
                && final(self).rest() =~= old(self).rest().take(old(self).rest().len() - 1 - n),
    {
        let mut i = n;
        while i > 0
            invariant self.iwf(), i <= n, n - i <= old(self).rest().len(),
                self.rest() =~= old(self).rest().take(old(self).rest().len() - (n - i)),
            decreases i,
        {
            if self.next_back().is_none() {
                return None;
            }
            i -= 1;
        }
        self.next_back()
    }
}

pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn into_wf(self) -> bool;
    spec fn into_rest(self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter)
        requires self.into_wf(),
        ensures r.iwf(), r.rest() == self.into_rest();
}

impl<I: Iterator> IntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn into_wf(self) -> bool { self.iwf() }
    open spec fn into_rest(self) -> Seq<I::Item> { self.rest() }
    fn into_iter(self) -> (r: I) {
        // names both functions so that their definitions precede this obligation
        proof { assert(self.into_wf() && self.into_rest() == self.rest()); }
        self
    }
}

/// Provided methods of `core::iter::Iterator`.
pub trait VxIterExt: Iterator {
    fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: VxMap<Self, Self::Item, B>)
        requires self.iwf(), forall|i: int| 0 <= i < self.rest().len() ==> #[trigger] call_requires(f, (self.rest()[i],)),
        ensures r.iwf(), r.rest().len() == self.rest().len(),
            forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (self.rest()[i],), #[trigger] r.rest()[i]);

    fn eq<J: IntoIterator>(self, other: J) -> (r: bool) where Self::Item: PartialEq<J::Item>
        requires self.iwf(), other.into_wf(),
        ensures <Self::Item as PartialEqSpec<J::Item>>::obeys_eq_spec() ==> r == seq_eq(self.rest(), other.into_rest());

    fn partial_cmp<J: IntoIterator>(self, other: J) -> (r: Option<Ordering>) where Self::Item: PartialOrd<J::Item>
        requires self.iwf(), other.into_wf(),
        ensures <Self::Item as PartialOrdSpec<J::Item>>::obeys_partial_cmp_spec() ==> r == lex_partial(self.rest(), other.into_rest());

    fn cmp<J: IntoIterator<Item = Self::Item>>(self, other: J) -> (r: Ordering) where Self::Item: Ord
        requires self.iwf(), other.into_wf(),
        ensures <Self::Item as OrdSpec>::obeys_cmp_spec() ==> r == lex_cmp(self.rest(), other.into_rest());

    fn all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).iwf(),
            forall|i: int| 0 <= i < old(self).rest().len() ==> #[trigger] call_requires(f, (old(self).rest()[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self).rest().len() ==> call_ensures(f, (#[trigger] old(self).rest()[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self).rest().len() && call_ensures(f, (#[trigger] old(self).rest()[i],), false);

    /// The first item that satisfies the predicate.
    fn find<F: Fn(&Self::Item) -> bool>(&mut self, f: F) -> (r: Option<Self::Item>)
        requires old(self).iwf(),
            forall|i: int| 0 <= i < old(self).rest().len() ==> #[trigger] call_requires(f, (&old(self).rest()[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < old(self).rest().len() && x == #[trigger] old(self).rest()[i] && call_ensures(f, (&x,), true),
            None => forall|i: int| 0 <= i < old(self).rest().len() ==> call_ensures(f, (& #[trigger] old(self).rest()[i],), false),
        };

    fn rev(self) -> (r: VxRev<Self>) where Self: DoubleEndedIterator
        requires self.iwf(),
        ensures r.iwf(), r.rest() == self.rest().reverse();

    fn chain<J: IntoIterator<Item = Self::Item>>(self, other: J) -> (r: VxChain<Self, J::IntoIter>)
        requires self.iwf(), other.into_wf(),
        ensures r.iwf(), r.rest() == self.rest() + other.into_rest();
}

impl<VxI: Iterator> VxIterExt for VxI {
    #[verifier::external_body]
    fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: VxMap<Self, Self::Item, B>)
    { unimplemented!() }

    fn eq<J: IntoIterator>(self, other: J) -> (r: bool) where Self::Item: PartialEq<J::Item>
    {
        let ghost s = self.rest();
        let ghost t = other.into_rest();
        let mut a = self;
        let mut b = other.into_iter();
        loop
            invariant a.iwf(), b.iwf(), a.rest().len() <= s.len(), b.rest().len() <= t.len(),
                s.len() - a.rest().len() == t.len() - b.rest().len(),
                a.rest() =~= s.skip(s.len() - a.rest().len()), b.rest() =~= t.skip(t.len() - b.rest().len()),
                <Self::Item as PartialEqSpec<J::Item>>::obeys_eq_spec() ==>
                    forall|i: int| 0 <= i < s.len() - a.rest().len() ==> (#[trigger] s[i]).eq_spec(&t[i]),
            decreases a.rest().len(),
        {
            let ghost k = s.len() - a.rest().len();
            match (a.next(), b.next()) {
                (None, None) => return true,
                (Some(x), Some(y)) => {
                    assert(x == s[k] && y == t[k]);
                    if !(x == y) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
    }

    fn partial_cmp<J: IntoIterator>(self, other: J) -> (r: Option<Ordering>) where Self::Item: PartialOrd<J::Item>
    {
        let mut a = self;
        let mut b = other.into_iter();
        loop
            invariant a.iwf(), b.iwf(), other.into_wf(), self.iwf(),
                <Self::Item as PartialOrdSpec<J::Item>>::obeys_partial_cmp_spec() ==>
                    lex_partial(self.rest(), other.into_rest()) == lex_partial(a.rest(), b.rest()),
            decreases a.rest().len(),
        {
            match (a.next(), b.next()) {
                (None, None) => return Some(Ordering::Equal),
                (None, Some(_)) => return Some(Ordering::Less),
                (Some(_), None) => return Some(Ordering::Greater),
                (Some(x), Some(y)) => match x.partial_cmp(&y) {
                    Some(Ordering::Equal) => (),
                    o => return o,
                }
            }
        }
    }

    fn cmp<J: IntoIterator<Item = Self::Item>>(self, other: J) -> (r: Ordering) where Self::Item: Ord
    {
        let mut a = self;
        let mut b = other.into_iter();
        loop
            invariant a.iwf(), b.iwf(), other.into_wf(), self.iwf(),
                <Self::Item as OrdSpec>::obeys_cmp_spec() ==>
                    lex_cmp(self.rest(), other.into_rest()) == lex_cmp(a.rest(), b.rest()),
            decreases a.rest().len(),
        {
            match (a.next(), b.next()) {
                (None, None) => return Ordering::Equal,
                (None, Some(_)) => return Ordering::Less,
                (Some(_), None) => return Ordering::Greater,
                (Some(x), Some(y)) => match Ord::cmp(&x, &y) {
                    Ordering::Equal => (),
                    o => return o,
                }
            }
        }
    }

    fn all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
    {
        let ghost s = self.rest();
        loop
            invariant self.iwf(), self.rest().len() <= s.len(), self.rest() =~= s.skip(s.len() - self.rest().len()),
                forall|i: int| 0 <= i < s.len() ==> #[trigger] call_requires(f, (s[i],)),
                forall|i: int| 0 <= i < s.len() - self.rest().len() ==> call_ensures(f, (#[trigger] s[i],), true),
            decreases self.rest().len(),
        {
            let ghost k = s.len() - self.rest().len();
            match self.next() {
                Some(x) => {
                    assert(x == s[k]);
                    assert(call_requires(f, (s[k],)));
                    if !f(x) {
                        return false;
                    }
                }
                None => return true,
            }
        }
    }

    fn find<F: Fn(&Self::Item) -> bool>(&mut self, f: F) -> (r: Option<Self::Item>)
    {
        let ghost s = self.rest();
        loop
            invariant self.iwf(), self.rest().len() <= s.len(), self.rest() =~= s.skip(s.len() - self.rest().len()),
                forall|i: int| 0 <= i < s.len() ==> #[trigger] call_requires(f, (&s[i],)),
                forall|i: int| 0 <= i < s.len() - self.rest().len() ==> call_ensures(f, (& #[trigger] s[i],), false),
            decreases self.rest().len(),
        {
            let ghost k = s.len() - self.rest().len();
            match self.next() {
                Some(x) => {
                    assert(x == s[k]);
                    assert(call_requires(f, (&s[k],)));
                    if f(&x) {
                        return Some(x);
                    }
                }
                None => return None,
            }
        }
    }

    fn rev(self) -> (r: VxRev<Self>) where Self: DoubleEndedIterator
    { VxRev { i: self } }

    fn chain<J: IntoIterator<Item = Self::Item>>(self, other: J) -> (r: VxChain<Self, J::IntoIter>)
    { VxChain { i: self, j: other.into_iter() } }

}

/// `core::iter::Map`
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct VxMap<I, A, B> { p: PhantomData<(I, A, B)> }

impl<I: Iterator<Item = A>, A, B> Iterator for VxMap<I, A, B> {
    type Item = B;
    uninterp spec fn iwf(&self) -> bool;
    uninterp spec fn rest(&self) -> Seq<B>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<B>) { unimplemented!() }
}
impl<I: DoubleEndedIterator<Item = A>, A, B> DoubleEndedIterator for VxMap<I, A, B> {
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<B>) { unimplemented!() }
}

/// `core::iter::Rev`
#[verifier::reject_recursive_types(I)]
pub struct VxRev<I> { pub i: I }

impl<I: DoubleEndedIterator> Iterator for VxRev<I> {
    type Item = I::Item;
    open spec fn iwf(&self) -> bool { self.i.iwf() }
    open spec fn rest(&self) -> Seq<I::Item> { self.i.rest().reverse() }
    fn next(&mut self) -> (r: Option<I::Item>) {
        proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }
        self.i.next_back()
    }
}

/// `core::iter::Chain`
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(J)]
pub struct VxChain<I, J> { pub i: I, pub j: J }

impl<I: Iterator, J: Iterator<Item = I::Item>> Iterator for VxChain<I, J> {
    type Item = I::Item;
    open spec fn iwf(&self) -> bool { self.i.iwf() && self.j.iwf() }
    open spec fn rest(&self) -> Seq<I::Item> { self.i.rest() + self.j.rest() }
    fn next(&mut self) -> (r: Option<I::Item>) {
        proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }
        match self.i.next() {
            Some(x) => Some(x),
            None => self.j.next(),
        }
    }
}

/// `alloc::vec::IntoIter`
#[verifier::reject_recursive_types(T)]
pub struct VxVecIntoIter<T> { pub v: Vec<T> }

impl<T> Iterator for VxVecIntoIter<T> {
    type Item = T;
    open spec fn iwf(&self) -> bool { true }
    open spec fn rest(&self) -> Seq<T> { self.v@ }
    fn next(&mut self) -> (r: Option<T>) {
        proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }
        if self.v.len() == 0 { None } else { Some(self.v.remove(0)) }
    }
}
impl<T> DoubleEndedIterator for VxVecIntoIter<T> {
    fn next_back(&mut self) -> (r: Option<T>) {
        proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }
        self.v.pop()
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = VxVecIntoIter<T>;
    open spec fn into_wf(self) -> bool { true }
    open spec fn into_rest(self) -> Seq<T> { self@ }
    fn into_iter(self) -> (r: VxVecIntoIter<T>) {
        proof { assert(self.into_rest() == self.into_rest() && (self.into_wf() ==> self.into_wf())); }
        VxVecIntoIter { v: self }
    }
}

// ---------------------------------------------------------------- equality, order
pub open spec fn seq_eq<A: PartialEq<B>, B>(s: Seq<A>, t: Seq<B>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).eq_spec(&t[i])
}

pub proof fn lemma_refs_eq<A: PartialEq<B>, B>(s: Seq<A>, t: Seq<B>)
    ensures seq_eq(refs(s), refs(t)) == seq_eq(s, t),
{
    assert(forall|i: int| 0 <= i < s.len() && s.len() == t.len() ==> #[trigger] refs(s)[i].eq_spec(&refs(t)[i]) == s[i].eq_spec(&t[i]));
    if seq_eq(refs(s), refs(t)) {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).eq_spec(&t[i]) by {
            assert(refs(s)[i].eq_spec(&refs(t)[i]));
        }
    }
}

pub proof fn lemma_refs_lex_partial<A: PartialOrd<B>, B>(s: Seq<A>, t: Seq<B>)
    ensures lex_partial(refs(s), refs(t)) == lex_partial(s, t),
    decreases s.len(),
{
    if s.len() > 0 && t.len() > 0 {
        let s1 = s.subrange(1, s.len() as int);
        let t1 = t.subrange(1, t.len() as int);
        lemma_refs_lex_partial(s1, t1);
        assert(refs(s).subrange(1, s.len() as int) =~= refs(s1));
        assert(refs(t).subrange(1, t.len() as int) =~= refs(t1));
    }
}

pub proof fn lemma_refs_lex_cmp<A: Ord>(s: Seq<A>, t: Seq<A>)
    ensures lex_cmp(refs(s), refs(t)) == lex_cmp(s, t),
    decreases s.len(),
{
    if s.len() > 0 && t.len() > 0 {
        let s1 = s.subrange(1, s.len() as int);
        let t1 = t.subrange(1, t.len() as int);
        lemma_refs_lex_cmp(s1, t1);
        assert(refs(s).subrange(1, s.len() as int) =~= refs(s1));
        assert(refs(t).subrange(1, t.len() as int) =~= refs(t1));
    }
}

pub open spec fn lex_partial<A: PartialOrd<B>, B>(s: Seq<A>, t: Seq<B>) -> Option<Ordering>
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() == 0 { Some(Ordering::Equal) } else { Some(Ordering::Less) }
    } else if t.len() == 0 {
        Some(Ordering::Greater)
    } else {
        match s[0].partial_cmp_spec(&t[0]) {
            Some(Ordering::Equal) => lex_partial(s.subrange(1, s.len() as int), t.subrange(1, t.len() as int)),
            o => o,
        }
    }
}

pub open spec fn lex_cmp<A: Ord>(s: Seq<A>, t: Seq<A>) -> Ordering
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() == 0 { Ordering::Equal } else { Ordering::Less }
    } else if t.len() == 0 {
        Ordering::Greater
    } else {
        match s[0].cmp_spec(&t[0]) {
            Ordering::Equal => lex_cmp(s.subrange(1, s.len() as int), t.subrange(1, t.len() as int)),
            o => o,
        }
    }
}

// ---------------------------------------------------------------- hashing
/// Model of `core::hash::Hasher`: the data written to it so far.
pub trait Hasher: Sized {
    spec fn fed(&self) -> Seq<int>;
}

pub trait Hash {
    /// the data a value writes
    spec fn toks(&self) -> Seq<int>;
    spec fn hwf(&self) -> bool;
    fn hash<H: Hasher>(&self, state: &mut H)
        requires self.hwf(),
        ensures final(state).fed() == old(state).fed() + self.toks();
}

impl Hash for usize {
    open spec fn toks(&self) -> Seq<int> { seq![*self as int] }
    open spec fn hwf(&self) -> bool { true }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}

impl<'a, T: Hash + ?Sized> Hash for &'a T {
    open spec fn toks(&self) -> Seq<int> { (**self).toks() }
    open spec fn hwf(&self) -> bool { (**self).hwf() }
    fn hash<H: Hasher>(&self, state: &mut H) { (**self).hash(state) }
}

impl<A: Hash, B: Hash> Hash for (A, B) {
    open spec fn toks(&self) -> Seq<int> { self.0.toks() + self.1.toks() }
    open spec fn hwf(&self) -> bool { self.0.hwf() && self.1.hwf() }
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.hash(state);
        self.1.hash(state);
        proof { assert(old(state).fed() + self.0.toks() + self.1.toks() =~= old(state).fed() + (self.0.toks() + self.1.toks())); }
    }
}

pub open spec fn seq_toks<T: Hash>(s: Seq<T>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { s[0].toks() + seq_toks(s.subrange(1, s.len() as int)) }
}

/// The hasher builder used when none is given.
#[verifier::external_body]
pub struct DefaultBuildHasher { p: PhantomData<u8> }
