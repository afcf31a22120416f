// ---------------------------------------------------------------- bits of a word
pub open spec fn bit(b: usize, i: int) -> bool { 0 <= i < 64 && (b & (1usize << (i as usize))) != 0 }

/// bits set below position n
pub open spec fn rk(b: usize, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { rk(b, n - 1) + (if bit(b, n - 1) { 1int } else { 0int }) } }

#[verifier::external_body]
pub fn vx_count_ones(u: usize) -> (r: u32)
    ensures r == rk(u, 64),
{ u.count_ones() }

pub open spec fn is_p2(d: u8) -> bool { d == 1 || d == 2 || d == 4 || d == 8 || d == 16 || d == 32 || d == 64 || d == 128 }
/// position of the bit of a power of two
pub open spec fn tz(d: u8) -> int {
    if d == 1 { 0 } else if d == 2 { 1 } else if d == 4 { 2 } else if d == 8 { 3 } else if d == 16 { 4 } else if d == 32 { 5 } else if d == 64 { 6 } else { 7 }
}
#[verifier::external_body]
pub fn vx_trailing_zeros(d: u8) -> (r: u32)
    ensures is_p2(d) ==> r == tz(d),
{ d.trailing_zeros() }

#[verifier::external_body]
pub fn vx_is_power_of_two(d: u8) -> (r: bool)
    ensures r == is_p2(d),
{ d.is_power_of_two() }

pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b }),
{ if a <= b { a } else { b } }

pub trait VxSized: Sized {
    spec fn vsize() -> usize;
}
impl VxSized for u64 { open spec fn vsize() -> usize { 8 } }
impl VxSized for usize { open spec fn vsize() -> usize { 8 } }
impl VxSized for u32 { open spec fn vsize() -> usize { 4 } }
impl VxSized for u8 { open spec fn vsize() -> usize { 1 } }
#[verifier::external_body]
pub fn vx_size_of_val<T: VxSized>(v: &T) -> (r: usize)
    ensures r == T::vsize(),
{ core::mem::size_of_val(v) }

/// A vector with at most as many elements as a word has bits can be allocated.
pub broadcast axiom fn ax_fits_word<T>(n: nat)
    requires n <= 64,
    ensures #[trigger] fits::<T>(n);

/// A vector of elements that occupy memory has at most `isize::MAX` of them (the sparse array holds pointers only).
pub axiom fn ax_vec_len<T>(v: Vec<T>)
    ensures v@.len() <= isize::MAX;

// ---------------------------------------------------------------- slices
/// `core::slice::Iter`
#[verifier::reject_recursive_types(T)]
pub struct VxSliceIter<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> Iterator for VxSliceIter<'a, T> {
    type Item = &'a T;
    open spec fn iwf(&self) -> bool { self.i <= self.s@.len() }
    open spec fn rest(&self) -> Seq<&'a T> { refs::<'a, T>(self.s@).skip(self.i as int) }
    fn next(&mut self) -> (r: Option<&'a T>) {
        proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }
        if self.i < self.s.len() {
            let x = &self.s[self.i];
            self.i += 1;
            Some(x)
        } else {
            None
        }
    }
}
pub trait VxVecExt<T> {
    spec fn elems_of(&self) -> Seq<T>;
    fn iter<'a>(&'a self) -> (r: VxSliceIter<'a, T>)
        ensures r.iwf(), r.rest() == refs::<'a, T>(self.elems_of());
}
impl<T> VxVecExt<T> for Vec<T> {
    open spec fn elems_of(&self) -> Seq<T> { self@ }
    fn iter<'a>(&'a self) -> (r: VxSliceIter<'a, T>) {
        proof { assert(self.elems_of() == self.elems_of()); }
        let r = VxSliceIter { s: self.as_slice(), i: 0 };
        assert(r.rest() =~= refs::<'a, T>(self.elems_of()));
        r
    }
}

/// `core::iter::Once`
#[verifier::reject_recursive_types(T)]
pub struct VxOnce<T> { pub x: Option<T> }
impl<T> Iterator for VxOnce<T> {
    type Item = T;
    open spec fn iwf(&self) -> bool { true }
    open spec fn rest(&self) -> Seq<T> { match self.x { Some(x) => seq![x], None => Seq::empty() } }
    fn next(&mut self) -> (r: Option<T>) {
        proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }
        self.x.take()
    }
}
pub fn vx_once<T>(x: T) -> (r: VxOnce<T>)
    ensures r.iwf(), r.rest() == seq![x],
{ VxOnce { x: Some(x) } }

// ---------------------------------------------------------------- smallvec
#[verifier::reject_recursive_types(T)]
pub struct SmallVec<T> { pub v: Vec<T> }
impl<T> SmallVec<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }

    pub fn new() -> (r: SmallVec<T>)
        ensures r@ == Seq::<T>::empty(),
    { SmallVec { v: Vec::new() } }

    pub fn push(&mut self, x: T)
        ensures final(self)@ == old(self)@.push(x),
    { self.v.push(x) }

    pub fn pop(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { self.v.pop() }

    pub fn last_mut(&mut self) -> (r: Option<&mut T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@.last()
                && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(r->0)),
    {
        let n = self.v.len();
        if n == 0 { None } else { Some(&mut self.v[n - 1]) }
    }
}

// ---------------------------------------------------------------- hashing of keys
/// Model of `core::hash::BuildHasher`: the hash of a value is a function of the builder and the value.
pub trait BuildHasher: Sized {
    spec fn hof<T: ?Sized + Hash>(&self, v: &T) -> u64;
    fn hash_one<T: ?Sized + Hash>(&self, v: &T) -> (r: u64)
        ensures r == self.hof(v);
}
impl BuildHasher for DefaultBuildHasher {
    uninterp spec fn hof<T: ?Sized + Hash>(&self, v: &T) -> u64;
    #[verifier::external_body]
    fn hash_one<T: ?Sized + Hash>(&self, v: &T) -> (r: u64) { unimplemented!() }
}
impl Default for DefaultBuildHasher {
    #[verifier::external_body]
    fn default() -> DefaultBuildHasher { unimplemented!() }
}
impl Clone for DefaultBuildHasher {
    #[verifier::external_body]
    fn clone(&self) -> (r: DefaultBuildHasher) ensures r == *self { unimplemented!() }
}

/// `==` is an equivalence.
#[verifier::opaque]
pub open spec fn equiv<T: Eq + ?Sized>() -> bool {
    &&& forall|a: &T| #[trigger] a.eq_spec(a)
    &&& forall|a: &T, b: &T| #[trigger] a.eq_spec(b) ==> b.eq_spec(a)
    &&& forall|a: &T, b: &T, c: &T| #![trigger a.eq_spec(b), b.eq_spec(c)] a.eq_spec(b) && b.eq_spec(c) ==> a.eq_spec(c)
}
pub proof fn lemma_eqv<T: Eq + ?Sized>(a: &T, b: &T, c: &T)
    requires equiv::<T>(),
    ensures a.eq_spec(a), a.eq_spec(b) == b.eq_spec(a), a.eq_spec(b) && b.eq_spec(c) ==> a.eq_spec(c), a.eq_spec(b) && a.eq_spec(c) ==> b.eq_spec(c),
{
    reveal(equiv);
}
/// Lawful `Eq`, `Borrow` and `Hash`: equal keys hash alike, and the borrowed form agrees.
#[verifier::opaque]
pub open spec fn alike<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, H: BuildHasher>(bh: &H) -> bool {
    &&& forall|a: &K, b: &K| #[trigger] a.eq_spec(b) == a.bor().eq_spec(b.bor())
    &&& forall|a: &K, q: &Q| #[trigger] a.bor().eq_spec(q) ==> bh.hof::<K>(a) == bh.hof::<Q>(q)
}
pub open spec fn hash_ok<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, H: BuildHasher>(bh: &H) -> bool {
    K::obeys_eq_spec() && Q::obeys_eq_spec() && equiv::<K>() && equiv::<Q>() && alike::<K, Q, H>(bh)
}
