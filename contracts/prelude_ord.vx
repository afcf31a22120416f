
// ---------------------------------------------------------------- ordered keys
pub open spec fn rev_ord(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}

/// The part of a lawful `Ord` that is a total preorder.
#[verifier::opaque]
pub open spec fn total_order<T: Ord + ?Sized>() -> bool {
    &&& forall|a: &T, b: &T| #[trigger] a.cmp_spec(b) == rev_ord(b.cmp_spec(a))
    &&& forall|a: &T, b: &T, c: &T| #![trigger a.cmp_spec(b), b.cmp_spec(c)]
        !(a.cmp_spec(b) is Greater) && !(b.cmp_spec(c) is Greater) ==>
            !(a.cmp_spec(c) is Greater) && (a.cmp_spec(b) is Less || b.cmp_spec(c) is Less ==> a.cmp_spec(c) is Less)
}

/// Lawful `PartialEq`, `PartialOrd` and `Ord`: they agree, and order totally.
pub open spec fn lawful_ord<T: Ord + ?Sized>() -> bool {
    &&& T::obeys_cmp_spec() && T::obeys_partial_cmp_spec() && T::obeys_eq_spec()
    &&& forall|a: &T, b: &T| #[trigger] a.partial_cmp_spec(b) == Some(a.cmp_spec(b))
    &&& forall|a: &T, b: &T| #[trigger] a.eq_spec(b) <==> a.cmp_spec(b) is Equal
    &&& total_order::<T>()
}

/// Lawful `Borrow`: the borrowed form orders alike.
#[verifier::opaque]
pub open spec fn compat<K: Ord + Borrow<Q>, Q: Ord + ?Sized>() -> bool {
    forall|a: &K, b: &K| #[trigger] a.cmp_spec(b) == a.bor().cmp_spec(b.bor())
}

pub open spec fn ord_ok<K: Ord + Borrow<Q>, Q: Ord + ?Sized>() -> bool {
    lawful_ord::<K>() && lawful_ord::<Q>() && compat::<K, Q>()
}

pub proof fn lemma_ord_self<K: Ord>()
    requires lawful_ord::<K>(),
    ensures ord_ok::<K, K>(),
{
    reveal(compat);
}

/// With a lawful `Ord`, the two lexicographic comparisons agree.
pub proof fn lemma_lex_agree<T: Ord>(s: Seq<&T>, t: Seq<&T>)
    requires lawful_ord::<T>(),
    ensures lex_partial::<&T, &T>(s, t) == Some(lex_cmp::<&T>(s, t)),
    decreases s.len(),
{
    if s.len() > 0 && t.len() > 0 {
        lemma_lex_agree(s.subrange(1, s.len() as int), t.subrange(1, t.len() as int));
        assert((*s[0]).partial_cmp_spec(t[0]) == Some((*s[0]).cmp_spec(t[0])));
    }
}

// ---------------------------------------------------------------- ranges
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub use Bound::*;
impl<T: Copy> Copy for Bound<T> {}
impl<T: Copy> Clone for Bound<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}

/// Model of `core::ops::RangeBounds`: the two bounds of a range.
pub trait RangeBounds<Q: ?Sized> {
    spec fn sb(&self) -> Bound<&Q>;
    spec fn eb(&self) -> Bound<&Q>;
    fn start_bound(&self) -> (r: Bound<&Q>)
        ensures r == self.sb();
    fn end_bound(&self) -> (r: Bound<&Q>)
        ensures r == self.eb();
}

pub struct RangeFull;
impl<Q: ?Sized> RangeBounds<Q> for RangeFull {
    open spec fn sb(&self) -> Bound<&Q> { Bound::Unbounded }
    open spec fn eb(&self) -> Bound<&Q> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&Q>) { Bound::Unbounded }
    fn end_bound(&self) -> (r: Bound<&Q>) { Bound::Unbounded }
}
