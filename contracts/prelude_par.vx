
// ---------------------------------------------------------------- rayon
/// Model of `rayon::iter::plumbing::Folder`: the items consumed so far.
pub trait Folder<Item>: Sized {
    spec fn fed(&self) -> Seq<Item>;
    /// it wants no more
    spec fn enough(&self) -> bool;
    fn consume(self, item: Item) -> (r: Self)
        ensures r.fed() == self.fed().push(item);
    fn full(&self) -> (r: bool)
        ensures r == self.enough();
}
/// All items were consumed in order, or as many as were wanted.
pub open spec fn fold_done<Item, F: Folder<Item>>(f: F, items: Seq<Item>, r: F) -> bool {
    exists|n: int| 0 <= n <= items.len() && r.fed() == f.fed() + #[trigger] items.take(n) && (n < items.len() ==> r.enough())
}
/// Model of `rayon::iter::plumbing::UnindexedProducer`.
pub trait UnindexedProducer: Sized {
    type Item;
    spec fn pwf(&self) -> bool;
    spec fn items(&self) -> Seq<Self::Item>;
    fn split(self) -> (r: (Self, Option<Self>))
        requires self.pwf(),
        ensures r.0.pwf(), match r.1 {
            Some(o) => o.pwf() && self.items() =~= r.0.items() + o.items(),
            None => self.items() =~= r.0.items(),
        };
    fn fold_with<F: Folder<Self::Item>>(self, folder: F) -> (r: F)
        requires self.pwf(),
        ensures fold_done::<Self::Item, F>(folder, self.items(), r);
}
/// Model of `rayon::iter::plumbing::UnindexedConsumer`: its result for a collection of items (in some division into parts).
pub trait UnindexedConsumer<Item>: Sized {
    type Result;
    spec fn par_done(self, items: Seq<Item>, r: Self::Result) -> bool;
}
/// `rayon::iter::plumbing::bridge_unindexed`: splits the producer as it sees fit and folds every part.
#[verifier::external_body]
pub fn bridge_unindexed<P: UnindexedProducer, C: UnindexedConsumer<P::Item>>(producer: P, consumer: C) -> (r: C::Result)
    requires producer.pwf(),
    ensures consumer.par_done(producer.items(), r),
{ unimplemented!() }

pub trait ParallelIterator: Sized {
    type Item;
    spec fn pwf(&self) -> bool;
    spec fn items(&self) -> Seq<Self::Item>;
    fn drive_unindexed<C: UnindexedConsumer<Self::Item>>(self, consumer: C) -> (r: C::Result)
        requires self.pwf(),
        ensures consumer.par_done(self.items(), r);
}
pub trait IntoParallelIterator: Sized {
    type Item;
    type Iter: ParallelIterator<Item = Self::Item>;
    spec fn into_pwf(self) -> bool;
    spec fn into_items(self) -> Seq<Self::Item>;
    fn into_par_iter(self) -> (r: Self::Iter)
        requires self.into_pwf(),
        ensures r.pwf(), r.items() =~= self.into_items();
}
impl<'a, T> IntoIterator for &'a [T] {
    type Item = &'a T;
    type IntoIter = VxSliceIter<'a, T>;
    open spec fn into_wf(self) -> bool { true }
    open spec fn into_rest(self) -> Seq<&'a T> { refs::<'a, T>(self@) }
    fn into_iter(self) -> (r: VxSliceIter<'a, T>) {
        proof { assert(self.into_rest() == self.into_rest() && (self.into_wf() ==> self.into_wf())); }
        let r = VxSliceIter { s: self, i: 0 };
        assert(r.rest() =~= refs::<'a, T>(self@));
        r
    }
}
