== items
/// So that `core::mem::take` can be used (the code's own `default`, by its contract).
impl<T> core::default::Default for Queue<T> {
    fn default() -> (r: Self)
        ensures r.wf(), r.view() == Seq::<T>::empty(),
    { Queue::default() }
}
impl<T> Queue<T> {
    /// front to back
    pub open spec fn view(&self) -> Seq<T> { self.out_list.view() + self.in_list.view().reverse() }
    pub open spec fn wf(&self) -> bool { self.out_list.wf() && self.in_list.wf() && self.view().len() <= vx_max_len() }
}
pub proof fn lemma_queue_ptrs<T>(q: &Queue<T>)
    ensures
        (q.out_list.ptrs() + q.in_list.ptrs().reverse()).len() == q.view().len(),
        forall|i: int| 0 <= i < q.view().len() ==> **(#[trigger] (q.out_list.ptrs() + q.in_list.ptrs().reverse())[i]) == q.view()[i],
{
    crate::list::lemma_node_ptrs(q.out_list.head);
    crate::list::lemma_node_ptrs(q.in_list.head);
    assert forall|i: int| 0 <= i < q.view().len() implies **(#[trigger] (q.out_list.ptrs() + q.in_list.ptrs().reverse())[i]) == q.view()[i] by {
        if i >= q.out_list.view().len() {
            let j = q.view().len() - 1 - i;
            assert(**q.in_list.ptrs()[j] == q.in_list.view()[j]);
        }
    }
}

== fn QueueSync::new_sync
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Queue::new
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Queue::new_with_ptr_kind
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Queue::default
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Queue::eq
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_eq_spec() ==> r == seq_eq(self.view(), other.view()),
-- entry
proof { lemma_refs_eq(self.view(), other.view()); }
== fn Queue::partial_cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_partial_cmp_spec() ==> r == lex_partial(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_partial(self.view(), other.view()); }
== fn Queue::cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_cmp_spec() ==> r == lex_cmp(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_cmp(self.view(), other.view()); }
== impl Hash for Queue
open spec fn toks(&self) -> Seq<int> { seq![self.view().len() as int] + seq_toks(self.view()) }
open spec fn hwf(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).hwf() }

== fn Queue::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== impl IntoIterator for Queue
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<&'a T> { refs(self.view()) }
== fn Queue::into_iter
-- sig r

== fn Queue::from_iter
-- sig r
-- spec
requires into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(), fits::<T>(into_iter.into_rest().len()),
ensures r.wf(), r.view() =~= into_iter.into_rest(),

== fn Queue::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.seq_doc(refs(self.view()), r),

== fn Queue::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.view().len() == 0),

== fn Queue::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.view()),
-- entry
proof { lemma_queue_ptrs(self); }
-- closure 0
vx_a0: &'_ Rc<T>
-> (r: &T) ensures r == &**vx_a0
== fn Queue::dequeue
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> (r matches Some(l) && l.wf() && l.view() =~= self.view().drop_first()),

== fn Queue::dequeue_mut
-- sig r
-- spec
requires old(self).wf(),
ensures final(self).wf(),
    r == (old(self).view().len() > 0),
    r ==> final(self).view() =~= old(self).view().drop_first(),
    !r ==> final(self).view() == old(self).view(),

== fn Queue::enqueue
-- sig r
-- spec
requires self.wf(), self.view().len() < vx_max_len(),
ensures r.wf(), r.view() =~= self.view().push(v),

== fn Queue::enqueue_mut
-- spec
requires old(self).wf(), old(self).view().len() < vx_max_len(),
ensures final(self).wf(), final(self).view() =~= old(self).view().push(v),

== fn Queue::len
-- sig r
-- spec
requires self.wf(),
ensures r == self.view().len(),

== fn Queue::peek
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> r == Some(&self.view()[0]),

== fn Queue::iter_ptr
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() == self.out_list.ptrs() + self.in_list.ptrs().reverse(),

== fn Queue::hash
-- beforeloop 0
assert(self.view().subrange(0, self.view().len() as int) =~= self.view());
-- loop 0
invariant vx_it0.iwf(), self.hwf(), vx_it0.rest().len() <= self.view().len(),
   vx_it0.rest() =~= refs(self.view().subrange(self.view().len() - vx_it0.rest().len(), self.view().len() as int)),
   state.fed() + seq_toks(self.view().subrange(self.view().len() - vx_it0.rest().len(), self.view().len() as int)) =~= old(state).fed() + self.toks(),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let n = self.view().len() as int;
    let k = n - vx_it0.rest().len();
    if k < n {
        assert(self.view().subrange(k, n).subrange(1, n - k) =~= self.view().subrange(k + 1, n));
        assert(self.view()[k].hwf());
    }
}

== impl Iterator for LazilyReversedListIter
open spec fn rest(&self) -> Seq<&'a Rc<T>> {
    match self {
        LazilyReversedListIter::Uninitialized { list } => list.ptrs().reverse(),
        LazilyReversedListIter::Initialized { vec, current: None } => Seq::empty(),
        LazilyReversedListIter::Initialized { vec, current: Some(i) } => vec@.subrange(0, i + 1).reverse(),
    }
}
open spec fn iwf(&self) -> bool {
    match self {
        LazilyReversedListIter::Uninitialized { list } => list.wf() && list.ptrs().len() == list.view().len(),
        LazilyReversedListIter::Initialized { vec, current: None } => true,
        LazilyReversedListIter::Initialized { vec, current: Some(i) } => *i < vec@.len() && vec@.len() <= vx_max_len(),
    }
}

== fn LazilyReversedListIter::new
-- sig r
-- spec
requires list.wf(),
ensures r.iwf(), r.rest() == list.ptrs().reverse(),
-- entry
proof { crate::list::lemma_node_ptrs(list.head); }

== fn LazilyReversedListIter::next
-- sig r
-- deref current
-- entry
broadcast use ax_fits_ref;
-- loop 0
invariant vx_it0.iwf(), vec@ + vx_it0.rest() =~= list.ptrs(),
decreases vx_it0.rest().len(),

== fn LazilyReversedListIter::size_hint
-- sig r
-- spec
requires self.iwf(),
ensures r.0 == self.rest().len(), r.1 == Some(r.0),

== impl Deserialize for Queue
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { <List<T> as Deserialize<'de>>::de_pre(d) }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && r.view() =~= d.seq().elems::<T>() }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.seq().fails::<T>() }

== fn Queue::deserialize
-- sig r

== fn queue!
-- decl fn vx_macro_queue<T>(vx_items: Vec<T>) -> Queue<T>
-- sig r
-- spec
requires vx_items@.len() <= vx_max_len(),
ensures r.wf(), r.view() =~= vx_items@,
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_acc.view() + vx_it0.rest() =~= vx_items@, vx_items@.len() <= vx_max_len(),
decreases vx_it0.rest().len(),

== fn queue_sync!
-- decl fn vx_macro_queue_sync<T>(vx_items: Vec<T>) -> Queue<T>
-- sig r
-- spec
requires vx_items@.len() <= vx_max_len(),
ensures r.wf(), r.view() =~= vx_items@,
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_acc.view() + vx_it0.rest() =~= vx_items@, vx_items@.len() <= vx_max_len(),
decreases vx_it0.rest().len(),
