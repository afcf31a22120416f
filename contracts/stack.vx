== items
/// So that `core::mem::take` can be used (the code's own `default`, by its contract).
impl<T> core::default::Default for Stack<T> {
    fn default() -> (r: Self)
        ensures r.wf(), r.view() == Seq::<T>::empty(),
    { Stack::default() }
}
impl<T> Stack<T> {
    /// from the top
    pub open spec fn view(&self) -> Seq<T> { self.list.view() }
    pub open spec fn wf(&self) -> bool { self.list.wf() }
}

== fn StackSync::new_sync
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Stack::new
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Stack::new_with_ptr_kind
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Stack::default
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn Stack::eq
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_eq_spec() ==> r == seq_eq(self.view(), other.view()),
-- entry
proof { lemma_refs_eq(self.view(), other.view()); }
== fn Stack::partial_cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_partial_cmp_spec() ==> r == lex_partial(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_partial(self.view(), other.view()); }
== fn Stack::cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_cmp_spec() ==> r == lex_cmp(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_cmp(self.view(), other.view()); }
== impl Hash for Stack
open spec fn toks(&self) -> Seq<int> { seq![self.view().len() as int] + seq_toks(self.view()) }
open spec fn hwf(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).hwf() }

== fn Stack::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== impl IntoIterator for Stack
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<&'a T> { refs(self.view()) }
== fn Stack::into_iter
-- sig r

== fn Stack::from_iter
-- sig r
-- spec
requires into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(), fits::<T>(into_iter.into_rest().len()),
ensures r.wf(), r.view() =~= into_iter.into_rest(),

== fn Stack::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.seq_doc(refs(self.view()), r),

== fn Stack::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.view().len() == 0),

== fn Stack::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.view()),
== fn Stack::pop
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> (r matches Some(l) && l.wf() && l.view() =~= self.view().drop_first()),

== fn Stack::pop_mut
-- sig r
-- spec
requires old(self).wf(),
ensures final(self).wf(),
    r == (old(self).view().len() > 0),
    r ==> final(self).view() =~= old(self).view().drop_first(),
    !r ==> final(self).view() == old(self).view(),

== fn Stack::push
-- sig r
-- spec
requires self.wf(), self.view().len() < vx_max_len(),
ensures r.wf(), r.view() =~= seq![v] + self.view(),

== fn Stack::push_mut
-- spec
requires old(self).wf(), old(self).view().len() < vx_max_len(),
ensures final(self).wf(), final(self).view() =~= seq![v] + old(self).view(),

== fn Stack::size
-- sig r
-- spec
requires self.wf(),
ensures r == self.view().len(),

== fn Stack::peek
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> r == Some(&self.view()[0]),
== fn Stack::hash

== impl Deserialize for Stack
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { <List<T> as Deserialize<'de>>::de_pre(d) }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && r.view() =~= d.seq().elems::<T>() }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.seq().fails::<T>() }

== fn Stack::deserialize
-- sig r

== fn stack!
-- decl fn vx_macro_stack<T>(vx_items: Vec<T>) -> Stack<T>
-- sig r
-- spec
requires vx_items@.len() <= vx_max_len(),
ensures r.wf(), r.view() =~= vx_items@.reverse(),
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().reverse() + vx_acc.view() =~= vx_items@.reverse(), vx_items@.len() <= vx_max_len(),
decreases vx_it0.rest().len(),

== fn stack_sync!
-- decl fn vx_macro_stack_sync<T>(vx_items: Vec<T>) -> Stack<T>
-- sig r
-- spec
requires vx_items@.len() <= vx_max_len(),
ensures r.wf(), r.view() =~= vx_items@.reverse(),
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().reverse() + vx_acc.view() =~= vx_items@.reverse(), vx_items@.len() <= vx_max_len(),
decreases vx_it0.rest().len(),
