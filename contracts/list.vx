== items
/// So that `core::mem::take` can be used (the code's own `default`, by its contract).
impl<T> core::default::Default for List<T> {
    fn default() -> (r: Self)
        ensures r.wf(), r.view() == Seq::<T>::empty(),
    { List::default() }
}
pub open spec fn node_seq<T>(n: Option<Rc<Node<T>>>) -> Seq<T>
    decreases n,
{
    match n { None => Seq::empty(), Some(n) => seq![*n.value] + node_seq(n.next) }
}
pub open spec fn node_ptrs<'a, T>(n: Option<&'a Node<T>>) -> Seq<&'a Rc<T>>
    decreases n,
{
    match n {
        None => Seq::empty(),
        Some(n) => seq![&n.value] + node_ptrs(match n.next { None => None, Some(m) => Some(&*m) }),
    }
}
pub open spec fn opt_node<'a, T>(n: Option<Rc<Node<T>>>) -> Option<&'a Node<T>> {
    match n { None => None, Some(m) => Some(&*m) }
}
pub open spec fn node_next<T>(n: Rc<Node<T>>) -> Option<Rc<Node<T>>> { n.next }
pub proof fn lemma_node_ptrs<T>(n: Option<Rc<Node<T>>>)
    ensures
        node_ptrs(opt_node(n)).len() == node_seq(n).len(),
        forall|i: int| 0 <= i < node_seq(n).len() ==> **(#[trigger] node_ptrs(opt_node(n))[i]) == node_seq(n)[i],
    decreases n,
{
    if let Some(m) = n {
        lemma_node_ptrs(node_next(m));
    }
}
impl<T> List<T> {
    pub open spec fn view(&self) -> Seq<T> { node_seq(self.head) }
    pub open spec fn ptrs<'a>(&self) -> Seq<&'a Rc<T>> { node_ptrs(opt_node(self.head)) }
    pub open spec fn wf(&self) -> bool {
        &&& self.length == self.view().len() && self.length <= vx_max_len()
        &&& self.view().len() == 0 ==> self.last is None
        &&& self.view().len() > 0 ==> (self.last matches Some(l) && *l == self.view().last())
    }
}
/// The node has no next node, or one that has another owner.
pub open spec fn node_cut<T>(n: Node<T>) -> bool { n.next matches Some(m) ==> vx_shared(m) }
impl<T> VxDropOk for Node<T> { open spec fn drop_ok(&self) -> bool { node_cut(*self) } }
impl<T> VxDropOk for Rc<Node<T>> { open spec fn drop_ok(&self) -> bool { vx_shared(*self) || node_cut(**self) } }

== skip
ListVisitor::expecting formatting only

== fn Node::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== fn ListSync::new_sync
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn List::new
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn List::new_with_ptr_kind
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),
== fn List::default
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(),

== fn List::first
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> r == Some(&self.view()[0]),

== fn List::last
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> r == Some(&self.view().last()),

== fn List::drop_first
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> (r matches Some(l) && l.wf() && l.view() =~= self.view().drop_first()),

== fn List::drop_first_mut
-- drops head next
-- sig r
-- spec
requires old(self).wf(),
ensures final(self).wf(),
    r == (old(self).view().len() > 0),
    r ==> final(self).view() =~= old(self).view().drop_first(),
    !r ==> final(self).view() == old(self).view(),
-- entry
broadcast use ax_rc_clone;

== fn List::push_front_ptr_mut
-- drops head next
-- spec
requires old(self).wf(), old(self).view().len() < vx_max_len(),
ensures final(self).wf(), final(self).view() =~= seq![*v] + old(self).view(),

== fn List::push_front
-- sig r
-- spec
requires self.wf(), self.view().len() < vx_max_len(),
ensures r.wf(), r.view() =~= seq![v] + self.view(),

== fn List::push_front_mut
-- spec
requires old(self).wf(), old(self).view().len() < vx_max_len(),
ensures final(self).wf(), final(self).view() =~= seq![v] + old(self).view(),

== fn List::reverse
-- sig r
-- spec
requires self.wf(),
ensures r.wf(), r.view() =~= self.view().reverse(),
-- loop 0
invariant
    vx_it0.iwf(), new_list.wf(), self.wf(),
    new_list.view().len() + vx_it0.rest().len() == self.view().len(),
    forall|i: int| 0 <= i < new_list.view().len() ==> new_list.view()[i] == self.view()[new_list.view().len() - 1 - i],
    forall|i: int| 0 <= i < vx_it0.rest().len() ==> **(#[trigger] vx_it0.rest()[i]) == self.view()[new_list.view().len() + i],
decreases vx_it0.rest().len(),

== fn List::reverse_mut
-- drops head next
-- entry
assert(old(self).view().len() > 0 ==> self.head is Some && old(self).view()[0] == *self.head->0.value);
-- spec
requires old(self).wf(),
ensures final(self).wf(), final(self).view() =~= old(self).view().reverse(),
-- loop 0
invariant
    node_seq(prev).reverse() + node_seq(current) =~= old(self).view(),
decreases node_seq(current).len(),
-- beforeloop 0
assert(node_seq(prev).reverse() =~= Seq::empty());

== fn List::len
-- sig r
-- spec
requires self.wf(),
ensures r == self.view().len(),

== fn List::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.view().len() == 0),

== fn List::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.view()),
-- closure 0
vx_a0: &'_ Rc<T>
-> (r: &T) ensures r == &**vx_a0

== fn List::iter_ptr
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() == self.ptrs(), r.rest().len() == self.view().len(),
    forall|i: int| 0 <= i < self.view().len() ==> **(#[trigger] r.rest()[i]) == self.view()[i],

== fn List::first_mut
-- drops head next
-- sig r
-- spec
requires old(self).wf(), lawful_clone::<T>(),
ensures
    old(self).view().len() == 0 ==> r is None && *final(self) == *old(self),
    old(self).view().len() > 0 ==> r is Some && *r->0 == old(self).view()[0]
        && final(self).view() =~= old(self).view().update(0, *final(r->0))
        && final(self).length == old(self).length && final(self).last == old(self).last,

== fn List::eq
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_eq_spec() ==> r == seq_eq(self.view(), other.view()),
-- entry
proof { lemma_refs_eq(self.view(), other.view()); }

== fn List::partial_cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_partial_cmp_spec() ==> r == lex_partial(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_partial(self.view(), other.view()); }

== fn List::cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_cmp_spec() ==> r == lex_cmp(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_cmp(self.view(), other.view()); }

== impl Hash for List
open spec fn toks(&self) -> Seq<int> { seq![self.view().len() as int] + seq_toks(self.view()) }

open spec fn hwf(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).hwf() }

== fn List::hash
-- loop 0
invariant vx_it0.iwf(), self.hwf(), vx_it0.rest().len() <= self.view().len(),
   vx_it0.rest() =~= refs(self.view().subrange(self.view().len() - vx_it0.rest().len(), self.view().len() as int)),
   state.fed() + seq_toks(self.view().subrange(self.view().len() - vx_it0.rest().len(), self.view().len() as int)) =~= old(state).fed() + self.toks(),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let n = self.view().len() as int;
    let k = n - vx_it0.rest().len();
    if k < n {
        assert(self.view().subrange(k, n).subrange(1, n - k) =~= self.view().subrange(k + 1, n));
        assert(self.view()[k].hwf());
    }
}
-- beforeloop 0
assert(self.view().subrange(0, self.view().len() as int) =~= self.view());

== fn List::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== impl IntoIterator for List
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<&'a T> { refs(self.view()) }
== fn List::into_iter
-- sig r

== fn List::from_iter
-- sig r
-- entry
broadcast use ax_fits;
-- spec
requires into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(), fits::<T>(into_iter.into_rest().len()),
ensures r.wf(), r.view() =~= into_iter.into_rest(),
-- loop 0
invariant vx_it0.iwf(), vec@ + vx_it0.rest() =~= into_iter.into_rest(),
decreases vx_it0.rest().len(),
-- loop 1
invariant vx_it1.iwf(), list.wf(), into_iter.into_rest().len() <= vx_max_len(),
   vx_it1.rest().reverse() + list.view() =~= into_iter.into_rest(),
decreases vx_it1.rest().len(),

== fn List::drop
-- drops head next
-- spec
ensures final(self).head is None, // drop_ok
-- entry
broadcast use ax_rc_clone;
-- loop 0
invariant true,
decreases node_seq(head).len(),

== impl Iterator for IterPtr
open spec fn rest(&self) -> Seq<&'a Rc<T>> { node_ptrs(self.next) }
open spec fn iwf(&self) -> bool { self.length == self.rest().len() }
== fn IterPtr::new
-- sig r
-- spec
requires list.wf(),
ensures r.iwf(), r.rest() == list.ptrs(), r.rest().len() == list.view().len(),
    forall|i: int| 0 <= i < list.view().len() ==> **(#[trigger] r.rest()[i]) == list.view()[i],
-- entry
proof { lemma_node_ptrs(list.head); }
== fn IterPtr::next
-- sig r
== fn IterPtr::size_hint
-- sig r
-- spec
requires self.iwf(),
ensures r.0 == self.rest().len(), r.1 == Some(r.0),

== fn List::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.seq_doc(refs(self.view()), r),

== impl mod:serde
impl<'de, T> VxSeqVisitor<'de> for ListVisitor<T> where T: Deserialize<'de> {
    type Value = List<T>;
    open spec fn seq_pre<A: SeqAccess<'de>>(seq: A) -> bool {
        seq.elems::<T>().len() <= vx_max_len()
    }
    open spec fn seq_post<A: SeqAccess<'de>>(seq: A, r: List<T>) -> bool { r.wf() && r.view() =~= seq.elems::<T>() }
    open spec fn seq_fails<A: SeqAccess<'de>>(seq: A) -> bool { seq.fails::<T>() }
    fn vx_visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<List<T>, A::Error>) { self.visit_seq(seq) }
}

== impl Deserialize for List
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { <ListVisitor<T> as VxSeqVisitor<'de>>::seq_pre(d.seq()) }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && r.view() =~= d.seq().elems::<T>() }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.seq().fails::<T>() }

== fn List::deserialize
-- sig r

== fn ListVisitor::visit_seq
-- sig r
-- spec
requires seq.elems::<T>().len() <= vx_max_len(),
ensures r matches Ok(l) ==> l.wf() && l.view() =~= seq.elems::<T>(),
    r is Err <==> seq.fails::<T>(),
-- entry
let ghost bad = seq.fails::<T>();
let ghost all = seq.elems::<T>();
-- loop 0
invariant seq.fails::<T>() == bad, vec@ + seq.elems::<T>() =~= all,
decreases seq.elems::<T>().len(),
-- loop 1
invariant vx_it0.iwf(), list.wf(), all.len() <= vx_max_len(),
   vx_it0.rest().reverse() + list.view() =~= all,
decreases vx_it0.rest().len(),

== fn list!
-- arity 8
pub fn vx_list_@N<T>(@P) -> (r: List<T>)
    ensures r.wf(), r.view() =~= @S,
{ list![@A] }
== fn list_sync!
-- arity 8
pub fn vx_list_sync_@N<T>(@P) -> (r: List<T>)
    ensures r.wf(), r.view() =~= @S,
{ list_sync![@A] }
