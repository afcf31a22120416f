== items
pub use crate::map::hash_trie_map::*;

/// the elements in order of iteration
pub open spec fn keys<'a, T>(s: Seq<Ent<T, ()>>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i].key) }
pub open spec fn units<T>(s: Seq<T>) -> Seq<(T, ())> { Seq::new(s.len(), |i: int| (s[i], ())) }
pub open spec fn in_set<T: Eq + Hash>(e: Ent<T, ()>, t: Seq<Ent<T, ()>>) -> bool { lookup(t, &e.key) is Some }
pub open spec fn subset<T: Eq + Hash>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> in_set(#[trigger] s[i], t)
}
pub open spec fn disjoint<T: Eq + Hash>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !in_set(#[trigger] s[i], t)
}

/// a subset has no more elements
pub proof fn lemma_subset_len<T: Eq + Hash>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>)
    requires equiv::<T>(), uniq(s), uniq(t), subset(s, t),
    ensures s.len() <= t.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.len() - 1;
        assert(in_set(s[a], t));
        let y = choose|y: int| #[trigger] hit(t, &s[a].key, y);
        assert(hit(t, &s[a].key, y));
        let s1 = s.take(a);
        let t1 = t.remove(y);
        assert forall|i: int| 0 <= i < s1.len() implies in_set(#[trigger] s1[i], t1) by {
            assert(in_set(s[i], t));
            let z = choose|z: int| #[trigger] hit(t, &s[i].key, z);
            assert(hit(t, &s[i].key, z));
            lemma_eqv(&t[y].key, &s[i].key, &s[a].key);
            lemma_eqv(&s[i].key, &t[y].key, &s[a].key);
            assert(z != y);
            assert(hit(t1, &s1[i].key, if z < y { z } else { z - 1 }));
        }
        assert(uniq(t1)) by {
            assert forall|i: int, j: int| #![trigger t1[i], t1[j]] 0 <= i < t1.len() && 0 <= j < t1.len() && i != j implies !t1[i].key.eq_spec(&t1[j].key) by {
                assert(t1[i] == t[if i < y { i } else { i + 1 }] && t1[j] == t[if j < y { j } else { j + 1 }]);
            }
        }
        assert(uniq(s1)) by {
            assert forall|i: int, j: int| #![trigger s1[i], s1[j]] 0 <= i < s1.len() && 0 <= j < s1.len() && i != j implies !s1[i].key.eq_spec(&s1[j].key) by {
                assert(s1[i] == s[i] && s1[j] == s[j]);
            }
        }
        lemma_subset_len(s1, t1);
    }
}
pub proof fn lemma_subset<T: Eq + Hash>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>)
    requires equiv::<T>(), uniq(s), uniq(t),
    ensures s == t ==> subset(s, t), s.len() > t.len() ==> !subset(s, t),
{
    if s == t {
        assert forall|i: int| 0 <= i < s.len() implies in_set(#[trigger] s[i], t) by {
            lemma_eqv(&s[i].key, &s[i].key, &s[i].key);
            assert(hit(t, &s[i].key, i));
        }
    }
    if subset(s, t) { lemma_subset_len(s, t); }
}

impl<T: Eq + Hash, H: BuildHasher + Clone> HashTrieSet<T, H> {
    pub open spec fn wf(&self) -> bool { self.map.wf() }
    pub open spec fn ents(&self) -> Seq<Ent<T, ()>> { self.map.ents() }
}

/// `()` equals itself
pub axiom fn ax_unit_eq()
    ensures <() as PartialEqSpec<()>>::obeys_eq_spec(), forall|a: (), b: ()| #[trigger] a.eq_spec(&b);

== skip
HashTrieSetVisitor::expecting formatting only

== fn HashTrieSet::new
-- sig r
-- spec
requires hash_law::<T, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn HashTrieSet::new_with_degree
-- sig r
-- spec
requires deg_ok(degree), hash_law::<T, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
-- twincalls
new_with_hasher_and_degree_and_ptr_kind
-- twin
requires hash_law::<T, DefaultBuildHasher>(),
ensures deg_ok(degree), r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn HashTrieSetSync::new_sync
-- sig r
-- spec
requires hash_law::<T, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn HashTrieSetSync::new_with_degree_sync
-- sig r
-- spec
requires deg_ok(degree), hash_law::<T, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
-- twincalls
new_with_hasher_and_degree_and_ptr_kind
-- twin
requires hash_law::<T, DefaultBuildHasher>(),
ensures deg_ok(degree), r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn HashTrieSet::new_with_hasher_with_ptr_kind
-- sig r
-- spec
requires hash_ok::<T, T, H>(&hasher_builder),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(), r.map.hasher_builder == hasher_builder,
== fn HashTrieSet::new_with_hasher_and_degree_and_ptr_kind
-- sig r
-- spec
requires deg_ok(degree), hash_ok::<T, T, H>(&hasher_builder),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(), r.map.hasher_builder == hasher_builder,
-- twincalls
new_with_hasher_and_degree_and_ptr_kind
-- twin
requires hash_ok::<T, T, H>(&hasher_builder),
ensures deg_ok(degree), r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(), r.map.hasher_builder == hasher_builder,
== fn HashTrieSet::default
-- sig r
-- spec
requires hash_law::<T, H>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn HashTrieSet::clone
-- sig r
-- spec
ensures lawful_clone::<H>() ==> r == *self,

== fn HashTrieSet::insert
-- sig r
-- spec
requires self.wf(), self.ents().len() < vx_max_len(), lawful_clone::<H>(),
ensures r.wf(), inserted(self.ents(), r.ents(), v, ()), now_maps(self.ents(), r.ents(), en(v, ())),
== fn HashTrieSet::insert_mut
-- spec
requires old(self).wf(), old(self).ents().len() < vx_max_len(),
ensures final(self).wf(), final(self).map.hasher_builder == old(self).map.hasher_builder,
    inserted(old(self).ents(), final(self).ents(), v, ()), now_maps(old(self).ents(), final(self).ents(), en(v, ())),
== fn HashTrieSet::remove
-- sig r
-- spec
requires self.wf(), hash_ok::<T, V, H>(&self.map.hasher_builder), lawful_clone::<H>(),
ensures r.wf(), exists|b: bool| #[trigger] del(self.map.ents(), r.map.ents(), v, b),
== fn HashTrieSet::remove_mut
-- sig r
-- spec
requires old(self).wf(), hash_ok::<T, V, H>(&old(self).map.hasher_builder),
ensures final(self).wf(), final(self).map.hasher_builder == old(self).map.hasher_builder, del(old(self).ents(), final(self).ents(), v, r),

== fn HashTrieSet::get
-- sig r
-- spec
requires self.wf(), hash_ok::<T, V, H>(&self.map.hasher_builder),
ensures match r { Some(k) => lookup(self.ents(), v) is Some && *k == lookup(self.ents(), v)->0.key, None => lookup(self.ents(), v) is None },
== fn HashTrieSet::contains
-- sig r
-- spec
requires self.wf(), hash_ok::<T, V, H>(&self.map.hasher_builder),
ensures r == (lookup(self.ents(), v) is Some),

== fn HashTrieSet::is_disjoint
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == disjoint(self.ents(), other.ents()),
-- entry
proof { assert forall|i: int| 0 <= i < self.ents().len() implies (#[trigger] self.ents()[i]).key == *keys::<T>(self.ents())[i] by {} }
-- closure 0
vx_a0: &'_ T
-> (r: bool) ensures r == (lookup(other.ents(), vx_a0) is None)
== fn HashTrieSet::ptr_eq
-- sig r
-- spec
ensures r ==> *self.map.root == *other.map.root,
== fn HashTrieSet::is_subset
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == subset(self.ents(), other.ents()),
-- entry
proof { lemma_subset(self.ents(), other.ents()); assert forall|i: int| 0 <= i < self.ents().len() implies (#[trigger] self.ents()[i]).key == *keys::<T>(self.ents())[i] by {} }
-- closure 0
vx_a0: &'_ T
-> (r: bool) ensures r == (lookup(other.ents(), vx_a0) is Some)
== fn HashTrieSet::is_superset
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == subset(other.ents(), self.ents()),
== fn HashTrieSet::size
-- sig r
-- spec
requires self.wf(),
ensures r == self.ents().len(),
== fn HashTrieSet::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.ents().len() == 0),

== fn HashTrieSet::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= keys(self.ents()),

== impl IntoIterator for HashTrieSet
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<&'a T> { keys(self.ents()) }
== fn HashTrieSet::into_iter
-- sig r

== fn HashTrieSet::eq
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == (self.ents().len() == other.ents().len() && subset(self.ents(), other.ents())),
-- entry
proof { ax_unit_eq(); }

== fn HashTrieSet::from_iter
-- sig r
-- spec
requires hash_law::<T, H>(), into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), units(into_iter.into_rest())),
-- entry
let ghost all = into_iter.into_rest();
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
}
-- loop 0
invariant vx_it0.iwf(), set.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    set.ents().len() <= all.len() - vx_it0.rest().len(), collected(set.ents(), units(all.take(all.len() - vx_it0.rest().len()))),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn HashTrieSet::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.seq_doc::<&T>(keys(self.ents()), r),

== impl mod:serde
impl<'de, T, H> VxSeqVisitor<'de> for HashTrieSetVisitor<T, H> where T: Eq + Hash + Deserialize<'de>, H: BuildHasher + Clone + Default {
    type Value = HashTrieSet<T, H>;
    open spec fn seq_pre<A: SeqAccess<'de>>(seq: A) -> bool { hash_law::<T, H>() && seq.elems::<T>().len() <= vx_max_len() }
    open spec fn seq_post<A: SeqAccess<'de>>(seq: A, r: HashTrieSet<T, H>) -> bool { r.wf() && collected(r.ents(), units(seq.elems::<T>())) }
    open spec fn seq_fails<A: SeqAccess<'de>>(seq: A) -> bool { seq.fails::<T>() }
    fn vx_visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<HashTrieSet<T, H>, A::Error>) { self.visit_seq(seq) }
}

== impl Deserialize for HashTrieSet
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { hash_law::<T, H>() && d.seq().elems::<T>().len() <= vx_max_len() }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && collected(r.ents(), units(d.seq().elems::<T>())) }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.seq().fails::<T>() }

== fn HashTrieSet::deserialize
-- sig r

== fn HashTrieSetVisitor::visit_seq
-- sig r
-- spec
requires hash_law::<T, H>(), seq.elems::<T>().len() <= vx_max_len(),
ensures r matches Ok(m) ==> m.wf() && collected(m.ents(), units(seq.elems::<T>())),
    r is Err <==> seq.fails::<T>(),
-- entry
let ghost bad = seq.fails::<T>();
let ghost all = seq.elems::<T>();
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- loop 0
invariant seq.fails::<T>() == bad, set.wf(), seq.elems::<T>().len() <= all.len(), seq.elems::<T>() =~= all.skip(all.len() - seq.elems::<T>().len()),
    set.ents().len() <= all.len() - seq.elems::<T>().len(), collected(set.ents(), units(all.take(all.len() - seq.elems::<T>().len()))),
decreases seq.elems::<T>().len(),
-- loopbody 0
proof {
    let n = all.len() - seq.elems::<T>().len();
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if n == all.len() { assert(all.take(n) =~= all); }
}
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn ht_set!
-- decl fn vx_macro_ht_set<T: Eq + Hash>(vx_items: Vec<T>) -> HashTrieSet<T, DefaultBuildHasher>
-- sig r
-- spec
requires hash_law::<T, DefaultBuildHasher>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), units(vx_items@)),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), units(all.take(all.len() - vx_it0.rest().len()))),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn ht_set_sync!
-- decl fn vx_macro_ht_set_sync<T: Eq + Hash>(vx_items: Vec<T>) -> HashTrieSet<T, DefaultBuildHasher>
-- sig r
-- spec
requires hash_law::<T, DefaultBuildHasher>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), units(vx_items@)),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), units(all.take(all.len() - vx_it0.rest().len()))),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }
