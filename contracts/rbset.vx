== items
pub use crate::map::red_black_tree_map::*;

/// the elements in order
pub open spec fn keys<'a, T>(s: Seq<Ent<T, ()>>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i].key) }
pub open spec fn units<T>(s: Seq<T>) -> Seq<(T, ())> { Seq::new(s.len(), |i: int| (s[i], ())) }
pub open spec fn in_set<T: Ord>(e: Ent<T, ()>, t: Seq<Ent<T, ()>>) -> bool { lookup(t, &e.key) is Some }
pub open spec fn subset<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> in_set(#[trigger] s[i], t)
}
pub open spec fn disjoint<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !in_set(#[trigger] s[i], t)
}
/// the first `a` of `s` have no equal in `t`, the first `b` of `t` none in `s`
#[verifier::opaque]
pub open spec fn apart<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>, a: int, b: int) -> bool {
    &&& 0 <= a <= s.len() && 0 <= b <= t.len()
    &&& forall|x: int, y: int| #![trigger s[x], t[y]] 0 <= x < s.len() && 0 <= y < t.len() && (x < a || y < b) ==> !(s[x].key.cmp_spec(&t[y].key) is Equal)
}
/// the first `b` of `t` are smaller than all but the first `i` of `s`, which are in `t`
#[verifier::opaque]
pub open spec fn passed<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>, i: int, b: int) -> bool {
    &&& 0 <= i <= s.len() && 0 <= b <= t.len()
    &&& forall|x: int, y: int| #![trigger s[x], t[y]] i <= x < s.len() && 0 <= y < b ==> t[y].key.cmp_spec(&s[x].key) is Less
    &&& forall|x: int| 0 <= x < i ==> in_set(#[trigger] s[x], t)
}

pub proof fn lemma_tr<T: Ord>(a: &T, b: &T, c: &T)
    requires lawful_ord::<T>(),
    ensures
        !(a.cmp_spec(b) is Greater) && !(b.cmp_spec(c) is Greater) ==> !(a.cmp_spec(c) is Greater) && (a.cmp_spec(b) is Less || b.cmp_spec(c) is Less ==> a.cmp_spec(c) is Less),
        a.cmp_spec(b) == rev_ord(b.cmp_spec(a)), b.cmp_spec(c) == rev_ord(c.cmp_spec(b)), a.cmp_spec(c) == rev_ord(c.cmp_spec(a)),
{
    reveal(total_order);
}
/// `s[x]` against `t[y]`
pub open spec fn at<T: Ord>(s: Seq<Ent<T, ()>>, x: int, t: Seq<Ent<T, ()>>, y: int) -> Ordering { s[x].key.cmp_spec(&t[y].key) }

pub proof fn lemma_in_set<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>, x: int)
    requires lawful_ord::<T>(), sorted(t), 0 <= x < s.len(),
    ensures
        forall|y: int| 0 <= y < t.len() && #[trigger] at(s, x, t, y) is Equal ==> in_set(s[x], t),
        in_set(s[x], t) ==> exists|y: int| 0 <= y < t.len() && #[trigger] at(s, x, t, y) is Equal,
{
    lemma_ord_self::<T>();
    assert forall|y: int| 0 <= y < t.len() && #[trigger] at(s, x, t, y) is Equal implies in_set(s[x], t) by {
        lemma_at::<T, (), T>(t, &s[x].key, y);
    }
    if in_set(s[x], t) {
        let y = choose|y: int| #[trigger] hit(t, &s[x].key, y);
        assert(hit(t, &s[x].key, y));
        assert(at(s, x, t, y) is Equal);
    }
}
pub proof fn lemma_apart<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>, a: int, b: int)
    requires lawful_ord::<T>(), sorted(s), sorted(t), a == 0 && b == 0 || apart(s, t, a, b),
    ensures
        apart(s, t, a, b),
        a < s.len() && b < t.len() ==> match s[a].key.cmp_spec(&t[b].key) {
            Ordering::Less => apart(s, t, a + 1, b),
            Ordering::Equal => !disjoint(s, t),
            Ordering::Greater => apart(s, t, a, b + 1),
        },
        a < s.len() && b < t.len() ==> s[a].key.cmp_spec(&t[b].key) == rev_ord(t[b].key.cmp_spec(&s[a].key)),
        a == s.len() || b == t.len() ==> disjoint(s, t),
{
    reveal(apart);
    if a < s.len() && b < t.len() {
        lemma_tr(&s[a].key, &t[b].key, &t[b].key);
        match at(s, a, t, b) {
            Ordering::Less => {
                assert forall|y: int| b < y < t.len() implies #[trigger] at(s, a, t, y) is Less by {
                    assert(t[b].key.cmp_spec(&t[y].key) is Less); lemma_tr(&s[a].key, &t[b].key, &t[y].key);
                }
                assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < t.len() && (x < a + 1 || y < b) implies !(#[trigger] at(s, x, t, y) is Equal) by {
                    assert(s[x] == s[x] && t[y] == t[y]);
                }
                assert(apart(s, t, a + 1, b)) by { assert forall|x: int, y: int| #![trigger s[x], t[y]] 0 <= x < s.len() && 0 <= y < t.len() && (x < a + 1 || y < b) implies !(s[x].key.cmp_spec(&t[y].key) is Equal) by { assert(!(at(s, x, t, y) is Equal)); } }
            },
            Ordering::Equal => { lemma_in_set(s, t, a); assert(in_set(s[a], t)); },
            Ordering::Greater => {
                assert forall|x: int| a < x < s.len() implies #[trigger] at(s, x, t, b) is Greater by {
                    lemma_tr(&t[b].key, &s[a].key, &s[x].key);
                }
                assert forall|x: int, y: int| 0 <= x < s.len() && 0 <= y < t.len() && (x < a || y < b + 1) implies !(#[trigger] at(s, x, t, y) is Equal) by {
                    assert(s[x] == s[x] && t[y] == t[y]);
                }
                assert(apart(s, t, a, b + 1)) by { assert forall|x: int, y: int| #![trigger s[x], t[y]] 0 <= x < s.len() && 0 <= y < t.len() && (x < a || y < b + 1) implies !(s[x].key.cmp_spec(&t[y].key) is Equal) by { assert(!(at(s, x, t, y) is Equal)); } }
            },
        }
    } else {
        assert forall|i: int| 0 <= i < s.len() implies !in_set(#[trigger] s[i], t) by { lemma_in_set(s, t, i); }
    }
}
pub proof fn lemma_passed<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>, i: int, b: int)
    requires lawful_ord::<T>(), sorted(s), sorted(t), i == 0 && b == 0 || passed(s, t, i, b),
    ensures
        passed(s, t, i, b),
        i < s.len() && b < t.len() ==> match t[b].key.cmp_spec(&s[i].key) {
            Ordering::Less => passed(s, t, i, b + 1),
            Ordering::Equal => passed(s, t, i + 1, b + 1),
            Ordering::Greater => !subset(s, t),
        },
        i < s.len() && b < t.len() ==> s[i].key.cmp_spec(&t[b].key) == rev_ord(t[b].key.cmp_spec(&s[i].key)),
        i < s.len() && b == t.len() ==> !subset(s, t),
        i == s.len() ==> subset(s, t),
{
    reveal(passed);
    if i < s.len() { lemma_in_set(s, t, i); }
    if i < s.len() && b < t.len() {
        lemma_tr(&s[i].key, &t[b].key, &t[b].key);
        assert forall|x: int| i < x < s.len() implies at(t, b, s, i) is Less || at(t, b, s, i) is Equal ==> #[trigger] at(t, b, s, x) is Less by {
            lemma_tr(&t[b].key, &s[i].key, &s[x].key);
        }
        match t[b].key.cmp_spec(&s[i].key) {
            Ordering::Less => {
                assert forall|x: int, y: int| #![trigger s[x], t[y]] i <= x < s.len() && 0 <= y < b + 1 implies t[y].key.cmp_spec(&s[x].key) is Less by { if y == b && x > i { assert(at(t, b, s, x) is Less); } }
            },
            Ordering::Equal => {
                assert(at(s, i, t, b) is Equal);
                assert(in_set(s[i], t));
                assert forall|x: int, y: int| #![trigger s[x], t[y]] i + 1 <= x < s.len() && 0 <= y < b + 1 implies t[y].key.cmp_spec(&s[x].key) is Less by { if y == b { assert(at(t, b, s, x) is Less); } }
            },
            Ordering::Greater => {
                assert forall|y: int| 0 <= y < t.len() implies !(#[trigger] at(s, i, t, y) is Equal) by {
                    if y < b { assert(t[y].key.cmp_spec(&s[i].key) is Less); }
                    lemma_tr(&s[i].key, &t[b].key, &t[y].key);
                }
                assert(!in_set(s[i], t));
            },
        }
    } else if i < s.len() {
        assert forall|y: int| 0 <= y < t.len() implies !(#[trigger] at(s, i, t, y) is Equal) by {
            assert(t[y].key.cmp_spec(&s[i].key) is Less);
            lemma_tr(&s[i].key, &t[y].key, &t[y].key);
        }
        assert(!in_set(s[i], t));
    }
}
pub proof fn lemma_subset_self<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>)
    requires lawful_ord::<T>(), sorted(s), sorted(t),
    ensures s =~= t ==> subset(s, t),
        s.len() > t.len() ==> !subset(s, t),
{
    if s =~= t {
        assert forall|i: int| 0 <= i < s.len() implies in_set(#[trigger] s[i], t) by {
            lemma_in_set(s, t, i);
            lemma_tr(&s[i].key, &s[i].key, &s[i].key);
            assert(at(s, i, t, i) is Equal);
        }
    }
    if subset(s, t) { lemma_subset_len(s, t); }
}
pub proof fn lemma_subset_len<T: Ord>(s: Seq<Ent<T, ()>>, t: Seq<Ent<T, ()>>)
    requires lawful_ord::<T>(), sorted(s), sorted(t), subset(s, t),
    ensures s.len() <= t.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.len() - 1;
        assert(in_set(s[a], t));
        lemma_in_set(s, t, a);
        let y = choose|y: int| 0 <= y < t.len() && #[trigger] at(s, a, t, y) is Equal;
        let s1 = s.take(a);
        let t1 = t.take(y);
        assert forall|i: int| 0 <= i < s1.len() implies in_set(#[trigger] s1[i], t1) by {
            assert(in_set(s[i], t));
            lemma_in_set(s, t, i);
            lemma_in_set(s1, t1, i);
            let z = choose|z: int| 0 <= z < t.len() && #[trigger] at(s, i, t, z) is Equal;
            assert(s[i].key.cmp_spec(&s[a].key) is Less);
            lemma_tr(&t[z].key, &s[i].key, &s[a].key);
            lemma_tr(&t[z].key, &s[a].key, &t[y].key);
            if z > y { assert(t[y].key.cmp_spec(&t[z].key) is Less); }
            if z == y { lemma_tr(&t[z].key, &t[z].key, &t[z].key); }
            assert(at(s1, i, t1, z) is Equal);
        }
        lemma_subset_len(s1, t1);
    }
}

impl<T: Ord> RedBlackTreeSet<T> {
    pub open spec fn wf(&self) -> bool { self.map.wf() }
    pub open spec fn ents(&self) -> Seq<Ent<T, ()>> { self.map.ents() }
}

/// `()` equals itself
pub axiom fn ax_unit_eq()
    ensures <() as PartialEqSpec<()>>::obeys_eq_spec(), forall|a: (), b: ()| #[trigger] a.eq_spec(&b);

== skip
RedBlackTreeSetVisitor::expecting formatting only

== fn RedBlackTreeSetSync::new_sync
-- sig r
-- spec
requires lawful_ord::<T>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn RedBlackTreeSet::new
-- sig r
-- spec
requires lawful_ord::<T>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn RedBlackTreeSet::new_with_ptr_kind
-- sig r
-- spec
requires lawful_ord::<T>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn RedBlackTreeSet::default
-- sig r
-- spec
requires lawful_ord::<T>(),
ensures r.wf(), r.ents() == Seq::<Ent<T, ()>>::empty(),
== fn RedBlackTreeSet::clone
-- sig r
-- spec
ensures r == *self,

== fn RedBlackTreeSet::insert
-- sig r
-- spec
requires self.wf(), self.ents().len() < vx_max_len(),
ensures r.wf(), inserted(self.ents(), r.ents(), v, ()),
== fn RedBlackTreeSet::insert_mut
-- spec
requires old(self).wf(), old(self).ents().len() < vx_max_len(),
ensures final(self).wf(), inserted(old(self).ents(), final(self).ents(), v, ()),
== fn RedBlackTreeSet::remove
-- sig r
-- spec
requires self.wf(), ord_ok::<T, V>(),
ensures r.wf(), exists|b: bool| #[trigger] del(self.map.ents(), r.map.ents(), v, b),
== fn RedBlackTreeSet::remove_mut
-- sig r
-- spec
requires old(self).wf(), ord_ok::<T, V>(),
ensures final(self).wf(), del(old(self).ents(), final(self).ents(), v, r),

== fn RedBlackTreeSet::get
-- sig r
-- spec
requires self.wf(), ord_ok::<T, V>(),
ensures match r { Some(k) => lookup(self.ents(), v) is Some && *k == lookup(self.ents(), v)->0.key, None => lookup(self.ents(), v) is None },
== fn RedBlackTreeSet::contains
-- sig r
-- spec
requires self.wf(), ord_ok::<T, V>(),
ensures r == (lookup(self.ents(), v) is Some),
== fn RedBlackTreeSet::first
-- sig r
-- spec
requires self.wf(),
ensures match r { Some(k) => self.ents().len() > 0 && *k == self.ents()[0].key, None => self.ents().len() == 0 },
== fn RedBlackTreeSet::last
-- sig r
-- spec
requires self.wf(),
ensures match r { Some(k) => self.ents().len() > 0 && *k == self.ents().last().key, None => self.ents().len() == 0 },

== fn RedBlackTreeSet::is_disjoint
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == disjoint(self.ents(), other.ents()),
-- entry
let ghost s = self.ents();
let ghost t = other.ents();
proof { lemma_apart(s, t, 0, 0); }
-- loopbody 0
proof {
    lemma_apart(s, t, s.len() - self_it.rest().len() - if v_opt is Some { 1int } else { 0 }, t.len() - other_it.rest().len() - if u_opt is Some { 1int } else { 0 });
}
-- afterloop 0
proof { lemma_apart(s, t, s.len() - self_it.rest().len() - if v_opt is Some { 1int } else { 0 }, t.len() - other_it.rest().len() - if u_opt is Some { 1int } else { 0 }); }
-- loop 0
invariant self_it.iwf(), other_it.iwf(), self_it.rest().len() <= s.len(), other_it.rest().len() <= t.len(),
    self_it.rest() =~= keys(s).skip(s.len() - self_it.rest().len()), other_it.rest() =~= keys(t).skip(t.len() - other_it.rest().len()),
    v_opt matches Some(v) ==> self_it.rest().len() < s.len() && *v == s[s.len() - self_it.rest().len() - 1].key,
    u_opt matches Some(u) ==> other_it.rest().len() < t.len() && *u == t[t.len() - other_it.rest().len() - 1].key,
    v_opt is None ==> self_it.rest().len() == 0,
    u_opt is None ==> other_it.rest().len() == 0,
    apart(s, t, s.len() - self_it.rest().len() - if v_opt is Some { 1int } else { 0 }, t.len() - other_it.rest().len() - if u_opt is Some { 1int } else { 0 }),
decreases self_it.rest().len() + other_it.rest().len() + (if v_opt is Some { 1int } else { 0 }) + (if u_opt is Some { 1int } else { 0 }),

== fn RedBlackTreeSet::ptr_eq
-- sig r
-- spec
ensures r ==> self.map.root == other.map.root, self.map.root is None && other.map.root is None ==> r,

== fn RedBlackTreeSet::is_subset
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == subset(self.ents(), other.ents()),
-- entry
let ghost s = self.ents();
let ghost t = other.ents();
proof { lemma_passed(s, t, 0, 0); lemma_subset_self(s, t); }
-- loopbody 1
proof { lemma_passed(s, t, s.len() - vx_it0.rest().len() - 1, t.len() - other_it.rest().len()); }
-- afterloop 0
proof { lemma_passed(s, t, s.len() as int, t.len() - other_it.rest().len()); }
-- loop 0
invariant vx_it0.iwf(), other_it.iwf(), vx_it0.rest().len() <= s.len(), other_it.rest().len() <= t.len(),
    vx_it0.rest() =~= keys(s).skip(s.len() - vx_it0.rest().len()), other_it.rest() =~= keys(t).skip(t.len() - other_it.rest().len()),
    passed(s, t, s.len() - vx_it0.rest().len(), t.len() - other_it.rest().len()),
decreases vx_it0.rest().len(),
-- loop 1
invariant_except_break passed(s, t, s.len() - vx_it0.rest().len() - 1, t.len() - other_it.rest().len()),
invariant vx_it0.iwf(), other_it.iwf(), vx_it0.rest().len() < s.len(), other_it.rest().len() <= t.len(),
    vx_it0.rest() =~= keys(s).skip(s.len() - vx_it0.rest().len()), other_it.rest() =~= keys(t).skip(t.len() - other_it.rest().len()),
    *v == s[s.len() - vx_it0.rest().len() - 1].key,
ensures passed(s, t, s.len() - vx_it0.rest().len(), t.len() - other_it.rest().len()),
decreases other_it.rest().len(),

== fn RedBlackTreeSet::is_superset
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == subset(other.ents(), self.ents()),
== fn RedBlackTreeSet::size
-- sig r
-- spec
requires self.wf(),
ensures r == self.ents().len(),
== fn RedBlackTreeSet::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.ents().len() == 0),

== fn RedBlackTreeSet::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= keys(self.ents()),
== fn RedBlackTreeSet::range
-- sig r
-- spec
requires self.wf(), ord_ok::<T, Q>(), range_ok(range.sb(), range.eb()),
ensures r.iwf(), r.rest() =~= keys(in_range(self.ents(), range.sb(), range.eb())),
-- closure 0
vx_a0: (&'_ T, &'_ ())
-> (r: &T) ensures r == vx_a0.0
-- twincalls
range
-- twin
requires self.wf(), ord_ok::<T, Q>(),
ensures range_ok(range.sb(), range.eb()), r.iwf(), r.rest() =~= keys(in_range(self.ents(), range.sb(), range.eb())),

== impl IntoIterator for RedBlackTreeSet
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<&'a T> { keys(self.ents()) }
== fn RedBlackTreeSet::into_iter
-- sig r

== fn RedBlackTreeSet::eq
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == (self.ents().len() == other.ents().len() && subset(self.ents(), other.ents())),
-- entry
proof { ax_unit_eq(); }

== fn RedBlackTreeSet::partial_cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == lex_partial::<&T, &T>(keys(self.ents()), keys(other.ents())),
-- entry
proof { lemma_lex_agree(keys(self.ents()), keys(other.ents())); }
== fn RedBlackTreeSet::cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures r == lex_cmp::<&T>(keys(self.ents()), keys(other.ents())),
-- entry
proof { lemma_lex_agree(keys(self.ents()), keys(other.ents())); }

== impl Hash for RedBlackTreeSet
open spec fn toks(&self) -> Seq<int> { seq![self.ents().len() as int] + seq_toks::<&T>(keys(self.ents())) }
open spec fn hwf(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.ents().len() ==> (#[trigger] self.ents()[i]).key.hwf() }

== fn RedBlackTreeSet::hash
-- loop 0
invariant vx_it0.iwf(), self.hwf(), vx_it0.rest().len() <= self.ents().len(),
   vx_it0.rest() =~= keys(self.ents()).skip(self.ents().len() - vx_it0.rest().len()),
   state.fed() + seq_toks::<&T>(keys(self.ents()).skip(self.ents().len() - vx_it0.rest().len())) =~= old(state).fed() + self.toks(),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let n = self.ents().len() as int;
    let k = n - vx_it0.rest().len();
    if k < n {
        assert(keys::<T>(self.ents()).skip(k).subrange(1, n - k) =~= keys::<T>(self.ents()).skip(k + 1));
        assert(self.ents()[k].key.hwf());
    }
}
-- beforeloop 0
proof { assert(keys::<T>(self.ents()).skip(0) =~= keys::<T>(self.ents())); }

== fn RedBlackTreeSet::from_iter
-- sig r
-- spec
requires lawful_ord::<T>(), into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), units(into_iter.into_rest())),
-- entry
let ghost all = into_iter.into_rest();
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
}
-- loop 0
invariant vx_it0.iwf(), set.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    set.ents().len() <= all.len() - vx_it0.rest().len(), collected(set.ents(), units(all.take(all.len() - vx_it0.rest().len()))),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn RedBlackTreeSet::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.seq_doc::<&T>(keys(self.ents()), r),

== impl mod:serde
impl<'de, T> VxSeqVisitor<'de> for RedBlackTreeSetVisitor<T> where T: Ord + Deserialize<'de> {
    type Value = RedBlackTreeSet<T>;
    open spec fn seq_pre<A: SeqAccess<'de>>(seq: A) -> bool { lawful_ord::<T>() && seq.elems::<T>().len() <= vx_max_len() }
    open spec fn seq_post<A: SeqAccess<'de>>(seq: A, r: RedBlackTreeSet<T>) -> bool { r.wf() && collected(r.ents(), units(seq.elems::<T>())) }
    open spec fn seq_fails<A: SeqAccess<'de>>(seq: A) -> bool { seq.fails::<T>() }
    fn vx_visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<RedBlackTreeSet<T>, A::Error>) { self.visit_seq(seq) }
}

== impl Deserialize for RedBlackTreeSet
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { lawful_ord::<T>() && d.seq().elems::<T>().len() <= vx_max_len() }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && collected(r.ents(), units(d.seq().elems::<T>())) }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.seq().fails::<T>() }

== fn RedBlackTreeSet::deserialize
-- sig r

== fn RedBlackTreeSetVisitor::visit_seq
-- sig r
-- spec
requires lawful_ord::<T>(), seq.elems::<T>().len() <= vx_max_len(),
ensures r matches Ok(m) ==> m.wf() && collected(m.ents(), units(seq.elems::<T>())),
    r is Err <==> seq.fails::<T>(),
-- entry
let ghost bad = seq.fails::<T>();
let ghost all = seq.elems::<T>();
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- loop 0
invariant seq.fails::<T>() == bad, set.wf(), seq.elems::<T>().len() <= all.len(), seq.elems::<T>() =~= all.skip(all.len() - seq.elems::<T>().len()),
    set.ents().len() <= all.len() - seq.elems::<T>().len(), collected(set.ents(), units(all.take(all.len() - seq.elems::<T>().len()))),
decreases seq.elems::<T>().len(),
-- loopbody 0
proof {
    let n = all.len() - seq.elems::<T>().len();
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if n == all.len() { assert(all.take(n) =~= all); }
}
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn rbt_set!
-- decl fn vx_macro_rbt_set<T: Ord>(vx_items: Vec<T>) -> RedBlackTreeSet<T>
-- sig r
-- spec
requires lawful_ord::<T>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), units(vx_items@)),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), units(all.take(all.len() - vx_it0.rest().len()))),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn rbt_set_sync!
-- decl fn vx_macro_rbt_set_sync<T: Ord>(vx_items: Vec<T>) -> RedBlackTreeSet<T>
-- sig r
-- spec
requires lawful_ord::<T>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), units(vx_items@)),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<T, ()>(); lemma_collect_steps::<T, ()>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(units(all.take(n + 1)) =~= units(all.take(n)).push((all[n], ()))); }
    if 0 < n { assert(units(all.take(n)) =~= units(all.take(n - 1)).push((all[n - 1], ()))); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), units(all.take(all.len() - vx_it0.rest().len()))),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(units(all.take(0)) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }
