== items
pub use crate::map::hash_trie_map::*;

/// the pairs of a series of entries
pub open spec fn prs<'a, K, V>(s: Seq<Ewh<K, V>>) -> Seq<(&'a K, &'a V)> { pairs(ees(s)) }
pub open spec fn pes<'a, K, V>(n: ProducerNode<'a, K, V>) -> Seq<Ewh<K, V>> {
    match n { ProducerNode::Branch(s) => cat(ess(s@)), ProducerNode::Leaf(b) => bs(*b) }
}
pub open spec fn psound<'a, K, V>(n: ProducerNode<'a, K, V>) -> bool {
    match n {
        ProducerNode::Branch(s) => forall|i: int| 0 <= i < s@.len() ==> sound(*#[trigger] s@[i]),
        ProducerNode::Leaf(b) => *b matches Bucket::Collision(l) ==> l.wf(),
    }
}
pub proof fn lemma_prs<'a, K, V>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>)
    ensures prs::<K, V>(s + t) == prs::<K, V>(s) + prs::<K, V>(t),
{
    assert(prs::<K, V>(s + t) =~= prs::<K, V>(s) + prs::<K, V>(t));
}
/// after the first k of the children comes the next one
pub proof fn lemma_kth<'a, K, V>(s: Seq<Rc<Node<K, V>>>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        k == 0 ==> cat(ess(s).take(k)) == Seq::<Ewh<K, V>>::empty(),
        k == s.len() ==> ess(s).take(k) == ess(s),
        k < s.len() ==> prs::<K, V>(cat(ess(s).take(k + 1))) == prs::<K, V>(cat(ess(s).take(k))) + prs::<K, V>(es(*s[k]))
            && prs::<K, V>(cat(ess(s))) == prs::<K, V>(cat(ess(s).take(k))) + prs::<K, V>(es(*s[k])) + prs::<K, V>(cat(ess(s).skip(k + 1))),
{
    let e = ess(s);
    lemma_cat_empty::<Ewh<K, V>>();
    assert(e.take(0) =~= Seq::empty());
    assert(e.take(e.len() as int) =~= e);
    if k < s.len() {
        lemma_cat_at(e, k);
        lemma_cat_at(e.take(k + 1), k);
        assert(e.take(k + 1).take(k) =~= e.take(k));
        assert(e.take(k + 1).skip(k + 1) =~= Seq::empty());
        assert(cat(e.take(k + 1)) =~= cat(e.take(k)) + e[k]);
        lemma_prs(cat(e.take(k)), e[k]);
        lemma_prs(cat(e.take(k)) + e[k], cat(e.skip(k + 1)));
        assert(cat(e) =~= cat(e.take(k)) + e[k] + cat(e.skip(k + 1)));
    }
}
/// one child alone, and two parts of a series of children
pub proof fn lemma_parts<'a, K, V>(s: Seq<Rc<Node<K, V>>>)
    ensures
        s.len() == 1 ==> cat(ess(s)) == es(*s[0]),
        forall|m: int| 0 <= m <= s.len() ==> prs::<K, V>(cat(ess(s))) == prs::<K, V>(cat(ess(#[trigger] s.subrange(0, m)))) + prs::<K, V>(cat(ess(s.subrange(m, s.len() as int)))),
{
    if s.len() == 1 {
        lemma_cat_empty::<Ewh<K, V>>();
        lemma_cat_at(ess(s), 0);
        assert(ess(s).take(0) =~= Seq::empty());
        assert(ess(s).skip(1) =~= Seq::empty());
        assert(cat(ess(s)) =~= es(*s[0]));
    }
    assert forall|m: int| 0 <= m <= s.len() implies prs::<K, V>(cat(ess(s))) == prs::<K, V>(cat(ess(#[trigger] s.subrange(0, m)))) + prs::<K, V>(cat(ess(s.subrange(m, s.len() as int)))) by {
        let a = ess(s.subrange(0, m));
        let b = ess(s.subrange(m, s.len() as int));
        assert(a + b =~= ess(s));
        lemma_cat_add(a, b);
        lemma_prs(cat(a), cat(b));
    }
}
/// folding a part after those before it
pub proof fn lemma_fold<Item, F: Folder<Item>>(f0: F, f1: F, l: Seq<Item>, m: Seq<Item>, x: Seq<Item>)
    requires f1.fed() == f0.fed() + l,
    ensures
        forall|f2: F| #[trigger] fold_done::<Item, F>(f1, m, f2) ==> (if f2.enough() { fold_done::<Item, F>(f0, l + m + x, f2) } else { f2.fed() == f0.fed() + (l + m) }),
{
    assert forall|f2: F| #[trigger] fold_done::<Item, F>(f1, m, f2) implies (if f2.enough() { fold_done::<Item, F>(f0, l + m + x, f2) } else { f2.fed() == f0.fed() + (l + m) }) by {
        let n = choose|n: int| 0 <= n <= m.len() && f2.fed() == f1.fed() + #[trigger] m.take(n) && (n < m.len() ==> f2.enough());
        assert(f0.fed() + l + m.take(n) =~= f0.fed() + (l + m + x).take(l.len() + n));
        if !f2.enough() { assert(m.take(n) =~= m); assert(f0.fed() + l + m =~= f0.fed() + (l + m)); }
    }
}
pub proof fn lemma_all_fed<Item, F: Folder<Item>>(f0: F, l: Seq<Item>)
    ensures forall|f2: F| f2.fed() == f0.fed() + l ==> #[trigger] fold_done::<Item, F>(f0, l, f2),
        forall|f2: F| l.len() == 1 && f2.fed() == f0.fed().push(l[0]) ==> #[trigger] fold_done::<Item, F>(f0, l, f2),
{
    assert forall|f2: F| f2.fed() == f0.fed() + l implies #[trigger] fold_done::<Item, F>(f0, l, f2) by { assert(l.take(l.len() as int) =~= l); }
    if l.len() == 1 {
        assert forall|f2: F| f2.fed() == f0.fed().push(l[0]) implies #[trigger] fold_done::<Item, F>(f0, l, f2) by {
            assert(f0.fed().push(l[0]) =~= f0.fed() + l.take(1));
        }
    }
}
/// the first k of the pairs of a bucket
pub proof fn lemma_pth<Item, F: Folder<Item>>(f0: F, s: Seq<Item>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        k == 0 ==> f0.fed() + s.take(k) == f0.fed(),
        k < s.len() ==> (f0.fed() + s.take(k)).push(s[k]) == f0.fed() + s.take(k + 1),
        forall|f2: F| f2.fed() == f0.fed() + s.take(k) && (f2.enough() || k == s.len()) ==> #[trigger] fold_done::<Item, F>(f0, s, f2),
{
    assert(f0.fed() + s.take(0) =~= f0.fed());
    if k < s.len() { assert((f0.fed() + s.take(k)).push(s[k]) =~= f0.fed() + s.take(k + 1)); }
}

pub open spec fn kids_of<'a, K, V>(n: ProducerNode<'a, K, V>) -> Seq<Rc<Node<K, V>>> { match n { ProducerNode::Branch(s) => s@, _ => Seq::empty() } }
/// before the first item
pub proof fn lemma_start<'a, K, V, F: Folder<(&'a K, &'a V)>>(f0: F, s: Seq<Rc<Node<K, V>>>, all: Seq<(&'a K, &'a V)>)
    ensures f0.fed() + prs::<K, V>(cat(ess(s).take(0))) == f0.fed(), f0.fed() + all.take(0) == f0.fed(),
        forall|f2: F| f2.fed() == f0.fed().push(all[0]) && all.len() == 1 ==> #[trigger] fold_done::<(&'a K, &'a V), F>(f0, all, f2),
{
    lemma_kth(s, 0);
    assert(f0.fed() + prs::<K, V>(cat(ess(s).take(0))) =~= f0.fed());
    assert(f0.fed() + all.take(0) =~= f0.fed());
    lemma_all_fed::<(&'a K, &'a V), F>(f0, all);
}

== fn ParallelIter::new
-- sig r
-- spec
requires map.wf(),
ensures r.map == map,

== impl IntoParallelIterator for HashTrieMapSync
open spec fn into_pwf(self) -> bool { self.wf() }
open spec fn into_items(self) -> Seq<(&'a K, &'a V)> { pairs(self.ents()) }
== fn HashTrieMapSync::into_par_iter
-- sig r

== impl ParallelIterator for ParallelIter
open spec fn pwf(&self) -> bool { self.map.wf() }
open spec fn items(&self) -> Seq<(&'a K, &'a V)> { pairs(self.map.ents()) }
== fn ParallelIter::drive_unindexed
-- sig r

== fn HashTrieMapProducer::new
-- sig r
-- spec
requires map.wf(),
ensures psound(r.node), prs::<K, V>(pes(r.node)) =~= pairs(map.ents()),
-- entry
proof { lemma_sound(dn(map.root), 0, map.degree); }

== fn HashTrieMapProducer::from_nodes
-- sig r
-- spec
requires forall|i: int| 0 <= i < nodes@.len() ==> sound(*#[trigger] nodes@[i]),
ensures psound(r.node), pes(r.node) =~= cat(ess(nodes@)),
decreases nodes@, 0int,
-- entry
proof { lemma_parts(nodes@); }

== fn HashTrieMapProducer::from_node
-- sig r
-- spec
requires sound(*node),
ensures psound(r.node), pes(r.node) =~= es(*node),
decreases *node, 1int,
-- entry
proof { lemma_es(*node); }

== fn HashTrieMapProducer::fold_node_entries
-- sig r
-- spec
requires psound(*node),
ensures fold_done::<(&'a K, &'a V), F>(folder, prs(pes(*node)), r),
-- entry
let ghost f0 = folder;
let ghost all = prs::<K, V>(pes(*node));
let ghost ks = kids_of(*node);
let ghost en = pes(*node);
proof { lemma_start::<K, V, F>(f0, ks, all); }
-- loop 0
invariant_except_break folder.fed() == f0.fed() + prs::<K, V>(cat(ess(ks).take(ks.len() - vx_it0.rest().len()))),
invariant vx_it0.iwf(), vx_it0.rest().len() <= ks.len(), vx_it0.rest() =~= refs(ks).skip(ks.len() - vx_it0.rest().len()),
ensures fold_done::<(&'a K, &'a V), F>(f0, all, folder),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let k = ks.len() - vx_it0.rest().len();
    lemma_kth(ks, k);
    if k < ks.len() { lemma_fold::<(&'a K, &'a V), F>(f0, folder, prs(cat(ess(ks).take(k))), prs(es(dn(ks[k]))), prs(cat(ess(ks).skip(k + 1)))); }
    lemma_all_fed::<(&'a K, &'a V), F>(f0, all);
}
-- loop 1
invariant_except_break folder.fed() == f0.fed() + all.take(en.len() - vx_it1.rest().len()),
invariant vx_it1.iwf(), vx_it1.rest().len() <= en.len(), vx_it1.rest() =~= refs(en).skip(en.len() - vx_it1.rest().len()),
ensures fold_done::<(&'a K, &'a V), F>(f0, all, folder),
decreases vx_it1.rest().len(),
-- loopbody 1
proof {
    let k = en.len() - vx_it1.rest().len();
    lemma_pth::<(&'a K, &'a V), F>(f0, all, k);
    if k < en.len() { lemma_pth::<(&'a K, &'a V), F>(f0, all, k + 1); }
}

== fn HashTrieMapProducer::fold_all_entries
-- sig r
-- spec
requires sound(**node),
ensures fold_done::<(&'a K, &'a V), F>(folder, prs(es(**node)), r),
decreases **node,
-- entry
let ghost f0 = folder;
let ghost all = prs::<K, V>(es(dn(*node)));
let ghost ks = br(dn(*node)).items();
let ghost en = es(dn(*node));
proof { lemma_es(dn(*node)); lemma_start::<K, V, F>(f0, ks, all); }
-- loop 0
invariant_except_break folder.fed() == f0.fed() + prs::<K, V>(cat(ess(ks).take(ks.len() - vx_it0.rest().len()))),
invariant vx_it0.iwf(), vx_it0.rest().len() <= ks.len(), vx_it0.rest() =~= refs(ks).skip(ks.len() - vx_it0.rest().len()),
ensures fold_done::<(&'a K, &'a V), F>(f0, all, folder),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let k = ks.len() - vx_it0.rest().len();
    lemma_kth(ks, k);
    if k < ks.len() { lemma_fold::<(&'a K, &'a V), F>(f0, folder, prs(cat(ess(ks).take(k))), prs(es(dn(ks[k]))), prs(cat(ess(ks).skip(k + 1)))); }
    lemma_all_fed::<(&'a K, &'a V), F>(f0, all);
}
-- loop 1
invariant_except_break folder.fed() == f0.fed() + all.take(en.len() - vx_it1.rest().len()),
invariant vx_it1.iwf(), vx_it1.rest().len() <= en.len(), vx_it1.rest() =~= refs(en).skip(en.len() - vx_it1.rest().len()),
ensures fold_done::<(&'a K, &'a V), F>(f0, all, folder),
decreases vx_it1.rest().len(),
-- loopbody 1
proof {
    let k = en.len() - vx_it1.rest().len();
    lemma_pth::<(&'a K, &'a V), F>(f0, all, k);
    if k < en.len() { lemma_pth::<(&'a K, &'a V), F>(f0, all, k + 1); }
}

== impl UnindexedProducer for HashTrieMapProducer
open spec fn pwf(&self) -> bool { psound(self.node) }
open spec fn items(&self) -> Seq<(&'a K, &'a V)> { prs(pes(self.node)) }
== fn HashTrieMapProducer::split
-- sig r
-- entry
proof { lemma_parts(kids_of(self.node)); }
== fn HashTrieMapProducer::fold_with
-- sig r
