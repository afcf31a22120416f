== items
// ---- entries of a trie, in the order of traversal
pub type Ewh<K, V> = EntryWithHash<K, V>;
pub type Ent<K, V> = Rc<Entry<K, V>>;
pub open spec fn bs<K, V>(b: Bucket<K, V>) -> Seq<Ewh<K, V>> {
    match b { Bucket::Single(e) => seq![e], Bucket::Collision(l) => l.view() }
}
#[verifier::opaque]
pub open spec fn es<K, V>(n: Node<K, V>) -> Seq<Ewh<K, V>>
    decreases n,
{
    match n { Node::Branch(a) => ecat(a.array@), Node::Leaf(b) => bs(b) }
}
#[verifier::opaque]
pub open spec fn ecat<K, V>(s: Seq<Rc<Node<K, V>>>) -> Seq<Ewh<K, V>>
    decreases s,
{ if s.len() == 0 { Seq::empty() } else { ecat(s.drop_last()) + es(*s.last()) } }
pub open spec fn dn<K, V>(n: Rc<Node<K, V>>) -> Node<K, V> { *n }
pub open spec fn br<K, V>(n: Node<K, V>) -> SparseArrayUsize<Rc<Node<K, V>>> { n->Branch_0 }
pub open spec fn ess<K, V>(s: Seq<Rc<Node<K, V>>>) -> Seq<Seq<Ewh<K, V>>> { Seq::new(s.len(), |i: int| es(*s[i])) }
pub proof fn lemma_ecat<K, V>(s: Seq<Rc<Node<K, V>>>)
    ensures ecat(s) == cat(ess(s)),
    decreases s.len(),
{
    reveal_with_fuel(ecat, 2);
    reveal_with_fuel(es, 2);
    reveal(cat);
    if s.len() > 0 { lemma_ecat(s.drop_last()); assert(ess(s).drop_last() =~= ess(s.drop_last())); } else { assert(ess(s) =~= Seq::empty()); }
}
pub proof fn lemma_es<K, V>(n: Node<K, V>)
    ensures es(n) == (match n { Node::Branch(a) => cat(ess(a.items())), Node::Leaf(b) => bs(b) }),
        n matches Node::Branch(a) ==> es(n) == ecat(a.items()) && (a.items().len() == 0 ==> es(n) =~= Seq::empty()),
{
    reveal_with_fuel(ecat, 2);
    reveal_with_fuel(es, 2);
    if let Node::Branch(a) = n { lemma_ecat(a.items()); }
}

// ---- well-formed tries
pub open spec fn deg_ok(g: u8) -> bool { is_p2(g) && 2 <= g <= 64 }
/// the slot of a hash at a depth
pub open spec fn idx(h: u64, d: int, g: u8) -> Option<int> {
    if d * tz(g) < 64 { Some(((h >> ((d * tz(g)) as u64)) & ((g - 1) as u64)) as int) } else { None }
}
pub open spec fn bwf<K, V>(b: Bucket<K, V>) -> bool {
    match b { Bucket::Single(_) => true, Bucket::Collision(l) => l.wf() && l.view().len() >= 2 }
}
/// all entries go to that slot
#[verifier::opaque]
pub open spec fn all_at<K, V>(s: Seq<Ewh<K, V>>, d: int, g: u8, i: int) -> bool {
    forall|j: int| 0 <= j < s.len() ==> idx((#[trigger] s[j]).key_hash, d, g) == Some(i)
}
pub open spec fn wfn<K, V>(n: Node<K, V>, d: int, g: u8) -> bool
    decreases n,
{
    match n {
        Node::Branch(a) => {
            &&& d * tz(g) < 64 && a.wf()
            &&& forall|i: int| #[trigger] a.has(i) && 0 <= a.pos(i) < a.array@.len() ==>
                    wfn(*a.array@[a.pos(i)], d + 1, g) && all_at(es(*a.array@[a.pos(i)]), d, g, i)
        }
        Node::Leaf(Bucket::Single(_)) => true,
        Node::Leaf(Bucket::Collision(l)) => d * tz(g) >= 64 && l.wf() && l.view().len() >= 2,
    }
}
/// nothing is left
pub open spec fn hollow<K, V>(n: Node<K, V>) -> bool { n matches Node::Branch(a) && a.wf() && a.items().len() == 0 }

// ---- entries with a key
pub open spec fn m<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(e: Ewh<K, V>, q: &Q, h: u64) -> bool { e.key_hash == h && e.entry.key.bor().eq_spec(q) }
pub open spec fn at<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, q: &Q, h: u64, i: int) -> bool { 0 <= i < s.len() && m(s[i], q, h) }
pub open spec fn none<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, q: &Q, h: u64) -> bool { forall|i: int| 0 <= i < s.len() ==> !m(#[trigger] s[i], q, h) }
pub open spec fn ins<K, V>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, e: Ewh<K, V>, i: int) -> bool { 0 <= i <= s.len() && t == s.insert(i, e) }
/// an entry with the key is replaced, and perhaps moved
pub open spec fn mov<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, o: Ewh<K, V>, e: Ewh<K, V>) -> bool {
    exists|j: int, i: int| #[trigger] at(s, q, h, j) && s[j] == o && #[trigger] ins(s.remove(j), t, e, i)
}
pub open spec fn put<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, e: Ewh<K, V>, new: bool) -> bool {
    if new { none(s, q, h) && exists|i: int| #[trigger] ins(s, t, e, i) } else { exists|o: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e) }
}
pub open spec fn rem<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, r: bool) -> bool {
    if r { exists|j: int| #[trigger] at(s, q, h, j) && t == s.remove(j) } else { none(s, q, h) && t == s }
}
pub open spec fn found<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, q: &Q, h: u64, r: Option<Ewh<K, V>>) -> bool {
    match r { Some(e) => exists|j: int| #[trigger] at(s, q, h, j) && s[j] == e, None => none(s, q, h) }
}
pub open spec fn oe<'a, K, V>(r: Option<&'a Ewh<K, V>>) -> Option<Ewh<K, V>> { match r { Some(e) => Some(*e), None => None } }

pub open spec fn picked<T, F: Fn(&T) -> bool>(s: Seq<T>, t: Seq<T>, f: F, e: T, i: int) -> bool {
    &&& 0 <= i < s.len() && e == s[i] && t == s.remove(i) && call_ensures(f, (&e,), true)
    &&& forall|j: int| 0 <= j < i ==> call_ensures(f, (& #[trigger] s[j],), false)
}
pub open spec fn unpicked<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F) -> bool {
    forall|j: int| 0 <= j < s.len() ==> call_ensures(f, (& #[trigger] s[j],), false)
}
/// A vector of entries (16 bytes each) as long as a list that exists can be allocated.
pub axiom fn ax_fits_entries<K, V>(n: nat)
    requires n <= vx_max_len(),
    ensures fits::<Ewh<K, V>>(n);

pub proof fn lemma_clone<K, V>(n: Node<K, V>, r: Node<K, V>)
    requires match (n, r) { (Node::Branch(a), Node::Branch(b)) => b.same_shape(&a) && b.items() =~= a.items(), (Node::Leaf(a), Node::Leaf(b)) => a == b, _ => false },
    ensures n == r,
{
    if let (Node::Branch(a), Node::Branch(b)) = (n, r) { ax_vec_ext(a.array, b.array); }
}

// ---- relations between parts and the whole
pub open spec fn whole<K, V>(l: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>) -> Seq<Ewh<K, V>> { l + s + r }
proof fn lemma_lift_ins<K, V>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, e: Ewh<K, V>, i: int)
    requires ins(s, t, e, i),
    ensures ins(whole(l, s, r), whole(l, t, r), e, l.len() + i),
{
    assert(whole(l, t, r) =~= whole(l, s, r).insert(l.len() + i, e));
}
proof fn lemma_lift_none<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, q: &Q, h: u64)
    requires none(l, q, h), none(r, q, h), none(s, q, h),
    ensures none(whole(l, s, r), q, h),
{
    let w = whole(l, s, r);
    assert forall|i: int| 0 <= i < w.len() implies !m(#[trigger] w[i], q, h) by {
        if i < l.len() { assert(w[i] == l[i]); } else if i < l.len() + s.len() { assert(w[i] == s[i - l.len()]); } else { assert(w[i] == r[i - l.len() - s.len()]); }
    }
}
proof fn lemma_lift_at<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, q: &Q, h: u64, j: int)
    requires at(s, q, h, j),
    ensures at(whole(l, s, r), q, h, l.len() + j), whole(l, s, r)[l.len() + j] == s[j], whole(l, s, r).remove(l.len() + j) == whole(l, s.remove(j), r),
{
    assert(whole(l, s, r).remove(l.len() + j) =~= whole(l, s.remove(j), r));
}
pub proof fn lemma_lift_mov<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, o: Ewh<K, V>, e: Ewh<K, V>)
    requires mov(s, t, q, h, o, e),
    ensures mov(whole(l, s, r), whole(l, t, r), q, h, o, e),
{
    let (j, i) = choose|j: int, i: int| #[trigger] at(s, q, h, j) && s[j] == o && #[trigger] ins(s.remove(j), t, e, i);
    lemma_lift_at(l, r, s, q, h, j);
    lemma_lift_ins(l, r, s.remove(j), t, e, i);
    assert(at(whole(l, s, r), q, h, l.len() + j) && whole(l, s, r)[l.len() + j] == o && ins(whole(l, s, r).remove(l.len() + j), whole(l, t, r), e, l.len() + i));
}
pub proof fn lemma_lift_put<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, e: Ewh<K, V>, new: bool)
    requires none(l, q, h), none(r, q, h), put(s, t, q, h, e, new),
    ensures put(whole(l, s, r), whole(l, t, r), q, h, e, new),
{
    if new {
        lemma_lift_none(l, r, s, q, h);
        let i = choose|i: int| #[trigger] ins(s, t, e, i);
        lemma_lift_ins(l, r, s, t, e, i);
    } else {
        let o = choose|o: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e);
        lemma_lift_mov(l, r, s, t, q, h, o, e);
    }
}
pub proof fn lemma_lift_rem<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, b: bool)
    requires none(l, q, h), none(r, q, h), rem(s, t, q, h, b),
    ensures rem(whole(l, s, r), whole(l, t, r), q, h, b),
{
    if b {
        let j = choose|j: int| #[trigger] at(s, q, h, j) && t == s.remove(j);
        lemma_lift_at(l, r, s, q, h, j);
    } else {
        lemma_lift_none(l, r, s, q, h);
    }
}
pub proof fn lemma_lift_found<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(l: Seq<Ewh<K, V>>, r: Seq<Ewh<K, V>>, s: Seq<Ewh<K, V>>, q: &Q, h: u64)
    requires none(l, q, h), none(r, q, h),
    ensures forall|o: Option<Ewh<K, V>>| #[trigger] found(s, q, h, o) ==> found(whole(l, s, r), q, h, o),
{
    assert forall|o: Option<Ewh<K, V>>| #[trigger] found(s, q, h, o) implies found(whole(l, s, r), q, h, o) by {
        match o {
            Some(e) => {
                let j = choose|j: int| #[trigger] at(s, q, h, j) && s[j] == e;
                lemma_lift_at(l, r, s, q, h, j);
            }
            None => { lemma_lift_none(l, r, s, q, h); }
        }
    }
}
// ---- where the entries of the result come from
pub proof fn lemma_mov_all<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, o: Ewh<K, V>, e: Ewh<K, V>, d: int, g: u8, i: int)
    requires mov(s, t, q, h, o, e), all_at(s, d, g, i), idx(e.key_hash, d, g) == Some(i),
    ensures all_at(t, d, g, i), t.len() == s.len(),
{
    reveal(all_at);
    let (j, k) = choose|j: int, k: int| #[trigger] at(s, q, h, j) && s[j] == o && #[trigger] ins(s.remove(j), t, e, k);
    assert forall|x: int| 0 <= x < t.len() implies idx((#[trigger] t[x]).key_hash, d, g) == Some(i) by {
        if x != k {
            let y = if x < k { x } else { x - 1 };
            assert(t[x] == s.remove(j)[y]);
            let z = if y < j { y } else { y + 1 };
            assert(t[x] == s[z]);
        }
    }
}
pub proof fn lemma_put_all<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, e: Ewh<K, V>, new: bool, d: int, g: u8, i: int)
    requires put(s, t, q, h, e, new), all_at(s, d, g, i), idx(e.key_hash, d, g) == Some(i),
    ensures all_at(t, d, g, i),
{
    if new {
        reveal(all_at);
        let k = choose|k: int| #[trigger] ins(s, t, e, k);
        assert forall|x: int| 0 <= x < t.len() implies idx((#[trigger] t[x]).key_hash, d, g) == Some(i) by {
            if x != k { let y = if x < k { x } else { x - 1 }; assert(t[x] == s[y]); }
        }
    } else {
        let o = choose|o: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e);
        lemma_mov_all(s, t, q, h, o, e, d, g, i);
    }
}
pub proof fn lemma_rem_all<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, q: &Q, h: u64, b: bool, d: int, g: u8, i: int)
    requires rem(s, t, q, h, b), all_at(s, d, g, i),
    ensures all_at(t, d, g, i),
{
    reveal(all_at);
    if b {
        let j = choose|j: int| #[trigger] at(s, q, h, j) && t == s.remove(j);
        assert forall|x: int| 0 <= x < t.len() implies idx((#[trigger] t[x]).key_hash, d, g) == Some(i) by {
            let z = if x < j { x } else { x + 1 };
            assert(t[x] == s[z]);
        }
    }
}

// ---- a branch and its slots
pub open spec fn none_at<K, V>(s: Seq<Ewh<K, V>>, d: int, g: u8, i: int) -> bool {
    forall|j: int| 0 <= j < s.len() ==> idx((#[trigger] s[j]).key_hash, d, g) != Some(i)
}
proof fn lemma_none_at<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ewh<K, V>>, q: &Q, h: u64, d: int, g: u8, i: int)
    requires none_at(s, d, g, i), idx(h, d, g) == Some(i),
    ensures none(s, q, h),
{}
proof fn lemma_cat_none_at<K, V>(s: Seq<Seq<Ewh<K, V>>>, d: int, g: u8, i: int)
    requires forall|k: int| 0 <= k < s.len() ==> none_at(#[trigger] s[k], d, g, i),
    ensures none_at(cat(s), d, g, i),
    decreases s.len(),
{
    reveal(cat);
    if s.len() > 0 {
        lemma_cat_none_at(s.drop_last(), d, g, i);
        assert(none_at(s[s.len() - 1], d, g, i));
        let c = cat(s.drop_last());
        assert forall|j: int| 0 <= j < cat(s).len() implies idx((#[trigger] cat(s)[j]).key_hash, d, g) != Some(i) by {
            if j < c.len() { assert(cat(s)[j] == c[j]); } else { assert(cat(s)[j] == s.last()[j - c.len()]); }
        }
    }
}
pub type Arr<K, V> = SparseArrayUsize<Rc<Node<K, V>>>;
/// entries in slots before and after that of index i
pub open spec fn lft<K, V>(a: Arr<K, V>, p: int) -> Seq<Ewh<K, V>> { cat(ess(a.items()).take(p)) }
pub open spec fn rgt<K, V>(a: Arr<K, V>, p: int) -> Seq<Ewh<K, V>> { cat(ess(a.items()).skip(p)) }
pub open spec fn kid<K, V>(a: Arr<K, V>, i: int) -> Node<K, V> { *a.items()[a.pos(i)] }

proof fn lemma_sides<K, V>(a: Arr<K, V>, i: int, p: int, z: int, d: int, g: u8)
    requires wfn(Node::Branch(a), d, g), 0 <= p <= z <= a.items().len(),
        a.has(i) ==> p <= a.pos(i) < z,
    ensures none_at(lft(a, p), d, g, i), none_at(rgt(a, z), d, g, i),
{
    a.lemma_pos();
    let e = ess(a.items());
    assert forall|k: int| 0 <= k < e.len() && !(p <= k < z) implies none_at(#[trigger] e[k], d, g, i) by {
        let x = a.lemma_sel(k);
        assert(a.has(x));
        assert(x != i);
        assert(all_at(es(*a.array@[a.pos(x)]), d, g, x));
        reveal(all_at);
    }
    assert forall|k: int| 0 <= k < e.take(p).len() implies none_at(#[trigger] e.take(p)[k], d, g, i) by { assert(e.take(p)[k] == e[k]); }
    assert forall|k: int| 0 <= k < e.skip(z).len() implies none_at(#[trigger] e.skip(z)[k], d, g, i) by { assert(e.skip(z)[k] == e[z + k]); }
    lemma_cat_none_at(e.take(p), d, g, i);
    lemma_cat_none_at(e.skip(z), d, g, i);
}
pub proof fn lemma_split<K, V>(a: Arr<K, V>, i: int, d: int, g: u8)
    requires wfn(Node::Branch(a), d, g), a.has(i),
    ensures
        0 <= i < 64, 0 <= a.pos(i) < a.items().len(),
        wfn(kid(a, i), d + 1, g), all_at(es(kid(a, i)), d, g, i),
        es(Node::Branch(a)) == whole(lft(a, a.pos(i)), es(kid(a, i)), rgt(a, a.pos(i) + 1)),
        none_at(lft(a, a.pos(i)), d, g, i), none_at(rgt(a, a.pos(i) + 1), d, g, i),
{
    a.lemma_pos();
    let p = a.pos(i);
    lemma_es(Node::Branch(a));
    lemma_cat_at(ess(a.items()), p);
    lemma_sides(a, i, p, p + 1, d, g);
}
pub proof fn lemma_absent<K, V>(a: Arr<K, V>, i: int, p: int, d: int, g: u8)
    requires wfn(Node::Branch(a), d, g), !a.has(i), 0 <= p <= a.items().len(),
    ensures es(Node::Branch(a)) == whole(lft(a, p), Seq::empty(), rgt(a, p)), none_at(lft(a, p), d, g, i), none_at(rgt(a, p), d, g, i),
{
    lemma_es(Node::Branch(a));
    lemma_sides(a, i, p, p, d, g);
    let e = ess(a.items());
    lemma_cat_add(e.take(p), e.skip(p));
    assert(e.take(p) + e.skip(p) =~= e);
    assert(cat(e) =~= whole(lft(a, p), Seq::empty(), rgt(a, p)));
}
/// the same branch with another child in slot i
pub open spec fn upd<K, V>(a: Arr<K, V>, b: Arr<K, V>, i: int, c: Node<K, V>) -> bool {
    a.has(i) && b.same_shape(&a) && b.items() == a.items().update(a.pos(i), Rc::new(c))
}
pub proof fn lemma_upd<K, V>(a: Arr<K, V>, b: Arr<K, V>, i: int, c: Node<K, V>, d: int, g: u8)
    requires wfn(Node::Branch(a), d, g), upd(a, b, i, c),
    ensures es(Node::Branch(b)) == whole(lft(a, a.pos(i)), es(c), rgt(a, a.pos(i) + 1)), b.wf(),
        wfn(c, d + 1, g) && all_at(es(c), d, g, i) ==> wfn(Node::Branch(b), d, g),
{
    a.lemma_pos();
    let p = a.pos(i);
    lemma_es(Node::Branch(b));
    lemma_cat_at(ess(b.items()), p);
    assert(ess(b.items()).take(p) =~= ess(a.items()).take(p));
    assert(ess(b.items()).skip(p + 1) =~= ess(a.items()).skip(p + 1));
    if wfn(c, d + 1, g) && all_at(es(c), d, g, i) {
        assert forall|k: int| #[trigger] b.has(k) && 0 <= b.pos(k) < b.array@.len() implies
            wfn(*b.array@[b.pos(k)], d + 1, g) && all_at(es(*b.array@[b.pos(k)]), d, g, k) by {
            assert(a.has(k));
            if k != i { assert(a.pos(k) != p); }
        }
    }
}
/// the branch with a child in a slot that was empty
pub open spec fn add<K, V>(a: Arr<K, V>, b: Arr<K, V>, i: int, c: Node<K, V>) -> bool {
    a.wf() && b.wf() && a.with(&b, i) && b.items() == a.items().insert(a.pos(i), Rc::new(c))
}
pub proof fn lemma_add<K, V>(a: Arr<K, V>, b: Arr<K, V>, i: int, c: Node<K, V>, d: int, g: u8)
    requires add(a, b, i, c),
    ensures es(Node::Branch(b)) == whole(lft(a, a.pos(i)), es(c), rgt(a, a.pos(i))),
        es(Node::Branch(a)) == whole(lft(a, a.pos(i)), Seq::empty(), rgt(a, a.pos(i))),
        wfn(Node::Branch(a), d, g) && wfn(c, d + 1, g) && all_at(es(c), d, g, i) ==> wfn(Node::Branch(b), d, g),
        wfn(Node::Branch(b), d, g) ==> wfn(Node::Branch(a), d, g),
{
    a.lemma_pos();
    b.lemma_pos();
    let p = a.pos(i);
    lemma_es(Node::Branch(b));
    lemma_es(Node::Branch(a));
    assert(b.items()[p] == Rc::new(c));
    lemma_cat_at(ess(b.items()), p);
    assert(ess(b.items()).take(p) =~= ess(a.items()).take(p));
    assert(ess(b.items()).skip(p + 1) =~= ess(a.items()).skip(p));
    let e = ess(a.items());
    lemma_cat_add(e.take(p), e.skip(p));
    assert(e.take(p) + e.skip(p) =~= e);
    assert(cat(e) =~= whole(lft(a, p), Seq::empty(), rgt(a, p)));
    if wfn(Node::Branch(a), d, g) && wfn(c, d + 1, g) && all_at(es(c), d, g, i) {
        assert forall|k: int| #[trigger] b.has(k) && 0 <= b.pos(k) < b.array@.len() implies
            wfn(*b.array@[b.pos(k)], d + 1, g) && all_at(es(*b.array@[b.pos(k)]), d, g, k) by {
            if k != i {
                assert(a.has(k));
                assert(b.array@[b.pos(k)] == a.array@[a.pos(k)]);
            } else { assert(b.pos(k) == p); }
        }
    }
    if wfn(Node::Branch(b), d, g) {
        assert forall|k: int| #[trigger] a.has(k) && 0 <= a.pos(k) < a.array@.len() implies
            wfn(*a.array@[a.pos(k)], d + 1, g) && all_at(es(*a.array@[a.pos(k)]), d, g, k) by {
            assert(b.has(k));
            assert(k != i);
            assert(b.array@[b.pos(k)] == a.array@[a.pos(k)]);
        }
    }
}

/// positions in a bucket
pub proof fn lemma_bucket<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(b: Bucket<K, V>, q: &Q, h: u64)
    ensures ({
        let s = bs(b);
        &&& forall|j: int| #![trigger s.remove(j)] #![trigger s[j]] 0 <= j < s.len() && m(s[j], q, h) ==> at(s, q, h, j)
        &&& forall|j: int, e: Ewh<K, V>| #![trigger seq![e] + s.remove(j)] 0 <= j < s.len() ==> ins(s.remove(j), seq![e] + s.remove(j), e, 0) && (m(s[j], q, h) ==> mov(s, seq![e] + s.remove(j), q, h, s[j], e))
        &&& forall|j: int, e: Ewh<K, V>, x: Ewh<K, V>| #![trigger (seq![e] + s.remove(j)).update(0, x)] 0 <= j < s.len() ==> ins(s.remove(j), (seq![e] + s.remove(j)).update(0, x), x, 0)
        &&& forall|e: Ewh<K, V>| #![trigger seq![e] + s] ins(s, seq![e] + s, e, 0)
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == *refs::<Ewh<K, V>>(s)[i]
        &&& b matches Bucket::Single(x) ==> {
            &&& s == seq![x] && seq![x] + Seq::empty() == s && s.len() == 1 && s[0] == x
            &&& !m(x, q, h) ==> none(s, q, h)
            &&& m(x, q, h) ==> at(s, q, h, 0)
            &&& forall|e: Ewh<K, V>| #![trigger seq![e]] ins(s.remove(0), seq![e], e, 0) && (m(x, q, h) ==> mov(s, seq![e], q, h, x, e))
        }
        &&& forall|t: Seq<Ewh<K, V>>| #![trigger seq![t[0]]] t.len() == 1 ==> seq![t[0]] == t
    }),
{
    let s = bs(b);
    assert forall|j: int, e: Ewh<K, V>| #![trigger seq![e] + s.remove(j)] 0 <= j < s.len() implies ins(s.remove(j), seq![e] + s.remove(j), e, 0) && (m(s[j], q, h) ==> mov(s, seq![e] + s.remove(j), q, h, s[j], e)) by {
        assert(seq![e] + s.remove(j) =~= s.remove(j).insert(0, e));
        assert(ins(s.remove(j), seq![e] + s.remove(j), e, 0));
        if m(s[j], q, h) { assert(at(s, q, h, j)); }
    }
    assert forall|j: int, e: Ewh<K, V>, x: Ewh<K, V>| #![trigger (seq![e] + s.remove(j)).update(0, x)] 0 <= j < s.len() implies ins(s.remove(j), (seq![e] + s.remove(j)).update(0, x), x, 0) by {
        assert((seq![e] + s.remove(j)).update(0, x) =~= s.remove(j).insert(0, x));
    }
    assert forall|e: Ewh<K, V>| #![trigger seq![e] + s] ins(s, seq![e] + s, e, 0) by { assert(seq![e] + s =~= s.insert(0, e)); }
    assert forall|t: Seq<Ewh<K, V>>| #![trigger seq![t[0]]] t.len() == 1 implies seq![t[0]] == t by { assert(seq![t[0]] =~= t); }
    if let Bucket::Single(x) = b {
        assert(seq![x] + Seq::empty() =~= s);
        assert forall|e: Ewh<K, V>| #![trigger seq![e]] ins(s.remove(0), seq![e], e, 0) && (m(x, q, h) ==> mov(s, seq![e], q, h, x, e)) by {
            assert(seq![e] =~= s.remove(0).insert(0, e));
            assert(ins(s.remove(0), seq![e], e, 0));
            if m(x, q, h) { assert(at(s, q, h, 0)); }
        }
    }
}
// ---- the operations on nodes
pub proof fn lemma_find<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(n: Node<K, V>, q: &Q, h: u64, d: int, g: u8)
    requires wfn(n, d, g), 0 <= d <= 64, deg_ok(g),
    ensures
        n matches Node::Leaf(b) ==> es(n) == bs(b) && bwf(b) && (b is Collision ==> d * tz(g) >= 64),
        n matches Node::Branch(a) ==> a.wf() && d * tz(g) < 64 && d < 64 && ({
            let i = idx(h, d, g)->0;
            if a.has(i) {
                &&& 0 <= a.pos(i) < a.items().len() && wfn(kid(a, i), d + 1, g) && es(kid(a, i)).len() <= es(n).len()
                &&& forall|o: Option<Ewh<K, V>>| #[trigger] found(es(kid(a, i)), q, h, o) ==> found(es(n), q, h, o)
                &&& none(es(kid(a, i)), q, h) ==> none(es(n), q, h)
            } else { found(es(n), q, h, None) && none(es(n), q, h) }
        }),
{
    lemma_es(n);
    if let Node::Branch(a) = n {
        assert(d < 64) by (nonlinear_arith) requires d * tz(g) < 64, tz(g) >= 1, d >= 0;
        let i = idx(h, d, g)->0;
        if a.has(i) {
            lemma_split(a, i, d, g);
            lemma_none_at(lft(a, a.pos(i)), q, h, d, g, i);
            lemma_none_at(rgt(a, a.pos(i) + 1), q, h, d, g, i);
            lemma_lift_found(lft(a, a.pos(i)), rgt(a, a.pos(i) + 1), es(kid(a, i)), q, h);
        } else {
            lemma_absent(a, i, 0, d, g);
            lemma_none_at(lft(a, 0), q, h, d, g, i);
            lemma_none_at(rgt(a, 0), q, h, d, g, i);
            lemma_lift_none(lft(a, 0), rgt(a, 0), Seq::empty(), q, h);
        }
    }
}

/// inserting two entries with different keys into nothing
proof fn lemma_two<K: Eq + Hash, V>(o: Ewh<K, V>, e: Ewh<K, V>)
    ensures forall|s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, b: bool, c: bool|
        #![trigger put(Seq::empty(), s, &o.entry.key, o.key_hash, o, b), put(s, t, &e.entry.key, e.key_hash, e, c)]
        put(Seq::empty(), s, &o.entry.key, o.key_hash, o, b) ==> b && s == seq![o] && (put(s, t, &e.entry.key, e.key_hash, e, c) && none(seq![o], &e.entry.key, e.key_hash) ==> c),
{
    let z = Seq::<Ewh<K, V>>::empty();
    assert forall|s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, b: bool, c: bool|
        #![trigger put(z, s, &o.entry.key, o.key_hash, o, b), put(s, t, &e.entry.key, e.key_hash, e, c)]
        put(z, s, &o.entry.key, o.key_hash, o, b) implies b && s == seq![o] && (put(s, t, &e.entry.key, e.key_hash, e, c) && none(seq![o], &e.entry.key, e.key_hash) ==> c) by {
        if b {
            let i = choose|i: int| #[trigger] ins(z, s, o, i);
            assert(s =~= seq![o]);
            if put(s, t, &e.entry.key, e.key_hash, e, c) && none(seq![o], &e.entry.key, e.key_hash) && !c {
                let x = choose|x: Ewh<K, V>| #[trigger] mov(s, t, &e.entry.key, e.key_hash, x, e);
                let (j, i) = choose|j: int, i: int| #[trigger] at(s, &e.entry.key, e.key_hash, j) && s[j] == x && #[trigger] ins(s.remove(j), t, e, i);
                assert(at(s, &e.entry.key, e.key_hash, j));
                assert(!m(s[j], &e.entry.key, e.key_hash));
            }
        } else {
            let x = choose|x: Ewh<K, V>| #[trigger] mov(z, s, &o.entry.key, o.key_hash, x, o);
            let (j, i) = choose|j: int, i: int| #[trigger] at(z, &o.entry.key, o.key_hash, j) && z[j] == x && #[trigger] ins(z.remove(j), s, o, i);
            assert(at(z, &o.entry.key, o.key_hash, j));
        }
    }
}
pub open spec fn ins_case<K: Eq + Hash, V>(n0: Node<K, V>, n1: Node<K, V>, e: Ewh<K, V>, d: int, g: u8, r: bool) -> bool {
    match (n0, n1) {
        (Node::Branch(a), Node::Branch(b)) => {
            let i = idx(e.key_hash, d, g)->0;
            if a.has(i) { upd(a, b, i, kid(b, i)) && wfn(kid(b, i), d + 1, g) && put(es(kid(a, i)), es(kid(b, i)), &e.entry.key, e.key_hash, e, r) } else { add(a, b, i, Node::Leaf(Bucket::Single(e))) && r }
        }
        (Node::Leaf(x), Node::Leaf(y)) => bwf(y) && put(bs(x), bs(y), &e.entry.key, e.key_hash, e, r) && (y is Collision ==> d * tz(g) >= 64),
        (Node::Leaf(x), Node::Branch(b)) => wfn(n1, d, g) && put(bs(x), es(n1), &e.entry.key, e.key_hash, e, r),
        _ => false,
    }
}
pub proof fn lemma_ins<K: Eq + Hash, V>(n0: Node<K, V>, n1: Node<K, V>, e: Ewh<K, V>, d: int, g: u8, r: bool)
    requires wfn(n0, d, g), 0 <= d <= 64, deg_ok(g), ins_case(n0, n1, e, d, g, r),
    ensures wfn(n1, d, g), put(es(n0), es(n1), &e.entry.key, e.key_hash, e, r),
{
    lemma_es(n0);
    lemma_es(n1);
    let q = &e.entry.key;
    let h = e.key_hash;
    if let (Node::Branch(a), Node::Branch(b)) = (n0, n1) {
        let i = idx(h, d, g)->0;
        if a.has(i) {
            let c = kid(b, i);
            lemma_split(a, i, d, g);
            lemma_put_all(es(kid(a, i)), es(c), q, h, e, r, d, g, i);
            lemma_upd(a, b, i, c, d, g);
            lemma_none_at(lft(a, a.pos(i)), q, h, d, g, i);
            lemma_none_at(rgt(a, a.pos(i) + 1), q, h, d, g, i);
            lemma_lift_put(lft(a, a.pos(i)), rgt(a, a.pos(i) + 1), es(kid(a, i)), es(c), q, h, e, r);
        } else {
            let c: Node<K, V> = Node::Leaf(Bucket::Single(e));
            lemma_es(c);
            reveal(all_at);
            lemma_absent(a, i, a.pos(i), d, g);
            lemma_add(a, b, i, c, d, g);
            lemma_none_at(lft(a, a.pos(i)), q, h, d, g, i);
            lemma_none_at(rgt(a, a.pos(i)), q, h, d, g, i);
            let z = Seq::<Ewh<K, V>>::empty();
            assert(ins(z, seq![e], e, 0)) by { assert(z.insert(0, e) =~= seq![e]); }
            assert(put(z, seq![e], q, h, e, true));
            lemma_lift_put(lft(a, a.pos(i)), rgt(a, a.pos(i)), z, es(c), q, h, e, r);
        }
    }
}
pub proof fn lemma_compress<K: Eq + Hash, V>(n0: Node<K, V>, n1: Node<K, V>)
    requires n1 == n0 || (n0 matches Node::Branch(a) && a.items().len() == 1 && n1 == *a.items()[0] && n1 is Leaf && n1->Leaf_0 is Single),
    ensures es(n1) == es(n0), forall|d: int, g: u8| #![trigger wfn(n1, d, g)] #![trigger wfn(n0, d, g)] wfn(n0, d, g) ==> wfn(n1, d, g),
{
    if n1 != n0 {
        let a = br(n0);
        lemma_es(n0);
        lemma_cat_at(ess(a.items()), 0);
        lemma_cat_empty::<Ewh<K, V>>();
        assert(ess(a.items()).take(0) =~= Seq::empty());
        assert(ess(a.items()).skip(1) =~= Seq::empty());
        assert(es(n0) =~= es(n1));
    }
}
/// what becomes of a node when an entry below it is written to
pub proof fn lemma_write<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(n: Node<K, V>, q: &Q, h: u64, d: int, g: u8)
    requires wfn(n, d, g), 0 <= d <= 64, deg_ok(g),
    ensures
        forall|n1: Node<K, V>| #![trigger es(n1)] n1 is Leaf ==> es(n1) == bs(n1->Leaf_0),
        n matches Node::Branch(a) ==> ({
            let i = idx(h, d, g)->0;
            &&& forall|n1: Node<K, V>, c: Node<K, V>, o: Ewh<K, V>, e: Ewh<K, V>| #![trigger mov(es(kid(a, i)), es(c), q, h, o, e), es(n1)] #![trigger mov(es(kid(a, i)), es(c), q, h, o, e), wfn(n1, d, g)]
                mov(es(kid(a, i)), es(c), q, h, o, e) && n1 is Branch && upd(a, br(n1), i, c) ==>
                    mov(es(n), es(n1), q, h, o, e) && (wfn(c, d + 1, g) && e.key_hash == h ==> wfn(n1, d, g))
            &&& forall|n1: Node<K, V>, c: Node<K, V>| #![trigger es(c), es(n1)] #![trigger es(c), wfn(n1, d, g)]
                es(c) == es(kid(a, i)) && wfn(c, d + 1, g) && n1 is Branch && upd(a, br(n1), i, c) ==> es(n1) == es(n) && wfn(n1, d, g)
        }),
{
    assert forall|n1: Node<K, V>| #![trigger es(n1)] n1 is Leaf implies es(n1) == bs(n1->Leaf_0) by { lemma_es(n1); }
    if let Node::Branch(a) = n {
        let i = idx(h, d, g)->0;
        if a.has(i) {
            lemma_split(a, i, d, g);
            assert forall|n1: Node<K, V>, c: Node<K, V>, o: Ewh<K, V>, e: Ewh<K, V>| #![trigger mov(es(kid(a, i)), es(c), q, h, o, e), es(n1)] #![trigger mov(es(kid(a, i)), es(c), q, h, o, e), wfn(n1, d, g)]
                mov(es(kid(a, i)), es(c), q, h, o, e) && n1 is Branch && upd(a, br(n1), i, c) implies
                    mov(es(n), es(n1), q, h, o, e) && (wfn(c, d + 1, g) && e.key_hash == h ==> wfn(n1, d, g)) by {
                lemma_upd(a, br(n1), i, c, d, g);
                lemma_lift_mov(lft(a, a.pos(i)), rgt(a, a.pos(i) + 1), es(kid(a, i)), es(c), q, h, o, e);
                if e.key_hash == h { lemma_mov_all(es(kid(a, i)), es(c), q, h, o, e, d, g, i); }
            }
            assert forall|n1: Node<K, V>, c: Node<K, V>| #![trigger es(c), es(n1)] #![trigger es(c), wfn(n1, d, g)]
                es(c) == es(kid(a, i)) && wfn(c, d + 1, g) && n1 is Branch && upd(a, br(n1), i, c) implies es(n1) == es(n) && wfn(n1, d, g) by {
                lemma_upd(a, br(n1), i, c, d, g);
            }
        }
    }
}
/// what becomes of a node when an entry below it is removed
pub proof fn lemma_remove<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(n: Node<K, V>, q: &Q, h: u64, d: int, g: u8)
    requires wfn(n, d, g), 0 <= d <= 64, deg_ok(g),
    ensures
        forall|n1: Node<K, V>| #![trigger es(n1)] (n1 matches Node::Leaf(y) ==> es(n1) == bs(y)) && (hollow(n1) ==> es(n1) == Seq::<Ewh<K, V>>::empty()),
        n matches Node::Leaf(b) ==> (at(bs(b), q, h, 0) && bs(b).len() == 1 ==> rem(bs(b), Seq::empty(), q, h, true)),
        n matches Node::Branch(a) ==> ({
            let i = idx(h, d, g)->0;
            &&& forall|n1: Node<K, V>, c: Node<K, V>, r: bool| #![trigger rem(es(kid(a, i)), es(c), q, h, r), es(n1)] #![trigger rem(es(kid(a, i)), es(c), q, h, r), wfn(n1, d, g)]
                rem(es(kid(a, i)), es(c), q, h, r) && n1 is Branch && upd(a, br(n1), i, c) ==>
                    rem(es(n), es(n1), q, h, r) && (wfn(c, d + 1, g) ==> wfn(n1, d, g))
            &&& forall|b: Arr<K, V>, x: Arr<K, V>, c: Node<K, V>| #![trigger rem(es(kid(a, i)), es(c), q, h, true), b.with(&x, i)]
                rem(es(kid(a, i)), es(c), q, h, true) && hollow(c) && upd(a, x, i, c) && b.wf() && b.items() =~= x.items().remove(x.pos(i)) && b.with(&x, i) ==>
                    rem(es(n), es(Node::Branch(b)), q, h, true) && wfn(Node::Branch(b), d, g)
        }),
{
    assert forall|n1: Node<K, V>| #![trigger es(n1)] (n1 matches Node::Leaf(y) ==> es(n1) == bs(y)) && (hollow(n1) ==> es(n1) == Seq::<Ewh<K, V>>::empty()) by { lemma_es(n1); }
    if let Node::Leaf(b) = n {
        if at(bs(b), q, h, 0) && bs(b).len() == 1 { assert(bs(b).remove(0) =~= Seq::empty()); }
    }
    if let Node::Branch(a) = n {
        let i = idx(h, d, g)->0;
        if a.has(i) {
            lemma_split(a, i, d, g);
            let p = a.pos(i);
            lemma_none_at(lft(a, p), q, h, d, g, i);
            lemma_none_at(rgt(a, p + 1), q, h, d, g, i);
            assert forall|n1: Node<K, V>, c: Node<K, V>, r: bool| #![trigger rem(es(kid(a, i)), es(c), q, h, r), es(n1)] #![trigger rem(es(kid(a, i)), es(c), q, h, r), wfn(n1, d, g)]
                rem(es(kid(a, i)), es(c), q, h, r) && n1 is Branch && upd(a, br(n1), i, c) implies
                    rem(es(n), es(n1), q, h, r) && (wfn(c, d + 1, g) ==> wfn(n1, d, g)) by {
                lemma_upd(a, br(n1), i, c, d, g);
                lemma_lift_rem(lft(a, p), rgt(a, p + 1), es(kid(a, i)), es(c), q, h, r);
                lemma_rem_all(es(kid(a, i)), es(c), q, h, r, d, g, i);
            }
            assert forall|b: Arr<K, V>, x: Arr<K, V>, c: Node<K, V>| #![trigger rem(es(kid(a, i)), es(c), q, h, true), b.with(&x, i)]
                rem(es(kid(a, i)), es(c), q, h, true) && hollow(c) && upd(a, x, i, c) && b.wf() && b.items() =~= x.items().remove(x.pos(i)) && b.with(&x, i) implies
                    rem(es(n), es(Node::Branch(b)), q, h, true) && wfn(Node::Branch(b), d, g) by {
                lemma_upd(a, x, i, c, d, g);
                assert(b.pos(i) == p) by { let _ = x.pos(i); }
                assert(b.items() =~= a.items().remove(p));
                assert(b.with(&a, i)) by {
                    assert forall|k: int| #[trigger] a.has(k) == (b.has(k) || k == i) by { assert(x.has(k) == a.has(k)); }
                    assert forall|k: int| #[trigger] a.pos(k) == b.pos(k) + (if k > i { 1int } else { 0int }) by { assert(x.pos(k) == a.pos(k)); }
                }
                assert(a.items() =~= b.items().insert(p, Rc::new(kid(a, i))));
                lemma_add(b, a, i, kid(a, i), d, g);
                lemma_es(c);
                assert(lft(b, p) == lft(a, p)) by { assert(ess(b.items()).take(p) =~= ess(a.items()).take(p)); }
                assert(rgt(b, p) == rgt(a, p + 1)) by { assert(ess(b.items()).skip(p) =~= ess(a.items()).skip(p + 1)); }
                lemma_lift_rem(lft(a, p), rgt(a, p + 1), es(kid(a, i)), es(c), q, h, true);
            }
        }
    }
}

// ---- the map: its entries, in the order of iteration
pub open spec fn ees<K, V>(s: Seq<Ewh<K, V>>) -> Seq<Ent<K, V>> { Seq::new(s.len(), |i: int| s[i].entry) }
pub open spec fn en<K, V>(k: K, v: V) -> Ent<K, V> { Rc::new(Entry { key: k, value: v }) }
pub open spec fn hit<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ent<K, V>>, q: &Q, i: int) -> bool { 0 <= i < s.len() && s[i].key.bor().eq_spec(q) }
pub open spec fn lookup<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ent<K, V>>, q: &Q) -> Option<Ent<K, V>> {
    if exists|i: int| #[trigger] hit(s, q, i) { Some(s[choose|i: int| #[trigger] hit(s, q, i)]) } else { None }
}
/// no two entries have equal keys
pub open spec fn uniq<K: Eq + Hash, V>(s: Seq<Ent<K, V>>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !s[i].key.eq_spec(&s[j].key)
}
pub open spec fn eins<K, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, e: Ent<K, V>, i: int) -> bool { 0 <= i <= s.len() && t == s.insert(i, e) }
/// the entry is new, or takes the place of the one with that key
pub open spec fn mput<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, q: &Q, e: Ent<K, V>, new: bool) -> bool {
    if new { lookup(s, q) is None && exists|i: int| #[trigger] eins(s, t, e, i) } else { exists|j: int, i: int| #[trigger] hit(s, q, j) && #[trigger] eins(s.remove(j), t, e, i) }
}
pub open spec fn del<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, q: &Q, r: bool) -> bool {
    if r { exists|j: int| #[trigger] hit(s, q, j) && t == s.remove(j) } else { lookup(s, q) is None && t == s }
}
pub open spec fn inserted<K: Eq + Hash, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, k: K, v: V) -> bool {
    exists|b: bool| #[trigger] mput(s, t, &k, en(k, v), b)
}
/// the key finds the new value, every other key what it found before
pub open spec fn now_maps<K: Eq + Hash, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, e: Ent<K, V>) -> bool {
    forall|q: &K| #[trigger] lookup(t, q) == (if e.key.eq_spec(q) { Some(e) } else { lookup(s, q) })
}
/// the last pair with that key
pub open spec fn last_kv<K: Eq + Hash, V>(kvs: Seq<(K, V)>, q: &K) -> Option<Ent<K, V>>
    decreases kvs.len(),
{
    if kvs.len() == 0 { None } else if kvs.last().0.eq_spec(q) { Some(en(kvs.last().0, kvs.last().1)) } else { last_kv(kvs.drop_last(), q) }
}
/// the entries a series of insertions leaves
pub open spec fn collected<K: Eq + Hash, V>(t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>) -> bool {
    forall|q: &K| #[trigger] lookup(t, q) == last_kv(kvs, q)
}
/// equal as maps
pub open spec fn same_map<K: Eq + Hash, V: PartialEq>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> val_eq(#[trigger] s[i], t)
}
pub open spec fn val_eq<K: Eq + Hash, V: PartialEq>(e: Ent<K, V>, t: Seq<Ent<K, V>>) -> bool {
    lookup(t, &e.key) matches Some(f) && e.value.eq_spec(&f.value)
}
pub open spec fn pairs<'a, K, V>(s: Seq<Ent<K, V>>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].key, &s[i].value)) }
pub open spec fn hashed<K: Eq + Hash, V, H: BuildHasher>(s: Seq<Ewh<K, V>>, bh: &H) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key_hash == bh.hof::<K>(&s[i].entry.key)
}
/// Keys are lawful for every hasher builder of the type.
pub open spec fn hash_law<K: Eq + Hash, H: BuildHasher>() -> bool { forall|h: H| #[trigger] hash_ok::<K, K, H>(&h) }

impl<K: Eq + Hash, V, H: BuildHasher> HashTrieMap<K, V, H> {
    pub open spec fn hents(&self) -> Seq<Ewh<K, V>> { es(*self.root) }
    pub open spec fn ents(&self) -> Seq<Ent<K, V>> { ees(self.hents()) }
    pub open spec fn wf(&self) -> bool {
        &&& deg_ok(self.degree) && wfn(*self.root, 0, self.degree)
        &&& hash_ok::<K, K, H>(&self.hasher_builder) && hashed(self.hents(), &self.hasher_builder)
        &&& uniq(self.ents())
        &&& self.size == self.ents().len() && self.size <= vx_max_len()
    }
}

proof fn lemma_keys<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, H: BuildHasher>(a: &K, b: &K, q: &Q, bh: &H)
    requires hash_ok::<K, Q, H>(bh),
    ensures
        a.bor().eq_spec(q) ==> bh.hof::<K>(a) == bh.hof::<Q>(q) && (b.bor().eq_spec(q) == a.eq_spec(b)),
        a.eq_spec(b) == b.eq_spec(a), a.eq_spec(a), a.eq_spec(b) ==> (a.bor().eq_spec(q) == b.bor().eq_spec(q)),
{
    reveal(alike);
    lemma_eqv::<K>(a, b, a);
    lemma_eqv::<Q>(a.bor(), b.bor(), q);
    lemma_eqv::<Q>(a.bor(), q, b.bor());
    lemma_eqv::<Q>(b.bor(), a.bor(), q);
    lemma_eqv::<Q>(b.bor(), q, a.bor());
    assert(a.eq_spec(b) == a.bor().eq_spec(b.bor()));
}
pub proof fn lemma_hit<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized, H: BuildHasher>(s: Seq<Ent<K, V>>, q: &Q, bh: &H)
    requires hash_ok::<K, Q, H>(bh), uniq(s),
    ensures forall|i: int| #[trigger] hit(s, q, i) ==> lookup(s, q) == Some(s[i]),
{
    assert forall|i: int| #[trigger] hit(s, q, i) implies lookup(s, q) == Some(s[i]) by {
        let j = choose|j: int| #[trigger] hit(s, q, j);
        assert(hit(s, q, j));
        lemma_keys(&s[i].key, &s[j].key, q, bh);
    }
}
proof fn lemma_ees_ins<K, V>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>, e: Ewh<K, V>, i: int)
    requires ins(s, t, e, i),
    ensures eins(ees(s), ees(t), e.entry, i),
{
    assert(ees(t) =~= ees(s).insert(i, e.entry));
}
/// hashed and plain views of the same operations
pub proof fn lemma_up<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized, H: BuildHasher>(s: Seq<Ewh<K, V>>, q: &Q, bh: &H)
    requires hash_ok::<K, Q, H>(bh), hashed(s, bh), uniq(ees(s)),
    ensures ({
        let h = bh.hof::<Q>(q);
        &&& forall|r: Option<Ewh<K, V>>| #[trigger] found(s, q, h, r) ==> lookup(ees(s), q) == (match r { Some(e) => Some(e.entry), None => None })
        &&& forall|t: Seq<Ewh<K, V>>, e: Ewh<K, V>, b: bool| #[trigger] put(s, t, q, h, e, b) ==> mput(ees(s), ees(t), q, e.entry, b)
        &&& forall|t: Seq<Ewh<K, V>>, o: Ewh<K, V>, e: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e) ==> mput(ees(s), ees(t), q, e.entry, false) && lookup(ees(s), q) == Some(o.entry) && o.key_hash == h
        &&& forall|t: Seq<Ewh<K, V>>, r: bool| #[trigger] rem(s, t, q, h, r) ==> del(ees(s), ees(t), q, r)
        &&& none(s, q, h) ==> lookup(ees(s), q) is None
    }),
{
    let h = bh.hof::<Q>(q);
    let u = ees(s);
    lemma_hit(u, q, bh);
    assert forall|i: int| 0 <= i < s.len() implies m(#[trigger] s[i], q, h) == hit(u, q, i) by {
        lemma_keys(&s[i].entry.key, &s[i].entry.key, q, bh);
    }
    assert forall|i: int| #[trigger] at(s, q, h, i) implies hit(u, q, i) && lookup(u, q) == Some(s[i].entry) by { assert(m(s[i], q, h)); }
    if none(s, q, h) {
        assert forall|i: int| !#[trigger] hit(u, q, i) by { if 0 <= i < s.len() { assert(!m(s[i], q, h)); } }
    }
    assert forall|t: Seq<Ewh<K, V>>, o: Ewh<K, V>, e: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e) implies mput(u, ees(t), q, e.entry, false) && lookup(u, q) == Some(o.entry) && o.key_hash == h by {
        let (j, i) = choose|j: int, i: int| #[trigger] at(s, q, h, j) && s[j] == o && #[trigger] ins(s.remove(j), t, e, i);
        lemma_ees_ins(s.remove(j), t, e, i);
        assert(ees(s.remove(j)) =~= u.remove(j));
        assert(hit(u, q, j) && eins(u.remove(j), ees(t), e.entry, i));
    }
    assert forall|t: Seq<Ewh<K, V>>, e: Ewh<K, V>, b: bool| #[trigger] put(s, t, q, h, e, b) implies mput(u, ees(t), q, e.entry, b) by {
        if b {
            let i = choose|i: int| #[trigger] ins(s, t, e, i);
            lemma_ees_ins(s, t, e, i);
        } else {
            let o = choose|o: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e);
            assert(mov(s, t, q, h, o, e));
        }
    }
    assert forall|t: Seq<Ewh<K, V>>, r: bool| #[trigger] rem(s, t, q, h, r) implies del(u, ees(t), q, r) by {
        if r {
            let j = choose|j: int| #[trigger] at(s, q, h, j) && t == s.remove(j);
            assert(ees(t) =~= u.remove(j));
            assert(hit(u, q, j));
        }
    }
}
/// every entry of the result is the new one or was there before
proof fn lemma_hashed<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized, H: BuildHasher>(s: Seq<Ewh<K, V>>, q: &Q, h: u64, bh: &H)
    requires hashed(s, bh),
    ensures
        forall|t: Seq<Ewh<K, V>>, e: Ewh<K, V>, b: bool| #[trigger] put(s, t, q, h, e, b) && e.key_hash == bh.hof::<K>(&e.entry.key) ==> hashed(t, bh),
        forall|t: Seq<Ewh<K, V>>, o: Ewh<K, V>, e: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e) && e.key_hash == bh.hof::<K>(&e.entry.key) ==> hashed(t, bh),
        forall|t: Seq<Ewh<K, V>>, r: bool| #[trigger] rem(s, t, q, h, r) ==> hashed(t, bh),
{
    assert forall|t: Seq<Ewh<K, V>>, o: Ewh<K, V>, e: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e) && e.key_hash == bh.hof::<K>(&e.entry.key) implies hashed(t, bh) by {
        let (j, i) = choose|j: int, i: int| #[trigger] at(s, q, h, j) && s[j] == o && #[trigger] ins(s.remove(j), t, e, i);
        assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).key_hash == bh.hof::<K>(&t[x].entry.key) by {
            if x != i {
                let y = if x < i { x } else { x - 1 };
                assert(t[x] == s.remove(j)[y]);
                let z = if y < j { y } else { y + 1 };
                assert(t[x] == s[z]);
            }
        }
    }
    assert forall|t: Seq<Ewh<K, V>>, e: Ewh<K, V>, b: bool| #[trigger] put(s, t, q, h, e, b) && e.key_hash == bh.hof::<K>(&e.entry.key) implies hashed(t, bh) by {
        if b {
            let i = choose|i: int| #[trigger] ins(s, t, e, i);
            assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).key_hash == bh.hof::<K>(&t[x].entry.key) by {
                if x != i { let y = if x < i { x } else { x - 1 }; assert(t[x] == s[y]); }
            }
        } else {
            let o = choose|o: Ewh<K, V>| #[trigger] mov(s, t, q, h, o, e);
            assert(mov(s, t, q, h, o, e));
        }
    }
    assert forall|t: Seq<Ewh<K, V>>, r: bool| #[trigger] rem(s, t, q, h, r) implies hashed(t, bh) by {
        if r {
            let j = choose|j: int| #[trigger] at(s, q, h, j) && t == s.remove(j);
            assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).key_hash == bh.hof::<K>(&t[x].entry.key) by {
                let z = if x < j { x } else { x + 1 };
                assert(t[x] == s[z]);
            }
        }
    }
}
/// keys stay unique
pub proof fn lemma_put_uniq<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized, H: BuildHasher>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, q: &Q, e: Ent<K, V>, new: bool, bh: &H)
    requires hash_ok::<K, Q, H>(bh), uniq(s), mput(s, t, q, e, new), e.key.bor().eq_spec(q),
    ensures uniq(t), t.len() == s.len() + (if new { 1int } else { 0int }),
{
    if new {
        let i = choose|i: int| #[trigger] eins(s, t, e, i);
        assert forall|x: int, y: int| #![trigger t[x], t[y]] 0 <= x < t.len() && 0 <= y < t.len() && x != y implies !t[x].key.eq_spec(&t[y].key) by {
            let a = if x < i { x } else { x - 1 };
            let b = if y < i { y } else { y - 1 };
            if x != i { assert(t[x] == s[a]); lemma_keys(&e.key, &s[a].key, q, bh); assert(!hit(s, q, a)); }
            if y != i { assert(t[y] == s[b]); lemma_keys(&e.key, &s[b].key, q, bh); assert(!hit(s, q, b)); }
            if x != i && y != i { assert(!s[a].key.eq_spec(&s[b].key)); }
        }
    } else {
        let (j, i) = choose|j: int, i: int| #[trigger] hit(s, q, j) && #[trigger] eins(s.remove(j), t, e, i);
        let r = s.remove(j);
        assert forall|x: int, y: int| #![trigger t[x], t[y]] 0 <= x < t.len() && 0 <= y < t.len() && x != y implies !t[x].key.eq_spec(&t[y].key) by {
            let a = if x < i { x } else { x - 1 };
            let b = if y < i { y } else { y - 1 };
            let c = if a < j { a } else { a + 1 };
            let d = if b < j { b } else { b + 1 };
            if x != i { assert(t[x] == r[a]); assert(r[a] == s[c]); lemma_keys(&s[j].key, &s[c].key, q, bh); lemma_keys(&e.key, &s[c].key, q, bh); assert(!s[j].key.eq_spec(&s[c].key)); }
            if y != i { assert(t[y] == r[b]); assert(r[b] == s[d]); lemma_keys(&s[j].key, &s[d].key, q, bh); lemma_keys(&e.key, &s[d].key, q, bh); assert(!s[j].key.eq_spec(&s[d].key)); }
            if x != i && y != i { assert(!s[c].key.eq_spec(&s[d].key)); }
        }
    }
}
pub proof fn lemma_del_uniq<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, q: &Q, r: bool)
    requires uniq(s), del(s, t, q, r),
    ensures uniq(t), t.len() == s.len() - (if r { 1int } else { 0int }),
{
    if r {
        let j = choose|j: int| #[trigger] hit(s, q, j) && t == s.remove(j);
        assert forall|x: int, y: int| #![trigger t[x], t[y]] 0 <= x < t.len() && 0 <= y < t.len() && x != y implies !t[x].key.eq_spec(&t[y].key) by {
            let c = if x < j { x } else { x + 1 };
            let d = if y < j { y } else { y + 1 };
            assert(t[x] == s[c] && t[y] == s[d]);
            assert(!s[c].key.eq_spec(&s[d].key));
        }
    }
}
/// what is found after an insertion
pub proof fn lemma_put_lookup<K: Eq + Hash, V, H: BuildHasher>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, e: Ent<K, V>, new: bool, bh: &H)
    requires hash_ok::<K, K, H>(bh), uniq(s), mput(s, t, &e.key, e, new),
    ensures now_maps(s, t, e),
{
    lemma_keys::<K, K, H>(&e.key, &e.key, &e.key, bh);
    lemma_put_uniq::<K, V, K, H>(s, t, &e.key, e, new, bh);
    assert forall|q: &K| #[trigger] lookup(t, q) == (if e.key.eq_spec(q) { Some(e) } else { lookup(s, q) }) by {
        lemma_hit::<K, V, K, H>(s, q, bh);
        lemma_hit::<K, V, K, H>(t, q, bh);
        let (j, i) = if new { (-1int, choose|i: int| #[trigger] eins(s, t, e, i)) } else { choose|j: int, i: int| #[trigger] hit::<K, V, K>(s, &e.key, j) && #[trigger] eins(s.remove(j), t, e, i) };
        assert(t[i] == e);
        if e.key.eq_spec(q) {
            assert(hit::<K, V, K>(t, q, i));
        } else {
            // positions other than i of t are those other than j of s
            assert forall|x: int| #[trigger] hit::<K, V, K>(t, q, x) implies lookup(s, q) == Some(t[x]) by {
                assert(x != i);
                let y = if x < i { x } else { x - 1 };
                let z = if new || y < j { y } else { y + 1 };
                assert(t[x] == s[z]);
                assert(hit::<K, V, K>(s, q, z));
            }
            assert forall|z: int| #[trigger] hit::<K, V, K>(s, q, z) implies lookup(t, q) == Some(s[z]) by {
                if z == j { lemma_keys::<K, K, H>(&e.key, &s[j].key, q, bh); lemma_keys::<K, K, H>(&s[j].key, &e.key, &e.key, bh); }
                let y = if new || z < j { z } else { z - 1 };
                let x = if y < i { y } else { y + 1 };
                assert(t[x] == s[z]);
                assert(hit::<K, V, K>(t, q, x));
            }
            if lookup(s, q) is Some {
                let z = choose|z: int| #[trigger] hit::<K, V, K>(s, q, z);
                assert(hit::<K, V, K>(s, q, z));
            }
            if lookup(t, q) is Some {
                let x = choose|x: int| #[trigger] hit::<K, V, K>(t, q, x);
                assert(hit::<K, V, K>(t, q, x));
            }
        }
    }
}
pub proof fn lemma_collect_empty<K: Eq + Hash, V>()
    ensures collected(Seq::<Ent<K, V>>::empty(), Seq::<(K, V)>::empty()),
{
    assert forall|q: &K| #[trigger] lookup(Seq::<Ent<K, V>>::empty(), q) == last_kv(Seq::<(K, V)>::empty(), q) by {}
}
pub proof fn lemma_collect_step<K: Eq + Hash, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>, kv: (K, V))
    requires collected(s, kvs), now_maps(s, t, en(kv.0, kv.1)),
    ensures collected(t, kvs.push(kv)),
{
    assert(kvs.push(kv).drop_last() =~= kvs);
    assert forall|q: &K| #[trigger] lookup(t, q) == last_kv(kvs.push(kv), q) by {}
}
pub proof fn lemma_collect_steps<K: Eq + Hash, V>()
    ensures forall|s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>, k: K, v: V|
        #![trigger collected(s, kvs), now_maps(s, t, en(k, v))]
        collected(s, kvs) && now_maps(s, t, en(k, v)) ==> collected(t, kvs.push((k, v))),
{
    assert forall|s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>, k: K, v: V|
        #![trigger collected(s, kvs), now_maps(s, t, en(k, v))]
        collected(s, kvs) && now_maps(s, t, en(k, v)) implies collected(t, kvs.push((k, v))) by {
        lemma_collect_step(s, t, kvs, (k, v));
    }
}
/// what becomes of a map when a value is written to
pub proof fn lemma_map_write<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized, H: BuildHasher>(o: HashTrieMap<K, V, H>, q: &Q)
    requires o.wf(), hash_ok::<K, Q, H>(&o.hasher_builder),
    ensures ({
        let h = o.hasher_builder.hof::<Q>(q);
        &&& forall|n: HashTrieMap<K, V, H>, x: Ewh<K, V>, e: Ewh<K, V>| #![trigger mov(o.hents(), n.hents(), q, h, x, e)]
            mov(o.hents(), n.hents(), q, h, x, e) && e.entry.key == x.entry.key && e.key_hash == h ==> hashed(n.hents(), &o.hasher_builder) && uniq(n.ents()) && n.ents().len() == o.ents().len()
                && lookup(o.ents(), q) == Some(x.entry) && mput(o.ents(), n.ents(), q, e.entry, false)
    }),
{
    let bh = &o.hasher_builder;
    let h = bh.hof::<Q>(q);
    let s = o.hents();
    lemma_up(s, q, bh);
    lemma_hashed(s, q, h, bh);
    assert forall|n: HashTrieMap<K, V, H>, x: Ewh<K, V>, e: Ewh<K, V>| #![trigger mov(o.hents(), n.hents(), q, h, x, e)]
        mov(o.hents(), n.hents(), q, h, x, e) && e.entry.key == x.entry.key && e.key_hash == h implies hashed(n.hents(), &o.hasher_builder) && uniq(n.ents()) && n.ents().len() == o.ents().len()
            && lookup(o.ents(), q) == Some(x.entry) && mput(o.ents(), n.ents(), q, e.entry, false) by {
        assert(x.entry.key.bor().eq_spec(q));
        lemma_keys(&x.entry.key, &x.entry.key, q, bh);
        lemma_put_uniq(o.ents(), n.ents(), q, e.entry, false, bh);
    }
}

proof fn lemma_slots(g: u8)
    ensures 0 * tz(g) == 0,
{
    assert(0 * tz(g) == 0) by (nonlinear_arith);
}
proof fn lemma_default_degree()
    ensures deg_ok(64),
{}
pub proof fn lemma_map_put<K: Eq + Hash, V, H: BuildHasher>(o: HashTrieMap<K, V, H>, k: K, v: V)
    requires o.wf(),
    ensures
        es(dn(o.root)).len() == o.size,
        forall|n: HashTrieMap<K, V, H>, e: Ewh<K, V>, b: bool| #![trigger put(o.hents(), n.hents(), &e.entry.key, e.key_hash, e, b)]
            put(o.hents(), n.hents(), &e.entry.key, e.key_hash, e, b) && *e.entry == (Entry { key: k, value: v }) && e.key_hash == o.hasher_builder.hof::<K>(&k) ==>
            hashed(n.hents(), &o.hasher_builder) && uniq(n.ents()) && n.ents().len() == o.ents().len() + (if b { 1int } else { 0int })
                && mput(o.ents(), n.ents(), &k, en(k, v), b) && now_maps(o.ents(), n.ents(), en(k, v)),
{
    let bh = &o.hasher_builder;
    let s = o.hents();
    lemma_up::<K, V, K, H>(s, &k, bh);
    lemma_hashed::<K, V, K, H>(s, &k, bh.hof::<K>(&k), bh);
    assert forall|n: HashTrieMap<K, V, H>, e: Ewh<K, V>, b: bool| #![trigger put(o.hents(), n.hents(), &e.entry.key, e.key_hash, e, b)]
        put(o.hents(), n.hents(), &e.entry.key, e.key_hash, e, b) && *e.entry == (Entry { key: k, value: v }) && e.key_hash == bh.hof::<K>(&k) implies
        hashed(n.hents(), bh) && uniq(n.ents()) && n.ents().len() == o.ents().len() + (if b { 1int } else { 0int })
            && mput(o.ents(), n.ents(), &k, en(k, v), b) && now_maps(o.ents(), n.ents(), en(k, v)) by {
        assert(e.entry.key == k);
        assert(e.entry == en(k, v));
        lemma_keys::<K, K, H>(&k, &k, &k, bh);
        lemma_put_uniq::<K, V, K, H>(o.ents(), n.ents(), &k, e.entry, b, bh);
        lemma_put_lookup::<K, V, H>(o.ents(), n.ents(), e.entry, b, bh);
    }
}
pub proof fn lemma_map_rem<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized, H: BuildHasher>(o: HashTrieMap<K, V, H>, q: &Q)
    requires o.wf(), hash_ok::<K, Q, H>(&o.hasher_builder),
    ensures
        es(dn(o.root)).len() == o.size,
        forall|n: HashTrieMap<K, V, H>, r: bool| #![trigger rem(o.hents(), n.hents(), q, o.hasher_builder.hof::<Q>(q), r)]
            rem(o.hents(), n.hents(), q, o.hasher_builder.hof::<Q>(q), r) ==>
            hashed(n.hents(), &o.hasher_builder) && uniq(n.ents()) && n.ents().len() == o.ents().len() - (if r { 1int } else { 0int })
                && del(o.ents(), n.ents(), q, r),
        forall|n: Node<K, V>| #[trigger] hollow(n) ==> wfn(n, 0, o.degree),
{
    let bh = &o.hasher_builder;
    let s = o.hents();
    let h = bh.hof::<Q>(q);
    lemma_up(s, q, bh);
    lemma_hashed(s, q, h, bh);
    lemma_slots(o.degree);
    assert forall|n: HashTrieMap<K, V, H>, r: bool| #![trigger rem(o.hents(), n.hents(), q, o.hasher_builder.hof::<Q>(q), r)]
        rem(o.hents(), n.hents(), q, h, r) implies
        hashed(n.hents(), bh) && uniq(n.ents()) && n.ents().len() == o.ents().len() - (if r { 1int } else { 0int }) && del(o.ents(), n.ents(), q, r) by {
        lemma_del_uniq(o.ents(), n.ents(), q, r);
    }
}

// ---- iteration
pub type El<'a, K, V> = IterStackElement<'a, K, V>;
pub open spec fn derefs<'a, A>(s: Seq<&'a A>) -> Seq<A> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn slice_rest<'a, K, V>(i: VxSliceIter<'a, Rc<Node<K, V>>>) -> Seq<Rc<Node<K, V>>> { derefs(i.rest()) }
pub open spec fn leaf_entries<'a, K, V>(s: Seq<&'a Rc<Ewh<K, V>>>) -> Seq<Ent<K, V>> { Seq::new(s.len(), |i: int| s[i].entry) }
pub open spec fn kids_left<'a, K, V>(e: El<'a, K, V>) -> Seq<&'a Rc<Node<K, V>>> { match e { IterStackElement::Branch(i) => i.rest(), _ => Seq::empty() } }
/// entries an element of the stack has yet to yield
pub open spec fn er<'a, K, V>(e: El<'a, K, V>) -> Seq<Ent<K, V>> {
    match e {
        IterStackElement::Branch(i) => ees(cat(ess(slice_rest(i)))),
        IterStackElement::LeafCollision(i) => leaf_entries(i.rest()),
        IterStackElement::LeafSingle(i) => derefs(i.rest()),
    }
}
pub open spec fn elwf<'a, K, V>(e: El<'a, K, V>) -> bool {
    match e {
        IterStackElement::Branch(i) => i.iwf() && (forall|j: int| 0 <= j < i.rest().len() ==> sound(**#[trigger] i.rest()[j])),
        IterStackElement::LeafCollision(i) => i.iwf(),
        IterStackElement::LeafSingle(i) => i.iwf(),
    }
}
/// what iteration needs of a node
pub open spec fn sound<K, V>(n: Node<K, V>) -> bool
    decreases n,
{
    match n {
        Node::Branch(a) => forall|i: int| 0 <= i < a.array@.len() ==> sound(*#[trigger] a.array@[i]),
        Node::Leaf(Bucket::Single(_)) => true,
        Node::Leaf(Bucket::Collision(l)) => l.wf(),
    }
}
pub proof fn lemma_sound<K, V>(n: Node<K, V>, d: int, g: u8)
    requires wfn(n, d, g),
    ensures sound(n),
    decreases n,
{
    if let Node::Branch(a) = n {
        a.lemma_pos();
        assert forall|i: int| 0 <= i < a.array@.len() implies sound(*#[trigger] a.array@[i]) by {
            let k = a.lemma_sel(i);
            assert(a.has(k) && a.pos(k) == i);
            lemma_sound(*a.array@[i], d + 1, g);
        }
    }
}
/// steps still to be made
#[verifier::opaque]
pub open spec fn nw<K, V>(n: Node<K, V>) -> nat
    decreases n,
{ match n { Node::Branch(a) => 2 + nws(a.array@), Node::Leaf(b) => 2 + bs(b).len() } }
#[verifier::opaque]
pub open spec fn nws<K, V>(s: Seq<Rc<Node<K, V>>>) -> nat
    decreases s,
{ if s.len() == 0 { 0 } else { nws(s.drop_last()) + nw(*s.last()) } }
pub open spec fn ew<'a, K, V>(e: El<'a, K, V>) -> nat {
    match e {
        IterStackElement::Branch(i) => 1 + nws(slice_rest(i)),
        IterStackElement::LeafCollision(i) => 1 + i.rest().len(),
        IterStackElement::LeafSingle(i) => 1 + i.rest().len(),
    }
}
proof fn lemma_nws_def<K, V>(s: Seq<Rc<Node<K, V>>>)
    ensures nws(s) == (if s.len() == 0 { 0 } else { nws(s.drop_last()) + nw(*s.last()) }),
{ reveal_with_fuel(nws, 2); reveal_with_fuel(nw, 2); }
proof fn lemma_nws_front<K, V>(s: Seq<Rc<Node<K, V>>>)
    requires s.len() > 0,
    ensures nws(s) == nw(*s[0]) + nws(s.subrange(1, s.len() as int)),
    decreases s.len(),
{
    let t = s.subrange(1, s.len() as int);
    lemma_nws_def(s);
    lemma_nws_def(t);
    lemma_nws_def(s.drop_last());
    if s.len() > 1 {
        lemma_nws_front(s.drop_last());
        assert(t.drop_last() =~= s.drop_last().subrange(1, s.len() - 1));
        assert(s.drop_last()[0] == s[0]);
        assert(t.last() == s.last());
    } else {
        assert(s.drop_last() =~= Seq::empty());
        assert(t =~= Seq::empty());
    }
}
/// a node as an element of the stack
pub proof fn lemma_el<'a, K, V>(n: Node<K, V>)
    ensures
        nw(n) == (match n { Node::Branch(a) => 2 + nws(a.items()), Node::Leaf(b) => 2 + bs(b).len() }),
        es(n) == (match n { Node::Branch(a) => cat(ess(a.items())), Node::Leaf(b) => bs(b) }),
        forall|s: Seq<&'a Rc<Node<K, V>>>| #[trigger] derefs(s) == (match n { Node::Branch(a) => a.items(), _ => derefs(s) }) || !(n is Branch && s == refs::<'a, Rc<Node<K, V>>>(br(n).items())),
{
    lemma_es(n);
    reveal_with_fuel(nws, 2);
    reveal_with_fuel(nw, 2);
    if let Node::Branch(a) = n {
        assert(derefs(refs::<'a, Rc<Node<K, V>>>(a.items())) =~= a.items());
    }
}
pub proof fn lemma_ees_add<K, V>(s: Seq<Ewh<K, V>>, t: Seq<Ewh<K, V>>)
    ensures ees(s + t) == ees(s) + ees(t),
{
    assert(ees(s + t) =~= ees(s) + ees(t));
}
/// the next child of a branch
pub proof fn lemma_child<'a, K, V>(s: Seq<&'a Rc<Node<K, V>>>)
    ensures
        s.len() == 0 ==> ees(cat(ess(derefs(s)))) == Seq::<Ent<K, V>>::empty(),
        s.len() > 0 ==> ({
            let t = s.subrange(1, s.len() as int);
            &&& ees(cat(ess(derefs(s)))) == ees(es(**s[0])) + ees(cat(ess(derefs(t))))
            &&& nws(derefs(s)) == nw(**s[0]) + nws(derefs(t))
            &&& es(**s[0]) == (match **s[0] { Node::Branch(a) => cat(ess(a.items())), Node::Leaf(b) => bs(b) })
            &&& nw(**s[0]) == (match **s[0] { Node::Branch(a) => 2 + nws(a.items()), Node::Leaf(b) => 2 + bs(b).len() })
        }),
{
    let d = derefs(s);
    let e = ess(d);
    lemma_cat_empty::<Ewh<K, V>>();
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lemma_cat_at(e, 0);
        assert(e.take(0) =~= Seq::empty());
        assert(e.skip(1) =~= ess(derefs(t)));
        assert(cat(e) =~= es(**s[0]) + cat(ess(derefs(t))));
        lemma_ees_add(es(dn(*s[0])), cat(ess(derefs(t))));
        lemma_nws_front(d);
        assert(d.subrange(1, d.len() as int) =~= derefs(t));
        lemma_el::<K, V>(dn(*s[0]));
    } else {
        assert(e =~= Seq::empty());
        assert(ees(cat(e)) =~= Seq::empty());
    }
}
/// what the whole stack has yet to yield: its last element comes first
#[verifier::opaque]
pub open spec fn srest<'a, K, V>(s: Seq<El<'a, K, V>>) -> Seq<Ent<K, V>>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { er(s.last()) + srest(s.drop_last()) } }
#[verifier::opaque]
pub open spec fn sw<'a, K, V>(s: Seq<El<'a, K, V>>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { ew(s.last()) + sw(s.drop_last()) } }
pub open spec fn swf<'a, K, V>(s: Seq<El<'a, K, V>>) -> bool { forall|i: int| 0 <= i < s.len() ==> elwf(#[trigger] s[i]) }
pub proof fn lemma_stack<'a, K, V>(s: Seq<El<'a, K, V>>)
    ensures
        s.len() == 0 ==> srest(s) == Seq::<Ent<K, V>>::empty(),
        s.len() > 0 ==> srest(s) == er(s.last()) + srest(s.drop_last()) && sw(s) == ew(s.last()) + sw(s.drop_last()),
        forall|e: El<'a, K, V>| s.len() > 0 ==> srest(#[trigger] s.update(s.len() - 1, e)) == er(e) + srest(s.drop_last()) && sw(s.update(s.len() - 1, e)) == ew(e) + sw(s.drop_last()),
        forall|e: El<'a, K, V>, f: El<'a, K, V>| s.len() > 0 ==> srest(#[trigger] s.update(s.len() - 1, e).push(f)) =~= er(f) + er(e) + srest(s.drop_last()) && sw(s.update(s.len() - 1, e).push(f)) == ew(f) + ew(e) + sw(s.drop_last()),
        forall|e: El<'a, K, V>| s.len() > 0 ==> (#[trigger] s.update(s.len() - 1, e)).drop_last() == s.drop_last(),
        forall|f: El<'a, K, V>| srest(#[trigger] s.push(f)) == er(f) + srest(s),
{
    reveal_with_fuel(srest, 3);
    reveal_with_fuel(sw, 3);
    if s.len() > 0 {
        assert forall|e: El<'a, K, V>| (#[trigger] s.update(s.len() - 1, e)).drop_last() == s.drop_last() by { assert(s.update(s.len() - 1, e).drop_last() =~= s.drop_last()); }
        assert forall|e: El<'a, K, V>, f: El<'a, K, V>| (srest(#[trigger] s.update(s.len() - 1, e).push(f)) =~= er(f) + er(e) + srest(s.drop_last())) && sw(s.update(s.len() - 1, e).push(f)) == ew(f) + ew(e) + sw(s.drop_last()) by {
            let u = s.update(s.len() - 1, e);
            assert(u.push(f).drop_last() =~= u);
            assert(u.drop_last() =~= s.drop_last());
        }
    }
    assert forall|f: El<'a, K, V>| srest(#[trigger] s.push(f)) == er(f) + srest(s) by { assert(s.push(f).drop_last() =~= s); }
}

== impl mod:bucket_utils
use super::*;
== impl mod:node_utils
use super::*;
== skip
HashTrieMapVisitor::expecting formatting only

== fn node_utils::index_from_hash
-- sig r
-- spec
requires deg_ok(degree), depth <= 64,
ensures match r { Some(i) => idx(hash, depth as int, degree) == Some(i as int) && i < 64, None => idx(hash, depth as int, degree) is None },
-- attr
#[verifier::rlimit(60)]
-- entry
proof {
    let t = tz(degree);
    assert(0 <= depth * t <= 64 * 6) by (nonlinear_arith) requires 0 <= depth <= 64, 0 <= t <= 6;
    let k = (degree - 1) as u64;
    assert forall|x: u64| #[trigger] (x & k) < 64 by { assert((x & k) < 64) by (bit_vector) requires k < 64; }
    // the remainder is the same as the mask
    let x = hash >> ((depth * t) as u32);
    let d = degree as u64;
    assert(d == 1 || d == 2 || d == 4 || d == 8 || d == 16 || d == 32 || d == 64);
    assert(x % d == x & k) by (bit_vector) requires k == sub(d, 1), d == 1 || d == 2 || d == 4 || d == 8 || d == 16 || d == 32 || d == 64;
}

== fn node_utils::hash
-- sig r
-- spec
ensures r == hasher_builder.hof::<T>(v),

== fn bucket_utils::list_remove_first
-- sig r
-- spec
requires old(list).wf(), lawful_clone::<T>(), fits::<T>(old(list).view().len()), forall|x: &T| #[trigger] call_requires(predicate, (x,)),
ensures final(list).wf(), match r {
    Some(e) => exists|i: int| #[trigger] picked(old(list).view(), final(list).view(), predicate, e, i),
    None => final(list).view() == old(list).view() && unpicked(old(list).view(), predicate),
},
-- entry
let ghost s0 = list.view();
let ghost fin = *final(list);
-- loop 0
invariant_except_break
    before_needle@ + remaining.view() =~= s0, removed is None,
invariant
    remaining.wf(), *final(remaining) == fin, s0.len() <= vx_max_len(), lawful_clone::<T>(),
    forall|x: &T| #[trigger] call_requires(predicate, (x,)),
    forall|j: int| 0 <= j < before_needle@.len() ==> call_ensures(predicate, (& #[trigger] before_needle@[j],), false),
ensures
    removed is None ==> before_needle@ =~= s0 && remaining.view().len() == 0,
    removed is Some ==> before_needle@ + seq![removed->0] + remaining.view() =~= s0 && call_ensures(predicate, (&removed->0,), true),
decreases remaining.view().len(),
-- loopbody 0
proof { assert(remaining.view() =~= seq![remaining.view()[0]] + remaining.view().drop_first()); }
-- beforeloop 1
let ghost b0 = before_needle@;
let ghost r0 = new_entries.view();
-- loop 1
invariant new_entries.wf(), *final(new_entries) == fin, before_needle@ + new_entries.view() =~= b0 + r0, b0.len() + r0.len() <= vx_max_len(),
ensures before_needle@.len() == 0,
decreases before_needle@.len(),
-- exit
proof {
    if removed is Some {
        let i = b0.len() as int;
        assert(s0[i] == removed->0);
        assert(s0.remove(i) =~= b0 + r0);
        assert forall|j: int| 0 <= j < i implies call_ensures(predicate, (& #[trigger] s0[j],), false) by { assert(s0[j] == b0[j]); }
        assert(picked(s0, new_entries.view(), predicate, removed->0, i));
    } else {
        assert(new_entries.view() =~= s0);
    }
}

== fn Node::new_empty_branch
-- sig r
-- spec
ensures hollow(r), es(r) == Seq::<Ewh<K, V>>::empty(), r matches Node::Branch(a) && forall|i: int| !a.has(i),
-- exit
proof { lemma_es(vx_ret); }

== fn Node::get
-- sig r
-- spec
requires wfn(*self, depth as int, degree), depth <= 64, deg_ok(degree), Q::obeys_eq_spec(),
ensures found(es(*self), key, key_hash, oe(r)),
decreases *self,
-- entry
proof { lemma_find(*self, key, key_hash, depth as int, degree); }

== fn Node::get_mut
-- sig r
-- spec
requires wfn(*old(self), depth as int, degree), depth <= 64, deg_ok(degree), Q::obeys_eq_spec(), es(*old(self)).len() <= vx_max_len(),
ensures
    r is None ==> none(es(*old(self)), key, key_hash),
    r is None ==> es(*final(self)) == es(*old(self)),
    r is None ==> wfn(*final(self), depth as int, degree),
    r is Some ==> r->0.key_hash == key_hash && mov(es(*old(self)), es(*final(self)), key, key_hash, *r->0, *final(r->0)),
    r is Some && final(r->0).key_hash == key_hash ==> wfn(*final(self), depth as int, degree),
decreases *old(self),
-- entry
let ghost n0 = *self;
proof { lemma_find(n0, key, key_hash, depth as int, degree); lemma_write(n0, key, key_hash, depth as int, degree); }

== fn Node::insert
-- sig r
-- spec
requires wfn(*old(self), depth as int, degree), depth <= 64, deg_ok(degree), K::obeys_eq_spec(), es(*old(self)).len() < vx_max_len(),
ensures *old(self) is Branch ==> *final(self) is Branch, wfn(*final(self), depth as int, degree), put(es(*old(self)), es(*final(self)), &entry.entry.key, entry.key_hash, entry, r),
decreases 65 - depth, (if *old(self) is Leaf { 1int } else { 0int }),
-- entry
let ghost n0 = *self;
let ghost e0 = entry;
proof { lemma_find(n0, &e0.entry.key, e0.key_hash, depth as int, degree); if n0 is Leaf && n0->Leaf_0 is Single { lemma_two(n0->Leaf_0->Single_0, e0); } }
-- exit
proof { lemma_ins(n0, *self, e0, depth as int, degree, vx_ret); }

== fn Node::compress
-- spec
requires *old(self) matches Node::Branch(a) ==> a.wf(),
ensures es(*final(self)) == es(*old(self)), forall|d: int, g: u8| #![trigger wfn(*final(self), d, g)] #![trigger wfn(*old(self), d, g)] wfn(*old(self), d, g) ==> wfn(*final(self), d, g),
-- entry
let ghost n0 = *self;
-- exit
proof { lemma_compress(n0, *self); }

== fn Node::remove
-- sig r
-- spec
requires wfn(*old(self), depth as int, degree), depth <= 64, deg_ok(degree), Q::obeys_eq_spec(), es(*old(self)).len() <= vx_max_len(),
ensures
    !(r && hollow(*final(self))) ==> wfn(*final(self), depth as int, degree),
    rem(es(*old(self)), es(*final(self)), key, key_hash, r),
decreases *old(self),
-- entry
let ghost n0 = *self;
proof { lemma_find(n0, key, key_hash, depth as int, degree); lemma_remove(n0, key, key_hash, depth as int, degree); }

== fn Node::is_empty
-- sig r
-- spec
requires *self matches Node::Branch(a) ==> a.wf(), *self matches Node::Leaf(b) ==> bwf(b),
ensures r == hollow(*self),

== fn Node::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;
-- exit
proof { lemma_clone(*self, vx_ret); }

== fn Bucket::get
-- sig r
-- spec
requires bwf(*self), Q::obeys_eq_spec(),
ensures found(bs(*self), key, key_hash, oe(r)),
-- entry
proof { lemma_bucket(*self, key, key_hash); }
-- closure 0
vx_a0: &&'_ EntryWithHash<K, V>
-> (r: bool) ensures r == m(**vx_a0, key, key_hash)

== fn Bucket::get_mut
-- sig r
-- spec
requires bwf(*old(self)), Q::obeys_eq_spec(), bs(*old(self)).len() <= vx_max_len(),
ensures bwf(*final(self)), *final(self) is Single == *old(self) is Single, match r {
    None => none(bs(*old(self)), key, key_hash) && bs(*final(self)) == bs(*old(self)),
    Some(e) => e.key_hash == key_hash && mov(bs(*old(self)), bs(*final(self)), key, key_hash, *e, *final(e)),
},
-- entry
proof { ax_fits_entries::<K, V>(bs(*self).len()); lemma_bucket(*self, key, key_hash); }
-- closure 0
vx_a0: &'_ EntryWithHash<K, V>
-> (r: bool) ensures r == m(*vx_a0, key, key_hash)

== fn Bucket::contains_key
-- sig r
-- spec
requires bwf(*self), Q::obeys_eq_spec(),
ensures r == !none(bs(*self), key, key_hash),

== fn Bucket::insert
-- sig r
-- spec
requires bwf(*old(self)), K::obeys_eq_spec(), bs(*old(self)).len() < vx_max_len(),
ensures bwf(*final(self)), put(bs(*old(self)), bs(*final(self)), &entry.entry.key, entry.key_hash, entry, r),
    *final(self) is Single == (*old(self) is Single && !r),
-- entry
let ghost e0 = entry;
let ghost n0 = *self;
proof { ax_fits_entries::<K, V>(bs(*self).len()); lemma_bucket(*self, &e0.entry.key, e0.key_hash); }
-- closure 0
vx_a0: &'_ EntryWithHash<K, V>
-> (r: bool) ensures r == m(*vx_a0, &entry.entry.key, entry.key_hash)

== fn Bucket::remove
-- sig r
-- spec
requires *old(bucket) is Some, bwf(*(*old(bucket))->0), Q::obeys_eq_spec(), bs(*(*old(bucket))->0).len() <= vx_max_len(),
ensures
    *final(bucket) is None ==> r && bs(*(*old(bucket))->0).len() == 1 && at(bs(*(*old(bucket))->0), key, key_hash, 0),
    *final(bucket) is Some ==> *final((*final(bucket))->0) == *final((*old(bucket))->0) && bwf(*(*final(bucket))->0)
        && rem(bs(*(*old(bucket))->0), bs(*(*final(bucket))->0), key, key_hash, r)
        && (*(*final(bucket))->0 is Collision ==> *(*old(bucket))->0 is Collision),
-- entry
proof { ax_fits_entries::<K, V>(bs(*bucket->0).len()); lemma_bucket(*bucket->0, key, key_hash); }
-- closure 0
vx_a0: &'_ EntryWithHash<K, V>
-> (r: bool) ensures r == m(*vx_a0, key, key_hash)

== fn Bucket::clone
-- sig r
-- spec
ensures r == *self,

== fn EntryWithHash::new
-- sig r
-- spec
ensures *r.entry == (Entry { key, value }), r.key_hash == hash_builder.hof::<K>(&key),

== fn EntryWithHash::key
-- sig r
-- spec
ensures *r == self.entry.key,

== fn EntryWithHash::value
-- sig r
-- spec
ensures *r == self.entry.value,

== fn EntryWithHash::matches
-- sig r
-- spec
requires Q::obeys_eq_spec(),
ensures r == m(*self, key, key_hash),

== fn EntryWithHash::value_mut
-- sig r
-- spec
requires lawful_clone::<K>(), lawful_clone::<V>(),
ensures *r == old(self).entry.value, final(self).key_hash == old(self).key_hash, *final(self).entry == (Entry { key: old(self).entry.key, value: *final(r) }),

== fn EntryWithHash::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== fn HashTrieMap::new_with_hasher_and_degree_and_ptr_kind
-- sig r
-- spec
requires deg_ok(degree), hash_ok::<K, K, H>(&hasher_builder),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(), r.hasher_builder == hasher_builder,
-- entry
proof { assert(ees(Seq::<Ewh<K, V>>::empty()) =~= Seq::<Ent<K, V>>::empty()); lemma_slots(degree); }
-- twin
requires hash_ok::<K, K, H>(&hasher_builder),
ensures deg_ok(degree), r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(), r.hasher_builder == hasher_builder,
== fn HashTrieMap::new_with_hasher_and_ptr_kind
-- sig r
-- spec
requires hash_ok::<K, K, H>(&hasher_builder),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(), r.hasher_builder == hasher_builder,
-- entry
proof { lemma_default_degree(); }
== fn HashTrieMap::new_with_degree
-- sig r
-- spec
requires deg_ok(degree), hash_law::<K, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
-- twincalls
new_with_hasher_and_degree_and_ptr_kind
-- twin
requires hash_law::<K, DefaultBuildHasher>(),
ensures deg_ok(degree), r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
== fn HashTrieMapSync::new_sync_with_degree
-- sig r
-- spec
requires deg_ok(degree), hash_law::<K, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
-- twincalls
new_with_hasher_and_degree_and_ptr_kind
-- twin
requires hash_law::<K, DefaultBuildHasher>(),
ensures deg_ok(degree), r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
== fn HashTrieMap::new
-- sig r
-- spec
requires hash_law::<K, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
-- entry
proof { lemma_default_degree(); }
== fn HashTrieMapSync::new_sync
-- sig r
-- spec
requires hash_law::<K, DefaultBuildHasher>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
-- entry
proof { lemma_default_degree(); }
== fn HashTrieMap::default
-- sig r
-- spec
requires hash_law::<K, H>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
== fn HashTrieMap::clone
-- sig r
-- spec
ensures lawful_clone::<H>() ==> r == *self,
-- entry
broadcast use ax_rc_clone;

== fn HashTrieMap::size
-- sig r
-- spec
requires self.wf(),
ensures r == self.ents().len(),
== fn HashTrieMap::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.ents().len() == 0),

== fn HashTrieMap::get
-- sig r
-- spec
requires self.wf(), hash_ok::<K, Q, H>(&self.hasher_builder),
ensures match r { Some(v) => lookup(self.ents(), key) is Some && *v == lookup(self.ents(), key)->0.value, None => lookup(self.ents(), key) is None },
-- entry
proof { lemma_up(self.hents(), key, &self.hasher_builder); }
== fn HashTrieMap::get_key_value
-- sig r
-- spec
requires self.wf(), hash_ok::<K, Q, H>(&self.hasher_builder),
ensures match r { Some(kv) => lookup(self.ents(), key) is Some && *kv.0 == lookup(self.ents(), key)->0.key && *kv.1 == lookup(self.ents(), key)->0.value,
    None => lookup(self.ents(), key) is None },
-- entry
proof { lemma_up(self.hents(), key, &self.hasher_builder); }
== fn HashTrieMap::contains_key
-- sig r
-- spec
requires self.wf(), hash_ok::<K, Q, H>(&self.hasher_builder),
ensures r == (lookup(self.ents(), key) is Some),

== fn HashTrieMap::insert_mut
-- spec
requires old(self).wf(), old(self).ents().len() < vx_max_len(),
ensures final(self).wf(), final(self).hasher_builder == old(self).hasher_builder,
    inserted(old(self).ents(), final(self).ents(), key, value), now_maps(old(self).ents(), final(self).ents(), en(key, value)),
-- entry
let ghost n0 = *self;
proof { lemma_map_put(n0, key, value); }
== fn HashTrieMap::insert
-- sig r
-- spec
requires self.wf(), self.ents().len() < vx_max_len(), lawful_clone::<H>(),
ensures r.wf(), inserted(self.ents(), r.ents(), key, value), now_maps(self.ents(), r.ents(), en(key, value)),

== fn HashTrieMap::remove_mut
-- sig r
-- spec
requires old(self).wf(), hash_ok::<K, Q, H>(&old(self).hasher_builder),
ensures final(self).wf(), final(self).hasher_builder == old(self).hasher_builder, del(old(self).ents(), final(self).ents(), key, r),
-- entry
let ghost n0 = *self;
proof { lemma_map_rem(n0, key); }
== fn HashTrieMap::remove
-- sig r
-- spec
requires self.wf(), hash_ok::<K, Q, H>(&self.hasher_builder), lawful_clone::<H>(),
ensures r.wf(), exists|b: bool| #[trigger] del(self.ents(), r.ents(), key, b),
-- entry
proof { assert(lookup(self.ents(), key) is None ==> del(self.ents(), self.ents(), key, false)); }

== fn HashTrieMap::get_mut
-- sig r
-- spec
requires old(self).wf(), hash_ok::<K, Q, H>(&old(self).hasher_builder), lawful_clone::<K>(), lawful_clone::<V>(),
ensures match r {
    None => lookup(old(self).ents(), key) is None && final(self).wf() && final(self).ents() == old(self).ents(),
    Some(v) => lookup(old(self).ents(), key) is Some && *v == lookup(old(self).ents(), key)->0.value
        && final(self).wf() && mput(old(self).ents(), final(self).ents(), key, en(lookup(old(self).ents(), key)->0.key, *final(v)), false),
},
-- entry
let ghost m0 = *self;
proof { lemma_up(m0.hents(), key, &m0.hasher_builder); lemma_map_write(m0, key); }

== fn HashTrieMap::index
-- sig r
-- spec
requires self.wf(), hash_ok::<K, Q, H>(&self.hasher_builder), lookup(self.ents(), key) is Some,
ensures *r == lookup(self.ents(), key)->0.value,
-- twin
requires self.wf(), hash_ok::<K, Q, H>(&self.hasher_builder),
ensures lookup(self.ents(), key) is Some, *r == lookup(self.ents(), key)->0.value,

== fn HashTrieMap::ptr_eq
-- sig r
-- spec
ensures r ==> *self.root == *other.root,

== fn HashTrieMap::eq
-- sig r
-- spec
requires self.wf(), other.wf(), forall|v: V| #[trigger] v.eq_spec(&v),
ensures V::obeys_eq_spec() ==> r == same_map(self.ents(), other.ents()),
-- entry
proof {
    if dn(self.root) == dn(other.root) {
        lemma_hit::<K, V, K, H>(self.ents(), &self.ents()[0].key, &self.hasher_builder);
        assert forall|i: int| 0 <= i < self.ents().len() implies val_eq(#[trigger] self.ents()[i], other.ents()) by {
            let k = &self.ents()[i].key;
            lemma_keys::<K, K, H>(k, k, k, &self.hasher_builder);
            lemma_hit::<K, V, K, H>(self.ents(), k, &self.hasher_builder);
            assert(hit::<K, V, K>(self.ents(), k, i));
        }
    }
    assert forall|i: int| 0 <= i < self.ents().len() implies (#[trigger] self.ents()[i]).key == *pairs::<K, V>(self.ents())[i].0 by {}
}
-- closure 0
vx_a0: (&'_ K, &'_ V)
-> (r: bool) ensures V::obeys_eq_spec() ==> r == (lookup(other.ents(), vx_a0.0) is Some && vx_a0.1.eq_spec(&lookup(other.ents(), vx_a0.0)->0.value))

== fn HashTrieMap::iter_ptr
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.ents()),
== fn HashTrieMap::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= pairs(self.ents()),
-- closure 0
vx_a0: &'_ Rc<Entry<K, V>>
-> (r: (&K, &V)) ensures r == (&vx_a0.key, &vx_a0.value)
== fn HashTrieMap::keys
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest().len() == self.ents().len(), forall|i: int| 0 <= i < self.ents().len() ==> *(#[trigger] r.rest()[i]) == self.ents()[i].key,
-- closure 0
vx_a0: (&'_ K, &'_ V)
-> (r: &K) ensures r == vx_a0.0
== fn HashTrieMap::values
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest().len() == self.ents().len(), forall|i: int| 0 <= i < self.ents().len() ==> *(#[trigger] r.rest()[i]) == self.ents()[i].value,
-- closure 0
vx_a0: (&'_ K, &'_ V)
-> (r: &V) ensures r == vx_a0.1

== impl IntoIterator for HashTrieMap
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<(&'a K, &'a V)> { pairs(self.ents()) }
== fn HashTrieMap::into_iter
-- sig r

== fn HashTrieMap::from_iter
-- sig r
-- spec
requires hash_law::<K, H>(), into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), into_iter.into_rest()),
-- entry
let ghost all = into_iter.into_rest();
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push(all[n - 1])); }
}
-- loop 0
invariant vx_it0.iwf(), map.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    map.ents().len() <= all.len() - vx_it0.rest().len(), collected(map.ents(), all.take(all.len() - vx_it0.rest().len())),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn HashTrieMap::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.map_doc::<(&K, &V)>(pairs(self.ents()), r),

== impl mod:serde
impl<'de, K, V, H> VxMapVisitor<'de> for HashTrieMapVisitor<K, V, H> where K: Eq + Hash + Deserialize<'de>, V: Deserialize<'de>, H: BuildHasher + Clone + Default {
    type Value = HashTrieMap<K, V, H>;
    open spec fn map_pre<A: MapAccess<'de>>(map: A) -> bool { hash_law::<K, H>() && map.entries::<K, V>().len() <= vx_max_len() }
    open spec fn map_post<A: MapAccess<'de>>(map: A, r: HashTrieMap<K, V, H>) -> bool { r.wf() && collected(r.ents(), map.entries::<K, V>()) }
    open spec fn map_fails<A: MapAccess<'de>>(map: A) -> bool { map.fails::<K, V>() }
    fn vx_visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<HashTrieMap<K, V, H>, A::Error>) { self.visit_map(map) }
}

== impl Deserialize for HashTrieMap
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { hash_law::<K, H>() && d.map().entries::<K, V>().len() <= vx_max_len() }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && collected(r.ents(), d.map().entries::<K, V>()) }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.map().fails::<K, V>() }

== fn HashTrieMap::deserialize
-- sig r

== fn HashTrieMapVisitor::visit_map
-- sig r
-- spec
requires hash_law::<K, H>(), map.entries::<K, V>().len() <= vx_max_len(),
ensures r matches Ok(m) ==> m.wf() && collected(m.ents(), map.entries::<K, V>()),
    r is Err <==> map.fails::<K, V>(),
-- entry
let ghost bad = map.fails::<K, V>();
let ghost all = map.entries::<K, V>();
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- loop 0
invariant map.fails::<K, V>() == bad, hash_trie_map.wf(), map.entries::<K, V>().len() <= all.len(), map.entries::<K, V>() =~= all.skip(all.len() - map.entries::<K, V>().len()),
    hash_trie_map.ents().len() <= all.len() - map.entries::<K, V>().len(), collected(hash_trie_map.ents(), all.take(all.len() - map.entries::<K, V>().len())),
decreases map.entries::<K, V>().len(),
-- loopbody 0
proof {
    let n = all.len() - map.entries::<K, V>().len();
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push((all[n - 1].0, all[n - 1].1))); }
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push((all[n].0, all[n].1))); }
    if n == all.len() { assert(all.take(n) =~= all); }
}
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn IterStackElement::new
-- sig r
-- spec
requires sound(*node),
ensures elwf(r), er(r) =~= ees(es(*node)), ew(r) + 1 == nw(*node) || *node matches Node::Leaf(Bucket::Single(_)),
-- entry
proof { lemma_el::<K, V>(*node); }
== fn IterStackElement::next
-- sig r
-- spec
requires elwf(*old(self)),
ensures elwf(*final(self)), match r {
    None => er(*old(self)).len() == 0,
    Some(Ok(x)) => er(*old(self)) =~= seq![*x] + er(*final(self)) && ew(*final(self)) < ew(*old(self)),
    Some(Err(e)) => elwf(e) && er(*old(self)) =~= er(e) + er(*final(self)) && ew(*final(self)) + ew(e) < ew(*old(self)),
},
-- entry
proof { lemma_child::<K, V>(kids_left(*self)); }
== fn IterPtr::new
-- sig r
-- spec
requires map.wf(),
ensures r.iwf(), r.rest() =~= refs(map.ents()),
-- entry
proof {
    lemma_sound(dn(map.root), 0, map.degree);
    lemma_stack(Seq::<El<'_, K, V>>::empty());
}
== impl Iterator for IterPtr
open spec fn iwf(&self) -> bool { swf(self.stack@) && self.size == srest(self.stack@).len() }
open spec fn rest(&self) -> Seq<&'a Ent<K, V>> { refs(srest(self.stack@)) }
== fn IterPtr::next
-- sig r
-- entry
let ghost r0 = srest(self.stack@);
let ghost mut st = self.stack@;
-- loop 0
invariant swf(st), st == self.stack@, self.size == r0.len(), srest(st) == r0,
ensures self.stack@.len() == 0,
decreases sw(st),
-- loopbody 0
proof { lemma_stack(st); }
-- before self . size -= 1
proof { assert(r0 =~= seq![*elem] + srest(self.stack@)); assert(refs(r0).subrange(1, r0.len() as int) =~= refs(srest(self.stack@))); }
-- loopend 0
proof { st = self.stack@; }
-- afterloop 0
proof { lemma_stack(st); }
== fn IterPtr::size_hint
-- sig r
-- spec
requires self.iwf(),
ensures r.0 == self.rest().len(), r.1 == Some(r.0),
== struct IterPtr
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
== struct IterStackElement
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]

== fn ht_map!
-- decl fn vx_macro_ht_map<K: Eq + Hash, V>(vx_items: Vec<(K, V)>) -> HashTrieMap<K, V, DefaultBuildHasher>
-- sig r
-- spec
requires hash_law::<K, DefaultBuildHasher>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), vx_items@),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push(all[n - 1])); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), all.take(all.len() - vx_it0.rest().len())),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn ht_map_sync!
-- decl fn vx_macro_ht_map_sync<K: Eq + Hash, V>(vx_items: Vec<(K, V)>) -> HashTrieMap<K, V, DefaultBuildHasher>
-- sig r
-- spec
requires hash_law::<K, DefaultBuildHasher>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), vx_items@),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push(all[n - 1])); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), all.take(all.len() - vx_it0.rest().len())),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }
