== items
pub type Ent<K, V> = Rc<Entry<K, V>>;
pub type Ptr<K, V> = Option<Rc<Node<K, V>>>;

/// in-order entries
#[verifier::opaque]
pub open spec fn io<K, V>(n: Ptr<K, V>) -> Seq<Ent<K, V>>
    decreases n,
{
    match n { None => seq![], Some(n) => io(n.left) + seq![n.entry] + io(n.right) }
}
pub open spec fn red<K, V>(n: Ptr<K, V>) -> bool { n is Some && n->0.color is Red }
/// number of black nodes on the left spine
#[verifier::opaque]
pub open spec fn bh<K, V>(n: Ptr<K, V>) -> nat
    decreases n,
{
    match n { None => 0, Some(n) => bh(n.left) + if n.color is Black { 1nat } else { 0nat } }
}
/// same number of black nodes on each path, no red node with a red child
#[verifier::opaque]
pub open spec fn valid<K, V>(n: Ptr<K, V>) -> bool
    decreases n,
{
    match n {
        None => true,
        Some(n) => valid(n.left) && valid(n.right) && bh(n.left) == bh(n.right) && (n.color is Red ==> !red(n.left) && !red(n.right)),
    }
}
/// valid but for a red root with red children
pub open spec fn weak<K, V>(n: Ptr<K, V>) -> bool {
    match n { None => true, Some(n) => valid(n.left) && valid(n.right) && bh(n.left) == bh(n.right) }
}
pub open spec fn pk<K, V>(n: Node<K, V>) -> Ptr<K, V> { Some(Rc::new(n)) }
pub open spec fn dn<K, V>(n: Ptr<K, V>) -> Node<K, V> { *n->0 }

pub proof fn lemma_open<K, V>(n: Ptr<K, V>)
    ensures
        n is None ==> io(n) == Seq::<Ent<K, V>>::empty() && bh(n) == 0 && valid(n),
        n is Some ==> io(n) == io(n->0.left) + seq![n->0.entry] + io(n->0.right)
            && bh(n) == bh(n->0.left) + (if n->0.color is Black { 1nat } else { 0nat })
            && valid(n) == (weak(n) && (n->0.color is Red ==> !red(n->0.left) && !red(n->0.right))),
{
    reveal_with_fuel(io, 2);
    reveal_with_fuel(bh, 2);
    reveal_with_fuel(valid, 2);
}

// ---- ordered sequences of entries
pub open spec fn kc<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(q: &Q, e: Ent<K, V>) -> Ordering { q.cmp_spec(e.key.bor()) }
pub open spec fn sorted<K: Ord, V>(s: Seq<Ent<K, V>>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].key.cmp_spec(&s[j].key) is Less
}
/// entry `i` has the key, those before are smaller, those after greater
pub open spec fn hit<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q, i: int) -> bool {
    &&& 0 <= i < s.len() && kc(q, s[i]) is Equal
    &&& forall|j: int| 0 <= j < i ==> kc(q, #[trigger] s[j]) is Greater
    &&& forall|j: int| i < j < s.len() ==> kc(q, #[trigger] s[j]) is Less
}
/// no entry has the key; `i` entries are smaller
pub open spec fn gap<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> kc(q, #[trigger] s[j]) is Greater
    &&& forall|j: int| i <= j < s.len() ==> kc(q, #[trigger] s[j]) is Less
}
pub open spec fn en<K, V>(k: K, v: V) -> Ent<K, V> { Rc::new(Entry { key: k, value: v }) }

pub open spec fn got<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q, r: Option<Ent<K, V>>) -> bool {
    match r {
        Some(e) => exists|i: int| #[trigger] hit(s, q, i) && e == s[i],
        None => exists|i: int| #[trigger] gap(s, q, i),
    }
}
pub open spec fn put<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, k: &Q, e: Ent<K, V>, new: bool) -> bool {
    if new { exists|i: int| #[trigger] gap(s, k, i) && t == s.insert(i, e) } else { exists|i: int| #[trigger] hit(s, k, i) && t == s.update(i, e) }
}
pub open spec fn del<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, q: &Q, removed: bool) -> bool {
    if removed { exists|i: int| #[trigger] hit(s, q, i) && t == s.remove(i) } else { t == s && exists|i: int| #[trigger] gap(s, q, i) }
}
pub open spec fn inserted<K: Ord, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, k: K, v: V) -> bool {
    exists|b: bool| #[trigger] put(s, t, &k, en(k, v), b)
}
pub open spec fn lookup<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q) -> Option<Ent<K, V>> {
    if exists|i: int| #[trigger] hit(s, q, i) { Some(s[choose|i: int| #[trigger] hit(s, q, i)]) } else { None }
}

pub proof fn lemma_lookup<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q)
    ensures
        forall|i: int| #[trigger] hit(s, q, i) ==> lookup(s, q) == Some(s[i]),
        forall|i: int| #[trigger] gap(s, q, i) ==> lookup(s, q) is None,
{
    assert forall|i: int| #[trigger] hit(s, q, i) implies lookup(s, q) == Some(s[i]) by {
        let j = choose|j: int| #[trigger] hit(s, q, j);
        assert(hit(s, q, j));
        if j < i { assert(kc(q, s[j]) is Greater); }
        if j > i { assert(kc(q, s[j]) is Less); }
    }
    assert forall|i: int| #[trigger] gap(s, q, i) implies lookup(s, q) is None by {
        if exists|j: int| #[trigger] hit(s, q, j) {
            let j = choose|j: int| #[trigger] hit(s, q, j);
            assert(kc(q, s[j]) is Equal);
        }
    }
}

/// the last pair with that key
pub open spec fn last_kv<K: Ord, V>(kvs: Seq<(K, V)>, q: &K) -> Option<Ent<K, V>>
    decreases kvs.len(),
{
    if kvs.len() == 0 { None } else if q.cmp_spec(&kvs.last().0) is Equal { Some(en(kvs.last().0, kvs.last().1)) } else { last_kv(kvs.drop_last(), q) }
}
/// the entries a series of insertions leaves
pub open spec fn collected<K: Ord, V>(t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>) -> bool {
    forall|q: &K| #[trigger] lookup(t, q) == last_kv(kvs, q)
}
/// equal as maps
pub open spec fn same_map<K: Ord, V: PartialEq>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> val_eq(#[trigger] s[i], t)
}
pub open spec fn val_eq<K: Ord, V: PartialEq>(e: Ent<K, V>, t: Seq<Ent<K, V>>) -> bool {
    lookup(t, &e.key) matches Some(f) && e.value.eq_spec(&f.value)
}

pub proof fn lemma_at<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q, i: int)
    requires ord_ok::<K, Q>(), sorted(s), 0 <= i < s.len(), kc(q, s[i]) is Equal,
    ensures hit(s, q, i), lookup(s, q) == Some(s[i]),
{
    assert forall|j: int| 0 <= j < i implies kc(q, #[trigger] s[j]) is Greater by { lemma_trans2(&s[j].key, &s[i].key, q); }
    assert forall|j: int| i < j < s.len() implies kc(q, #[trigger] s[j]) is Less by { lemma_trans(q, &s[i].key, &s[j].key); }
    assert(hit(s, q, i));
    lemma_lookup(s, q);
}
/// a key without an entry has a place
pub proof fn lemma_gap<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, q: &Q, i: int)
    requires ord_ok::<K, Q>(), sorted(s), lookup(s, q) is None, 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> kc(q, #[trigger] s[j]) is Greater,
    ensures exists|i: int| #[trigger] gap(s, q, i),
    decreases s.len() - i,
{
    if i < s.len() && kc(q, s[i]) is Greater {
        lemma_gap(s, q, i + 1);
    } else {
        if i < s.len() {
            if kc(q, s[i]) is Equal { lemma_at(s, q, i); }
            assert forall|j: int| i <= j < s.len() implies kc(q, #[trigger] s[j]) is Less by { if j > i { lemma_trans(q, &s[i].key, &s[j].key); } }
        }
        assert(gap(s, q, i));
    }
}
pub proof fn lemma_same_class<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(q: &Q, k: &Q, e: Ent<K, V>)
    requires ord_ok::<K, Q>(), kc(k, e) is Equal,
    ensures (q.cmp_spec(k) is Equal) == (kc(q, e) is Equal),
{
    reveal(total_order);
}
/// A map after an insertion: the new value under that key, everything else as before.
pub proof fn lemma_put_lookup<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, k: K, e: Ent<K, V>, b: bool, q: &Q)
    requires ord_ok::<K, Q>(), sorted(s), put::<K, V, K>(s, t, &k, e, b), e.key == k,
    ensures lookup(t, q) == if q.cmp_spec(k.bor()) is Equal { Some(e) } else { lookup(s, q) },
{
    lemma_ord_self::<K>();
    lemma_put_sorted::<K, V>(s, t, &k, e, b);
    let i = if b { choose|i: int| #[trigger] gap::<K, V, K>(s, &k, i) && t == s.insert(i, e) } else { choose|i: int| #[trigger] hit::<K, V, K>(s, &k, i) && t == s.update(i, e) };
    assert(t[i] == e);
    if q.cmp_spec(k.bor()) is Equal {
        lemma_at(t, q, i);
    } else {
        if exists|j: int| #[trigger] hit(s, q, j) {
            let j = choose|j: int| #[trigger] hit(s, q, j);
            lemma_at(s, q, j);
            let j2 = if b && j >= i { j + 1 } else { j };
            if !b && j == i {
                assert(kc::<K, V, K>(&k, s[i]) is Equal);
                lemma_compat::<K, Q>(&k, &s[i].key);
                lemma_same_class(q, k.bor(), s[i]);
            }
            assert(t[j2] == s[j]);
            lemma_at(t, q, j2);
        }
        if exists|j: int| #[trigger] hit(t, q, j) {
            let j = choose|j: int| #[trigger] hit(t, q, j);
            if j != i {
                let j2 = if b && j > i { j - 1 } else { j };
                assert(t[j] == s[j2]);
                lemma_at(s, q, j2);
            }
        }
    }
}
pub proof fn lemma_compat<K: Ord + Borrow<Q>, Q: Ord + ?Sized>(a: &K, b: &K)
    requires ord_ok::<K, Q>(),
    ensures a.cmp_spec(b) == a.bor().cmp_spec(b.bor()),
{
    reveal(compat);
}
/// A map after a removal: nothing under that key, everything else as before.
pub proof fn lemma_del_lookup<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, k: &Q, b: bool, q: &Q)
    requires ord_ok::<K, Q>(), sorted(s), del(s, t, k, b),
    ensures
        lookup(t, q) == if q.cmp_spec(k) is Equal { None } else { lookup(s, q) },
        b == (lookup(s, k) is Some),
{
    lemma_del_sorted(s, t, k, b);
    lemma_lookup(s, k);
    if b {
        let i = choose|i: int| #[trigger] hit(s, k, i) && t == s.remove(i);
        lemma_same_class(q, k, s[i]);
        lemma_at(s, k, i);
        if exists|j: int| #[trigger] hit(s, q, j) {
            let j = choose|j: int| #[trigger] hit(s, q, j);
            lemma_at(s, q, j);
            if j != i {
                let j2 = if j > i { j - 1 } else { j };
                assert(t[j2] == s[j]);
                lemma_at(t, q, j2);
                if q.cmp_spec(k) is Equal { assert(kc(q, s[i]) is Equal); }
            }
        }
        if exists|j: int| #[trigger] hit(t, q, j) {
            let j = choose|j: int| #[trigger] hit(t, q, j);
            let j2 = if j >= i { j + 1 } else { j };
            assert(t[j] == s[j2]);
            lemma_at(s, q, j2);
            if q.cmp_spec(k) is Equal { assert(kc(q, s[i]) is Equal); lemma_at(s, q, i); }
        }
    } else {
        if exists|j: int| #[trigger] hit(s, q, j) {
            let j = choose|j: int| #[trigger] hit(s, q, j);
            let i = choose|i: int| #[trigger] gap(s, k, i);
            assert(kc(q, s[j]) is Equal);
            if q.cmp_spec(k) is Equal {
                reveal(total_order);
                assert(kc(k, s[j]) is Equal);
            }
        }
    }
}
pub proof fn lemma_collect_step<K: Ord, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>, k: K, v: V)
    requires lawful_ord::<K>(), sorted(s), collected(s, kvs), inserted(s, t, k, v),
    ensures collected(t, kvs.push((k, v))), t.len() <= s.len() + 1,
{
    lemma_ord_self::<K>();
    let b = choose|b: bool| #[trigger] put(s, t, &k, en(k, v), b);
    lemma_put_sorted(s, t, &k, en(k, v), b);
    assert(kvs.push((k, v)).drop_last() =~= kvs);
    assert forall|q: &K| #[trigger] lookup(t, q) == last_kv(kvs.push((k, v)), q) by {
        lemma_put_lookup(s, t, k, en(k, v), b, q);
    }
}
pub proof fn lemma_collect_steps<K: Ord, V>()
    requires lawful_ord::<K>(),
    ensures
        forall|s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>, k: K, v: V| #![trigger collected(s, kvs), inserted(s, t, k, v)]
            sorted(s) && collected(s, kvs) && inserted(s, t, k, v) ==> collected(t, kvs.push((k, v))) && t.len() <= s.len() + 1,
{
    assert forall|s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, kvs: Seq<(K, V)>, k: K, v: V| #![trigger collected(s, kvs), inserted(s, t, k, v)]
            sorted(s) && collected(s, kvs) && inserted(s, t, k, v) implies collected(t, kvs.push((k, v))) && t.len() <= s.len() + 1 by {
        lemma_collect_step(s, t, kvs, k, v);
    }
}
pub proof fn lemma_collect_empty<K: Ord, V>()
    ensures collected(Seq::<Ent<K, V>>::empty(), Seq::<(K, V)>::empty()),
{
    assert forall|q: &K| #[trigger] lookup(Seq::<Ent<K, V>>::empty(), q) == last_kv(Seq::<(K, V)>::empty(), q) by {
        assert(!exists|i: int| #[trigger] hit(Seq::<Ent<K, V>>::empty(), q, i));
    }
}

/// The three places a key can have relative to the root of a subtree.
pub proof fn lemma_split<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, q: &Q)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r),
    ensures
        sorted(l), sorted(r),
        kc(q, e) is Less ==> {
            &&& forall|j: int| 0 <= j < r.len() ==> kc(q, #[trigger] r[j]) is Less
            &&& forall|i: int| #[trigger] hit(l, q, i) ==> hit(l + seq![e] + r, q, i)
            &&& forall|i: int| #[trigger] gap(l, q, i) ==> gap(l + seq![e] + r, q, i)
        },
        kc(q, e) is Greater ==> {
            &&& forall|j: int| 0 <= j < l.len() ==> kc(q, #[trigger] l[j]) is Greater
            &&& forall|i: int| #[trigger] hit(r, q, i) ==> hit(l + seq![e] + r, q, l.len() + 1 + i)
            &&& forall|i: int| #[trigger] gap(r, q, i) ==> gap(l + seq![e] + r, q, l.len() + 1 + i)
        },
        kc(q, e) is Equal ==> hit(l + seq![e] + r, q, l.len() as int),
{
    let s = l + seq![e] + r;
    let n = l.len() as int;
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies l[i].key.cmp_spec(&l[j].key) is Less by {
        assert(s[i] == l[i] && s[j] == l[j]);
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i].key.cmp_spec(&r[j].key) is Less by {
        assert(s[n + 1 + i] == r[i] && s[n + 1 + j] == r[j]);
    }
    assert(s[n] == e);
    assert forall|j: int| 0 <= j < r.len() && !(kc(q, e) is Greater) implies kc(q, #[trigger] r[j]) is Less by {
        assert(s[n + 1 + j] == r[j]);
        assert(e.key.cmp_spec(&r[j].key) is Less);
        lemma_trans(q, &e.key, &r[j].key);
    }
    assert forall|j: int| 0 <= j < l.len() && !(kc(q, e) is Less) implies kc(q, #[trigger] l[j]) is Greater by {
        assert(s[j] == l[j]);
        assert(l[j].key.cmp_spec(&e.key) is Less);
        lemma_trans2(&l[j].key, &e.key, q);
    }
    assert forall|i: int| #[trigger] hit(l, q, i) && kc(q, e) is Less implies hit(s, q, i) by {
        assert forall|j: int| i < j < s.len() implies kc(q, #[trigger] s[j]) is Less by {
            if j < n { assert(s[j] == l[j]); } else if j > n { assert(s[j] == r[j - n - 1]); }
        }
        assert forall|j: int| 0 <= j < i implies kc(q, #[trigger] s[j]) is Greater by { assert(s[j] == l[j]); }
    }
    assert forall|i: int| #[trigger] gap(l, q, i) && kc(q, e) is Less implies gap(s, q, i) by {
        assert forall|j: int| i <= j < s.len() implies kc(q, #[trigger] s[j]) is Less by {
            if j < n { assert(s[j] == l[j]); } else if j > n { assert(s[j] == r[j - n - 1]); }
        }
        assert forall|j: int| 0 <= j < i implies kc(q, #[trigger] s[j]) is Greater by { assert(s[j] == l[j]); }
    }
    assert forall|i: int| #[trigger] hit(r, q, i) && kc(q, e) is Greater implies hit(s, q, n + 1 + i) by {
        assert(s[n + 1 + i] == r[i]);
        assert forall|j: int| n + 1 + i < j < s.len() implies kc(q, #[trigger] s[j]) is Less by { assert(s[j] == r[j - n - 1]); }
        assert forall|j: int| 0 <= j < n + 1 + i implies kc(q, #[trigger] s[j]) is Greater by {
            if j < n { assert(s[j] == l[j]); } else if j > n { assert(s[j] == r[j - n - 1]); }
        }
    }
    assert forall|i: int| #[trigger] gap(r, q, i) && kc(q, e) is Greater implies gap(s, q, n + 1 + i) by {
        assert forall|j: int| n + 1 + i <= j < s.len() implies kc(q, #[trigger] s[j]) is Less by { assert(s[j] == r[j - n - 1]); }
        assert forall|j: int| 0 <= j < n + 1 + i implies kc(q, #[trigger] s[j]) is Greater by {
            if j < n { assert(s[j] == l[j]); } else if j > n { assert(s[j] == r[j - n - 1]); }
        }
    }
    if kc(q, e) is Equal {
        assert forall|j: int| n < j < s.len() implies kc(q, #[trigger] s[j]) is Less by { assert(s[j] == r[j - n - 1]); }
        assert forall|j: int| 0 <= j < n implies kc(q, #[trigger] s[j]) is Greater by { assert(s[j] == l[j]); }
    }
}
pub proof fn lemma_trans<K: Ord + Borrow<Q>, Q: Ord + ?Sized>(q: &Q, a: &K, b: &K)
    requires ord_ok::<K, Q>(), !(q.cmp_spec(a.bor()) is Greater), a.cmp_spec(b) is Less,
    ensures q.cmp_spec(b.bor()) is Less,
{
    reveal(compat);
    reveal(total_order);
    assert(a.bor().cmp_spec(b.bor()) is Less);
}
pub proof fn lemma_trans2<K: Ord + Borrow<Q>, Q: Ord + ?Sized>(a: &K, b: &K, q: &Q)
    requires ord_ok::<K, Q>(), a.cmp_spec(b) is Less, !(q.cmp_spec(b.bor()) is Less),
    ensures q.cmp_spec(a.bor()) is Greater,
{
    reveal(compat);
    reveal(total_order);
    assert(a.bor().cmp_spec(b.bor()) is Less);
    assert(!(b.bor().cmp_spec(q) is Greater));
    assert(a.bor().cmp_spec(q) is Less);
}
pub proof fn lemma_put_left<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, l2: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, k: &Q, x: Ent<K, V>, new: bool)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r), kc(k, e) is Less, put(l, l2, k, x, new),
    ensures put(l + seq![e] + r, l2 + seq![e] + r, k, x, new),
{
    lemma_split(l, e, r, k);
    if new {
        let i = choose|i: int| #[trigger] gap(l, k, i) && l2 == l.insert(i, x);
        assert(gap(l + seq![e] + r, k, i));
        assert((l + seq![e] + r).insert(i, x) =~= l2 + seq![e] + r);
    } else {
        let i = choose|i: int| #[trigger] hit(l, k, i) && l2 == l.update(i, x);
        assert(hit(l + seq![e] + r, k, i));
        assert((l + seq![e] + r).update(i, x) =~= l2 + seq![e] + r);
    }
}
pub proof fn lemma_put_right<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, r2: Seq<Ent<K, V>>, k: &Q, x: Ent<K, V>, new: bool)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r), kc(k, e) is Greater, put(r, r2, k, x, new),
    ensures put(l + seq![e] + r, l + seq![e] + r2, k, x, new),
{
    lemma_split(l, e, r, k);
    let n = l.len() as int;
    if new {
        let i = choose|i: int| #[trigger] gap(r, k, i) && r2 == r.insert(i, x);
        assert(gap(l + seq![e] + r, k, n + 1 + i));
        assert((l + seq![e] + r).insert(n + 1 + i, x) =~= l + seq![e] + r2);
    } else {
        let i = choose|i: int| #[trigger] hit(r, k, i) && r2 == r.update(i, x);
        assert(hit(l + seq![e] + r, k, n + 1 + i));
        assert((l + seq![e] + r).update(n + 1 + i, x) =~= l + seq![e] + r2);
    }
}
pub proof fn lemma_put_here<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, k: &Q, x: Ent<K, V>)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r), kc(k, e) is Equal,
    ensures put(l + seq![e] + r, l + seq![x] + r, k, x, false),
{
    lemma_split(l, e, r, k);
    assert(hit(l + seq![e] + r, k, l.len() as int));
    assert((l + seq![e] + r).update(l.len() as int, x) =~= l + seq![x] + r);
}
pub proof fn lemma_put_empty<K: Ord, V>(k: &K, x: Ent<K, V>)
    ensures put(Seq::<Ent<K, V>>::empty(), Seq::<Ent<K, V>>::empty() + seq![x] + Seq::<Ent<K, V>>::empty(), k, x, true),
{
    assert(gap(Seq::<Ent<K, V>>::empty(), k, 0));
    assert(Seq::<Ent<K, V>>::empty().insert(0, x) =~= Seq::<Ent<K, V>>::empty() + seq![x] + Seq::<Ent<K, V>>::empty());
}
pub proof fn lemma_del_left<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, l2: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, q: &Q, b: bool)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r), kc(q, e) is Less, del(l, l2, q, b),
    ensures del(l + seq![e] + r, l2 + seq![e] + r, q, b),
{
    lemma_split(l, e, r, q);
    if b {
        let i = choose|i: int| #[trigger] hit(l, q, i) && l2 == l.remove(i);
        assert(hit(l + seq![e] + r, q, i));
        assert((l + seq![e] + r).remove(i) =~= l2 + seq![e] + r);
    } else {
        let i = choose|i: int| #[trigger] gap(l, q, i);
        assert(gap(l + seq![e] + r, q, i));
    }
}
pub proof fn lemma_del_right<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, r2: Seq<Ent<K, V>>, q: &Q, b: bool)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r), kc(q, e) is Greater, del(r, r2, q, b),
    ensures del(l + seq![e] + r, l + seq![e] + r2, q, b),
{
    lemma_split(l, e, r, q);
    let n = l.len() as int;
    if b {
        let i = choose|i: int| #[trigger] hit(r, q, i) && r2 == r.remove(i);
        assert(hit(l + seq![e] + r, q, n + 1 + i));
        assert((l + seq![e] + r).remove(n + 1 + i) =~= l + seq![e] + r2);
    } else {
        let i = choose|i: int| #[trigger] gap(r, q, i);
        assert(gap(l + seq![e] + r, q, n + 1 + i));
    }
}
pub proof fn lemma_del_here<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, q: &Q)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r), kc(q, e) is Equal,
    ensures del(l + seq![e] + r, l + r, q, true),
{
    lemma_split(l, e, r, q);
    assert(hit(l + seq![e] + r, q, l.len() as int));
    assert((l + seq![e] + r).remove(l.len() as int) =~= l + r);
}
pub proof fn lemma_got<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, q: &Q)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r),
    ensures
        kc(q, e) is Less ==> forall|o: Option<Ent<K, V>>| #[trigger] got(l, q, o) ==> got(l + seq![e] + r, q, o),
        kc(q, e) is Greater ==> forall|o: Option<Ent<K, V>>| #[trigger] got(r, q, o) ==> got(l + seq![e] + r, q, o),
        kc(q, e) is Equal ==> got(l + seq![e] + r, q, Some(e)),
{
    lemma_split(l, e, r, q);
    let s = l + seq![e] + r;
    let n = l.len() as int;
    assert(s[n] == e);
    assert forall|o: Option<Ent<K, V>>| #[trigger] got(l, q, o) && kc(q, e) is Less implies got(s, q, o) by {
        if o is Some {
            let i = choose|i: int| #[trigger] hit(l, q, i) && o->0 == l[i];
            assert(hit(s, q, i) && s[i] == l[i]);
        } else {
            let i = choose|i: int| #[trigger] gap(l, q, i);
            assert(gap(s, q, i));
        }
    }
    assert forall|o: Option<Ent<K, V>>| #[trigger] got(r, q, o) && kc(q, e) is Greater implies got(s, q, o) by {
        if o is Some {
            let i = choose|i: int| #[trigger] hit(r, q, i) && o->0 == r[i];
            assert(hit(s, q, n + 1 + i) && s[n + 1 + i] == r[i]);
        } else {
            let i = choose|i: int| #[trigger] gap(r, q, i);
            assert(gap(s, q, n + 1 + i));
        }
    }
}
pub proof fn lemma_put_sorted<K: Ord, V>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, k: &K, x: Ent<K, V>, new: bool)
    requires lawful_ord::<K>(), sorted(s), put(s, t, k, x, new), x.key == *k,
    ensures sorted(t), t.len() == s.len() + if new { 1int } else { 0int },
{
    reveal(total_order);
    if new {
        let i = choose|i: int| #[trigger] gap(s, k, i) && t == s.insert(i, x);
        assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() implies t[a].key.cmp_spec(&t[b].key) is Less by {
            if a == i { assert(t[b] == s[b - 1]); assert(kc(k, s[b - 1]) is Less); }
            else if b == i { assert(t[a] == s[a]); assert(kc(k, s[a]) is Greater); }
            else {
                let a1 = if a < i { a } else { a - 1 };
                let b1 = if b < i { b } else { b - 1 };
                assert(t[a] == s[a1] && t[b] == s[b1]);
            }
        }
    } else {
        let i = choose|i: int| #[trigger] hit(s, k, i) && t == s.update(i, x);
        assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() implies t[a].key.cmp_spec(&t[b].key) is Less by {
            if a == i { assert(kc(k, s[b]) is Less); }
            else if b == i { assert(kc(k, s[a]) is Greater); }
            else { assert(t[a] == s[a] && t[b] == s[b]); }
        }
    }
}
pub proof fn lemma_del_sorted<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, t: Seq<Ent<K, V>>, q: &Q, b: bool)
    requires sorted(s), del(s, t, q, b),
    ensures sorted(t), t.len() == s.len() - if b { 1int } else { 0int },
{
    if b {
        let i = choose|i: int| #[trigger] hit(s, q, i) && t == s.remove(i);
        assert forall|a: int, c: int| #![trigger t[a], t[c]] 0 <= a < c < t.len() implies t[a].key.cmp_spec(&t[c].key) is Less by {
            let a1 = if a < i { a } else { a + 1 };
            let c1 = if c < i { c } else { c + 1 };
            assert(t[a] == s[a1] && t[c] == s[c1]);
        }
    }
}

// ---- subtrees
pub proof fn lemma_sub<K: Ord, V>(n: Ptr<K, V>)
    requires n is Some, sorted(io(n)),
    ensures sorted(io(n->0.left)), sorted(io(n->0.right)), sorted(io(n->0.left) + seq![n->0.entry] + io(n->0.right)),
{
    lemma_open(n);
    let s = io(n);
    let l = io(dn(n).left);
    let r = io(dn(n).right);
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies l[i].key.cmp_spec(&l[j].key) is Less by {
        assert(s[i] == l[i] && s[j] == l[j]);
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i].key.cmp_spec(&r[j].key) is Less by {
        assert(s[l.len() + 1 + i] == r[i] && s[l.len() + 1 + j] == r[j]);
    }
}
pub open spec fn ent_of<'a, K, V>(o: Option<&'a Entry<K, V>>) -> Option<Ent<K, V>> { match o { Some(e) => Some(Rc::new(*e)), None => None } }

/// what `balance` does
pub open spec fn balance_post<K, V>(o: Node<K, V>, n: Node<K, V>) -> bool {
    &&& io(pk(n)) == io(pk(o))
    &&& o.color is Red ==> n == o
    &&& o.color is Black && bh(o.left) == bh(o.right) && ((weak(o.left) && valid(o.right)) || (valid(o.left) && weak(o.right)))
        ==> valid(pk(n)) && bh(pk(n)) == bh(pk(o))
}
/// a red node over two black ones
pub open spec fn fork<K, V>(a: Ptr<K, V>, x: Ent<K, V>, b: Ptr<K, V>, y: Ent<K, V>, c: Ptr<K, V>, z: Ent<K, V>, d: Ptr<K, V>) -> Node<K, V> {
    Node {
        entry: y, color: Color::Red,
        left: pk(Node { entry: x, color: Color::Black, left: a, right: b }),
        right: pk(Node { entry: z, color: Color::Black, left: c, right: d }),
    }
}
pub open spec fn balanced<K, V>(o: Node<K, V>) -> Node<K, V> {
    let l = dn(o.left);
    let r = dn(o.right);
    if o.color is Red { o }
    else if red(o.left) && red(l.left) { fork(dn(l.left).left, dn(l.left).entry, dn(l.left).right, l.entry, l.right, o.entry, o.right) }
    else if red(o.left) && red(l.right) { fork(l.left, l.entry, dn(l.right).left, dn(l.right).entry, dn(l.right).right, o.entry, o.right) }
    else if red(o.right) && red(r.left) { fork(o.left, o.entry, dn(r.left).left, dn(r.left).entry, dn(r.left).right, r.entry, r.right) }
    else if red(o.right) && red(r.right) { fork(o.left, o.entry, r.left, r.entry, dn(r.right).left, dn(r.right).entry, dn(r.right).right) }
    else { o }
}
pub proof fn lemma_fork<K, V>(a: Ptr<K, V>, x: Ent<K, V>, b: Ptr<K, V>, y: Ent<K, V>, c: Ptr<K, V>, z: Ent<K, V>, d: Ptr<K, V>)
    ensures
        io(pk(fork(a, x, b, y, c, z, d))) == io(a) + seq![x] + io(b) + seq![y] + io(c) + seq![z] + io(d),
        bh(pk(fork(a, x, b, y, c, z, d))) == bh(a) + 1,
        valid(a) && valid(b) && valid(c) && valid(d) && bh(a) == bh(b) && bh(b) == bh(c) && bh(c) == bh(d) ==> valid(pk(fork(a, x, b, y, c, z, d))),
{
    let f = fork(a, x, b, y, c, z, d);
    lemma_open(pk(f));
    lemma_open(f.left);
    lemma_open(f.right);
    assert(io(pk(f)) =~= io(a) + seq![x] + io(b) + seq![y] + io(c) + seq![z] + io(d));
}
pub proof fn lemma_balanced0<K, V>(o: Node<K, V>, n: Node<K, V>)
    requires o.color is Black, red(o.left) && red(dn(o.left).left), n == ({ let l = dn(o.left); let r = dn(o.right); fork(dn(l.left).left, dn(l.left).entry, dn(l.left).right, l.entry, l.right, o.entry, o.right) }),
    ensures balance_post(o, n),
{
    let l = dn(o.left);
    let r = dn(o.right);
    lemma_open(pk(o));
    lemma_open(o.left);
    lemma_open(o.right);
    lemma_open(l.left); lemma_open(l.right);
    lemma_fork(dn(l.left).left, dn(l.left).entry, dn(l.left).right, l.entry, l.right, o.entry, o.right);
    assert(io(pk(n)) =~= io(pk(o)));
}
pub proof fn lemma_balanced1<K, V>(o: Node<K, V>, n: Node<K, V>)
    requires o.color is Black, red(o.left) && red(dn(o.left).right), n == ({ let l = dn(o.left); let r = dn(o.right); fork(l.left, l.entry, dn(l.right).left, dn(l.right).entry, dn(l.right).right, o.entry, o.right) }),
    ensures balance_post(o, n),
{
    let l = dn(o.left);
    let r = dn(o.right);
    lemma_open(pk(o));
    lemma_open(o.left);
    lemma_open(o.right);
    lemma_open(l.left); lemma_open(l.right);
    lemma_fork(l.left, l.entry, dn(l.right).left, dn(l.right).entry, dn(l.right).right, o.entry, o.right);
    assert(io(pk(n)) =~= io(pk(o)));
}
pub proof fn lemma_balanced2<K, V>(o: Node<K, V>, n: Node<K, V>)
    requires o.color is Black, red(o.right) && red(dn(o.right).left), n == ({ let l = dn(o.left); let r = dn(o.right); fork(o.left, o.entry, dn(r.left).left, dn(r.left).entry, dn(r.left).right, r.entry, r.right) }),
    ensures balance_post(o, n),
{
    let l = dn(o.left);
    let r = dn(o.right);
    lemma_open(pk(o));
    lemma_open(o.left);
    lemma_open(o.right);
    lemma_open(r.left); lemma_open(r.right);
    lemma_fork(o.left, o.entry, dn(r.left).left, dn(r.left).entry, dn(r.left).right, r.entry, r.right);
    assert(io(pk(n)) =~= io(pk(o)));
}
pub proof fn lemma_balanced3<K, V>(o: Node<K, V>, n: Node<K, V>)
    requires o.color is Black, red(o.right) && red(dn(o.right).right), n == ({ let l = dn(o.left); let r = dn(o.right); fork(o.left, o.entry, r.left, r.entry, dn(r.right).left, dn(r.right).entry, dn(r.right).right) }),
    ensures balance_post(o, n),
{
    let l = dn(o.left);
    let r = dn(o.right);
    lemma_open(pk(o));
    lemma_open(o.left);
    lemma_open(o.right);
    lemma_open(r.left); lemma_open(r.right);
    lemma_fork(o.left, o.entry, r.left, r.entry, dn(r.right).left, dn(r.right).entry, dn(r.right).right);
    assert(io(pk(n)) =~= io(pk(o)));
}
pub proof fn lemma_balanced<K, V>(o: Node<K, V>)
    ensures balance_post(o, balanced(o)),
{
    let l = dn(o.left);
    let r = dn(o.right);
    let n = balanced(o);
    if o.color is Red {}
    else if red(o.left) && red(l.left) { lemma_balanced0(o, n); }
    else if red(o.left) && red(l.right) { lemma_balanced1(o, n); }
    else if red(o.right) && red(r.left) { lemma_balanced2(o, n); }
    else if red(o.right) && red(r.right) { lemma_balanced3(o, n); }
    else {
        lemma_open(pk(o));
        lemma_open(o.left);
        lemma_open(o.right);
    }
}
pub proof fn lemma_open2<K, V>(n: Ptr<K, V>)
    ensures
        n is Some ==> io(n) == io(n->0.left) + seq![n->0.entry] + io(n->0.right),
        n is Some && n->0.left is Some ==> io(n->0.left) == io(n->0.left->0.left) + seq![n->0.left->0.entry] + io(n->0.left->0.right),
        n is Some && n->0.right is Some ==> io(n->0.right) == io(n->0.right->0.left) + seq![n->0.right->0.entry] + io(n->0.right->0.right),
        n is Some && n->0.left is Some && n->0.left->0.left is Some ==> io(n->0.left->0.left) == io(n->0.left->0.left->0.left) + seq![n->0.left->0.left->0.entry] + io(n->0.left->0.left->0.right),
        n is Some && n->0.left is Some && n->0.left->0.right is Some ==> io(n->0.left->0.right) == io(n->0.left->0.right->0.left) + seq![n->0.left->0.right->0.entry] + io(n->0.left->0.right->0.right),
        n is Some && n->0.right is Some && n->0.right->0.left is Some ==> io(n->0.right->0.left) == io(n->0.right->0.left->0.left) + seq![n->0.right->0.left->0.entry] + io(n->0.right->0.left->0.right),
        n is Some && n->0.right is Some && n->0.right->0.right is Some ==> io(n->0.right->0.right) == io(n->0.right->0.right->0.left) + seq![n->0.right->0.right->0.entry] + io(n->0.right->0.right->0.right),
{
    lemma_openall(n);
    if n is Some {
        lemma_openall(dn(n).left);
        lemma_openall(dn(n).right);
        if dn(n).left is Some { lemma_openall(dn(dn(n).left).left); lemma_openall(dn(dn(n).left).right); }
        if dn(n).right is Some { lemma_openall(dn(dn(n).right).left); lemma_openall(dn(dn(n).right).right); }
    }
}
pub proof fn lemma_openall<K, V>(n: Ptr<K, V>)
    ensures open_post(n),
{
    lemma_open(n);
}
pub open spec fn open_post<K, V>(n: Ptr<K, V>) -> bool {
    &&& n is None ==> io(n) == Seq::<Ent<K, V>>::empty() && bh(n) == 0 && valid(n)
    &&& n is Some ==> io(n) == io(n->0.left) + seq![n->0.entry] + io(n->0.right)
            && bh(n) == bh(n->0.left) + (if n->0.color is Black { 1nat } else { 0nat })
            && valid(n) == (weak(n) && (n->0.color is Red ==> !red(n->0.left) && !red(n->0.right)))
}
/// unfolds a node, its children and grandchildren
pub proof fn lemma_deep<K, V>(n: Ptr<K, V>)
    ensures
        open_post(n),
        n is Some ==> open_post(n->0.left) && open_post(n->0.right),
        n is Some && n->0.left is Some ==> open_post(n->0.left->0.left) && open_post(n->0.left->0.right),
        n is Some && n->0.right is Some ==> open_post(n->0.right->0.left) && open_post(n->0.right->0.right),
{
    lemma_openall(n);
    if n is Some {
        lemma_openall(dn(n).left);
        lemma_openall(dn(n).right);
        if dn(n).left is Some { lemma_openall(dn(dn(n).left).left); lemma_openall(dn(dn(n).left).right); }
        if dn(n).right is Some { lemma_openall(dn(dn(n).right).left); lemma_openall(dn(dn(n).right).right); }
    }
}

/// what an insertion does to a subtree
pub open spec fn ins_post<K, V>(o: Ptr<K, V>, n: Ptr<K, V>, r: bool) -> bool {
    &&& weak(n) && bh(n) == bh(o)
    &&& !red(o) ==> valid(n)
    &&& !r ==> valid(n) && red(n) == red(o)
}
pub proof fn lemma_ins_left<K: Ord, V>(o: Node<K, V>, c: Ptr<K, V>, k: &K, e: Ent<K, V>, b: bool)
    requires lawful_ord::<K>(), sorted(io(pk(o))), valid(pk(o)), kc(k, o.entry) is Less, put(io(o.left), io(c), k, e, b), ins_post(o.left, c, b),
    ensures ({
        let m = Node { left: c, ..o };
        &&& put(io(pk(o)), io(pk(m)), k, e, b)
        &&& !b ==> ins_post(pk(o), pk(m), b)
        &&& b ==> forall|n: Node<K, V>| #[trigger] balance_post(m, n) ==> ins_post(pk(o), pk(n), b)
    }),
{
    let m = Node { left: c, ..o };
    lemma_ord_self::<K>();
    lemma_open(pk(o));
    lemma_open(pk(m));
    lemma_put_left(io(o.left), io(c), o.entry, io(o.right), k, e, b);
    lemma_open(o.left);
    lemma_open(c);
    assert forall|n: Node<K, V>| b && #[trigger] balance_post(m, n) implies ins_post(pk(o), pk(n), b) by { lemma_open(pk(n)); }
}
pub proof fn lemma_ins_right<K: Ord, V>(o: Node<K, V>, c: Ptr<K, V>, k: &K, e: Ent<K, V>, b: bool)
    requires lawful_ord::<K>(), sorted(io(pk(o))), valid(pk(o)), kc(k, o.entry) is Greater, put(io(o.right), io(c), k, e, b), ins_post(o.right, c, b),
    ensures ({
        let m = Node { right: c, ..o };
        &&& put(io(pk(o)), io(pk(m)), k, e, b)
        &&& !b ==> ins_post(pk(o), pk(m), b)
        &&& b ==> forall|n: Node<K, V>| #[trigger] balance_post(m, n) ==> ins_post(pk(o), pk(n), b)
    }),
{
    let m = Node { right: c, ..o };
    lemma_ord_self::<K>();
    lemma_open(pk(o));
    lemma_open(pk(m));
    lemma_put_right(io(o.left), o.entry, io(o.right), io(c), k, e, b);
    lemma_open(o.right);
    lemma_open(c);
    assert forall|n: Node<K, V>| b && #[trigger] balance_post(m, n) implies ins_post(pk(o), pk(n), b) by { lemma_open(pk(n)); }
}

pub open spec fn ins_done<K: Ord, V>(o: Node<K, V>, m: Node<K, V>, k: &K, e: Ent<K, V>, b: bool) -> bool {
    &&& put(io(pk(o)), io(pk(m)), k, e, b)
    &&& !b ==> ins_post(pk(o), pk(m), b)
    &&& b ==> forall|n: Node<K, V>| #[trigger] balance_post(m, n) ==> ins_post(pk(o), pk(n), b)
}
/// what is left to do after the insertion into a child
pub proof fn lemma_ins<K: Ord, V>(o: Node<K, V>, k: &K, e: Ent<K, V>)
    requires lawful_ord::<K>(), sorted(io(pk(o))), valid(pk(o)),
    ensures
        kc(k, o.entry) is Less ==> forall|c: Ptr<K, V>, b: bool| #[trigger] ins_post(o.left, c, b) && put(io(o.left), io(c), k, e, b)
            ==> ins_done(o, Node { left: c, ..o }, k, e, b),
        kc(k, o.entry) is Greater ==> forall|c: Ptr<K, V>, b: bool| #[trigger] ins_post(o.right, c, b) && put(io(o.right), io(c), k, e, b)
            ==> ins_done(o, Node { right: c, ..o }, k, e, b),
        kc(k, o.entry) is Equal ==> ins_done(o, Node { entry: e, ..o }, k, e, false),
{
    lemma_sub(pk(o));
    if kc(k, o.entry) is Less {
        assert forall|c: Ptr<K, V>, b: bool| #[trigger] ins_post(o.left, c, b) && put(io(o.left), io(c), k, e, b)
            implies ins_done(o, Node { left: c, ..o }, k, e, b) by { lemma_ins_left(o, c, k, e, b); }
    }
    if kc(k, o.entry) is Greater {
        assert forall|c: Ptr<K, V>, b: bool| #[trigger] ins_post(o.right, c, b) && put(io(o.right), io(c), k, e, b)
            implies ins_done(o, Node { right: c, ..o }, k, e, b) by { lemma_ins_right(o, c, k, e, b); }
    }
    if kc(k, o.entry) is Equal {
        lemma_ord_self::<K>();
        lemma_open(pk(o));
        lemma_open(pk(Node { entry: e, ..o }));
        lemma_put_here(io(o.left), o.entry, io(o.right), k, e);
    }
}
/// the colour of the root does not matter to the entries, and a black root repairs the tree
pub proof fn lemma_paint<K, V>(n: Ptr<K, V>)
    requires n is Some,
    ensures
        io(pk(Node { color: Color::Red, ..dn(n) })) == io(n),
        io(pk(Node { color: Color::Black, ..dn(n) })) == io(n),
        weak(n) ==> valid(pk(Node { color: Color::Black, ..dn(n) })),
        dn(n).color is Red ==> n == pk(Node { color: Color::Red, ..dn(n) }),
        dn(n).color is Black ==> n == pk(Node { color: Color::Black, ..dn(n) }),
{
    lemma_open(n);
    lemma_open(pk(Node { color: Color::Red, ..dn(n) }));
    lemma_open(pk(Node { color: Color::Black, ..dn(n) }));
}

/// what `remove_balance` does
pub open spec fn rb_post<K, V>(o: Node<K, V>, n: Node<K, V>) -> bool {
    &&& io(pk(n)) == io(pk(o))
    &&& bh(o.left) == bh(o.right) && ((weak(o.left) && valid(o.right)) || (valid(o.left) && weak(o.right)))
        ==> valid(pk(n)) && bh(pk(n)) == bh(pk(o))
}
pub open spec fn paint<K, V>(n: Ptr<K, V>, c: Color) -> Ptr<K, V> { pk(Node { color: c, ..dn(n) }) }
pub open spec fn rbl_ok<K, V>(o: Node<K, V>, n: Node<K, V>) -> bool {
    &&& io(pk(n)) == io(pk(o)) && bh(pk(n)) == bh(o.right) && weak(pk(n))
    &&& !red(o.right) ==> valid(pk(n))
}
/// the heavy child of the rotation
pub open spec fn rbl_mid<K, V>(o: Node<K, V>) -> Node<K, V> {
    let r = dn(o.right);
    Node { entry: r.entry, color: Color::Black, left: dn(r.left).right, right: paint(r.right, Color::Red) }
}
pub open spec fn rbl_end<K, V>(o: Node<K, V>, c: Node<K, V>) -> Node<K, V> {
    let rl = dn(dn(o.right).left);
    Node { entry: rl.entry, color: Color::Red, left: pk(Node { entry: o.entry, color: rl.color, left: o.left, right: rl.left }), right: pk(c) }
}
/// the three cases of `remove_balance_left`
pub proof fn lemma_rbl<K, V>(o: Node<K, V>)
    requires weak(o.left), valid(o.right), bh(o.left) + 1 == bh(o.right),
    ensures
        o.right is Some,
        red(o.right) ==> dn(o.right).left is Some && dn(o.right).right is Some && !red(dn(o.right).left) && !red(dn(o.right).right),
        red(o.left) ==> rbl_ok(o, Node { color: Color::Red, left: paint(o.left, Color::Black), ..o }),
        !red(o.left) && !red(o.right) ==> forall|n: Node<K, V>|
            #[trigger] rb_post(Node { color: Color::Black, right: paint(o.right, Color::Red), ..o }, n) ==> rbl_ok(o, n),
        !red(o.left) && red(o.right) ==> forall|c: Node<K, V>| #[trigger] rb_post(rbl_mid(o), c) ==> rbl_ok(o, rbl_end(o, c)),
{
    lemma_deep(pk(o));
    if red(o.left) {
        let n = Node { color: Color::Red, left: paint(o.left, Color::Black), ..o };
        lemma_open(pk(n));
        lemma_paint(o.left);
        lemma_open(n.left);
    } else if !red(o.right) {
        let m = Node { color: Color::Black, right: paint(o.right, Color::Red), ..o };
        lemma_open(pk(m));
        lemma_paint(o.right);
        lemma_open(m.right);
        assert forall|n: Node<K, V>| #[trigger] rb_post(m, n) implies rbl_ok(o, n) by { lemma_open(pk(n)); }
    } else {
        let r = dn(o.right);
        let m = rbl_mid(o);
        lemma_open(r.left);
        lemma_open(r.right);
        lemma_open(pk(m));
        lemma_paint(r.right);
        lemma_open(m.right);
        assert forall|c: Node<K, V>| #[trigger] rb_post(m, c) implies rbl_ok(o, rbl_end(o, c)) by {
            let n = rbl_end(o, c);
            lemma_open(pk(n));
            lemma_open(n.left);
            assert(io(pk(n)) =~= io(pk(o)));
        }
    }
}
pub open spec fn rbr_ok<K, V>(o: Node<K, V>, n: Node<K, V>) -> bool {
    &&& io(pk(n)) == io(pk(o)) && bh(pk(n)) == bh(o.left) && weak(pk(n))
    &&& !red(o.left) ==> valid(pk(n))
}
/// the heavy child of the rotation
pub open spec fn rbr_mid<K, V>(o: Node<K, V>) -> Node<K, V> {
    let r = dn(o.left);
    Node { entry: r.entry, color: Color::Black, right: dn(r.right).left, left: paint(r.left, Color::Red) }
}
pub open spec fn rbr_end<K, V>(o: Node<K, V>, c: Node<K, V>) -> Node<K, V> {
    let rl = dn(dn(o.left).right);
    Node { entry: rl.entry, color: Color::Red, right: pk(Node { entry: o.entry, color: rl.color, right: o.right, left: rl.right }), left: pk(c) }
}
/// the three cases of `remove_balance_right`
pub proof fn lemma_rbr<K, V>(o: Node<K, V>)
    requires weak(o.right), valid(o.left), bh(o.right) + 1 == bh(o.left),
    ensures
        o.left is Some,
        red(o.left) ==> dn(o.left).right is Some && dn(o.left).left is Some && !red(dn(o.left).right) && !red(dn(o.left).left),
        red(o.right) ==> rbr_ok(o, Node { color: Color::Red, right: paint(o.right, Color::Black), ..o }),
        !red(o.right) && !red(o.left) ==> forall|n: Node<K, V>|
            #[trigger] rb_post(Node { color: Color::Black, left: paint(o.left, Color::Red), ..o }, n) ==> rbr_ok(o, n),
        !red(o.right) && red(o.left) ==> forall|c: Node<K, V>| #[trigger] rb_post(rbr_mid(o), c) ==> rbr_ok(o, rbr_end(o, c)),
{
    lemma_deep(pk(o));
    if red(o.right) {
        let n = Node { color: Color::Red, right: paint(o.right, Color::Black), ..o };
        lemma_open(pk(n));
        lemma_paint(o.right);
        lemma_open(n.right);
    } else if !red(o.left) {
        let m = Node { color: Color::Black, left: paint(o.left, Color::Red), ..o };
        lemma_open(pk(m));
        lemma_paint(o.left);
        lemma_open(m.left);
        assert forall|n: Node<K, V>| #[trigger] rb_post(m, n) implies rbr_ok(o, n) by { lemma_open(pk(n)); }
    } else {
        let r = dn(o.left);
        let m = rbr_mid(o);
        lemma_open(r.right);
        lemma_open(r.left);
        lemma_open(pk(m));
        lemma_paint(r.left);
        lemma_open(m.left);
        assert forall|c: Node<K, V>| #[trigger] rb_post(m, c) implies rbr_ok(o, rbr_end(o, c)) by {
            let n = rbr_end(o, c);
            lemma_open(pk(n));
            lemma_open(n.right);
            assert(io(pk(n)) =~= io(pk(o)));
        }
    }
}

/// what a removal does to a subtree: its black height drops by one when its root was black
pub open spec fn del_post<K, V>(o: Ptr<K, V>, n: Ptr<K, V>) -> bool {
    &&& bh(n) + (if o is Some && !red(o) { 1nat } else { 0nat }) == bh(o)
    &&& weak(n)
    &&& o is None || red(o) ==> valid(n)
}

pub open spec fn del_done<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: Ptr<K, V>, n: Ptr<K, V>, k: &Q, b: bool) -> bool {
    del(io(o), io(n), k, b) && del_post(o, n)
}
/// what is left to do after the removal from the left child
pub proof fn lemma_dl<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: Node<K, V>, k: &Q)
    requires ord_ok::<K, Q>(), sorted(io(pk(o))), valid(pk(o)), kc(k, o.entry) is Less,
    ensures
        sorted(io(o.left)), valid(o.left),
        o.left is Some && !red(o.left) ==> forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.left, c, k, b) ==> {
            let m = Node { left: c, color: Color::Red, ..o };
            weak(c) && valid(o.right) && bh(c) + 1 == bh(o.right) && forall|n: Node<K, V>| #[trigger] rbl_ok(m, n) ==> del_done(pk(o), pk(n), k, b)
        },
        !(o.left is Some && !red(o.left)) ==> forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.left, c, k, b)
            ==> del_done(pk(o), pk(Node { left: c, color: Color::Red, ..o }), k, b),
{
    lemma_open(pk(o));
    lemma_sub(pk(o));
    lemma_open(o.left);
    lemma_open(o.right);
    assert forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.left, c, k, b) implies
        del(io(pk(o)), io(pk(Node { left: c, color: Color::Red, ..o })), k, b) by {
        lemma_open(pk(Node { left: c, color: Color::Red, ..o }));
        lemma_del_left(io(o.left), io(c), o.entry, io(o.right), k, b);
    }
    if o.left is Some && !red(o.left) {
        assert forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.left, c, k, b) implies {
            let m = Node { left: c, color: Color::Red, ..o };
            weak(c) && valid(o.right) && bh(c) + 1 == bh(o.right) && forall|n: Node<K, V>| #[trigger] rbl_ok(m, n) ==> del_done(pk(o), pk(n), k, b)
        } by {}
    } else {
        assert forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.left, c, k, b)
            implies del_done(pk(o), pk(Node { left: c, color: Color::Red, ..o }), k, b) by {
            lemma_open(c);
            lemma_open(pk(Node { left: c, color: Color::Red, ..o }));
        }
    }
}
pub proof fn lemma_dr<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: Node<K, V>, k: &Q)
    requires ord_ok::<K, Q>(), sorted(io(pk(o))), valid(pk(o)), kc(k, o.entry) is Greater,
    ensures
        sorted(io(o.right)), valid(o.right),
        o.right is Some && !red(o.right) ==> forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.right, c, k, b) ==> {
            let m = Node { right: c, color: Color::Red, ..o };
            weak(c) && valid(o.left) && bh(c) + 1 == bh(o.left) && forall|n: Node<K, V>| #[trigger] rbr_ok(m, n) ==> del_done(pk(o), pk(n), k, b)
        },
        !(o.right is Some && !red(o.right)) ==> forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.right, c, k, b)
            ==> del_done(pk(o), pk(Node { right: c, color: Color::Red, ..o }), k, b),
{
    lemma_open(pk(o));
    lemma_sub(pk(o));
    lemma_open(o.left);
    lemma_open(o.right);
    assert forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.right, c, k, b) implies
        del(io(pk(o)), io(pk(Node { right: c, color: Color::Red, ..o })), k, b) by {
        lemma_open(pk(Node { right: c, color: Color::Red, ..o }));
        lemma_del_right(io(o.left), o.entry, io(o.right), io(c), k, b);
    }
    if o.right is Some && !red(o.right) {
        assert forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.right, c, k, b) implies {
            let m = Node { right: c, color: Color::Red, ..o };
            weak(c) && valid(o.left) && bh(c) + 1 == bh(o.left) && forall|n: Node<K, V>| #[trigger] rbr_ok(m, n) ==> del_done(pk(o), pk(n), k, b)
        } by {}
    } else {
        assert forall|c: Ptr<K, V>, b: bool| #[trigger] del_done(o.right, c, k, b)
            implies del_done(pk(o), pk(Node { right: c, color: Color::Red, ..o }), k, b) by {
            lemma_open(c);
            lemma_open(pk(Node { right: c, color: Color::Red, ..o }));
        }
    }
}
/// what `remove_fuse` makes of two subtrees
pub open spec fn fz<K, V>(l: Ptr<K, V>, r: Ptr<K, V>, f: Ptr<K, V>) -> bool {
    &&& f is Some == (l is Some || r is Some)
    &&& io(f) == io(l) + io(r) && bh(f) == bh(l) && weak(f)
    &&& !red(l) && !red(r) ==> valid(f)
}
pub open spec fn fz_fork<K, V>(l: Node<K, V>, f: Node<K, V>, r: Node<K, V>) -> Node<K, V> {
    Node { entry: f.entry, color: Color::Red, left: pk(Node { right: f.left, ..l }), right: pk(Node { left: f.right, ..r }) }
}
pub open spec fn fz_line<K, V>(l: Node<K, V>, f: Ptr<K, V>, r: Node<K, V>) -> Node<K, V> {
    Node { right: pk(Node { left: f, ..r }), color: Color::Red, ..l }
}
/// the cases of `remove_fuse`
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn lemma_fz<K, V>(left: Ptr<K, V>, right: Ptr<K, V>)
    requires valid(left), valid(right), bh(left) == bh(right),
    ensures
        left is None ==> fz(left, right, right),
        right is None ==> fz(left, right, left),
        left is Some && right is Some && !red(left) && red(right) ==> valid(dn(right).left) && bh(left) == bh(dn(right).left)
            && forall|f: Ptr<K, V>| #[trigger] fz(left, dn(right).left, f) ==> fz(left, right, pk(Node { left: f, ..dn(right) })),
        left is Some && right is Some && red(left) && !red(right) ==> valid(dn(left).right) && bh(dn(left).right) == bh(right)
            && forall|f: Ptr<K, V>| #[trigger] fz(dn(left).right, right, f) ==> fz(left, right, pk(Node { right: f, ..dn(left) })),
        left is Some && right is Some && red(left) == red(right) ==> valid(dn(left).right) && valid(dn(right).left) && bh(dn(left).right) == bh(dn(right).left)
            && forall|f: Ptr<K, V>| #[trigger] fz(dn(left).right, dn(right).left, f) ==> {
                &&& red(f) ==> fz(left, right, pk(fz_fork(dn(left), dn(f), dn(right))))
                &&& !red(f) && red(left) ==> fz(left, right, pk(fz_line(dn(left), f, dn(right))))
                &&& !red(f) && !red(left) ==> {
                    let m = fz_line(dn(left), f, dn(right));
                    weak(m.left) && valid(m.right) && bh(m.left) + 1 == bh(m.right)
                        && forall|n: Node<K, V>| #[trigger] rbl_ok(m, n) ==> fz(left, right, pk(n))
                }
            },
{
    lemma_open(left);
    lemma_open(right);
    if left is None { assert(io(left) + io(right) =~= io(right)); }
    if right is None { assert(io(left) + io(right) =~= io(left)); }
    if left is Some && right is Some {
        let l = dn(left);
        let r = dn(right);
        lemma_open(l.left); lemma_open(l.right); lemma_open(r.left); lemma_open(r.right);
        if !red(left) && red(right) {
            assert forall|f: Ptr<K, V>| #[trigger] fz(left, r.left, f) implies fz(left, right, pk(Node { left: f, ..r })) by {
                lemma_open(pk(Node { left: f, ..r }));
                assert(io(pk(Node { left: f, ..r })) =~= io(left) + io(right));
            }
        }
        if red(left) && !red(right) {
            assert forall|f: Ptr<K, V>| #[trigger] fz(l.right, right, f) implies fz(left, right, pk(Node { right: f, ..l })) by {
                lemma_open(pk(Node { right: f, ..l }));
                assert(io(pk(Node { right: f, ..l })) =~= io(left) + io(right));
            }
        }
        if red(left) == red(right) {
            assert forall|f: Ptr<K, V>| #[trigger] fz(l.right, r.left, f) implies {
                &&& red(f) ==> fz(left, right, pk(fz_fork(l, dn(f), r)))
                &&& !red(f) && red(left) ==> fz(left, right, pk(fz_line(l, f, r)))
                &&& !red(f) && !red(left) ==> {
                    let m = fz_line(l, f, r);
                    weak(m.left) && valid(m.right) && bh(m.left) + 1 == bh(m.right)
                        && forall|n: Node<K, V>| #[trigger] rbl_ok(m, n) ==> fz(left, right, pk(n))
                }
            } by {
                lemma_open(f);
                if red(f) {
                    let n = fz_fork(l, dn(f), r);
                    lemma_open(pk(n));
                    lemma_open(n.left);
                    lemma_open(n.right);
                    let x = io(l.left) + seq![l.entry];
                    let y = seq![r.entry] + io(r.right);
                    assert(io(pk(n)) =~= x + io(f) + y);
                    assert(io(left) + io(right) =~= x + (io(l.right) + io(r.left)) + y);
                } else {
                    let m = fz_line(l, f, r);
                    lemma_open(pk(m));
                    lemma_open(m.right);
                    let x = io(l.left) + seq![l.entry];
                    let y = seq![r.entry] + io(r.right);
                    assert(io(pk(m)) =~= x + io(f) + y);
                    assert(io(left) + io(right) =~= x + (io(l.right) + io(r.left)) + y);
                }
            }
        }
    }
}
/// the removal of the root of a subtree
pub proof fn lemma_dh<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: Node<K, V>, k: &Q)
    requires ord_ok::<K, Q>(), sorted(io(pk(o))), valid(pk(o)), kc(k, o.entry) is Equal,
    ensures
        valid(o.left) && valid(o.right) && bh(o.left) == bh(o.right),
        forall|f: Ptr<K, V>| #[trigger] fz(o.left, o.right, f) ==> del_done(pk(o), f, k, true),
{
    lemma_open(pk(o));
    lemma_sub(pk(o));
    lemma_del_here(io(o.left), o.entry, io(o.right), k);
}
pub proof fn lemma_dn<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(k: &Q)
    ensures del_done(None::<Rc<Node<K, V>>>, None, k, false),
{
    lemma_open(None::<Rc<Node<K, V>>>);
    assert(gap(Seq::<Ent<K, V>>::empty(), k, 0));
}

/// what `get_mut` does to a node when `e` is written
pub open spec fn gm_post<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: Node<K, V>, n: Node<K, V>, q: &Q, e: Entry<K, V>) -> bool {
    &&& put(io(pk(o)), io(pk(n)), q, Rc::new(e), false)
    &&& bh(pk(n)) == bh(pk(o)) && n.color == o.color && valid(pk(n)) == valid(pk(o))
}
pub open spec fn gm_left<K, V>(o: Node<K, V>, n: Node<K, V>, c: Node<K, V>) -> bool {
    n.entry == o.entry && n.color == o.color && n.right == o.right && n.left == pk(c) && o.left is Some
}
pub open spec fn gm_right<K, V>(o: Node<K, V>, n: Node<K, V>, c: Node<K, V>) -> bool {
    n.entry == o.entry && n.color == o.color && n.left == o.left && n.right == pk(c) && o.right is Some
}
pub proof fn lemma_gm<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: Node<K, V>, q: &Q)
    requires ord_ok::<K, Q>(), sorted(io(pk(o))),
    ensures
        kc(q, o.entry) is Equal ==> forall|n: Node<K, V>, e: Entry<K, V>|
            n.left == o.left && n.right == o.right && n.color == o.color && *n.entry == e ==> #[trigger] gm_post(o, n, q, e),
        kc(q, o.entry) is Less ==> forall|n: Node<K, V>, c: Node<K, V>, e: Entry<K, V>|
            #![trigger gm_post(dn(o.left), c, q, e), gm_post(o, n, q, e)]
            gm_left(o, n, c) && gm_post(dn(o.left), c, q, e) ==> gm_post(o, n, q, e),
        kc(q, o.entry) is Greater ==> forall|n: Node<K, V>, c: Node<K, V>, e: Entry<K, V>|
            #![trigger gm_post(dn(o.right), c, q, e), gm_post(o, n, q, e)]
            gm_right(o, n, c) && gm_post(dn(o.right), c, q, e) ==> gm_post(o, n, q, e),
{
    lemma_open(pk(o));
    lemma_sub(pk(o));
    if kc(q, o.entry) is Equal {
        assert forall|n: Node<K, V>, e: Entry<K, V>|
            n.left == o.left && n.right == o.right && n.color == o.color && *n.entry == e implies #[trigger] gm_post(o, n, q, e) by {
            lemma_open(pk(n));
            lemma_put_here(io(o.left), o.entry, io(o.right), q, n.entry);
        }
    }
    if kc(q, o.entry) is Less {
        assert forall|n: Node<K, V>, c: Node<K, V>, e: Entry<K, V>|
            #![trigger gm_post(dn(o.left), c, q, e), gm_post(o, n, q, e)]
            gm_left(o, n, c) && gm_post(dn(o.left), c, q, e) implies gm_post(o, n, q, e) by {
            lemma_open(pk(n));
            lemma_put_left(io(o.left), io(pk(c)), o.entry, io(o.right), q, Rc::new(e), false);
        }
    }
    if kc(q, o.entry) is Greater {
        assert forall|n: Node<K, V>, c: Node<K, V>, e: Entry<K, V>|
            #![trigger gm_post(dn(o.right), c, q, e), gm_post(o, n, q, e)]
            gm_right(o, n, c) && gm_post(dn(o.right), c, q, e) implies gm_post(o, n, q, e) by {
            lemma_open(pk(n));
            lemma_put_right(io(o.left), o.entry, io(o.right), io(pk(c)), q, Rc::new(e), false);
        }
    }
}

// ---- the map
impl<K: Ord, V> RedBlackTreeMap<K, V> {
    /// its entries in key order
    pub open spec fn ents(&self) -> Seq<Ent<K, V>> { io(self.root) }
    pub open spec fn wf(&self) -> bool {
        &&& lawful_ord::<K>()
        &&& valid(self.root) && !red(self.root) && sorted(self.ents())
        &&& self.size == self.ents().len() && self.size <= vx_max_len()
    }
}


pub open spec fn wr_post<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: RedBlackTreeMap<K, V>, n: RedBlackTreeMap<K, V>, q: &Q, v: V) -> bool {
    n.wf() && put(o.ents(), n.ents(), q, en(lookup(o.ents(), q)->0.key, v), false)
}
pub proof fn lemma_write<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(o: RedBlackTreeMap<K, V>, q: &Q)
    requires o.wf(), ord_ok::<K, Q>(), o.root is Some,
    ensures forall|n: RedBlackTreeMap<K, V>, c: Node<K, V>, e: Entry<K, V>|
        #![trigger gm_post(dn(o.root), c, q, e), put(o.ents(), n.ents(), q, Rc::new(e), false)]
        gm_post(dn(o.root), c, q, e) && n.root == pk(c) && n.size == o.size && lookup(o.ents(), q) is Some && e.key == lookup(o.ents(), q)->0.key
        ==> n.wf() && put(o.ents(), n.ents(), q, Rc::new(e), false),
{
    assert forall|n: RedBlackTreeMap<K, V>, c: Node<K, V>, e: Entry<K, V>|
        #![trigger gm_post(dn(o.root), c, q, e), put(o.ents(), n.ents(), q, Rc::new(e), false)]
        gm_post(dn(o.root), c, q, e) && n.root == pk(c) && n.size == o.size && lookup(o.ents(), q) is Some && e.key == lookup(o.ents(), q)->0.key
        implies n.wf() && put(o.ents(), n.ents(), q, Rc::new(e), false) by {
        let s = o.ents();
        let t = n.ents();
        let i = choose|i: int| #[trigger] hit(s, q, i) && t == s.update(i, Rc::new(e));
        lemma_at(s, q, i);
        assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < b < t.len() implies t[a].key.cmp_spec(&t[b].key) is Less by {
            assert(t[a].key == s[a].key && t[b].key == s[b].key);
            assert(s[a].key.cmp_spec(&s[b].key) is Less);
        }
    }
}

// ---- iteration
/// an entry is not before the start of the range
pub open spec fn okf<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(sb: Bound<&Q>, e: Ent<K, V>) -> bool {
    match sb { Included(v) => !(kc(v, e) is Greater), Excluded(v) => kc(v, e) is Less, Unbounded => true }
}
/// an entry is not after the end of the range
pub open spec fn okb<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(eb: Bound<&Q>, e: Ent<K, V>) -> bool {
    match eb { Included(v) => !(kc(v, e) is Less), Excluded(v) => kc(v, e) is Greater, Unbounded => true }
}
pub open spec fn fcut<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, sb: Bound<&Q>, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> !#[trigger] okf(sb, s[j])
    &&& forall|j: int| i <= j < s.len() ==> #[trigger] okf(sb, s[j])
}
pub open spec fn bcut<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, eb: Bound<&Q>, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> #[trigger] okb(eb, s[j])
    &&& forall|j: int| i <= j < s.len() ==> !#[trigger] okb(eb, s[j])
}
/// number of entries before the range
pub open spec fn lo<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, sb: Bound<&Q>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if okf(sb, s.last()) { lo(s.drop_last(), sb) } else { s.len() as int }
}
/// number of entries up to the end of the range
pub open spec fn hi<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, eb: Bound<&Q>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if okb(eb, s.last()) { s.len() as int } else { hi(s.drop_last(), eb) }
}
pub proof fn lemma_ok_mono<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(b: Bound<&Q>, x: Ent<K, V>, y: Ent<K, V>)
    requires ord_ok::<K, Q>(), x.key.cmp_spec(&y.key) is Less,
    ensures okf(b, x) ==> okf(b, y), okb(b, y) ==> okb(b, x),
{
    match b {
        Included(v) => {
            if okf(b, x) { lemma_trans(v, &x.key, &y.key); }
            if okb(b, y) { lemma_trans2(&x.key, &y.key, v); }
        }
        Excluded(v) => {
            if okf(b, x) { lemma_trans(v, &x.key, &y.key); }
            if okb(b, y) { lemma_trans2(&x.key, &y.key, v); }
        }
        Unbounded => {}
    }
}
pub proof fn lemma_lo<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, sb: Bound<&Q>)
    requires ord_ok::<K, Q>(), sorted(s),
    ensures fcut(s, sb, lo(s, sb)), forall|i: int| #[trigger] fcut(s, sb, i) ==> i == lo(s, sb),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(sorted(t)) by { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].key.cmp_spec(&t[j].key) is Less by { assert(s[i] == t[i] && s[j] == t[j]); } }
        if okf(sb, s.last()) {
            lemma_lo(t, sb);
            assert forall|j: int| lo(t, sb) <= j < s.len() implies #[trigger] okf(sb, s[j]) by { if j < t.len() { assert(t[j] == s[j]); } }
            assert forall|j: int| 0 <= j < lo(t, sb) implies !#[trigger] okf(sb, s[j]) by { assert(t[j] == s[j]); }
        } else {
            assert forall|j: int| 0 <= j < s.len() implies !#[trigger] okf(sb, s[j]) by {
                if j < t.len() { lemma_ok_mono(sb, s[j], s.last()); }
            }
        }
        assert forall|i: int| #[trigger] fcut(s, sb, i) implies i == lo(s, sb) by {
            let m = lo(s, sb);
            if i < m { assert(okf(sb, s[i])); } else if m < i { assert(!okf(sb, s[m])); }
        }
    }
}
pub proof fn lemma_hi<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, eb: Bound<&Q>)
    requires ord_ok::<K, Q>(), sorted(s),
    ensures bcut(s, eb, hi(s, eb)), forall|i: int| #[trigger] bcut(s, eb, i) ==> i == hi(s, eb),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(sorted(t)) by { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].key.cmp_spec(&t[j].key) is Less by { assert(s[i] == t[i] && s[j] == t[j]); } }
        if okb(eb, s.last()) {
            assert forall|j: int| 0 <= j < s.len() implies #[trigger] okb(eb, s[j]) by {
                if j < t.len() { lemma_ok_mono(eb, s[j], s.last()); }
            }
        } else {
            lemma_hi(t, eb);
            assert forall|j: int| hi(t, eb) <= j < s.len() implies !#[trigger] okb(eb, s[j]) by { if j < t.len() { assert(t[j] == s[j]); } }
            assert forall|j: int| 0 <= j < hi(t, eb) implies #[trigger] okb(eb, s[j]) by { assert(t[j] == s[j]); }
        }
        assert forall|i: int| #[trigger] bcut(s, eb, i) implies i == hi(s, eb) by {
            let m = hi(s, eb);
            if i < m { assert(!okb(eb, s[i])); } else if m < i { assert(okb(eb, s[m])); }
        }
    }
}
pub proof fn lemma_fcut_split<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, b: Bound<&Q>)
    requires ord_ok::<K, Q>(), sorted(l + seq![e] + r),
    ensures
        okf(b, e) ==> forall|i: int| #[trigger] fcut(l, b, i) ==> fcut(l + seq![e] + r, b, i),
        !okf(b, e) ==> forall|i: int| #[trigger] fcut(r, b, i) ==> fcut(l + seq![e] + r, b, l.len() + 1 + i),
        okb(b, e) ==> forall|i: int| #[trigger] bcut(r, b, i) ==> bcut(l + seq![e] + r, b, l.len() + 1 + i),
        !okb(b, e) ==> forall|i: int| #[trigger] bcut(l, b, i) ==> bcut(l + seq![e] + r, b, i),
{
    let s = l + seq![e] + r;
    let n = l.len() as int;
    assert(s[n] == e);
    assert forall|j: int| n < j < s.len() implies (#[trigger] s[j]) == r[j - n - 1] && (okf(b, e) ==> okf(b, s[j])) && (!okb(b, e) ==> !okb(b, s[j])) by {
        lemma_ok_mono(b, s[n], s[j]);
    }
    assert forall|j: int| 0 <= j < n implies (#[trigger] s[j]) == l[j] && (okb(b, e) ==> okb(b, s[j])) && (!okf(b, e) ==> !okf(b, s[j])) by {
        lemma_ok_mono(b, s[j], s[n]);
    }
}

pub proof fn lemma_cut<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(l: Seq<Ent<K, V>>, e: Ent<K, V>, r: Seq<Ent<K, V>>, b: Bound<&Q>)
    requires ord_ok::<K, Q>(), sorted(l), sorted(r), sorted(l + seq![e] + r),
    ensures
        0 <= lo(l, b) <= l.len(), 0 <= lo(r, b) <= r.len(), 0 <= hi(l, b) <= l.len(), 0 <= hi(r, b) <= r.len(),
        okf(b, e) ==> lo(l + seq![e] + r, b) == lo(l, b) && (l + seq![e] + r).skip(lo(l, b)) == l.skip(lo(l, b)) + seq![e] + r,
        !okf(b, e) ==> lo(l + seq![e] + r, b) == l.len() + 1 + lo(r, b) && (l + seq![e] + r).skip(l.len() + 1 + lo(r, b)) == r.skip(lo(r, b)),
        okb(b, e) ==> hi(l + seq![e] + r, b) == l.len() + 1 + hi(r, b) && (l + seq![e] + r).take(l.len() + 1 + hi(r, b)) == l + seq![e] + r.take(hi(r, b)),
        !okb(b, e) ==> hi(l + seq![e] + r, b) == hi(l, b) && (l + seq![e] + r).take(hi(l, b)) == l.take(hi(l, b)),
{
    let s = l + seq![e] + r;
    lemma_fcut_split(l, e, r, b);
    lemma_lo(s, b);
    lemma_lo(l, b);
    lemma_lo(r, b);
    lemma_hi(s, b);
    lemma_hi(l, b);
    lemma_hi(r, b);
    if okf(b, e) { assert(s.skip(lo(l, b)) =~= l.skip(lo(l, b)) + seq![e] + r); } else { assert(s.skip(l.len() + 1 + lo(r, b)) =~= r.skip(lo(r, b))); }
    if okb(b, e) { assert(s.take(l.len() + 1 + hi(r, b)) =~= l + seq![e] + r.take(hi(r, b))); } else { assert(s.take(hi(l, b)) =~= l.take(hi(l, b))); }
}
pub proof fn lemma_self_cmp<Q: Ord>()
    requires lawful_ord::<Q>(),
    ensures
        forall|a: &Q| #[trigger] a.cmp_spec(a) is Equal,
        forall|a: &Q, b: &Q| #[trigger] a.cmp_spec(b) is Less ==> b.cmp_spec(a) is Greater,
{
    reveal(total_order);
    assert forall|a: &Q| #[trigger] a.cmp_spec(a) is Equal by { assert(a.cmp_spec(a) == rev_ord(a.cmp_spec(a))); }
}
pub proof fn lemma_rev<Q: Ord + ?Sized>(a: &Q, b: &Q)
    requires lawful_ord::<Q>(),
    ensures a.cmp_spec(b) == rev_ord(b.cmp_spec(a)),
{
    reveal(total_order);
}
/// the comparison the code makes, with the key first
pub open spec fn rev_bound<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(b: Bound<&Q>, e: Ent<K, V>) -> bool {
    match b {
        Included(v) | Excluded(v) => v.cmp_spec(e.key.bor()) == rev_ord(e.key.bor().cmp_spec(v)),
        Unbounded => true,
    }
}
pub proof fn lemma_rev_bound<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(b: Bound<&Q>, e: Ent<K, V>)
    requires ord_ok::<K, Q>(),
    ensures rev_bound(b, e),
{
    match b {
        Included(v) => lemma_rev(v, e.key.bor()),
        Excluded(v) => lemma_rev(v, e.key.bor()),
        Unbounded => {}
    }
}

/// what is to come, in key order: the top of the stack comes first
#[verifier::opaque]
pub open spec fn remf<'a, K, V>(s: Seq<&'a Node<K, V>>) -> Seq<Ent<K, V>>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { seq![s.last().entry] + io(s.last().right) + remf(s.drop_last()) }
}
/// what is to come when moving backwards, in key order: the top of the stack comes last
#[verifier::opaque]
pub open spec fn remb<'a, K, V>(s: Seq<&'a Node<K, V>>) -> Seq<Ent<K, V>>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { remb(s.drop_last()) + io(s.last().left) + seq![s.last().entry] }
}
pub proof fn lemma_rem<'a, K, V>(s: Seq<&'a Node<K, V>>)
    ensures
        s.len() == 0 ==> remf(s) == Seq::<Ent<K, V>>::empty() && remb(s) == Seq::<Ent<K, V>>::empty(),
        s.len() > 0 ==> remf(s) == seq![s.last().entry] + io(s.last().right) + remf(s.drop_last())
            && remb(s) == remb(s.drop_last()) + io(s.last().left) + seq![s.last().entry],
        forall|n: &'a Node<K, V>| #![trigger s.push(n)] remf(s.push(n)) == seq![n.entry] + io(n.right) + remf(s)
            && remb(s.push(n)) == remb(s) + io(n.left) + seq![n.entry],
{
    reveal(remf);
    reveal(remb);
    assert forall|n: &'a Node<K, V>| #![trigger s.push(n)] remf(s.push(n)) == seq![n.entry] + io(n.right) + remf(s)
            && remb(s.push(n)) == remb(s) + io(n.left) + seq![n.entry] by {
        assert(s.push(n).drop_last() =~= s);
    }
}

pub open spec fn fstart<'a, K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(st: Seq<&'a Node<K, V>>, s: Seq<Ent<K, V>>, sb: Bound<&Q>, eb: Bound<&Q>) -> bool {
    if lo(s, sb) < hi(s, eb) { st.len() > 0 && remf(st) == s.skip(lo(s, sb)) } else { st.len() == 0 }
}
pub open spec fn bstart<'a, K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(st: Seq<&'a Node<K, V>>, s: Seq<Ent<K, V>>, sb: Bound<&Q>, eb: Bound<&Q>) -> bool {
    if lo(s, sb) < hi(s, eb) { st.len() > 0 && remb(st) == s.take(hi(s, eb)) } else { st.len() == 0 }
}
pub open spec fn fstep<'a, K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(st: Seq<&'a Node<K, V>>, st2: Seq<&'a Node<K, V>>, eb: Bound<&Q>) -> bool {
    if remf(st).len() > 1 && okb(eb, remf(st)[1]) { st2.len() > 0 && remf(st2) == remf(st).skip(1) } else { st2.len() == 0 }
}
pub open spec fn bstep<'a, K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(st: Seq<&'a Node<K, V>>, st2: Seq<&'a Node<K, V>>, sb: Bound<&Q>) -> bool {
    if remb(st).len() > 1 && okf(sb, remb(st)[remb(st).len() - 2]) { st2.len() > 0 && remb(st2) == remb(st).drop_last() } else { st2.len() == 0 }
}
/// the ranges `range` accepts
pub open spec fn range_ok<Q: Ord + ?Sized>(sb: Bound<&Q>, eb: Bound<&Q>) -> bool {
    match (sb, eb) {
        (Excluded(s), Excluded(e)) => s.cmp_spec(e) is Less,
        (Included(s), Included(e)) | (Included(s), Excluded(e)) | (Excluded(s), Included(e)) => !(s.cmp_spec(e) is Greater),
        _ => true,
    }
}

impl<'a, K: Ord + Borrow<Q>, V, RB: RangeBounds<Q>, Q: Ord + ?Sized> RangeIterPtr<'a, K, V, RB, Q> {
    pub open spec fn lo(&self) -> int { lo(self.map.ents(), self.range.sb()) }
    pub open spec fn hi(&self) -> int { hi(self.map.ents(), self.range.eb()) }
    pub open spec fn fpos(&self) -> int {
        match self.stack_forward { None => self.lo(), Some(st) => self.map.ents().len() - remf(st.stack@).len() }
    }
    pub open spec fn bpos(&self) -> int {
        match self.stack_backward { None => self.hi(), Some(st) => remb(st.stack@).len() as int }
    }
    pub open spec fn fdone(&self) -> bool { self.stack_forward is Some && self.stack_forward->0.stack@.len() == 0 }
    pub open spec fn bdone(&self) -> bool { self.stack_backward is Some && self.stack_backward->0.stack@.len() == 0 }
    pub open spec fn fwf(&self) -> bool {
        self.stack_forward matches Some(st) ==> !st.backwards && (st.stack@.len() > 0 ==>
            self.lo() <= self.fpos() < self.hi() && remf(st.stack@) == self.map.ents().skip(self.fpos()))
    }
    pub open spec fn bwf(&self) -> bool {
        self.stack_backward matches Some(st) ==> st.backwards && (st.stack@.len() > 0 ==>
            self.lo() < self.bpos() <= self.hi() && remb(st.stack@) == self.map.ents().take(self.bpos()))
    }
    pub open spec fn remaining(&self) -> Seq<Ent<K, V>> {
        if self.fdone() || self.bdone() || self.fpos() > self.bpos() { seq![] } else { self.map.ents().subrange(self.fpos(), self.bpos()) }
    }
}
impl<'a, K: Ord + Borrow<Q>, V, RB: RangeBounds<Q>, Q: Ord + ?Sized> RangeIterPtr<'a, K, V, RB, Q> {
    /// where the two ends stand
    pub proof fn lemma_ends(&self)
        requires self.iwf(),
        ensures
            0 <= self.lo() <= self.map.ents().len(), 0 <= self.hi() <= self.map.ents().len(),
            forall|j: int| 0 <= j < self.map.ents().len() ==> okb(self.range.eb(), #[trigger] self.map.ents()[j]) == (j < self.hi()),
            forall|j: int| 0 <= j < self.map.ents().len() ==> okf(self.range.sb(), #[trigger] self.map.ents()[j]) == (j >= self.lo()),
            self.stack_forward matches Some(st) ==> (st.stack@.len() == 0 ==> remf(st.stack@) == Seq::<Ent<K, V>>::empty())
                && (st.stack@.len() > 0 ==> st.stack@.last().entry == self.map.ents()[self.fpos()]),
            self.stack_backward matches Some(st) ==> (st.stack@.len() == 0 ==> remb(st.stack@) == Seq::<Ent<K, V>>::empty())
                && (st.stack@.len() > 0 ==> st.stack@.last().entry == self.map.ents()[self.bpos() - 1]),
    {
        let s = self.map.ents();
        lemma_lo(s, self.range.sb());
        lemma_hi(s, self.range.eb());
        if self.stack_forward is Some {
            let st = self.stack_forward->0.stack@;
            lemma_rem(st);
            if st.len() > 0 { assert(remf(st)[0] == st.last().entry); }
        }
        if self.stack_backward is Some {
            let st = self.stack_backward->0.stack@;
            lemma_rem(st);
            if st.len() > 0 { assert(remb(st).last() == st.last().entry); }
        }
    }
}
/// the entries within the bounds, in key order
pub open spec fn in_range<K: Ord + Borrow<Q>, V, Q: Ord + ?Sized>(s: Seq<Ent<K, V>>, sb: Bound<&Q>, eb: Bound<&Q>) -> Seq<Ent<K, V>> {
    if lo(s, sb) > hi(s, eb) { seq![] } else { s.subrange(lo(s, sb), hi(s, eb)) }
}
pub open spec fn pairs<'a, K, V>(s: Seq<Ent<K, V>>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].key, &s[i].value)) }

== fn Node::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== fn Node::new_red
-- sig r
-- spec
ensures r == (Node { entry: Rc::new(entry), color: Color::Red, left: None, right: None }),
== fn Node::new_black
-- sig r
-- spec
ensures r == (Node { entry: Rc::new(entry), color: Color::Black, left: None, right: None }),
== fn Node::borrow
-- sig r
-- spec
ensures r == (match node { Some(n) => Some(&**n), None => None }),
== fn Node::left_color
-- sig r
-- spec
ensures r == (match self.left { Some(n) => Some(n.color), None => None }),
== fn Node::right_color
-- sig r
-- spec
ensures r == (match self.right { Some(n) => Some(n.color), None => None }),

== fn Node::get
-- sig r
-- spec
requires ord_ok::<K, Q>(), sorted(io(pk(*self))),
ensures got(io(pk(*self)), key, ent_of(r)),
decreases *self,
-- entry
proof {
    lemma_open(pk(*self));
    lemma_open(self.left);
    lemma_open(self.right);
    lemma_sub(pk(*self));
    lemma_got(io(self.left), self.entry, io(self.right), key);
    assert(gap(Seq::<Ent<K, V>>::empty(), key, 0));
    assert(got(Seq::<Ent<K, V>>::empty(), key, None));
}
== fn Node::first
-- sig r
-- spec
ensures io(pk(*self)).len() > 0, *r == *io(pk(*self))[0],
decreases *self,
-- entry
proof { lemma_open(pk(*self)); lemma_open(self.left); }
== fn Node::last
-- sig r
-- spec
ensures io(pk(*self)).len() > 0, *r == *io(pk(*self)).last(),
decreases *self,
-- entry
proof { lemma_open(pk(*self)); lemma_open(self.right); }

== fn Node::balance
-- spec
ensures balance_post(*old(self), *final(self)),
-- entry
let ghost n0 = *self;
-- exit
proof { lemma_balanced(n0); }

== fn Node::insert
-- sig r
-- spec
requires lawful_ord::<K>(), sorted(io(*old(root))), valid(*old(root)),
ensures put(io(*old(root)), io(*final(root)), &key, en(key, value), r), valid(*final(root)), !red(*final(root)),

== fn Node::insert::ins
-- sig r
-- spec
requires lawful_ord::<K>(), sorted(io(*old(node))), valid(*old(node)),
ensures
    put(io(*old(node)), io(*final(node)), &k, en(k, v), r),
    *final(node) is Some,
    is_root ==> valid(*final(node)) && !red(*final(node)),
    !is_root ==> ins_post(*old(node), *final(node), r),
decreases *old(node),
-- entry
proof {
    lemma_open(*node);
    lemma_put_empty(&k, en(k, v));
    lemma_ord_self::<K>();
    if *node is Some { lemma_sub(*node); lemma_ins(dn(*node), &k, en(k, v)); }
}
-- exit
proof {
    lemma_open(*node);
    if *node is Some { lemma_paint(*node); lemma_open(dn(*node).left); lemma_open(dn(*node).right); }
}

== fn Node::remove_fuse
-- sig r
-- spec
requires valid(left), valid(right), bh(left) == bh(right),
ensures
    r == (left is Some || right is Some),
    !r ==> *final(node) == *old(node),
    fz(left, right, if r { pk(*final(node)) } else { None }),
decreases left, right,
-- entry
proof { lemma_fz(left, right); }

== fn Node::remove_balance
-- spec
requires old(self).color is Black,
ensures rb_post(*old(self), *final(self)),
-- entry
proof {
    lemma_deep(pk(*self));
    if red(self.left) && red(self.right) {
        let n = Node { color: Color::Red, left: paint(self.left, Color::Black), right: paint(self.right, Color::Black), ..*self };
        lemma_paint(self.left);
        lemma_paint(self.right);
        lemma_open(pk(n));
        lemma_open(n.left);
        lemma_open(n.right);
    }
}

== fn Node::remove_balance_left
-- spec
requires weak(old(self).left), valid(old(self).right), bh(old(self).left) + 1 == bh(old(self).right),
ensures rbl_ok(*old(self), *final(self)),
-- entry
proof { lemma_rbl(*self); }
== fn Node::remove_balance_right
-- spec
requires weak(old(self).right), valid(old(self).left), bh(old(self).right) + 1 == bh(old(self).left),
ensures rbr_ok(*old(self), *final(self)),
-- entry
proof { lemma_rbr(*self); }

== fn Node::remove
-- sig r
-- spec
requires ord_ok::<K, Q>(), sorted(io(*old(root))), valid(*old(root)),
ensures del(io(*old(root)), io(*final(root)), key, r), valid(*final(root)), !red(*final(root)),

== fn Node::remove::del
-- sig r
-- spec
requires ord_ok::<K, Q>(), sorted(io(*old(node))), valid(*old(node)),
ensures del(io(*old(node)), io(*final(node)), k, r),
    is_root ==> valid(*final(node)) && !red(*final(node)),
    !is_root ==> del_done(*old(node), *final(node), k, r),
decreases *old(node), 1nat,
-- entry
proof {
    lemma_open(*node);
    lemma_dn::<K, V, Q>(k);
    if *node is Some && kc(k, dn(*node).entry) is Equal { lemma_dh(dn(*node), k); }
}
-- exit
proof {
    lemma_open(None::<Rc<Node<K, V>>>);
    if *node is Some { lemma_paint(*node); lemma_open(*node); }
}

== fn Node::remove::del_left
-- sig r
-- spec
requires ord_ok::<K, Q>(), sorted(io(pk(*old(node)))), valid(pk(*old(node))), kc(k, old(node).entry) is Less,
ensures del_done(pk(*old(node)), pk(*final(node)), k, r),
decreases *old(node), 0nat,
-- entry
proof { lemma_dl(*node, k); }
== fn Node::remove::del_right
-- sig r
-- spec
requires ord_ok::<K, Q>(), sorted(io(pk(*old(node)))), valid(pk(*old(node))), kc(k, old(node).entry) is Greater,
ensures del_done(pk(*old(node)), pk(*final(node)), k, r),
decreases *old(node), 0nat,
-- entry
proof { lemma_dr(*node, k); }

== skip
RedBlackTreeMapVisitor::expecting formatting only

== fn Node::get_mut
-- sig r
-- spec
requires ord_ok::<K, Q>(), sorted(io(pk(*old(self)))), lawful_clone::<K>(), lawful_clone::<V>(),
ensures match r {
    None => got(io(pk(*old(self))), key, None) && *final(self) == *old(self),
    Some(e) => got(io(pk(*old(self))), key, Some(Rc::new(*e))) && gm_post(*old(self), *final(self), key, *final(e)),
},
decreases *old(self),
-- entry
let ghost n0 = *self;
proof {
    lemma_open(pk(n0));
    lemma_open(n0.left);
    lemma_open(n0.right);
    lemma_sub(pk(n0));
    lemma_got(io(n0.left), n0.entry, io(n0.right), key);
    lemma_gm(n0, key);
    assert(gap(Seq::<Ent<K, V>>::empty(), key, 0));
    assert(got(Seq::<Ent<K, V>>::empty(), key, None));
}

== fn RedBlackTreeMapSync::new_sync
-- sig r
-- spec
requires lawful_ord::<K>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
-- entry
proof { lemma_open(None::<Rc<Node<K, V>>>); }
== fn RedBlackTreeMap::new
-- sig r
-- spec
requires lawful_ord::<K>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
== fn RedBlackTreeMap::new_with_ptr_kind
-- sig r
-- spec
requires lawful_ord::<K>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
-- entry
proof { lemma_open(None::<Rc<Node<K, V>>>); }
== fn RedBlackTreeMap::default
-- sig r
-- spec
requires lawful_ord::<K>(),
ensures r.wf(), r.ents() == Seq::<Ent<K, V>>::empty(),
== fn RedBlackTreeMap::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== fn RedBlackTreeMap::size
-- sig r
-- spec
requires self.wf(),
ensures r == self.ents().len(),
== fn RedBlackTreeMap::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.ents().len() == 0),

== fn RedBlackTreeMap::get
-- sig r
-- spec
requires self.wf(), ord_ok::<K, Q>(),
ensures match r { Some(v) => lookup(self.ents(), key) is Some && *v == lookup(self.ents(), key)->0.value, None => lookup(self.ents(), key) is None },
-- entry
proof { lemma_lookup(self.ents(), key); lemma_open(self.root); assert(gap(Seq::<Ent<K, V>>::empty(), key, 0)); }
== fn RedBlackTreeMap::get_key_value
-- sig r
-- spec
requires self.wf(), ord_ok::<K, Q>(),
ensures match r { Some(kv) => lookup(self.ents(), key) is Some && *kv.0 == lookup(self.ents(), key)->0.key && *kv.1 == lookup(self.ents(), key)->0.value,
    None => lookup(self.ents(), key) is None },
-- entry
proof { lemma_lookup(self.ents(), key); lemma_open(self.root); assert(gap(Seq::<Ent<K, V>>::empty(), key, 0)); }
== fn RedBlackTreeMap::contains_key
-- sig r
-- spec
requires self.wf(), ord_ok::<K, Q>(),
ensures r == (lookup(self.ents(), key) is Some),
-- entry
proof { lemma_lookup(self.ents(), key); lemma_open(self.root); assert(gap(Seq::<Ent<K, V>>::empty(), key, 0)); }
== fn RedBlackTreeMap::first
-- sig r
-- spec
requires self.wf(),
ensures match r { Some(kv) => self.ents().len() > 0 && *kv.0 == self.ents()[0].key && *kv.1 == self.ents()[0].value, None => self.ents().len() == 0 },
-- entry
proof { lemma_open(self.root); }
== fn RedBlackTreeMap::last
-- sig r
-- spec
requires self.wf(),
ensures match r { Some(kv) => self.ents().len() > 0 && *kv.0 == self.ents().last().key && *kv.1 == self.ents().last().value, None => self.ents().len() == 0 },
-- entry
proof { lemma_open(self.root); }

== fn RedBlackTreeMap::insert_mut
-- spec
requires old(self).wf(), old(self).ents().len() < vx_max_len(),
ensures final(self).wf(), inserted(old(self).ents(), final(self).ents(), key, value),
-- entry
proof { }
-- exit
proof {
    assert forall|b: bool| #[trigger] put(old(self).ents(), self.ents(), &key, en(key, value), b) implies sorted(self.ents()) && self.ents().len() == old(self).ents().len() + (if b { 1int } else { 0int }) by {
        lemma_put_sorted(old(self).ents(), self.ents(), &key, en(key, value), b);
    }
}
== fn RedBlackTreeMap::insert
-- sig r
-- spec
requires self.wf(), self.ents().len() < vx_max_len(),
ensures r.wf(), inserted(self.ents(), r.ents(), key, value),

== fn RedBlackTreeMap::remove_mut
-- sig r
-- spec
requires old(self).wf(), ord_ok::<K, Q>(),
ensures final(self).wf(), del(old(self).ents(), final(self).ents(), key, r),
-- exit
proof { lemma_del_sorted(old(self).ents(), self.ents(), key, vx_ret); }
== fn RedBlackTreeMap::remove
-- sig r
-- spec
requires self.wf(), ord_ok::<K, Q>(),
ensures r.wf(), exists|b: bool| #[trigger] del(self.ents(), r.ents(), key, b),
-- entry
proof { if lookup(self.ents(), key) is None { lemma_gap(self.ents(), key, 0); assert(del(self.ents(), self.ents(), key, false)); } }

== fn iter_utils::lg_floor
-- sig r
-- spec
requires size > 0,
ensures r < 64,
== fn iter_utils::conservative_height
-- sig r
-- spec
requires size <= vx_max_len(),
ensures r <= 126,

== fn IterStack::current
-- sig r
-- spec
ensures self.stack@.len() == 0 ==> r is None, self.stack@.len() > 0 ==> r == Some(&self.stack@.last().entry),

== fn IterStack::dig
-- spec
ensures final(self).backwards == old(self).backwards,
    old(self).stack@.len() == 0 ==> final(self).stack@ == old(self).stack@,
    old(self).stack@.len() > 0 ==> final(self).stack@.len() > 0,
    old(self).stack@.len() > 0 && !old(self).backwards ==> remf(final(self).stack@) =~= io(old(self).stack@.last().left) + remf(old(self).stack@),
    old(self).stack@.len() > 0 && old(self).backwards ==> remb(final(self).stack@) =~= remb(old(self).stack@) + io(old(self).stack@.last().right),
decreases (if old(self).stack@.len() == 0 { None } else { Some(*old(self).stack@.last()) }),
-- entry
proof {
    lemma_rem(self.stack@);
    if self.stack@.len() > 0 {
        lemma_open(self.stack@.last().left);
        lemma_open(self.stack@.last().right);
    }
}

== fn IterStack::dig_towards
-- spec
requires ord_ok::<K, Q>(), sorted(io(pk(*node))),
ensures final(self).backwards == old(self).backwards,
    !old(self).backwards ==> remf(final(self).stack@) =~= io(pk(*node)).skip(lo(io(pk(*node)), start_bound)) + remf(old(self).stack@)
       && (lo(io(pk(*node)), start_bound) == io(pk(*node)).len() ==> final(self).stack@ == old(self).stack@),
    old(self).backwards ==> remb(final(self).stack@) =~= remb(old(self).stack@) + io(pk(*node)).take(hi(io(pk(*node)), end_bound))
       && (hi(io(pk(*node)), end_bound) == 0 ==> final(self).stack@ == old(self).stack@),
decreases *node,
-- entry
proof {
    lemma_rem(self.stack@);
    lemma_open(pk(*node));
    lemma_open(node.left);
    lemma_open(node.right);
    lemma_sub(pk(*node));
    lemma_cut(io(node.left), node.entry, io(node.right), start_bound);
    lemma_cut(io(node.left), node.entry, io(node.right), end_bound);
    lemma_rev_bound(start_bound, node.entry);
    lemma_rev_bound(end_bound, node.entry);
}

== fn IterStack::clear_if_finished
-- spec
requires ord_ok::<K, Q>(),
ensures final(self).backwards == old(self).backwards,
    final(self).stack@ =~= (if old(self).stack@.len() > 0 && (if old(self).backwards { okf(start_bound, old(self).stack@.last().entry) } else { okb(end_bound, old(self).stack@.last().entry) })
        { old(self).stack@ } else { Seq::empty() }),
-- entry
proof { reveal(total_order); }

== fn IterStack::new
-- sig r
-- spec
requires ord_ok::<K, Q>(), map.wf(),
ensures r.backwards == backwards,
    !backwards ==> fstart(r.stack@, map.ents(), start_bound, end_bound),
    backwards ==> bstart(r.stack@, map.ents(), start_bound, end_bound),
-- entry
broadcast use ax_fits_ref;
let ghost s = map.ents();
proof {
    lemma_open(map.root);
    lemma_rem(Seq::<&'a Node<K, V>>::empty());
    lemma_lo(s, start_bound);
    lemma_hi(s, end_bound);
}
-- before stack . clear_if_finished
let ghost st0 = stack.stack@;
proof { lemma_rem(st0); }
-- exit
proof {
    if s.len() > 0 {
        if !backwards { assert(remf(st0) =~= s.skip(lo(s, start_bound))); } else { assert(remb(st0) =~= s.take(hi(s, end_bound))); }
        if st0.len() > 0 && !backwards { assert(remf(st0)[0] == st0.last().entry); }
        if st0.len() > 0 && backwards { assert(remb(st0).last() == st0.last().entry); }
    }
}

== fn IterStack::advance
-- spec
requires ord_ok::<K, Q>(),
ensures final(self).backwards == old(self).backwards,
    !old(self).backwards ==> fstep(old(self).stack@, final(self).stack@, end_bound),
    old(self).backwards ==> bstep(old(self).stack@, final(self).stack@, start_bound),
-- entry
let ghost st = self.stack@;
let ghost mut st1 = self.stack@;
proof {
    lemma_rem(st);
    if st.len() > 0 {
        lemma_open(st.last().left);
        lemma_open(st.last().right);
        lemma_rem(st.drop_last());
    }
}
-- before self . clear_if_finished
proof {
    st1 = self.stack@;
    lemma_rem(st1);
    if !self.backwards { assert(remf(st1) =~= remf(st).skip(1)); } else { assert(remb(st1) =~= remb(st).drop_last()); }
    if st1.len() > 0 && !self.backwards { assert(remf(st)[1] == remf(st1)[0]); }
    if st1.len() > 0 && self.backwards { assert(remb(st)[remb(st).len() - 2] == remb(st1).last()); }
}

== fn RangeIterPtr::new
-- sig r
-- spec
requires map.wf(), ord_ok::<K, Q>(),
ensures r.iwf(), r.rest() =~= refs(in_range(map.ents(), range.sb(), range.eb())), r.map == map, r.range == range,

== fn RangeIterPtr::init_if_needed
-- spec
requires old(self).iwf(),
ensures final(self).iwf(), final(self).remaining() =~= old(self).remaining(), final(self).map == old(self).map, final(self).range == old(self).range,
    if backwards { final(self).stack_backward is Some && final(self).stack_forward == old(self).stack_forward }
    else { final(self).stack_forward is Some && final(self).stack_backward == old(self).stack_backward },
-- entry
let ghost o = *self;
proof { o.lemma_ends(); }

== fn RangeIterPtr::is_remaining_range_empty
-- sig r
-- spec
requires self.iwf(),
ensures self.stack_forward is Some && self.stack_backward is Some ==> r == (self.remaining().len() == 0),
   self.stack_forward is None || self.stack_backward is None ==> !r,
-- entry
proof {
    self.lemma_ends();
    lemma_self_cmp::<K>();
}

== fn RangeIterPtr::current_forward
-- sig r
-- spec
requires self.iwf(), self.stack_forward is Some,
ensures self.remaining().len() == 0 ==> r is None, self.remaining().len() > 0 ==> r == Some(&self.remaining()[0]),
-- entry
proof { self.lemma_ends(); }
== fn RangeIterPtr::current_backward
-- sig r
-- spec
requires self.iwf(), self.stack_backward is Some,
ensures self.remaining().len() == 0 ==> r is None, self.remaining().len() > 0 ==> r == Some(&self.remaining().last()),
-- entry
proof { self.lemma_ends(); }

== fn RangeIterPtr::advance_forward
-- spec
requires old(self).iwf(), old(self).stack_forward is Some,
ensures final(self).iwf(), final(self).map == old(self).map, final(self).range == old(self).range,
    old(self).remaining().len() == 0 ==> final(self).remaining().len() == 0,
    old(self).remaining().len() > 0 ==> final(self).remaining() =~= old(self).remaining().subrange(1, old(self).remaining().len() as int),
-- entry
let ghost o = *self;
proof { o.lemma_ends(); }
-- exit
proof {
    let st = self.stack_forward->0.stack@;
    let so = o.stack_forward->0.stack@;
    lemma_rem(st);
    lemma_rem(so);
    let e = self.map.ents();
    if so.len() > 0 && remf(so).len() > 1 {
        assert(remf(so)[1] == e[o.fpos() + 1]);
        if st.len() > 0 { assert(remf(st) =~= e.skip(o.fpos() + 1)); }
    }
}

== fn RangeIterPtr::advance_backward
-- spec
requires old(self).iwf(), old(self).stack_backward is Some,
ensures final(self).iwf(), final(self).map == old(self).map, final(self).range == old(self).range,
    old(self).remaining().len() == 0 ==> final(self).remaining().len() == 0,
    old(self).remaining().len() > 0 ==> final(self).remaining() =~= old(self).remaining().drop_last(),
-- entry
let ghost o = *self;
proof { o.lemma_ends(); }
-- exit
proof {
    let st = self.stack_backward->0.stack@;
    let so = o.stack_backward->0.stack@;
    lemma_rem(st);
    lemma_rem(so);
    let e = self.map.ents();
    if so.len() > 0 && remb(so).len() > 1 {
        assert(remb(so)[remb(so).len() - 2] == e[o.bpos() - 2]);
        if st.len() > 0 { assert(remb(st) =~= e.take(o.bpos() - 1)); }
    }
}

== impl Iterator for RangeIterPtr
open spec fn iwf(&self) -> bool { self.map.wf() && ord_ok::<K, Q>() && self.fwf() && self.bwf() }
open spec fn rest(&self) -> Seq<&'a Ent<K, V>> { refs(self.remaining()) }

== impl Iterator for IterPtr
open spec fn iwf(&self) -> bool { self.range_iter.iwf() && self.size == self.range_iter.rest().len() }
open spec fn rest(&self) -> Seq<&'a Ent<K, V>> { self.range_iter.rest() }

== fn RangeIterPtr::next
-- sig r
== fn RangeIterPtr::next_back
-- sig r
== fn IterPtr::next
-- sig r
== fn IterPtr::next_back
-- sig r
== fn IterPtr::size_hint
-- sig r
-- spec
requires self.iwf(),
ensures r.0 == self.rest().len(), r.1 == Some(r.0),

== fn IterPtr::new
-- sig r
-- spec
requires map.wf(),
ensures r.iwf(), r.rest() =~= refs(map.ents()),
-- entry
proof {
    lemma_ord_self::<K>();
    lemma_lo(map.ents(), RangeFull.sb());
    lemma_hi(map.ents(), RangeFull.eb());
    assert(fcut(map.ents(), RangeFull.sb(), 0));
    assert(bcut(map.ents(), RangeFull.eb(), map.ents().len() as int));
}

== fn RedBlackTreeMap::iter_ptr
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.ents()),
== fn RedBlackTreeMap::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= pairs(self.ents()),
-- closure 0
vx_a0: &'_ Rc<Entry<K, V>>
-> (r: (&K, &V)) ensures r == (&vx_a0.key, &vx_a0.value)
== fn RedBlackTreeMap::keys
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest().len() == self.ents().len(), forall|i: int| 0 <= i < self.ents().len() ==> *(#[trigger] r.rest()[i]) == self.ents()[i].key,
-- closure 0
vx_a0: (&'_ K, &'_ V)
-> (r: &K) ensures r == vx_a0.0
== fn RedBlackTreeMap::values
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest().len() == self.ents().len(), forall|i: int| 0 <= i < self.ents().len() ==> *(#[trigger] r.rest()[i]) == self.ents()[i].value,
-- closure 0
vx_a0: (&'_ K, &'_ V)
-> (r: &V) ensures r == vx_a0.1

== fn RedBlackTreeMap::range
-- sig r
-- spec
requires self.wf(), ord_ok::<K, Q>(), range_ok(range.sb(), range.eb()),
ensures r.iwf(), r.rest() =~= pairs(in_range(self.ents(), range.sb(), range.eb())),
-- closure 0
vx_a0: &'_ Rc<Entry<K, V>>
-> (r: (&K, &V)) ensures r == (&vx_a0.key, &vx_a0.value)
-- twin
requires self.wf(), ord_ok::<K, Q>(),
ensures range_ok(range.sb(), range.eb()), r.iwf(), r.rest() =~= pairs(in_range(self.ents(), range.sb(), range.eb())),

== fn RedBlackTreeMap::ptr_eq
-- sig r
-- spec
ensures r ==> self.root == other.root, self.root is None && other.root is None ==> r,

== impl IntoIterator for RedBlackTreeMap
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<(&'a K, &'a V)> { pairs(self.ents()) }
== fn RedBlackTreeMap::into_iter
-- sig r

== impl mod:iter_utils
use super::*;

== fn RedBlackTreeMap::get_mut
-- sig r
-- spec
requires old(self).wf(), ord_ok::<K, Q>(), lawful_clone::<K>(), lawful_clone::<V>(),
ensures match r {
    None => lookup(old(self).ents(), key) is None && *final(self) == *old(self),
    Some(v) => lookup(old(self).ents(), key) is Some && *v == lookup(old(self).ents(), key)->0.value
        && final(self).wf() && put(old(self).ents(), final(self).ents(), key, en(lookup(old(self).ents(), key)->0.key, *final(v)), false),
},
-- entry
let ghost m0 = *self;
proof {
    lemma_lookup(m0.ents(), key);
    lemma_open(m0.root);
    assert(gap(Seq::<Ent<K, V>>::empty(), key, 0));
    if m0.root is Some {
        lemma_write(m0, key);
    }
}

== fn RedBlackTreeMap::index
-- sig r
-- spec
requires self.wf(), ord_ok::<K, Q>(), lookup(self.ents(), key) is Some,
ensures *r == lookup(self.ents(), key)->0.value,
-- twin
requires self.wf(), ord_ok::<K, Q>(),
ensures lookup(self.ents(), key) is Some, *r == lookup(self.ents(), key)->0.value,

== fn RedBlackTreeMap::eq
-- sig r
-- spec
requires self.wf(), other.wf(), forall|v: V| #[trigger] v.eq_spec(&v),
ensures V::obeys_eq_spec() ==> r == same_map(self.ents(), other.ents()),
-- entry
proof {
    lemma_ord_self::<K>();
    if self.root == other.root {
        assert forall|i: int| 0 <= i < self.ents().len() implies val_eq(#[trigger] self.ents()[i], other.ents()) by {
            reveal(total_order);
            lemma_at(self.ents(), &self.ents()[i].key, i);
        }
    }
    assert forall|i: int| 0 <= i < self.ents().len() implies (#[trigger] self.ents()[i]).key == *pairs::<K, V>(self.ents())[i].0 by {}
}
-- closure 0
vx_a0: (&'_ K, &'_ V)
-> (r: bool) ensures V::obeys_eq_spec() ==> r == (lookup(other.ents(), vx_a0.0) is Some && vx_a0.1.eq_spec(&lookup(other.ents(), vx_a0.0)->0.value))

== fn RedBlackTreeMap::partial_cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures <(&K, &V) as PartialOrdSpec<(&K, &V)>>::obeys_partial_cmp_spec() ==> r == lex_partial::<(&K, &V), (&K, &V)>(pairs(self.ents()), pairs(other.ents())),
== fn RedBlackTreeMap::cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures <(&K, &V) as OrdSpec>::obeys_cmp_spec() ==> r == lex_cmp::<(&K, &V)>(pairs(self.ents()), pairs(other.ents())),

== impl Hash for RedBlackTreeMap
open spec fn toks(&self) -> Seq<int> { seq![self.ents().len() as int] + seq_toks::<(&K, &V)>(pairs(self.ents())) }

open spec fn hwf(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.ents().len() ==> (#[trigger] self.ents()[i]).key.hwf() && self.ents()[i].value.hwf() }

== fn RedBlackTreeMap::hash
-- loop 0
invariant vx_it0.iwf(), self.hwf(), vx_it0.rest().len() <= self.ents().len(),
   vx_it0.rest() =~= pairs(self.ents()).skip(self.ents().len() - vx_it0.rest().len()),
   state.fed() + seq_toks::<(&K, &V)>(pairs(self.ents()).skip(self.ents().len() - vx_it0.rest().len())) =~= old(state).fed() + self.toks(),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let n = self.ents().len() as int;
    let k = n - vx_it0.rest().len();
    if k < n {
        assert(pairs::<K, V>(self.ents()).skip(k).subrange(1, n - k) =~= pairs::<K, V>(self.ents()).skip(k + 1));
        assert(self.ents()[k].key.hwf());
    }
}
-- beforeloop 0
proof { assert(pairs::<K, V>(self.ents()).skip(0) =~= pairs::<K, V>(self.ents())); }

== fn RedBlackTreeMap::from_iter
-- sig r
-- spec
requires lawful_ord::<K>(), into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), into_iter.into_rest()),
-- entry
let ghost all = into_iter.into_rest();
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push(all[n - 1])); }
}
-- loop 0
invariant vx_it0.iwf(), map.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    map.ents().len() <= all.len() - vx_it0.rest().len(), collected(map.ents(), all.take(all.len() - vx_it0.rest().len())),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn RedBlackTreeMap::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.map_doc::<(&K, &V)>(pairs(self.ents()), r),

== impl mod:serde
impl<'de, K, V> VxMapVisitor<'de> for RedBlackTreeMapVisitor<K, V> where K: Ord + Deserialize<'de>, V: Deserialize<'de> {
    type Value = RedBlackTreeMap<K, V>;
    open spec fn map_pre<A: MapAccess<'de>>(map: A) -> bool { lawful_ord::<K>() && map.entries::<K, V>().len() <= vx_max_len() }
    open spec fn map_post<A: MapAccess<'de>>(map: A, r: RedBlackTreeMap<K, V>) -> bool { r.wf() && collected(r.ents(), map.entries::<K, V>()) }
    open spec fn map_fails<A: MapAccess<'de>>(map: A) -> bool { map.fails::<K, V>() }
    fn vx_visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<RedBlackTreeMap<K, V>, A::Error>) { self.visit_map(map) }
}

== impl Deserialize for RedBlackTreeMap
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { lawful_ord::<K>() && d.map().entries::<K, V>().len() <= vx_max_len() }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && collected(r.ents(), d.map().entries::<K, V>()) }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.map().fails::<K, V>() }

== fn RedBlackTreeMap::deserialize
-- sig r

== fn RedBlackTreeMapVisitor::visit_map
-- sig r
-- spec
requires lawful_ord::<K>(), map.entries::<K, V>().len() <= vx_max_len(),
ensures r matches Ok(m) ==> m.wf() && collected(m.ents(), map.entries::<K, V>()),
    r is Err <==> map.fails::<K, V>(),
-- entry
let ghost bad = map.fails::<K, V>();
let ghost all = map.entries::<K, V>();
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- loop 0
invariant map.fails::<K, V>() == bad, rb_tree_map.wf(), map.entries::<K, V>().len() <= all.len(), map.entries::<K, V>() =~= all.skip(all.len() - map.entries::<K, V>().len()),
    rb_tree_map.ents().len() <= all.len() - map.entries::<K, V>().len(), collected(rb_tree_map.ents(), all.take(all.len() - map.entries::<K, V>().len())),
decreases map.entries::<K, V>().len(),
-- loopbody 0
proof {
    let n = all.len() - map.entries::<K, V>().len();
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push((all[n - 1].0, all[n - 1].1))); }
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push((all[n].0, all[n].1))); }
    if n == all.len() { assert(all.take(n) =~= all); }
}
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn rbt_map!
-- decl fn vx_macro_rbt_map<K: Ord, V>(vx_items: Vec<(K, V)>) -> RedBlackTreeMap<K, V>
-- sig r
-- spec
requires lawful_ord::<K>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), vx_items@),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push(all[n - 1])); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), all.take(all.len() - vx_it0.rest().len())),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }

== fn rbt_map_sync!
-- decl fn vx_macro_rbt_map_sync<K: Ord, V>(vx_items: Vec<(K, V)>) -> RedBlackTreeMap<K, V>
-- sig r
-- spec
requires lawful_ord::<K>(), vx_items@.len() <= vx_max_len(),
ensures r.wf(), collected(r.ents(), vx_items@),
-- entry
let ghost all = vx_items@;
proof { lemma_collect_empty::<K, V>(); lemma_collect_steps::<K, V>(); }
-- loopbody 0
proof {
    let n = all.len() - vx_it0.rest().len();
    if n < all.len() { assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    if 0 < n { assert(all.take(n) =~= all.take(n - 1).push(all[n - 1])); }
}
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_it0.rest().len() <= all.len(), vx_it0.rest() =~= all.skip(all.len() - vx_it0.rest().len()),
    vx_acc.ents().len() <= all.len() - vx_it0.rest().len(), collected(vx_acc.ents(), all.take(all.len() - vx_it0.rest().len())),
decreases vx_it0.rest().len(),
-- beforeloop 0
proof { assert(all.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
-- afterloop 0
proof { assert(all.take(all.len() as int) =~= all); }
