== items
#[verifier::opaque]
pub open spec fn flatp<T>(n: Node<T>) -> Seq<Rc<T>>
    decreases n,
{
    match n {
        Node::Leaf(a) => a@,
        Node::Branch(a) => fcat(a@),
    }
}
#[verifier::opaque]
pub open spec fn fcat<T>(s: Seq<Rc<Node<T>>>) -> Seq<Rc<T>>
    decreases s,
{ if s.len() == 0 { Seq::empty() } else { fcat(s.drop_last()) + flatp(*s.last()) } }
pub open spec fn dn<T>(n: Rc<Node<T>>) -> Node<T> { *n }
pub proof fn lemma_clone<T>(n: &Node<T>, m: &Node<T>)
    requires match (n, m) { (Node::Branch(a), Node::Branch(b)) => a@ =~= b@, (Node::Leaf(a), Node::Leaf(b)) => a@ =~= b@, _ => false },
    ensures n == m,
{
    match (n, m) {
        (Node::Branch(a), Node::Branch(b)) => { ax_vec_ext(*a, *b); }
        (Node::Leaf(a), Node::Leaf(b)) => { ax_vec_ext(*a, *b); }
        _ => {}
    }
}
pub open spec fn flats<T>(a: Seq<Rc<Node<T>>>) -> Seq<Seq<Rc<T>>> { Seq::new(a.len(), |i: int| flatp(*a[i])) }
pub proof fn lemma_fcat<T>(s: Seq<Rc<Node<T>>>)
    ensures fcat(s) == cat(flats(s)),
    decreases s.len(),
{
    reveal_with_fuel(fcat, 2);
    reveal_with_fuel(flatp, 2);
    reveal(cat);
    if s.len() > 0 { lemma_fcat(s.drop_last()); assert(flats(s).drop_last() =~= flats(s.drop_last())); } else { assert(flats(s) =~= Seq::empty()); }
}
pub proof fn lemma_flatp<T>(n: Node<T>)
    ensures flatp(n) == (match n { Node::Leaf(a) => a@, Node::Branch(a) => cat(flats(a@)) }),
        n matches Node::Branch(a) ==> flatp(n) == fcat(a@),
        node_len(n) == 0 ==> flatp(n) =~= Seq::empty(),
{
    reveal_with_fuel(fcat, 2);
    reveal_with_fuel(flatp, 2);
    if let Node::Branch(a) = n { lemma_fcat(a@); if a@.len() == 0 { lemma_cat_empty::<Rc<T>>(); assert(flats(a@) =~= Seq::empty()); } }
}
pub proof fn lemma_leaf<T>(n: Node<T>)
    requires n is Leaf,
    ensures flatp(n) == n->Leaf_0@,
{ lemma_flatp(n); }

/// elements of a full node of height h
#[verifier::opaque]
pub open spec fn cap(bits: nat, h: nat) -> nat { pow2((bits * (h + 1)) as nat) }
/// the bucket of an index at a height
#[verifier::opaque]
pub open spec fn bk(bits: nat, index: nat, h: nat) -> nat { (index / pow2((bits * h) as nat)) % pow2(bits) }
/// elements of a child of a node of height h
#[verifier::opaque]
pub open spec fn ccap(bits: nat, h: nat) -> nat { pow2((bits * h) as nat) }

pub open spec fn shape<T>(n: Node<T>, h: nat, bits: nat) -> bool
    decreases h,
{
    match n {
        Node::Leaf(a) => h == 0 && a@.len() <= pow2(bits),
        Node::Branch(a) => h > 0 && a@.len() <= pow2(bits) && forall|i: int| #![trigger a@[i]] 0 <= i < a@.len() ==>
            shape(*a@[i], (h - 1) as nat, bits) && flatp(*a@[i]).len() > 0 && (i < a@.len() - 1 ==> flatp(*a@[i]).len() == ccap(bits, h)),
    }
}
/// h is the height of a trie of that many elements
pub open spec fn is_h(bits: nat, len: nat, h: nat) -> bool { len <= cap(bits, h) && (h > 0 ==> len > ccap(bits, h)) }
pub open spec fn maxlen(bits: nat) -> nat {
    if pow2((63int / bits as int * bits) as nat) <= vx_max_len() { pow2((63int / bits as int * bits) as nat) } else { vx_max_len() }
}
pub open spec fn bits_ok(bits: nat) -> bool { 1 <= bits <= 63 }

impl<T> Vector<T> {
    pub open spec fn ptrs(&self) -> Seq<Rc<T>> { flatp(*self.root) }
    pub open spec fn view(&self) -> Seq<T> { Seq::new(self.ptrs().len(), |i: int| *self.ptrs()[i]) }
    pub open spec fn wfat(&self, h: nat) -> bool { is_h(self.bits as nat, self.length as nat, h) && shape(*self.root, h, self.bits as nat) }
    pub open spec fn wf(&self) -> bool {
        &&& bits_ok(self.bits as nat)
        &&& self.length == self.ptrs().len()
        &&& self.length <= maxlen(self.bits as nat)
        &&& exists|h: nat| #[trigger] self.wfat(h)
    }
}

pub proof fn lemma_cap(bits: nat, h: nat)
    requires bits >= 1,
    ensures cap(bits, h) == ccap(bits, h) * pow2(bits), ccap(bits, h) >= 1, pow2(bits) >= 2, cap(bits, h) > ccap(bits, h),
        h > 0 ==> ccap(bits, h) == cap(bits, (h - 1) as nat), ccap(bits, 0) == 1, cap(bits, 0) == pow2(bits),
{
    reveal(cap);
    reveal(ccap);
    vstd::arithmetic::power2::lemma_pow2_adds((bits * h) as nat, bits);
    assert(bits * (0 + 1) == bits) by (nonlinear_arith);
    assert(bits * (h + 1) == bits * h + bits) by (nonlinear_arith);
    vstd::arithmetic::power2::lemma_pow2_pos((bits * h) as nat);
    vstd::arithmetic::power2::lemma_pow2_unfold(bits);
    vstd::arithmetic::power2::lemma_pow2_pos((bits - 1) as nat);
    assert(ccap(bits, h) * pow2(bits) >= ccap(bits, h) * 2) by (nonlinear_arith) requires pow2(bits) >= 2, ccap(bits, h) >= 1;
    if h > 0 { assert(bits * (h - 1 + 1) == bits * h); }
    assert(bits * 0 == 0) by (nonlinear_arith);
    vstd::arithmetic::power2::lemma2_to64();
}
pub proof fn lemma_pow2_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
{
    if a < b { vstd::arithmetic::power2::lemma_pow2_strictly_increases(a, b); }
}
pub proof fn lemma_is_h_unique(bits: nat, len: nat, h1: nat, h2: nat)
    requires bits >= 1, is_h(bits, len, h1), is_h(bits, len, h2),
    ensures h1 == h2,
{
    reveal(cap);
    reveal(ccap);
    reveal(bk);
    if h1 < h2 {
        assert(bits * (h1 + 1) <= bits * h2) by (nonlinear_arith) requires h1 + 1 <= h2;
        lemma_pow2_mono((bits * (h1 + 1)) as nat, (bits * h2) as nat);
    } else if h2 < h1 {
        assert(bits * (h2 + 1) <= bits * h1) by (nonlinear_arith) requires h2 + 1 <= h1;
        lemma_pow2_mono((bits * (h2 + 1)) as nat, (bits * h1) as nat);
    }
}
pub proof fn lemma_is_h_add(bits: nat, len: nat, len2: nat, h: nat)
    requires bits >= 1, is_h(bits, len, h), len <= len2 <= cap(bits, h),
    ensures is_h(bits, len2, h),
{}
/// the root's capacity does not overflow
pub proof fn lemma_room(bits: nat, len: nat, h: nat)
    requires bits_ok(bits), len <= maxlen(bits), is_h(bits, len, h),
    ensures bits * (h + 1) < 64, bits * h < 64, h < 64, cap(bits, h) <= 0x8000_0000_0000_0000,
{
    reveal(cap);
    reveal(ccap);
    reveal(bk);
    let q = 63int / bits as int;
    assert(q * bits <= 63) by (nonlinear_arith) requires q == 63int / bits as int, bits >= 1;
    assert(q >= 1) by (nonlinear_arith) requires q == 63int / bits as int, 1 <= bits <= 63;
    if h > 0 {
        if q < h + 1 {
            assert(q * bits <= bits * h) by (nonlinear_arith) requires q <= h, bits >= 1, q >= 1;
            lemma_pow2_mono((q * bits) as nat, (bits * h) as nat);
        }
        assert(bits * (h + 1) <= q * bits) by (nonlinear_arith) requires h + 1 <= q, bits >= 1;
    } else {
        assert(bits * (0 + 1) == bits) by (nonlinear_arith);
    }
    assert(bits * h <= bits * (h + 1)) by (nonlinear_arith);
    assert(h <= bits * h) by (nonlinear_arith) requires bits >= 1;
    lemma_pow2_mono((bits * (h + 1)) as nat, 63);
    vstd::arithmetic::power2::lemma2_to64_rest();
}

/// total size and position of the elements below a branch
pub proof fn lemma_branch<T>(n: Node<T>, h: nat, bits: nat)
    requires bits >= 1, shape(n, h, bits), n is Branch,
    ensures
        n->Branch_0@.len() == 0 ==> flatp(n).len() == 0,
        n->Branch_0@.len() > 0 ==> flatp(n).len() == (n->Branch_0@.len() - 1) * ccap(bits, h) + flatp(*n->Branch_0@.last()).len()
            && flatp(n).len() > (n->Branch_0@.len() - 1) * ccap(bits, h),
        forall|i: int| #![trigger n->Branch_0@[i]] 0 <= i < n->Branch_0@.len() ==> lemma_branch_at(n, h, bits, i),
{
    let a = n->Branch_0@;
    let fs = flats(a);
    lemma_flatp(n);
    lemma_cat_empty::<Rc<T>>();
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies lemma_branch_at(n, h, bits, i) by {
        lemma_cat_at(fs, i);
        lemma_cat_uniform(fs.take(i), ccap(bits, h));
    }
    if a.len() > 0 {
        let i = a.len() - 1;
        lemma_cat_at(fs, i);
        lemma_cat_uniform(fs.take(i), ccap(bits, h));
        assert(fs.skip(i + 1) =~= Seq::empty());
        assert(a[i] == a.last());
    }
}
pub open spec fn lemma_branch_at<T>(n: Node<T>, h: nat, bits: nat, i: int) -> bool {
    let a = n->Branch_0@;
    flatp(n) == cat(flats(a).take(i)) + flatp(*a[i]) + cat(flats(a).skip(i + 1)) && cat(flats(a).take(i)).len() == i * ccap(bits, h)
}

pub proof fn lemma_len<T>(n: Node<T>, h: nat, bits: nat)
    requires bits >= 1, shape(n, h, bits),
    ensures flatp(n).len() <= cap(bits, h),
    decreases h,
{
    lemma_cap(bits, h);
    lemma_flatp(n);
    match n {
        Node::Leaf(a) => {}
        Node::Branch(a) => {
            lemma_branch(n, h, bits);
            if a@.len() > 0 {
                assert(a@[a@.len() - 1] == a@.last());
                lemma_len(dn(a@.last()), (h - 1) as nat, bits);
                assert((a@.len() - 1) * ccap(bits, h) + ccap(bits, h) == a@.len() * ccap(bits, h)) by (nonlinear_arith);
                assert(a@.len() * ccap(bits, h) <= pow2(bits) * ccap(bits, h)) by (nonlinear_arith) requires a@.len() <= pow2(bits);
                assert(pow2(bits) * ccap(bits, h) == ccap(bits, h) * pow2(bits)) by (nonlinear_arith);
            }
        }
    }
}

pub proof fn lemma_split(bits: nat, h: nat, index: nat)
    requires bits >= 1,
    ensures
        index % cap(bits, h) == bk(bits, index, h) * ccap(bits, h) + index % ccap(bits, h),
        index % ccap(bits, h) < ccap(bits, h), bk(bits, index, h) < pow2(bits),
        h == 0 ==> index % cap(bits, h) == bk(bits, index, h),
        h > 0 ==> ccap(bits, h) == cap(bits, (h - 1) as nat),
{
    reveal(cap);
    reveal(ccap);
    reveal(bk);
    lemma_cap(bits, h);
    let p = ccap(bits, h);
    let d = pow2(bits);
    vstd::arithmetic::div_mod::lemma_mod_breakdown(index as int, p as int, d as int);
    vstd::arithmetic::div_mod::lemma_mod_bound((index / p) as int, d as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(index as int, p as int);
    assert(p * (index as int / p as int % d as int) == (index as int / p as int % d as int) * p) by (nonlinear_arith);
    if h == 0 { assert(index % 1 == 0); assert(bk(bits, index, h) * 1 == bk(bits, index, h)); }
}

pub proof fn lemma_ceil()
    ensures forall|c: int, b: int| c >= 1 && b >= 1 ==> #[trigger] (c / b) >= 0 && (c % b > 0 || c / b >= 1) && (c >= b ==> c / b >= 1),
        forall|c: int, b: int| c >= 0 && b >= 1 ==> 0 <= #[trigger] (c / b) <= c,
{
    assert forall|c: int, b: int| c >= 0 && b >= 1 implies 0 <= #[trigger] (c / b) <= c by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, b);
        assert(0 <= c / b <= c) by (nonlinear_arith) requires c >= 0, b >= 1;
    }
    assert forall|c: int, b: int| c >= 1 && b >= 1 implies #[trigger] (c / b) >= 0 && (c % b > 0 || c / b >= 1) && (c >= b ==> c / b >= 1) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, b);
        if c >= b { assert(c / b >= 1) by (nonlinear_arith) requires c >= b, b >= 1; }
        assert(c / b >= 0) by (nonlinear_arith) requires c >= 1, b >= 1;
        assert(c % b >= 0) by (nonlinear_arith) requires c >= 1, b >= 1;
        if c % b == 0 { assert(c / b >= 1) by (nonlinear_arith) requires c == b * (c / b), c >= 1, b >= 1; }
    }
}
pub proof fn lemma_max5()
    ensures maxlen(5) == vx_max_len(),
{
    vstd::arithmetic::power2::lemma2_to64_rest();
}
/// the formula of `Vector::height`
pub proof fn lemma_height(bits: nat, len: nat, h: nat)
    requires bits_ok(bits), len <= vx_max_len(),
        len <= 1 ==> h == 0,
        len > 1 ==> exists|c: int| 1 <= c <= 64 && pow2((c - 1) as nat) <= len - 1 && len - 1 < #[trigger] pow2(c as nat)
            && (h == c / bits as int + (if c % bits as int > 0 { 1int } else { 0 }) - 1 || h == (c - 1) / bits as int || h == (c + bits - 1) / bits as int - 1),
    ensures is_h(bits, len, h), h < 64,
{
    reveal(cap);
    reveal(ccap);
    reveal(bk);
    lemma_cap(bits, h);
    if len > 1 {
        let c = choose|c: int| 1 <= c <= 64 && pow2((c - 1) as nat) <= len - 1 && len - 1 < #[trigger] pow2(c as nat)
            && (h == c / bits as int + (if c % bits as int > 0 { 1int } else { 0 }) - 1 || h == (c - 1) / bits as int || h == (c + bits - 1) / bits as int - 1);
        let b = bits as int;
        if h == (c - 1) / b {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c - 1, b);
            vstd::arithmetic::div_mod::lemma_mod_bound(c - 1, b);
            assert(b * h <= c - 1 && b * h + b >= c);
            assert(b * (h + 1) == b * h + b) by (nonlinear_arith);
        } else if h == (c + b - 1) / b - 1 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c + b - 1, b);
            vstd::arithmetic::div_mod::lemma_mod_bound(c + b - 1, b);
            assert(b * (h + 1) <= c + b - 1 && b * (h + 1) + b >= c + b);
            assert(b * (h + 1) == b * h + b) by (nonlinear_arith);
        } else {
        let q = c / b;
        let m = c % b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, b);
        vstd::arithmetic::div_mod::lemma_mod_bound(c, b);
        assert(c == b * q + m);
        assert(q >= 0) by (nonlinear_arith) requires c == b * q + m, 0 <= m < b, c >= 1, b >= 1;
        if m > 0 {
            assert(b * (q + 1) == b * q + b) by (nonlinear_arith);
            assert(b * (h + 1) >= c && b * h <= c - 1);
        } else {
            assert(q >= 1) by (nonlinear_arith) requires c == b * q, c >= 1, b >= 1;
            assert(b * (q - 1) == b * q - b) by (nonlinear_arith);
            assert(b * (h + 1) >= c && b * h <= c - 1);
        }
        }
        lemma_pow2_mono(c as nat, (b * (h + 1)) as nat);
        lemma_pow2_mono((b * h) as nat, (c - 1) as nat);
        assert(h <= b * h) by (nonlinear_arith) requires b >= 1, h >= 0;
    }
}

pub proof fn lemma_rootcap(bits: u8, len: nat)
    requires bits_ok(bits as nat), len <= maxlen(bits as nat),
    ensures forall|h: usize| #[trigger] is_h(bits as nat, len, h as nat) ==> (bits as usize) * (h + 1) < 64 && h < 64
        && cap(bits as nat, h as nat) == 1usize << (((bits as usize) * (h + 1)) as usize),
{
    assert forall|h: usize| #[trigger] is_h(bits as nat, len, h as nat) implies (bits as usize) * (h + 1) < 64 && h < 64
        && cap(bits as nat, h as nat) == 1usize << (((bits as usize) * (h + 1)) as usize) by {
        lemma_room(bits as nat, len, h as nat);
        reveal(cap);
        let k = ((bits as usize) * (h + 1)) as usize;
        assert((bits as nat) * (h as nat + 1) == (bits as usize) * (h + 1));
        lemma_pow2_mono(k as nat, 63);
        vstd::arithmetic::power2::lemma2_to64_rest();
        assert(1 * pow2(k as nat) == pow2(k as nat));
        vstd::bits::lemma_usize_shl_is_mul(1, k);
    }
}

// ---------------------------------------------------------------- lookup
pub open spec fn bspec<F: Fn(usize, usize) -> usize>(f: F, bits: nat) -> bool {
    &&& forall|i: usize, h: usize| h * bits < 64 ==> #[trigger] call_requires(f, (i, h))
    &&& forall|i: usize, h: usize, r: usize| #[trigger] call_ensures(f, (i, h), r) ==> r == bk(bits, i as nat, h as nat)
}
pub open spec fn get_pre<T, F: Fn(usize, usize) -> usize>(n: Node<T>, bits: nat, index: nat, height: nat, f: F) -> bool {
    bits_ok(bits) && shape(n, height, bits) && height * bits < 64 && index % cap(bits, height) < flatp(n).len() && bspec(f, bits)
}
/// what the child in the bucket of `index` has to do with the node
pub open spec fn get_step<T>(n: Node<T>, bits: nat, index: nat, height: nat) -> bool {
    let b = bk(bits, index, height) as int;
    let j = (index % cap(bits, height)) as int;
    match n {
        Node::Leaf(a) => height == 0 && b < a@.len() && b == j && flatp(n)[j] == a@[b],
        Node::Branch(a) => height > 0 && b < a@.len() && shape(*a@[b], (height - 1) as nat, bits)
            && index % cap(bits, (height - 1) as nat) < flatp(*a@[b]).len() && (height - 1) * bits < 64
            && flatp(n)[j] == flatp(*a@[b])[(index % cap(bits, (height - 1) as nat)) as int],
    }
}
pub proof fn lemma_get<T>(n: Node<T>, bits: nat, index: nat, height: nat)
    requires bits_ok(bits), shape(n, height, bits), height * bits < 64, index % cap(bits, height) < flatp(n).len(),
    ensures get_step(n, bits, index, height),
{
    lemma_cap(bits, height);
    lemma_split(bits, height, index);
    lemma_flatp(n);
    let b = bk(bits, index, height) as int;
    let c = ccap(bits, height) as int;
    match n {
        Node::Leaf(a) => {}
        Node::Branch(a) => {
            lemma_branch(n, height, bits);
            let m = a@.len();
            if b >= m && m > 0 {
                lemma_len(dn(a@.last()), (height - 1) as nat, bits);
                assert(a@[m - 1] == a@.last());
                lemma_cap(bits, height);
                assert(b * c >= (m - 1) * c + c) by (nonlinear_arith) requires b >= m, c >= 1;
            }
            assert(b < m);
            let x = a@[b];
            assert(lemma_branch_at(n, height, bits, b));
            if b == m - 1 { assert(a@.last() == a@[b]); }
            assert((height - 1) * bits <= height * bits) by (nonlinear_arith);
            let k = (index % cap(bits, (height - 1) as nat)) as int;
            assert(k < flatp(*x).len());
            assert(flatp(n)[b * c + k] == flatp(*x)[k]);
            assert(height > 0 && k == index % ccap(bits, height));
            assert(index % cap(bits, height) == bk(bits, index, height) * ccap(bits, height) + index % ccap(bits, height));
            assert(b * c == bk(bits, index, height) * ccap(bits, height) && b * c >= 0) by (nonlinear_arith) requires b == bk(bits, index, height), c == ccap(bits, height);
            assert(bk(bits, index, height) * ccap(bits, height) >= 0);
            assert((bk(bits, index, height) * ccap(bits, height) + index % ccap(bits, height)) as int == b * c + k);
            assert((index % cap(bits, height)) as int == b * c + k);
            assert(shape(*a@[b], (height - 1) as nat, bits));
            assert((height - 1) * bits < 64);
        }
    }
}

// ---------------------------------------------------------------- update
pub open spec fn aspec<F: Fn(usize) -> usize>(f: F, bits: nat, index: nat) -> bool {
    &&& forall|h: usize| h * bits < 64 ==> #[trigger] call_requires(f, (h,))
    &&& forall|h: usize, r: usize| #[trigger] call_ensures(f, (h,), r) ==> r == bk(bits, index, h as nat)
}
pub open spec fn assoc_pre<T, F: Fn(usize) -> usize>(n: Node<T>, bits: nat, index: nat, height: nat, f: F) -> bool {
    bits_ok(bits) && shape(n, height, bits) && height * bits < 64 && index % cap(bits, height) <= flatp(n).len() && aspec(f, bits, index)
}
/// t is s with v written at, or appended at, position j
pub open spec fn set_at<T>(s: Seq<Rc<T>>, t: Seq<Rc<T>>, j: int, v: T) -> bool {
    0 <= j <= s.len() && t.len() == (if j == s.len() { s.len() + 1 } else { s.len() })
    && *t[j] == v && forall|k: int| 0 <= k < s.len() && k != j ==> #[trigger] t[k] == s[k]
}
pub open spec fn assoc_post<T>(n: Node<T>, m: Node<T>, bits: nat, index: nat, height: nat, v: T) -> bool {
    shape(m, height, bits) && set_at(flatp(n), flatp(m), (index % cap(bits, height)) as int, v)
}
/// the child in the bucket of `index`, and the position in it
pub open spec fn assoc_step<T>(n: Node<T>, bits: nat, index: nat, height: nat) -> bool {
    let b = bk(bits, index, height) as int;
    let j = (index % cap(bits, height)) as int;
    let k = (index % ccap(bits, height)) as int;
    match n {
        Node::Leaf(a) => height == 0 && b <= a@.len() && b == j && b < pow2(bits),
        Node::Branch(a) => height > 0 && b <= a@.len() && b < pow2(bits) && (height - 1) * bits < 64 && j == b * ccap(bits, height) + k
            && 0 <= k < ccap(bits, height) && ccap(bits, height) == cap(bits, (height - 1) as nat)
            && (b < a@.len() ==> shape(*a@[b], (height - 1) as nat, bits) && k <= flatp(*a@[b]).len())
            && (b == a@.len() ==> k == 0 && flatp(n).len() == a@.len() * ccap(bits, height)),
    }
}
pub proof fn lemma_assoc<T>(n: Node<T>, bits: nat, index: nat, height: nat)
    requires bits_ok(bits), shape(n, height, bits), height * bits < 64, index % cap(bits, height) <= flatp(n).len(),
    ensures assoc_step(n, bits, index, height),
{
    lemma_split(bits, height, index);
    lemma_cap(bits, height);
    lemma_flatp(n);
    let b = bk(bits, index, height) as int;
    let c = ccap(bits, height) as int;
    let k = (index % ccap(bits, height)) as int;
    match n {
        Node::Leaf(a) => {}
        Node::Branch(a) => {
            lemma_branch(n, height, bits);
            let m = a@.len();
            assert((height - 1) * bits <= height * bits) by (nonlinear_arith);
            if m > 0 {
                lemma_len(dn(a@.last()), (height - 1) as nat, bits);
                assert(a@[m - 1] == a@.last());
                assert((m - 1) * c + c == m * c) by (nonlinear_arith);
            }
            if b > m {
                assert(b * c >= m * c + c) by (nonlinear_arith) requires b >= m + 1, c >= 1;
            }
            if m == 0 { assert(m * c == 0); if b > 0 { assert(b * c >= c) by (nonlinear_arith) requires b >= 1, c >= 1; } }
            assert(b <= m);
            if b < m {
                let x = a@[b];
                assert(lemma_branch_at(n, height, bits, b));
                if b == m - 1 { assert(a@.last() == a@[b]); }
            }
        }
    }
}
/// a child replaced
pub proof fn lemma_assoc_child<T>(n: Node<T>, m: Node<T>, bits: nat, index: nat, height: nat, v: T)
    requires
        bits_ok(bits), shape(n, height, bits), index % cap(bits, height) <= flatp(n).len(), assoc_step(n, bits, index, height),
        n is Branch, m is Branch, bk(bits, index, height) < n->Branch_0@.len(),
        m->Branch_0@.len() == n->Branch_0@.len(),
        forall|i: int| 0 <= i < n->Branch_0@.len() && i != bk(bits, index, height) ==> #[trigger] m->Branch_0@[i] == n->Branch_0@[i],
        assoc_post(*n->Branch_0@[bk(bits, index, height) as int], *m->Branch_0@[bk(bits, index, height) as int], bits, index, (height - 1) as nat, v),
    ensures assoc_post(n, m, bits, index, height, v),
{
    let b = bk(bits, index, height) as int;
    let a = n->Branch_0@;
    let a2 = m->Branch_0@;
    assert(a2 =~= a.update(b, a2[b]));
    assert(flats(a2) =~= flats(a).update(b, flatp(*a2[b])));
    lemma_branch(n, height, bits);
    lemma_flatp(m);
    lemma_cat_empty::<Rc<T>>();
    lemma_cat_update(flats(a), b, flatp(dn(a2[b])));
    let x = a[b];
    assert(lemma_branch_at(n, height, bits, b));
    let rest = cat(flats(a).skip(b + 1));
    if b < a.len() - 1 {
        assert(flatp(*a2[b]).len() == flatp(*a[b]).len());
    } else {
        assert(flats(a).skip(b + 1) =~= Seq::empty());
    }
    assert(shape(m, height, bits)) by {
        assert forall|i: int| #![trigger a2[i]] 0 <= i < a2.len() implies
            shape(*a2[i], (height - 1) as nat, bits) && flatp(*a2[i]).len() > 0 && (i < a2.len() - 1 ==> flatp(*a2[i]).len() == ccap(bits, height)) by {
            let y = a[i];
        }
    }
}
/// an element written in place
pub open spec fn write_step<T>(n: Node<T>, m: Node<T>, bits: nat, index: nat, height: nat, v: T) -> bool {
    let b = bk(bits, index, height) as int;
    match (n, m) {
        (Node::Leaf(a), Node::Leaf(a2)) => b < a@.len() && a2@.len() == a@.len() && *a2@[b] == v
            && forall|i: int| 0 <= i < a@.len() && i != b ==> #[trigger] a2@[i] == a@[i],
        (Node::Branch(a), Node::Branch(a2)) => b < a@.len() && a2@.len() == a@.len()
            && assoc_post(*a@[b], *a2@[b], bits, index, (height - 1) as nat, v)
            && forall|i: int| 0 <= i < a@.len() && i != b ==> #[trigger] a2@[i] == a@[i],
        _ => false,
    }
}
/// a child appended
pub proof fn lemma_assoc_push<T>(n: Node<T>, m: Node<T>, bits: nat, index: nat, height: nat, v: T)
    requires
        bits_ok(bits), shape(n, height, bits), index % cap(bits, height) <= flatp(n).len(), assoc_step(n, bits, index, height),
        n is Branch, m is Branch, bk(bits, index, height) == n->Branch_0@.len(),
        m->Branch_0@.len() == n->Branch_0@.len() + 1, m->Branch_0@.drop_last() == n->Branch_0@,
        shape(*m->Branch_0@.last(), (height - 1) as nat, bits), set_at(Seq::empty(), flatp(*m->Branch_0@.last()), 0, v),
    ensures assoc_post(n, m, bits, index, height, v),
{
    let a = n->Branch_0@;
    let a2 = m->Branch_0@;
    lemma_branch(n, height, bits);
    lemma_flatp(n);
    lemma_flatp(m);
    assert(flats(a2) =~= flats(a).push(flatp(*a2.last())));
    lemma_cat_push(flats(a), flatp(dn(a2.last())));
    lemma_cap(bits, height);
    let c = ccap(bits, height) as int;
    assert(shape(m, height, bits)) by {
        assert forall|i: int| #![trigger a2[i]] 0 <= i < a2.len() implies
            shape(*a2[i], (height - 1) as nat, bits) && flatp(*a2[i]).len() > 0 && (i < a2.len() - 1 ==> flatp(*a2[i]).len() == ccap(bits, height)) by {
            if i < a.len() {
                let y = a[i];
                assert(a2[i] == a[i]);
                if i == a.len() - 1 {
                    assert((a.len() - 1) * c + c == a.len() * c) by (nonlinear_arith);
                    assert(a.last() == a[i]);
                }
            }
        }
    }
}
/// a level added on top of a full trie
pub proof fn lemma_grow<T>(v: Vector<T>, m: Node<T>, h: nat)
    requires v.wf(), v.wfat(h), v.length == cap(v.bits as nat, h), m is Branch, m->Branch_0@.len() == 1, m->Branch_0@[0] == v.root,
    ensures shape(m, h + 1, v.bits as nat), is_h(v.bits as nat, v.length as nat + 1, h + 1), flatp(m) == v.ptrs(), v.length + 1 <= cap(v.bits as nat, h + 1),
{
    let a = m->Branch_0@;
    let bits = v.bits as nat;
    lemma_cap(bits, h);
    lemma_cap(bits, h + 1);
    lemma_flatp(m);
    assert(flats(a) =~= Seq::<Seq<Rc<T>>>::empty().push(flatp(*v.root)));
    lemma_cat_empty::<Rc<T>>();
    lemma_cat_push(Seq::<Seq<Rc<T>>>::empty(), flatp(dn(v.root)));
    assert(flatp(m) =~= v.ptrs());
}
/// a level with one child taken off
pub proof fn lemma_shrink<T>(n: Node<T>, bits: nat, h: nat, len: nat)
    requires bits >= 1, shape(n, h, bits), len == flatp(n).len(), is_h(bits, len + 1, h),
    ensures
        n is Leaf ==> is_h(bits, len, h),
        n is Branch && n->Branch_0@.len() != 1 ==> is_h(bits, len, h),
        n is Branch && n->Branch_0@.len() == 1 ==> h > 0 && flatp(*n->Branch_0@[0]) == flatp(n) && shape(*n->Branch_0@[0], (h - 1) as nat, bits) && is_h(bits, len, (h - 1) as nat),
{
    lemma_cap(bits, h);
    lemma_flatp(n);
    if let Node::Branch(a) = n {
        lemma_branch(n, h, bits);
        let c = ccap(bits, h) as int;
        if a@.len() == 1 {
            lemma_cap(bits, (h - 1) as nat);
            let x = a@[0];
            assert(a@.last() == a@[0]);
            lemma_len(dn(x), (h - 1) as nat, bits);
            assert(flats(a@) =~= Seq::<Seq<Rc<T>>>::empty().push(flatp(*x)));
            lemma_cat_empty::<Rc<T>>();
            lemma_cat_push(Seq::<Seq<Rc<T>>>::empty(), flatp(dn(x)));
            assert(flatp(n) =~= flatp(*x));
        } else if a@.len() > 1 {
            assert((a@.len() - 1) * c >= c) by (nonlinear_arith) requires a@.len() >= 2, c >= 1;
        }
    }
}
/// the last element dropped
pub open spec fn drop_post<T>(n: Node<T>, m: Node<T>, bits: nat, height: nat) -> bool {
    shape(m, height, bits) && flatp(m) =~= (if flatp(n).len() == 0 { flatp(n) } else { flatp(n).drop_last() })
    && (n is Branch) == (m is Branch)
}
pub open spec fn node_len<T>(n: Node<T>) -> nat { match n { Node::Leaf(a) => a@.len(), Node::Branch(a) => a@.len() } }
pub proof fn lemma_node_len<T>(n: Node<T>, bits: nat, height: nat)
    requires bits >= 1, shape(n, height, bits),
    ensures (flatp(n).len() == 0) == (node_len(n) == 0),
{
    lemma_flatp(n);
    if n is Branch { lemma_branch(n, height, bits); }
}
pub open spec fn drop_step<T>(a: Seq<Rc<Node<T>>>, a2: Seq<Rc<Node<T>>>, c2: Node<T>) -> bool {
    if node_len(c2) == 0 { a2 =~= a.drop_last() } else { a2.len() == a.len() && a2.drop_last() =~= a.drop_last() && *a2.last() == c2 }
}
pub proof fn lemma_drop<T>(n: Node<T>, m: Node<T>, bits: nat, height: nat)
    requires
        bits >= 1, shape(n, height, bits), n is Branch, n->Branch_0@.len() > 0, m is Branch,
        exists|c2: Node<T>| drop_post(*n->Branch_0@.last(), c2, bits, (height - 1) as nat)
            && #[trigger] drop_step(n->Branch_0@, m->Branch_0@, c2),
    ensures drop_post(n, m, bits, height),
{
    let c2 = choose|c2: Node<T>| drop_post(*n->Branch_0@.last(), c2, bits, (height - 1) as nat)
            && #[trigger] drop_step(n->Branch_0@, m->Branch_0@, c2);
    let y = n->Branch_0@[n->Branch_0@.len() - 1];
    lemma_node_len(c2, bits, (height - 1) as nat);
    let a = n->Branch_0@;
    let a2 = m->Branch_0@;
    let l = a.len() - 1;
    lemma_flatp(n);
    lemma_flatp(m);
    reveal(cat);
    assert(a[l] == a.last());
    assert(flats(a).drop_last() =~= flats(a.drop_last()));
    if flatp(c2).len() > 0 {
        assert(flats(a2).drop_last() =~= flats(a2.drop_last()));
    } else {
        assert(flatp(*a.last()).len() == 1);
    }
    assert(shape(m, height, bits)) by {
        assert forall|i: int| #![trigger a2[i]] 0 <= i < a2.len() implies
            shape(*a2[i], (height - 1) as nat, bits) && flatp(*a2[i]).len() > 0 && (i < a2.len() - 1 ==> flatp(*a2[i]).len() == ccap(bits, height)) by {
            let y = a[i];
            if i < l {
                assert(a.drop_last()[i] == a[i]);
                if flatp(c2).len() > 0 { assert(a2.drop_last()[i] == a2[i]); }
            }
        }
    }
}

// ---------------------------------------------------------------- cursors
pub open spec fn before<T>(e: IterStackElement<'_, T>) -> nat {
    match *e.node { Node::Leaf(a) => e.index as nat, Node::Branch(a) => fcat(a@.take(e.index as int)).len() }
}
pub open spec fn cur<T>(e: IterStackElement<'_, T>) -> Seq<Rc<T>> {
    match *e.node { Node::Leaf(a) => seq![a@[e.index as int]], Node::Branch(a) => flatp(*a@[e.index as int]) }
}
/// position in the whole of what the top of the stack points at
pub open spec fn off<T>(s: Seq<IterStackElement<'_, T>>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { off(s.drop_last()) + before(s.last()) } }
/// a path from the root
#[verifier::opaque]
pub open spec fn path<T>(s: Seq<IterStackElement<'_, T>>, h: nat, bits: nat) -> bool {
    &&& bits >= 1 && 0 < s.len() <= h + 1
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> shape(*s[i].node, (h - i) as nat, bits) && 0 <= s[i].index < node_len(*s[i].node)
            && flatp(*s[i].node).len() <= vx_max_len()
    &&& forall|i: int| 0 < i < s.len() ==> #[trigger] linked(s, i)
}
pub open spec fn linked<T>(s: Seq<IterStackElement<'_, T>>, i: int) -> bool {
    s[i - 1].node is Branch && *s[i].node == *s[i - 1].node->Branch_0@[s[i - 1].index as int]
}
pub open spec fn at_leaf<T>(s: Seq<IterStackElement<'_, T>>) -> bool { s.len() > 0 && s.last().node is Leaf }

pub proof fn lemma_node_len_le<T>(n: Node<T>, h: nat, bits: nat)
    requires bits >= 1, shape(n, h, bits),
    ensures node_len(n) <= flatp(n).len(),
{
    lemma_flatp(n);
    if let Node::Branch(a) = n {
        lemma_branch(n, h, bits);
        lemma_cap(bits, h);
        if a@.len() > 0 {
            assert((a@.len() - 1) * ccap(bits, h) >= a@.len() - 1) by (nonlinear_arith) requires a@.len() >= 1, ccap(bits, h) >= 1;
        }
    }
}
/// what a frame points at, inside its node
pub proof fn lemma_frame<T>(e: IterStackElement<'_, T>, h: nat, bits: nat)
    requires bits >= 1, shape(*e.node, h, bits), 0 <= e.index < node_len(*e.node),
    ensures
        before(e) + cur(e).len() <= flatp(*e.node).len(), cur(e).len() > 0,
        flatp(*e.node).subrange(before(e) as int, (before(e) + cur(e).len()) as int) == cur(e),
        e.index == 0 ==> before(e) == 0,
        e.index == node_len(*e.node) - 1 ==> before(e) + cur(e).len() == flatp(*e.node).len(),
        e.index > 0 ==> before(IterStackElement { node: e.node, index: (e.index - 1) as isize }) + cur(IterStackElement { node: e.node, index: (e.index - 1) as isize }).len() == before(e),
{
    let n = *e.node;
    let i = e.index as int;
    lemma_flatp(n);
    lemma_cat_empty::<Rc<T>>();
    match n {
        Node::Leaf(a) => { assert(a@.subrange(i, i + 1) =~= cur(e)); }
        Node::Branch(a) => {
            lemma_branch(n, h, bits);
            let x = a@[i];
            assert(lemma_branch_at(n, h, bits, i));
            lemma_fcat(a@.take(i));
            assert(flats(a@.take(i)) =~= flats(a@).take(i));
            if i == 0 { assert(flats(a@).take(i) =~= Seq::empty()); }
            reveal_with_fuel(fcat, 2);
            reveal_with_fuel(flatp, 2);
            assert(flatp(n).subrange(before(e) as int, (before(e) + cur(e).len()) as int) =~= cur(e));
            if i == node_len(n) - 1 { assert(flats(a@).skip(i + 1) =~= Seq::empty()); }
            if i > 0 {
                assert(a@.take(i).drop_last() =~= a@.take(i - 1));
                assert(a@.take(i).last() == a@[i - 1]);
            }
        }
    }
}
pub proof fn lemma_top<T>(s: Seq<IterStackElement<'_, T>>, h: nat, bits: nat)
    requires path(s, h, bits),
    ensures bits >= 1, 0 < s.len() <= h + 1, shape(*s.last().node, (h - (s.len() - 1)) as nat, bits), 0 <= s.last().index < node_len(*s.last().node),
        flatp(*s.last().node).len() <= vx_max_len(),
{
    reveal(path);
    let x = s[s.len() - 1];
}
/// what the top of the stack points at, inside the whole
pub proof fn lemma_path<T>(s: Seq<IterStackElement<'_, T>>, h: nat, bits: nat)
    requires path(s, h, bits),
    ensures
        off(s) + cur(s.last()).len() <= flatp(*s[0].node).len(), cur(s.last()).len() > 0,
        flatp(*s[0].node).subrange(off(s) as int, (off(s) + cur(s.last()).len()) as int) == cur(s.last()),
    decreases s.len(),
{
    lemma_top(s, h, bits);
    let l = s.len() - 1;
    lemma_frame(s.last(), (h - l) as nat, bits);
    if l > 0 {
        let p = s.drop_last();
        lemma_prefix(s, h, bits);
        lemma_path(p, h, bits);
        let o = off(p) as int;
        let w = flatp(*s[0].node);
        let b = before(s.last()) as int;
        let c = cur(s.last());
        assert(w.subrange(o, o + cur(p.last()).len())=~= cur(p.last()));
        assert(w.subrange(o + b, o + b + c.len()) =~= w.subrange(o, o + cur(p.last()).len()).subrange(b, b + c.len()));
    } else {
        assert(s.drop_last().len() == 0);
    }
}
pub proof fn lemma_prefix<T>(s: Seq<IterStackElement<'_, T>>, h: nat, bits: nat)
    requires path(s, h, bits), s.len() > 1,
    ensures path(s.drop_last(), h, bits), flatp(*s.last().node) == cur(s.drop_last().last()), s.drop_last()[0] == s[0],
{
    reveal(path);
    let p = s.drop_last();
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies shape(*p[i].node, (h - i) as nat, bits) && 0 <= p[i].index < node_len(*p[i].node)
        && flatp(*p[i].node).len() <= vx_max_len() by { let y = s[i]; }
    assert forall|i: int| 0 < i < p.len() implies #[trigger] linked(p, i) by { if i < s.len() { assert(linked(s, i)); } }
    let x = s[s.len() - 1];
    assert(linked(s, s.len() - 1));
}
/// one step down
pub proof fn lemma_down<'a, T>(s: Seq<IterStackElement<'a, T>>, e: IterStackElement<'a, T>, h: nat, bits: nat)
    requires path(s, h, bits), s.last().node is Branch, *e.node == *s.last().node->Branch_0@[s.last().index as int],
        0 <= e.index < node_len(*e.node),
    ensures path(s.push(e), h, bits), off(s.push(e)) == off(s) + before(e), flatp(*e.node) == cur(s.last()),
{
    reveal(path);
    let t = s.push(e);
    let l = s.len() - 1;
    let x = s[l];
    assert(h - l > 0);
    lemma_frame(s.last(), (h - l) as nat, bits);
    let a = s.last().node->Branch_0@;
    let y = a[s.last().index as int];
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies shape(*t[i].node, (h - i) as nat, bits) && 0 <= t[i].index < node_len(*t[i].node)
        && flatp(*t[i].node).len() <= vx_max_len() by { if i < s.len() { let y = s[i]; } }
    assert forall|i: int| 0 < i < t.len() implies #[trigger] linked(t, i) by { if i < s.len() { assert(linked(s, i)); } }
    assert(t.drop_last() =~= s);
}
/// the top frame moved to a sibling
pub proof fn lemma_sibling<'a, T>(s: Seq<IterStackElement<'a, T>>, e: IterStackElement<'a, T>, h: nat, bits: nat)
    requires path(s, h, bits), e.node == s.last().node, 0 <= e.index < node_len(*e.node),
    ensures path(s.drop_last().push(e), h, bits), off(s.drop_last().push(e)) == off(s.drop_last()) + before(e),
        s.drop_last().push(e)[0].node == s[0].node,
{
    reveal(path);
    let t = s.drop_last().push(e);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies shape(*t[i].node, (h - i) as nat, bits) && 0 <= t[i].index < node_len(*t[i].node)
        && flatp(*t[i].node).len() <= vx_max_len() by { let y = s[i]; }
    assert forall|i: int| 0 < i < t.len() implies #[trigger] linked(t, i) by { if i < s.len() { assert(linked(s, i)); } }
    assert(t.drop_last() =~= s.drop_last());
}
/// what `dig` and `advance` rely on
pub open spec fn move_facts<T>(s: Seq<IterStackElement<'_, T>>, h: nat, bits: nat) -> bool {
    let l = s.last();
    let k = node_len(*l.node);
    let w = flatp(*s[0].node).len();
    &&& s.len() > 0 && 0 <= l.index < k && k <= vx_max_len()
    &&& off(s) + cur(l).len() <= w && cur(l).len() > 0
    &&& l.node matches Node::Branch(a) ==> {
        let c = a@[l.index as int];
        0 < node_len(*c) <= vx_max_len() && forall|e: IterStackElement<'_, T>| #![trigger s.push(e)] *e.node == *c && 0 <= e.index < node_len(*c) ==>
            path(s.push(e), h, bits) && s.push(e)[0] == s[0]
            && (e.index == 0 ==> off(s.push(e)) == off(s))
            && (e.index == node_len(*c) - 1 ==> off(s.push(e)) + cur(e).len() == off(s) + cur(l).len())
    }
    &&& forall|e: IterStackElement<'_, T>| #![trigger s.drop_last().push(e)] *e.node == *l.node && 0 <= e.index < k ==>
            path(s.drop_last().push(e), h, bits) && s.drop_last().push(e)[0].node == s[0].node
            && (e.index == l.index + 1 ==> off(s.drop_last().push(e)) == off(s) + cur(l).len() && off(s) + cur(l).len() < w)
            && (e.index == l.index - 1 ==> off(s.drop_last().push(e)) + cur(e).len() == off(s) && off(s) > 0)
    &&& s.len() > 1 ==> {
        let p = s.drop_last();
        path(p, h, bits) && p[0] == s[0]
        && (l.index == k - 1 ==> off(s) + cur(l).len() == off(p) + cur(p.last()).len())
        && (l.index == 0 ==> off(s) == off(p))
    }
    &&& s.len() == 1 ==> {
        (l.index == k - 1 ==> off(s) + cur(l).len() == w) && (l.index == 0 ==> off(s) == 0)
    }
}
pub proof fn lemma_move<T>(s: Seq<IterStackElement<'_, T>>, h: nat, bits: nat)
    requires path(s, h, bits),
    ensures move_facts(s, h, bits),
{
    reveal(path);
    let l = s.last();
    let n = s.len() - 1;
    let x = s[n];
    let k = node_len(*l.node);
    lemma_path(s, h, bits);
    lemma_frame(l, (h - n) as nat, bits);
    lemma_node_len_le(*l.node, (h - n) as nat, bits);
    if let Node::Branch(a) = *l.node {
        let c = a@[l.index as int];
        lemma_node_len(dn(c), bits, (h - n - 1) as nat);
        lemma_node_len_le(dn(c), (h - n - 1) as nat, bits);
        assert forall|e: IterStackElement<'_, T>| #![trigger s.push(e)] *e.node == *c && 0 <= e.index < node_len(*c) implies
            path(s.push(e), h, bits) && s.push(e)[0] == s[0]
            && (e.index == 0 ==> off(s.push(e)) == off(s))
            && (e.index == node_len(*c) - 1 ==> off(s.push(e)) + cur(e).len() == off(s) + cur(l).len()) by {
            lemma_down(s, e, h, bits);
            lemma_frame(e, (h - n - 1) as nat, bits);
        }
    }
    if s.len() > 1 {
        lemma_prefix(s, h, bits);
        lemma_path(s.drop_last(), h, bits);
    } else {
        assert(s.drop_last().len() == 0);
    }
    assert forall|e: IterStackElement<'_, T>| #![trigger s.drop_last().push(e)] *e.node == *l.node && 0 <= e.index < k implies
            path(s.drop_last().push(e), h, bits) && s.drop_last().push(e)[0].node == s[0].node
            && (e.index == l.index + 1 ==> off(s.drop_last().push(e)) == off(s) + cur(l).len() && off(s) + cur(l).len() < flatp(*s[0].node).len())
            && (e.index == l.index - 1 ==> off(s.drop_last().push(e)) + cur(e).len() == off(s) && off(s) > 0) by {
        lemma_sibling(s, e, h, bits);
        lemma_frame(e, (h - n) as nat, bits);
        lemma_path(s.drop_last().push(e), h, bits);
        assert(s.drop_last().push(e).last() == e);
    }
}
pub proof fn lemma_start<T>(v: &Vector<T>, e: IterStackElement<'_, T>, h: nat)
    requires v.wf(), v.wfat(h), v.ptrs().len() > 0, *e.node == *v.root, e.index == 0 || e.index == node_len(*v.root) - 1,
    ensures path(seq![e], h, v.bits as nat), seq![e][0] == e, seq![e].last() == e,
        e.index == 0 ==> off(seq![e]) == 0,
        e.index == node_len(*v.root) - 1 ==> off(seq![e]) + cur(e).len() == v.ptrs().len(),
{
    reveal(path);
    lemma_node_len(dn(v.root), v.bits as nat, h);
    lemma_node_len_le(dn(v.root), h, v.bits as nat);
    reveal_with_fuel(off, 2);
    assert(seq![e].drop_last().len() == 0);
    lemma_frame(e, h, v.bits as nat);
}
/// the element the stack is at
pub proof fn lemma_at<T>(v: &Vector<T>, s: Seq<IterStackElement<'_, T>>, p: int)
    requires stk_at(v, s, p), 0 <= p < v.ptrs().len(),
    ensures at_leaf(s), 0 <= s.last().index < node_len(*s.last().node), v.ptrs()[p] == s.last().node->Leaf_0@[s.last().index as int],
{
    reveal(path);
    let h = choose|h: nat| #[trigger] path(s, h, v.bits as nat) && at_leaf(s) && *s[0].node == *v.root && off(s) == p;
    lemma_path(s, h, v.bits as nat);
    let x = s[s.len() - 1];
    assert(v.ptrs().subrange(p, p + 1)[0] == v.ptrs()[p]);
}
pub open spec fn dig_post<T>(s: Seq<IterStackElement<'_, T>>, t: Seq<IterStackElement<'_, T>>, h: nat, bits: nat, backwards: bool) -> bool {
    path(t, h, bits) && at_leaf(t) && t[0].node == s[0].node && off(t) == (if backwards { off(s) + cur(s.last()).len() - 1 } else { off(s) as int })
}
pub open spec fn adv_post<T>(s: Seq<IterStackElement<'_, T>>, t: Seq<IterStackElement<'_, T>>, h: nat, bits: nat, backwards: bool) -> bool {
    if backwards {
        if off(s) > 0 { path(t, h, bits) && at_leaf(t) && t[0].node == s[0].node && off(t) == off(s) - 1 } else { t.len() == 0 }
    } else {
        let e = off(s) + cur(s.last()).len();
        if e < flatp(*s[0].node).len() { path(t, h, bits) && at_leaf(t) && t[0].node == s[0].node && off(t) == e } else { t.len() == 0 }
    }
}
/// the stack is at element p of the vector, if there is such an element
/// a stack of up to 64 frames can be allocated
pub axiom fn ax_fits_frame<'a, T>()
    ensures forall|n: nat| n <= 64 ==> #[trigger] fits::<IterStackElement<'a, T>>(n);

pub open spec fn stk_at<T>(v: &Vector<T>, s: Seq<IterStackElement<'_, T>>, p: int) -> bool {
    0 <= p < v.ptrs().len() ==> exists|h: nat| #[trigger] path(s, h, v.bits as nat) && at_leaf(s) && *s[0].node == *v.root && off(s) == p
}

== skip
VectorVisitor::expecting formatting only

== fn Node::new_empty_branch
-- sig r
-- spec
ensures r is Branch, r->Branch_0@.len() == 0,
== fn Node::new_empty_leaf
-- sig r
-- spec
ensures r is Leaf, r->Leaf_0@.len() == 0,

== fn Node::get
-- sig r
-- spec
requires exists|bits: nat| #[trigger] get_pre(*self, bits, index as nat, height as nat, bucket),
ensures forall|bits: nat| #[trigger] get_pre(*self, bits, index as nat, height as nat, bucket)
    ==> *r == *flatp(*self)[(index as nat % cap(bits, height as nat)) as int],
decreases height,
-- entry
proof {
    assert forall|bits: nat| #[trigger] get_pre(*self, bits, index as nat, height as nat, bucket) implies
        get_step(*self, bits, index as nat, height as nat)
        && (self matches Node::Branch(a) ==> get_pre(*a@[bk(bits, index as nat, height as nat) as int], bits, index as nat, (height - 1) as nat, bucket)) by {
        lemma_get(*self, bits, index as nat, height as nat);
    }
}

== fn Node::used
-- sig r
-- spec
ensures r == (match *self { Node::Leaf(a) => a@.len(), Node::Branch(a) => a@.len() }),
== fn Node::is_empty
-- sig r
-- spec
ensures r == (match *self { Node::Leaf(a) => a@.len(), Node::Branch(a) => a@.len() } == 0),
== fn Node::is_singleton
-- sig r
-- spec
ensures r == (match *self { Node::Leaf(a) => a@.len(), Node::Branch(a) => a@.len() } == 1),

== fn Node::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;
-- exit
proof { lemma_clone(self, &vx_ret); }

== fn vector_utils::degree
-- sig r
-- spec
requires bits < 64,
ensures r == pow2(bits as nat),
-- entry
proof {
    vstd::arithmetic::power2::lemma_pow2_pos(bits as nat);
    super::lemma_pow2_mono(bits as nat, 63);
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::lemma2_to64_rest();
    assert(1 * pow2(bits as nat) == pow2(bits as nat));
    vstd::bits::lemma_usize_shl_is_mul(1, bits as usize);
}
== fn vector_utils::mask
-- sig r
-- spec
requires bits < 64,
ensures r == pow2(bits as nat) - 1,
-- entry
proof { vstd::arithmetic::power2::lemma_pow2_pos(bits as nat); }
== fn vector_utils::bucket
-- sig r
-- spec
requires 1 <= bits < 64, height * bits < 64,
ensures r == super::bk(bits as nat, index as nat, height as nat),
-- entry
proof {
    reveal(super::bk);
    super::lemma_pow2_mono(bits as nat, 63);
    vstd::arithmetic::power2::lemma2_to64_rest();
    vstd::arithmetic::power2::lemma_pow2_pos(bits as nat);
    vstd::arithmetic::power2::lemma_pow2_pos((bits * height) as nat);
    assert(vstd::bits::low_bits_mask(bits as nat) == pow2(bits as nat) - 1);
    assert(bits as nat * height as nat == height * bits) by (nonlinear_arith);
    vstd::bits::lemma_usize_shr_is_div(index, (height * bits) as usize);
    vstd::bits::lemma_usize_low_bits_mask_is_mod((index >> ((height * bits) as usize)), bits as nat);
}

== fn VectorSync::new_sync
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(), r.bits == 5,
== fn Vector::new
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(), r.bits == 5,
== fn Vector::new_with_ptr_kind
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(), r.bits == 5,
== fn Vector::default
-- sig r
-- spec
ensures r.wf(), r.view() == Seq::<T>::empty(), r.bits == 5,
== fn Vector::new_with_bits
-- sig r
-- spec
requires 1 <= bits < 64,
ensures r.wf(), r.view() =~= Seq::<T>::empty(), r.bits == bits,
-- exit
proof { lemma_cap(bits as nat, 0); lemma_flatp(dn(vx_ret.root)); assert(vx_ret.wfat(0)); }
-- twin
ensures 1 <= bits < 64, r.wf(), r.view() =~= Seq::<T>::empty(), r.bits == bits,

== fn Vector::first
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> r == Some(&self.view()[0]),
== fn Vector::last
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> r == Some(&self.view().last()),

== fn Vector::height
-- sig r
-- spec
requires bits_ok(self.bits as nat), self.length <= vx_max_len(),
ensures is_h(self.bits as nat, self.length as nat, r as nat), r < 64,
-- entry
proof { lemma_cap(self.bits as nat, 0); lemma_ceil(); }
-- exit
proof { lemma_height(self.bits as nat, self.length as nat, vx_ret as nat); }

== fn Vector::get
-- sig r
-- spec
requires self.wf(),
ensures index >= self.view().len() ==> r is None,
    index < self.view().len() ==> r == Some(&self.view()[index as int]),
-- entry
proof {
    let bits = self.bits as nat;
    if index < self.length {
        assert forall|h: nat| #[trigger] is_h(bits, self.length as nat, h) implies self.wfat(h) && index as nat % cap(bits, h) == index && h * bits < 64 by {
            let h1 = choose|h: nat| #[trigger] self.wfat(h);
            lemma_is_h_unique(bits, self.length as nat, h, h1);
            vstd::arithmetic::div_mod::lemma_small_mod(index as nat, cap(bits, h));
            lemma_room(bits, self.length as nat, h);
            assert(h * bits == bits * h) by (nonlinear_arith);
        }
    }
}
-- closureproof 0
proof { assert forall|h: nat| #[trigger] is_h(self.bits as nat, self.length as nat, h) implies get_pre(*self.root, self.bits as nat, index as nat, h, vx_c0) by {} }
-- closure 0
vx_a0: usize, vx_a1: usize
-> (r: usize) requires vx_a1 * self.bits < 64 ensures r == bk(self.bits as nat, vx_a0 as nat, vx_a1 as nat)

== fn Vector::clone
-- sig r
-- spec
ensures r == *self,
-- entry
broadcast use ax_rc_clone;

== fn Vector::len
-- sig r
-- spec
requires self.wf(),
ensures r == self.view().len(),
== fn Vector::is_empty
-- sig r
-- spec
requires self.wf(),
ensures r == (self.view().len() == 0),

== fn Node::assoc
-- spec
requires exists|bits: nat, index: nat| #[trigger] assoc_pre(*old(self), bits, index, height as nat, bucket),
ensures forall|bits: nat, index: nat| #[trigger] assoc_pre(*old(self), bits, index, height as nat, bucket)
    ==> assoc_post(*old(self), *final(self), bits, index, height as nat, value),
decreases height,
-- entry
let ghost n0 = *self;
proof {
    assert forall|bits: nat, index: nat| #[trigger] assoc_pre(n0, bits, index, height as nat, bucket) implies
        assoc_step(n0, bits, index, height as nat)
        && (n0 is Branch && bk(bits, index, height as nat) < n0->Branch_0@.len() ==>
            assoc_pre(*n0->Branch_0@[bk(bits, index, height as nat) as int], bits, index, (height - 1) as nat, bucket))
        && (n0 is Branch && bk(bits, index, height as nat) == n0->Branch_0@.len() ==>
            forall|e: Node<T>| #[trigger] node_len(e) == 0 && (e is Branch <==> height > 1) ==> flatp(e).len() == 0 &&
                assoc_pre(e, bits, index, (height - 1) as nat, bucket)) by {
        lemma_assoc(n0, bits, index, height as nat);
        assert forall|e: Node<T>| #[trigger] node_len(e) == 0 && (e is Branch <==> height > 1) && n0 is Branch implies
            flatp(e).len() == 0 && shape(e, (height - 1) as nat, bits) by { lemma_flatp(e); }
    }
}
-- exit
proof {
    assert forall|bits: nat, index: nat| #[trigger] assoc_pre(n0, bits, index, height as nat, bucket) implies
        assoc_post(n0, *self, bits, index, height as nat, value) by {
        if n0 is Branch {
            if bk(bits, index, height as nat) < n0->Branch_0@.len() {
                lemma_assoc_child(n0, *self, bits, index, height as nat, value);
            } else {
                assert(self->Branch_0@.drop_last() =~= n0->Branch_0@);
                lemma_assoc_push(n0, *self, bits, index, height as nat, value);
            }
        } else {
            lemma_flatp(n0);
            lemma_flatp(*self);
        }
    }
}
-- before subtree . assoc (value
proof {
    let (b0, i0) = choose|b0: nat, i0: nat| #[trigger] assoc_pre(n0, b0, i0, height as nat, bucket);
    assert(node_len(subtree) == 0);
    assert(assoc_pre(subtree, b0, i0, (height - 1) as nat, bucket));
}

== fn Node::drop_last
-- sig r
-- spec
requires exists|bits: nat, height: nat| bits >= 1 && #[trigger] shape(*old(self), height, bits),
ensures
    forall|bits: nat, height: nat| bits >= 1 && #[trigger] shape(*old(self), height, bits) ==> drop_post(*old(self), *final(self), bits, height),
    r == (node_len(*final(self)) == 0),
decreases *old(self),
-- entry
let ghost n0 = *self;
let ghost mut c2 = n0;
let ghost mut popped = false;
proof {
    assert forall|bits: nat, height: nat| bits >= 1 && #[trigger] shape(n0, height, bits) implies
        ((flatp(n0).len() == 0) == (node_len(n0) == 0)) && (n0 is Branch ==> height > 0 && (n0->Branch_0@.len() > 0 ==> shape(*n0->Branch_0@.last(), (height - 1) as nat, bits))) by {
        lemma_node_len(n0, bits, height);
        if n0 is Branch && n0->Branch_0@.len() > 0 { let x = n0->Branch_0@[n0->Branch_0@.len() - 1]; }
    }
}
-- exit
proof {
    assert forall|bits: nat, height: nat| bits >= 1 && #[trigger] shape(n0, height, bits) implies drop_post(n0, *self, bits, height) by {
        if n0 is Branch && n0->Branch_0@.len() > 0 {
            let c = if popped { c2 } else { dn(self->Branch_0@.last()) };
            assert(drop_step(n0->Branch_0@, self->Branch_0@, c));
            lemma_drop(n0, *self, bits, height);
        } else {
            lemma_flatp(n0);
            lemma_flatp(*self);
        }
    }
}

-- before a . pop () #1
proof { popped = true; c2 = dn(a@.last()); }

== fn Vector::compress_root
-- sig r
-- spec
ensures match *old(root) {
    Node::Branch(a) => if a@.len() == 1 { r == Some(a@[0]) } else { r is None && *final(root) == *old(root) },
    Node::Leaf(_) => r is None && *final(root) == *old(root),
},

== fn Vector::root_max_capacity
-- entry
proof { lemma_rootcap(self.bits, self.length as nat); }
-- sig r
-- spec
requires bits_ok(self.bits as nat), self.length <= maxlen(self.bits as nat),
ensures exists|h: nat| #[trigger] is_h(self.bits as nat, self.length as nat, h) && r == cap(self.bits as nat, h),
== fn Vector::is_root_full
-- sig r
-- spec
requires bits_ok(self.bits as nat), self.length <= maxlen(self.bits as nat),
ensures exists|h: nat| #[trigger] is_h(self.bits as nat, self.length as nat, h) && r == (self.length == cap(self.bits as nat, h)),

== fn Vector::set
-- sig r
-- spec
requires self.wf(),
ensures index >= self.view().len() ==> r is None,
    index < self.view().len() ==> (r matches Some(w) && w.wf() && w.view() =~= self.view().update(index as int, v) && w.bits == self.bits),
== fn Vector::set_mut
-- sig r
-- spec
requires old(self).wf(),
ensures final(self).wf(), r == (index < old(self).view().len()), final(self).bits == old(self).bits,
    r ==> final(self).view() =~= old(self).view().update(index as int, v),
    !r ==> *final(self) == *old(self),
== fn Vector::push_back
-- sig r
-- spec
requires self.wf(), self.view().len() < maxlen(self.bits as nat),
ensures r.wf(), r.view() =~= self.view().push(v), r.bits == self.bits,
== fn Vector::push_back_mut
-- entry
let ghost s0 = *self;
proof {
    let bits = self.bits as nat;
    assert forall|h: nat| #[trigger] is_h(bits, self.length as nat, h) implies self.wfat(h) && self.length <= cap(bits, h) by {
        let h1 = choose|h: nat| #[trigger] self.wfat(h);
        lemma_is_h_unique(bits, self.length as nat, h, h1);
    }
}
-- before self . assoc (length , v)
proof {
    let bits = self.bits as nat;
    let h = choose|h: nat| #[trigger] is_h(bits, s0.length as nat, h) && s0.length == cap(bits, h);
    lemma_grow(s0, dn(self.root), h);
    assert(self.wfat(h + 1));
}
-- before self . assoc (length , v) #1
proof {
    let bits = self.bits as nat;
    let h = choose|h: nat| #[trigger] is_h(bits, s0.length as nat, h) && s0.length != cap(bits, h);
    assert(self.wfat(h));
}
-- spec
requires old(self).wf(), old(self).view().len() < maxlen(old(self).bits as nat),
ensures final(self).wf(), final(self).view() =~= old(self).view().push(v), final(self).bits == old(self).bits,
== fn Vector::drop_last
-- sig r
-- spec
requires self.wf(),
ensures self.view().len() == 0 ==> r is None,
    self.view().len() > 0 ==> (r matches Some(w) && w.wf() && w.view() =~= self.view().drop_last() && w.bits == self.bits),
== fn Vector::drop_last_mut
-- entry
let ghost s0 = *self;
let ghost h0 = choose|h: nat| #[trigger] self.wfat(h);
-- after root . drop_last ()
let ghost n1 = *root;
proof {
    assert(drop_post(*s0.root, n1, s0.bits as nat, h0));
    lemma_shrink(n1, s0.bits as nat, h0, (s0.length - 1) as nat);
}
-- exit
proof {
    if s0.length > 0 {
        if self.wfat(h0) {} else { assert(self.wfat((h0 - 1) as nat)); }
    }
}
-- sig r
-- spec
requires old(self).wf(),
ensures final(self).wf(), r == (old(self).view().len() > 0), final(self).bits == old(self).bits,
    r ==> final(self).view() =~= old(self).view().drop_last(),
    !r ==> *final(self) == *old(self),
== fn Vector::assoc
-- spec
requires
    bits_ok(old(self).bits as nat), old(self).length <= maxlen(old(self).bits as nat),
    exists|h: nat| #[trigger] old(self).wfat(h) && index < cap(old(self).bits as nat, h),
    index <= old(self).ptrs().len(),
    old(self).length == old(self).ptrs().len() || (old(self).length == old(self).ptrs().len() + 1 && index == old(self).ptrs().len()),
    index >= old(self).length ==> index < maxlen(old(self).bits as nat),
ensures
    final(self).wf(), final(self).bits == old(self).bits,
    index < old(self).view().len() ==> final(self).view() =~= old(self).view().update(index as int, v),
    index == old(self).view().len() ==> final(self).view() =~= old(self).view().push(v),
-- closure 0
vx_a0: usize
-> (r: usize) requires vx_a0 * bits < 64 ensures r == bk(bits as nat, index as nat, vx_a0 as nat)
-- closureproof 0
proof { assert(assoc_pre(n0, bits as nat, index as nat, height as nat, vx_c0)); }
-- entry
let ghost n0 = dn(self.root);
let ghost s0 = *self;
proof {
    let bits = self.bits as nat;
    let len = self.length as nat;
    assert forall|h: nat| #[trigger] is_h(bits, len, h) implies s0.wfat(h) && index < cap(bits, h) && index as nat % cap(bits, h) == index && h * bits < 64 by {
        let h1 = choose|h: nat| #[trigger] s0.wfat(h) && index < cap(bits, h);
        lemma_is_h_unique(bits, len, h, h1);
        vstd::arithmetic::div_mod::lemma_small_mod(index as nat, cap(bits, h));
        lemma_room(bits, len, h);
        assert(h * bits == bits * h) by (nonlinear_arith);
    }
}
-- exit
proof {
    let bits = s0.bits as nat;
    let h = height as nat;
    assert(is_h(bits, s0.length as nat, h));
    assert(assoc_post(n0, dn(self.root), bits, index as nat, h, v));
    lemma_is_h_add(bits, s0.length as nat, self.length as nat, h);
    assert(self.wfat(h));
}

== fn Vector::eq
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_eq_spec() ==> r == seq_eq(self.view(), other.view()),
-- entry
proof { lemma_refs_eq(self.view(), other.view()); }

== fn Vector::partial_cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_partial_cmp_spec() ==> r == lex_partial(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_partial(self.view(), other.view()); }

== fn Vector::cmp
-- sig r
-- spec
requires self.wf(), other.wf(),
ensures T::obeys_cmp_spec() ==> r == lex_cmp(self.view(), other.view()),
-- entry
proof { lemma_refs_lex_cmp(self.view(), other.view()); }

== impl Hash for Vector
open spec fn toks(&self) -> Seq<int> { seq![self.view().len() as int] + seq_toks(self.view()) }

open spec fn hwf(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.view().len() ==> (#[trigger] self.view()[i]).hwf() }

== fn Vector::hash
-- loop 0
invariant vx_it0.iwf(), self.hwf(), vx_it0.rest().len() <= self.view().len(),
   vx_it0.rest() =~= refs(self.view().subrange(self.view().len() - vx_it0.rest().len(), self.view().len() as int)),
   state.fed() + seq_toks(self.view().subrange(self.view().len() - vx_it0.rest().len(), self.view().len() as int)) =~= old(state).fed() + self.toks(),
decreases vx_it0.rest().len(),
-- loopbody 0
proof {
    let n = self.view().len() as int;
    let k = n - vx_it0.rest().len();
    if k < n {
        assert(self.view().subrange(k, n).subrange(1, n - k) =~= self.view().subrange(k + 1, n));
        assert(self.view()[k].hwf());
    }
}
-- beforeloop 0
assert(self.view().subrange(0, self.view().len() as int) =~= self.view());

== impl IntoIterator for Vector
open spec fn into_wf(self) -> bool { self.wf() }
open spec fn into_rest(self) -> Seq<&'a T> { refs(self.view()) }
== fn Vector::into_iter
-- sig r

== fn Vector::from_iter
-- sig r
-- spec
requires into_iter.into_wf(), into_iter.into_rest().len() <= vx_max_len(),
ensures r.wf(), r.view() =~= into_iter.into_rest(),
-- entry
proof { lemma_max5(); }

== fn Vector::extend
-- spec
requires old(self).wf(), iter.into_wf(), old(self).view().len() + iter.into_rest().len() <= maxlen(old(self).bits as nat),
ensures final(self).wf(), final(self).view() =~= old(self).view() + iter.into_rest(), final(self).bits == old(self).bits,
-- loop 0
invariant vx_it0.iwf(), self.wf(), self.view() + vx_it0.rest() =~= old(self).view() + iter.into_rest(), self.bits == old(self).bits,
decreases vx_it0.rest().len(),

== fn Vector::serialize
-- sig r
-- spec
requires self.wf(),
ensures serializer.seq_doc(refs(self.view()), r),

== impl mod:serde
impl<'de, T> VxSeqVisitor<'de> for VectorVisitor<T> where T: Deserialize<'de> {
    type Value = Vector<T>;
    open spec fn seq_pre<A: SeqAccess<'de>>(seq: A) -> bool { seq.elems::<T>().len() <= vx_max_len() }
    open spec fn seq_post<A: SeqAccess<'de>>(seq: A, r: Vector<T>) -> bool { r.wf() && r.view() =~= seq.elems::<T>() }
    open spec fn seq_fails<A: SeqAccess<'de>>(seq: A) -> bool { seq.fails::<T>() }
    fn vx_visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<Vector<T>, A::Error>) { self.visit_seq(seq) }
}

== impl Deserialize for Vector
open spec fn de_pre<D: Deserializer<'de>>(d: D) -> bool { d.seq().elems::<T>().len() <= vx_max_len() }
open spec fn de_post<D: Deserializer<'de>>(d: D, r: Self) -> bool { r.wf() && r.view() =~= d.seq().elems::<T>() }
open spec fn de_fails<D: Deserializer<'de>>(d: D) -> bool { d.seq().fails::<T>() }

== fn Vector::deserialize
-- sig r

== fn VectorVisitor::visit_seq
-- sig r
-- spec
requires seq.elems::<T>().len() <= vx_max_len(),
ensures r matches Ok(l) ==> l.wf() && l.view() =~= seq.elems::<T>(),
    r is Err <==> seq.fails::<T>(),
-- entry
let ghost bad = seq.fails::<T>();
let ghost all = seq.elems::<T>();
proof { lemma_max5(); }
-- loop 0
invariant seq.fails::<T>() == bad, vector.wf(), vector.bits == 5, vector.view() + seq.elems::<T>() =~= all,
decreases seq.elems::<T>().len(),

== fn Vector::iter
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.view()),
-- closure 0
vx_a0: &'_ Rc<T>
-> (r: &T) ensures r == &**vx_a0
== fn Vector::iter_ptr
-- sig r
-- spec
requires self.wf(),
ensures r.iwf(), r.rest() =~= refs(self.ptrs()),
== fn IterStackElement::current_elem
-- sig r
-- spec
requires self.node is Leaf, 0 <= self.index < self.node->Leaf_0@.len(),
ensures *r == self.node->Leaf_0@[self.index as int],

== fn IterStackElement::current_node
-- sig r
-- spec
requires self.node is Branch, 0 <= self.index < self.node->Branch_0@.len(),
ensures *r == *self.node->Branch_0@[self.index as int],
== fn IterStackElement::new
-- sig r
-- spec
requires node_len(*node) <= vx_max_len(),
ensures r.node == node, r.index == (if backwards { node_len(*node) - 1 } else { 0 }),
== fn IterStackElement::advance
-- sig r
-- spec
requires 0 <= old(self).index < node_len(*old(self).node), node_len(*old(self).node) <= vx_max_len(),
ensures final(self).node == old(self).node,
    final(self).index == (if backwards { old(self).index - 1 } else { old(self).index + 1 }),
    r == !(0 <= final(self).index < node_len(*final(self).node)),

== fn IterPtr::new
-- sig r
-- spec
requires vector.wf(),
ensures r.iwf(), r.rest() =~= refs(vector.ptrs()),

== fn IterPtr::dig
-- entry
let ghost s0 = stack@;
proof {
    assert forall|h: nat, bits: nat| #[trigger] path(s0, h, bits) implies move_facts(s0, h, bits) by { lemma_move(s0, h, bits); }
}
-- spec
requires old(stack)@.len() > 0,
    at_leaf(old(stack)@) || exists|h: nat, bits: nat| #[trigger] path(old(stack)@, h, bits),
ensures at_leaf(old(stack)@) ==> final(stack)@ == old(stack)@,
     forall|h: nat, bits: nat| #[trigger] path(old(stack)@, h, bits) ==> dig_post(old(stack)@, final(stack)@, h, bits, backwards),
decreases *old(stack)@.last().node,

== fn IterPtr::advance
-- entry
let ghost s0 = stack@;
proof {
    assert forall|h: nat, bits: nat| #[trigger] path(s0, h, bits) implies move_facts(s0, h, bits) by { lemma_move(s0, h, bits); }
    // the top of the stack may also be changed in place
    assert forall|i: int, e: IterStackElement<'_, T>| i == s0.len() - 1 && s0.len() > 0 implies #[trigger] s0.update(i, e) =~= s0.drop_last().push(e) by {}
    assert forall|e: IterStackElement<'_, T>| s0.len() > 0 implies (#[trigger] s0.drop_last().push(e)).drop_last() =~= s0.drop_last() by {}
}
-- spec
requires old(stack)@.len() > 0 ==> exists|h: nat, bits: nat| #[trigger] path(old(stack)@, h, bits),
ensures forall|h: nat, bits: nat| #[trigger] path(old(stack)@, h, bits) ==> adv_post(old(stack)@, final(stack)@, h, bits, backwards),
    old(stack)@.len() == 0 ==> final(stack)@.len() == 0,
decreases old(stack)@.len(),

== fn IterPtr::current
-- sig r
-- spec
requires stack@.len() > 0 ==> at_leaf(stack@) && 0 <= stack@.last().index < node_len(*stack@.last().node),
ensures stack@.len() == 0 ==> r is None,
    stack@.len() > 0 ==> r == Some(&stack@.last().node->Leaf_0@[stack@.last().index as int]),

== fn IterPtr::init_if_needed
-- before * stack_field = Some
proof {
    let h = choose|h: nat| #[trigger] v.wfat(h);
    if v.ptrs().len() > 0 {
        assert(path(stack@, h, v.bits as nat));
        assert(stk_at(v, stack@, if backwards { v.ptrs().len() - 1 } else { 0 }));
    }
}
-- entry
let ghost v = self.vector;
proof {
    let h = choose|h: nat| #[trigger] v.wfat(h);
    lemma_node_len(dn(v.root), v.bits as nat, h);
    lemma_node_len_le(dn(v.root), h, v.bits as nat);
    ax_fits_frame::<T>();
    assert forall|e: IterStackElement<'a, T>| #![trigger Seq::<IterStackElement<'a, T>>::empty().push(e)]
        v.ptrs().len() > 0 && *e.node == *v.root && (e.index == 0 || e.index == node_len(*v.root) - 1) implies
        path(Seq::empty().push(e), h, v.bits as nat) && (e.index == 0 ==> off(Seq::empty().push(e)) == 0)
        && (e.index == node_len(*v.root) - 1 ==> off(Seq::empty().push(e)) + cur(e).len() == v.ptrs().len()) by {
        lemma_start(v, e, h);
        assert(seq![e] =~= Seq::empty().push(e));
    }
}
-- spec
requires old(self).iwf(),
ensures final(self).iwf(), final(self).vector == old(self).vector, final(self).left_index == old(self).left_index, final(self).right_index == old(self).right_index,
    backwards ==> final(self).stack_backward is Some, !backwards ==> final(self).stack_forward is Some,
== fn IterPtr::non_empty
-- sig r
-- spec
ensures r == (self.left_index < self.right_index),
== fn IterPtr::advance_forward
-- spec
requires old(self).iwf(), old(self).stack_forward is Some,
ensures final(self).iwf(),
    old(self).rest().len() == 0 ==> final(self).rest().len() == 0,
    old(self).rest().len() > 0 ==> final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
== fn IterPtr::current_forward
-- sig r
-- entry
proof { if self.left_index < self.right_index { lemma_at(self.vector, self.stack_forward->0@, self.left_index as int); } }
-- spec
requires self.iwf(), self.stack_forward is Some,
ensures self.rest().len() == 0 ==> r is None,
    self.rest().len() > 0 ==> r == Some(self.rest()[0]),
== fn IterPtr::advance_backward
-- spec
requires old(self).iwf(), old(self).stack_backward is Some,
ensures final(self).iwf(),
    old(self).rest().len() == 0 ==> final(self).rest().len() == 0,
    old(self).rest().len() > 0 ==> final(self).rest() =~= old(self).rest().drop_last(),
== fn IterPtr::current_backward
-- sig r
-- entry
proof { if self.left_index < self.right_index { lemma_at(self.vector, self.stack_backward->0@, self.right_index - 1); } }
-- spec
requires self.iwf(), self.stack_backward is Some,
ensures self.rest().len() == 0 ==> r is None,
    self.rest().len() > 0 ==> r == Some(self.rest().last()),

== impl Iterator for IterPtr
open spec fn rest(&self) -> Seq<&'a Rc<T>> { refs(self.vector.ptrs().subrange(self.left_index as int, self.right_index as int)) }
open spec fn iwf(&self) -> bool {
    &&& self.vector.wf() && self.left_index <= self.right_index <= self.vector.ptrs().len()
    &&& (self.stack_forward is None ==> self.left_index == 0) && (self.stack_backward is None ==> self.right_index == self.vector.ptrs().len())
    &&& self.stack_forward matches Some(s) ==> stk_at(self.vector, s@, self.left_index as int)
    &&& self.stack_backward matches Some(s) ==> stk_at(self.vector, s@, self.right_index - 1)
}
== fn IterPtr::next
-- sig r
== fn IterPtr::next_back
-- sig r
== fn IterPtr::size_hint
-- sig r
-- spec
requires self.iwf(),
ensures r.0 == self.rest().len(), r.1 == Some(r.0),

== fn Node::get_mut
-- sig r
-- spec
requires lawful_clone::<T>(), exists|bits: nat| #[trigger] get_pre(*old(self), bits, index as nat, height as nat, bucket),
ensures forall|bits: nat| #[trigger] get_pre(*old(self), bits, index as nat, height as nat, bucket)
    ==> *r == *flatp(*old(self))[(index as nat % cap(bits, height as nat)) as int]
        && assoc_post(*old(self), *final(self), bits, index as nat, height as nat, *final(r)),
decreases height,
-- entry
let ghost n0 = *self;
proof {
    assert forall|bits: nat| #[trigger] get_pre(n0, bits, index as nat, height as nat, bucket) implies
        get_step(n0, bits, index as nat, height as nat)
        && assoc_step(n0, bits, index as nat, height as nat)
        && (n0 matches Node::Branch(a) ==> get_pre(*a@[bk(bits, index as nat, height as nat) as int], bits, index as nat, (height - 1) as nat, bucket)) by {
        lemma_get(n0, bits, index as nat, height as nat);
        lemma_assoc(n0, bits, index as nat, height as nat);
    }
    assert forall|bits: nat, m: Node<T>, v: T| get_pre(n0, bits, index as nat, height as nat, bucket) && write_step(n0, m, bits, index as nat, height as nat, v)
        implies #[trigger] assoc_post(n0, m, bits, index as nat, height as nat, v) by {
        lemma_assoc(n0, bits, index as nat, height as nat);
        if n0 is Branch {
            lemma_assoc_child(n0, m, bits, index as nat, height as nat, v);
        } else {
            lemma_flatp(n0);
            lemma_flatp(m);
        }
    }
}
== fn Vector::get_mut
-- sig r
-- spec
requires old(self).wf(), lawful_clone::<T>(),
ensures
    index >= old(self).view().len() ==> r is None && *final(self) == *old(self),
    index < old(self).view().len() ==> r is Some && *r->0 == old(self).view()[index as int]
        && final(self).view() =~= old(self).view().update(index as int, *final(r->0))
        && final(self).wf() && final(self).bits == old(self).bits,
-- entry
let ghost n0 = dn(self.root);
let ghost s0 = *self;
proof {
    let bits = self.bits as nat;
    if index < self.length {
        assert forall|h: nat| #[trigger] is_h(bits, self.length as nat, h) implies self.wfat(h) && index as nat % cap(bits, h) == index && h * bits < 64 by {
            let h1 = choose|h: nat| #[trigger] self.wfat(h);
            lemma_is_h_unique(bits, self.length as nat, h, h1);
            vstd::arithmetic::div_mod::lemma_small_mod(index as nat, cap(bits, h));
            lemma_room(bits, self.length as nat, h);
            assert(h * bits == bits * h) by (nonlinear_arith);
        }
        let len = self.length as nat;
        assert forall|m: Vector<T>, v: T, h: nat| m.length == s0.length && m.bits == s0.bits && is_h(bits, len, h) && #[trigger] assoc_post(n0, *m.root, bits, index as nat, h, v)
            implies #[trigger] m.wf() by {
            assert(m.wfat(h));
        }
    }
}
-- closureproof 0
proof { assert(get_pre(n0, bits as nat, index as nat, height as nat, vx_c0)); }
-- closure 0
vx_a0: usize, vx_a1: usize
-> (r: usize) requires vx_a1 * bits < 64 ensures r == bk(bits as nat, vx_a0 as nat, vx_a1 as nat)
== fn Vector::index
-- sig r
-- spec
requires self.wf(), index < self.view().len(),
ensures *r == self.view()[index as int],
== fn Vector::index_mut
-- sig r
-- spec
requires old(self).wf(), lawful_clone::<T>(), index < old(self).view().len(),
ensures *r == old(self).view()[index as int],
    final(self).view() =~= old(self).view().update(index as int, *final(r)), final(self).wf(),

== fn vector!
-- decl fn vx_macro_vector<T>(vx_items: Vec<T>) -> Vector<T>
-- sig r
-- spec
requires vx_items@.len() <= vx_max_len(),
ensures r.wf(), r.view() =~= vx_items@,
-- entry
proof { lemma_max5(); }
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_acc.view() + vx_it0.rest() =~= vx_items@, vx_acc.bits == 5, vx_items@.len() <= vx_max_len(),
decreases vx_it0.rest().len(),

== fn vector_sync!
-- decl fn vx_macro_vector_sync<T>(vx_items: Vec<T>) -> Vector<T>
-- sig r
-- spec
requires vx_items@.len() <= vx_max_len(),
ensures r.wf(), r.view() =~= vx_items@,
-- entry
proof { lemma_max5(); }
-- loop 0
invariant vx_it0.iwf(), vx_acc.wf(), vx_acc.view() + vx_it0.rest() =~= vx_items@, vx_acc.bits == 5, vx_items@.len() <= vx_max_len(),
decreases vx_it0.rest().len(),
