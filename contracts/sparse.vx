== items
pub proof fn lemma_rk(b: usize, n: int)
    requires 0 <= n,
    ensures 0 <= rk(b, n) <= n, forall|m: int| 0 <= m <= n ==> #[trigger] rk(b, m) <= rk(b, n), n >= 64 ==> rk(b, n) == rk(b, 64),
    decreases n,
{
    if n > 0 { lemma_rk(b, n - 1); }
}
pub proof fn lemma_rk_zero(n: int)
    ensures rk(0usize, n) == 0, forall|i: int| !bit(0usize, i),
    decreases n,
{
    assert forall|i: int| !bit(0usize, i) by { if 0 <= i < 64 { let j = i as usize; assert((0usize & (1usize << j)) == 0) by (bit_vector); } }
    if n > 0 { lemma_rk_zero(n - 1); }
}
pub proof fn lemma_mask(b: usize, vi: usize)
    requires vi < 64,
    ensures forall|i: int| #[trigger] bit(b & sub(1usize << vi, 1), i) == (bit(b, i) && i < vi), (1usize << vi) >= 1,
{
    assert((1usize << vi) >= 1) by (bit_vector) requires vi < 64;
    assert forall|i: int| #[trigger] bit(b & sub(1usize << vi, 1), i) == (bit(b, i) && i < vi) by {
        if 0 <= i < 64 {
            let j = i as usize;
            assert(((b & sub(1usize << vi, 1)) & (1usize << j) != 0) == ((b & (1usize << j)) != 0 && j < vi)) by (bit_vector) requires vi < 64, j < 64;
        }
    }
}
pub proof fn lemma_rk_mask(b: usize, m: usize, vi: int, n: int)
    requires forall|i: int| bit(m, i) == (bit(b, i) && i < vi), 0 <= vi,
    ensures rk(m, n) == rk(b, if n <= vi { n } else { vi }),
    decreases n,
{
    if n > 0 { lemma_rk_mask(b, m, vi, n - 1); }
}
pub proof fn lemma_or(b: usize, k: usize)
    requires k < 64,
    ensures forall|i: int| #[trigger] bit(b | (1usize << k), i) == (bit(b, i) || i == k), bit(b, k as int) == ((b & (1usize << k)) != 0),
{
    assert forall|i: int| #[trigger] bit(b | (1usize << k), i) == (bit(b, i) || i == k) by {
        if 0 <= i < 64 {
            let j = i as usize;
            assert(((b | (1usize << k)) & (1usize << j) != 0) == ((b & (1usize << j)) != 0 || j == k)) by (bit_vector) requires k < 64, j < 64;
        }
    }
}
pub proof fn lemma_xor(b: usize, k: usize)
    requires k < 64, bit(b, k as int),
    ensures forall|i: int| #[trigger] bit(b ^ (1usize << k), i) == (bit(b, i) && i != k), b & !(1usize << k) == b ^ (1usize << k), sub(b, 1usize << k) == b ^ (1usize << k), b >= 1usize << k,
{
    assert(b & !(1usize << k) == b ^ (1usize << k) && sub(b, 1usize << k) == b ^ (1usize << k) && b >= 1usize << k) by (bit_vector) requires k < 64, (b & (1usize << k)) != 0;
    assert forall|i: int| #[trigger] bit(b ^ (1usize << k), i) == (bit(b, i) && i != k) by {
        if 0 <= i < 64 {
            let j = i as usize;
            assert(((b ^ (1usize << k)) & (1usize << j) != 0) == ((b & (1usize << j)) != 0 && j != k)) by (bit_vector) requires k < 64, j < 64, (b & (1usize << k)) != 0;
        }
    }
}
pub proof fn lemma_rk_set(b: usize, c: usize, k: int, n: int)
    requires 0 <= k < 64, !bit(b, k), forall|i: int| #[trigger] bit(c, i) == (bit(b, i) || i == k),
    ensures rk(c, n) == rk(b, n) + (if n > k { 1int } else { 0int }),
    decreases n,
{
    if n > 0 { lemma_rk_set(b, c, k, n - 1); assert(bit(c, n - 1) == (bit(b, n - 1) || n - 1 == k)); }
}
/// a position holds the element of some index
pub proof fn lemma_rk_sel(b: usize, p: int, n: int) -> (i: int)
    requires 0 <= p < rk(b, n), n <= 64,
    ensures 0 <= i < n, bit(b, i), rk(b, i) == p,
    decreases n,
{
    if bit(b, n - 1) && rk(b, n - 1) == p { n - 1 } else { lemma_rk_sel(b, p, n - 1) }
}

impl<T> SparseArrayUsize<T> {
    pub open spec fn has(&self, i: int) -> bool { bit(self.bitmap, i) }
    pub open spec fn pos(&self, i: int) -> int { rk(self.bitmap, i) }
    pub open spec fn items(&self) -> Seq<T> { self.array@ }
    pub open spec fn wf(&self) -> bool { self.items().len() == rk(self.bitmap, 64) }
    /// the same indexes are set
    pub open spec fn same_shape(&self, o: &Self) -> bool { self.bitmap == o.bitmap }

    pub proof fn lemma_pos(&self)
        requires self.wf(),
        ensures
            forall|i: int| #[trigger] self.has(i) ==> 0 <= i < 64 && 0 <= self.pos(i) < self.items().len(),
            forall|i: int, j: int| #![trigger self.has(i), self.has(j)] self.has(i) && self.has(j) && i < j ==> self.pos(i) < self.pos(j),
            self.items().len() <= 64,
    {
        lemma_rk(self.bitmap, 64);
        assert forall|i: int| #[trigger] self.has(i) implies 0 <= i < 64 && 0 <= self.pos(i) < self.items().len() by {
            lemma_rk(self.bitmap, i);
            assert(rk(self.bitmap, i + 1) == rk(self.bitmap, i) + 1);
        }
        assert forall|i: int, j: int| #![trigger self.has(i), self.has(j)] self.has(i) && self.has(j) && i < j implies self.pos(i) < self.pos(j) by {
            lemma_rk(self.bitmap, j);
            assert(rk(self.bitmap, i + 1) == rk(self.bitmap, i) + 1);
        }
    }
    pub proof fn lemma_sel(&self, p: int) -> (i: int)
        requires self.wf(), 0 <= p < self.items().len(),
        ensures self.has(i), self.pos(i) == p,
    {
        lemma_rk_sel(self.bitmap, p, 64)
    }
    /// `o` has one more index set
    pub open spec fn with(&self, o: &Self, k: int) -> bool {
        &&& !self.has(k) && 0 <= k < 64 && 0 <= self.pos(k) <= self.items().len()
        &&& forall|i: int| #[trigger] o.has(i) == (self.has(i) || i == k)
        &&& forall|i: int| #[trigger] o.pos(i) == self.pos(i) + (if i > k { 1int } else { 0int })
        &&& forall|i: int| #[trigger] self.has(i) && i > k ==> self.pos(i) >= self.pos(k)
        &&& forall|i: int| #[trigger] self.has(i) && i < k ==> self.pos(i) < self.pos(k)
    }
}
proof fn lemma_with<T>(a: SparseArrayUsize<T>, b: SparseArrayUsize<T>, k: int)
    requires a.wf(), 0 <= k < 64, !a.has(k), forall|i: int| #[trigger] bit(b.bitmap, i) == (bit(a.bitmap, i) || i == k),
    ensures a.with(&b, k), rk(b.bitmap, 64) == rk(a.bitmap, 64) + 1,
{
    lemma_rk_set(a.bitmap, b.bitmap, k, 64);
    lemma_rk(a.bitmap, 64);
    lemma_rk(a.bitmap, k);
    assert forall|i: int| #[trigger] b.pos(i) == a.pos(i) + (if i > k { 1int } else { 0int }) by { lemma_rk_set(a.bitmap, b.bitmap, k, i); }
    assert forall|i: int| #[trigger] a.has(i) && i > k implies a.pos(i) >= a.pos(k) by { lemma_rk(a.bitmap, i); }
    assert forall|i: int| #[trigger] a.has(i) && i < k implies a.pos(i) < a.pos(k) by { assert(rk(a.bitmap, i + 1) == rk(a.bitmap, i) + 1); }
}

== fn map_index
-- sig r
-- spec
requires virtual_index < 64,
ensures match r { Some(i) => bit(bitmap, virtual_index as int) && i == rk(bitmap, virtual_index as int), None => !bit(bitmap, virtual_index as int) },
-- entry
proof {
    lemma_or(bitmap, virtual_index);
    assert((bitmap >> virtual_index) & 1 == if bitmap & (1usize << virtual_index) != 0 { 1usize } else { 0 }) by (bit_vector) requires virtual_index < 64;
}

== fn rank
-- sig r
-- spec
requires virtual_index < 64,
ensures r == rk(bitmap, virtual_index as int), r <= 64,
-- entry
proof {
    lemma_mask(bitmap, virtual_index);
    assert(!(0xffff_ffff_ffff_ffffusize << virtual_index) == sub(1usize << virtual_index, 1)) by (bit_vector) requires virtual_index < 64;
    lemma_rk_mask(bitmap, bitmap & sub(1usize << virtual_index, 1), virtual_index as int, 64);
    lemma_rk(bitmap, virtual_index as int);
}

== fn SparseArrayUsize::new
-- sig r
-- spec
ensures r.wf(), r.items() == Seq::<T>::empty(), forall|i: int| !r.has(i),
-- entry
proof { lemma_rk_zero(64); }

== fn SparseArrayUsize::get
-- sig r
-- spec
requires self.wf(), index < 64,
ensures match r { Some(x) => self.has(index as int) && *x == self.items()[self.pos(index as int)], None => !self.has(index as int) },
-- entry
proof { self.lemma_pos(); let _ = self.has(index as int); assert(self.has(index as int) ==> 0 <= self.pos(index as int) < self.items().len()); }

== fn SparseArrayUsize::get_mut
-- sig r
-- spec
requires old(self).wf(), index < 64,
ensures final(self).wf(), final(self).same_shape(old(self)), match r {
    Some(x) => old(self).has(index as int) && *x == old(self).items()[old(self).pos(index as int)]
        && final(self).items() == old(self).items().update(old(self).pos(index as int), *final(x)),
    None => !old(self).has(index as int) && *final(self) == *old(self),
},
-- entry
proof { self.lemma_pos(); let _ = self.has(index as int); assert(self.has(index as int) ==> 0 <= self.pos(index as int) < self.items().len()); }

== fn SparseArrayUsize::first
-- sig r
-- spec
ensures match r { Some(x) => self.items().len() > 0 && *x == self.items()[0], None => self.items().len() == 0 },

== fn SparseArrayUsize::pop
-- sig r
-- spec
ensures match r {
    Some(x) => old(self).items().len() > 0 && x == old(self).items().last() && final(self).items() == old(self).items().drop_last(),
    None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
},

== fn SparseArrayUsize::as_slice
-- sig r
-- spec
ensures r@ == self.items(),

== fn SparseArrayUsize::set
-- spec
requires old(self).wf(), index < 64,
ensures final(self).wf(),
    old(self).has(index as int) ==> final(self).same_shape(old(self)) && final(self).items() =~= old(self).items().update(old(self).pos(index as int), value),
    !old(self).has(index as int) ==> old(self).with(final(self), index as int) && final(self).items() =~= old(self).items().insert(old(self).pos(index as int), value),
-- entry
let ghost s0 = *self;
proof {
    self.lemma_pos();
    lemma_or(self.bitmap, index);
    lemma_rk(self.bitmap, 64);
    assert(self.has(index as int) ==> 0 <= self.pos(index as int) < self.items().len());
    assert(rk(self.bitmap, index as int) <= rk(self.bitmap, 64));
}
-- exit
proof { if !s0.has(index as int) { lemma_with(s0, *self, index as int); } }

== fn SparseArrayUsize::remove
-- spec
requires old(self).wf(), index < 64,
ensures final(self).wf(),
    !old(self).has(index as int) ==> *final(self) == *old(self),
    old(self).has(index as int) ==> final(self).with(old(self), index as int) && final(self).items() =~= old(self).items().remove(old(self).pos(index as int)),
-- entry
let ghost s0 = *self;
proof {
    self.lemma_pos();
    lemma_or(self.bitmap, index);
    if self.has(index as int) { lemma_xor(self.bitmap, index); }
}
-- exit
proof {
    if s0.has(index as int) {
        lemma_rk_set(self.bitmap, s0.bitmap, index as int, 64);
        lemma_with(*self, s0, index as int);
        lemma_rk_set(self.bitmap, s0.bitmap, index as int, index as int);
    }
}

== fn SparseArrayUsize::size
-- sig r
-- spec
requires self.wf(),
ensures r == self.items().len(),
-- entry
proof { self.lemma_pos(); }

== fn SparseArrayUsize::iter
-- sig r
-- spec
ensures r.iwf(), r.rest() =~= refs(self.items()),

== fn SparseArrayUsize::clone
-- sig r
-- spec
ensures r.same_shape(self), r.items().len() == self.items().len(), forall|i: int| 0 <= i < r.items().len() ==> cloned::<T>(self.items()[i], #[trigger] r.items()[i]),
-- entry
broadcast use ax_fits_word;
proof { ax_vec_len(self.array); }
