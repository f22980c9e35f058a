@module partitions
@source-replace `impl Iterator<Item = u32> + '_` => `std::vec::IntoIter<u32>`
@uses
use vstd::std_specs::iter::*;
@items
pub open spec fn holds(b: BlockHeader, q: int) -> bool { b.start <= q < b.end }
pub open spec fn apart(a: BlockHeader, b: BlockHeader) -> bool { a.end <= b.start || b.end <= a.start }
impl BasePartition {
    pub open spec fn wf(&self) -> bool {
        &&& self.size < u32::MAX && self.segment@.len() == self.size
        &&& self.block@.len() >= 1 && self.block@[0].start == self.block@[0].end && self.block@[0].end <= self.size
        &&& forall|j: int| 1 <= j < self.block@.len() ==> (#[trigger] self.block@[j]).start < self.block@[j].end && self.block@[j].end <= self.size
        &&& forall|j: int, k: int| 1 <= j < k < self.block@.len() ==> apart(#[trigger] self.block@[j], #[trigger] self.block@[k])
        &&& forall|q: int| 0 <= q < self.size ==> self.covered(q)
        &&& forall|q: int| 0 <= q < self.size ==> (#[trigger] self.segment@[q]) < self.size
        &&& forall|p: int, q: int| 0 <= p < q < self.size ==> #[trigger] self.segment@[p] != #[trigger] self.segment@[q]
        &&& forall|x: u32| x < self.size ==> #[trigger] self.listed(x)
    }
    /// position q is in a block
    pub open spec fn covered(&self, q: int) -> bool { exists|j: int| 1 <= j < self.block@.len() && holds(#[trigger] self.block@[j], q) }
    pub open spec fn listed(&self, x: u32) -> bool { exists|q: int| 0 <= q < self.size && #[trigger] self.segment@[q] == x }
    /// the position of x
    pub open spec fn at(&self, x: u32) -> int { choose|q: int| 0 <= q < self.size && #[trigger] self.segment@[q] == x }
    /// the block of x
    pub open spec fn cls(&self, x: u32) -> int { choose|j: int| 1 <= j < self.block@.len() && holds(#[trigger] self.block@[j], self.at(x)) }
    pub open spec fn len(&self) -> int { self.block@.len() as int }
    pub open spec fn bsize(&self, i: int) -> int { self.block@[i].end - self.block@[i].start }
    /// the elements of block i, in their order
    pub open spec fn elems(&self, i: int) -> Seq<u32> { self.segment@.subrange(self.block@[i].start as int, self.block@[i].end as int) }
}
pub proof fn lemma_cls(p: BasePartition, x: u32)
    requires p.wf(), x < p.size,
    ensures 0 <= p.at(x) < p.size, p.segment@[p.at(x)] == x, 1 <= p.cls(x) < p.len(), holds(p.block@[p.cls(x)], p.at(x)),
{
    assert(p.listed(x));
    assert(p.covered(p.at(x)));
}
pub proof fn lemma_cls_at(p: BasePartition, j: int, q: int)
    requires p.wf(), 1 <= j < p.len(), holds(p.block@[j], q),
    ensures 0 <= q < p.size, p.segment@[q] < p.size, p.at(p.segment@[q]) == q, p.cls(p.segment@[q]) == j,
{
    let x = p.segment@[q];
    lemma_cls(p, x);
    let t = p.at(x);
    if t < q { assert(p.segment@[t] != p.segment@[q]); }
    if q < t { assert(p.segment@[q] != p.segment@[t]); }
    let k = p.cls(x);
    if k < j { assert(apart(p.block@[k], p.block@[j])); }
    if j < k { assert(apart(p.block@[j], p.block@[k])); }
}
/// the elements of a block are those of its class
pub proof fn lemma_elems(p: BasePartition, i: int)
    requires p.wf(), 0 <= i < p.len(),
    ensures
        p.elems(i).len() == p.bsize(i), p.bsize(i) <= p.size, i >= 1 ==> p.bsize(i) > 0, i == 0 ==> p.bsize(i) == 0,
        i >= 1 ==> forall|k: int| 0 <= k < p.elems(i).len() ==> (#[trigger] p.elems(i)[k]) < p.size && p.cls(p.elems(i)[k]) == i,
        i >= 1 ==> forall|x: u32| x < p.size ==> (#[trigger] p.cls(x) == i <==> p.elems(i).contains(x)),
{
    let e = p.elems(i);
    if i >= 1 {
        assert(p.block@[i].start < p.block@[i].end);
        assert forall|k: int| 0 <= k < e.len() implies (#[trigger] e[k]) < p.size && p.cls(e[k]) == i by { lemma_cls_at(p, i, p.block@[i].start + k); }
        assert forall|x: u32| x < p.size implies (#[trigger] p.cls(x) == i <==> e.contains(x)) by {
            lemma_cls(p, x);
            if p.cls(x) == i { assert(e[p.at(x) - p.block@[i].start] == x); }
            if e.contains(x) { let k = choose|k: int| 0 <= k < e.len() && e[k] == x; lemma_cls_at(p, i, p.block@[i].start + k); }
        }
    }
}
/// no more blocks than elements, and with as many as elements every block has one element
pub proof fn lemma_count(p: BasePartition)
    requires p.wf(),
    ensures
        p.len() <= p.size + 1,
        p.len() == p.size + 1 ==> forall|x: u32, y: u32| x < p.size && y < p.size && #[trigger] p.cls(x) == #[trigger] p.cls(y) ==> x == y,
{
    let s = Seq::new((p.len() - 1) as nat, |j: int| p.block@[j + 1].start as int);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < p.size by { assert(p.block@[i + 1].start < p.block@[i + 1].end); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        assert(p.block@[i + 1].start < p.block@[i + 1].end && p.block@[j + 1].start < p.block@[j + 1].end);
        if i < j { assert(apart(p.block@[i + 1], p.block@[j + 1])); } else { assert(apart(p.block@[j + 1], p.block@[i + 1])); }
    }
    lemma_pigeon(s, p.size as int);
    if p.len() == p.size + 1 {
        assert forall|x: u32, y: u32| x < p.size && y < p.size && #[trigger] p.cls(x) == #[trigger] p.cls(y) implies x == y by {
            lemma_cls(p, x); lemma_cls(p, y);
            let j = p.cls(x);
            let (a, b) = if p.at(x) <= p.at(y) { (p.at(x), p.at(y)) } else { (p.at(y), p.at(x)) };
            if a < b {
                assert(s.contains(b));
                let k = choose|k: int| 0 <= k < s.len() && s[k] == b;
                assert(p.block@[k + 1].start == b);
                assert(p.block@[k + 1].start < p.block@[k + 1].end);
                if k + 1 < j { assert(apart(p.block@[k + 1], p.block@[j])); }
                if j < k + 1 { assert(apart(p.block@[j], p.block@[k + 1])); }
            }
        }
    }
}
/// a block of one element
pub proof fn lemma_singleton(p: BasePartition, x: u32, y: u32)
    requires p.wf(), x < p.size, y < p.size, p.cls(x) == p.cls(y), p.bsize(p.cls(x)) <= 1,
    ensures x == y,
{
    lemma_cls(p, x); lemma_cls(p, y);
    assert(p.at(x) == p.at(y));
}
/// the segment was permuted inside block i only
pub open spec fn shuffled(o: BasePartition, f: BasePartition, i: int) -> bool {
    &&& f.size == o.size && f.block@ == o.block@ && f.segment@.len() == o.segment@.len()
    &&& forall|q: int| 0 <= q < o.size && !holds(o.block@[i], q) ==> #[trigger] f.segment@[q] == o.segment@[q]
    &&& perm(o.elems(i), f.elems(i))
}
pub open spec fn perm(a: Seq<u32>, b: Seq<u32>) -> bool {
    &&& b.len() == a.len()
    &&& forall|p: int, q: int| 0 <= p < q < b.len() ==> #[trigger] b[p] != #[trigger] b[q]
    &&& forall|x: u32| #[trigger] a.contains(x) <==> b.contains(x)
}
pub proof fn lemma_shuffled(o: BasePartition, f: BasePartition, i: int)
    requires o.wf(), 1 <= i < o.len(), shuffled(o, f, i),
    ensures f.wf(), forall|x: u32| x < o.size ==> #[trigger] f.cls(x) == o.cls(x),
{
    let h = o.block@[i];
    let a = o.elems(i); let b = f.elems(i);
    assert forall|q: int| 0 <= q < f.size implies f.covered(q) by { assert(o.covered(q)); let j = choose|j: int| 1 <= j < o.block@.len() && holds(#[trigger] o.block@[j], q); assert(holds(f.block@[j], q)); }
    assert forall|q: int| holds(h, q) implies #[trigger] f.segment@[q] == b[q - h.start] && b.contains(f.segment@[q]) && a.contains(f.segment@[q]) by { assert(b[q - h.start] == f.segment@[q]); }
    assert forall|q: int| 0 <= q < f.size implies (#[trigger] f.segment@[q]) < f.size by {
        if holds(h, q) { let k = choose|k: int| 0 <= k < a.len() && a[k] == f.segment@[q]; assert(o.segment@[h.start + k] < o.size); } else { assert(o.segment@[q] < o.size); }
    }
    assert forall|p: int, q: int| 0 <= p < q < f.size implies #[trigger] f.segment@[p] != #[trigger] f.segment@[q] by {
        if holds(h, p) && holds(h, q) { assert(b[p - h.start] != b[q - h.start]); }
        else if holds(h, p) {
            let k = choose|k: int| 0 <= k < a.len() && a[k] == f.segment@[p];
            assert(f.segment@[q] == o.segment@[q]);
            let m = h.start + k;
            if m < q { assert(o.segment@[m] != o.segment@[q]); } else { assert(o.segment@[q] != o.segment@[m]); }
        } else if holds(h, q) {
            let k = choose|k: int| 0 <= k < a.len() && a[k] == f.segment@[q];
            assert(f.segment@[p] == o.segment@[p]);
            let m = h.start + k;
            if m < p { assert(o.segment@[m] != o.segment@[p]); } else { assert(o.segment@[p] != o.segment@[m]); }
        } else { assert(o.segment@[p] != o.segment@[q]); }
    }
    assert forall|x: u32| x < f.size implies #[trigger] f.listed(x) by {
        lemma_cls(o, x);
        let q = o.at(x);
        if holds(h, q) {
            assert(a[q - h.start] == x); assert(a.contains(x)); assert(b.contains(x));
            let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
            assert(f.segment@[h.start + k] == x);
        } else { assert(f.segment@[q] == x); }
    }
    assert forall|x: u32| x < o.size implies #[trigger] f.cls(x) == o.cls(x) by {
        lemma_cls(o, x); lemma_cls(f, x);
        let q = o.at(x);
        if holds(h, q) {
            assert(a[q - h.start] == x); assert(a.contains(x)); assert(b.contains(x));
            let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
            lemma_cls_at(f, i, h.start + k);
            lemma_cls_at(o, i, q);
        } else { assert(f.segment@[q] == x); lemma_cls_at(f, o.cls(x), q); }
    }
}
/// the first n elements of block i stay, the others are now block r
pub open spec fn split_at(o: BasePartition, f: BasePartition, i: int, n: int, r: int) -> bool {
    &&& f.size == o.size && f.segment@ == o.segment@ && r == o.len()
    &&& f.block@ == o.block@.update(i, BlockHeader { start: o.block@[i].start, end: (o.block@[i].start + n) as usize }).push(BlockHeader { start: (o.block@[i].start + n) as usize, end: o.block@[i].end })
}
pub proof fn lemma_split_at(o: BasePartition, f: BasePartition, i: int, n: int)
    requires o.wf(), 1 <= i < o.len(), 0 < n < o.bsize(i), split_at(o, f, i, n, o.len()),
    ensures
        f.wf(), f.len() == o.len() + 1,
        forall|x: u32| x < o.size && o.cls(x) != i ==> #[trigger] f.cls(x) == o.cls(x),
        forall|x: u32| x < o.size && o.cls(x) == i ==> #[trigger] f.cls(x) == (if o.at(x) < o.block@[i].start + n { i } else { o.len() }),
        forall|x: u32| x < o.size ==> #[trigger] f.at(x) == o.at(x),
{
    let l = o.len();
    assert forall|q: int| 0 <= q < f.size implies f.covered(q) by {
        assert(o.covered(q));
        let j = choose|j: int| 1 <= j < o.block@.len() && holds(#[trigger] o.block@[j], q);
        if j == i { if q < o.block@[i].start + n { assert(holds(f.block@[i], q)); } else { assert(holds(f.block@[l], q)); } } else { assert(holds(f.block@[j], q)); }
    }
    assert forall|j: int| 1 <= j < f.block@.len() implies (#[trigger] f.block@[j]).start < f.block@[j].end && f.block@[j].end <= f.size by {
        assert(o.block@[i].start < o.block@[i].end && o.block@[i].end <= o.size);
        if j < l { assert(o.block@[j].start < o.block@[j].end && o.block@[j].end <= o.size); }
    }
    assert forall|j: int, k: int| 1 <= j < k < f.block@.len() implies apart(#[trigger] f.block@[j], #[trigger] f.block@[k]) by {
        if k == l { if j < i { assert(apart(o.block@[j], o.block@[i])); } else if j > i { assert(apart(o.block@[i], o.block@[j])); } }
        else { assert(apart(o.block@[j], o.block@[k])); }
    }
    assert forall|x: u32| x < f.size implies #[trigger] f.listed(x) by { assert(o.listed(x)); let q = choose|q: int| 0 <= q < o.size && #[trigger] o.segment@[q] == x; assert(f.segment@[q] == x); }
    assert forall|x: u32| x < o.size implies #[trigger] f.at(x) == o.at(x) && f.cls(x) == (if o.cls(x) != i { o.cls(x) } else if o.at(x) < o.block@[i].start + n { i } else { l }) by {
        lemma_cls(o, x);
        let q = o.at(x);
        let j = if o.cls(x) != i { o.cls(x) } else if q < o.block@[i].start + n { i } else { l };
        assert(holds(f.block@[j], q));
        lemma_cls_at(f, j, q);
    }
}
pub proof fn lemma_perm_swap(a: Seq<u32>, b: Seq<u32>, k: int, j: int)
    requires perm(a, b), 0 <= j < k < b.len(),
    ensures perm(a, b.update(k, b[j]).update(j, b[k])),
{
    let c = b.update(k, b[j]).update(j, b[k]);
    let w = |i: int| if i == k { j } else if i == j { k } else { i };
    assert forall|p: int, q: int| 0 <= p < q < c.len() implies #[trigger] c[p] != #[trigger] c[q] by {
        if w(p) < w(q) { assert(b[w(p)] != b[w(q)]); } else { assert(b[w(q)] != b[w(p)]); }
    }
    assert forall|x: u32| #[trigger] a.contains(x) <==> c.contains(x) by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[w(i)] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(b[w(i)] == x); }
    }
}
impl Partition {
    pub open spec fn wf(&self) -> bool {
        &&& self.base.wf() && self.block_id@.len() == self.base.size
        &&& forall|x: u32| x < self.base.size ==> #[trigger] self.block_id@[x as int] == self.base.cls(x)
    }
    /// the block of x
    pub open spec fn cls(&self, x: u32) -> int { self.base.cls(x) }
    pub open spec fn n(&self) -> int { self.base.size as int }
    pub open spec fn len(&self) -> int { self.base.len() }
}
/// block i was split by a test: yes stays in block i, no goes to the new block, unless one of them is empty
pub open spec fn refined(o: BasePartition, f: BasePartition, i: int, r: (u32, u32), yes: spec_fn(u32) -> bool, no: spec_fn(u32) -> bool) -> bool {
    &&& f.wf() && f.size == o.size
    &&& r == (0u32, i as u32) || r == (i as u32, 0u32) || r == (i as u32, o.len() as u32)
    &&& r == (i as u32, o.len() as u32) ==> f.len() == o.len() + 1
    &&& r != (i as u32, o.len() as u32) ==> f.len() == o.len()
    &&& forall|x: u32| x < o.size && o.cls(x) != i ==> #[trigger] f.cls(x) == o.cls(x)
    &&& forall|x: u32| x < o.size && o.cls(x) == i ==> ((#[trigger] f.cls(x) == r.0 && yes(x)) || (f.cls(x) == r.1 && no(x)))
}
pub proof fn lemma_refined<P: Fn(u32) -> bool>(o: BasePartition, g: BasePartition, f: BasePartition, i: int, n: int, t: Seq<u32>, r: (u32, u32), p: P)
    requires
        o.wf(), 1 <= i < o.len(), shuffled(o, g, i), t == g.elems(i), 0 <= n <= t.len(),
        forall|m: int| 0 <= m < n ==> call_ensures(p, (#[trigger] t[m],), true),
        forall|m: int| n <= m < t.len() ==> call_ensures(p, (#[trigger] t[m],), false),
        n == 0 ==> f == g && r == (0u32, i as u32),
        n == t.len() ==> f == g && r == (i as u32, 0u32),
        0 < n < t.len() ==> split_at(g, f, i, n, r.1 as int) && r.0 == i,
    ensures refined(o, f, i, r, |x: u32| call_ensures(p, (x,), true), |x: u32| call_ensures(p, (x,), false)),
{
    lemma_shuffled(o, g, i);
    lemma_count(o);
    lemma_elems(g, i);
    if 0 < n < t.len() { lemma_split_at(g, f, i, n); }
    let yes = |x: u32| call_ensures(p, (x,), true);
    let no = |x: u32| call_ensures(p, (x,), false);
    assert forall|x: u32| x < o.size && o.cls(x) == i implies ((#[trigger] f.cls(x) == r.0 && yes(x)) || (f.cls(x) == r.1 && no(x))) by {
        assert(g.cls(x) == i);
        lemma_cls(g, x);
        let m = g.at(x) - g.block@[i].start;
        assert(t[m] == x);
    }
}
/// the labels of the old blocks are right but for the new block
pub proof fn lemma_relabel(o: Partition, f: Partition, i: int, r: (u32, u32))
    requires
        o.wf(), f.block_id@ == o.block_id@, f.base.wf(), f.base.size == o.base.size, 1 <= i < o.len(), o.len() <= u32::MAX,
        r == (0u32, i as u32) || r == (i as u32, 0u32) || r == (i as u32, o.len() as u32),
        forall|x: u32| x < o.n() && o.cls(x) != i ==> #[trigger] f.cls(x) == o.cls(x),
        forall|x: u32| x < o.n() && o.cls(x) == i ==> #[trigger] f.cls(x) == r.0 || f.cls(x) == r.1,
        f.len() == (if r == (i as u32, o.len() as u32) { o.len() + 1 } else { o.len() }),
    ensures
        r.0 == 0 || r.1 == 0 ==> f.wf(),
        r.0 != 0 && r.1 != 0 ==> 1 <= r.1 < f.len() && forall|y: u32| y < f.n() && f.cls(y) != r.1 ==> #[trigger] f.block_id@[y as int] == f.cls(y),
{
    assert forall|y: u32| y < f.n() && (r.0 == 0 || r.1 == 0 || f.cls(y) != r.1) implies #[trigger] f.block_id@[y as int] == f.cls(y) by {
        lemma_cls(f.base, y);
        assert(o.block_id@[y as int] == o.cls(y));
    }
}
@end

@fn BasePartition::new props=C04 ret=r
requires n < u32::MAX,
ensures r.wf(), r.size == n, r.len() == (if n == 0 { 1int } else { 2 }), forall|x: u32| x < n ==> #[trigger] r.cls(x) == 1,
@loop 0
invariant
    size == n, segment@.len() == size, forall|q: int| 0 <= q < i ==> #[trigger] segment@[q] == q,
@at tail
let ghost p = BasePartition { size, block, segment };
proof {
    assert forall|x: u32| x < p.size implies #[trigger] p.listed(x) by { assert(p.segment@[x as int] == x); }
    assert forall|q: int| 0 <= q < p.size implies p.covered(q) by { assert(holds(p.block@[1], q)); }
    assert(p.wf());
    assert forall|x: u32| x < n implies #[trigger] p.cls(x) == 1 by { lemma_cls(p, x); }
}

@fn BasePartition::num_blocks props=C04 ret=r
requires self.wf() || self.len() <= u32::MAX,
ensures r == self.len(), self.wf() ==> r <= self.size + 1,
@at start
proof { if self.wf() { lemma_count(*self); } }

@fn BasePartition::index props=C04 ret=r
requires self.wf(),
ensures r == self.len() - 1, r <= self.size,
@at start
proof { lemma_count(*self); }

@fn BasePartition::size props=C04 ret=r
requires self.wf(),
ensures r == self.size,

@fn BasePartition::block_size props=C04 ret=r
requires self.wf(), i < self.len(),
ensures r == self.bsize(i as int),
@at start
proof { lemma_elems(*self, i as int); }

@fn BasePartition::smaller_block props=C04 ret=r
requires self.wf(), i < self.len(), j < self.len(),
ensures r == (self.bsize(i as int) <= self.bsize(j as int)),

@fn BasePartition::block_elements props=C04 ret=r
requires self.wf(), i < self.len(),
ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::remaining(&r) == self.elems(i as int),
@replace `self.slice(i).iter().copied()` => `crate::prelude::vcopied(self.slice(i))`

@fn BasePartition::pick_element props=C04 ret=r
requires self.wf(), 1 <= i < self.len(),
ensures r < self.size, self.cls(r) == i,
@at start
proof { lemma_cls_at(*self, i as int, self.block@[i as int].start as int); }

@fn BasePartition::slice props=C04 ret=r
requires self.wf(), i < self.len(),
ensures r@ == self.elems(i as int),
@at start
proof { lemma_elems(*self, i as int); }

@fn BasePartition::slice_mut props=C04 ret=r
requires old(self).wf(), i < old(self).len(),
ensures
    r@ == old(self).elems(i as int),
    final(r)@.len() == r@.len(),
    final(self).size == old(self).size, final(self).block@ == old(self).block@, final(self).segment@.len() == old(self).segment@.len(),
    final(self).elems(i as int) == final(r)@,
    forall|q: int| 0 <= q < old(self).size && !holds(old(self).block@[i as int], q) ==> #[trigger] final(self).segment@[q] == old(self).segment@[q],
@at start
proof { lemma_elems(*self, i as int); }
@replace `&mut self.segment[start..end]` => `crate::prelude::vslice_mut(&mut self.segment, start, end)`

@fn BasePartition::add_block props=C04 ret=r
requires start < end, end <= old(self).size, old(self).len() <= u32::MAX,
ensures r == old(self).len(), final(self).size == old(self).size, final(self).segment@ == old(self).segment@, final(self).block@ == old(self).block@.push(BlockHeader { start, end }),

@fn BasePartition::split_block props=C04 ret=r
requires old(self).wf(), 1 <= i < old(self).len(), 0 < n < old(self).bsize(i as int),
ensures split_at(*old(self), *final(self), i as int, n as int, r as int),
@at start
proof { lemma_count(*self); }

@fn BasePartition::refine_block props=C04 ret=r
requires old(self).wf(), 1 <= i < old(self).len(), forall|x: u32| x < old(self).size ==> #[trigger] call_requires(p, (x,)),
ensures refined(*old(self), *final(self), i as int, r, |x: u32| call_ensures(p, (x,), true), |x: u32| call_ensures(p, (x,), false)),
@at start
let ghost o = *self;
proof { lemma_elems(o, i as int); lemma_count(o); }
@loop 0 iter=it
invariant it.snapshot@.end == o.elems(i as int).len(),
    o.wf(), 1 <= i < o.len(), forall|x: u32| x < o.size ==> #[trigger] call_requires(p, (x,)),
    perm(o.elems(i as int), s@), j <= k, s@.len() == o.elems(i as int).len(),
    forall|m: int| 0 <= m < s@.len() ==> (#[trigger] s@[m]) < o.size,
    forall|m: int| 0 <= m < j ==> call_ensures(p, (#[trigger] s@[m],), true),
    forall|m: int| j <= m < k ==> call_ensures(p, (#[trigger] s@[m],), false),
@at loop 0 start
let ghost t0 = s@;
let ghost j0 = j as int;
@at loop 0 end
proof {
    assert forall|m: int| 0 <= m < s@.len() implies (#[trigger] s@[m]) < o.size by { assert(s@[m] == t0[m] || s@[m] == t0[j0] || s@[m] == t0[k as int]); }
    if s@ != t0 { lemma_perm_swap(o.elems(i as int), t0, k as int, j0); }
    assert forall|m: int| 0 <= m < j implies call_ensures(p, (#[trigger] s@[m],), true) by { if m < j0 { assert(s@[m] == t0[m]); } else { assert(s@[m] == t0[k as int]); } }
    assert forall|m: int| j <= m < k + 1 implies call_ensures(p, (#[trigger] s@[m],), false) by { if m == k { if j0 < k { assert(s@[m] == t0[j0] || s@[m] == t0[k as int]); } } else { assert(s@[m] == t0[m]); } }
}
@before `if j == 0`
let ghost t = s@;
let ghost n = j as int;
@before `(0, i)`
proof { lemma_refined(o, *self, *self, i as int, n, t, (0u32, i), p); }
@before `(i, 0)`
proof { lemma_refined(o, *self, *self, i as int, n, t, (i, 0u32), p); }
@before `let k = self.split_block(i, j)`
let ghost g = *self;
proof { lemma_shuffled(o, g, i as int); }
@before `(i, k)`
proof { lemma_refined(o, g, *self, i as int, n, t, (i, k), p); }

@fn Partition::new props=C04 ret=r
requires n < u32::MAX,
ensures r.wf(), r.n() == n, r.len() == (if n == 0 { 1int } else { 2 }), forall|x: u32| x < n ==> #[trigger] r.cls(x) == 1,

@fn Partition::num_blocks props=C04 ret=r
requires self.wf(),
ensures r == self.len(), r <= self.n() + 1,

@fn Partition::index props=C04 ret=r
requires self.wf(),
ensures r == self.len() - 1, r <= self.n(),

@fn Partition::size props=C04 ret=r
requires self.wf(),
ensures r == self.n(),

@fn Partition::block_size props=C04 ret=r
requires self.wf(), i < self.len(),
ensures r == self.base.bsize(i as int),

@fn Partition::smaller_block props=C04 ret=r
requires self.wf(), i < self.len(), j < self.len(),
ensures r == (self.base.bsize(i as int) <= self.base.bsize(j as int)),

@fn Partition::block_elements props=C04 ret=r
requires self.wf(), i < self.len(),
ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::remaining(&r) == self.base.elems(i as int),

@fn Partition::pick_element props=C04 ret=r
requires self.wf(), 1 <= i < self.len(),
ensures r < self.n(), self.cls(r) == i,

@fn Partition::block_id props=C04 ret=r
requires self.wf(), x < self.n(),
ensures r == self.cls(x), 1 <= r < self.len(),
@at start
proof { lemma_cls(self.base, x); }

@fn Partition::refine_block props=C04 ret=r
requires old(self).wf(), 1 <= i < old(self).len(), forall|x: u32| x < old(self).n() ==> #[trigger] call_requires(p, (x,)),
ensures final(self).wf(), refined(old(self).base, final(self).base, i as int, r, |x: u32| call_ensures(p, (x,), true), |x: u32| call_ensures(p, (x,), false)),
@at start
let ghost o = *self;
proof { lemma_count(o.base); }
@after `let (b1, b2) = result`
proof { lemma_relabel(o, *self, i as int, result); }
@loop 0 iter=it
invariant
    it.seq() == self.base.elems(b2 as int), self.base == f, f.wf(), 1 <= b2 < f.len(),
    self.block_id@.len() == f.size,
    forall|k: int| 0 <= k < it.index@ ==> self.block_id@[(#[trigger] f.elems(b2 as int)[k]) as int] == b2,
    forall|y: u32| y < f.size && f.cls(y) != b2 ==> #[trigger] self.block_id@[y as int] == f.cls(y),
@before `for x in self.base.block_elements(b2)`
let ghost f = self.base;
proof { lemma_elems(f, b2 as int); }
@at loop 0 start
proof { lemma_elems(f, b2 as int); assert(f.elems(b2 as int)[it.index@] == x); }
@at loop 0 end
proof {
    assert forall|k: int| 0 <= k < it.index@ + 1 implies self.block_id@[(#[trigger] f.elems(b2 as int)[k]) as int] == b2 by {}
}
@at loop 0 after
proof {
    assert forall|y: u32| y < f.size implies #[trigger] self.block_id@[y as int] == f.cls(y) by {
        if f.cls(y) == b2 { assert(f.elems(b2 as int).contains(y)); }
    }
}

@fn Partition::refine_block_with_fun props=C04 ret=r
requires
    old(self).wf(), 1 <= i < old(self).len(),
    forall|x: u32| x < old(self).n() ==> #[trigger] call_requires(f, (x,)),
    forall|x: u32, y: u32| x < old(self).n() && #[trigger] call_ensures(f, (x,), y) ==> y < old(self).n(),
ensures
    final(self).wf(), refined(old(self).base, final(self).base, i as int, r,
        |x: u32| exists|y: u32| #[trigger] call_ensures(f, (x,), y) && old(self).cls(y) == b,
        |x: u32| exists|y: u32| #[trigger] call_ensures(f, (x,), y) && old(self).cls(y) != b),
@at start
let ghost o = *self;
proof { lemma_count(o.base); }
@replace `|y| block_ids[f(y) as usize] == b` => `|y: u32| -> (vb: bool) requires y < o.n() ensures exists|z: u32| #[trigger] call_ensures(f, (y,), z) && (o.cls(z) == b) == vb { block_ids[f(y) as usize] == b }`
@after `let (b1, b2) = result`
let ghost yes = |x: u32| exists|y: u32| #[trigger] call_ensures(f, (x,), y) && o.cls(y) == b;
let ghost no = |x: u32| exists|y: u32| #[trigger] call_ensures(f, (x,), y) && o.cls(y) != b;
proof { assert(refined(o.base, self.base, i as int, result, yes, no)); lemma_relabel(o, *self, i as int, result); }
@loop 0 iter=it
invariant
    it.seq() == self.base.elems(b2 as int), self.base == g, g.wf(), 1 <= b2 < g.len(),
    self.block_id@.len() == g.size,
    forall|k: int| 0 <= k < it.index@ ==> self.block_id@[(#[trigger] g.elems(b2 as int)[k]) as int] == b2,
    forall|y: u32| y < g.size && g.cls(y) != b2 ==> #[trigger] self.block_id@[y as int] == g.cls(y),
@before `for x in self.base.block_elements(b2)`
let ghost g = self.base;
proof { lemma_elems(g, b2 as int); }
@at loop 0 start
proof { lemma_elems(g, b2 as int); assert(g.elems(b2 as int)[it.index@] == x); }
@at loop 0 after
proof {
    assert forall|y: u32| y < g.size implies #[trigger] self.block_id@[y as int] == g.cls(y) by {
        if g.cls(y) == b2 { assert(g.elems(b2 as int).contains(y)); }
    }
}
