@module character_sets
@source-replace `pub fn ranges(&self) -> impl Iterator<Item = &CharSet>` => `pub fn ranges(&self) -> std::slice::Iter<'_, CharSet>`
@uses
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::*;
use vstd::multiset::*;
@items
pub open spec fn vmin(a: u32, b: u32) -> u32 { if a <= b { a } else { b } }
pub open spec fn vmax(a: u32, b: u32) -> u32 { if a <= b { b } else { a } }

impl CharSet {
    pub open spec fn wf(self) -> bool { self.start <= self.end && self.end <= MAX_CHAR }
    pub open spec fn has(self, x: u32) -> bool { self.start <= x && x <= self.end }
    /// the set is {x}
    pub open spec fn only(self, x: u32) -> bool { forall|y: u32| #[trigger] self.has(y) <==> y == x }
    /// set inclusion
    pub open spec fn includes(self, o: CharSet) -> bool { forall|x: u32| #[trigger] o.has(x) ==> self.has(x) }
    pub open spec fn disjoint(self, o: CharSet) -> bool { forall|x: u32| !(#[trigger] self.has(x) && o.has(x)) }
}

/// x belongs to every set of the list
pub open spec fn in_all(a: Seq<CharSet>, x: u32) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).has(x) }

pub proof fn lemma_in_all_step(a: Seq<CharSet>, k: int, x: u32)
    requires 0 <= k < a.len(),
    ensures in_all(a.take(k + 1), x) <==> in_all(a.take(k), x) && a[k].has(x),
{
    assert forall|i: int| 0 <= i < k implies a.take(k + 1)[i] == a.take(k)[i] by {}
    if in_all(a.take(k + 1), x) {
        assert(a.take(k + 1)[k].has(x));
        assert forall|i: int| 0 <= i < k implies (#[trigger] a.take(k)[i]).has(x) by { assert(a.take(k + 1)[i].has(x)); }
    }
    if in_all(a.take(k), x) && a[k].has(x) {
        assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] a.take(k + 1)[i]).has(x) by { if i < k { assert(a.take(k)[i].has(x)); } }
    }
}

impl PartialOrdSpecImpl for CharSet {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &CharSet) -> Option<Ordering> {
        if *self == *other { Some(Ordering::Equal) }
        else if self.end < other.start { Some(Ordering::Less) }
        else if self.start > other.end { Some(Ordering::Greater) }
        else { None }
    }
}
impl PartialEqSpecImpl for ClassId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ClassId) -> bool { *self == *other }
}
impl PartialEqSpecImpl for CharSet {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &CharSet) -> bool { *self == *other }
}

pub open spec fn sorted_list(l: Seq<CharSet>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).wf()
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).end < (#[trigger] l[j]).start
}
pub open spec fn covered_by(l: Seq<CharSet>, x: u32) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).has(x) }
pub open spec fn part_ok(l: Seq<CharSet>, w: u32) -> bool {
    &&& sorted_list(l)
    &&& w <= MAX_CHAR + 1
    &&& !covered_by(l, w)
    &&& forall|x: u32| x < w ==> #[trigger] covered_by(l, x)
}

impl CharPartition {
    pub open spec fn sorted(self) -> bool { sorted_list(self.list@) }
    /// x belongs to some interval
    pub open spec fn covered(self, x: u32) -> bool { covered_by(self.list@, x) }
    /// data-structure invariant: sorted disjoint intervals, comp_witness is the least uncovered character
    /// (MAX_CHAR + 1 if there is none)
    pub open spec fn wf(self) -> bool { part_ok(self.list@, self.comp_witness) }
    /// the complementary class is not empty
    pub open spec fn has_complement(self) -> bool { exists|x: u32| x <= MAX_CHAR && !(#[trigger] self.covered(x)) }
    pub open spec fn valid(self, c: ClassId) -> bool {
        match c { ClassId::Interval(i) => i < self.list@.len(), ClassId::Complement => self.has_complement() }
    }
    /// x is a member of class c
    pub open spec fn in_class(self, c: ClassId, x: u32) -> bool {
        match c { ClassId::Interval(i) => i < self.list@.len() && self.list@[i as int].has(x), ClassId::Complement => x <= MAX_CHAR && !self.covered(x) }
    }
    /// x and y belong to the same class
    pub open spec fn same(self, x: u32, y: u32) -> bool {
        forall|i: int| 0 <= i < self.list@.len() ==> ((#[trigger] self.list@[i]).has(x) <==> self.list@[i].has(y))
    }
    /// set lies inside interval i
    pub open spec fn inside(self, set: CharSet, i: int) -> bool { 0 <= i < self.list@.len() && self.list@[i].includes(set) }
    /// set meets no interval
    pub open spec fn outside(self, set: CharSet) -> bool { forall|x: u32| #[trigger] set.has(x) ==> !self.covered(x) }
}

pub open spec fn pairwise_disjoint(s: Seq<CharSet>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).disjoint(#[trigger] s[j])
}

pub open spec fn all_wf(s: Seq<CharSet>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }

pub proof fn lemma_complement(p: CharPartition)
    requires p.wf(),
    ensures p.has_complement() <==> p.comp_witness <= MAX_CHAR,
{
    if p.comp_witness <= MAX_CHAR { assert(!p.covered(p.comp_witness)); }
    if p.has_complement() {
        let x = choose|x: u32| x <= MAX_CHAR && !(#[trigger] p.covered(x));
        if p.comp_witness > MAX_CHAR { assert(p.covered(x)); }
    }
}

/// the i-th interval starts at i or later, so a partition has at most MAX_CHAR + 1 intervals
pub proof fn lemma_start(p: CharPartition, i: int)
    requires p.sorted(), 0 <= i < p.list@.len(),
    ensures p.list@[i].start >= i,
    decreases i,
{
    if i > 0 { lemma_start(p, i - 1); assert(p.list@[i - 1].end < p.list@[i].start); assert(p.list@[i - 1].wf()); }
}

pub proof fn lemma_len(p: CharPartition)
    requires p.sorted(),
    ensures p.list@.len() <= MAX_CHAR + 1,
{
    if p.list@.len() > 0 { lemma_start(p, p.list@.len() - 1); assert(p.list@[p.list@.len() - 1].wf()); }
}

/// membership after adding one interval at the end
pub proof fn lemma_push(p: Seq<CharSet>, c: CharSet, x: u32)
    ensures covered_by(p.push(c), x) <==> covered_by(p, x) || c.has(x),
{
    let q = p.push(c);
    let n = p.len();
    assert(q[n as int] == c);
    if covered_by(p, x) {
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).has(x);
        assert(q[i].has(x));
    }
    if covered_by(q, x) {
        let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).has(x);
        if i < n { assert(p[i].has(x)); }
    }
}

/// pushing an interval after the last one keeps the invariant
pub proof fn lemma_push_wf(p: Seq<CharSet>, w: u32, c: CharSet)
    requires
        part_ok(p, w), c.wf(),
        p.len() > 0 ==> c.start > p.last().end,
    ensures part_ok(p.push(c), if c.start <= w { (c.end + 1) as u32 } else { w }),
{
    let q = p.push(c);
    let n = p.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).end < (#[trigger] q[j]).start by {
        if j == n { if i < n - 1 { assert(p[i].end < p[n - 1].start); assert(p[n - 1].wf()); } }
    }
    assert forall|x: u32| #[trigger] covered_by(q, x) <==> covered_by(p, x) || c.has(x) by { lemma_push(p, c, x); }
    // every interval of p lies before c
    assert forall|x: u32| #[trigger] covered_by(p, x) implies x < c.start by {
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).has(x);
        if i < n - 1 { assert(p[i].end < p[n - 1].start); assert(p[n - 1].wf()); }
    }
    if c.start <= w {
        if c.start < w { assert(covered_by(p, c.start)); }
        assert(w == c.start);
    }
}

/// x lies in at most one interval
pub proof fn lemma_unique_interval(p: CharPartition, x: u32, i: int, j: int)
    requires p.sorted(), 0 <= i < p.list@.len(), 0 <= j < p.list@.len(), p.list@[i].has(x), p.list@[j].has(x),
    ensures i == j,
{
    if i < j { assert(p.list@[i].end < p.list@[j].start); }
    if j < i { assert(p.list@[j].end < p.list@[i].start); }
}

/// Two sorted lists with the same elements are the same list.
pub proof fn lemma_sorted_unique(a: Seq<CharSet>, b: Seq<CharSet>)
    requires
        a.to_multiset() == b.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).start < (#[trigger] a[j]).start,
        forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).start < (#[trigger] b[j]).start,
    ensures a == b,
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.len() == b.len());
    if a.len() == 0 { assert(a =~= b); }
    else {
        let n = a.len() - 1;
        // the largest elements agree
        assert(a.to_multiset().contains(a[n]));
        assert(b.contains(a[n]));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == a[n];
        assert(b.to_multiset().contains(b[n]));
        assert(a.contains(b[n]));
        let l = choose|l: int| 0 <= l < a.len() && a[l] == b[n];
        if k < n { assert(b[k].start < b[n].start); if l < n { assert(a[l].start < a[n].start); } }
        assert(a[n] == b[n]);
        let a1 = a.drop_last();
        let b1 = b.drop_last();
        assert(a =~= a1.push(a[n]));
        assert(b =~= b1.push(b[n]));
        assert(a1.push(a[n]).to_multiset() =~= a1.to_multiset().insert(a[n]));
        assert(b1.push(b[n]).to_multiset() =~= b1.to_multiset().insert(b[n]));
        assert(a1.to_multiset() =~= b1.to_multiset()) by {
            assert(a1.to_multiset() =~= a.to_multiset().remove(a[n]));
            assert(b1.to_multiset() =~= b.to_multiset().remove(a[n]));
        }
        lemma_sorted_unique(a1, b1);
    }
}

/// pairwise disjointness of a list of (non-empty) intervals does not depend on its order
pub proof fn lemma_disjoint_multiset(a: Seq<CharSet>, b: Seq<CharSet>)
    requires a.to_multiset() == b.to_multiset(), all_wf(a),
    ensures all_wf(b), pairwise_disjoint(a) <==> pairwise_disjoint(b),
{
    lemma_disjoint_multiset1(a, b);
    lemma_disjoint_multiset1(b, a);
}

pub proof fn lemma_disjoint_multiset1(a: Seq<CharSet>, b: Seq<CharSet>)
    requires a.to_multiset() == b.to_multiset(), all_wf(a),
    ensures all_wf(b), pairwise_disjoint(a) ==> pairwise_disjoint(b),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).wf() by {
        assert(b.to_multiset().count(b[i]) > 0);
        assert(a.contains(b[i]));
    }
    if pairwise_disjoint(a) {
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).disjoint(#[trigger] b[j]) by {
            let (x, y) = (b[i], b[j]);
            if x == y {
                // x occurs twice in b, hence twice in a
                lemma_count_two(b, i, j);
                let (k, l) = lemma_two_of(a, x);
                assert(a[k].disjoint(a[l]));
                assert(x.has(x.start));
            } else {
                assert(b.to_multiset().count(x) > 0);
                assert(b.to_multiset().count(y) > 0);
                assert(a.contains(x) && a.contains(y));
                let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
                let l = choose|l: int| 0 <= l < a.len() && a[l] == y;
                if k < l { assert(a[k].disjoint(a[l])); } else { assert(a[l].disjoint(a[k])); }
            }
        }
    }
}

pub proof fn lemma_count_two(b: Seq<CharSet>, i: int, j: int)
    requires 0 <= i < j < b.len(), b[i] == b[j],
    ensures b.to_multiset().count(b[i]) >= 2,
{
    let c = b.remove(j);
    b.to_multiset_ensures();
    c.to_multiset_ensures();
    assert(c[i] == b[i]);
    assert(c.contains(c[i]));
    assert(c.to_multiset().count(b[i]) > 0);
    assert(b.to_multiset().remove(b[j]) =~= c.to_multiset());
}

pub proof fn lemma_two_of(a: Seq<CharSet>, x: CharSet) -> (kl: (int, int))
    requires a.to_multiset().count(x) >= 2,
    ensures 0 <= kl.0 < kl.1 < a.len(), a[kl.0] == x, a[kl.1] == x,
{
    a.to_multiset_ensures();
    assert(a.contains(x));
    let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
    let c = a.remove(k);
    c.to_multiset_ensures();
    assert(a.to_multiset().remove(x) =~= c.to_multiset());
    assert(c.to_multiset().count(x) > 0);
    assert(c.contains(x));
    let l = choose|l: int| 0 <= l < c.len() && c[l] == x;
    if l < k { (l, k) } else { (k, l + 1) }
}

/// try_from_iter/try_from_list give the same partition for every order of the input
pub proof fn lemma_order_independent(p: CharPartition, q: CharPartition)
    requires p.wf(), q.wf(), p.list@.to_multiset() == q.list@.to_multiset(),
    ensures p.list@ == q.list@, p.comp_witness == q.comp_witness,
{
    assert forall|i: int, j: int| 0 <= i < j < p.list@.len() implies (#[trigger] p.list@[i]).start < (#[trigger] p.list@[j]).start by { assert(p.list@[i].wf()); }
    assert forall|i: int, j: int| 0 <= i < j < q.list@.len() implies (#[trigger] q.list@[i]).start < (#[trigger] q.list@[j]).start by { assert(q.list@[i].wf()); }
    lemma_sorted_unique(p.list@, q.list@);
    if p.comp_witness < q.comp_witness { assert(q.covered(p.comp_witness)); }
    if q.comp_witness < p.comp_witness { assert(p.covered(q.comp_witness)); }
}

/// the class ids of a partition, in the order of the iterators
pub open spec fn class_seq(p: CharPartition) -> Seq<ClassId> {
    Seq::new(p.list@.len() + if p.has_complement() { 1nat } else { 0nat }, |i: int| if i < p.list@.len() { ClassId::Interval(i as usize) } else { ClassId::Complement })
}
pub open spec fn rest_classes(p: CharPartition, k: usize) -> Seq<ClassId> {
    if k <= class_seq(p).len() { class_seq(p).skip(k as int) } else { Seq::empty() }
}
/// one member of each class, in the same order
pub open spec fn pick_seq(p: CharPartition) -> Seq<u32> {
    Seq::new(p.list@.len() + if p.has_complement() { 1nat } else { 0nat }, |i: int| if i < p.list@.len() { p.list@[i].start } else { p.comp_witness })
}
pub open spec fn rest_picks(p: CharPartition, k: usize) -> Seq<u32> {
    if k <= pick_seq(p).len() { pick_seq(p).skip(k as int) } else { Seq::empty() }
}
/// what class_seq and pick_seq say: exactly the valid class ids, once each, and a member of each class
pub proof fn lemma_class_seq(p: CharPartition)
    requires p.wf(),
    ensures
        class_seq(p).len() == pick_seq(p).len(),
        class_seq(p).no_duplicates(),
        forall|c: ClassId| #[trigger] class_seq(p).contains(c) <==> p.valid(c),
        forall|i: int| 0 <= i < class_seq(p).len() ==> p.in_class(#[trigger] class_seq(p)[i], pick_seq(p)[i]),
{
    lemma_complement(p);
    lemma_len(p);
    let s = class_seq(p);
    assert forall|c: ClassId| #[trigger] s.contains(c) <==> p.valid(c) by {
        if p.valid(c) {
            match c {
                ClassId::Interval(i) => { assert(s[i as int] == c); }
                ClassId::Complement => { assert(s[p.list@.len() as int] == c); }
            }
        }
    }
    assert forall|i: int| 0 <= i < s.len() implies p.in_class(#[trigger] s[i], pick_seq(p)[i]) by {
        if i < p.list@.len() { assert(p.list@[i].wf()); }
    }
}

impl<'a> IteratorSpecImpl for ClassIdIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.partition.wf() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<ClassId> { rest_classes(*self.partition, self.counter) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(rest_classes(*self.partition, self.counter).len()) }
    open spec fn peek(&self, i: int) -> Option<ClassId> { None }
}
impl<'a> IteratorSpecImpl for PickIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.partition.wf() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<u32> { rest_picks(*self.partition, self.counter) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(rest_picks(*self.partition, self.counter).len()) }
    open spec fn peek(&self, i: int) -> Option<u32> { None }
}

// ---- merge_partitions: coarsest common refinement

/// p1 and p2 both put x and y in the same class
pub open spec fn same2(p1: CharPartition, p2: CharPartition, x: u32, y: u32) -> bool { p1.same(x, y) && p2.same(x, y) }
pub open spec fn cov2(p1: CharPartition, p2: CharPartition, x: u32) -> bool { p1.covered(x) || p2.covered(x) }
/// every interval of l lies in one class of p1 and in one class of p2
pub open spec fn refines(l: Seq<CharSet>, p1: CharPartition, p2: CharPartition) -> bool {
    forall|k: int, x: u32, y: u32| 0 <= k < l.len() && (#[trigger] l[k]).has(x) && #[trigger] same2(p1, p2, x, y) == same2(p1, p2, x, y) && l[k].has(y) ==> same2(p1, p2, x, y)
}
/// two adjacent intervals of l are never in the same class of p1 and of p2: no coarser list of intervals refines both
pub open spec fn maximal(l: Seq<CharSet>, p1: CharPartition, p2: CharPartition) -> bool {
    forall|k: int| 0 <= k && k + 1 < l.len() && (#[trigger] l[k]).end + 1 == l[k + 1].start ==> !same2(p1, p2, l[k].end, l[k + 1].start)
}
/// m is the coarsest partition (into intervals and the complementary class) that refines p1 and p2
pub open spec fn is_merge(m: CharPartition, p1: CharPartition, p2: CharPartition) -> bool {
    &&& m.wf()
    &&& forall|x: u32| #[trigger] m.covered(x) <==> cov2(p1, p2, x)
    &&& refines(m.list@, p1, p2)
    &&& maximal(m.list@, p1, p2)
}
/// cursor into p: i intervals consumed, [a, b] is what is left of interval i - 1, and [lo, a) meets no interval of p
pub open spec fn cursor(p: CharPartition, i: usize, a: u32, b: u32, lo: u32) -> bool {
    &&& 1 <= i <= p.list@.len() + 1
    &&& lo <= a
    &&& i <= p.list@.len() ==> p.list@[i - 1].start <= a && a <= b && b == p.list@[i - 1].end
    &&& i == p.list@.len() + 1 ==> a == MAX_CHAR + 1 && b == MAX_CHAR + 1
    &&& forall|x: u32| lo <= x < a ==> !#[trigger] p.covered(x)
}
pub open spec fn merged_upto(l: Seq<CharSet>, w: u32, p1: CharPartition, p2: CharPartition, lo: u32) -> bool {
    &&& part_ok(l, w)
    &&& l.len() > 0 ==> l.last().end < lo
    &&& l.len() > 0 && l.last().end + 1 == lo && lo <= MAX_CHAR ==> !same2(p1, p2, l.last().end, lo)
    &&& forall|x: u32| x < lo ==> (#[trigger] covered_by(l, x) <==> cov2(p1, p2, x))
    &&& refines(l, p1, p2)
    &&& maximal(l, p1, p2)
}
/// [u, v] lies inside what is left of the current interval, or before it
pub open spec fn piece(a: u32, b: u32, lo: u32, u: u32, v: u32) -> bool { (a <= u && v <= b) || (lo <= u && v < a) }

pub proof fn lemma_covered_small(p: CharPartition, x: u32)
    requires p.sorted(), x > MAX_CHAR,
    ensures !p.covered(x),
{
    if p.covered(x) { let k = choose|k: int| 0 <= k < p.list@.len() && (#[trigger] p.list@[k]).has(x); assert(p.list@[k].wf()); }
}

pub proof fn lemma_cursor_next(p: CharPartition, i: usize, a: u32, b: u32, lo: u32, a2: u32, b2: u32)
    requires p.wf(), cursor(p, i, a, b, lo), b <= MAX_CHAR,
        a2 == (if i < p.list@.len() { p.list@[i as int].start } else { (MAX_CHAR + 1) as u32 }),
        b2 == (if i < p.list@.len() { p.list@[i as int].end } else { (MAX_CHAR + 1) as u32 }),
    ensures b < a2, cursor(p, (i + 1) as usize, a2, b2, (b + 1) as u32),
        b < MAX_CHAR ==> !p.same(b, (b + 1) as u32),
{
    lemma_len(p);
    assert(p.list@[i - 1].wf());
    assert(p.list@[i - 1].has(b));
    if i < p.list@.len() { assert(p.list@[i as int].wf()); }
    assert forall|x: u32| b + 1 <= x < a2 implies !#[trigger] p.covered(x) by {
        if p.covered(x) {
            let k = choose|k: int| 0 <= k < p.list@.len() && (#[trigger] p.list@[k]).has(x);
            if k < i - 1 { assert(p.list@[k].end < p.list@[i - 1].start); }
            if k > i { assert(p.list@[i as int].end < p.list@[k].start); }
        }
    }
    if b < MAX_CHAR { assert(!p.list@[i - 1].has((b + 1) as u32)); }
}

pub proof fn lemma_piece(p: CharPartition, i: usize, a: u32, b: u32, lo: u32, u: u32, v: u32)
    requires p.wf(), cursor(p, i, a, b, lo), piece(a, b, lo, u, v), u <= v, v <= MAX_CHAR,
    ensures
        forall|x: u32, y: u32| u <= x <= v && u <= y <= v ==> #[trigger] p.same(x, y),
        a <= u ==> forall|x: u32| u <= x <= v ==> #[trigger] p.covered(x),
        a > u ==> forall|x: u32| u <= x <= v ==> !#[trigger] p.covered(x),
{
    assert forall|x: u32, y: u32| u <= x <= v && u <= y <= v implies #[trigger] p.same(x, y) by {
        if a <= u {
            assert forall|k: int| 0 <= k < p.list@.len() implies ((#[trigger] p.list@[k]).has(x) <==> p.list@[k].has(y)) by {
                assert(p.list@[i - 1].has(x) && p.list@[i - 1].has(y));
                if p.list@[k].has(x) { lemma_unique_interval(p, x, k, i - 1); }
                if p.list@[k].has(y) { lemma_unique_interval(p, y, k, i - 1); }
            }
        } else {
            assert(!p.covered(x) && !p.covered(y));
        }
    }
    if a <= u { assert forall|x: u32| u <= x <= v implies #[trigger] p.covered(x) by { assert(p.list@[i - 1].has(x)); } }
}

/// the last character before the rest of the current interval is in another class, when it is beyond lo
pub proof fn lemma_cut_at_start(p: CharPartition, i: usize, a: u32, b: u32, lo: u32)
    requires p.wf(), cursor(p, i, a, b, lo), lo < a, a <= MAX_CHAR,
    ensures !p.same((a - 1) as u32, a),
{
    let z = (a - 1) as u32;
    assert(!p.covered(z));
    assert(p.list@[i - 1].wf());
    assert(p.list@[i - 1].has(a));
    if p.list@[i - 1].has(z) { assert(p.covered(z)); }
}

pub proof fn lemma_merge_push(l: Seq<CharSet>, w: u32, w2: u32, p1: CharPartition, p2: CharPartition, u: u32, v: u32, lo: u32)
    requires
        p1.wf(), p2.wf(),
        merged_upto(l, w, p1, p2, u), u <= v, v < lo, v <= MAX_CHAR,
        part_ok(l.push(CharSet { start: u, end: v }), w2),
        forall|x: u32, y: u32| u <= x <= v && u <= y <= v ==> #[trigger] p1.same(x, y),
        forall|x: u32, y: u32| u <= x <= v && u <= y <= v ==> #[trigger] p2.same(x, y),
        forall|x: u32| u <= x <= v ==> #[trigger] cov2(p1, p2, x),
        forall|x: u32| v < x < lo ==> !#[trigger] cov2(p1, p2, x),
        v + 1 == lo && lo <= MAX_CHAR ==> !same2(p1, p2, v, lo),
    ensures merged_upto(l.push(CharSet { start: u, end: v }), w2, p1, p2, lo),
{
    let c = CharSet { start: u, end: v };
    let q = l.push(c);
    assert forall|x: u32| x < lo implies (#[trigger] covered_by(q, x) <==> cov2(p1, p2, x)) by {
        lemma_push(l, c, x);
        if x >= u && covered_by(l, x) {
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).has(x);
            if i < l.len() - 1 { assert(l[i].end < l[l.len() - 1].start); assert(l[l.len() - 1].wf()); }
        }
    }
    assert forall|k: int, x: u32, y: u32| 0 <= k < q.len() && (#[trigger] q[k]).has(x) && #[trigger] same2(p1, p2, x, y) == same2(p1, p2, x, y) && q[k].has(y) implies same2(p1, p2, x, y) by {
        if k < l.len() { assert(q[k] == l[k]); } else { assert(p1.same(x, y)); assert(p2.same(x, y)); }
    }
    assert forall|k: int| 0 <= k && k + 1 < q.len() && (#[trigger] q[k]).end + 1 == q[k + 1].start implies !same2(p1, p2, q[k].end, q[k + 1].start) by {
        assert(q[k] == l[k]);
        if k + 1 < l.len() { assert(q[k + 1] == l[k + 1]); }
    }
}

/// the partitions of a list
pub open spec fn same_all(ps: Seq<CharPartition>, x: u32, y: u32) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).same(x, y) }
pub open spec fn cov_all(ps: Seq<CharPartition>, x: u32) -> bool { exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).covered(x) }
pub open spec fn parts_wf(ps: Seq<CharPartition>) -> bool { forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).wf() }
/// m is the coarsest partition into intervals and a complementary class that refines every partition of ps
pub open spec fn is_merge_list(m: CharPartition, ps: Seq<CharPartition>) -> bool {
    &&& m.wf()
    &&& forall|x: u32| #[trigger] m.covered(x) <==> cov_all(ps, x)
    &&& forall|k: int, x: u32, y: u32| 0 <= k < m.list@.len() && (#[trigger] m.list@[k]).has(x) && #[trigger] same_all(ps, x, y) == same_all(ps, x, y) && m.list@[k].has(y) ==> same_all(ps, x, y)
    &&& forall|k: int| 0 <= k && k + 1 < m.list@.len() && (#[trigger] m.list@[k]).end + 1 == m.list@[k + 1].start ==> !same_all(ps, m.list@[k].end, m.list@[k + 1].start)
}

pub proof fn lemma_merge_step(r: CharPartition, m: CharPartition, ps: Seq<CharPartition>, p: CharPartition)
    requires is_merge_list(r, ps), is_merge(m, r, p), parts_wf(ps), p.wf(),
    ensures is_merge_list(m, ps.push(p)),
{
    let q = ps.push(p);
    let n = ps.len() as int;
    assert(q[n] == p);
    assert forall|x: u32| #[trigger] cov_all(q, x) <==> cov_all(ps, x) || p.covered(x) by {
        if cov_all(ps, x) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).covered(x); assert(q[j].covered(x)); }
        if p.covered(x) { assert(q[n].covered(x)); }
        if cov_all(q, x) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).covered(x); if j < n { assert(ps[j].covered(x)); } }
    }
    assert forall|x: u32, y: u32| #[trigger] same_all(q, x, y) <==> same_all(ps, x, y) && p.same(x, y) by {
        if same_all(q, x, y) { assert(q[n].same(x, y)); assert forall|j: int| 0 <= j < n implies (#[trigger] ps[j]).same(x, y) by { assert(q[j].same(x, y)); } }
    }
    assert forall|x: u32| #[trigger] m.covered(x) <==> cov_all(q, x) by { assert(m.covered(x) <==> cov2(r, p, x)); assert(r.covered(x) <==> cov_all(ps, x)); }
    assert forall|k: int, x: u32, y: u32| 0 <= k < m.list@.len() && (#[trigger] m.list@[k]).has(x) && #[trigger] same_all(q, x, y) == same_all(q, x, y) && m.list@[k].has(y) implies same_all(q, x, y) by {
        assert(same2(r, p, x, y));
        lemma_same_in_merge(r, ps, x, y);
    }
    assert forall|k: int| 0 <= k && k + 1 < m.list@.len() && (#[trigger] m.list@[k]).end + 1 == m.list@[k + 1].start implies !same_all(q, m.list@[k].end, m.list@[k + 1].start) by {
        let (x, y) = (m.list@[k].end, m.list@[k + 1].start);
        assert(!same2(r, p, x, y));
        if p.same(x, y) && same_all(ps, x, y) { lemma_differ_in_merge(r, ps, x); }
    }
}

/// same class of the merge: same class everywhere
pub proof fn lemma_same_in_merge(r: CharPartition, ps: Seq<CharPartition>, x: u32, y: u32)
    requires is_merge_list(r, ps), r.same(x, y),
    ensures same_all(ps, x, y),
{
    if r.covered(x) {
        let k = choose|k: int| 0 <= k < r.list@.len() && (#[trigger] r.list@[k]).has(x);
        assert(r.list@[k].has(y));
        assert(same_all(ps, x, y) == same_all(ps, x, y));
    } else {
        if r.covered(y) { let k = choose|k: int| 0 <= k < r.list@.len() && (#[trigger] r.list@[k]).has(y); assert(r.list@[k].has(x)); assert(r.covered(x)); }
        assert(!cov_all(ps, x) && !cov_all(ps, y));
        assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] ps[j]).same(x, y) by {
            assert(!ps[j].covered(x) && !ps[j].covered(y));
        }
    }
}

/// two successive characters in different classes of the merge are in different classes of some partition
pub proof fn lemma_differ_in_merge(r: CharPartition, ps: Seq<CharPartition>, x: u32)
    requires is_merge_list(r, ps), x < MAX_CHAR, !r.same(x, (x + 1) as u32),
    ensures !same_all(ps, x, (x + 1) as u32),
{
    let y = (x + 1) as u32;
    if same_all(ps, x, y) {
        // covered by the same partitions
        assert(cov_all(ps, x) == cov_all(ps, y)) by {
            if cov_all(ps, x) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).covered(x); lemma_same_covered(ps[j], x, y); }
            if cov_all(ps, y) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).covered(y); assert(ps[j].same(x, y)); assert(ps[j].same(y, x)); lemma_same_covered(ps[j], y, x); }
        }
        assert(r.covered(x) <==> cov_all(ps, x));
        assert(r.covered(y) <==> cov_all(ps, y));
        if r.covered(x) {
            let k = choose|k: int| 0 <= k < r.list@.len() && (#[trigger] r.list@[k]).has(x);
            let l = choose|l: int| 0 <= l < r.list@.len() && (#[trigger] r.list@[l]).has(y);
            assert(r.list@[k].wf() && r.list@[l].wf());
            if k == l {
                assert forall|i: int| 0 <= i < r.list@.len() implies ((#[trigger] r.list@[i]).has(x) <==> r.list@[i].has(y)) by {
                    if r.list@[i].has(x) { lemma_unique_interval(r, x, i, k); }
                    if r.list@[i].has(y) { lemma_unique_interval(r, y, i, k); }
                }
            } else {
                if l < k { assert(r.list@[l].end < r.list@[k].start); }
                if k + 1 < l { assert(r.list@[k].end < r.list@[k + 1].start); assert(r.list@[k + 1].end < r.list@[l].start); assert(r.list@[k + 1].wf()); }
                assert(l == k + 1);
                assert(r.list@[k].end < r.list@[l].start);
                assert(r.list@[k].end == x && r.list@[k + 1].start == y);
            }
        } else {
            assert(r.same(x, y)) by { assert forall|i: int| 0 <= i < r.list@.len() implies ((#[trigger] r.list@[i]).has(x) <==> r.list@[i].has(y)) by {} }
        }
    }
}

pub proof fn lemma_same_covered(p: CharPartition, x: u32, y: u32)
    requires p.same(x, y), p.covered(x),
    ensures p.covered(y),
{
    let k = choose|k: int| 0 <= k < p.list@.len() && (#[trigger] p.list@[k]).has(x);
    assert(p.list@[k].has(y));
}

/// the coarsest common refinement is unique: the result is the same for every order of the list
/// (and for lists with the same members, so merging is commutative, associative and idempotent)
pub proof fn lemma_merge_unique(m1: CharPartition, m2: CharPartition, ps: Seq<CharPartition>, qs: Seq<CharPartition>)
    requires
        is_merge_list(m1, ps), is_merge_list(m2, qs),
        forall|p: CharPartition| #[trigger] ps.contains(p) <==> qs.contains(p),
    ensures m1.list@ == m2.list@, m1.comp_witness == m2.comp_witness,
{
    assert forall|x: u32| #[trigger] cov_all(ps, x) == cov_all(qs, x) by {
        if cov_all(ps, x) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).covered(x); assert(ps.contains(ps[j])); let k = choose|k: int| 0 <= k < qs.len() && qs[k] == ps[j]; assert(qs[k].covered(x)); }
        if cov_all(qs, x) { let j = choose|j: int| 0 <= j < qs.len() && (#[trigger] qs[j]).covered(x); assert(qs.contains(qs[j])); assert(ps.contains(qs[j])); let k = choose|k: int| 0 <= k < ps.len() && ps[k] == qs[j]; assert(ps[k].covered(x)); }
    }
    assert forall|x: u32, y: u32| #[trigger] same_all(ps, x, y) == same_all(qs, x, y) by {
        if same_all(ps, x, y) { assert forall|j: int| 0 <= j < qs.len() implies (#[trigger] qs[j]).same(x, y) by { assert(qs.contains(qs[j])); assert(ps.contains(qs[j])); let k = choose|k: int| 0 <= k < ps.len() && ps[k] == qs[j]; assert(ps[k].same(x, y)); } }
        if same_all(qs, x, y) { assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] ps[j]).same(x, y) by { assert(ps.contains(ps[j])); let k = choose|k: int| 0 <= k < qs.len() && qs[k] == ps[j]; assert(qs[k].same(x, y)); } }
    }
    assert(is_merge_list(m2, ps)) by {
        assert forall|x: u32| #[trigger] m2.covered(x) <==> cov_all(ps, x) by { assert(m2.covered(x) <==> cov_all(qs, x)); assert(cov_all(ps, x) == cov_all(qs, x)); }
        assert forall|k: int, x: u32, y: u32| 0 <= k < m2.list@.len() && (#[trigger] m2.list@[k]).has(x) && #[trigger] same_all(ps, x, y) == same_all(ps, x, y) && m2.list@[k].has(y) implies same_all(ps, x, y) by { assert(same_all(qs, x, y) == same_all(qs, x, y)); }
        assert forall|k: int| 0 <= k && k + 1 < m2.list@.len() && (#[trigger] m2.list@[k]).end + 1 == m2.list@[k + 1].start implies !same_all(ps, m2.list@[k].end, m2.list@[k + 1].start) by { assert(!same_all(qs, m2.list@[k].end, m2.list@[k + 1].start)); }
    }
    let n = if m1.list@.len() <= m2.list@.len() { m1.list@.len() } else { m2.list@.len() } as int;
    lemma_merge_prefix(m1, m2, ps, n);
    if m1.list@.len() > n { lemma_merge_next(m1, m2, ps, n); }
    if m2.list@.len() > n { lemma_merge_next(m2, m1, ps, n); }
    assert(m1.list@ =~= m2.list@);
    if m1.comp_witness < m2.comp_witness { assert(m2.covered(m1.comp_witness)); }
    if m2.comp_witness < m1.comp_witness { assert(m1.covered(m2.comp_witness)); }
}

/// first k intervals equal: m2 has a k-th interval that starts no later than the k-th interval of m1
pub proof fn lemma_merge_next(m1: CharPartition, m2: CharPartition, ps: Seq<CharPartition>, k: int)
    requires
        is_merge_list(m1, ps), is_merge_list(m2, ps), 0 <= k < m1.list@.len(), k <= m2.list@.len(),
        forall|i: int| 0 <= i < k ==> #[trigger] m1.list@[i] == m2.list@[i],
    ensures k < m2.list@.len(), m2.list@[k].start <= m1.list@[k].start,
{
    let x = m1.list@[k].start;
    assert(m1.list@[k].wf());
    assert(m1.list@[k].has(x));
    assert(m1.covered(x));
    assert(m2.covered(x) <==> cov_all(ps, x));
    let j = choose|j: int| 0 <= j < m2.list@.len() && (#[trigger] m2.list@[j]).has(x);
    if j < k { assert(m1.list@[j] == m2.list@[j]); assert(m1.list@[j].end < m1.list@[k].start); }
    if j > k { assert(m2.list@[k].end < m2.list@[j].start); assert(m2.list@[k].wf()); }
}

pub proof fn lemma_merge_end(m1: CharPartition, m2: CharPartition, ps: Seq<CharPartition>, k: int)
    requires
        is_merge_list(m1, ps), is_merge_list(m2, ps), 0 <= k < m1.list@.len(), k < m2.list@.len(),
        m1.list@[k].start == m2.list@[k].start,
    ensures m2.list@[k].end <= m1.list@[k].end,
{
    let e = m1.list@[k].end;
    if e < m2.list@[k].end {
        let f = (e + 1) as u32;
        assert(m1.list@[k].wf() && m2.list@[k].wf());
        assert(m2.list@[k].has(e) && m2.list@[k].has(f));
        assert(m2.covered(f));
        assert(m1.covered(f) <==> cov_all(ps, f));
        let j = choose|j: int| 0 <= j < m1.list@.len() && (#[trigger] m1.list@[j]).has(f);
        assert(m1.list@[j].wf());
        if j < k { assert(m1.list@[j].end < m1.list@[k].start); }
        if j > k + 1 { assert(m1.list@[k].end < m1.list@[k + 1].start); assert(m1.list@[k + 1].end < m1.list@[j].start); assert(m1.list@[k + 1].wf()); }
        assert(j == k + 1);
        assert(m1.list@[k].end < m1.list@[k + 1].start);
        assert(m1.list@[k + 1].start == f);
        assert(same_all(ps, e, f) == same_all(ps, e, f));
    }
}

pub proof fn lemma_merge_prefix(m1: CharPartition, m2: CharPartition, ps: Seq<CharPartition>, k: int)
    requires is_merge_list(m1, ps), is_merge_list(m2, ps), 0 <= k <= m1.list@.len(), k <= m2.list@.len(),
    ensures forall|i: int| 0 <= i < k ==> #[trigger] m1.list@[i] == m2.list@[i],
    decreases k,
{
    if k > 0 {
        lemma_merge_prefix(m1, m2, ps, k - 1);
        lemma_merge_next(m1, m2, ps, k - 1);
        lemma_merge_next(m2, m1, ps, k - 1);
        lemma_merge_end(m1, m2, ps, k - 1);
        lemma_merge_end(m2, m1, ps, k - 1);
    }
}

/// the merge of one partition is that partition (the empty partition is neutral)
pub proof fn lemma_merge_one(p: CharPartition)
    requires p.wf(),
    ensures is_merge_list(p, seq![p]),
{
    let ps = seq![p];
    assert(ps[0] == p);
    assert forall|x: u32| #[trigger] p.covered(x) <==> cov_all(ps, x) by { if p.covered(x) { assert(ps[0].covered(x)); } }
    assert forall|k: int, x: u32, y: u32| 0 <= k < p.list@.len() && (#[trigger] p.list@[k]).has(x) && #[trigger] same_all(ps, x, y) == same_all(ps, x, y) && p.list@[k].has(y) implies same_all(ps, x, y) by {
        assert forall|i: int| 0 <= i < p.list@.len() implies ((#[trigger] p.list@[i]).has(x) <==> p.list@[i].has(y)) by {
            if p.list@[i].has(x) { lemma_unique_interval(p, x, i, k); }
            if p.list@[i].has(y) { lemma_unique_interval(p, y, i, k); }
        }
    }
    assert forall|k: int| 0 <= k && k + 1 < p.list@.len() && (#[trigger] p.list@[k]).end + 1 == p.list@[k + 1].start implies !same_all(ps, p.list@[k].end, p.list@[k + 1].start) by {
        assert(p.list@[k].wf());
        assert(p.list@[k].has(p.list@[k].end));
        assert(!p.list@[k].has(p.list@[k + 1].start));
        assert(!ps[0].same(p.list@[k].end, p.list@[k + 1].start));
    }
}

/// merging with the empty partition adds nothing
pub proof fn lemma_merge_empty(m: CharPartition, p: CharPartition, e: CharPartition)
    requires p.wf(), e.wf(), e.list@.len() == 0, is_merge(m, p, e) || is_merge(m, e, p),
    ensures m.list@ == p.list@, m.comp_witness == p.comp_witness,
{
    lemma_merge_one(p);
    let ps = seq![p];
    assert(ps[0] == p);
    assert forall|x: u32| !#[trigger] e.covered(x) by {}
    assert(is_merge_list(m, ps)) by {
        assert forall|x: u32| #[trigger] m.covered(x) <==> cov_all(ps, x) by { assert(m.covered(x) <==> p.covered(x)) by { assert(cov2(p, e, x) == p.covered(x)); assert(cov2(e, p, x) == p.covered(x)); } if p.covered(x) { assert(ps[0].covered(x)); } }
        assert forall|x: u32, y: u32| #[trigger] same_all(ps, x, y) == p.same(x, y) by { if same_all(ps, x, y) { assert(ps[0].same(x, y)); } }
        assert forall|k: int, x: u32, y: u32| 0 <= k < m.list@.len() && (#[trigger] m.list@[k]).has(x) && #[trigger] same_all(ps, x, y) == same_all(ps, x, y) && m.list@[k].has(y) implies same_all(ps, x, y) by {
            if is_merge(m, p, e) { assert(same2(p, e, x, y)); } else { assert(same2(e, p, x, y)); }
        }
        assert forall|k: int| 0 <= k && k + 1 < m.list@.len() && (#[trigger] m.list@[k]).end + 1 == m.list@[k + 1].start implies !same_all(ps, m.list@[k].end, m.list@[k + 1].start) by {
            let (x, y) = (m.list@[k].end, m.list@[k + 1].start);
            assert(e.same(x, y));
        }
    }
    lemma_merge_unique(m, p, ps, ps);
}
/// characters the merge puts together are together in both partitions
pub proof fn lemma_merge_same(m: CharPartition, p1: CharPartition, p2: CharPartition, x: u32, y: u32)
    requires is_merge(m, p1, p2), m.same(x, y),
    ensures p1.same(x, y), p2.same(x, y),
{
    if m.covered(x) {
        let k = choose|k: int| 0 <= k < m.list@.len() && (#[trigger] m.list@[k]).has(x);
        assert(m.list@[k].has(y));
        let b = same2(p1, p2, x, y);
        if !b { assert(m.list@[k].has(x) && m.list@[k].has(y)); }
    } else {
        if m.covered(y) { let k = choose|k: int| 0 <= k < m.list@.len() && (#[trigger] m.list@[k]).has(y); assert(m.list@[k].has(x)); assert(m.covered(x)); }
        assert(!cov2(p1, p2, x) && !cov2(p1, p2, y));
        assert(!p1.covered(x) && !p1.covered(y) && !p2.covered(x) && !p2.covered(y));
        assert forall|i: int| 0 <= i < p1.list@.len() implies ((#[trigger] p1.list@[i]).has(x) <==> p1.list@[i].has(y)) by {}
        assert forall|i: int| 0 <= i < p2.list@.len() implies ((#[trigger] p2.list@[i]).has(x) <==> p2.list@[i].has(y)) by {}
    }
}
/// members of one class are together
pub proof fn lemma_class_same(p: CharPartition, c: ClassId, x: u32, y: u32)
    requires p.wf(), p.in_class(c, x), p.in_class(c, y),
    ensures p.same(x, y),
{
    match c {
        ClassId::Interval(i) => {
            assert forall|j: int| 0 <= j < p.list@.len() implies ((#[trigger] p.list@[j]).has(x) <==> p.list@[j].has(y)) by {
                if p.list@[j].has(x) { lemma_unique_interval(p, x, i as int, j); }
                if p.list@[j].has(y) { lemma_unique_interval(p, y, i as int, j); }
            }
        },
        ClassId::Complement => {
            assert forall|j: int| 0 <= j < p.list@.len() implies ((#[trigger] p.list@[j]).has(x) <==> p.list@[j].has(y)) by { }
        },
    }
}
@end

@fn CharSet as PartialOrd::partial_cmp props=C20 ret=r
    ensures
        r == Some(Ordering::Equal) <==> *self == *other,
        self.wf() && other.wf() ==> (r == Some(Ordering::Less) <==> (forall|x: u32, y: u32| #[trigger] self.has(x) && #[trigger] other.has(y) ==> x < y)),
        self.wf() && other.wf() ==> (r == Some(Ordering::Greater) <==> (forall|x: u32, y: u32| #[trigger] self.has(x) && #[trigger] other.has(y) ==> x > y)),
@at start
    proof { assert(self.has(self.start) == (self.start <= self.end)); assert(self.has(self.end) == (self.start <= self.end)); assert(other.has(other.start) == (other.start <= other.end)); assert(other.has(other.end) == (other.start <= other.end)); }

@fn CharSet::singleton props=C20 ret=r
    requires x <= MAX_CHAR,
    ensures r.wf(), r.start == x, r.end == x, forall|y: u32| #[trigger] r.has(y) <==> y == x,
@fn CharSet::range props=C20 ret=r
    requires x <= y, y <= MAX_CHAR,
    ensures r.wf(), r.start == x, r.end == y, forall|z: u32| #[trigger] r.has(z) <==> x <= z && z <= y,
@fn CharSet::all_chars props=C20 ret=r
    ensures r.wf(), r.start == 0, r.end == MAX_CHAR, forall|z: u32| #[trigger] r.has(z) <==> z <= MAX_CHAR,
@fn CharSet::contains props=C20,C11,C01 ret=r
    ensures r == self.has(x),
@fn CharSet::covers props=C20,C16 ret=r
    requires self.wf(), other.wf(),
    ensures r == self.includes(*other),
@at start
    proof { assert(other.has(other.start)); assert(other.has(other.end)); }
@fn CharSet::is_before props=C20,C11 ret=r
    requires self.wf(),
    ensures r == (forall|y: u32| #[trigger] self.has(y) ==> y < x), r == (self.end < x),
@at start
    proof { assert(self.has(self.end)); }
@fn CharSet::is_after props=C20 ret=r
    requires self.wf(),
    ensures r == (forall|y: u32| #[trigger] self.has(y) ==> x < y), r == (x < self.start),
@at start
    proof { assert(self.has(self.start)); }
@fn CharSet::size props=C20 ret=r
    requires self.wf(),
    ensures r as int == self.end - self.start + 1,
@fn CharSet::is_singleton props=C20 ret=r
    requires self.wf(),
    ensures r == (exists|x: u32| self.only(x)), r == (self.start == self.end),
@at start
    proof {
        assert(self.has(self.start)); assert(self.has(self.end));
        if self.start == self.end { assert(self.only(self.start)); }
    }
@fn CharSet::is_alphabet props=C20 ret=r
    requires self.wf(),
    ensures r == (forall|x: u32| x <= MAX_CHAR ==> #[trigger] self.has(x)),
@at start
    proof { assert(self.has(0) == (self.start == 0)); assert(self.has(MAX_CHAR) == (self.end == MAX_CHAR)); }
@fn CharSet::pick props=C20,C05 ret=r
    requires self.wf(),
    ensures self.has(r), r == self.start,
@fn CharSet::inter props=C20 ret=r
    requires self.wf(), other.wf(),
    ensures
        r is None <==> self.disjoint(*other),
        r is Some ==> r->0.wf() && forall|x: u32| #[trigger] r->0.has(x) <==> self.has(x) && other.has(x),
@at tail
    proof { if max_start <= min_end { assert(self.has(max_start) && other.has(max_start)); } }
@fn CharSet::inter_list props=C20 ret=r
    requires forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).wf(),
    ensures
        r is None <==> forall|x: u32| x <= MAX_CHAR ==> !(#[trigger] in_all(a@, x)),
        r is Some ==> r->0.wf() && forall|x: u32| #[trigger] r->0.has(x) <==> x <= MAX_CHAR && in_all(a@, x),
@at loop 0 before
    proof {
        assert forall|x: u32| #[trigger] result.has(x) <==> x <= MAX_CHAR && in_all(a@.take(1), x) by {
            assert(a@.take(1)[0] == a@[0]);
            if in_all(a@.take(1), x) { assert(a@.take(1)[0].has(x)); }
        }
    }
@at loop 0 start
    proof {
        let k = it.index() + 1;
        assert(*s == a@[k]);
        assert forall|x: u32| in_all(a@.take(k + 1), x) <==> in_all(a@.take(k), x) && a@[k].has(x) by { lemma_in_all_step(a@, k, x); }
        assert forall|x: u32| #[trigger] in_all(a@, x) implies in_all(a@.take(k + 1), x) by { assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] a@.take(k + 1)[i]).has(x) by { assert(a@[i].has(x)); } }
        assert forall|x: u32| x <= MAX_CHAR && #[trigger] in_all(a@, x) implies result.has(x) && s.has(x) by {}
    }
@at start
    proof { if a@.len() == 0 { assert(in_all(a@, 0)); } }
@before `Some(result)`
    proof {
        assert(a@.take(a@.len() as int) =~= a@);
        assert(result.has(result.start));
        assert(in_all(a@, result.start));
    }
@loop 0 iter=it
    invariant
        forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).wf(),
        result.wf(), a@.len() > 0, it.seq() == a@.subrange(1, a@.len() as int).map_values(|x: CharSet| &x),
        forall|x: u32| #[trigger] result.has(x) <==> x <= MAX_CHAR && in_all(a@.take(it.index() + 1), x),
@fn CharSet::union props=C20 ret=r
    requires self.wf(), other.wf(),
    ensures
        r is Some ==> r->0.wf() && forall|x: u32| #[trigger] r->0.has(x) <==> self.has(x) || other.has(x),
        r is None ==> !(exists|c: CharSet| c.wf() && forall|x: u32| #[trigger] c.has(x) <==> self.has(x) || other.has(x)),
@at start
    proof {
        assert forall|c: CharSet| c.wf() && (forall|x: u32| #[trigger] c.has(x) <==> self.has(x) || other.has(x))
            implies !(self.end + 1 < other.start) && !(other.end + 1 < self.start) by {
            assert(self.has(self.start) && self.has(self.end) && other.has(other.start) && other.has(other.end));
            assert(c.has(self.start) && c.has(self.end) && c.has(other.start) && c.has(other.end));
            if self.end + 1 < other.start { let g: u32 = (self.end + 1) as u32; assert(c.has(g)); assert(!self.has(g) && !other.has(g)); }
            if other.end + 1 < self.start { let g: u32 = (other.end + 1) as u32; assert(c.has(g)); assert(!self.has(g) && !other.has(g)); }
        }
    }

@fn CharPartition::len props=C11,C12 ret=r
    ensures r == self.list@.len(),
@fn CharPartition::is_empty props=C11,C12 ret=r
    ensures r == (self.list@.len() == 0),
@fn CharPartition::new props=C11,C12 ret=r
    ensures r.wf(), r.list@.len() == 0, r.comp_witness == 0,
@replace `CharPartition::default()` => `CharPartition { list: Default::default(), comp_witness: Default::default() }`
@fn CharPartition::from_set props=C11 ret=r
    requires c.wf(),
    ensures r.wf(), r.list@ == seq![*c],
@at tail
    proof {
        assert(r.list@.len() == 1 && r.list@[0] == *c);
        assert forall|x: u32| #[trigger] r.covered(x) <==> c.has(x) by { if c.has(x) { assert(r.list@[0].has(x)); } }
    }
@fn CharPartition::try_from_iter props=C11 ret=r
    requires iter.obeys_prophetic_iter_laws(), all_wf(iter.remaining()),
    ensures
        r is Ok <==> pairwise_disjoint(iter.remaining()),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.list@.to_multiset() == iter.remaining().to_multiset(),
        r is Err ==> r->Err_0 == Error::NonDisjointCharSets,
@at start
    let ghost inp = iter.remaining();
@loop 0 iter=it
    invariant
        inp == iter.remaining(), all_wf(inp), all_wf(v@), v@.len() > 0,
        v@.to_multiset() == inp.to_multiset(),
        it.seq() == v@.subrange(1, v@.len() as int).map_values(|x: CharSet| &x),
        *prev == v@[it.index()],
        forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i]).start <= (#[trigger] v@[j]).start,
        forall|i: int, j: int| 0 <= i < j < it.index() + 1 ==> (#[trigger] v@[i]).end < (#[trigger] v@[j]).start,
        part_ok(v@.take(it.index() + 1), comp_witness),
@after `.sort_by_key`
    proof {
        lemma_disjoint_multiset(inp, v@);
        assert(v@[0].wf());
    }
@at loop 0 before
    proof {
        let c = v@[0];
        assert(part_ok(Seq::empty(), 0));
        lemma_push_wf(Seq::empty(), 0, c);
        assert(Seq::<CharSet>::empty().push(c) =~= v@.take(1));
    }
@at loop 0 start
    proof {
        let k = it.index() + 1;
        assert(*c == v@[k]);
        assert(v@[k].wf());
        assert(v@.take(k + 1) =~= v@.take(k).push(v@[k]));
        assert(v@.take(k).last() == v@[k - 1]);
        if c.start > prev.end {
            lemma_push_wf(v@.take(k), comp_witness, *c);
            assert forall|i: int, j: int| 0 <= i < j < k + 1 implies (#[trigger] v@[i]).end < (#[trigger] v@[j]).start by {
                if j == k && i < k - 1 { assert(v@[i].end < v@[k - 1].start); assert(v@[k - 1].wf()); }
            }
        }
    }
@before `return Err`
    proof {
        let k = it.index() + 1;
        // v[k-1] and v[k] overlap, and so do their pre-images in the input
        assert(v@[k - 1].start <= v@[k].start);
        assert(v@[k - 1].has(v@[k].start) && v@[k].has(v@[k].start));
        lemma_disjoint_multiset(inp, v@);
        if pairwise_disjoint(v@) { assert(v@[k - 1].disjoint(v@[k])); }
    }
@before `Ok(CharPartition`
    proof {
        assert(v@.take(v@.len() as int) =~= v@);
        if v@.len() == 0 { assert(part_ok(v@, 0)); }
        assert(pairwise_disjoint(v@));
        lemma_disjoint_multiset(inp, v@);
    }
@replace `iter.collect()` => `crate::prelude::vcollect(iter)`
@replace `v.sort_by_key(` => `crate::prelude::vsort_by_key(&mut v, `
@at closure 0
    |c: &CharSet| -> (k: u32) ensures k == c.start
@fn CharPartition::try_from_list props=C11 ret=r
    requires all_wf(a@),
    ensures
        r is Ok <==> pairwise_disjoint(a@),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.list@.to_multiset() == a@.to_multiset(),
        r is Err ==> r->Err_0 == Error::NonDisjointCharSets,
@replace `a.iter().copied()` => `crate::prelude::vcopied(a)`
@fn CharPartition::push props=C11,C12
    requires old(self).wf(), start <= end, end <= MAX_CHAR, old(self).list@.len() > 0 ==> start > old(self).list@.last().end,
    ensures final(self).wf(), final(self).list@ == old(self).list@.push(CharSet { start, end }),
@at end
    proof { lemma_push_wf(old(self).list@, old(self).comp_witness, CharSet { start, end }); }
@fn CharPartition::get props=C11,C12 ret=r
    ensures i < self.list@.len() ==> r == (self.list@[i as int].start, self.list@[i as int].end),
        i >= self.list@.len() ==> r == ((MAX_CHAR + 1) as u32, (MAX_CHAR + 1) as u32),
@fn CharPartition::interval props=C11 ret=r
    requires i < self.list@.len(),
    ensures r == self.list@[i as int],
@fn CharPartition::start props=C11 ret=r
    ensures r == (if i < self.list@.len() { self.list@[i as int].start } else { (MAX_CHAR + 1) as u32 }),
@fn CharPartition::end props=C11 ret=r
    ensures r == (if index < self.list@.len() { self.list@[index as int].end } else { (MAX_CHAR + 1) as u32 }),
@fn CharPartition::pick props=C11 ret=r
    requires i < self.list@.len(),
    ensures self.list@[i as int].wf() ==> self.list@[i as int].has(r), r == self.list@[i as int].start,
@fn CharPartition::empty_complement props=C11,C12 ret=r
    ensures self.wf() ==> r == !self.has_complement(), r == (self.comp_witness > MAX_CHAR),
@at start
    proof { if self.wf() { lemma_complement(*self); } }
@fn CharPartition::pick_complement props=C11,C12 ret=r
    ensures self.wf() && self.has_complement() ==> self.in_class(ClassId::Complement, r), r == self.comp_witness,
@at start
    proof { if self.wf() { lemma_complement(*self); } }
@fn CharPartition::valid_class_id props=C11 ret=r
    requires self.wf(),
    ensures r == self.valid(cid),
@fn CharPartition::num_classes props=C11 ret=r
    requires self.wf(),
    ensures r as int == self.list@.len() + if self.has_complement() { 1int } else { 0int },
@at start
    proof { lemma_len(*self); }
@fn CharPartition::pick_in_class props=C11 ret=r
    requires self.wf(), self.valid(cid),
    ensures self.in_class(cid, r),
@fn CharPartition::class_ids props=C11 ret=r
    ensures *r.partition == *self, r.counter == 0,
@fn CharPartition::picks props=C11,C14 ret=r
    ensures *r.partition == *self, r.counter == 0,
@fn ClassIdIterator as Iterator::next props=C11,C03 ret=r
    ensures
        final(self).partition == old(self).partition, final(self).counter == old(self).counter + 1,
        old(self).partition.wf() ==> r == (if old(self).counter < class_seq(*old(self).partition).len() { Some(class_seq(*old(self).partition)[old(self).counter as int]) } else { None }),
@at start
    proof {
        assume(self.counter < usize::MAX); // at most 2^64 - 2 calls on one iterator
        if self.partition.wf() {
            lemma_len(*self.partition);
            lemma_complement(*self.partition);
            assert(class_seq(*self.partition).len() <= MAX_CHAR + 2);
            if self.counter < class_seq(*self.partition).len() {
                assert(rest_classes(*self.partition, self.counter).drop_first() =~= rest_classes(*self.partition, (self.counter + 1) as usize));
            }
        }
    }
@fn ClassIdIterator as Iterator::size_hint mode=external
@fn PickIterator as Iterator::next props=C11,C14 ret=r
    ensures
        final(self).partition == old(self).partition, final(self).counter == old(self).counter + 1,
        old(self).partition.wf() ==> r == (if old(self).counter < pick_seq(*old(self).partition).len() { Some(pick_seq(*old(self).partition)[old(self).counter as int]) } else { None }),
@at start
    proof {
        assume(self.counter < usize::MAX); // at most 2^64 - 2 calls on one iterator
        if self.partition.wf() {
            lemma_len(*self.partition);
            lemma_complement(*self.partition);
            assert(pick_seq(*self.partition).len() <= MAX_CHAR + 2);
            if self.counter < pick_seq(*self.partition).len() {
                assert(rest_picks(*self.partition, self.counter).drop_first() =~= rest_picks(*self.partition, (self.counter + 1) as usize));
            }
        }
    }
@fn CharPartition::class_of_char props=C11,C01,C03 ret=r
    requires self.wf(),
    ensures
        x <= MAX_CHAR ==> self.valid(r) && self.in_class(r, x),
        match r { ClassId::Interval(i) => i < self.list@.len() && self.list@[i as int].has(x), ClassId::Complement => !self.covered(x) },
@at tail
    proof { if x <= MAX_CHAR && r == ClassId::Complement { assert(!self.covered(x)); } }
@fn CharPartition::class_of_char::binary_search props=C11,C01,C03 ret=r
    requires
        forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]).wf(),
        forall|i: int, j: int| 0 <= i < j < p@.len() ==> (#[trigger] p@[i]).end < (#[trigger] p@[j]).start,
    ensures
        match r { ClassId::Interval(i) => i < p@.len() && p@[i as int].has(x), ClassId::Complement => forall|k: int| 0 <= k < p@.len() ==> !(#[trigger] p@[k]).has(x) },
@loop 0
    invariant
        0 <= i <= j <= p@.len(),
        forall|k: int| 0 <= k < p@.len() ==> (#[trigger] p@[k]).wf(),
        forall|k: int, l: int| 0 <= k < l < p@.len() ==> (#[trigger] p@[k]).end < (#[trigger] p@[l]).start,
        forall|k: int| 0 <= k < i ==> (#[trigger] p@[k]).end < x,
        forall|k: int| j <= k < p@.len() ==> x < (#[trigger] p@[k]).start,
    decreases j - i,
@fn CharPartition::interval_cover props=C11 ret=r
    requires self.wf(), set.wf(),
    ensures match r {
        CoverResult::CoveredBy(i) => self.inside(*set, i as int),
        CoverResult::DisjointFromAll => self.outside(*set),
        CoverResult::Overlaps => !self.outside(*set) && forall|i: int| !self.inside(*set, i),
    },
@at start
    proof {
        lemma_len(*self);
        assert(set.has(set.start)); assert(set.has(set.end));
    }
@after `let (a_i, b_i)`
    proof {
        let n = self.list@.len() as int;
        // no interval other than i can contain set.start; intervals after i start beyond it
        if n > 0 {
            assert(self.list@[i as int].wf());
            assert forall|k: int| 0 <= k < i implies (#[trigger] self.list@[k]).end < a_i by {}
            assert forall|k: int| i < k < n implies (#[trigger] self.list@[k]).start >= self.list@[i + 1].start by { if k > i + 1 { assert(self.list@[i + 1].end < self.list@[k].start); assert(self.list@[i + 1].wf()); } }
            if a <= b_i && a_i <= a { assert(self.list@[i as int].has(a)); assert(self.covered(a)); }
            if a < a_i && a_i <= b { assert(set.has(a_i)); assert(self.list@[i as int].has(a_i)); assert(self.covered(a_i)); }
            if i + 1 < n && self.list@[i + 1].start <= b { assert(self.list@[i + 1].wf()); assert(set.has(self.list@[i + 1].start)); assert(self.list@[i + 1].has(self.list@[i + 1].start)); assert(self.covered(self.list@[i + 1].start)); }
        }
        assert forall|k: int| self.inside(*set, k) implies (self.list@[k].has(a) && self.list@[k].has(b)) by {}
    }
@fn CharPartition::interval_cover::binary_search props=C11 ret=r
    requires
        forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]).wf(),
        forall|i: int, j: int| 0 <= i < j < p@.len() ==> (#[trigger] p@[i]).end < (#[trigger] p@[j]).start,
    ensures
        p@.len() == 0 ==> r == 0,
        p@.len() > 0 ==> r < p@.len() && (p@[r as int].start <= x || r == 0)
            && (r + 1 < p@.len() ==> x < p@[r + 1].start),
@loop 0
    invariant
        forall|k: int| 0 <= k < p@.len() ==> (#[trigger] p@[k]).wf(),
        forall|k: int, l: int| 0 <= k < l < p@.len() ==> (#[trigger] p@[k]).end < (#[trigger] p@[l]).start,
        p@.len() == 0 ==> i == 0 && j == 0,
        p@.len() > 0 ==> 0 <= i < j <= p@.len(),
        i > 0 ==> p@[i as int].start <= x,
        j < p@.len() ==> x < p@[j as int].start,
    decreases j - i,
@fn CharPartition::class_of_set props=C11,C03 ret=r
    requires self.wf(), s.wf(),
    ensures match r {
        Ok(ClassId::Interval(i)) => self.inside(*s, i as int),
        Ok(ClassId::Complement) => self.outside(*s),
        Err(e) => e == Error::AmbiguousCharSet && !self.outside(*s) && forall|i: int| !self.inside(*s, i),
    },
@fn CharPartition::good_char_set props=C11,C03 ret=r
    requires self.wf(), c.wf(),
    ensures r <==> (self.outside(*c) || exists|i: int| self.inside(*c, i)),

@fn merge_partitions props=C12,C14,C01,C03 ret=r
    requires p1.wf(), p2.wf(),
    ensures is_merge(r, *p1, *p2),
@loop 0
    invariant
        p1.wf(), p2.wf(),
        cursor(*p1, triple1.0, triple1.1, triple1.2, vmin(triple1.1, triple2.1)),
        cursor(*p2, triple2.0, triple2.1, triple2.2, vmin(triple1.1, triple2.1)),
        merged_upto(result.list@, result.comp_witness, *p1, *p2, vmin(triple1.1, triple2.1)),
    decreases (MAX_CHAR + 1) as int - triple1.2 as int + (MAX_CHAR + 1) as int - triple2.2 as int + (MAX_CHAR + 1) as int - vmin(triple1.1, triple2.1) as int,
@at loop 0 start
    let ghost l0 = result.list@;
    let ghost w0 = result.comp_witness;
    let ghost t1 = triple1;
    let ghost t2 = triple2;
    proof { lemma_len(*p1); lemma_len(*p2); }
@at loop 0 end
    proof {
        let lo = vmin(t1.1, t2.1);
        let hi = vmin(triple1.1, triple2.1);
        if t1.2 <= MAX_CHAR { lemma_cursor_next(*p1, t1.0, t1.1, t1.2, lo, if t1.0 < p1.list@.len() { p1.list@[t1.0 as int].start } else { (MAX_CHAR + 1) as u32 }, if t1.0 < p1.list@.len() { p1.list@[t1.0 as int].end } else { (MAX_CHAR + 1) as u32 }); }
        if t2.2 <= MAX_CHAR { lemma_cursor_next(*p2, t2.0, t2.1, t2.2, lo, if t2.0 < p2.list@.len() { p2.list@[t2.0 as int].start } else { (MAX_CHAR + 1) as u32 }, if t2.0 < p2.list@.len() { p2.list@[t2.0 as int].end } else { (MAX_CHAR + 1) as u32 }); }
        if lo < t1.1 && t1.1 <= MAX_CHAR { lemma_cut_at_start(*p1, t1.0, t1.1, t1.2, lo); }
        if lo < t2.1 && t2.1 <= MAX_CHAR { lemma_cut_at_start(*p2, t2.0, t2.1, t2.2, lo); }
        let n = result.list@.last();
        assert(n.start == lo);
        lemma_piece(*p1, t1.0, t1.1, t1.2, lo, n.start, n.end);
        lemma_piece(*p2, t2.0, t2.1, t2.2, lo, n.start, n.end);
        assert(result.list@ == l0.push(CharSet { start: lo, end: n.end }));
        lemma_merge_push(l0, w0, result.comp_witness, *p1, *p2, lo, n.end, hi);
    }
@at start
    proof {
        assert forall|x: u32| !covered_by(Seq::<CharSet>::empty(), x) by {}
        if p1.list@.len() > 0 { assert(p1.list@[0].wf()); }
        if p2.list@.len() > 0 { assert(p2.list@[0].wf()); }
        let a = if p1.list@.len() > 0 { p1.list@[0].start } else { (MAX_CHAR + 1) as u32 };
        let c = if p2.list@.len() > 0 { p2.list@[0].start } else { (MAX_CHAR + 1) as u32 };
        assert forall|x: u32| x < a implies !#[trigger] p1.covered(x) by {
            if p1.covered(x) { let k = choose|k: int| 0 <= k < p1.list@.len() && (#[trigger] p1.list@[k]).has(x); if k > 0 { assert(p1.list@[0].end < p1.list@[k].start); } }
        }
        assert forall|x: u32| x < c implies !#[trigger] p2.covered(x) by {
            if p2.covered(x) { let k = choose|k: int| 0 <= k < p2.list@.len() && (#[trigger] p2.list@[k]).has(x); if k > 0 { assert(p2.list@[0].end < p2.list@[k].start); } }
        }
        assert forall|x: u32| x < vmin(a, c) implies !#[trigger] cov2(*p1, *p2, x) by {}
    }
@at tail
    proof {
        assert forall|x: u32| #[trigger] result.covered(x) <==> cov2(*p1, *p2, x) by {
            if x > MAX_CHAR {
                lemma_covered_small(result, x); lemma_covered_small(*p1, x); lemma_covered_small(*p2, x);
            }
        }
    }
@fn merge_partitions::next_interval props=C12,C14 ret=r
    requires i < usize::MAX,
    ensures r.0 == i + 1,
        i < p.list@.len() ==> r.1 == p.list@[i as int].start && r.2 == p.list@[i as int].end,
        i >= p.list@.len() ==> r.1 == MAX_CHAR + 1 && r.2 == MAX_CHAR + 1,

@fn merge_partition_list props=C12,C14,C01,C03 ret=r
    requires list.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < list.remaining().len() ==> (#[trigger] list.remaining()[i]).wf(),
    ensures is_merge_list(r, list.remaining().map_values(|p: &CharPartition| *p)),
@replace `for p in list` => `for p in it: crate::prelude::vcollect(list)`
@at start
    let ghost inp = list.remaining().map_values(|p: &CharPartition| *p);
@loop 0
    invariant
        it.seq().map_values(|p: &CharPartition| *p) == inp, parts_wf(inp),
        is_merge_list(result, inp.take(it.index())),
@at loop 0 before
    proof { assert(inp.take(0) =~= Seq::empty()); assert forall|x: u32| !#[trigger] result.covered(x) by {} }
@at loop 0 start
    let ghost r0 = result;
    let ghost k = it.index();
    proof { assert(*p == inp[k]); }
@at loop 0 end
    proof {
        assert(inp.take(k + 1) =~= inp.take(k).push(inp[k]));
        lemma_merge_step(r0, result, inp.take(k), inp[k]);
    }
@at tail
    proof { assert(inp.take(inp.len() as int) =~= inp); }
@fn CharPartition::ranges props=C02,C11 ret=r
    ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.list@.map_values(|c: CharSet| &c),
