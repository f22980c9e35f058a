@module minimizer
@uses
use crate::partitions::*;
use crate::fast_sets::*;
use vstd::std_specs::iter::*;
@type-attr Minimizer #[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(F)]
@drop-derive SplitterList Default
@items
impl Default for SplitterList {
    fn default() -> (r: SplitterList)
        ensures r.num_active == 0, r.list@.len() == 0,
    { SplitterList { num_active: 0, list: Vec::new() } }
}
impl SplitterList {
    pub open spec fn wf(&self) -> bool {
        &&& self.num_active <= self.list@.len()
        &&& forall|i: int, j: int| 0 <= i < j < self.list@.len() ==> (#[trigger] self.list@[i]).char != (#[trigger] self.list@[j]).char
    }
    /// there is an entry for character c and class q
    pub open spec fn has(&self, c: u32, q: u32) -> bool { exists|i: int| 0 <= i < self.list@.len() && (#[trigger] self.list@[i]).char == c && self.list@[i].class == q }
    pub open spec fn mentions(&self, c: u32) -> bool { exists|i: int| 0 <= i < self.list@.len() && (#[trigger] self.list@[i]).char == c }
    /// the entry for c is active
    pub open spec fn act(&self, c: u32) -> bool { exists|i: int| 0 <= i < self.num_active && (#[trigger] self.list@[i]).char == c }
    pub open spec fn item(&self, i: int) -> SplitterItem { SplitterItem { char: self.list@[i].char, class: self.list@[i].class, active: i < self.num_active } }
    pub open spec fn items(&self, from: int) -> Seq<SplitterItem> {
        if from <= self.list@.len() { Seq::new((self.list@.len() - from) as nat, |i: int| self.item(from + i)) } else { Seq::empty() }
    }
}
/// the list after add
pub open spec fn added(o: SplitterList, s: SplitterItem) -> Seq<CharClassPair> {
    let n = o.list@.len() as int;
    let k = o.num_active as int;
    let l = o.list@.push(CharClassPair { char: s.char, class: s.class });
    if s.active && k < n { l.update(k, l[n]).update(n, l[k]) } else { l }
}
pub proof fn lemma_added(o: SplitterList, f: SplitterList, s: SplitterItem)
    requires o.wf(), !o.mentions(s.char), f.list@ == added(o, s), f.num_active == o.num_active + (if s.active { 1int } else { 0 }),
    ensures
        f.wf(),
        forall|c: u32, q: u32| #[trigger] f.has(c, q) <==> o.has(c, q) || (c == s.char && q == s.class),
        forall|c: u32| #[trigger] f.mentions(c) <==> o.mentions(c) || c == s.char,
        forall|c: u32| #[trigger] f.act(c) <==> o.act(c) || (c == s.char && s.active),
{
    let n = o.list@.len() as int;
    let k = o.num_active as int;
    // where the entry at position i of the new list comes from
    let w = |i: int| if s.active && k < n { if i == k { n } else if i == n { k } else { i } } else { i };
    let l = o.list@.push(CharClassPair { char: s.char, class: s.class });
    assert forall|i: int| 0 <= i <= n implies #[trigger] f.list@[i] == l[w(i)] && f.list@[w(i)] == l[i] by {}
    assert forall|i: int| 0 <= i < n implies (#[trigger] l[i]).char != s.char by { assert(o.list@[i] == l[i]); }
    assert forall|i: int, j: int| 0 <= i < j < f.list@.len() implies (#[trigger] f.list@[i]).char != (#[trigger] f.list@[j]).char by {
        let a = w(i); let b = w(j);
        if a < n && b < n { if a < b { assert(o.list@[a].char != o.list@[b].char); } else { assert(o.list@[b].char != o.list@[a].char); } }
    }
    assert forall|c: u32, q: u32| #[trigger] f.has(c, q) <==> o.has(c, q) || (c == s.char && q == s.class) by {
        if f.has(c, q) { let i = choose|i: int| 0 <= i < f.list@.len() && (#[trigger] f.list@[i]).char == c && f.list@[i].class == q; if w(i) < n { assert(o.list@[w(i)] == f.list@[i]); } }
        if o.has(c, q) { let i = choose|i: int| 0 <= i < n && (#[trigger] o.list@[i]).char == c && o.list@[i].class == q; assert(l[i] == o.list@[i]); assert(f.list@[w(i)] == o.list@[i]); }
        if c == s.char && q == s.class { assert(f.list@[w(n)] == l[n]); }
    }
    assert forall|c: u32| #[trigger] f.mentions(c) <==> o.mentions(c) || c == s.char by {
        if f.mentions(c) { let i = choose|i: int| 0 <= i < f.list@.len() && (#[trigger] f.list@[i]).char == c; if w(i) < n { assert(o.list@[w(i)] == f.list@[i]); } }
        if o.mentions(c) { let i = choose|i: int| 0 <= i < n && (#[trigger] o.list@[i]).char == c; assert(l[i] == o.list@[i]); assert(f.list@[w(i)] == o.list@[i]); }
        if c == s.char { assert(f.list@[w(n)] == l[n]); }
    }
    assert forall|c: u32| #[trigger] f.act(c) <==> o.act(c) || (c == s.char && s.active) by {
        if f.act(c) { let i = choose|i: int| 0 <= i < f.num_active && (#[trigger] f.list@[i]).char == c; if w(i) < n { assert(o.list@[w(i)] == f.list@[i]); } }
        if o.act(c) { let i = choose|i: int| 0 <= i < k && (#[trigger] o.list@[i]).char == c; assert(l[i] == o.list@[i]); assert(f.list@[i] == o.list@[i]); }
        if c == s.char && s.active { assert(f.list@[k] == l[n]); }
    }
}
impl<'a> IteratorSpecImpl for SplitterListIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<SplitterItem> { self.list.items(self.index as int) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.list.items(self.index as int).len()) }
    open spec fn peek(&self, i: int) -> Option<SplitterItem> { None }
}
impl SplitterSet {
    pub open spec fn wf(&self) -> bool { forall|b: int| 0 <= b < self.list@.len() ==> (#[trigger] self.list@[b]).wf() }
    pub open spec fn has(&self, b: int, c: u32, q: u32) -> bool { 0 <= b < self.list@.len() && self.list@[b].has(c, q) }
    pub open spec fn mentions(&self, b: int, c: u32) -> bool { 0 <= b < self.list@.len() && self.list@[b].mentions(c) }
    pub open spec fn act(&self, b: int, c: u32) -> bool { 0 <= b < self.list@.len() && self.list@[b].act(c) }
}
/// the number of active entries
pub open spec fn actives(s: Seq<SplitterList>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { actives(s.drop_last()) + s.last().num_active as nat } }
pub proof fn lemma_actives(s: Seq<SplitterList>, b: int, l: SplitterList)
    requires 0 <= b < s.len(),
    ensures actives(s.update(b, l)) == actives(s) - s[b].num_active + l.num_active,
    decreases s.len(),
{
    let t = s.update(b, l);
    if b == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { lemma_actives(s.drop_last(), b, l); assert(t.drop_last() =~= s.drop_last().update(b, l)); }
}
/// the state the transition function answers
pub open spec fn nxt<D: Fn(u32, u32) -> u32>(d: D, x: u32, c: u32) -> u32 { choose|y: u32| call_ensures(d, (x, c), y) }
pub open spec fn fin<F: Fn(u32) -> bool>(f: F, x: u32) -> bool { choose|b: bool| call_ensures(f, (x,), b) }
pub open spec fn run<D: Fn(u32, u32) -> u32>(d: D, x: u32, w: Seq<u32>) -> u32
    decreases w.len(),
{ if w.len() == 0 { x } else { run(d, nxt(d, x, w[0]), w.drop_first()) } }
pub open spec fn word(w: Seq<u32>, k: u32) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] < k }
/// x and y accept the same words
pub open spec fn alike<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(d: D, f: F, k: u32, x: u32, y: u32) -> bool {
    forall|w: Seq<u32>| word(w, k) ==> fin(f, #[trigger] run(d, x, w)) == fin(f, run(d, y, w))
}
pub proof fn lemma_alike_step<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(d: D, f: F, k: u32, x: u32, y: u32, c: u32)
    requires alike(d, f, k, x, y), c < k,
    ensures alike(d, f, k, nxt(d, x, c), nxt(d, y, c)),
{
    assert forall|w: Seq<u32>| word(w, k) implies fin(f, #[trigger] run(d, nxt(d, x, c), w)) == fin(f, run(d, nxt(d, y, c), w)) by {
        let v = seq![c] + w;
        assert(v.drop_first() =~= w);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < k by { if i > 0 { assert(v[i] == w[i - 1]); } }
        assert(fin(f, run(d, x, v)) == fin(f, run(d, y, v)));
    }
}
/// the transition function and the finality test answer one thing, in range
pub open spec fn sane<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(d: D, f: F, n: u32, k: u32) -> bool {
    &&& 1 <= n < u32::MAX && 1 <= k
    &&& forall|x: u32, c: u32| x < n && c < k ==> #[trigger] call_requires(d, (x, c))
    &&& forall|x: u32, c: u32| x < n && c < k ==> #[trigger] nxt(d, x, c) < n
    &&& forall|x: u32, c: u32, y: u32| x < n && c < k && #[trigger] call_ensures(d, (x, c), y) ==> y == nxt(d, x, c)
    &&& forall|x: u32| x < n ==> #[trigger] call_requires(f, (x,))
    &&& forall|x: u32, b: bool| x < n && #[trigger] call_ensures(f, (x,), b) ==> b == fin(f, x)
}
/// states that accept the same words are together, and the states of a class agree on finality and go to the same classes
pub open spec fn settled<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(d: D, f: F, n: u32, k: u32, p: Partition) -> bool {
    &&& p.wf() && p.n() == n
    &&& forall|x: u32, y: u32| x < n && y < n && #[trigger] alike(d, f, k, x, y) ==> p.cls(x) == p.cls(y)
    &&& forall|x: u32, y: u32| x < n && y < n && #[trigger] p.cls(x) == #[trigger] p.cls(y) ==> fin(f, x) == fin(f, y)
    &&& forall|x: u32, y: u32, c: u32| x < n && y < n && c < k && p.cls(x) == p.cls(y) ==> p.cls(#[trigger] nxt(d, x, c)) == p.cls(#[trigger] nxt(d, y, c))
}
pub proof fn lemma_settled<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(m: Minimizer<D, F>)
    requires m.shape(0, 0), m.coarse(), m.sorted(), m.stable(),
    ensures settled(m.delta, m.is_final, m.num_states, m.alphabet_size, m.main_partition),
{
    let p = m.main_partition;
    assert forall|x: u32, y: u32| x < m.num_states && y < m.num_states && #[trigger] p.cls(x) == #[trigger] p.cls(y) implies fin(m.is_final, x) == fin(m.is_final, y) by { assert(m.cls(x) == m.cls(y)); }
    assert forall|x: u32, y: u32, c: u32| x < m.num_states && y < m.num_states && c < m.alphabet_size && p.cls(x) == p.cls(y) implies p.cls(#[trigger] nxt(m.delta, x, c)) == p.cls(#[trigger] nxt(m.delta, y, c)) by {
        assert(m.cls(m.nx(x, c)) == m.cls(m.nx(y, c)));
    }
}
/// the class b, with class j counted as class i
pub open spec fn fold(b: int, i: int, j: int) -> int { if b == j { i } else { b } }
impl<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool> Minimizer<D, F> {
    pub open spec fn nx(&self, x: u32, c: u32) -> u32 { nxt(self.delta, x, c) }
    pub open spec fn cls(&self, x: u32) -> int { self.main_partition.cls(x) }
    pub open spec fn blocks(&self) -> int { self.main_partition.len() }
    pub open spec fn same(&self, o: &Self) -> bool { self.num_states == o.num_states && self.alphabet_size == o.alphabet_size && self.delta == o.delta && self.is_final == o.is_final }
    /// the partitions and the splitters describe the predecessor classes of the blocks (class j counted as class i)
    pub open spec fn shape(&self, i: int, j: int) -> bool {
        &&& sane(self.delta, self.is_final, self.num_states, self.alphabet_size)
        &&& self.main_partition.wf() && self.main_partition.n() == self.num_states
        &&& preds_ok(self.pred_classes@, self.num_states, self.alphabet_size)
        &&& self.splitters.wf() && self.splitters.active_block < self.splitters.list@.len() <= self.blocks()
        &&& forall|b: int, c: u32, q: u32| #[trigger] self.splitters.has(b, c, q) ==> 1 <= b < self.blocks() && c < self.alphabet_size && 1 <= q < self.pred_classes@[c as int].len()
        &&& forall|b: int, c: u32, q: u32, x: u32| #[trigger] self.splitters.has(b, c, q) && x < self.num_states ==> (#[trigger] self.pred_classes@[c as int].cls(x) == q <==> fold(self.cls(self.nx(x, c)), i, j) == b)
        &&& forall|x: u32, c: u32| x < self.num_states && c < self.alphabet_size ==> self.splitters.has(fold(self.cls(#[trigger] self.nx(x, c)), i, j), c, self.pred_classes@[c as int].cls(x) as u32)
    }
    /// x and y go to different blocks on c and neither is an active splitter for c
    pub open spec fn bad(&self, x: u32, y: u32, c: u32) -> bool {
        let a = self.cls(self.nx(x, c));
        let b = self.cls(self.nx(y, c));
        a != b && !self.splitters.act(a, c) && !self.splitters.act(b, c)
    }
    /// Hopcroft's invariant: what is still to be split has an active splitter
    pub open spec fn explained(&self) -> bool {
        forall|x: u32, y: u32, c: u32| x < self.num_states && y < self.num_states && c < self.alphabet_size && self.cls(x) == self.cls(y) ==> !#[trigger] self.bad(x, y, c)
    }
    /// states that accept the same words are together
    pub open spec fn coarse(&self) -> bool {
        forall|x: u32, y: u32| x < self.num_states && y < self.num_states && #[trigger] alike(self.delta, self.is_final, self.alphabet_size, x, y) ==> self.cls(x) == self.cls(y)
    }
    /// only final, or only other, states are together
    pub open spec fn sorted(&self) -> bool {
        forall|x: u32, y: u32| x < self.num_states && y < self.num_states && #[trigger] self.cls(x) == #[trigger] self.cls(y) ==> fin(self.is_final, x) == fin(self.is_final, y)
    }
    /// states that are together go to states that are together
    pub open spec fn stable(&self) -> bool {
        forall|x: u32, y: u32, c: u32| x < self.num_states && y < self.num_states && c < self.alphabet_size && self.cls(x) == self.cls(y) ==> self.cls(#[trigger] self.nx(x, c)) == self.cls(#[trigger] self.nx(y, c))
    }
    /// the blocks of self are parts of the blocks of o
    pub open spec fn within(&self, o: &Self) -> bool {
        forall|x: u32, y: u32| x < o.num_states && y < o.num_states && #[trigger] self.cls(x) == #[trigger] self.cls(y) ==> o.cls(x) == o.cls(y)
    }
    /// nothing that had an active splitter has lost it
    pub open spec fn keeps(&self, o: &Self) -> bool {
        forall|x: u32, y: u32, c: u32| x < o.num_states && y < o.num_states && c < o.alphabet_size && #[trigger] self.bad(x, y, c) ==> o.bad(x, y, c)
    }
    /// block counts and splitters do not go back
    pub open spec fn onward(&self, o: &Self) -> bool { self.blocks() > o.blocks() || (self.blocks() == o.blocks() && self.splitters == o.splitters) }
}
pub open spec fn preds_ok(p: Seq<BasePartition>, n: u32, k: u32) -> bool {
    &&& p.len() == k
    &&& forall|c: int| 0 <= c < k ==> (#[trigger] p[c]).wf() && p[c].size == n
}
/// what updating the splitters after the split of block i into i and j does to the activity of the splitters
pub open spec fn reacted<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, sp: SplitterSet, i: int, j: int, c: u32) -> bool {
    &&& forall|x: u32| x < o.num_states && (o.cls(#[trigger] o.nx(x, c)) == i || o.cls(o.nx(x, c)) == j) && o.splitters.act(i, c) ==> sp.act(o.cls(o.nx(x, c)), c)
    &&& forall|x: u32, y: u32| x < o.num_states && y < o.num_states && o.cls(#[trigger] o.nx(x, c)) == i && o.cls(#[trigger] o.nx(y, c)) == j ==> sp.act(i, c) || sp.act(j, c)
}
pub open spec fn done(l: SplitterList, t: int, c: u32) -> bool { exists|m: int| 0 <= m < t && (#[trigger] l.list@[m]).char == c }
/// between two rounds of the update: the first t entries of l have been refined
pub open spec fn mid<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, l: SplitterList, t: int, p: Seq<BasePartition>, sp: SplitterSet, i: int, j: int) -> bool {
    &&& preds_ok(p, o.num_states, o.alphabet_size)
    &&& forall|c: u32| c < o.alphabet_size && !(#[trigger] done(l, t, c)) ==> p[c as int] == o.pred_classes@[c as int]
    &&& sp.wf() && sp.active_block == o.splitters.active_block && o.splitters.list@.len() <= sp.list@.len() <= o.blocks()
    &&& forall|b: int, c: u32, q: u32| #[trigger] sp.has(b, c, q) ==> 1 <= b < o.blocks() && c < o.alphabet_size && 1 <= q < p[c as int].len() && (b == i || b == j ==> done(l, t, c))
    &&& forall|b: int, c: u32, q: u32, x: u32| #[trigger] sp.has(b, c, q) && x < o.num_states ==> (#[trigger] p[c as int].cls(x) == q <==> o.cls(o.nx(x, c)) == b)
    &&& forall|x: u32, c: u32| x < o.num_states && c < o.alphabet_size && ((o.cls(#[trigger] o.nx(x, c)) != i && o.cls(o.nx(x, c)) != j) || done(l, t, c)) ==> sp.has(o.cls(o.nx(x, c)), c, p[c as int].cls(x) as u32)
    &&& forall|b: int, c: u32| b != i && b != j ==> #[trigger] sp.act(b, c) == o.splitters.act(b, c)
    &&& forall|c: u32| c < o.alphabet_size && #[trigger] done(l, t, c) ==> reacted(o, sp, i, j, c)
}
pub proof fn lemma_mid_start<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, l: SplitterList, sp: SplitterSet, i: int, j: int)
    requires
        o.shape(i, j), 1 <= i < o.blocks(), 1 <= j < o.blocks(), i != j,
        sp.active_block == o.splitters.active_block, sp.list@.len() == o.splitters.list@.len(),
        forall|x: int| 0 <= x < sp.list@.len() && x != i ==> #[trigger] sp.list@[x] == o.splitters.list@[x],
        i < sp.list@.len() ==> sp.list@[i].num_active == 0 && sp.list@[i].list@.len() == 0,
    ensures mid(o, l, 0, o.pred_classes@, sp, i, j),
{
    assert forall|b: int, c: u32, q: u32| #[trigger] sp.has(b, c, q) implies o.splitters.has(b, c, q) && b != i && b != j by {
        if b != i { assert(sp.list@[b] == o.splitters.list@[b]); assert(o.splitters.has(b, c, q)); }
        if b == j {
            let p = o.pred_classes@[c as int];
            assert(p.wf());
            lemma_elems(p, q as int);
            let x = p.elems(q as int)[0];
            assert(p.cls(x) == q);
        }
    }
    assert forall|x: u32, c: u32| x < o.num_states && c < o.alphabet_size && o.cls(#[trigger] o.nx(x, c)) != i && o.cls(o.nx(x, c)) != j implies sp.has(o.cls(o.nx(x, c)), c, o.pred_classes@[c as int].cls(x) as u32) by {
        let b = o.cls(o.nx(x, c));
        assert(o.splitters.has(b, c, o.pred_classes@[c as int].cls(x) as u32));
        assert(sp.list@[b] == o.splitters.list@[b]);
    }
    assert forall|b: int, c: u32| b != i && b != j implies #[trigger] sp.act(b, c) == o.splitters.act(b, c) by {
        if 0 <= b < sp.list@.len() { assert(sp.list@[b] == o.splitters.list@[b]); }
    }
    assert(sp.wf()) by { assert forall|b: int| 0 <= b < sp.list@.len() implies (#[trigger] sp.list@[b]).wf() by { if b != i { assert(o.splitters.list@[b].wf()); } } }
}
/// one round: the class q of l's entry t was refined into r
pub open spec fn flags(p: BasePartition, r: (u32, u32), active: bool) -> (bool, bool) {
    if active { (true, true) } else if p.bsize(r.0 as int) <= p.bsize(r.1 as int) { (true, false) } else { (false, true) }
}
pub proof fn lemma_mid_step<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, l: SplitterList, t: int, p0: Seq<BasePartition>, s0: SplitterSet, p1: Seq<BasePartition>, s1: SplitterSet, i: int, j: int, r: (u32, u32))
    requires
        o.shape(i, j), 1 <= i < o.blocks(), 1 <= j < o.blocks(), i != j, o.blocks() <= u32::MAX,
        i < o.splitters.list@.len() ==> l == o.splitters.list@[i], i >= o.splitters.list@.len() ==> l.list@.len() == 0, l.wf(),
        0 <= t < l.list@.len(), mid(o, l, t, p0, s0, i, j),
        ({
            let c = l.item(t).char; let q = l.item(t).class; let f = flags(p1[c as int], r, l.item(t).active);
            &&& p1 == p0.update(c as int, p1[c as int])
            &&& refined(p0[c as int], p1[c as int], q as int, r, |x: u32| o.cls(o.nx(x, c)) == i, |x: u32| o.cls(o.nx(x, c)) != i)
            &&& s1.wf() && s1.active_block == s0.active_block && s0.list@.len() <= s1.list@.len() <= o.blocks()
            &&& forall|b: int, d: u32, z: u32| #[trigger] s1.has(b, d, z) <==> s0.has(b, d, z) || (r.0 != 0 && b == i && d == c && z == r.0) || (r.1 != 0 && b == j && d == c && z == r.1)
            &&& forall|b: int, d: u32| #[trigger] s1.act(b, d) <==> s0.act(b, d) || (r.0 != 0 && b == i && d == c && f.0) || (r.1 != 0 && b == j && d == c && f.1)
        }),
    ensures mid(o, l, t + 1, p1, s1, i, j),
{
    let c = l.item(t).char; let q = l.item(t).class;
    let a = p0[c as int]; let g = p1[c as int];
    let f = flags(g, r, l.item(t).active);
    lemma_step_facts(o, l, t, p0, s0, i, j);
    lemma_count(g);
    assert(a.wf() && a.size == o.num_states);
    assert forall|d: u32| #[trigger] done(l, t + 1, d) <==> done(l, t, d) || d == c by {
        if done(l, t + 1, d) { let m = choose|m: int| 0 <= m < t + 1 && (#[trigger] l.list@[m]).char == d; if m < t { assert(l.list@[m].char == d); } }
        if done(l, t, d) { let m = choose|m: int| 0 <= m < t && (#[trigger] l.list@[m]).char == d; assert(l.list@[m].char == d); }
        if d == c { assert(l.list@[t].char == d); }
    }
    // the refined class: where its elements go
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] g.cls(x) < g.len() && 1 <= a.cls(x) < a.len() by { lemma_cls(g, x); lemma_cls(a, x); }
    assert forall|x: u32| x < o.num_states implies (r.0 != 0 ==> (#[trigger] g.cls(x) == r.0 <==> o.cls(o.nx(x, c)) == i)) && (r.1 != 0 ==> (g.cls(x) == r.1 <==> o.cls(o.nx(x, c)) == j)) by {
        assert(a.cls(x) == q <==> fold(o.cls(o.nx(x, c)), i, j) == i);
        if a.cls(x) != q { assert(g.cls(x) == a.cls(x)); }
    }
    assert forall|x: u32| x < o.num_states && o.cls(#[trigger] o.nx(x, c)) == i implies r.0 != 0 && g.cls(x) == r.0 by {
        assert(a.cls(x) == q); assert(g.cls(x) == r.0 || g.cls(x) == r.1);
    }
    assert forall|x: u32| x < o.num_states && o.cls(#[trigger] o.nx(x, c)) == j implies r.1 != 0 && g.cls(x) == r.1 by {
        assert(a.cls(x) == q); assert(g.cls(x) == r.0 || g.cls(x) == r.1);
    }
    assert forall|b: int, d: u32, z: u32| #[trigger] s1.has(b, d, z) implies 1 <= b < o.blocks() && d < o.alphabet_size && 1 <= z < p1[d as int].len() && (b == i || b == j ==> done(l, t + 1, d)) by {
        if s0.has(b, d, z) { assert(p0[d as int].len() <= p1[d as int].len()); }
    }
    assert forall|b: int, d: u32, z: u32, x: u32| #[trigger] s1.has(b, d, z) && x < o.num_states implies (#[trigger] p1[d as int].cls(x) == z <==> o.cls(o.nx(x, d)) == b) by {
        if d == c {
            if s0.has(b, d, z) {
                assert(b != i && b != j);
                assert(a.cls(x) == z <==> o.cls(o.nx(x, d)) == b);
                assert(z < a.len());
                if z == q {
                    lemma_elems(a, q as int);
                    let y = a.elems(q as int)[0];
                    assert(a.cls(y) == q);
                    assert(o.cls(o.nx(y, c)) == b);
                    assert(fold(o.cls(o.nx(y, c)), i, j) == i);
                }
                if a.cls(x) == q { assert(g.cls(x) == r.0 || g.cls(x) == r.1); } else { assert(g.cls(x) == a.cls(x)); }
            }
        } else { assert(s0.has(b, d, z)); assert(p1[d as int] == p0[d as int]); assert(p0[d as int].cls(x) == z <==> o.cls(o.nx(x, d)) == b); }
    }
    assert forall|x: u32, d: u32| x < o.num_states && d < o.alphabet_size && ((o.cls(#[trigger] o.nx(x, d)) != i && o.cls(o.nx(x, d)) != j) || done(l, t + 1, d)) implies s1.has(o.cls(o.nx(x, d)), d, p1[d as int].cls(x) as u32) by {
        if d == c {
            let b = o.cls(o.nx(x, c));
            if b != i && b != j {
                assert(s0.has(b, d, a.cls(x) as u32));
                assert(a.cls(x) == q <==> fold(b, i, j) == i);
                assert(g.cls(x) == a.cls(x));
            }
        } else { assert(p1[d as int] == p0[d as int]); assert(s0.has(o.cls(o.nx(x, d)), d, p0[d as int].cls(x) as u32)); }
    }
    assert forall|d: u32| d < o.alphabet_size && #[trigger] done(l, t + 1, d) implies reacted(o, s1, i, j, d) by {
        if d == c {
            lemma_elems(g, r.0 as int); lemma_elems(g, r.1 as int);
            assert(o.splitters.act(i, c) == l.item(t).active);
        } else { assert(reacted(o, s0, i, j, d)); }
    }
    assert(preds_ok(p1, o.num_states, o.alphabet_size)) by {
        assert forall|d: int| 0 <= d < o.alphabet_size implies (#[trigger] p1[d]).wf() && p1[d].size == o.num_states by { if d != c { assert(p1[d] == p0[d]); } }
    }
}
/// what is known of entry t
pub proof fn lemma_step_facts<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, l: SplitterList, t: int, p0: Seq<BasePartition>, s0: SplitterSet, i: int, j: int)
    requires
        o.shape(i, j), 1 <= i < o.blocks(), 1 <= j < o.blocks(), i != j,
        i < o.splitters.list@.len() ==> l == o.splitters.list@[i], i >= o.splitters.list@.len() ==> l.list@.len() == 0, l.wf(),
        0 <= t < l.list@.len(), mid(o, l, t, p0, s0, i, j),
    ensures
        l.item(t).char < o.alphabet_size, !done(l, t, l.item(t).char),
        o.splitters.has(i, l.item(t).char, l.item(t).class),
        p0[l.item(t).char as int] == o.pred_classes@[l.item(t).char as int],
        1 <= l.item(t).class < p0[l.item(t).char as int].len(),
        o.splitters.act(i, l.item(t).char) == l.item(t).active,
        !s0.mentions(i, l.item(t).char), !s0.mentions(j, l.item(t).char),
        forall|x: u32| x < o.num_states ==> (#[trigger] p0[l.item(t).char as int].cls(x) == l.item(t).class <==> fold(o.cls(o.nx(x, l.item(t).char)), i, j) == i),
{
    let c = l.item(t).char; let q = l.item(t).class;
    assert(l.list@[t].char == c && l.list@[t].class == q);
    assert(o.splitters.has(i, c, q));
    if done(l, t, c) { let m = choose|m: int| 0 <= m < t && (#[trigger] l.list@[m]).char == c; assert(l.list@[m].char != l.list@[t].char); }
    if l.act(c) { let m = choose|m: int| 0 <= m < l.num_active && (#[trigger] l.list@[m]).char == c; if m < t { assert(l.list@[m].char != l.list@[t].char); } if t < m { assert(l.list@[t].char != l.list@[m].char); } }
    if t < l.num_active { assert(l.act(c)); }
    if s0.mentions(i, c) { let s = s0.list@[i].list@; let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).char == c; assert(s0.has(i, c, s[m].class)); }
    if s0.mentions(j, c) { let s = s0.list@[j].list@; let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).char == c; assert(s0.has(j, c, s[m].class)); }
}
/// the lists are not longer than the alphabet
pub proof fn lemma_short(sp: SplitterSet, b: int, k: u32)
    requires sp.wf(), 0 <= b < sp.list@.len(), forall|a: int, c: u32, q: u32| #[trigger] sp.has(a, c, q) ==> c < k,
    ensures sp.list@[b].list@.len() <= k,
{
    let s = sp.list@[b].list@;
    assert(sp.list@[b].wf());
    let e = Seq::new(s.len(), |i: int| s[i].char as int);
    assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] e[i] < k by { assert(sp.list@[b].list@[i].char == s[i].char); assert(sp.has(b, s[i].char, s[i].class)); }
    assert forall|i: int, m: int| 0 <= i < e.len() && 0 <= m < e.len() && i != m implies e[i] != e[m] by { if i < m { assert(s[i].char != s[m].char); } else { assert(s[m].char != s[i].char); } }
    lemma_pigeon(e, k as int);
}
pub proof fn lemma_mid_end<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, l: SplitterList, f: Minimizer<D, F>, i: int, j: int)
    requires
        o.shape(i, j), 1 <= i < o.blocks(), 1 <= j < o.blocks(), i != j,
        i < o.splitters.list@.len() ==> l == o.splitters.list@[i], i >= o.splitters.list@.len() ==> l.list@.len() == 0,
        mid(o, l, l.list@.len() as int, f.pred_classes@, f.splitters, i, j),
        f.same(&o), f.main_partition == o.main_partition,
    ensures
        f.shape(0, 0),
        forall|b: int, c: u32| b != i && b != j ==> #[trigger] f.splitters.act(b, c) == o.splitters.act(b, c),
        forall|c: u32| c < o.alphabet_size ==> #[trigger] reacted(o, f.splitters, i, j, c),
{
    let t = l.list@.len() as int;
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] o.cls(x) by { lemma_cls(o.main_partition.base, x); }
    assert forall|x: u32, c: u32| x < o.num_states && c < o.alphabet_size && (o.cls(#[trigger] o.nx(x, c)) == i || o.cls(o.nx(x, c)) == j) implies done(l, t, c) by {
        assert(o.splitters.has(i, c, o.pred_classes@[c as int].cls(x) as u32));
        let m = choose|m: int| 0 <= m < l.list@.len() && (#[trigger] l.list@[m]).char == c && l.list@[m].class == o.pred_classes@[c as int].cls(x) as u32;
    }
    assert forall|x: u32, c: u32| x < f.num_states && c < f.alphabet_size implies f.splitters.has(fold(f.cls(#[trigger] f.nx(x, c)), 0, 0), c, f.pred_classes@[c as int].cls(x) as u32) by {
        let b = o.cls(o.nx(x, c));
        assert(o.nx(x, c) < o.num_states);
    }
    assert forall|c: u32| c < o.alphabet_size implies #[trigger] reacted(o, f.splitters, i, j, c) by {
        if !done(l, t, c) {
            assert forall|x: u32| x < o.num_states && (o.cls(#[trigger] o.nx(x, c)) == i || o.cls(o.nx(x, c)) == j) implies false by {}
        }
    }
}
/// block b was split into b and j: what that does to the pairs that need a splitter
pub proof fn lemma_split_keeps<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, g: Minimizer<D, F>, f: Minimizer<D, F>, b: int, j: int)
    requires
        o.shape(0, 0), 1 <= b < o.blocks(), j == o.blocks(), j <= u32::MAX,
        g.same(&o), f.same(&o), g.splitters == o.splitters, g.pred_classes == o.pred_classes, f.main_partition == g.main_partition,
        g.main_partition.wf(), g.main_partition.n() == o.num_states, g.blocks() == o.blocks() + 1,
        forall|x: u32| x < o.num_states && o.cls(x) != b ==> #[trigger] g.cls(x) == o.cls(x),
        forall|x: u32| x < o.num_states && o.cls(x) == b ==> #[trigger] g.cls(x) == b || g.cls(x) == j,
        forall|a: int, c: u32| a != b && a != j ==> #[trigger] f.splitters.act(a, c) == g.splitters.act(a, c),
        forall|c: u32| c < o.alphabet_size ==> #[trigger] reacted(g, f.splitters, b, j, c),
    ensures f.keeps(&o), f.within(&o),
{
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] o.cls(x) < o.blocks() by { lemma_cls(o.main_partition.base, x); }
    assert forall|x: u32, y: u32| x < o.num_states && y < o.num_states && #[trigger] f.cls(x) == #[trigger] f.cls(y) implies o.cls(x) == o.cls(y) by {
        assert(g.cls(x) == f.cls(x) && g.cls(y) == f.cls(y));
        if o.cls(x) != b { assert(g.cls(x) == o.cls(x)); }
        if o.cls(y) != b { assert(g.cls(y) == o.cls(y)); }
    }
    assert forall|x: u32, y: u32, c: u32| x < o.num_states && y < o.num_states && c < o.alphabet_size && #[trigger] f.bad(x, y, c) implies o.bad(x, y, c) by {
        assert(reacted(g, f.splitters, b, j, c));
        let u = o.nx(x, c); let v = o.nx(y, c);
        assert(u < o.num_states && v < o.num_states);
        assert(g.nx(x, c) == u && g.nx(y, c) == v && f.nx(x, c) == u && f.nx(y, c) == v);
        assert(g.cls(u) == f.cls(u) && g.cls(v) == f.cls(v));
        if o.cls(u) != b { assert(g.cls(u) == o.cls(u)); assert(f.splitters.act(o.cls(u), c) == o.splitters.act(o.cls(u), c)); }
        if o.cls(v) != b { assert(g.cls(v) == o.cls(v)); assert(f.splitters.act(o.cls(v), c) == o.splitters.act(o.cls(v), c)); }
        if o.splitters.act(b, c) { }
    }
}
pub proof fn lemma_split_shape<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, g: Minimizer<D, F>, b: int, j: int)
    requires
        o.shape(0, 0), 1 <= b < o.blocks(), j == o.blocks(), j <= u32::MAX,
        g.same(&o), g.splitters == o.splitters, g.pred_classes == o.pred_classes,
        g.main_partition.wf(), g.main_partition.n() == o.num_states, g.blocks() == o.blocks() + 1,
        forall|x: u32| x < o.num_states && o.cls(x) != b ==> #[trigger] g.cls(x) == o.cls(x),
        forall|x: u32| x < o.num_states && o.cls(x) == b ==> #[trigger] g.cls(x) == b || g.cls(x) == j,
    ensures g.shape(b, j),
{
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] o.cls(x) < o.blocks() && fold(o.cls(x), 0, 0) == o.cls(x) && fold(g.cls(x), b, j) == o.cls(x) by {
        lemma_cls(o.main_partition.base, x);
        if o.cls(x) != b { assert(g.cls(x) == o.cls(x)); }
    }
    assert forall|x: u32, c: u32| x < o.num_states && c < o.alphabet_size implies #[trigger] g.nx(x, c) == o.nx(x, c) && o.nx(x, c) < o.num_states by {}
    assert forall|a: int, c: u32, q: u32, x: u32| #[trigger] g.splitters.has(a, c, q) && x < g.num_states implies (#[trigger] g.pred_classes@[c as int].cls(x) == q <==> fold(g.cls(g.nx(x, c)), b, j) == a) by {
        assert(o.splitters.has(a, c, q));
        assert(o.pred_classes@[c as int].cls(x) == q <==> fold(o.cls(o.nx(x, c)), 0, 0) == a);
    }
    assert forall|x: u32, c: u32| x < g.num_states && c < g.alphabet_size implies g.splitters.has(fold(g.cls(#[trigger] g.nx(x, c)), b, j), c, g.pred_classes@[c as int].cls(x) as u32) by {
        assert(o.splitters.has(fold(o.cls(o.nx(x, c)), 0, 0), c, o.pred_classes@[c as int].cls(x) as u32));
    }
}
/// the split of block b by (block s, character c): the states that go to s stay
pub open spec fn cut<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, b: int, s: int, c: u32) -> bool {
    &&& forall|x: u32| x < o.num_states && o.cls(x) != b ==> #[trigger] f.cls(x) == o.cls(x)
    &&& forall|x: u32| x < o.num_states && o.cls(x) == b ==> (#[trigger] f.cls(x) == b <==> o.cls(o.nx(x, c)) == s)
    &&& forall|x: u32| x < o.num_states && o.cls(x) == b ==> #[trigger] f.cls(x) == b || f.cls(x) == o.blocks()
}
pub proof fn lemma_cut_coarse<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, b: int, s: int, c: u32)
    requires o.shape(0, 0), f.same(&o), cut(o, f, b, s, c), o.coarse(), c < o.alphabet_size,
    ensures f.coarse(),
{
    assert forall|x: u32, y: u32| x < o.num_states && y < o.num_states && #[trigger] alike(o.delta, o.is_final, o.alphabet_size, x, y) implies f.cls(x) == f.cls(y) by {
        lemma_alike_step(o.delta, o.is_final, o.alphabet_size, x, y, c);
        assert(o.nx(x, c) < o.num_states && o.nx(y, c) < o.num_states);
        assert(o.cls(o.nx(x, c)) == o.cls(o.nx(y, c)));
        assert(o.cls(x) == o.cls(y));
    }
}
/// block b contains a state that goes to block s on c
pub open spec fn meets<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, b: int, s: int, c: u32) -> bool {
    exists|x: u32| x < o.num_states && #[trigger] o.cls(x) == b && o.cls(o.nx(x, c)) == s
}
/// the splitter (s, c) has been applied to block b of o
pub open spec fn applied<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, b: int, s: int, c: u32) -> bool {
    forall|x: u32, y: u32| x < o.num_states && y < o.num_states && o.cls(x) == b && #[trigger] f.cls(x) == #[trigger] f.cls(y) ==> (o.cls(o.nx(x, c)) == s <==> o.cls(o.nx(y, c)) == s)
}
/// during the application of a splitter: m[0..t] have been treated, the others (and s) are as in o
pub open spec fn applying<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, m: Seq<u32>, t: int, s: int, c: u32) -> bool {
    &&& f.same(&o) && f.shape(0, 0) && f.within(&o) && f.keeps(&o) && f.onward(&o) && f.coarse() && f.sorted()
    &&& forall|b: u32| b < o.blocks() && !(#[trigger] m.take(t).contains(b)) ==> same_block(o, f, b as int)
    &&& forall|b: u32| b < o.blocks() && #[trigger] m.take(t).contains(b) ==> applied(o, f, b as int, s, c)
}
pub open spec fn same_block<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, b: int) -> bool {
    forall|x: u32| x < o.num_states ==> (#[trigger] f.cls(x) == b <==> o.cls(x) == b)
}
pub proof fn lemma_apply_step<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, g: Minimizer<D, F>, f: Minimizer<D, F>, m: Seq<u32>, t: int, s: int, c: u32)
    requires
        o.shape(0, 0), c < o.alphabet_size, 0 <= t < m.len(), m.no_duplicates(), m[t] < o.blocks(), applying(o, g, m, t, s, c),
        s == m[t] || !m.contains(s as u32), 1 <= s < o.blocks(), o.blocks() <= u32::MAX,
        cut(g, f, m[t] as int, s, c), f.same(&g), f.shape(0, 0), f.within(&g), f.keeps(&g), f.onward(&g), f.coarse(),
    ensures applying(o, f, m, t + 1, s, c),
{
    let k = m[t];
    assert(m.take(t + 1) =~= m.take(t).push(k));
    assert(m.take(t + 1)[t] == k);
    assert(!m.take(t).contains(k));
    assert(same_block(o, g, k as int));
    assert(!m.take(t).contains(s as u32));
    assert(same_block(o, g, s));
    let m1 = m.take(t + 1);
    assert forall|b: u32| #[trigger] m1.contains(b) implies m.take(t).contains(b) || b == k by {
        let i = choose|i: int| 0 <= i < m1.len() && m1[i] == b;
        if i < t { assert(m.take(t)[i] == b); }
    }
    assert forall|b: u32| m.take(t).contains(b) implies #[trigger] m1.contains(b) by {
        let m0 = m.take(t);
        let i = choose|i: int| 0 <= i < m0.len() && m0[i] == b;
        assert(m1[i] == b);
    }
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] o.cls(x) < o.blocks() && 1 <= g.cls(x) < g.blocks() by { lemma_cls(o.main_partition.base, x); lemma_cls(g.main_partition.base, x); }
    assert forall|b: u32| b < o.blocks() && !(#[trigger] m.take(t + 1).contains(b)) implies same_block(o, f, b as int) by {
        assert(!m.take(t).contains(b));
        assert(same_block(o, g, b as int));
    }
    assert forall|b: u32| b < o.blocks() && #[trigger] m.take(t + 1).contains(b) implies applied(o, f, b as int, s, c) by {
        assert forall|x: u32, y: u32| x < o.num_states && y < o.num_states && o.cls(x) == b && #[trigger] f.cls(x) == #[trigger] f.cls(y) implies (o.cls(o.nx(x, c)) == s <==> o.cls(o.nx(y, c)) == s) by {
            assert(g.cls(x) == g.cls(y));
            assert(o.nx(x, c) < o.num_states && o.nx(y, c) < o.num_states);
            assert(g.nx(x, c) == o.nx(x, c) && g.nx(y, c) == o.nx(y, c));
            if b == k {
                assert(g.cls(x) == k && g.cls(y) == k);
                assert(f.cls(x) == k <==> g.cls(g.nx(x, c)) == s);
                assert(f.cls(y) == k <==> g.cls(g.nx(y, c)) == s);
                assert(g.cls(o.nx(x, c)) == s <==> o.cls(o.nx(x, c)) == s);
                assert(g.cls(o.nx(y, c)) == s <==> o.cls(o.nx(y, c)) == s);
            } else { assert(applied(o, g, b as int, s, c)); }
        }
    }
}
pub proof fn lemma_meets<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, g: Minimizer<D, F>, m: Seq<u32>, t: int, s: int, c: u32)
    requires
        o.shape(0, 0), c < o.alphabet_size, 0 <= t < m.len(), m.no_duplicates(), m[t] < o.blocks(), applying(o, g, m, t, s, c),
        s == m[t] || !m.contains(s as u32), 1 <= s < o.blocks(), o.blocks() <= u32::MAX, meets(o, m[t] as int, s, c),
    ensures meets(g, m[t] as int, s, c), g.blocks() <= g.num_states + 1, o.blocks() <= g.blocks(),
{
    assert(!m.take(t).contains(m[t]));
    assert(!m.take(t).contains(s as u32)) by { if m.take(t).contains(s as u32) { let m0 = m.take(t); let i = choose|i: int| 0 <= i < m0.len() && m0[i] == s as u32; assert(m[i] == s as u32); } }
    assert(same_block(o, g, m[t] as int));
    assert(same_block(o, g, s));
    lemma_count(g.main_partition.base);
    let x = choose|x: u32| x < o.num_states && #[trigger] o.cls(x) == m[t] && o.cls(o.nx(x, c)) == s;
    assert(o.nx(x, c) < o.num_states);
    assert(g.cls(x) == m[t] && g.cls(g.nx(x, c)) == s);
}
/// everything but the pairs that (s, c) separates has a splitter
pub open spec fn explained_but<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, s: int, c: u32) -> bool {
    forall|x: u32, y: u32, d: u32| x < o.num_states && y < o.num_states && d < o.alphabet_size && o.cls(x) == o.cls(y) && #[trigger] o.bad(x, y, d) ==> d == c && (o.cls(o.nx(x, c)) == s <==> o.cls(o.nx(y, c)) != s)
}
pub proof fn lemma_apply_end<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, m: Seq<u32>, s: int, c: u32)
    requires
        o.shape(0, 0), o.blocks() <= u32::MAX, c < o.alphabet_size, applying(o, f, m, m.len() as int, s, c), explained_but(o, s, c),
        forall|b: u32| b < o.blocks() ==> (#[trigger] m.contains(b) <==> b >= 1 && o.main_partition.base.bsize(b as int) > 1 && meets(o, b as int, s, c)),
    ensures f.explained(),
{
    assert(m.take(m.len() as int) =~= m);
    assert forall|x: u32, y: u32, d: u32| x < f.num_states && y < f.num_states && d < f.alphabet_size && f.cls(x) == f.cls(y) implies !#[trigger] f.bad(x, y, d) by {
        if f.bad(x, y, d) {
            assert(o.bad(x, y, d));
            assert(o.cls(x) == o.cls(y));
            lemma_cls(o.main_partition.base, x); lemma_cls(o.main_partition.base, y);
            let b = o.cls(x) as u32;
            if m.contains(b) { assert(applied(o, f, b as int, s, c)); }
            else if o.main_partition.base.bsize(b as int) <= 1 { lemma_singleton(o.main_partition.base, x, y); }
            else { assert(!meets(o, b as int, s, c)); }
        }
    }
}
/// the block of x is a candidate, unless it is x alone
pub open spec fn reached<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(m: Minimizer<D, F>, s: FastSet, x: u32) -> bool { m.main_partition.base.bsize(m.cls(x)) > 1 ==> s.has(m.cls(x) as u32) }
/// all blocks are single states
pub proof fn lemma_discrete<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(f: Minimizer<D, F>)
    requires f.shape(0, 0), f.blocks() == f.num_states + 1,
    ensures f.stable(),
{ lemma_count(f.main_partition.base); }
pub proof fn lemma_no_splitter<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(f: Minimizer<D, F>)
    requires f.shape(0, 0), f.explained(), forall|b: int, c: u32| !(#[trigger] f.splitters.act(b, c)),
    ensures f.stable(),
{
    assert forall|x: u32, y: u32, c: u32| x < f.num_states && y < f.num_states && c < f.alphabet_size && f.cls(x) == f.cls(y) implies f.cls(#[trigger] f.nx(x, c)) == f.cls(#[trigger] f.nx(y, c)) by { assert(!f.bad(x, y, c)); }
}
/// nothing was split
pub proof fn lemma_unsplit<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>)
    requires
        o.shape(0, 0), f.same(&o), f.splitters == o.splitters, f.pred_classes == o.pred_classes, f.main_partition.wf(), f.main_partition.n() == o.num_states, f.blocks() == o.blocks(),
        forall|x: u32| x < o.num_states ==> #[trigger] f.cls(x) == o.cls(x),
    ensures f.shape(0, 0), f.within(&o), f.keeps(&o), f.onward(&o),
{
    assert forall|x: u32, c: u32| x < o.num_states && c < o.alphabet_size implies #[trigger] f.nx(x, c) == o.nx(x, c) && o.nx(x, c) < o.num_states && f.cls(o.nx(x, c)) == o.cls(o.nx(x, c)) by {}
    assert forall|b: int, c: u32, q: u32, x: u32| #[trigger] f.splitters.has(b, c, q) && x < f.num_states implies (#[trigger] f.pred_classes@[c as int].cls(x) == q <==> fold(f.cls(f.nx(x, c)), 0, 0) == b) by {
        assert(o.splitters.has(b, c, q));
        assert(o.pred_classes@[c as int].cls(x) == q <==> fold(o.cls(o.nx(x, c)), 0, 0) == b);
        assert(f.nx(x, c) == o.nx(x, c));
    }
    assert forall|x: u32, c: u32| x < f.num_states && c < f.alphabet_size implies f.splitters.has(fold(f.cls(#[trigger] f.nx(x, c)), 0, 0), c, f.pred_classes@[c as int].cls(x) as u32) by {
        assert(o.splitters.has(fold(o.cls(o.nx(x, c)), 0, 0), c, o.pred_classes@[c as int].cls(x) as u32));
    }
    assert forall|x: u32, y: u32, c: u32| x < o.num_states && y < o.num_states && c < o.alphabet_size && #[trigger] f.bad(x, y, c) implies o.bad(x, y, c) by {
        assert(f.nx(x, c) == o.nx(x, c) && f.nx(y, c) == o.nx(y, c));
    }
}
/// only the activity of the splitters changed
pub proof fn lemma_relisted<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>)
    requires
        o.shape(0, 0), f.same(&o), f.main_partition == o.main_partition, f.pred_classes == o.pred_classes,
        f.splitters.wf(), f.splitters.active_block < f.splitters.list@.len() == o.splitters.list@.len(),
        forall|b: int, c: u32, q: u32| #[trigger] f.splitters.has(b, c, q) <==> o.splitters.has(b, c, q),
    ensures f.shape(0, 0),
{
    assert forall|b: int, c: u32, q: u32, x: u32| #[trigger] f.splitters.has(b, c, q) && x < f.num_states implies (#[trigger] f.pred_classes@[c as int].cls(x) == q <==> fold(f.cls(f.nx(x, c)), 0, 0) == b) by {
        assert(o.splitters.has(b, c, q));
        assert(o.pred_classes@[c as int].cls(x) == q <==> fold(o.cls(o.nx(x, c)), 0, 0) == b);
    }
    assert forall|x: u32, c: u32| x < f.num_states && c < f.alphabet_size implies f.splitters.has(fold(f.cls(#[trigger] f.nx(x, c)), 0, 0), c, f.pred_classes@[c as int].cls(x) as u32) by {
        assert(o.splitters.has(fold(o.cls(o.nx(x, c)), 0, 0), c, o.pred_classes@[c as int].cls(x) as u32));
    }
}
pub proof fn lemma_picked<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>, s: int, d: u32)
    requires
        o.shape(0, 0), o.explained(), f.same(&o), f.main_partition == o.main_partition,
        forall|b: int, c: u32| #[trigger] f.splitters.act(b, c) <==> o.splitters.act(b, c) && !(b == s && c == d),
    ensures explained_but(f, s, d),
{
    assert forall|x: u32, y: u32, c: u32| x < f.num_states && y < f.num_states && c < f.alphabet_size && f.cls(x) == f.cls(y) && #[trigger] f.bad(x, y, c) implies c == d && (f.cls(f.nx(x, d)) == s <==> f.cls(f.nx(y, d)) != s) by {
        assert(!o.bad(x, y, c));
    }
}
pub open spec fn fresh(p: BasePartition, n: u32) -> bool { p.wf() && p.size == n && p.len() == 2 && forall|x: u32| x < n ==> #[trigger] p.cls(x) == 1 }
/// one block holds everything
pub proof fn lemma_one_block<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(f: Minimizer<D, F>)
    requires f.shape(0, 0), f.blocks() == 2,
    ensures f.explained(), f.coarse(),
{
    assert forall|x: u32| x < f.num_states implies #[trigger] f.cls(x) == 1 by { lemma_cls(f.main_partition.base, x); }
    assert forall|x: u32, y: u32, c: u32| x < f.num_states && y < f.num_states && c < f.alphabet_size && f.cls(x) == f.cls(y) implies !#[trigger] f.bad(x, y, c) by {
        assert(f.nx(x, c) < f.num_states && f.nx(y, c) < f.num_states);
    }
}
/// the first split: final states, other states
pub proof fn lemma_two_blocks<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(g: Minimizer<D, F>, f: Minimizer<D, F>)
    requires
        g.shape(1, 2), g.blocks() == 3, f.shape(0, 0), f.same(&g), f.main_partition == g.main_partition,
        forall|c: u32| c < g.alphabet_size ==> #[trigger] reacted(g, f.splitters, 1, 2, c),
        forall|x: u32| x < g.num_states ==> (#[trigger] g.cls(x) == 1 <==> fin(g.is_final, x)),
    ensures f.explained(), f.coarse(), f.sorted(),
{
    assert forall|x: u32| x < f.num_states implies #[trigger] f.cls(x) == g.cls(x) && (f.cls(x) == 1 || f.cls(x) == 2) by { lemma_cls(f.main_partition.base, x); }
    assert forall|x: u32, y: u32, c: u32| x < f.num_states && y < f.num_states && c < f.alphabet_size && f.cls(x) == f.cls(y) implies !#[trigger] f.bad(x, y, c) by {
        assert(g.nx(x, c) < f.num_states && g.nx(y, c) < f.num_states);
        assert(f.nx(x, c) == g.nx(x, c) && f.nx(y, c) == g.nx(y, c));
        assert(reacted(g, f.splitters, 1, 2, c));
    }
    assert forall|x: u32, y: u32| x < f.num_states && y < f.num_states && #[trigger] alike(f.delta, f.is_final, f.alphabet_size, x, y) implies f.cls(x) == f.cls(y) by {
        let w = Seq::<u32>::empty();
        assert(word(w, f.alphabet_size));
        assert(run(f.delta, x, w) == x && run(f.delta, y, w) == y);
        assert(fin(f.is_final, run(f.delta, x, w)) == fin(f.is_final, run(f.delta, y, w)));
    }
}
/// the same blocks
pub proof fn lemma_same_main<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(o: Minimizer<D, F>, f: Minimizer<D, F>)
    requires f.same(&o), f.main_partition == o.main_partition,
    ensures o.coarse() ==> f.coarse(), o.sorted() ==> f.sorted(), o.stable() ==> f.stable(),
{
    assert(forall|x: u32| f.cls(x) == #[trigger] o.cls(x));
    if o.coarse() {
        assert forall|x: u32, y: u32| x < f.num_states && y < f.num_states && #[trigger] alike(f.delta, f.is_final, f.alphabet_size, x, y) implies f.cls(x) == f.cls(y) by { assert(alike(o.delta, o.is_final, o.alphabet_size, x, y)); assert(o.cls(x) == o.cls(y)); }
    }
    if o.sorted() {
        assert forall|x: u32, y: u32| x < f.num_states && y < f.num_states && #[trigger] f.cls(x) == #[trigger] f.cls(y) implies fin(f.is_final, x) == fin(f.is_final, y) by { assert(o.cls(x) == o.cls(y)); }
    }
    if o.stable() {
        assert forall|x: u32, y: u32, c: u32| x < f.num_states && y < f.num_states && c < f.alphabet_size && f.cls(x) == f.cls(y) implies f.cls(#[trigger] f.nx(x, c)) == f.cls(#[trigger] f.nx(y, c)) by { assert(o.cls(o.nx(x, c)) == o.cls(o.nx(y, c))); }
    }
}
@end

@fn SplitterItem::from_splitter props=C04 ret=r
ensures r.char == s.char, r.class == s.class, r.active == s.active,

@fn SplitterItem::to_splitter props=C04 ret=r
ensures r == (Splitter { block, char: self.char, class: self.class, active: self.active }),

@fn SplitterList::add props=C04
requires old(self).wf(), !old(self).mentions(s.char), old(self).list@.len() < usize::MAX,
ensures
    final(self).wf(),
    forall|c: u32, q: u32| #[trigger] final(self).has(c, q) <==> old(self).has(c, q) || (c == s.char && q == s.class),
    forall|c: u32| #[trigger] final(self).mentions(c) <==> old(self).mentions(c) || c == s.char,
    forall|c: u32| #[trigger] final(self).act(c) <==> old(self).act(c) || (c == s.char && s.active),
@at start
let ghost o = *self;
@at end
proof { lemma_added(o, *self, s); }

@fn SplitterList::pick_active props=C04 ret=r
requires old(self).wf(), old(self).num_active > 0,
ensures
    final(self).num_active == old(self).num_active - 1, final(self).list@ == old(self).list@, *r == old(self).list@[old(self).num_active - 1],

@fn SplitterList::has_active_items props=C04 ret=r
ensures r == (self.num_active > 0),

@fn SplitterList::iter props=C04 ret=r
ensures r.list == self, r.index == 0,

@fn SplitterListIterator as Iterator::next props=C04 ret=r
ensures
    final(self).list == old(self).list,
    r is Some <==> old(self).list.items(old(self).index as int).len() > 0,
    r is Some ==> r->0 == old(self).list.items(old(self).index as int)[0] && final(self).list.items(final(self).index as int) == old(self).list.items(old(self).index as int).drop_first(),
    r is None ==> final(self).index == old(self).index,
@at start
proof { if self.index < self.list.list@.len() { assert(self.list.items(self.index as int).drop_first() =~= self.list.items(self.index + 1)); } }

@fn SplitterSet::new props=C04 ret=r
ensures r.list@.len() == 0, r.active_block == 0,

@fn SplitterSet::take_list props=C04 ret=r
ensures
    final(self).active_block == old(self).active_block, final(self).list@.len() == old(self).list@.len(),
    forall|x: int| 0 <= x < old(self).list@.len() && x != b ==> #[trigger] final(self).list@[x] == old(self).list@[x],
    b < old(self).list@.len() ==> r == old(self).list@[b as int] && final(self).list@[b as int].num_active == 0 && final(self).list@[b as int].list@.len() == 0,
    b >= old(self).list@.len() ==> r.num_active == 0 && r.list@.len() == 0,
@replace `std::mem::take(l)` => `crate::prelude::vtake(l)`

@fn SplitterSet::add_splitter props=C04
requires old(self).wf(), !old(self).mentions(s.block as int, s.char), s.block < old(self).list@.len() ==> old(self).list@[s.block as int].list@.len() < usize::MAX,
ensures
    final(self).wf(), final(self).active_block == old(self).active_block,
    final(self).list@.len() == (if s.block < old(self).list@.len() { old(self).list@.len() as int } else { s.block + 1 }),
    forall|b: int, c: u32, q: u32| #[trigger] final(self).has(b, c, q) <==> old(self).has(b, c, q) || (b == s.block && c == s.char && q == s.class),
    forall|b: int, c: u32| #[trigger] final(self).mentions(b, c) <==> old(self).mentions(b, c) || (b == s.block && c == s.char),
    forall|b: int, c: u32| #[trigger] final(self).act(b, c) <==> old(self).act(b, c) || (b == s.block && c == s.char && s.active),
    forall|b: int| 0 <= b < old(self).list@.len() && b != s.block ==> #[trigger] final(self).list@[b] == old(self).list@[b],
@replace `self.list.resize_with(b + 1, Default::default)` => `crate::prelude::vresize_default(&mut self.list, b + 1)`

@fn SplitterSet::has_active_splitter props=C04 ret=r
requires old(self).active_block < old(self).list@.len(), old(self).wf(),
ensures
    final(self).list == old(self).list, final(self).active_block < old(self).list@.len(),
    r ==> old(self).list@[final(self).active_block as int].num_active > 0,
    !r ==> forall|b: int| 0 <= b < old(self).list@.len() ==> (#[trigger] old(self).list@[b]).num_active == 0,
@replace `for (b, list) in l.iter().enumerate()` => `for b in it: 0..l.len()`
@replace `if list.has_active_items()` => `if l[b].has_active_items()`
@loop 0
invariant
    *l == old(self).list, self.list == old(self).list, old(self).active_block < old(self).list@.len(),
    self.active_block == old(self).active_block,
    forall|x: int| 0 <= x < b ==> (#[trigger] l@[x]).num_active == 0,

@fn SplitterSet::pick_splitter props=C04 ret=r
requires old(self).active_block < old(self).list@.len() <= u32::MAX, old(self).wf(),
ensures
    final(self).wf(), final(self).active_block < final(self).list@.len(), final(self).list@.len() == old(self).list@.len(),
    forall|b: int, c: u32, q: u32| #[trigger] final(self).has(b, c, q) <==> old(self).has(b, c, q),
    r is Some ==> old(self).has(r->0.block as int, r->0.char, r->0.class) && old(self).act(r->0.block as int, r->0.char),
    r is Some ==> forall|b: int, c: u32| #[trigger] final(self).act(b, c) <==> old(self).act(b, c) && !(b == r->0.block && c == r->0.char),
    r is Some ==> actives(final(self).list@) < actives(old(self).list@),
    r is None ==> final(self).list == old(self).list && forall|b: int, c: u32| !(#[trigger] old(self).act(b, c)),
@before `let l = &mut self.list[b]`
proof {
    let ol = self.list@;
    assert forall|l2: SplitterList| l2.num_active < ol[b as int].num_active implies actives(#[trigger] ol.update(b as int, l2)) < actives(ol) by { lemma_actives(ol, b as int, l2); }
}

@fn Minimizer::upate_splitters_after_refinement props=C04
requires
    old(self).shape(i as int, j as int), 1 <= i < old(self).blocks(), 1 <= j < old(self).blocks(), i != j, old(self).blocks() <= u32::MAX,
ensures
    final(self).same(old(self)), final(self).main_partition == old(self).main_partition, final(self).shape(0, 0),
    forall|b: int, c: u32| b != i && b != j ==> #[trigger] final(self).splitters.act(b, c) == old(self).splitters.act(b, c),
    forall|c: u32| c < old(self).alphabet_size ==> #[trigger] reacted(*old(self), final(self).splitters, i as int, j as int, c),
@at start
let ghost o = *self;
@replace `|x| main.block_id(delta(x, c)) == i` => `|x: u32| -> (vb: bool) requires x < o.num_states ensures vb == (o.cls(o.nx(x, c)) == i) { main.block_id((self.delta)(x, c)) == i }`
@after `let old_splitters = self.splitters.take_list(i)`
let ghost l = old_splitters;
proof { lemma_mid_start(o, l, self.splitters, i as int, j as int); }
@loop 0 iter=it
invariant
    o == *old(self), o.shape(i as int, j as int), 1 <= i < o.blocks(), 1 <= j < o.blocks(), i != j, o.blocks() <= u32::MAX,
    *main == o.main_partition, *delta == o.delta,
    self.same(&o), self.main_partition == o.main_partition,
    i < o.splitters.list@.len() ==> l == o.splitters.list@[i as int], i >= o.splitters.list@.len() ==> l.list@.len() == 0, l.wf(),
    it.seq() == l.items(0),
    mid(o, l, it.index@, self.pred_classes@, self.splitters, i as int, j as int),
@at loop 0 start
let ghost m0 = *self;
let ghost t = it.index@;
proof {
    lemma_step_facts(o, l, t, m0.pred_classes@, m0.splitters, i as int, j as int);
    assert forall|b: int| 0 <= b < m0.splitters.list@.len() implies (#[trigger] m0.splitters.list@[b]).list@.len() <= o.alphabet_size by { lemma_short(m0.splitters, b, o.alphabet_size); }
}
@at loop 0 end
proof { lemma_mid_step(o, l, t, m0.pred_classes@, m0.splitters, self.pred_classes@, self.splitters, i as int, j as int, (class1, class2)); }
@at end
proof { lemma_mid_end(o, l, *self, i as int, j as int); }

@fn Minimizer::refine_block_with_splitter props=C04
requires
    old(self).shape(0, 0), old(self).coarse(), old(self).sorted(), s.char < old(self).alphabet_size, 1 <= s.block < old(self).blocks(), 1 <= b < old(self).blocks(),
    meets(*old(self), b as int, s.block as int, s.char), old(self).blocks() <= old(self).num_states + 1,
ensures
    final(self).same(old(self)), final(self).shape(0, 0), cut(*old(self), *final(self), b as int, s.block as int, s.char),
    final(self).within(old(self)), final(self).keeps(old(self)), final(self).onward(old(self)), final(self).coarse(),
@at start
let ghost o = *self;
proof { lemma_count(o.main_partition.base); }
@replace `|x| delta(x, s.char)` => `|x: u32| -> (vy: u32) requires x < o.num_states ensures vy == o.nx(x, s.char), vy < o.num_states { (self.delta)(x, s.char) }`
@after `let (i, j) = main.refine_block_with_fun(`
let ghost g = *self;
proof {
    let x = choose|x: u32| x < o.num_states && #[trigger] o.cls(x) == b && o.cls(o.nx(x, s.char)) == s.block;
    assert(g.cls(x) == i || g.cls(x) == j);
    lemma_cls(g.main_partition.base, x);
    lemma_count(g.main_partition.base);
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] g.cls(x) by { lemma_cls(g.main_partition.base, x); }
    assert(cut(o, g, b as int, s.block as int, s.char)) by {
        assert forall|x: u32| x < o.num_states && o.cls(x) == b implies (#[trigger] g.cls(x) == b <==> o.cls(o.nx(x, s.char)) == s.block) by {
            assert(g.cls(x) == i || g.cls(x) == j);
        }
    }
    if j != 0 { lemma_split_shape(o, g, b as int, j as int); }
}
@at end
proof {
    if j == 0 { lemma_unsplit(o, *self); } else { lemma_split_keeps(o, g, *self, b as int, j as int); }
    lemma_cut_coarse(o, *self, b as int, s.block as int, s.char);
}

@fn Minimizer::collect_refinement_candidates props=C04
requires self.shape(0, 0), old(set).wf(), old(set).max == self.blocks(), self.splitters.has(s.block as int, s.char, s.class),
ensures
    final(set).wf(), final(set).max == old(set).max,
    forall|b: u32| #[trigger] final(set).has(b) <==> 1 <= b < self.blocks() && self.main_partition.base.bsize(b as int) > 1 && meets(*self, b as int, s.block as int, s.char),
@loop 0 iter=it
invariant
    self.shape(0, 0), set.wf(), set.max == old(set).max, set.max == self.blocks(), self.splitters.has(s.block as int, s.char, s.class),
    *p == self.pred_classes@[s.char as int], it.seq() == p.elems(s.class as int),
    forall|b: u32| #[trigger] set.has(b) ==> 1 <= b < self.blocks() && self.main_partition.base.bsize(b as int) > 1 && meets(*self, b as int, s.block as int, s.char),
    forall|k: int| 0 <= k < it.index@ ==> reached(*self, *set, #[trigger] it.seq()[k]),
@at loop 0 start
let ghost s0 = *set;
let ghost t = it.index@;
proof { lemma_elems(*p, s.class as int); assert(it.seq()[t] == x); lemma_cls(self.main_partition.base, x); assert(p.cls(x) == s.class); assert(self.cls(self.nx(x, s.char)) == s.block); }
@at loop 0 end
proof { assert forall|k: int| 0 <= k < t + 1 implies reached(*self, *set, #[trigger] it.seq()[k]) by { if k < t { assert(reached(*self, s0, it.seq()[k])); } } }
@at end
proof {
    lemma_elems(*p, s.class as int);
    assert forall|b: u32| 1 <= b < self.blocks() && self.main_partition.base.bsize(b as int) > 1 && #[trigger] meets(*self, b as int, s.block as int, s.char) implies set.has(b) by {
        let x = choose|x: u32| x < self.num_states && #[trigger] self.cls(x) == b && self.cls(self.nx(x, s.char)) == s.block;
        assert(p.cls(x) == s.class);
        assert(p.elems(s.class as int).contains(x));
        let k = choose|k: int| 0 <= k < p.elems(s.class as int).len() && p.elems(s.class as int)[k] == x;
        assert(reached(*self, *set, p.elems(s.class as int)[k]));
    }
}

@fn Minimizer::pick_splitter props=C04 ret=r
requires old(self).shape(0, 0), old(self).explained(), old(self).blocks() <= u32::MAX,
ensures
    final(self).same(old(self)), final(self).main_partition == old(self).main_partition, final(self).pred_classes == old(self).pred_classes, final(self).shape(0, 0),
    r is Some ==> final(self).splitters.has(r->0.block as int, r->0.char, r->0.class) && actives(final(self).splitters.list@) < actives(old(self).splitters.list@) && explained_but(*final(self), r->0.block as int, r->0.char),
    r is None ==> final(self).explained() && forall|b: int, c: u32| !(#[trigger] final(self).splitters.act(b, c)),
    old(self).coarse() ==> final(self).coarse(), old(self).sorted() ==> final(self).sorted(), old(self).stable() ==> final(self).stable(),
@at start
let ghost o = *self;
@replace `self.splitters.pick_splitter()` => `let vr = self.splitters.pick_splitter(); proof { lemma_relisted(o, *self); lemma_same_main(o, *self); if vr is None { assert forall|b: int, c: u32| !(#[trigger] self.splitters.act(b, c)) by { assert(!o.splitters.act(b, c)); } assert forall|x: u32, y: u32, c: u32| x < self.num_states && y < self.num_states && c < self.alphabet_size && self.cls(x) == self.cls(y) implies !#[trigger] self.bad(x, y, c) by { assert(!o.bad(x, y, c)); } } if vr is Some { lemma_picked(o, *self, vr->0.block as int, vr->0.char); } } vr`

@fn Minimizer::refine_with_splitter props=C04
requires
    old(self).shape(0, 0), old(self).coarse(), old(self).sorted(), old(self).splitters.has(s.block as int, s.char, s.class),
    explained_but(*old(self), s.block as int, s.char),
ensures
    final(self).same(old(self)), final(self).shape(0, 0), final(self).coarse(), final(self).sorted(), final(self).explained(), final(self).onward(old(self)),
@at start
let ghost o = *self;
proof { lemma_count(o.main_partition.base); }
@replace `let set = &mut FastSet::new(self.main_partition.num_blocks())` => `let mut set_v = FastSet::new(self.main_partition.num_blocks()); let set = &mut set_v`
@before `for b in set.iter()`
let ghost m = set.members();
proof {
    lemma_members(*set);
    assert forall|b: u32| b < o.blocks() implies (#[trigger] m.contains(b) <==> b != s.block && b >= 1 && o.main_partition.base.bsize(b as int) > 1 && meets(o, b as int, s.block as int, s.char)) by { assert(set.has(b) <==> m.contains(b)); }
    assert(self_refine <==> o.main_partition.base.bsize(s.block as int) > 1 && meets(o, s.block as int, s.block as int, s.char));
    assert(m.take(0) =~= Seq::<u32>::empty());
}
@loop 0 iter=it
invariant
    o == *old(self), o.shape(0, 0), o.blocks() <= o.num_states + 1, s.char < o.alphabet_size, 1 <= s.block < o.blocks(),
    it.seq() == m, m.no_duplicates(), !m.contains(s.block),
    forall|k: int| 0 <= k < m.len() ==> 1 <= (#[trigger] m[k]) < o.blocks() && meets(o, m[k] as int, s.block as int, s.char),
    applying(o, *self, m, it.index@, s.block as int, s.char),
@at loop 0 start
let ghost g = *self;
let ghost t = it.index@;
proof { assert(m[t] == b); lemma_meets(o, g, m, t, s.block as int, s.char); }
@at loop 0 end
proof { lemma_apply_step(o, g, *self, m, t, s.block as int, s.char); }
@at loop 0 after
let ghost g = *self;
let ghost m1 = m.push(s.block);
proof {
    if self_refine {
        assert(m1.take(m.len() as int) =~= m);
        assert(m.take(m.len() as int) =~= m);
        assert(m1[m.len() as int] == s.block);
        lemma_meets(o, g, m1, m.len() as int, s.block as int, s.char);
    }
}
@at end
proof {
    if self_refine { lemma_apply_step(o, g, *self, m1, m.len() as int, s.block as int, s.char); }
    let m2 = if self_refine { m1 } else { m };
    assert forall|b: u32| b < o.blocks() implies (#[trigger] m2.contains(b) <==> b >= 1 && o.main_partition.base.bsize(b as int) > 1 && meets(o, b as int, s.block as int, s.char)) by {
        if self_refine {
            if m.contains(b) { let i = choose|i: int| 0 <= i < m.len() && m[i] == b; assert(m1[i] == b); }
            if b == s.block { assert(m1[m.len() as int] == b); }
            if m1.contains(b) { let i = choose|i: int| 0 <= i < m1.len() && m1[i] == b; if i < m.len() { assert(m[i] == b); } }
        }
    }
    lemma_apply_end(o, *self, m2, s.block as int, s.char);
}

@fn Minimizer::refine props=C04 ret=r
requires old(self).shape(0, 0), old(self).coarse(), old(self).sorted(), old(self).explained(),
ensures
    settled(old(self).delta, old(self).is_final, old(self).num_states, old(self).alphabet_size, *r),
@at start
let ghost o = *self;
proof { if o.blocks() == o.num_states + 1 { lemma_discrete(o); } }
@replace `None => break` => `None => { proof { lemma_no_splitter(*self); } break }`
@at loop 0 start
proof { lemma_count(self.main_partition.base); }
@at loop 0 end
proof { lemma_count(self.main_partition.base); if self.blocks() == self.num_states + 1 { lemma_discrete(*self); } }
@loop 0
invariant_except_break self.explained(),
invariant self.same(&o), self.shape(0, 0), self.coarse(), self.sorted(), self.blocks() == self.num_states + 1 ==> self.stable(),
ensures self.same(&o), self.shape(0, 0), self.coarse(), self.sorted(), self.stable(),
decreases self.num_states + 1 - self.blocks(), actives(self.splitters.list@),
@at loop 0 after
proof { lemma_settled(*self); }

@fn Minimizer::init_main_partition props=C04
requires old(self).shape(0, 0), old(self).blocks() == 2,
ensures final(self).same(old(self)), final(self).shape(0, 0), final(self).coarse(), final(self).sorted(), final(self).explained(),
@at start
let ghost o = *self;
proof { assert forall|x: u32| x < o.num_states implies #[trigger] o.cls(x) == 1 by { lemma_cls(o.main_partition.base, x); } }
@after `let (i, j) = main_partition.refine_block(`
let ghost g = *self;
proof {
    assert forall|x: u32| x < o.num_states implies 1 <= #[trigger] g.cls(x) < g.blocks() && o.cls(x) == 1 by { lemma_cls(g.main_partition.base, x); }
    if i != 0 && j != 0 { lemma_split_shape(o, g, 1, 2); } else { lemma_unsplit(o, g); lemma_one_block(g); }
}
@at end
proof { if i != 0 && j != 0 { lemma_two_blocks(g, *self); } }

@fn Minimizer::new props=C04 ret=r
requires sane(delta, is_final, num_states, alphabet_size),
ensures
    r.num_states == num_states, r.alphabet_size == alphabet_size, r.delta == delta, r.is_final == is_final,
    r.shape(0, 0), r.coarse(), r.sorted(), r.explained(),
@loop 0
invariant
    1 <= num_states < u32::MAX, classes@.len() == vi,
    forall|d: int| 0 <= d < vi ==> fresh(#[trigger] classes@[d], num_states),
@replace `for _ in 0..alpha_size` => `for vi in 0..alpha_size`
@loop 1
invariant
    splitters.wf(), splitters.active_block == 0, splitters.list@.len() == (if c == 0 { 0int } else { 2 }),
    forall|b: int, d: u32, q: u32| #[trigger] splitters.has(b, d, q) <==> b == 1 && d < c && q == 1,
    forall|b: int, d: u32| #[trigger] splitters.mentions(b, d) ==> b == 1 && d < c,
@at loop 1 start
proof { if c > 0 { lemma_short(splitters, 1, c); } }
@before `m.init_main_partition()`
proof {
    assert forall|x: u32| x < num_states implies #[trigger] m.cls(x) == 1 by {}
    assert forall|d: int, x: u32| 0 <= d < alphabet_size && x < num_states implies #[trigger] m.pred_classes@[d].cls(x) == 1 by { assert(fresh(m.pred_classes@[d], num_states)); }
    assert(preds_ok(m.pred_classes@, num_states, alphabet_size)) by { assert forall|d: int| 0 <= d < alphabet_size implies (#[trigger] m.pred_classes@[d]).wf() && m.pred_classes@[d].size == num_states by { assert(fresh(m.pred_classes@[d], num_states)); } }
    assert(m.shape(0, 0)) by {
        assert forall|b: int, d: u32, q: u32| #[trigger] m.splitters.has(b, d, q) implies 1 <= q < m.pred_classes@[d as int].len() by { assert(fresh(m.pred_classes@[d as int], num_states)); }
        assert forall|x: u32, d: u32| x < num_states && d < alphabet_size implies m.splitters.has(fold(m.cls(#[trigger] m.nx(x, d)), 0, 0), d, m.pred_classes@[d as int].cls(x) as u32) by { assert(m.nx(x, d) < num_states); }
        assert forall|b: int, d: u32, q: u32, x: u32| #[trigger] m.splitters.has(b, d, q) && x < m.num_states implies (#[trigger] m.pred_classes@[d as int].cls(x) == q <==> fold(m.cls(m.nx(x, d)), 0, 0) == b) by { assert(m.nx(x, d) < num_states); }
    }
}
