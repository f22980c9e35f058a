@module automata
@source-replace `pub fn states(&self) -> impl Iterator<Item = &State>` => `pub fn states(&self) -> std::slice::Iter<'_, State>`
@source-replace `pub fn char_ranges(&self) -> impl Iterator<Item = &CharSet>` => `pub fn char_ranges(&self) -> std::slice::Iter<'_, CharSet>`
@uses
use crate::smt_strings::{MAX_CHAR, good_chars};
use crate::prelude::{key_ok, HashMap as _};
use crate::bfs_queues::exact_clone;
use crate::compact_tables::*;
use crate::minimizer::{alike, fin, nxt, sane, settled, word};
use crate::partitions::{lemma_cls, lemma_count};
use vstd::std_specs::iter::*;
@private EdgeIterator
@type-attr AutomatonBuilder #[verifier::reject_recursive_types(T)]
@items
impl State {
    /// well-formed state of an automaton of n states
    pub open spec fn wf(self, n: nat) -> bool {
        &&& self.classes.wf()
        &&& self.successor@.len() == self.classes.list@.len()
        &&& forall|i: int| 0 <= i < self.successor@.len() ==> (#[trigger] self.successor@[i]) < n
        &&& self.default_successor is Some ==> self.default_successor->0 < n
        &&& self.default_successor is Some <==> self.classes.has_complement()
    }
    /// j is the successor for class id c
    pub open spec fn class_succ(self, c: ClassId) -> usize {
        match c { ClassId::Interval(i) => self.successor@[i as int], ClassId::Complement => self.default_successor->0 }
    }
    /// the successor for character x
    pub open spec fn succ(self, x: u32) -> usize { self.class_succ(class_at(self.classes, x)) }
}
/// the class of character x
pub open spec fn class_at(p: CharPartition, x: u32) -> ClassId { choose|c: ClassId| p.in_class(c, x) }
pub proof fn lemma_class_at(p: CharPartition, c: ClassId, x: u32)
    requires p.wf(), p.in_class(c, x), x <= MAX_CHAR,
    ensures class_at(p, x) == c,
{
    let d = class_at(p, x);
    assert(p.in_class(d, x));
    match c {
        ClassId::Interval(i) => {
            assert(p.list@[i as int].has(x)); assert(p.covered(x));
            match d { ClassId::Interval(j) => { lemma_unique_interval(p, x, i as int, j as int); } ClassId::Complement => {} }
        }
        ClassId::Complement => {
            match d { ClassId::Interval(j) => { assert(p.list@[j as int].has(x)); assert(p.covered(x)); } ClassId::Complement => {} }
        }
    }
}
pub open spec fn num_finals(s: Seq<State>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { num_finals(s.drop_last()) + if s.last().is_final { 1nat } else { 0nat } }
}
pub open spec fn states_wf(s: Seq<State>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf(s.len()) && s[i].id == i
}
impl Automaton {
    pub open spec fn wf(&self) -> bool {
        &&& self.num_states == self.states@.len() && self.initial_state < self.num_states
        &&& self.num_final_states == num_finals(self.states@)
        &&& states_wf(self.states@)
    }
    /// s is a state of self
    pub open spec fn has(self, s: State) -> bool { s.id < self.states@.len() && self.states@[s.id as int] == s }
    pub open spec fn run(self, i: usize, w: Seq<u32>) -> usize
        decreases w.len(),
    {
        if w.len() == 0 { i } else { self.states@[self.run(i, w.drop_last()) as int].succ(w.last()) }
    }
    /// w is in the language
    pub open spec fn lang(self, w: Seq<u32>) -> bool { self.states@[self.run(self.initial_state, w) as int].is_final }
}
pub proof fn lemma_succ(s: State, n: nat, x: u32)
    requires s.wf(n), x <= MAX_CHAR,
    ensures s.succ(x) < n,
{
    let p = s.classes;
    if p.covered(x) {
        let i = choose|i: int| 0 <= i < p.list@.len() && (#[trigger] p.list@[i]).has(x);
        lemma_len(p);
        assert(p.in_class(ClassId::Interval(i as usize), x));
        lemma_class_at(p, ClassId::Interval(i as usize), x);
    } else {
        assert(p.has_complement());
        assert(p.in_class(ClassId::Complement, x));
        lemma_class_at(p, ClassId::Complement, x);
    }
}
pub proof fn lemma_run(a: Automaton, i: usize, w: Seq<u32>)
    requires a.wf(), i < a.num_states, good_chars(w),
    ensures a.run(i, w) < a.num_states,
    decreases w.len(),
{
    if w.len() > 0 {
        lemma_run(a, i, w.drop_last());
        lemma_succ(a.states@[a.run(i, w.drop_last()) as int], a.num_states as nat, w.last());
    }
}
// ---- specifications given to the builder
pub open spec fn tr_wf(t: Seq<(CharSet, usize)>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0.wf() }
/// some transition sends x to j
pub open spec fn sends(t: Seq<(CharSet, usize)>, x: u32, j: usize) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x) && t[i].1 == j }
/// some transition covers x
pub open spec fn labelled(t: Seq<(CharSet, usize)>, x: u32) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x) }
/// no character has two distinct successors
pub open spec fn conflict_free(t: Seq<(CharSet, usize)>) -> bool {
    forall|i: int, k: int, x: u32| 0 <= i < t.len() && 0 <= k < t.len() && #[trigger] t[i].0.has(x) && #[trigger] t[k].0.has(x) ==> t[i].1 == t[k].1
}
/// every character has a transition
pub open spec fn total(t: Seq<(CharSet, usize)>) -> bool { forall|x: u32| x <= MAX_CHAR ==> #[trigger] labelled(t, x) }
pub open spec fn labels(t: Seq<(CharSet, usize)>) -> Seq<CharSet> { t.map_values(the_label()) }
pub open spec fn the_label() -> spec_fn((CharSet, usize)) -> CharSet { |p: (CharSet, usize)| p.0 }
/// the successor the caller specified for x is j: the explicit transition, else the default
pub open spec fn assigns(t: Seq<(CharSet, usize)>, d: Option<usize>, x: u32, j: usize) -> bool {
    sends(t, x, j) || (!labelled(t, x) && d == Some(j))
}
pub open spec fn same_moves(a: Seq<(CharSet, usize)>, b: Seq<(CharSet, usize)>) -> bool {
    forall|x: u32, j: usize| #[trigger] sends(a, x, j) <==> sends(b, x, j)
}
pub open spec fn targets_below(t: Seq<(CharSet, usize)>, n: nat) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 < n }
pub open spec fn is_target(t: Seq<(CharSet, usize)>, j: usize) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == j }
pub proof fn lemma_labelled(t: Seq<(CharSet, usize)>, x: u32)
    ensures labelled(t, x) <==> exists|j: usize| #[trigger] sends(t, x, j),
{
    if labelled(t, x) {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x);
        assert(sends(t, x, t[i].1));
    }
    if exists|j: usize| #[trigger] sends(t, x, j) {
        let j = choose|j: usize| #[trigger] sends(t, x, j);
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x) && t[i].1 == j;
        assert(t[i].0.has(x));
    }
}
pub proof fn lemma_same_labelled(a: Seq<(CharSet, usize)>, b: Seq<(CharSet, usize)>)
    requires same_moves(a, b),
    ensures forall|x: u32| #[trigger] labelled(a, x) <==> labelled(b, x), total(a) <==> total(b),
{
    assert forall|x: u32| #[trigger] labelled(a, x) <==> labelled(b, x) by {
        lemma_labelled(a, x); lemma_labelled(b, x);
        if labelled(a, x) { let j = choose|j: usize| #[trigger] sends(a, x, j); assert(sends(b, x, j)); }
        if labelled(b, x) { let j = choose|j: usize| #[trigger] sends(b, x, j); assert(sends(a, x, j)); }
    }
    if total(a) { assert forall|x: u32| x <= MAX_CHAR implies #[trigger] labelled(b, x) by { assert(labelled(a, x)); } }
    if total(b) { assert forall|x: u32| x <= MAX_CHAR implies #[trigger] labelled(a, x) by { assert(labelled(b, x)); } }
}
pub proof fn lemma_same_conflict_free(a: Seq<(CharSet, usize)>, b: Seq<(CharSet, usize)>)
    requires same_moves(a, b), conflict_free(a),
    ensures conflict_free(b),
{
    assert forall|i: int, k: int, x: u32| 0 <= i < b.len() && 0 <= k < b.len() && #[trigger] b[i].0.has(x) && #[trigger] b[k].0.has(x) implies b[i].1 == b[k].1 by {
        assert(sends(b, x, b[i].1) && sends(b, x, b[k].1));
        assert(sends(a, x, b[i].1) && sends(a, x, b[k].1));
        let i2 = choose|i2: int| 0 <= i2 < a.len() && (#[trigger] a[i2]).0.has(x) && a[i2].1 == b[i].1;
        let k2 = choose|k2: int| 0 <= k2 < a.len() && (#[trigger] a[k2]).0.has(x) && a[k2].1 == b[k].1;
        assert(a[i2].0.has(x) && a[k2].0.has(x));
    }
}
pub proof fn lemma_same_targets(a: Seq<(CharSet, usize)>, b: Seq<(CharSet, usize)>, n: nat)
    requires same_moves(a, b), targets_below(a, n), tr_wf(b),
    ensures targets_below(b, n),
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).1 < n by {
        assert(b[i].0.has(b[i].0.start));
        assert(sends(b, b[i].0.start, b[i].1));
        assert(sends(a, b[i].0.start, b[i].1));
    }
}
pub proof fn lemma_same_multiset_moves(a: Seq<(CharSet, usize)>, b: Seq<(CharSet, usize)>)
    requires a.to_multiset() == b.to_multiset(),
    ensures same_moves(a, b), tr_wf(a) ==> tr_wf(b),
{
    crate::prelude::lemma_same_multiset(a, b);
    assert forall|x: u32, j: usize| #[trigger] sends(a, x, j) <==> sends(b, x, j) by {
        if sends(a, x, j) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.has(x) && a[i].1 == j;
            assert(a.contains(a[i])); assert(b.contains(a[i]));
            let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i];
            assert(b[k].0.has(x));
        }
        if sends(b, x, j) {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0.has(x) && b[i].1 == j;
            assert(b.contains(b[i])); assert(a.contains(b[i]));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
            assert(a[k].0.has(x));
        }
    }
    if tr_wf(a) {
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0.wf() by {
            assert(b.contains(b[i])); assert(a.contains(b[i]));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
            assert(a[k].0.wf());
        }
    }
}
pub proof fn lemma_disjoint_conflict_free(t: Seq<(CharSet, usize)>)
    requires pairwise_disjoint(labels(t)),
    ensures conflict_free(t),
{
    assert forall|i: int, k: int, x: u32| 0 <= i < t.len() && 0 <= k < t.len() && #[trigger] t[i].0.has(x) && #[trigger] t[k].0.has(x) implies t[i].1 == t[k].1 by {
        if i < k { assert(labels(t)[i].disjoint(labels(t)[k])); }
        if k < i { assert(labels(t)[k].disjoint(labels(t)[i])); }
    }
}
/// keeping the transitions that do not go to d
pub open spec fn without(t: Seq<(CharSet, usize)>, d: usize) -> Seq<(CharSet, usize)> { t.filter(elsewhere(d)) }
pub open spec fn elsewhere(d: usize) -> spec_fn((CharSet, usize)) -> bool { |p: (CharSet, usize)| p.1 != d }
pub proof fn lemma_few(t: Seq<(CharSet, usize)>)
    requires tr_wf(t), pairwise_disjoint(labels(t)),
    ensures t.len() <= MAX_CHAR + 1,
{
    let s = t.map_values(|p: (CharSet, usize)| p.0.start as int);
    assert forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < s.len() && i != k implies s[i] != s[k] by {
        let (a, b) = if i < k { (i, k) } else { (k, i) };
        assert(labels(t)[a].disjoint(labels(t)[b]));
        assert(t[a].0.has(t[a].0.start));
        assert(t[b].0.has(t[b].0.start));
    }
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, MAX_CHAR + 1);
    vstd::set_lib::lemma_int_range(0, MAX_CHAR + 1);
    assert forall|v: int| s.to_set().contains(v) implies r.contains(v) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == v;
        assert(t[i].0.wf());
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
pub proof fn lemma_filter_index<T>(t: Seq<T>, f: spec_fn(T) -> bool)
    ensures
        forall|i: int| 0 <= i < t.filter(f).len() ==> f(#[trigger] t.filter(f)[i]),
        t.filter(f).len() <= t.len(),
        exists|g: Seq<int>| g.len() == t.filter(f).len() && (forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < t.len() && t[g[i]] == t.filter(f)[i])
            && (forall|i: int, k: int| 0 <= i < k < g.len() ==> #[trigger] g[i] < #[trigger] g[k]),
        forall|i: int| 0 <= i < t.len() && f(#[trigger] t[i]) ==> t.filter(f).contains(t[i]),
    decreases t.len(),
{
    reveal(Seq::filter);
    if t.len() == 0 {
        assert(t.filter(f) =~= Seq::empty());
        let g = Seq::<int>::empty();
        assert(g.len() == t.filter(f).len());
    } else {
        let s = t.drop_last();
        lemma_filter_index(s, f);
        let g = choose|g: Seq<int>| g.len() == s.filter(f).len() && (forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < s.len() && s[g[i]] == s.filter(f)[i])
            && (forall|i: int, k: int| 0 <= i < k < g.len() ==> #[trigger] g[i] < #[trigger] g[k]);
        if f(t.last()) {
            let h = g.push(t.len() - 1);
            assert(t.filter(f) == s.filter(f).push(t.last()));
            assert forall|i: int| 0 <= i < h.len() implies 0 <= #[trigger] h[i] < t.len() && t[h[i]] == t.filter(f)[i] by { if i < g.len() { assert(h[i] == g[i]); } }
            assert forall|i: int, k: int| 0 <= i < k < h.len() implies #[trigger] h[i] < #[trigger] h[k] by { assert(h[i] == g[i]); if k < g.len() { assert(h[k] == g[k]); } }
            assert forall|i: int| 0 <= i < t.len() && f(#[trigger] t[i]) implies t.filter(f).contains(t[i]) by {
                if i < t.len() - 1 {
                    assert(f(s[i])); assert(s.filter(f).contains(s[i]));
                    let k = choose|k: int| 0 <= k < s.filter(f).len() && s.filter(f)[k] == s[i];
                    assert(t.filter(f)[k] == t[i]);
                } else { assert(t.filter(f)[s.filter(f).len() as int] == t[i]); }
            }
        } else {
            assert(t.filter(f) == s.filter(f));
            assert forall|i: int| 0 <= i < g.len() implies 0 <= #[trigger] g[i] < t.len() && t[g[i]] == t.filter(f)[i] by {}
            assert forall|i: int| 0 <= i < t.len() && f(#[trigger] t[i]) implies t.filter(f).contains(t[i]) by {
                if i < t.len() - 1 { assert(f(s[i])); assert(s.filter(f).contains(s[i])); }
            }
        }
    }
}
pub proof fn lemma_without(t: Seq<(CharSet, usize)>, d: usize)
    requires tr_wf(t), pairwise_disjoint(labels(t)),
    ensures
        tr_wf(without(t, d)), pairwise_disjoint(labels(without(t, d))),
        forall|n: nat| #[trigger] targets_below(t, n) ==> targets_below(without(t, d), n),
        forall|x: u32, j: usize| #[trigger] sends(without(t, d), x, j) <==> sends(t, x, j) && j != d,
{
    let f = elsewhere(d);
    let r = without(t, d);
    lemma_filter_index(t, f);
    let g = choose|g: Seq<int>| g.len() == r.len() && (forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < t.len() && t[g[i]] == r[i])
        && (forall|i: int, k: int| 0 <= i < k < g.len() ==> #[trigger] g[i] < #[trigger] g[k]);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0.wf() by { assert(t[g[i]].0.wf()); }
    assert forall|i: int, k: int| 0 <= i < k < labels(r).len() implies (#[trigger] labels(r)[i]).disjoint(#[trigger] labels(r)[k]) by {
        assert(g[i] < g[k]); assert(t[g[i]] == r[i] && t[g[k]] == r[k]);
        assert(labels(t)[g[i]].disjoint(labels(t)[g[k]]));
    }
    assert forall|n: nat| #[trigger] targets_below(t, n) implies targets_below(r, n) by {
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 < n by { assert(t[g[i]].1 < n); }
    }
    assert forall|x: u32, j: usize| #[trigger] sends(r, x, j) <==> sends(t, x, j) && j != d by {
        if sends(r, x, j) {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.has(x) && r[i].1 == j;
            assert(t[g[i]].0.has(x)); assert(f(r[i]));
        }
        if sends(t, x, j) && j != d {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x) && t[i].1 == j;
            assert(f(t[i])); assert(r.contains(t[i]));
            let k = choose|k: int| 0 <= k < r.len() && r[k] == t[i];
            assert(r[k].0.has(x));
        }
    }
}
impl StateInConstruction {
    /// conflict-free labels (pairwise disjoint) that leave no character without successor
    pub open spec fn clean(self) -> bool {
        &&& tr_wf(self.transitions@) && pairwise_disjoint(labels(self.transitions@))
        &&& self.default_successor is None ==> total(self.transitions@)
    }
    /// a default is declared only where some character is left uncovered
    pub open spec fn default_needed(self) -> bool { self.default_successor is Some ==> !total(self.transitions@) }
    pub open spec fn gives(self, x: u32, j: usize) -> bool { assigns(self.transitions@, self.default_successor, x, j) }
    pub open spec fn below(self, n: nat) -> bool {
        targets_below(self.transitions@, n) && (self.default_successor is Some ==> self.default_successor->0 < n)
    }
}
pub open spec fn same_gives(a: StateInConstruction, b: StateInConstruction) -> bool {
    forall|x: u32, j: usize| x <= MAX_CHAR ==> (#[trigger] a.gives(x, j) <==> b.gives(x, j))
}
/// dropping the transitions to the default successor changes nothing
pub proof fn lemma_cleaned(a: StateInConstruction, m: StateInConstruction, b: StateInConstruction)
    requires
        a.clean(), m.transitions@ == a.transitions@, m.is_final == a.is_final,
        a.default_successor is Some ==> m.default_successor == a.default_successor,
        a.default_successor is None && m.default_successor is Some ==> is_target(a.transitions@, m.default_successor->0),
        b.default_successor == m.default_successor, b.is_final == m.is_final,
        b.transitions@ == (if m.default_successor is Some { without(m.transitions@, m.default_successor->0) } else { m.transitions@ }),
    ensures
        b.clean(), same_gives(a, b), a.default_needed() ==> b.default_needed(),
        forall|n: nat| #[trigger] a.below(n) ==> b.below(n),
{
    let t = a.transitions@;
    if m.default_successor is Some {
        let d = m.default_successor->0;
        let r = b.transitions@;
        lemma_without(t, d);
        lemma_disjoint_conflict_free(t);
        assert forall|x: u32, j: usize| x <= MAX_CHAR implies (#[trigger] a.gives(x, j) <==> b.gives(x, j)) by {
            lemma_labelled(t, x); lemma_labelled(r, x);
            if labelled(t, x) {
                let k = choose|k: usize| #[trigger] sends(t, x, k);
                assert forall|k2: usize| #[trigger] sends(t, x, k2) implies k2 == k by {
                    let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x) && t[i].1 == k;
                    let i2 = choose|i2: int| 0 <= i2 < t.len() && (#[trigger] t[i2]).0.has(x) && t[i2].1 == k2;
                    assert(t[i].0.has(x) && t[i2].0.has(x));
                }
                if k != d { assert(sends(r, x, k)); }
                else {
                    assert forall|k2: usize| !#[trigger] sends(r, x, k2) by { if sends(r, x, k2) { assert(sends(t, x, k2)); } }
                }
                assert(sends(t, x, j) ==> j == k);
                assert(sends(r, x, j) ==> sends(t, x, j));
            } else {
                assert forall|k2: usize| !#[trigger] sends(r, x, k2) by { if sends(r, x, k2) { assert(sends(t, x, k2)); } }
                assert(!sends(t, x, j));
                assert(a.default_successor is Some);
            }
        }
        if a.default_needed() {
            if a.default_successor is Some {
                let x = choose|x: u32| x <= MAX_CHAR && !#[trigger] labelled(t, x);
                lemma_labelled(t, x); lemma_labelled(r, x);
                assert(!labelled(r, x)) by { if labelled(r, x) { let j = choose|j: usize| #[trigger] sends(r, x, j); assert(sends(t, x, j)); } }
            } else {
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == d;
                let x = t[i].0.start;
                assert(t[i].0.has(x));
                lemma_labelled(r, x);
                assert(!labelled(r, x)) by {
                    if labelled(r, x) {
                        let j = choose|j: usize| #[trigger] sends(r, x, j);
                        assert(sends(t, x, j) && j != d);
                        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0.has(x) && t[k].1 == j;
                        assert(t[k].0.has(x) && t[i].0.has(x));
                    }
                }
            }
        }
        assert forall|n: nat| #[trigger] a.below(n) implies b.below(n) by {
            assert(targets_below(t, n));
            if a.default_successor is None { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).1 == d; assert(t[i].1 < n); }
        }
    }
}
pub open spec fn sorted_tr(t: Seq<(CharSet, usize)>) -> bool { forall|i: int, k: int| 0 <= i < k < t.len() ==> (#[trigger] t[i]).0.start <= (#[trigger] t[k]).0.start }
/// m covers the first k transitions of t: sorted disjoint labels, same moves
pub open spec fn merged_from(m: Seq<(CharSet, usize)>, t: Seq<(CharSet, usize)>, k: int) -> bool {
    &&& tr_wf(m) && same_moves(t.take(k), m)
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0.end < (#[trigger] m[j]).0.start
    &&& k > 0 ==> m.len() > 0 && m.last().0.start <= t[k - 1].0.start
    &&& k == 0 ==> m.len() == 0
}
pub proof fn lemma_sends_push(t: Seq<(CharSet, usize)>, p: (CharSet, usize), x: u32, j: usize)
    ensures sends(t.push(p), x, j) <==> sends(t, x, j) || (p.0.has(x) && p.1 == j),
{
    let u = t.push(p);
    if sends(t, x, j) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(x) && t[i].1 == j; assert(u[i].0.has(x)); }
    if p.0.has(x) && p.1 == j { assert(u[t.len() as int].0.has(x)); }
    if sends(u, x, j) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0.has(x) && u[i].1 == j; if i < t.len() { assert(t[i].0.has(x)); } }
}
pub proof fn lemma_merged_push(m: Seq<(CharSet, usize)>, t: Seq<(CharSet, usize)>, k: int)
    requires merged_from(m, t, k), 0 <= k < t.len(), tr_wf(t), sorted_tr(t), m.len() > 0 ==> m.last().0.disjoint(t[k].0),
    ensures merged_from(m.push(t[k]), t, k + 1),
{
    let n = m.push(t[k]);
    assert(t.take(k + 1) =~= t.take(k).push(t[k]));
    assert forall|x: u32, j: usize| #[trigger] sends(t.take(k + 1), x, j) <==> sends(n, x, j) by {
        lemma_sends_push(t.take(k), t[k], x, j); lemma_sends_push(m, t[k], x, j);
        assert(sends(t.take(k), x, j) <==> sends(m, x, j));
    }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).0.end < (#[trigger] n[j]).0.start by {
        if j == m.len() {
            let l = m.last();
            assert(t[k - 1].0.start <= t[k].0.start);
            assert(l.0.wf() && t[k].0.wf());
            assert(l.0.has(t[k].0.start) == (t[k].0.start <= l.0.end));
            assert(t[k].0.has(t[k].0.start));
            if i < m.len() - 1 { assert(m[i].0.end < m[m.len() - 1].0.start); }
        }
    }
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).0.wf() by { if i < m.len() { assert(m[i].0.wf()); } }
}
pub proof fn lemma_merged_grow(m: Seq<(CharSet, usize)>, t: Seq<(CharSet, usize)>, k: int, c: CharSet)
    requires
        merged_from(m, t, k), 0 <= k < t.len(), tr_wf(t), sorted_tr(t), m.len() > 0, m.last().1 == t[k].1, c.wf(),
        !m.last().0.disjoint(t[k].0),
        forall|x: u32| #[trigger] c.has(x) <==> m.last().0.has(x) || t[k].0.has(x),
    ensures merged_from(m.update(m.len() - 1, (c, m.last().1)), t, k + 1),
{
    let l = m.last();
    let n = m.update(m.len() - 1, (c, l.1));
    assert(n =~= m.drop_last().push((c, l.1)));
    assert(m =~= m.drop_last().push(l));
    assert(t.take(k + 1) =~= t.take(k).push(t[k]));
    assert forall|x: u32, j: usize| #[trigger] sends(t.take(k + 1), x, j) <==> sends(n, x, j) by {
        lemma_sends_push(t.take(k), t[k], x, j); lemma_sends_push(m.drop_last(), l, x, j); lemma_sends_push(m.drop_last(), (c, l.1), x, j);
        assert(sends(t.take(k), x, j) <==> sends(m, x, j));
        assert(c.has(x) <==> l.0.has(x) || t[k].0.has(x));
    }
    assert(t[k - 1].0.start <= t[k].0.start);
    assert(l.0.wf());
    assert(t[k].0.wf());
    assert(c.has(l.0.start)); assert(c.has(c.start));
    assert(c.start == l.0.start);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).0.end < (#[trigger] n[j]).0.start by {
        assert(m[i].0.end < m[j].0.start);
    }
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).0.wf() by { if i < m.len() - 1 { assert(m[i].0.wf()); } }
}
pub proof fn lemma_union_exists(a: CharSet, b: CharSet)
    requires a.wf(), b.wf(), !a.disjoint(b),
    ensures exists|c: CharSet| c.wf() && forall|x: u32| #[trigger] c.has(x) <==> a.has(x) || b.has(x),
{
    let c = CharSet { start: vmin(a.start, b.start), end: vmax(a.end, b.end) };
    let x = choose|x: u32| #[trigger] a.has(x) && b.has(x);
    assert(c.wf());
    assert forall|x: u32| #[trigger] c.has(x) <==> a.has(x) || b.has(x) by {}
}
pub proof fn lemma_merged_conflict(m: Seq<(CharSet, usize)>, t: Seq<(CharSet, usize)>, k: int)
    requires merged_from(m, t, k), 0 <= k < t.len(), m.len() > 0, m.last().1 != t[k].1, !m.last().0.disjoint(t[k].0),
    ensures !conflict_free(t),
{
    let l = m.last();
    let x = choose|x: u32| #[trigger] l.0.has(x) && t[k].0.has(x);
    assert(m[m.len() - 1].0.has(x));
    assert(sends(m, x, l.1));
    assert(sends(t.take(k), x, l.1));
    let i = choose|i: int| 0 <= i < t.take(k).len() && (#[trigger] t.take(k)[i]).0.has(x) && t.take(k)[i].1 == l.1;
    assert(t[i].0.has(x) && t[k].0.has(x));
}
pub proof fn lemma_merged_all(m: Seq<(CharSet, usize)>, t: Seq<(CharSet, usize)>)
    requires merged_from(m, t, t.len() as int),
    ensures tr_wf(m), same_moves(t, m), pairwise_disjoint(labels(m)), conflict_free(t),
{
    assert(t.take(t.len() as int) =~= t);
    assert forall|i: int, j: int| 0 <= i < j < labels(m).len() implies (#[trigger] labels(m)[i]).disjoint(#[trigger] labels(m)[j]) by { assert(m[i].0.end < m[j].0.start); }
    lemma_disjoint_conflict_free(m);
    lemma_same_conflict_free(m, t);
}
/// the intervals of a partition made of the labels of t cover what t covers
pub proof fn lemma_part_covers(p: CharPartition, t: Seq<(CharSet, usize)>)
    requires p.list@.to_multiset() == labels(t).to_multiset(),
    ensures forall|x: u32| #[trigger] p.covered(x) <==> labelled(t, x), p.has_complement() <==> !total(t),
{
    lemma_part_covers1(p, t);
    if p.has_complement() { let x = choose|x: u32| x <= MAX_CHAR && !#[trigger] p.covered(x); assert(!labelled(t, x)); }
    if !total(t) { let x = choose|x: u32| x <= MAX_CHAR && !#[trigger] labelled(t, x); assert(!p.covered(x)); }
}
pub proof fn lemma_part_covers1(p: CharPartition, t: Seq<(CharSet, usize)>)
    requires p.list@.to_multiset() == labels(t).to_multiset(),
    ensures forall|x: u32| #[trigger] p.covered(x) <==> labelled(t, x),
{
    let l = labels(t);
    crate::prelude::lemma_same_multiset(p.list@, l);
    assert forall|x: u32| #[trigger] p.covered(x) <==> labelled(t, x) by {
        if p.covered(x) {
            let i = choose|i: int| 0 <= i < p.list@.len() && (#[trigger] p.list@[i]).has(x);
            assert(p.list@.contains(p.list@[i])); assert(l.contains(p.list@[i]));
            let k = choose|k: int| 0 <= k < l.len() && l[k] == p.list@[i];
            assert(t[k].0.has(x));
        }
        if labelled(t, x) {
            let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0.has(x);
            assert(l[k] == t[k].0); assert(l.contains(l[k])); assert(p.list@.contains(l[k]));
            let i = choose|i: int| 0 <= i < p.list@.len() && p.list@[i] == l[k];
            assert(p.list@[i].has(x));
        }
    }
}
/// suc gives for every interval of p the target of the transition with that label
pub open spec fn succ_table(p: CharPartition, t: Seq<(CharSet, usize)>, suc: Seq<usize>) -> bool {
    suc.len() == p.list@.len() && forall|i: int| 0 <= i < suc.len() ==> #[trigger] entry_ok(p, t, suc, i)
}
pub open spec fn entry_ok(p: CharPartition, t: Seq<(CharSet, usize)>, suc: Seq<usize>, i: int) -> bool {
    exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == p.list@[i] && t[k].1 == suc[i]
}
/// interval i of p has a transition among the first k, and the table has its target
pub open spec fn filled(p: CharPartition, t: Seq<(CharSet, usize)>, suc: Seq<usize>, k: int) -> bool {
    forall|a: int, i: int| 0 <= a < k && 0 <= i < suc.len() && (#[trigger] t[a]).0 == (#[trigger] p.list@[i]) ==> suc[i] == t[a].1
}
pub proof fn lemma_interval_of(p: CharPartition, t: Seq<(CharSet, usize)>, a: int, i: int, x: u32)
    requires
        p.wf(), tr_wf(t), p.list@.to_multiset() == labels(t).to_multiset(), 0 <= a < t.len(), 0 <= i < p.list@.len(),
        p.list@[i].has(x), t[a].0.has(x),
    ensures p.list@[i] == t[a].0,
{
    let l = labels(t);
    crate::prelude::lemma_same_multiset(p.list@, l);
    assert(l[a] == t[a].0); assert(l.contains(l[a])); assert(p.list@.contains(l[a]));
    let k = choose|k: int| 0 <= k < p.list@.len() && p.list@[k] == l[a];
    lemma_unique_interval(p, x, i, k);
}
pub proof fn lemma_table(p: CharPartition, t: Seq<(CharSet, usize)>, suc: Seq<usize>)
    requires p.wf(), p.list@.to_multiset() == labels(t).to_multiset(), suc.len() == p.list@.len(), filled(p, t, suc, t.len() as int),
    ensures succ_table(p, t, suc),
{
    let l = labels(t);
    crate::prelude::lemma_same_multiset(p.list@, l);
    assert forall|i: int| 0 <= i < suc.len() implies #[trigger] entry_ok(p, t, suc, i) by {
        assert(p.list@.contains(p.list@[i])); assert(l.contains(p.list@[i]));
        let k = choose|k: int| 0 <= k < l.len() && l[k] == p.list@[i];
        assert(t[k].0 == p.list@[i]);
    }
}
/// a state made from a clean specification has the specified successors
pub proof fn lemma_state_gives(s: State, c: StateInConstruction, n: nat)
    requires
        c.clean(), c.below(n), c.default_needed(),
        s.classes.wf(), s.classes.list@.to_multiset() == labels(c.transitions@).to_multiset(),
        succ_table(s.classes, c.transitions@, s.successor@), s.default_successor == c.default_successor,
    ensures
        s.wf(n), forall|x: u32| x <= MAX_CHAR ==> c.gives(x, #[trigger] s.succ(x)),
{
    let p = s.classes;
    let t = c.transitions@;
    lemma_part_covers(p, t);
    lemma_len(p);
    assert forall|i: int| 0 <= i < s.successor@.len() implies (#[trigger] s.successor@[i]) < n by {
        assert(entry_ok(p, t, s.successor@, i));
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == p.list@[i] && t[k].1 == s.successor@[i];
        assert(t[k].1 < n);
    }
    assert forall|x: u32| x <= MAX_CHAR implies c.gives(x, #[trigger] s.succ(x)) by {
        assert(p.covered(x) <==> labelled(t, x));
        if p.covered(x) {
            let i = choose|i: int| 0 <= i < p.list@.len() && (#[trigger] p.list@[i]).has(x);
            assert(p.in_class(ClassId::Interval(i as usize), x));
            lemma_class_at(p, ClassId::Interval(i as usize), x);
            assert(entry_ok(p, t, s.successor@, i));
            let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == p.list@[i] && t[k].1 == s.successor@[i];
            assert(t[k].0.has(x));
        } else {
            assert(p.in_class(ClassId::Complement, x));
            lemma_class_at(p, ClassId::Complement, x);
            assert(p.has_complement());
        }
    }
}
/// what the caller has said about a state
pub struct StateSpec { pub fin: bool, pub def: Option<usize>, pub tr: Seq<(CharSet, usize)> }
impl StateInConstruction {
    pub open spec fn v(self) -> StateSpec { StateSpec { fin: self.is_final, def: self.default_successor, tr: self.transitions@ } }
}
impl StateSpec {
    pub open spec fn fresh() -> StateSpec { StateSpec { fin: false, def: None, tr: Seq::empty() } }
    /// no conflict, no character without successor
    pub open spec fn ok(self) -> bool { conflict_free(self.tr) && (self.def is Some || total(self.tr)) }
    /// defaults only where some character is left uncovered
    pub open spec fn lean(self) -> bool { self.def is Some ==> !total(self.tr) }
    pub open spec fn gives(self, x: u32, j: usize) -> bool { assigns(self.tr, self.def, x, j) }
    pub open spec fn below(self, n: nat) -> bool { tr_wf(self.tr) && targets_below(self.tr, n) && (self.def is Some ==> self.def->0 < n) }
}
pub open spec fn specs_of(s: Seq<StateInConstruction>) -> Seq<StateSpec> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn reg_map<T>(m: Map<T, usize>, s: Seq<StateSpec>, k: T) -> Map<T, usize> { if m.contains_key(k) { m } else { m.insert(k, s.len() as usize) } }
pub open spec fn reg_specs<T>(m: Map<T, usize>, s: Seq<StateSpec>, k: T) -> Seq<StateSpec> { if m.contains_key(k) { s } else { s.push(StateSpec::fresh()) } }
pub open spec fn names<T>(m: Map<T, usize>, i: int) -> bool { exists|k: T| #[trigger] m.contains_key(k) && m[k] == i }
impl<T> AutomatonBuilder<T> {
    pub open spec fn specs(self) -> Seq<StateSpec> { specs_of(self.states@) }
    pub open spec fn ids(self) -> Map<T, usize> { self.id_map@ }
    pub open spec fn inv(self) -> bool {
        &&& self.size == self.states@.len() && self.size > 0
        &&& forall|k: T| #[trigger] self.id_map@.contains_key(k) ==> self.id_map@[k] < self.size
        &&& forall|k: T, l: T| #[trigger] self.id_map@.contains_key(k) && #[trigger] self.id_map@.contains_key(l) && self.id_map@[k] == self.id_map@[l] ==> k == l
        &&& forall|i: int| 0 <= i < self.size ==> #[trigger] names(self.id_map@, i)
        &&& forall|i: int| 0 <= i < self.size ==> (#[trigger] self.specs()[i]).below(self.size as nat)
    }
}
pub proof fn lemma_below_mono(s: StateSpec, n: nat, m: nat)
    requires s.below(n), n <= m,
    ensures s.below(m),
{
    assert forall|i: int| 0 <= i < s.tr.len() implies (#[trigger] s.tr[i]).1 < m by {}
}
/// the same transition structure as the caller's specification
pub open spec fn realizes(a: Automaton, s: Seq<StateSpec>) -> bool {
    &&& a.wf() && a.num_states == s.len() && a.initial_state == 0
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] state_realizes(a.states@[i], s[i])
}
pub open spec fn state_realizes(a: State, s: StateSpec) -> bool {
    a.is_final == s.fin && forall|x: u32| x <= MAX_CHAR ==> s.gives(x, #[trigger] a.succ(x))
}
pub open spec fn part_built(a: Seq<State>, s: Seq<StateSpec>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> #[trigger] state_realizes(a[i], s[i]) && a[i].wf(s.len()) && a[i].id == i
}
pub proof fn lemma_built(a: Seq<State>, s: Seq<StateSpec>)
    requires part_built(a, s), a.len() == s.len(),
    ensures states_wf(a),
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).wf(a.len()) && a[i].id == i by { assert(state_realizes(a[i], s[i])); }
}
pub proof fn lemma_built_push(a: Seq<State>, s: Seq<StateSpec>, st: State)
    requires part_built(a, s), a.len() < s.len(), state_realizes(st, s[a.len() as int]), st.wf(s.len()), st.id == a.len(),
    ensures part_built(a.push(st), s),
{
    let b = a.push(st);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] state_realizes(b[i], s[i]) && b[i].wf(s.len()) && b[i].id == i by {
        if i < a.len() { assert(state_realizes(a[i], s[i])); }
    }
}
/// std: derived Clone
#[verifier::external_body]
fn clone_state(s: &StateInConstruction) -> (r: StateInConstruction)
    ensures r.v() == s.v(),
{ s.clone() }
pub proof fn lemma_num_finals_push(a: Seq<State>, s: State)
    ensures num_finals(a.push(s)) == num_finals(a) + if s.is_final { 1nat } else { 0nat },
{
    assert(a.push(s).drop_last() =~= a);
}
pub proof fn lemma_num_finals_le(a: Seq<State>)
    ensures num_finals(a) <= a.len(),
    decreases a.len(),
{
    if a.len() > 0 { lemma_num_finals_le(a.drop_last()); }
}
/// validate then cleanup keeps what the caller specified
pub proof fn lemma_clean_realizes(s: StateSpec, v: StateInConstruction, c: StateInConstruction, st: State, n: nat)
    requires
        s.below(n), v.clean(), same_moves(s.tr, v.transitions@), v.is_final == s.fin, v.default_successor == s.def,
        c.clean(), c.is_final == v.is_final, same_gives(v, c), v.below(n) ==> c.below(n), c.default_needed(),
        st.classes.wf(), st.classes.list@.to_multiset() == labels(c.transitions@).to_multiset(),
        succ_table(st.classes, c.transitions@, st.successor@), st.default_successor == c.default_successor, st.is_final == c.is_final,
    ensures state_realizes(st, s), st.wf(n),
{
    lemma_same_targets(s.tr, v.transitions@, n);
    lemma_state_gives(st, c, n);
    lemma_same_labelled(s.tr, v.transitions@);
    assert forall|x: u32| x <= MAX_CHAR implies s.gives(x, #[trigger] st.succ(x)) by {
        assert(c.gives(x, st.succ(x)));
        assert(v.gives(x, st.succ(x)));
        assert(sends(s.tr, x, st.succ(x)) <==> sends(v.transitions@, x, st.succ(x)));
        assert(labelled(s.tr, x) <==> labelled(v.transitions@, x));
    }
}
// ---- the iterators and the compiled table
/// the edges of s: one for each class, in the order of the classes
pub open spec fn edge_seq<'a>(s: State, arr: Seq<State>) -> Seq<(ClassId, &'a State)> {
    Seq::new(class_seq(s.classes).len(), |i: int| (class_seq(s.classes)[i], &arr[s.class_succ(class_seq(s.classes)[i]) as int]))
}
pub open spec fn rest_edges<'a>(s: State, arr: Seq<State>, k: usize) -> Seq<(ClassId, &'a State)> {
    if k <= edge_seq(s, arr).len() { edge_seq(s, arr).skip(k as int) } else { Seq::empty() }
}
/// the final states from index k on
pub open spec fn rest_finals<'a>(arr: Seq<State>, k: nat) -> Seq<&'a State>
    decreases arr.len() - k,
{
    if k >= arr.len() { Seq::empty() }
    else if arr[k as int].is_final { seq![&arr[k as int]] + rest_finals(arr, k + 1) }
    else { rest_finals(arr, k + 1) }
}
pub proof fn lemma_rest_finals(arr: Seq<State>, k: nat)
    requires k <= arr.len(),
    ensures
        rest_finals(arr, k).len() + num_finals(arr.take(k as int)) == num_finals(arr),
        forall|i: int| 0 <= i < rest_finals(arr, k).len() ==> (#[trigger] rest_finals(arr, k)[i]).is_final,
        forall|i: int| k <= i < arr.len() && (#[trigger] arr[i]).is_final ==> rest_finals(arr, k).contains(&arr[i]),
    decreases arr.len() - k,
{
    let r = rest_finals(arr, k);
    if k >= arr.len() { assert(arr.take(k as int) =~= arr); }
    else {
        lemma_rest_finals(arr, k + 1);
        let q = rest_finals(arr, k + 1);
        assert(arr.take((k + 1) as int).drop_last() =~= arr.take(k as int));
        assert forall|i: int| k <= i < arr.len() && (#[trigger] arr[i]).is_final implies r.contains(&arr[i]) by {
            if i == k { assert(r[0] == arr[i]); }
            else { let j = choose|j: int| 0 <= j < q.len() && q[j] == &arr[i]; if arr[k as int].is_final { assert(r[j + 1] == q[j]); } else { assert(r[j] == q[j]); } }
        }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).is_final by {
            if arr[k as int].is_final { if i > 0 { assert(r[i] == q[i - 1]); } } else { assert(r[i] == q[i]); }
        }
    }
}
/// final_states lists exactly the final states, and num_final_states counts them
pub proof fn lemma_final_states(a: Automaton)
    requires a.wf(),
    ensures
        rest_finals(a.states@, 0).len() == a.num_final_states,
        forall|i: int| 0 <= i < a.num_states && (#[trigger] a.states@[i]).is_final ==> rest_finals(a.states@, 0).contains(&a.states@[i]),
        forall|i: int| 0 <= i < a.num_final_states ==> (#[trigger] rest_finals(a.states@, 0)[i]).is_final,
{
    lemma_rest_finals(a.states@, 0);
    assert(a.states@.take(0) =~= Seq::empty());
}
pub proof fn lemma_some_class(p: CharPartition, x: u32)
    requires p.wf(), x <= MAX_CHAR,
    ensures p.in_class(class_at(p, x), x), p.valid(class_at(p, x)),
{
    lemma_len(p);
    if p.covered(x) {
        let i = choose|i: int| 0 <= i < p.list@.len() && (#[trigger] p.list@[i]).has(x);
        assert(p.in_class(ClassId::Interval(i as usize), x));
    } else {
        assert(p.has_complement());
        assert(p.in_class(ClassId::Complement, x));
    }
}
/// each character is on the edge that next follows, and on no other
pub proof fn lemma_edges(a: Automaton, s: State, x: u32)
    requires a.wf(), a.has(s), x <= MAX_CHAR,
    ensures
        exists|i: int| 0 <= i < edge_seq(s, a.states@).len() && s.classes.in_class((#[trigger] edge_seq(s, a.states@)[i]).0, x) && *edge_seq(s, a.states@)[i].1 == a.states@[s.succ(x) as int],
        forall|i: int| 0 <= i < edge_seq(s, a.states@).len() && s.classes.in_class((#[trigger] edge_seq(s, a.states@)[i]).0, x) ==> *edge_seq(s, a.states@)[i].1 == a.states@[s.succ(x) as int],
{
    let e = edge_seq(s, a.states@);
    let cs = class_seq(s.classes);
    lemma_class_seq(s.classes);
    lemma_some_class(s.classes, x);
    let c = class_at(s.classes, x);
    assert(s.classes.valid(c));
    assert(cs.contains(c));
    let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c;
    assert(s.classes.in_class(e[i].0, x));
    assert forall|i: int| 0 <= i < e.len() && s.classes.in_class((#[trigger] e[i]).0, x) implies *e[i].1 == a.states@[s.succ(x) as int] by {
        lemma_class_at(s.classes, cs[i], x);
    }
}
/// next yields the edges in order, then none
pub closed spec fn edge_step<'a>(o: EdgeIterator<'a>, f: EdgeIterator<'a>, r: Option<(ClassId, &'a State)>) -> bool {
    let e = edge_seq::<'a>(*o.state, o.state_array@);
    &&& f.state == o.state && f.state_array == o.state_array
    &&& r == (if o.index < e.len() { Some(e[o.index as int]) } else { None })
}
impl<'a> EdgeIterator<'a> {
    /// the state and the states this iterator was made for
    pub closed spec fn over(self) -> (State, Seq<State>) { (*self.state, self.state_array@) }
    #[verifier::type_invariant]
    pub closed spec fn ok(self) -> bool { self.state.wf(self.state_array@.len()) && self.index <= self.state.classes.list@.len() + 1 }
}
impl<'a> IteratorSpecImpl for EdgeIterator<'a> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { self.state.wf(self.state_array@.len()) }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<(ClassId, &'a State)> { rest_edges(*self.state, self.state_array@, self.index) }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some(rest_edges::<'a>(*self.state, self.state_array@, self.index).len()) }
    closed spec fn peek(&self, i: int) -> Option<(ClassId, &'a State)> { None }
}
impl<'a> IteratorSpecImpl for FinalStateIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a State> { rest_finals(self.state_array@, self.index as nat) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(rest_finals::<'a>(self.state_array@, self.index as nat).len()) }
    open spec fn peek(&self, i: int) -> Option<&'a State> { None }
}
pub open spec fn the_classes() -> spec_fn(State) -> CharPartition { |s: State| s.classes }
impl Automaton {
    /// the partitions of the states
    pub open spec fn parts(self) -> Seq<CharPartition> { self.states@.map_values(the_classes()) }
    /// one character of each class of the coarsest common refinement of the partitions of the states
    pub open spec fn alphabet(self) -> Seq<u32> { pick_seq(choose|p: CharPartition| is_merge_list(p, self.parts())) }
    /// x and y have the same successor in every state
    pub open spec fn together(self, x: u32, y: u32) -> bool { forall|i: int| 0 <= i < self.states@.len() ==> (#[trigger] self.states@[i]).succ(x) == self.states@[i].succ(y) }
}
pub proof fn lemma_alphabet(a: Automaton, p: CharPartition)
    requires is_merge_list(p, a.parts()),
    ensures a.alphabet() == pick_seq(p),
{
    let q = choose|p: CharPartition| is_merge_list(p, a.parts());
    assert(is_merge_list(q, a.parts()));
    lemma_merge_unique(p, q, a.parts(), a.parts());
    assert(p.list@ == q.list@ && p.comp_witness == q.comp_witness);
    assert forall|x: u32| #[trigger] p.covered(x) == q.covered(x) by {}
    lemma_complement(p);
    lemma_complement(q);
    assert(p.has_complement() == q.has_complement());
    assert(pick_seq(p) =~= pick_seq(q));
}
pub proof fn lemma_pick_small(p: CharPartition)
    requires p.wf(),
    ensures forall|i: int| 0 <= i < pick_seq(p).len() ==> (#[trigger] pick_seq(p)[i]) <= MAX_CHAR, pick_seq(p).len() > 0, pick_seq(p).len() <= MAX_CHAR + 2,
{
    lemma_class_seq(p);
    lemma_complement(p);
    lemma_len(p);
    assert forall|i: int| 0 <= i < pick_seq(p).len() implies (#[trigger] pick_seq(p)[i]) <= MAX_CHAR by { assert(p.in_class(class_seq(p)[i], pick_seq(p)[i])); if i < p.list@.len() { assert(p.list@[i].wf()); } }
    if p.list@.len() == 0 && !p.has_complement() { assert(!p.covered(0)); }
}
pub proof fn lemma_same_succ(p: CharPartition, n: nat, s: State, x: u32, y: u32)
    requires s.wf(n), p == s.classes, p.same(x, y), x <= MAX_CHAR, y <= MAX_CHAR,
    ensures s.succ(x) == s.succ(y),
{
    lemma_some_class(p, x);
    let c = class_at(p, x);
    assert(p.in_class(c, y)) by {
        match c {
            ClassId::Interval(i) => { assert(p.list@[i as int].has(x)); assert(p.list@[i as int].has(y)); }
            ClassId::Complement => {
                if p.covered(y) { let k = choose|k: int| 0 <= k < p.list@.len() && (#[trigger] p.list@[k]).has(y); assert(p.list@[k].has(x)); assert(p.covered(x)); }
            }
        }
    }
    lemma_class_at(p, c, y);
}
/// characters in one class of the combined partition have the same successors
pub proof fn lemma_combined(a: Automaton, p: CharPartition, x: u32, y: u32)
    requires a.wf(), is_merge_list(p, a.parts()), p.same(x, y), x <= MAX_CHAR, y <= MAX_CHAR,
    ensures a.together(x, y),
{
    lemma_same_in_merge(p, a.parts(), x, y);
    assert forall|i: int| 0 <= i < a.states@.len() implies (#[trigger] a.states@[i]).succ(x) == a.states@[i].succ(y) by {
        assert(a.parts()[i].same(x, y));
        lemma_same_succ(a.parts()[i], a.states@.len(), a.states@[i], x, y);
    }
}
/// the table row of state t
pub open spec fn table_row(a: Automaton, b: CompactTableBuilder, t: int) -> bool {
    forall|c: u32| c < a.alphabet().len() ==> (match #[trigger] b.get(t as u32, c) { Some(v) => v, None => b.def(t as u32) }) == a.states@[t].succ(a.alphabet()[c as int])
}
/// the compiled table agrees with next
pub open spec fn table_of(t: CompactTable, a: Automaton) -> bool {
    &&& t.wf() && t.states() == a.num_states && t.alpha() == a.alphabet().len()
    &&& forall|s: u32, c: u32| s < t.states() && c < t.alpha() ==> #[trigger] t.at(s, c) == a.states@[s as int].succ(a.alphabet()[c as int])
}
/// the entries for the first n characters
pub open spec fn row_upto(s: State, al: Seq<u32>, v: Seq<(u32, u32)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 < n && v[k].1 == s.succ(al[v[k].0 as int])
    &&& forall|i: int, k: int| 0 <= i < k < v.len() ==> (#[trigger] v[i]).0 < (#[trigger] v[k]).0
    &&& forall|c: u32| c < n && !#[trigger] listed(v, c) ==> s.default_successor is Some && s.default_successor->0 == s.succ(al[c as int])
}
pub proof fn lemma_row_push(s: State, al: Seq<u32>, v: Seq<(u32, u32)>, w: Seq<(u32, u32)>, n: int)
    requires
        0 <= n < al.len(), n < u32::MAX, row_upto(s, al, v, n),
        (w == v.push((n as u32, s.succ(al[n]) as u32)) && s.succ(al[n]) <= u32::MAX)
            || (w == v && s.default_successor is Some && s.default_successor->0 == s.succ(al[n])),
    ensures row_upto(s, al, w, n + 1),
{
    assert forall|c: u32| c < n + 1 && !#[trigger] listed(w, c) implies s.default_successor is Some && s.default_successor->0 == s.succ(al[c as int]) by {
        if c < n {
            if listed(v, c) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == c; assert(w[k].0 == c); }
        } else if w != v { assert(w[v.len() as int].0 == c); }
    }
}
// ---- renumbering states
impl StateMapping {
    /// each new state k stands for the old state old_id[k], and every old state has a new number
    pub open spec fn ok(self, n: nat) -> bool {
        &&& self.new_id@.len() == n && 0 < self.old_id@.len() <= n
        &&& forall|k: int| 0 <= k < self.old_id@.len() ==> (#[trigger] self.old_id@[k]) < n && self.new_id@[self.old_id@[k] as int] == k
        &&& forall|i: int| 0 <= i < n ==> (#[trigger] self.new_id@[i]) < self.old_id@.len()
    }
    /// the old state that stands for i
    pub open spec fn rep(self, i: usize) -> usize { self.old_id@[self.new_id@[i as int] as int] }
}
/// t is state s with its number and its successors renumbered
pub open spec fn renumbered(s: State, t: State, m: StateMapping) -> bool {
    &&& t.id == m.new_id@[s.id as int] && t.is_final == s.is_final && t.classes == s.classes
    &&& t.successor@.len() == s.successor@.len()
    &&& forall|i: int| 0 <= i < s.successor@.len() ==> #[trigger] t.successor@[i] == m.new_id@[s.successor@[i] as int]
    &&& t.default_successor is Some <==> s.default_successor is Some
    &&& s.default_successor is Some ==> t.default_successor->0 == m.new_id@[s.default_successor->0 as int]
}
pub proof fn lemma_renumbered(s: State, t: State, m: StateMapping, n: nat)
    requires renumbered(s, t, m), s.wf(n), m.ok(n),
    ensures t.wf(m.old_id@.len()), forall|x: u32| x <= MAX_CHAR ==> #[trigger] t.succ(x) == m.new_id@[s.succ(x) as int],
{
    lemma_len(s.classes);
    assert forall|i: int| 0 <= i < t.successor@.len() implies (#[trigger] t.successor@[i]) < m.old_id@.len() by { assert(s.successor@[i] < n); }
    assert forall|x: u32| x <= MAX_CHAR implies #[trigger] t.succ(x) == m.new_id@[s.succ(x) as int] by { lemma_some_class(s.classes, x); }
}
/// b is a with its states renumbered: one state for each entry of m.old_id
pub open spec fn remapped(a: Automaton, b: Automaton, m: StateMapping) -> bool {
    &&& b.states@.len() == m.old_id@.len() && b.initial_state == m.new_id@[a.initial_state as int]
    &&& forall|k: int| 0 <= k < b.states@.len() ==> renumbered(a.states@[m.old_id@[k] as int], #[trigger] b.states@[k], m)
}
/// the states of k have the same finality and equivalent successors as the states that stand for them
pub open spec fn respects(a: Automaton, m: StateMapping, k: Set<usize>) -> bool {
    &&& forall|i: usize| #[trigger] k.contains(i) ==> i < a.num_states && a.states@[m.rep(i) as int].is_final == a.states@[i as int].is_final
    &&& forall|i: usize, x: u32| #[trigger] k.contains(i) && x <= MAX_CHAR ==> k.contains(#[trigger] a.states@[i as int].succ(x))
            && m.new_id@[a.states@[m.rep(i) as int].succ(x) as int] == m.new_id@[a.states@[i as int].succ(x) as int]
}
pub proof fn lemma_remap_run(a: Automaton, b: Automaton, m: StateMapping, k: Set<usize>, i: usize, w: Seq<u32>)
    requires a.wf(), m.ok(a.num_states as nat), remapped(a, b, m), respects(a, m, k), k.contains(i), good_chars(w),
    ensures k.contains(a.run(i, w)), b.run(m.new_id@[i as int], w) == m.new_id@[a.run(i, w) as int],
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_remap_run(a, b, m, k, i, v);
        let j = a.run(i, v);
        let x = w.last();
        assert(k.contains(a.states@[j as int].succ(x)));
        let r = m.rep(j);
        let q = m.new_id@[j as int];
        assert(renumbered(a.states@[m.old_id@[q as int] as int], b.states@[q as int], m));
        assert(a.states@[r as int].wf(a.states@.len()));
        lemma_renumbered(a.states@[r as int], b.states@[q as int], m, a.num_states as nat);
        assert(b.states@[q as int].succ(x) == m.new_id@[a.states@[r as int].succ(x) as int]);
    }
}
/// the states keep their languages
pub proof fn lemma_remap_final(a: Automaton, b: Automaton, m: StateMapping, k: Set<usize>, i: usize, w: Seq<u32>)
    requires a.wf(), m.ok(a.num_states as nat), remapped(a, b, m), respects(a, m, k), k.contains(i), good_chars(w),
    ensures b.states@[b.run(m.new_id@[i as int], w) as int].is_final == a.states@[a.run(i, w) as int].is_final,
{
    lemma_remap_run(a, b, m, k, i, w);
    let j = a.run(i, w);
    let q = m.new_id@[j as int];
    assert(renumbered(a.states@[m.old_id@[q as int] as int], b.states@[q as int], m));
}
/// a and b accept the same strings
pub open spec fn same_lang(a: Automaton, b: Automaton) -> bool { forall|w: Seq<u32>| good_chars(w) ==> #[trigger] b.lang(w) == a.lang(w) }
pub proof fn lemma_remap_lang(a: Automaton, b: Automaton, m: StateMapping, k: Set<usize>)
    requires a.wf(), m.ok(a.num_states as nat), remapped(a, b, m), respects(a, m, k), k.contains(a.initial_state),
    ensures same_lang(a, b),
{
    assert forall|w: Seq<u32>| good_chars(w) implies #[trigger] b.lang(w) == a.lang(w) by { lemma_remap_final(a, b, m, k, a.initial_state, w); }
}
// ---- reachable states
pub open spec fn reaches(a: Automaton, i: usize, w: Seq<u32>) -> bool { good_chars(w) && a.run(a.initial_state, w) == i }
pub open spec fn can_reach(a: Automaton, i: usize) -> bool { exists|w: Seq<u32>| #[trigger] reaches(a, i, w) }
pub proof fn lemma_reach_start(a: Automaton)
    ensures can_reach(a, a.initial_state),
{
    assert(reaches(a, a.initial_state, Seq::empty()));
}
pub proof fn lemma_reach_step(a: Automaton, i: usize, x: u32)
    requires can_reach(a, i), x <= MAX_CHAR,
    ensures can_reach(a, a.states@[i as int].succ(x)),
{
    let w = choose|w: Seq<u32>| #[trigger] reaches(a, i, w);
    let v = w.push(x);
    assert(v.drop_last() =~= w);
    assert(reaches(a, a.states@[i as int].succ(x), v));
}
/// the successor for any class is the successor for some character
pub proof fn lemma_reach_edge(a: Automaton, s: State, c: ClassId)
    requires a.wf(), a.has(s), s.classes.valid(c), can_reach(a, s.id),
    ensures can_reach(a, s.class_succ(c)), s.class_succ(c) < a.num_states,
{
    let p = s.classes;
    lemma_len(p);
    match c {
        ClassId::Interval(i) => {
            let x = p.list@[i as int].start;
            assert(p.list@[i as int].wf());
            lemma_class_at(p, c, x);
            lemma_reach_step(a, s.id, x);
            assert(s.successor@[i as int] < a.num_states);
        }
        ClassId::Complement => {
            let x = choose|x: u32| x <= MAX_CHAR && !(#[trigger] p.covered(x));
            lemma_class_at(p, c, x);
            lemma_reach_step(a, s.id, x);
        }
    }
}
pub open spec fn all_reachable(a: Automaton, d: Map<usize, ()>) -> bool { forall|i: usize| #[trigger] d.contains_key(i) ==> i < a.num_states && can_reach(a, i) }
pub open spec fn closed_under(a: Automaton, l: Seq<usize>, d: Map<usize, ()>) -> bool {
    forall|k: int, x: u32| 0 <= k < l.len() && x <= MAX_CHAR ==> d.contains_key(#[trigger] a.states@[#[trigger] l[k] as int].succ(x))
}
pub open spec fn members(l: Seq<usize>, d: Map<usize, ()>) -> bool {
    &&& l.no_duplicates()
    &&& forall|i: usize| #[trigger] l.contains(i) <==> d.contains_key(i)
}
pub proof fn lemma_members_push(l: Seq<usize>, d: Map<usize, ()>, i: usize)
    requires members(l, d), !d.contains_key(i),
    ensures members(l.push(i), d.insert(i, ())),
{
    let r = l.push(i);
    let e = d.insert(i, ());
    assert(!l.contains(i));
    assert(r.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
            if a < l.len() { assert(l.contains(r[a])); }
            if b < l.len() { assert(l.contains(r[b])); }
        }
    }
    assert forall|j: usize| #[trigger] r.contains(j) <==> e.contains_key(j) by {
        if r.contains(j) { let k = choose|k: int| 0 <= k < r.len() && r[k] == j; if k < l.len() { assert(l.contains(j)); } }
        if e.contains_key(j) { if j == i { assert(r[l.len() as int] == i); } else { assert(l.contains(j)); let k = choose|k: int| 0 <= k < l.len() && l[k] == j; assert(r[k] == j); } }
    }
}
/// everything reachable is in a set that contains the initial state and is closed under successors
pub proof fn lemma_reach_closed(a: Automaton, l: Seq<usize>, d: Map<usize, ()>, w: Seq<u32>)
    requires a.wf(), members(l, d), closed_under(a, l, d), d.contains_key(a.initial_state), good_chars(w),
    ensures d.contains_key(a.run(a.initial_state, w)),
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_reach_closed(a, l, d, v);
        let i = a.run(a.initial_state, v);
        assert(l.contains(i));
        let k = choose|k: int| 0 <= k < l.len() && l[k] == i;
        assert(d.contains_key(a.states@[l[k] as int].succ(w.last())));
    }
}
/// b has exactly the reachable states of a, renumbered
pub open spec fn pruned(a: Automaton, b: Automaton) -> bool { exists|m: StateMapping| #[trigger] is_pruning(a, b, m) }
pub open spec fn is_pruning(a: Automaton, b: Automaton, m: StateMapping) -> bool {
    &&& m.ok(a.num_states as nat) && remapped(a, b, m)
    &&& forall|i: usize| #[trigger] m.old_id@.contains(i) <==> can_reach(a, i)
}
pub proof fn lemma_pruned(a: Automaton, b: Automaton, m: StateMapping)
    requires a.wf(), is_pruning(a, b, m),
    ensures same_lang(a, b), pruned(a, b),
{
    let k = m.old_id@.to_set();
    assert forall|i: usize| #[trigger] k.contains(i) implies m.rep(i) == i && i < a.num_states && can_reach(a, i) by {
        assert(m.old_id@.contains(i));
        let j = choose|j: int| 0 <= j < m.old_id@.len() && m.old_id@[j] == i;
        assert(m.new_id@[m.old_id@[j] as int] == j);
    }
    assert forall|i: usize, x: u32| #[trigger] k.contains(i) && x <= MAX_CHAR implies k.contains(#[trigger] a.states@[i as int].succ(x)) by {
        lemma_reach_step(a, i, x);
        assert(m.old_id@.contains(a.states@[i as int].succ(x)));
    }
    lemma_reach_start(a);
    assert(m.old_id@.contains(a.initial_state));
    assert(respects(a, m, k));
    lemma_remap_lang(a, b, m, k);
}
/// the mapping that keeps the listed states
pub open spec fn keeps(m: StateMapping, n: nat, l: Seq<usize>) -> bool {
    &&& m.old_id@ == l && m.new_id@.len() == n
    &&& forall|k: int| 0 <= k < l.len() ==> m.new_id@[#[trigger] l[k] as int] == k
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] m.new_id@[i]) < l.len() || m.new_id@[i] == 0
}
pub proof fn lemma_distinct_len(l: Seq<usize>, n: nat)
    requires l.no_duplicates(), forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]) < n,
    ensures l.len() <= n,
{
    let s = l.map_values(|i: usize| i as int);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(l[i] != l[j]); } }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n as int);
    assert forall|v: int| s.to_set().contains(v) implies vstd::set_lib::set_int_range(0, n as int).contains(v) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == v;
        assert(l[i] < n);
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, n as int));
}
// ---- minimization
/// the states have a common refinement of their partitions
pub open spec fn has_merge(a: Automaton) -> bool { exists|p: CharPartition| #[trigger] is_merge_list(p, a.parts()) }
/// states i and j accept the same strings
pub open spec fn equiv(a: Automaton, i: usize, j: usize) -> bool {
    forall|w: Seq<u32>| good_chars(w) ==> a.states@[#[trigger] a.run(i, w) as int].is_final == a.states@[a.run(j, w) as int].is_final
}
/// no two distinct states accept the same strings
pub open spec fn minimal(a: Automaton) -> bool {
    forall|i: usize, j: usize| i < a.num_states && j < a.num_states && #[trigger] equiv(a, i, j) ==> i == j
}
/// every character moves every state like some letter of the alphabet
pub proof fn lemma_letter(a: Automaton, x: u32) -> (c: u32)
    requires a.wf(), has_merge(a), x <= MAX_CHAR,
    ensures c < a.alphabet().len(), a.alphabet()[c as int] <= MAX_CHAR, a.together(x, a.alphabet()[c as int]),
{
    let p = choose|p: CharPartition| #[trigger] is_merge_list(p, a.parts());
    lemma_alphabet(a, p);
    lemma_class_seq(p);
    lemma_pick_small(p);
    lemma_some_class(p, x);
    let d = class_at(p, x);
    assert(class_seq(p).contains(d));
    let i = choose|i: int| 0 <= i < class_seq(p).len() && class_seq(p)[i] == d;
    let y = pick_seq(p)[i];
    assert(p.in_class(class_seq(p)[i], y));
    assert(p.same(x, y)) by {
        assert forall|k: int| 0 <= k < p.list@.len() implies ((#[trigger] p.list@[k]).has(x) <==> p.list@[k].has(y)) by {
            match d {
                ClassId::Interval(j) => {
                    if p.list@[k].has(x) { lemma_unique_interval(p, x, k, j as int); }
                    if p.list@[k].has(y) { lemma_unique_interval(p, y, k, j as int); }
                }
                ClassId::Complement => {}
            }
        }
    }
    lemma_combined(a, p, x, y);
    i as u32
}
/// the letters for the indices in w
pub open spec fn letters(a: Automaton, w: Seq<u32>) -> Seq<u32> { Seq::new(w.len(), |i: int| a.alphabet()[w[i] as int]) }
pub proof fn lemma_run_first(a: Automaton, i: usize, x: u32, v: Seq<u32>)
    ensures a.run(i, seq![x] + v) == a.run(a.states@[i as int].succ(x), v),
    decreases v.len(),
{
    let w = seq![x] + v;
    if v.len() == 0 {
        assert(w.drop_last() =~= Seq::empty());
        assert(a.run(i, w.drop_last()) == i);
    } else {
        assert(w.drop_last() =~= seq![x] + v.drop_last());
        lemma_run_first(a, i, x, v.drop_last());
    }
}
pub proof fn lemma_run_bound(a: Automaton, i: usize, w: Seq<u32>)
    requires a.wf(), i < a.num_states, good_chars(w),
    ensures a.run(i, w) < a.num_states,
    decreases w.len(),
{
    if w.len() > 0 {
        lemma_run_bound(a, i, w.drop_last());
        lemma_succ(a.states@[a.run(i, w.drop_last()) as int], a.num_states as nat, w.last());
    }
}
/// d and f are the transition table and the finality test of a
pub open spec fn models<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(a: Automaton, d: D, f: F) -> bool {
    &&& a.wf() && a.num_states <= u32::MAX && a.alphabet().len() <= u32::MAX
    &&& forall|i: int| 0 <= i < a.alphabet().len() ==> #[trigger] a.alphabet()[i] <= MAX_CHAR
    &&& forall|x: u32, c: u32| x < a.num_states && c < a.alphabet().len() ==> #[trigger] nxt(d, x, c) == a.states@[x as int].succ(a.alphabet()[c as int])
    &&& forall|x: u32| x < a.num_states ==> #[trigger] fin(f, x) == a.states@[x as int].is_final
}
pub proof fn lemma_models_run<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(a: Automaton, d: D, f: F, x: u32, w: Seq<u32>)
    requires models(a, d, f), x < a.num_states, word(w, a.alphabet().len() as u32),
    ensures crate::minimizer::run(d, x, w) == a.run(x as usize, letters(a, w)), good_chars(letters(a, w)),
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_first();
        let y = nxt(d, x, w[0]);
        let c = a.alphabet()[w[0] as int];
        assert(w[0] < a.alphabet().len());
        lemma_succ(a.states@[x as int], a.num_states as nat, c);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] < a.alphabet().len() by { assert(v[i] == w[i + 1]); }
        lemma_models_run(a, d, f, y, v);
        assert(letters(a, w) =~= seq![c] + letters(a, v)) by {
            assert forall|i: int| 0 <= i < v.len() implies #[trigger] letters(a, v)[i] == letters(a, w)[i + 1] by { assert(v[i] == w[i + 1]); }
        }
        lemma_run_first(a, x as usize, c, letters(a, v));
    }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] letters(a, w)[i]) <= MAX_CHAR by { assert(w[i] < a.alphabet().len()); }
}
pub proof fn lemma_equiv_alike<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(a: Automaton, d: D, f: F, x: u32, y: u32)
    requires models(a, d, f), x < a.num_states, y < a.num_states, equiv(a, x as usize, y as usize),
    ensures alike(d, f, a.alphabet().len() as u32, x, y),
{
    let k = a.alphabet().len() as u32;
    assert forall|w: Seq<u32>| word(w, k) implies fin(f, #[trigger] crate::minimizer::run(d, x, w)) == fin(f, crate::minimizer::run(d, y, w)) by {
        lemma_models_run(a, d, f, x, w);
        lemma_models_run(a, d, f, y, w);
        let v = letters(a, w);
        assert(a.states@[a.run(x as usize, v) as int].is_final == a.states@[a.run(y as usize, v) as int].is_final);
        lemma_run_bound(a, x as usize, v);
        lemma_run_bound(a, y as usize, v);
    }
}
/// new state k stands for class k + 1
pub open spec fn maps_classes(m: StateMapping, p: Partition) -> bool {
    &&& m.new_id@.len() == p.n() && m.old_id@.len() == p.len() - 1
    &&& forall|i: int| 0 <= i < p.n() ==> (#[trigger] m.new_id@[i]) == p.cls(i as u32) - 1
    &&& forall|k: int| 0 <= k < m.old_id@.len() ==> (#[trigger] m.old_id@[k]) < p.n() && p.cls(m.old_id@[k] as u32) == k + 1
}
pub proof fn lemma_maps_classes(m: StateMapping, p: Partition)
    requires maps_classes(m, p), p.wf(), p.n() > 0,
    ensures m.ok(p.n() as nat),
{
    lemma_count(p.base);
    lemma_cls(p.base, 0);
    assert forall|i: int| 0 <= i < p.n() implies (#[trigger] m.new_id@[i]) < m.old_id@.len() by { lemma_cls(p.base, i as u32); }
    lemma_cls(p.base, 0);
}
/// every state is reached by some string
pub open spec fn all_reached(a: Automaton) -> bool { forall|i: usize| i < a.num_states ==> #[trigger] can_reach(a, i) }
/// no automaton for the same language has fewer states
pub open spec fn fewest(a: Automaton) -> bool { forall|c: Automaton| c.wf() && #[trigger] same_lang(a, c) ==> a.num_states <= c.num_states }
pub proof fn lemma_run_concat(a: Automaton, i: usize, u: Seq<u32>, w: Seq<u32>)
    ensures a.run(i, u + w) == a.run(a.run(i, u), w),
    decreases w.len(),
{
    if w.len() == 0 { assert(u + w =~= u); }
    else { lemma_run_concat(a, i, u, w.drop_last()); assert((u + w).drop_last() =~= u + w.drop_last()); }
}
pub proof fn lemma_fewest(a: Automaton)
    requires a.wf(), all_reached(a), minimal(a),
    ensures fewest(a),
{
    assert forall|c: Automaton| c.wf() && #[trigger] same_lang(a, c) implies a.num_states <= c.num_states by {
        let n = a.num_states as nat;
        let word = |i: int| choose|w: Seq<u32>| #[trigger] reaches(a, i as usize, w);
        let l = Seq::new(n, |i: int| c.run(c.initial_state, word(i)));
        assert forall|i: int| 0 <= i < n implies reaches(a, i as usize, #[trigger] word(i)) by { assert(can_reach(a, i as usize)); }
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) < c.num_states by { assert(reaches(a, i as usize, word(i))); lemma_run_bound(c, c.initial_state, word(i)); }
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && l[i] == l[j] implies i == j by {
            assert(reaches(a, i as usize, word(i)) && reaches(a, j as usize, word(j)));
            assert forall|w: Seq<u32>| good_chars(w) implies a.states@[#[trigger] a.run(i as usize, w) as int].is_final == a.states@[a.run(j as usize, w) as int].is_final by {
                lemma_run_concat(a, a.initial_state, word(i), w);
                lemma_run_concat(a, a.initial_state, word(j), w);
                lemma_run_concat(c, c.initial_state, word(i), w);
                lemma_run_concat(c, c.initial_state, word(j), w);
                assert(good_chars(word(i) + w) && good_chars(word(j) + w));
                assert(c.lang(word(i) + w) == a.lang(word(i) + w));
                assert(c.lang(word(j) + w) == a.lang(word(j) + w));
            }
            assert(equiv(a, i as usize, j as usize));
        }
        lemma_distinct_len(l, c.num_states as nat);
    }
}
/// what minimize delivers
pub open spec fn minimized(a: Automaton, b: Automaton) -> bool {
    &&& same_lang(a, b) && minimal(b)
    &&& all_reached(a) ==> all_reached(b) && fewest(b)
}
pub open spec fn all_states(a: Automaton) -> Set<usize> { Seq::new(a.num_states as nat, |i: int| i as usize).to_set() }
pub proof fn lemma_all_states(a: Automaton)
    ensures forall|i: usize| #[trigger] all_states(a).contains(i) <==> i < a.num_states,
{
    let s = Seq::new(a.num_states as nat, |i: int| i as usize);
    assert forall|i: usize| i < a.num_states implies #[trigger] all_states(a).contains(i) by { assert(s[i as int] == i); assert(s.contains(i)); }
    assert forall|i: usize| #[trigger] all_states(a).contains(i) implies i < a.num_states by { assert(s.contains(i)); }
}
pub proof fn lemma_minimized<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(a: Automaton, b: Automaton, d: D, f: F, p: Partition, m: StateMapping)
    requires models(a, d, f), has_merge(a), settled(d, f, a.num_states as u32, a.alphabet().len() as u32, p), maps_classes(m, p), remapped(a, b, m), b.wf(),
    ensures minimized(a, b),
{
    let k = all_states(a);
    lemma_all_states(a);
    lemma_maps_classes(m, p);
    assert forall|i: usize| #[trigger] k.contains(i) implies i < a.num_states && a.states@[m.rep(i) as int].is_final == a.states@[i as int].is_final by {
        let r = m.rep(i);
        assert(p.cls(r as u32) == p.cls(i as u32));
        assert(fin(f, r as u32) == fin(f, i as u32));
    }
    assert forall|i: usize, x: u32| #[trigger] k.contains(i) && x <= MAX_CHAR implies k.contains(#[trigger] a.states@[i as int].succ(x))
            && m.new_id@[a.states@[m.rep(i) as int].succ(x) as int] == m.new_id@[a.states@[i as int].succ(x) as int] by {
        lemma_succ(a.states@[i as int], a.num_states as nat, x);
        let r = m.rep(i);
        lemma_succ(a.states@[r as int], a.num_states as nat, x);
        let c = lemma_letter(a, x);
        let y = a.alphabet()[c as int];
        assert(a.states@[i as int].succ(x) == a.states@[i as int].succ(y));
        assert(a.states@[r as int].succ(x) == a.states@[r as int].succ(y));
        assert(p.cls(r as u32) == p.cls(i as u32));
        assert(p.cls(nxt(d, r as u32, c)) == p.cls(nxt(d, i as u32, c)));
    }
    assert(respects(a, m, k));
    lemma_remap_lang(a, b, m, k);
    assert forall|i: usize, j: usize| i < b.num_states && j < b.num_states && #[trigger] equiv(b, i, j) implies i == j by {
        let x = m.old_id@[i as int];
        let y = m.old_id@[j as int];
        assert(m.new_id@[x as int] == i && m.new_id@[y as int] == j);
        assert forall|w: Seq<u32>| good_chars(w) implies a.states@[#[trigger] a.run(x, w) as int].is_final == a.states@[a.run(y, w) as int].is_final by {
            lemma_remap_final(a, b, m, k, x, w);
            lemma_remap_final(a, b, m, k, y, w);
            assert(b.states@[b.run(i, w) as int].is_final == b.states@[b.run(j, w) as int].is_final);
        }
        lemma_equiv_alike(a, d, f, x as u32, y as u32);
        assert(p.cls(x as u32) == p.cls(y as u32));
    }
    if all_reached(a) {
        assert forall|i: usize| i < b.num_states implies #[trigger] can_reach(b, i) by {
            let x = m.old_id@[i as int];
            assert(m.new_id@[x as int] == i);
            assert(can_reach(a, x));
            let w = choose|w: Seq<u32>| #[trigger] reaches(a, x, w);
            lemma_remap_run(a, b, m, k, a.initial_state, w);
            assert(reaches(b, i, w));
        }
        lemma_fewest(b);
    }
}
/// a partition with as many classes as states: nothing to merge
pub proof fn lemma_minimal_already<D: Fn(u32, u32) -> u32, F: Fn(u32) -> bool>(a: Automaton, d: D, f: F, p: Partition)
    requires models(a, d, f), settled(d, f, a.num_states as u32, a.alphabet().len() as u32, p), p.len() - 1 >= a.num_states,
    ensures minimized(a, a),
{
    lemma_count(p.base);
    assert forall|i: usize, j: usize| i < a.num_states && j < a.num_states && #[trigger] equiv(a, i, j) implies i == j by {
        lemma_equiv_alike(a, d, f, i as u32, j as u32);
        assert(p.cls(i as u32) == p.cls(j as u32));
    }
    if all_reached(a) { lemma_fewest(a); }
}
@fn Automaton::initial_state props=C02,C13 ret=r
    requires self.wf(),
    ensures *r == self.states@[self.initial_state as int], self.has(*r),
@fn Automaton::state props=C02,C14 ret=r
    requires self.wf(), id < self.num_states,
    ensures *r == self.states@[id as int], self.has(*r),
@fn Automaton::num_states props=C02,C13,C14,C19 ret=r
    ensures r == self.num_states,
@fn Automaton::num_final_states props=C13,C14 ret=r
    ensures r == self.num_final_states,
@fn Automaton::default_successor props=C13,C14 ret=r
    requires self.wf(), self.has(*s),
    ensures
        r is Some <==> s.classes.has_complement(),
        r is Some ==> *r->0 == self.states@[s.default_successor->0 as int] && self.has(*r->0),
@at closure 0
    |i: usize| -> (q: &State) requires i < self.states@.len() ensures *q == self.states@[i as int]
@fn Automaton::class_next props=C02,C13,C14 ret=r
    requires self.wf(), self.has(*s), s.classes.valid(cid),
    ensures *r == self.states@[s.class_succ(cid) as int], self.has(*r),
@fn Automaton::char_set_next props=C02,C14 ret=r
    requires self.wf(), self.has(*s), set.wf(),
    ensures
        r is Ok ==> self.has(*r->Ok_0) && forall|x: u32| #[trigger] set.has(x) ==> *r->Ok_0 == self.states@[s.succ(x) as int],
@after `let cid = `
    proof {
        let p = s.classes;
        assert(set.has(set.start));
        assert forall|x: u32| #[trigger] set.has(x) implies s.succ(x) == s.class_succ(cid) by {
            assert(p.in_class(cid, x)) by { match cid { ClassId::Interval(i) => { assert(p.list@[i as int].includes(*set)); } ClassId::Complement => {} } }
            lemma_class_at(p, cid, x);
        }
        if cid == ClassId::Complement { assert(!p.covered(set.start)); }
    }
@fn Automaton::next props=C02,C13,C14 ret=r
    requires self.wf(), self.has(*s), c <= MAX_CHAR,
    ensures *r == self.states@[s.succ(c) as int], self.has(*r),
@after `let cid = `
    proof { lemma_class_at(s.classes, cid, c); }
@fn Automaton::str_next props=C02 ret=r
    requires self.wf(), self.has(*s), str.wf(),
    ensures *r == self.states@[self.run(s.id, str.s@) as int], self.has(*r),
@at start
    let ghost w = str.s@;
@unfold 0 iter=it
    invariant
        self.wf(), self.has(*s), self.has(*s1), good_chars(w), it.seq() == w.map_values(|d: u32| &d),
        *s1 == self.states@[self.run(s.id, w.take(it.index())) as int],
@unfold-end
    proof {
        let k = it.index();
        assert(*c == w[k]);
        assert(w.take(k + 1).drop_last() =~= w.take(k));
    }
@at tail
    proof { assert(w.take(w.len() as int) =~= w); }
@fn Automaton::accepts props=C02 ret=r
    requires self.wf(), str.wf(),
    ensures r == self.lang(str.s@),
@fn State::id props=C13,C14 ret=r
    ensures r == self.id,
@fn State::is_final props=C02,C13 ret=r
    ensures r == self.is_final,
@fn State::num_successors props=C14 ret=r
    ensures r == self.classes.list@.len(),
@fn State::has_default_successor props=C13,C14 ret=r
    ensures r == (self.default_successor is Some),
@fn State::default_successor props=C13,C14 ret=r
    ensures r == self.default_successor,
@fn State::valid_class_id props=C02 ret=r
    requires self.classes.wf(),
    ensures r == self.classes.valid(cid),
@fn State::char_maps_to_default props=C14 ret=r
    requires self.classes.wf(), c <= MAX_CHAR,
    ensures r == (self.default_successor is Some && !self.classes.covered(c)),
@fn State::class_of_char props=C02 ret=r
    requires self.classes.wf(), x <= MAX_CHAR,
    ensures self.classes.valid(r), self.classes.in_class(r, x),
@fn State::char_classes props=C14 ret=r
    ensures *r.partition == self.classes, r.counter == 0,
@fn State::char_picks props=C14 ret=r
    ensures *r.partition == self.classes, r.counter == 0,
@fn StateInConstruction::new props=C13,C02 ret=r
    ensures !r.is_final, r.default_successor is None, r.transitions@ == Seq::<(CharSet, usize)>::empty(),
@fn StateInConstruction::set_default_successor props=C13,C02
    ensures *final(self) == (StateInConstruction { default_successor: Some(next_id), ..*old(self) }),
@fn StateInConstruction::add_transition props=C13,C02
    ensures
        final(self).is_final == old(self).is_final, final(self).default_successor == old(self).default_successor,
        final(self).transitions@ == old(self).transitions@.push((*set, next_id)),
@fn StateInConstruction::choose_default_successor props=C13,C02
    requires old(self).transitions@.len() <= MAX_CHAR + 1,
    ensures
        final(self).is_final == old(self).is_final, final(self).transitions@ == old(self).transitions@,
        old(self).default_successor is Some ==> final(self).default_successor == old(self).default_successor,
        old(self).default_successor is None && final(self).default_successor is Some ==> is_target(old(self).transitions@, final(self).default_successor->0),
@fn StateInConstruction::choose_default_successor::maj_candidate props=C13,C02 ret=r
    requires 0 < s@.len() <= MAX_CHAR + 1,
    ensures is_target(s@, r),
@loop 0 iter=it
    invariant
        is_target(s@, maj), 0 <= k <= it.index() + 1, 0 < s@.len() <= MAX_CHAR + 1, it.seq().len() == s@.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == s@[i + 1],
@at loop 0 before
    proof { assert(s@[0].1 == maj); }
@at loop 0 start
    proof { assert(s@[it.index() + 1].1 == *x); }
@fn StateInConstruction::choose_default_successor::count props=C13,C02 ret=r
    requires s@.len() <= MAX_CHAR + 1,
    ensures r <= s@.len(),
@loop 0 iter=it
    invariant n <= it.index(), it.seq().len() == s@.len(), s@.len() <= MAX_CHAR + 1,
@fn StateInConstruction::remove_transitions_to_default props=C13,C02
    ensures
        final(self).is_final == old(self).is_final, final(self).default_successor == old(self).default_successor,
        final(self).transitions@ == (if old(self).default_successor is Some { without(old(self).transitions@, old(self).default_successor->0) } else { old(self).transitions@ }),
@replace `self.transitions.retain(` => `crate::prelude::vretain(&mut self.transitions, `
@at closure 0
    |x: &(CharSet, usize)| -> (b: bool) ensures b == (x.1 != i)
@at end
    proof { if old(self).default_successor is Some { let p = elsewhere(old(self).default_successor->0); assert(self.transitions@ == old(self).transitions@.filter(p)); } }
@fn StateInConstruction::cleanup props=C13,C02
    requires old(self).clean(),
    ensures
        final(self).clean(), final(self).is_final == old(self).is_final, same_gives(*old(self), *final(self)),
        old(self).default_needed() ==> final(self).default_needed(),
        forall|n: nat| #[trigger] old(self).below(n) ==> final(self).below(n),
@at start
    proof { lemma_few(self.transitions@); }
@after `self.choose_default_successor()`
    let ghost mid = *self;
@at end
    proof { lemma_cleaned(*old(self), mid, *self); }
@fn StateInConstruction::make_partition props=C13,C02 ret=r
    requires tr_wf(self.transitions@),
    ensures
        r is Ok <==> pairwise_disjoint(labels(self.transitions@)),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.list@.to_multiset() == labels(self.transitions@).to_multiset()
            && (r->Ok_0.has_complement() <==> !total(self.transitions@)),
@at tail
    proof { if r is Ok { lemma_part_covers(r->Ok_0, self.transitions@); } }
@replace `self.transitions.iter().map(` => `crate::prelude::vmapped(&self.transitions, `
@at closure 0
    |x: &(CharSet, usize)| -> (c: CharSet) ensures c == x.0
@fn StateInConstruction::validate props=C13 ret=r
    requires tr_wf(old(self).transitions@),
    ensures
        r is Ok <==> conflict_free(old(self).transitions@) && (old(self).default_successor is Some || total(old(self).transitions@)),
        r is Err ==> r->Err_0 == (if conflict_free(old(self).transitions@) { Error::MissingDefaultSuccessor } else { Error::NonDisjointCharSets }),
        r is Ok ==> final(self).clean() && same_moves(old(self).transitions@, final(self).transitions@)
            && final(self).is_final == old(self).is_final && final(self).default_successor == old(self).default_successor,
@at start
    let ghost t0 = self.transitions@;
@replace `self.transitions.sort_by_key(` => `crate::prelude::vsort_by_key(&mut self.transitions, `
@at closure 0
    |x: &(CharSet, usize)| -> (k: u32) requires x.0.wf() ensures k == x.0.start
@loop 0 iter=it
    invariant
        tr_wf(t), sorted_tr(t), t == self.transitions@, it.seq() == t.map_values(|p: (CharSet, usize)| &p), same_moves(t0, t),
        merged_from(merged@, t, it.index()), conflict_free(t0) ==> conflict_free(t), t0 == old(self).transitions@,
        self.default_successor == old(self).default_successor, self.is_final == old(self).is_final,
@after `self.transitions.sort_by_key`
    let ghost t = self.transitions@;
    proof {
        lemma_same_multiset_moves(t0, t);
        if conflict_free(t0) { lemma_same_conflict_free(t0, t); }
        lemma_same_labelled(t0, t);
        assert(sorted_tr(t));
    }
@replace `for &(set, next_id) in &self.transitions` => `for vx in it: &self.transitions`
@at loop 0 start
    let (set, next_id) = *vx;
    let ghost m0 = merged@;
    let ghost k = it.index();
    proof {
        assert(*vx == t[k]);
        if m0.len() > 0 {
            if m0.last().0.disjoint(t[k].0) { lemma_merged_push(m0, t, k); }
            else if m0.last().1 != t[k].1 { lemma_merged_conflict(m0, t, k); }
            else { assert(m0[m0.len() - 1].0.wf()); lemma_union_exists(m0.last().0, t[k].0); }
        } else { lemma_merged_push(m0, t, k); }
    }
@replace `match merged.last_mut()` => `match (if (match merged.last() { Some((last_set, last_id)) => last_set.inter(&set).is_some(), _ => false }) { merged.last_mut() } else { None })`
@replace `if last_set.inter(&set).is_some() =>` => `=>`
@at loop 0 end
    proof {
        if m0.len() > 0 && !m0.last().0.disjoint(t[k].0) {
            lemma_merged_grow(m0, t, k, merged@.last().0);
            assert(merged@ =~= m0.update(m0.len() - 1, (merged@.last().0, m0.last().1)));
        }
    }
@at loop 0 after
    proof {
        let m = merged@;
        lemma_merged_all(m, t);
        assert(same_moves(t0, m)) by { assert forall|x: u32, j: usize| #[trigger] sends(t0, x, j) <==> sends(m, x, j) by { assert(sends(t0, x, j) <==> sends(t, x, j)); assert(sends(t, x, j) <==> sends(m, x, j)); } }
        assert(same_moves(m, t0)) by { assert forall|x: u32, j: usize| #[trigger] sends(m, x, j) <==> sends(t0, x, j) by { assert(sends(t0, x, j) <==> sends(m, x, j)); } }
        lemma_disjoint_conflict_free(m);
        lemma_same_conflict_free(m, t0);
        lemma_same_labelled(t0, m);
    }
@fn StateInConstruction::make_successor props=C13,C02 ret=r
    requires tr_wf(self.transitions@), p.wf(), p.list@.to_multiset() == labels(self.transitions@).to_multiset(),
    ensures succ_table(*p, self.transitions@, r@),
@at start
    let ghost t = self.transitions@;
@loop 0 iter=it
    invariant
        t == self.transitions@, tr_wf(t), p.wf(), p.list@.to_multiset() == labels(t).to_multiset(), result@.len() == p.list@.len(),
        it.seq() == t.map_values(|q: (CharSet, usize)| &q), filled(*p, t, result@, it.index()),
@at loop 0 start
    let ghost k = it.index();
    proof {
        assert(*s == t[k]);
        lemma_part_covers(*p, t);
        assert(t[k].0.has(t[k].0.start)); assert(labelled(t, t[k].0.start));
        assert(p.covered(t[k].0.start));
    }
@after `result[i] = s.1`
    proof {
        let x = t[k].0.start;
        lemma_interval_of(*p, t, k, i as int, x);
        assert forall|a: int, j: int| 0 <= a < k + 1 && 0 <= j < result@.len() && (#[trigger] t[a]).0 == (#[trigger] p.list@[j]) implies result@[j] == t[a].1 by {
            if a == k {
                assert(p.list@[j].has(x));
                lemma_unique_interval(*p, x, i as int, j);
            } else if j == i {
                let l = labels(t);
                assert(pairwise_disjoint(p.list@)) by {
                    assert forall|i1: int, j1: int| 0 <= i1 < j1 < p.list@.len() implies (#[trigger] p.list@[i1]).disjoint(#[trigger] p.list@[j1]) by { assert(p.list@[i1].end < p.list@[j1].start); }
                }
                lemma_disjoint_multiset(p.list@, l);
                assert(l[a].disjoint(l[k]));
            }
        }
    }
@at loop 0 after
    proof { lemma_table(*p, t, result@); }
@replace `result.into()` => `crate::prelude::vinto_box(result)`
@fn AutomatonBuilder::get_state_id props=C13,C02,C19 ret=r
    requires
        key_ok(old(self).ids(), *state), exact_clone::<T>(),
        old(self).inv() || (old(self).size == 0 && old(self).states@.len() == 0 && old(self).ids() =~= Map::<T, usize>::empty()),
    ensures
        final(self).inv(), final(self).ids() == reg_map(old(self).ids(), old(self).specs(), *state),
        final(self).specs() == reg_specs(old(self).ids(), old(self).specs(), *state),
        final(self).ids().contains_key(*state), r == final(self).ids()[*state],
@at start
    let ghost b0 = *self;
@at tail
    proof {
        let s0 = b0.specs();
        let m0 = b0.ids();
        let n0 = b0.states@.len();
        if !m0.contains_key(*state) {
            assert(self.specs() =~= s0.push(StateSpec::fresh()));
            assert(self.ids().contains_key(*state));
            assert forall|i: int| 0 <= i < self.size implies #[trigger] names(self.id_map@, i) by {
                if i < n0 { assert(names(m0, i)); let k = choose|k: T| #[trigger] m0.contains_key(k) && m0[k] == i; assert(self.id_map@.contains_key(k)); }
                else { assert(self.id_map@.contains_key(*state)); }
            }
            assert forall|i: int| 0 <= i < self.size implies (#[trigger] self.specs()[i]).below(self.size as nat) by {
                if i < n0 { lemma_below_mono(s0[i], n0, self.size as nat); }
            }
        }
    }
@before `self.size += 1`
    proof { assert(self.states.len() == self.size + 1); }
@fn AutomatonBuilder::new props=C13,C02,C19 ret=r
    requires key_ok(Map::<T, usize>::empty(), *initial_state), exact_clone::<T>(),
    ensures
        r.inv(), r.ids() == Map::<T, usize>::empty().insert(*initial_state, 0), r.specs() == seq![StateSpec::fresh()],
@at tail
    proof { assert(r.specs() =~= seq![StateSpec::fresh()]); }
@fn AutomatonBuilder::mark_final props=C13,C02 ret=r
    requires old(self).inv(), key_ok(old(self).ids(), *state), exact_clone::<T>(),
    ensures
        *final(self) == *final(r),
        r.inv(), r.ids() == reg_map(old(self).ids(), old(self).specs(), *state),
        ({
            let s = reg_specs(old(self).ids(), old(self).specs(), *state);
            let i = r.ids()[*state] as int;
            r.specs() == s.update(i, StateSpec { fin: true, ..s[i] })
        }),
@after `let i = `
    let ghost b1 = *self;
    let ghost i0 = i;
@at tail
    proof {
        assert forall|k: int| 0 <= k < self.size implies (#[trigger] self.specs()[k]).below(self.size as nat) by { assert(b1.specs()[k].below(b1.size as nat)); }
        assert(self.specs() =~= b1.specs().update(i0 as int, StateSpec { fin: true, ..b1.specs()[i0 as int] }));
    }
@fn AutomatonBuilder::set_default_successor props=C13,C02 ret=r
    requires old(self).inv(), key_ok(old(self).ids(), *state), key_ok(reg_map(old(self).ids(), old(self).specs(), *state), *next), exact_clone::<T>(),
    ensures
        *final(self) == *final(r),
        r.inv(),
        ({
            let m = reg_map(old(self).ids(), old(self).specs(), *state);
            let s1 = reg_specs(old(self).ids(), old(self).specs(), *state);
            let s = reg_specs(m, s1, *next);
            let i = r.ids()[*state] as int;
            &&& r.ids() == reg_map(m, s1, *next)
            &&& r.specs() == s.update(i, StateSpec { def: Some(r.ids()[*next]), ..s[i] })
        }),
@after `let j = `
    let ghost b1 = *self;
    let ghost i0 = i;
    let ghost j0 = j;
@at tail
    proof {
        let n = self.size as nat;
        assert(self.specs() =~= b1.specs().update(i0 as int, StateSpec { def: Some(j0), ..b1.specs()[i0 as int] }));
        assert forall|k: int| 0 <= k < self.size implies (#[trigger] self.specs()[k]).below(n) by { assert(b1.specs()[k].below(n)); }
    }
@fn AutomatonBuilder::add_transition props=C13,C02 ret=r
    requires old(self).inv(), set.wf(), key_ok(old(self).ids(), *state), key_ok(reg_map(old(self).ids(), old(self).specs(), *state), *next), exact_clone::<T>(),
    ensures
        *final(self) == *final(r),
        r.inv(),
        ({
            let m = reg_map(old(self).ids(), old(self).specs(), *state);
            let s1 = reg_specs(old(self).ids(), old(self).specs(), *state);
            let s = reg_specs(m, s1, *next);
            let i = r.ids()[*state] as int;
            &&& r.ids() == reg_map(m, s1, *next)
            &&& r.specs() == s.update(i, StateSpec { tr: s[i].tr.push((*set, r.ids()[*next])), ..s[i] })
        }),
@after `let j = `
    let ghost b1 = *self;
    let ghost i0 = i;
    let ghost j0 = j;
@at tail
    proof {
        let n = self.size as nat;
        let tr = b1.specs()[i0 as int].tr;
        assert(self.specs() =~= b1.specs().update(i0 as int, StateSpec { tr: tr.push((*set, j0)), ..b1.specs()[i0 as int] }));
        assert forall|k: int| 0 <= k < self.size implies (#[trigger] self.specs()[k]).below(n) by {
            assert(b1.specs()[k].below(n));
            if k == i0 {
                let u = tr.push((*set, j0));
                assert forall|q: int| 0 <= q < u.len() implies (#[trigger] u[q]).0.wf() by { if q < tr.len() { assert(tr[q].0.wf()); } }
                assert forall|q: int| 0 <= q < u.len() implies (#[trigger] u[q]).1 < n by { if q < tr.len() { assert(tr[q].1 < n); } }
            }
        }
    }
@fn AutomatonBuilder::build props=C13 ret=r
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).specs() == old(self).specs(), final(self).ids() == old(self).ids(),
        r is Ok ==> realizes(r->Ok_0, old(self).specs()) && forall|i: int| 0 <= i < old(self).specs().len() ==> (#[trigger] old(self).specs()[i]).ok(),
        (forall|i: int| 0 <= i < old(self).specs().len() ==> (#[trigger] old(self).specs()[i]).ok() && old(self).specs()[i].lean()) ==> r is Ok,
@replace `for (i, s) in self.states.iter().enumerate()` => `for i in it: 0..self.states.len()`
@replace `s.clone()` => `clone_state(&self.states[i])`
@at start
    let ghost sp = self.specs();
@loop 0
    invariant
        self.inv(), sp == self.specs(), *self == *old(self), n == self.size, state_array@.len() == i,
        part_built(state_array@, sp), num_final_states == num_finals(state_array@),
        forall|k: int| 0 <= k < i ==> (#[trigger] sp[k]).ok(),
@at loop 0 start
    let ghost a0 = state_array@;
    proof { assert(sp[i as int].below(n as nat)); lemma_num_finals_le(a0); }
@after `s.validate()`
    let ghost v = s;
    proof {
        lemma_same_labelled(sp[i as int].tr, v.transitions@);
        assert(sp[i as int].ok());
    }
@at loop 0 end
    proof {
        let st = state_array@[i as int];
        lemma_clean_realizes(sp[i as int], v, s, st, n as nat);
        lemma_num_finals_push(a0, st);
        assert(state_array@ =~= a0.push(st));
        lemma_built_push(a0, sp, st);
    }
@replace `state_array.into()` => `crate::prelude::vinto_box(state_array)`
@at loop 0 after
    proof { lemma_built(state_array@, sp); }
@fn AutomatonBuilder::build_unchecked props=C02,C19 ret=r
    requires old(self).inv(), forall|i: int| 0 <= i < old(self).states@.len() ==> (#[trigger] old(self).states@[i]).clean() && old(self).states@[i].default_needed(),
    ensures realizes(r, old(self).specs()),
@replace `for (i, s) in self.states.iter_mut().enumerate()` => `for i in it: 0..self.states.len()`
@at start
    let ghost sp = self.specs();
    let ghost st0 = self.states@;
@loop 0
    invariant
        self.size == num_states, num_states > 0, self.states@.len() == num_states, it.seq().len() == num_states, sp.len() == num_states, state_array@.len() == i, st0.len() == num_states, sp == specs_of(st0),
        part_built(state_array@, sp), num_final_states == num_finals(state_array@),
        forall|k: int| i <= k < num_states ==> #[trigger] self.states@[k] == st0[k],
        forall|k: int| 0 <= k < num_states ==> (#[trigger] st0[k]).clean() && st0[k].default_needed(),
        forall|k: int| 0 <= k < num_states ==> (#[trigger] sp[k]).below(num_states as nat),
@at loop 0 start
    let s = &mut self.states[i];
    let ghost a0 = state_array@;
    let ghost v = *s;
    proof { assert(v == st0[i as int]); assert(sp[i as int].below(num_states as nat)); lemma_num_finals_le(a0); }
@at loop 0 end
    proof {
        let st = state_array@[i as int];
        lemma_clean_realizes(sp[i as int], v, *s, st, num_states as nat);
        lemma_num_finals_push(a0, st);
        assert(state_array@ =~= a0.push(st));
        lemma_built_push(a0, sp, st);
    }
@replace `state_array.into()` => `crate::prelude::vinto_box(state_array)`
@at loop 0 after
    proof { lemma_built(state_array@, sp); }
@fn Automaton::states props=C14 ret=r
    ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.states@.map_values(|c: State| &c),
@fn State::char_ranges props=C14 ret=r
    ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.classes.list@.map_values(|c: CharSet| &c),
@fn Automaton::edges props=C14 ret=r
    requires self.wf(), self.has(*s),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r), r.over() == (*s, self.states@),
        IteratorSpec::remaining(&r) == edge_seq::<'a>(*s, self.states@),
        forall|x: u32, i: int| x <= MAX_CHAR && 0 <= i < edge_seq::<'a>(*s, self.states@).len() && #[trigger] s.classes.in_class(edge_seq::<'a>(*s, self.states@)[i].0, x) ==> *edge_seq::<'a>(*s, self.states@)[i].1 == self.states@[s.succ(x) as int],
@at tail
    proof {
        let e = edge_seq::<'a>(*s, self.states@);
        assert(IteratorSpec::remaining(&r) =~= e);
        assert forall|x: u32, i: int| x <= MAX_CHAR && 0 <= i < e.len() && #[trigger] s.classes.in_class(e[i].0, x) implies *e[i].1 == self.states@[s.succ(x) as int] by { lemma_edges(*self, *s, x); }
    }
@fn Automaton::final_states props=C14 ret=r
    requires self.wf(),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::remaining(&r) == rest_finals(self.states@, 0), IteratorSpec::remaining(&r).len() == self.num_final_states,
        forall|i: int| 0 <= i < self.num_states && (#[trigger] self.states@[i]).is_final ==> IteratorSpec::remaining(&r).contains(&self.states@[i]),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> (#[trigger] IteratorSpec::remaining(&r)[i]).is_final,
@at start
    proof { lemma_final_states(*self); }
@fn EdgeIterator as Iterator::next props=C14 ret=r
    ensures
        edge_step(*old(self), *final(self), r),
@at start
    proof {
        use_type_invariant(&*self);
        let e = edge_seq::<'a>(*self.state, self.state_array@);
        lemma_complement(self.state.classes);
        if self.state.wf(self.state_array@.len()) {
            lemma_len(self.state.classes);
            if self.index < e.len() {
                assert(rest_edges::<'a>(*self.state, self.state_array@, self.index).drop_first() =~= rest_edges::<'a>(*self.state, self.state_array@, (self.index + 1) as usize));
            }
        }
    }
@fn FinalStateIterator as Iterator::next props=C14 ret=r
    ensures
        final(self).state_array == old(self).state_array,
        r is Some <==> rest_finals::<'a>(old(self).state_array@, old(self).index as nat).len() > 0,
        r is Some ==> r->0 == rest_finals::<'a>(old(self).state_array@, old(self).index as nat)[0] && rest_finals::<'a>(final(self).state_array@, final(self).index as nat) == rest_finals::<'a>(old(self).state_array@, old(self).index as nat).drop_first(),
@loop 0
    invariant
        a == old(self).state_array, a == self.state_array, self.index == old(self).index,
        rest_finals::<'a>(a@, i as nat) == rest_finals::<'a>(a@, old(self).index as nat),
@before `return Some(&a[i])`
    proof { assert(rest_finals::<'a>(a@, i as nat).drop_first() =~= rest_finals::<'a>(a@, (i + 1) as nat)); }
@fn Automaton::combined_char_partition props=C14 ret=r
    requires self.wf(),
    ensures
        is_merge_list(r, self.parts()), r.wf(),
        forall|x: u32, y: u32| x <= MAX_CHAR && y <= MAX_CHAR && #[trigger] r.same(x, y) ==> self.together(x, y),
@replace `merge_partition_list(self.states().map(` => `{ let vl = (crate::prelude::vmap_iter(self.states(), `
@replace `))` => `)); let ghost vq = IteratorSpec::remaining(&vl); proof { assert forall|i: int| 0 <= i < vq.len() implies (#[trigger] vq[i]).wf() by { assert(*vq[i] == self.states@[i].classes); } assert(vq.map_values(|p: &CharPartition| *p) =~= self.parts()); } merge_partition_list(vl) }`
@at closure 0
    |x: &State| -> (c: &CharPartition) ensures *c == x.classes
@at tail
    proof {
        assert forall|x: u32, y: u32| x <= MAX_CHAR && y <= MAX_CHAR && #[trigger] r.same(x, y) implies self.together(x, y) by { lemma_combined(*self, r, x, y); }
    }
@fn Automaton::pick_alphabet props=C14 ret=r
    requires self.wf(),
    ensures
        r@ == self.alphabet(), r@.len() > 0, r@.len() <= MAX_CHAR + 2,
        exists|p: CharPartition| #[trigger] is_merge_list(p, self.parts()) && r@ == pick_seq(p),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] <= MAX_CHAR,
@replace `self.combined_char_partition().picks().collect()` => `{ let vp = self.combined_char_partition(); let vr = crate::prelude::vcollect(vp.picks()); proof { lemma_alphabet(*self, vp); lemma_pick_small(vp); assert(pick_seq(vp).skip(0) =~= pick_seq(vp)); assert(is_merge_list(vp, self.parts()) && vr@ == pick_seq(vp)); } vr }`
@fn Automaton::compile_successors props=C14,C04 ret=r
    requires self.wf(), self.num_states * self.alphabet().len() < 0x7fff_ffff,
    ensures table_of(r, *self), has_merge(*self),
@unfold 1 ty=(u32,u32)
    invariant
        self.wf(), self.has(*s), alphabet@ == self.alphabet(), alphabet@.len() <= MAX_CHAR + 2, self.num_states <= u32::MAX,
        forall|i: int| 0 <= i < alphabet@.len() ==> #[trigger] alphabet@[i] <= MAX_CHAR,
        row_upto(*s, alphabet@, vout@, vi as int),
@unfold-start
    let ghost v0 = vout@;
    proof { lemma_succ(*s, self.num_states as nat, alphabet@[vi as int]); lemma_some_class(s.classes, alphabet@[vi as int]); }
@unfold-end
    proof { lemma_row_push(*s, alphabet@, v0, vout@, vi as int); }
@loop 0 iter=it
    invariant
        self.wf(), alphabet@ == self.alphabet(), 0 < alphabet@.len() <= MAX_CHAR + 2, self.num_states <= u32::MAX, num_states == self.num_states, alpha_size == alphabet@.len(),
        self.num_states * alphabet@.len() < 0x7fff_ffff,
        forall|i: int| 0 <= i < alphabet@.len() ==> #[trigger] alphabet@[i] <= MAX_CHAR,
        it.seq() == self.states@.map_values(|c: State| &c),
        builder.inv(), builder.states() == num_states, builder.alpha() == alpha_size, builder.room(it.index()),
        forall|t: u32| it.index() <= t < num_states ==> #[trigger] builder.unset(t),
        forall|t: int| 0 <= t < it.index() ==> #[trigger] table_row(*self, builder, t),
@at loop 0 start
    let ghost k = it.index();
    let ghost b0 = builder;
    proof {
        assert(*s == self.states@[k]);
        assert(self.has(*s));
        assert(k * alphabet@.len() < 0x7fff_ffff) by (nonlinear_arith) requires 0 <= k < self.num_states, self.num_states * alphabet@.len() < 0x7fff_ffff, alphabet@.len() >= 0;
    }
@before `builder.set_successors`
    let ghost b1 = builder;
    proof { assert(b0.unset(id)); assert(b1.unset(id)); assert(b0.room(k)); assert(b1.room(k)); assert(row_ok(suc@, alpha_size)); }
@at loop 0 end
    proof {
        assert forall|t: int| 0 <= t < k + 1 implies #[trigger] table_row(*self, builder, t) by {
            assert forall|c: u32| c < alphabet@.len() implies (match #[trigger] builder.get(t as u32, c) { Some(v) => v, None => builder.def(t as u32) }) == self.states@[t].succ(alphabet@[c as int]) by {
                if t == k {
                    if listed(suc@, c) {
                        let m = choose|m: int| 0 <= m < suc@.len() && (#[trigger] suc@[m]).0 == c;
                        assert(suc@[m] == (c, suc@[m].1));
                        assert(maps(suc@, c, suc@[m].1));
                    } else { assert(builder.get(id, c) is None); assert(builder.def(id) == b1.def(id)); }
                } else {
                    assert(table_row(*self, b0, t));
                    assert(b1.get(t as u32, c) == b0.get(t as u32, c));
                    assert(builder.get(t as u32, c) == b1.get(t as u32, c));
                    assert(builder.def(t as u32) == b1.def(t as u32));
                    assert(b1.def(t as u32) == b0.def(t as u32));
                }
            }
        }
        assert forall|t: u32| k + 1 <= t < num_states implies #[trigger] builder.unset(t) by { assert(b0.unset(t)); assert(b1.unset(t)); }
    }
@after `let alphabet`
    proof {
        assert(self.num_states <= self.num_states * self.alphabet().len()) by (nonlinear_arith) requires self.alphabet().len() > 0, self.num_states >= 0;
    }
@at loop 0 after
    let ghost b = builder;
    proof { assert(b.room(self.num_states as int)); assert forall|t: int| 0 <= t < num_states implies #[trigger] table_row(*self, b, t) by {} }
@at tail
    proof {
        assert forall|s: u32, c: u32| s < r.states() && c < r.alpha() implies #[trigger] r.at(s, c) == self.states@[s as int].succ(self.alphabet()[c as int]) by {
            assert(table_row(*self, b, s as int));
            assert(r.at(s, c) == (match b.get(s, c) { Some(v) => v, None => b.def(s) }));
        }
    }
@fn StateMapping::from_array props=C14 ret=r
    requires nodes_to_keep@.no_duplicates(), forall|k: int| 0 <= k < nodes_to_keep@.len() ==> (#[trigger] nodes_to_keep@[k]) < num_nodes,
    ensures keeps(r, num_nodes as nat, nodes_to_keep@),
@replace `for (i, &node_id) in nodes_to_keep.iter().enumerate()` => `for i in it: 0..nodes_to_keep.len()`
@loop 0
    invariant
        nodes_to_keep@.no_duplicates(), forall|k: int| 0 <= k < nodes_to_keep@.len() ==> (#[trigger] nodes_to_keep@[k]) < num_nodes,
        new_id@.len() == num_nodes, old_id@.len() == nodes_to_keep@.len(),
        forall|k: int| 0 <= k < i ==> #[trigger] old_id@[k] == nodes_to_keep@[k],
        forall|k: int| 0 <= k < i ==> new_id@[#[trigger] nodes_to_keep@[k] as int] == k,
        forall|j: int| 0 <= j < num_nodes ==> (#[trigger] new_id@[j]) < i || new_id@[j] == 0,
@at loop 0 start
    let node_id = nodes_to_keep[i];
    let ghost n0 = new_id@;
@at tail
    proof { assert(old_id@ =~= nodes_to_keep@); }
@fn StateMapping::num_new_states props=C14,C04 ret=r
    ensures r == self.old_id@.len(),
@fn StateMapping::is_class_rep props=C14,C04 ret=r
    requires id < self.new_id@.len(), self.new_id@[id as int] < self.old_id@.len(),
    ensures r == (self.rep(id) == id),
@fn State::remap_nodes props=C14,C04 ret=r
    requires old(self).wf(remap.new_id@.len()), remap.ok(remap.new_id@.len()), old(self).id < remap.new_id@.len(), remap.rep(old(self).id) == old(self).id,
    ensures renumbered(*old(self), r, *remap), final(self).is_final == old(self).is_final,
@at start
    let ghost s0 = *self;
@at closure 0
    |i: usize| -> (j: usize) requires i < remap.new_id@.len() ensures j == remap.new_id@[i as int]
@replace `std::mem::take(&mut self.successor)` => `crate::prelude::vtake(&mut self.successor)`
@replace `std::mem::take(&mut self.classes)` => `crate::prelude::vtake(&mut self.classes)`
@replace `for s in new_successors.as_mut()` => `for si in it: 0..new_successors.len()`
@loop 0
    invariant
        s0.wf(remap.new_id@.len()), remap.ok(remap.new_id@.len()), new_successors@.len() == s0.successor@.len(), it.seq().len() == new_successors@.len(),
        self.classes == s0.classes, self.is_final == s0.is_final,
        forall|k: int| 0 <= k < si ==> #[trigger] new_successors@[k] == remap.new_id@[s0.successor@[k] as int],
        forall|k: int| si <= k < new_successors@.len() ==> #[trigger] new_successors@[k] == s0.successor@[k],
@at loop 0 start
    proof { assert(s0.successor@[si as int] < remap.new_id@.len()); assert(new_successors@[si as int] == s0.successor@[si as int]); }
    let s = &mut new_successors[si];
@fn Automaton::remap_nodes props=C14,C04
    requires old(self).wf(), remap.ok(old(self).num_states as nat),
    ensures final(self).wf(), remapped(*old(self), *final(self), *remap),
@at start
    let ghost a = *self;
    let ghost n = self.num_states as nat;
@loop 0 iter=it
    invariant
        a == *old(self), a.wf(), n == a.num_states, remap.ok(n), num_new_nodes == remap.old_id@.len(),
        self.states@.len() == n, new_states@.len() == i, self.num_final_states == num_finals(new_states@),
        self.initial_state == remap.new_id@[a.initial_state as int],
        forall|k: int| i <= k < num_new_nodes ==> self.states@[#[trigger] remap.old_id@[k] as int] == a.states@[remap.old_id@[k] as int],
        forall|k: int| 0 <= k < i ==> renumbered(a.states@[remap.old_id@[k] as int], #[trigger] new_states@[k], *remap),
@at loop 0 start
    let ghost ns = new_states@;
    proof {
        lemma_num_finals_le(ns);
        assert(remap.new_id@[remap.old_id@[i as int] as int] == i);
        assert(self.states@[remap.old_id@[i as int] as int] == a.states@[remap.old_id@[i as int] as int]);
        assert(a.states@[remap.old_id@[i as int] as int].wf(n));
    }
@at loop 0 end
    proof {
        let st = new_states@[i as int];
        lemma_num_finals_push(ns, st);
        assert(new_states@ =~= ns.push(st));
        assert forall|k: int| i + 1 <= k < num_new_nodes implies self.states@[#[trigger] remap.old_id@[k] as int] == a.states@[remap.old_id@[k] as int] by {
            assert(remap.new_id@[remap.old_id@[k] as int] == k);
        }
    }
@replace `new_states.into()` => `crate::prelude::vinto_box(new_states)`
@at end
    proof {
        let b = *self;
        assert forall|k: int| 0 <= k < b.states@.len() implies (#[trigger] b.states@[k]).wf(b.states@.len()) && b.states@[k].id == k by {
            let s = a.states@[remap.old_id@[k] as int];
            assert(s.wf(n)); assert(s.id == remap.old_id@[k]);
            assert(renumbered(s, b.states@[k], *remap));
            lemma_renumbered(s, b.states@[k], *remap, n);
        }
    }
@fn Automaton::remove_unreachable_states props=C14
    requires old(self).wf(),
    ensures final(self).wf(), same_lang(*old(self), *final(self)), pruned(*old(self), *final(self)),
@at start
    let ghost a = *self;
    proof { lemma_reach_start(a); }
@replace `reachable.sort_unstable()` => `crate::prelude::vsort(&mut reachable)`
@before `while let`
    let ghost mut pending = queue.queue@;
    proof {
        assert(queue.queue@ =~= Seq::empty().push(a.initial_state));
        assert(members(Seq::<usize>::empty(), Map::<usize, ()>::empty()));
        lemma_members_push(Seq::<usize>::empty(), Map::<usize, ()>::empty(), a.initial_state);
        assert(reachable@ + queue.queue@ =~= queue.queue@);
    }
@loop 0
    invariant
        a == *old(self), a == *self, a.wf(), pending == queue.queue@, exact_clone::<usize>(),
        queue.set@.contains_key(a.initial_state), all_reachable(a, queue.set@), members(reachable@ + queue.queue@, queue.set@),
        closed_under(a, reachable@, queue.set@),
    ensures
        queue.queue@.len() == 0,
@at loop 0 start
    let ghost l0 = reachable@;
    let ghost d0 = queue.set@;
    proof {
        assert(pending[0] == i && queue.queue@ == pending.skip(1));
        assert(l0 + pending =~= l0.push(i) + queue.queue@);
        assert((l0 + pending)[l0.len() as int] == i);
        assert((l0 + pending).contains(i));
    }
@loop 1 iter=it
    invariant
        a == *old(self), a == *self, a.wf(), a.has(*s), s.id == i, exact_clone::<usize>(), can_reach(a, i),
        reachable@ == l0.push(i), it.iter.over() == (*s, a.states@), it.snapshot@.over() == (*s, a.states@), it.seq() == edge_seq(*s, a.states@),
        queue.set@.contains_key(a.initial_state), all_reachable(a, queue.set@), members(reachable@ + queue.queue@, queue.set@),
        closed_under(a, l0, queue.set@),
        forall|j: int| 0 <= j < it.index() ==> queue.set@.contains_key((#[trigger] edge_seq(*s, a.states@)[j]).1.id),
@at loop 1 start
    let ghost j = it.index();
    let ghost q1 = queue.queue@;
    let ghost d1 = queue.set@;
    proof {
        lemma_class_seq(s.classes);
        let c = class_seq(s.classes)[j];
        assert(class_seq(s.classes).contains(c));
        lemma_reach_edge(a, *s, c);
        assert(*next == a.states@[s.class_succ(c) as int]);
        assert(next.id == s.class_succ(c));
    }
@at loop 1 end
    proof {
        if !d1.contains_key(next.id) {
            lemma_members_push(reachable@ + q1, d1, next.id);
            assert(reachable@ + queue.queue@ =~= (reachable@ + q1).push(next.id));
        } else { assert(queue.set@ =~= d1); }
        assert(edge_seq(*s, a.states@)[j].1.id == next.id);
    }
@at loop 1 after
    proof {
        assert forall|k: int, x: u32| 0 <= k < reachable@.len() && x <= MAX_CHAR implies queue.set@.contains_key(#[trigger] a.states@[#[trigger] reachable@[k] as int].succ(x)) by {
            if k < l0.len() { assert(queue.set@.contains_key(a.states@[l0[k] as int].succ(x))); }
            else {
                lemma_edges(a, *s, x);
                let e = edge_seq(*s, a.states@);
                let j = choose|j: int| 0 <= j < e.len() && s.classes.in_class((#[trigger] e[j]).0, x) && *e[j].1 == a.states@[s.succ(x) as int];
                lemma_succ(*s, a.num_states as nat, x);
                assert(a.states@[s.succ(x) as int].id == s.succ(x));
            }
        }
    }
@at loop 0 end
    proof { pending = queue.queue@; }
@at loop 0 after
    let ghost l = reachable@;
    proof { assert(reachable@ + queue.queue@ =~= l); }
@after `reachable.sort_unstable()`
    proof {
        crate::prelude::lemma_same_multiset(l, reachable@);
        l.lemma_multiset_has_no_duplicates();
        reachable@.lemma_multiset_has_no_duplicates_conv();
        assert forall|k: int| 0 <= k < reachable@.len() implies (#[trigger] reachable@[k]) < a.num_states by { assert(reachable@.contains(reachable@[k])); assert(l.contains(reachable@[k])); assert(queue.set@.contains_key(reachable@[k])); }
        assert forall|i: usize| #[trigger] reachable@.contains(i) <==> can_reach(a, i) by {
            assert(l.contains(i) <==> queue.set@.contains_key(i));
            if can_reach(a, i) { let w = choose|w: Seq<u32>| #[trigger] reaches(a, i, w); lemma_reach_closed(a, l, queue.set@, w); }
        }
        lemma_distinct_len(reachable@, a.num_states as nat);
        assert(reachable@.contains(a.initial_state));
    }
@before `self.remap_nodes`
    proof {
        assert(remap.ok(a.num_states as nat));
    }
@at end
    proof { lemma_pruned(a, *self, remap); }
@fn StateMapping::from_partition props=C04 ret=r
    requires p.wf(), p.n() >= 1,
    ensures maps_classes(r, *p), r.ok(p.n() as nat),
@loop 0
    invariant
        p.wf(), new_id@.len() == p.n(), num_nodes == p.n(),
        forall|i: int| 0 <= i < s ==> (#[trigger] new_id@[i]) == p.cls(i as u32) - 1,
@loop 1
    invariant
        p.wf(), new_id@.len() == p.n(), num_nodes == p.n(), old_id@.len() == p.len() - 1,
        forall|i: int| 0 <= i < p.n() ==> (#[trigger] new_id@[i]) == p.cls(i as u32) - 1,
        forall|k: int| 0 <= k < b - 1 ==> (#[trigger] old_id@[k]) < p.n() && p.cls(old_id@[k] as u32) == k + 1,
@at tail
    proof { lemma_maps_classes(r, *p); }
@fn Automaton::minimize props=C04
    requires old(self).wf(), old(self).num_states * old(self).alphabet().len() < 0x7fff_ffff,
    ensures final(self).wf(), minimized(*old(self), *final(self)),
@at start
    let ghost a = *self;
@replace `|i: u32| self.state(i as usize).is_final` => `|i: u32| -> (vb: bool) requires i < self.num_states, self.wf() ensures vb == self.states@[i as int].is_final { self.state(i as usize).is_final }`
@replace `|i, j| transition_map.eval(i, j)` => `|i: u32, j: u32| -> (vy: u32) requires transition_map.wf(), i < transition_map.states(), j < transition_map.alpha() ensures vy == transition_map.at(i, j) { transition_map.eval(i, j) }`
@before `let mut minimizer`
    proof {
        let p = choose|p: CharPartition| #[trigger] is_merge_list(p, a.parts());
        lemma_alphabet(a, p);
        lemma_pick_small(p);
        assert(a.num_states <= a.num_states * a.alphabet().len()) by (nonlinear_arith) requires a.alphabet().len() > 0, a.num_states >= 0;
        assert(a.alphabet().len() <= a.num_states * a.alphabet().len()) by (nonlinear_arith) requires a.alphabet().len() > 0, a.num_states >= 1;
        assert forall|x: u32, c: u32| x < num_states && c < alphabet_size implies #[trigger] nxt(delta, x, c) == a.states@[x as int].succ(a.alphabet()[c as int]) && nxt(delta, x, c) < num_states by {
            axiom_answers2(delta, x, c);
            assert(transition_map.at(x, c) == a.states@[x as int].succ(a.alphabet()[c as int]));
            lemma_succ(a.states@[x as int], a.num_states as nat, a.alphabet()[c as int]);
        }
        assert forall|x: u32| x < num_states implies #[trigger] fin(is_final, x) == a.states@[x as int].is_final by { axiom_answers1(is_final, x); }
        assert(sane(delta, is_final, num_states, alphabet_size));
    }
    let ghost gd = delta;
    let ghost gf = is_final;
@after `let p = minimizer.refine()`
    proof { lemma_count(p.base); assert(settled(gd, gf, num_states, alphabet_size, *p)); if p.len() - 1 >= a.num_states { lemma_minimal_already(a, gd, gf, *p); } }
    let ghost gp = *p;
    let ghost mut gm: StateMapping = arbitrary();
@after `let remap =`
    proof { gm = remap; }
@at end
    proof { if gp.len() - 1 < a.num_states { lemma_minimized(a, *self, gd, gf, gp, gm); } }
