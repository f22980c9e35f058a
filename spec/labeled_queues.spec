@module labeled_queues
@uses
use vstd::std_specs::vecdeque::*;
use vstd::std_specs::cmp::*;
use crate::bfs_queues::exact_clone;
@type-attr LabeledQueue #[verifier::reject_recursive_types(T)]
@type-attr LabeledQueue #[verifier::reject_recursive_types(L)]
@type-attr EdgeIterator #[verifier::reject_recursive_types(T)]
@type-attr EdgeIterator #[verifier::reject_recursive_types(L)]
@inherent EdgeIterator as Iterator
@items
/// p is the sequence of (node, label) pairs on the recorded path that ends with edge e
pub open spec fn trace<T, L>(m: Map<T, Edge<T, L>>, e: Edge<T, L>, p: Seq<(T, L)>) -> bool
    decreases p.len()
{
    if p.len() == 0 { e is Empty }
    else {
        e == Edge::Pred(p.last().1, p.last().0) && m.contains_key(p.last().0) && trace(m, m[p.last().0], p.drop_last())
    }
}
/// every recorded predecessor was inserted earlier
pub open spec fn in_order<T, L>(m: Map<T, Edge<T, L>>, o: Seq<T>) -> bool {
    &&& forall|k: T| #[trigger] m.contains_key(k) <==> o.contains(k)
    &&& forall|i: int| 0 <= i < o.len() ==> edge_before(m[#[trigger] o[i]], o, i)
}
pub open spec fn edge_before<T, L>(e: Edge<T, L>, o: Seq<T>, i: int) -> bool {
    match e { Edge::Empty => true, Edge::Pred(l, n) => exists|j: int| 0 <= j < i && #[trigger] o[j] == n }
}
pub open spec fn eq_sym<T: PartialEq>() -> bool { forall|a: T, b: T| #[trigger] a.eq_spec(&b) ==> b.eq_spec(&a) }
impl<T: Eq + Hash + Clone, L: Clone> LabeledQueue<T, L> {
    pub open spec fn wf(self) -> bool {
        &&& exists|o: Seq<T>| in_order(self.map@, o)
        &&& forall|k: T| #[trigger] self.map@.contains_key(k) ==> key_ok(self.map@, k)
        &&& forall|i: int| 0 <= i < self.queue@.len() ==> self.map@.contains_key(#[trigger] self.queue@[i])
    }
    pub open spec fn known(self, e: Edge<T, L>) -> bool { match e { Edge::Empty => true, Edge::Pred(l, n) => self.map@.contains_key(n) } }
}
impl<T: Eq + Hash + Clone, L: Clone> LabeledQueue<T, L> {
    pub proof fn lemma_known(self, n: T)
        requires self.wf(), self.map@.contains_key(n),
        ensures self.known(self.map@[n]),
    {
        let o = choose|o: Seq<T>| in_order(self.map@, o);
        let i = o.index_of(n);
        assert(o.contains(n));
        assert(edge_before(self.map@[o[i]], o, i));
        match self.map@[n] { Edge::Pred(l, m) => { let j = choose|j: int| 0 <= j < i && #[trigger] o[j] == m; assert(o.contains(m)); }, _ => {} }
    }
}
pub proof fn lemma_trace_push<T, L>(m: Map<T, Edge<T, L>>, n: T, l: L, p: Seq<(T, L)>)
    requires m.contains_key(n), trace(m, m[n], p),
    ensures trace(m, Edge::Pred(l, n), p.push((n, l))),
{
    assert(p.push((n, l)).drop_last() =~= p);
}
/// recorded edges never change, so paths stay
pub proof fn lemma_trace_mono<T, L>(m: Map<T, Edge<T, L>>, m2: Map<T, Edge<T, L>>, e: Edge<T, L>, p: Seq<(T, L)>)
    requires trace(m, e, p), forall|k: T| #[trigger] m.contains_key(k) ==> m2.contains_key(k) && m2[k] == m[k],
    ensures trace(m2, e, p),
    decreases p.len(),
{
    if p.len() > 0 { lemma_trace_mono(m, m2, m[p.last().0], p.drop_last()); }
}
/// std: iter.map(f).collect::<Vec<_>>() on the edges of a path, as a loop
pub struct MappedEdges<U> { pub v: Vec<U> }
impl<U> MappedEdges<U> {
    pub fn collect(self) -> (r: Vec<U>)
        ensures r@ == self.v@,
    { self.v }
}
impl<'a, T: Eq + Hash + Clone, L: Clone> EdgeIterator<'a, T, L> {
    pub fn map<U, F: Fn((&'a T, &'a L)) -> U>(self, f: F) -> (r: MappedEdges<U>)
        requires
            self.queue.wf(), self.queue.known(*self.last_edge),
            forall|n: &'a T, l: &'a L| #[trigger] call_requires(f, ((n, l),)),
        ensures exists|p: Seq<(T, L)>| trace(self.queue.map@, *self.last_edge, p) && r.v@.len() == p.len()
            && forall|i: int| 0 <= i < p.len() ==> call_ensures(f, ((&p[p.len() - 1 - i].0, &p[p.len() - 1 - i].1),), #[trigger] r.v@[i]),
    {
        let mut it = self;
        let mut v: Vec<U> = Vec::new();
        let ghost m = self.queue.map@;
        let ghost e0 = *self.last_edge;
        let ghost rev: Seq<(T, L)> = Seq::empty();
        let ghost o = choose|o: Seq<T>| in_order(m, o);
        let ghost mut k = o.len() as int;
        proof {
            assert forall|p: Seq<(T, L)>| trace(m, *it.last_edge, p) implies #[trigger] trace(m, e0, p + rev) by { assert(p + rev =~= p); }
            match e0 { Edge::Pred(l, n) => { assert(m.contains_key(n)); assert(o.contains(n)); }, _ => {} }
        }
        loop
            invariant
                it.queue == self.queue, self.queue.wf(), m == self.queue.map@, in_order(m, o),
                forall|n: &'a T, l: &'a L| #[trigger] call_requires(f, ((n, l),)),
                e0 == *self.last_edge,
                self.queue.known(*it.last_edge),
                0 <= k <= o.len(), edge_before(*it.last_edge, o, k),
                v@.len() == rev.len(),
                forall|p: Seq<(T, L)>| trace(m, *it.last_edge, p) ==> #[trigger] trace(m, e0, p + rev),
                forall|i: int| 0 <= i < rev.len() ==> call_ensures(f, ((&rev[rev.len() - 1 - i].0, &rev[rev.len() - 1 - i].1),), #[trigger] v@[i]),
            decreases k,
        {
            let ghost cur = *it.last_edge;
            match it.next() {
                None => {
                    proof {
                        let p = Seq::<(T, L)>::empty();
                        assert(trace(m, cur, p));
                        assert(trace(m, e0, p + rev));
                        assert(p + rev =~= rev);
                    }
                    return MappedEdges { v };
                }
                Some(x) => {
                    let ghost (n, l) = (*x.0, *x.1);
                    let u = f(x);
                    proof {
                        let ghost rev1 = seq![(n, l)] + rev;
                        assert forall|p: Seq<(T, L)>| trace(m, *it.last_edge, p) implies #[trigger] trace(m, e0, p + rev1) by {
                            lemma_trace_push(m, n, l, p);
                            assert(trace(m, e0, p.push((n, l)) + rev));
                            assert(p.push((n, l)) + rev =~= p + rev1);
                        }
                        let j = choose|j: int| 0 <= j < k && #[trigger] o[j] == n;
                        assert(edge_before(m[o[j]], o, j));
                        match m[n] { Edge::Pred(l2, n2) => { let j2 = choose|j2: int| 0 <= j2 < j && #[trigger] o[j2] == n2; assert(o.contains(n2)); }, _ => {} }
                        k = j;
                        assert forall|i: int| 0 <= i < rev1.len() implies call_ensures(f, ((&rev1[rev1.len() - 1 - i].0, &rev1[rev1.len() - 1 - i].1),), #[trigger] v@.push(u)[i]) by {
                            if i < rev.len() { assert(call_ensures(f, ((&rev[rev.len() - 1 - i].0, &rev[rev.len() - 1 - i].1),), v@[i])); assert(rev1[rev1.len() - 1 - i] == rev[rev.len() - 1 - i]); }
                        }
                        rev = rev1;
                    }
                    v.push(u);
                }
            }
        }
    }
}
@fn EdgeIterator as Iterator::next props=C05 ret=r
    requires old(self).queue.wf(), old(self).queue.known(*old(self).last_edge),
    ensures
        final(self).queue == old(self).queue,
        match *old(self).last_edge {
            Edge::Empty => r is None && final(self).last_edge == old(self).last_edge,
            Edge::Pred(l, n) => r is Some && *((r->0).0) == n && *((r->0).1) == l && *final(self).last_edge == old(self).queue.map@[n],
        },
@fn LabeledQueue::new props=C05 ret=r
    requires exact_clone::<T>(), T::obeys_eq_spec(), eq_sym::<T>(), root.eq_spec(&root),
    ensures r.wf(), r.queue@ == seq![root], r.map@ == Map::<T, Edge<T, L>>::empty().insert(root, Edge::Empty),
@before `LabeledQueue { queue, map }`
    proof {
        let o = seq![root];
        assert(o[0] == root);
        assert(o.contains(root));
        assert forall|k: T| #[trigger] map@.contains_key(k) <==> o.contains(k) by { if o.contains(k) { assert(k == root); } }
        assert(in_order(map@, o));
        assert(key_ok(map@, root));
        assert(queue@ =~= seq![root]);
    }
@at tail
    proof {
        assert(in_order(r.map@, seq![root]));
        assert forall|i: int| 0 <= i < r.queue@.len() implies r.map@.contains_key(#[trigger] r.queue@[i]) by { assert(r.queue@[i] == root); }
    }
@fn LabeledQueue::push props=C05 ret=r
    requires exact_clone::<T>(), eq_sym::<T>(), old(self).wf(), key_ok(old(self).map@, suc), old(self).map@.contains_key(pre),
    ensures
        final(self).wf(),
        r == !old(self).map@.contains_key(suc),
        final(self).map@ == (if r { old(self).map@.insert(suc, Edge::Pred(label, pre)) } else { old(self).map@ }),
        final(self).queue@ == (if r { old(self).queue@.push(suc) } else { old(self).queue@ }),
@at start
    let ghost o = choose|o: Seq<T>| in_order(self.map@, o);
@at tail
    proof {
        if r {
        assert(self.map@ == old(self).map@.insert(suc, Edge::Pred(label, pre)));
        assert(self.queue@ == old(self).queue@.push(suc));
        let o2 = o.push(suc);
        assert(o.contains(pre));
        assert forall|k: T| #[trigger] self.map@.contains_key(k) <==> o2.contains(k) by {
            if old(self).map@.contains_key(k) { let i = o.index_of(k); assert(o.contains(k)); assert(o2[o.index_of(k)] == k); }
            if k == suc { assert(o2[o.len() as int] == k); }
            if o2.contains(k) && k != suc { let i = choose|i: int| 0 <= i < o2.len() && o2[i] == k; assert(o[i] == k); assert(o.contains(k)); }
        }
        assert forall|i: int| 0 <= i < o2.len() implies edge_before(self.map@[#[trigger] o2[i]], o2, i) by {
            if i < o.len() {
                assert(o[i] == o2[i]);
                assert(o.contains(o[i]));
                assert(edge_before(old(self).map@[o[i]], o, i));
                match old(self).map@[o[i]] { Edge::Pred(l, n) => { let j = choose|j: int| 0 <= j < i && #[trigger] o[j] == n; assert(o2[j] == n); }, _ => {} }
            } else {
                let j = o.index_of(pre);
                assert(o2[j] == pre);
            }
        }
        assert(in_order(self.map@, o2));
        assert forall|i: int| 0 <= i < self.queue@.len() implies self.map@.contains_key(#[trigger] self.queue@[i]) by { if i < old(self).queue@.len() { assert(self.queue@[i] == old(self).queue@[i]); } }
        }
    }
@fn LabeledQueue::is_empty props=C05 ret=r
    ensures r == (self.queue@.len() == 0),
@fn LabeledQueue::pop props=C05 ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).map@ == old(self).map@,
        old(self).queue@.len() == 0 ==> r is None && final(self).queue@ == old(self).queue@,
        old(self).queue@.len() > 0 ==> r == Some(old(self).queue@[0]) && final(self).queue@ == old(self).queue@.skip(1),
        r matches Some(x) ==> old(self).queue@ == seq![x] + final(self).queue@,
@at start
    let ghost q0 = self.queue@;
@at tail
    proof {
        assert forall|i: int| 0 <= i < self.queue@.len() implies self.map@.contains_key(#[trigger] self.queue@[i]) by {
            if q0.len() > 0 { assert(self.queue@[i] == q0[i + 1]); }
        }
        if q0.len() > 0 { assert(self.queue@ =~= q0.skip(1)); assert(q0 =~= seq![q0[0]] + self.queue@); }
        assert(self.map@ == old(self).map@);
        assert(exists|o: Seq<T>| in_order(self.map@, o));
        assert(forall|k: T| #[trigger] self.map@.contains_key(k) ==> key_ok(self.map@, k));
    }
@fn LabeledQueue::visited props=C05 ret=r
    requires key_ok(self.map@, *node),
    ensures r == self.map@.contains_key(*node),
@fn LabeledQueue::edge_iter props=C05 ret=r
    ensures r.queue == self, r.last_edge == e,
@fn LabeledQueue::labels_on_path props=C05 ret=r
    requires self.wf(), self.known(*e), exact_clone::<L>(),
    ensures exists|p: Seq<(T, L)>| trace(self.map@, *e, p) && r@ == p.map_values(|x: (T, L)| x.1),
@at closure 0
|vp0: (&T, &L)| -> (o: L) ensures o == *vp0.1,
@at tail
    proof {
        let p = choose|p: Seq<(T, L)>| trace(self.map@, *e, p) && result@.len() == p.len()
            && forall|i: int| 0 <= i < p.len() ==> result@[i] == #[trigger] p[i].1;
        assert(result@ =~= p.map_values(|x: (T, L)| x.1));
    }
@fn LabeledQueue::make_path props=C05 ret=r
    requires self.wf(), self.known(*e), exact_clone::<T>(), exact_clone::<L>(),
    ensures trace(self.map@, *e, r@),
@at closure 0
|vp0: (&T, &L)| -> (o: (T, L)) ensures o == (*vp0.0, *vp0.1),
@at tail
    proof {
        let p = choose|p: Seq<(T, L)>| trace(self.map@, *e, p) && result@.len() == p.len()
            && forall|i: int| 0 <= i < p.len() ==> result@[i] == #[trigger] p[i];
        assert(result@ =~= p);
    }
@fn LabeledQueue::path props=C05 ret=r
    requires self.wf(), key_ok(self.map@, *node), exact_clone::<L>(),
    ensures
        r is Some <==> self.map@.contains_key(*node),
        r is Some ==> exists|p: Seq<(T, L)>| trace(self.map@, self.map@[*node], p) && r->0@ == p.map_values(|x: (T, L)| x.1),
@at closure 0
|e: &Edge<T, L>| -> (o: Vec<L>) requires self.known(*e) ensures exists|p: Seq<(T, L)>| trace(self.map@, *e, p) && o@ == p.map_values(|x: (T, L)| x.1),
@at start
    proof {
        if self.map@.contains_key(*node) { self.lemma_known(*node); }
    }
@fn LabeledQueue::full_path props=C05 ret=r
    requires self.wf(), key_ok(self.map@, *destination), exact_clone::<T>(), exact_clone::<L>(),
    ensures
        r is Some <==> self.map@.contains_key(*destination),
        r is Some ==> trace(self.map@, self.map@[*destination], r->0@),
@at closure 0
|e: &Edge<T, L>| -> (o: Vec<(T, L)>) requires self.known(*e) ensures trace(self.map@, *e, o@),
@at start
    proof {
        if self.map@.contains_key(*destination) { self.lemma_known(*destination); }
    }
