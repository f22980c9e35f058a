@module fast_sets
@private FastSetIterator
@uses
use vstd::std_specs::iter::*;
@items
impl FastSet {
    pub open spec fn wf(&self) -> bool {
        &&& self.size <= self.max
        &&& self.pos@.len() == self.max && self.elem@.len() == self.max
        &&& forall|i: int| 0 <= i < self.size ==> (#[trigger] self.elem@[i]) < self.max && self.pos@[self.elem@[i] as int] == i
    }
    /// x is in the set
    pub open spec fn has(&self, x: u32) -> bool { exists|i: int| 0 <= i < self.size && #[trigger] self.elem@[i] == x }
    /// the members, in the order in which they are stored
    pub open spec fn members(&self) -> Seq<u32> { self.elem@.take(self.size as int) }
}
pub proof fn lemma_room(s: FastSet, x: u32)
    requires s.wf(), x < s.max, !s.has(x),
    ensures s.size < s.max,
{
    let e = Seq::new((s.size + 1) as nat, |i: int| if i < s.size { s.elem@[i] as int } else { x as int });
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by {
        if i < s.size { assert(s.pos@[s.elem@[i] as int] == i); }
        if j < s.size { assert(s.pos@[s.elem@[j] as int] == j); }
        if i < s.size && j < s.size { assert(s.elem@[i] != s.elem@[j]); }
    }
    lemma_pigeon(e, s.max as int);
}
impl<'a> FastSetIterator<'a> {
    /// what is still to come
    pub closed spec fn rest(&self) -> Seq<u32> { self.elem@.subrange(self.index as int, self.size as int) }
    #[verifier::type_invariant]
    pub closed spec fn ok(&self) -> bool { self.index <= self.size && self.size <= self.elem@.len() }
}
impl<'a> IteratorSpecImpl for FastSetIterator<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<u32> { self.rest() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    closed spec fn decrease(&self) -> Option<nat> { Some((self.size - self.index) as nat) }
    open spec fn peek(&self, i: int) -> Option<u32> { None }
}
pub proof fn lemma_members(s: FastSet)
    requires s.wf(),
    ensures
        forall|x: u32| #[trigger] s.has(x) <==> s.members().contains(x),
        forall|i: int| 0 <= i < s.members().len() ==> (#[trigger] s.members()[i]) < s.max && s.has(s.members()[i]),
        s.members().no_duplicates(),
{
    let m = s.members();
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]) < s.max && s.has(m[i]) by { assert(m[i] == s.elem@[i]); }
    assert forall|x: u32| #[trigger] s.has(x) <==> m.contains(x) by {
        if s.has(x) { let i = choose|i: int| 0 <= i < s.size && #[trigger] s.elem@[i] == x; assert(m[i] == x); }
        if m.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(s.elem@[i] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by {
        assert(s.pos@[s.elem@[i] as int] == i && s.pos@[s.elem@[j] as int] == j);
    }
}
@end

@fn FastSet::new props=C04 ret=r
ensures r.wf(), r.max == max, r.size == 0, forall|x: u32| !r.has(x),

@fn FastSet::card props=C04 ret=r
ensures r == self.size,

@fn FastSet::contains props=C04 ret=r
requires self.wf(), x < self.max,
ensures r == self.has(x),
@at start
proof { if self.has(x) { let i = choose|i: int| 0 <= i < self.size && #[trigger] self.elem@[i] == x; } }

@fn FastSet::insert props=C04
requires old(self).wf(), x < old(self).max,
ensures final(self).wf(), final(self).max == old(self).max, forall|y: u32| #[trigger] final(self).has(y) <==> old(self).has(y) || y == x,
@at start
let ghost o = *old(self);
proof { if !o.has(x) { lemma_room(o, x); } }
@at end
proof {
    let f = *self;
    assert forall|y: u32| #[trigger] f.has(y) <==> o.has(y) || y == x by {
        if f.has(y) { let i = choose|i: int| 0 <= i < f.size && #[trigger] f.elem@[i] == y; if i < o.size { assert(o.elem@[i] == y); } }
        if o.has(y) { let i = choose|i: int| 0 <= i < o.size && #[trigger] o.elem@[i] == y; assert(f.elem@[i] == y); }
        if y == x { if o.has(x) { let i = choose|i: int| 0 <= i < o.size && #[trigger] o.elem@[i] == x; assert(f.elem@[i] == x); } else { assert(f.elem@[o.size as int] == x); } }
    }
    assert forall|i: int| 0 <= i < f.size implies (#[trigger] f.elem@[i]) < f.max && f.pos@[f.elem@[i] as int] == i by { if i < o.size { assert(f.elem@[i] == o.elem@[i]); } }
}

@fn FastSet::remove props=C04
requires old(self).wf(), x < old(self).max,
ensures final(self).wf(), final(self).max == old(self).max, forall|y: u32| #[trigger] final(self).has(y) <==> old(self).has(y) && y != x,
@at start
let ghost o = *old(self);
proof { if o.has(x) { let i = choose|i: int| 0 <= i < o.size && #[trigger] o.elem@[i] == x; assert(o.pos@[x as int] == i); } }
@at end
proof {
    let f = *self;
    assert forall|y: u32| #[trigger] f.has(y) <==> o.has(y) && y != x by {
        if f.has(y) {
            let i = choose|i: int| 0 <= i < f.size && #[trigger] f.elem@[i] == y;
            if o.elem@[i] == y {} else { assert(o.elem@[o.size - 1] == y); }
            if o.has(x) { assert(o.pos@[o.elem@[i] as int] == i); assert(o.pos@[o.elem@[o.size - 1] as int] == o.size - 1); }
            assert(o.has(y));
        }
        if o.has(y) && y != x { let i = choose|i: int| 0 <= i < o.size && #[trigger] o.elem@[i] == y; if o.has(x) && i == o.size - 1 { assert(f.elem@[o.pos@[x as int] as int] == y); } else { assert(f.elem@[i] == y); } }
    }
    assert forall|i: int| 0 <= i < f.size implies (#[trigger] f.elem@[i]) < f.max && f.pos@[f.elem@[i] as int] == i by {
        assert(o.elem@[i] < o.max && o.pos@[o.elem@[i] as int] == i);
        if o.has(x) { assert(o.pos@[o.elem@[o.size - 1] as int] == o.size - 1); }
    }
}

@fn FastSet::reset props=C04
ensures final(self).max == old(self).max, old(self).wf() ==> final(self).wf(), forall|x: u32| !final(self).has(x),

@fn FastSet::iter props=C04 ret=r
requires self.wf(),
ensures IteratorSpec::remaining(&r) == self.members(),
@at tail
proof { assert(self.elem@.subrange(0, self.size as int) =~= self.members()); }

@fn FastSetIterator as Iterator::next props=C04 ret=r
ensures
    r is Some <==> old(self).rest().len() > 0,
    r is Some ==> r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
    r is None ==> final(self).rest() == old(self).rest(),
@at start
proof {
    use_type_invariant(&*self);
    if self.index < self.size { assert(self.rest().drop_first() =~= self.elem@.subrange(self.index + 1, self.size as int)); }
}
