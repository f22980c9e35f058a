@module compact_tables
@items
/// the successor map of a state: the entry for character c is j
pub open spec fn maps(s: Seq<(u32, u32)>, c: u32, j: u32) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == (c, j) }
pub open spec fn listed(s: Seq<(u32, u32)>, c: u32) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == c }
/// distinct characters below alpha
pub open spec fn row_ok(s: Seq<(u32, u32)>, alpha: u32) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < alpha
    &&& forall|i: int, k: int| 0 <= i < k < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[k]).0
}
/// what the arrays say about state s and character c
pub open spec fn cell(base: Seq<u32>, value: Seq<u32>, check: Seq<u32>, s: u32, c: u32) -> Option<u32> {
    let k = base[s as int] + c;
    if check[k] == s { Some(value[k]) } else { None }
}
pub open spec fn max_of(s: Seq<u32>) -> u32
    decreases s.len(),
{
    if s.len() <= 1 { if s.len() == 1 { s[0] } else { 0 } } else { let m = max_of(s.drop_last()); if s.last() >= m { s.last() } else { m } }
}
pub proof fn lemma_max_of(s: Seq<u32>)
    requires s.len() > 0,
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= max_of(s), exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == max_of(s),
    decreases s.len(),
{
    if s.len() > 1 {
        let t = s.drop_last();
        lemma_max_of(t);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] <= max_of(s) by { if i < t.len() { assert(t[i] == s[i]); } }
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == max_of(t);
        if s.last() >= max_of(t) { assert(s[s.len() - 1] == max_of(s)); } else { assert(s[i] == max_of(s)); }
    } else { assert(s[0] == max_of(s)); }
}
impl CompactTable {
    pub closed spec fn wf(&self) -> bool {
        &&& self.num_states > 0 && self.alphabet_size > 0
        &&& self.default@.len() == self.num_states && self.base@.len() == self.num_states
        &&& self.value@.len() == self.check@.len()
        &&& forall|s: int| 0 <= s < self.num_states ==> (#[trigger] self.base@[s]) + self.alphabet_size <= self.value@.len()
    }
    pub closed spec fn states(&self) -> u32 { self.num_states }
    pub closed spec fn alpha(&self) -> u32 { self.alphabet_size }
    /// the function the table stands for
    pub closed spec fn at(&self, s: u32, c: u32) -> u32 {
        match cell(self.base@, self.value@, self.check@, s, c) { Some(v) => v, None => self.default@[s as int] }
    }
}
impl CompactTableBuilder {
    pub closed spec fn inv(self) -> bool {
        &&& self.num_states > 0 && self.alphabet_size > 0
        &&& self.default@.len() == self.num_states && self.base@.len() == self.num_states
        &&& self.value@.len() == self.check@.len()
        &&& forall|s: int| 0 <= s < self.num_states ==> (#[trigger] self.base@[s]) + self.alphabet_size <= self.value@.len()
        &&& forall|j: int| 0 <= j < self.check@.len() ==> (#[trigger] self.check@[j]) <= self.num_states
        &&& forall|j: int| 0 <= j < self.check@.len() && (#[trigger] self.check@[j]) < self.num_states ==> self.base@[self.check@[j] as int] <= j < self.base@[self.check@[j] as int] + self.alphabet_size
    }
    pub closed spec fn states(self) -> u32 { self.num_states }
    pub closed spec fn alpha(self) -> u32 { self.alphabet_size }
    /// the entry of state s for character c
    pub closed spec fn get(self, s: u32, c: u32) -> Option<u32> { cell(self.base@, self.value@, self.check@, s, c) }
    pub closed spec fn def(self, s: u32) -> u32 { self.default@[s as int] }
    /// s has no entry yet
    pub closed spec fn unset(self, s: u32) -> bool { forall|j: int| 0 <= j < self.check@.len() ==> #[trigger] self.check@[j] != s }
    /// after at most k rows: everything from k * alpha on is free, and the arrays have not grown much
    pub closed spec fn room(self, k: int) -> bool {
        &&& k >= 0
        &&& forall|j: int| k * self.alphabet_size <= j < self.check@.len() ==> #[trigger] self.check@[j] == self.num_states
        &&& self.check@.len() <= 2 * (k + 1) * self.alphabet_size
    }
}
/// the entries stored for the first k successors
pub open spec fn stored(o: CompactTableBuilder, f: CompactTableBuilder, i: u32, b: u32, s: Seq<(u32, u32)>, k: int) -> bool {
    &&& f.num_states == o.num_states && f.alphabet_size == o.alphabet_size && f.default@ == o.default@
    &&& f.base@ == o.base@.update(i as int, b)
    &&& f.value@.len() == o.value@.len() && f.check@.len() == o.check@.len()
    &&& forall|m: int| 0 <= m < k ==> f.check@[b + (#[trigger] s[m]).0] == i && f.value@[b + s[m].0] == s[m].1
    &&& forall|j: int| 0 <= j < o.check@.len() && #[trigger] f.check@[j] != o.check@[j] ==> f.check@[j] == i && b <= j && maps_at(s, k, j - b)
    &&& forall|j: int| 0 <= j < o.check@.len() && f.check@[j] == o.check@[j] && o.check@[j] != o.num_states ==> #[trigger] f.value@[j] == o.value@[j]
}
pub open spec fn maps_at(s: Seq<(u32, u32)>, k: int, c: int) -> bool { exists|m: int| 0 <= m < k && (#[trigger] s[m]).0 == c }
pub proof fn lemma_stored(o: CompactTableBuilder, f: CompactTableBuilder, i: u32, b: u32, s: Seq<(u32, u32)>)
    requires
        o.inv(), i < o.num_states, o.unset(i), row_ok(s, o.alphabet_size), stored(o, f, i, b, s, s.len() as int),
        b + o.alphabet_size <= o.check@.len(),
        forall|k: int| 0 <= k < s.len() ==> o.check@[b + (#[trigger] s[k]).0] == o.num_states,
    ensures
        f.inv(),
        forall|c: u32, v: u32| c < o.alphabet_size ==> (#[trigger] maps(s, c, v) ==> f.get(i, c) == Some(v)),
        forall|c: u32| c < o.alphabet_size && !listed(s, c) ==> #[trigger] f.get(i, c) is None,
        forall|t: u32, c: u32| t < o.num_states && t != i && c < o.alphabet_size ==> #[trigger] f.get(t, c) == o.get(t, c),
        forall|t: u32| t < o.num_states && t != i && #[trigger] o.unset(t) ==> f.unset(t),
        forall|t: u32| t < o.num_states ==> #[trigger] f.def(t) == o.def(t),
        forall|k: int| o.room(k) && b <= k * o.alphabet_size && o.check@.len() <= 2 * (k + 2) * o.alphabet_size ==> #[trigger] f.room(k + 1),
{
    let n = o.num_states;
    let al = o.alphabet_size;
    assert forall|j: int| 0 <= j < f.check@.len() && (#[trigger] f.check@[j]) < n implies f.base@[f.check@[j] as int] <= j < f.base@[f.check@[j] as int] + al by {
        if f.check@[j] != o.check@[j] { let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == j - b; }
        else { assert(o.check@[j] != i); }
    }
    assert forall|j: int| 0 <= j < f.check@.len() implies (#[trigger] f.check@[j]) <= n by { assert(o.check@[j] <= n); }
    assert forall|t: int| 0 <= t < n implies (#[trigger] f.base@[t]) + al <= f.value@.len() by { assert(o.base@[t] + al <= o.value@.len()); }
    assert forall|c: u32, v: u32| c < al implies (#[trigger] maps(s, c, v) ==> f.get(i, c) == Some(v)) by {
        let j = b + c;
        assert(o.check@[j] != i);
        if f.check@[j] == i {
            let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == j - b;
            assert(s[m].0 == c);
            assert(f.value@[b + s[m].0] == s[m].1);
            if v == s[m].1 { assert(s[m] == (c, v)); }
            if maps(s, c, v) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == (c, v); if k < m { assert(s[k].0 != s[m].0); } if m < k { assert(s[m].0 != s[k].0); } }
        }
        if maps(s, c, v) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == (c, v); assert(f.check@[b + s[k].0] == i); assert(f.value@[b + s[k].0] == v); }
    }
    assert forall|c: u32| c < al && !listed(s, c) implies #[trigger] f.get(i, c) is None by {
        let j = b + c;
        assert(o.check@[j] != i);
        if f.check@[j] == i { let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == j - b; assert(s[m].0 == c); }
    }
    assert forall|t: u32, c: u32| t < n && t != i && c < al implies #[trigger] f.get(t, c) == o.get(t, c) by {
        assert(o.base@[t as int] + al <= o.value@.len());
        let j = o.base@[t as int] + c;
        if f.check@[j] != o.check@[j] {
            let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == j - b;
            assert(o.check@[b + s[m].0] == n);
        } else if o.check@[j] == t { assert(f.value@[j] == o.value@[j]); }
    }
    assert forall|t: u32| t < n && t != i && #[trigger] o.unset(t) implies f.unset(t) by {
        assert forall|j: int| 0 <= j < f.check@.len() implies #[trigger] f.check@[j] != t by { assert(o.check@[j] != t); }
    }
    assert forall|k: int| o.room(k) && b <= k * al && o.check@.len() <= 2 * (k + 2) * al implies #[trigger] f.room(k + 1) by {
        assert((k + 1) * al == k * al + al) by (nonlinear_arith);
        assert forall|j: int| (k + 1) * al <= j < f.check@.len() implies #[trigger] f.check@[j] == n by {
            assert(o.check@[j] == n);
            if f.check@[j] != n { let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).0 == j - b; }
        }
    }
}
/// growing the arrays changes no entry
pub open spec fn grown(o: CompactTableBuilder, f: CompactTableBuilder) -> bool {
    &&& f.num_states == o.num_states && f.alphabet_size == o.alphabet_size && f.default@ == o.default@ && f.base@ == o.base@
    &&& f.value@.len() == f.check@.len() && f.check@.len() >= o.check@.len() && o.value@.len() == o.check@.len()
    &&& forall|j: int| 0 <= j < o.check@.len() ==> #[trigger] f.check@[j] == o.check@[j]
    &&& forall|j: int| 0 <= j < o.check@.len() ==> #[trigger] f.value@[j] == o.value@[j]
    &&& forall|j: int| o.check@.len() <= j < f.check@.len() ==> #[trigger] f.check@[j] == o.num_states
}
pub proof fn lemma_grown(o: CompactTableBuilder, f: CompactTableBuilder)
    requires o.inv(), grown(o, f),
    ensures
        f.inv(),
        forall|t: u32, c: u32| t < o.num_states && c < o.alphabet_size ==> #[trigger] f.get(t, c) == o.get(t, c),
        forall|t: u32| t < o.num_states && #[trigger] o.unset(t) ==> f.unset(t),
        forall|t: u32| t < o.num_states ==> #[trigger] f.def(t) == o.def(t),
{
    let n = o.num_states;
    let al = o.alphabet_size;
    assert forall|j: int| 0 <= j < f.check@.len() implies (#[trigger] f.check@[j]) <= n by { if j < o.check@.len() { assert(o.check@[j] <= n); } }
    assert forall|j: int| 0 <= j < f.check@.len() && (#[trigger] f.check@[j]) < n implies f.base@[f.check@[j] as int] <= j < f.base@[f.check@[j] as int] + al by {
        assert(j < o.check@.len()); assert(o.check@[j] < n);
    }
    assert forall|t: int| 0 <= t < n implies (#[trigger] f.base@[t]) + al <= f.value@.len() by { assert(o.base@[t] + al <= o.value@.len()); }
    assert forall|t: u32, c: u32| t < n && c < al implies #[trigger] f.get(t, c) == o.get(t, c) by {
        assert(o.base@[t as int] + al <= o.value@.len());
        let j = o.base@[t as int] + c;
        assert(f.check@[j] == o.check@[j] && f.value@[j] == o.value@[j]);
    }
    assert forall|t: u32| t < n && #[trigger] o.unset(t) implies f.unset(t) by {
        assert forall|j: int| 0 <= j < f.check@.len() implies #[trigger] f.check@[j] != t by { if j < o.check@.len() { assert(o.check@[j] != t); } }
    }
}
@fn CompactTable::eval props=C14,C04 ret=r
    requires self.wf(), s < self.states(), c < self.alpha(),
    ensures r == self.at(s, c),
@at start
    proof { assert(self.base@[s as int] + self.alphabet_size <= self.value@.len()); }
@fn CompactTable::size props=C14 ret=r
@fn CompactTable::num_states props=C14 ret=r
    ensures r == self.states(),
@fn CompactTable::alphabet_size props=C14,C04 ret=r
    ensures r == self.alpha(),
@fn CompactTableBuilder::new props=C14 ret=r
    requires num_states > 0, alphabet_size > 0,
    ensures
        r.inv(), r.states() == num_states, r.alpha() == alphabet_size, r.room(0),
        forall|s: u32| s < num_states ==> #[trigger] r.unset(s),
@at tail
    proof { assert(2 * (0 + 1) * alphabet_size == 2 * alphabet_size) by (nonlinear_arith); }
@fn CompactTableBuilder::set_default props=C14
    requires old(self).inv(), i < old(self).states(), def < old(self).states(),
    ensures
        final(self).inv(), final(self).states() == old(self).states(), final(self).alpha() == old(self).alpha(),
        forall|t: u32, c: u32| #[trigger] final(self).get(t, c) == old(self).get(t, c),
        forall|t: u32| #[trigger] final(self).unset(t) == old(self).unset(t),
        forall|k: int| #[trigger] final(self).room(k) == old(self).room(k),
        forall|t: u32| t < old(self).states() ==> #[trigger] final(self).def(t) == (if t == i { def } else { old(self).def(t) }),
@fn CompactTableBuilder::resize props=C14
    requires old(self).value@.len() == old(self).check@.len(), new_size >= old(self).check@.len(),
    ensures grown(*old(self), *final(self)), final(self).check@.len() == new_size,
@fn CompactTableBuilder::base_conflicts props=C14 ret=r
    requires self.inv(), b + self.alphabet_size <= self.check@.len(), row_ok(successors@, self.alphabet_size),
    ensures r <==> exists|k: int| 0 <= k < successors@.len() && self.check@[b + (#[trigger] successors@[k]).0] != self.num_states,
@at start
    let ghost b0 = b;
@unfold 0 iter=it
    invariant
        self.inv(), b == b0 as usize, b0 + self.alphabet_size <= self.check@.len(), row_ok(successors@, self.alphabet_size),
        it.seq() == successors@.map_values(|p: (u32, u32)| &p),
        vany <==> exists|k: int| 0 <= k < it.index() && self.check@[b0 + (#[trigger] successors@[k]).0] != self.num_states,
@unfold-start
    let ghost k = it.index();
    proof { assert(successors@[k].0 < self.alphabet_size); }
@unfold-end
    proof { assert(c == successors@[k].0); }
@fn CompactTableBuilder::store_successors props=C14
    requires old(self).inv(), i < old(self).num_states, b + old(self).alphabet_size <= old(self).check@.len(), row_ok(successors@, old(self).alphabet_size),
        old(self).unset(i), forall|k: int| 0 <= k < successors@.len() ==> old(self).check@[b + (#[trigger] successors@[k]).0] == old(self).num_states,
    ensures stored(*old(self), *final(self), i, b, successors@, successors@.len() as int),
@loop 0 iter=it
    invariant
        old(self).inv(), i < old(self).num_states, b + old(self).alphabet_size <= old(self).check@.len(), row_ok(successors@, old(self).alphabet_size),
        old(self).unset(i), forall|k: int| 0 <= k < successors@.len() ==> old(self).check@[b + (#[trigger] successors@[k]).0] == old(self).num_states,
        it.seq() == successors@.map_values(|p: (u32, u32)| &p),
        stored(*old(self), *self, i, b, successors@, it.index()),
@replace `for (c, v) in successors` => `for vx in it: successors`
@at loop 0 start
    let (c, v) = (&vx.0, &vx.1);
    let ghost m = it.index();
    let ghost s1 = *self;
    proof { assert(*vx == successors@[m]); assert(successors@[m].0 < self.alphabet_size); assert(old(self).check@[b + successors@[m].0] == old(self).num_states); }
@at loop 0 end
    proof {
        let s = successors@;
        let o = *old(self);
        assert(k == b + s[m].0);
        assert forall|q: int| 0 <= q < m + 1 implies self.check@[b + (#[trigger] s[q]).0] == i && self.value@[b + s[q].0] == s[q].1 by {
            if q < m { assert(s[q].0 != s[m].0); assert(s1.check@[b + s[q].0] == i); assert(s1.value@[b + s[q].0] == s[q].1); }
        }
        assert forall|j: int| 0 <= j < o.check@.len() && #[trigger] self.check@[j] != o.check@[j] implies self.check@[j] == i && b <= j && maps_at(s, m + 1, j - b) by {
            if j == k { assert(s[m].0 == j - b); }
            else { assert(s1.check@[j] != o.check@[j]); let q = choose|q: int| 0 <= q < m && (#[trigger] s[q]).0 == j - b; assert(s[q].0 == j - b); }
        }
        assert forall|j: int| 0 <= j < o.check@.len() && self.check@[j] == o.check@[j] && o.check@[j] != o.num_states implies #[trigger] self.value@[j] == o.value@[j] by {
            if j == k { } else { assert(s1.value@[j] == o.value@[j]); }
        }
    }
@fn CompactTableBuilder::set_successors props=C14
    requires
        old(self).inv(), i < old(self).states(), old(self).unset(i), row_ok(successors@, old(self).alpha()),
        exists|k: int| #[trigger] old(self).room(k) && k * old(self).alpha() < 0x7fff_ffff,
    ensures
        final(self).inv(), final(self).states() == old(self).states(), final(self).alpha() == old(self).alpha(),
        forall|c: u32, v: u32| c < old(self).alpha() ==> (#[trigger] maps(successors@, c, v) ==> final(self).get(i, c) == Some(v)),
        forall|c: u32| c < old(self).alpha() && !listed(successors@, c) ==> #[trigger] final(self).get(i, c) is None,
        forall|t: u32, c: u32| t < old(self).states() && t != i && c < old(self).alpha() ==> #[trigger] final(self).get(t, c) == old(self).get(t, c),
        forall|t: u32| t < old(self).states() && t != i && #[trigger] old(self).unset(t) ==> final(self).unset(t),
        forall|t: u32| t < old(self).states() ==> #[trigger] final(self).def(t) == old(self).def(t),
        forall|k: int| old(self).room(k) ==> #[trigger] final(self).room(k + 1),
@at start
    let ghost o = *self;
    let ghost al = self.alphabet_size;
    let ghost k0 = choose|k: int| #[trigger] self.room(k) && k * self.alphabet_size < 0x7fff_ffff;
    proof {
        lemma_grown(o, o);
        assert(o.base@[i as int] + al <= o.value@.len());
        assert(k0 * al >= 0) by (nonlinear_arith) requires k0 >= 0, al >= 0;
        assert forall|k: int| #[trigger] o.room(k) implies 0 <= k * al by { assert(k * al >= 0) by (nonlinear_arith) requires k >= 0, al >= 0; }
        assert forall|k: int| #[trigger] o.room(k) implies self.check@.len() <= 2 * (k + 2) * al by { assert(2 * (k + 1) * al <= 2 * (k + 2) * al) by (nonlinear_arith) requires k >= 0, al >= 0; }
    }
@loop 0
    invariant
        o == *old(self), o.inv(), grown(o, *self), al == o.alphabet_size, self.inv(), o.room(k0), k0 * al < 0x7fff_ffff,
        row_ok(successors@, al), b + al <= self.check@.len(),
        forall|k: int| #[trigger] o.room(k) ==> b <= k * al && self.check@.len() <= 2 * (k + 2) * al,
@at loop 0 start
    let ghost s1 = *self;
    let ghost b1 = b;
    proof {
        let m = choose|m: int| 0 <= m < successors@.len() && self.check@[b + (#[trigger] successors@[m]).0] != self.num_states;
        assert(successors@[m].0 < al);
        assert forall|k: int| #[trigger] o.room(k) implies b < k * al by {
            if b >= k * al {
                let j = b + successors@[m].0;
                if j < o.check@.len() { assert(o.check@[j] == o.num_states); assert(self.check@[j] == o.check@[j]); }
                else { assert(self.check@[j] == o.num_states); }
            }
        }
    }
@at loop 0 end
    proof {
        assert forall|k: int| #[trigger] o.room(k) implies b <= k * al && self.check@.len() <= 2 * (k + 2) * al by {
            assert(b1 < k * al);
            if self.check@.len() != s1.check@.len() {
                assert(s1.check@.len() < b1 + 1 + al);
                assert(2 * (k + 2) * al == 2 * (k * al) + 4 * al) by (nonlinear_arith);
            }
        }
        lemma_grown(o, *self);
    }
@before `self.store_successors`
    let ghost s2 = *self;
    proof {
        lemma_grown(o, s2);
        assert(forall|k: int| 0 <= k < successors@.len() ==> s2.check@[b + (#[trigger] successors@[k]).0] == s2.num_states);
    }
@at end
    proof {
        lemma_stored(s2, *self, i, b, successors@);
        assert forall|t: u32, c: u32| t < o.num_states && t != i && c < al implies #[trigger] self.get(t, c) == o.get(t, c) by { assert(s2.get(t, c) == o.get(t, c)); }
        assert forall|t: u32| t < o.num_states && t != i && #[trigger] o.unset(t) implies self.unset(t) by { assert(s2.unset(t)); }
        assert forall|t: u32| t < o.num_states implies #[trigger] self.def(t) == o.def(t) by { assert(s2.def(t) == o.def(t)); }
        assert forall|k: int| o.room(k) implies #[trigger] self.room(k + 1) by {
            // s2 itself: free from k * al on
            assert forall|j: int| k * al <= j < s2.check@.len() implies #[trigger] s2.check@[j] == s2.num_states by { if j < o.check@.len() { assert(o.check@[j] == o.num_states); } }
            assert((k + 1) * al == k * al + al) by (nonlinear_arith);
            assert(2 * (k + 1 + 1) * al == 2 * (k + 2) * al) by (nonlinear_arith);
            assert forall|j: int| (k + 1) * al <= j < self.check@.len() implies #[trigger] self.check@[j] == self.num_states by {
                assert(s2.check@[j] == s2.num_states);
                if self.check@[j] != s2.check@[j] { let m = choose|m: int| 0 <= m < successors@.len() && (#[trigger] successors@[m]).0 == j - b; assert(successors@[m].0 < al); }
            }
        }
    }
@fn CompactTableBuilder::build props=C14,C04 ret=r
    requires old(self).inv(), exists|k: int| #[trigger] old(self).room(k),
    ensures
        r.wf(), r.states() == old(self).states(), r.alpha() == old(self).alpha(),
        forall|s: u32, c: u32| s < r.states() && c < r.alpha() ==> #[trigger] r.at(s, c) == (match old(self).get(s, c) { Some(v) => v, None => old(self).def(s) }),
@replace `let &max_base = self.base.iter().max().unwrap()` => `let max_base = *crate::prelude::vmax_of(&self.base)`
@replace `std::mem::take(&mut self.default)` => `crate::prelude::vtake(&mut self.default)`
@replace `std::mem::take(&mut self.base)` => `crate::prelude::vtake(&mut self.base)`
@replace `std::mem::take(&mut self.value)` => `crate::prelude::vtake(&mut self.value)`
@replace `std::mem::take(&mut self.check)` => `crate::prelude::vtake(&mut self.check)`
@at start
    proof { lemma_max_of(self.base@); let ghost s = choose|s: int| 0 <= s < self.base@.len() && #[trigger] self.base@[s] == max_of(self.base@); assert(self.base@[s] + self.alphabet_size <= self.value@.len()); }
@at tail
    proof {
        let o = *old(self);
        assert forall|s: u32, c: u32| s < r.states() && c < r.alpha() implies #[trigger] r.at(s, c) == (match o.get(s, c) { Some(v) => v, None => o.def(s) }) by {
            assert(o.base@[s as int] <= max_of(o.base@));
            assert(o.base@[s as int] + c < r.check@.len());
        }
    }
