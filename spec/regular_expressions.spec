@module regular_expressions
@source-replace `pub fn char_ranges(&self) -> impl Iterator<Item = &CharSet>` => `pub fn char_ranges(&self) -> std::slice::Iter<'_, CharSet>`
@uses
use vstd::std_specs::cmp::*;
use crate::lang::*;
use crate::bfs_queues::exact_clone;
use crate::labeled_queues::Edge;
use crate::prelude::key_ok;
use crate::automata::*;
@post-replace `type Key = BaseRegLan;` => `type Key = BaseRegLan;
    open spec fn made(i: nat, k: BaseRegLan, t: RE) -> bool { t.expr == k && t.id == i && wf(t) }
    open spec fn makeable(i: nat, k: BaseRegLan) -> bool { below(k, i) && kwf(k) }`
@inherent DerivativeIterator as Iterator
@items
// equality of terms is equality of ids; derived equality of the expressions
impl PartialEqSpecImpl for RE {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &RE) -> bool { self.id == other.id }
}
impl PartialOrdSpecImpl for RE {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &RE) -> Option<core::cmp::Ordering> { PartialOrdSpec::partial_cmp_spec(&self.id, &other.id) }
}
impl OrdSpecImpl for RE {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &RE) -> core::cmp::Ordering { OrdSpec::cmp_spec(&self.id, &other.id) }
}
pub open spec fn same_ids(a: Seq<&RE>, b: Seq<&RE>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).id == (#[trigger] b[i]).id
}
impl PartialEqSpecImpl for BaseRegLan {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &BaseRegLan) -> bool {
        match (*self, *other) {
            (BaseRegLan::Empty, BaseRegLan::Empty) => true,
            (BaseRegLan::Epsilon, BaseRegLan::Epsilon) => true,
            (BaseRegLan::Range(a), BaseRegLan::Range(b)) => a == b,
            (BaseRegLan::Concat(a, b), BaseRegLan::Concat(c, d)) => a.id == c.id && b.id == d.id,
            (BaseRegLan::Loop(a, r), BaseRegLan::Loop(b, s)) => a.id == b.id && r == s,
            (BaseRegLan::Complement(a), BaseRegLan::Complement(b)) => a.id == b.id,
            (BaseRegLan::Union(a), BaseRegLan::Union(b)) => same_ids(a@, b@),
            (BaseRegLan::Inter(a), BaseRegLan::Inter(b)) => same_ids(a@, b@),
            _ => false,
        }
    }
}
impl PartialEqSpecImpl for DerivKey {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &DerivKey) -> bool { self.0.id == other.0.id && self.1 == other.1 }
}

// denotation (SMT-LIB semantics of the term structure) -----------------------
/// language of expression k all of whose subterms have ids below n
pub open spec fn den_of(k: BaseRegLan, n: nat) -> Lang
    decreases n, 0nat
{
    match k {
        BaseRegLan::Empty => l_none(),
        BaseRegLan::Epsilon => l_eps(),
        BaseRegLan::Range(c) => l_range(c.start, c.end),
        BaseRegLan::Concat(a, b) => if a.id < n && b.id < n { l_cat(den(*a), den(*b)) } else { l_none() },
        BaseRegLan::Loop(a, r) => if a.id < n { l_loop(den(*a), |i: nat| r.has(i)) } else { l_none() },
        BaseRegLan::Complement(a) => if a.id < n { l_comp(den(*a)) } else { l_none() },
        BaseRegLan::Union(v) => |w: Seq<u32>| exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).id < n && den(*v@[i])(w),
        BaseRegLan::Inter(v) => |w: Seq<u32>| good_word(w) && forall|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).id < n ==> den(*v@[i])(w),
    }
}
/// std: derived Clone of an expression copies it
#[verifier::external_body]
pub fn clone_expr(k: &BaseRegLan) -> (r: BaseRegLan)
    ensures r == *k,
{ k.clone() }
/// language of a term
pub open spec fn den(e: RE) -> Lang
    decreases e.id as nat, 1nat
{
    den_of(e.expr, e.id as nat)
}
pub open spec fn uni(v: Seq<&RE>) -> Lang { |w: Seq<u32>| exists|i: int| 0 <= i < v.len() && den(*(#[trigger] v[i]))(w) }
pub open spec fn int(v: Seq<&RE>) -> Lang { |w: Seq<u32>| good_word(w) && forall|i: int| 0 <= i < v.len() ==> den(*(#[trigger] v[i]))(w) }
pub open spec fn kden(k: BaseRegLan) -> Lang {
    match k {
        BaseRegLan::Empty => l_none(),
        BaseRegLan::Epsilon => l_eps(),
        BaseRegLan::Range(c) => l_range(c.start, c.end),
        BaseRegLan::Concat(a, b) => l_cat(den(*a), den(*b)),
        BaseRegLan::Loop(a, r) => l_loop(den(*a), |i: nat| r.has(i)),
        BaseRegLan::Complement(a) => l_comp(den(*a)),
        BaseRegLan::Union(v) => uni(v@),
        BaseRegLan::Inter(v) => int(v@),
    }
}
// well-formed terms ------------------------------------------------------------
pub open spec fn range_set(r: LoopRange) -> spec_fn(nat) -> bool { |i: nat| r.has(i) }
/// every class of p is uniform for the language a: its characters have the same left quotient
pub open spec fn uniform(p: CharPartition, a: Lang) -> bool {
    forall|x: u32, y: u32| #![trigger l_quot(a, x), l_quot(a, y)] x <= MAX_CHAR && y <= MAX_CHAR && p.same(x, y) ==> l_quot(a, x) == l_quot(a, y)
}
pub open spec fn good_node(e: RE) -> bool {
    &&& e.nullable == den(e)(eps())
    &&& e.deriv_class.wf()
    &&& uniform(*e.deriv_class, den(e))
}
pub open spec fn wf(e: RE) -> bool
    decreases e.id
{
    &&& good_node(e)
    &&& match e.expr {
        BaseRegLan::Empty => true,
        BaseRegLan::Epsilon => true,
        BaseRegLan::Range(c) => c.wf(),
        BaseRegLan::Concat(a, b) => a.id < e.id && wf(*a) && b.id < e.id && wf(*b),
        BaseRegLan::Loop(a, r) => a.id < e.id && wf(*a) && r.wf() && !r.zero(),
        BaseRegLan::Complement(a) => a.id < e.id && wf(*a),
        BaseRegLan::Union(v) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).id < e.id && wf(*v@[i]),
        BaseRegLan::Inter(v) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).id < e.id && wf(*v@[i]),
    }
}
pub open spec fn wf_all(v: Seq<&RE>) -> bool { forall|i: int| 0 <= i < v.len() ==> wf(*(#[trigger] v[i])) }
pub open spec fn kwf(k: BaseRegLan) -> bool {
    match k {
        BaseRegLan::Empty => true,
        BaseRegLan::Epsilon => true,
        BaseRegLan::Range(c) => c.wf(),
        BaseRegLan::Concat(a, b) => wf(*a) && wf(*b),
        BaseRegLan::Loop(a, r) => wf(*a) && r.wf() && !r.zero(),
        BaseRegLan::Complement(a) => wf(*a),
        BaseRegLan::Union(v) => wf_all(v@),
        BaseRegLan::Inter(v) => wf_all(v@),
    }
}
/// ids of the subterms are smaller than n
pub open spec fn below(k: BaseRegLan, n: nat) -> bool {
    match k {
        BaseRegLan::Concat(a, b) => a.id < n && b.id < n,
        BaseRegLan::Loop(a, r) => a.id < n,
        BaseRegLan::Complement(a) => a.id < n,
        BaseRegLan::Union(v) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).id < n,
        BaseRegLan::Inter(v) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).id < n,
        _ => true,
    }
}
pub proof fn lemma_den_of(k: BaseRegLan, n: nat)
    requires below(k, n),
    ensures den_of(k, n) == kden(k),
{
    match k {
        BaseRegLan::Union(v) => {
            assert forall|w: Seq<u32>| #[trigger] den_of(k, n)(w) == kden(k)(w) by {
                if den_of(k, n)(w) { let i = choose|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).id < n && den(*v@[i])(w); assert(den(*v@[i])(w)); }
                if uni(v@)(w) { let i = choose|i: int| 0 <= i < v@.len() && den(*(#[trigger] v@[i]))(w); assert(v@[i].id < n); }
            }
            assert(den_of(k, n) =~= kden(k));
        },
        BaseRegLan::Inter(v) => {
            assert forall|w: Seq<u32>| #[trigger] den_of(k, n)(w) == kden(k)(w) by { }
            assert(den_of(k, n) =~= kden(k));
        },
        _ => {},
    }
}
/// the structure of a well-formed term
pub proof fn lemma_wf(e: RE)
    requires wf(e),
    ensures kwf(e.expr), below(e.expr, e.id as nat), den(e) == kden(e.expr), good_node(e),
{
    lemma_den_of_below(e);
    lemma_den_of(e.expr, e.id as nat);
}
pub proof fn lemma_den_of_below(e: RE)
    requires wf(e),
    ensures kwf(e.expr), below(e.expr, e.id as nat),
{
}
pub proof fn lemma_wf_intro(e: RE)
    requires kwf(e.expr), below(e.expr, e.id as nat), e.nullable == kden(e.expr)(eps()), e.deriv_class.wf(), uniform(*e.deriv_class, kden(e.expr)),
    ensures wf(e), den(e) == kden(e.expr),
{
    lemma_den_of(e.expr, e.id as nat);
}
/// languages of well-formed terms contain SMT-LIB strings only
pub proof fn lemma_good(e: RE)
    requires wf(e),
    ensures good_lang(den(e)),
    decreases e.id,
{
    lemma_wf(e);
    match e.expr {
        BaseRegLan::Concat(a, b) => { lemma_good(*a); lemma_good(*b); lemma_cat_good(den(*a), den(*b)); },
        BaseRegLan::Loop(a, r) => { lemma_good(*a); lemma_loop_good(den(*a), |i: nat| r.has(i)); },
        BaseRegLan::Range(c) => { assert(c.wf()); },
        BaseRegLan::Union(v) => {
            assert forall|w: Seq<u32>| #[trigger] den(e)(w) implies good_word(w) by {
                let i = choose|i: int| 0 <= i < v@.len() && den(*(#[trigger] v@[i]))(w);
                assert(wf(*v@[i]));
                lemma_good(*v@[i]);
            }
        },
        _ => {},
    }
}
/// node facts of the immediate subterms
pub proof fn lemma_kids(k: BaseRegLan)
    requires kwf(k),
    ensures
        match k {
            BaseRegLan::Concat(a, b) => good_node(*a) && good_node(*b),
            BaseRegLan::Loop(a, r) => good_node(*a),
            BaseRegLan::Complement(a) => good_node(*a),
            _ => true,
        },
{
}
pub proof fn lemma_uniform(e: RE, x: u32, y: u32, w: Seq<u32>)
    requires wf(e), x <= MAX_CHAR, y <= MAX_CHAR, e.deriv_class.same(x, y),
    ensures den(e)(seq![x] + w) == den(e)(seq![y] + w),
{
    assert(l_quot(den(e), x) == l_quot(den(e), y));
    assert(l_quot(den(e), x)(w) == l_quot(den(e), y)(w));
}
/// left quotient of a loop
pub proof fn lemma_quot_range_loop(a: Lang, r: LoopRange, c: u32)
    requires r.wf(), !r.zero(),
    ensures l_quot(l_loop(a, range_set(r)), c) == l_cat(l_quot(a, c), l_loop(a, |n: nat| exists|m: nat| #[trigger] r.has(m) && n == pred(m))),
{
    let s = |n: nat| exists|m: nat| #[trigger] r.has(m) && n == pred(m);
    let rs = range_set(r);
    assert forall|n: nat| #[trigger] s(n) <==> exists|m: nat| #[trigger] rs(m) && n == (if m == 0 { 0nat } else { (m - 1) as nat }) by {
        if s(n) { let m = choose|m: nat| #[trigger] r.has(m) && n == pred(m); assert(rs(m)); }
        if exists|m: nat| #[trigger] rs(m) && n == (if m == 0 { 0nat } else { (m - 1) as nat }) {
            let m = choose|m: nat| #[trigger] rs(m) && n == (if m == 0 { 0nat } else { (m - 1) as nat }); assert(r.has(m)); }
    }
    lemma_quot_loop(a, rs, s, c);
}

// the term table ------------------------------------------------------------------
/// items an argument of type `impl IntoIterator` yields
pub uninterp spec fn elements<T, I>(a: I) -> Seq<T>;
/// std: IntoIterator of Vec yields the elements in order
pub broadcast axiom fn axiom_elements_vec<T>(a: Vec<T>)
    ensures #[trigger] elements::<T, Vec<T>>(a) == a@;
#[verifier::external_body]
pub fn vseq<T, I: IntoIterator<Item = T>>(a: I) -> (r: Vec<T>)
    ensures r@ == elements::<T, I>(a),
{ a.into_iter().collect() }

impl ReManager {
    /// e is a term of this manager
    pub open spec fn owns(self, e: RE) -> bool { e.id < self.id2re@.len() && *self.id2re@[e.id as int] == e }
    pub open spec fn owns_all(self, v: Seq<&RE>) -> bool { forall|i: int| 0 <= i < v.len() ==> self.owns(*(#[trigger] v[i])) }
    pub open spec fn owns_kids(self, k: BaseRegLan) -> bool {
        match k {
            BaseRegLan::Concat(a, b) => self.owns(*a) && self.owns(*b),
            BaseRegLan::Loop(a, r) => self.owns(*a),
            BaseRegLan::Complement(a) => self.owns(*a),
            BaseRegLan::Union(v) => self.owns_all(v@),
            BaseRegLan::Inter(v) => self.owns_all(v@),
            _ => true,
        }
    }
    pub open spec fn term_ok(self, i: int) -> bool {
        let e = self.id2re@[i];
        e.id == i && wf(*e) && self.owns_kids(e.expr) && self.store.map@.contains_key(e.expr) && self.store.map@[e.expr] == e
    }
    /// terms 2j and 2j+1 are complementary
    pub open spec fn pair_ok(self, i: int) -> bool {
        &&& den(*self.id2re@[i + 1]) == l_comp(den(*self.id2re@[i]))
        &&& i >= 6 ==> !(self.id2re@[i].expr is Complement) && self.id2re@[i + 1].expr == BaseRegLan::Complement(self.id2re@[i])
    }
    pub open spec fn table_ok(self) -> bool {
        let n = self.id2re@.len();
        &&& self.store.counter == n && n % 2 == 0 && n >= 6
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.term_ok(i)
        &&& forall|i: int| 0 <= i < n && i % 2 == 0 ==> #[trigger] self.pair_ok(i)
        &&& forall|k: BaseRegLan| #[trigger] self.store.map@.contains_key(k) ==> self.owns(*self.store.map@[k]) && self.store.map@[k].expr == k
    }
    pub open spec fn first_ok(self) -> bool {
        &&& self.sigma == self.id2re@[0] && self.sigma.expr == BaseRegLan::Range(CharSet { start: 0, end: MAX_CHAR })
        &&& self.id2re@[1].expr is Complement
        &&& self.empty == self.id2re@[2] && self.empty.expr is Empty
        &&& self.sigma_star == self.id2re@[3] && self.sigma_star.expr == BaseRegLan::Loop(self.sigma, LoopRange(0, None))
        &&& self.epsilon == self.id2re@[4] && self.epsilon.expr is Epsilon
        &&& self.sigma_plus == self.id2re@[5] && self.sigma_plus.expr == BaseRegLan::Loop(self.sigma, LoopRange(1, None))
        &&& den(*self.sigma_star) == l_all() && den(*self.empty) == l_none() && den(*self.epsilon) == l_eps() && den(*self.sigma_plus) == l_comp(l_eps())
        &&& den(*self.sigma) == l_range(0, MAX_CHAR)
    }
    /// a cached derivative is the quotient for every character of the class
    pub open spec fn entry_ok(self, k: DerivKey, r: RegLan) -> bool {
        &&& self.owns(*k.0) && self.owns(*r)
        &&& k.0.deriv_class.valid(k.1)
        &&& forall|c: u32| #[trigger] k.0.deriv_class.in_class(k.1, c) ==> den(*r) == l_quot(den(*k.0), c)
    }
    pub open spec fn cache_ok(self) -> bool {
        forall|k: DerivKey| #[trigger] self.deriv_cache@.contains_key(k) ==> self.entry_ok(k, self.deriv_cache@[k])
    }
    pub open spec fn inv(self) -> bool { self.table_ok() && self.first_ok() && self.cache_ok() }
    /// terms are never removed or renumbered
    pub open spec fn le(self, o: ReManager) -> bool {
        &&& self.id2re@.len() <= o.id2re@.len()
        &&& forall|i: int| 0 <= i < self.id2re@.len() ==> #[trigger] o.id2re@[i] == self.id2re@[i]
    }
    /// same term table, whatever the derivative cache
    pub open spec fn same_terms(self, o: ReManager) -> bool {
        &&& self.id2re@ == o.id2re@ && self.store == o.store
        &&& self.sigma == o.sigma && self.empty == o.empty && self.sigma_star == o.sigma_star && self.epsilon == o.epsilon && self.sigma_plus == o.sigma_plus
    }
    pub proof fn lemma_owned(self, e: RE)
        requires self.inv(), self.owns(e),
        ensures
            wf(e), good_node(e), kwf(e.expr), below(e.expr, e.id as nat), den(e) == kden(e.expr), good_lang(den(e)),
            self.owns_kids(e.expr), self.store.map@.contains_key(e.expr), *self.store.map@[e.expr] == e,
    {
        assert(self.term_ok(e.id as int));
        lemma_wf(e);
        lemma_good(e);
    }
    pub proof fn lemma_owned_good(self, e: RE)
        requires self.inv(), self.owns(e),
        ensures good_lang(den(e)), good_node(e),
    {
        self.lemma_owned(e);
    }
    pub proof fn lemma_first(self)
        requires self.inv(),
        ensures self.owns(*self.sigma), self.owns(*self.empty), self.owns(*self.sigma_star), self.owns(*self.epsilon), self.owns(*self.sigma_plus),
            self.sigma.id == 0 && self.empty.id == 2 && self.sigma_star.id == 3 && self.epsilon.id == 4 && self.sigma_plus.id == 5,
            den(*self.sigma_star) == l_all(), den(*self.empty) == l_none(), den(*self.epsilon) == l_eps(), den(*self.sigma_plus) == l_comp(l_eps()),
            den(*self.sigma) == l_range(0, MAX_CHAR),
    {
        assert(self.term_ok(0) && self.term_ok(2) && self.term_ok(3) && self.term_ok(4) && self.term_ok(5));
    }
    pub proof fn lemma_all_owned(self, v: Seq<&RE>)
        requires self.inv(), self.owns_all(v),
        ensures wf_all(v),
    {
        assert forall|i: int| 0 <= i < v.len() implies wf(*(#[trigger] v[i])) by { self.lemma_owned(*v[i]); }
    }
    pub proof fn lemma_same_owned(self, a: Seq<&RE>, b: Seq<&RE>)
        requires self.owns_all(b), forall|x: &RE| a.contains(x) == #[trigger] b.contains(x),
        ensures self.owns_all(a),
    {
        assert forall|i: int| 0 <= i < a.len() implies self.owns(*(#[trigger] a[i])) by { assert(a.contains(a[i])); assert(b.contains(a[i])); let j = b.index_of(a[i]); assert(self.owns(*b[j])); }
    }
    pub proof fn lemma_dedup(self, v: Seq<&RE>, d: Seq<&RE>)
        requires self.owns_all(v),
            forall|i: int| 0 <= i < d.len() ==> v.contains(#[trigger] d[i]),
            forall|i: int| 0 <= i < v.len() ==> crate::prelude::has_equal(d, #[trigger] v[i]),
        ensures forall|x: &RE| d.contains(x) == #[trigger] v.contains(x),
    {
        assert forall|x: &RE| d.contains(x) == #[trigger] v.contains(x) by {
            if d.contains(x) { let j = d.index_of(x); assert(v.contains(d[j])); }
            if v.contains(x) {
                let i = v.index_of(x);
                assert(self.owns(*v[i]));
                let j = choose|j: int| 0 <= j < d.len() && PartialEqSpec::eq_spec(&(#[trigger] d[j]), &v[i]);
                assert(v.contains(d[j]));
                let k = v.index_of(d[j]);
                assert(self.owns(*v[k]));
                assert(d[j] == x);
            }
        }
    }
    /// subterms of two terms of a manager are terms of the manager
    pub proof fn lemma_together(self, r: RE, s: RE)
        requires self.inv(), self.owns(r), self.owns(s),
        ensures
            together(r, s), together(s, r), kids_together(r, s),
            r.id == s.id ==> r == s,
    {
        self.lemma_owned(r);
        self.lemma_owned(s);
        match (r.expr, s.expr) { (BaseRegLan::Complement(a), BaseRegLan::Complement(b)) => { assert(self.owns(*b) && self.owns(*a)); }, _ => {} }
        match s.expr {
            BaseRegLan::Union(v) => { assert forall|i: int| 0 <= i < v@.len() implies together(r, *(#[trigger] v@[i])) by { assert(self.owns(r) && self.owns(*v@[i])); } },
            BaseRegLan::Inter(v) => { assert forall|i: int| 0 <= i < v@.len() implies together(r, *(#[trigger] v@[i])) by { assert(self.owns(r) && self.owns(*v@[i])); } },
            _ => {},
        }
        match r.expr {
            BaseRegLan::Union(v) => { assert forall|i: int| 0 <= i < v@.len() implies together(*(#[trigger] v@[i]), s) by { assert(self.owns(s) && self.owns(*v@[i])); } },
            BaseRegLan::Inter(v) => { assert forall|i: int| 0 <= i < v@.len() implies together(*(#[trigger] v@[i]), s) by { assert(self.owns(s) && self.owns(*v@[i])); } },
            _ => {},
        }
    }
    /// expressions with owned subterms are equal as soon as the ids agree
    pub proof fn lemma_key_eq(self, j: BaseRegLan, k: BaseRegLan)
        requires self.owns_kids(j), self.owns_kids(k), PartialEqSpec::eq_spec(&j, &k),
        ensures j == k,
    {
        match (j, k) {
            (BaseRegLan::Union(a), BaseRegLan::Union(b)) => { self.lemma_list_eq(a@, b@); assert(a =~= b); },
            (BaseRegLan::Inter(a), BaseRegLan::Inter(b)) => { self.lemma_list_eq(a@, b@); assert(a =~= b); },
            _ => {},
        }
    }
    pub proof fn lemma_list_eq(self, a: Seq<&RE>, b: Seq<&RE>)
        requires self.owns_all(a), self.owns_all(b), same_ids(a, b),
        ensures a == b,
    {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(self.owns(*a[i]) && self.owns(*b[i])); }
        assert(a =~= b);
    }
    pub proof fn lemma_key_ok(self, k: BaseRegLan)
        requires self.inv(), self.owns_kids(k),
        ensures key_ok(self.store.map@, k),
    {
        assert forall|j: BaseRegLan| #[trigger] self.store.map@.contains_key(j) && PartialEqSpec::eq_spec(&j, &k) implies j == k by {
            let e = self.store.map@[j];
            assert(self.owns(*e));
            self.lemma_owned(*e);
            self.lemma_key_eq(j, k);
        }
    }
    /// the key of the complement of a new term is new
    pub proof fn lemma_new_complement(self, k: BaseRegLan, x: RegLan, map: Map<BaseRegLan, RegLan>)
        requires self.inv(), x.id >= self.id2re@.len(), !(k is Complement), map == self.store.map@.insert(k, x),
        ensures key_ok(map, BaseRegLan::Complement(x)), !map.contains_key(BaseRegLan::Complement(x)),
    {
        let c = BaseRegLan::Complement(x);
        assert forall|j: BaseRegLan| #[trigger] map.contains_key(j) && PartialEqSpec::eq_spec(&j, &c) implies j == c by {
            if j != k { let e = self.store.map@[j]; assert(self.store.map@.contains_key(j)); assert(self.owns(*e)); self.lemma_owned(*e); }
        }
        if map.contains_key(c) { let e = self.store.map@[c]; assert(self.store.map@.contains_key(c)); assert(self.owns(*e)); self.lemma_owned(*e); }
    }
    /// adding a new term and its complement keeps the invariant
    pub proof fn lemma_extend(self, o: ReManager, k: BaseRegLan, x: RegLan, y: RegLan)
        requires
            self.inv(), self.owns_kids(k), !(k is Complement), !self.store.map@.contains_key(k),
            x.expr == k, x.id == self.id2re@.len(), wf(*x),
            y.expr == BaseRegLan::Complement(x), y.id == self.id2re@.len() + 1, wf(*y),
            o.id2re@ == self.id2re@.push(x).push(y),
            o.store.map@ == self.store.map@.insert(k, x).insert(y.expr, y),
            o.store.counter == self.store.counter + 2,
            o.sigma == self.sigma, o.empty == self.empty, o.sigma_star == self.sigma_star, o.epsilon == self.epsilon, o.sigma_plus == self.sigma_plus,
            o.deriv_cache == self.deriv_cache,
        ensures o.inv(), self.le(o), o.owns(*x), o.owns(*y),
    {
        let n = self.id2re@.len();
        assert(self.le(o));
        assert(o.id2re@[n as int] == x && o.id2re@[n as int + 1] == y);
        self.lemma_new_complement(k, x, self.store.map@.insert(k, x));
        lemma_wf(*y);
        assert forall|e: RE| self.owns(e) implies #[trigger] o.owns(e) by { assert(o.id2re@[e.id as int] == self.id2re@[e.id as int]); }
        self.lemma_mono(o, k);
        assert forall|i: int| 0 <= i < n + 2 implies #[trigger] o.term_ok(i) by {
            if i < n {
                assert(self.term_ok(i));
                assert(o.id2re@[i] == self.id2re@[i]);
                let e = self.id2re@[i];
                self.lemma_mono(o, e.expr);
                assert(e.expr != k);
                assert(e.expr != y.expr) by { if e.expr == y.expr { assert(self.owns_kids(e.expr)); assert(self.owns(*x)); } }
            } else if i == n {
                assert(x.expr != y.expr);
            }
        }
        assert forall|i: int| 0 <= i < n + 2 && i % 2 == 0 implies #[trigger] o.pair_ok(i) by {
            if i < n { assert(self.pair_ok(i)); assert(o.id2re@[i] == self.id2re@[i]); assert(o.id2re@[i + 1] == self.id2re@[i + 1]); }
        }
        assert forall|j: BaseRegLan| #[trigger] o.store.map@.contains_key(j) implies o.owns(*o.store.map@[j]) && o.store.map@[j].expr == j by {
            if j != k && j != y.expr { assert(self.store.map@.contains_key(j)); assert(self.owns(*self.store.map@[j])); }
        }
        assert forall|j: DerivKey| #[trigger] o.deriv_cache@.contains_key(j) implies o.entry_ok(j, o.deriv_cache@[j]) by {
            assert(self.entry_ok(j, self.deriv_cache@[j]));
            assert(self.owns(*j.0));
        }
    }
    /// the invariant depends on the contents of the tables only
    pub proof fn lemma_same(self, o: ReManager)
        requires
            self.inv(), o.id2re@ == self.id2re@, o.store.map@ == self.store.map@, o.store.counter == self.store.counter,
            o.sigma == self.sigma, o.empty == self.empty, o.sigma_star == self.sigma_star, o.epsilon == self.epsilon, o.sigma_plus == self.sigma_plus,
            o.deriv_cache == self.deriv_cache,
        ensures o.inv(), self.le(o),
    {
        let n = self.id2re@.len();
        assert forall|i: int| 0 <= i < n implies #[trigger] o.term_ok(i) by { assert(self.term_ok(i)); self.lemma_mono(o, self.id2re@[i].expr); }
        assert forall|i: int| 0 <= i < n && i % 2 == 0 implies #[trigger] o.pair_ok(i) by { assert(self.pair_ok(i)); }
        assert forall|j: BaseRegLan| #[trigger] o.store.map@.contains_key(j) implies o.owns(*o.store.map@[j]) && o.store.map@[j].expr == j by {
            assert(self.store.map@.contains_key(j)); assert(self.owns(*self.store.map@[j]));
        }
        assert forall|j: DerivKey| #[trigger] o.deriv_cache@.contains_key(j) implies o.entry_ok(j, o.deriv_cache@[j]) by { assert(self.entry_ok(j, self.deriv_cache@[j])); }
    }
    pub proof fn lemma_mono(self, o: ReManager, k: BaseRegLan)
        requires self.le(o), self.owns_kids(k),
        ensures o.owns_kids(k),
    {
        assert forall|e: RE| self.owns(e) implies #[trigger] o.owns(e) by { assert(o.id2re@[e.id as int] == self.id2re@[e.id as int]); }
    }
}
/// language of the concatenation of a list
pub open spec fn catl(v: Seq<&RE>) -> Lang
    decreases v.len()
{
    if v.len() == 0 { l_eps() } else { l_cat(catl(v.drop_last()), den(*v.last())) }
}
pub proof fn lemma_catl_push(v: Seq<&RE>, e: &RE)
    ensures catl(v.push(e)) == l_cat(catl(v), den(*e)),
{
    assert(v.push(e).drop_last() =~= v);
}
pub proof fn lemma_uni_push(v: Seq<&RE>, e: &RE)
    ensures uni(v.push(e)) == l_or(uni(v), den(*e)),
{
    let p = v.push(e);
    assert forall|w: Seq<u32>| #[trigger] uni(p)(w) == l_or(uni(v), den(*e))(w) by {
        if uni(p)(w) { let i = choose|i: int| 0 <= i < p.len() && den(*(#[trigger] p[i]))(w); if i < v.len() { assert(den(*v[i])(w)); } }
        if uni(v)(w) { let i = choose|i: int| 0 <= i < v.len() && den(*(#[trigger] v[i]))(w); assert(den(*p[i])(w)); }
        if den(*e)(w) { assert(den(*p[v.len() as int])(w)); }
    }
    assert(uni(p) =~= l_or(uni(v), den(*e)));
}
pub proof fn lemma_int_push(v: Seq<&RE>, e: &RE)
    ensures int(v.push(e)) == l_and(int(v), den(*e)),
{
    let p = v.push(e);
    assert forall|w: Seq<u32>| #[trigger] int(p)(w) == l_and(int(v), den(*e))(w) by {
        if int(p)(w) {
            assert forall|i: int| 0 <= i < v.len() implies den(*(#[trigger] v[i]))(w) by { assert(den(*p[i])(w)); }
            assert(den(*p[v.len() as int])(w));
        }
        if l_and(int(v), den(*e))(w) { assert forall|i: int| 0 <= i < p.len() implies den(*(#[trigger] p[i]))(w) by { if i < v.len() { assert(den(*v[i])(w)); } } }
    }
    assert(int(p) =~= l_and(int(v), den(*e)));
}
/// what flattening keeps: every manager that owns e and v owns w
pub open spec fn owned_with(v: Seq<&RE>, e: RE, w: Seq<&RE>) -> bool {
    forall|m: ReManager| m.inv() && #[trigger] m.owns(e) && m.owns_all(v) ==> m.owns_all(w)
}
/// every term of a has the language l or occurs in b
pub open spec fn but_for(a: Seq<&RE>, b: Seq<&RE>, l: Lang) -> bool {
    forall|i: int| 0 <= i < a.len() ==> den(*(#[trigger] a[i])) == l || b.contains(a[i])
}
pub proof fn lemma_uni_sub(a: Seq<&RE>, b: Seq<&RE>)
    requires but_for(a, b, l_none()),
    ensures l_sub(uni(a), uni(b)),
{
    assert forall|w: Seq<u32>| #[trigger] uni(a)(w) implies uni(b)(w) by {
        let i = choose|i: int| 0 <= i < a.len() && den(*(#[trigger] a[i]))(w);
        assert(b.contains(a[i]));
        let j = b.index_of(a[i]);
        assert(den(*b[j])(w));
    }
}
pub proof fn lemma_int_sub(a: Seq<&RE>, b: Seq<&RE>)
    requires but_for(a, b, l_all()),
    ensures l_sub(int(b), int(a)),
{
    assert forall|w: Seq<u32>| #[trigger] int(b)(w) implies int(a)(w) by {
        assert forall|i: int| 0 <= i < a.len() implies den(*(#[trigger] a[i]))(w) by {
            if b.contains(a[i]) { let j = b.index_of(a[i]); assert(den(*b[j])(w)); }
        }
    }
}
/// lists with the same terms
pub proof fn lemma_same_elems(a: Seq<&RE>, b: Seq<&RE>)
    requires forall|x: &RE| a.contains(x) == #[trigger] b.contains(x),
    ensures uni(a) == uni(b), int(a) == int(b),
{
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a.contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); }
    lemma_uni_sub(a, b); lemma_uni_sub(b, a);
    lemma_int_sub(a, b); lemma_int_sub(b, a);
    lemma_sub_antisym(uni(a), uni(b)); lemma_sub_antisym(int(a), int(b));
}
/// a list with a term of language everything (or nothing)
pub proof fn lemma_top(a: Seq<&RE>, i: int)
    requires wf_all(a), 0 <= i < a.len(),
    ensures den(*a[i]) == l_all() ==> uni(a) == l_all(), den(*a[i]) == l_none() ==> int(a) == l_none(),
{
    lemma_all_good(a);
    if den(*a[i]) == l_all() {
        assert forall|w: Seq<u32>| #[trigger] uni(a)(w) == l_all()(w) by { if good_word(w) { assert(den(*a[i])(w)); } }
        assert(uni(a) =~= l_all());
    }
    if den(*a[i]) == l_none() {
        assert forall|w: Seq<u32>| !#[trigger] int(a)(w) by { if int(a)(w) { assert(den(*a[i])(w)); } }
        assert(int(a) =~= l_none());
    }
}
pub proof fn lemma_all_good(a: Seq<&RE>)
    requires wf_all(a),
    ensures good_lang(uni(a)), good_lang(int(a)), forall|i: int| 0 <= i < a.len() ==> good_lang(den(*(#[trigger] a[i]))),
{
    assert forall|i: int| 0 <= i < a.len() implies good_lang(den(*(#[trigger] a[i]))) by { lemma_good(*a[i]); }
}
/// a list with a term and its complement
pub proof fn lemma_opposite(a: Seq<&RE>, i: int, j: int)
    requires wf_all(a), 0 <= i < a.len(), 0 <= j < a.len(), den(*a[j]) == l_comp(den(*a[i])),
    ensures uni(a) == l_all(), int(a) == l_none(),
{
    lemma_all_good(a);
    assert forall|w: Seq<u32>| #[trigger] uni(a)(w) == l_all()(w) by { if good_word(w) { assert(den(*a[i])(w) || den(*a[j])(w)); } }
    assert(uni(a) =~= l_all());
    assert forall|w: Seq<u32>| !#[trigger] int(a)(w) by { if int(a)(w) { assert(den(*a[i])(w) && den(*a[j])(w)); } }
    assert(int(a) =~= l_none());
}
pub proof fn lemma_single(e: &RE)
    requires wf(*e),
    ensures uni(seq![e]) == den(*e), int(seq![e]) == den(*e),
{
    let a = seq![e];
    lemma_good(*e);
    assert forall|w: Seq<u32>| #[trigger] uni(a)(w) == den(*e)(w) by { if den(*e)(w) { assert(den(*a[0])(w)); } }
    assert forall|w: Seq<u32>| #[trigger] int(a)(w) == den(*e)(w) by { if int(a)(w) { assert(den(*a[0])(w)); } }
    assert(uni(a) =~= den(*e)); assert(int(a) =~= den(*e));
}
pub open spec fn owned_list(a: Seq<&RE>, b: RE, c: RE) -> bool { exists|m: ReManager| #[trigger] m.inv() && m.owns_all(a) && m.owns(b) && m.owns(c) }
/// what removing neutral terms from a list must give
pub open spec fn simplified(a: Seq<&RE>, b: Seq<&RE>, bottom: RE, top: &RE) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]) || b[i] == top
    &&& den(bottom) == l_none() && den(*top) == l_all() ==> uni(b) == uni(a)
    &&& den(bottom) == l_all() && den(*top) == l_none() ==> int(b) == int(a)
}
pub proof fn lemma_simplified_top(a: Seq<&RE>, b: Seq<&RE>, bottom: RE, top: &RE, i: int, j: int)
    requires wf_all(a), wf(*top), b == seq![top], 0 <= i < a.len(), 0 <= j < a.len(), a[i] == top || den(*a[j]) == l_comp(den(*a[i])),
    ensures simplified(a, b, bottom, top),
{
    lemma_single(top);
    if a[i] == top { lemma_top(a, i); } else { lemma_opposite(a, i, j); }
}
pub proof fn lemma_simplified_sub(a: Seq<&RE>, b: Seq<&RE>, bottom: RE, top: &RE)
    requires forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]), forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]) == bottom || b.contains(a[i]),
    ensures simplified(a, b, bottom, top),
{
    if den(bottom) == l_none() { lemma_uni_sub(a, b); lemma_uni_sub(b, a); lemma_sub_antisym(uni(a), uni(b)); }
    if den(bottom) == l_all() { lemma_int_sub(a, b); lemma_int_sub(b, a); lemma_sub_antisym(int(a), int(b)); }
}
pub proof fn lemma_simplified_via(a: Seq<&RE>, d: Seq<&RE>, b: Seq<&RE>, bottom: RE, top: &RE)
    requires simplified(d, b, bottom, top), forall|x: &RE| d.contains(x) == #[trigger] a.contains(x),
    ensures simplified(a, b, bottom, top),
{
    lemma_same_elems(d, a);
}
pub proof fn lemma_catl_append(a: Seq<&RE>, b: Seq<&RE>)
    ensures catl(a + b) == l_cat(catl(a), catl(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        lemma_cat_eps(catl(a));
    } else {
        lemma_catl_append(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_cat_assoc(catl(a), catl(b.drop_last()), den(*b.last()));
    }
}
pub proof fn lemma_catl_mono(a: Seq<&RE>, b: Seq<&RE>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> l_sub(den(*(#[trigger] a[i])), den(*b[i])),
    ensures l_sub(catl(a), catl(b)),
    decreases a.len(),
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies l_sub(den(*(#[trigger] a.drop_last()[i])), den(*b.drop_last()[i])) by { assert(a.drop_last()[i] == a[i]); }
        lemma_catl_mono(a.drop_last(), b.drop_last());
        assert(l_sub(den(*a[a.len() - 1]), den(*b[a.len() - 1])));
        lemma_cat_mono(catl(a.drop_last()), den(*a.last()), catl(b.drop_last()), den(*b.last()));
    }
}
pub proof fn lemma_catl_good(a: Seq<&RE>)
    requires wf_all(a),
    ensures good_lang(catl(a)),
    decreases a.len(),
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies wf(*(#[trigger] a.drop_last()[i])) by { assert(a.drop_last()[i] == a[i]); }
        lemma_catl_good(a.drop_last());
        lemma_good(*a.last());
        lemma_cat_good(catl(a.drop_last()), den(*a.last()));
    }
}
// inclusion of concatenations: v is split into alternating rigid and flexible patterns ----------
pub open spec fn piece(v: Seq<&RE>, i: int, j: int) -> Seq<&RE> { v.subrange(i, j) }
pub proof fn lemma_piece(v: Seq<&RE>, i: int, j: int)
    requires wf_all(v), 0 <= i <= j <= v.len(),
    ensures wf_all(piece(v, i, j)), piece(v, i, j) == v.subrange(i, j), piece(v, i, j).len() == j - i, forall|k: int| 0 <= k < j - i ==> #[trigger] piece(v, i, j)[k] == v[i + k],
{
    assert forall|k: int| 0 <= k < j - i implies wf(*(#[trigger] piece(v, i, j)[k])) by { assert(wf(*v[i + k])); }
}
pub open spec fn rigid_part(v: Seq<&RE>, b: BasePattern) -> bool {
    b.is_rigid ==> forall|k: int| b.start <= k < b.end ==> (#[trigger] v[k]).expr is Range
}
pub open spec fn chain(b: Seq<BasePattern>, v: Seq<&RE>) -> bool {
    &&& b.len() == 0 ==> v.len() == 0
    &&& b.len() > 0 ==> b[0].start == 0 && b.last().end == v.len()
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).start < b[i].end && b[i].end <= v.len() && rigid_part(v, b[i])
    &&& forall|i: int| 0 <= i && i + 1 < b.len() ==> (#[trigger] b[i]).end == b[i + 1].start && b[i].is_rigid != b[i + 1].is_rigid
}
pub proof fn lemma_chain_at(b: Seq<BasePattern>, v: Seq<&RE>, i: int)
    requires chain(b, v), 0 <= i < b.len(),
    ensures b[i].start < b[i].end && b[i].end <= v.len(), rigid_part(v, b[i]),
{
}
pub open spec fn part_chain(b: Seq<BasePattern>, v: Seq<&RE>, j: int, rigid: bool) -> bool {
    &&& b.len() == 0 ==> j == 0
    &&& b.len() > 0 ==> b[0].start == 0 && b.last().end == j && b.last().is_rigid != rigid
    &&& forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).start < b[k].end && b[k].end <= j && rigid_part(v, b[k])
    &&& forall|k: int| 0 <= k && k + 1 < b.len() ==> (#[trigger] b[k]).end == b[k + 1].start && b[k].is_rigid != b[k + 1].is_rigid
}
pub proof fn lemma_part_push(b: Seq<BasePattern>, v: Seq<&RE>, j: int, rigid: bool, p: BasePattern)
    requires part_chain(b, v, j, rigid), p.start == j, p.start < p.end, p.end <= v.len(), p.is_rigid == rigid,
        rigid ==> forall|k: int| j <= k < p.end ==> (#[trigger] v[k]).expr is Range,
    ensures part_chain(b.push(p), v, p.end as int, !rigid),
{
    let c = b.push(p);
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k]).start < c[k].end && c[k].end <= p.end && rigid_part(v, c[k]) by { if k < b.len() { assert(c[k] == b[k]); } }
    assert forall|k: int| 0 <= k && k + 1 < c.len() implies (#[trigger] c[k]).end == c[k + 1].start && c[k].is_rigid != c[k + 1].is_rigid by { assert(c[k] == b[k]); if k + 1 < b.len() { assert(c[k + 1] == b[k + 1]); } }
}
pub proof fn lemma_part_start(v: Seq<&RE>, rigid: bool)
    ensures part_chain(Seq::empty(), v, 0, rigid),
{
}
pub proof fn lemma_part_done(b: Seq<BasePattern>, v: Seq<&RE>, rigid: bool)
    requires part_chain(b, v, v.len() as int, rigid), b.len() > 0 || v.len() == 0,
    ensures chain(b, v),
{
}
pub open spec fn same_pattern(a: BasePattern, b: BasePattern) -> bool { a.start == b.start && a.end == b.end && a.is_rigid == b.is_rigid }
pub open spec fn same_patterns(a: Seq<BasePattern>, b: Seq<BasePattern>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_pattern(#[trigger] a[i], b[i])
}
/// pattern b of v is matched by a part of u
pub open spec fn placed(u: Seq<&RE>, v: Seq<&RE>, b: BasePattern) -> bool {
    &&& b.start_match <= b.end_match <= u.len()
    &&& l_sub(catl(piece(u, b.start_match as int, b.end_match as int)), catl(piece(v, b.start as int, b.end as int)))
}
/// all rigid patterns are matched, in order
pub open spec fn rigid_placed(u: Seq<&RE>, v: Seq<&RE>, b: Seq<BasePattern>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).is_rigid ==> placed(u, v, b[i])
    &&& forall|i: int, j: int| 0 <= i < j < b.len() && (#[trigger] b[i]).is_rigid && (#[trigger] b[j]).is_rigid ==> b[i].end_match <= b[j].start_match
}
pub open spec fn all_placed(u: Seq<&RE>, v: Seq<&RE>, b: Seq<BasePattern>) -> bool {
    &&& b.len() > 0 && b[0].start_match == 0 && b.last().end_match == u.len()
    &&& forall|i: int| 0 <= i < b.len() ==> placed(u, v, #[trigger] b[i])
    &&& forall|i: int| 0 <= i && i + 1 < b.len() ==> (#[trigger] b[i]).end_match == b[i + 1].start_match
}
pub proof fn lemma_piece_join(v: Seq<&RE>, i: int, j: int, k: int)
    requires 0 <= i <= j <= k <= v.len(),
    ensures catl(piece(v, i, k)) == l_cat(catl(piece(v, i, j)), catl(piece(v, j, k))),
{
    assert(piece(v, i, k) =~= piece(v, i, j) + piece(v, j, k));
    lemma_catl_append(piece(v, i, j), piece(v, j, k));
}
pub proof fn lemma_placed_prefix(u: Seq<&RE>, v: Seq<&RE>, b: Seq<BasePattern>, t: int)
    requires chain(b, v), all_placed(u, v, b), 0 < t <= b.len(),
    ensures l_sub(catl(piece(u, 0, b[t - 1].end_match as int)), catl(piece(v, 0, b[t - 1].end as int))),
    decreases t,
{
    assert(placed(u, v, b[t - 1]));
    if t > 1 {
        lemma_placed_prefix(u, v, b, t - 1);
        let (p, q) = (b[t - 2], b[t - 1]);
        assert(placed(u, v, p));
        lemma_piece_join(u, 0, p.end_match as int, q.end_match as int);
        lemma_piece_join(v, 0, p.end as int, q.end as int);
        lemma_cat_mono(catl(piece(u, 0, p.end_match as int)), catl(piece(u, p.end_match as int, q.end_match as int)),
            catl(piece(v, 0, p.end as int)), catl(piece(v, p.end as int, q.end as int)));
    }
}
pub proof fn lemma_placed(u: Seq<&RE>, v: Seq<&RE>, b: Seq<BasePattern>)
    requires chain(b, v), all_placed(u, v, b),
    ensures l_sub(catl(u), catl(v)),
{
    lemma_placed_prefix(u, v, b, b.len() as int);
    assert(piece(u, 0, u.len() as int) =~= u);
    assert(piece(v, 0, v.len() as int) =~= v);
}
/// the elements of u from i on are included in the character sets
pub open spec fn set_match(cs: Seq<&CharSet>, u: Seq<&RE>, i: int) -> bool {
    forall|j: int| i <= j < i + cs.len() ==> l_sub(den(*(#[trigger] u[j])), l_range(cs[j - i].start, cs[j - i].end))
}
pub open spec fn sets_upto(cs: Vec<&CharSet>, v: Seq<&RE>, n: int) -> bool {
    cs@.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] cs@[j]).wf() && den(*v[j]) == l_range(cs@[j].start, cs@[j].end)
}
/// the character sets of the elements of v
pub open spec fn sets_of(cs: Seq<&CharSet>, v: Seq<&RE>) -> bool {
    cs.len() == v.len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] cs[j]).wf() && den(*v[j]) == l_range(cs[j].start, cs[j].end)
}
pub proof fn lemma_set_match(cs: Seq<&CharSet>, u: Seq<&RE>, i: int, v: Seq<&RE>, s: int, e: int)
    requires 0 <= s <= e <= v.len(), 0 <= i, i + (e - s) <= u.len(), sets_of(cs, piece(v, s, e)), set_match(cs, u, i),
    ensures l_sub(catl(piece(u, i, i + (e - s))), catl(piece(v, s, e))),
{
    let (a, b) = (piece(u, i, i + (e - s)), piece(v, s, e));
    assert forall|j: int| 0 <= j < a.len() implies l_sub(den(*(#[trigger] a[j])), den(*b[j])) by { assert(a[j] == u[i + j]); let k = i + j; assert(l_sub(den(*u[k]), l_range(cs[k - i].start, cs[k - i].end))); assert(cs[j].wf()); }
    lemma_catl_mono(a, b);
}
/// moving the start of the patterns
pub proof fn lemma_chain_skip(b: Seq<BasePattern>, c: Seq<BasePattern>, v: Seq<&RE>, len: int)
    requires chain(b, v), b.len() > 0, len == b[0].end, c.len() == b.len() - 1,
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).start == b[i + 1].start - len && c[i].end == b[i + 1].end - len && c[i].is_rigid == b[i + 1].is_rigid,
    ensures chain(c, piece(v, len, v.len() as int)),
{
    let w = piece(v, len, v.len() as int);
    lemma_chain_mono(b, v);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).start < c[i].end && c[i].end <= w.len() && rigid_part(w, c[i]) by {
        assert(rigid_part(v, b[i + 1]));
        if c[i].is_rigid { assert forall|k: int| c[i].start <= k < c[i].end implies (#[trigger] w[k]).expr is Range by { assert(w[k] == v[k + len]); } }
    }
    assert forall|i: int| 0 <= i && i + 1 < c.len() implies (#[trigger] c[i]).end == c[i + 1].start && c[i].is_rigid != c[i + 1].is_rigid by { assert(b[i + 1].end == b[i + 2].start); }
}
pub proof fn lemma_chain_drop(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v), b.len() > 0,
    ensures chain(b.drop_last(), piece(v, 0, b.last().start as int)),
{
    let c = b.drop_last();
    let w = piece(v, 0, b.last().start as int);
    lemma_chain_mono(b, v);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).start < c[i].end && c[i].end <= w.len() && rigid_part(w, c[i]) by {
        assert(c[i] == b[i]);
        assert(rigid_part(v, b[i]));
        assert(b[i].end <= b[b.len() - 1].start);
        if c[i].is_rigid { assert forall|k: int| c[i].start <= k < c[i].end implies (#[trigger] w[k]).expr is Range by { assert(w[k] == v[k]); } }
    }
}
pub proof fn lemma_chain_mono(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v),
    ensures forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).end <= (#[trigger] b[j]).start,
        forall|i: int| 0 < i < b.len() ==> (#[trigger] b[i]).start >= b[0].end,
{
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).end <= (#[trigger] b[j]).start by { lemma_chain_mono2(b, v, i, j); }
}
pub proof fn lemma_chain_mono2(b: Seq<BasePattern>, v: Seq<&RE>, i: int, j: int)
    requires chain(b, v), 0 <= i < j < b.len(),
    ensures b[i].end <= b[j].start,
    decreases j - i,
{
    assert(b[i].end == b[i + 1].start);
    if i + 1 < j { lemma_chain_mono2(b, v, i + 1, j); assert(b[i + 1].start < b[i + 1].end); }
}
pub proof fn lemma_inclusion_join(u1: Seq<&RE>, u2: Seq<&RE>, v1: Seq<&RE>, v2: Seq<&RE>, u: Seq<&RE>, v: Seq<&RE>)
    requires u == u1 + u2, v == v1 + v2, l_sub(catl(u1), catl(v1)), l_sub(catl(u2), catl(v2)),
    ensures l_sub(catl(u), catl(v)),
{
    lemma_catl_append(u1, u2); lemma_catl_append(v1, v2);
    lemma_cat_mono(catl(u1), catl(u2), catl(v1), catl(v2));
}
pub proof fn lemma_same_chain(a: Seq<BasePattern>, b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(a, v), same_patterns(a, b),
    ensures chain(b, v), a.len() == b.len(), ends_flexible(a) ==> ends_flexible(b),
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).start < b[i].end && b[i].end <= v.len() && rigid_part(v, b[i]) by { assert(same_pattern(a[i], b[i])); }
    assert forall|i: int| 0 <= i && i + 1 < b.len() implies (#[trigger] b[i]).end == b[i + 1].start && b[i].is_rigid != b[i + 1].is_rigid by { assert(same_pattern(a[i], b[i])); assert(same_pattern(a[i + 1], b[i + 1])); }
    if b.len() > 0 { assert(same_pattern(a[0], b[0])); assert(same_pattern(a[a.len() - 1], b[b.len() - 1])); }
}
pub open spec fn part_placed(b: Seq<BasePattern>, n: int) -> bool {
    &&& b.len() > 0 ==> b[0].start_match == 0 && b.last().end_match == n
    &&& forall|i: int| 0 <= i && i + 1 < b.len() ==> (#[trigger] b[i]).end_match == b[i + 1].start_match
}
/// regions of the flexible patterns between the rigid ones
pub proof fn lemma_flexible(u: Seq<&RE>, v: Seq<&RE>, a: Seq<BasePattern>, b: Seq<BasePattern>)
    requires chain(a, v), rigid_placed(u, v, a), same_patterns(a, b), a.len() > 0, !a[0].is_rigid, !a.last().is_rigid,
        forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).is_rigid ==> b[i] == a[i],
        forall|i: int| 0 <= i < a.len() && !(#[trigger] a[i]).is_rigid ==>
            b[i].start_match == (if i == 0 { 0 } else { a[i - 1].end_match })
            && b[i].end_match == (if i == a.len() - 1 { u.len() as usize } else { a[i + 1].start_match }),
        u.len() <= usize::MAX,
    ensures
        forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).start_match <= b[k].end_match <= u.len(),
        forall|k: int| 0 <= k < b.len() && (#[trigger] b[k]).is_rigid ==> placed(u, v, b[k]),
        part_placed(b, u.len() as int),
{
    assert forall|k: int| 0 <= k < b.len() && (#[trigger] b[k]).is_rigid implies placed(u, v, b[k]) by { assert(same_pattern(a[k], b[k])); assert(a[k].is_rigid); }
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).start_match <= b[k].end_match <= u.len() by {
        assert(same_pattern(a[k], b[k]));
        if a[k].is_rigid { assert(placed(u, v, a[k])); }
        else {
            if k > 0 { assert(a[k - 1].is_rigid != a[k].is_rigid); assert(placed(u, v, a[k - 1])); }
            if k + 1 < a.len() { assert(a[k].is_rigid != a[k + 1].is_rigid); assert(placed(u, v, a[k + 1])); }
            if k > 0 && k + 1 < a.len() { assert(a[k - 1].end_match <= a[k + 1].start_match); }
        }
    }
    assert forall|i: int| 0 <= i && i + 1 < b.len() implies (#[trigger] b[i]).end_match == b[i + 1].start_match by {
        assert(a[i].is_rigid != a[i + 1].is_rigid);
        assert(same_pattern(a[i], b[i]));
        assert(same_pattern(a[i + 1], b[i + 1]));
    }
    assert(same_pattern(a[0], b[0]));
    assert(same_pattern(a[a.len() - 1], b[b.len() - 1]));
}
pub open spec fn ends_flexible(b: Seq<BasePattern>) -> bool { b.len() > 0 ==> !b[0].is_rigid && !b.last().is_rigid }
pub proof fn lemma_sub_refl(a: Lang)
    ensures l_sub(a, a),
{
}
pub proof fn lemma_chain_empty(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v), b.len() == 0,
    ensures v.len() == 0,
{
}
pub proof fn lemma_chain_ends(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v), b.len() > 0,
    ensures b[0].start == 0, b.last().end == v.len(),
{
}
pub proof fn lemma_chain_last(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v), b.len() > 1,
    ensures b[b.len() - 2].is_rigid != b.last().is_rigid, b[b.len() - 2].end == b.last().start,
{
    let i = b.len() - 2;
    assert(b[i].is_rigid != b[i + 1].is_rigid);
}
pub proof fn lemma_chain_all(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v),
    ensures forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).start < b[i].end, forall|i: int| 0 <= i && i + 1 < b.len() ==> (#[trigger] b[i]).is_rigid != b[i + 1].is_rigid,
{
}
pub proof fn lemma_slice_len<T>(u: &[T])
    ensures u@.len() <= usize::MAX,
{
    assert(vstd::slice::spec_slice_len(u) == u@.len());
}
pub proof fn lemma_same_patterns_refl(b: Seq<BasePattern>)
    ensures same_patterns(b, b),
{
}
/// u1 = u . a2 and v1 = v . b2 where a2 is included in b2, and p are the patterns of v
pub open spec fn trimmed(u: Seq<&RE>, v: Seq<&RE>, p: Seq<BasePattern>, a2: Seq<&RE>, b2: Seq<&RE>, u1: Seq<&RE>, v1: Seq<&RE>) -> bool {
    wf_all(u) && wf_all(v) && chain(p, v) && ends_flexible(p) && u1 == u + a2 && v1 == v + b2 && l_sub(catl(a2), catl(b2))
}
pub proof fn lemma_trimmed_none(u: Seq<&RE>, v: Seq<&RE>, p: Seq<BasePattern>)
    requires wf_all(u), wf_all(v), chain(p, v), p.len() > 0 ==> !p[0].is_rigid && !p.last().is_rigid,
    ensures trimmed(u, v, p, Seq::empty(), Seq::empty(), u, v),
{
    assert(u + Seq::empty() =~= u); assert(v + Seq::empty() =~= v);
    lemma_sub_refl(catl(Seq::empty()));
}
pub proof fn lemma_trimmed_last(u: Seq<&RE>, v: Seq<&RE>, p: Seq<BasePattern>, len: int)
    requires wf_all(u), wf_all(v), chain(p, v), p.len() > 0, !p[0].is_rigid || p.len() == 1, p.last().is_rigid, len == p.last().end - p.last().start, 0 <= len <= u.len(),
        l_sub(catl(piece(u, u.len() - len, u.len() as int)), catl(piece(v, p.last().start as int, p.last().end as int))),
    ensures
        len <= v.len(),
        trimmed(piece(u, 0, u.len() - len), piece(v, 0, v.len() - len), p.drop_last(), piece(u, u.len() - len, u.len() as int), piece(v, v.len() - len, v.len() as int), u, v),
{
    lemma_chain_ends(p, v);
    lemma_chain_at(p, v, p.len() - 1);
    lemma_piece(u, 0, u.len() - len); lemma_piece(v, 0, v.len() - len);
    lemma_chain_drop(p, v);
    if p.len() > 1 { lemma_chain_last(p, v); }
    assert(u =~= piece(u, 0, u.len() - len) + piece(u, u.len() - len, u.len() as int));
    assert(v =~= piece(v, 0, v.len() - len) + piece(v, v.len() - len, v.len() as int));
}
pub proof fn lemma_trimmed(u: Seq<&RE>, v: Seq<&RE>, p: Seq<BasePattern>, a2: Seq<&RE>, b2: Seq<&RE>, u1: Seq<&RE>, v1: Seq<&RE>, a: Seq<&RE>, b: Seq<&RE>)
    requires trimmed(u, v, p, a2, b2, u1, v1), l_sub(catl(a), catl(b)),
    ensures wf_all(u), wf_all(v), chain(p, v), ends_flexible(p), l_sub(catl(u), catl(v)) ==> l_sub(catl(a + u1), catl(b + v1)),
{
    if l_sub(catl(u), catl(v)) {
        lemma_inclusion_join(u, a2, v, b2, u1, v1);
        lemma_inclusion_join(a, u1, b, v1, a + u1, b + v1);
    }
}
pub proof fn lemma_chain_second(b: Seq<BasePattern>, v: Seq<&RE>)
    requires chain(b, v), b.len() > 1,
    ensures b[0].is_rigid != b[1].is_rigid,
{
    let i = 0int;
    assert(b[i].is_rigid != b[i + 1].is_rigid);
}
/// one pattern changed its match region
pub proof fn lemma_same_step(p0: Seq<BasePattern>, p1: Seq<BasePattern>, p2: Seq<BasePattern>, v: Seq<&RE>, n: int)
    requires chain(p0, v), same_patterns(p0, p1), p1.len() == p2.len(), 0 <= n < p1.len(), same_pattern(p1[n], p2[n]),
        forall|k: int| 0 <= k < p1.len() && k != n ==> #[trigger] p2[k] == p1[k],
    ensures same_patterns(p0, p2), chain(p2, v), ends_flexible(p0) ==> ends_flexible(p2),
{
    assert forall|i: int| 0 <= i < p0.len() implies same_pattern(#[trigger] p0[i], p2[i]) by { assert(same_pattern(p0[i], p1[i])); if i != n { assert(p2[i] == p1[i]); } }
    lemma_same_chain(p0, p2, v);
    assert(same_pattern(p0[0], p2[0]));
    assert(same_pattern(p0[p0.len() - 1], p2[p0.len() - 1]));
}
pub proof fn lemma_all_placed(u: Seq<&RE>, v: Seq<&RE>, b: Seq<BasePattern>)
    requires b.len() > 0, part_placed(b, u.len() as int), forall|k: int| 0 <= k < b.len() ==> placed(u, v, #[trigger] b[k]),
    ensures all_placed(u, v, b),
{
}
pub proof fn lemma_decomposed(r: RE, v: Seq<&RE>)
    requires together(r, r), owned_with(Seq::empty(), r, v),
    ensures wf_all(v),
{
    let m = choose|m: ReManager| m.inv() && #[trigger] m.owns(r);
    assert(m.owns_all(Seq::empty()));
    m.lemma_all_owned(v);
}
pub open spec fn kids_together(r: RE, s: RE) -> bool {
    &&& match (r.expr, s.expr) { (BaseRegLan::Complement(a), BaseRegLan::Complement(b)) => together(*b, *a), _ => true }
    &&& match s.expr {
            BaseRegLan::Union(v) => forall|i: int| 0 <= i < v@.len() ==> together(r, *(#[trigger] v@[i])),
            BaseRegLan::Inter(v) => forall|i: int| 0 <= i < v@.len() ==> together(r, *(#[trigger] v@[i])),
            _ => true }
    &&& match r.expr {
            BaseRegLan::Union(v) => forall|i: int| 0 <= i < v@.len() ==> together(*(#[trigger] v@[i]), s),
            BaseRegLan::Inter(v) => forall|i: int| 0 <= i < v@.len() ==> together(*(#[trigger] v@[i]), s),
            _ => true }
}
pub open spec fn sub_cases(r: RE, s: RE) -> bool {
    &&& r.id == s.id ==> l_sub(den(r), den(s))
    &&& r.expr is Empty ==> l_sub(den(r), den(s))
    &&& r.expr is Epsilon && s.nullable ==> l_sub(den(r), den(s))
    &&& match (r.expr, s.expr) { (BaseRegLan::Complement(a), BaseRegLan::Complement(b)) => l_sub(den(*b), den(*a)) ==> l_sub(den(r), den(s)), _ => true }
    &&& match s.expr {
            BaseRegLan::Union(v) => (exists|i: int| 0 <= i < v@.len() && l_sub(den(r), den(*(#[trigger] v@[i])))) ==> l_sub(den(r), den(s)),
            BaseRegLan::Inter(v) => (forall|i: int| 0 <= i < v@.len() ==> l_sub(den(r), den(*(#[trigger] v@[i])))) ==> l_sub(den(r), den(s)),
            _ => true }
    &&& match r.expr {
            BaseRegLan::Union(v) => (forall|i: int| 0 <= i < v@.len() ==> l_sub(den(*(#[trigger] v@[i])), den(s))) ==> l_sub(den(r), den(s)),
            BaseRegLan::Inter(v) => (exists|i: int| 0 <= i < v@.len() && l_sub(den(*(#[trigger] v@[i])), den(s))) ==> l_sub(den(r), den(s)),
            _ => true }
}
pub proof fn lemma_sub_language(r: RE, s: RE)
    requires together(r, s),
    ensures wf(r), wf(s), together(r, r), together(s, s), kids_together(r, s), sub_cases(r, s),
{
    let m = choose|m: ReManager| m.inv() && #[trigger] m.owns(r) && m.owns(s);
    m.lemma_owned(r); m.lemma_owned(s); m.lemma_together(r, s); m.lemma_together(r, r); m.lemma_together(s, s);
    lemma_sub_cases(r, s);
}
/// sufficient conditions for inclusion
pub proof fn lemma_sub_cases(r: RE, s: RE)
    requires wf(r), wf(s),
    ensures
        r == s || r.id != s.id ==> sub_cases(r, s),
{
    lemma_wf(r); lemma_wf(s); lemma_good(r); lemma_good(s);
    if r.expr is Epsilon && s.nullable {
        assert forall|w: Seq<u32>| #[trigger] den(r)(w) implies den(s)(w) by { assert(w =~= eps()); }
    }
    match s.expr {
        BaseRegLan::Union(v) => {
            if exists|i: int| 0 <= i < v@.len() && l_sub(den(r), den(*(#[trigger] v@[i]))) {
                let i = choose|i: int| 0 <= i < v@.len() && l_sub(den(r), den(*(#[trigger] v@[i])));
                assert forall|w: Seq<u32>| #[trigger] den(r)(w) implies den(s)(w) by { assert(den(*v@[i])(w)); }
            }
        },
        BaseRegLan::Inter(v) => {
            if forall|i: int| 0 <= i < v@.len() ==> l_sub(den(r), den(*(#[trigger] v@[i]))) {
                assert forall|w: Seq<u32>| #[trigger] den(r)(w) implies den(s)(w) by {
                    assert forall|i: int| 0 <= i < v@.len() implies den(*(#[trigger] v@[i]))(w) by { assert(l_sub(den(r), den(*v@[i]))); }
                }
            }
        },
        _ => {},
    }
    match r.expr {
        BaseRegLan::Union(v) => {
            if forall|i: int| 0 <= i < v@.len() ==> l_sub(den(*(#[trigger] v@[i])), den(s)) {
                assert forall|w: Seq<u32>| #[trigger] den(r)(w) implies den(s)(w) by {
                    let i = choose|i: int| 0 <= i < v@.len() && den(*(#[trigger] v@[i]))(w);
                    assert(l_sub(den(*v@[i]), den(s)));
                }
            }
        },
        BaseRegLan::Inter(v) => {
            if exists|i: int| 0 <= i < v@.len() && l_sub(den(*(#[trigger] v@[i])), den(s)) {
                let i = choose|i: int| 0 <= i < v@.len() && l_sub(den(*(#[trigger] v@[i])), den(s));
                assert forall|w: Seq<u32>| #[trigger] den(r)(w) implies den(s)(w) by { assert(den(*v@[i])(w)); }
            }
        },
        _ => {},
    }
}
pub proof fn lemma_catl_cons(v: Seq<&RE>)
    requires v.len() > 0,
    ensures catl(v) == l_cat(den(*v[0]), catl(v.skip(1))),
{
    let a = Seq::<&RE>::empty();
    assert(v.take(1) =~= a.push(v[0]));
    lemma_catl_push(a, v[0]);
    lemma_cat_eps(den(*v[0]));
    lemma_catl_append(v.take(1), v.skip(1));
    assert(v.take(1) + v.skip(1) =~= v);
}
/// a term and a list, owned by one manager
pub open spec fn owned_pair(a: Seq<&RE>, r: RE) -> bool { exists|m: ReManager| m.inv() && m.owns_all(a) && #[trigger] m.owns(r) }
pub open spec fn owned_some(a: Seq<&RE>) -> bool { exists|m: ReManager| #[trigger] m.inv() && m.owns_all(a) }
pub proof fn lemma_owned_pair(a: Seq<&RE>, r: RE)
    requires owned_pair(a, r),
    ensures forall|i: int| 0 <= i < a.len() ==> together(r, *(#[trigger] a[i])),
{
    let m = choose|m: ReManager| m.inv() && m.owns_all(a) && #[trigger] m.owns(r);
    assert forall|i: int| 0 <= i < a.len() implies together(r, *(#[trigger] a[i])) by { assert(m.owns(*a[i])); }
}
/// dropping a term subsumed by another one
pub proof fn lemma_remove(a: Seq<&RE>, i: int, j: int)
    requires 0 <= i < a.len(), 0 <= j < a.len(), i != j, l_sub(den(*a[i]), den(*a[j])),
    ensures uni(a.remove(i)) == uni(a),
{
    let b = a.remove(i);
    assert forall|w: Seq<u32>| #[trigger] uni(b)(w) == uni(a)(w) by {
        if uni(b)(w) {
            let k = choose|k: int| 0 <= k < b.len() && den(*(#[trigger] b[k]))(w);
            if k < i { assert(b[k] == a[k]); } else { assert(b[k] == a[k + 1]); }
        }
        if uni(a)(w) {
            let k0 = choose|k: int| 0 <= k < a.len() && den(*(#[trigger] a[k]))(w);
            let k = if k0 == i { j } else { k0 };
            assert(den(*a[k])(w));
            if k < i { assert(b[k] == a[k]); } else { assert(b[k - 1] == a[k]); }
        }
    }
    assert(uni(b) =~= uni(a));
}
pub proof fn lemma_int_empty(a: Lang)
    requires good_lang(a),
    ensures int(Seq::empty()) == l_all(), l_and(l_all(), a) == a, uni(Seq::empty()) == l_none(), l_or(l_none(), a) == a,
{
    let e = Seq::<&RE>::empty();
    assert forall|w: Seq<u32>| #[trigger] int(e)(w) == l_all()(w) by {}
    assert(int(e) =~= l_all());
    assert forall|w: Seq<u32>| #[trigger] l_and(l_all(), a)(w) == a(w) by {}
    assert(l_and(l_all(), a) =~= a);
    assert forall|w: Seq<u32>| !#[trigger] uni(e)(w) by {}
    assert(uni(e) =~= l_none());
    assert forall|w: Seq<u32>| #[trigger] l_or(l_none(), a)(w) == a(w) by {}
    assert(l_or(l_none(), a) =~= a);
}
/// words of a in none of the languages of the list
pub open spec fn l_diff(a: Lang, v: Seq<&RE>) -> Lang { |w: Seq<u32>| a(w) && forall|i: int| 0 <= i < v.len() ==> !den(*(#[trigger] v[i]))(w) }
pub proof fn lemma_diff_step(a: Lang, v: Seq<&RE>, i: int, r: &RE)
    requires good_lang(a), 0 <= i < v.len(), r == v[i],
    ensures l_diff(a, v.take(i + 1)) == l_and(l_diff(a, v.take(i)), l_comp(den(*r))),
{
    let (x, y) = (l_diff(a, v.take(i + 1)), l_and(l_diff(a, v.take(i)), l_comp(den(*r))));
    assert forall|w: Seq<u32>| #[trigger] x(w) == y(w) by {
        if x(w) {
            assert forall|k: int| 0 <= k < v.take(i).len() implies !den(*(#[trigger] v.take(i)[k]))(w) by { assert(v.take(i)[k] == v.take(i + 1)[k]); }
            assert(v.take(i + 1)[i] == r);
        }
        if y(w) {
            assert forall|k: int| 0 <= k < v.take(i + 1).len() implies !den(*(#[trigger] v.take(i + 1)[k]))(w) by { if k < i { assert(v.take(i)[k] == v.take(i + 1)[k]); } }
        }
    }
    assert(x =~= y);
}
pub proof fn lemma_loop_opt(a: Lang)
    ensures l_loop(a, range_set(LoopRange(0, Some(1)))) == l_or(l_eps(), a),
{
    let rs = range_set(LoopRange(0, Some(1)));
    lemma_pow1(a);
    assert(l_pow(a, 0) == l_eps());
    assert forall|w: Seq<u32>| #[trigger] l_loop(a, rs)(w) == l_or(l_eps(), a)(w) by {
        if l_loop(a, rs)(w) { let n = choose|n: nat| #[trigger] rs(n) && l_pow(a, n)(w); assert(n == 0 || n == 1); }
        if l_eps()(w) { assert(rs(0)); }
        if a(w) { assert(rs(1)); }
    }
    assert(l_loop(a, rs) =~= l_or(l_eps(), a));
}
/// SMT-LIB re.range
pub open spec fn smt_range_lang(a: Seq<u32>, b: Seq<u32>) -> Lang {
    if a.len() == 1 && b.len() == 1 { l_range(a[0], b[0]) } else { l_none() }
}
pub proof fn lemma_range_none(lo: u32, hi: u32)
    requires lo > hi,
    ensures l_range(lo, hi) == l_none(),
{
    assert(l_range(lo, hi) =~= l_none());
}
pub proof fn lemma_word_eps()
    ensures l_word(eps()) == l_eps(),
{
    assert forall|w: Seq<u32>| #[trigger] l_word(eps())(w) == l_eps()(w) by { if w.len() == 0 { assert(w =~= eps()); } }
    assert(l_word(eps()) =~= l_eps());
}
pub proof fn lemma_word_cons(c: u32, u: Seq<u32>)
    ensures l_word(seq![c] + u) == l_cat(l_range(c, c), l_word(u)),
{
    let (x, y) = (l_word(seq![c] + u), l_cat(l_range(c, c), l_word(u)));
    assert forall|w: Seq<u32>| #[trigger] x(w) == y(w) by {
        if x(w) { lemma_cat_intro(l_range(c, c), l_word(u), seq![c], u); }
        if y(w) { let (p, q) = lemma_cat_elim(l_range(c, c), l_word(u), w); assert(p =~= seq![c]); }
    }
    assert(x =~= y);
}
impl ReManager {
    pub proof fn lemma_owned_in(self, v1: Seq<&RE>, v2: Seq<&RE>)
        requires self.owns_all(v1), forall|i: int| 0 <= i < v2.len() ==> v1.contains(#[trigger] v2[i]),
        ensures self.owns_all(v2),
    {
        assert forall|i: int| 0 <= i < v2.len() implies self.owns(*(#[trigger] v2[i])) by { let j = v1.index_of(v2[i]); assert(v1.contains(v2[i])); assert(self.owns(*v1[j])); }
    }
    pub proof fn lemma_simplified_owned(self, v0: Seq<&RE>, v1: Seq<&RE>, bottom: RE, top: &RE)
        requires self.owns_all(v0), self.owns(*top), simplified(v0, v1, bottom, top),
        ensures self.owns_all(v1),
    {
        assert forall|i: int| 0 <= i < v1.len() implies self.owns(*(#[trigger] v1[i])) by {
            if v0.contains(v1[i]) { let j = v0.index_of(v1[i]); assert(self.owns(*v0[j])); }
        }
    }
    /// the terms of an owned list
    pub proof fn lemma_list(self, v: Seq<&RE>)
        requires self.inv(), self.owns_all(v),
        ensures wf_all(v), good_lang(int(v)), good_lang(uni(v)),
            v.len() == 0 ==> int(v) == l_all() && uni(v) == l_none(),
            v.len() == 1 ==> int(v) == den(*v[0]) && uni(v) == den(*v[0]) && self.owns(*v[0]),
            forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nullable == den(*v[i])(eps()),
    {
        self.lemma_all_owned(v);
        lemma_all_good(v);
        if v.len() == 0 { assert(v =~= Seq::empty()); lemma_int_empty(l_none()); }
        if v.len() == 1 { assert(v =~= seq![v[0]]); assert(wf(*v[0])); lemma_single(v[0]); assert(self.owns(*v[0])); }
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).nullable == den(*v[i])(eps()) by { self.lemma_owned(*v[i]); }
    }
    /// an intersection with epsilon
    pub proof fn lemma_int_eps(self, v: Seq<&RE>)
        requires self.inv(), self.owns_all(v), exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == 4,
        ensures (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nullable) ==> int(v) == l_eps(),
            (exists|i: int| 0 <= i < v.len() && !(#[trigger] v[i]).nullable) ==> int(v) == l_none(),
    {
        self.lemma_list(v);
        self.lemma_first();
        let e = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == 4;
        assert(self.owns(*v[e]));
        assert(*v[e] == *self.epsilon);
        if forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nullable {
            assert forall|w: Seq<u32>| #[trigger] int(v)(w) == l_eps()(w) by {
                if int(v)(w) { assert(den(*v[e])(w)); }
                if l_eps()(w) { assert(w =~= eps()); assert forall|i: int| 0 <= i < v.len() implies den(*(#[trigger] v[i]))(w) by { assert(v[i].nullable); } }
            }
            assert(int(v) =~= l_eps());
        }
        if exists|i: int| 0 <= i < v.len() && !(#[trigger] v[i]).nullable {
            let k = choose|i: int| 0 <= i < v.len() && !(#[trigger] v[i]).nullable;
            assert forall|w: Seq<u32>| !#[trigger] int(v)(w) by {
                if int(v)(w) { assert(den(*v[e])(w)); assert(w =~= eps()); assert(den(*v[k])(w)); }
            }
            assert(int(v) =~= l_none());
        }
    }
}
/// a bound on the ids
pub open spec fn id_bound(v: Seq<&RE>) -> nat
    decreases v.len()
{
    if v.len() == 0 { 0 } else { let m = id_bound(v.drop_last()); if v.last().id as nat >= m { (v.last().id + 1) as nat } else { m } }
}
pub proof fn lemma_id_bound(v: Seq<&RE>)
    ensures forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).id < id_bound(v),
        id_bound(v) > 0 ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id + 1 == id_bound(v),
    decreases v.len(),
{
    if v.len() > 0 {
        let u = v.drop_last();
        lemma_id_bound(u);
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).id < id_bound(v) by { if i < u.len() { assert(u[i].id < id_bound(u)); } }
        if id_bound(v) == v.last().id + 1 { assert(v[v.len() - 1].id + 1 == id_bound(v)); }
        else { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).id + 1 == id_bound(u); assert(v[i].id + 1 == id_bound(v)); }
    }
}
pub open spec fn classes(e: RE) -> CharPartition { *e.deriv_class }
/// characters of one class
pub proof fn lemma_class_same(p: CharPartition, cid: ClassId, x: u32, y: u32)
    requires p.wf(), p.in_class(cid, x), p.in_class(cid, y),
    ensures p.same(x, y), x <= MAX_CHAR, y <= MAX_CHAR,
{
    match cid {
        ClassId::Interval(i) => {
            assert forall|j: int| 0 <= j < p.list@.len() implies ((#[trigger] p.list@[j]).has(x) <==> p.list@[j].has(y)) by {
                if j < i { assert(p.list@[j].end < p.list@[i as int].start); }
                if j > i { assert(p.list@[i as int].end < p.list@[j].start); }
            }
            assert(p.list@[i as int].wf());
        },
        ClassId::Complement => {},
    }
}
pub proof fn lemma_class_quot(e: RE, cid: ClassId, x: u32)
    requires good_node(e), e.deriv_class.in_class(cid, x),
    ensures x <= MAX_CHAR, forall|y: u32| #[trigger] e.deriv_class.in_class(cid, y) ==> y <= MAX_CHAR && l_quot(den(e), y) == l_quot(den(e), x),
{
    lemma_class_same(classes(e), cid, x, x);
    assert forall|y: u32| #[trigger] e.deriv_class.in_class(cid, y) implies y <= MAX_CHAR && l_quot(den(e), y) == l_quot(den(e), x) by {
        lemma_class_same(classes(e), cid, x, y);
        assert(l_quot(den(e), x) == l_quot(den(e), y));
    }
}
pub open spec fn is_shift(r: LoopRange, t: LoopRange) -> bool { forall|n: nat| #[trigger] t.has(n) <==> exists|m: nat| #[trigger] r.has(m) && n == pred(m) }
pub proof fn lemma_quot_shift(a: Lang, r: LoopRange, c: u32)
    requires r.wf(), !r.zero(),
    ensures forall|t: LoopRange| is_shift(r, t) ==> l_quot(l_loop(a, range_set(r)), c) == l_cat(l_quot(a, c), #[trigger] l_loop(a, range_set(t))),
{
    lemma_quot_range_loop(a, r, c);
    let s = |n: nat| exists|m: nat| #[trigger] r.has(m) && n == pred(m);
    assert forall|t: LoopRange| is_shift(r, t) implies l_quot(l_loop(a, range_set(r)), c) == l_cat(l_quot(a, c), #[trigger] l_loop(a, range_set(t))) by {
        lemma_loop_ext(a, range_set(t), s);
    }
}
/// d[i] is the derivative of v[i]
pub open spec fn derived(v: Seq<&RE>, d: Seq<&RE>, c: u32) -> bool {
    &&& v.len() == d.len()
    &&& forall|i: int| 0 <= i < v.len() ==> den(*(#[trigger] d[i])) == l_quot(den(*v[i]), c)
}
pub proof fn lemma_derived(v: Seq<&RE>, d: Seq<&RE>, c: u32)
    requires derived(v, d, c), c <= MAX_CHAR,
    ensures uni(d) == l_quot(uni(v), c), int(d) == l_quot(int(v), c),
{
    assert forall|w: Seq<u32>| #[trigger] uni(d)(w) == l_quot(uni(v), c)(w) by {
        let cw = seq![c] + w;
        if uni(d)(w) { let i = choose|i: int| 0 <= i < d.len() && den(*(#[trigger] d[i]))(w); assert(den(*v[i])(cw)); }
        if uni(v)(cw) { let i = choose|i: int| 0 <= i < v.len() && den(*(#[trigger] v[i]))(cw); assert(den(*d[i])(w)); }
    }
    assert(uni(d) =~= l_quot(uni(v), c));
    assert forall|w: Seq<u32>| #[trigger] int(d)(w) == l_quot(int(v), c)(w) by {
        let cw = seq![c] + w;
        lemma_good_cons(c, w);
        if int(d)(w) { assert forall|i: int| 0 <= i < v.len() implies den(*(#[trigger] v[i]))(cw) by { assert(den(*d[i])(w)); } }
        if int(v)(cw) { assert forall|i: int| 0 <= i < d.len() implies den(*(#[trigger] d[i]))(w) by { assert(den(*v[i])(cw)); } }
    }
    assert(int(d) =~= l_quot(int(v), c));
}
impl ReManager {
    /// the key of a cached derivative
    pub proof fn lemma_cache_key(self, k: DerivKey)
        requires self.inv(), self.owns(*k.0),
        ensures crate::prelude::key_ok(self.deriv_cache@, k),
    {
        assert forall|j: DerivKey| #[trigger] self.deriv_cache@.contains_key(j) && PartialEqSpec::eq_spec(&j, &k) implies j == k by {
            assert(self.entry_ok(j, self.deriv_cache@[j]));
        }
    }
}
/// first characters of a term, by its structure
pub open spec fn kstarts(k: BaseRegLan, c: u32) -> bool {
    match k {
        BaseRegLan::Empty => false,
        BaseRegLan::Epsilon => false,
        BaseRegLan::Range(s) => s.has(c),
        BaseRegLan::Concat(a, b) => (starts(den(*a), c) && !l_empty(den(*b))) || (a.nullable && starts(den(*b), c)),
        BaseRegLan::Loop(a, r) => starts(den(*a), c),
        BaseRegLan::Union(v) => starts_some(v@, v@.len() as int, c),
        _ => starts(kden(k), c),
    }
}
pub open spec fn starts_some(v: Seq<&RE>, n: int, c: u32) -> bool { exists|i: int| 0 <= i < n && starts(den(*(#[trigger] v[i])), c) }
pub proof fn lemma_kstarts(e: RE, c: u32)
    requires wf(e),
    ensures kstarts(e.expr, c) == starts(den(e), c),
{
    lemma_wf(e);
    match e.expr {
        BaseRegLan::Empty => {},
        BaseRegLan::Epsilon => {},
        BaseRegLan::Range(s) => {
            if s.has(c) { assert(l_range(s.start, s.end)(seq![c])); assert(seq![c][0] == c); }
        },
        BaseRegLan::Concat(a, b) => { lemma_starts_cat(den(*a), den(*b), c); },
        BaseRegLan::Loop(a, r) => {
            let k = if r.bounded() { r.hi() } else { r.lo() + 1 };
            lemma_starts_loop(den(*a), |i: nat| r.has(i), k, c);
        },
        BaseRegLan::Union(v) => {
            if starts(den(e), c) {
                let w = choose|w: Seq<u32>| #[trigger] den(e)(w) && w.len() > 0 && w[0] == c;
                assert(uni(v@)(w));
                let i = choose|i: int| 0 <= i < v@.len() && den(*(#[trigger] v@[i]))(w);
                assert(starts(den(*v@[i]), c));
            }
            if kstarts(e.expr, c) {
                let i = choose|i: int| 0 <= i < v@.len() && starts(den(*(#[trigger] v@[i])), c);
                let w = choose|w: Seq<u32>| #[trigger] den(*v@[i])(w) && w.len() > 0 && w[0] == c;
                assert(uni(v@)(w));
                assert(den(e)(w));
            }
        },
        _ => {},
    }
}
pub proof fn lemma_starts_class(e: RE, cid: ClassId, c: u32, d: u32)
    requires good_node(e), e.deriv_class.in_class(cid, c), e.deriv_class.in_class(cid, d), c <= MAX_CHAR, d <= MAX_CHAR,
    ensures starts(den(e), c) == starts(den(e), d),
{
    lemma_starts(den(e), c); lemma_starts(den(e), d);
    assert(e.deriv_class.same(c, d));
    assert(l_quot(den(e), c) == l_quot(den(e), d));
}
/// x has the language of an iterated derivative of e
pub open spec fn is_deriv(e: RE, x: RE) -> bool { exists|u: Seq<u32>| good_word(u) && den(x) == #[trigger] l_wquot(den(e), u) }
/// s has a derivative of x for every character
pub open spec fn closed(s: Map<RegLan, ()>, x: RE) -> bool {
    forall|c: u32| c <= MAX_CHAR ==> has_quot(s, x, c)
}
pub open spec fn has_quot(s: Map<RegLan, ()>, x: RE, c: u32) -> bool { exists|y: RegLan| #[trigger] s.contains_key(y) && den(*y) == l_quot(den(x), c) }
/// state of the enumeration of the derivatives of e: s known terms, q the ones not expanded yet
pub open spec fn explored(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, e: RegLan) -> bool {
    &&& s.contains_key(e)
    &&& forall|x: RegLan| #[trigger] s.contains_key(x) ==> m.owns(*x) && is_deriv(*e, *x) && (q.contains(x) || closed(s, *x))
    &&& forall|i: int| 0 <= i < q.len() ==> s.contains_key(#[trigger] q[i])
    &&& q.no_duplicates()
}
pub proof fn lemma_self_deriv(e: RE)
    requires good_lang(den(e)),
    ensures is_deriv(e, e),
{
    lemma_wquot_eps(den(e));
    assert(good_word(eps()));
}
#[verifier::spinoff_prover]
pub proof fn lemma_explored_start(m: ReManager, e: RegLan)
    requires m.inv(), m.owns(*e),
    ensures explored(m, Map::<RegLan, ()>::empty().insert(e, ()), seq![e], e),
{
    hide(is_deriv); hide(closed); hide(ReManager::owns); hide(ReManager::inv); hide(wf); hide(good_node); hide(good_lang); hide(ReManager::owns_kids);
    m.lemma_owned_good(*e);
    lemma_self_deriv(*e);
    let s = Map::<RegLan, ()>::empty().insert(e, ());
    let q = seq![e];
    assert(q[0] == e);
    assert(q.contains(e));
    assert forall|x: RegLan| #[trigger] s.contains_key(x) implies m.owns(*x) && is_deriv(*e, *x) && (q.contains(x) || closed(s, *x)) by { assert(x == e); }
}
/// the table of known terms is a set of terms of m
pub open spec fn owned_set(m: ReManager, s: Map<RegLan, ()>) -> bool { forall|x: RegLan| #[trigger] s.contains_key(x) ==> m.owns(*x) }
pub proof fn lemma_set_key(m: ReManager, s: Map<RegLan, ()>, x: RegLan)
    requires owned_set(m, s), m.owns(*x),
    ensures crate::prelude::key_ok(s, x),
{
}
pub proof fn lemma_deriv_step(e: RE, x: RE, cid: ClassId, d: RE)
    requires is_deriv(e, x), good_node(x), x.deriv_class.valid(cid), forall|c: u32| #[trigger] x.deriv_class.in_class(cid, c) ==> den(d) == l_quot(den(x), c),
    ensures is_deriv(e, d),
{
    let u = choose|u: Seq<u32>| good_word(u) && den(x) == #[trigger] l_wquot(den(e), u);
    let c = lemma_class_member(classes(x), cid);
    lemma_wquot_step(den(e), u, c);
    assert(good_word(u.push(c)));
    assert(den(d) == l_wquot(den(e), u.push(c)));
}
pub proof fn lemma_class_member(p: CharPartition, cid: ClassId) -> (c: u32)
    requires p.wf(), p.valid(cid),
    ensures p.in_class(cid, c), c <= MAX_CHAR,
{
    match cid {
        ClassId::Interval(i) => { assert(p.list@[i as int].wf()); p.list@[i as int].start },
        ClassId::Complement => { choose|x: u32| x <= MAX_CHAR && !(#[trigger] p.covered(x)) },
    }
}
pub proof fn lemma_class_cover(p: CharPartition, c: u32)
    requires p.wf(), c <= MAX_CHAR,
    ensures exists|k: int| 0 <= k < class_seq(p).len() && p.in_class(#[trigger] class_seq(p)[k], c),
{
    lemma_len(p);
    if p.covered(c) {
        let i = choose|i: int| 0 <= i < p.list@.len() && (#[trigger] p.list@[i]).has(c);
        assert(p.in_class(class_seq(p)[i], c));
    } else {
        assert(p.has_complement());
        assert(p.in_class(class_seq(p)[p.list@.len() as int], c));
    }
}
/// a derivative for each of the first n classes of x is known
pub open spec fn classes_done(s: Map<RegLan, ()>, x: RE, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> class_done(s, x, #[trigger] class_seq(classes(x))[k])
}
pub open spec fn class_done(s: Map<RegLan, ()>, x: RE, cid: ClassId) -> bool {
    exists|y: RegLan| #[trigger] s.contains_key(y) && forall|c: u32| #[trigger] x.deriv_class.in_class(cid, c) ==> den(*y) == l_quot(den(x), c)
}
pub proof fn lemma_classes_done(s: Map<RegLan, ()>, x: RE)
    requires good_node(x), classes_done(s, x, class_seq(classes(x)).len() as int),
    ensures closed(s, x),
{
    assert forall|c: u32| c <= MAX_CHAR implies has_quot(s, x, c) by {
        lemma_class_cover(classes(x), c);
        let k = choose|k: int| 0 <= k < class_seq(classes(x)).len() && classes(x).in_class(#[trigger] class_seq(classes(x))[k], c);
        let cid = class_seq(classes(x))[k];
        assert(class_done(s, x, cid));
        let y = choose|y: RegLan| #[trigger] s.contains_key(y) && forall|c: u32| #[trigger] x.deriv_class.in_class(cid, c) ==> den(*y) == l_quot(den(x), c);
        assert(x.deriv_class.in_class(cid, c));
    }
}
pub proof fn lemma_closed_mono(s: Map<RegLan, ()>, t: Map<RegLan, ()>, x: RE)
    requires closed(s, x), forall|y: RegLan| #[trigger] s.contains_key(y) ==> t.contains_key(y),
    ensures closed(t, x),
{
    assert forall|c: u32| c <= MAX_CHAR implies has_quot(t, x, c) by {
        assert(has_quot(s, x, c));
        let y = choose|y: RegLan| #[trigger] s.contains_key(y) && den(*y) == l_quot(den(x), c);
        assert(t.contains_key(y));
    }
}
/// once everything is expanded, every quotient of e by a word is known
pub proof fn lemma_closure(m: ReManager, s: Map<RegLan, ()>, e: RegLan, w: Seq<u32>) -> (y: RegLan)
    requires explored(m, s, Seq::empty(), e), good_word(w),
    ensures s.contains_key(y), den(*y) == l_wquot(den(*e), w),
    decreases w.len(),
{
    if w.len() == 0 {
        lemma_wquot_eps(den(*e));
        assert(w =~= eps());
        e
    } else {
        let u = w.drop_last();
        let c = w.last();
        assert(good_word(u)) by { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] <= 0x2FFFF by { assert(u[i] == w[i]); } }
        assert(w[w.len() - 1] <= 0x2FFFF);
        let x = lemma_closure(m, s, e, u);
        lemma_wquot_step(den(*e), u, c);
        assert(u.push(c) =~= w);
        assert(closed(s, *x));
        assert(has_quot(s, *x, c));
        choose|y: RegLan| #[trigger] s.contains_key(y) && den(*y) == l_quot(den(*x), c)
    }
}
/// no known term is nullable
pub proof fn lemma_all_empty(m: ReManager, s: Map<RegLan, ()>, e: RegLan)
    requires m.inv(), explored(m, s, Seq::empty(), e), forall|x: RegLan| #[trigger] s.contains_key(x) ==> !x.nullable,
    ensures l_empty(den(*e)),
{
    m.lemma_owned(*e);
    assert forall|w: Seq<u32>| !#[trigger] den(*e)(w) by {
        if den(*e)(w) {
            let y = lemma_closure(m, s, e, w);
            m.lemma_owned(*y);
            assert(w + eps() =~= w);
            assert(l_wquot(den(*e), w)(eps()));
        }
    }
}
pub proof fn lemma_some_word(m: ReManager, e: RE, x: RE)
    requires m.inv(), m.owns(x), is_deriv(e, x), x.nullable,
    ensures !l_empty(den(e)),
{
    m.lemma_owned(x);
    let u = choose|u: Seq<u32>| good_word(u) && den(x) == #[trigger] l_wquot(den(e), u);
    assert(u + eps() =~= u);
    assert(l_wquot(den(e), u)(eps()));
    assert(den(e)(u));
}
/// the new elements of a queue are the new elements of its set, once each
pub open spec fn grown(s0: Map<RegLan, ()>, q0: Seq<RegLan>, s: Map<RegLan, ()>, q: Seq<RegLan>) -> bool {
    &&& q0.len() <= q.len() && q.take(q0.len() as int) == q0
    &&& forall|x: RegLan| #[trigger] s0.contains_key(x) ==> s.contains_key(x)
    &&& forall|i: int| q0.len() <= i < q.len() ==> s.contains_key(#[trigger] q[i]) && !s0.contains_key(q[i])
    &&& forall|x: RegLan| #[trigger] s.contains_key(x) && !s0.contains_key(x) ==> q.skip(q0.len() as int).contains(x)
    &&& q.skip(q0.len() as int).no_duplicates()
}
pub proof fn lemma_grown_start(s: Map<RegLan, ()>, q: Seq<RegLan>)
    ensures grown(s, q, s, q),
{
    assert(q.take(q.len() as int) =~= q);
    assert(q.skip(q.len() as int) =~= Seq::empty());
}
pub proof fn lemma_grown_push(s0: Map<RegLan, ()>, q0: Seq<RegLan>, s: Map<RegLan, ()>, q: Seq<RegLan>, d: RegLan)
    requires grown(s0, q0, s, q), !s.contains_key(d),
    ensures grown(s0, q0, s.insert(d, ()), q.push(d)),
{
    let n = q0.len() as int;
    let (t, p) = (s.insert(d, ()), q.push(d));
    assert(p.take(n) =~= q.take(n));
    assert(p.skip(n) =~= q.skip(n).push(d));
    assert forall|i: int| n <= i < p.len() implies t.contains_key(#[trigger] p[i]) && !s0.contains_key(p[i]) by { if i < q.len() { assert(p[i] == q[i]); } }
    assert forall|x: RegLan| #[trigger] t.contains_key(x) && !s0.contains_key(x) implies p.skip(n).contains(x) by {
        if x == d { assert(p.skip(n)[q.skip(n).len() as int] == x); }
        else { let i = q.skip(n).index_of(x); assert(q.skip(n).contains(x)); assert(p.skip(n)[i] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < p.skip(n).len() && 0 <= j < p.skip(n).len() && i != j implies p.skip(n)[i] != p.skip(n)[j] by {
        let a = q.skip(n);
        if i < a.len() { assert(a[i] == q[n + i]); assert(s.contains_key(q[n + i])); }
        if j < a.len() { assert(a[j] == q[n + j]); assert(s.contains_key(q[n + j])); }
    }
}
/// expanding the first element of the queue
pub proof fn lemma_expanded(m0: ReManager, m: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, s: Map<RegLan, ()>, q: Seq<RegLan>, e: RegLan)
    requires m0.inv(), m0.le(m), explored(m0, s0, q0, e), q0.len() > 0, grown(s0, q0.skip(1), s, q), owned_set(m, s),
        forall|x: RegLan| #[trigger] s.contains_key(x) ==> is_deriv(*e, *x), closed(s, *q0[0]),
    ensures explored(m, s, q, e),
{
    let p0 = q0.skip(1);
    let n = p0.len() as int;
    assert forall|x: RegLan| #[trigger] s.contains_key(x) implies q.contains(x) || closed(s, *x) by {
        if s0.contains_key(x) {
            if q0.contains(x) {
                let i = q0.index_of(x);
                if i == 0 { } else { assert(p0[i - 1] == x); assert(q.take(n)[i - 1] == x); assert(q[i - 1] == x); }
            } else { lemma_closed_mono(s0, s, *x); }
        } else {
            let i = q.skip(n).index_of(x); assert(q.skip(n).contains(x)); assert(q[n + i] == x);
        }
    }
    assert forall|i: int| 0 <= i < q.len() implies s.contains_key(#[trigger] q[i]) by { if i < n { assert(q.take(n)[i] == q[i]); assert(p0[i] == q0[i + 1]); assert(s0.contains_key(q0[i + 1])); } }
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
        if i < n { assert(q.take(n)[i] == q[i]); assert(p0[i] == q0[i + 1]); assert(s0.contains_key(q0[i + 1])); } else { assert(q.skip(n)[i - n] == q[i]); assert(!s0.contains_key(q[i])); }
        if j < n { assert(q.take(n)[j] == q[j]); assert(p0[j] == q0[j + 1]); assert(s0.contains_key(q0[j + 1])); } else { assert(q.skip(n)[j - n] == q[j]); assert(!s0.contains_key(q[j])); }
    }
}
/// the first n classes of the first term of q0 are expanded
pub open spec fn expanding(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, n: int) -> bool {
    &&& m0.inv() && m0.le(m) && m.inv()
    &&& q0.len() > 0 && m0.owns(*q0[0])
    &&& owned_set(m, s)
    &&& grown(s0, q0.skip(1), s, q)
    &&& classes_done(s, *q0[0], n)
    &&& forall|e: RegLan| #[trigger] explored(m0, s0, q0, e) ==> all_derivs(*e, s)
}
pub open spec fn all_derivs(e: RE, s: Map<RegLan, ()>) -> bool { forall|x: RegLan| #[trigger] s.contains_key(x) ==> is_deriv(e, *x) }
pub open spec fn some_explored(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>) -> bool { exists|e: RegLan| #[trigger] explored(m, s, q, e) }
#[verifier::spinoff_prover]
pub proof fn lemma_explored_parts(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, e: RegLan)
    requires explored(m, s, q, e),
    ensures all_derivs(*e, s), owned_set(m, s), forall|i: int| 0 <= i < q.len() ==> m.owns(*(#[trigger] q[i])), s.contains_key(e),
{
    hide(is_deriv); hide(closed); hide(ReManager::owns);
    assert forall|i: int| 0 <= i < q.len() implies m.owns(*(#[trigger] q[i])) by { assert(s.contains_key(q[i])); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_expanding_start(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>)
    requires m.inv(), q.len() > 0, some_explored(m, s, q),
    ensures expanding(m, s, q, m, s, q.skip(1), 0), good_node(*q[0]), m.owns(*q[0]),
{
    hide(explored); hide(grown); hide(all_derivs); hide(owned_set); hide(ReManager::inv); hide(ReManager::owns); hide(good_node);
    let e = choose|e: RegLan| #[trigger] explored(m, s, q, e);
    lemma_explored_parts(m, s, q, e);
    m.lemma_owned_good(*q[0]);
    lemma_grown_start(s, q.skip(1));
    assert forall|e: RegLan| #[trigger] explored(m, s, q, e) implies all_derivs(*e, s) by { lemma_explored_parts(m, s, q, e); }
}
pub proof fn lemma_classes_step(s: Map<RegLan, ()>, r: RE, n: int, d: RegLan)
    requires classes_done(s, r, n), 0 <= n < class_seq(classes(r)).len(),
        forall|c: u32| #[trigger] classes(r).in_class(class_seq(classes(r))[n], c) ==> den(*d) == l_quot(den(r), c),
    ensures classes_done(s.insert(d, ()), r, n + 1),
{
    let t = s.insert(d, ());
    assert forall|i: int| 0 <= i < n + 1 implies class_done(t, r, #[trigger] class_seq(classes(r))[i]) by {
        if i < n {
            let cc = class_seq(classes(r))[i];
            assert(class_done(s, r, cc));
            let y = choose|y: RegLan| #[trigger] s.contains_key(y) && forall|c: u32| #[trigger] r.deriv_class.in_class(cc, c) ==> den(*y) == l_quot(den(r), c);
            assert(t.contains_key(y));
        } else { assert(t.contains_key(d)); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_derivs_step(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, s: Map<RegLan, ()>, n: int, d: RegLan, e: RegLan)
    requires explored(m0, s0, q0, e), q0.len() > 0, all_derivs(*e, s), good_node(*q0[0]), 0 <= n < class_seq(classes(*q0[0])).len(),
        forall|c: u32| #[trigger] classes(*q0[0]).in_class(class_seq(classes(*q0[0]))[n], c) ==> den(*d) == l_quot(den(*q0[0]), c),
    ensures all_derivs(*e, s.insert(d, ())),
{
    hide(is_deriv); hide(closed); hide(ReManager::owns);
    let r = *q0[0];
    let cid = class_seq(classes(r))[n];
    lemma_class_seq(classes(r));
    assert(class_seq(classes(r)).contains(cid));
    assert(s0.contains_key(q0[0]));
    assert(classes(r).valid(cid));
    lemma_deriv_step(*e, r, cid, *d);
}
#[verifier::spinoff_prover]
pub proof fn lemma_expanding_mono(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, n: int, m2: ReManager)
    requires expanding(m0, s0, q0, m, s, q, n), m.le(m2), m2.inv(),
    ensures expanding(m0, s0, q0, m2, s, q, n),
{
    hide(explored); hide(grown); hide(all_derivs); hide(classes_done); hide(ReManager::inv); hide(good_node);
    assert(owned_set(m2, s)) by { assert forall|x: RegLan| #[trigger] s.contains_key(x) implies m2.owns(*x) by { assert(m.owns(*x)); } }
}
#[verifier::spinoff_prover]
pub proof fn lemma_expanding_step(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, n: int, m2: ReManager, d: RegLan)
    requires expanding(m0, s0, q0, m, s, q, n), m.le(m2), m2.inv(), m2.owns(*d), good_node(*q0[0]), 0 <= n < class_seq(classes(*q0[0])).len(),
        forall|c: u32| #[trigger] classes(*q0[0]).in_class(class_seq(classes(*q0[0]))[n], c) ==> den(*d) == l_quot(den(*q0[0]), c),
    ensures
        expanding(m0, s0, q0, m2, s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, n + 1),
        crate::prelude::key_ok(s, d),
{
    hide(explored); hide(grown); hide(all_derivs); hide(classes_done); hide(ReManager::inv); hide(good_node);
    let t = s.insert(d, ());
    let r = *q0[0];
    if s.contains_key(d) { assert(t =~= s); } else { lemma_grown_push(s0, q0.skip(1), s, q, d); }
    assert(owned_set(m2, s)) by { assert forall|x: RegLan| #[trigger] s.contains_key(x) implies m2.owns(*x) by { assert(m.owns(*x)); } }
    lemma_set_key(m2, s, d);
    lemma_classes_step(s, r, n, d);
    assert forall|e: RegLan| #[trigger] explored(m0, s0, q0, e) implies all_derivs(*e, t) by { lemma_derivs_step(m0, s0, q0, s, n, d, e); }
}
pub proof fn lemma_expanding_end(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, e: RegLan)
    requires expanding(m0, s0, q0, m, s, q, class_seq(classes(*q0[0])).len() as int), good_node(*q0[0]), explored(m0, s0, q0, e),
    ensures explored(m, s, q, e), grown(s0, q0.skip(1), s, q),
{
    lemma_classes_done(s, *q0[0]);
    assert(all_derivs(*e, s));
    lemma_expanded(m0, m, s0, q0, s, q, e);
}
/// no expanded term is nullable
pub open spec fn expanded_not_nullable(s: Map<RegLan, ()>, q: Seq<RegLan>) -> bool { forall|x: RegLan| #[trigger] s.contains_key(x) && !q.contains(x) ==> !x.nullable }
pub proof fn lemma_expanded_start(e: RegLan)
    ensures expanded_not_nullable(Map::<RegLan, ()>::empty().insert(e, ()), seq![e]),
{
    assert(seq![e][0] == e);
}
pub proof fn lemma_not_nullable(s0: Map<RegLan, ()>, q0: Seq<RegLan>, s: Map<RegLan, ()>, q: Seq<RegLan>)
    requires q0.len() > 0, grown(s0, q0.skip(1), s, q), expanded_not_nullable(s0, q0), !q0[0].nullable,
    ensures expanded_not_nullable(s, q),
{
    let p0 = q0.skip(1);
    let n = p0.len() as int;
    assert forall|x: RegLan| #[trigger] s.contains_key(x) && !q.contains(x) implies !x.nullable by {
        if s0.contains_key(x) {
            if q0.contains(x) {
                let i = q0.index_of(x);
                if i == 0 { } else { assert(p0[i - 1] == x); assert(q.take(n)[i - 1] == x); assert(q[i - 1] == x); }
            }
        } else {
            let i = q.skip(n).index_of(x); assert(q.skip(n).contains(x)); assert(q[n + i] == x);
        }
    }
}
pub proof fn lemma_known_deriv(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, e: RegLan)
    requires explored(m, s, q, e), q.len() > 0,
    ensures is_deriv(*e, *q[0]), m.owns(*q[0]),
{
    assert(s.contains_key(q[0]));
}
pub type PathMap = Map<RegLan, Edge<RegLan, ClassId>>;
pub open spec fn keys(m: PathMap) -> Map<RegLan, ()> { Map::new(m.dom(), |k: RegLan| ()) }
/// every recorded edge is a derivative step; e is the root
pub open spec fn path_map(m: PathMap, e: RegLan) -> bool { forall|k: RegLan| #[trigger] m.contains_key(k) ==> edge_ok(m[k], k, e) }
pub open spec fn edge_ok(x: Edge<RegLan, ClassId>, k: RegLan, e: RegLan) -> bool {
    match x { Edge::Empty => k == e, Edge::Pred(l, n) => class_step(*n, l, *k) }
}
/// y has the language of the derivative of x for class cid
pub open spec fn class_step(x: RE, cid: ClassId, y: RE) -> bool {
    &&& good_node(x) && x.deriv_class.valid(cid)
    &&& forall|c: u32| #[trigger] x.deriv_class.in_class(cid, c) ==> den(y) == l_quot(den(x), c)
}
pub open spec fn path_valid(p: Seq<(RegLan, ClassId)>) -> bool { forall|i: int| 0 <= i < p.len() ==> good_node(*(#[trigger] p[i]).0) && p[i].0.deriv_class.valid(p[i].1) }
/// one character of each class on the path
pub open spec fn fits(p: Seq<(RegLan, ClassId)>, w: Seq<u32>) -> bool {
    w.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] w[i]) <= MAX_CHAR && p[i].0.deriv_class.in_class(p[i].1, w[i])
}
pub proof fn lemma_path(m: PathMap, k: RegLan, e: RegLan, p: Seq<(RegLan, ClassId)>, w: Seq<u32>)
    requires path_map(m, e), m.contains_key(k), crate::labeled_queues::trace(m, m[k], p), fits(p, w), good_lang(den(*e)),
    ensures den(*k) == l_wquot(den(*e), w),
    decreases p.len(),
{
    assert(edge_ok(m[k], k, e));
    if p.len() == 0 {
        assert(w =~= eps());
        lemma_wquot_eps(den(*e));
    } else {
        let n = p.last().0;
        let v = w.drop_last();
        assert(fits(p.drop_last(), v)) by {
            assert forall|i: int| 0 <= i < p.drop_last().len() implies (#[trigger] v[i]) <= MAX_CHAR && p.drop_last()[i].0.deriv_class.in_class(p.drop_last()[i].1, v[i]) by { assert(v[i] == w[i]); }
        }
        lemma_path(m, n, e, p.drop_last(), v);
        lemma_wquot_step(den(*e), v, w.last());
        assert(v.push(w.last()) =~= w);
        assert(w[p.len() - 1] == w.last());
        assert(n.deriv_class.in_class(p.last().1, w.last()));
    }
}
pub proof fn lemma_path_valid(m: PathMap, k: RegLan, e: RegLan, p: Seq<(RegLan, ClassId)>)
    requires path_map(m, e), m.contains_key(k), crate::labeled_queues::trace(m, m[k], p),
    ensures path_valid(p),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(edge_ok(m[k], k, e));
        let q = p.drop_last();
        lemma_path_valid(m, p.last().0, e, q);
        assert forall|i: int| 0 <= i < p.len() implies good_node(*(#[trigger] p[i]).0) && p[i].0.deriv_class.valid(p[i].1) by { if i < q.len() { assert(q[i] == p[i]); } }
    }
}
pub proof fn lemma_path_word(m: PathMap, k: RegLan, e: RegLan, p: Seq<(RegLan, ClassId)>)
    requires path_map(m, e), m.contains_key(k), crate::labeled_queues::trace(m, m[k], p), good_lang(den(*e)), good_node(*k), k.nullable,
    ensures path_valid(p), forall|w: Seq<u32>| #[trigger] fits(p, w) ==> den(*e)(w),
{
    lemma_path_valid(m, k, e, p);
    assert forall|w: Seq<u32>| #[trigger] fits(p, w) implies den(*e)(w) by {
        lemma_path(m, k, e, p, w);
        assert(w + eps() =~= w);
        assert(l_wquot(den(*e), w)(eps()));
    }
}
pub proof fn lemma_keys_insert(m: PathMap, k: RegLan, x: Edge<RegLan, ClassId>)
    ensures keys(m.insert(k, x)) == keys(m).insert(k, ()), m.contains_key(k) ==> keys(m).insert(k, ()) == keys(m), keys(m).contains_key(k) == m.contains_key(k),
{
    assert(keys(m.insert(k, x)) =~= keys(m).insert(k, ()));
    if m.contains_key(k) { assert(keys(m).insert(k, ()) =~= keys(m)); }
}
pub proof fn lemma_path_map_insert(m: PathMap, e: RegLan, n: RegLan, l: ClassId, k: RegLan)
    requires path_map(m, e), class_step(*n, l, *k),
    ensures path_map(m.insert(k, Edge::Pred(l, n)), e),
{
    let t = m.insert(k, Edge::Pred(l, n));
    assert forall|j: RegLan| #[trigger] t.contains_key(j) implies edge_ok(t[j], j, e) by { if j != k { assert(m.contains_key(j)); } }
}
pub proof fn lemma_path_start(e: RegLan)
    ensures keys(Map::empty().insert(e, Edge::Empty)) == Map::<RegLan, ()>::empty().insert(e, ()), path_map(Map::empty().insert(e, Edge::Empty), e),
{
    assert(keys(Map::empty().insert(e, Edge::Empty)) =~= Map::<RegLan, ()>::empty().insert(e, ()));
}
pub proof fn lemma_path_member(m: ReManager, t: PathMap, q: Seq<RegLan>, e: RegLan)
    requires explored(m, keys(t), q, e), q.len() > 0,
    ensures t.contains_key(q[0]),
{
    assert(keys(t).contains_key(q[0]));
}
pub proof fn lemma_path_found(m: ReManager, t: PathMap, r: RegLan, e: RegLan)
    requires m.inv(), m.owns(*r), path_map(t, e), t.contains_key(r), is_deriv(*e, *r), good_lang(den(*e)), good_node(*r), r.nullable,
    ensures !l_empty(den(*e)), forall|p: Seq<(RegLan, ClassId)>| #[trigger] crate::labeled_queues::trace(t, t[r], p) ==> path_valid(p) && forall|w: Seq<u32>| #[trigger] fits(p, w) ==> den(*e)(w),
{
    hide(is_deriv); hide(path_map); hide(path_valid); hide(fits); hide(ReManager::inv);
    lemma_some_word(m, *e, *r);
    assert forall|p: Seq<(RegLan, ClassId)>| #[trigger] crate::labeled_queues::trace(t, t[r], p) implies path_valid(p) && forall|w: Seq<u32>| #[trigger] fits(p, w) ==> den(*e)(w) by { lemma_path_word(t, r, e, p); }
}
pub proof fn lemma_path_key(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, t: PathMap, q: Seq<RegLan>, n: int, d: RegLan)
    requires expanding(m0, s0, q0, m, keys(t), q, n), m.owns(*d),
    ensures crate::prelude::key_ok(t, d),
{
    assert(owned_set(m, keys(t)));
    assert forall|x: RegLan| #[trigger] t.contains_key(x) implies m.owns(*x) by { assert(keys(t).contains_key(x)); }
}
/// state of the search for a member string: the classes of the first n class ids of the first term of q0 are expanded
pub open spec fn path_expanding(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, t: PathMap, q: Seq<RegLan>, n: int, e: RegLan) -> bool {
    &&& expanding(m0, s0, q0, m, keys(t), q, n)
    &&& path_map(t, e) && t.contains_key(q0[0])
    &&& explored(m0, s0, q0, e)
    &&& good_node(*q0[0])
}
#[verifier::spinoff_prover]
pub proof fn lemma_path_expanding_start(m: ReManager, t: PathMap, q: Seq<RegLan>, e: RegLan)
    requires m.inv(), explored(m, keys(t), q, e), q.len() > 0, path_map(t, e),
    ensures path_expanding(m, keys(t), q, m, t, q.skip(1), 0, e), m.owns(*q[0]), is_deriv(*e, *q[0]), t.contains_key(q[0]), good_node(*q[0]),
{
    hide(explored); hide(expanding); hide(path_map); hide(is_deriv); hide(good_node); hide(ReManager::inv);
    assert(some_explored(m, keys(t), q));
    lemma_path_member(m, t, q, e);
    lemma_known_deriv(m, keys(t), q, e);
    lemma_expanding_start(m, keys(t), q);
}
#[verifier::spinoff_prover]
pub proof fn lemma_path_expanding_step(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, t: PathMap, q: Seq<RegLan>, n: int, e: RegLan, m2: ReManager, d: RegLan)
    requires path_expanding(m0, s0, q0, m, t, q, n, e), m.le(m2), m2.inv(), m2.owns(*d), 0 <= n < class_seq(classes(*q0[0])).len(),
        forall|c: u32| #[trigger] classes(*q0[0]).in_class(class_seq(classes(*q0[0]))[n], c) ==> den(*d) == l_quot(den(*q0[0]), c),
    ensures
        crate::prelude::key_ok(t, d),
        path_expanding(m0, s0, q0, m2, if t.contains_key(d) { t } else { t.insert(d, Edge::Pred(class_seq(classes(*q0[0]))[n], q0[0])) }, if t.contains_key(d) { q } else { q.push(d) }, n + 1, e),
{
    hide(explored); hide(expanding); hide(path_map); hide(is_deriv); hide(ReManager::inv);
    let cid = class_seq(classes(*q0[0]))[n];
    lemma_class_seq(classes(*q0[0]));
    assert(class_seq(classes(*q0[0])).contains(cid));
    assert(class_step(*q0[0], cid, *d));
    lemma_expanding_step(m0, s0, q0, m, keys(t), q, n, m2, d);
    lemma_expanding_mono(m0, s0, q0, m, keys(t), q, n, m2);
    lemma_path_key(m0, s0, q0, m2, t, q, n, d);
    lemma_keys_insert(t, d, Edge::Pred(cid, q0[0]));
    lemma_path_map_insert(t, e, q0[0], cid, d);
}
#[verifier::spinoff_prover]
pub proof fn lemma_path_expanding_end(m0: ReManager, s0: Map<RegLan, ()>, q0: Seq<RegLan>, m: ReManager, t: PathMap, q: Seq<RegLan>, e: RegLan)
    requires path_expanding(m0, s0, q0, m, t, q, class_seq(classes(*q0[0])).len() as int, e), q0.len() > 0, expanded_not_nullable(s0, q0), !q0[0].nullable,
    ensures explored(m, keys(t), q, e), path_map(t, e), expanded_not_nullable(keys(t), q),
{
    hide(explored); hide(expanding); hide(path_map); hide(expanded_not_nullable); hide(grown);
    lemma_expanding_end(m0, s0, q0, m, keys(t), q, e);
    lemma_not_nullable(s0, q0, keys(t), q);
}
pub proof fn lemma_class_at(e: RE, n: int, cid: ClassId)
    requires good_node(e), 0 <= n < class_seq(classes(e)).len(), cid == class_seq(classes(e))[n],
    ensures e.deriv_class.valid(cid), classes(e).wf(),
{
    lemma_class_seq(classes(e));
    assert(class_seq(classes(e)).contains(cid));
}
pub proof fn lemma_classes_wf(e: RE)
    requires good_node(e),
    ensures classes(e).wf(), class_seq(classes(e)).skip(0) == class_seq(classes(e)),
{
    assert(class_seq(classes(e)).skip(0) =~= class_seq(classes(e)));
}
impl<'a> DerivativeIterator<'a> {
    /// the derivatives of e are being enumerated
    pub open spec fn of(self, e: RegLan) -> bool { self.manager.inv() && explored(*self.manager, self.queue.set@, self.queue.queue@, e) }
    pub open spec fn ok(self) -> bool { self.manager.inv() && some_explored(*self.manager, self.queue.set@, self.queue.queue@) }
}
pub proof fn lemma_loop_sum(a: Lang, r: LoopRange, s: LoopRange, t: LoopRange)
    requires forall|n: nat| #[trigger] t.has(n) <==> sum_has(r, s, n),
    ensures l_loop(a, range_set(t)) == l_cat(l_loop(a, range_set(r)), l_loop(a, range_set(s))),
{
    let (rs, ss, ts) = (range_set(r), range_set(s), range_set(t));
    assert forall|n: nat| #[trigger] ts(n) <==> exists|i: nat, j: nat| #[trigger] rs(i) && #[trigger] ss(j) && i + j == n by {
        if ts(n) {
            assert(t.has(n));
            let (i, j) = choose|x: nat, y: nat| #[trigger] r.has(x) && #[trigger] s.has(y) && n == x + y;
            assert(rs(i) && ss(j));
        }
        if exists|i: nat, j: nat| #[trigger] rs(i) && #[trigger] ss(j) && i + j == n {
            let (i, j) = choose|i: nat, j: nat| #[trigger] rs(i) && #[trigger] ss(j) && i + j == n;
            assert(r.has(i) && s.has(j));
            assert(t.has(n));
        }
    }
    lemma_loop_cat(a, rs, ss, ts);
}
pub proof fn lemma_loop_k(a: Lang, k: u32)
    ensures l_loop(a, range_set(LoopRange(k, Some(k)))) == l_pow(a, k as nat),
{
    lemma_loop_point(a, range_set(LoopRange(k, Some(k))), k as nat);
}
/// R . R^rng and R^rng . R
pub proof fn lemma_loop_step(a: Lang, rng: LoopRange, t: LoopRange)
    ensures (forall|n: nat| #[trigger] t.has(n) <==> sum_has(rng, LoopRange(1, Some(1)), n)) ==>
        l_loop(a, range_set(t)) == l_cat(l_loop(a, range_set(rng)), a) && l_loop(a, range_set(t)) == l_cat(a, l_loop(a, range_set(rng))),
{
    if forall|n: nat| #[trigger] t.has(n) <==> sum_has(rng, LoopRange(1, Some(1)), n) {
        let one = LoopRange(1, Some(1));
        lemma_loop_k(a, 1);
        lemma_pow1(a);
        lemma_loop_sum(a, rng, one, t);
        assert forall|n: nat| #[trigger] t.has(n) <==> sum_has(one, rng, n) by {
            if sum_has(rng, one, n) { let (x, y) = choose|x: nat, y: nat| #[trigger] rng.has(x) && #[trigger] one.has(y) && n == x + y; assert(one.has(y) && rng.has(x)); }
            if sum_has(one, rng, n) { let (x, y) = choose|x: nat, y: nat| #[trigger] one.has(x) && #[trigger] rng.has(y) && n == x + y; assert(rng.has(y) && one.has(x)); }
        }
        lemma_loop_sum(a, one, rng, t);
    }
}
pub proof fn lemma_loop_join(a: Lang, r: LoopRange, s: LoopRange, t: LoopRange)
    ensures (forall|n: nat| #[trigger] t.has(n) <==> sum_has(r, s, n)) ==> l_loop(a, range_set(t)) == l_cat(l_loop(a, range_set(r)), l_loop(a, range_set(s))),
{
    if forall|n: nat| #[trigger] t.has(n) <==> sum_has(r, s, n) { lemma_loop_sum(a, r, s, t); }
}
pub proof fn lemma_square(a: Lang)
    ensures l_loop(a, range_set(LoopRange(2, Some(2)))) == l_cat(a, a),
{
    lemma_loop_k(a, 2);
    lemma_pow_step(a, 2);
    lemma_pow1(a);
}
pub proof fn lemma_nsum_ksum(r: LoopRange, k: nat, n: nat)
    ensures nsum(range_set(r), k, n) <==> ksum(r, k, n),
    decreases k,
{
    if k > 0 {
        let k1 = (k - 1) as nat;
        let rs = range_set(r);
        if nsum(rs, k, n) {
            let x = choose|x: nat| #[trigger] rs(x) && x <= n && nsum(rs, k1, (n - x) as nat);
            lemma_nsum_ksum(r, k1, (n - x) as nat);
            assert(r.has(x));
        }
        if ksum(r, k, n) {
            let x = choose|x: nat| #[trigger] r.has(x) && x <= n && ksum(r, k1, (n - x) as nat);
            lemma_nsum_ksum(r, k1, (n - x) as nat);
            assert(rs(x));
        }
    }
}
/// (R^r)^s = R^t when every product is an iterated sum
pub proof fn lemma_loop_mul(a: Lang, r: LoopRange, s: LoopRange, t: LoopRange)
    ensures (forall|n: nat| #[trigger] t.has(n) <==> r.mul_has(s, n)) && (forall|n: nat| #[trigger] r.fold_has(s, n) <==> r.mul_has(s, n)) ==>
        l_loop(l_loop(a, range_set(r)), range_set(s)) == l_loop(a, range_set(t)),
{
    if (forall|n: nat| #[trigger] t.has(n) <==> r.mul_has(s, n)) && (forall|n: nat| #[trigger] r.fold_has(s, n) <==> r.mul_has(s, n)) {
        let (rs, ss, ts) = (range_set(r), range_set(s), range_set(t));
        assert forall|n: nat| #[trigger] ts(n) <==> exists|k: nat| #[trigger] ss(k) && nsum(rs, k, n) by {
            assert(r.fold_has(s, n) <==> t.has(n));
            if ts(n) { let y = choose|y: nat| #[trigger] s.has(y) && ksum(r, y, n); lemma_nsum_ksum(r, y, n); assert(ss(y)); }
            if exists|k: nat| #[trigger] ss(k) && nsum(rs, k, n) { let k = choose|k: nat| #[trigger] ss(k) && nsum(rs, k, n); lemma_nsum_ksum(r, k, n); assert(s.has(k)); }
        }
        lemma_loop_loop(a, rs, ss, ts);
    }
}
pub proof fn lemma_mul_nonzero(r: LoopRange, s: LoopRange)
    requires r.wf(), s.wf(), !r.zero(), !s.zero(),
    ensures exists|x: nat, y: nat| r.has(x) && s.has(y) && #[trigger] (x * y) > 0,
{
    let x: nat = if r.bounded() { r.hi() } else if r.lo() == 0 { 1 } else { r.lo() };
    let y: nat = if s.bounded() { s.hi() } else if s.lo() == 0 { 1 } else { s.lo() };
    assert(r.has(x) && s.has(y));
    assert(x * y > 0) by (nonlinear_arith) requires x > 0, y > 0;
}
/// two terms of one manager
pub open spec fn together(a: RE, b: RE) -> bool { exists|m: ReManager| m.inv() && #[trigger] m.owns(a) && m.owns(b) }
// ---- compilation to an automaton: s known terms, q the ones without transitions yet, ids and sp the builder's content
/// std: derived Clone of an expression copies it
#[verifier::external_body]
pub proof fn axiom_clone_expr()
    ensures exact_clone::<BaseRegLan>(),
{ }
/// state j stands for the derivative of x for class cid
pub open spec fn leads(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, x: RE, cid: ClassId, j: usize) -> bool {
    exists|y: RegLan| #[trigger] s.contains_key(y) && ids[y.expr] == j && forall|c: u32| #[trigger] x.deriv_class.in_class(cid, c) ==> den(*y) == l_quot(den(x), c)
}
pub open spec fn move_ok(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, tr: Seq<(CharSet, usize)>, x: RE, k: int) -> bool {
    tr[k].0 == classes(x).list@[k] && leads(s, ids, x, ClassId::Interval(k as usize), tr[k].1)
}
pub open spec fn moves_ok(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, tr: Seq<(CharSet, usize)>, x: RE, n: int) -> bool {
    tr.len() == n && n <= classes(x).list@.len() && forall|k: int| 0 <= k < n ==> #[trigger] move_ok(s, ids, tr, x, k)
}
pub open spec fn def_ok(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, d: Option<usize>, x: RE) -> bool {
    match d { None => !classes(x).has_complement(), Some(j) => classes(x).has_complement() && leads(s, ids, x, ClassId::Complement, j) }
}
/// the specification of the state of x is complete
pub open spec fn state_done(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, p: StateSpec, x: RE) -> bool {
    p.fin == x.nullable && moves_ok(s, ids, p.tr, x, classes(x).list@.len() as int) && def_ok(s, ids, p.def, x)
}
pub open spec fn has_expr(s: Map<RegLan, ()>, k: BaseRegLan) -> bool { exists|x: RegLan| #[trigger] s.contains_key(x) && x.expr == k }
/// one state per known term
pub open spec fn linked(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>) -> bool {
    &&& forall|x: RegLan| #[trigger] s.contains_key(x) ==> ids.contains_key(x.expr)
    &&& forall|k: BaseRegLan| #[trigger] ids.contains_key(k) ==> has_expr(s, k)
}
pub open spec fn drawn_at(s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, x: RegLan) -> bool {
    if q.contains(x) { sp[ids[x.expr] as int] == StateSpec::fresh() } else { state_done(s, ids, sp[ids[x.expr] as int], *x) }
}
/// every known term but r is either complete or untouched
pub open spec fn drawn(s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: Option<RegLan>) -> bool {
    forall|x: RegLan| #[trigger] s.contains_key(x) ==> r == Some(x) || drawn_at(s, q, ids, sp, x)
}
pub open spec fn numbering(ids: Map<BaseRegLan, usize>, n: nat) -> bool {
    &&& forall|k: BaseRegLan| #[trigger] ids.contains_key(k) ==> ids[k] < n
    &&& forall|k: BaseRegLan, l: BaseRegLan| #[trigger] ids.contains_key(k) && #[trigger] ids.contains_key(l) && ids[k] == ids[l] ==> k == l
}
/// a numbering of the known terms, all of them terms of m
pub open spec fn graph(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, n: nat) -> bool {
    m.inv() && owned_set(m, s) && linked(s, ids) && numbering(ids, n) && n <= usize::MAX
}
/// owned terms with the same expression are the same term
pub proof fn lemma_expr_key(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, d: RE)
    requires m.inv(), owned_set(m, s), linked(s, ids), m.owns(d),
    ensures key_ok(ids, d.expr), forall|x: RegLan| #[trigger] s.contains_key(x) && x.expr == d.expr ==> *x == d,
{
    m.lemma_owned(d);
    assert forall|j: BaseRegLan| #[trigger] ids.contains_key(j) && PartialEqSpec::eq_spec(&j, &d.expr) implies j == d.expr by {
        assert(has_expr(s, j));
        let x = choose|x: RegLan| #[trigger] s.contains_key(x) && x.expr == j;
        m.lemma_owned(*x);
        m.lemma_key_eq(j, d.expr);
    }
    assert forall|x: RegLan| #[trigger] s.contains_key(x) && x.expr == d.expr implies *x == d by { m.lemma_owned(*x); }
}
pub proof fn lemma_expr_key2(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RE, d: RE)
    requires m.inv(), owned_set(m, s), linked(s, ids), m.owns(d), m.owns(r), ids.contains_key(r.expr),
    ensures key_ok(ids, d.expr), key_ok(ids, r.expr), key_ok(reg_map(ids, sp, r.expr), d.expr), reg_map(ids, sp, r.expr) == ids, reg_specs(ids, sp, r.expr) == sp,
{
    lemma_expr_key(m, s, ids, d);
    lemma_expr_key(m, s, ids, r);
}
pub proof fn lemma_leads_mono(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, s2: Map<RegLan, ()>, ids2: Map<BaseRegLan, usize>, x: RE, cid: ClassId, j: usize)
    requires leads(s, ids, x, cid, j), grows(s, ids, s2, ids2),
    ensures leads(s2, ids2, x, cid, j),
{
    let y = choose|y: RegLan| #[trigger] s.contains_key(y) && ids[y.expr] == j && forall|c: u32| #[trigger] x.deriv_class.in_class(cid, c) ==> den(*y) == l_quot(den(x), c);
    assert(s2.contains_key(y));
}
pub open spec fn grows(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, s2: Map<RegLan, ()>, ids2: Map<BaseRegLan, usize>) -> bool {
    forall|y: RegLan| #[trigger] s.contains_key(y) ==> s2.contains_key(y) && ids2[y.expr] == ids[y.expr]
}
pub proof fn lemma_moves_mono(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, s2: Map<RegLan, ()>, ids2: Map<BaseRegLan, usize>, tr: Seq<(CharSet, usize)>, x: RE, n: int)
    requires moves_ok(s, ids, tr, x, n), grows(s, ids, s2, ids2),
    ensures moves_ok(s2, ids2, tr, x, n),
{
    hide(leads); hide(grows);
    assert forall|k: int| 0 <= k < n implies #[trigger] move_ok(s2, ids2, tr, x, k) by {
        assert(move_ok(s, ids, tr, x, k));
        lemma_leads_mono(s, ids, s2, ids2, x, ClassId::Interval(k as usize), tr[k].1);
    }
}
pub proof fn lemma_done_mono(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, s2: Map<RegLan, ()>, ids2: Map<BaseRegLan, usize>, p: StateSpec, x: RE)
    requires state_done(s, ids, p, x), grows(s, ids, s2, ids2),
    ensures state_done(s2, ids2, p, x),
{
    hide(leads); hide(grows); hide(moves_ok);
    lemma_moves_mono(s, ids, s2, ids2, p.tr, x, classes(x).list@.len() as int);
    if p.def is Some { lemma_leads_mono(s, ids, s2, ids2, x, ClassId::Complement, p.def->0); }
}
/// d gets a state
pub proof fn lemma_register(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan, d: RegLan)
    requires graph(m, s, ids, sp.len()), drawn(s, q, ids, sp, Some(r)), s.contains_key(r), m.owns(*d), reg_specs(ids, sp, d.expr).len() <= usize::MAX, !q.contains(r),
    ensures ({
        let (s2, q2, ids2, sp2) = (s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, reg_map(ids, sp, d.expr), reg_specs(ids, sp, d.expr));
        &&& graph(m, s2, ids2, sp2.len()) && drawn(s2, q2, ids2, sp2, Some(r)) && grows(s, ids, s2, ids2) && !q2.contains(r)
        &&& sp2.len() - q2.len() == sp.len() - q.len()
        &&& sp2[ids2[r.expr] as int] == sp[ids[r.expr] as int] && ids2.contains_key(d.expr) && ids2.contains_key(r.expr) && ids2[r.expr] < sp2.len()
        &&& s2.contains_key(d)
    }),
{
    hide(state_done); hide(ReManager::inv); hide(ReManager::owns);
    let (s2, q2, ids2, sp2) = (s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, reg_map(ids, sp, d.expr), reg_specs(ids, sp, d.expr));
    lemma_expr_key(m, s, ids, *d);
    assert(ids.contains_key(d.expr) <==> s.contains_key(d)) by {
        if ids.contains_key(d.expr) { assert(has_expr(s, d.expr)); }
    }
    if s.contains_key(d) {
        assert(s2 =~= s);
    } else {
        assert(grows(s, ids, s2, ids2)) by { assert forall|y: RegLan| #[trigger] s.contains_key(y) implies s2.contains_key(y) && ids2[y.expr] == ids[y.expr] by { assert(ids.contains_key(y.expr)); } }
        assert forall|k: BaseRegLan| #[trigger] ids2.contains_key(k) implies has_expr(s2, k) by {
            if k == d.expr { assert(s2.contains_key(d)); }
            else { assert(has_expr(s, k)); let x = choose|x: RegLan| #[trigger] s.contains_key(x) && x.expr == k; assert(s2.contains_key(x)); }
        }
        assert forall|x: RegLan| #[trigger] s2.contains_key(x) implies Some(r) == Some(x) || drawn_at(s2, q2, ids2, sp2, x) by {
            if x == d { assert(q2[q.len() as int] == d); }
            else {
                assert(s.contains_key(x)); assert(ids.contains_key(x.expr));
                if Some(r) != Some(x) {
                    assert(drawn_at(s, q, ids, sp, x));
                    if q.contains(x) { let i = q.index_of(x); assert(q2[i] == x); }
                    else {
                        if q2.contains(x) { let i = q2.index_of(x); if i < q.len() { assert(q[i] == x); } }
                        lemma_done_mono(s, ids, s2, ids2, sp[ids[x.expr] as int], *x);
                    }
                }
            }
        }
        if q2.contains(r) { let i = q2.index_of(r); if i < q.len() { assert(q[i] == r); } }
    }
}
/// changing the specification of the state of r
pub proof fn lemma_update(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan, p: StateSpec)
    requires graph(m, s, ids, sp.len()), drawn(s, q, ids, sp, Some(r)), s.contains_key(r),
    ensures drawn(s, q, ids, sp.update(ids[r.expr] as int, p), Some(r)), graph(m, s, ids, sp.update(ids[r.expr] as int, p).len()),
{
    hide(state_done); hide(ReManager::inv); hide(ReManager::owns);
    let sp2 = sp.update(ids[r.expr] as int, p);
    assert(m.owns(*r));
    lemma_expr_key(m, s, ids, *r);
    assert(ids.contains_key(r.expr));
    assert forall|x: RegLan| #[trigger] s.contains_key(x) implies Some(r) == Some(x) || drawn_at(s, q, ids, sp2, x) by {
        if Some(r) != Some(x) {
            assert(drawn_at(s, q, ids, sp, x));
            assert(ids.contains_key(x.expr));
            assert(ids[x.expr] != ids[r.expr]);
        }
    }
}
/// expanding the first term of the queue: what holds after n transitions
pub open spec fn drawing(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan, n: int) -> bool {
    &&& graph(m, s, ids, sp.len()) && drawn(s, q, ids, sp, Some(r)) && s.contains_key(r) && !q.contains(r)
    &&& ({
        let p = sp[ids[r.expr] as int];
        !p.fin && p.def is None && moves_ok(s, ids, p.tr, *r, n)
    })
}
#[verifier::spinoff_prover]
pub proof fn lemma_drawing_start(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>)
    requires graph(m, s, ids, sp.len()), drawn(s, q, ids, sp, None), q.len() > 0, some_explored(m, s, q),
    ensures drawing(m, s, q.skip(1), ids, sp, q[0], 0),
{
    hide(state_done); hide(ReManager::inv); hide(ReManager::owns); hide(is_deriv); hide(closed); hide(linked); hide(numbering);
    let r = q[0];
    let q2 = q.skip(1);
    let e = choose|e: RegLan| #[trigger] explored(m, s, q, e);
    assert(s.contains_key(r));
    assert(q.contains(r));
    assert(drawn_at(s, q, ids, sp, r));
    if q2.contains(r) { let i = q2.index_of(r); assert(q[i + 1] == r); }
    assert forall|x: RegLan| #[trigger] s.contains_key(x) implies Some(r) == Some(x) || drawn_at(s, q2, ids, sp, x) by {
        if Some(r) != Some(x) {
            assert(drawn_at(s, q, ids, sp, x));
            if q.contains(x) { let i = q.index_of(x); assert(q2[i - 1] == x); }
            if q2.contains(x) { let i = q2.index_of(x); assert(q[i + 1] == x); }
        }
    }
}
pub open spec fn with_move(p: StateSpec, c: CharSet, j: usize) -> StateSpec { StateSpec { tr: p.tr.push((c, j)), ..p } }
pub open spec fn with_def(p: StateSpec, j: usize) -> StateSpec { StateSpec { def: Some(j), ..p } }
pub open spec fn with_fin(p: StateSpec) -> StateSpec { StateSpec { fin: true, ..p } }
pub open spec fn changed(sp: Seq<StateSpec>, i: usize, p: StateSpec) -> Seq<StateSpec> { sp.update(i as int, p) }
/// the next transition
#[verifier::spinoff_prover]
pub proof fn lemma_draw_move(m: ReManager, m2: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan, n: int, c: CharSet, d: RegLan)
    requires
        drawing(m, s, q, ids, sp, r, n), m.le(m2), m2.inv(), m2.owns(*d), reg_specs(ids, sp, d.expr).len() <= usize::MAX,
        0 <= n < classes(*r).list@.len(), c == classes(*r).list@[n], n <= usize::MAX, 
        forall|x: u32| #[trigger] classes(*r).in_class(ClassId::Interval(n as usize), x) ==> den(*d) == l_quot(den(*r), x),
    ensures ({
        let (s2, q2, ids2, sp1) = (s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, reg_map(ids, sp, d.expr), reg_specs(ids, sp, d.expr));
        let i = ids2[r.expr];
        let sp2 = changed(sp1, i, with_move(sp1[i as int], c, ids2[d.expr]));
        drawing(m2, s2, q2, ids2, sp2, r, n + 1) && sp2.len() - q2.len() == sp.len() - q.len()
    }),
{
    hide(state_done); hide(ReManager::inv); hide(drawn); hide(linked); hide(numbering); hide(leads);
    let (s2, q2, ids2, sp1) = (s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, reg_map(ids, sp, d.expr), reg_specs(ids, sp, d.expr));
    assert(owned_set(m2, s)) by { assert forall|x: RegLan| #[trigger] s.contains_key(x) implies m2.owns(*x) by { assert(m.owns(*x)); } }
    lemma_register(m2, s, q, ids, sp, r, d);
    let i = ids2[r.expr];
    let p = sp1[i as int];
    lemma_moves_mono(s, ids, s2, ids2, p.tr, *r, n);
    let p2 = with_move(p, c, ids2[d.expr]);
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] move_ok(s2, ids2, p2.tr, *r, k) by {
        if k < n { assert(move_ok(s2, ids2, p.tr, *r, k)); } else { reveal(leads); assert(s2.contains_key(d)); }
    }
    lemma_update(m2, s2, q2, ids2, sp1, r, p2);
}
/// the default transition
#[verifier::spinoff_prover]
pub proof fn lemma_draw_def(m: ReManager, m2: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan, d: RegLan)
    requires
        drawing(m, s, q, ids, sp, r, classes(*r).list@.len() as int), m.le(m2), m2.inv(), m2.owns(*d), reg_specs(ids, sp, d.expr).len() <= usize::MAX,
        classes(*r).has_complement(),
        forall|x: u32| #[trigger] classes(*r).in_class(ClassId::Complement, x) ==> den(*d) == l_quot(den(*r), x),
    ensures ({
        let (s2, q2, ids2, sp1) = (s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, reg_map(ids, sp, d.expr), reg_specs(ids, sp, d.expr));
        let i = ids2[r.expr];
        let sp2 = changed(sp1, i, with_def(sp1[i as int], ids2[d.expr]));
        drawing_end(m2, s2, q2, ids2, sp2, r) && sp2.len() - q2.len() == sp.len() - q.len()
    }),
{
    hide(state_done); hide(ReManager::inv); hide(drawn); hide(linked); hide(numbering); hide(leads);
    let (s2, q2, ids2, sp1) = (s.insert(d, ()), if s.contains_key(d) { q } else { q.push(d) }, reg_map(ids, sp, d.expr), reg_specs(ids, sp, d.expr));
    assert(owned_set(m2, s)) by { assert forall|x: RegLan| #[trigger] s.contains_key(x) implies m2.owns(*x) by { assert(m.owns(*x)); } }
    lemma_register(m2, s, q, ids, sp, r, d);
    let i = ids2[r.expr];
    let p = sp1[i as int];
    lemma_moves_mono(s, ids, s2, ids2, p.tr, *r, classes(*r).list@.len() as int);
    let p2 = with_def(p, ids2[d.expr]);
    assert(leads(s2, ids2, *r, ClassId::Complement, ids2[d.expr])) by { reveal(leads); assert(s2.contains_key(d)); }
    lemma_update(m2, s2, q2, ids2, sp1, r, p2);
}
pub open spec fn drawing_end(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan) -> bool {
    &&& graph(m, s, ids, sp.len()) && drawn(s, q, ids, sp, Some(r)) && s.contains_key(r) && !q.contains(r)
    &&& ({
        let p = sp[ids[r.expr] as int];
        !p.fin && def_ok(s, ids, p.def, *r) && moves_ok(s, ids, p.tr, *r, classes(*r).list@.len() as int)
    })
}
/// finality
#[verifier::spinoff_prover]
pub proof fn lemma_draw_end(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan)
    requires drawing_end(m, s, q, ids, sp, r),
    ensures ({
        let i = ids[r.expr];
        let sp2 = if r.nullable { changed(sp, i, with_fin(sp[i as int])) } else { sp };
        drawn(s, q, ids, sp2, None) && graph(m, s, ids, sp2.len()) && sp2.len() == sp.len()
    }),
{
    hide(ReManager::inv); hide(leads); hide(def_ok); hide(moves_ok);
    let i = ids[r.expr];
    lemma_update(m, s, q, ids, sp, r, with_fin(sp[i as int]));
    let sp2 = if r.nullable { changed(sp, i, with_fin(sp[i as int])) } else { sp };
    assert(ids.contains_key(r.expr));
    assert(sp2[i as int].tr == sp[i as int].tr);
    assert(state_done(s, ids, sp2[i as int], *r));
    assert(drawn_at(s, q, ids, sp2, r));
    assert(drawn(s, q, ids, sp2, Some(r)));
}
#[verifier::spinoff_prover]
pub proof fn lemma_drawn_start(m: ReManager, e: RegLan)
    requires m.inv(), m.owns(*e),
    ensures
        graph(m, Map::<RegLan, ()>::empty().insert(e, ()), Map::<BaseRegLan, usize>::empty().insert(e.expr, 0), 1),
        drawn(Map::<RegLan, ()>::empty().insert(e, ()), seq![e], Map::<BaseRegLan, usize>::empty().insert(e.expr, 0), seq![StateSpec::fresh()], None),
{
    hide(state_done); hide(ReManager::inv); hide(ReManager::owns);
    let (s, q, ids) = (Map::<RegLan, ()>::empty().insert(e, ()), seq![e], Map::<BaseRegLan, usize>::empty().insert(e.expr, 0));
    assert(s.contains_key(e)); assert(q[0] == e);
}
// the compiled automaton
/// a complete specification can be built without checks
#[verifier::spinoff_prover]
pub proof fn lemma_done_clean(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, p: StateInConstruction, x: RE)
    requires state_done(s, ids, p.v(), x), good_node(x),
    ensures p.clean(), p.default_needed(),
{
    hide(leads);
    let t = p.transitions@;
    let l = classes(x).list@;
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 == l[k] by { assert(move_ok(s, ids, t, x, k)); }
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0.wf() by { assert(l[k].wf()); }
    assert forall|i: int, k: int| 0 <= i < k < labels(t).len() implies (#[trigger] labels(t)[i]).disjoint(#[trigger] labels(t)[k]) by {
        assert(t[i].0 == l[i] && t[k].0 == l[k]); assert(l[i].end < l[k].start);
    }
    if !classes(x).has_complement() {
        assert forall|c: u32| c <= MAX_CHAR implies #[trigger] labelled(t, c) by {
            assert(classes(x).covered(c));
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).has(c);
            assert(t[i].0.has(c));
        }
    } else {
        let c = choose|c: u32| c <= MAX_CHAR && !(#[trigger] classes(x).covered(c));
        if labelled(t, c) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(c); assert(l[i].has(c)); assert(classes(x).covered(c)); }
        assert(!total(t));
    }
}
/// the successor for character c stands for the derivative
#[verifier::spinoff_prover]
pub proof fn lemma_done_gives(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, p: StateSpec, x: RE, c: u32, j: usize) -> (y: RegLan)
    requires state_done(s, ids, p, x), good_node(x), p.gives(c, j), c <= MAX_CHAR,
    ensures s.contains_key(y), ids[y.expr] == j, den(*y) == l_quot(den(x), c),
{
    hide(den);
    let t = p.tr;
    let l = classes(x).list@;
    lemma_len(classes(x));
    if sends(t, c, j) {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.has(c) && t[i].1 == j;
        assert(move_ok(s, ids, t, x, i));
        assert(l[i].has(c));
        assert(i as usize == i);
        assert(x.deriv_class.in_class(ClassId::Interval(i as usize), c));
        choose|y: RegLan| #[trigger] s.contains_key(y) && ids[y.expr] == j && forall|c: u32| #[trigger] x.deriv_class.in_class(ClassId::Interval(i as usize), c) ==> den(*y) == l_quot(den(x), c)
    } else {
        assert(!classes(x).covered(c)) by {
            if classes(x).covered(c) {
                let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).has(c);
                assert(move_ok(s, ids, t, x, i));
                assert(t[i].0.has(c)); assert(labelled(t, c));
            }
        }
        assert(x.deriv_class.in_class(ClassId::Complement, c));
        choose|y: RegLan| #[trigger] s.contains_key(y) && ids[y.expr] == j && forall|c: u32| #[trigger] x.deriv_class.in_class(ClassId::Complement, c) ==> den(*y) == l_quot(den(x), c)
    }
}
/// the keys given to the builder
#[verifier::spinoff_prover]
pub proof fn lemma_draw_keys(m: ReManager, m2: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan, n: int, d: RegLan)
    requires drawing(m, s, q, ids, sp, r, n), m.le(m2), m2.inv(), m2.owns(*d), 
    ensures key_ok(ids, d.expr), key_ok(ids, r.expr), key_ok(reg_map(ids, sp, r.expr), d.expr), reg_map(ids, sp, r.expr) == ids, reg_specs(ids, sp, r.expr) == sp,
{
    hide(state_done); hide(ReManager::inv); hide(drawn); hide(numbering); hide(moves_ok);
    assert(owned_set(m2, s)) by { assert forall|x: RegLan| #[trigger] s.contains_key(x) implies m2.owns(*x) by { assert(m.owns(*x)); } }
    assert(s.contains_key(r));
    lemma_expr_key2(m2, s, ids, sp, *r, *d);
}
#[verifier::spinoff_prover]
pub proof fn lemma_draw_nodef(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, r: RegLan)
    requires drawing_end(m, s, q, ids, sp, r) || (drawing(m, s, q, ids, sp, r, classes(*r).list@.len() as int) && !classes(*r).has_complement()),
    ensures drawing_end(m, s, q, ids, sp, r), graph(m, s, ids, sp.len()), owned_set(m, s), linked(s, ids), m.owns(*r), ids.contains_key(r.expr),
{
    hide(ReManager::inv); hide(drawn); hide(numbering); hide(moves_ok); hide(leads); hide(ReManager::owns);
    assert(s.contains_key(r));
}
/// everything is expanded
pub open spec fn complete(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, e: RegLan) -> bool {
    &&& graph(m, s, ids, sp.len()) && drawn(s, Seq::empty(), ids, sp, None) && explored(m, s, Seq::empty(), e) && ids[e.expr] == 0
    &&& forall|i: int| 0 <= i < sp.len() ==> #[trigger] names(ids, i)
}
#[verifier::spinoff_prover]
pub proof fn lemma_compiled_run(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, e: RegLan, a: Automaton, w: Seq<u32>) -> (y: RegLan)
    requires complete(m, s, ids, sp, e), realizes(a, sp), good_word(w),
    ensures s.contains_key(y), ids[y.expr] == a.run(a.initial_state, w), den(*y) == l_wquot(den(*e), w),
    decreases w.len(),
{
    hide(state_done); hide(ReManager::inv); hide(is_deriv); hide(closed); hide(den); hide(good_node);
    if w.len() == 0 {
        lemma_wquot_eps(den(*e));
        assert(w =~= eps());
        e
    } else {
        let u = w.drop_last();
        let c = w.last();
        assert(good_word(u)) by { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] <= 0x2FFFF by { assert(u[i] == w[i]); } }
        assert(w[w.len() - 1] <= 0x2FFFF);
        let x = lemma_compiled_run(m, s, ids, sp, e, a, u);
        lemma_wquot_step(den(*e), u, c);
        assert(u.push(c) =~= w);
        let i = a.run(a.initial_state, u) as int;
        assert(ids.contains_key(x.expr));
        assert(state_realizes(a.states@[i], sp[i]));
        assert(drawn_at(s, Seq::empty(), ids, sp, x));
        m.lemma_owned_good(*x);
        lemma_done_gives(s, ids, sp[i], *x, c, a.states@[i].succ(c))
    }
}
/// the compiled automaton accepts the language of e
#[verifier::spinoff_prover]
pub proof fn lemma_compiled(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, sp: Seq<StateSpec>, e: RegLan, a: Automaton)
    requires complete(m, s, ids, sp, e), realizes(a, sp),
    ensures forall|w: Seq<u32>| good_word(w) ==> #[trigger] a.lang(w) == den(*e)(w),
{
    hide(ReManager::inv); hide(is_deriv); hide(closed); hide(den); hide(moves_ok); hide(def_ok); hide(good_node);
    assert forall|w: Seq<u32>| good_word(w) implies #[trigger] a.lang(w) == den(*e)(w) by {
        let y = lemma_compiled_run(m, s, ids, sp, e, a, w);
        let i = a.run(a.initial_state, w) as int;
        assert(ids.contains_key(y.expr));
        assert(state_realizes(a.states@[i], sp[i]));
        assert(drawn_at(s, Seq::empty(), ids, sp, y));
        lemma_nullable(m, *y);
        assert(w + eps() =~= w);
        assert(l_wquot(den(*e), w)(eps()) == den(*e)(w));
    }
}
pub proof fn lemma_nullable(m: ReManager, e: RE)
    requires m.inv(), m.owns(e),
    ensures e.nullable == den(e)(eps()),
{ m.lemma_owned(e); }
// numbers of derivatives
pub open spec fn lists(v: Seq<RegLan>, s: Map<RegLan, ()>) -> bool { v.no_duplicates() && forall|x: RegLan| s.contains_key(x) <==> #[trigger] v.contains(x) }
/// the enumeration of the derivatives of e ends with n terms
pub open spec fn num_derivs(m: ReManager, e: RegLan, n: nat) -> bool {
    exists|s: Map<RegLan, ()>, v: Seq<RegLan>| #[trigger] explored(m, s, Seq::empty(), e) && #[trigger] lists(v, s) && v.len() == n
}
/// e has more than n derivatives
pub open spec fn more_derivs(m: ReManager, e: RegLan, n: nat) -> bool {
    exists|v: Seq<RegLan>| #[trigger] v.no_duplicates() && n < v.len() <= usize::MAX && forall|i: int| 0 <= i < v.len() ==> m.owns(*(#[trigger] v[i])) && is_deriv(*e, *v[i])
}
pub open spec fn term_at(s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, i: int) -> RegLan { choose|x: RegLan| #[trigger] s.contains_key(x) && ids[x.expr] == i }
#[verifier::spinoff_prover]
pub proof fn lemma_listed(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, n: nat) -> (v: Seq<RegLan>)
    requires graph(m, s, ids, n), forall|i: int| 0 <= i < n ==> #[trigger] names(ids, i),
    ensures lists(v, s), v.len() == n,
{
    hide(ReManager::inv); hide(ReManager::owns);
    let v = Seq::new(n, |i: int| term_at(s, ids, i));
    assert forall|i: int| 0 <= i < n implies s.contains_key(#[trigger] v[i]) && ids[v[i].expr] == i by {
        assert(names(ids, i));
        let k = choose|k: BaseRegLan| #[trigger] ids.contains_key(k) && ids[k] == i;
        assert(has_expr(s, k));
        let x = choose|x: RegLan| #[trigger] s.contains_key(x) && x.expr == k;
        assert(s.contains_key(x) && ids[x.expr] == i);
    }
    assert forall|x: RegLan| s.contains_key(x) <==> #[trigger] v.contains(x) by {
        if s.contains_key(x) {
            assert(ids.contains_key(x.expr));
            let i = ids[x.expr] as int;
            assert(ids.contains_key(v[i].expr));
            assert(m.owns(*x));
            lemma_expr_key(m, s, ids, *x);
            assert(v[i] == x);
        }
    }
    v
}

pub open spec fn all_named(ids: Map<BaseRegLan, usize>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] names(ids, i) }
#[verifier::spinoff_prover]
pub proof fn lemma_more(m: ReManager, s: Map<RegLan, ()>, q: Seq<RegLan>, ids: Map<BaseRegLan, usize>, n: nat, e: RegLan, k: nat)
    requires graph(m, s, ids, n), all_named(ids, n), explored(m, s, q, e), k < n,
    ensures more_derivs(m, e, k),
{
    hide(ReManager::inv); hide(ReManager::owns); hide(is_deriv); hide(closed); hide(linked); hide(numbering);
    let v = lemma_listed(m, s, ids, n);
    assert forall|i: int| 0 <= i < v.len() implies m.owns(*(#[trigger] v[i])) && is_deriv(*e, *v[i]) by { assert(v.contains(v[i])); assert(s.contains_key(v[i])); }
}
/// the builder at the end of the compilation
#[verifier::spinoff_prover]
pub proof fn lemma_compile_end(m: ReManager, s: Map<RegLan, ()>, ids: Map<BaseRegLan, usize>, b: Seq<StateInConstruction>, e: RegLan)
    requires
        graph(m, s, ids, b.len()), all_named(ids, b.len()), drawn(s, Seq::empty(), ids, specs_of(b), None), explored(m, s, Seq::empty(), e),
        ids[e.expr] == 0,
    ensures
        forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).clean() && b[i].default_needed(),
        num_derivs(m, e, b.len()),
        forall|a: Automaton| #[trigger] realizes(a, specs_of(b)) ==> compiled(a, *e) && a.num_states == b.len(),
{
    hide(ReManager::inv); hide(ReManager::owns); hide(is_deriv); hide(closed); hide(den); hide(moves_ok); hide(def_ok); hide(state_done); hide(StateInConstruction::clean); hide(StateInConstruction::default_needed);
    hide(Automaton::wf); hide(state_realizes); hide(Automaton::lang); hide(good_node);
    let v = lemma_listed(m, s, ids, b.len());
    assert(explored(m, s, Seq::empty(), e) && lists(v, s) && v.len() == b.len());
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).clean() && b[i].default_needed() by {
        assert(names(ids, i));
        let k = choose|k: BaseRegLan| #[trigger] ids.contains_key(k) && ids[k] == i;
        assert(has_expr(s, k));
        let x = choose|x: RegLan| #[trigger] s.contains_key(x) && x.expr == k;
        assert(drawn_at(s, Seq::empty(), ids, specs_of(b), x));
        m.lemma_owned_good(*x);
        lemma_done_clean(s, ids, b[i], *x);
    }
    assert forall|a: Automaton| #[trigger] realizes(a, specs_of(b)) implies compiled(a, *e) && a.num_states == b.len() by {
        lemma_compiled(m, s, ids, specs_of(b), e, a);
    }
}
/// a is a total automaton for the language of e
pub open spec fn compiled(a: Automaton, e: RE) -> bool {
    a.wf() && forall|w: Seq<u32>| good_word(w) ==> #[trigger] a.lang(w) == den(e)(w)
}
/// the next interval of the partition of r
#[verifier::spinoff_prover]
pub proof fn lemma_interval(r: RE, n: int, c: CharSet)
    requires good_node(r), 0 <= n < classes(r).list@.len(), c == classes(r).list@[n],
    ensures c.wf(), n <= usize::MAX, classes(r).inside(c, n), class_seq(classes(r))[n] == ClassId::Interval(n as usize), n < class_seq(classes(r)).len(),
        forall|x: u32| #[trigger] classes(r).in_class(ClassId::Interval(n as usize), x) ==> c.has(x),
{
    lemma_len(classes(r));
}
pub proof fn lemma_complement_class(r: RE)
    ensures
        classes(r).has_complement() ==> class_seq(classes(r))[classes(r).list@.len() as int] == ClassId::Complement && class_seq(classes(r)).len() == classes(r).list@.len() + 1 && classes(r).valid(ClassId::Complement),
        !classes(r).has_complement() ==> class_seq(classes(r)).len() == classes(r).list@.len(),
{ }

// ---- identical constructions, identical terms (C07) ------------------------------
// det_op(m, args, r): r is what op answers on a manager whose table is m, as a
// function of the arguments and of the terms in the table only. The lemmas
// history_* say that the answer on any later table is the same term.
pub open spec fn det_node(m: ReManager, k: BaseRegLan, r: RE) -> bool { m.owns(r) && r.expr == k }
pub open spec fn det_loop_node(m: ReManager, x: RE, r: RE) -> bool { m.owns(r) && r.expr is Loop && *r.expr->Loop_0 == x && r.expr->Loop_1.wf() }
pub open spec fn det_sum(m: ReManager, x: RE, a: LoopRange, b: LoopRange, r: RE) -> bool {
    &&& det_loop_node(m, x, r)
    &&& r.expr->Loop_1.lo() == a.lo() + b.lo() && r.expr->Loop_1.bounded() == (a.bounded() && b.bounded())
    &&& r.expr->Loop_1.bounded() ==> r.expr->Loop_1.hi() == a.hi() + b.hi()
}
pub open spec fn det_prod(m: ReManager, x: RE, a: LoopRange, b: LoopRange, r: RE) -> bool {
    det_loop_node(m, x, r) && forall|n: nat| #[trigger] r.expr->Loop_1.has(n) <==> a.mul_has(b, n)
}
pub open spec fn det_concat(m: ReManager, e1: RE, e2: RE, r: RE) -> bool
    decreases e1,
{
    if e1.expr is Empty || e2.expr is Empty { r == *m.id2re@[2] }
    else if e1.expr is Epsilon { r == e2 }
    else if e2.expr is Epsilon { r == e1 }
    else if e2.expr is Loop && e2.expr->Loop_0.id == e1.id { det_sum(m, e1, e2.expr->Loop_1, LoopRange(1, Some(1)), r) }
    else if e1.expr is Loop && e1.expr->Loop_0.id == e2.id { det_sum(m, e2, e1.expr->Loop_1, LoopRange(1, Some(1)), r) }
    else if e1.expr is Loop && e2.expr is Loop && e1.expr->Loop_0.id == e2.expr->Loop_0.id { det_sum(m, *e1.expr->Loop_0, e1.expr->Loop_1, e2.expr->Loop_1, r) }
    else if e1.id == e2.id { det_node(m, BaseRegLan::Loop(&e1, LoopRange(2, Some(2))), r) }
    else {
        match e1.expr {
            BaseRegLan::Concat(x, y) => exists|t: RE| #[trigger] m.owns(t) && det_concat(m, *y, e2, t) && det_concat(m, *x, t, r),
            _ => if e1.nullable && e2.id == 3 { r == e2 } else { det_node(m, BaseRegLan::Concat(&e1, &e2), r) },
        }
    }
}
pub open spec fn det_loop(m: ReManager, e: RE, range: LoopRange, r: RE) -> bool {
    if range.zero() { r == *m.id2re@[4] }
    else if range.bounded() && range.lo() == 1 && range.hi() == 1 { r == e }
    else if e.expr is Empty { r == (if range.0 == 0 { *m.id2re@[4] } else { *m.id2re@[2] }) }
    else if e.expr is Epsilon { r == *m.id2re@[4] }
    else if e.expr is Loop && (forall|n: nat| #[trigger] e.expr->Loop_1.fold_has(range, n) <==> e.expr->Loop_1.mul_has(range, n)) { det_prod(m, *e.expr->Loop_0, e.expr->Loop_1, range, r) }
    else { det_node(m, BaseRegLan::Loop(&e, range), r) }
}
pub open spec fn det_finds(v: Seq<&RE>, id: usize, k: int) -> bool
    decreases v.len() - k,
{
    if k < 0 || k >= v.len() { false } else if v[k].id == id { true } else if v[k].id > id { false } else { det_finds(v, id, k + 1) }
}
pub open spec fn det_simp(w: Seq<&'static RE>, j: int, p: &'static RE, i: int, bottom: usize, top: &'static RE) -> Seq<&'static RE>
    decreases w.len() - i,
{
    if i < 0 || i >= w.len() { w.take(j) }
    else if w[i].id == p.id + 1 && p.id % 2 == 0 { seq![top] }
    else if w[i].id != bottom { det_simp(w.update(j, w[i]), j + 1, w[i], i + 1, bottom, top) }
    else { det_simp(w, j, p, i + 1, bottom, top) }
}
/// sorting, removing duplicates, the neutral element and complementary pairs
pub open spec fn det_simplify(v: Seq<&'static RE>, bottom: usize, top: &'static RE) -> Seq<&'static RE> {
    let d = crate::prelude::deduped(crate::prelude::sorted_of(v));
    if v.len() == 0 { v }
    else if det_finds(d, top.id, 0) { seq![top] }
    else { det_simp(d, if d[0].id != bottom { 1 } else { 0 }, d[0], 1, bottom, top) }
}
/// the answer of sub_language, a function of two immutable terms
pub uninterp spec fn det_sub(r: RE, s: RE) -> bool;
pub open spec fn det_subsumed(r: RE, a: Seq<&RE>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).id != r.id && det_sub(r, *a[i]) }
pub open spec fn det_remove(a: Seq<&'static RE>, i: int) -> Seq<&'static RE>
    decreases a.len() - i,
{
    if i < 0 || i >= a.len() { a } else if det_subsumed(*a[i], a) { det_remove(a.remove(i), i) } else { det_remove(a, i + 1) }
}
pub open spec fn det_inter(m: ReManager, v: Seq<&'static RE>, r: RE) -> bool {
    let w = det_simplify(v, 3, m.id2re@[2]);
    if det_finds(w, 4, 0) { r == (if forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).nullable { *m.id2re@[4] } else { *m.id2re@[2] }) }
    else if w.len() == 0 { r == *m.id2re@[3] }
    else if w.len() == 1 { r == *w[0] }
    else { det_node(m, BaseRegLan::Inter(crate::prelude::boxed(w)), r) }
}
pub open spec fn det_union(m: ReManager, v: Seq<&'static RE>, r: RE) -> bool {
    let u = det_simplify(v, 2, m.id2re@[3]);
    let w = if u.len() >= 2 { det_remove(u, 0) } else { u };
    if w.len() == 0 { r == *m.id2re@[2] }
    else if w.len() == 1 { r == *w[0] }
    else { det_node(m, BaseRegLan::Union(crate::prelude::boxed(w)), r) }
}
pub open spec fn det_flat_inter<'a>(v: Seq<&'a RE>, r: &'a RE) -> Seq<&'a RE>
    decreases r.id, 1nat, 0nat,
{
    match r.expr { BaseRegLan::Inter(x) => det_flats_inter(v, x@, x@.len(), r.id), _ => v.push(r) }
}
pub open spec fn det_flats_inter<'a>(v: Seq<&'a RE>, x: Seq<&'a RE>, n: nat, id: usize) -> Seq<&'a RE>
    decreases id, 0nat, n,
{
    if n == 0 || n > x.len() { v }
    else { let u = det_flats_inter(v, x, (n - 1) as nat, id); if x[n - 1].id < id { det_flat_inter(u, x[n - 1]) } else { u } }
}
pub open spec fn det_flat_union<'a>(v: Seq<&'a RE>, r: &'a RE) -> Seq<&'a RE>
    decreases r.id, 1nat, 0nat,
{
    match r.expr { BaseRegLan::Union(x) => det_flats_union(v, x@, x@.len(), r.id), _ => v.push(r) }
}
pub open spec fn det_flats_union<'a>(v: Seq<&'a RE>, x: Seq<&'a RE>, n: nat, id: usize) -> Seq<&'a RE>
    decreases id, 0nat, n,
{
    if n == 0 || n > x.len() { v }
    else { let u = det_flats_union(v, x, (n - 1) as nat, id); if x[n - 1].id < id { det_flat_union(u, x[n - 1]) } else { u } }
}
pub open spec fn det_flat_concat<'a>(v: Seq<&'a RE>, r: &'a RE) -> Seq<&'a RE>
    decreases r,
{
    match r.expr { BaseRegLan::Epsilon => v, BaseRegLan::Concat(x, y) => det_flat_concat(det_flat_concat(v, x), y), _ => v.push(r) }
}
pub open spec fn det_list_inter(v: Seq<&'static RE>, a: Seq<&'static RE>, n: nat) -> Seq<&'static RE>
    decreases n,
{
    if n == 0 { v } else { det_flat_inter(det_list_inter(v, a, (n - 1) as nat), a[n - 1]) }
}
pub open spec fn det_list_union(v: Seq<&'static RE>, a: Seq<&'static RE>, n: nat) -> Seq<&'static RE>
    decreases n,
{
    if n == 0 { v } else { det_flat_union(det_list_union(v, a, (n - 1) as nat), a[n - 1]) }
}
pub open spec fn det_list_concat(v: Seq<&'static RE>, a: Seq<&'static RE>, n: nat) -> Seq<&'static RE>
    decreases n,
{
    if n == 0 { v } else { det_flat_concat(det_list_concat(v, a, (n - 1) as nat), a[n - 1]) }
}
pub open spec fn comp_id(id: usize) -> usize { if id % 2 == 0 { (id + 1) as usize } else { (id - 1) as usize } }
pub open spec fn det_comp(m: ReManager, e: RE) -> &'static RE { m.id2re@[comp_id(e.id) as int] }
pub open spec fn det_list_comp(m: ReManager, v: Seq<&'static RE>, a: Seq<&'static RE>, n: nat) -> Seq<&'static RE>
    decreases n,
{
    if n == 0 { v } else { det_flat_inter(det_list_comp(m, v, a, (n - 1) as nat), det_comp(m, *a[n - 1])) }
}
/// right fold of concat from position k
pub open spec fn det_concats(m: ReManager, v: Seq<&'static RE>, k: int, r: RE) -> bool
    decreases v.len() - k,
{
    if k < 0 || k >= v.len() { r == *m.id2re@[4] } else { exists|t: RE| #[trigger] m.owns(t) && det_concats(m, v, k + 1, t) && det_concat(m, *v[k], t, r) }
}
pub open spec fn det_range(m: ReManager, lo: u32, hi: u32, r: RE) -> bool { det_node(m, BaseRegLan::Range(CharSet { start: lo, end: hi }), r) }
pub open spec fn det_str(m: ReManager, w: Seq<u32>, k: int, r: RE) -> bool
    decreases w.len() - k,
{
    if k < 0 || k >= w.len() { r == *m.id2re@[4] }
    else { exists|c: RE, t: RE| #[trigger] m.owns(c) && #[trigger] m.owns(t) && det_range(m, w[k], w[k], c) && det_str(m, w, k + 1, t) && det_concat(m, c, t, r) }
}
pub proof fn history_node(m: ReManager, n: ReManager, k: BaseRegLan, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), det_node(m, k, r), det_node(n, k, s),
    ensures r == s,
{
    m.lemma_owned(r);
    assert(n.owns(r));
    n.lemma_owned(r); n.lemma_owned(s);
}
pub proof fn lemma_range_ext(a: LoopRange, b: LoopRange)
    requires a.wf(), b.wf(), forall|n: nat| #[trigger] a.has(n) <==> b.has(n),
    ensures a == b,
{
    assert(a.has(a.lo()) && b.has(b.lo()) && b.has(a.lo()) && a.has(b.lo()));
    assert(a.lo() == b.lo());
    if a.bounded() { assert(a.has(a.hi())); assert(b.has(a.hi())); assert(!a.has(a.hi() + 1)); assert(!b.has(a.hi() + 1)); }
    if b.bounded() { assert(b.has(b.hi())); assert(a.has(b.hi())); assert(!b.has(b.hi() + 1)); assert(!a.has(b.hi() + 1)); }
}
pub proof fn history_loop_node(m: ReManager, n: ReManager, x: RE, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), det_loop_node(m, x, r), det_loop_node(n, x, s), forall|i: nat| #[trigger] r.expr->Loop_1.has(i) <==> s.expr->Loop_1.has(i),
    ensures r == s,
{
    lemma_range_ext(r.expr->Loop_1, s.expr->Loop_1);
    assert(r.expr == s.expr);
    history_node(m, n, r.expr, r, s);
}
pub proof fn later_concat(m: ReManager, n: ReManager, a: RE, b: RE, r: RE)
    requires m.inv(), n.inv(), m.le(n), m.owns(a), m.owns(b), det_concat(m, a, b, r),
    ensures det_concat(n, a, b, r),
    decreases a,
{
    m.lemma_owned(a); m.lemma_owned(b); m.lemma_first();
    match a.expr {
        BaseRegLan::Concat(x, y) => {
            if exists|t: RE| #[trigger] m.owns(t) && det_concat(m, *y, b, t) && det_concat(m, *x, t, r) {
                let t = choose|t: RE| #[trigger] m.owns(t) && det_concat(m, *y, b, t) && det_concat(m, *x, t, r);
                later_concat(m, n, *y, b, t);
                later_concat(m, n, *x, t, r);
                assert(n.owns(t));
            }
        }
        _ => {}
    }
}
/// concat on any later table gives the same term
pub proof fn history_concat(m: ReManager, n: ReManager, a: RE, b: RE, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), m.owns(a), m.owns(b), det_concat(m, a, b, r), det_concat(n, a, b, s),
    ensures r == s,
    decreases a,
{
    m.lemma_owned(a); m.lemma_owned(b); m.lemma_first(); n.lemma_first();
    if r.expr is Loop && s.expr is Loop {
        if det_loop_node(m, a, r) && det_loop_node(n, a, s) && (forall|i: nat| #[trigger] r.expr->Loop_1.has(i) <==> s.expr->Loop_1.has(i)) { history_loop_node(m, n, a, r, s); }
        if det_loop_node(m, b, r) && det_loop_node(n, b, s) && (forall|i: nat| #[trigger] r.expr->Loop_1.has(i) <==> s.expr->Loop_1.has(i)) { history_loop_node(m, n, b, r, s); }
        if a.expr is Loop {
            let x = *a.expr->Loop_0;
            if det_loop_node(m, x, r) && det_loop_node(n, x, s) && (forall|i: nat| #[trigger] r.expr->Loop_1.has(i) <==> s.expr->Loop_1.has(i)) { history_loop_node(m, n, x, r, s); }
        }
    }
    if m.owns(r) && n.owns(s) && r.expr == s.expr { history_node(m, n, r.expr, r, s); }
    match a.expr {
        BaseRegLan::Concat(x, y) => {
            if exists|t: RE| #[trigger] m.owns(t) && det_concat(m, *y, b, t) && det_concat(m, *x, t, r) {
                let t = choose|t: RE| #[trigger] m.owns(t) && det_concat(m, *y, b, t) && det_concat(m, *x, t, r);
                if exists|u: RE| #[trigger] n.owns(u) && det_concat(n, *y, b, u) && det_concat(n, *x, u, s) {
                    let u = choose|u: RE| #[trigger] n.owns(u) && det_concat(n, *y, b, u) && det_concat(n, *x, u, s);
                    history_concat(m, n, *y, b, t, u);
                    history_concat(m, n, *x, t, r, s);
                }
            }
        }
        _ => {}
    }
}
pub proof fn history_loop(m: ReManager, n: ReManager, e: RE, range: LoopRange, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), m.owns(e), range.wf(), det_loop(m, e, range, r), det_loop(n, e, range, s),
    ensures r == s,
{
    m.lemma_first(); n.lemma_first(); m.lemma_owned(e);
    if e.expr is Loop {
        let x = *e.expr->Loop_0;
        if det_prod(m, x, e.expr->Loop_1, range, r) && det_prod(n, x, e.expr->Loop_1, range, s) {
            assert forall|i: nat| #[trigger] r.expr->Loop_1.has(i) <==> s.expr->Loop_1.has(i) by {}
            history_loop_node(m, n, x, r, s);
        }
    }
    if m.owns(r) && n.owns(s) && r.expr == s.expr { history_node(m, n, r.expr, r, s); }
}
pub proof fn history_range(m: ReManager, n: ReManager, lo: u32, hi: u32, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), det_range(m, lo, hi, r), det_range(n, lo, hi, s),
    ensures r == s,
{
    history_node(m, n, r.expr, r, s);
}
pub proof fn history_inter(m: ReManager, n: ReManager, v: Seq<&'static RE>, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), det_inter(m, v, r), det_inter(n, v, s),
    ensures r == s,
{
    m.lemma_first(); n.lemma_first();
    if m.owns(r) && n.owns(s) && r.expr == s.expr { history_node(m, n, r.expr, r, s); }
}
pub proof fn history_union(m: ReManager, n: ReManager, v: Seq<&'static RE>, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), det_union(m, v, r), det_union(n, v, s),
    ensures r == s,
{
    m.lemma_first(); n.lemma_first();
    if m.owns(r) && n.owns(s) && r.expr == s.expr { history_node(m, n, r.expr, r, s); }
}
pub proof fn history_comp(m: ReManager, n: ReManager, e: RE)
    requires m.inv(), n.inv(), m.le(n), m.owns(e),
    ensures det_comp(m, e) == det_comp(n, e), m.owns(*det_comp(m, e)),
        // an involution without fixed points
        det_comp(m, e).id != e.id, *det_comp(m, *det_comp(m, e)) == e,
{
    m.lemma_owned(e);
    let j = comp_id(e.id) as int;
    assert(m.id2re@.len() % 2 == 0);
    assert(m.term_ok(j)); assert(m.term_ok(e.id as int));
}
pub proof fn history_list_comp(m: ReManager, n: ReManager, v: Seq<&'static RE>, a: Seq<&'static RE>, k: nat)
    requires m.inv(), n.inv(), m.le(n), m.owns_all(a), k <= a.len(),
    ensures det_list_comp(m, v, a, k) == det_list_comp(n, v, a, k),
    decreases k,
{
    if k > 0 { history_list_comp(m, n, v, a, (k - 1) as nat); assert(m.owns(*a[k - 1])); history_comp(m, n, *a[k - 1]); }
}
pub proof fn later_concats(m: ReManager, n: ReManager, v: Seq<&'static RE>, k: int, r: RE)
    requires m.inv(), n.inv(), m.le(n), m.owns_all(v), det_concats(m, v, k, r), 0 <= k,
    ensures det_concats(n, v, k, r),
    decreases v.len() - k,
{
    m.lemma_first();
    if k < v.len() {
        let t = choose|t: RE| #[trigger] m.owns(t) && det_concats(m, v, k + 1, t) && det_concat(m, *v[k], t, r);
        assert(m.owns(*v[k]));
        later_concats(m, n, v, k + 1, t);
        later_concat(m, n, *v[k], t, r);
        assert(n.owns(t));
    }
}
pub proof fn history_concats(m: ReManager, n: ReManager, v: Seq<&'static RE>, k: int, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), m.owns_all(v), det_concats(m, v, k, r), det_concats(n, v, k, s), 0 <= k,
    ensures r == s,
    decreases v.len() - k,
{
    m.lemma_first();
    if k < v.len() {
        let t = choose|t: RE| #[trigger] m.owns(t) && det_concats(m, v, k + 1, t) && det_concat(m, *v[k], t, r);
        let u = choose|u: RE| #[trigger] n.owns(u) && det_concats(n, v, k + 1, u) && det_concat(n, *v[k], u, s);
        assert(m.owns(*v[k]));
        history_concats(m, n, v, k + 1, t, u);
        history_concat(m, n, *v[k], t, r, s);
    }
}
pub proof fn later_str(m: ReManager, n: ReManager, w: Seq<u32>, k: int, r: RE)
    requires m.inv(), n.inv(), m.le(n), det_str(m, w, k, r), 0 <= k,
    ensures det_str(n, w, k, r),
    decreases w.len() - k,
{
    m.lemma_first();
    if k < w.len() {
        let (c, t) = choose|c: RE, t: RE| #[trigger] m.owns(c) && #[trigger] m.owns(t) && det_range(m, w[k], w[k], c) && det_str(m, w, k + 1, t) && det_concat(m, c, t, r);
        later_str(m, n, w, k + 1, t);
        later_concat(m, n, c, t, r);
        assert(n.owns(t) && n.owns(c));
    }
}
pub proof fn history_str(m: ReManager, n: ReManager, w: Seq<u32>, k: int, r: RE, s: RE)
    requires m.inv(), n.inv(), m.le(n), det_str(m, w, k, r), det_str(n, w, k, s), 0 <= k,
    ensures r == s,
    decreases w.len() - k,
{
    m.lemma_first();
    if k < w.len() {
        let (c, t) = choose|c: RE, t: RE| #[trigger] m.owns(c) && #[trigger] m.owns(t) && det_range(m, w[k], w[k], c) && det_str(m, w, k + 1, t) && det_concat(m, c, t, r);
        let (d, u) = choose|d: RE, u: RE| #[trigger] n.owns(d) && #[trigger] n.owns(u) && det_range(n, w[k], w[k], d) && det_str(n, w, k + 1, u) && det_concat(n, d, u, s);
        history_range(m, n, w[k], w[k], c, d);
        history_str(m, n, w, k + 1, t, u);
        history_concat(m, n, c, t, r, s);
    }
}
/// terms compare equal only if they are the same term
pub proof fn history_equal(m: ReManager, a: RE, b: RE)
    requires m.owns(a), m.owns(b), PartialEqSpec::eq_spec(&a, &b),
    ensures a == b,
{}
@end
@fn RE as PartialEq::eq props=C07,C01 ret=r
    ensures r == (self.id == other.id),
@fn BaseRegLan::is_nullable props=C01 ret=r
    requires kwf(*self),
    ensures r == kden(*self)(eps()),
@at start
    let ghost k = *self;
    proof {
        match k {
            BaseRegLan::Concat(a, b) => { lemma_wf(*a); lemma_wf(*b); lemma_null_cat(den(*a), den(*b)); },
            BaseRegLan::Loop(a, r) => { lemma_wf(*a); assert(r.has(r.lo())); assert(range_set(r)(r.lo())); lemma_null_loop(den(*a), range_set(r)); },
            BaseRegLan::Complement(a) => { lemma_wf(*a); },
            BaseRegLan::Union(v) => {
                assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).nullable == den(*v@[i])(eps()) by { lemma_wf(*v@[i]); }
            },
            BaseRegLan::Inter(v) => {
                assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).nullable == den(*v@[i])(eps()) by { lemma_wf(*v@[i]); }
            },
            _ => {},
        }
    }
@at closure 0
    |x: &RegLan| -> (b: bool) ensures b == x.nullable
@at closure 1
    |x: &RegLan| -> (b: bool) ensures b == x.nullable
@fn BaseRegLan::is_atomic props=C01 ret=r
    ensures r == (*self is Empty || *self is Epsilon || *self is Range),
@fn BaseRegLan::concat_or_atomic props=C16 ret=r
@fn BaseRegLan::is_all_chars props=C16 ret=r
    requires kwf(*self),
    ensures r ==> kden(*self) == l_range(0, MAX_CHAR),
@at start
    proof { if let BaseRegLan::Range(s) = self { assert(s.has(0) == (s.start == 0)); assert(s.has(MAX_CHAR) == (s.end == MAX_CHAR)); } }
@fn BaseRegLan::is_full props=C16 ret=r
    requires kwf(*self),
    ensures r ==> kden(*self) == l_all(),
@at start
    proof {
        if let BaseRegLan::Loop(a, r) = self {
            lemma_wf(**a);
            if r.lo() == 0 && !r.bounded() { lemma_sigma_loop(range_set(*r)); }
        }
    }
@fn BaseRegLan::is_singleton props=C01 ret=r
    requires kwf(*self),
@fn BaseRegLan::is_simple_pattern props=C01 ret=r
@fn BaseRegLan::is_range props=C16 ret=r
    ensures r == (*self is Range),
@fn BaseRegLan::match_char_set props=C16 ret=r
    requires kwf(*self), s.wf(),
    ensures r ==> l_sub(kden(*self), l_range(s.start, s.end)), r ==> *self is Range,
@at start
    proof { if let BaseRegLan::Range(x) = self { assert(x.has(x.start)); assert(x.has(x.end)); } }
@fn BaseRegLan::deriv_class::rc props=C03 ret=r
    ensures *r == p,
@fn BaseRegLan::deriv_class::empty_partition props=C03 ret=r
    ensures r.wf(), r.list@.len() == 0,
@fn BaseRegLan::deriv_class::merge_deriv_classes props=C03 ret=r
    requires wf_all(a@),
    ensures r.wf(), forall|i: int, x: u32, y: u32| 0 <= i < a@.len() && #[trigger] r.same(x, y) ==> (#[trigger] a@[i]).deriv_class.same(x, y),
@loop 0 iter=it
    invariant
        wf_all(a@), it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *it.seq()[i] == a@[i],
        result.wf(),
        forall|i: int, x: u32, y: u32| 0 <= i < it.index() && #[trigger] result.same(x, y) ==> (#[trigger] a@[i]).deriv_class.same(x, y),
@at loop 0 start
    let ghost r0 = result;
    proof { lemma_wf(*a@[it.index()]); }
@at loop 0 end
    proof {
        assert forall|i: int, x: u32, y: u32| 0 <= i < it.index() + 1 && #[trigger] result.same(x, y) implies (#[trigger] a@[i]).deriv_class.same(x, y) by {
            lemma_merge_same(result, r0, *a@[it.index()].deriv_class, x, y);
        }
    }
@fn BaseRegLan::deriv_class props=C03,C01 ret=r
    requires kwf(*self),
    ensures r.wf(), uniform(*r, kden(*self)),
@at start
    let ghost k = *self;
    proof { lemma_kids(*self); }
@at tail
    proof {
        assert forall|x: u32, y: u32| #![trigger l_quot(kden(*self), x), l_quot(kden(*self), y)] x <= MAX_CHAR && y <= MAX_CHAR && r.same(x, y) implies l_quot(kden(*self), x) == l_quot(kden(*self), y) by {
            match k {
                BaseRegLan::Empty => { assert(l_quot(kden(*self), x) =~= l_quot(kden(*self), y)); },
                BaseRegLan::Epsilon => { lemma_quot_eps(x); lemma_quot_eps(y); },
                BaseRegLan::Range(c) => {
                    assert(r.list@[0].has(x) <==> r.list@[0].has(y));
                    lemma_quot_range(c.start, c.end, x); lemma_quot_range(c.start, c.end, y);
                },
                BaseRegLan::Concat(a, b) => {
                    lemma_quot_cat(den(*a), den(*b), x); lemma_quot_cat(den(*a), den(*b), y);
                    if a.nullable { lemma_merge_same(*r, *a.deriv_class, *b.deriv_class, x, y); assert(l_quot(den(*b), x) == l_quot(den(*b), y)); }
                    assert(l_quot(den(*a), x) == l_quot(den(*a), y));
                },
                BaseRegLan::Loop(a, rng) => {
                    lemma_quot_range_loop(den(*a), rng, x); lemma_quot_range_loop(den(*a), rng, y);
                    assert(l_quot(den(*a), x) == l_quot(den(*a), y));
                },
                BaseRegLan::Complement(a) => {
                    lemma_quot_comp(den(*a), x); lemma_quot_comp(den(*a), y);
                    assert(l_quot(den(*a), x) == l_quot(den(*a), y));
                },
                BaseRegLan::Union(v) => {
                    assert forall|w: Seq<u32>| #[trigger] l_quot(kden(*self), x)(w) == l_quot(kden(*self), y)(w) by {
                        assert forall|i: int| 0 <= i < v@.len() implies den(*(#[trigger] v@[i]))(seq![x] + w) == den(*v@[i])(seq![y] + w) by { lemma_uniform(*v@[i], x, y, w); }
                    }
                    assert(l_quot(kden(*self), x) =~= l_quot(kden(*self), y));
                },
                BaseRegLan::Inter(v) => {
                    assert forall|w: Seq<u32>| #[trigger] l_quot(kden(*self), x)(w) == l_quot(kden(*self), y)(w) by {
                        lemma_good_cons(x, w); lemma_good_cons(y, w);
                        assert forall|i: int| 0 <= i < v@.len() implies den(*(#[trigger] v@[i]))(seq![x] + w) == den(*v@[i])(seq![y] + w) by { lemma_uniform(*v@[i], x, y, w); }
                    }
                    assert(l_quot(kden(*self), x) =~= l_quot(kden(*self), y));
                },
            }
        }
    }
@fn RE as HashConsed::make props=C01,C03,C07 ret=r
@replace `k.clone()` => `clone_expr(k)`
@at tail
    proof { lemma_wf_intro(r); }

@fn ReManager::new props=C01,C07 ret=r
    ensures r.inv(),
@at tail
    proof {
        let m = r.store.map@;
        lemma_wf(*sigma); lemma_wf(*not_sigma); lemma_wf(*empty); lemma_wf(*sigma_star); lemma_wf(*epsilon); lemma_wf(*sigma_plus);
        lemma_sigma_loop(range_set(LoopRange(0, None)));
        lemma_sigma_plus(range_set(LoopRange(1, None)));
        assert(l_comp(l_none()) =~= l_all());
        assert forall|i: int| 0 <= i < 6 implies #[trigger] r.term_ok(i) by { }
        assert forall|i: int| 0 <= i < 6 && i % 2 == 0 implies #[trigger] r.pair_ok(i) by { }
    }
@fn ReManager::id_to_re props=C07,C01 ret=r
    requires id < self.id2re@.len(),
    ensures r == self.id2re@[id as int],
@fn ReManager::make props=C07,C01 ret=r
    requires old(self).inv(), old(self).owns_kids(ast), kwf(ast), !(ast is Complement),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == kden(ast), r.expr == ast,
        final(self).deriv_cache == old(self).deriv_cache,
@at start
    let ghost m0 = *self;
    let ghost k0 = ast;
    proof { self.lemma_key_ok(ast); }
@before `let y =`
    proof { m0.lemma_new_complement(k0, x, self.store.map@); }
@at tail
    proof {
        if m0.store.map@.contains_key(k0) { m0.lemma_owned(*r); m0.lemma_same(*self); }
        else { lemma_wf(*r); m0.lemma_extend(*self, k0, r, self.id2re@.last()); }
    }
@fn ReManager::empty props=C01 ret=r
    requires self.inv(),
    ensures self.owns(*r), den(*r) == l_none(), r == self.empty,
@at start
    proof { self.lemma_first(); }
@fn ReManager::full props=C01 ret=r
    requires self.inv(),
    ensures self.owns(*r), den(*r) == l_all(), r == self.sigma_star,
@at start
    proof { self.lemma_first(); }
@fn ReManager::epsilon props=C01 ret=r
    requires self.inv(),
    ensures self.owns(*r), den(*r) == l_eps(), r == self.epsilon,
@at start
    proof { self.lemma_first(); }
@fn ReManager::sigma_plus props=C01 ret=r
    requires self.inv(),
    ensures self.owns(*r), den(*r) == l_comp(l_eps()), r == self.sigma_plus,
@at start
    proof { self.lemma_first(); }
@fn ReManager::all_chars props=C01 ret=r
    requires old(self).inv(),
    ensures *final(self) == *old(self), old(self).owns(*r), den(*r) == l_range(0, MAX_CHAR), r == old(self).sigma,
@at start
    proof { self.lemma_first(); }
@fn ReManager::char_set props=C01 ret=r
    requires old(self).inv(), set.wf(),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_range(set.start, set.end),
        final(self).deriv_cache == old(self).deriv_cache,
        det_range(*final(self), set.start, set.end, *r),
@fn ReManager::complement props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures *final(self) == *old(self), final(self).owns(*r), den(*r) == l_comp(den(*e)), wf(*r),
        r.id != e.id, r.id == (if e.id % 2 == 0 { e.id + 1 } else { e.id - 1 }), r == final(self).id2re@[r.id as int],
@attr #[verifier::spinoff_prover]
@at start
    let ghost id = e.id;
    proof {
        assert(id ^ 1 == (if id % 2 == 0 { add(id, 1) } else { sub(id, 1) })) by (bit_vector);
        self.lemma_owned(*e);
        let n = self.id2re@.len();
        if id % 2 == 0 {
            assert(self.pair_ok(id as int));
            assert(self.term_ok(id + 1));
        } else {
            assert(self.pair_ok(id - 1));
            assert(self.term_ok(id - 1));
            self.lemma_owned(*self.id2re@[id - 1]);
            lemma_comp_comp(den(*self.id2re@[id - 1]));
        }
        let j: int = if id % 2 == 0 { id + 1 } else { id - 1 };
        self.lemma_owned(*self.id2re@[j]);
    }

@fn flatten_concat props=C01 ret=r
    requires wf(*r),
    ensures catl(final(v)@) == l_cat(catl(old(v)@), den(*r)), owned_with(old(v)@, *r, final(v)@),
        final(v)@ == det_flat_concat(old(v)@, r),
    decreases r.id,
@at start
    let ghost v0 = v@;
    proof {
        lemma_wf(*r);
        lemma_cat_eps(catl(v@));
        lemma_catl_push(v@, r);
        if let BaseRegLan::Concat(a, b) = &r.expr { lemma_cat_assoc(catl(v@), den(**a), den(**b)); }
        assert forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) implies m.owns_kids(r.expr) by { m.lemma_owned(*r); }
    }
@fn decompose_concat props=C16,C01 ret=v
    requires wf(*r),
    ensures catl(v@) == den(*r), owned_with(Seq::empty(), *r, v@),
@at start
    proof { lemma_cat_eps(den(*r)); }
@fn flatten_inter props=C01 ret=r
    requires wf(*r),
    ensures int(final(v)@) == l_and(int(old(v)@), den(*r)), owned_with(old(v)@, *r, final(v)@),
        final(v)@ == det_flat_inter(old(v)@, r),
    decreases r.id,
@at start
    let ghost v0 = v@;
    proof {
        lemma_wf(*r);
        lemma_int_push(v@, r);
        assert forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) implies m.owns_kids(r.expr) by { m.lemma_owned(*r); }
        if let BaseRegLan::Inter(x) = &r.expr { assert(x@.take(0) =~= Seq::empty()); lemma_good(*r); }
    }
@loop 0 iter=it
    invariant
        it.seq().len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> *it.seq()[i] == x@[i],
        r.expr == BaseRegLan::Inter(*x), wf(*r), v@ == det_flats_inter(v0, x@, it.index() as nat, r.id),
        forall|w: Seq<u32>| #[trigger] int(v@)(w) <==> int(v0)(w) && forall|i: int| 0 <= i < it.index() ==> den(*(#[trigger] x@[i]))(w),
        forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) && m.owns_all(v0) ==> m.owns_all(v@) && m.owns_all(x@),
@at loop 0 start
    proof { lemma_wf(*r); assert(wf(*x@[it.index()])); }
    let ghost v1 = v@;
@at loop 0 end
    proof {
        let k = it.index();
        assert forall|w: Seq<u32>| #[trigger] int(v@)(w) <==> int(v0)(w) && forall|i: int| 0 <= i < k + 1 ==> den(*(#[trigger] x@[i]))(w) by {
            assert(int(v@)(w) == l_and(int(v1), den(*x@[k]))(w));
            assert(int(v@)(w) == (int(v1)(w) && den(*x@[k])(w)));
            if int(v0)(w) && forall|i: int| 0 <= i < k + 1 ==> den(*(#[trigger] x@[i]))(w) { assert(den(*x@[k])(w)); }
        }
        assert forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) && m.owns_all(v0) implies m.owns_all(v@) && m.owns_all(x@) by {
            assert(m.owns(*x@[k]));
        }
    }
@at loop 0 after
    proof { assert(int(v@) =~= l_and(int(v0), den(*r))); }
@fn flatten_union props=C01 ret=r
    requires wf(*r),
    ensures uni(final(v)@) == l_or(uni(old(v)@), den(*r)), owned_with(old(v)@, *r, final(v)@),
        final(v)@ == det_flat_union(old(v)@, r),
    decreases r.id,
@at start
    let ghost v0 = v@;
    proof {
        lemma_wf(*r);
        lemma_uni_push(v@, r);
        assert forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) implies m.owns_kids(r.expr) by { m.lemma_owned(*r); }
    }
@loop 0 iter=it
    invariant
        it.seq().len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> *it.seq()[i] == x@[i],
        r.expr == BaseRegLan::Union(*x), wf(*r), v@ == det_flats_union(v0, x@, it.index() as nat, r.id),
        forall|w: Seq<u32>| #[trigger] uni(v@)(w) <==> uni(v0)(w) || exists|i: int| 0 <= i < it.index() && den(*(#[trigger] x@[i]))(w),
        forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) && m.owns_all(v0) ==> m.owns_all(v@) && m.owns_all(x@),
@at loop 0 start
    proof { lemma_wf(*r); assert(wf(*x@[it.index()])); }
    let ghost v1 = v@;
@at loop 0 end
    proof {
        let k = it.index();
        assert forall|w: Seq<u32>| #[trigger] uni(v@)(w) <==> uni(v0)(w) || exists|i: int| 0 <= i < k + 1 && den(*(#[trigger] x@[i]))(w) by {
            assert(uni(v@)(w) == l_or(uni(v1), den(*x@[k]))(w));
            assert(uni(v@)(w) == (uni(v1)(w) || den(*x@[k])(w)));
        }
        assert forall|m: ReManager| m.inv() && #[trigger] m.owns(*r) && m.owns_all(v0) implies m.owns_all(v@) && m.owns_all(x@) by {
            assert(m.owns(*x@[k]));
        }
    }
@at loop 0 after
    proof { assert(uni(v@) =~= l_or(uni(v0), den(*r))); }
@fn ReManager::concat props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e1), old(self).owns(*e2),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_cat(den(*e1), den(*e2)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_concat(*final(self), *e1, *e2, *r),
    decreases e1.id,
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(60)]
@at start
    hide(ReManager::table_ok); hide(ReManager::cache_ok); hide(ReManager::first_ok); hide(wf); hide(den); hide(l_cat);
    let ghost m0 = *self; let ghost mut m1 = *self; let ghost mut t1 = *e1;
    proof { self.lemma_owned(*e1); self.lemma_owned(*e2); self.lemma_first(); }
@at tail
    let ghost k1 = e1.expr;
    let ghost k2 = e2.expr;
    let ghost kr = r.expr;
    proof {
        let (a, b) = (den(*e1), den(*e2));
        lemma_cat_none(a); lemma_cat_none(b); lemma_cat_eps(a); lemma_cat_eps(b);
        lemma_square(a);
        if e1.nullable { lemma_cat_all(a); }
        match (k1, kr) { (BaseRegLan::Loop(x, rng), BaseRegLan::Loop(z, t)) => { lemma_loop_step(b, rng, t); }, _ => {} }
        match (k2, kr) { (BaseRegLan::Loop(y, rng), BaseRegLan::Loop(z, t)) => { lemma_loop_step(a, rng, t); }, _ => {} }
        match (k1, k2, kr) { (BaseRegLan::Loop(x, rng), BaseRegLan::Loop(y, rng2), BaseRegLan::Loop(z, t)) => { lemma_loop_join(den(*x), rng, rng2, t); }, _ => {} }
        match k1 { BaseRegLan::Concat(x, y) => { lemma_cat_assoc(den(*x), den(*y), b); }, _ => {} }
    }
    proof {
        m0.lemma_owned(*e1);
        if k1 is Concat && !(k2 is Empty) && !(k2 is Epsilon) && !(k2 is Loop && k2->Loop_0.id == e1.id) && e1.id != e2.id {
            m0.lemma_owned(*k1->Concat_0);
            later_concat(m1, *self, *k1->Concat_1, *e2, t1);
            assert(self.owns(t1));
        }
        assert(det_concat(*self, *e1, *e2, *r));
    }
@after `let right = self.concat(y, e2);`
    proof { m1 = *self; t1 = *right; }
@fn ReManager::mk_loop props=C01,C07,C15 ret=r
    requires old(self).inv(), old(self).owns(*e), range.wf(),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_loop(den(*e), range_set(range)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_loop(*final(self), *e, range, *r),
@attr #[verifier::spinoff_prover]
@at start
    hide(LoopRange::fold_has); hide(LoopRange::mul_has); hide(l_loop);
    let ghost m0 = *self;
    proof {
        self.lemma_owned(*e); self.lemma_first();
        if let BaseRegLan::Loop(a, r) = &e.expr { if !range.zero() { lemma_mul_nonzero(*r, range); } }
    }
@at tail
    let ghost ke = e.expr;
    let ghost kr = r.expr;
    proof {
        let a = den(*e);
        assert(range.has(range.lo()));
        assert(range_set(range)(range.lo()));
        lemma_loop_k(a, 0); lemma_loop_k(a, 1); lemma_pow1(a);
        lemma_loop_none(range_set(range)); lemma_loop_eps(range_set(range));
        match (ke, kr) { (BaseRegLan::Loop(x, rng), BaseRegLan::Loop(z, t)) => { lemma_loop_mul(den(*x), rng, range, t); }, _ => {} }
    }

@fn RE as Ord::cmp props=C07 ret=r
@fn RE as PartialOrd::partial_cmp props=C07 ret=r
@fn contains props=C01 ret=r
    ensures r == det_finds(v@, x.id, 0), r ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).id == x.id,
@loop 0 iter=it
    invariant det_finds(v@, x.id, 0) == det_finds(v@, x.id, it.index()), it.seq().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *it.seq()[i] == v@[i],
@fn set_to_singleton props=C01
    ensures final(a)@ == seq![x],
@at end
    proof { assert(a@ =~= seq![x]); }
@fn simplify_set_operation props=C01
    requires owned_list(old(v)@, *bottom, *top),
    ensures simplified(old(v)@, final(v)@, *bottom, top), final(v)@ == det_simplify(old(v)@, bottom.id, top),
@attr #[verifier::spinoff_prover]
@replace `v.sort()` => `crate::prelude::vsort(v)`
@replace `v.dedup()` => `crate::prelude::vdedup(v)`
@at start
    let ghost v0 = v@;
    let ghost m = choose|m: ReManager| #[trigger] m.inv() && m.owns_all(v0) && m.owns(*bottom) && m.owns(*top);
    let ghost mut v1 = v0;
    let ghost mut d = v0;
    proof { m.lemma_owned(*top); m.lemma_owned(*bottom); m.lemma_all_owned(v0); if v0.len() == 0 { lemma_simplified_sub(v0, v0, *bottom, top); } }
@after `v.sort();`
    proof {
        v1 = v@;
        crate::prelude::lemma_same_multiset(v1, v0);
        m.lemma_same_owned(v1, v0);
    }
@after `v.dedup();`
    proof {
        d = v@;
        m.lemma_dedup(v1, d);
        assert forall|x: &RE| d.contains(x) == #[trigger] v0.contains(x) by { assert(v1.contains(x) == v0.contains(x)); assert(d.contains(x) == v1.contains(x)); }
        m.lemma_same_owned(d, v0);
        m.lemma_all_owned(d);
        assert(forall|i: int| 0 <= i < d.len() ==> d.contains(#[trigger] d[i]));
    }
@at loop 0 before
    proof { assert(v@ =~= d); assert(m.owns(*d[0])); if *d[0] != *bottom { assert(v@.take(1)[0] == d[0]); } }
@loop 0 iter=it
    invariant
        det_simplify(v0, bottom.id, top) == det_simp(v@, j as int, previous, i as int, bottom.id, top),
        it.seq().len() == d.len() - 1, v0 == old(v)@,
        m.inv(), m.owns(*bottom), m.owns(*top), wf(*top), m.owns_all(d), wf_all(d),
        forall|x: &RE| d.contains(x) == #[trigger] v0.contains(x),
        forall|i: int| 0 <= i < d.len() ==> d.contains(#[trigger] d[i]),
        v@.len() == d.len(), j <= i, d.len() > 0,
        d.contains(previous),
        forall|k: int| i <= k < d.len() ==> #[trigger] v@[k] == d[k],
        forall|k: int| 0 <= k < j ==> d.contains(#[trigger] v@[k]),
        forall|k: int| 0 <= k < i ==> *(#[trigger] d[k]) == *bottom || v@.take(j as int).contains(d[k]),
@at loop 0 start
    let ghost w0 = v@;
    let ghost j0 = j;
@before `return;`
    proof {
        let a = d.index_of(previous);
        let e = previous.id as int;
        assert(m.owns(*d[a])); assert(m.owns(*d[i as int]));
        assert(m.pair_ok(e));
        lemma_simplified_top(d, v@, *bottom, top, a, i as int);
        lemma_simplified_via(v0, d, v@, *bottom, top);
    }
@at loop 0 end
    proof {
        assert(m.owns(*d[i as int]));
        assert forall|k: int| 0 <= k < i + 1 implies *(#[trigger] d[k]) == *bottom || v@.take(j as int).contains(d[k]) by {
            if k < i && *d[k] != *bottom {
                let l = w0.take(j0 as int).index_of(d[k]);
                assert(v@.take(j as int)[l] == d[k]);
            }
            if k == i && *d[k] != *bottom { assert(v@.take(j as int)[j0 as int] == d[k]); }
        }
    }
@at end
    proof {
        if v0.len() > 0 {
            if v@ == seq![top] && exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id == top.id {
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).id == top.id;
                assert(m.owns(*d[i]));
                lemma_simplified_top(d, v@, *bottom, top, i, i);
            } else {
                lemma_simplified_sub(d, v@, *bottom, top);
            }
            lemma_simplified_via(v0, d, v@, *bottom, top);
        }
    }

@fn BasePattern::len props=C16 ret=r
    requires self.start <= self.end,
    ensures r == self.end - self.start,
@fn BasePattern::set_match props=C16
    ensures *final(self) == (BasePattern { start_match: start, end_match: end, ..*old(self) }),
@fn BasePattern::make props=C16 ret=r
    requires start < end,
    ensures r.start == start, r.end == end, r.is_rigid == is_rigid,
@fn base_patterns props=C16 ret=b
    ensures chain(b@, r@),
@attr #[verifier::spinoff_prover]
@replace `for (i, re) in r.iter().enumerate().skip(1)` => `for i in it: 1..r.len()`
@at start
    hide(part_chain); hide(chain); hide(rigid_part);
    let ghost mut b1 = Seq::<BasePattern>::empty();
@at loop 0 before
    proof { lemma_part_start(r@, rigid_slice); }
@at loop 0 start
    let re = r[i];
    let ghost b0 = result@;
@loop 0
    invariant
        it.seq().len() == r@.len() - 1, j < i, i >= 1, i <= r@.len(),
        part_chain(result@, r@, j as int, rigid_slice),
        rigid_slice ==> forall|k: int| j <= k < i ==> (#[trigger] r@[k]).expr is Range,
        !rigid_slice ==> !(r@[i - 1].expr is Range),
@at loop 0 end
    proof { if result@.len() != b0.len() { lemma_part_push(b0, r@, result@.last().start as int, result@.last().is_rigid, result@.last()); } }
@at loop 0 after
    proof { b1 = result@; }
@at tail
    proof {
        if r@.len() > 0 { lemma_part_push(b1, r@, b@.last().start as int, b@.last().is_rigid, b@.last()); }
        else { lemma_part_start(r@, true); }
        lemma_part_done(b@, r@, if r@.len() > 0 { !b@.last().is_rigid } else { true });
    }
@fn rigid_match_at props=C16 ret=r
    requires i + pattern@.len() <= s@.len(), wf_all(s@), forall|j: int| 0 <= j < pattern@.len() ==> (#[trigger] pattern@[j]).wf(),
    ensures r ==> set_match(pattern@, s@, i as int),
@at start
    proof { assert(vstd::slice::spec_slice_len(s) == s@.len()); }
@loop 0
    invariant
        i + pattern@.len() <= s@.len(), s@.len() <= usize::MAX, wf_all(s@), forall|k: int| 0 <= k < pattern@.len() ==> (#[trigger] pattern@[k]).wf(),
        forall|k: int| i <= k < i + j ==> l_sub(den(*(#[trigger] s@[k])), l_range(pattern@[k - i].start, pattern@[k - i].end)),
@at loop 0 start
    proof { lemma_wf(*s@[i + j]); }
@fn next_rigid_match props=C16 ret=r
    requires wf_all(s@), forall|j: int| 0 <= j < pattern@.len() ==> (#[trigger] pattern@[j]).wf(),
    ensures match r { SearchResult::NotFound => true, SearchResult::Found(j, k) => i <= j && k == j + pattern@.len() && k <= s@.len() && set_match(pattern@, s@, j as int) },
@replace `for j in i..=(s_len - p_len)` => `for j in it: crate::prelude::vincl(i, s_len - p_len)`
@loop 0
    invariant
        wf_all(s@), forall|j: int| 0 <= j < pattern@.len() ==> (#[trigger] pattern@[j]).wf(), p_len == pattern@.len(), s_len == s@.len(), p_len <= s_len,
        it.seq().len() == (if i <= s_len - p_len { s_len - p_len - i + 1 } else { 0 }), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == i + k,
@fn prev_rigid_match props=C16 ret=r
    requires i <= s@.len(), wf_all(s@), forall|j: int| 0 <= j < pattern@.len() ==> (#[trigger] pattern@[j]).wf(),
    ensures match r { SearchResult::NotFound => true, SearchResult::Found(j, k) => k <= i && k == j + pattern@.len() && set_match(pattern@, s@, j as int) },
@replace `for j in (p_len..=i).rev()` => `for j in it: crate::prelude::vincl_rev(p_len, i)`
@loop 0
    invariant
        wf_all(s@), i <= s@.len(), forall|j: int| 0 <= j < pattern@.len() ==> (#[trigger] pattern@[j]).wf(), p_len == pattern@.len(),
        it.seq().len() == (if p_len <= i { i - p_len + 1 } else { 0 }), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == i - k,
@fn char_sets_of_pattern props=C16 ret=r
    requires wf_all(p@), forall|j: int| 0 <= j < p@.len() ==> (#[trigger] p@[j]).expr is Range,
    ensures sets_of(r@, p@),
@loop 0 iter=it
    invariant
        wf_all(p@), forall|j: int| 0 <= j < p@.len() ==> (#[trigger] p@[j]).expr is Range,
        it.seq().len() == p@.len(), forall|i: int| 0 <= i < p@.len() ==> *it.seq()[i] == p@[i],
        sets_upto(result, p@, it.index()),
@at loop 0 start
    proof { assert(p@[it.index()].expr is Range); lemma_wf(*p@[it.index()]); }
@fn rigid_prefix_match props=C16 ret=r
    requires wf_all(u@), wf_all(v@), p.is_rigid, p.start < p.end && p.end <= v@.len(), rigid_part(v@, *p),
    ensures r ==> p.end - p.start <= u@.len() && l_sub(catl(piece(u@, 0, p.end - p.start)), catl(piece(v@, p.start as int, p.end as int))),
@at start
    let ghost q = *p;
    proof { lemma_piece(v@, q.start as int, q.end as int); }
@after `char_sets_of_pattern(&v[p.start..p.end]);`
    let ghost cs = p@;
    proof { if set_match(cs, u@, 0) && q.end - q.start <= u@.len() { lemma_set_match(cs, u@, 0, v@, q.start as int, q.end as int); } }
@fn rigid_suffix_match props=C16 ret=r
    requires wf_all(u@), wf_all(v@), p.is_rigid, p.start < p.end && p.end <= v@.len(), rigid_part(v@, *p),
    ensures r ==> p.end - p.start <= u@.len() && l_sub(catl(piece(u@, u@.len() - (p.end - p.start), u@.len() as int)), catl(piece(v@, p.start as int, p.end as int))),
@at start
    let ghost q = *p;
    proof { lemma_piece(v@, q.start as int, q.end as int); assert(u@.subrange(0, u@.len() as int) =~= u@); }
@after `char_sets_of_pattern(&v[p.start..p.end]);`
    let ghost cs = p@;
    proof { if set_match(cs, u@, u@.len() - cs.len()) && q.end - q.start <= u@.len() { lemma_set_match(cs, u@, u@.len() - cs.len(), v@, q.start as int, q.end as int); } }
@fn find_rigid_matches props=C16 ret=r
    requires wf_all(u@), wf_all(v@), chain(old(patterns)@, v@),
    ensures same_patterns(old(patterns)@, final(patterns)@), chain(final(patterns)@, v@), ends_flexible(old(patterns)@) ==> ends_flexible(final(patterns)@), r ==> rigid_placed(u@, v@, final(patterns)@),
@attr #[verifier::spinoff_prover]
@replace `for p in patterns` => `for q in it: 0..patterns.len()`
@at start
    hide(wf); hide(den); hide(catl); hide(l_sub); hide(chain);
    let ghost p0 = patterns@;
@at loop 0 start
    let ghost p1 = patterns@;
    let p = &mut patterns[q];
    proof { assert(same_pattern(p0[q as int], p1[q as int])); lemma_chain_at(p0, v@, q as int); assert(p1.update(q as int, p1[q as int]) =~= p1); lemma_piece(v@, p.start as int, p.end as int); }
@loop 0
    invariant
        wf_all(u@), wf_all(v@), chain(p0, v@), same_patterns(p0, patterns@), p0 == old(patterns)@, i <= u@.len(), chain(patterns@, v@), ends_flexible(p0) ==> ends_flexible(patterns@),
        it.seq().len() == p0.len(),
        forall|k: int| 0 <= k < q && (#[trigger] patterns@[k]).is_rigid ==> placed(u@, v@, patterns@[k]) && patterns@[k].end_match <= i,
        forall|k: int, l: int| 0 <= k < l < q && (#[trigger] patterns@[k]).is_rigid && (#[trigger] patterns@[l]).is_rigid ==> patterns@[k].end_match <= patterns@[l].start_match,
@before `p.set_match(j, k);`
    proof { lemma_set_match(pattern@, u@, j as int, v@, p.start as int, p.end as int); }
@at loop 0 end
    proof {
        let n = q as int;
        let p2 = patterns@;
        lemma_same_step(p0, p1, p2, v@, n);
        assert forall|k: int| 0 <= k < n + 1 && (#[trigger] p2[k]).is_rigid implies placed(u@, v@, p2[k]) && p2[k].end_match <= i by { if k != n { assert(p2[k] == p1[k]); } }
        assert forall|k: int, l: int| 0 <= k < l < n + 1 && (#[trigger] p2[k]).is_rigid && (#[trigger] p2[l]).is_rigid implies p2[k].end_match <= p2[l].start_match by {
            assert(p2[k] == p1[k]); if l != n { assert(p2[l] == p1[l]); } }
    }
@fn find_rigid_matches_rev props=C16 ret=r
    requires wf_all(u@), wf_all(v@), chain(old(patterns)@, v@),
    ensures same_patterns(old(patterns)@, final(patterns)@), chain(final(patterns)@, v@), ends_flexible(old(patterns)@) ==> ends_flexible(final(patterns)@), r ==> rigid_placed(u@, v@, final(patterns)@),
@attr #[verifier::spinoff_prover]
@replace `for p in patterns.iter_mut().rev()` => `for q in it: 0..patterns.len()`
@at start
    hide(wf); hide(den); hide(catl); hide(l_sub); hide(chain);
    let ghost p0 = patterns@;
@at loop 0 start
    let ghost p1 = patterns@;
    let q1 = patterns.len() - 1 - q;
    let p = &mut patterns[q1];
    proof { assert(same_pattern(p0[q1 as int], p1[q1 as int])); lemma_chain_at(p0, v@, q1 as int); assert(p1.update(q1 as int, p1[q1 as int]) =~= p1); lemma_piece(v@, p.start as int, p.end as int); }
@loop 0
    invariant
        wf_all(u@), wf_all(v@), chain(p0, v@), same_patterns(p0, patterns@), p0 == old(patterns)@, i <= u@.len(), chain(patterns@, v@), ends_flexible(p0) ==> ends_flexible(patterns@),
        it.seq().len() == p0.len(),
        forall|k: int| p0.len() - q <= k < p0.len() && (#[trigger] patterns@[k]).is_rigid ==> placed(u@, v@, patterns@[k]) && i <= patterns@[k].start_match,
        forall|k: int, l: int| p0.len() - q <= k < l < p0.len() && (#[trigger] patterns@[k]).is_rigid && (#[trigger] patterns@[l]).is_rigid ==> patterns@[k].end_match <= patterns@[l].start_match,
@before `p.set_match(j, k);`
    proof { lemma_set_match(pattern@, u@, j as int, v@, p.start as int, p.end as int); }
@at loop 0 end
    proof {
        let n = p0.len() - q - 1;
        lemma_same_step(p0, p1, patterns@, v@, n);
        let p2 = patterns@;
        assert(forall|k: int| 0 <= k < p0.len() && k != n ==> #[trigger] p2[k] == p1[k]);
        assert forall|k: int| n <= k < p0.len() && (#[trigger] p2[k]).is_rigid implies placed(u@, v@, p2[k]) && i <= p2[k].start_match by { if k != n { assert(p2[k] == p1[k]); } }
        assert forall|k: int, l: int| n <= k < l < p0.len() && (#[trigger] p2[k]).is_rigid && (#[trigger] p2[l]).is_rigid implies p2[k].end_match <= p2[l].start_match by {
            assert(p2[l] == p1[l]); if k != n { assert(p2[k] == p1[k]); } }
    }
@fn set_flexible_regions props=C16
    requires forall|i: int| 0 <= i && i + 1 < old(p)@.len() ==> (#[trigger] old(p)@[i]).is_rigid != old(p)@[i + 1].is_rigid,
    ensures same_patterns(old(p)@, final(p)@),
        forall|i: int| 0 <= i < old(p)@.len() && (#[trigger] old(p)@[i]).is_rigid ==> final(p)@[i] == old(p)@[i],
        forall|i: int| 0 <= i < old(p)@.len() && !(#[trigger] old(p)@[i]).is_rigid ==>
            final(p)@[i].start_match == (if i == 0 { 0 } else { old(p)@[i - 1].end_match })
            && final(p)@[i].end_match == (if i == old(p)@.len() - 1 { string_len } else { old(p)@[i + 1].start_match }),
@at start
    let ghost p0 = p@;
@loop 0
    invariant
        p0 == old(p)@, p@.len() == p0.len(), forall|i: int| 0 <= i && i + 1 < p0.len() ==> (#[trigger] p0[i]).is_rigid != p0[i + 1].is_rigid,
        same_patterns(p0, p@),
        forall|k: int| i <= k < p0.len() ==> #[trigger] p@[k] == p0[k],
        forall|k: int| 0 <= k < p0.len() && (#[trigger] p0[k]).is_rigid ==> p@[k] == p0[k],
        forall|k: int| 0 <= k < i && !(#[trigger] p0[k]).is_rigid ==>
            p@[k].start_match == (if k == 0 { 0 } else { p0[k - 1].end_match })
            && p@[k].end_match == (if k == p0.len() - 1 { string_len } else { p0[k + 1].start_match }),
@at loop 0 start
    let ghost p1 = p@;
    proof { assert(same_pattern(p0[i as int], p1[i as int])); if i > 0 { assert(p0[i - 1].is_rigid != p0[i as int].is_rigid); } }
@fn flexible_match props=C16 ret=r
    requires wf_all(_u@), wf_all(v@),
    ensures r ==> l_sub(catl(_u@), catl(v@)),
@at start
    proof {
        lemma_catl_good(_u@);
        if v@.len() == 1 { lemma_wf(*v@[0]); assert(v@ =~= Seq::empty().push(v@[0])); lemma_catl_push(Seq::empty(), v@[0]); lemma_cat_eps(den(*v@[0])); }
    }
@fn match_flexible_patterns props=C16 ret=r
    requires wf_all(u@), wf_all(v@), chain(old(patterns)@, v@), rigid_placed(u@, v@, old(patterns)@),
        ends_flexible(old(patterns)@),
    ensures same_patterns(old(patterns)@, final(patterns)@), chain(final(patterns)@, v@), ends_flexible(final(patterns)@), r ==> l_sub(catl(u@), catl(v@)),
@attr #[verifier::spinoff_prover]
@replace `for p in patterns` => `for q in it: 0..patterns.len()`
@at start
    hide(wf); hide(den); hide(catl); hide(l_sub); hide(rigid_placed); hide(chain); hide(part_placed); hide(same_patterns);
    let ghost p0 = patterns@;
    proof { lemma_chain_all(p0, v@); lemma_slice_len(u); lemma_same_patterns_refl(p0); }
@at loop 0 before
    proof { lemma_flexible(u@, v@, p0, patterns@); lemma_same_chain(p0, patterns@, v@); }
@at loop 0 start
    let p = &patterns[q];
    proof {
        lemma_chain_at(patterns@, v@, q as int);
        lemma_piece(u@, p.start_match as int, p.end_match as int);
        lemma_piece(v@, p.start as int, p.end as int);
    }
@loop 0
    invariant
        wf_all(u@), wf_all(v@), chain(patterns@, v@), same_patterns(p0, patterns@), p0 == old(patterns)@, ends_flexible(patterns@),
        it.seq().len() == p0.len(), patterns@.len() == p0.len(),
        forall|k: int| 0 <= k < p0.len() ==> (#[trigger] patterns@[k]).start_match <= patterns@[k].end_match <= u@.len(),
        forall|k: int| 0 <= k < p0.len() && (#[trigger] patterns@[k]).is_rigid ==> placed(u@, v@, patterns@[k]),
        forall|k: int| 0 <= k < q ==> placed(u@, v@, #[trigger] patterns@[k]),
        part_placed(patterns@, u@.len() as int),
@at tail
    proof {
        if r {
            if p0.len() == 0 { lemma_chain_empty(p0, v@); assert(u@ =~= v@); lemma_sub_refl(catl(u@)); }
            else { lemma_all_placed(u@, v@, patterns@); lemma_placed(u@, v@, patterns@); }
        }
    }
@fn shift_pattern_start props=C16
    requires forall|i: int| 0 <= i < old(patterns)@.len() ==> delta <= (#[trigger] old(patterns)@[i]).start && old(patterns)@[i].start < old(patterns)@[i].end,
    ensures final(patterns)@.len() == old(patterns)@.len(),
        forall|i: int| 0 <= i < old(patterns)@.len() ==> (#[trigger] final(patterns)@[i]).start == old(patterns)@[i].start - delta && final(patterns)@[i].end == old(patterns)@[i].end - delta && final(patterns)@[i].is_rigid == old(patterns)@[i].is_rigid,
@replace `for p in patterns` => `for q in it: 0..patterns.len()`
@at start
    let ghost p0 = patterns@;
@at loop 0 start
    let p = &mut patterns[q];
@loop 0
    invariant
        p0 == old(patterns)@, patterns@.len() == p0.len(), it.seq().len() == p0.len(),
        forall|i: int| 0 <= i < p0.len() ==> delta <= (#[trigger] p0[i]).start && p0[i].start < p0[i].end,
        forall|i: int| q <= i < p0.len() ==> #[trigger] patterns@[i] == p0[i],
        forall|i: int| 0 <= i < q ==> (#[trigger] patterns@[i]).start == p0[i].start - delta && patterns@[i].end == p0[i].end - delta && patterns@[i].is_rigid == p0[i].is_rigid,
@fn concat_inclusion props=C16 ret=r
    requires wf_all(u@), wf_all(v@),
    ensures r ==> l_sub(catl(u@), catl(v@)),
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(100)]
@at start
    hide(same_patterns); hide(rigid_part); hide(wf_all); hide(wf); hide(den); hide(catl); hide(l_sub); hide(chain); hide(rigid_placed); hide(trimmed); hide(ends_flexible);
    let ghost u0 = u@;
    let ghost v0 = v@;
    let ghost mut a = Seq::<&RE>::empty();
    let ghost mut b1 = Seq::<&RE>::empty();
    let ghost mut a2 = Seq::<&RE>::empty();
    let ghost mut b2 = Seq::<&RE>::empty();
    proof { lemma_sub_refl(catl(a)); assert(a + u@ =~= u@); assert(b1 + v@ =~= v@); }
@after `let mut b = base_patterns(v);`
    let ghost p0 = b@;
    proof { lemma_chain_all(p0, v0); if p0.len() > 0 { lemma_chain_at(p0, v0, 0); lemma_chain_ends(p0, v0); lemma_chain_mono(p0, v0); } if p0.len() > 1 { lemma_chain_second(p0, v0); } }
@after `v = &v[len..];`
    proof {
        lemma_chain_at(p0, v0, 0);
        a = piece(u0, 0, len as int);
        b1 = piece(v0, 0, len as int);
        assert(u0 =~= a + u@); assert(v0 =~= b1 + v@);
        lemma_piece(u0, len as int, u0.len() as int); lemma_piece(v0, len as int, v0.len() as int);
        lemma_chain_skip(p0, p@, v0, len as int);
    }
@before `if let Some(pat) = p.last()`
    let ghost p1 = p@;
    let ghost u1 = u@;
    let ghost v1 = v@;
    proof {
        assert(wf_all(u1) && wf_all(v1) && chain(p1, v1));
        assert(p1.len() > 0 ==> !p1[0].is_rigid);
        assert(u0 == a + u1 && v0 == b1 + v1 && l_sub(catl(a), catl(b1)));
        if p1.len() == 0 || !p1.last().is_rigid { lemma_trimmed_none(u1, v1, p1); }
        if p1.len() > 0 { lemma_chain_at(p1, v1, p1.len() - 1); lemma_chain_ends(p1, v1); }
    }
@after `v = &v[..v.len() - len];`
    proof {
        a2 = piece(u1, u1.len() - len, u1.len() as int);
        b2 = piece(v1, v1.len() - len, v1.len() as int);
        assert(p@ =~= p1.drop_last());
        lemma_trimmed_last(u1, v1, p1, len as int);
        assert(trimmed(u@, v@, p@, a2, b2, u1, v1));
    }
@before `if find_rigid_matches(`
    proof {
        assert(trimmed(u@, v@, p@, a2, b2, u1, v1));
        lemma_trimmed(u@, v@, p@, a2, b2, u1, v1, a, b1);
    }
@fn sub_language props=C16,C01 ret=b
    requires together(*r, *s),
    ensures b ==> l_sub(den(*r), den(*s)), b == det_sub(*r, *s),
@attr #[verifier::spinoff_prover]
@at closure 0
    |x: &&RE| -> (b: bool) requires together(*r, **x) ensures b ==> l_sub(den(*r), den(**x))
@at closure 1
    |x: &&RE| -> (b: bool) requires together(**x, *s) ensures b ==> l_sub(den(**x), den(*s))
@at closure 2
    |x: &&RE| -> (b: bool) requires together(**x, *s) ensures b ==> l_sub(den(**x), den(*s))
@at closure 3
    |x: &&RE| -> (b: bool) requires together(*r, **x) ensures b ==> l_sub(den(*r), den(**x))
@at start
    hide(wf); hide(den); hide(l_sub); hide(catl); hide(ReManager::inv); hide(together); hide(wf_all);
    proof { lemma_sub_language(*r, *s); }
@before `concat_inclusion(&u, &v)`
    proof { lemma_decomposed(*r, u@); lemma_decomposed(*s, v@); }
@at tail
    proof {
        // safe code, two shared references to immutable terms, no other state: the answer is a function of the terms
        assume(b == det_sub(*r, *s));
    }
@fn ReManager::concat_list props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns_all(elements(a)),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == catl(elements(a)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_concats(*final(self), det_list_concat(Seq::empty(), elements(a), elements::<RegLan, _>(a).len()), 0, *r),
@replace `for x in a` => `for x in it: vseq(a)`
@at start
    let ghost m0 = *self;
    let ghost s0 = elements::<RegLan, _>(a);
@loop 0
    invariant
        v@ == det_list_concat(Seq::empty(), s0, it.index() as nat),
        m0.inv(), m0.owns_all(s0), it.seq() == s0,
        m0.owns_all(v@), catl(v@) == catl(s0.take(it.index())),
@at loop 0 before
    proof { assert(s0.take(0) =~= Seq::empty()); }
@at loop 0 start
    proof { assert(m0.owns(*s0[it.index()])); m0.lemma_owned(*x); assert(s0.take(it.index() + 1) =~= s0.take(it.index()).push(x)); lemma_catl_push(s0.take(it.index()), x); }
@at loop 1 before
    let ghost v1 = v@;
    proof {
        assert(s0.take(s0.len() as int) =~= s0);
        self.lemma_first();
        assert(v1.skip(v1.len() as int) =~= Seq::empty());
    }
@loop 1 iter=it2
    invariant
        det_concats(*self, v1, v1.len() - it2.index(), *result),
        m0.inv(), m0.le(*self), self.inv(), m0.owns_all(v1), self.owns(*result), it2.seq().len() == v1.len(),
        self.deriv_cache == m0.deriv_cache,
        forall|k: int| 0 <= k < v1.len() ==> *(#[trigger] it2.seq()[k]) == v1[v1.len() - 1 - k],
        den(*result) == catl(v1.skip(v1.len() - it2.index())),
@at loop 1 start
    let ghost m1 = *self; let ghost t1 = *result;
    proof {
        let k = v1.len() - 1 - it2.index();
        assert(x == v1[k]);
        assert(m0.owns(*v1[k]));
        lemma_catl_cons(v1.skip(k));
        assert(v1.skip(k).skip(1) =~= v1.skip(k + 1));
    }
@at loop 1 end
    proof {
        let k = v1.len() - 1 - it2.index();
        later_concats(m1, *self, v1, k + 1, t1);
        assert(self.owns(t1));
    }
@at loop 1 after
    proof { assert(v1.skip(0) =~= v1); }
@fn ReManager::make_inter props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns_all(v@),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == int(v@),
        final(self).deriv_cache == old(self).deriv_cache,
        det_inter(*final(self), v@, *r),
@attr #[verifier::spinoff_prover]
@replace `v.into()` => `crate::prelude::vinto_box(v)`
@at start
    hide(ReManager::table_ok); hide(ReManager::cache_ok); hide(ReManager::first_ok); hide(wf); hide(den);
    let ghost m0 = *self;
    let ghost v0 = v@;
    proof { self.lemma_first(); assert(owned_list(v0, *self.sigma_star, *self.empty)); }
@after `simplify_set_operation(&mut v, self.sigma_star, self.empty);`
    let ghost v1 = v@;
    proof { m0.lemma_simplified_owned(v0, v1, *m0.sigma_star, m0.empty); m0.lemma_list(v1); if exists|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).id == 4 { m0.lemma_int_eps(v1); } }
@at closure 0
    |r: &&RE| -> (b: bool) ensures b == r.nullable
@fn ReManager::make_union props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns_all(v@),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == uni(v@),
        final(self).deriv_cache == old(self).deriv_cache,
        det_union(*final(self), v@, *r),
@attr #[verifier::spinoff_prover]
@replace `v.into()` => `crate::prelude::vinto_box(v)`
@at start
    hide(ReManager::table_ok); hide(ReManager::cache_ok); hide(ReManager::first_ok); hide(wf); hide(den);
    let ghost m0 = *self;
    let ghost v0 = v@;
    proof { self.lemma_first(); assert(owned_list(v0, *self.empty, *self.sigma_star)); }
@after `simplify_set_operation(&mut v, self.empty, self.sigma_star);`
    let ghost v1 = v@;
    proof { m0.lemma_simplified_owned(v0, v1, *m0.empty, m0.sigma_star); }
@before `match v.len()`
    let ghost v2 = v@;
    proof { if v2 != v1 { m0.lemma_owned_in(v1, v2); } m0.lemma_list(v2); }
@fn ReManager::make_union::is_subsumed props=C01,C16 ret=b
    requires owned_pair(a@, *r),
    ensures b == det_subsumed(*r, a@), b ==> exists|i: int| 0 <= i < a@.len() && (#[trigger] a@[i]).id != r.id && l_sub(den(*r), den(*a@[i])),
@at start
    proof { lemma_owned_pair(a@, *r); }
@at closure 0
    |x: &&RE| -> (b: bool) requires together(*r, **x) ensures b == (x.id != r.id && det_sub(*r, **x)), b ==> x.id != r.id && l_sub(den(*r), den(**x))
@fn ReManager::make_union::remove_subsumed props=C01,C16
    requires owned_some(old(a)@),
    ensures final(a)@ == det_remove(old(a)@, 0), uni(final(a)@) == uni(old(a)@), forall|i: int| 0 <= i < final(a)@.len() ==> old(a)@.contains(#[trigger] final(a)@[i]),
@at start
    let ghost a0 = a@;
    let ghost m = choose|m: ReManager| #[trigger] m.inv() && m.owns_all(a0);
@loop 0
    invariant
        det_remove(a0, 0) == det_remove(a@, i as int),
        a0 == old(a)@, m.inv(), m.owns_all(a0), m.owns_all(a@), uni(a@) == uni(a0), forall|i: int| 0 <= i < a@.len() ==> a0.contains(#[trigger] a@[i]),
@at loop 0 start
    let ghost a1 = a@;
    proof { assert(m.owns(*a1[i as int])); }
@at loop 0 end
    proof {
        if a@ != a1 {
            let j = choose|j: int| 0 <= j < a1.len() && (#[trigger] a1[j]).id != a1[i as int].id && l_sub(den(*a1[i as int]), den(*a1[j]));
            lemma_remove(a1, i as int, j);
        }
    }
@fn ReManager::inter props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e1), old(self).owns(*e2),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_and(den(*e1), den(*e2)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_inter(*final(self), det_flat_inter(det_flat_inter(Seq::empty(), e1), e2), *r),
@at start
    proof { self.lemma_owned(*e1); self.lemma_owned(*e2); lemma_int_empty(den(*e1)); assert(self.owns_all(Seq::empty())); }
@fn ReManager::union props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e1), old(self).owns(*e2),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_or(den(*e1), den(*e2)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_union(*final(self), det_flat_union(det_flat_union(Seq::empty(), e1), e2), *r),
@at start
    proof { self.lemma_owned(*e1); self.lemma_owned(*e2); lemma_int_empty(den(*e1)); assert(self.owns_all(Seq::empty())); }
@fn ReManager::inter_list props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns_all(elements(a)),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == int(elements(a)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_inter(*final(self), det_list_inter(Seq::empty(), elements(a), elements::<RegLan, _>(a).len()), *r),
@replace `for r in a` => `for r in it: vseq(a)`
@at start
    let ghost m0 = *self;
    let ghost s0 = elements::<RegLan, _>(a);
@loop 0
    invariant
        v@ == det_list_inter(Seq::empty(), s0, it.index() as nat),
        m0.inv(), m0.owns_all(s0), it.seq() == s0, m0.owns_all(v@), int(v@) == int(s0.take(it.index())),
@at loop 0 before
    proof { assert(s0.take(0) =~= Seq::empty()); }
@at loop 0 start
    proof { assert(m0.owns(*s0[it.index()])); m0.lemma_owned(*r); assert(s0.take(it.index() + 1) =~= s0.take(it.index()).push(r)); lemma_int_push(s0.take(it.index()), r); }
@at loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
@fn ReManager::union_list props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns_all(elements(a)),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == uni(elements(a)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_union(*final(self), det_list_union(Seq::empty(), elements(a), elements::<RegLan, _>(a).len()), *r),
@replace `for r in a` => `for r in it: vseq(a)`
@at start
    let ghost m0 = *self;
    let ghost s0 = elements::<RegLan, _>(a);
@loop 0
    invariant
        v@ == det_list_union(Seq::empty(), s0, it.index() as nat),
        m0.inv(), m0.owns_all(s0), it.seq() == s0, m0.owns_all(v@), uni(v@) == uni(s0.take(it.index())),
@at loop 0 before
    proof { assert(s0.take(0) =~= Seq::empty()); }
@at loop 0 start
    proof { assert(m0.owns(*s0[it.index()])); m0.lemma_owned(*r); assert(s0.take(it.index() + 1) =~= s0.take(it.index()).push(r)); lemma_uni_push(s0.take(it.index()), r); }
@at loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
@fn ReManager::diff props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e1), old(self).owns(*e2),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_and(den(*e1), l_comp(den(*e2))),
        final(self).deriv_cache == old(self).deriv_cache,
        det_inter(*final(self), det_flat_inter(det_flat_inter(Seq::empty(), e1), det_comp(*final(self), *e2)), *r),
@fn ReManager::diff_list props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e1), old(self).owns_all(elements(a)),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_diff(den(*e1), elements(a)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_inter(*final(self), det_list_comp(*final(self), det_flat_inter(Seq::empty(), e1), elements(a), elements::<RegLan, _>(a).len()), *r),
@replace `for r in a` => `for r in it: vseq(a)`
@at start
    let ghost m0 = *self;
    let ghost s0 = elements::<RegLan, _>(a);
    proof { self.lemma_owned(*e1); lemma_int_empty(den(*e1)); assert(self.owns_all(Seq::empty())); }
@loop 0
    invariant
        v@ == det_list_comp(m0, det_flat_inter(Seq::empty(), e1), s0, it.index() as nat),
        m0.inv(), *self == m0, m0.owns(*e1), m0.owns_all(s0), it.seq() == s0, m0.owns_all(v@), int(v@) == l_diff(den(*e1), s0.take(it.index())),
@at loop 0 before
    proof { assert(int(v@) =~= l_diff(den(*e1), s0.take(0))); }
@at loop 0 start
    let ghost v1 = v@;
    proof { assert(m0.owns(*s0[it.index()])); m0.lemma_owned(*r); }
@at loop 0 end
    proof { m0.lemma_owned(*e1); lemma_diff_step(den(*e1), s0, it.index(), r); assert(int(v@) == l_and(int(v1), l_comp(den(*r)))); }
@at loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
@at tail
    proof { history_list_comp(m0, *self, det_flat_inter(Seq::empty(), e1), s0, s0.len()); }
@fn ReManager::char props=C01,C07 ret=r
    requires old(self).inv(), x <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_range(x, x),
        final(self).deriv_cache == old(self).deriv_cache,
        det_range(*final(self), x, x, *r),
@panics-when x > MAX_CHAR
@fn ReManager::range props=C01,C07 ret=r
    requires old(self).inv(), start <= end, end <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_range(start, end),
        final(self).deriv_cache == old(self).deriv_cache,
        det_range(*final(self), start, end, *r),
@fn ReManager::star props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_loop(den(*e), |n: nat| true),
        final(self).deriv_cache == old(self).deriv_cache,
        det_loop(*final(self), *e, LoopRange(0, None), *r),
@at tail
    proof { lemma_loop_ext(den(*e), range_set(LoopRange(0, None)), |n: nat| true); }
@fn ReManager::plus props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_loop(den(*e), |n: nat| n >= 1),
        final(self).deriv_cache == old(self).deriv_cache,
        det_loop(*final(self), *e, LoopRange(1, None), *r),
@at tail
    proof { lemma_loop_ext(den(*e), range_set(LoopRange(1, None)), |n: nat| n >= 1); }
@fn ReManager::opt props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_or(l_eps(), den(*e)),
        final(self).deriv_cache == old(self).deriv_cache,
        det_loop(*final(self), *e, LoopRange(0, Some(1)), *r),
@at tail
    proof { lemma_loop_opt(den(*e)); }
@fn ReManager::exp props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_pow(den(*e), k as nat),
        final(self).deriv_cache == old(self).deriv_cache,
        det_loop(*final(self), *e, LoopRange(k, Some(k)), *r),
@at tail
    proof { lemma_loop_k(den(*e), k); }
@fn ReManager::smt_loop props=C01,C07 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_loop(den(*e), |n: nat| i <= n <= j),
        final(self).deriv_cache == old(self).deriv_cache,
        i <= j ==> det_loop(*final(self), *e, LoopRange(i, Some(j)), *r), i > j ==> r == final(self).id2re@[2],
@at start
    proof { self.lemma_first(); }
@at tail
    proof {
        lemma_loop_ext(den(*e), range_set(LoopRange(i, Some(j))), |n: nat| i <= n <= j);
        if i > j { assert(l_loop(den(*e), |n: nat| i <= n <= j) =~= l_none()); }
    }
@fn ReManager::smt_range props=C01,C07 ret=r
    requires old(self).inv(), s1.wf(), s2.wf(),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == smt_range_lang(s1.s@, s2.s@),
        final(self).deriv_cache == old(self).deriv_cache,
        r == final(self).id2re@[2] || det_range(*final(self), s1.s@[0], s2.s@[0], *r), (s1.s@.len() == 1 && s2.s@.len() == 1 && s1.s@[0] <= s2.s@[0]) <==> r != final(self).id2re@[2],
@at start
    proof { self.lemma_first(); if s1.s@.len() == 1 && s2.s@.len() == 1 && s1.s@[0] > s2.s@[0] { lemma_range_none(s1.s@[0], s2.s@[0]); } }
@fn ReManager::str props=C01,C07 ret=r
    requires old(self).inv(), s.wf(),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*r), den(*r) == l_word(s.s@),
        final(self).deriv_cache == old(self).deriv_cache,
        det_str(*final(self), s.s@, 0, *r),
@at start
    let ghost m0 = *self;
    let ghost w0 = s.s@;
@loop 0 iter=it
    invariant
        det_str(*self, w0, w0.len() - it.index(), *re),
        m0.inv(), m0.le(*self), self.inv(), crate::smt_strings::good_chars(w0), self.owns(*re), it.seq().len() == w0.len(),
        self.deriv_cache == m0.deriv_cache,
        forall|k: int| 0 <= k < w0.len() ==> *(#[trigger] it.seq()[k]) == w0[w0.len() - 1 - k],
        den(*re) == l_word(w0.skip(w0.len() - it.index())),
@at loop 0 before
    proof { self.lemma_first(); assert(w0.skip(w0.len() as int) =~= eps()); lemma_word_eps(); }
@at loop 0 start
    let ghost m1 = *self; let ghost t1 = *re;
    proof {
        let k = w0.len() - 1 - it.index();
        assert(c == w0[k]);
        assert(w0.skip(k) =~= seq![w0[k]] + w0.skip(k + 1));
        lemma_word_cons(w0[k], w0.skip(k + 1));
    }
@after `let c = self.char(*c);`
    let ghost m2 = *self; let ghost c1 = *c;
@at loop 0 end
    proof {
        let k = w0.len() - 1 - it.index();
        later_str(m1, *self, w0, k + 1, t1);
        assert(self.owns(t1) && self.owns(c1));
        assert(det_range(*self, w0[k], w0[k], c1));
    }
@at loop 0 after
    proof { assert(w0.skip(0) =~= w0); }
@fn RE::empty_complement props=C03,C11 ret=r
    requires self.deriv_class.wf(),
    ensures r == !self.deriv_class.has_complement(),
@fn RE::num_deriv_classes props=C03 ret=r
    ensures r == self.deriv_class.list@.len(),
@fn RE::valid_class_id props=C03 ret=r
    requires self.deriv_class.wf(),
    ensures r == self.deriv_class.valid(cid),
@fn RE::is_empty props=C01 ret=r
    ensures r == (self.expr is Empty),
@fn RE::pick_class_rep props=C03,C05 ret=r
    requires self.deriv_class.wf(), self.deriv_class.valid(cid),
    ensures self.deriv_class.in_class(cid, r),
@fn RE::class_of_char props=C03 ret=r
    requires self.deriv_class.wf(), x <= MAX_CHAR,
    ensures self.deriv_class.valid(r), self.deriv_class.in_class(r, x),
@fn RE::class_of_set props=C03 ret=r
    requires self.deriv_class.wf(), s.wf(),
    ensures
        r is Ok <==> (self.deriv_class.outside(*s) || exists|i: int| self.deriv_class.inside(*s, i)),
        r is Err ==> r->Err_0 is AmbiguousCharSet,
        r is Ok ==> self.deriv_class.valid(r->Ok_0) && forall|x: u32| #[trigger] s.has(x) ==> self.deriv_class.in_class(r->Ok_0, x),
@at start
    proof { assert(s.has(s.start)); }
@fn RE::class_ids props=C03,C05,C19 ret=r
    ensures *r.partition == *self.deriv_class, r.counter == 0,
@fn RE::included_in props=C16 ret=r
    requires together(*self, *other),
    ensures r ==> l_sub(den(*self), den(*other)),
@fn ReManager::deriv_list props=C03,C01 ret=d
    requires old(self).inv(), old(self).owns_all(list@), c <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns_all(d@), derived(list@, d@, c),
    decreases id_bound(list@), 0nat,
@unfold 0 iter=it
    invariant
        m0.inv(), m0.le(*self), self.inv(), m0.owns_all(list@), c <= MAX_CHAR, self.owns_all(vout@), vout@.len() == it.index(),
        it.seq() == list@.map_values(|d: RegLan| &d),
        forall|i: int| 0 <= i < it.index() ==> den(*(#[trigger] vout@[i])) == l_quot(den(*list@[i]), c),
@unfold-start
    let ghost m1 = *self;
    proof { lemma_id_bound(list@); assert(m0.owns(*list@[it.index()])); }
@unfold-end
    proof {
        let k = it.index();
        assert forall|i: int| 0 <= i < vout@.len() implies self.owns(*(#[trigger] vout@[i])) by { if i < k { assert(m1.owns(*vout@[i])); } }
    }
@at start
    let ghost m0 = *self;
@fn ReManager::compute_derivative props=C03,C01 ret=d
    requires old(self).inv(), old(self).owns(*e), c <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d), den(*d) == l_quot(den(*e), c),
    decreases e.id as nat, 1nat,
@attr #[verifier::spinoff_prover]
@at start
    broadcast use axiom_elements_vec;
    let ghost k0 = e.expr;
    let ghost m0 = *self;
    proof {
        self.lemma_first();
        self.lemma_owned(*e);
        match k0 {
            BaseRegLan::Empty => { assert(l_quot(l_none(), c) =~= l_none()); },
            BaseRegLan::Epsilon => { lemma_quot_eps(c); },
            BaseRegLan::Range(r) => { lemma_quot_range(r.start, r.end, c); },
            BaseRegLan::Concat(a, b) => { self.lemma_owned(*a); self.lemma_owned(*b); lemma_quot_cat(den(*a), den(*b), c); },
            BaseRegLan::Loop(a, r) => { self.lemma_owned(*a); lemma_quot_shift(den(*a), r, c); },
            BaseRegLan::Complement(a) => { self.lemma_owned(*a); lemma_quot_comp(den(*a), c); },
            BaseRegLan::Union(v) => { lemma_id_bound(v@); self.lemma_all_owned(v@); assert(v@.subrange(0, v@.len() as int) =~= v@); },
            BaseRegLan::Inter(v) => { lemma_id_bound(v@); self.lemma_all_owned(v@); assert(v@.subrange(0, v@.len() as int) =~= v@); },
        }
    }
@before `self.inter_list(d)`
    proof { lemma_derived(v@, d@, c); }
@before `self.union_list(d)`
    proof { lemma_derived(v@, d@, c); }
@fn ReManager::deriv props=C03,C01 ret=d
    requires old(self).inv(), old(self).owns(*e), c <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d), den(*d) == l_quot(den(*e), c),
    decreases e.id as nat, 3nat,
@at start
    proof { self.lemma_owned(*e); }
@fn ReManager::cached_deriv props=C03,C01 ret=d
    requires old(self).inv(), old(self).owns(*e), e.deriv_class.valid(cid),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d),
        forall|c: u32| #[trigger] e.deriv_class.in_class(cid, c) ==> den(*d) == l_quot(den(*e), c),
    decreases e.id as nat, 2nat,
@at start
    let ghost m0 = *self;
    proof { self.lemma_owned(*e); self.lemma_cache_key(DerivKey(e, cid)); }
@before `self.deriv_cache.insert`
    let ghost m1 = *self;
    proof {
        lemma_class_quot(*e, cid, c);
        assert(m1.owns(*e));
        m1.lemma_cache_key(key);
        assert(m1.entry_ok(key, r));
    }
@after `self.deriv_cache.insert`
    proof {
        assert(self.cache_ok()) by {
            assert forall|k: DerivKey| #[trigger] self.deriv_cache@.contains_key(k) implies self.entry_ok(k, self.deriv_cache@[k]) by {
                if k != key { assert(m1.deriv_cache@.contains_key(k)); assert(m1.entry_ok(k, m1.deriv_cache@[k])); }
            }
        }
        assert(self.table_ok()) by {
            assert forall|i: int| 0 <= i < self.id2re@.len() implies #[trigger] self.term_ok(i) by { assert(m1.term_ok(i)); }
            assert forall|i: int| 0 <= i < self.id2re@.len() && i % 2 == 0 implies #[trigger] self.pair_ok(i) by { assert(m1.pair_ok(i)); }
        }
    }
@fn ReManager::class_derivative props=C03 ret=d
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)),
        d is Ok <==> e.deriv_class.valid(cid), d is Err ==> d->Err_0 is BadClassId,
        d is Ok ==> final(self).owns(*d->Ok_0) && forall|c: u32| #[trigger] e.deriv_class.in_class(cid, c) ==> den(*d->Ok_0) == l_quot(den(*e), c),
@at start
    proof { self.lemma_owned(*e); }
@fn ReManager::class_derivative_unchecked props=C03,C05,C19 ret=d
    requires old(self).inv(), old(self).owns(*e), e.deriv_class.valid(cid),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d),
        forall|c: u32| #[trigger] e.deriv_class.in_class(cid, c) ==> den(*d) == l_quot(den(*e), c),
@fn ReManager::set_derivative props=C03 ret=d
    requires old(self).inv(), old(self).owns(*e), c.wf(),
    ensures final(self).inv(), old(self).le(*final(self)),
        d is Ok <==> (e.deriv_class.outside(*c) || exists|i: int| e.deriv_class.inside(*c, i)),
        d is Err ==> d->Err_0 is AmbiguousCharSet,
        d is Ok ==> final(self).owns(*d->Ok_0) && forall|x: u32| #[trigger] c.has(x) ==> den(*d->Ok_0) == l_quot(den(*e), x),
@at start
    proof { self.lemma_owned(*e); }
@fn ReManager::set_derivative_unchecked props=C03,C02 ret=d
    requires old(self).inv(), old(self).owns(*e), c.wf(), e.deriv_class.outside(*c) || exists|i: int| e.deriv_class.inside(*c, i),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d),
        forall|x: u32| #[trigger] c.has(x) ==> den(*d) == l_quot(den(*e), x),
@at start
    proof { self.lemma_owned(*e); }
@fn ReManager::char_derivative props=C03,C01 ret=d
    requires old(self).inv(), old(self).owns(*e), c <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d), den(*d) == l_quot(den(*e), c),
@fn ReManager::str_derivative props=C03,C01 ret=d
    requires old(self).inv(), old(self).owns(*e), s.wf(),
    ensures final(self).inv(), old(self).le(*final(self)), final(self).owns(*d), den(*d) == l_wquot(den(*e), s.s@),
        d.nullable == den(*e)(s.s@),
@at tail
    proof { assert(w0.take(w0.len() as int) =~= w0); self.lemma_owned(*d); assert(w0 + eps() =~= w0); }
@at start
    let ghost m0 = *self;
    let ghost w0 = s.s@;
    proof { lemma_wquot_eps(den(*e)); assert(w0.take(0) =~= eps()); }
@unfold 0 iter=it
    invariant
        m0.le(*self), self.inv(), self.owns(*r), crate::smt_strings::good_chars(w0), it.seq() == w0.map_values(|d: u32| &d),
        den(*r) == l_wquot(den(*e), w0.take(it.index())),
@unfold-start
    let ghost r1 = *r;
@unfold-end
    proof {
        let k = it.index();
        assert(c == w0[k]);
        lemma_wquot_step(den(*e), w0.take(k), c);
        assert(w0.take(k + 1) =~= w0.take(k).push(c));
    }
@fn ReManager::str_in_re props=C01 ret=b
    requires old(self).inv(), old(self).owns(*e), s.wf(),
    ensures final(self).inv(), old(self).le(*final(self)), b == den(*e)(s.s@),
@fn ReManager::iter_derivatives props=C19,C05 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures *r.manager == *old(self), *final(r.manager) == *final(self), r.of(e), r.ok(), r.queue.queue@ == seq![e], r.queue.set@ == Map::<RegLan, ()>::empty().insert(e, ()),
@at start
    proof { lemma_explored_start(*self, e); lemma_set_key(*self, Map::empty(), e); }
@fn DerivativeIterator as Iterator::next props=C19,C05 ret=d
    requires old(self).ok(),
    ensures
        *final(final(self).manager) == *final(old(self).manager),
        old(self).manager.le(*final(self).manager), final(self).manager.inv(),
        forall|e: RegLan| #[trigger] explored(*old(self).manager, old(self).queue.set@, old(self).queue.queue@, e) ==> explored(*final(self).manager, final(self).queue.set@, final(self).queue.queue@, e),
        d is None <==> old(self).queue.queue@.len() == 0,
        d is None ==> final(self).queue.queue@ == old(self).queue.queue@ && final(self).queue.set@ == old(self).queue.set@,
        d is Some ==> *d->0 == *old(self).queue.queue@[0] && old(self).manager.owns(*d->0)
            && grown(old(self).queue.set@, old(self).queue.queue@.skip(1), final(self).queue.set@, final(self).queue.queue@),
@attr #[verifier::spinoff_prover]
@at start
    hide(ReManager::inv); hide(explored); hide(expanding); hide(grown); hide(good_node); hide(CharPartition::wf); hide(class_seq);
    let ghost m0 = *self.manager;
    let ghost fm = *final(self.manager);
    let ghost s0 = self.queue.set@;
    let ghost q0 = self.queue.queue@;
@loop 0 iter=it
    invariant
        m0.inv(), m0.le(*self.manager), self.manager.inv(), fm == *final(self.manager), m0.owns(*r),
        q0.len() > 0, r == q0[0], good_node(*r),
        *it.iter.partition == classes(*r), it.snapshot@.partition.wf(), it.seq() == class_seq(classes(*r)),
        expanding(m0, s0, q0, *self.manager, self.queue.set@, self.queue.queue@, it.index()),
@at loop 0 before
    proof { lemma_expanding_start(m0, s0, q0); lemma_classes_wf(*r); }
@at loop 0 start
    let ghost m1 = *self.manager;
    proof { lemma_class_at(*r, it.index(), cid); }
@at loop 0 after
    proof {
        assert forall|e: RegLan| #[trigger] explored(m0, s0, q0, e) implies explored(*self.manager, self.queue.set@, self.queue.queue@, e) by { lemma_expanding_end(m0, s0, q0, *self.manager, self.queue.set@, self.queue.queue@, e); }
        reveal(some_explored);
        let e = choose|e: RegLan| #[trigger] explored(m0, s0, q0, e);
        assert(explored(m0, s0, q0, e));
        lemma_expanding_end(m0, s0, q0, *self.manager, self.queue.set@, self.queue.queue@, e);
    }
@before `self.queue.push(d)`
    let ghost (s1, q1) = (self.queue.set@, self.queue.queue@);
    proof { lemma_expanding_step(m0, s0, q0, m1, s1, q1, it.index(), *self.manager, d); }
@fn ReManager::is_empty_re props=C05,C18 ret=b
    requires old(self).inv(), old(self).owns(*e),
    ensures final(self).inv(), old(self).le(*final(self)), b == l_empty(den(*e)),
@attr #[verifier::spinoff_prover]
@at start
    hide(ReManager::inv); hide(explored); hide(is_deriv);
    let ghost m0 = *self;
    let ghost fm = *final(self);
@unfold 0
    invariant_except_break
        vall, expanded_not_nullable(vit.queue.set@, vit.queue.queue@),
    invariant
        m0.inv(), m0.le(*vit.manager), m0.owns(*e), explored(*vit.manager, vit.queue.set@, vit.queue.queue@, e), fm == *final(vit.manager), vit.manager.inv(),
    ensures
        m0.le(*vit.manager), fm == *final(vit.manager), vit.manager.inv(),
        vall == l_empty(den(*e)),
@unfold-before
    proof { lemma_expanded_start(e); }
@unfold-top
    let ghost (m1, s1, q1) = (*vit.manager, vit.queue.set@, vit.queue.queue@);
    proof { assert(vit.ok()) by { reveal(some_explored); } }
@unfold-none
    proof {
        assert(vit.queue.queue@ =~= Seq::empty());
        lemma_all_empty(*vit.manager, vit.queue.set@, e);
    }
@unfold-start
    proof {
        lemma_known_deriv(m1, s1, q1, e);
        if x.nullable { lemma_some_word(m1, *e, *q1[0]); }
        else { lemma_not_nullable(s1, q1, vit.queue.set@, vit.queue.queue@); }
    }
@fn ReManager::start_char props=C18 ret=b
    requires old(self).inv(), old(self).owns(*e), c <= MAX_CHAR,
    ensures final(self).inv(), old(self).le(*final(self)), b == starts(den(*e), c),
    decreases e.id,
@at start
    let ghost m0 = *self;
    let ghost k = e.expr;
    proof { m0.lemma_owned(*e); lemma_kstarts(*e, c); lemma_starts(den(*e), c); }
@unfold 0 iter=it
    invariant
        m0.inv(), m0.le(*self), self.inv(), m0.owns_kids(k), k matches BaseRegLan::Union(v) && it.seq() == v@.map_values(|x: RegLan| &x), below(k, e.id as nat), c <= MAX_CHAR,
        k matches BaseRegLan::Union(v) && vany == starts_some(v@, it.index(), c),
@unfold-start
    let ghost vany0 = vany;
@unfold-end
@fn ReManager::start_class props=C18 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures
        final(self).inv(), old(self).le(*final(self)),
        e.deriv_class.valid(cid) ==> (r matches Ok(b) && forall|c: u32| c <= MAX_CHAR && #[trigger] e.deriv_class.in_class(cid, c) ==> b == starts(den(*e), c)),
        !e.deriv_class.valid(cid) ==> r matches Err(Error::BadClassId),
@at start
    proof { self.lemma_owned(*e); }
@after `let c = `
    proof {
        assert forall|d: u32| d <= MAX_CHAR && #[trigger] e.deriv_class.in_class(cid, d) implies starts(den(*e), d) == starts(den(*e), c) by { lemma_starts_class(*e, cid, c, d); }
    }
@fn ReManager::get_string_path props=C05 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures
        final(self).inv(), old(self).le(*final(self)),
        r is None <==> l_empty(den(*e)),
        r matches Some(p) ==> path_valid(p@) && forall|w: Seq<u32>| #[trigger] fits(p@, w) ==> den(*e)(w),
@attr #[verifier::spinoff_prover]
@at start
    hide(ReManager::inv); hide(explored); hide(is_deriv); hide(path_expanding); hide(path_map); hide(path_valid); hide(fits); hide(good_node); hide(CharPartition::wf); hide(class_seq); hide(expanded_not_nullable); hide(keys); hide(good_lang); hide(l_empty);
    let ghost m00 = *self;
    proof { self.lemma_owned_good(*e); }
@loop 0
    invariant
        m00 == *old(self), m00.inv(), m00.owns(*e), m00.le(*self), self.inv(), queue.wf(), good_lang(den(*e)),
        explored(*self, keys(queue.map@), queue.queue@, e), path_map(queue.map@, e), expanded_not_nullable(keys(queue.map@), queue.queue@),
    ensures
        m00.le(*self), self.inv(), queue.queue@.len() == 0,
        explored(*self, keys(queue.map@), queue.queue@, e), expanded_not_nullable(keys(queue.map@), queue.queue@),
@at loop 0 after
    proof { assert(queue.queue@ =~= Seq::empty()); reveal(expanded_not_nullable); lemma_all_empty(*self, keys(queue.map@), e); }
@at loop 0 before
    proof {
        lemma_explored_start(*self, e);
        lemma_path_start(e);
        lemma_expanded_start(e);
    }
@at loop 0 start
    let ghost (m0, s0, q0) = (*self, keys(queue.map@), seq![r] + queue.queue@);
    proof {
        assert(q0.skip(1) =~= queue.queue@);
        lemma_path_expanding_start(m0, queue.map@, q0, e);
    }
@before `return queue.full_path(&r)`
    proof { lemma_path_found(m0, queue.map@, r, e); }
@loop 1 iter=it
    invariant
        m00 == *old(self), m00.inv(), m00.le(*self), self.inv(), queue.wf(), m00.owns(*e), good_lang(den(*e)),
        m0.inv(), m0.le(*self), m0.owns(*r), good_node(*r), q0.len() > 0, r == q0[0], queue.map@.contains_key(r),
        *it.iter.partition == classes(*r), it.snapshot@.partition.wf(), it.seq() == class_seq(classes(*r)),
        path_expanding(m0, s0, q0, *self, queue.map@, queue.queue@, it.index(), e),
@at loop 1 before
    proof { lemma_classes_wf(*r); }
@at loop 1 start
    let ghost m1 = *self;
    proof { lemma_class_at(*r, it.index(), cid); }
@before `queue.push(r, cid, d)`
    proof { lemma_path_expanding_step(m0, s0, q0, m1, queue.map@, queue.queue@, it.index(), e, *self, d); }
@at loop 1 after
    proof { lemma_path_expanding_end(m0, s0, q0, *self, queue.map@, queue.queue@, e); }
@fn ReManager::get_string props=C05,C17 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures
        final(self).inv(), old(self).le(*final(self)),
        r is None <==> l_empty(den(*e)),
        r matches Some(w) ==> w.wf() && den(*e)(w.s@),
@unfold 0 iter=it ty=u32
    invariant
        path_valid(path@), it.seq() == path@.map_values(|x: (RegLan, ClassId)| &x), vout@.len() == it.index(),
        forall|i: int| 0 <= i < vout@.len() ==> (#[trigger] vout@[i]) <= MAX_CHAR && path@[i].0.deriv_class.in_class(path@[i].1, vout@[i]),
@unfold-start
    proof { assert(path@[it.index()] == (*re, *cid)); }
@before `Some(result.into())`
    proof {
        assert(fits(path@, result@));
        assert(crate::smt_strings::smt_codes(result@) =~= result@);
    }
@fn RE::char_ranges props=C02,C19 ret=r
    ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.deriv_class.list@.map_values(|c: CharSet| &c),
@fn ReManager::compile_with_bound props=C02,C19 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures
        final(self).inv(), old(self).le(*final(self)),
        r matches Some(a) ==> compiled(a, *e) && a.num_states <= max_states && num_derivs(*final(self), e, a.num_states as nat),
        r is None ==> max_states == 0 || more_derivs(*final(self), e, max_states as nat),
@attr #[verifier::spinoff_prover]
@at start
    hide(ReManager::inv); hide(explored); hide(is_deriv); hide(drawn); hide(graph); hide(realizes); hide(good_node); hide(CharPartition::wf); hide(class_seq); hide(moves_ok); hide(def_ok); hide(expanding); hide(num_derivs); hide(more_derivs); hide(key_ok); hide(den);
    let ghost m00 = *self;
    let ghost e0 = e;
    proof { axiom_clone_expr(); lemma_drawn_start(*self, e); lemma_explored_start(*self, e); lemma_set_key(*self, Map::empty(), e); assert(key_ok(Map::<BaseRegLan, usize>::empty(), e.expr)) by { reveal(key_ok); } }
@replace `while let Some(e) = queue.pop()` => `while let Some(x) = queue.pop()`
@loop 0
    invariant
        e == e0,
        m00 == *old(self), m00.inv(), m00.owns(*e0), m00.le(*self), self.inv(), max_states > 0, pending == queue.queue@, exact_clone::<BaseRegLan>(),
        explored(*self, queue.set@, queue.queue@, e0), builder.inv(), builder.ids().contains_key(e0.expr), builder.ids()[e0.expr] == 0,
        graph(*self, queue.set@, builder.ids(), builder.specs().len()), drawn(queue.set@, queue.queue@, builder.ids(), builder.specs(), None),
        state_count + queue.queue@.len() == builder.specs().len(), state_count <= max_states,
    ensures
        m00.le(*self), self.inv(), queue.queue@.len() == 0,
        explored(*self, queue.set@, queue.queue@, e0), builder.inv(), builder.ids().contains_key(e0.expr), builder.ids()[e0.expr] == 0,
        graph(*self, queue.set@, builder.ids(), builder.specs().len()), drawn(queue.set@, queue.queue@, builder.ids(), builder.specs(), None),
        state_count + queue.queue@.len() == builder.specs().len(), state_count <= max_states,
@at loop 0 before
    proof {
        assert(queue.queue@ =~= seq![e]);
        assert(builder.specs() =~= seq![StateSpec::fresh()]);
    }
    let ghost mut pending = queue.queue@;
@at loop 0 start
    let e = x;
    let ghost (m0, s0, q0) = (*self, queue.set@, pending);
    proof {
        assert(some_explored(m0, s0, q0)) by { reveal(some_explored); assert(explored(m0, s0, q0, e0)); }
        lemma_drawing_start(m0, s0, q0, builder.ids(), builder.specs());
        lemma_expanding_start(m0, s0, q0);
        lemma_classes_wf(*e);
    }
@before `return None`
    proof { lemma_more(*self, s0, q0, builder.ids(), builder.specs().len(), e0, max_states as nat); }
@loop 1 iter=it
    invariant
        m00 == *old(self), m00.inv(), m00.le(*self), self.inv(), exact_clone::<BaseRegLan>(),
        m0.inv(), m0.le(*self), m0.owns(*e), good_node(*e), q0.len() > 0, e == q0[0], explored(m0, s0, q0, e0),
        it.seq() == e.deriv_class.list@.map_values(|c: CharSet| &c),
        builder.inv(), builder.ids().contains_key(e0.expr), builder.ids()[e0.expr] == 0,
        expanding(m0, s0, q0, *self, queue.set@, queue.queue@, it.index()),
        drawing(*self, queue.set@, queue.queue@, builder.ids(), builder.specs(), e, it.index()),
        state_count + queue.queue@.len() == builder.specs().len(), state_count <= max_states,
@at loop 1 start
    let ghost m1 = *self;
    proof { assert(*set == classes(*e).list@[it.index()]); lemma_interval(*e, it.index(), *set); }
@before `queue.push(d)` 0
    let ghost (s1, q1, ids1, sp1) = (queue.set@, queue.queue@, builder.ids(), builder.specs());
    proof {
        lemma_expanding_step(m0, s0, q0, m1, s1, q1, it.index(), *self, d);
        lemma_draw_keys(m1, *self, s1, q1, ids1, sp1, e, it.index(), d);
    }
@after `builder.add_transition(&e.expr, set, &d.expr)`
    proof {
        assert(builder.specs().len() == builder.states@.len());
        lemma_draw_move(m1, *self, s1, q1, ids1, sp1, e, it.index(), *set, d);
        let i = builder.ids()[e.expr];
        assert(builder.specs() =~= changed(reg_specs(ids1, sp1, d.expr), i, with_move(reg_specs(ids1, sp1, d.expr)[i as int], *set, builder.ids()[d.expr])));
    }
@at loop 1 after
    proof { lemma_complement_class(*e); }
    let ghost m1 = *self;
@before `queue.push(d)` 1
    let ghost (s1, q1, ids1, sp1) = (queue.set@, queue.queue@, builder.ids(), builder.specs());
    proof {
        lemma_expanding_step(m0, s0, q0, m1, s1, q1, classes(*e).list@.len() as int, *self, d);
        lemma_draw_keys(m1, *self, s1, q1, ids1, sp1, e, classes(*e).list@.len() as int, d);
    }
@after `builder.set_default_successor(&e.expr, &d.expr)`
    proof {
        assert(builder.specs().len() == builder.states@.len());
        lemma_draw_def(m1, *self, s1, q1, ids1, sp1, e, d);
        let i = builder.ids()[e.expr];
        assert(builder.specs() =~= changed(reg_specs(ids1, sp1, d.expr), i, with_def(reg_specs(ids1, sp1, d.expr)[i as int], builder.ids()[d.expr])));
    }
@before `if e.nullable`
    let ghost sp2 = builder.specs();
    proof {
        lemma_draw_nodef(*self, queue.set@, queue.queue@, builder.ids(), sp2, e);
        lemma_draw_end(*self, queue.set@, queue.queue@, builder.ids(), sp2, e);
        lemma_expr_key2(*self, queue.set@, builder.ids(), sp2, *e, *e);
        lemma_expanding_end(m0, s0, q0, *self, queue.set@, queue.queue@, e0);
    }
@at loop 0 end
    proof { if e.nullable { let i = builder.ids()[e.expr]; assert(builder.specs() =~= changed(sp2, i, with_fin(sp2[i as int]))); } pending = queue.queue@; }
@at loop 0 after
    proof {
        assert(queue.queue@ =~= Seq::empty());
        lemma_compile_end(*self, queue.set@, builder.ids(), builder.states@, e0);
    }
@fn ReManager::compile props=C02,C19 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures
        final(self).inv(), old(self).le(*final(self)), compiled(r, *e), num_derivs(*final(self), e, r.num_states as nat),
@fn ReManager::try_compile props=C02,C19 ret=r
    requires old(self).inv(), old(self).owns(*e),
    ensures
        final(self).inv(), old(self).le(*final(self)),
        r matches Some(a) ==> compiled(a, *e) && a.num_states <= max_states && num_derivs(*final(self), e, a.num_states as nat),
        r is None ==> max_states == 0 || more_derivs(*final(self), e, max_states as nat),
