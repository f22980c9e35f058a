// Trusted vocabulary shared by all woven modules (see DESIGN.md, "Trusted base").
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::vecdeque::*;
use vstd::multiset::*;
verus! {

// checked by the compiler for this target
global size_of usize == 8;

// assumed contracts of std functions without a vstd specification
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { a } else { b });
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { b } else { a });

pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (d: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (d@.len() == 0);

pub assume_specification<T: std::marker::MetaSized + ?Sized, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
    ensures r == &**b;

pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref] (v: &std::vec::Vec<T, A>) -> (r: &[T])
    ensures r@ == v@;

pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub open spec fn keys_le<T, F: Fn(&T) -> u32>(f: F, a: T, b: T) -> bool {
    exists|ka: u32, kb: u32| #[trigger] call_ensures(f, (&a,), ka) && #[trigger] call_ensures(f, (&b,), kb) && ka <= kb
}
/// stable sort by a key (std: [T]::sort_by_key)
#[verifier::external_body]
pub fn vsort_by_key<T, F: Fn(&T) -> u32>(v: &mut Vec<T>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],)),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> keys_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{
    v.sort_by_key(f)
}

/// std: [T]::sort
#[verifier::external_body]
pub fn vsort<T: Ord>(v: &mut Vec<T>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), final(v)@ == sorted_of(old(v)@),
{
    v.sort()
}
pub open spec fn has_equal<T: PartialEq>(s: Seq<T>, x: T) -> bool { exists|j: int| 0 <= j < s.len() && PartialEqSpec::eq_spec(&(#[trigger] s[j]), &x) }
/// std: Vec::dedup keeps the first of every run of equal items
#[verifier::external_body]
pub fn vdedup<T: PartialEq>(v: &mut Vec<T>)
    ensures
        final(v)@ == deduped(old(v)@), final(v)@.len() <= old(v)@.len(),
        old(v)@.len() > 0 ==> final(v)@.len() > 0,
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
        <T as PartialEqSpec<T>>::obeys_eq_spec() ==> forall|i: int| 0 <= i < old(v)@.len() ==> has_equal(final(v)@, #[trigger] old(v)@[i]),
{
    v.dedup()
}
pub proof fn lemma_same_multiset<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|x: T| a.contains(x) == #[trigger] b.contains(x),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|x: T| a.contains(x) == #[trigger] b.contains(x) by {
        assert(a.contains(x) <==> a.to_multiset().count(x) > 0);
        assert(b.contains(x) <==> b.to_multiset().count(x) > 0);
    }
}

/// std: iter.collect::<Vec<_>>()
#[verifier::external_body]
pub fn vcollect<T, I: Iterator<Item = T>>(it: I) -> (r: Vec<T>)
    requires it.obeys_prophetic_iter_laws(),
    ensures r@ == it.remaining(),
{
    it.collect()
}

/// std: a.iter().copied().collect::<Vec<_>>()
#[verifier::external_body]
pub fn vcopied<T: Copy>(a: &[T]) -> (r: std::vec::IntoIter<T>)
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::remaining(&r) == a@,
{
    a.to_vec().into_iter()
}

/// std: a.iter().map(f)
#[verifier::external_body]
pub fn vmapped<T, U, F: Fn(&T) -> U>(a: &[T], f: F) -> (r: std::vec::IntoIter<U>)
    requires forall|i: int| 0 <= i < a@.len() ==> call_requires(f, (&#[trigger] a@[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::remaining(&r).len() == a@.len(),
        forall|i: int| 0 <= i < a@.len() ==> call_ensures(f, (&a@[i],), #[trigger] IteratorSpec::remaining(&r)[i]),
        forall|p: spec_fn(T) -> U| (forall|i: int, u: U| 0 <= i < a@.len() && #[trigger] call_ensures(f, (&a@[i],), u) ==> u == p(a@[i]))
            ==> IteratorSpec::remaining(&r) == #[trigger] a@.map_values(p),
{
    a.iter().map(f).collect::<Vec<U>>().into_iter()
}
/// distinct numbers below n: at most n of them, and n of them are all of them
pub proof fn lemma_pigeon(s: Seq<int>, n: int)
    requires s.no_duplicates(), n >= 0, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n,
    ensures s.len() <= n, s.len() == n ==> forall|v: int| 0 <= v < n ==> s.contains(v),
{
    let r = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    s.unique_seq_to_set();
    assert(s.to_set().subset_of(r)) by {
        assert forall|v: int| s.to_set().contains(v) implies r.contains(v) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(s[i] == v); }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
    if s.len() == n {
        vstd::set_lib::lemma_subset_equality(s.to_set(), r);
        assert forall|v: int| 0 <= v < n implies s.contains(v) by { assert(r.contains(v)); assert(s.to_set().contains(v)); }
    }
}


/// &mut a[i..j]
#[verifier::external_body]
pub fn vslice_mut<T>(a: &mut [T], i: usize, j: usize) -> (r: &mut [T])
    requires i <= j <= old(a)@.len(),
    ensures
        r@ == old(a)@.subrange(i as int, j as int), final(r)@.len() == r@.len(),
        final(a)@ == old(a)@.subrange(0, i as int) + final(r)@ + old(a)@.subrange(j as int, old(a)@.len() as int),
{ &mut a[i..j] }

/// a function that may be called on its argument answers something (used for the two closures of Automaton::minimize)
#[verifier::external_body]
pub proof fn axiom_answers1<F: Fn(u32) -> bool>(f: F, x: u32)
    requires call_requires(f, (x,)),
    ensures exists|b: bool| #[trigger] call_ensures(f, (x,), b),
{ }
#[verifier::external_body]
pub proof fn axiom_answers2<F: Fn(u32, u32) -> u32>(f: F, x: u32, c: u32)
    requires call_requires(f, (x, c)),
    ensures exists|y: u32| #[trigger] call_ensures(f, (x, c), y),
{ }
/// Vec::resize_with(n, Default::default)
#[verifier::external_body]
pub fn vresize_default<T: Default>(v: &mut Vec<T>, n: usize)
    ensures
        final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> call_ensures(T::default, (), #[trigger] final(v)@[i]),
{ v.resize_with(n, Default::default) }

/// x.iter().max().unwrap()
#[verifier::external_body]
pub fn vmax_of(a: &[u32]) -> (r: &u32)
    requires a@.len() > 0,
    ensures forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] <= *r, exists|i: int| 0 <= i < a@.len() && #[trigger] a@[i] == *r,
{ a.iter().max().unwrap() }

/// std::mem::take
#[verifier::external_body]
pub fn vtake<T: Default>(x: &mut T) -> (r: T)
    ensures r == *old(x), call_ensures(T::default, (), *final(x)),
{ std::mem::take(x) }

/// std: it.map(f)
#[verifier::external_body]
pub fn vmap_iter<T, U, I: Iterator<Item = T>, F: Fn(T) -> U>(it: I, f: F) -> (r: std::vec::IntoIter<U>)
    requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::remaining(&r).len() == it.remaining().len(),
        forall|i: int| 0 <= i < it.remaining().len() ==> call_ensures(f, (it.remaining()[i],), #[trigger] IteratorSpec::remaining(&r)[i]),
{
    it.map(f).collect::<Vec<U>>().into_iter()
}

/// what std makes of a list, as functions of the list
pub uninterp spec fn boxed<T>(s: Seq<T>) -> Box<[T]>;
pub uninterp spec fn sorted_of<T>(s: Seq<T>) -> Seq<T>;
pub uninterp spec fn deduped<T>(s: Seq<T>) -> Seq<T>;
/// std: Vec to boxed slice
#[verifier::external_body]
pub fn vinto_box<T>(v: Vec<T>) -> (r: Box<[T]>)
    ensures r@ == v@, r == boxed(v@),
{ v.into() }

/// std: Vec::retain with a pure predicate
#[verifier::external_body]
pub fn vretain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],)),
    ensures
        forall|p: spec_fn(T) -> bool| (forall|i: int, b: bool| 0 <= i < old(v)@.len() && #[trigger] call_ensures(f, (&old(v)@[i],), b) ==> b == p(old(v)@[i]))
            ==> final(v)@ == #[trigger] old(v)@.filter(p),
{
    v.retain(f)
}

/// target of `assert!`/`debug_assert!`: the condition is a proof obligation
pub fn vassert(b: bool)
    requires b,
{
}

/// target of `panic!`/`unreachable!`: reaching it is a failed obligation
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{
    panic!()
}

/// documented panic (arithmetic overflow and the like): diverges, so a call that
/// returns has the value; used only where the property allows a panic
pub trait VExpect<T>: Sized {
    fn vexpect(self, msg: &str) -> T;
}

impl<T> VExpect<T> for Option<T> {
    #[verifier::external_body]
    fn vexpect(self, msg: &str) -> (r: T)
        ensures self == Some(r),
    {
        self.expect(msg)
    }
}

// characters and text ---------------------------------------------------------
pub open spec fn scalar_value(x: u32) -> bool { x < 0xD800 || 0xDFFF < x <= 0x10FFFF }
pub open spec fn is_hex(c: int) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn hex_val(c: int) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub assume_specification [<char>::from_u32] (x: u32) -> (r: std::option::Option<char>)
    ensures r is Some <==> scalar_value(x), r is Some ==> r->0 as u32 == x;
pub assume_specification [std::char::from_u32] (x: u32) -> (r: std::option::Option<char>)
    ensures r is Some <==> scalar_value(x), r is Some ==> r->0 as u32 == x;
pub assume_specification [<char>::is_ascii_hexdigit] (c: &char) -> (r: bool)
    ensures r == is_hex(*c as u32 as int);
pub assume_specification [<char>::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    ensures radix == 16 ==> (r is Some <==> is_hex(c as u32 as int)) && (r is Some ==> r->0 as int == hex_val(c as u32 as int));
pub assume_specification<T: Clone> [<[T]>::to_vec] (a: &[T]) -> (r: Vec<T>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> vstd::pervasive::cloned(a@[i], #[trigger] r@[i]);

pub fn vto_vec(a: &[u32]) -> (r: Vec<u32>)
    ensures r@ == a@,
{
    let r = a.to_vec();
    assert(r@ =~= a@);
    r
}

/// std: a.iter().all(f), as a loop
pub fn vall<T, F: Fn(&T) -> bool>(a: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < a@.len() ==> call_requires(f, (&#[trigger] a@[i],)),
    ensures
        r ==> (forall|i: int| 0 <= i < a@.len() ==> call_ensures(f, (&#[trigger] a@[i],), true)),
        !r ==> (exists|i: int| 0 <= i < a@.len() && call_ensures(f, (&#[trigger] a@[i],), false)),
{
    let mut i: usize = 0;
    while i < a.len()
        invariant
            i <= a@.len(),
            forall|j: int| 0 <= j < a@.len() ==> call_requires(f, (&#[trigger] a@[j],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] a@[j],), true),
        decreases a@.len() - i,
    {
        if !f(&a[i]) {
            return false;
        }
        i += 1;
    }
    true
}

/// std: a.iter().any(f), as a loop
pub fn vany<T, F: Fn(&T) -> bool>(a: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < a@.len() ==> call_requires(f, (&#[trigger] a@[i],)),
    ensures
        !r ==> (forall|i: int| 0 <= i < a@.len() ==> call_ensures(f, (&#[trigger] a@[i],), false)),
        r ==> (exists|i: int| 0 <= i < a@.len() && call_ensures(f, (&#[trigger] a@[i],), true)),
{
    let mut i: usize = 0;
    while i < a.len()
        invariant
            i <= a@.len(),
            forall|j: int| 0 <= j < a@.len() ==> call_requires(f, (&#[trigger] a@[j],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] a@[j],), false),
        decreases a@.len() - i,
    {
        if f(&a[i]) {
            return true;
        }
        i += 1;
    }
    false
}

/// the items of a..=b
pub fn vincl(a: usize, b: usize) -> (r: Vec<usize>)
    ensures r@.len() == (if a <= b { b - a + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i,
{
    let mut r: Vec<usize> = Vec::new();
    if a <= b {
        for i in it: a..b
            invariant r@.len() == i - a, a <= b, a <= i <= b, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == a + k,
        {
            r.push(i);
        }
        r.push(b);
    }
    r
}
/// the items of (a..=b).rev()
pub fn vincl_rev(a: usize, b: usize) -> (r: Vec<usize>)
    ensures r@.len() == (if a <= b { b - a + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == b - i,
{
    let mut r: Vec<usize> = Vec::new();
    if a <= b {
        let mut i = b;
        while i > a
            invariant r@.len() == b - i, a <= i <= b, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == b - k,
            decreases i,
        {
            r.push(i);
            i -= 1;
        }
        r.push(a);
    }
    r
}

/// lower-case hexadecimal digit
pub open spec fn hex_digit(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (87 + d) as u8 as char } }
pub open spec fn hex_str(x: nat) -> Seq<char>
    decreases x
{
    if x < 16 { seq![hex_digit(x as int)] } else { hex_str(x / 16).push(hex_digit((x % 16) as int)) }
}
pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
pub open spec fn padded(s: Seq<char>, n: nat) -> Seq<char> {
    if s.len() < n { zeros((n - s.len()) as nat) + s } else { s }
}
pub open spec fn dec_str(x: nat) -> Seq<char>
    decreases x
{
    if x < 10 { seq![hex_digit(x as int)] } else { dec_str(x / 10).push(hex_digit((x % 10) as int)) }
}

/// pieces of a format string: literal text, `{:0Nx}`, `{}`
#[verifier::external_body]
pub fn vlit(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
#[verifier::external_body]
pub fn vcat(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@,
{ a + &b }
#[verifier::external_body]
pub fn vhex(x: u32, n: usize) -> (r: String)
    ensures r@ == padded(hex_str(x as nat), n as nat),
{ format!("{:0n$x}", x, n = n) }
pub trait VDisplay {
    spec fn disp(&self) -> Seq<char>;
    /// std: Display text of a value
    fn vdisplay(&self) -> (r: String)
        ensures r@ == self.disp();
}
impl VDisplay for char {
    open spec fn disp(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vdisplay(&self) -> String { self.to_string() }
}
impl VDisplay for i32 {
    open spec fn disp(&self) -> Seq<char> {
        if *self >= 0 { dec_str(*self as nat) } else { seq!['-'] + dec_str((-*self) as nat) }
    }
    #[verifier::external_body]
    fn vdisplay(&self) -> String { self.to_string() }
}
impl<'a> VDisplay for &'a str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vdisplay(&self) -> String { self.to_string() }
}
/// text written so far through a formatter
pub uninterp spec fn written(f: &std::fmt::Formatter<'_>) -> Seq<char>;
/// std: write!(f, ...) appends the formatted text
#[verifier::external_body]
pub fn vwrite(f: &mut std::fmt::Formatter<'_>, s: String) -> (r: std::fmt::Result)
    ensures r is Ok ==> written(final(f)) == written(old(f)) + s@,
{ f.write_str(&s) }

/// a panic the documentation announces for exactly the case `c`; whoever calls
/// this must show that `c` holds
#[verifier::external_body]
pub fn vdocumented_panic(c: Ghost<bool>) -> !
    requires c@,
{ panic!() }


// hash tables -----------------------------------------------------------------
// Stand-ins for std::collections::{HashMap, HashSet}: same names and methods, so
// the code that uses them is unchanged; the bodies call the real tables. Their
// contracts are the documented ones, under the condition that key equality (Eq)
// does not identify the key with a different stored key.
pub open spec fn key_ok<K: PartialEq, V>(d: Map<K, V>, k: K) -> bool {
    &&& K::obeys_eq_spec() && k.eq_spec(&k)
    &&& forall|j: K| #[trigger] d.contains_key(j) && j.eq_spec(&k) ==> j == k
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V>(std::collections::HashMap<K, V>);
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K: Eq + std::hash::Hash, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { HashMap(std::collections::HashMap::new()) }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { HashMap(std::collections::HashMap::with_capacity(n)) }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        requires key_ok(self@, *k),
        ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }),
    { self.0.get(k) }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        requires key_ok(self@, *k),
        ensures r == self@.contains_key(*k),
    { self.0.contains_key(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        requires key_ok(old(self)@, k),
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { self.0.insert(k, v) }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        requires key_ok(old(self)@, k),
        ensures match r {
            Entry::Occupied(o) => old(self)@.contains_key(k) && o.value() == old(self)@[k] && final(self)@ == old(self)@,
            Entry::Vacant(e) => !old(self)@.contains_key(k) && e.the_key() == k && e.cur() == old(self)@ && e.fin() == final(self)@,
        },
    {
        match self.0.entry(k) {
            std::collections::hash_map::Entry::Occupied(o) => Entry::Occupied(OccupiedEntry(o)),
            std::collections::hash_map::Entry::Vacant(o) => Entry::Vacant(VacantEntry(o)),
        }
    }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V>(std::collections::hash_map::OccupiedEntry<'a, K, V>);
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V>(std::collections::hash_map::VacantEntry<'a, K, V>);
impl<'a, K: Eq + std::hash::Hash, V> OccupiedEntry<'a, K, V> {
    pub uninterp spec fn value(self) -> V;
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V)
        ensures *r == self.value(),
    { self.0.get() }
}
impl<'a, K: Eq + std::hash::Hash, V> VacantEntry<'a, K, V> {
    pub uninterp spec fn the_key(self) -> K;
    pub uninterp spec fn cur(self) -> Map<K, V>;
    pub uninterp spec fn fin(self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K)
        ensures *r == self.the_key(),
    { self.0.key() }
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, self.fin() == self.cur().insert(self.the_key(), *final(r)),
    { self.0.insert(v) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K>(std::collections::HashSet<K>);
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Map<K, ()>;
}
impl<K: Eq + std::hash::Hash> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, ()>::empty(),
    { HashSet(std::collections::HashSet::new()) }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Map::<K, ()>::empty(),
    { HashSet(std::collections::HashSet::with_capacity(n)) }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        requires key_ok(self@, *k),
        ensures r == self@.contains_key(*k),
    { self.0.contains(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        requires key_ok(old(self)@, k),
        ensures final(self)@ == old(self)@.insert(k, ()), r == !old(self)@.contains_key(k),
    { self.0.insert(k) }
}
/// std: Box::leak
#[verifier::external_body]
pub fn vleak<T: 'static>(b: Box<T>) -> (r: &'static T)
    ensures *r == *b,
{ Box::leak(b) }

} // verus!

// everything else about hash tables is outside the verified vocabulary
impl<K, V> std::ops::Deref for HashMap<K, V> {
    type Target = std::collections::HashMap<K, V>;
    fn deref(&self) -> &Self::Target { &self.0 }
}
impl<K, V> std::ops::DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self { HashMap(std::collections::HashMap::default()) }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl<K> std::ops::Deref for HashSet<K> {
    type Target = std::collections::HashSet<K>;
    fn deref(&self) -> &Self::Target { &self.0 }
}
impl<K> std::ops::DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self { HashSet(std::collections::HashSet::default()) }
}
impl<K: std::fmt::Debug> std::fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
