// Languages over the SMT-LIB alphabet and the algebra the regular-expression
// rewriting rules rely on. Code independent.
use vstd::prelude::*;
verus! {

pub type Lang = spec_fn(Seq<u32>) -> bool;

/// every character is an SMT-LIB character
pub open spec fn good_word(w: Seq<u32>) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] <= 0x2FFFF }
pub open spec fn good_lang(a: Lang) -> bool { forall|w: Seq<u32>| #[trigger] a(w) ==> good_word(w) }

pub open spec fn l_none() -> Lang { |w: Seq<u32>| false }
pub open spec fn l_eps() -> Lang { |w: Seq<u32>| w.len() == 0 }
pub open spec fn l_all() -> Lang { |w: Seq<u32>| good_word(w) }
pub open spec fn l_range(lo: u32, hi: u32) -> Lang { |w: Seq<u32>| w.len() == 1 && lo <= w[0] && w[0] <= hi }
pub open spec fn splits(a: Lang, b: Lang, w: Seq<u32>, i: int) -> bool { 0 <= i <= w.len() && a(w.take(i)) && b(w.skip(i)) }
pub open spec fn l_cat(a: Lang, b: Lang) -> Lang { |w: Seq<u32>| exists|i: int| splits(a, b, w, i) }
pub open spec fn l_pow(a: Lang, n: nat) -> Lang
    decreases n
{
    if n == 0 { l_eps() } else { l_cat(a, l_pow(a, (n - 1) as nat)) }
}
/// union of the n-th powers, n in the set r
pub open spec fn l_loop(a: Lang, r: spec_fn(nat) -> bool) -> Lang { |w: Seq<u32>| exists|n: nat| #[trigger] r(n) && l_pow(a, n)(w) }
pub open spec fn l_comp(a: Lang) -> Lang { |w: Seq<u32>| good_word(w) && !a(w) }
pub open spec fn l_union(s: Seq<Lang>) -> Lang { |w: Seq<u32>| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])(w) }
pub open spec fn l_inter(s: Seq<Lang>) -> Lang { |w: Seq<u32>| good_word(w) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])(w) }
pub open spec fn l_or(a: Lang, b: Lang) -> Lang { |w: Seq<u32>| a(w) || b(w) }
pub open spec fn l_and(a: Lang, b: Lang) -> Lang { |w: Seq<u32>| a(w) && b(w) }
/// words that c takes into a
pub open spec fn l_quot(a: Lang, c: u32) -> Lang { |w: Seq<u32>| a(seq![c] + w) }
pub open spec fn l_wquot(a: Lang, u: Seq<u32>) -> Lang { |w: Seq<u32>| a(u + w) }
pub open spec fn l_sub(a: Lang, b: Lang) -> bool { forall|w: Seq<u32>| #[trigger] a(w) ==> b(w) }
pub open spec fn l_empty(a: Lang) -> bool { forall|w: Seq<u32>| !#[trigger] a(w) }
pub open spec fn eps() -> Seq<u32> { Seq::<u32>::empty() }
pub open spec fn l_word(u: Seq<u32>) -> Lang { |w: Seq<u32>| w == u }

pub proof fn lemma_cat_intro(a: Lang, b: Lang, u: Seq<u32>, v: Seq<u32>)
    requires a(u), b(v),
    ensures l_cat(a, b)(u + v),
{
    let w = u + v;
    assert(w.take(u.len() as int) =~= u);
    assert(w.skip(u.len() as int) =~= v);
    assert(splits(a, b, w, u.len() as int));
}
pub proof fn lemma_cat_elim(a: Lang, b: Lang, w: Seq<u32>) -> (uv: (Seq<u32>, Seq<u32>))
    requires l_cat(a, b)(w),
    ensures a(uv.0), b(uv.1), w == uv.0 + uv.1,
{
    let i = choose|i: int| splits(a, b, w, i);
    assert(w =~= w.take(i) + w.skip(i));
    (w.take(i), w.skip(i))
}
pub proof fn lemma_cat_mono(a: Lang, b: Lang, c: Lang, d: Lang)
    requires l_sub(a, c), l_sub(b, d),
    ensures l_sub(l_cat(a, b), l_cat(c, d)),
{
    assert forall|w: Seq<u32>| #[trigger] l_cat(a, b)(w) implies l_cat(c, d)(w) by {
        let (u, v) = lemma_cat_elim(a, b, w);
        assert(c(u) && d(v));
        lemma_cat_intro(c, d, u, v);
    }
}
pub proof fn lemma_sub_antisym(a: Lang, b: Lang)
    requires l_sub(a, b), l_sub(b, a),
    ensures a == b,
{
    assert forall|w: Seq<u32>| #[trigger] a(w) == b(w) by { if a(w) { assert(b(w)); } if b(w) { assert(a(w)); } }
    assert(a =~= b);
}
pub proof fn lemma_cat_good(a: Lang, b: Lang)
    requires good_lang(a), good_lang(b),
    ensures good_lang(l_cat(a, b)),
{
    assert forall|w: Seq<u32>| #[trigger] l_cat(a, b)(w) implies good_word(w) by {
        let (u, v) = lemma_cat_elim(a, b, w);
        assert(good_word(u) && good_word(v));
    }
}
pub proof fn lemma_cat_none(a: Lang)
    ensures l_cat(a, l_none()) == l_none(), l_cat(l_none(), a) == l_none(),
{
    assert(l_cat(a, l_none()) =~= l_none());
    assert(l_cat(l_none(), a) =~= l_none());
}
pub proof fn lemma_cat_eps(a: Lang)
    ensures l_cat(a, l_eps()) == a, l_cat(l_eps(), a) == a,
{
    assert forall|w: Seq<u32>| #[trigger] l_cat(a, l_eps())(w) == a(w) by {
        if l_cat(a, l_eps())(w) { let (u, v) = lemma_cat_elim(a, l_eps(), w); assert(w =~= u); }
        if a(w) { lemma_cat_intro(a, l_eps(), w, eps()); assert(w + eps() =~= w); }
    }
    assert forall|w: Seq<u32>| #[trigger] l_cat(l_eps(), a)(w) == a(w) by {
        if l_cat(l_eps(), a)(w) { let (u, v) = lemma_cat_elim(l_eps(), a, w); assert(w =~= v); }
        if a(w) { lemma_cat_intro(l_eps(), a, eps(), w); assert(eps() + w =~= w); }
    }
    assert(l_cat(a, l_eps()) =~= a);
    assert(l_cat(l_eps(), a) =~= a);
}
pub proof fn lemma_cat_assoc(a: Lang, b: Lang, c: Lang)
    ensures l_cat(l_cat(a, b), c) == l_cat(a, l_cat(b, c)),
{
    let x = l_cat(l_cat(a, b), c);
    let y = l_cat(a, l_cat(b, c));
    assert forall|w: Seq<u32>| #[trigger] x(w) implies y(w) by {
        let (uv, z) = lemma_cat_elim(l_cat(a, b), c, w);
        let (u, v) = lemma_cat_elim(a, b, uv);
        lemma_cat_intro(b, c, v, z);
        lemma_cat_intro(a, l_cat(b, c), u, v + z);
        assert(w =~= u + (v + z));
    }
    assert forall|w: Seq<u32>| #[trigger] y(w) implies x(w) by {
        let (u, vz) = lemma_cat_elim(a, l_cat(b, c), w);
        let (v, z) = lemma_cat_elim(b, c, vz);
        lemma_cat_intro(a, b, u, v);
        lemma_cat_intro(l_cat(a, b), c, u + v, z);
        assert(w =~= (u + v) + z);
    }
    lemma_sub_antisym(x, y);
}
pub proof fn lemma_pow1(a: Lang)
    ensures l_pow(a, 1) == a,
{
    lemma_cat_eps(a);
    assert(l_pow(a, 0) == l_eps());
    assert(l_pow(a, 1) == l_cat(a, l_pow(a, 0)));
}
pub proof fn lemma_pow_step(a: Lang, n: nat)
    requires n > 0,
    ensures l_pow(a, n) == l_cat(a, l_pow(a, (n - 1) as nat)),
{
}
pub proof fn lemma_pow_add(a: Lang, m: nat, n: nat)
    ensures l_cat(l_pow(a, m), l_pow(a, n)) == l_pow(a, m + n),
    decreases m,
{
    if m == 0 { lemma_cat_eps(l_pow(a, n)); }
    else {
        let m1 = (m - 1) as nat;
        lemma_pow_add(a, m1, n);
        lemma_cat_assoc(a, l_pow(a, m1), l_pow(a, n));
        assert((m + n - 1) as nat == m1 + n);
    }
}
pub proof fn lemma_pow_good(a: Lang, n: nat)
    requires good_lang(a),
    ensures good_lang(l_pow(a, n)),
    decreases n,
{
    if n > 0 { lemma_pow_good(a, (n - 1) as nat); lemma_cat_good(a, l_pow(a, (n - 1) as nat)); }
}
pub proof fn lemma_loop_good(a: Lang, r: spec_fn(nat) -> bool)
    requires good_lang(a),
    ensures good_lang(l_loop(a, r)),
{
    assert forall|w: Seq<u32>| #[trigger] l_loop(a, r)(w) implies good_word(w) by {
        let n = choose|n: nat| #[trigger] r(n) && l_pow(a, n)(w);
        lemma_pow_good(a, n);
    }
}
pub proof fn lemma_pow_none(n: nat)
    ensures l_pow(l_none(), n) == (if n == 0 { l_eps() } else { l_none() }),
{
    if n > 0 { lemma_cat_none(l_pow(l_none(), (n - 1) as nat)); }
}
pub proof fn lemma_pow_eps(n: nat)
    ensures l_pow(l_eps(), n) == l_eps(),
    decreases n,
{
    if n > 0 { lemma_pow_eps((n - 1) as nat); lemma_cat_eps(l_pow(l_eps(), (n - 1) as nat)); }
}
/// a^m . a^n with m in r and n in s
pub proof fn lemma_loop_cat(a: Lang, r: spec_fn(nat) -> bool, s: spec_fn(nat) -> bool, t: spec_fn(nat) -> bool)
    requires forall|n: nat| #[trigger] t(n) <==> exists|i: nat, j: nat| #[trigger] r(i) && #[trigger] s(j) && i + j == n,
    ensures l_cat(l_loop(a, r), l_loop(a, s)) == l_loop(a, t),
{
    let x = l_cat(l_loop(a, r), l_loop(a, s));
    let y = l_loop(a, t);
    assert forall|w: Seq<u32>| #[trigger] x(w) implies y(w) by {
        let (u, v) = lemma_cat_elim(l_loop(a, r), l_loop(a, s), w);
        let i = choose|n: nat| #[trigger] r(n) && l_pow(a, n)(u);
        let j = choose|n: nat| #[trigger] s(n) && l_pow(a, n)(v);
        lemma_cat_intro(l_pow(a, i), l_pow(a, j), u, v);
        lemma_pow_add(a, i, j);
        assert(t(i + j));
    }
    assert forall|w: Seq<u32>| #[trigger] y(w) implies x(w) by {
        let n = choose|n: nat| #[trigger] t(n) && l_pow(a, n)(w);
        let (i, j) = choose|i: nat, j: nat| #[trigger] r(i) && #[trigger] s(j) && i + j == n;
        lemma_pow_add(a, i, j);
        let (u, v) = lemma_cat_elim(l_pow(a, i), l_pow(a, j), w);
        assert(l_loop(a, r)(u));
        assert(l_loop(a, s)(v));
        lemma_cat_intro(l_loop(a, r), l_loop(a, s), u, v);
    }
    lemma_sub_antisym(x, y);
}
pub proof fn lemma_loop_point(a: Lang, r: spec_fn(nat) -> bool, k: nat)
    requires forall|n: nat| #[trigger] r(n) <==> n == k,
    ensures l_loop(a, r) == l_pow(a, k),
{
    assert forall|w: Seq<u32>| #[trigger] l_loop(a, r)(w) == l_pow(a, k)(w) by { assert(r(k)); }
    assert(l_loop(a, r) =~= l_pow(a, k));
}
pub proof fn lemma_loop_ext(a: Lang, r: spec_fn(nat) -> bool, s: spec_fn(nat) -> bool)
    requires forall|n: nat| #[trigger] r(n) <==> s(n),
    ensures l_loop(a, r) == l_loop(a, s),
{
    assert(r =~= s);
}
pub proof fn lemma_loop_none(r: spec_fn(nat) -> bool)
    ensures l_loop(l_none(), r) == (if r(0) { l_eps() } else { l_none() }),
{
    assert forall|w: Seq<u32>| #[trigger] l_loop(l_none(), r)(w) == (if r(0) { l_eps() } else { l_none() })(w) by {
        if l_loop(l_none(), r)(w) {
            let n = choose|n: nat| #[trigger] r(n) && l_pow(l_none(), n)(w);
            lemma_pow_none(n);
        }
        if r(0) { assert(l_pow(l_none(), 0) == l_eps()); }
    }
    assert(l_loop(l_none(), r) =~= (if r(0) { l_eps() } else { l_none() }));
}
pub proof fn lemma_loop_eps(r: spec_fn(nat) -> bool)
    requires exists|n: nat| #[trigger] r(n),
    ensures l_loop(l_eps(), r) == l_eps(),
{
    let m = choose|n: nat| #[trigger] r(n);
    assert forall|w: Seq<u32>| #[trigger] l_loop(l_eps(), r)(w) == l_eps()(w) by {
        if l_loop(l_eps(), r)(w) {
            let n = choose|n: nat| #[trigger] r(n) && l_pow(l_eps(), n)(w);
            lemma_pow_eps(n);
        }
        if l_eps()(w) { lemma_pow_eps(m); assert(r(m)); }
    }
    assert(l_loop(l_eps(), r) =~= l_eps());
}
/// a nullable: a . Sigma* = Sigma*
pub proof fn lemma_cat_all(a: Lang)
    requires good_lang(a), a(eps()),
    ensures l_cat(a, l_all()) == l_all(),
{
    assert forall|w: Seq<u32>| #[trigger] l_cat(a, l_all())(w) == l_all()(w) by {
        if l_cat(a, l_all())(w) { let (u, v) = lemma_cat_elim(a, l_all(), w); assert(good_word(u) && good_word(v)); }
        if good_word(w) { lemma_cat_intro(a, l_all(), eps(), w); assert(eps() + w =~= w); }
    }
    assert(l_cat(a, l_all()) =~= l_all());
}
/// k-fold sums of elements of r
pub open spec fn nsum(r: spec_fn(nat) -> bool, k: nat, n: nat) -> bool
    decreases k
{
    if k == 0 { n == 0 } else { exists|x: nat| #[trigger] r(x) && x <= n && nsum(r, (k - 1) as nat, (n - x) as nat) }
}
pub proof fn lemma_pow_loop(a: Lang, r: spec_fn(nat) -> bool, k: nat, w: Seq<u32>)
    ensures l_pow(l_loop(a, r), k)(w) <==> exists|n: nat| #[trigger] nsum(r, k, n) && l_pow(a, n)(w),
    decreases k,
{
    let b = l_loop(a, r);
    if k == 0 {
        assert(nsum(r, 0, 0));
        assert(l_pow(a, 0)(w) == l_pow(b, 0)(w));
    } else {
        let k1 = (k - 1) as nat;
        if l_pow(b, k)(w) {
            let (u, v) = lemma_cat_elim(b, l_pow(b, k1), w);
            lemma_pow_loop(a, r, k1, v);
            let x = choose|n: nat| #[trigger] r(n) && l_pow(a, n)(u);
            let y = choose|n: nat| #[trigger] nsum(r, k1, n) && l_pow(a, n)(v);
            lemma_pow_add(a, x, y);
            lemma_cat_intro(l_pow(a, x), l_pow(a, y), u, v);
            assert((x + y - x) as nat == y);
            assert(nsum(r, k, x + y));
        }
        if exists|n: nat| #[trigger] nsum(r, k, n) && l_pow(a, n)(w) {
            let n = choose|n: nat| #[trigger] nsum(r, k, n) && l_pow(a, n)(w);
            let x = choose|x: nat| #[trigger] r(x) && x <= n && nsum(r, k1, (n - x) as nat);
            let y = (n - x) as nat;
            lemma_pow_add(a, x, y);
            let (u, v) = lemma_cat_elim(l_pow(a, x), l_pow(a, y), w);
            lemma_pow_loop(a, r, k1, v);
            assert(l_loop(a, r)(u));
            lemma_cat_intro(b, l_pow(b, k1), u, v);
        }
    }
}
/// (a^r)^s = a^t when t is the union over k in s of the k-fold sums of r
pub proof fn lemma_loop_loop(a: Lang, r: spec_fn(nat) -> bool, s: spec_fn(nat) -> bool, t: spec_fn(nat) -> bool)
    requires forall|n: nat| #[trigger] t(n) <==> exists|k: nat| #[trigger] s(k) && nsum(r, k, n),
    ensures l_loop(l_loop(a, r), s) == l_loop(a, t),
{
    let x = l_loop(l_loop(a, r), s);
    let y = l_loop(a, t);
    assert forall|w: Seq<u32>| #[trigger] x(w) implies y(w) by {
        let k = choose|k: nat| #[trigger] s(k) && l_pow(l_loop(a, r), k)(w);
        lemma_pow_loop(a, r, k, w);
        let n = choose|n: nat| #[trigger] nsum(r, k, n) && l_pow(a, n)(w);
        assert(t(n));
    }
    assert forall|w: Seq<u32>| #[trigger] y(w) implies x(w) by {
        let n = choose|n: nat| #[trigger] t(n) && l_pow(a, n)(w);
        let k = choose|k: nat| #[trigger] s(k) && nsum(r, k, n);
        lemma_pow_loop(a, r, k, w);
        assert(s(k));
    }
    lemma_sub_antisym(x, y);
}

// quotients
pub proof fn lemma_quot_cat(a: Lang, b: Lang, c: u32)
    ensures l_quot(l_cat(a, b), c) == (if a(eps()) { l_or(l_cat(l_quot(a, c), b), l_quot(b, c)) } else { l_cat(l_quot(a, c), b) }),
{
    let x = l_quot(l_cat(a, b), c);
    let d = l_cat(l_quot(a, c), b);
    let y = if a(eps()) { l_or(d, l_quot(b, c)) } else { d };
    assert forall|w: Seq<u32>| #[trigger] x(w) implies y(w) by {
        let cw = seq![c] + w;
        let (u, v) = lemma_cat_elim(a, b, cw);
        if u.len() == 0 {
            assert(u =~= eps());
            assert(v =~= cw);
        } else {
            assert(u[0] == cw[0]);
            let u1 = u.skip(1);
            assert(u =~= seq![c] + u1);
            assert(w =~= u1 + v) by { assert(cw.skip(1) =~= w); assert(cw.skip(1) =~= u1 + v); }
            assert(l_quot(a, c)(u1));
            lemma_cat_intro(l_quot(a, c), b, u1, v);
        }
    }
    assert forall|w: Seq<u32>| #[trigger] y(w) implies x(w) by {
        let cw = seq![c] + w;
        if d(w) {
            let (u, v) = lemma_cat_elim(l_quot(a, c), b, w);
            lemma_cat_intro(a, b, seq![c] + u, v);
            assert(cw =~= (seq![c] + u) + v);
        } else {
            lemma_cat_intro(a, b, eps(), cw);
            assert(eps() + cw =~= cw);
        }
    }
    lemma_sub_antisym(x, y);
}
/// a nullable: powers grow
pub proof fn lemma_pow_grow(a: Lang, n: nat)
    requires a(eps()),
    ensures l_sub(l_pow(a, n), l_pow(a, n + 1)),
{
    assert forall|w: Seq<u32>| #[trigger] l_pow(a, n)(w) implies l_pow(a, n + 1)(w) by {
        lemma_cat_intro(a, l_pow(a, n), eps(), w);
        assert(eps() + w =~= w);
        assert((n + 1 - 1) as nat == n);
        lemma_pow_step(a, n + 1);
    }
}
pub proof fn lemma_quot_pow(a: Lang, c: u32, n: nat)
    ensures l_quot(l_pow(a, n), c) == (if n == 0 { l_none() } else { l_cat(l_quot(a, c), l_pow(a, (n - 1) as nat)) }),
    decreases n,
{
    if n == 0 {
        assert forall|w: Seq<u32>| !#[trigger] l_quot(l_pow(a, 0), c)(w) by { assert((seq![c] + w).len() > 0); }
        assert(l_quot(l_pow(a, 0), c) =~= l_none());
    } else {
        let n1 = (n - 1) as nat;
        let q = l_quot(a, c);
        lemma_pow_step(a, n);
        lemma_quot_cat(a, l_pow(a, n1), c);
        if a(eps()) {
            lemma_quot_pow(a, c, n1);
            if n1 == 0 {
                assert(l_or(l_cat(q, l_pow(a, n1)), l_none()) =~= l_cat(q, l_pow(a, n1)));
            } else {
                let n2 = (n1 - 1) as nat;
                lemma_pow_grow(a, n2);
                assert(n2 + 1 == n1);
                lemma_cat_mono(q, l_pow(a, n2), q, l_pow(a, n1));
                assert(l_or(l_cat(q, l_pow(a, n1)), l_cat(q, l_pow(a, n2))) =~= l_cat(q, l_pow(a, n1)));
            }
        }
    }
}
/// r is not {0}; s is the set of predecessors of r (0 kept)
pub proof fn lemma_quot_loop(a: Lang, r: spec_fn(nat) -> bool, s: spec_fn(nat) -> bool, c: u32)
    requires
        forall|n: nat| #[trigger] s(n) <==> exists|m: nat| #[trigger] r(m) && n == (if m == 0 { 0nat } else { (m - 1) as nat }),
        r(0) ==> r(1),
    ensures l_quot(l_loop(a, r), c) == l_cat(l_quot(a, c), l_loop(a, s)),
{
    let q = l_quot(a, c);
    let x = l_quot(l_loop(a, r), c);
    let y = l_cat(q, l_loop(a, s));
    assert forall|w: Seq<u32>| #[trigger] x(w) implies y(w) by {
        let m = choose|n: nat| #[trigger] r(n) && l_pow(a, n)(seq![c] + w);
        lemma_quot_pow(a, c, m);
        assert(l_quot(l_pow(a, m), c)(w));
        let m1 = (m - 1) as nat;
        let (u, v) = lemma_cat_elim(q, l_pow(a, m1), w);
        assert(s(m1));
        assert(l_loop(a, s)(v));
        lemma_cat_intro(q, l_loop(a, s), u, v);
    }
    assert forall|w: Seq<u32>| #[trigger] y(w) implies x(w) by {
        let (u, v) = lemma_cat_elim(q, l_loop(a, s), w);
        let n = choose|n: nat| #[trigger] s(n) && l_pow(a, n)(v);
        let m = choose|m: nat| #[trigger] r(m) && n == (if m == 0 { 0nat } else { (m - 1) as nat });
        let k = n + 1;
        assert(r(k)) by { if m == 0 { assert(n == 0); } }
        lemma_quot_pow(a, c, k);
        assert((k - 1) as nat == n);
        lemma_cat_intro(q, l_pow(a, n), u, v);
        assert(l_quot(l_pow(a, k), c)(w));
    }
    lemma_sub_antisym(x, y);
}
pub proof fn lemma_quot_comp(a: Lang, c: u32)
    requires c <= 0x2FFFF,
    ensures l_quot(l_comp(a), c) == l_comp(l_quot(a, c)),
{
    assert forall|w: Seq<u32>| #[trigger] l_quot(l_comp(a), c)(w) == l_comp(l_quot(a, c))(w) by { lemma_good_cons(c, w); }
    assert(l_quot(l_comp(a), c) =~= l_comp(l_quot(a, c)));
}
pub proof fn lemma_good_cons(c: u32, w: Seq<u32>)
    ensures good_word(seq![c] + w) <==> c <= 0x2FFFF && good_word(w),
{
    let cw = seq![c] + w;
    assert(cw[0] == c);
    if good_word(cw) { assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] <= 0x2FFFF by { assert(cw[i + 1] == w[i]); } }
}
pub proof fn lemma_quot_good(a: Lang, c: u32)
    requires good_lang(a),
    ensures good_lang(l_quot(a, c)),
{
    assert forall|w: Seq<u32>| #[trigger] l_quot(a, c)(w) implies good_word(w) by { assert(a(seq![c] + w)); lemma_good_cons(c, w); }
}
pub proof fn lemma_comp_comp(a: Lang)
    requires good_lang(a),
    ensures l_comp(l_comp(a)) == a,
{
    assert(l_comp(l_comp(a)) =~= a);
}
pub proof fn lemma_wquot_step(a: Lang, u: Seq<u32>, c: u32)
    ensures l_quot(l_wquot(a, u), c) == l_wquot(a, u.push(c)),
{
    assert forall|w: Seq<u32>| #[trigger] l_quot(l_wquot(a, u), c)(w) == l_wquot(a, u.push(c))(w) by { assert(u + (seq![c] + w) =~= u.push(c) + w); }
    assert(l_quot(l_wquot(a, u), c) =~= l_wquot(a, u.push(c)));
}
pub proof fn lemma_wquot_eps(a: Lang)
    ensures l_wquot(a, eps()) == a,
{
    assert forall|w: Seq<u32>| #[trigger] l_wquot(a, eps())(w) == a(w) by { assert(eps() + w =~= w); }
    assert(l_wquot(a, eps()) =~= a);
}

pub proof fn lemma_null_cat(a: Lang, b: Lang)
    ensures l_cat(a, b)(eps()) <==> a(eps()) && b(eps()),
{
    if l_cat(a, b)(eps()) {
        let (u, v) = lemma_cat_elim(a, b, eps());
        assert((u + v).len() == 0);
        assert(u =~= eps()); assert(v =~= eps());
    }
    if a(eps()) && b(eps()) { lemma_cat_intro(a, b, eps(), eps()); assert(eps() + eps() =~= eps()); }
}
pub proof fn lemma_null_pow(a: Lang, n: nat)
    ensures l_pow(a, n)(eps()) <==> n == 0 || a(eps()),
    decreases n,
{
    if n > 0 { lemma_null_cat(a, l_pow(a, (n - 1) as nat)); lemma_null_pow(a, (n - 1) as nat); }
}
pub proof fn lemma_null_loop(a: Lang, r: spec_fn(nat) -> bool)
    requires exists|n: nat| #[trigger] r(n),
    ensures l_loop(a, r)(eps()) <==> r(0) || a(eps()),
{
    if l_loop(a, r)(eps()) {
        let n = choose|n: nat| #[trigger] r(n) && l_pow(a, n)(eps());
        lemma_null_pow(a, n);
    }
    if r(0) { lemma_null_pow(a, 0); }
    if a(eps()) { let n = choose|n: nat| #[trigger] r(n); lemma_null_pow(a, n); }
}

pub proof fn lemma_quot_eps(c: u32)
    ensures l_quot(l_eps(), c) == l_none(),
{
    assert forall|w: Seq<u32>| #[trigger] l_quot(l_eps(), c)(w) == l_none()(w) by { assert((seq![c] + w).len() > 0); }
    assert(l_quot(l_eps(), c) =~= l_none());
}
pub proof fn lemma_quot_range(lo: u32, hi: u32, c: u32)
    ensures l_quot(l_range(lo, hi), c) == (if lo <= c && c <= hi { l_eps() } else { l_none() }),
{
    let r = if lo <= c && c <= hi { l_eps() } else { l_none() };
    assert forall|w: Seq<u32>| #[trigger] l_quot(l_range(lo, hi), c)(w) == r(w) by { let cw = seq![c] + w; assert(cw[0] == c); assert(cw.len() == w.len() + 1); }
    assert(l_quot(l_range(lo, hi), c) =~= r);
}
pub proof fn lemma_sigma_pow(w: Seq<u32>)
    requires good_word(w),
    ensures l_pow(l_range(0, 0x2FFFF), w.len())(w),
    decreases w.len(),
{
    let s = l_range(0, 0x2FFFF);
    if w.len() > 0 {
        let u = w.take(1);
        let v = w.skip(1);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] <= 0x2FFFF by { assert(w[i + 1] <= 0x2FFFF); }
        lemma_sigma_pow(v);
        assert(u[0] == w[0]);
        assert(s(u));
        lemma_pow_step(s, w.len());
        lemma_cat_intro(s, l_pow(s, v.len()), u, v);
        assert(u + v =~= w);
    }
}
/// iteration of the one-letter strings: all lengths in r
pub proof fn lemma_sigma_loop(r: spec_fn(nat) -> bool)
    requires forall|n: nat| #[trigger] r(n),
    ensures l_loop(l_range(0, 0x2FFFF), r) == l_all(),
{
    let s = l_range(0, 0x2FFFF);
    assert forall|w: Seq<u32>| #[trigger] l_loop(s, r)(w) == l_all()(w) by {
        if l_loop(s, r)(w) { lemma_loop_good(s, r); }
        if good_word(w) { lemma_sigma_pow(w); assert(r(w.len())); }
    }
    assert(l_loop(s, r) =~= l_all());
}
pub proof fn lemma_sigma_plus(r: spec_fn(nat) -> bool)
    requires forall|n: nat| #[trigger] r(n) <==> n >= 1,
    ensures l_loop(l_range(0, 0x2FFFF), r) == l_comp(l_eps()),
{
    let s = l_range(0, 0x2FFFF);
    assert forall|w: Seq<u32>| #[trigger] l_loop(s, r)(w) == l_comp(l_eps())(w) by {
        if l_loop(s, r)(w) {
            lemma_loop_good(s, r);
            let n = choose|n: nat| #[trigger] r(n) && l_pow(s, n)(w);
            let (u, v) = lemma_cat_elim(s, l_pow(s, (n - 1) as nat), w);
        }
        if good_word(w) && w.len() > 0 { lemma_sigma_pow(w); assert(r(w.len())); }
    }
    assert(l_loop(s, r) =~= l_comp(l_eps()));
}

// first characters
/// some word of a begins with c
pub open spec fn starts(a: Lang, c: u32) -> bool { exists|w: Seq<u32>| #[trigger] a(w) && w.len() > 0 && w[0] == c }
pub proof fn lemma_starts(a: Lang, c: u32)
    ensures starts(a, c) == !l_empty(l_quot(a, c)),
{
    if starts(a, c) {
        let w = choose|w: Seq<u32>| #[trigger] a(w) && w.len() > 0 && w[0] == c;
        assert(w =~= seq![c] + w.skip(1));
        assert(l_quot(a, c)(w.skip(1)));
    }
    if !l_empty(l_quot(a, c)) {
        let w = choose|w: Seq<u32>| #[trigger] l_quot(a, c)(w);
        assert(a(seq![c] + w));
        assert((seq![c] + w)[0] == c);
    }
}
pub proof fn lemma_empty_cat(a: Lang, b: Lang)
    ensures l_empty(l_cat(a, b)) == (l_empty(a) || l_empty(b)),
{
    if !l_empty(l_cat(a, b)) {
        let w = choose|w: Seq<u32>| #[trigger] l_cat(a, b)(w);
        let (u, v) = lemma_cat_elim(a, b, w);
        assert(a(u) && b(v));
    }
    if !l_empty(a) && !l_empty(b) {
        let u = choose|w: Seq<u32>| #[trigger] a(w);
        let v = choose|w: Seq<u32>| #[trigger] b(w);
        lemma_cat_intro(a, b, u, v);
    }
}
pub proof fn lemma_starts_cat(a: Lang, b: Lang, c: u32)
    ensures starts(l_cat(a, b), c) == ((starts(a, c) && !l_empty(b)) || (a(eps()) && starts(b, c))),
{
    lemma_starts(a, c); lemma_starts(b, c); lemma_starts(l_cat(a, b), c);
    lemma_quot_cat(a, b, c);
    lemma_empty_cat(l_quot(a, c), b);
    let (d, e) = (l_cat(l_quot(a, c), b), l_quot(b, c));
    if a(eps()) {
        if !l_empty(d) { let w = choose|w: Seq<u32>| #[trigger] d(w); assert(l_or(d, e)(w)); }
        if !l_empty(e) { let w = choose|w: Seq<u32>| #[trigger] e(w); assert(l_or(d, e)(w)); }
        if !l_empty(l_or(d, e)) { let w = choose|w: Seq<u32>| #[trigger] l_or(d, e)(w); assert(d(w) || e(w)); }
    }
}
pub proof fn lemma_pow_nonempty(a: Lang, n: nat)
    requires !l_empty(a),
    ensures !l_empty(l_pow(a, n)),
    decreases n,
{
    if n == 0 { assert(l_pow(a, 0)(eps())); } else { lemma_pow_nonempty(a, (n - 1) as nat); lemma_empty_cat(a, l_pow(a, (n - 1) as nat)); }
}
pub proof fn lemma_starts_pow(a: Lang, n: nat, c: u32)
    ensures starts(l_pow(a, n), c) ==> starts(a, c), n > 0 && starts(a, c) ==> starts(l_pow(a, n), c),
    decreases n,
{
    if n == 0 {
        assert forall|w: Seq<u32>| #[trigger] l_pow(a, 0)(w) implies w.len() == 0 by { }
    } else {
        let m = (n - 1) as nat;
        lemma_starts_pow(a, m, c);
        lemma_starts_cat(a, l_pow(a, m), c);
        if starts(a, c) { lemma_pow_nonempty(a, m); }
    }
}
pub proof fn lemma_starts_loop(a: Lang, r: spec_fn(nat) -> bool, k: nat, c: u32)
    requires r(k), k > 0,
    ensures starts(l_loop(a, r), c) == starts(a, c),
{
    if starts(l_loop(a, r), c) {
        let w = choose|w: Seq<u32>| #[trigger] l_loop(a, r)(w) && w.len() > 0 && w[0] == c;
        let n = choose|n: nat| #[trigger] r(n) && l_pow(a, n)(w);
        assert(starts(l_pow(a, n), c));
        lemma_starts_pow(a, n, c);
    }
    if starts(a, c) {
        lemma_starts_pow(a, k, c);
        let w = choose|w: Seq<u32>| #[trigger] l_pow(a, k)(w) && w.len() > 0 && w[0] == c;
        assert(l_loop(a, r)(w));
    }
}
} // verus!
