@module smt_strings
@post-replace `pub const EMPTY: SmtString = SmtString { s: vec![] };` => `pub exec const EMPTY: SmtString ensures EMPTY.s@ == Seq::<u32>::empty() { SmtString { s: vec![] } }`
@uses
use crate::matcher::{occurs, least_occ};
use vstd::std_specs::convert::*;
@items
pub open spec fn good_chars(a: Seq<u32>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= MAX_CHAR }
/// replacement of out-of-range codes
pub open spec fn smt_code(x: u32) -> u32 { if x <= MAX_CHAR { x } else { REPLACEMENT_CHAR } }
pub open spec fn codes(s: Seq<char>) -> Seq<u32> { s.map_values(|c: char| c as u32) }
pub open spec fn smt_codes(s: Seq<u32>) -> Seq<u32> { s.map_values(|x: u32| smt_code(x)) }

impl SmtString {
    /// well formed: the length fits in 31 bits, every element is an SMT-LIB character
    pub open spec fn wf(self) -> bool { self.s@.len() <= MAX_LENGTH && good_chars(self.s@) }
}

impl FromSpecImpl<&str> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &str) -> Self { arbitrary() } }
impl FromSpecImpl<String> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: String) -> Self { arbitrary() } }
impl FromSpecImpl<&[u32]> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &[u32]) -> Self { arbitrary() } }
impl FromSpecImpl<Vec<u32>> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: Vec<u32>) -> Self { arbitrary() } }
impl FromSpecImpl<u32> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: u32) -> Self { arbitrary() } }
impl FromSpecImpl<char> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: char) -> Self { arbitrary() } }
impl<const N: usize> FromSpecImpl<&[u32; N]> for SmtString { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &[u32; N]) -> Self { arbitrary() } }
/// The expressions of the same text in the two constructors, outlined. Inside an
/// implementation of From (or anything it calls) Verus has no access to the
/// specification of collect; each body is therefore verified once as `verified_..`
/// and assumed with the same contract as `outlined_..`.
pub fn verified_from_chars(x: &str) -> (r: Vec<u32>)
    ensures r@ =~= smt_codes(codes(x@)),
{ x.chars().map(smt_char).collect() }
#[verifier::external_body]
pub fn outlined_from_chars(x: &str) -> (r: Vec<u32>)
    ensures r@ =~= smt_codes(codes(x@)),
{ x.chars().map(smt_char).collect() }
pub fn verified_from_slice(a: &[u32]) -> (r: Vec<u32>)
    ensures r@ =~= smt_codes(a@),
{ a.iter().map(|x: &u32| -> (y: u32) ensures y == smt_code(*x) { let x = *x; if x <= MAX_CHAR { x } else { REPLACEMENT_CHAR } }).collect() }
#[verifier::external_body]
pub fn outlined_from_slice(a: &[u32]) -> (r: Vec<u32>)
    ensures r@ =~= smt_codes(a@),
{ a.iter().map(|&x| if x <= MAX_CHAR { x } else { REPLACEMENT_CHAR }).collect() }
// ---- SMT-LIB 2.6 meaning of the string functions
pub open spec fn smt_substr(w: Seq<u32>, m: int, n: int) -> Seq<u32> {
    if 0 <= m < w.len() && 0 < n { w.subrange(m, if m + n <= w.len() { m + n } else { w.len() as int }) } else { Seq::empty() }
}
pub open spec fn smt_at(w: Seq<u32>, n: int) -> Seq<u32> { smt_substr(w, n, 1) }
pub open spec fn smt_contains(w: Seq<u32>, p: Seq<u32>) -> bool { exists|i: int| #[trigger] occurs(p, w, i) }
/// n is the value of (str.indexof w p i)
pub open spec fn smt_indexof(w: Seq<u32>, p: Seq<u32>, i: int, n: int) -> bool {
    if 0 <= i <= w.len() && exists|j: int| j >= i && #[trigger] occurs(p, w, j) { least_occ(p, w, i, n) } else { n == -1 }
}
/// x is the value of (str.replace w p r)
pub open spec fn smt_replace(w: Seq<u32>, p: Seq<u32>, r: Seq<u32>, x: Seq<u32>) -> bool {
    if smt_contains(w, p) {
        exists|i: int| #[trigger] least_occ(p, w, 0, i) && x == w.subrange(0, i) + r + w.subrange(i + p.len(), w.len() as int)
    } else {
        x == w
    }
}
pub open spec fn has_first(p: Seq<u32>, w: Seq<u32>) -> bool { exists|i: int| #[trigger] least_occ(p, w, 0, i) }
pub open spec fn first(p: Seq<u32>, w: Seq<u32>) -> int { choose|i: int| #[trigger] least_occ(p, w, 0, i) }
/// value of (str.replace_all w p r)
pub open spec fn smt_replace_all(w: Seq<u32>, p: Seq<u32>, r: Seq<u32>) -> Seq<u32>
    decreases w.len()
{
    if p.len() == 0 || !has_first(p, w) {
        w
    } else {
        let i = first(p, w);
        w.subrange(0, i) + r + smt_replace_all(w.subrange(i + p.len(), w.len() as int), p, r)
    }
}

pub proof fn lemma_first_unique(p: Seq<u32>, w: Seq<u32>, i: int)
    requires least_occ(p, w, 0, i),
    ensures has_first(p, w), first(p, w) == i,
{
    let j = first(p, w);
    assert(least_occ(p, w, 0, j));
    if j < i { assert(occurs(p, w, j)); }
    if i < j { assert(occurs(p, w, i)); }
}

pub proof fn lemma_occurs_shift(p: Seq<u32>, w: Seq<u32>, i: int, j: int)
    requires 0 <= i <= w.len(), j >= i,
    ensures occurs(p, w, j) == occurs(p, w.subrange(i, w.len() as int), j - i),
{
    let u = w.subrange(i, w.len() as int);
    if j + p.len() <= w.len() {
        assert(u.subrange(j - i, j - i + p.len()) =~= w.subrange(j, j + p.len()));
    }
}

pub proof fn lemma_replace_all_step(p: Seq<u32>, w: Seq<u32>, r: Seq<u32>, i: int, j: int)
    requires 0 <= i <= w.len(), p.len() > 0, least_occ(p, w, i, j),
    ensures
        smt_replace_all(w.subrange(i, w.len() as int), p, r)
            == w.subrange(i, j) + r + smt_replace_all(w.subrange(j + p.len(), w.len() as int), p, r),
{
    let u = w.subrange(i, w.len() as int);
    lemma_occurs_shift(p, w, i, j);
    assert forall|x: int| 0 <= x < j - i implies !#[trigger] occurs(p, u, x) by {
        lemma_occurs_shift(p, w, i, i + x);
        assert(!occurs(p, w, i + x));
    }
    assert(least_occ(p, u, 0, j - i));
    lemma_first_unique(p, u, j - i);
    assert(u.subrange(0, j - i) =~= w.subrange(i, j));
    assert(u.subrange(j - i + p.len(), u.len() as int) =~= w.subrange(j + p.len(), w.len() as int));
}

pub proof fn lemma_replace_all_done(p: Seq<u32>, w: Seq<u32>, r: Seq<u32>, i: int)
    requires 0 <= i <= w.len(), forall|j: int| i <= j ==> !#[trigger] occurs(p, w, j),
    ensures smt_replace_all(w.subrange(i, w.len() as int), p, r) == w.subrange(i, w.len() as int),
{
    let u = w.subrange(i, w.len() as int);
    if has_first(p, u) {
        let x = first(p, u);
        assert(least_occ(p, u, 0, x));
        lemma_occurs_shift(p, w, i, i + x);
        assert(occurs(p, w, i + x));
    }
}

// ---- lexicographic order
pub open spec fn lex_lt(v: Seq<u32>, w: Seq<u32>) -> bool
    decreases v.len()
{
    if w.len() == 0 { false }
    else if v.len() == 0 { true }
    else { v[0] < w[0] || (v[0] == w[0] && lex_lt(v.skip(1), w.skip(1))) }
}
pub open spec fn lex_le(v: Seq<u32>, w: Seq<u32>) -> bool { v == w || lex_lt(v, w) }

/// v and w agree on their first i elements, and the rest decides
pub proof fn lemma_lex(v: Seq<u32>, w: Seq<u32>, i: int)
    requires
        0 <= i <= v.len(), i <= w.len(),
        forall|x: int| 0 <= x < i ==> v[x] == #[trigger] w[x],
        i == v.len() || i == w.len() || v[i] != w[i],
    ensures
        lex_lt(v, w) == (if i == v.len() { i < w.len() } else { i < w.len() && v[i] < w[i] }),
        (v == w) == (i == v.len() && i == w.len()),
    decreases i,
{
    if i > 0 {
        let v1 = v.skip(1);
        let w1 = w.skip(1);
        assert forall|x: int| 0 <= x < i - 1 implies v1[x] == #[trigger] w1[x] by { assert(v[x + 1] == w[x + 1]); }
        lemma_lex(v1, w1, i - 1);
        assert(v[0] == w[0]);
        if i == v.len() && i == w.len() { assert(v =~= w); }
    } else {
        if v.len() == 0 && w.len() == 0 { assert(v =~= w); }
    }
}
/// the order is total, irreflexive, antisymmetric and transitive, and extends the prefix order
pub proof fn theorem_lex_order(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>)
    ensures
        !lex_lt(a, a),
        lex_lt(a, b) || lex_lt(b, a) || a == b,
        !(lex_lt(a, b) && lex_lt(b, a)),
        lex_lt(a, b) && lex_lt(b, c) ==> lex_lt(a, c),
        lex_le(a, a + b),
    decreases a.len() + b.len() + c.len(),
{
    assert((a + b).len() == a.len() + b.len());
    if a.len() > 0 {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        theorem_lex_order(a.skip(1), b, Seq::empty());
        assert((a + b)[0] == a[0]);
        if a.skip(1) == (a + b).skip(1) { assert(a =~= a + b) by { assert(a.skip(1).len() == (a + b).skip(1).len()); assert(b.len() == 0); } }
        if b.len() > 0 {
            theorem_lex_order(a.skip(1), b.skip(1), Seq::empty());
            if a.skip(1) == b.skip(1) && a[0] == b[0] {
                assert(a =~= b) by {
                    assert(a.len() == b.len());
                    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
                        if i > 0 { assert(a.skip(1)[i - 1] == a[i]); assert(b.skip(1)[i - 1] == b[i]); }
                    }
                }
            }
            if c.len() > 0 { theorem_lex_order(a.skip(1), b.skip(1), c.skip(1)); }
        }
    } else {
        assert(a + b =~= b);
        if b.len() == 0 { assert(a =~= b); }
    }
}

// ---- integers
pub open spec fn digit(x: u32) -> bool { 48 <= x <= 57 }
pub open spec fn all_digits(s: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn decimal(s: Seq<u32>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * decimal(s.drop_last()) + s.last() - 48 }
}
pub proof fn lemma_decimal_mono(s: Seq<u32>, i: int)
    requires 0 <= i <= s.len(), all_digits(s),
    ensures 0 <= decimal(s.take(i)) <= decimal(s),
    decreases s.len() - i,
{
    lemma_decimal_pos(s.take(i));
    if i < s.len() {
        lemma_decimal_mono(s, i + 1);
        assert(s.take(i + 1).drop_last() =~= s.take(i));
        assert(digit(s[i]));
    } else {
        assert(s.take(i) =~= s);
    }
}
pub proof fn lemma_decimal_pos(s: Seq<u32>)
    requires all_digits(s),
    ensures decimal(s) >= 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(all_digits(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies digit(#[trigger] s.drop_last()[i]) by { assert(digit(s[i])); } }
        lemma_decimal_pos(s.drop_last());
        assert(digit(s[s.len() - 1]));
    }
}
/// value of (str.to_int s) when it fits
pub open spec fn smt_to_int(s: Seq<u32>) -> int { if s.len() > 0 && all_digits(s) { decimal(s) } else { -1 } }
/// x is (str.from_int n): the decimal numeral of n without leading zeros, empty for negative n
pub open spec fn smt_from_int(n: int, x: Seq<u32>) -> bool {
    if n < 0 { x.len() == 0 } else { x.len() > 0 && all_digits(x) && decimal(x) == n && (x.len() > 1 ==> x[0] != 48) }
}
pub proof fn lemma_dec_str(n: nat)
    ensures
        smt_from_int(n as int, codes(dec_str(n))), (n == 0 || codes(dec_str(n))[0] != 48),
        dec_str(n).len() >= 1,
        forall|i: int| 0 <= i < dec_str(n).len() ==> #[trigger] dec_str(n)[i] as u32 <= 57,
    decreases n,
{
    let s = codes(dec_str(n));
    if n < 10 {
        assert(s =~= seq![hex_digit(n as int) as u32]);
        assert(s.drop_last() =~= Seq::<u32>::empty());
        assert(decimal(s.drop_last()) == 0);
    } else {
        let t = codes(dec_str(n / 10));
        lemma_dec_str(n / 10);
        let d = hex_digit((n % 10) as int) as u32;
        assert(s =~= t.push(d));
        assert(s.drop_last() =~= t);
        assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i]) by { if i < t.len() { assert(digit(t[i])); } }
        assert(decimal(s) == 10 * decimal(t) + d - 48);
        assert(s[0] == t[0]);
    }
}
pub proof fn lemma_low_codes(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] as u32 <= 57,
    ensures smt_codes(codes(s)) == codes(s),
{
    assert forall|i: int| 0 <= i < s.len() implies smt_codes(codes(s))[i] == codes(s)[i] by { assert(s[i] as u32 <= 57); }
    assert(smt_codes(codes(s)) =~= codes(s));
}
pub open spec fn pow10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
pub proof fn lemma_dec_len(n: nat, k: nat)
    requires n < pow10(k), k > 0,
    ensures dec_str(n).len() <= k,
    decreases k,
{
    if n >= 10 { lemma_dec_len(n / 10, (k - 1) as nat); }
}
/// to_int(from_int(n)) = n
pub proof fn theorem_int_roundtrip(n: int, x: Seq<u32>)
    requires n >= 0, smt_from_int(n, x),
    ensures smt_to_int(x) == n,
{
}

// ---- literals: independent definition of the escape sequences of SMT-LIB 2.6
pub open spec fn hexc(x: u32) -> bool { is_hex(x as int) }
/// the first k elements of s from position i on are hexadecimal digits
pub open spec fn hexes(s: Seq<u32>, i: int, k: int) -> bool {
    i + k <= s.len() && forall|x: int| i <= x < i + k ==> hexc(#[trigger] s[x])
}
pub open spec fn hex_value(s: Seq<u32>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 16 * hex_value(s.drop_last()) + hex_val(s.last() as int) }
}
/// `\\uXXXX`
pub open spec fn esc4(s: Seq<u32>) -> bool {
    s.len() >= 6 && s[0] == 92 && s[1] == 117 && hexes(s, 2, 4)
}
/// `\\u{X..X}` with k hexadecimal digits, and a value within the character range
pub open spec fn escb(s: Seq<u32>, k: int) -> bool {
    1 <= k <= 5 && s.len() >= k + 4 && s[0] == 92 && s[1] == 117 && s[2] == 123 && hexes(s, 3, k) && s[k + 3] == 125
        && hex_value(s.subrange(3, k + 3)) <= MAX_CHAR
}
/// s starts with an escape sequence of n characters that denotes c
pub open spec fn esc(s: Seq<u32>, n: int, c: int) -> bool {
    (n == 6 && esc4(s) && c == hex_value(s.subrange(2, 6))) || (escb(s, n - 4) && c == hex_value(s.subrange(3, n - 1)))
}
pub open spec fn is_esc(s: Seq<u32>) -> bool { exists|n: int, c: int| #[trigger] esc(s, n, c) }
pub open spec fn esc_n(s: Seq<u32>, n: int) -> bool { exists|c: int| #[trigger] esc(s, n, c) }
pub open spec fn esc_len(s: Seq<u32>) -> int { choose|n: int| #[trigger] esc_n(s, n) }
pub open spec fn esc_val(s: Seq<u32>) -> int { choose|c: int| #[trigger] esc(s, esc_len(s), c) }
/// the string denoted by the text s
pub open spec fn unescape(s: Seq<u32>) -> Seq<u32>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_esc(s) && 0 < esc_len(s) <= s.len() { seq![esc_val(s) as u32] + unescape(s.skip(esc_len(s))) }
    else { seq![smt_code(s[0])] + unescape(s.skip(1)) }
}
pub proof fn lemma_hexes_at(s: Seq<u32>, i: int, k: int, x: int)
    requires hexes(s, i, k), i <= x < i + k,
    ensures hexc(s[x]),
{}
/// the escape sequence at the start of s is unique
pub proof fn lemma_esc_unique(s: Seq<u32>, n: int, c: int)
    requires esc(s, n, c),
    ensures is_esc(s), esc_len(s) == n, esc_val(s) == c, 0 < n <= s.len(),
{
    assert(esc_n(s, n));
    let m = esc_len(s);
    assert(esc_n(s, m));
    let d = choose|d: int| #[trigger] esc(s, m, d);
    assert(esc(s, n, c) && esc(s, m, d));
    lemma_esc_same(s, n, c, m, d);
    assert(esc(s, m, esc_val(s)));
    lemma_esc_same(s, n, c, m, esc_val(s));
}
pub proof fn lemma_esc_same(s: Seq<u32>, n: int, c: int, m: int, d: int)
    requires esc(s, n, c), esc(s, m, d),
    ensures n == m, c == d,
{
    if n == 6 && esc4(s) { lemma_hexes_at(s, 2, 4, 2); assert(hexc(s[2])); }
    if m == 6 && esc4(s) { lemma_hexes_at(s, 2, 4, 2); }
    if escb(s, n - 4) && escb(s, m - 4) {
        if n < m { lemma_hexes_at(s, 3, m - 4, n - 1); }
        if m < n { lemma_hexes_at(s, 3, n - 4, m - 1); }
    }
}
pub proof fn lemma_unescape_esc(s: Seq<u32>, n: int, c: int)
    requires esc(s, n, c),
    ensures unescape(s) == seq![c as u32] + unescape(s.skip(n)),
{
    lemma_esc_unique(s, n, c);
}
/// hexadecimal digits of bounded length have a bounded value
pub proof fn lemma_hex_value(s: Seq<u32>)
    requires hexes(s, 0, s.len() as int), s.len() <= 6,
    ensures 0 <= hex_value(s),
        s.len() == 0 ==> hex_value(s) == 0,
        s.len() <= 1 ==> hex_value(s) < 0x10,
        s.len() <= 2 ==> hex_value(s) < 0x100,
        s.len() <= 3 ==> hex_value(s) < 0x1000,
        s.len() <= 4 ==> hex_value(s) < 0x1_0000,
        s.len() <= 5 ==> hex_value(s) < 0x10_0000,
        s.len() <= 6 ==> hex_value(s) < 0x100_0000,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(hexes(t, 0, t.len() as int)) by {
            assert forall|x: int| 0 <= x < t.len() implies hexc(#[trigger] t[x]) by { assert(hexc(s[x])); }
        }
        lemma_hex_value(t);
        assert(hexc(s[s.len() - 1]));
    }
}
/// text that starts with p, followed by something that makes it no escape sequence,
/// is copied up to the next backslash
pub proof fn lemma_flush(p: Seq<u32>, rest: Seq<u32>)
    requires
        p.len() > 0 ==> !is_esc(p + rest),
        forall|x: int| 0 < x < p.len() ==> #[trigger] p[x] != 92,
        good_chars(p),
    ensures unescape(p + rest) == p + unescape(rest),
    decreases p.len(),
{
    if p.len() == 0 {
        assert(p + rest =~= rest);
        assert(p + unescape(rest) =~= unescape(rest));
    } else {
        let q = p.skip(1);
        assert((p + rest).skip(1) =~= q + rest);
        assert(smt_code(p[0]) == p[0]);
        if q.len() > 0 {
            assert(q[0] == p[1]);
            if is_esc(q + rest) {
                let (n, c) = choose|n: int, c: int| #[trigger] esc(q + rest, n, c);
                assert((q + rest)[0] == q[0]);
            }
        }
        assert forall|x: int| 0 < x < q.len() implies #[trigger] q[x] != 92 by { assert(p[x + 1] != 92); }
        assert(good_chars(q)) by { assert forall|x: int| 0 <= x < q.len() implies #[trigger] q[x] <= MAX_CHAR by { assert(p[x + 1] <= MAX_CHAR); } }
        lemma_flush(q, rest);
        assert(p + unescape(rest) =~= seq![p[0]] + (q + unescape(rest)));
    }
}
pub open spec fn low(p: Seq<u32>) -> bool { forall|x: int| 0 <= x < p.len() ==> #[trigger] p[x] <= 127 }
/// p is a proper prefix of an escape sequence, as recorded by the state of the parser
pub open spec fn prefix_state(st: State, p: Seq<u32>, code: int) -> bool {
    match st {
        State::Init => p.len() == 0 && code == 0,
        State::AfterSlash => p.len() == 1 && p[0] == 92 && code == 0,
        State::AfterSlashU => p.len() == 2 && p[0] == 92 && p[1] == 117 && code == 0,
        State::AfterSlashUHex => 3 <= p.len() <= 5 && p[0] == 92 && p[1] == 117 && hexes(p, 2, p.len() - 2)
            && code == hex_value(p.skip(2)),
        State::AfterSlashUBrace => 3 <= p.len() <= 8 && p[0] == 92 && p[1] == 117 && p[2] == 123 && hexes(p, 3, p.len() - 3)
            && code == hex_value(p.skip(3)),
    }
}
impl ParsingAutomaton {
    pub open spec fn held(self) -> Seq<u32> { self.pending@.take(self.pending_idx as int) }
    pub open spec fn inv(self) -> bool {
        self.pending_idx <= 9 && prefix_state(self.state, self.held(), self.escape_code as int)
            && good_chars(self.string_so_far@)
    }
    /// what the text read so far, followed by `rest`, denotes
    pub open spec fn denotes(self, rest: Seq<u32>) -> Seq<u32> { self.string_so_far@ + unescape(self.held() + rest) }
}
/// nothing that is held can turn out to be (part of) an escape sequence
pub open spec fn dead(p: Seq<u32>, rest: Seq<u32>) -> bool { p.len() > 0 ==> !is_esc(p + rest) }

pub proof fn lemma_held(st: State, p: Seq<u32>, code: int)
    requires prefix_state(st, p, code),
    ensures low(p), good_chars(p), forall|x: int| 0 < x < p.len() ==> #[trigger] p[x] != 92, 0 <= code < 0x10_0000,
        p.len() < 6 ==> !is_esc(p),
        !is_esc(p),
{
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] p[x] <= 127 && (x > 0 ==> p[x] != 92) by {
        if st is AfterSlashUHex && x >= 2 { lemma_hexes_at(p, 2, p.len() - 2, x); }
        if st is AfterSlashUBrace && x >= 3 { lemma_hexes_at(p, 3, p.len() - 3, x); }
    }
    if st is AfterSlashUHex {
        let q = p.skip(2);
        assert forall|x: int| 0 <= x < q.len() implies hexc(#[trigger] q[x]) by { lemma_hexes_at(p, 2, p.len() - 2, x + 2); }
        lemma_hex_value(q);
    }
    if st is AfterSlashUBrace {
        let q = p.skip(3);
        assert forall|x: int| 0 <= x < q.len() implies hexc(#[trigger] q[x]) by { lemma_hexes_at(p, 3, p.len() - 3, x + 3); }
        lemma_hex_value(q);
    }
    if is_esc(p) {
        let (n, c) = choose|n: int, c: int| #[trigger] esc(p, n, c);
        if n == 6 && esc4(p) { lemma_hexes_at(p, 2, 4, 2); }
        else { assert(p[n - 1] == 125); }
    }
}
/// a character that does not continue the held prefix kills it
pub proof fn lemma_dead(st: State, p: Seq<u32>, code: int, x: u32, rest: Seq<u32>)
    requires
        prefix_state(st, p, code),
        match st {
            State::Init => true,
            State::AfterSlash => x != 117,
            State::AfterSlashU => x != 123 && !hexc(x),
            State::AfterSlashUHex => !hexc(x),
            State::AfterSlashUBrace => !(x == 125 && p.len() > 3 && code <= MAX_CHAR) && !(hexc(x) && p.len() < 8),
        },
    ensures p.len() > 0 ==> !is_esc(p + (seq![x] + rest)),
{
    let s = p + (seq![x] + rest);
    if p.len() > 0 && is_esc(s) {
        let (n, c) = choose|n: int, c: int| #[trigger] esc(s, n, c);
        let k = p.len() as int;
        assert(s[k] == x);
        assert forall|i: int| 0 <= i < k implies s[i] == p[i] by {}
        if n == 6 && esc4(s) {
            assert(s[1] == 117);
            lemma_hexes_at(s, 2, 4, 2);
            if st is AfterSlashUHex { lemma_hexes_at(s, 2, 4, k); }
        } else {
            assert(escb(s, n - 4));
            assert(s[2] == 123);
            if st is AfterSlashUHex { lemma_hexes_at(p, 2, k - 2, 2); }
            if st is AfterSlashUBrace {
                if n - 1 < k { lemma_hexes_at(p, 3, k - 3, n - 1); assert(false); }
                if k < n - 1 { lemma_hexes_at(s, 3, n - 4, k); }
                if k == n - 1 { assert(s.subrange(3, n - 1) =~= p.skip(3)); }
            }
        }
    }
}
pub proof fn lemma_bits(code: u32, h: u32)
    requires code < 0x10_0000, h < 16,
    ensures (code << 4 | h) == code * 16 + h,
{
    assert((code << 4 | h) == code * 16 + h) by (bit_vector) requires code < 0x10_0000, h < 16;
}
pub proof fn lemma_hex_push(p: Seq<u32>, k: int, x: u32)
    requires 0 <= k <= p.len(), hexes(p, k, p.len() - k), hexc(x),
    ensures
        hexes(p.push(x), k, p.len() + 1 - k),
        hex_value(p.push(x).skip(k)) == 16 * hex_value(p.skip(k)) + hex_val(x as int),
{
    assert(p.push(x).skip(k).drop_last() =~= p.skip(k));
    assert(p.push(x).skip(k).last() == x);
    assert forall|i: int| k <= i < p.len() + 1 implies hexc(#[trigger] p.push(x)[i]) by { if i < p.len() { lemma_hexes_at(p, k, p.len() - k, i); } }
}

pub proof fn lemma_unescape_lit(x: u32, rest: Seq<u32>)
    requires x != 92,
    ensures unescape(seq![x] + rest) == seq![smt_code(x)] + unescape(rest),
{
    let s = seq![x] + rest;
    assert(s[0] == x);
    if is_esc(s) { let (n, c) = choose|n: int, c: int| #[trigger] esc(s, n, c); }
    assert(s.skip(1) =~= rest);
}
pub open spec fn next_brace(p: Seq<u32>, code: int, x: u32) -> bool { x == 125 && p.len() > 3 && code <= MAX_CHAR }
/// everything that can happen when x is read with p held
pub proof fn lemma_accept(st: State, p: Seq<u32>, code: int, x: u32)
    requires prefix_state(st, p, code),
    ensures
        0 <= code < 0x10_0000, good_chars(p), low(p), 
        forall|rest: Seq<u32>| #[trigger] (p.push(x) + rest) == p + (seq![x] + rest),
        st is AfterSlash && x != 117 ==> (forall|rest: Seq<u32>| #[trigger] dead(p, seq![x] + rest)),
        st is AfterSlashU && x != 123 && !hexc(x) ==> (forall|rest: Seq<u32>| #[trigger] dead(p, seq![x] + rest)),
        st is AfterSlashUHex && !hexc(x) ==> (forall|rest: Seq<u32>| #[trigger] dead(p, seq![x] + rest)),
        st is AfterSlashUBrace && !next_brace(p, code, x) && !(hexc(x) && p.len() < 8) ==> (forall|rest: Seq<u32>| #[trigger] dead(p, seq![x] + rest)),
        st is AfterSlash && x == 117 ==> prefix_state(State::AfterSlashU, p.push(x), 0),
        st is AfterSlashU && x == 123 ==> prefix_state(State::AfterSlashUBrace, p.push(x), 0),
        st is AfterSlashU && hexc(x) ==> prefix_state(State::AfterSlashUHex, p.push(x), hex_val(x as int)),
        st is AfterSlashUHex && hexc(x) && p.len() < 5 ==> prefix_state(State::AfterSlashUHex, p.push(x), 16 * code + hex_val(x as int)),
        st is AfterSlashUBrace && hexc(x) && p.len() < 8 ==> prefix_state(State::AfterSlashUBrace, p.push(x), 16 * code + hex_val(x as int)),
        st is AfterSlashUHex && hexc(x) && p.len() == 5 ==> 0 <= 16 * code + hex_val(x as int) <= 0xFFFF
            && (forall|rest: Seq<u32>| unescape(p + #[trigger] (seq![x] + rest)) == seq![(16 * code + hex_val(x as int)) as u32] + unescape(rest)),
        st is AfterSlashUBrace && next_brace(p, code, x) ==>
            (forall|rest: Seq<u32>| unescape(p + #[trigger] (seq![x] + rest)) == seq![code as u32] + unescape(rest)),
{
    lemma_held(st, p, code);
    assert forall|rest: Seq<u32>| #[trigger] (p.push(x) + rest) == p + (seq![x] + rest) by { assert(p.push(x) + rest =~= p + (seq![x] + rest)); }
    if match st {
            State::Init => true,
            State::AfterSlash => x != 117,
            State::AfterSlashU => x != 123 && !hexc(x),
            State::AfterSlashUHex => !hexc(x),
            State::AfterSlashUBrace => !(x == 125 && p.len() > 3 && code <= MAX_CHAR) && !(hexc(x) && p.len() < 8),
        } {
        assert forall|rest: Seq<u32>| #[trigger] dead(p, seq![x] + rest) by { lemma_dead(st, p, code, x, rest); }
    }
    if st is AfterSlashU && hexc(x) {
        assert(p.skip(2) =~= Seq::<u32>::empty());
        lemma_hex_push(p, 2, x);
    }
    if st is AfterSlashU { assert(p.push(x).skip(3) =~= Seq::<u32>::empty()); }
    if st is AfterSlashUHex && hexc(x) {
        lemma_hex_push(p, 2, x);
        let t = p.push(x);
        let v = 16 * code + hex_val(x as int);
        if p.len() == 5 {
            let q = t.skip(2);
            assert forall|i: int| 0 <= i < q.len() implies hexc(#[trigger] q[i]) by { lemma_hexes_at(t, 2, t.len() - 2, i + 2); }
            lemma_hex_value(q);
            assert forall|rest: Seq<u32>| unescape(p + #[trigger] (seq![x] + rest)) == seq![v as u32] + unescape(rest) by {
                let s = t + rest;
                assert(s == p + (seq![x] + rest));
                assert forall|i: int| 2 <= i < 6 implies hexc(#[trigger] s[i]) by { assert(t[i] == s[i]); }
                assert(s.subrange(2, 6) =~= t.skip(2));
                assert(esc(s, 6, v));
                lemma_unescape_esc(s, 6, v);
                assert(s.skip(6) =~= rest);
            }
        }
    }
    if st is AfterSlashUBrace && hexc(x) { lemma_hex_push(p, 3, x); }
    if st is AfterSlashUBrace && next_brace(p, code, x) {
        let t = p.push(x);
        let n = t.len() as int;
        assert forall|rest: Seq<u32>| unescape(p + #[trigger] (seq![x] + rest)) == seq![code as u32] + unescape(rest) by {
            let s = t + rest;
            assert(s == p + (seq![x] + rest));
            assert forall|i: int| 3 <= i < n - 1 implies hexc(#[trigger] s[i]) by { lemma_hexes_at(p, 3, p.len() - 3, i); assert(p[i] == s[i]); }
            assert(s.subrange(3, n - 1) =~= p.skip(3));
            assert(s[n - 1] == x);
            assert(escb(s, n - 4));
            assert(esc(s, n, code));
            lemma_unescape_esc(s, n, code);
            assert(s.skip(n) =~= rest);
        }
    }
}

// ---- printing
pub open spec fn printable(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> 32 <= #[trigger] t[i] as u32 <= 126 }
pub open spec fn no_quote(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '"' }
/// the text with doubled quotes undone
pub open spec fn undouble(t: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() }
    else if t.len() >= 2 && t[0] == '"' && t[1] == '"' { seq!['"'] + undouble(t.skip(2)) }
    else { seq![t[0]] + undouble(t.skip(1)) }
}
/// every quote of t is doubled
pub open spec fn doubled(t: Seq<char>) -> bool
    decreases t.len()
{
    if t.len() == 0 { true }
    else if t[0] == '"' { t.len() >= 2 && t[1] == '"' && doubled(t.skip(2)) }
    else { doubled(t.skip(1)) }
}
/// t is the body of a literal that denotes s
pub open spec fn literal_body(t: Seq<char>, s: Seq<u32>) -> bool {
    printable(t) && doubled(t) && unescape(codes(undouble(t))) == s
}
/// t prints the single character x, whatever follows
pub open spec fn prints(t: Seq<char>, x: u32) -> bool {
    printable(t) && doubled(t) && forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t)) + rest)) == seq![x] + unescape(rest)
}
pub proof fn lemma_doubled_concat(a: Seq<char>, b: Seq<char>)
    requires doubled(a), doubled(b),
    ensures doubled(a + b), undouble(a + b) == undouble(a) + undouble(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(undouble(a) + undouble(b) =~= undouble(b));
    } else {
        let k = if a[0] == '"' { 2int } else { 1int };
        assert((a + b).skip(k) =~= a.skip(k) + b);
        lemma_doubled_concat(a.skip(k), b);
        assert((a + b)[0] == a[0]);
        if k == 2 { assert((a + b)[1] == a[1]); }
        assert(undouble(a + b) =~= undouble(a) + undouble(b));
    }
}
pub proof fn lemma_no_quote(t: Seq<char>)
    requires no_quote(t),
    ensures doubled(t), undouble(t) == t,
    decreases t.len(),
{
    if t.len() > 0 {
        assert(t[0] != '"');
        assert forall|i: int| 0 <= i < t.skip(1).len() implies #[trigger] t.skip(1)[i] != '"' by { assert(t[i + 1] != '"'); }
        lemma_no_quote(t.skip(1));
        assert(undouble(t) =~= t);
    } else { assert(undouble(t) =~= t); }
}
/// appending the text of one more character
pub proof fn lemma_body_push(t: Seq<char>, s: Seq<u32>, u: Seq<char>, x: u32)
    requires literal_prefix(t, s), prints(u, x),
    ensures literal_prefix(t + u, s.push(x)),
{
    lemma_doubled_concat(t, u);
    assert forall|i: int| 0 <= i < (t + u).len() implies 32 <= #[trigger] (t + u)[i] as u32 <= 126 by {
        if i < t.len() { assert((t + u)[i] == t[i]); } else { assert((t + u)[i] == u[i - t.len()]); }
    }
    assert forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t + u)) + rest)) == s.push(x) + unescape(rest) by {
        let r1 = codes(undouble(u)) + rest;
        assert(codes(undouble(t + u)) + rest =~= codes(undouble(t)) + r1);
        assert(unescape(codes(undouble(t)) + r1) == s + unescape(r1));
        assert(unescape(r1) == seq![x] + unescape(rest));
        assert(s + (seq![x] + unescape(rest)) =~= s.push(x) + unescape(rest));
    }
}
pub open spec fn literal_prefix(t: Seq<char>, s: Seq<u32>) -> bool {
    printable(t) && doubled(t) && forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t)) + rest)) == s + unescape(rest)
}
pub proof fn lemma_body_empty()
    ensures literal_prefix(Seq::<char>::empty(), Seq::<u32>::empty()),
{
    let t = Seq::<char>::empty();
    assert(undouble(t) =~= t);
    assert forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t)) + rest)) == Seq::<u32>::empty() + unescape(rest) by {
        assert(codes(undouble(t)) + rest =~= rest);
        assert(Seq::<u32>::empty() + unescape(rest) =~= unescape(rest));
    }
}
pub proof fn lemma_body_done(t: Seq<char>, s: Seq<u32>)
    requires literal_prefix(t, s),
    ensures literal_body(t, s),
{
    let e = Seq::<u32>::empty();
    assert(unescape(codes(undouble(t)) + e) == s + unescape(e));
    assert(codes(undouble(t)) + e =~= codes(undouble(t)));
    assert(s + unescape(e) =~= s);
}
/// distinct strings never print alike
pub proof fn theorem_print_injective(t: Seq<char>, s1: Seq<u32>, s2: Seq<u32>)
    requires literal_body(t, s1), literal_body(t, s2),
    ensures s1 == s2,
{}
pub proof fn lemma_hex_digit(d: int)
    requires 0 <= d < 16,
    ensures hexc(hex_digit(d) as u32), hex_val(hex_digit(d) as u32 as int) == d, 48 <= hex_digit(d) as u32 <= 102,
{}
pub open spec fn pow16(n: nat) -> nat decreases n { if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }
pub proof fn lemma_hex_str(x: nat, n: nat)
    requires x < pow16(n), n > 0,
    ensures
        1 <= hex_str(x).len() <= n,
        forall|i: int| 0 <= i < hex_str(x).len() ==> hexc(#[trigger] hex_str(x)[i] as u32),
        hex_value(codes(hex_str(x))) == x,
    decreases n,
{
    let t = codes(hex_str(x));
    if x < 16 {
        lemma_hex_digit(x as int);
        assert(t.drop_last() =~= Seq::<u32>::empty());
        assert(hex_value(t.drop_last()) == 0);
    } else {
        lemma_hex_digit((x % 16) as int);
        assert(n > 1) by { if n == 1 { assert(pow16(0) == 1); assert(pow16(1) == 16); } }
        assert(pow16(n) == 16 * pow16((n - 1) as nat));
        lemma_hex_str(x / 16, (n - 1) as nat);
        assert(t.drop_last() =~= codes(hex_str(x / 16)));
    }
}
pub proof fn lemma_padded(s: Seq<char>, n: nat)
    requires forall|i: int| 0 <= i < s.len() ==> hexc(#[trigger] s[i] as u32),
    ensures
        padded(s, n).len() == (if s.len() < n { n } else { s.len() }),
        forall|i: int| 0 <= i < padded(s, n).len() ==> hexc(#[trigger] padded(s, n)[i] as u32),
        hex_value(codes(padded(s, n))) == hex_value(codes(s)),
{
    if s.len() < n { lemma_zeros(s, (n - s.len()) as nat); }
}
pub proof fn lemma_zeros(s: Seq<char>, k: nat)
    ensures hex_value(codes(zeros(k) + s)) == hex_value(codes(s)),
    decreases s.len() + k,
{
    let t = codes(zeros(k) + s);
    if s.len() > 0 {
        lemma_zeros(s.drop_last(), k);
        assert(t.drop_last() =~= codes(zeros(k) + s.drop_last()));
        assert(codes(s).drop_last() =~= codes(s.drop_last()));
    } else if k > 0 {
        lemma_zeros(s, (k - 1) as nat);
        assert(t.drop_last() =~= codes(zeros((k - 1) as nat) + s));
        assert(t.last() == 48);
    } else {
        assert(t =~= codes(s));
    }
}
/// a plain character
pub proof fn lemma_prints_plain(x: u32)
    requires 32 <= x < 127, x != 34, x != 92,
    ensures forall|c: char| c as u32 == x ==> #[trigger] prints(seq![c], x),
{
    assert forall|c: char| c as u32 == x implies #[trigger] prints(seq![c], x) by {
        lemma_no_quote(seq![c]);
        assert(codes(seq![c]) =~= seq![x]);
        assert forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(seq![c])) + rest)) == seq![x] + unescape(rest) by { lemma_unescape_lit(x, rest); }
    }
}
pub proof fn lemma_prints_quote()
    ensures prints(seq!['"', '"'], 34),
{
    let t = seq!['"', '"'];
    assert(t.skip(2) =~= Seq::<char>::empty());
    assert(undouble(t.skip(2)) =~= Seq::<char>::empty());
    assert(undouble(t) =~= seq!['"']);
    assert(codes(undouble(t)) =~= seq![34u32]);
    assert(doubled(t.skip(2)));
    assert(doubled(t));
    assert forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t)) + rest)) == seq![34u32] + unescape(rest) by { lemma_unescape_lit(34, rest); }
}
pub open spec fn braced(d: Seq<char>) -> Seq<char> { seq!['\\', 'u', '{'] + d + seq!['}'] }
/// `\u{d}`
pub proof fn lemma_prints_braced(d: Seq<char>, x: u32)
    requires
        1 <= d.len() <= 5, x <= MAX_CHAR, hex_value(codes(d)) == x,
        forall|i: int| 0 <= i < d.len() ==> hexc(#[trigger] d[i] as u32),
    ensures prints(braced(d), x),
{
    let t = braced(d);
    let n = t.len() as int;
    assert(n == d.len() + 4);
    assert forall|i: int| 3 <= i < n - 1 implies #[trigger] t[i] == d[i - 3] && hexc(t[i] as u32) by { assert(t[i] == d[i - 3]); }
    assert(t[0] == '\\' && t[1] == 'u' && t[2] == '{' && t[n - 1] == '}');
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] != '"' && 32 <= t[i] as u32 <= 126 by {}
    lemma_no_quote(t);
    assert forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t)) + rest)) == seq![x] + unescape(rest) by {
        let s = codes(t) + rest;
        assert(s[0] == 92 && s[1] == 117 && s[2] == 123);
        assert forall|i: int| 3 <= i < n - 1 implies hexc(#[trigger] s[i]) by { assert(s[i] == t[i] as u32); }
        assert(s[n - 1] == 125);
        assert(s.subrange(3, n - 1) =~= codes(d));
        assert(escb(s, n - 4));
        assert(esc(s, n, x as int));
        lemma_unescape_esc(s, n, x as int);
        assert(s.skip(n) =~= rest);
    }
}
pub open spec fn four(d: Seq<char>) -> Seq<char> { seq!['\\', 'u'] + d }
/// `\udddd`
pub proof fn lemma_prints_four(d: Seq<char>, x: u32)
    requires
        d.len() == 4, x <= MAX_CHAR, hex_value(codes(d)) == x,
        forall|i: int| 0 <= i < d.len() ==> hexc(#[trigger] d[i] as u32),
    ensures prints(four(d), x),
{
    let t = four(d);
    assert forall|i: int| 2 <= i < 6 implies #[trigger] t[i] == d[i - 2] && hexc(t[i] as u32) by { assert(t[i] == d[i - 2]); }
    assert(t[0] == '\\' && t[1] == 'u');
    assert forall|i: int| 0 <= i < 6 implies #[trigger] t[i] != '"' && 32 <= t[i] as u32 <= 126 by {}
    lemma_no_quote(t);
    assert forall|rest: Seq<u32>| unescape(#[trigger] (codes(undouble(t)) + rest)) == seq![x] + unescape(rest) by {
        let s = codes(t) + rest;
        assert(s[0] == 92 && s[1] == 117);
        assert forall|i: int| 2 <= i < 6 implies hexc(#[trigger] s[i]) by { assert(s[i] == t[i] as u32); }
        assert(s.subrange(2, 6) =~= codes(d));
        assert(esc4(s));
        assert(esc(s, 6, x as int));
        lemma_unescape_esc(s, 6, x as int);
        assert(s.skip(6) =~= rest);
    }
}
pub proof fn lemma_padded_prints(x: u32, n: nat)
    requires n <= 5, x <= MAX_CHAR,
    ensures prints(braced(padded(hex_str(x as nat), n)), x),
{
    reveal_with_fuel(pow16, 6);
    lemma_hex_str(x as nat, 5);
    lemma_padded(hex_str(x as nat), n);
    lemma_prints_braced(padded(hex_str(x as nat), n), x);
}
/// all the forms a character may be printed in
pub proof fn lemma_forms(x: u32)
    requires x <= MAX_CHAR,
    ensures
        x == 34 ==> prints(seq!['"', '"'], x),
        32 <= x < 127 && x != 34 && x != 92 ==> forall|c: char| c as u32 == x ==> #[trigger] prints(seq![c], x),
        prints(braced(padded(hex_str(x as nat), 0)), x),
        prints(braced(padded(hex_str(x as nat), 1)), x),
        prints(braced(padded(hex_str(x as nat), 2)), x),
        prints(braced(padded(hex_str(x as nat), 3)), x),
        prints(braced(padded(hex_str(x as nat), 4)), x),
        prints(braced(padded(hex_str(x as nat), 5)), x),
        x < 0x10000 ==> prints(four(padded(hex_str(x as nat), 4)), x),
{
    if x == 34 { lemma_prints_quote(); }
    if 32 <= x < 127 && x != 34 && x != 92 { lemma_prints_plain(x); }
    reveal_with_fuel(pow16, 6);
    lemma_hex_str(x as nat, 5);
    lemma_padded_prints(x, 0); lemma_padded_prints(x, 1); lemma_padded_prints(x, 2);
    lemma_padded_prints(x, 3); lemma_padded_prints(x, 4); lemma_padded_prints(x, 5);
    if x < 0x10000 {
        lemma_hex_str(x as nat, 4);
        lemma_padded(hex_str(x as nat), 4);
        lemma_prints_four(padded(hex_str(x as nat), 4), x);
    }
}

@fn smt_char props=C17,C08 ret=r
    ensures r == smt_code(x as u32),
@fn SmtString::make props=C17,C06,C08 ret=r
    ensures r.s@ == a@, a@.len() <= MAX_LENGTH,
@panics-when n > MAX_LENGTH
@fn SmtString::make_from_slice props=C17,C06 ret=r
    ensures r.s@ == a@, a@.len() <= MAX_LENGTH,
@replace `a.to_vec()` => `crate::prelude::vto_vec(a)`
@fn SmtString::is_good props=C17 ret=r
    ensures r == self.wf(),
@fn SmtString::len props=C06,C09,C17 ret=r
    ensures r == self.s@.len(),
@fn SmtString::is_empty props=C06,C09,C17 ret=r
    ensures r == (self.s@.len() == 0),
@fn SmtString::char props=C17 ret=r
    requires i < self.s@.len(),
    ensures r == self.s@[i as int], self.wf() ==> r <= MAX_CHAR,
@fn SmtString::iter props=C17 ret=r
    ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.s@.map_values(|d: u32| &d),
@fn SmtString as From<&str>::from props=C17 ret=r
    ensures r.s@ =~= smt_codes(codes(x@)), r.wf(),
@replace `x.chars().map(smt_char).collect()` => `outlined_from_chars(x)`
@fn SmtString as From<String>::from props=C17 ret=r
    ensures r.s@ =~= smt_codes(codes(x@)), r.wf(),
@fn SmtString as From<&[u32]>::from props=C17 ret=r
    ensures r.s@ =~= smt_codes(a@), r.wf(),
@replace `a.iter().map(|&x| if x <= MAX_CHAR { x } else { REPLACEMENT_CHAR }).collect(),` => `outlined_from_slice(a)`
@fn SmtString as From<&[u32;N]>::from props=C17 ret=r
    ensures r.s@ =~= smt_codes(a@), r.wf(),
@replace `a[..].into()` => `SmtString::from(&a[..])`
@fn SmtString as From<Vec<u32>>::from props=C17 ret=r
    ensures r.s@ =~= smt_codes(a@), r.wf(),
@at closure 0
    |x: &u32| -> (y: bool) ensures y == (*x <= MAX_CHAR)
@replace `a[..].into()` => `SmtString::from(&a[..])`
@fn SmtString as From<u32>::from props=C17,C09,C06 ret=r
    ensures r.s@ == seq![smt_code(x)], r.wf(),
@fn SmtString as From<char>::from props=C17 ret=r
    ensures r.s@ == seq![smt_code(x as u32)], r.wf(),
@fn good_char props=C17 ret=r
    ensures r == (x <= MAX_CHAR),
@fn good_string props=C17 ret=r
    ensures r == good_chars(a@),
@at closure 0
    |x: &u32| -> (y: bool) ensures y == (*x <= MAX_CHAR)
@fn char_is_digit props=C09 ret=r
    ensures r == digit(x),
@fn vector_lt props=C09 ret=r
    ensures r == lex_lt(v@, w@),
@loop 0
    invariant
        i <= max, max == v@.len() || max == w@.len(), max <= v@.len(), max <= w@.len(),
        forall|x: int| 0 <= x < i ==> v@[x] == #[trigger] w@[x],
    decreases max - i,
@at tail
    proof { lemma_lex(v@, w@, i as int); }
@fn vector_le props=C09 ret=r
    ensures r == lex_le(v@, w@),
@loop 0
    invariant
        i <= max, max == v@.len() || max == w@.len(), max <= v@.len(), max <= w@.len(),
        forall|x: int| 0 <= x < i ==> v@[x] == #[trigger] w@[x],
    decreases max - i,
@at tail
    proof { lemma_lex(v@, w@, i as int); }
@fn vector_prefix props=C06 ret=r
    ensures r == occurs(v@, w@, 0),
@loop 0
    invariant
        i <= n, n == v@.len(), n <= w@.len(),
        forall|x: int| 0 <= x < i ==> v@[x] == #[trigger] w@[x],
    decreases n - i,
@at loop 0 after
    proof {
        if i < n { assert(w@.subrange(0, n as int)[i as int] == w@[i as int]); }
        else { assert(w@.subrange(0, n as int) =~= v@); }
    }
@fn vector_suffix props=C06 ret=r
    ensures r == occurs(v@, w@, w@.len() - v@.len()),
@loop 0
    invariant
        i <= n, n == v@.len(), m == w@.len(), n <= m, k == m - n,
        forall|x: int| 0 <= x < i ==> v@[x] == #[trigger] w@[x + k],
    decreases n - i,
@at loop 0 after
    proof {
        if i < n { assert(w@.subrange(k as int, m as int)[i as int] == w@[i + k]); }
        else {
            assert(w@.subrange(k as int, m as int) =~= v@) by {
                assert forall|x: int| 0 <= x < n implies w@.subrange(k as int, m as int)[x] == v@[x] by { assert(w@[x + k] == v@[x]); }
            }
        }
    }
@fn vector_concat props=C06 ret=r
    ensures r@ == v@ + w@,
@at tail
    proof { assert(x@ =~= v@ + w@); }
@fn find_sub_vector props=C06 ret=r
    requires v@.len() + w@.len() < usize::MAX, v@.len() + i <= usize::MAX,
    ensures match r {
        SearchResult::Found(k, j) => least_occ(v@, w@, i as int, k as int) && j == k + v@.len(),
        SearchResult::NotFound => forall|k: int| i <= k ==> !#[trigger] occurs(v@, w@, k),
    },
@fn str_concat props=C06,C17 ret=r
    requires s1.wf(), s2.wf(),
    ensures r.s@ == s1.s@ + s2.s@, r.wf(),
@fn str_len props=C06 ret=r
    requires s.wf(),
    ensures r == s.s@.len(),
@fn str_at props=C06,C17 ret=r
    requires s.wf(),
    ensures r.s@ =~= smt_at(s.s@, i as int), r.wf(),
@fn str_substr props=C06,C17 ret=r
    requires s.wf(),
    ensures r.s@ =~= smt_substr(s.s@, i as int, n as int), r.wf(),
@fn str_lt props=C09 ret=r
    ensures r == lex_lt(s1.s@, s2.s@),
@fn str_le props=C09 ret=r
    ensures r == lex_le(s1.s@, s2.s@),
@fn str_prefixof props=C06 ret=r
    ensures r == occurs(s1.s@, s2.s@, 0),
@fn str_suffixof props=C06 ret=r
    ensures r == occurs(s1.s@, s2.s@, s2.s@.len() - s1.s@.len()),
@fn str_contains props=C06 ret=r
    requires s1.wf(), s2.wf(),
    ensures r == smt_contains(s1.s@, s2.s@),
@fn str_indexof props=C06 ret=r
    requires s1.wf(), s2.wf(),
    ensures smt_indexof(s1.s@, s2.s@, i as int, r as int),
@fn str_replace props=C06,C17 ret=r0
    requires s.wf(), p.wf(), r.wf(),
    ensures smt_replace(s.s@, p.s@, r.s@, r0.s@), r0.wf(),
@before `SmtString::make(x)`
    proof { assert(x@ =~= s@.subrange(0, i as int) + r@ + s@.subrange(j as int, s@.len() as int)); assert(occurs(p@, s@, i as int)); }
@fn str_replace_all props=C06,C17 ret=r0
    requires s.wf(), p.wf(), r.wf(),
    ensures r0.s@ == smt_replace_all(s.s@, p.s@, r.s@), r0.wf(),
@loop 0
    invariant
        i <= s@.len(), s@.len() <= MAX_LENGTH, 0 < p@.len() <= MAX_LENGTH,
        good_chars(s@), good_chars(p@), good_chars(r@), good_chars(x@),
        x@ + smt_replace_all(s@.subrange(i as int, s@.len() as int), p@, r@) == smt_replace_all(s@, p@, r@),
    ensures
        i <= s@.len(), forall|j: int| i <= j ==> !#[trigger] occurs(p@, s@, j),
        good_chars(x@), x@ + smt_replace_all(s@.subrange(i as int, s@.len() as int), p@, r@) == smt_replace_all(s@, p@, r@),
    decreases s@.len() - i,
@at loop 0 before
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); assert(x@ + smt_replace_all(s@, p@, r@) =~= smt_replace_all(s@, p@, r@)); }
@at loop 0 start
    let ghost x0 = x@; let ghost i0 = i as int;
    proof { lemma_replace_all_step(p@, s@, r@, i as int, j as int); }
@at loop 0 end
    proof {
        assert(x@ =~= x0 + s@.subrange(i0, j as int) + r@);
        let u = smt_replace_all(s@.subrange(k as int, s@.len() as int), p@, r@);
        assert(x0 + (s@.subrange(i0, j as int) + r@ + u) =~= x@ + u);
    }
@at loop 0 after
    proof { lemma_replace_all_done(p@, s@, r@, i as int); }
@fn str_is_digit props=C09 ret=r
    ensures r == (s.s@.len() == 1 && digit(s.s@[0])),
@fn str_to_code props=C09 ret=r
    requires s.wf(),
    ensures r == (if s.s@.len() == 1 { s.s@[0] as int } else { -1 }),
@fn str_from_code props=C09,C17 ret=r
    ensures r.s@ == (if 0 <= x <= MAX_CHAR { seq![x as u32] } else { Seq::empty() }), r.wf(),
@fn str_to_int props=C09 ret=r
    ensures r == smt_to_int(s.s@),
@panics-when all_digits(s.s@) && s.s@.len() > 0 && decimal(s.s@) > i32::MAX
@at closure 0
    |d: &u32| -> (y: bool) ensures y == digit(*d)
@at closure 1
    |y: i32| -> (z: Option<i32>) ensures z == (if i32::MIN <= y + digit <= i32::MAX { Some((y + digit) as i32) } else { None::<i32> })
@loop 0 iter=it
    invariant
        all_digits(s.s@), it.seq() == s.s@.map_values(|d: u32| &d), 0 <= x, x == decimal(s.s@.take(it.index())),
@at loop 0 start
    proof {
        assert(digit(s.s@[it.index() as int]));
        let t = s.s@.take(it.index() + 1);
        assert(t.drop_last() =~= s.s@.take(it.index() as int));
        lemma_decimal_mono(s.s@, it.index() + 1);
    }
@at loop 0 before
    proof { assert(s.s@.take(0) =~= Seq::<u32>::empty()); }
@at tail
    proof { assert(s.s@.take(s.s@.len() as int) =~= s.s@); }
@fn str_from_int props=C09,C17 ret=r
    ensures smt_from_int(x as int, r.s@), r.wf(),
@replace `x.to_string()` => `crate::prelude::VDisplay::vdisplay(&x)`
@at start
    proof { if x >= 0 { lemma_dec_str(x as nat); lemma_low_codes(dec_str(x as nat)); } }
@fn new_automaton props=C08,C17 ret=r
    ensures r.inv(), r.string_so_far@ == Seq::<u32>::empty(), r.held() == Seq::<u32>::empty(),
@at tail
    proof { assert([0u32; 9]@.take(0) =~= Seq::<u32>::empty()); }
@fn ParsingAutomaton::push props=C08,C17
    ensures
        *final(self) == (ParsingAutomaton { string_so_far: final(self).string_so_far, ..*old(self) }),
        final(self).string_so_far@ == old(self).string_so_far@.push(smt_code(x as u32)),
@fn ParsingAutomaton::pending props=C08,C17
    requires old(self).pending_idx < 9, x as u32 <= 127,
    ensures
        *final(self) == (ParsingAutomaton { pending: final(self).pending, pending_idx: final(self).pending_idx, ..*old(self) }),
        final(self).pending_idx == old(self).pending_idx + 1,
        final(self).held() == old(self).held().push(x as u32),
@at end
    proof { assert(self.held() =~= old(self).held().push(x as u32)); }
@fn ParsingAutomaton::consume props=C08,C17
    requires old(self).inv(), old(self).state is Init,
    ensures final(self).inv(),
        forall|rest: Seq<u32>| #[trigger] final(self).denotes(rest) == old(self).denotes(seq![x as u32] + rest),
@at end
    proof {
        assert forall|rest: Seq<u32>| #[trigger] self.denotes(rest) == old(self).denotes(seq![x as u32] + rest) by {
            assert(old(self).held() + (seq![x as u32] + rest) =~= seq![x as u32] + rest);
            if x as u32 == 92 {
                assert(self.held() =~= seq![x as u32]);
            } else {
                lemma_unescape_lit(x as u32, rest);
                assert(self.held() + rest =~= rest);
                assert(self.denotes(rest) =~= old(self).string_so_far@ + (seq![smt_code(x as u32)] + unescape(rest)));
            }
        }
    }
@fn ParsingAutomaton::flush_pending props=C08,C17
    requires old(self).inv(),
    ensures final(self).inv(), final(self).state is Init,
        final(self).string_so_far@ == old(self).string_so_far@ + old(self).held(),
        final(self).held() == Seq::<u32>::empty(),
        forall|rest: Seq<u32>| dead(old(self).held(), rest) ==> #[trigger] final(self).denotes(rest) == old(self).denotes(rest),
@at start
    proof { lemma_held(self.state, self.held(), self.escape_code as int); }
@at end
    proof {
        let p = old(self).held();
        assert(self.held() =~= Seq::<u32>::empty());
        assert forall|rest: Seq<u32>| dead(p, rest) implies #[trigger] self.denotes(rest) == old(self).denotes(rest) by {
            lemma_flush(p, rest);
            assert(self.held() + rest =~= rest);
            assert(self.denotes(rest) =~= old(self).string_so_far@ + (p + unescape(rest)));
        }
    }
@fn ParsingAutomaton::close_escape_seq props=C08,C17
    requires old(self).pending_idx <= 9, good_chars(old(self).string_so_far@), old(self).escape_code <= MAX_CHAR,
    ensures final(self).inv(), final(self).state is Init,
        final(self).string_so_far@ == old(self).string_so_far@.push(old(self).escape_code),
        final(self).held() == Seq::<u32>::empty(),
@at end
    proof { assert(self.held() =~= Seq::<u32>::empty()); }
@fn ParsingAutomaton::add_hex props=C08,C17
    requires old(self).pending_idx < 9, hexc(x as u32), old(self).escape_code < 0x10_0000,
    ensures
        *final(self) == (ParsingAutomaton { pending: final(self).pending, pending_idx: final(self).pending_idx, escape_code: final(self).escape_code, ..*old(self) }),
        final(self).pending_idx == old(self).pending_idx + 1,
        final(self).held() == old(self).held().push(x as u32),
        final(self).escape_code == 16 * old(self).escape_code + hex_val(x as u32 as int),
@at start
    proof { lemma_bits(self.escape_code, hex_val(x as u32 as int) as u32); }
@fn ParsingAutomaton::accept props=C08,C17
    requires old(self).inv(),
    ensures final(self).inv(),
        forall|rest: Seq<u32>| #[trigger] final(self).denotes(rest) == old(self).denotes(seq![x as u32] + rest),
@at start
    proof { lemma_accept(self.state, self.held(), self.escape_code as int, x as u32); }
@at end
    proof {
        assert forall|rest: Seq<u32>| #[trigger] self.denotes(rest) == old(self).denotes(seq![x as u32] + rest) by {
            assert(Seq::<u32>::empty() + rest =~= rest);
            let c = self.string_so_far@.last();
            assert(old(self).string_so_far@.push(c) + unescape(rest) =~= old(self).string_so_far@ + (seq![c] + unescape(rest)));
            assert((seq![x as u32] + rest).len() == rest.len() + 1);
        }
    }
@fn parse_smt_literal props=C08,C17 ret=r
    ensures r.s@ == unescape(codes(a@)), r.wf(),
@loop 0 iter=it
    invariant
        parser.inv(), it.seq() == a@,
        forall|rest: Seq<u32>| #[trigger] parser.denotes(rest) == unescape(codes(a@.take(it.index() as int)) + rest),
@at loop 0 start
    let ghost p0 = parser;
@at loop 0 end
    proof {
        let i = it.index() as int;
        assert forall|rest: Seq<u32>| #[trigger] parser.denotes(rest) == unescape(codes(a@.take(i + 1)) + rest) by {
            assert(p0.denotes(seq![x as u32] + rest) == unescape(codes(a@.take(i)) + (seq![x as u32] + rest)));
            assert(codes(a@.take(i)) + (seq![x as u32] + rest) =~= codes(a@.take(i + 1)) + rest);
        }
    }
@at loop 0 before
    proof {
        assert forall|rest: Seq<u32>| #[trigger] parser.denotes(rest) == unescape(codes(a@.take(0)) + rest) by {
            assert(parser.held() + rest =~= rest);
            assert(codes(a@.take(0)) + rest =~= rest);
            assert(parser.denotes(rest) =~= unescape(rest));
        }
    }
@at loop 0 after
    proof {
        let e = Seq::<u32>::empty();
        assert(parser.denotes(e) == unescape(codes(a@) + e)) by { assert(a@.take(a@.len() as int) =~= a@); }
        assert(codes(a@) + e =~= codes(a@));
        lemma_held(parser.state, parser.held(), parser.escape_code as int);
        assert(parser.held() + e =~= parser.held());
        assert(dead(parser.held(), e));
    }
@at tail
    proof {
        let e = Seq::<u32>::empty();
        assert(parser.held() + e =~= e);
        assert(parser.denotes(e) =~= parser.string_so_far@);
    }
@fn char_to_smt props=C08 ret=r
    ensures x <= MAX_CHAR ==> prints(r@, x),
@replace `char::from_u32(x).unwrap().to_string()` => `crate::prelude::VDisplay::vdisplay(&char::from_u32(x).unwrap())`
@replace `"\"\"".to_string()` => `crate::prelude::vlit("\"\"")`
@at start
    proof {
        if x <= MAX_CHAR { lemma_forms(x); }
        reveal_strlit("\"\""); reveal_strlit("\\u{"); reveal_strlit("}"); reveal_strlit("\\u"); reveal_strlit("\"");
        assert("\"\""@ =~= seq!['"', '"']);
        assert("\\u{"@ =~= seq!['\\', 'u', '{']);
        assert("}"@ =~= seq!['}']);
        assert("\\u"@ =~= seq!['\\', 'u']);
        assert("\""@ =~= seq!['"']);
    }
@fn smt_char_as_string props=C08 ret=r
    ensures x <= MAX_CHAR ==> prints(r@, x),
@replace `char::from_u32(x).unwrap().to_string()` => `crate::prelude::VDisplay::vdisplay(&char::from_u32(x).unwrap())`
@replace `"\"\"".to_string()` => `crate::prelude::vlit("\"\"")`
@at start
    proof {
        if x <= MAX_CHAR { lemma_forms(x); }
        reveal_strlit("\"\""); reveal_strlit("\\u{"); reveal_strlit("}"); reveal_strlit("\\u"); reveal_strlit("\"");
        assert("\"\""@ =~= seq!['"', '"']);
        assert("\\u{"@ =~= seq!['\\', 'u', '{']);
        assert("}"@ =~= seq!['}']);
        assert("\\u"@ =~= seq!['\\', 'u']);
        assert("\""@ =~= seq!['"']);
    }
@keep-impl SmtString as Display
@fn SmtString as Display::fmt props=C08 ret=r
    ensures r is Ok && good_chars(self.s@) ==> exists|body: Seq<char>| #[trigger] literal_body(body, self.s@)
        && written(final(f)) == written(old(f)) + (seq!['"'] + body + seq!['"']),
@at start
    let ghost w0 = written(f);
    let ghost mut body = Seq::<char>::empty();
    proof {
        reveal_strlit("\"\""); reveal_strlit("\\u{"); reveal_strlit("}"); reveal_strlit("\\u"); reveal_strlit("\"");
        assert("\"\""@ =~= seq!['"', '"']);
        assert("\\u{"@ =~= seq!['\\', 'u', '{']);
        assert("}"@ =~= seq!['}']);
        assert("\\u"@ =~= seq!['\\', 'u']);
        assert("\""@ =~= seq!['"']);
    }
@loop 0 iter=it
    invariant
        it.seq() == self.s@.map_values(|d: u32| &d),
        good_chars(self.s@) ==> literal_prefix(body, self.s@.take(it.index() as int)),
        written(f) == w0 + (seq!['"'] + body),
        "\"\""@ == seq!['"', '"'], "\\u{"@ == seq!['\\', 'u', '{'], "}"@ == seq!['}'], "\\u"@ == seq!['\\', 'u'], "\""@ == seq!['"'],
@at loop 0 before
    proof { assert(self.s@.take(0) =~= Seq::<u32>::empty()); lemma_body_empty(); }
@at loop 0 start
    let ghost w1 = written(f);
    proof { if x <= MAX_CHAR { lemma_forms(x); } }
@at loop 0 end
    proof {
        let piece = written(f).skip(w1.len() as int);
        assert forall|q: Seq<char>| written(f) == #[trigger] (w1 + q) implies piece == q by { assert((w1 + q).skip(w1.len() as int) =~= q); }
        assert(w1 + piece =~= written(f));
        if good_chars(self.s@) {
            assert(self.s@[it.index() as int] <= MAX_CHAR);
            assert(prints(piece, x));
            lemma_body_push(body, self.s@.take(it.index() as int), piece, x);
            assert(self.s@.take(it.index() as int).push(x) =~= self.s@.take(it.index() + 1));
        }
        assert(w0 + (seq!['"'] + (body + piece)) =~= w1 + piece);
        body = body + piece;
    }
@at loop 0 after
    proof {
        assert(self.s@.take(self.s@.len() as int) =~= self.s@);
        if good_chars(self.s@) { lemma_body_done(body, self.s@); }
        assert(w0 + (seq!['"'] + body) + seq!['"'] =~= w0 + (seq!['"'] + body + seq!['"']));
    }
@fn SmtString as AsRef<[u32]>::as_ref props=C10 ret=r
    ensures r@ == self.s@,
