@module matcher
@uses
use crate::lang::*;
use crate::smt_strings::good_chars;
use crate::regular_expressions::*;
@items
/// pattern p occurs in s at position i
pub open spec fn occurs(p: Seq<u32>, s: Seq<u32>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
/// i is the least occurrence of p in s at or after k
pub open spec fn least_occ(p: Seq<u32>, s: Seq<u32>, k: int, i: int) -> bool {
    k <= i && occurs(p, s, i) && forall|j: int| k <= j < i ==> !#[trigger] occurs(p, s, j)
}
/// s[i..j) is in l; only non-empty matches if !empty
pub open spec fn re_match(l: Lang, s: Seq<u32>, empty: bool, i: int, j: int) -> bool {
    0 <= i <= j <= s.len() && l(s.subrange(i, j)) && (empty || i < j)
}
/// the leftmost, then shortest match at or after k
pub open spec fn first_match(l: Lang, s: Seq<u32>, k: int, empty: bool, i: int, j: int) -> bool {
    &&& k <= i && re_match(l, s, empty, i, j)
    &&& forall|x: int, y: int| k <= x < i ==> !#[trigger] re_match(l, s, empty, x, y)
    &&& forall|y: int| y < j ==> !#[trigger] re_match(l, s, empty, i, y)
}
pub open spec fn no_match(l: Lang, s: Seq<u32>, k: int, empty: bool) -> bool {
    forall|x: int, y: int| k <= x ==> !#[trigger] re_match(l, s, empty, x, y)
}
@fn naive_search props=C06,C10 ret=r
    requires pattern@.len() + string@.len() < usize::MAX, pattern@.len() + k <= usize::MAX,
    ensures match r {
        SearchResult::Found(i, j) => least_occ(pattern@, string@, k as int, i as int) && j == i + pattern@.len(),
        SearchResult::NotFound => forall|i: int| k <= i ==> !#[trigger] occurs(pattern@, string@, i),
    },
@loop 0
    invariant
        p_len == pattern@.len(), s_len == string@.len(), k <= i,
        i <= k || i + p_len <= s_len + 1,
        p_len + s_len < usize::MAX, p_len + k <= usize::MAX,
        forall|j: int| k <= j < i ==> !#[trigger] occurs(pattern@, string@, j),
    decreases s_len + k - i + 1,
@loop 1
    invariant
        p_len == pattern@.len(), s_len == string@.len(), i + p_len <= s_len, j <= p_len,
        forall|x: int| 0 <= x < j ==> pattern@[x] == #[trigger] string@[i + x],
    decreases p_len - j,
@at loop 1 after
    proof {
        if j == p_len {
            assert(string@.subrange(i as int, i + p_len) =~= pattern@) by {
                assert forall|x: int| 0 <= x < p_len implies string@.subrange(i as int, i + p_len)[x] == pattern@[x] by {
                    assert(string@[i + x] == pattern@[x]);
                }
            }
        } else {
            assert(string@.subrange(i as int, i + p_len)[j as int] == string@[i + j]);
        }
    }
@at end
    proof {
        assert forall|x: int| k <= x implies !#[trigger] occurs(pattern@, string@, x) by {}
    }
@fn naive_re_search props=C10 ret=r
    requires old(manager).inv(), old(manager).owns(*pattern), good_chars(string@), k <= string@.len(),
    ensures final(manager).inv(), old(manager).le(*final(manager)),
        match r {
            SearchResult::Found(i, j) => first_match(den(*pattern), string@, k as int, allow_empty, i as int, j as int),
            SearchResult::NotFound => no_match(den(*pattern), string@, k as int, allow_empty),
        },
@at start
    let ghost m0 = *manager; let ghost l = den(*pattern);
    proof { manager.lemma_owned(*pattern); assert(string@.subrange(k as int, k as int) =~= eps()); }
@loop 0
    invariant
        m0 == *old(manager), m0.inv(), m0.le(*manager), m0.owns(*pattern), manager.inv(), good_chars(string@), s_len == string@.len(), k <= i <= s_len,
        l == den(*pattern), allow_empty ==> !l(eps()),
        forall|x: int, y: int| k <= x < i ==> !#[trigger] re_match(l, string@, allow_empty, x, y),
    decreases s_len - i,
@loop 1
    invariant_except_break
        den(*p) == l_wquot(l, string@.subrange(i as int, j as int)),
        forall|y: int| y <= j ==> !#[trigger] re_match(l, string@, allow_empty, i as int, y),
    invariant
        m0 == *old(manager), m0.inv(), m0.le(*manager), m0.owns(*pattern), manager.inv(), good_chars(string@), s_len == string@.len(), k <= i < s_len, i <= j <= s_len,
        l == den(*pattern), allow_empty ==> !l(eps()),
        forall|x: int, y: int| k <= x < i ==> !#[trigger] re_match(l, string@, allow_empty, x, y),
        manager.owns(*p),
    ensures
        forall|y: int| !#[trigger] re_match(l, string@, allow_empty, i as int, y),
    decreases s_len - j,
@at loop 1 before
    proof {
        assert(string@.subrange(i as int, i as int) =~= eps()); lemma_wquot_eps(l);
    }
@after `p = manager.char_derivative(p, string[j]);`
    proof {
        let u = string@.subrange(i as int, j as int);
        lemma_wquot_step(l, u, string@[j as int]);
        assert(string@.subrange(i as int, j + 1) =~= u.push(string@[j as int]));
        manager.lemma_owned(*p);
        assert(string@.subrange(i as int, j + 1) + eps() =~= string@.subrange(i as int, j + 1));
        if p.expr is Empty {
            assert forall|y: int| !#[trigger] re_match(l, string@, allow_empty, i as int, y) by {
                if re_match(l, string@, allow_empty, i as int, y) {
                    assert(y > j);
                    let v = string@.subrange(j + 1, y);
                    assert(string@.subrange(i as int, j + 1) + v =~= string@.subrange(i as int, y));
                    assert(den(*p)(v));
                    assert(!l_none()(v));
                }
            }
        }
    }
@at end
    proof {
        assert(string@.subrange(s_len as int, s_len as int) =~= eps());
        assert forall|x: int, y: int| k <= x implies !#[trigger] re_match(l, string@, allow_empty, x, y) by {
            if x >= s_len && re_match(l, string@, allow_empty, x, y) { assert(string@.subrange(x, y) =~= eps()); }
        }
    }
