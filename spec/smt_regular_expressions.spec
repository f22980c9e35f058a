@module smt_regular_expressions
@source-replace `thread_local!(static MANAGER : RefCell<ReManager> = RefCell::new(ReManager::new()));` => ``
@drop use std::cell::RefCell
@replace-all `MANAGER.with(|m| m.borrow_mut().` => `(thread_manager().`
@replace-all `MANAGER.with(|m| m.borrow().` => `(thread_manager().`
@uses
use crate::matcher::{re_match, first_match, no_match};
use crate::lang::*;
@items
/// The manager of the current thread: `MANAGER.with(|m| m.borrow_mut()..)`. Assumed:
/// its invariant holds whenever it is borrowed (every function that gets it keeps the
/// invariant), it owns the terms it made, and it only grows.
pub uninterp spec fn is_thread(m: ReManager) -> bool;
/// a term of the thread's manager
pub uninterp spec fn thread_term(e: RE) -> bool;
#[verifier::external_body]
pub fn thread_manager() -> (m: &'static mut ReManager)
    ensures m.inv(), is_thread(*m), forall|e: RE| #[trigger] thread_term(e) ==> m.owns(e),
{ unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn axiom_thread(m: ReManager, n: ReManager, e: RE)
    requires #[trigger] is_thread(m), m.le(n), n.inv(), #[trigger] n.owns(e),
    ensures thread_term(e),
{}
pub open spec fn thread_terms(s: Seq<RegLan>) -> bool { forall|i: int| 0 <= i < s.len() ==> thread_term(*(#[trigger] s[i])) }
pub proof fn lemma_codes(w: Seq<u32>)
    requires good_chars(w),
    ensures smt_codes(w) =~= w,
{}
/// value of (str.replace_re w l v)
pub open spec fn smt_replace_re(w: Seq<u32>, l: Lang, v: Seq<u32>) -> Seq<u32> {
    if no_match(l, w, 0, true) { w }
    else { let (i, j) = first_of(l, w, true); w.subrange(0, i) + v + w.subrange(j, w.len() as int) }
}
pub open spec fn first_of(l: Lang, w: Seq<u32>, empty: bool) -> (int, int) { choose|i: int, j: int| first_match(l, w, 0, empty, i, j) }
/// value of (str.replace_re_all w l v)
pub open spec fn smt_replace_re_all(w: Seq<u32>, l: Lang, v: Seq<u32>) -> Seq<u32>
    decreases w.len(),
{
    if no_match(l, w, 0, false) { w }
    else {
        let (i, j) = first_of(l, w, false);
        if first_match(l, w, 0, false, i, j) { w.subrange(0, i) + v + smt_replace_re_all(w.subrange(j, w.len() as int), l, v) } else { arbitrary() }
    }
}
/// if there is a match there is a first one: the definitions above are total
pub proof fn lemma_first_exists(l: Lang, w: Seq<u32>, empty: bool)
    requires !no_match(l, w, 0, empty),
    ensures ({ let (i, j) = first_of(l, w, empty); first_match(l, w, 0, empty, i, j) }),
{
    let (x, y) = choose|x: int, y: int| 0 <= x && #[trigger] re_match(l, w, empty, x, y);
    lemma_first_from(l, w, empty, x, y);
}
pub proof fn lemma_first_from(l: Lang, w: Seq<u32>, empty: bool, x: int, y: int)
    requires re_match(l, w, empty, x, y),
    ensures exists|i: int, j: int| first_match(l, w, 0, empty, i, j),
    decreases x, y,
{
    if !first_match(l, w, 0, empty, x, y) {
        if exists|a: int, b: int| 0 <= a < x && #[trigger] re_match(l, w, empty, a, b) {
            let (a, b) = choose|a: int, b: int| 0 <= a < x && #[trigger] re_match(l, w, empty, a, b);
            lemma_first_from(l, w, empty, a, b);
        } else {
            let b = choose|b: int| b < y && #[trigger] re_match(l, w, empty, x, b);
            lemma_first_from(l, w, empty, x, b);
        }
    }
}
pub proof fn lemma_first_found(l: Lang, w: Seq<u32>, empty: bool, i: int, j: int)
    requires first_match(l, w, 0, empty, i, j),
    ensures !no_match(l, w, 0, empty), first_of(l, w, empty) == (i, j),
{
    let (a, b) = first_of(l, w, empty);
    assert(first_match(l, w, 0, empty, a, b));
    assert(re_match(l, w, empty, a, b) && re_match(l, w, empty, i, j));
}
pub proof fn lemma_match_shift(l: Lang, w: Seq<u32>, empty: bool, k: int, i: int, j: int)
    requires 0 <= k <= w.len(), k <= i,
    ensures re_match(l, w, empty, i, j) == re_match(l, w.subrange(k, w.len() as int), empty, i - k, j - k),
{
    let u = w.subrange(k, w.len() as int);
    if i <= j <= w.len() { assert(u.subrange(i - k, j - k) =~= w.subrange(i, j)); }
}
pub proof fn lemma_re_all_step(l: Lang, w: Seq<u32>, v: Seq<u32>, k: int, i: int, j: int)
    requires 0 <= k <= w.len(), first_match(l, w, k, false, i, j),
    ensures
        k <= i < j <= w.len(),
        smt_replace_re_all(w.subrange(k, w.len() as int), l, v) == w.subrange(k, i) + v + smt_replace_re_all(w.subrange(j, w.len() as int), l, v),
{
    let u = w.subrange(k, w.len() as int);
    lemma_match_shift(l, w, false, k, i, j);
    assert forall|x: int, y: int| 0 <= x < i - k implies !#[trigger] re_match(l, u, false, x, y) by { lemma_match_shift(l, w, false, k, x + k, y + k); assert(!re_match(l, w, false, x + k, y + k)); }
    assert forall|y: int| y < j - k implies !#[trigger] re_match(l, u, false, i - k, y) by { lemma_match_shift(l, w, false, k, i, y + k); assert(!re_match(l, w, false, i, y + k)); }
    assert(first_match(l, u, 0, false, i - k, j - k));
    lemma_first_found(l, u, false, i - k, j - k);
    assert(u.subrange(0, i - k) =~= w.subrange(k, i));
    assert(u.subrange(j - k, u.len() as int) =~= w.subrange(j, w.len() as int));
}
pub proof fn lemma_re_all_done(l: Lang, w: Seq<u32>, v: Seq<u32>, k: int)
    requires 0 <= k <= w.len(), no_match(l, w, k, false),
    ensures smt_replace_re_all(w.subrange(k, w.len() as int), l, v) == w.subrange(k, w.len() as int),
{
    let u = w.subrange(k, w.len() as int);
    assert forall|x: int, y: int| 0 <= x implies !#[trigger] re_match(l, u, false, x, y) by { lemma_match_shift(l, w, false, k, x + k, y + k); assert(!re_match(l, w, false, x + k, y + k)); }
}
@fn str_to_re props=C01,C07 ret=r0
    requires s.wf(),
    ensures thread_term(*r0), den(*r0) == l_word(s.s@),
@at start
    broadcast use axiom_thread;
@fn re_none props=C01,C07 ret=r0
    ensures thread_term(*r0), den(*r0) == l_none(),
@at start
    broadcast use axiom_thread;
@fn re_all props=C01,C07 ret=r0
    ensures thread_term(*r0), den(*r0) == l_all(),
@at start
    broadcast use axiom_thread;
@fn re_allchar props=C01,C07 ret=r0
    ensures thread_term(*r0), den(*r0) == l_range(0, MAX_CHAR),
@at start
    broadcast use axiom_thread;
@fn re_concat props=C01,C07 ret=r0
    requires thread_term(*r1), thread_term(*r2),
    ensures thread_term(*r0), den(*r0) == l_cat(den(*r1), den(*r2)),
@at start
    broadcast use axiom_thread;
@fn re_concat_list props=C01,C07 ret=r0
    requires thread_terms(elements(a)),
    ensures thread_term(*r0), den(*r0) == catl(elements(a)),
@at start
    broadcast use axiom_thread;
@fn re_union props=C01,C07 ret=r0
    requires thread_term(*r1), thread_term(*r2),
    ensures thread_term(*r0), den(*r0) == l_or(den(*r1), den(*r2)),
@at start
    broadcast use axiom_thread;
@fn re_union_list props=C01,C07 ret=r0
    requires thread_terms(elements(a)),
    ensures thread_term(*r0), den(*r0) == uni(elements(a)),
@at start
    broadcast use axiom_thread;
@fn re_inter props=C01,C07 ret=r0
    requires thread_term(*r1), thread_term(*r2),
    ensures thread_term(*r0), den(*r0) == l_and(den(*r1), den(*r2)),
@at start
    broadcast use axiom_thread;
@fn re_inter_list props=C01,C07 ret=r0
    requires thread_terms(elements(a)),
    ensures thread_term(*r0), den(*r0) == crate::regular_expressions::int(elements(a)),
@at start
    broadcast use axiom_thread;
@fn re_star props=C01,C07 ret=r0
    requires thread_term(*r),
    ensures thread_term(*r0), den(*r0) == l_loop(den(*r), |n: nat| true),
@at start
    broadcast use axiom_thread;
@fn re_comp props=C01,C07 ret=r0
    requires thread_term(*r),
    ensures thread_term(*r0), den(*r0) == l_comp(den(*r)),
@at start
    broadcast use axiom_thread;
@fn re_diff props=C01,C07 ret=r0
    requires thread_term(*r1), thread_term(*r2),
    ensures thread_term(*r0), den(*r0) == l_and(den(*r1), l_comp(den(*r2))),
@at start
    broadcast use axiom_thread;
@fn re_diff_list props=C01,C07 ret=r0
    requires thread_term(*r), thread_terms(elements(a)),
    ensures thread_term(*r0), den(*r0) == l_diff(den(*r), elements(a)),
@at start
    broadcast use axiom_thread;
@fn re_plus props=C01,C07 ret=r0
    requires thread_term(*r),
    ensures thread_term(*r0), den(*r0) == l_loop(den(*r), |n: nat| n >= 1),
@at start
    broadcast use axiom_thread;
@fn re_opt props=C01,C07 ret=r0
    requires thread_term(*r),
    ensures thread_term(*r0), den(*r0) == l_or(l_eps(), den(*r)),
@at start
    broadcast use axiom_thread;
@fn re_range props=C01,C07 ret=r0
    requires s1.wf(), s2.wf(),
    ensures thread_term(*r0), den(*r0) == smt_range_lang(s1.s@, s2.s@),
@at start
    broadcast use axiom_thread;
@fn re_power props=C01,C07 ret=r0
    requires thread_term(*r),
    ensures thread_term(*r0), den(*r0) == l_pow(den(*r), k as nat),
@at start
    broadcast use axiom_thread;
@fn re_loop props=C01,C07 ret=r0
    requires thread_term(*r),
    ensures thread_term(*r0), den(*r0) == l_loop(den(*r), |n: nat| i <= n <= j),
@at start
    broadcast use axiom_thread;
@fn str_in_re props=C01 ret=b
    requires s.wf(), thread_term(*r),
    ensures b == den(*r)(s.s@),
@fn find_match props=C10 ret=r0
    requires thread_term(*r), good_chars(s@), k <= s@.len(),
    ensures match r0 {
        SearchResult::Found(i, j) => first_match(den(*r), s@, k as int, allow_empty, i as int, j as int),
        SearchResult::NotFound => no_match(den(*r), s@, k as int, allow_empty),
    },
@replace `MANAGER.with(|m| naive_re_search(&mut m.borrow_mut(),` => `(naive_re_search(thread_manager(),`
@fn str_replace_re props=C10,C17 ret=r0
    requires s1.wf(), s2.wf(), thread_term(*r),
    ensures r0.s@ == smt_replace_re(s1.s@, den(*r), s2.s@), r0.wf(),
@replace `s1.into()` => `SmtString::from(s1)`
@replace `x.into()` => `SmtString::from(x)`
@before `x.into()`
    proof {
        lemma_codes(x@);
        assert(x@ =~= s1@.subrange(0, i as int) + s2.s@ + s1@.subrange(j as int, s1@.len() as int));
        lemma_first_found(den(*r), s1@, true, i as int, j as int);
    }
@at start
    proof { lemma_codes(s1.s@); }
@fn str_replace_re_all props=C10,C17 ret=r0
    requires s1.wf(), s2.wf(), thread_term(*r),
    ensures r0.s@ == smt_replace_re_all(s1.s@, den(*r), s2.s@), r0.wf(),
@replace `x.into()` => `SmtString::from(x)`
@loop 0
    invariant
        i <= s1@.len(), good_chars(s1@), good_chars(s2@), good_chars(x@), thread_term(*r),
        x@ + smt_replace_re_all(s1@.subrange(i as int, s1@.len() as int), den(*r), s2@) == smt_replace_re_all(s1@, den(*r), s2@),
    ensures
        i <= s1@.len(), no_match(den(*r), s1@, i as int, false),
        good_chars(x@), x@ + smt_replace_re_all(s1@.subrange(i as int, s1@.len() as int), den(*r), s2@) == smt_replace_re_all(s1@, den(*r), s2@),
    decreases s1@.len() - i,
@at loop 0 before
    proof { assert(s1@.subrange(0, s1@.len() as int) =~= s1@); assert(x@ + smt_replace_re_all(s1@, den(*r), s2@) =~= smt_replace_re_all(s1@, den(*r), s2@)); }
@at loop 0 start
    let ghost x0 = x@; let ghost i0 = i as int;
    proof { lemma_re_all_step(den(*r), s1@, s2@, i as int, j as int, k as int); }
@at loop 0 end
    proof {
        assert(x@ =~= x0 + s1@.subrange(i0, j as int) + s2@);
        let u = smt_replace_re_all(s1@.subrange(k as int, s1@.len() as int), den(*r), s2@);
        assert(x0 + (s1@.subrange(i0, j as int) + s2@ + u) =~= x@ + u);
    }
@at loop 0 after
    proof { lemma_re_all_done(den(*r), s1@, s2@, i as int); }
@before `x.into()`
    proof { lemma_codes(x@); }
