//! C20 (CharSet), C11 / C12 (CharPartition), C15 (LoopRange)
use crate::gen::*;
use crate::rng::Rng;
use crate::{catching, ck, Ctx, R};
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::loop_ranges::*;
use std::cmp::Ordering;

fn gen_iv(r: &mut Rng) -> (u32, u32) {
    let a = gen_char(r);
    let b = match r.below(4) {
        0 => a,
        1 => (a + r.inr(0, 4) as u32).min(MAXC),
        _ => gen_char(r),
    };
    (a.min(b), a.max(b))
}

// second interval related to the first: overlapping, adjacent, nested, equal, ...
fn gen_rel(r: &mut Rng, x: (u32, u32)) -> (u32, u32) {
    let j = |r: &mut Rng, c: u32| -> u32 {
        let d = r.below(5) as i64 - 2;
        (c as i64 + d).clamp(0, MAXC as i64) as u32
    };
    let (a, b) = match r.below(6) {
        0 => (j(r, x.0), j(r, x.1)),
        1 => (j(r, x.1), gen_char(r)),
        2 => (gen_char(r), j(r, x.0)),
        3 => (j(r, x.0), j(r, x.0)),
        4 => (j(r, x.1), j(r, x.1)),
        _ => gen_iv(r),
    };
    (a.min(b), a.max(b))
}

pub fn c20(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let a = gen_iv(r);
    let b = gen_rel(r, a);
    let l = r.below(5);
    let mut lst = vec![];
    for _ in 0..l {
        let x = if r.flip(1, 2) { gen_rel(r, a) } else { gen_rel(r, b) };
        lst.push(x);
    }
    ctx.key(&(a, b, lst.clone()));
    ctx.nontrivial = true;
    ctx.note(|| format!("a={a:x?} b={b:x?} list={lst:x?}"));
    let ca = if a.0 == a.1 && ctx.rng.flip(1, 2) { CharSet::singleton(a.0) } else { CharSet::range(a.0, a.1) };
    let cb = CharSet::range(b.0, b.1);
    let pr = probes(&[a, b]);
    for &c in pr.iter() {
        ck!(ctx, ca.contains(c) == (a.0 <= c && c <= a.1), "contains({c:x}) on {a:x?}");
        ck!(ctx, ca.is_before(c) == (a.1 < c), "is_before({c:x}) on {a:x?}");
        ck!(ctx, ca.is_after(c) == (c < a.0), "is_after({c:x}) on {a:x?}");
    }
    ck!(ctx, ca.covers(&cb) == (a.0 <= b.0 && b.1 <= a.1), "covers {a:x?} {b:x?}");
    ck!(ctx, ca.size() as u64 == (a.1 as u64 - a.0 as u64 + 1), "size of {a:x?} = {}", ca.size());
    ck!(ctx, ca.is_singleton() == (a.0 == a.1), "is_singleton {a:x?}");
    ck!(ctx, ca.is_alphabet() == (a == (0, MAXC)), "is_alphabet {a:x?}");
    let p = ca.pick();
    ck!(ctx, a.0 <= p && p <= a.1, "pick of {a:x?} gives {p:x}");
    let all = CharSet::all_chars();
    ck!(ctx, all.is_alphabet() && all == CharSet::range(0, MAXC), "all_chars");
    let same = |s: &CharSet, x: (u32, u32)| *s == CharSet::range(x.0, x.1);
    let inter = |x: (u32, u32), y: (u32, u32)| {
        let (l, h) = (x.0.max(y.0), x.1.min(y.1));
        if l <= h {
            Some((l, h))
        } else {
            None
        }
    };
    match (ca.inter(&cb), inter(a, b)) {
        (None, None) => {}
        (Some(s), Some(x)) if same(&s, x) => {}
        (g, w) => return Err(format!("inter {a:x?} {b:x?}: got {g:?}, want {w:x?}")),
    }
    ctx.checks += 1;
    let un = if a.0 as i64 <= b.1 as i64 + 1 && b.0 as i64 <= a.1 as i64 + 1 {
        Some((a.0.min(b.0), a.1.max(b.1)))
    } else {
        None
    };
    match (ca.union(&cb), un) {
        (None, None) => {}
        (Some(s), Some(x)) if same(&s, x) => {}
        (g, w) => return Err(format!("union {a:x?} {b:x?}: got {g:?}, want {w:x?}")),
    }
    let cl: Vec<CharSet> = lst.iter().map(|x| CharSet::range(x.0, x.1)).collect();
    let mut acc = Some((0, MAXC));
    for &x in &lst {
        acc = acc.and_then(|y| inter(y, x));
    }
    match (CharSet::inter_list(&cl), acc) {
        (None, None) => {}
        (Some(s), Some(x)) if same(&s, x) => {}
        (g, w) => return Err(format!("inter_list {lst:x?}: got {g:?}, want {w:x?}")),
    }
    let want = if a == b {
        Some(Ordering::Equal)
    } else if a.1 < b.0 {
        Some(Ordering::Less)
    } else if b.1 < a.0 {
        Some(Ordering::Greater)
    } else {
        None
    };
    let got = ca.partial_cmp(&cb);
    ck!(ctx, got == want, "partial_cmp {a:x?} {b:x?}: got {got:?}, want {want:?}");
    ck!(ctx, (ca == cb) == (a == b), "eq {a:x?} {b:x?}");
    Ok(())
}

fn part_of(iv: &[(u32, u32)]) -> CharPartition {
    let mut p = CharPartition::new();
    for &(a, b) in iv {
        p.push(a, b);
    }
    p
}

fn class_in(iv: &[(u32, u32)], c: u32) -> ClassId {
    match iv.iter().position(|&(a, b)| a <= c && c <= b) {
        Some(i) => ClassId::Interval(i),
        None => ClassId::Complement,
    }
}

fn covered_all(iv: &[(u32, u32)]) -> bool {
    iv.iter().map(|&(a, b)| b as u64 - a as u64 + 1).sum::<u64>() == MAXC as u64 + 1
}

// structure of a partition against the intervals it must have
fn check_partition(ctx: &mut Ctx, p: &CharPartition, iv: &[(u32, u32)], what: &str) -> R {
    let n = iv.len();
    ck!(ctx, p.len() == n, "{what}: len {} want {n}", p.len());
    ck!(ctx, p.is_empty() == (n == 0), "{what}: is_empty");
    for i in 0..n {
        ck!(ctx, p.get(i) == iv[i], "{what}: get({i}) = {:x?}, want {:x?}", p.get(i), iv[i]);
        ck!(ctx, p.interval(i) == CharSet::range(iv[i].0, iv[i].1), "{what}: interval({i})");
        ck!(ctx, p.start(i) == iv[i].0 && p.end(i) == iv[i].1, "{what}: start/end({i})");
        let c = p.pick(i);
        ck!(ctx, iv[i].0 <= c && c <= iv[i].1, "{what}: pick({i}) = {c:x}");
        let c = p.pick_in_class(ClassId::Interval(i));
        ck!(ctx, iv[i].0 <= c && c <= iv[i].1, "{what}: pick_in_class({i}) = {c:x}");
    }
    let rs: Vec<CharSet> = p.ranges().copied().collect();
    let want: Vec<CharSet> = iv.iter().map(|x| CharSet::range(x.0, x.1)).collect();
    ck!(ctx, rs == want, "{what}: ranges");
    let full = covered_all(iv);
    ck!(ctx, p.empty_complement() == full, "{what}: empty_complement = {}", p.empty_complement());
    let mut ids: Vec<ClassId> = (0..n).map(ClassId::Interval).collect();
    if !full {
        let c = p.pick_complement();
        ck!(ctx, c <= MAXC && class_in(iv, c) == ClassId::Complement, "{what}: pick_complement = {c:x} is not in the complement of {iv:x?}");
        let c = p.pick_in_class(ClassId::Complement);
        ck!(ctx, c <= MAXC && class_in(iv, c) == ClassId::Complement, "{what}: pick_in_class(Complement) = {c:x}");
        ids.push(ClassId::Complement);
    }
    ck!(ctx, p.num_classes() == ids.len(), "{what}: num_classes = {} want {}", p.num_classes(), ids.len());
    ck!(ctx, p.valid_class_id(ClassId::Complement) == !full, "{what}: valid_class_id(Complement)");
    for j in [0, 1, n.wrapping_sub(1), n, n + 1, usize::MAX] {
        ck!(ctx, p.valid_class_id(ClassId::Interval(j)) == (j < n), "{what}: valid_class_id({j})");
    }
    let got: Vec<ClassId> = p.class_ids().take(n + 5).collect();
    ck!(ctx, got == ids, "{what}: class_ids = {got:?} want {ids:?}");
    let picks: Vec<u32> = p.picks().take(n + 5).collect();
    ck!(ctx, picks.len() == ids.len(), "{what}: picks has {} elements, want {}", picks.len(), ids.len());
    for (c, id) in picks.iter().zip(ids.iter()) {
        ck!(ctx, *c <= MAXC && class_in(iv, *c) == *id, "{what}: pick {c:x} is not in class {id:?} of {iv:x?}");
    }
    for c in probes(iv) {
        let g = p.class_of_char(c);
        ck!(ctx, g == class_in(iv, c), "{what}: class_of_char({c:x}) = {g:?}, want {:?} (intervals {iv:x?})", class_in(iv, c));
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx) -> R {
    let big = ctx.rng.flip(1, 50);
    let maxn = if big { 60 } else { 1 + ctx.rng.below(8) };
    let iv = gen_intervals(&mut ctx.rng, maxn);
    ctx.key(&iv);
    ctx.nontrivial = !iv.is_empty();
    ctx.note(|| format!("intervals {iv:x?}"));
    let p = part_of(&iv);
    check_partition(ctx, &p, &iv, "push")?;
    // other ways to build
    let mut sets: Vec<CharSet> = iv.iter().map(|x| CharSet::range(x.0, x.1)).collect();
    for round in 0..3 {
        if round > 0 {
            ctx.rng.shuffle(&mut sets);
        }
        let p1 = CharPartition::try_from_iter(sets.iter().copied());
        ck!(ctx, p1.is_ok(), "try_from_iter rejects disjoint {sets:?}");
        let p1 = p1.unwrap();
        ck!(ctx, p1 == p, "try_from_iter depends on the order: {sets:?}");
        check_partition(ctx, &p1, &iv, "try_from_iter")?;
        let p2 = CharPartition::try_from_list(&sets);
        ck!(ctx, p2.is_ok() && p2.unwrap() == p, "try_from_list differs: {sets:?}");
    }
    if iv.len() == 1 {
        let p1 = CharPartition::from_set(&CharSet::range(iv[0].0, iv[0].1));
        check_partition(ctx, &p1, &iv, "from_set")?;
        ck!(ctx, p1 == p, "from_set differs from push");
    }
    // possibly overlapping input
    let m = ctx.rng.below(6);
    let mut any: Vec<(u32, u32)> = (0..m).map(|_| {
        if iv.is_empty() || ctx.rng.flip(1, 3) { gen_iv(&mut ctx.rng) } else { let k = ctx.rng.below(iv.len()); gen_rel(&mut ctx.rng, iv[k]) }
    }).collect();
    if m > 0 && ctx.rng.flip(1, 8) {
        let d = any[0];
        any.push(d);
    }
    let mut disjoint = true;
    for i in 0..any.len() {
        for j in 0..i {
            if any[i].0 <= any[j].1 && any[j].0 <= any[i].1 {
                disjoint = false;
            }
        }
    }
    let cs: Vec<CharSet> = any.iter().map(|x| CharSet::range(x.0, x.1)).collect();
    let a = CharPartition::try_from_iter(cs.iter().copied());
    ck!(ctx, a.is_ok() == disjoint, "try_from_iter on {any:x?}: ok={}, pairwise disjoint={disjoint}", a.is_ok());
    let b = CharPartition::try_from_list(&cs);
    ck!(ctx, a == b, "try_from_list and try_from_iter differ on {any:x?}");
    match a {
        Err(e) => {
            ck!(ctx, e == Error::NonDisjointCharSets, "error {e:?}");
        }
        Ok(p1) => {
            let mut s = any.clone();
            s.sort();
            check_partition(ctx, &p1, &s, "try_from_iter")?;
        }
    }
    // query sets
    let pr = probes(&iv);
    let nq = if pr.len() <= 20 { pr.len() * pr.len() } else { 200 };
    for q in 0..nq {
        let (mut x, mut y) = if pr.len() <= 20 {
            (pr[q / pr.len()], pr[q % pr.len()])
        } else {
            (*ctx.rng.pick(&pr), *ctx.rng.pick(&pr))
        };
        if x > y {
            if pr.len() <= 20 {
                continue;
            }
            std::mem::swap(&mut x, &mut y);
        }
        let s = CharSet::range(x, y);
        let inside = iv.iter().position(|&(a, b)| a <= x && y <= b);
        let meets = iv.iter().any(|&(a, b)| a <= y && x <= b);
        let (cv, cl, good) = match (inside, meets) {
            (Some(i), _) => (CoverResult::CoveredBy(i), Ok(ClassId::Interval(i)), true),
            (None, false) => (CoverResult::DisjointFromAll, Ok(ClassId::Complement), true),
            _ => (CoverResult::Overlaps, Err(Error::AmbiguousCharSet), false),
        };
        let g = p.interval_cover(&s);
        ck!(ctx, g == cv, "interval_cover([{x:x},{y:x}]) on {iv:x?}: got {g:?}, want {cv:?}");
        let g = p.class_of_set(&s);
        ck!(ctx, g == cl, "class_of_set([{x:x},{y:x}]) on {iv:x?}: got {g:?}, want {cl:?}");
        let g = p.good_char_set(&s);
        ck!(ctx, g == good, "good_char_set([{x:x},{y:x}]) on {iv:x?}: got {g:?}");
    }
    Ok(())
}

// maximal runs of equal pair of classes, dropping (complement, complement)
fn merge_spec(l: &[Vec<(u32, u32)>]) -> Vec<(u32, u32)> {
    let mut cuts = vec![0u32, MAXC + 1];
    for p in l {
        for &(a, b) in p {
            cuts.push(a);
            cuts.push(b + 1);
        }
    }
    cuts.sort();
    cuts.dedup();
    let mut out: Vec<(u32, u32)> = vec![];
    let mut prev: Option<Vec<ClassId>> = None;
    for k in 0..cuts.len() - 1 {
        let (a, b) = (cuts[k], cuts[k + 1] - 1);
        let sig: Vec<ClassId> = l.iter().map(|p| class_in(p, a)).collect();
        if sig.iter().all(|c| *c == ClassId::Complement) {
            prev = None;
            continue;
        }
        if prev.as_ref() == Some(&sig) {
            out.last_mut().unwrap().1 = b;
        } else {
            out.push((a, b));
        }
        prev = Some(sig);
    }
    out
}

pub fn c12(ctx: &mut Ctx) -> R {
    let mx = if ctx.rng.flip(1, 40) { 30 } else { 6 };
    let n = 2 + ctx.rng.below(3);
    let mut l: Vec<Vec<(u32, u32)>> = vec![];
    for k in 0..n {
        let v = if k > 0 && ctx.rng.flip(1, 2) {
            // perturb a previous one: nested, shifted, adjacent
            let base = l[ctx.rng.below(k)].clone();
            let mut out: Vec<(u32, u32)> = vec![];
            for x in base {
                let y = gen_rel(&mut ctx.rng, x);
                let lo = out.last().map_or(y.0, |z: &(u32, u32)| y.0.max(z.1.saturating_add(1)));
                if lo <= y.1 && lo <= MAXC {
                    out.push((lo, y.1));
                }
            }
            out
        } else {
            gen_intervals(&mut ctx.rng, mx)
        };
        l.push(v);
    }
    ctx.key(&l);
    ctx.nontrivial = l.iter().filter(|p| !p.is_empty()).count() >= 2;
    ctx.note(|| format!("partitions {l:x?}"));
    let ps: Vec<CharPartition> = l.iter().map(|v| part_of(v)).collect();
    for i in 0..n {
        for j in 0..n {
            let m = merge_partitions(&ps[i], &ps[j]);
            let w = merge_spec(&[l[i].clone(), l[j].clone()]);
            check_partition(ctx, &m, &w, &format!("merge({i},{j})"))?;
        }
    }
    let e = CharPartition::new();
    ck!(ctx, merge_partitions(&ps[0], &e) == ps[0], "merge with the empty partition (right)");
    ck!(ctx, merge_partitions(&e, &ps[0]) == ps[0], "merge with the empty partition (left)");
    let w = merge_spec(&l);
    let mut idx: Vec<usize> = (0..n).collect();
    for _ in 0..3 {
        let m = merge_partition_list(idx.iter().map(|&i| &ps[i]));
        check_partition(ctx, &m, &w, &format!("merge_partition_list order {idx:?}"))?;
        ctx.rng.shuffle(&mut idx);
    }
    let m = merge_partition_list([].iter());
    ck!(ctx, m == e, "merge_partition_list of nothing");
    Ok(())
}

type Rg = (u64, Option<u64>);

fn gen_num(r: &mut Rng) -> u32 {
    match r.below(16) {
        0 => r.inr(0, 40) as u32,
        1 => (1u64 << r.inr(0, 31)) as u32,
        2 => u32::MAX - r.inr(0, 2) as u32,
        3 => 65535 + r.inr(0, 2) as u32,
        4 => 46340 + r.inr(0, 2) as u32,
        _ => r.inr(0, 6) as u32,
    }
}

fn gen_range(r: &mut Rng) -> (u32, Option<u32>) {
    let a = gen_num(r);
    match r.below(4) {
        0 => (a, None),
        1 => (a, Some(a)),
        _ => {
            let b = gen_num(r);
            (a.min(b), Some(a.max(b)))
        }
    }
}

fn mk(r: (u32, Option<u32>)) -> LoopRange {
    match r {
        (a, Some(b)) => LoopRange::finite(a, b),
        (a, None) => LoopRange::infinite(a),
    }
}

fn to_r(x: Rg) -> Option<LoopRange> {
    let a = u32::try_from(x.0).ok()?;
    match x.1 {
        None => Some(LoopRange::infinite(a)),
        Some(b) => Some(LoopRange::finite(a, u32::try_from(b).ok()?)),
    }
}

// got = outcome of a range operation; want = exact mathematical result
fn check_op(ctx: &mut Ctx, what: String, got: Result<LoopRange, String>, want: Rg) -> R {
    ctx.checks += 1;
    match (got, to_r(want)) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Ok(g), w) => Err(format!("{what} = {g:?}, want {w:?} ({want:?})")),
        // documented: arithmetic overflow panics
        (Err(e), None) if e.contains("verflow") => Ok(()),
        (Err(e), w) => Err(format!("{what} panics ({e}), want {w:?}")),
    }
}

pub fn c15(ctx: &mut Ctx) -> R {
    let a = gen_range(&mut ctx.rng);
    let b = gen_range(&mut ctx.rng);
    let k = gen_num(&mut ctx.rng);
    ctx.key(&(a, b, k));
    ctx.nontrivial = true;
    ctx.note(|| format!("a={a:?} b={b:?} k={k}"));
    let (ra, rb) = (mk(a), mk(b));
    let u = |x: u32| x as u64;
    let a64: Rg = (u(a.0), a.1.map(u));
    let b64: Rg = (u(b.0), b.1.map(u));
    let member = |x: &Rg, i: u64| x.0 <= i && x.1.map_or(true, |j| i <= j);
    // membership, inclusion, shapes
    let mut pts = vec![0u32, 1, 2, u32::MAX];
    for v in [Some(a.0), a.1, Some(b.0), b.1].into_iter().flatten() {
        pts.push(v);
        pts.push(v.saturating_add(1));
        pts.push(v.saturating_sub(1));
    }
    for &i in &pts {
        ck!(ctx, ra.contains(i) == member(&a64, u(i)), "contains({i}) on {a:?}");
    }
    let incl = a64.0 <= b64.0
        && match (a64.1, b64.1) {
            (None, _) => true,
            (Some(_), None) => false,
            (Some(x), Some(y)) => y <= x,
        };
    ck!(ctx, ra.includes(&rb) == incl, "{a:?} includes {b:?}: got {}", ra.includes(&rb));
    ck!(ctx, ra.is_finite() == a.1.is_some() && ra.is_infinite() == a.1.is_none(), "is_finite {a:?}");
    ck!(ctx, ra.is_point() == (a.1 == Some(a.0)), "is_point {a:?}");
    ck!(ctx, ra.is_zero() == (a == (0, Some(0))), "is_zero {a:?}");
    ck!(ctx, ra.is_one() == (a == (1, Some(1))), "is_one {a:?}");
    ck!(ctx, ra.is_all() == (a == (0, None)), "is_all {a:?}");
    ck!(ctx, ra.start() == a.0, "start {a:?}");
    ck!(ctx, LoopRange::opt() == mk((0, Some(1))) && LoopRange::star() == mk((0, None)) && LoopRange::plus() == mk((1, None)), "constants");
    ck!(ctx, LoopRange::point(k) == mk((k, Some(k))), "point");
    // add
    let add = (a64.0 + b64.0, a64.1.and_then(|x| b64.1.map(|y| x + y)));
    check_op(ctx, format!("{a:?}.add({b:?})"), catching(|| ra.add(&rb)), add)?;
    let addp = (a64.0 + u(k), a64.1.map(|x| x + u(k)));
    check_op(ctx, format!("{a:?}.add_point({k})"), catching(|| ra.add_point(k)), addp)?;
    // scale: k-fold sum
    let sc = if k == 0 { (0, Some(0)) } else { (a64.0 * u(k), a64.1.map(|x| x * u(k))) };
    check_op(ctx, format!("{a:?}.scale({k})"), catching(|| ra.scale(k)), sc)?;
    // shift
    let sh = (a64.0.saturating_sub(1), a64.1.map(|x| x.saturating_sub(1)));
    check_op(ctx, format!("{a:?}.shift()"), catching(|| ra.shift()), sh)?;
    // mul contains every product; exact iff union of the y-fold sums is an interval
    let zero = |x: &Rg| *x == (0, Some(0));
    let mul: Rg = if zero(&a64) || zero(&b64) {
        (0, Some(0))
    } else {
        (a64.0 * b64.0, a64.1.and_then(|x| b64.1.map(|y| x * y)))
    };
    let got = catching(|| ra.mul(&rb));
    match (&got, to_r(mul)) {
        (Ok(g), Some(w)) => {
            // contains every product
            for x in [a64.0, a64.0 + 1, a64.1.unwrap_or(a64.0 + 7)] {
                for y in [b64.0, b64.0 + 1, b64.1.unwrap_or(b64.0 + 7)] {
                    let xy = x as u128 * y as u128;
                    if member(&a64, x) && member(&b64, y) && xy <= u32::MAX as u128 {
                        ck!(ctx, g.contains(xy as u32), "{a:?}.mul({b:?}) = {g:?} misses {x}*{y}");
                    }
                }
            }
            ck!(ctx, *g == w, "{a:?}.mul({b:?}) = {g:?}, want {w:?}");
        }
        (Err(e), None) => {
            ck!(ctx, e.contains("verflow"), "mul panics with {e}");
        }
        (Ok(g), None) => {
            // bounds do not fit: no representable range holds all products
            return Err(format!("{a:?}.mul({b:?}) = {g:?} although the product does not fit"));
        }
        (Err(e), Some(w)) => return Err(format!("{a:?}.mul({b:?}) panics ({e}), want {w:?}")),
    }
    // exactness: union over y in b of [y*a0, y*a1] is an interval and equals mul
    let exact = exact_spec(a64, b64);
    let got = ra.right_mul_is_exact(&rb);
    ck!(ctx, got == exact, "{a:?}.right_mul_is_exact({b:?}) = {got}, want {exact}");
    // brute force on small ranges
    let small = |x: &Rg| x.0 <= 6 && x.1.map_or(true, |y| y <= 8);
    if small(&a64) && small(&b64) {
        let lim = 200u64;
        let mut set = vec![false; lim as usize + 1];
        let ymax = b64.1.unwrap_or(lim + 1);
        for y in b64.0..=ymax.min(lim + 1) {
            let lo = a64.0 * y;
            let hi = if y == 0 { 0 } else { a64.1.map_or(lim, |x| (x * y).min(lim)) };
            let mut z = lo;
            while z <= hi && z <= lim {
                set[z as usize] = true;
                z += 1;
            }
        }
        let mulr: Rg = mul;
        let want = (0..=lim).all(|z| set[z as usize] == member(&mulr, z));
        ck!(ctx, exact == want || a64.0 > 12, "oracle mismatch {a:?} {b:?} exact={exact} brute={want}");
        ck!(ctx, got == want, "{a:?}.right_mul_is_exact({b:?}) = {got}, brute force says {want}");
    }
    Ok(())
}

fn exact_spec(a: Rg, b: Rg) -> bool {
    // y-fold sums: {0} for y = 0, else [y*a0, y*a1]
    if b.1 == Some(b.0) {
        return true; // single y
    }
    let (a0, a1) = (a.0 as u128, a.1.map(|x| x as u128));
    let y = b.0 as u128;
    // gaps can only shrink as y grows, except the step from y=0 where the sum is {0}
    let no_gap = |y: u128| -> bool {
        let hi = if y == 0 { Some(0) } else { a1.map(|x| x * y) };
        match hi {
            None => true,
            Some(h) => a0 * (y + 1) <= h + 1,
        }
    };
    let last = b.1.map(|x| x as u128);
    let ok0 = no_gap(y);
    let ok1 = if y == 0 && last.map_or(true, |l| l >= 2) { no_gap(1) } else { true };
    ok0 && ok1
}
