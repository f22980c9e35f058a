//! Properties of regular expressions: C01 C02 C03 C05 C07 C10 C16 C18 C19
use crate::dfa::Dfa;
use crate::gen::*;
use crate::rng::Rng;
use crate::{catching, ck, Ctx, R};
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::*;
use std::collections::{HashMap, HashSet};

fn addr(r: RegLan) -> usize {
    r as *const RE as usize
}

/// Explore (term, residual state) pairs through char_derivative on both end points of every
/// segment. Err = the language of r is not the one of d. Ok(false) = gave up (too many pairs).
pub fn same_lang(m: &mut ReManager, segs: &Segs, r: RegLan, d: &Dfa, start: u32, cap: usize) -> Result<bool, String> {
    let mut seen: HashMap<(usize, u32), ()> = HashMap::new();
    let mut q: Vec<(RegLan, u32, Vec<u32>)> = vec![(r, start, vec![])];
    seen.insert((addr(r), start), ());
    let mut i = 0;
    let reps = segs.reps();
    while i < q.len() {
        let (r, s, wd) = q[i].clone();
        i += 1;
        if r.nullable != d.acc[s as usize] {
            return Err(format!(
                "after {wd:x?} the derivative is {}nullable but the word is {}in the language",
                if r.nullable { "" } else { "not " },
                if d.acc[s as usize] { "" } else { "not " }
            ));
        }
        for &(c, sym) in &reps {
            let r2 = m.char_derivative(r, c);
            let s2 = d.next(s, sym);
            if seen.insert((addr(r2), s2), ()).is_none() {
                let mut w2 = wd.clone();
                w2.push(c);
                q.push((r2, s2, w2));
            }
        }
        if q.len() > cap {
            return Ok(false);
        }
    }
    Ok(true)
}

fn prog(ctx: &mut Ctx, maxk: usize, steps: usize, cap: usize, wrappers: bool) -> Prog {
    let mut p = Prog::new(&mut ctx.rng, maxk, wrappers);
    p.grow(&mut ctx.rng, steps, cap);
    let d = p.describe();
    ctx.key(&d);
    ctx.nontrivial = p.terms.iter().any(|t| t.dfa.n() > 2);
    ctx.note(|| d);
    p
}

fn steps(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 2 + r.below(3),
        1 | 2 => 4 + r.below(5),
        _ => 8 + r.below(8),
    }
}

fn words(r: &mut Rng, segs: &Segs, d: &Dfa, n: usize) -> Vec<Vec<usize>> {
    let k = segs.k();
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..k {
        out.push(vec![a]);
    }
    for _ in 0..n {
        let len = r.below(8);
        out.push((0..len).map(|_| r.below(k)).collect());
    }
    // words guided to accepting states
    let live = d.live();
    for _ in 0..n {
        let mut s = 0u32;
        let mut wd = vec![];
        for _ in 0..r.below(10) {
            let opts: Vec<usize> = (0..k).filter(|&c| live[d.next(s, c) as usize]).collect();
            if opts.is_empty() {
                break;
            }
            let c = *r.pick(&opts);
            wd.push(c);
            s = d.next(s, c);
        }
        out.push(wd);
    }
    out
}

// ------------------------------------------------------------------ C01

pub fn c01(ctx: &mut Ctx) -> R {
    match ctx.i % 8 {
        0 => return c01_big_loops(ctx),
        1 => return c01_long(ctx),
        _ => {}
    }
    let wrappers = ctx.rng.flip(1, 3);
    let st = steps(&mut ctx.rng);
    let mut p = prog(ctx, 5, st, 40, wrappers);
    let segs = p.segs.clone();
    for i in 0..p.terms.len() {
        let t = p.terms[i].clone();
        ck!(ctx, t.re.nullable == t.dfa.acc[0], "t{i}={:?}: nullable = {}, want {}", t.op, t.re.nullable, t.dfa.acc[0]);
        if !wrappers {
            let mut m = std::mem::take(&mut p.m);
            let r = same_lang(&mut m, &segs, t.re, &t.dfa, 0, 1500);
            p.m = m;
            ctx.checks += 1;
            if let Err(e) = r {
                return Err(format!("t{i}={:?}: {e}", t.op));
            }
        }
        let wds = words(&mut ctx.rng, &segs, &t.dfa, 6);
        for wd in wds {
            let s = smt(&segs.lift(&mut ctx.rng, &wd));
            let want = t.dfa.accepts(&wd);
            let got = if wrappers { w::str_in_re(&s, t.re) } else { p.m.str_in_re(&s, t.re) };
            ck!(ctx, got == want, "t{i}={:?}: str_in_re({:x?}) = {got}, want {want}", t.op, s.as_ref());
        }
    }
    Ok(())
}

/// membership of a word by span matrices: sub-word [i..j) in the language or not.
/// A loop [lo, hi] on words of length <= n: an empty iteration is free exactly when the body is
/// nullable, so bounds can be capped at n without changing the answer.
fn eval(t: &[Op], k: usize, segs: &Segs, wd: &[u32], memo: &mut HashMap<usize, Vec<Vec<bool>>>) -> Vec<Vec<bool>> {
    if let Some(m) = memo.get(&k) {
        return m.clone();
    }
    let n = wd.len();
    let z = || vec![vec![false; n + 1]; n + 1];
    let id = || {
        let mut m = z();
        for i in 0..=n {
            m[i][i] = true;
        }
        m
    };
    let all = || {
        let mut m = z();
        for i in 0..=n {
            for j in i..=n {
                m[i][j] = true;
            }
        }
        m
    };
    let mul = |a: &Vec<Vec<bool>>, b: &Vec<Vec<bool>>| {
        let mut m = z();
        for i in 0..=n {
            for h in i..=n {
                if a[i][h] {
                    for j in h..=n {
                        m[i][j] |= b[h][j];
                    }
                }
            }
        }
        m
    };
    let zip = |a: &Vec<Vec<bool>>, b: &Vec<Vec<bool>>, f: fn(bool, bool) -> bool| {
        let mut m = z();
        for i in 0..=n {
            for j in i..=n {
                m[i][j] = f(a[i][j], b[i][j]);
            }
        }
        m
    };
    let chars = |lo: u32, hi: u32| {
        let mut m = z();
        for i in 0..n {
            m[i][i + 1] = lo <= wd[i] && wd[i] <= hi;
        }
        m
    };
    let lp = |a: &Vec<Vec<bool>>, lo: u32, hi: Option<u32>| {
        if let Some(h) = hi {
            if lo > h {
                return z();
            }
        }
        let nullable = a[0][0];
        let cap = n as u32 + 1;
        let (lo, hi) = if nullable { (0, hi.map_or(cap, |h| h.min(cap))) } else { (lo.min(cap), hi.map_or(cap, |h| h.min(cap))) };
        let mut pw = id();
        let mut acc = z();
        for c in 0..=hi {
            if c >= lo {
                acc = zip(&acc, &pw, |x, y| x || y);
            }
            pw = mul(&pw, a);
        }
        acc
    };
    let mut ev = |i: usize| eval(t, i, segs, wd, memo);
    let m = match &t[k] {
        Op::Empty => z(),
        Op::Full => all(),
        Op::Eps => id(),
        Op::SigmaPlus => zip(&all(), &id(), |x, y| x && !y),
        Op::AllChars => chars(0, MAXC),
        Op::Range(i, j, _) => chars(segs.0[*i].0, segs.0[*j].1),
        Op::Str(v) => {
            let mut m = id();
            for &(s, lo) in v {
                let c = if lo { segs.0[s].0 } else { segs.0[s].1 };
                m = mul(&m, &chars(c, c));
            }
            m
        }
        Op::Concat(a, b) => mul(&ev(*a), &ev(*b)),
        Op::ConcatList(v) => v.iter().fold(id(), |m, &i| mul(&m, &ev(i))),
        Op::Union(a, b) => zip(&ev(*a), &ev(*b), |x, y| x || y),
        Op::UnionList(v) => v.iter().fold(z(), |m, &i| zip(&m, &ev(i), |x, y| x || y)),
        Op::Inter(a, b) => zip(&ev(*a), &ev(*b), |x, y| x && y),
        Op::InterList(v) => v.iter().fold(all(), |m, &i| zip(&m, &ev(i), |x, y| x && y)),
        Op::Comp(a) => zip(&ev(*a), &all(), |x, _| !x),
        Op::Diff(a, b) => zip(&ev(*a), &ev(*b), |x, y| x && !y),
        Op::DiffList(a, v) => {
            let m = ev(*a);
            v.iter().fold(m, |m, &i| zip(&m, &ev(i), |x, y| x && !y))
        }
        Op::Star(a) => lp(&ev(*a), 0, None),
        Op::Plus(a) => lp(&ev(*a), 1, None),
        Op::Opt(a) => lp(&ev(*a), 0, Some(1)),
        Op::Exp(a, n) => lp(&ev(*a), *n, Some(*n)),
        Op::SmtLoop(a, i, j) => lp(&ev(*a), *i, Some(*j)),
        Op::MkLoop(a, i, j) => lp(&ev(*a), *i, *j),
    };
    memo.insert(k, m.clone());
    m
}

fn any_bound(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => u32::MAX,
        1 => u32::MAX - 1,
        2 => 1 << 31,
        3 => 65536,
        4 => 1000,
        _ => r.below(5) as u32,
    }
}

// loops with arbitrary u32 bounds (documented: bound arithmetic that does not fit panics)
fn c01_big_loops(ctx: &mut Ctx) -> R {
    let wrappers = ctx.rng.flip(1, 3);
    let mut m = ReManager::new();
    let segs = Segs::gen(&mut ctx.rng, 4);
    let mut ops: Vec<Op> = vec![];
    let mut res: Vec<RegLan> = vec![];
    let n = 3 + ctx.rng.below(7);
    while ops.len() < n {
        let k = ops.len();
        let op = if k >= 2 && ctx.rng.flip(2, 5) {
            let a = k - 1 - ctx.rng.below(2);
            let (x, y) = (any_bound(&mut ctx.rng), any_bound(&mut ctx.rng));
            match ctx.rng.below(4) {
                0 => Op::Exp(a, x),
                1 => Op::SmtLoop(a, x, y),
                2 => Op::MkLoop(a, x.min(y), Some(x.max(y))),
                _ if wrappers => Op::SmtLoop(a, x.min(y), x.max(y)),
                _ => Op::MkLoop(a, x, None),
            }
        } else {
            gen_op(&mut ctx.rng, &segs, k, wrappers)
        };
        let rs = res.clone();
        let r = catching(|| if wrappers { apply_wrapper(&op, &segs, &rs) } else { apply(&mut m, &op, &segs, &rs) });
        match r {
            Ok(r) => {
                ops.push(op);
                res.push(r);
            }
            Err(e) => {
                let big = ops.iter().chain([&op]).any(|o| matches!(o, Op::Exp(_, x) if *x > 500) || matches!(o, Op::SmtLoop(_, x, y) if (*x).max(*y) > 500) || matches!(o, Op::MkLoop(_, x, y) if (*x).max(y.unwrap_or(0)) > 500));
                if !(big && e.contains("rithmetic overflow")) {
                    return Err(format!("segments {:x?} ops {ops:?} then {op:?} panics: {e}", segs.0));
                }
                break;
            }
        }
    }
    ctx.key(&ops);
    ctx.nontrivial = !ops.is_empty();
    ctx.note(|| format!("segments {:x?} ops {ops:?}", segs.0));
    if ops.is_empty() {
        return Ok(());
    }
    for _ in 0..8 {
        let len = ctx.rng.below(6);
        let sy: Vec<usize> = (0..len).map(|_| ctx.rng.below(segs.k())).collect();
        let wd = segs.lift(&mut ctx.rng, &sy);
        let s = smt(&wd);
        let mut memo = HashMap::new();
        for k in 0..ops.len() {
            let e = eval(&ops, k, &segs, &wd, &mut memo);
            let want = e[0][len];
            ck!(ctx, res[k].nullable == e[0][0], "op {k} of {ops:?}: nullable = {}, want {}", res[k].nullable, e[0][0]);
            let r = res[k];
            match catching(|| if wrappers { w::str_in_re(&s, r) } else { m.str_in_re(&s, r) }) {
                Ok(got) => {
                    ck!(ctx, got == want, "op {k} of {ops:?}: str_in_re({wd:x?}) = {got}, want {want}");
                }
                Err(e) if e.contains("rithmetic overflow") => {}
                Err(e) => return Err(format!("op {k} of {ops:?}: str_in_re({wd:x?}) panics: {e}")),
            }
        }
    }
    Ok(())
}

// larger programs in one manager, words checked by span matrices
fn c01_long(ctx: &mut Ctx) -> R {
    let wrappers = ctx.rng.flip(1, 3);
    let mut m = ReManager::new();
    let segs = Segs::gen(&mut ctx.rng, 5);
    let mut ops: Vec<Op> = vec![];
    let mut res: Vec<RegLan> = vec![];
    let n = 8 + ctx.rng.below(18);
    for k in 0..n {
        let op = gen_op(&mut ctx.rng, &segs, k, wrappers);
        let r = if wrappers { apply_wrapper(&op, &segs, &res) } else { apply(&mut m, &op, &segs, &res) };
        ops.push(op);
        res.push(r);
    }
    ctx.key(&ops);
    ctx.nontrivial = true;
    ctx.note(|| format!("segments {:x?} ops {ops:?}", segs.0));
    for _ in 0..4 {
        let len = ctx.rng.below(6);
        let sy: Vec<usize> = (0..len).map(|_| ctx.rng.below(segs.k())).collect();
        let wd = segs.lift(&mut ctx.rng, &sy);
        let s = smt(&wd);
        let mut memo = HashMap::new();
        for k in 0..ops.len() {
            let e = eval(&ops, k, &segs, &wd, &mut memo);
            ck!(ctx, res[k].nullable == e[0][0], "op {k} of {ops:?}: nullable = {}, want {}", res[k].nullable, e[0][0]);
            let got = if wrappers { w::str_in_re(&s, res[k]) } else { m.str_in_re(&s, res[k]) };
            ck!(ctx, got == e[0][len], "op {k} of {ops:?} (segments {:x?}): str_in_re({wd:x?}) = {got}, want {}", segs.0, e[0][len]);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

/// the automaton against the DFA, exactly; also totality and consistency of next / class_next
pub fn check_automaton(ctx: &mut Ctx, a: &Automaton, d: &Dfa, segs: &Segs, what: &str) -> R {
    let n = a.num_states();
    ck!(ctx, a.states().count() == n, "{what}: states() yields {} of {n}", a.states().count());
    for (i, s) in a.states().enumerate() {
        ck!(ctx, s.id() == i && a.state(i).id() == i, "{what}: state {i} has id {}", s.id());
    }
    ck!(ctx, a.initial_state().id() < n, "{what}: initial state");
    let reps = segs.reps();
    let mut seen = HashSet::new();
    let mut q = vec![(a.initial_state().id(), 0u32, vec![])];
    seen.insert((q[0].0, 0u32));
    let mut i = 0;
    while i < q.len() {
        let (s, ds, wd): (usize, u32, Vec<u32>) = q[i].clone();
        i += 1;
        let st = a.state(s);
        ck!(ctx, st.is_final() == d.acc[ds as usize], "{what}: automaton {} {wd:x?}, want {}", if st.is_final() { "accepts" } else { "rejects" }, d.acc[ds as usize]);
        for &(c, sym) in &reps {
            let t = a.next(st, c).id();
            ck!(ctx, t < n, "{what}: next(s{s}, {c:x}) = s{t}");
            let dt = d.next(ds, sym);
            if seen.insert((t, dt)) {
                let mut w2 = wd.clone();
                w2.push(c);
                q.push((t, dt, w2));
            }
        }
    }
    check_total(ctx, a, what)
}

/// next never fails on any state and character, and agrees with the classes
pub fn check_total(ctx: &mut Ctx, a: &Automaton, what: &str) -> R {
    for s in a.states() {
        let iv: Vec<(u32, u32)> = s.char_ranges().map(|c| (c.pick(), c.pick() + c.size() - 1)).collect();
        for c in probes(&iv) {
            let t = match catching(|| a.next(s, c).id()) {
                Ok(t) => t,
                Err(e) => return Err(format!("{what}: next({s}, {c:x}) panics: {e}")),
            };
            ctx.checks += 1;
            let cid = s.class_of_char(c);
            ck!(ctx, s.valid_class_id(cid), "{what}: class {cid:?} of {c:x} is not valid in {s}");
            ck!(ctx, a.class_next(s, cid).id() == t, "{what}: class_next({s}, {cid:?}) differs from next({c:x})");
            let u = a.str_next(s, &smt(&[c])).id();
            ck!(ctx, u == t, "{what}: str_next({s}, [{c:x}]) = s{u}, next = s{t}");
        }
        ck!(ctx, a.str_next(s, &EMPTY).id() == s.id(), "{what}: str_next on the empty string moves");
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) -> R {
    let st = steps(&mut ctx.rng);
    let mut p = prog(ctx, 5, st, 30, false);
    let segs = p.segs.clone();
    let n = p.terms.len();
    let mut order: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut order);
    for &i in order.iter().take(6) {
        let t = p.terms[i].clone();
        if p.m.try_compile(t.re, 600).is_none() {
            continue; // too large for this case
        }
        let a = p.m.compile(t.re);
        check_automaton(ctx, &a, &t.dfa, &segs, &format!("compile(t{i})"))?;
        let wds = words(&mut ctx.rng, &segs, &t.dfa, 4);
        for wd in wds {
            let s = smt(&segs.lift(&mut ctx.rng, &wd));
            let want = t.dfa.accepts(&wd);
            ck!(ctx, a.accepts(&s) == want, "compile(t{i}) accepts({:x?}) = {}, want {want}", s.as_ref(), !want);
            ck!(ctx, p.m.str_in_re(&s, t.re) == want, "str_in_re(t{i}, {:x?})", s.as_ref());
        }
        let k = a.num_states();
        match p.m.try_compile(t.re, k) {
            Some(b) => check_automaton(ctx, &b, &t.dfa, &segs, &format!("try_compile(t{i},{k})"))?,
            None => return Err(format!("try_compile(t{i}, {k}) is None but compile has {k} states")),
        }
        if k > 1 {
            if let Some(b) = p.m.try_compile(t.re, ctx.rng.below(k)) {
                check_automaton(ctx, &b, &t.dfa, &segs, "bounded try_compile")?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn char_classes(e: RegLan) -> Vec<(u32, u32)> {
    e.char_ranges().map(|c| (c.pick(), c.pick() + (c.size() - 1))).collect()
}

pub fn c03(ctx: &mut Ctx) -> R {
    let st = steps(&mut ctx.rng);
    let mut p = prog(ctx, 5, st, 30, false);
    let segs = p.segs.clone();
    let reps = segs.reps();
    let n = p.terms.len();
    for i in 0..n {
        let t = p.terms[i].clone();
        // walk a few derivatives deep; at each term check the classes
        let mut cur = t.re;
        let mut ds = 0u32;
        let mut done: Vec<u32> = vec![];
        for depth in 0..3 {
            let e = cur;
            let cls = char_classes(e);
            let what = format!("t{i} after {done:x?}");
            // class ids
            let mut pos = 0u64;
            for &(a, b) in &cls {
                ck!(ctx, a <= b && b <= MAXC && a as u64 >= pos, "{what}: classes {cls:x?} not sorted/disjoint");
                pos = b as u64 + 1;
            }
            let total: u64 = cls.iter().map(|&(a, b)| (b - a) as u64 + 1).sum();
            let comp_empty = total == MAXC as u64 + 1;
            ck!(ctx, e.empty_complement() == comp_empty, "{what}: empty_complement");
            let ids: Vec<ClassId> = e.class_ids().take(cls.len() + 4).collect();
            let mut want: Vec<ClassId> = (0..cls.len()).map(ClassId::Interval).collect();
            if !comp_empty {
                want.push(ClassId::Complement);
            }
            ck!(ctx, ids == want, "{what}: class_ids {ids:?}, want {want:?}");
            let mut bad = vec![ClassId::Interval(cls.len()), ClassId::Interval(cls.len() + 3), ClassId::Interval(usize::MAX)];
            if comp_empty {
                bad.push(ClassId::Complement);
            }
            for b in bad {
                ck!(ctx, !e.valid_class_id(b), "{what}: valid_class_id({b:?})");
                let g = p.m.class_derivative(e, b);
                ck!(ctx, matches!(g, Err(Error::BadClassId)), "{what}: class_derivative({b:?}) is not BadClassId");
            }
            // every class: the derivative is the quotient for each of its characters
            let mut probe: Vec<u32> = probes(&cls);
            probe.extend(reps.iter().map(|x| x.0));
            probe.sort();
            probe.dedup();
            let mut by_class: HashMap<Option<usize>, (RegLan, HashSet<u32>)> = HashMap::new();
            for &c in &probe {
                let k = cls.iter().position(|&(a, b)| a <= c && c <= b);
                let cid = k.map_or(ClassId::Complement, ClassId::Interval);
                let dst = t.dfa.next(ds, segs.sym(c));
                let entry = by_class.entry(k);
                let (rd, targets) = match entry {
                    std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
                    std::collections::hash_map::Entry::Vacant(v) => match p.m.class_derivative(e, cid) {
                        Ok(r) => v.insert((r, HashSet::new())),
                        Err(x) => return Err(format!("{what}: class_derivative({cid:?}) = {x:?} but {c:x} is in that class")),
                    },
                };
                targets.insert(dst);
                let cd = p.m.char_derivative(e, c);
                if !std::ptr::eq(cd, *rd) {
                    ctx.checks += 1;
                    if let Err(x) = same_lang(&mut p.m, &segs, cd, &t.dfa, dst, 600) {
                        return Err(format!("{what}: char_derivative({c:x}) is not the quotient: {x}"));
                    }
                }
            }
            for (k, (rd, targets)) in &by_class {
                for &dst in targets {
                    ctx.checks += 1;
                    if let Err(x) = same_lang(&mut p.m, &segs, rd, &t.dfa, dst, 600) {
                        return Err(format!("{what}: class_derivative of class {k:?} {:x?} is not the quotient for all its characters: {x}", k.map(|i| cls[i])));
                    }
                }
            }
            // set derivatives
            for _ in 0..8 {
                let (x, y) = (*ctx.rng.pick(&probe), *ctx.rng.pick(&probe));
                let (x, y) = (x.min(y), x.max(y));
                let inside = cls.iter().position(|&(a, b)| a <= x && y <= b);
                let meets = cls.iter().any(|&(a, b)| a <= y && x <= b);
                let s = CharSet::range(x, y);
                let g = p.m.set_derivative(e, &s);
                if inside.is_some() || !meets {
                    match g {
                        Err(er) => return Err(format!("{what}: set_derivative([{x:x},{y:x}]) = {er:?} but the set is in one class of {cls:x?}")),
                        Ok(g) => {
                            for c in [x, y] {
                                let dst = t.dfa.next(ds, segs.sym(c));
                                ctx.checks += 1;
                                if let Err(er) = same_lang(&mut p.m, &segs, g, &t.dfa, dst, 600) {
                                    return Err(format!("{what}: set_derivative([{x:x},{y:x}]) is not the quotient by {c:x}: {er}"));
                                }
                            }
                        }
                    }
                } else {
                    ck!(ctx, g.is_err(), "{what}: set_derivative([{x:x},{y:x}]) succeeds but the set meets several classes of {cls:x?}");
                }
            }
            if depth == 0 {
                // str_derivative composes
                let len = ctx.rng.below(5);
                let sy: Vec<usize> = (0..len).map(|_| ctx.rng.below(segs.k())).collect();
                let wd = segs.lift(&mut ctx.rng, &sy);
                let mut s2 = ds;
                for &x in &sy {
                    s2 = t.dfa.next(s2, x);
                }
                let g = p.m.str_derivative(e, &smt(&wd));
                ctx.checks += 1;
                if let Err(er) = same_lang(&mut p.m, &segs, g, &t.dfa, s2, 600) {
                    return Err(format!("{what}: str_derivative({wd:x?}) is not the quotient: {er}"));
                }
            }
            let (c, sym) = *ctx.rng.pick(&reps);
            cur = p.m.char_derivative(cur, c);
            ds = t.dfa.next(ds, sym);
            done.push(c);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

pub fn c05(ctx: &mut Ctx) -> R {
    let st = steps(&mut ctx.rng);
    let mut p = prog(ctx, 5, st, 30, false);
    let segs = p.segs.clone();
    let n = p.terms.len();
    let mut targets: Vec<(String, RegLan, Dfa)> = (0..n).map(|i| (format!("t{i}"), p.terms[i].re, p.terms[i].dfa.clone())).collect();
    // semantically empty / universal combinations
    for _ in 0..4 {
        let a = p.terms[ctx.rng.below(n)].clone();
        let b = p.terms[ctx.rng.below(n)].clone();
        let x = p.m.diff(a.re, b.re);
        if let Some(d) = a.dfa.diff(&b.dfa) {
            targets.push((format!("diff({:?},{:?})", a.op, b.op), x, d.clone()));
            let y = p.m.complement(b.re);
            let z = p.m.union(y, a.re);
            targets.push((format!("comp-union({:?},{:?})", b.op, a.op), z, b.dfa.comp().union(&a.dfa).unwrap_or(d.comp())));
            let c = p.terms[ctx.rng.below(n)].clone();
            if let Some(d2) = c.dfa.concat(&d) {
                let r = p.m.concat(c.re, x);
                targets.push((format!("{:?}.diff({:?},{:?})", c.op, a.op, b.op), r, d2));
            }
        }
    }
    for (name, r, d) in targets {
        if p.m.try_compile(r, 800).is_none() {
            continue;
        }
        // ask in either order: the two queries share caches
        let first = ctx.rng.flip(1, 2);
        let mut g = None;
        if first {
            g = Some(p.m.get_string(r));
        }
        let e = p.m.is_empty_re(r);
        ck!(ctx, e == d.is_empty(), "is_empty_re({name}) = {e}, want {}", d.is_empty());
        let g = g.unwrap_or_else(|| p.m.get_string(r));
        match g {
            None => {
                ck!(ctx, d.is_empty(), "get_string({name}) = None but the language is not empty");
            }
            Some(s) => {
                ck!(ctx, s.as_ref().iter().all(|&c| c <= MAXC) && s.is_good(), "get_string({name}) = {:x?} is not well formed", s.as_ref());
                let sy: Vec<usize> = s.as_ref().iter().map(|&c| segs.sym(c)).collect();
                ck!(ctx, d.accepts(&sy), "get_string({name}) = {:x?} is not a member", s.as_ref());
                ck!(ctx, p.m.str_in_re(&s, r), "get_string({name}) = {:x?} rejected by str_in_re", s.as_ref());
                let a = p.m.compile(r);
                ck!(ctx, a.accepts(&s), "get_string({name}) = {:x?} rejected by the automaton", s.as_ref());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

fn churn(ctx: &mut Ctx, m: &mut ReManager, segs: &Segs, res: &[RegLan]) {
    let reps = segs.reps();
    for _ in 0..ctx.rng.below(5) {
        let e = *ctx.rng.pick(res);
        match ctx.rng.below(7) {
            0 => {
                let c = ctx.rng.pick(&reps).0;
                let _ = m.char_derivative(e, c);
            }
            1 => {
                let _ = m.try_compile(e, 50);
            }
            2 => {
                if m.try_compile(e, 100).is_some() {
                    let _ = m.is_empty_re(e);
                    let _ = m.get_string(e);
                }
            }
            3 => {
                let k = ctx.rng.below(6) as u32;
                let s = smt(&[gen_char(&mut ctx.rng), k]);
                let x = m.str(&s);
                let _ = m.concat(x, e);
            }
            4 => {
                let _ = m.complement(e);
            }
            5 => {
                let f = *ctx.rng.pick(res);
                let _ = m.inter(e, f);
                let _ = m.union(f, e);
            }
            _ => {
                let _: usize = m.iter_derivatives(e).take(20).count();
            }
        }
    }
}

pub fn c07(ctx: &mut Ctx) -> R {
    let wrappers = ctx.rng.flip(1, 4);
    let st = steps(&mut ctx.rng);
    let mut p = Prog::new(&mut ctx.rng, 4, wrappers);
    let segs = p.segs.clone();
    if !wrappers {
        // a manager that already has a history
        let l = vec![p.m.empty(), p.m.full(), p.m.epsilon(), p.m.all_chars()];
        churn(ctx, &mut p.m, &segs, &l);
        if ctx.rng.flip(1, 3) {
            // many terms
            for _ in 0..ctx.rng.below(300) {
                let c = gen_char(&mut ctx.rng);
                let x = p.m.char(c);
                if ctx.rng.flip(1, 3) {
                    let y = p.m.sigma_plus();
                    let _ = p.m.concat(x, y);
                }
            }
        }
    }
    p.grow(&mut ctx.rng, st, 30);
    let desc = p.describe();
    ctx.key(&desc);
    ctx.nontrivial = true;
    ctx.note(|| desc.clone());
    let res = p.res();
    let n = res.len();
    for round in 0..2 {
        for i in 0..n {
            if !wrappers {
                churn(ctx, &mut p.m, &segs, &res);
            }
            let op = p.terms[i].op.clone();
            let r = if wrappers { apply_wrapper(&op, &segs, &res) } else { apply(&mut p.m, &op, &segs, &res) };
            ck!(ctx, std::ptr::eq(r, res[i]) && r == res[i], "t{i}={op:?}: repeating the construction (round {round}) gives another term");
            let c = if wrappers { w::re_comp(res[i]) } else { p.m.complement(res[i]) };
            ck!(ctx, c != res[i] && !std::ptr::eq(c, res[i]), "complement(t{i}) = t{i}");
            let c2 = if wrappers { w::re_comp(c) } else { p.m.complement(c) };
            ck!(ctx, c2 == res[i] && std::ptr::eq(c2, res[i]), "complement(complement(t{i})) differs from t{i}");
        }
        for i in 0..n {
            for j in 0..n {
                ck!(ctx, (res[i] == res[j]) == std::ptr::eq(res[i], res[j]), "t{i} and t{j}: == is {} but same object is {}", res[i] == res[j], std::ptr::eq(res[i], res[j]));
                if std::ptr::eq(res[i], res[j]) {
                    ck!(ctx, p.terms[i].dfa == p.terms[j].dfa, "t{i} and t{j} are one term but denote different languages");
                }
            }
        }
    }
    // the language does not depend on the history: same program in a fresh manager, and here
    if !wrappers {
        let mut m2 = ReManager::new();
        let l = vec![m2.full(), m2.sigma_plus(), m2.all_chars()];
        churn(ctx, &mut m2, &segs, &l);
        let mut res2: Vec<RegLan> = vec![];
        for i in 0..n {
            let r = apply(&mut m2, &p.terms[i].op, &segs, &res2);
            res2.push(r);
            if ctx.rng.flip(1, 2) {
                churn(ctx, &mut m2, &segs, &res2);
            }
        }
        for i in 0..n {
            let d = p.terms[i].dfa.clone();
            ctx.checks += 2;
            if let Err(e) = same_lang(&mut p.m, &segs, res[i], &d, 0, 800) {
                return Err(format!("t{i} in the manager with a history: {e}"));
            }
            if let Err(e) = same_lang(&mut m2, &segs, res2[i], &d, 0, 800) {
                return Err(format!("t{i} in the second manager: {e}"));
            }
        }
    } else {
        for i in 0..n {
            let wds = words(&mut ctx.rng, &segs, &p.terms[i].dfa, 4);
            for wd in wds {
                let s = smt(&segs.lift(&mut ctx.rng, &wd));
                let want = p.terms[i].dfa.accepts(&wd);
                ck!(ctx, w::str_in_re(&s, res[i]) == want, "t{i}: str_in_re({:x?}) should be {want}", s.as_ref());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn c10(ctx: &mut Ctx) -> R {
    let st = steps(&mut ctx.rng);
    let mut p = Prog::new(&mut ctx.rng, 4, true);
    p.grow(&mut ctx.rng, st, 40);
    let desc = p.describe();
    ctx.note(|| desc.clone());
    let segs = p.segs.clone();
    let n = p.terms.len();
    for _ in 0..12 {
        let i = ctx.rng.below(n);
        let t = p.terms[i].clone();
        let len = ctx.rng.below(9);
        let mut sy: Vec<usize> = vec![];
        while sy.len() < len {
            if ctx.rng.flip(1, 3) {
                // insert a member
                let wds = words(&mut ctx.rng, &segs, &t.dfa, 1);
                sy.extend(wds.last().unwrap());
                if sy.len() > 14 {
                    sy.truncate(14);
                }
                if ctx.rng.flip(1, 3) {
                    break;
                }
            } else {
                sy.push(ctx.rng.below(segs.k()));
            }
        }
        let s = segs.lift(&mut ctx.rng, &sy);
        let u: Vec<u32> = (0..ctx.rng.below(4)).map(|_| *ctx.rng.pick(&segs.reps()).clone().split().0).collect();
        let find = |from: usize, nonempty: bool| -> Option<(usize, usize)> {
            for a in from..=sy.len() {
                for b in a + nonempty as usize..=sy.len() {
                    if t.dfa.accepts(&sy[a..b]) {
                        return Some((a, b));
                    }
                }
            }
            None
        };
        ctx.key(&(&desc, &s, &u));
        ctx.nontrivial |= find(0, true).is_some();
        let want = match find(0, false) {
            None => s.clone(),
            Some((a, b)) => [&s[..a], &u[..], &s[b..]].concat(),
        };
        let g = w::str_replace_re(&smt(&s), t.re, &smt(&u));
        ck!(ctx, g.as_ref() == &want[..], "str_replace_re({s:x?}, t{i}, {u:x?}) = {:x?}, want {want:x?}  [{desc}]", g.as_ref());
        let mut want = vec![];
        let mut pos = 0;
        while let Some((a, b)) = find(pos, true) {
            want.extend(&s[pos..a]);
            want.extend(&u);
            pos = b;
        }
        want.extend(&s[pos..]);
        let g = w::str_replace_re_all(&smt(&s), t.re, &smt(&u));
        ck!(ctx, g.as_ref() == &want[..], "str_replace_re_all({s:x?}, t{i}, {u:x?}) = {:x?}, want {want:x?}  [{desc}]", g.as_ref());
    }
    Ok(())
}

trait Split {
    fn split(&self) -> (&u32, &usize);
}
impl Split for (u32, usize) {
    fn split(&self) -> (&u32, &usize) {
        (&self.0, &self.1)
    }
}

// ------------------------------------------------------------------ C16

// terms shaped like concatenations of ranges, Sigma*, loops, complements and unions
fn concat_like(ctx: &mut Ctx, p: &mut Prog) {
    let k = p.segs.k();
    let base = p.terms.len();
    for op in [Op::AllChars, Op::Full, Op::SigmaPlus, Op::Eps] {
        p.step(op, 60);
    }
    for _ in 0..3 {
        let i = ctx.rng.below(k);
        let j = i + ctx.rng.below(k - i);
        p.step(Op::Range(i, j, 0), 60);
    }
    let mut n0 = p.terms.len();
    for _ in 0..3 {
        let a = base + ctx.rng.below(n0 - base);
        let op = match ctx.rng.below(5) {
            0 => Op::Star(a),
            1 => Op::Plus(a),
            2 => Op::Comp(a),
            3 => Op::MkLoop(a, ctx.rng.below(3) as u32, if ctx.rng.flip(1, 2) { None } else { Some(3 + ctx.rng.below(3) as u32) }),
            _ => Op::Union(a, base + ctx.rng.below(n0 - base)),
        };
        p.step(op, 60);
    }
    n0 = p.terms.len();
    for _ in 0..6 {
        let m = 2 + ctx.rng.below(4);
        let v: Vec<usize> = (0..m)
            .map(|_| if ctx.rng.flip(1, 3) { base + 1 } else { base + ctx.rng.below(n0 - base) })
            .collect();
        p.step(Op::ConcatList(v), 80);
    }
    let n1 = p.terms.len();
    for _ in 0..3 {
        let a = n0 - 1 + ctx.rng.below(n1 - n0 + 1);
        let b = n0 - 1 + ctx.rng.below(n1 - n0 + 1);
        let op = match ctx.rng.below(4) {
            0 => Op::Comp(a),
            1 => Op::Union(a, b),
            2 => Op::Inter(a, b),
            _ => Op::UnionList(vec![a, b, base + ctx.rng.below(n1 - base)]),
        };
        p.step(op, 80);
    }
}

pub fn c16(ctx: &mut Ctx) -> R {
    let mut p = Prog::new(&mut ctx.rng, 4, false);
    if ctx.rng.flip(1, 3) {
        let st = steps(&mut ctx.rng);
        p.grow(&mut ctx.rng, st, 40);
    } else {
        concat_like(ctx, &mut p);
    }
    let desc = p.describe();
    ctx.key(&desc);
    ctx.note(|| desc.clone());
    let segs = p.segs.clone();
    let n = p.terms.len();
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&p.terms[i], &p.terms[j]);
            let g = a.re.included_in(b.re);
            ctx.checks += 1;
            if g {
                if i != j {
                    ctx.nontrivial = true;
                }
                if !a.dfa.included_in(&b.dfa) {
                    return Err(format!("t{i}.included_in(t{j}) is true but the language of t{i} is not included: t{i}={:?} t{j}={:?}", a.op, b.op));
                }
            }
        }
    }
    // unions lose nothing
    for _ in 0..6 {
        let m = 2 + ctx.rng.below(4);
        let v: Vec<usize> = (0..m).map(|_| ctx.rng.below(n)).collect();
        let mut d = Dfa::empty(segs.k());
        let mut ok = true;
        for &x in &v {
            match d.union(&p.terms[x].dfa) {
                Some(y) => d = y,
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok {
            continue;
        }
        let l: Vec<RegLan> = v.iter().map(|&x| p.terms[x].re).collect();
        let r = if l.len() == 2 { p.m.union(l[0], l[1]) } else { p.m.union_list(l.clone()) };
        ctx.checks += 1;
        if let Err(e) = same_lang(&mut p.m, &segs, r, &d, 0, 600) {
            return Err(format!("union of {v:?}: {e}"));
        }
        for (x, t) in v.iter().zip(l.iter()) {
            let _ = x;
            if t.included_in(r) {
                ctx.checks += 1;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

pub fn c18(ctx: &mut Ctx) -> R {
    let st = steps(&mut ctx.rng);
    let mut p = prog(ctx, 5, st, 30, false);
    let segs = p.segs.clone();
    let n = p.terms.len();
    let mut targets: Vec<(String, RegLan, Dfa)> = (0..n).map(|i| (format!("t{i}"), p.terms[i].re, p.terms[i].dfa.clone())).collect();
    for _ in 0..3 {
        let a = p.terms[ctx.rng.below(n)].clone();
        let b = p.terms[ctx.rng.below(n)].clone();
        let c = p.terms[ctx.rng.below(n)].clone();
        if let Some(d) = a.dfa.inter(&b.dfa) {
            let x = p.m.inter(a.re, b.re);
            targets.push((format!("inter({:?},{:?})", a.op, b.op), x, d.clone()));
            if let Some(d2) = c.dfa.concat(&d) {
                let y = p.m.concat(c.re, x);
                targets.push((format!("{:?}.inter({:?},{:?})", c.op, a.op, b.op), y, d2));
            }
            if let Some(d2) = d.star() {
                let y = p.m.star(x);
                targets.push((format!("inter({:?},{:?})*", a.op, b.op), y, d2));
            }
        }
    }
    for (name, r, d) in targets {
        if p.m.try_compile(r, 600).is_none() {
            continue;
        }
        let live = d.live();
        for (c, sym) in segs.reps() {
            let want = live[d.next(0, sym) as usize];
            let g = p.m.start_char(r, c);
            ck!(ctx, g == want, "start_char({name}, {c:x}) = {g}, want {want}");
        }
        let cls = char_classes(r);
        let mut probe = probes(&cls);
        probe.extend(segs.reps().iter().map(|x| x.0));
        for c in probe {
            let cid = cls.iter().position(|&(a, b)| a <= c && c <= b).map_or(ClassId::Complement, ClassId::Interval);
            let want = live[d.next(0, segs.sym(c)) as usize];
            let g = p.m.start_class(r, cid);
            ck!(ctx, g == Ok(want), "start_class({name}, {cid:?}) = {g:?}, want {want} (character {c:x})");
        }
        let total: u64 = cls.iter().map(|&(a, b)| (b - a) as u64 + 1).sum();
        let mut bad = vec![ClassId::Interval(cls.len()), ClassId::Interval(usize::MAX)];
        if total == MAXC as u64 + 1 {
            bad.push(ClassId::Complement);
        }
        for b in bad {
            let g = p.m.start_class(r, b);
            ck!(ctx, g == Err(Error::BadClassId), "start_class({name}, {b:?}) = {g:?}, want BadClassId");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19

pub fn c19(ctx: &mut Ctx) -> R {
    let st = steps(&mut ctx.rng);
    let mut p = prog(ctx, 4, st, 25, false);
    let segs = p.segs.clone();
    let reps = segs.reps();
    let n = p.terms.len();
    let mut order: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut order);
    for &i in order.iter().take(6) {
        let t = p.terms[i].clone();
        // independent closure, by char_derivative over all characters at which anything changes
        let lim = 400;
        let mut own: Vec<RegLan> = vec![t.re];
        let mut seen: HashSet<usize> = HashSet::from([addr(t.re)]);
        let mut k = 0;
        let mut over = false;
        while k < own.len() {
            let e = own[k];
            k += 1;
            let mut cs: Vec<u32> = reps.iter().map(|x| x.0).collect();
            if k < 6 {
                cs.extend(probes(&char_classes(e)));
            }
            for c in cs {
                let d = p.m.char_derivative(e, c);
                if seen.insert(addr(d)) {
                    own.push(d);
                }
            }
            if own.len() > lim {
                over = true;
                break;
            }
        }
        if over {
            continue;
        }
        let got: Vec<*const RE> = p.m.iter_derivatives(t.re).take(2 * lim).map(|r| r as *const RE).collect();
        ck!(ctx, !got.is_empty() && std::ptr::eq(got[0], t.re), "iter_derivatives(t{i}) does not start with t{i}");
        let gs: HashSet<usize> = got.iter().map(|&x| x as usize).collect();
        ck!(ctx, gs.len() == got.len(), "iter_derivatives(t{i}) repeats a term ({} of {} distinct)", gs.len(), got.len());
        ck!(ctx, gs == seen, "iter_derivatives(t{i}) yields {} terms, the closure of char_derivative has {}", gs.len(), seen.len());
        let cnt = own.len();
        // the manager's caches are warm now: ask for bounds in any order
        let mut bounds = vec![0, 1, cnt.saturating_sub(1), cnt, cnt + 1, 2 * cnt, usize::MAX, ctx.rng.below(cnt + 2)];
        ctx.rng.shuffle(&mut bounds);
        let fresh = ctx.rng.flip(1, 2);
        for b in bounds {
            let a = if fresh && b <= cnt + 1 {
                // same program in a fresh manager: nothing is cached
                let mut m = ReManager::new();
                let mut rs: Vec<RegLan> = vec![];
                for x in &p.terms {
                    let r = apply(&mut m, &x.op, &segs, &rs);
                    rs.push(r);
                }
                m.try_compile(rs[i], b)
            } else {
                p.m.try_compile(t.re, b)
            };
            // a fresh manager hands out other ids, so its derivatives may be other terms: only the
            // shared manager pins down the count exactly
            if !(fresh && b <= cnt + 1) {
                ck!(ctx, a.is_some() == (b >= cnt), "try_compile(t{i}, {b}) is_some = {}, number of derivatives {cnt}", a.is_some());
                if let Some(a) = &a {
                    ck!(ctx, a.num_states() == cnt, "try_compile(t{i}, {b}) has {} states, want {cnt}", a.num_states());
                }
            } else {
                ck!(ctx, !(b == 0 && a.is_some()), "try_compile(t{i}, 0) succeeds");
                if let Some(a) = &a {
                    ck!(ctx, a.num_states() <= b, "try_compile(t{i}, {b}) has {} states", a.num_states());
                }
            }
        }
        let a = p.m.compile(t.re);
        ck!(ctx, a.num_states() == cnt, "compile(t{i}) has {} states, want {cnt}", a.num_states());
        let _ = LoopRange::star();
    }
    Ok(())
}
