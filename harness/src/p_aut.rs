//! Properties of automata: C04, C13, C14
use crate::gen::*;
use crate::p_re::check_total;
use crate::rng::Rng;
use crate::{ck, Ctx, R};
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use std::collections::{HashMap, HashSet};

/// transition table over the characters at which any state's classes change
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Table {
    pub chars: Vec<u32>, // first character of each region
    pub delta: Vec<Vec<usize>>,
    pub fin: Vec<bool>,
    pub init: usize,
}

fn regions(a: &Automaton) -> Vec<u32> {
    let mut cuts = vec![0u32];
    for s in a.states() {
        for c in s.char_ranges() {
            cuts.push(c.pick());
            cuts.push(c.pick() + c.size());
        }
    }
    cuts.retain(|&c| c <= MAXC);
    cuts.sort();
    cuts.dedup();
    cuts
}

pub fn table(a: &Automaton, chars: &[u32]) -> Table {
    Table {
        chars: chars.to_vec(),
        delta: a.states().map(|s| chars.iter().map(|&c| a.next(s, c).id()).collect()).collect(),
        fin: a.states().map(|s| s.is_final()).collect(),
        init: a.initial_state().id(),
    }
}

fn reach(t: &Table) -> Vec<bool> {
    let mut v = vec![false; t.fin.len()];
    let mut q = vec![t.init];
    v[t.init] = true;
    while let Some(s) = q.pop() {
        for &d in &t.delta[s] {
            if !v[d] {
                v[d] = true;
                q.push(d);
            }
        }
    }
    v
}

/// Moore classes of residual equivalence
fn classes(t: &Table) -> Vec<usize> {
    let n = t.fin.len();
    let mut cls: Vec<usize> = t.fin.iter().map(|&f| f as usize).collect();
    let mut cnt = cls.iter().collect::<HashSet<_>>().len();
    loop {
        let mut map: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
        let mut new = vec![0; n];
        for s in 0..n {
            let sig = (cls[s], t.delta[s].iter().map(|&d| cls[d]).collect());
            let k = map.len();
            new[s] = *map.entry(sig).or_insert(k);
        }
        cls = new;
        if map.len() == cnt {
            return cls;
        }
        cnt = map.len();
    }
}

fn distinct(v: impl Iterator<Item = usize>) -> usize {
    v.collect::<HashSet<_>>().len()
}

// same language from the two given states (tables over the same characters)
fn equiv(t: &Table, s: usize, u: &Table, r: usize) -> bool {
    let mut seen = HashSet::from([(s, r)]);
    let mut q = vec![(s, r)];
    while let Some((a, b)) = q.pop() {
        if t.fin[a] != u.fin[b] {
            return false;
        }
        for k in 0..t.chars.len() {
            let x = (t.delta[a][k], u.delta[b][k]);
            if seen.insert(x) {
                q.push(x);
            }
        }
    }
    true
}

// -------------------------------------------------------------- builder programs

type Lab = (u32, u32);

#[derive(Clone, Debug, Hash)]
enum Call {
    Trans(u64, Lab, u64),
    Default(u64, u64),
    Final(u64),
}

#[derive(Default, Clone)]
struct Spec {
    names: Vec<u64>, // in order of first mention
    trans: Vec<Vec<(Lab, usize)>>,
    def: Vec<Option<usize>>,
    fin: Vec<bool>,
}

impl Spec {
    fn id(&mut self, x: u64) -> usize {
        match self.names.iter().position(|&y| y == x) {
            Some(i) => i,
            None => {
                self.names.push(x);
                self.trans.push(vec![]);
                self.def.push(None);
                self.fin.push(false);
                self.names.len() - 1
            }
        }
    }
    fn call(&mut self, c: &Call) {
        match *c {
            Call::Trans(s, l, t) => {
                let i = self.id(s);
                let j = self.id(t);
                self.trans[i].push((l, j));
            }
            Call::Default(s, t) => {
                let i = self.id(s);
                let j = self.id(t);
                self.def[i] = Some(j);
            }
            Call::Final(s) => {
                let i = self.id(s);
                self.fin[i] = true;
            }
        }
    }
    fn probes(&self) -> Vec<u32> {
        let iv: Vec<Lab> = self.trans.iter().flatten().map(|x| x.0).collect();
        probes(&iv)
    }
    // successors given explicitly
    fn explicit(&self, s: usize, c: u32) -> HashSet<usize> {
        self.trans[s].iter().filter(|((a, b), _)| *a <= c && c <= *b).map(|x| x.1).collect()
    }
    fn conflict(&self) -> bool {
        (0..self.names.len()).any(|s| self.probes().iter().any(|&c| self.explicit(s, c).len() > 1))
    }
    fn incomplete(&self) -> bool {
        (0..self.names.len()).any(|s| self.def[s].is_none() && self.probes().iter().any(|&c| self.explicit(s, c).is_empty()))
    }
    // a default declared although nothing is left uncovered
    fn useless_default(&self) -> bool {
        (0..self.names.len()).any(|s| self.def[s].is_some() && self.probes().iter().all(|&c| !self.explicit(s, c).is_empty()))
    }
}

fn apply(b: &mut AutomatonBuilder<u64>, c: &Call) {
    match *c {
        Call::Trans(s, (x, y), t) => {
            b.add_transition(&s, &CharSet::range(x, y), &t);
        }
        Call::Default(s, t) => {
            b.set_default_successor(&s, &t);
        }
        Call::Final(s) => {
            b.mark_final(&s);
        }
    }
}

fn gen_lab(r: &mut Rng, cuts: &[u32]) -> Lab {
    let i = r.below(cuts.len());
    let j = i + r.below(cuts.len() - i);
    let hi = if j + 1 < cuts.len() { cuts[j + 1] - 1 } else { MAXC };
    (cuts[i], hi)
}

fn gen_cuts(r: &mut Rng) -> Vec<u32> {
    Segs::gen(r, 5).0.iter().map(|x| x.0).collect()
}

// complete and conflict-free automaton
fn gen_good(r: &mut Rng, maxn: usize) -> (u64, Vec<Call>) {
    let n = 1 + r.below(maxn);
    let cuts = gen_cuts(r);
    let k = cuts.len();
    let mut calls = vec![];
    let few = r.flip(1, 2);
    // states that nothing leads to are common when successors are drawn from few targets
    let tgt: Vec<usize> = if few { (0..1 + r.below(n)).map(|_| r.below(n)).collect() } else { (0..n).collect() };
    let pf = *r.pick(&[0usize, 1, 2, 3, 4]);
    for s in 0..n {
        let succ: Vec<usize> = (0..k).map(|_| *r.pick(&tgt)).collect();
        let def = if r.flip(2, 3) { Some(*r.pick(&succ)) } else { None };
        let mut covered = true;
        for (i, &t) in succ.iter().enumerate() {
            if def == Some(t) && r.flip(4, 5) {
                covered = false;
                continue;
            }
            let hi = if i + 1 < k { cuts[i + 1] - 1 } else { MAXC };
            if hi > cuts[i] && r.flip(1, 4) {
                let m = r.inr(cuts[i] as u64, hi as u64 - 1) as u32;
                calls.push(Call::Trans(s as u64, (cuts[i], m), t as u64));
                calls.push(Call::Trans(s as u64, (m + 1, hi), t as u64));
            } else {
                calls.push(Call::Trans(s as u64, (cuts[i], hi), t as u64));
            }
        }
        if let Some(d) = def {
            if !covered {
                calls.push(Call::Default(s as u64, d as u64));
            }
        }
        if r.below(4) < pf {
            calls.push(Call::Final(s as u64));
        }
    }
    if r.flip(1, 2) {
        r.shuffle(&mut calls);
    }
    (r.below(n) as u64, calls)
}

fn build_good(ctx: &mut Ctx, maxn: usize) -> Result<(Automaton, Spec), String> {
    let (init, calls) = gen_good(&mut ctx.rng, maxn);
    ctx.key(&(init, &calls));
    ctx.note(|| format!("builder new({init}) {calls:x?}"));
    let mut b = AutomatonBuilder::new(&init);
    let mut spec = Spec::default();
    spec.id(init);
    for c in &calls {
        apply(&mut b, c);
        spec.call(c);
    }
    ctx.nontrivial = spec.names.len() > 1;
    match b.build() {
        Ok(a) => Ok((a, spec)),
        Err(e) => Err(format!("build rejects a complete conflict-free specification with {e:?}: new({init}) {calls:x?}")),
    }
}

fn some_automaton(ctx: &mut Ctx) -> Result<(Automaton, String), String> {
    if ctx.rng.flip(1, 3) {
        let mut p = Prog::new(&mut ctx.rng, 5, false);
        let st = 3 + ctx.rng.below(8);
        p.grow(&mut ctx.rng, st, 30);
        let i = ctx.rng.below(p.terms.len());
        let d = format!("compile(t{i}) of {}", p.describe());
        ctx.key(&d);
        ctx.nontrivial = p.terms[i].dfa.n() > 1;
        ctx.note(|| d.clone());
        if let Some(a) = p.m.try_compile(p.terms[i].re, 200) {
            return Ok((a, d));
        }
    }
    let maxn = match ctx.rng.below(6) {
        0 => 3,
        1 => 40,
        _ => 9,
    };
    let (a, _) = build_good(ctx, maxn)?;
    Ok((a, "builder automaton".into()))
}

// structural consistency of an automaton
fn check_structure(ctx: &mut Ctx, a: &Automaton, what: &str) -> R {
    let n = a.num_states();
    ck!(ctx, n >= 1 && a.states().count() == n, "{what}: states() yields {} of {n}", a.states().count());
    for (i, s) in a.states().enumerate() {
        ck!(ctx, s.id() == i && a.state(i).id() == i, "{what}: state {i} has id {}", s.id());
    }
    ck!(ctx, a.initial_state().id() < n, "{what}: initial state out of range");
    let f: Vec<usize> = a.states().filter(|s| s.is_final()).map(|s| s.id()).collect();
    ck!(ctx, a.num_final_states() == f.len(), "{what}: num_final_states = {}, {} states are final", a.num_final_states(), f.len());
    let g: Vec<usize> = a.final_states().take(n + 3).map(|s| s.id()).collect();
    ck!(ctx, g == f, "{what}: final_states = {g:?}, want {f:?}");
    Ok(())
}

pub fn c04(ctx: &mut Ctx) -> R {
    let (mut a, what) = some_automaton(ctx)?;
    let chars = regions(&a);
    let before = table(&a, &chars);
    let cls = classes(&before);
    let want = distinct(cls.iter().copied());
    let rch = reach(&before);
    let reachable = rch.iter().all(|&x| x);
    if ctx.rng.flip(1, 2) {
        // minimizing twice, or after removing unreachable states, changes nothing about the claim
        if ctx.rng.flip(1, 2) {
            a.remove_unreachable_states();
        }
    }
    a.minimize();
    check_structure(ctx, &a, "after minimize")?;
    check_total(ctx, &a, "after minimize")?;
    let mut ch2 = regions(&a);
    ch2.extend(&chars);
    ch2.sort();
    ch2.dedup();
    // compare on both partitions of the alphabet
    let after = table(&a, &chars);
    let fine = table(&a, &ch2);
    for (k, &c) in ch2.iter().enumerate() {
        let j = chars.iter().rposition(|&x| x <= c).unwrap();
        for s in 0..fine.fin.len() {
            ck!(ctx, fine.delta[s][k] == after.delta[s][j], "minimize split a class of the alphabet: {what}");
        }
    }
    ck!(ctx, equiv(&before, before.init, &after, after.init), "minimize changed the language: {what}");
    let ac = classes(&after);
    ck!(ctx, distinct(ac.iter().copied()) == after.fin.len(), "two distinct states of the result accept the same residual language ({} states, {} classes): {what}", after.fin.len(), distinct(ac.iter().copied()));
    if reachable {
        ck!(ctx, after.fin.len() == want, "minimize gives {} states, the Myhill-Nerode index is {want}: {what}", after.fin.len());
    } else {
        let idx = distinct((0..cls.len()).filter(|&s| rch[s]).map(|s| cls[s]));
        ck!(ctx, after.fin.len() >= idx && after.fin.len() <= want, "minimize gives {} states, expected between {idx} and {want}", after.fin.len());
    }
    let n1 = a.num_states();
    a.minimize();
    ck!(ctx, a.num_states() == n1, "minimize is not idempotent");
    let again = table(&a, &chars);
    ck!(ctx, equiv(&before, before.init, &again, again.init), "second minimize changed the language");
    a.remove_unreachable_states();
    a.minimize();
    let again = table(&a, &chars);
    let idx = distinct((0..cls.len()).filter(|&s| rch[s]).map(|s| cls[s]));
    ck!(ctx, equiv(&before, before.init, &again, again.init) && a.num_states() == idx, "reachable minimal automaton has {} states, Myhill-Nerode index {idx}", a.num_states());
    Ok(())
}

pub fn c13(ctx: &mut Ctx) -> R {
    let good = ctx.rng.flip(1, 2);
    let (init, mut calls) = if good {
        gen_good(&mut ctx.rng, 6)
    } else {
        let n = 1 + ctx.rng.below(4);
        let cuts = gen_cuts(&mut ctx.rng);
        let m = ctx.rng.below(10);
        let mut v = vec![];
        for _ in 0..m {
            let s = ctx.rng.below(n) as u64;
            let t = ctx.rng.below(n) as u64;
            let c = match ctx.rng.below(6) {
                0 => Call::Final(s),
                1 => Call::Default(s, t),
                _ => Call::Trans(s, gen_lab(&mut ctx.rng, &cuts), t),
            };
            v.push(c);
        }
        (ctx.rng.below(n) as u64, v)
    };
    if good {
        // small damage
        match ctx.rng.below(8) {
            0 if !calls.is_empty() => {
                let i = ctx.rng.below(calls.len());
                calls.remove(i);
            }
            1 => {
                let cuts = gen_cuts(&mut ctx.rng);
                let s = ctx.rng.below(4) as u64;
                let t = ctx.rng.below(4) as u64;
                calls.push(Call::Trans(s, gen_lab(&mut ctx.rng, &cuts), t));
            }
            2 if !calls.is_empty() => {
                let i = ctx.rng.below(calls.len());
                let c = calls[i].clone();
                calls.push(c); // repeated: conflict-free
            }
            3 => {
                let s = ctx.rng.below(4) as u64;
                let t = ctx.rng.below(4) as u64;
                calls.push(Call::Default(s, t));
            }
            4 if !calls.is_empty() => {
                // overlapping label with the same successor
                let i = ctx.rng.below(calls.len());
                if let Call::Trans(s, (x, y), t) = calls[i] {
                    let z = x + (y - x) / 2;
                    calls.push(Call::Trans(s, (z, y), t));
                }
            }
            _ => {}
        }
    }
    ctx.key(&(init, &calls));
    ctx.nontrivial = !calls.is_empty();
    ctx.note(|| format!("new({init}) {calls:x?}"));
    // build may be called in the middle and again
    let mut b = AutomatonBuilder::new(&init);
    let mut spec = Spec::default();
    spec.id(init);
    for c in calls.iter() {
        if ctx.rng.flip(1, 12) {
            ctx.note(|| format!("build before {c:x?}"));
            let r = b.build();
            check_build(ctx, r, &spec)?;
        }
        apply(&mut b, c);
        spec.call(c);
    }
    let r = b.build();
    check_build(ctx, r, &spec)?;
    if ctx.rng.flip(1, 2) {
        let r = b.build();
        check_build(ctx, r, &spec)?;
    }
    Ok(())
}

fn check_build(ctx: &mut Ctx, r: Result<Automaton, Error>, spec: &Spec) -> R {
    let bad = spec.conflict() || spec.incomplete();
    let n = spec.names.len();
    match r {
        Err(e) => {
            ck!(ctx, bad || spec.useless_default(), "build rejects a complete conflict-free specification with {e:?}");
        }
        Ok(a) => {
            ck!(ctx, !spec.conflict(), "build accepts a specification with conflicting labels");
            ck!(ctx, !spec.incomplete(), "build accepts a state that leaves characters without successor");
            check_structure(ctx, &a, "build")?;
            ck!(ctx, a.num_states() == n, "build gives {} states, {n} were named", a.num_states());
            check_total(ctx, &a, "build")?;
            let init = a.initial_state().id();
            // identify states: follow the transitions from the initial state; ids are in order of first mention
            let mut cs: Vec<u32> = spec.probes();
            cs.extend(regions(&a));
            cs.sort();
            cs.dedup();
            let mut map: HashMap<usize, usize> = HashMap::from([(0, init)]);
            let mut q = vec![0usize];
            while let Some(s) = q.pop() {
                let st = a.state(map[&s]);
                ck!(ctx, st.is_final() == spec.fin[s], "state {} : final = {}, want {}", spec.names[s], st.is_final(), spec.fin[s]);
                for &c in &cs {
                    let e = spec.explicit(s, c);
                    let want = e.iter().next().copied().or(spec.def[s]).unwrap();
                    let got = a.next(st, c).id();
                    match map.get(&want) {
                        Some(&g) => {
                            ck!(ctx, g == got, "from state {} on {c:x}: goes to automaton state {got}, want {g} (= {})", spec.names[s], spec.names[want]);
                        }
                        None => {
                            map.insert(want, got);
                            q.push(want);
                        }
                    }
                }
            }
            let imgs: HashSet<usize> = map.values().copied().collect();
            ck!(ctx, imgs.len() == map.len(), "two named states became one");
            ck!(ctx, a.num_final_states() == spec.fin.iter().filter(|&&f| f).count(), "num_final_states = {}", a.num_final_states());
        }
    }
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> R {
    let (mut a, what) = some_automaton(ctx)?;
    for round in 0..2 {
        let chars = regions(&a);
        check_structure(ctx, &a, "structure")?;
        check_total(ctx, &a, "structure")?;
        let t = table(&a, &chars);
        let n = a.num_states();
        // edges describe next
        for s in a.states() {
            let es: Vec<(ClassId, usize)> = a.edges(s).take(s.num_successors() + 5).map(|(c, d)| (c, d.id())).collect();
            let ids: Vec<ClassId> = es.iter().map(|x| x.0).collect();
            let want: Vec<ClassId> = s.char_classes().take(s.num_successors() + 5).collect();
            ck!(ctx, ids == want, "edges of {s}: classes {ids:?}, want {want:?}");
            for &c in &chars {
                let cid = s.class_of_char(c);
                let d = es.iter().find(|x| x.0 == cid).map(|x| x.1);
                ck!(ctx, d == Some(a.next(s, c).id()), "edges of {s} miss the transition on {c:x}");
            }
            for (cid, d) in &es {
                ck!(ctx, a.class_next(s, *cid).id() == *d, "edge {cid:?} of {s}");
            }
            let iv: Vec<(u32, u32)> = s.char_ranges().map(|c| (c.pick(), c.pick() + c.size() - 1)).collect();
            for c in probes(&iv) {
                let inn = iv.iter().position(|&(x, y)| x <= c && c <= y);
                let cid = inn.map_or(ClassId::Complement, ClassId::Interval);
                ck!(ctx, s.class_of_char(c) == cid, "class_of_char({c:x}) in {s}");
            }
        }
        // combined partition groups equivalent characters; one pick per class
        let p = a.combined_char_partition();
        let mut by: HashMap<ClassId, Vec<usize>> = HashMap::new();
        let mut cs = chars.clone();
        for r in p.ranges() {
            cs.push(r.pick());
            cs.push(r.pick() + r.size() - 1);
            if r.pick() > 0 {
                cs.push(r.pick() - 1);
            }
            if r.pick() + r.size() <= MAXC {
                cs.push(r.pick() + r.size());
            }
        }
        cs.extend([0, MAXC]);
        for &c in &chars {
            if c > 0 {
                cs.push(c - 1);
            }
        }
        let mut ncls = HashSet::new();
        for &c in &cs {
            let k = p.class_of_char(c);
            ncls.insert(k);
            let succ: Vec<usize> = a.states().map(|s| a.next(s, c).id()).collect();
            match by.get(&k) {
                None => {
                    by.insert(k, succ);
                }
                Some(x) => {
                    ck!(ctx, *x == succ, "combined_char_partition groups {c:x} with characters that have other successors: {what}");
                }
            }
        }
        let al = a.pick_alphabet();
        let got: Vec<ClassId> = al.iter().map(|&c| p.class_of_char(c)).collect();
        ck!(ctx, al.iter().all(|&c| c <= MAXC), "pick_alphabet out of range: {al:x?}");
        let gs: HashSet<ClassId> = got.iter().copied().collect();
        ck!(ctx, gs.len() == got.len() && gs == ncls, "pick_alphabet picks {got:?}, the classes are {ncls:?}");
        let tab = a.compile_successors();
        ck!(ctx, tab.num_states() == n && tab.alphabet_size() == al.len(), "compile_successors dimensions");
        for s in 0..n {
            for (k, &c) in al.iter().enumerate() {
                let g = tab.eval(s as u32, k as u32);
                let want = a.next(a.state(s), c).id();
                ck!(ctx, g as usize == want, "compile_successors({s},{k}) = {g}, next = {want}: {what}");
            }
        }
        // pruning
        if round == 0 {
            let rch = reach(&t);
            let keep = rch.iter().filter(|&&x| x).count();
            a.remove_unreachable_states();
            check_structure(ctx, &a, "after pruning")?;
            ck!(ctx, a.num_states() == keep, "remove_unreachable_states keeps {} states, {keep} are reachable: {what}", a.num_states());
            let u = table(&a, &chars);
            ck!(ctx, reach(&u).iter().all(|&x| x), "after pruning some state is unreachable");
            ck!(ctx, equiv(&t, t.init, &u, u.init), "remove_unreachable_states changed the language: {what}");
            let ch2 = regions(&a);
            let u2 = table(&a, &ch2);
            for (k, &c) in ch2.iter().enumerate() {
                let j = chars.iter().rposition(|&x| x <= c).unwrap();
                for s in 0..u2.fin.len() {
                    ck!(ctx, u2.delta[s][k] == u.delta[s][j], "pruning changed the classes");
                }
            }
            // kept states keep their finality and transitions: isomorphism from the initial state
            let mut map: HashMap<usize, usize> = HashMap::from([(t.init, u.init)]);
            let mut q = vec![t.init];
            while let Some(s) = q.pop() {
                let m = map[&s];
                ck!(ctx, t.fin[s] == u.fin[m], "finality of state {s} changed");
                for k in 0..chars.len() {
                    let (x, y) = (t.delta[s][k], u.delta[m][k]);
                    match map.get(&x) {
                        Some(&z) => {
                            ck!(ctx, z == y, "pruning merged or split states");
                        }
                        None => {
                            map.insert(x, y);
                            q.push(x);
                        }
                    }
                }
            }
            let img: HashSet<usize> = map.values().copied().collect();
            ck!(ctx, img.len() == keep, "pruning merged states");
        }
    }
    Ok(())
}
