//! Generators shared by the cases: characters, strings, interval sets, and programs that
//! build regular expressions together with their denotation (a DFA over character classes).
use crate::dfa::Dfa;
use crate::rng::Rng;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::loop_ranges::*;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::*;

pub const MAXC: u32 = 0x2FFFF;

pub const POOL: &[u32] = &[
    0, 1, 2, 9, 10, 31, 32, 33, 34, 47, 48, 49, 50, 55, 57, 58, 64, 65, 66, 67, 70, 71, 90, 92, 97, 98,
    99, 100, 101, 102, 103, 117, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 0x7ff, 0x800, 0xd7ff,
    0xd800, 0xdfff, 0xe000, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0x2fffd,
    0x2fffe, 0x2ffff,
];

pub fn gen_char(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => r.inr(0, MAXC as u64) as u32,
        1 => r.inr(32, 126) as u32,
        2 => r.inr(0, 3) as u32,
        3 => (MAXC as u64 - r.inr(0, 3)) as u32,
        _ => *r.pick(POOL),
    }
}

pub fn smt(v: &[u32]) -> SmtString {
    SmtString::from(v)
}

/// sorted, disjoint intervals
pub fn gen_intervals(r: &mut Rng, maxn: usize) -> Vec<(u32, u32)> {
    let style = r.below(4);
    let n = r.below(maxn + 1);
    let mut cuts: Vec<u32> = vec![];
    let base = match style {
        0 => 0,
        1 => MAXC - 40,
        _ => r.inr(0, MAXC as u64 - 60) as u32,
    };
    for _ in 0..2 * n {
        let c = match style {
            3 => gen_char(r),
            _ => (base + r.inr(0, 40) as u32).min(MAXC),
        };
        cuts.push(c);
    }
    if style == 3 && r.flip(1, 3) {
        cuts.push(0);
        cuts.push(MAXC);
    }
    cuts.sort();
    // pair consecutive cuts; allow singletons and adjacency
    let mut out: Vec<(u32, u32)> = vec![];
    let mut i = 0;
    while i + 1 < cuts.len() {
        let (a, b) = (cuts[i], cuts[i + 1]);
        let (a, b) = if r.flip(1, 6) { (a, a) } else { (a, b) };
        let lo = match out.last() {
            Some(&(_, e)) => {
                if r.flip(1, 4) {
                    e.saturating_add(1)
                } else {
                    a.max(e.saturating_add(1))
                }
            }
            None => {
                if r.flip(1, 8) {
                    0
                } else {
                    a
                }
            }
        };
        let hi = if r.flip(1, 12) { MAXC } else { b.max(lo) };
        if lo <= MAXC && lo <= hi && hi <= MAXC {
            out.push((lo, hi));
        }
        if hi == MAXC {
            break;
        }
        i += 2;
    }
    if r.flip(1, 40) {
        return vec![(0, MAXC)];
    }
    out
}

/// all characters at which membership in the given intervals can change (both sides)
pub fn probes(iv: &[(u32, u32)]) -> Vec<u32> {
    let mut v = vec![0, 1, MAXC, MAXC - 1];
    for &(a, b) in iv {
        for x in [a.wrapping_sub(1), a, a + 1, b.wrapping_sub(1), b, b + 1, (a + b) / 2] {
            if x <= MAXC {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn gen_str(r: &mut Rng, maxlen: usize, alpha: &[u32]) -> Vec<u32> {
    let n = r.below(maxlen + 1);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

// ---------------------------------------------------------------- regular expressions

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op {
    Empty,
    Full,
    Eps,
    SigmaPlus,
    AllChars,
    Range(usize, usize, u8), // segments i..=j, and which constructor to use
    Str(Vec<(usize, bool)>), // (segment, low end?)
    Concat(usize, usize),
    ConcatList(Vec<usize>),
    Union(usize, usize),
    UnionList(Vec<usize>),
    Inter(usize, usize),
    InterList(Vec<usize>),
    Comp(usize),
    Diff(usize, usize),
    DiffList(usize, Vec<usize>),
    Star(usize),
    Plus(usize),
    Opt(usize),
    Exp(usize, u32),
    SmtLoop(usize, u32, u32),
    MkLoop(usize, u32, Option<u32>),
}

#[derive(Clone)]
pub struct Segs(pub Vec<(u32, u32)>);

impl Segs {
    pub fn k(&self) -> usize {
        self.0.len()
    }
    pub fn sym(&self, c: u32) -> usize {
        self.0.iter().position(|&(a, b)| a <= c && c <= b).unwrap()
    }
    /// both end points (and the middle) of every segment
    pub fn reps(&self) -> Vec<(u32, usize)> {
        let mut v = vec![];
        for (i, &(a, b)) in self.0.iter().enumerate() {
            v.push((a, i));
            if b > a {
                v.push((b, i));
            }
            if b > a + 1 {
                v.push((a + (b - a) / 2, i));
            }
        }
        v
    }
    pub fn lift(&self, r: &mut Rng, w: &[usize]) -> Vec<u32> {
        w.iter()
            .map(|&s| {
                let (a, b) = self.0[s];
                match r.below(4) {
                    0 | 1 => a,
                    2 => b,
                    _ => r.inr(a as u64, b as u64) as u32,
                }
            })
            .collect()
    }
    pub fn gen(r: &mut Rng, maxk: usize) -> Segs {
        let k = 2 + r.below(maxk - 1);
        let mut starts = vec![0u32];
        let style = r.below(4);
        let base = if style == 0 { 1 } else { r.inr(1, MAXC as u64 - 30) as u32 };
        while starts.len() < k {
            let c = match style {
                0 | 1 => (base + r.inr(0, 8) as u32).min(MAXC),
                2 => match r.below(4) {
                    0 => 1,
                    1 => MAXC,
                    2 => MAXC - 1,
                    _ => gen_char(r).max(1),
                },
                _ => *r.pick(&[97u32, 98, 99, 100, 101, 48, 58, 65, 123]),
            };
            if !starts.contains(&c) {
                starts.push(c);
            } else if r.flip(1, 8) {
                break;
            }
        }
        starts.sort();
        let n = starts.len();
        Segs((0..n)
            .map(|i| (starts[i], if i + 1 < n { starts[i + 1] - 1 } else { MAXC }))
            .collect())
    }
}

#[derive(Clone)]
pub struct Term {
    pub op: Op,
    pub re: RegLan,
    pub dfa: Dfa,

}

/// denotation of one construction step; None when the oracle would grow too large
pub fn denote(op: &Op, segs: &Segs, t: &[Dfa]) -> Option<Dfa> {
    let k = segs.k();
    let fold = |v: &[usize], init: Dfa, f: fn(&Dfa, &Dfa) -> Option<Dfa>| -> Option<Dfa> {
        let mut r = init;
        for &i in v {
            r = f(&r, &t[i])?;
        }
        Some(r)
    };
    match op {
        Op::Empty => Some(Dfa::empty(k)),
        Op::Full => Some(Dfa::full(k)),
        Op::Eps => Some(Dfa::epsilon(k)),
        Op::SigmaPlus => Some(Dfa::epsilon(k).comp()),
        Op::AllChars => Some(Dfa::symbols(k, &vec![true; k])),
        Op::Range(i, j, _) => {
            let mut s = vec![false; k];
            for x in *i..=*j {
                s[x] = true;
            }
            Some(Dfa::symbols(k, &s))
        }
        Op::Str(v) => {
            let mut r = Dfa::epsilon(k);
            for &(i, _) in v {
                let mut s = vec![false; k];
                s[i] = true;
                r = r.concat(&Dfa::symbols(k, &s))?;
            }
            Some(r)
        }
        Op::Concat(a, b) => t[*a].concat(&t[*b]),
        Op::ConcatList(v) => fold(v, Dfa::epsilon(k), |a, b| a.concat(b)),
        Op::Union(a, b) => t[*a].union(&t[*b]),
        Op::UnionList(v) => fold(v, Dfa::empty(k), |a, b| a.union(b)),
        Op::Inter(a, b) => t[*a].inter(&t[*b]),
        Op::InterList(v) => fold(v, Dfa::full(k), |a, b| a.inter(b)),
        Op::Comp(a) => Some(t[*a].comp()),
        Op::Diff(a, b) => t[*a].diff(&t[*b]),
        Op::DiffList(a, v) => fold(v, t[*a].clone(), |a, b| a.diff(b)),
        Op::Star(a) => t[*a].star(),
        Op::Plus(a) => t[*a].looped(1, None),
        Op::Opt(a) => t[*a].looped(0, Some(1)),
        Op::Exp(a, n) => t[*a].power(*n),
        Op::SmtLoop(a, i, j) => t[*a].looped(*i, Some(*j)),
        Op::MkLoop(a, i, j) => t[*a].looped(*i, *j),
    }
}

fn chr(segs: &Segs, s: usize, lo: bool) -> u32 {
    if lo {
        segs.0[s].0
    } else {
        segs.0[s].1
    }
}

/// apply one construction step with the methods of a manager
pub fn apply(m: &mut ReManager, op: &Op, segs: &Segs, t: &[RegLan]) -> RegLan {
    let l = |v: &[usize]| -> Vec<RegLan> { v.iter().map(|&i| t[i]).collect() };
    match op {
        Op::Empty => m.empty(),
        Op::Full => m.full(),
        Op::Eps => m.epsilon(),
        Op::SigmaPlus => m.sigma_plus(),
        Op::AllChars => m.all_chars(),
        Op::Range(i, j, how) => {
            let (a, b) = (segs.0[*i].0, segs.0[*j].1);
            match how % 4 {
                0 => m.range(a, b),
                1 => m.char_set(CharSet::range(a, b)),
                2 => m.smt_range(&SmtString::from(a), &SmtString::from(b)),
                _ => {
                    if a == b {
                        m.char(a)
                    } else {
                        m.range(a, b)
                    }
                }
            }
        }
        Op::Str(v) => {
            let s: Vec<u32> = v.iter().map(|&(i, lo)| chr(segs, i, lo)).collect();
            m.str(&smt(&s))
        }
        Op::Concat(a, b) => m.concat(t[*a], t[*b]),
        Op::ConcatList(v) => m.concat_list(l(v)),
        Op::Union(a, b) => m.union(t[*a], t[*b]),
        Op::UnionList(v) => m.union_list(l(v)),
        Op::Inter(a, b) => m.inter(t[*a], t[*b]),
        Op::InterList(v) => m.inter_list(l(v)),
        Op::Comp(a) => m.complement(t[*a]),
        Op::Diff(a, b) => m.diff(t[*a], t[*b]),
        Op::DiffList(a, v) => m.diff_list(t[*a], l(v)),
        Op::Star(a) => m.star(t[*a]),
        Op::Plus(a) => m.plus(t[*a]),
        Op::Opt(a) => m.opt(t[*a]),
        Op::Exp(a, n) => m.exp(t[*a], *n),
        Op::SmtLoop(a, i, j) => m.smt_loop(t[*a], *i, *j),
        Op::MkLoop(a, i, Some(j)) => m.mk_loop(t[*a], LoopRange::finite(*i, *j)),
        Op::MkLoop(a, i, None) => m.mk_loop(t[*a], LoopRange::infinite(*i)),
    }
}

/// the same step with the SMT-LIB-named wrappers (thread-local manager)
pub fn apply_wrapper(op: &Op, segs: &Segs, t: &[RegLan]) -> RegLan {
    let l = |v: &[usize]| -> Vec<RegLan> { v.iter().map(|&i| t[i]).collect() };
    match op {
        Op::Empty => w::re_none(),
        Op::Full => w::re_all(),
        Op::Eps => w::str_to_re(&EMPTY),
        Op::SigmaPlus => w::re_plus(w::re_allchar()),
        Op::AllChars => w::re_allchar(),
        Op::Range(i, j, _) => {
            let (a, b) = (segs.0[*i].0, segs.0[*j].1);
            w::re_range(&SmtString::from(a), &SmtString::from(b))
        }
        Op::Str(v) => {
            let s: Vec<u32> = v.iter().map(|&(i, lo)| chr(segs, i, lo)).collect();
            w::str_to_re(&smt(&s))
        }
        Op::Concat(a, b) => w::re_concat(t[*a], t[*b]),
        Op::ConcatList(v) => w::re_concat_list(l(v)),
        Op::Union(a, b) => w::re_union(t[*a], t[*b]),
        Op::UnionList(v) => w::re_union_list(l(v)),
        Op::Inter(a, b) => w::re_inter(t[*a], t[*b]),
        Op::InterList(v) => w::re_inter_list(l(v)),
        Op::Comp(a) => w::re_comp(t[*a]),
        Op::Diff(a, b) => w::re_diff(t[*a], t[*b]),
        Op::DiffList(a, v) => w::re_diff_list(t[*a], l(v)),
        Op::Star(a) => w::re_star(t[*a]),
        Op::Plus(a) => w::re_plus(t[*a]),
        Op::Opt(a) => w::re_opt(t[*a]),
        Op::Exp(a, n) => w::re_power(t[*a], *n),
        Op::SmtLoop(a, i, j) => w::re_loop(t[*a], *i, *j),
        Op::MkLoop(a, i, Some(j)) => w::re_loop(t[*a], *i, *j),
        Op::MkLoop(a, i, None) => {
            let p = w::re_power(t[*a], *i);
            w::re_concat(p, w::re_star(t[*a]))
        }
    }
}

/// Str uses single characters: the oracle needs them to be whole segments
fn single(segs: &Segs) -> Vec<usize> {
    (0..segs.k()).filter(|&i| segs.0[i].0 == segs.0[i].1).collect()
}

pub fn gen_op(r: &mut Rng, segs: &Segs, n: usize, wrappers: bool) -> Op {
    let leaf = n == 0 || r.flip(1, 6);
    if leaf {
        return match r.below(14) {
            0 => Op::Empty,
            1 => Op::Full,
            2 => Op::Eps,
            3 => Op::SigmaPlus,
            4 => Op::AllChars,
            5 | 6 => {
                let s = single(segs);
                if s.is_empty() {
                    Op::Eps
                } else {
                    let m = r.below(4);
                    Op::Str((0..m).map(|_| (*r.pick(&s), r.flip(1, 2))).collect())
                }
            }
            _ => {
                let i = r.below(segs.k());
                let j = if r.flip(1, 2) { i } else { i + r.below(segs.k() - i) };
                Op::Range(i, j, r.below(4) as u8)
            }
        };
    }
    // bias to recent terms
    let pick = |r: &mut Rng| -> usize {
        if r.flip(1, 2) {
            n - 1 - r.below(n.min(3))
        } else {
            r.below(n)
        }
    };
    let list = |r: &mut Rng, m: usize| -> Vec<usize> {
        let k = r.below(m + 1);
        (0..k).map(|_| pick(r)).collect()
    };
    let small = |r: &mut Rng| -> u32 { *r.pick(&[0u32, 0, 1, 1, 2, 2, 3, 4, 5]) };
    match r.below(22) {
        0..=4 => Op::Concat(pick(r), pick(r)),
        5 => Op::ConcatList(list(r, 4)),
        6 | 7 => Op::Union(pick(r), pick(r)),
        8 => Op::UnionList(list(r, 4)),
        9 | 10 => Op::Inter(pick(r), pick(r)),
        11 => Op::InterList(list(r, 4)),
        12 | 13 => Op::Comp(pick(r)),
        14 => Op::Diff(pick(r), pick(r)),
        15 => Op::DiffList(pick(r), list(r, 3)),
        16 | 17 => Op::Star(pick(r)),
        18 => Op::Plus(pick(r)),
        19 => Op::Opt(pick(r)),
        20 => {
            if r.flip(1, 2) {
                Op::Exp(pick(r), small(r))
            } else {
                let (i, j) = (small(r), small(r));
                Op::SmtLoop(pick(r), i, j)
            }
        }
        _ => {
            let i = small(r);
            if r.flip(1, 2) && !wrappers {
                Op::MkLoop(pick(r), i, None)
            } else {
                Op::MkLoop(pick(r), i, Some(i + small(r)))
            }
        }
    }
}

pub struct Prog {
    pub m: ReManager,
    pub segs: Segs,
    pub terms: Vec<Term>,
    pub wrappers: bool,
}

impl Prog {
    pub fn new(r: &mut Rng, maxk: usize, wrappers: bool) -> Prog {
        Prog {
            m: ReManager::new(),
            segs: Segs::gen(r, maxk),
            terms: vec![],
            wrappers,
        }
    }
    pub fn dfas(&self) -> Vec<Dfa> {
        self.terms.iter().map(|t| t.dfa.clone()).collect()
    }
    pub fn res(&self) -> Vec<RegLan> {
        self.terms.iter().map(|t| t.re).collect()
    }
    /// add one construction step, if its denotation stays small (at most `cap` states)
    pub fn step(&mut self, op: Op, cap: usize) -> bool {
        let ds: Vec<Dfa> = self.dfas();
        let dfa = match denote(&op, &self.segs, &ds) {
            Some(d) if d.n() <= cap => d,
            _ => return false,
        };
        let res = self.res();
        let re = if self.wrappers {
            apply_wrapper(&op, &self.segs, &res)
        } else {
            apply(&mut self.m, &op, &self.segs, &res)
        };

        self.terms.push(Term { op, re, dfa });
        true
    }
    pub fn grow(&mut self, r: &mut Rng, steps: usize, cap: usize) {
        // seed with a couple of leaves
        for _ in 0..2 {
            let op = gen_op(r, &self.segs, 0, self.wrappers);
            self.step(op, cap);
        }
        for _ in 0..steps {
            let op = gen_op(r, &self.segs, self.terms.len(), self.wrappers);
            self.step(op, cap);
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("segments {:x?}; ", self.segs.0);
        for (i, t) in self.terms.iter().enumerate() {
            s.push_str(&format!("t{i}={:?} ", t.op));
        }
        s
    }
}
