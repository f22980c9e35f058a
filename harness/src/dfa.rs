//! Independent oracle: complete minimal DFAs over a finite set of symbols
//! (each symbol = one class of characters), built by textbook constructions
//! (products and subset constructions); no derivative, no rewriting.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dfa {
    pub k: usize,
    pub delta: Vec<u32>, // state * k + symbol
    pub acc: Vec<bool>,
    // initial state is always 0 after minimize
}

pub const CAP: usize = 400;

impl Dfa {
    pub fn n(&self) -> usize {
        self.acc.len()
    }
    pub fn next(&self, s: u32, c: usize) -> u32 {
        self.delta[s as usize * self.k + c]
    }
    pub fn empty(k: usize) -> Dfa {
        Dfa { k, delta: vec![0; k], acc: vec![false] }
    }
    pub fn full(k: usize) -> Dfa {
        Dfa { k, delta: vec![0; k], acc: vec![true] }
    }
    pub fn epsilon(k: usize) -> Dfa {
        Dfa { k, delta: vec![1; 2 * k], acc: vec![true, false] }
    }
    /// one-character words whose character is in the given symbol set
    pub fn symbols(k: usize, set: &[bool]) -> Dfa {
        let mut delta = vec![2u32; 3 * k];
        for c in 0..k {
            if set[c] {
                delta[c] = 1;
            }
        }
        Dfa { k, delta, acc: vec![false, true, false] }.minimize()
    }
    /// complete a partial construction: remove unreachable, merge equivalent, renumber in BFS order
    pub fn minimize(&self) -> Dfa {
        let k = self.k;
        // reachable, BFS order
        let mut idx = vec![u32::MAX; self.n()];
        let mut order = vec![0u32];
        idx[0] = 0;
        let mut i = 0;
        while i < order.len() {
            let s = order[i];
            for c in 0..k {
                let t = self.next(s, c);
                if idx[t as usize] == u32::MAX {
                    idx[t as usize] = order.len() as u32;
                    order.push(t);
                }
            }
            i += 1;
        }
        let n = order.len();
        // Moore refinement
        let mut cls: Vec<u32> = order.iter().map(|&s| self.acc[s as usize] as u32).collect();
        let mut count = {
            let mut c = cls.clone();
            c.sort();
            c.dedup();
            c.len()
        };
        loop {
            let mut map: HashMap<Vec<u32>, u32> = HashMap::new();
            let mut new = vec![0u32; n];
            for j in 0..n {
                let mut sig = Vec::with_capacity(k + 1);
                sig.push(cls[j]);
                for c in 0..k {
                    sig.push(cls[idx[self.next(order[j], c) as usize] as usize]);
                }
                let m = map.len() as u32;
                new[j] = *map.entry(sig).or_insert(m);
            }
            let nc = map.len();
            cls = new;
            if nc == count {
                break;
            }
            count = nc;
        }
        // renumber by BFS from class of 0 : canonical
        let mut rep = vec![usize::MAX; count];
        for j in 0..n {
            if rep[cls[j] as usize] == usize::MAX {
                rep[cls[j] as usize] = j;
            }
        }
        let mut num = vec![u32::MAX; count];
        let mut ord = vec![cls[0]];
        num[cls[0] as usize] = 0;
        let mut delta = vec![];
        let mut acc = vec![];
        let mut i = 0;
        while i < ord.len() {
            let j = rep[ord[i] as usize];
            acc.push(self.acc[order[j] as usize]);
            for c in 0..k {
                let t = cls[idx[self.next(order[j], c) as usize] as usize];
                if num[t as usize] == u32::MAX {
                    num[t as usize] = ord.len() as u32;
                    ord.push(t);
                }
                delta.push(num[t as usize]);
            }
            i += 1;
        }
        Dfa { k, delta, acc }
    }
    pub fn comp(&self) -> Dfa {
        let mut d = self.clone();
        for a in d.acc.iter_mut() {
            *a = !*a
        }
        d
    }
    pub fn product(&self, o: &Dfa, f: impl Fn(bool, bool) -> bool) -> Option<Dfa> {
        let k = self.k;
        let mut map: HashMap<(u32, u32), u32> = HashMap::new();
        let mut ord = vec![(0u32, 0u32)];
        map.insert((0, 0), 0);
        let mut delta = vec![];
        let mut acc = vec![];
        let mut i = 0;
        while i < ord.len() {
            let (a, b) = ord[i];
            acc.push(f(self.acc[a as usize], o.acc[b as usize]));
            for c in 0..k {
                let t = (self.next(a, c), o.next(b, c));
                let m = map.len() as u32;
                let id = *map.entry(t).or_insert_with(|| {
                    ord.push(t);
                    m
                });
                delta.push(id);
            }
            i += 1;
            if ord.len() > CAP * 20 {
                return None;
            }
        }
        let d = Dfa { k, delta, acc }.minimize();
        if d.n() > CAP {
            None
        } else {
            Some(d)
        }
    }
    pub fn union(&self, o: &Dfa) -> Option<Dfa> {
        self.product(o, |a, b| a || b)
    }
    pub fn inter(&self, o: &Dfa) -> Option<Dfa> {
        self.product(o, |a, b| a && b)
    }
    pub fn diff(&self, o: &Dfa) -> Option<Dfa> {
        self.product(o, |a, b| a && !b)
    }
    pub fn concat(&self, o: &Dfa) -> Option<Dfa> {
        // subset construction on (state of self, set of states of o)
        let k = self.k;
        let start = (0u32, if self.acc[0] { vec![0u32] } else { vec![] });
        let mut map: HashMap<(u32, Vec<u32>), u32> = HashMap::new();
        map.insert(start.clone(), 0);
        let mut ord = vec![start];
        let mut delta = vec![];
        let mut acc = vec![];
        let mut i = 0;
        while i < ord.len() {
            let (a, bs) = ord[i].clone();
            acc.push(bs.iter().any(|&b| o.acc[b as usize]));
            for c in 0..k {
                let a2 = self.next(a, c);
                let mut v: Vec<u32> = bs.iter().map(|&b| o.next(b, c)).collect();
                if self.acc[a2 as usize] {
                    v.push(0);
                }
                v.sort();
                v.dedup();
                let t = (a2, v);
                let m = map.len() as u32;
                let id = match map.get(&t) {
                    Some(x) => *x,
                    None => {
                        map.insert(t.clone(), m);
                        ord.push(t);
                        m
                    }
                };
                delta.push(id);
            }
            i += 1;
            if ord.len() > CAP * 10 {
                return None;
            }
        }
        let d = Dfa { k, delta, acc }.minimize();
        if d.n() > CAP {
            None
        } else {
            Some(d)
        }
    }
    pub fn star(&self) -> Option<Dfa> {
        // states: None = fresh initial (accepting), Some(set)
        let k = self.k;
        let mut map: HashMap<Vec<u32>, u32> = HashMap::new();
        // encode the fresh initial state by the singleton {u32::MAX}
        let start = vec![u32::MAX];
        map.insert(start.clone(), 0);
        let mut ord = vec![start];
        let mut delta = vec![];
        let mut acc = vec![];
        let mut i = 0;
        while i < ord.len() {
            let set = ord[i].clone();
            let fresh = set == [u32::MAX];
            let src: Vec<u32> = if fresh { vec![0] } else { set };
            acc.push(fresh || src.iter().any(|&b| self.acc[b as usize]));
            for c in 0..k {
                let mut v: Vec<u32> = src.iter().map(|&b| self.next(b, c)).collect();
                if v.iter().any(|&b| self.acc[b as usize]) {
                    v.push(0);
                }
                v.sort();
                v.dedup();
                let m = map.len() as u32;
                let id = match map.get(&v) {
                    Some(x) => *x,
                    None => {
                        map.insert(v.clone(), m);
                        ord.push(v);
                        m
                    }
                };
                delta.push(id);
            }
            i += 1;
            if ord.len() > CAP * 10 {
                return None;
            }
        }
        let d = Dfa { k, delta, acc }.minimize();
        if d.n() > CAP {
            None
        } else {
            Some(d)
        }
    }
    pub fn power(&self, n: u32) -> Option<Dfa> {
        let mut r = Dfa::epsilon(self.k);
        for _ in 0..n {
            let r2 = r.concat(self)?;
            if r2 == r {
                return Some(r);
            }
            r = r2;
        }
        Some(r)
    }
    /// L^i u ... u L^j   (j = None: unbounded)
    pub fn looped(&self, i: u32, j: Option<u32>) -> Option<Dfa> {
        let base = self.power(i)?;
        match j {
            None => base.concat(&self.star()?),
            Some(j) => {
                if i > j {
                    return Some(Dfa::empty(self.k));
                }
                let opt = Dfa::epsilon(self.k).union(self)?;
                base.concat(&opt.power(j - i)?)
            }
        }
    }
    pub fn accepts(&self, w: &[usize]) -> bool {
        let mut s = 0;
        for &c in w {
            s = self.next(s, c);
        }
        self.acc[s as usize]
    }
    pub fn is_empty(&self) -> bool {
        // minimal: empty iff single rejecting state
        self.n() == 1 && !self.acc[0]
    }
    /// residual language of state s is non-empty
    pub fn live(&self) -> Vec<bool> {
        let n = self.n();
        let mut l = self.acc.clone();
        loop {
            let mut ch = false;
            for s in 0..n {
                if !l[s] && (0..self.k).any(|c| l[self.next(s as u32, c) as usize]) {
                    l[s] = true;
                    ch = true;
                }
            }
            if !ch {
                return l;
            }
        }
    }
    pub fn included_in(&self, o: &Dfa) -> bool {
        match self.product(o, |a, b| a && !b) {
            Some(d) => d.is_empty(),
            None => true, // too big: undecided, treated as included
        }
    }
}
