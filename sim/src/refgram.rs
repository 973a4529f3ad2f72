//! Context-free grammars, their generator, and the textbook FIRST/FOLLOW/LL(1) analysis
//! over ordered collections (the oracle for C01-C03, C09).
use crate::sched::{chance, choose, pick, range};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Sym { N(usize), T(usize) }
pub type Prod = (usize, Vec<Sym>);

#[derive(Clone, Debug, Default)]
pub struct Gram {
    pub nts: Vec<(usize, Option<String>)>,
    pub terms: Vec<(usize, String)>,
    pub prods: Vec<Prod>,
}

pub type Set = BTreeSet<usize>;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Analysis {
    pub nullable: BTreeSet<usize>,
    pub first: BTreeMap<usize, Set>,
    pub pfirst: BTreeMap<Prod, (bool, Set)>,
    pub follow: BTreeMap<usize, Set>,
}

impl Gram {
    pub fn set(&self) -> BTreeSet<Prod> { self.prods.iter().cloned().collect() }

    pub fn first_of(&self, a: &Analysis, s: &[Sym]) -> (bool, Set) {
        let mut set = Set::new();
        for x in s {
            match x {
                Sym::T(t) => { set.insert(*t); return (false, set); }
                Sym::N(n) => {
                    set.extend(a.first[n].iter());
                    if !a.nullable.contains(n) { return (false, set); }
                }
            }
        }
        (true, set)
    }

    pub fn analyse(&self) -> Analysis {
        let mut a = Analysis::default();
        for (n, _) in &self.nts { a.first.insert(*n, Set::new()); a.follow.insert(*n, Set::new()); }
        let prods = self.set();
        loop {
            let before = (a.nullable.len(), a.first.values().map(|s| s.len()).sum::<usize>());
            for (l, r) in &prods {
                let (e, s) = self.first_of(&a, r);
                if e { a.nullable.insert(*l); }
                a.first.get_mut(l).unwrap().extend(s);
            }
            if before == (a.nullable.len(), a.first.values().map(|s| s.len()).sum::<usize>()) { break; }
        }
        for p in &prods { let f = self.first_of(&a, &p.1); a.pfirst.insert(p.clone(), f); }
        if a.follow.contains_key(&0) { a.follow.get_mut(&0).unwrap().insert(1); }
        loop {
            let before: usize = a.follow.values().map(|s| s.len()).sum();
            for (l, r) in &prods {
                for i in 0..r.len() {
                    if let Sym::N(b) = r[i] {
                        let (e, mut s) = self.first_of(&a, &r[i + 1..]);
                        if e { s.extend(a.follow[l].iter()); }
                        a.follow.get_mut(&b).unwrap().extend(s);
                    }
                }
            }
            if before == a.follow.values().map(|s| s.len()).sum::<usize>() { break; }
        }
        a
    }

    /// For every cell: the applicable productions, each with the number of ways (FIRST, FOLLOW) it applies.
    pub fn cells(&self, a: &Analysis) -> BTreeMap<(usize, usize), BTreeMap<Prod, u32>> {
        let mut m: BTreeMap<(usize, usize), BTreeMap<Prod, u32>> = BTreeMap::new();
        for p in self.set() {
            let (e, s) = &a.pfirst[&p];
            for t in s { *m.entry((p.0, *t)).or_default().entry(p.clone()).or_insert(0) += 1; }
            if *e { for t in &a.follow[&p.0] { *m.entry((p.0, *t)).or_default().entry(p.clone()).or_insert(0) += 1; } }
        }
        m
    }
    pub fn show(&self) -> String {
        let mut v: Vec<String> = vec![];
        for (l, r) in &self.prods {
            let rs: Vec<String> = r.iter().map(|s| match s { Sym::N(n) => format!("n{}", n), Sym::T(t) => format!("t{}", t) }).collect();
            v.push(format!("n{}->{}", l, if rs.is_empty() { "ε".into() } else { rs.join(" ") }));
        }
        let n: Vec<usize> = self.nts.iter().map(|x| x.0).collect();
        format!("nonterminals {:?}; {}", n, v.join("; "))
    }
}

fn gen_ids(n: usize, first: usize, sparse: bool) -> Vec<usize> {
    if !sparse { return (first..first + n).collect(); }
    if chance(15) {
        // ids anywhere in the whole range, neighbours of the powers of two included
        let mut s = BTreeSet::from([first]);
        while s.len() < n {
            let base = 1usize << [8, 15, 16, 24, 31, 32, 48, 63][choose(8) as usize];
            s.insert((if chance(10) { usize::MAX } else { base }).wrapping_add(choose(2 * n as u64) as usize).wrapping_sub(n).max(first));
        }
        return s.into_iter().collect();
    }
    let mut v: Vec<usize> = vec![];
    let mut x = first;
    for _ in 0..n { v.push(x); x += 1 + [0, 0, 1, 3, 60, 1000][choose(6) as usize]; }
    v
}

/// Any grammar: small ones of every shape, long unit chains, and occasionally large ones.
pub fn gen() -> Gram {
    let shape = choose(10); // 0..5 random small, 6 unit chain, 7 nullable chain, 8 large, 9 mutual recursion with epsilon
    let size = choose(250);
    let shape = match size { 0 => 6 + choose(2), 1..=3 => 10, 4..=6 => 11, _ => shape }; // rarely a very long chain, a wide alphabet or long right sides
    let (nn, nt) = match shape { 6 | 7 if size == 0 => (range(40, 200) as usize, range(1, 5) as usize), 10 => (range(2, 6) as usize, range(60, 300) as usize), 11 => (range(2, 8) as usize, range(2, 8) as usize), 6 | 7 => (range(2, 14) as usize, range(1, 5) as usize), 8 => (range(8, 30) as usize, range(4, 30) as usize), _ => (range(1, 6) as usize, range(1, 4) as usize) };
    let sparse_n = chance(25);
    let sparse_t = chance(25);
    let nts = gen_ids(nn, 0, sparse_n);
    let base_t = if chance(20) { 2 + choose(40) as usize } else { 2 };
    let terms = gen_ids(nt, base_t, sparse_t);
    let mut g = Gram::default();
    for (i, n) in nts.iter().enumerate() {
        let named = i == 0 || !chance(35);
        g.nts.push((*n, if named { Some(format!("r{}", i)) } else { None }));
    }
    for (i, t) in terms.iter().enumerate() { g.terms.push((*t, format!("T{}", i))); }
    let eps = [5u64, 20, 50][choose(3) as usize];
    let ntp = [50u64, 25, 80][choose(3) as usize];
    let sym = || -> Sym { if chance(ntp) { Sym::N(pick(&nts)) } else { Sym::T(pick(&terms)) } };
    match shape {
        6 | 7 => {
            // n0 -> n1 -> ... with the interesting part at the far end, numbered in a random direction
            let mut order = nts.clone();
            for i in (2..order.len()).rev() { let j = 1 + choose(i as u64) as usize; order.swap(i, j); }
            for w in 0..order.len() - 1 {
                let (a, b) = (order[w], order[w + 1]);
                let mut r = vec![];
                if shape == 7 && chance(60) { r.push(Sym::N(pick(&order[w..]))); }
                r.push(Sym::N(b));
                if chance(30) { r.push(sym()); }
                g.prods.push((a, r));
                if chance(15) { g.prods.push((a, vec![sym()])); }
            }
            let last = *order.last().unwrap();
            if chance(60) || shape == 7 { g.prods.push((last, vec![])); }
            g.prods.push((last, vec![Sym::T(pick(&terms))]));
            if chance(30) { g.prods.push((last, vec![Sym::N(order[0]), sym()])); }
        }
        11 => {
            // right sides long enough for what decides to stand anywhere in them, behind nullable symbols or not
            let nullable: Vec<usize> = nts[1..].iter().copied().filter(|_| chance(70)).collect();
            for n in &nts {
                if nullable.contains(n) { g.prods.push((*n, vec![])); }
                for _ in 0..range(1, 3) {
                    let len = range(5, 90);
                    let r = (0..len).map(|_| if !nullable.is_empty() && chance(97) { Sym::N(pick(&nullable)) } else { sym() }).collect();
                    g.prods.push((*n, r));
                }
                if chance(40) { g.prods.push((*n, vec![sym()])); }
            }
        }
        _ => {
            for n in &nts {
                let k = if chance(8) { 0 } else { range(1, if shape == 10 { if chance(10) { 300 } else { 60 } } else { 3 }) };
                for _ in 0..k {
                    if chance(eps) { g.prods.push((*n, vec![])); continue; }
                    let len = [1, 2, 2, 3, 3, 4, 6][choose(7) as usize];
                    let mut r: Vec<Sym> = (0..len).map(|_| sym()).collect();
                    if shape == 9 { r.insert(0, Sym::N(*n)); if chance(50) { r.push(Sym::N(*n)); } }
                    g.prods.push((*n, r));
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    g.prods.retain(|p| seen.insert(p.clone()));
    g
}

/// Change a grammar a little (for "analyse, change, analyse again" histories).
pub fn edit(g: &Gram) -> (Gram, Option<Prod>, Option<Prod>) {
    let mut h = g.clone();
    let ids: Vec<usize> = g.nts.iter().map(|x| x.0).collect();
    let ts: Vec<usize> = g.terms.iter().map(|x| x.0).collect();
    let mut removed = None;
    if !h.prods.is_empty() && chance(40) { let i = choose(h.prods.len() as u64) as usize; removed = Some(h.prods.remove(i)); }
    let l = pick(&ids);
    let len = choose(3);
    let r: Vec<Sym> = (0..len).map(|_| if chance(50) { Sym::N(pick(&ids)) } else { Sym::T(pick(&ts)) }).collect();
    let p = (l, r);
    let mut added = None;
    if !h.prods.contains(&p) { h.prods.push(p.clone()); added = Some(p); }
    (h, removed, added)
}
