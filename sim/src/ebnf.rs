//! EBNF grammars: generator, the tree they are given to syntaxis as, bounded-language
//! semantics, an independent lowering, and a reference LL(1) parser.
use crate::refgram::{Gram, Prod, Sym};
use crate::reftree::Tree;
use crate::sched::{chance, choose, pick, range};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Atom { Tok(usize), Rule(usize), Block(Vec<Alt>), Lit(String) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Suf { One, Opt, Star, Plus }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem { pub atom: Atom, pub suf: Suf, pub lazy: bool }
pub type Alt = Vec<Elem>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Decl { T(usize), R(usize), /** a token declared again */ D(usize) }
#[derive(Clone, Debug, Default)]
pub struct Ebnf { pub toks: Vec<(String, String)>, pub rules: Vec<(String, Vec<Alt>)>, pub order: Vec<Decl>, pub dups: Vec<(usize, String)> }

/// Token kinds a grammar tree is written with.
pub struct Ids { pub rule_ref: usize, pub token_ref: usize, pub colon: usize, pub semi: usize, pub or: usize, pub eps: usize, pub star: usize, pub plus: usize, pub quest: usize, pub lp: usize, pub rp: usize, pub lit: usize, pub reg: usize, pub ws: usize }
/// the hand-written lexer's kinds (used in the grammar trees the builder reads)
pub const HAND: Ids = Ids { rule_ref: 7, token_ref: 6, colon: 8, semi: 10, or: 9, eps: 22, star: 11, plus: 12, quest: 13, lp: 16, rp: 17, lit: 19, reg: 21, ws: 4 };
/// the self-hosted lexer's kinds
pub const V1: Ids = Ids { rule_ref: 2, token_ref: 3, colon: 4, semi: 5, or: 6, eps: 7, star: 8, plus: 9, quest: 10, lp: 11, rp: 12, lit: 13, reg: 14, ws: 15 };

pub const PATTERNS: &[&str] = &["[a-z]+", "x", "\\/\\/[^\\n]*", "a\\/b", "\\+", "ε|epsilon", "\"[^\"]*\"", "[ \\r\\n\\t\\f]+", "(a|b)*", "\\\\", "中+", "#", "'", "[0-9]+(\\.[0-9]+)?", "/"];

/// How often alternatives are empty, long or many.
#[derive(Clone, Copy)]
struct Form { eps: u64, long: bool }
/// Sub-expressions to use again, and how much more may be written in all.
struct Pool { items: Vec<Elem>, left: i64 }
fn size(x: &Elem) -> i64 { match &x.atom { Atom::Block(b) => 1 + b.iter().flatten().map(size).sum::<i64>(), _ => 1 } }
fn blocks(d: u64, e: &Ebnf, pool: &mut Pool, f: Form) -> Vec<Alt> {
    let n = if f.long && pool.left > 0 && chance(20) { range(4, 40) } else { [1, 2, 2, 3][choose(4) as usize] };
    (0..n).map(|_| alt(d, e, pool, f)).collect()
}
fn alt(d: u64, e: &Ebnf, pool: &mut Pool, f: Form) -> Alt {
    if chance(f.eps) { return vec![]; }
    // long ones are mostly optional, so that every place in them shows in short strings
    if f.long && pool.left > 0 && chance(20) { return (0..range(4, 40)).map(|_| { let mut x = elem(0, e, pool, f); if chance(90) { x.suf = [Suf::Opt, Suf::Opt, Suf::Star][choose(3) as usize]; } else if x.suf == Suf::One { x.lazy = false; } x }).collect(); }
    let n = [1, 1, 2, 2, 3][choose(5) as usize];
    (0..n).map(|_| elem(d, e, pool, f)).collect()
}
fn suffix() -> (Suf, bool) {
    let s = [Suf::One, Suf::One, Suf::Opt, Suf::Star, Suf::Plus][choose(5) as usize];
    (s, s != Suf::One && chance(25))
}
fn elem(d: u64, e: &Ebnf, pool: &mut Pool, f: Form) -> Elem {
    // the builder shares equal sub-expressions: make them meet
    if !pool.items.is_empty() && pool.left > 0 && chance(30) {
        let mut x = pick(&pool.items);
        if chance(40) { let (s, l) = suffix(); x.suf = s; x.lazy = l; }
        // ... and almost meet
        if chance(25) { if let Atom::Block(b) = &mut x.atom { tweak(b, e); if pool.items.len() < 400 { pool.items.push(x.clone()); } } }
        pool.left -= size(&x);
        return x;
    }
    let k = choose(10);
    let atom = if k < 5 || e.rules.is_empty() { Atom::Tok(choose(e.toks.len() as u64) as usize) }
        else if k < 7 || d == 0 { Atom::Rule(choose(e.rules.len() as u64) as usize) }
        else { Atom::Block(blocks(d - 1, e, pool, f)) };
    let (suf, lazy) = suffix();
    let x = Elem { atom, suf, lazy };
    pool.left -= 1;
    pool.items.push(x.clone());
    x
}
/// A small difference somewhere in a group.
fn tweak(b: &mut Vec<Alt>, e: &Ebnf) {
    let i = choose(b.len() as u64) as usize;
    let n = b[i].len();
    match choose(8) {
        0 => { let j = choose(b.len() as u64) as usize; b.swap(i, j); }
        1 => if b.len() > 1 { b.remove(i); },
        2 => { let a = b[i].clone(); let j = choose(b.len() as u64 + 1) as usize; b.insert(j, a); }
        3 => { b[i].pop(); }
        4 => { let (suf, lazy) = suffix(); let at = choose(n as u64 + 1) as usize; b[i].insert(at, Elem { atom: Atom::Tok(choose(e.toks.len() as u64) as usize), suf, lazy }); }
        _ => if n > 0 {
            let x = &mut b[i][choose(n as u64) as usize];
            match &mut x.atom {
                Atom::Block(c) if chance(60) => tweak(c, e),
                _ if chance(30) => { let (s, l) = suffix(); x.suf = s; x.lazy = l; }
                a => *a = Atom::Tok(choose(e.toks.len() as u64) as usize),
            }
        }
    }
}
fn interleave(nt: usize, nr: usize) -> Vec<Decl> {
    let mode = choose(3);
    let (mut i, mut j) = (0, 0);
    let mut v = vec![];
    while i < nr || j < nt {
        let rule = if i >= nr { false } else if j >= nt { true } else { match mode { 0 => true, 1 => false, _ => chance(50) } };
        if rule { v.push(Decl::R(i)); i += 1; } else { v.push(Decl::T(j)); j += 1; }
    }
    v
}

/// Any EBNF grammar.
pub fn gen_any() -> Ebnf {
    let large = choose(80) == 0;
    let (long, deep) = (choose(60) == 0, choose(60) == 0);
    let nt = if large { (if chance(15) { range(100, 400) } else { range(20, 90) }) as usize } else { [2, 3, 1, 4, 3, 2, 6, 8][choose(8) as usize] };
    let nr = if large { range(10, 50) } else { range(1, 5) } as usize;
    let mut e = Ebnf::default();
    let (tn, rn) = names(nt, nr);
    for t in tn { e.toks.push((t, pick::<&str>(PATTERNS).to_string())); }
    for r in rn { e.rules.push((r, vec![])); }
    let mut pool = Pool { items: vec![], left: 900 };
    let f = Form { eps: [5, 15, 35][choose(3) as usize], long };
    let depth = if deep { range(3, 8) } else { choose(3) };
    for i in 0..nr {
        let mut b = blocks(depth.min(3), &e, &mut pool, f);
        // groups inside groups
        for _ in 3..depth { let (suf, lazy) = suffix(); let mut a = if chance(50) { vec![] } else { vec![elem(0, &e, &mut pool, f)] }; a.insert(choose(a.len() as u64 + 1) as usize, Elem { atom: Atom::Block(b), suf, lazy }); b = vec![a]; if chance(50) { b.push(alt(0, &e, &mut pool, f)); } }
        e.rules[i].1 = b;
    }
    // two long groups that differ in one place
    if choose(40) == 0 {
        let opt = |e: &Ebnf| { let (suf, lazy) = if chance(80) { (Suf::Opt, false) } else { suffix() }; Elem { atom: Atom::Tok(choose(e.toks.len() as u64) as usize), suf, lazy } };
        let b: Vec<Alt> = (0..range(1, 3)).map(|_| (0..range(1, 24)).map(|_| opt(&e)).collect()).collect();
        let mut c = b.clone();
        tweak(&mut c, &e);
        let i = choose(nr as u64) as usize;
        for x in [b, c] {
            let (suf, lazy) = suffix();
            let g = Elem { atom: Atom::Block(x), suf, lazy };
            let at = if chance(50) { i } else { choose(nr as u64) as usize };
            let a = if chance(60) { vec![g] } else { vec![opt(&e), g] };
            e.rules[at].1.push(a);
        }
    }
    e.order = interleave(nt, nr);
    if chance(15) {
        for k in 0..range(1, 2) as usize {
            let t = choose(nt as u64) as usize;
            let first = e.order.iter().position(|d| *d == Decl::T(t)).unwrap();
            let at = range(first as u64 + 1, e.order.len() as u64) as usize;
            e.dups.push((t, pick::<&str>(PATTERNS).to_string()));
            e.order.insert(at, Decl::D(k));
        }
    }
    e
}
pub fn tok_name(i: usize) -> String { format!("T{}{}", ["AA", "BB", "CC", "DD", "EE", "FF", "GG", "HH", "II", "JJ", "KK", "LL", "MM", "NN", "OO", "PP", "QQ", "RR", "SS", "UU"][i % 20], if i < 20 { String::new() } else { (i / 20).to_string() }) }

/// Names for so many tokens and rules; sometimes ones that differ in little.
fn names(nt: usize, nr: usize) -> (Vec<String>, Vec<String>) {
    let close = chance(25);
    let list = |n: usize, pool: &[&str], plain: &dyn Fn(usize) -> String| -> Vec<String> {
        if !close { return (0..n).map(plain).collect(); }
        let mut p: Vec<&str> = pool.to_vec();
        (0..n).map(|i| if p.is_empty() { plain(i) } else { p.remove(choose(p.len() as u64) as usize).to_string() }).collect()
    };
    let t = list(nt, &["AA", "Aa", "AB", "Ab", "A_", "A1", "A_A", "AAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAB", "X0", "X_", "X1", "X10", "TOK", "TOK_", "Rule0", "RULE_REF", "Block", "START", "STOP"], &tok_name);
    let r = list(nr, &["aa", "aA", "ab", "aB", "a_", "a1", "a_a", "aaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "r0", "r_", "r1", "r10", "rule", "rule_", "block", "element", "x0", "tok", "start"], &|i| format!("rule{}", i));
    (t, r)
}

/// An LL(1) grammar in which every rule the start rule needs is productive.
pub fn gen_ll1() -> (Ebnf, Gram) {
    for _ in 0..12 {
        let e = try_ll1();
        let g = e.lower();
        if is_ll1(&g) && heights(&g).contains_key(&0) { return (e, g); }
    }
    // r0: A r1* (B E+)? ; r1: C | D r1 F ;
    let t = |i| Elem { atom: Atom::Tok(i), suf: Suf::One, lazy: false };
    let r = |i, s| Elem { atom: Atom::Rule(i), suf: s, lazy: false };
    let mut e = Ebnf::default();
    for i in 0..6 { e.toks.push((tok_name(i), "x".into())); }
    let tail = Elem { atom: Atom::Block(vec![vec![t(1), Elem { suf: Suf::Plus, ..t(4) }]]), suf: Suf::Opt, lazy: false };
    e.rules.push(("rule0".into(), vec![vec![t(0), r(1, Suf::Star), tail]]));
    e.rules.push(("rule1".into(), vec![vec![t(2)], vec![t(3), r(1, Suf::One), t(5)]]));
    e.order = interleave(6, 2);
    let g = e.lower();
    assert!(is_ll1(&g));
    (e, g)
}
fn try_ll1() -> Ebnf {
    let nr = range(1, 4) as usize;
    let nt = range(3, 14) as usize;
    let mut e = Ebnf::default();
    let (tn, rn) = names(nt, nr);
    for t in tn { e.toks.push((t, "x".into())); }
    for r in rn { e.rules.push((r, vec![])); }
    let mut next = choose(nt as u64) as usize;
    fn el(e: &Ebnf, d: u64, next: &mut usize, lead: bool, me: usize) -> Elem {
        let k = choose(10);
        let nt = e.toks.len();
        let mut tok = || { *next += 1; Atom::Tok(*next % nt) };
        let atom = if k < 5 || (lead && k < 7) { tok() }
            else if k < 8 || d == 0 {
                // mostly refer to later rules so that grammars are productive
                let r = if chance(70) && me + 1 < e.rules.len() { range(me as u64 + 1, e.rules.len() as u64 - 1) as usize } else if lead { return Elem { atom: tok(), suf: Suf::One, lazy: false } } else { choose(e.rules.len() as u64) as usize };
                Atom::Rule(r)
            }
            else { Atom::Block(bl(e, d - 1, next, me)) };
        let (suf, lazy) = suffix();
        Elem { atom, suf: if lead && chance(50) { Suf::One } else { suf }, lazy: lazy && suf != Suf::One }
    }
    fn bl(e: &Ebnf, d: u64, next: &mut usize, me: usize) -> Vec<Alt> {
        let n = [1, 2, 2, 3][choose(4) as usize];
        (0..n).map(|i| {
            if i > 0 && chance(12) { return vec![]; }
            let m = [1, 2, 2, 3, 4][choose(5) as usize];
            (0..m).map(|j| el(e, d, next, j == 0, me)).collect()
        }).collect()
    }
    for i in 0..nr { let b = bl(&e, 2, &mut next, i); e.rules[i].1 = b; }
    e.order = interleave(nt, nr);
    for x in fix_lazy(&mut e) { let _ = x; }
    e
}
fn fix_lazy(e: &mut Ebnf) -> Vec<()> {
    fn go(a: &mut Vec<Alt>) { for x in a.iter_mut().flatten() { if x.suf == Suf::One { x.lazy = false; } if let Atom::Block(b) = &mut x.atom { go(b); } } }
    for r in &mut e.rules { go(&mut r.1); }
    vec![]
}
pub fn is_ll1(g: &Gram) -> bool { let a = g.analyse(); g.cells(&a).values().all(|p| p.len() == 1 && p.values().all(|w| *w == 1)) }

impl Ebnf {
    pub fn tree(&self, k: &Ids) -> Tree {
        let kids = self.order.iter().map(|d| match d {
            Decl::R(i) => Tree::rule(1, "parser_rule", vec![Tree::tok(k.rule_ref, "RULE_REF", &self.rules[*i].0), Tree::tok(k.colon, "COLON", ":"), self.block_tree(&self.rules[*i].1, k), Tree::tok(k.semi, "SEMI", ";")]),
            Decl::T(_) | Decl::D(_) => {
                let (n, p) = match d { Decl::T(i) => (&self.toks[*i].0, &self.toks[*i].1), Decl::D(j) => (&self.toks[self.dups[*j].0].0, &self.dups[*j].1), _ => unreachable!() };
                Tree::rule(7, "lexer_rule", vec![Tree::tok(k.token_ref, "TOKEN_REF", n), Tree::tok(k.colon, "COLON", ":"), Tree::rule(8, "regular", vec![Tree::tok(k.reg, "REGULAR_LITERAL", &format!("/{}/", p))]), Tree::tok(k.semi, "SEMI", ";")])
            }
        }).collect();
        Tree::rule(0, "rule_list", kids)
    }
    pub fn block_tree(&self, b: &[Alt], k: &Ids) -> Tree {
        let mut kids = vec![];
        for (i, a) in b.iter().enumerate() {
            if i > 0 { kids.push(Tree::tok(k.or, "OR", "|")); }
            kids.push(if a.is_empty() { Tree::rule(3, "alternative", vec![Tree::rule(4, "epsilon", vec![Tree::tok(k.eps, "EPSILON", "ε")])]) }
                else { Tree::rule(3, "alternative", a.iter().map(|e| self.elem_tree(e, k)).collect()) });
        }
        Tree::rule(2, "block", kids)
    }
    pub fn elem_tree(&self, e: &Elem, k: &Ids) -> Tree {
        let mut kids = match &e.atom {
            Atom::Tok(i) => vec![Tree::tok(k.token_ref, "TOKEN_REF", &self.toks[*i].0)],
            Atom::Rule(i) => vec![Tree::tok(k.rule_ref, "RULE_REF", &self.rules[*i].0)],
            Atom::Lit(s) => vec![Tree::tok(k.lit, "STRING_LITERAL", s)],
            Atom::Block(b) => vec![Tree::tok(k.lp, "LPAREN", "("), self.block_tree(b, k), Tree::tok(k.rp, "RPAREN", ")")],
        };
        if e.suf != Suf::One {
            let mut s = vec![match e.suf { Suf::Opt => Tree::tok(k.quest, "QUESTION", "?"), Suf::Star => Tree::tok(k.star, "STAR", "*"), _ => Tree::tok(k.plus, "PLUS", "+") }];
            if e.lazy { s.push(Tree::tok(k.quest, "QUESTION", "?")); }
            kids.push(Tree::rule(6, "ebnf_suffix", s));
        }
        Tree::rule(5, "element", kids)
    }
    pub fn show(&self) -> String {
        fn b(e: &Ebnf, x: &[Alt]) -> String { x.iter().map(|a| if a.is_empty() { "ε".into() } else { a.iter().map(|y| el(e, y)).collect::<Vec<_>>().join(" ") }).collect::<Vec<_>>().join(" | ") }
        fn el(e: &Ebnf, x: &Elem) -> String {
            let a = match &x.atom { Atom::Tok(i) => e.toks[*i].0.clone(), Atom::Rule(i) => e.rules[*i].0.clone(), Atom::Lit(s) => s.clone(), Atom::Block(y) => format!("({})", b(e, y)) };
            format!("{}{}{}", a, match x.suf { Suf::One => "", Suf::Opt => "?", Suf::Star => "*", Suf::Plus => "+" }, if x.lazy { "?" } else { "" })
        }
        let mut s = String::new();
        for d in &self.order { match d { Decl::R(i) => s += &format!("{}: {}; ", self.rules[*i].0, b(self, &self.rules[*i].1)), Decl::T(i) => s += &format!("{}: /{}/; ", self.toks[*i].0, self.toks[*i].1), Decl::D(j) => s += &format!("{}: /{}/; ", self.toks[self.dups[*j].0].0, self.dups[*j].1) } }
        s
    }
    /// Token i is terminal 2+i, rule i is nonterminal i; X+ becomes X X*.
    pub fn lower(&self) -> Gram {
        let mut g = Gram::default();
        for (i, (n, _)) in self.rules.iter().enumerate() { g.nts.push((i, Some(n.clone()))); }
        for (i, (n, _)) in self.toks.iter().enumerate() { g.terms.push((2 + i, n.clone())); }
        fn fresh(g: &mut Gram) -> usize { let id = g.nts.len(); g.nts.push((id, None)); id }
        fn alts(g: &mut Gram, l: usize, b: &[Alt]) { for a in b { let mut r = vec![]; for e in a { el(g, e, &mut r); } g.prods.push((l, r)); } }
        fn el(g: &mut Gram, e: &Elem, r: &mut Vec<Sym>) {
            let x = match &e.atom {
                Atom::Tok(i) => Sym::T(2 + i), Atom::Rule(i) => Sym::N(*i), Atom::Lit(_) => unreachable!(),
                Atom::Block(b) => { let id = fresh(g); alts(g, id, b); Sym::N(id) }
            };
            match e.suf {
                Suf::One => r.push(x),
                Suf::Opt => { let id = fresh(g); g.prods.push((id, vec![])); g.prods.push((id, vec![x])); r.push(Sym::N(id)); }
                Suf::Star | Suf::Plus => { if e.suf == Suf::Plus { r.push(x); } let id = fresh(g); g.prods.push((id, vec![])); g.prods.push((id, vec![x, Sym::N(id)])); r.push(Sym::N(id)); }
            }
        }
        for (i, (_, b)) in self.rules.iter().enumerate() { alts(&mut g, i, b); }
        let mut seen = BTreeSet::new();
        g.prods.retain(|p| seen.insert(p.clone()));
        g
    }
}

// ---- bounded languages ----------------------------------------------------------------
/// Sets of strings over k letters up to length l, as bit sets.
pub struct Lang { pub k: usize, pub l: usize, n: usize, cat: Vec<u8> }
impl Lang {
    pub fn new(k: usize) -> Lang {
        let l = match k { 0 => 0, 1 => 20, 2 => 6, 3 => 4, 4 => 3, 5..=10 => 2, _ => 1 };
        let mut strs: Vec<Vec<usize>> = vec![vec![]];
        let mut layer = strs.clone();
        for _ in 0..l { let mut nx = vec![]; for s in &layer { for c in 0..k { let mut t = s.clone(); t.push(c); nx.push(t); } } strs.extend(nx.iter().cloned()); layer = nx; }
        let idx: BTreeMap<Vec<usize>, usize> = strs.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect();
        let n = strs.len();
        let mut cat = vec![255u8; n * n];
        for i in 0..n { for j in 0..n { if strs[i].len() + strs[j].len() <= l { let mut s = strs[i].clone(); s.extend(&strs[j]); cat[i * n + j] = idx[&s] as u8; } } }
        Lang { k, l, n, cat }
    }
    pub fn empty_string(&self) -> u128 { 1 }
    pub fn letter(&self, c: usize) -> u128 { if self.l == 0 { 0 } else { 1 << (1 + c) } }
    pub fn cat(&self, a: u128, b: u128) -> u128 {
        if b == 1 { return a; } if a == 1 { return b; }
        let mut r = 0u128; let mut x = a;
        while x != 0 {
            let i = x.trailing_zeros() as usize; x &= x - 1;
            let mut y = b;
            while y != 0 { let j = y.trailing_zeros() as usize; y &= y - 1; let c = self.cat[i * self.n + j]; if c == 255 { break; } r |= 1 << c; }
        }
        r
    }
    pub fn star(&self, a: u128) -> u128 { let mut s = 1u128; loop { let t = s | self.cat(a, s); if t == s { return s; } s = t; } }
}

/// The strings (over the chosen tokens only) each EBNF rule describes.
pub fn ebnf_language(e: &Ebnf, lang: &Lang, letters: &BTreeMap<usize, usize>) -> Vec<u128> {
    let mut v = vec![0u128; e.rules.len()];
    fn b(x: &[Alt], v: &[u128], l: &Lang, m: &BTreeMap<usize, usize>) -> u128 { x.iter().map(|a| a.iter().fold(1u128, |acc, el| if acc == 0 { 0 } else { l.cat(acc, e1(el, v, l, m)) })).fold(0, |p, q| p | q) }
    fn e1(x: &Elem, v: &[u128], l: &Lang, m: &BTreeMap<usize, usize>) -> u128 {
        let s = match &x.atom { Atom::Tok(i) => m.get(i).map_or(0, |c| l.letter(*c)), Atom::Rule(i) => v[*i], Atom::Block(y) => b(y, v, l, m), Atom::Lit(_) => unreachable!() };
        match x.suf { Suf::One => s, Suf::Opt => s | 1, Suf::Star => l.star(s), Suf::Plus => l.cat(s, l.star(s)) }
    }
    loop {
        let w: Vec<u128> = e.rules.iter().map(|(_, x)| b(x, &v, lang, letters)).collect();
        if w == v { return v; }
        v = w;
    }
}
/// The same for plain productions; letters maps terminal ids.
pub fn prod_language(prods: &BTreeSet<Prod>, lang: &Lang, letters: &BTreeMap<usize, usize>) -> BTreeMap<usize, u128> {
    let mut v: BTreeMap<usize, u128> = BTreeMap::new();
    loop {
        let mut w = v.clone();
        for (l, r) in prods {
            let mut s = 1u128;
            for x in r { s = lang.cat(s, match x { Sym::N(n) => w.get(n).copied().unwrap_or(0), Sym::T(t) => letters.get(t).map_or(0, |c| lang.letter(*c)) }); if s == 0 { break; } }
            *w.entry(*l).or_insert(0) |= s;
        }
        if w == v { return v; }
        v = w;
    }
}

// ---- reference LL(1) parser ---------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node { Rule(usize, Vec<Node>), Tok(usize) }
/// Tree of the stream's prefix (anonymous rules inlined) and how much was consumed.
pub fn ll1_parse(g: &Gram, toks: &[usize], start: usize) -> Result<(Node, usize), usize> {
    let a = g.analyse();
    let cells = g.cells(&a);
    let named: BTreeSet<usize> = g.nts.iter().filter(|n| n.1.is_some()).map(|n| n.0).collect();
    fn go(cells: &BTreeMap<(usize, usize), BTreeMap<Prod, u32>>, named: &BTreeSet<usize>, toks: &[usize], n: usize, cur: &mut usize, out: &mut Vec<Node>) -> Result<(), usize> {
        let t = toks.get(*cur).ok_or(*cur)?;
        let p = cells.get(&(n, *t)).ok_or(*cur)?.keys().next().unwrap();
        for s in &p.1 {
            match s {
                Sym::T(x) => { if toks.get(*cur) != Some(x) { return Err(*cur); } out.push(Node::Tok(*cur)); *cur += 1; }
                Sym::N(m) if named.contains(m) => { let mut v = vec![]; go(cells, named, toks, *m, cur, &mut v)?; out.push(Node::Rule(*m, v)); }
                Sym::N(m) => go(cells, named, toks, *m, cur, out)?,
            }
        }
        Ok(())
    }
    let mut cur = 0; let mut v = vec![];
    go(&cells, &named, toks, start, &mut cur, &mut v)?;
    Ok((Node::Rule(start, v), cur))
}
/// Smallest derivation height of every productive nonterminal.
pub fn heights(g: &Gram) -> BTreeMap<usize, usize> {
    let mut h: BTreeMap<usize, usize> = BTreeMap::new();
    loop {
        let mut ch = false;
        for (l, r) in &g.prods {
            let mut m = 0; let mut ok = true;
            for s in r { if let Sym::N(n) = s { match h.get(n) { Some(x) => m = m.max(*x), None => ok = false } } }
            if ok && h.get(l).map_or(true, |x| *x > m + 1) { h.insert(*l, m + 1); ch = true; }
        }
        if !ch { return h; }
    }
}
/// A random sentence.
pub fn sentence(g: &Gram, cap: usize) -> Vec<usize> {
    // long sentences: go for the productions that lead on
    let long = cap > 100;
    let deep = if long { cap + 40 } else { 40 };
    let h = heights(g);
    let mut by: BTreeMap<usize, Vec<&Prod>> = BTreeMap::new();
    for p in &g.prods { if p.1.iter().all(|s| match s { Sym::N(n) => h.contains_key(n), _ => true }) { by.entry(p.0).or_default().push(p); } }
    let hp = |p: &Prod| p.1.iter().map(|s| match s { Sym::N(n) => h[n], _ => 0 }).max().unwrap_or(0);
    let mut out = vec![];
    let mut stack = vec![(Sym::N(0), 0usize)];
    while let Some((s, d)) = stack.pop() {
        match s {
            Sym::T(t) => out.push(t),
            Sym::N(n) => {
                let v = &by[&n];
                let p = if out.len() + stack.len() > cap || d > deep { *v.iter().min_by_key(|p| (hp(p), p.1.len())).unwrap() } else if long && chance(80) { *v.iter().max_by_key(|p| p.1.iter().filter(|s| matches!(s, Sym::N(_))).count()).unwrap() } else { v[choose(v.len() as u64) as usize] };
                for x in p.1.iter().rev() { stack.push((*x, d + 1)); }
            }
        }
    }
    out
}
