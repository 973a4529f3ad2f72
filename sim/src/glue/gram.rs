//! Between the harness' grammars and syntaxis' own.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet};
use synsim::refgram::{Gram, Prod, Set, Sym};
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};

pub fn item(s: &Sym) -> ProductionItem { match s { Sym::N(n) => ProductionItem::NonTerminal(*n), Sym::T(t) => ProductionItem::Terminal(*t) } }
pub fn sym(i: &ProductionItem) -> Sym { match i { ProductionItem::NonTerminal(n) => Sym::N(*n), ProductionItem::Terminal(t) => Sym::T(*t) } }
pub fn production(p: &Prod) -> Production { let r: Vec<ProductionItem> = p.1.iter().map(item).collect(); Production::new(p.0, &r) }
pub fn prod(p: &Production) -> Prod { (p.left, p.right.iter().map(sym).collect()) }

pub fn build(g: &Gram) -> Grammar {
    let mut gr = Grammar::new("g");
    for (n, name) in &g.nts {
        match name { Some(s) => { gr.vocabulary.add_named_nonterminal(*n, s); } None => { gr.vocabulary.add_unnamed_nonterminal(*n); } }
    }
    for (t, name) in &g.terms { gr.vocabulary.add_terminal(*t, name); }
    for p in &g.prods { gr.productions.insert(production(p)); }
    gr
}
pub fn prods_of(g: &Grammar) -> BTreeSet<Prod> { g.productions.iter().map(prod).collect() }

pub type Firsts = (BTreeMap<usize, (bool, Set)>, BTreeMap<Prod, (bool, Set)>);
pub fn firsts(g: &Grammar) -> Firsts {
    let (f, p) = g.first_set();
    let a = f.iter().map(|(n, c)| (*n, (c.allow_epsilon, c.set.iter().copied().collect()))).collect();
    let b = p.iter().map(|(q, c)| (prod(q), (c.allow_epsilon, c.set.iter().copied().collect()))).collect();
    (a, b)
}
pub fn follows(g: &Grammar) -> BTreeMap<usize, Set> {
    let (f, _) = g.first_set();
    g.follow_set(&f).iter().map(|(n, s)| (*n, s.iter().copied().collect())).collect()
}
pub type Table = BTreeMap<(usize, usize), Prod>;
pub fn table(g: &Grammar) -> Table {
    let (f, p) = g.first_set();
    let fo = g.follow_set(&f);
    g.ll1_table(&p, &fo).iter().map(|(k, v)| (*k, prod(v))).collect()
}
