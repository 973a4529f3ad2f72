//! C17: what is printed tells what is printed, whatever the hash key, the sink and other clients do.
#[path = "../glue/gram.rs"] mod gram;
#[path = "../glue/tree.rs"] mod tree;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Display, Write};
use synsim::refgram::{self, Gram, Prod, Sym};
use synsim::reftree::{self, Tree};
use synsim::*;
use syntaxis::runtime::ast::rule_context::RuleContext;
use syntaxis::runtime::token::{Position, Token};
use syntaxis::tool::grammar::Grammar;

/// A sink that accepts text in its own time and may stop accepting it.
struct Sink { got: String, calls_left: Option<u64>, once: bool, failed: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        sched::point(6);
        if let Some(k) = &mut self.calls_left {
            if *k == 0 && !(self.once && self.failed) {
                if !self.failed {
                    // a part of the text may still have gone through
                    let mut n = choose(s.len() as u64 + 1) as usize;
                    while !s.is_char_boundary(n) { n -= 1; }
                    self.got.push_str(&s[..n]);
                    self.failed = true;
                    fault("sink-fails", || format!("after {} bytes", self.got.len()));
                }
                return Err(std::fmt::Error);
            }
            *k = k.saturating_sub(1);
        }
        self.got.push_str(s);
        Ok(())
    }
}
/// Print into a sink that may fail, then into one that does not: (text, failed, returned an error) each.
#[derive(Clone)]
struct Printed { text: String, failed: bool, err: bool }
fn print(x: &dyn Display, fail: Option<u64>, once: bool) -> Vec<Printed> {
    let mut v = vec![];
    for f in [fail, None] {
        let mut s = Sink { got: String::new(), calls_left: f, once, failed: false };
        let r = write!(s, "{}", x);
        v.push(Printed { text: s.got, failed: s.failed, err: r.is_err() });
        if f.is_none() { break; }
    }
    v
}

// ---- grammars
struct Names { nt: BTreeMap<String, usize>, t: BTreeMap<String, usize> }
/// One printed production, read back: the names it is made of. A rule and a token may share one.
type Line = (String, Vec<String>);
fn read_prod(line: &str, n: &Names) -> Result<Line, String> {
    let (l, r) = line.split_once("->").ok_or("no arrow")?;
    if !n.nt.contains_key(l.trim()) { return Err(format!("{:?} is no rule", l.trim())); }
    for w in r.split_whitespace() { if !n.nt.contains_key(w) && !n.t.contains_key(w) { return Err(format!("{:?} is no symbol", w)); } }
    Ok((l.trim().to_string(), r.split_whitespace().map(|w| w.to_string()).collect()))
}
/// Every production as it is to be printed, and how often.
fn lines(g: &Gram, n: &Names) -> BTreeMap<Line, usize> {
    let nt: BTreeMap<usize, &String> = n.nt.iter().map(|x| (*x.1, x.0)).collect();
    let t: BTreeMap<usize, &String> = n.t.iter().map(|x| (*x.1, x.0)).collect();
    let mut m = BTreeMap::new();
    for (l, r) in g.set() { *m.entry((nt[&l].clone(), r.iter().map(|s| match s { Sym::N(i) => nt[i].clone(), Sym::T(i) => t[i].clone() }).collect())).or_insert(0) += 1; }
    m
}
fn judge_grammar(p: &Printed, g: &Gram, n: &Names, what: &str) -> Verdict {
    require!(!p.failed || p.err, "failure-ignored", "{}: the sink failed but printing reported success: {:?}", what, p.text);
    require!(p.failed || !p.err, "refused", "{}: printing failed although the sink did not", what);
    let mut left = lines(g, n);
    if left.values().any(|k| *k > 1) { driver::probe("probe:same-line-twice"); }
    let mut parts: Vec<&str> = p.text.split(';').collect();
    let tail = parts.pop().unwrap_or("");
    for l in parts {
        match read_prod(l, n) {
            Err(e) => violation!("not-readable", "{}: the printed line {:?} cannot be read back: {} in {}; printed {:?}", what, l, e, g.show(), p.text),
            Ok(q) => match left.get_mut(&q) {
                Some(k) if *k > 0 => *k -= 1,
                _ => violation!("wrong-production", "{}: the printed line {:?} is no production of the grammar or was printed before: {}; printed {:?}", what, l, g.show(), p.text),
            }
        }
    }
    left.retain(|_, k| *k > 0);
    if !p.failed {
        require!(tail.trim().is_empty(), "rest", "{}: text {:?} after the last production in {:?}", what, tail, p.text);
        require!(left.is_empty(), "missing", "{}: productions {:?} were not printed: {:?}", what, left, p.text);
    }
    Ok(())
}
/// Names that run into each other when nothing separates them.
fn rename(g: &mut Gram) -> Names {
    let mut n = Names { nt: BTreeMap::new(), t: BTreeMap::new() };
    let style = choose(4);
    if style == 3 {
        // rules and tokens of the same name, and productions that differ only in which is meant
        for k in 0..g.prods.len() {
            if !chance(25) { continue; }
            let mut p = g.prods[k].clone();
            for s in p.1.iter_mut() { if !chance(60) { continue; } match s {
                Sym::N(i) => { let at = g.nts.iter().position(|x| x.0 == *i); if let Some((id, _)) = at.and_then(|a| if g.nts[a].1.is_some() { g.terms.get(a) } else { None }) { *s = Sym::T(*id); } }
                Sym::T(i) => { let at = g.terms.iter().position(|x| x.0 == *i); if let Some((id, Some(_))) = at.and_then(|a| g.nts.get(a)) { *s = Sym::N(*id); } }
            } }
            if !g.prods.contains(&p) { g.prods.push(p); }
        }
    }
    for (i, (id, name)) in g.nts.iter_mut().enumerate() {
        if name.is_some() { *name = Some(match style { 0 => format!("r{}", i), 1 => "r".repeat(1 + i % 40) + &(if i >= 40 { i.to_string() } else { String::new() }), 2 => format!("规则_{}", i), _ => format!("x{}", i) }); }
        n.nt.insert(name.clone().unwrap_or_else(|| id.to_string()), *id);
    }
    for (i, (id, name)) in g.terms.iter_mut().enumerate() {
        *name = match style { 0 => format!("T{}", i), 1 => "T".repeat(1 + i % 40) + &(if i >= 40 { i.to_string() } else { String::new() }), 2 => format!("记号_{}", i), _ => format!("x{}", i) };
        n.t.insert(name.clone(), *id);
    }
    n
}
fn plan() -> (Option<u64>, bool) { (if chance(45) { Some(choose(pick(&[4, 12, 60]))) } else { None }, chance(50)) }

fn run_grammar() -> Verdict {
    let mut g = refgram::gen();
    let names = rename(&mut g);
    note(|| g.show());
    sched::swarm();
    let k = range(1, 3);
    if is_sync!(Grammar) && chance(60) {
        let gr = Carry(expect("build", solo(|| gram::build(&g)))?);
        let gr = &gr;
        let plans: Vec<_> = (0..k).map(|_| plan()).collect();
        let outs = par(plans.iter().map(|&(f, o)| Box::new(move || { let mut v = print(&gr.0, f, o); v.extend(print(&gr.0, None, false)); v }) as Box<dyn FnOnce() -> Vec<Printed>>).collect());
        for o in outs { for p in expect("printing a grammar", o)? { judge_grammar(&p, &g, &names, "shared grammar")?; } }
        if k > 1 { driver::probe("probe:shared-grammar"); }
    } else {
        let plans: Vec<_> = (0..k).map(|_| plan()).collect();
        let gg = &g;
        let outs = par(plans.iter().map(|&(f, o)| Box::new(move || { let gr = gram::build(gg); print(&gr, f, o) }) as Box<dyn FnOnce() -> Vec<Printed>>).collect());
        for o in outs { for p in expect("printing a grammar", o)? { judge_grammar(&p, &g, &names, "own grammar")?; } }
    }
    if g.prods.iter().any(|p| p.1.is_empty()) { driver::probe("probe:empty-right-side"); }
    Ok(())
}

// ---- trees
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut w = String::new();
    for c in s.chars() {
        if c.is_whitespace() || c == '(' || c == ')' { if !w.is_empty() { v.push(std::mem::take(&mut w)); } if !c.is_whitespace() { v.push(c.to_string()); } } else { w.push(c); }
    }
    if !w.is_empty() { v.push(w); }
    v
}
fn flat(t: &Tree, out: &mut Vec<String>) {
    match t {
        Tree::Rule { name, kids, .. } => { out.push(name.clone()); out.push("(".into()); for k in kids { flat(k, out); } out.push(")".into()); }
        Tree::Tok { name, .. } | Tree::Err { name, .. } => out.push(name.clone()),
    }
}
fn run_tree() -> Verdict {
    let t = if chance(4) { driver::probe("probe:large-tree"); reftree::gen_big(if chance(8) { 5000 } else { 400 }, false, 9, true) } else { reftree::gen(30, false, 9, true) };
    note(|| t.show());
    sched::swarm();
    let k = range(1, 3);
    let plans: Vec<_> = (0..k).map(|_| plan()).collect();
    let node = Carry(expect("build", solo(|| tree::to_rule(&t)))?);
    let node = &node;
    let _ = is_sync!(RuleContext);
    let tt = &t;
    let outs = par(plans.iter().map(|&(f, o)| Box::new(move || if is_sync!(RuleContext) { print(&node.0, f, o) } else { print(&tree::to_rule(tt), f, o) }) as Box<dyn FnOnce() -> Vec<Printed>>).collect());
    let mut want = vec![];
    flat(&t, &mut want);
    for o in outs {
        let v = expect("printing a tree", o)?;
        let full = v.last().unwrap().clone();
        require!(!full.err, "refused", "printing a tree failed although the sink did not");
        require!(words(&full.text) == want, "tree-wrong", "the tree {} was printed as {:?}", t.show(), full.text);
        for p in &v {
            require!(!p.failed || p.err, "failure-ignored", "the sink failed but printing the tree reported success: {:?}", p.text);
            require!(p.failed || !p.err, "refused", "printing a tree failed although the sink did not");
            require!(full.text.starts_with(&p.text), "not-a-prefix", "the failed sink received {:?}, which is not the beginning of {:?}", p.text, full.text);
        }
    }
    Ok(())
}

// ---- tokens
fn run_token() -> Verdict {
    let num = || pick(&[0usize, 1, 2, 9, 10, 4095, 1 << 33, usize::MAX]);
    let (name, text) = (reftree::gen_name(true), reftree::gen_text(true));
    let mut t = Token::new(num(), &name, &text);
    let (a, b, c, d) = (num(), num(), num(), num());
    t.start = Position { line: a, char_position: b };
    t.stop = Position { line: c, char_position: d };
    t.token_index = num(); t.char_start_index = num(); t.char_stop_index = num(); t.channel = num();
    let want = format!("[@{}, {}:{}='{}', <{}>, <{}>, start: <line: {}, position: {}>, stop: <line: {}, position: {}>]", t.token_index, t.char_start_index, t.char_stop_index, text, name, t.token_type, a, b, c, d);
    note(|| want.clone());
    sched::swarm();
    let plans: Vec<_> = (0..range(1, 2)).map(|_| plan()).collect();
    let tk = Carry(&t);
    let tk = &tk;
    let outs = par(plans.iter().map(|&(f, o)| Box::new(move || print(tk.0, f, o)) as Box<dyn FnOnce() -> Vec<Printed>>).collect());
    for o in outs {
        for p in expect("printing a token", o)? {
            require!(p.failed == p.err, "failure-ignored", "sink failed: {}, printing failed: {}", p.failed, p.err);
            require!(if p.failed { want.starts_with(&p.text) } else { want == p.text }, "token-wrong", "a token was printed as {:?} instead of {:?}", p.text, want);
        }
    }
    driver::probe("probe:token");
    Ok(())
}

fn run() -> Verdict {
    match choose(10) { 0..=5 => run_grammar(), 6..=8 => run_tree(), _ => run_token() }
}

fn main() {
    driver::main(Scenario {
        id: "C17", run, quick_runs: 600_000, thorough_runs: 10_000_000, warmup: 4,
        rule: "seeded random grammars, trees and tokens printed by 1-3 clients under their own hash keys into sinks that fail at seeded places, partly, once or for good, then printed again; read back and compared; non-trivial = more than 20 preemption points",
        nontrivial: |c| c.steps > 20,
        real: &["Display of syntaxis::tool::grammar, runtime::ast and runtime::token", "syntaxis::runtime::vocabulary"],
        stub: &["the sink printed to", "thread scheduler", "entropy source of hash keys"],
        probes: &["probe:shared-grammar", "probe:empty-right-side", "probe:large-tree", "probe:token"],
        assumptions: &["names of rules and tokens are identifiers, rule and token names differ, as in every grammar the tool reads", "every symbol used is registered in the vocabulary"],
        setup: || { tree::warm(); },
    })
}
