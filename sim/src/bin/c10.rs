//! C10: walks and visits report every node once, in order, and stop where told.
#[path = "../glue/tree.rs"] mod tree;
use std::any::Any;
use std::collections::HashMap;
use synsim::reftree::{self, Tree};
use synsim::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};

/// Address of every node -> its number in document order. Addresses never reach the log.
#[derive(Default)]
struct Ids(HashMap<usize, usize>);
fn ptr<T>(x: &T) -> usize { x as *const T as usize }
fn number(r: &RuleContext, ids: &mut Ids, next: &mut usize) {
    ids.0.insert(ptr(r), *next); *next += 1;
    for c in &r.children { match c {
        ASTContext::Rule(r) => number(r, ids, next),
        ASTContext::Terminal(t) => { ids.0.insert(ptr(t), *next); *next += 1; }
        ASTContext::Error(t) => { ids.0.insert(ptr(t), *next); *next += 1; }
    } }
}
fn size(t: &Tree) -> usize { match t { Tree::Rule { kids, .. } => 1 + kids.iter().map(size).sum::<usize>(), _ => 1 } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ev { EnterAny(usize), ExitAny(usize), Enter(u8, usize), Exit(u8, usize), Tok(usize), TokEnd(usize), Err(usize), ErrEnd(usize), Visit(u8, usize) }

// ---- what should happen ----------------------------------------------------------------
fn walk_events(t: &Tree, at: &mut usize, out: &mut Vec<Ev>) {
    let n = *at; *at += 1;
    match t {
        Tree::Rule { index, kids, .. } => {
            out.push(Ev::EnterAny(n));
            if *index < 9 { out.push(Ev::Enter(*index as u8, n)); }
            for k in kids { walk_events(k, at, out); }
            if *index < 9 { out.push(Ev::Exit(*index as u8, n)); }
            out.push(Ev::ExitAny(n));
        }
        Tree::Tok { .. } => { out.push(Ev::Tok(n)); out.push(Ev::TokEnd(n)); }
        Tree::Err { .. } => { out.push(Ev::Err(n)); out.push(Ev::ErrEnd(n)); }
    }
}
/// Result of a recording visitor.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Res { node: Option<usize>, parts: Vec<Res> }
impl Res { fn show(&self) -> String { format!("{}({})", self.node.map_or("-".into(), |n| n.to_string()), self.parts.iter().map(|p| p.show()).collect::<Vec<_>>().join(" ")) } }

fn visit_events(t: &Tree, at: &mut usize, limit: &[usize], out: &mut Vec<Ev>) -> Res {
    let n = *at; *at += 1;
    match t {
        Tree::Rule { index, kids, .. } => {
            let known = *index < 9;
            if known { out.push(Ev::Visit(*index as u8, n)); }
            let mut r = Res { node: if known { Some(n) } else { None }, parts: vec![] };
            for k in kids { if r.parts.len() < limit[n] { let p = visit_events(k, at, limit, out); r.parts.push(p); } else { *at += size(k); } }
            r
        }
        Tree::Tok { .. } => { out.push(Ev::Tok(n)); Res { node: Some(n), parts: vec![] } }
        Tree::Err { .. } => { out.push(Ev::Err(n)); Res { node: Some(n), parts: vec![] } }
    }
}
/// A visitor that adds up leaves and stops a node's children once it has seen enough: how many
/// leaves each node answers for, in document order of the leaves reached.
fn sum_events(t: &Tree, at: &mut usize, enough: usize, out: &mut Vec<Ev>) -> usize {
    let n = *at; *at += 1;
    match t {
        Tree::Rule { kids, .. } => { let mut s = 0; for k in kids { if s < enough { s += sum_events(k, at, enough, out) } else { *at += size(k) } } s }
        Tree::Tok { .. } => { out.push(Ev::Tok(n)); 1 }
        Tree::Err { .. } => { out.push(Ev::Err(n)); 1 }
    }
}
/// Default aggregation: the last child's result.
fn last_result(t: &Tree, at: &mut usize) -> Option<usize> {
    let n = *at; *at += 1;
    match t { Tree::Rule { kids, .. } => { let mut r = None; for k in kids { r = last_result(k, at); } r } _ => Some(n) }
}
fn leaf_events(t: &Tree, at: &mut usize, out: &mut Vec<Ev>) { let n = *at; *at += 1; match t { Tree::Rule { kids, .. } => for k in kids { leaf_events(k, at, out) }, Tree::Tok { .. } => out.push(Ev::Tok(n)), _ => out.push(Ev::Err(n)) } }

// ---- recorders ------------------------------------------------------------------------
struct Rec<'a> { ids: &'a Ids, ev: Vec<Ev>, fail_at: Option<usize>, limit: &'a [usize], blind: bool, declined: std::collections::BTreeSet<usize> }
impl<'a> Rec<'a> {
    fn id<T>(&self, p: &T) -> usize { self.ids.0.get(&ptr(p)).copied().unwrap_or(usize::MAX) }
    fn push(&mut self, e: Ev) {
        sched::point(5);
        if self.fail_at == Some(self.ev.len()) { fault("callback-fails", || String::new()); panic!("callback gave up"); }
        self.ev.push(e);
    }
}

macro_rules! listener { ($($k:literal $en:ident $ex:ident $t:ident;)*) => {
    impl syntaxis::tool::syntaxis::syntaxis_listener::SyntaxisListener for Rec<'_> {
        $( fn $en(&mut self, c: &dyn syntaxis::tool::syntaxis::syntaxis_context::$t) { let i = self.id(c.as_rule()); self.push(Ev::Enter($k, i)); }
           fn $ex(&mut self, c: &dyn syntaxis::tool::syntaxis::syntaxis_context::$t) { let i = self.id(c.as_rule()); self.push(Ev::Exit($k, i)); } )*
        fn enter_every_rule(&mut self, c: &RuleContext) { let i = self.id(c); self.push(Ev::EnterAny(i)); }
        fn exit_every_rule(&mut self, c: &RuleContext) { let i = self.id(c); self.push(Ev::ExitAny(i)); }
        fn enter_terminal(&mut self, c: &TerminalContext) { let i = self.id(c); self.push(Ev::Tok(i)); }
        fn exit_terminal(&mut self, c: &TerminalContext) { let i = self.id(c); self.push(Ev::TokEnd(i)); }
        fn enter_errornode(&mut self, c: &ErrorContext) { let i = self.id(c); self.push(Ev::Err(i)); }
        fn exit_errornode(&mut self, c: &ErrorContext) { let i = self.id(c); self.push(Ev::ErrEnd(i)); }
    }
} }
listener! {
    0 enter_rule_list exit_rule_list RuleListContext; 1 enter_parser_rule exit_parser_rule ParserRuleContext; 2 enter_block exit_block BlockContext;
    3 enter_alternative exit_alternative AlternativeContext; 4 enter_epsilon exit_epsilon EpsilonContext; 5 enter_element exit_element ElementContext;
    6 enter_ebnf_suffix exit_ebnf_suffix EbnfSuffixContext; 7 enter_lexer_rule exit_lexer_rule LexerRuleContext; 8 enter_regular exit_regular RegularContext;
}
struct Walker;
impl syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker for Walker {}

macro_rules! visitor { ($m:ident $ns:ident, $($k:literal $v:ident $t:ident;)*) => {
    mod $m {
        use super::*;
        use ::syntaxis::tool::$ns::syntaxis_context::*;
        use ::syntaxis::tool::$ns::syntaxis_visitor::SyntaxisVisitor;
        /// records everything, combines every result
        pub struct Full<'a>(pub Rec<'a>);
        fn res(b: Box<dyn Any>) -> Res { *b.downcast::<Res>().expect("a child result got lost") }
        impl SyntaxisVisitor for Full<'_> {
            $( fn $v(&mut self, c: &dyn $t) -> Box<dyn Any> {
                let i = self.0.id(c.as_rule()); self.0.push(Ev::Visit($k, i));
                let mut r = res(self.visit_children(c.as_rule())); r.node = Some(i); Box::new(r)
            } )*
            fn visit_terminal(&mut self, c: &TerminalContext) -> Box<dyn Any> { let i = self.0.id(c); self.0.push(Ev::Tok(i)); Box::new(Res { node: Some(i), parts: vec![] }) }
            fn visit_errornode(&mut self, c: &ErrorContext) -> Box<dyn Any> { let i = self.0.id(c); self.0.push(Ev::Err(i)); Box::new(Res { node: Some(i), parts: vec![] }) }
            fn default_result(&mut self) -> Box<dyn Any> { Box::new(Res::default()) }
            fn aggregate_result(&mut self, a: Box<dyn Any>, n: Box<dyn Any>) -> Box<dyn Any> { let mut a = res(a); a.parts.push(res(n)); Box::new(a) }
            fn should_visit_next_child(&mut self, c: &RuleContext, cur: &dyn Any) -> bool {
                let i = self.0.id(c);
                let Some(l) = self.0.limit.get(i) else { return true };
                if *l == usize::MAX { return true; }
                match cur.downcast_ref::<Res>() { // says no exactly once, then would go on if it were asked again
                    Some(r) => r.parts.len() < *l || !self.0.declined.insert(i), None => { self.0.blind = true; true } }
            }
        }
        /// relies on every default but the leaves
        pub struct Plain<'a>(pub Rec<'a>);
        impl SyntaxisVisitor for Plain<'_> {
            fn visit_terminal(&mut self, c: &TerminalContext) -> Box<dyn Any> { let i = self.0.id(c); self.0.push(Ev::Tok(i)); Box::new(i) }
            fn visit_errornode(&mut self, c: &ErrorContext) -> Box<dyn Any> { let i = self.0.id(c); self.0.push(Ev::Err(i)); Box::new(i) }
        }
        /// adds up numbers of one type or texts
        pub struct Sum<'a>(pub Rec<'a>, pub u8, pub usize);
        impl Sum<'_> {
            fn make(&self, n: usize) -> Box<dyn Any> { match self.1 { 0 => Box::new(n), 1 => Box::new(n as i32), 2 => Box::new("x".repeat(n)), 3 => Box::new(n as u64), _ => Box::new(vec![0u8; n]) } }
            pub fn read(&self, a: &dyn Any) -> usize {
                match self.1 { 0 => a.downcast_ref::<usize>().copied(), 1 => a.downcast_ref::<i32>().map(|x| *x as usize), 2 => a.downcast_ref::<String>().map(|s| s.len()), 3 => a.downcast_ref::<u64>().map(|x| *x as usize), _ => a.downcast_ref::<Vec<u8>>().map(|v| v.len()) }.expect("a child result got lost")
            }
        }
        impl SyntaxisVisitor for Sum<'_> {
            fn visit_terminal(&mut self, c: &TerminalContext) -> Box<dyn Any> { let i = self.0.id(c); self.0.push(Ev::Tok(i)); self.make(1) }
            fn visit_errornode(&mut self, c: &ErrorContext) -> Box<dyn Any> { let i = self.0.id(c); self.0.push(Ev::Err(i)); self.make(1) }
            fn default_result(&mut self) -> Box<dyn Any> { self.make(0) }
            fn aggregate_result(&mut self, a: Box<dyn Any>, n: Box<dyn Any>) -> Box<dyn Any> { self.make(self.read(a.as_ref()) + self.read(n.as_ref())) }
            fn should_visit_next_child(&mut self, _: &RuleContext, cur: &dyn Any) -> bool { self.read(cur) < self.2 }
        }
        pub fn sum(mut s: Sum, r: &RuleContext, via_accept: bool) -> (usize, Vec<Ev>) {
            let x = if via_accept { accept(r, &mut s) } else { s.visit(r) };
            (s.read(x.as_ref()), s.0.ev)
        }
        pub fn full(mut f: Full, r: &RuleContext, via_accept: bool) -> (Res, Vec<Ev>, bool) {
            let x = if via_accept { accept(r, &mut f) } else { f.visit(r) };
            (res(x), f.0.ev, f.0.blind)
        }
        pub fn accept(r: &RuleContext, v: &mut dyn SyntaxisVisitor) -> Box<dyn Any> {
            match r.rule_index { $( $k => $t::accept(r, v), )* _ => v.visit(r) }
        }
        pub fn plain(mut p: Plain, r: &RuleContext, via_accept: bool) -> (Option<usize>, bool, Vec<Ev>) {
            let x = if via_accept { accept(r, &mut p) } else { p.visit(r) };
            (x.downcast_ref::<usize>().copied(), x.downcast_ref::<()>().is_some(), p.0.ev)
        }
        /// every typed node accepts a visitor as its own kind
        pub fn typed<'a>(ids: &'a Ids, limit: &'a [usize], r: &RuleContext) -> Vec<(u8, Vec<Ev>)> {
            let mut out = vec![];
            $( { let mut f = Full(Rec { ids, ev: vec![], fail_at: None, limit, blind: false, declined: Default::default() }); $t::accept(r, &mut f); out.push(($k, f.0.ev)); } )*
            out
        }
    }
} }
visitor! { selfh syntaxis, 0 visit_rule_list RuleListContext; 1 visit_parser_rule ParserRuleContext; 2 visit_block BlockContext; 3 visit_alternative AlternativeContext; 4 visit_epsilon EpsilonContext; 5 visit_element ElementContext; 6 visit_ebnf_suffix EbnfSuffixContext; 7 visit_lexer_rule LexerRuleContext; 8 visit_regular RegularContext; }
visitor! { hand v1, 0 visit_rule_list RuleListContext; 1 visit_parser_rule ParserRuleContext; 2 visit_block BlockContext; 3 visit_alternative AlternativeContext; 4 visit_epsilon EpsilonContext; 5 visit_element ElementContext; 6 visit_ebnf_suffix EbnfSuffixContext; 7 visit_lexer_rule LexerRuleContext; 8 visit_regular RegularContext; }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode { Walk, Visit, VisitV1, Plain, PlainV1, Typed, Sum, SumV1 }
struct Job { mode: Mode, ty: u8, enough: usize, limit: Vec<usize>, fail_at: Option<usize>, via: bool }
enum Out { Walk(Vec<Ev>), Sum(usize, Vec<Ev>), Full(Res, Vec<Ev>, bool), Plain(Option<usize>, bool, Vec<Ev>), Typed(Vec<(u8, Vec<Ev>)>, Vec<(u8, Vec<Ev>, Vec<Ev>)>) }

fn once(j: &Job, ids: &Ids, r: &RuleContext, fail: bool) -> Out {
    let rec = || Rec { ids, ev: vec![], fail_at: if fail { j.fail_at } else { None }, limit: &j.limit, blind: false, declined: Default::default() };
    match j.mode {
        Mode::Walk => { use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker; let mut l = rec(); Walker.walk(&mut l, r); Out::Walk(l.ev) }
        Mode::Visit => { let (a, b, c) = selfh::full(selfh::Full(rec()), r, j.via); Out::Full(a, b, c) }
        Mode::VisitV1 => { let (a, b, c) = hand::full(hand::Full(rec()), r, j.via); Out::Full(a, b, c) }
        Mode::Plain => { let (a, b, c) = selfh::plain(selfh::Plain(rec()), r, j.via); Out::Plain(a, b, c) }
        Mode::PlainV1 => { let (a, b, c) = hand::plain(hand::Plain(rec()), r, j.via); Out::Plain(a, b, c) }
        Mode::Sum => { let (a, b) = selfh::sum(selfh::Sum(rec(), j.ty, j.enough), r, j.via); Out::Sum(a, b) }
        Mode::SumV1 => { let (a, b) = hand::sum(hand::Sum(rec(), j.ty, j.enough), r, j.via); Out::Sum(a, b) }
        Mode::Typed => {
            let all = if j.via { hand::typed(ids, &j.limit, r) } else { selfh::typed(ids, &j.limit, r) };
            let mut ee = vec![];
            macro_rules! ee { ($($k:literal $t:ident)*) => { $( {
                let mut a = rec(); ::syntaxis::tool::syntaxis::syntaxis_context::$t::enter(r, &mut a);
                let mut b = rec(); ::syntaxis::tool::syntaxis::syntaxis_context::$t::exit(r, &mut b);
                ee.push(($k, a.ev, b.ev));
            } )* } }
            ee!(0 RuleListContext 1 ParserRuleContext 2 BlockContext 3 AlternativeContext 4 EpsilonContext 5 ElementContext 6 EbnfSuffixContext 7 LexerRuleContext 8 RegularContext);
            Out::Typed(all, ee)
        }
    }
}
fn diff(a: &[Ev], b: &[Ev]) -> String { let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); format!("event {} is {:?} instead of {:?}", i, a.get(i), b.get(i)) }
fn judge(j: &Job, t: &Tree, o: Out) -> Verdict {
    let at = &mut 0; let mut want = vec![];
    match o {
        Out::Walk(ev) => { walk_events(t, at, &mut want); require!(ev == want, "walk-events", "walking {}: {}", t.show(), diff(&ev, &want)); }
        Out::Full(r, ev, blind) => {
            require!(!blind, "result-hidden", "visiting {}: the visitor was asked whether to go on without seeing the result so far", t.show());
            let w = visit_events(t, at, &j.limit, &mut want);
            require!(ev == want, "visit-events", "visiting {} with limits {:?}: {}", t.show(), short(&j.limit), diff(&ev, &want));
            require!(r == w, "visit-result", "visiting {}: result {} instead of {}", t.show(), r.show(), w.show());
        }
        Out::Sum(v, ev) => {
            let w = sum_events(t, at, j.enough, &mut want);
            require!(ev == want, "decision-events", "adding up {} until {}: {}", t.show(), j.enough, diff(&ev, &want));
            require!(v == w, "combined-result", "adding up {} until {}: {} instead of {}", t.show(), j.enough, v, w);
        }
        Out::Plain(v, unit, ev) => {
            leaf_events(t, at, &mut want);
            require!(ev == want, "leaf-events", "visiting {}: {}", t.show(), diff(&ev, &want));
            let w = last_result(t, &mut 0);
            require!(v == w && unit == w.is_none(), "default-result", "visiting {}: result {:?} instead of {:?}", t.show(), v, w);
        }
        Out::Typed(all, ee) => {
            for (k, ev) in all {
                let mut want = vec![]; let mut at = 0;
                visit_events(t, &mut at, &j.limit, &mut want);
                if let Tree::Rule { index, .. } = t { if *index < 9 { want.remove(0); } }
                want.insert(0, Ev::Visit(k, 0));
                require!(ev == want, "accept", "accepting a visitor as kind {} on {}: {}", k, t.show(), diff(&ev, &want));
            }
            for (k, a, b) in ee { require!(a == [Ev::Enter(k, 0)] && b == [Ev::Exit(k, 0)], "enter-exit", "entering and exiting as kind {} reported {:?} and {:?}", k, a, b); }
        }
    }
    Ok(())
}
fn short(l: &[usize]) -> Vec<(usize, usize)> { l.iter().copied().enumerate().filter(|x| x.1 != usize::MAX).collect() }

fn run() -> Verdict {
    let n = range(1, 3) as usize;
    let one = chance(50) && is_sync!(RuleContext);
    let mut trees: Vec<Tree> = vec![];
    for i in 0..n {
        if one && i > 0 { trees.push(trees[0].clone()); continue; }
        let mut t = reftree::gen(if chance(15) { 150 } else { 20 }, false, 11, true);
        if chance(4) { for k in 0..range(40, 300) { t = Tree::rule((k % 10) as usize, "d", vec![t]); } driver::probe("probe:deep"); }
        if choose(250) == 0 {
            // very many children under one node
            let kids = (0..range(200, 1200)).map(|_| if chance(80) { Tree::tok(choose(24) as usize, "T", "") } else { reftree::gen(4, false, 11, true) }).collect();
            t = Tree::rule(choose(11) as usize, "w", vec![t, Tree::rule(choose(11) as usize, "wide", kids)]);
            driver::probe("probe:wide");
        }
        trees.push(t);
    }
    let jobs: Vec<Job> = (0..n).map(|i| {
        let sz = size(&trees[i]);
        let mut limit = vec![usize::MAX; sz];
        let mode = [Mode::Walk, Mode::Visit, Mode::VisitV1, Mode::Plain, Mode::PlainV1, Mode::Typed, Mode::Sum, Mode::SumV1][[0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7][choose(13) as usize]];
        if matches!(mode, Mode::Visit | Mode::VisitV1 | Mode::Typed) && chance(60) { for _ in 0..range(1, 3) { limit[choose(sz as u64) as usize] = (if chance(10) { choose(700) } else { choose(4) }) as usize; } driver::probe("probe:declined"); }
        let fail_at = if mode != Mode::Typed && chance(30) { Some(choose(sz as u64 * 2) as usize) } else { None };
        let (ty, enough) = if matches!(mode, Mode::Sum | Mode::SumV1) { driver::probe("probe:adding-up"); (choose(5) as u8, if chance(25) { usize::MAX } else { choose(12) as usize }) } else { (0, 0) };
        Job { mode, ty, enough, limit, fail_at, via: chance(50) }
    }).collect();
    for (i, j) in jobs.iter().enumerate() { note(|| format!("{:?} limits {:?} fail {:?} over {}", j.mode, short(&j.limit), j.fail_at, trees[i].show())); }
    let real: Vec<RuleContext> = if one { vec![tree::to_rule(&trees[0])] } else { trees.iter().map(tree::to_rule).collect() };
    let ids: Vec<Ids> = real.iter().map(|r| { let mut d = Ids::default(); number(r, &mut d, &mut 0); d }).collect();
    if one && n > 1 { driver::probe("probe:shared-tree"); }
    sched::swarm();
    let pick_ = |i: usize| if one { 0 } else { i };
    let go = |fail: bool| par((0..n).map(|i| { let (j, d, r) = (&jobs[i], &ids[pick_(i)], Carry(&real[pick_(i)])); Box::new(move || { let c = r; once(j, d, c.0, fail) }) as Box<dyn FnOnce() -> Out>}).collect());
    let outs = go(true);
    let mut broke = false;
    for (i, o) in outs.into_iter().enumerate() {
        match o {
            Outcome::Done(o) => judge(&jobs[i], &trees[i], o)?,
            Outcome::Panicked(m) => { require!(jobs[i].fail_at.is_some() && m.contains("callback gave up"), "panic", "{:?} of {} panicked: {}", jobs[i].mode, trees[i].show(), m); broke = true; driver::probe("probe:callback-failed"); }
        }
    }
    for (k, r) in real.iter().enumerate() { require!(tree::of_rule(r) == trees[k], "tree-changed", "the tree changed during a walk or visit: {}", trees[k].show()); }
    if broke {
        for (i, o) in go(false).into_iter().enumerate() { judge(&jobs[i], &trees[i], expect("walking or visiting again", o)?)?; }
        for (k, r) in real.iter().enumerate() { require!(tree::of_rule(r) == trees[k], "tree-changed", "the tree changed during a walk or visit: {}", trees[k].show()); }
    }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C10", run, quick_runs: 500_000, thorough_runs: 2_000_000, warmup: 4,
        rule: "seeded trees (known and unknown rule kinds, tokens, error nodes, deep chains), 1-3 clients walking or visiting their own or one shared tree, preempted inside callbacks, with visitors that stop below chosen nodes and callbacks that fail at a chosen event followed by a complete second pass; non-trivial = more than 20 preemption points",
        nontrivial: |c| c.steps > 20,
        real: &["syntaxis::tool::syntaxis walker, listener, visitor and context code", "syntaxis::tool::v1 visitor and context code", "syntaxis::runtime::ast"],
        stub: &["listeners and visitors (recording, declining, failing)", "thread scheduler"],
        probes: &["probe:deep", "probe:wide", "probe:declined", "probe:adding-up", "probe:shared-tree", "probe:callback-failed"],
        assumptions: &["rule kinds 0-8 are the grammar's own, in its documented order", "a callback fails by panicking"],
        setup: || {},
    })
}
