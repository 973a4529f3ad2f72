//! C05: both parsers return the one correct tree; damaged token streams never pass.
#[path = "../glue/gram.rs"] mod gram;
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/pipeline.rs"] mod pipeline;
#[path = "../glue/meta.rs"] mod meta;
use std::collections::BTreeMap;
use synsim::ebnf::{self, Ebnf, Node};
use synsim::refgram::Gram;
use synsim::reftree::Tree;
use synsim::*;
use syntaxis::runtime::{ast::{ast_context::ASTContext, rule_context::RuleContext}, token::{Position, Token}};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;

/// A token on its way to the parser: reference id, text, byte span.
#[derive(Clone, Debug)]
struct Tk { id: usize, text: String, a: usize, b: usize }

fn make_input(e: &Ebnf, ids: &[usize]) -> (String, Vec<Tk>) {
    let mut s = String::new();
    let mut v = vec![];
    for (k, id) in ids.iter().enumerate() {
        if k > 0 || chance(20) { s += pick::<&str>(&[" ", "\n", "  ", "\t"]); }
        let t = format!("{}{}", e.toks[*id - 2].0.to_lowercase(), if chance(30) { "é".into() } else { k.to_string() });
        let a = s.len();
        s += &t;
        v.push(Tk { id: *id, text: t, a, b: s.len() });
    }
    if chance(30) { s.push('\n'); }
    v.push(Tk { id: 1, text: "_STOP".into(), a: s.len(), b: s.len() });
    (s, v)
}

/// Lose, duplicate, reorder, replace or cut tokens.
fn damage(v: &[Tk], kinds: usize) -> Vec<Tk> {
    let mut w = v.to_vec();
    for _ in 0..range(1, 2) {
        if w.is_empty() { break; }
        let n = w.len() as u64;
        let i = choose(n) as usize;
        match choose(7) {
            0 => { fault("token-lost", || format!("#{} {}", i, w[i].text)); w.remove(i); }
            1 => { fault("token-duplicated", || format!("#{} {}", i, w[i].text)); let t = w[i].clone(); w.insert(i, t); }
            2 => { let j = choose(n) as usize; fault("tokens-reordered", || format!("#{} #{}", i, j)); w.swap(i, j); }
            3 | 4 => { let id = 2 + choose(kinds as u64) as usize; fault("token-replaced", || format!("#{} becomes kind {}", i, id)); w[i].id = id; }
            5 => { fault("stream-cut", || format!("at #{}", i)); w.truncate(i); }
            _ => { let j = choose(n) as usize; let t = w[j].clone(); fault("token-inserted", || format!("#{} at #{}", j, i)); w.insert(i, t); }
        }
    }
    w
}

struct Job { e: Ebnf, g: Gram, input: String, stream: Vec<Tk>, damaged: bool, v1: bool, meta: bool }

struct Built { g: syntaxis::tool::grammar::Grammar, t: std::collections::HashMap<(usize, usize), std::rc::Rc<syntaxis::tool::grammar::Production>>, rules: Vec<usize>, toks: Vec<usize> }
fn build(j: &Job) -> Built {
    let ast = if j.meta { meta::load() } else { tree::to_rule(&j.e.tree(&ebnf::HAND)) };
    let (g, _) = pipeline::build(&ast);
    let (f, p) = g.first_set();
    let fo = g.follow_set(&f);
    let t = g.ll1_table(&p, &fo);
    let rules = j.e.rules.iter().map(|r| g.vocabulary.get_nonterminal_id_by_name(&r.0).expect("rule id")).collect();
    let toks = j.e.toks.iter().map(|r| g.vocabulary.get_terminal_id_by_name(&r.0).expect("token id")).collect();
    Built { g, t, rules, toks }
}
fn tokens(j: &Job, toks: &[usize]) -> Vec<Token> {
    j.stream.iter().enumerate().map(|(i, t)| {
        let mut k = Token::new(if t.id < 2 { t.id } else { toks[t.id - 2] }, if t.id < 2 { "_STOP" } else { &j.e.toks[t.id - 2].0 }, &t.text);
        k.start = Position { line: 0, char_position: t.a };
        k.stop = Position { line: 0, char_position: t.b };
        k.channel = 0; k.token_index = i; k.char_start_index = t.a; k.char_stop_index = t.b;
        k
    }).collect()
}
fn texts(r: &RuleContext, input: &str, out: &mut Vec<String>) {
    out.push(r.get_text(input).to_string());
    for c in &r.children { if let ASTContext::Rule(r) = c { texts(r, input, out) } }
}
fn spans(r: &RuleContext, out: &mut Vec<usize>) {
    for c in &r.children { match c { ASTContext::Rule(r) => spans(r, out), ASTContext::Terminal(t) => out.push(t.symbol.token_index), ASTContext::Error(t) => out.push(t.symbol.token_index) } }
}

fn expected(n: &Node, j: &Job, rules: &[usize], toks: &[usize]) -> Tree {
    match n {
        Node::Rule(r, k) => Tree::rule(rules[*r], &j.e.rules[*r].0, k.iter().map(|x| expected(x, j, rules, toks)).collect()),
        Node::Tok(i) => { let t = &j.stream[*i]; Tree::tok(if t.id < 2 { t.id } else { toks[t.id - 2] }, if t.id < 2 { "_STOP" } else { &j.e.toks[t.id - 2].0 }, &t.text) }
    }
}
fn leaves(n: &Node, out: &mut Vec<usize>) { match n { Node::Rule(_, k) => for x in k { leaves(x, out) }, Node::Tok(i) => out.push(*i) } }
fn expected_texts(n: &Node, j: &Job, out: &mut Vec<String>) {
    if let Node::Rule(_, k) = n {
        let mut l = vec![]; leaves(n, &mut l);
        out.push(if l.is_empty() { String::new() } else { j.input[j.stream[l[0]].a..j.stream[*l.last().unwrap()].b].to_string() });
        for x in k { expected_texts(x, j, out) }
    }
}

fn gen_job() -> Job {
    let meta = chance(15);
    let (e, g) = if meta { let e = meta::ebnf(); let g = e.lower(); (e, g) } else { ebnf::gen_ll1() };
    let cap = if choose(60) == 0 { range(150, 700) as usize } else { [6, 20, 60][choose(3) as usize] };
    let s = ebnf::sentence(&g, cap);
    if s.len() > 150 { driver::probe("probe:long-sentence"); }
    let (input, stream) = make_input(&e, &s);
    let damaged = chance(45);
    let stream = if damaged { damage(&stream, e.toks.len()) } else { stream };
    if meta { driver::probe("probe:meta-grammar"); }
    Job { e, g, input, stream, damaged, v1: chance(50), meta }
}

fn judge(j: &Job, o: Outcome<(Tree, Vec<String>, Vec<usize>)>, rules: &[usize], toks: &[usize], out: &[u8], hard: u64) -> Verdict {
    let ids: Vec<usize> = j.stream.iter().map(|t| t.id).collect();
    let who = if j.v1 { "self-hosted parser" } else { "LL1Parser" };
    let ctx = || format!("{} on {:?}; {}", who, ids, j.e.show());
    match ebnf::ll1_parse(&j.g, &ids, 0) {
        Ok((n, used)) => {
            let whole = used + 1 == ids.len() && ids[used] == 1;
            let (t, x, sp) = match o {
                Outcome::Done(v) => v,
                Outcome::Panicked(m) => { require!(!whole || hard > 0, "sentence-rejected", "a sentence was refused ({}): {}", m, ctx()); return Ok(()); }
            };
            if !whole && !out.is_empty() { return Ok(()); }
            require!(out.is_empty(), "sentence-reported", "an error was reported for a sentence: {}", ctx());
            let want = expected(&n, j, rules, toks);
            require!(t == want, "wrong-tree", "tree {} instead of {}: {}", t.show(), want.show(), ctx());
            let mut l = vec![]; leaves(&n, &mut l);
            require!(l == sp, "wrong-tokens", "tokens {:?} instead of {:?}: {}", sp, l, ctx());
            if !j.damaged {
                let mut w = vec![]; expected_texts(&n, j, &mut w);
                require!(x == w, "node-text", "node texts {:?} instead of {:?} in {:?}: {}", x, w, j.input, ctx());
            }
            if j.damaged { driver::probe("probe:damaged-but-prefix-parses"); }
            if n_has_empty_rule(&n) { driver::probe("probe:empty-named-rule"); }
            Ok(())
        }
        Err(_) => {
            driver::probe("probe:reference-rejects");
            if let Outcome::Done((t, _, sp)) = o {
                if !out.is_empty() || hard > 0 { driver::probe("probe:mismatch-reported"); return Ok(()); }
                // silent: only the exact tree of the consumed prefix is acceptable
                let k = sp.len();
                require!(sp == (0..k).collect::<Vec<_>>(), "silent-damage", "a damaged stream passed silently with tokens {:?}: {}", sp, ctx());
                let mut p: Vec<usize> = ids[..k].to_vec(); p.push(1);
                match ebnf::ll1_parse(&j.g, &p, 0) {
                    Ok((n, used)) if used == k && expected(&n, j, rules, toks) == t => {}
                    _ => violation!("silent-damage", "a damaged stream passed silently as {}: {}", t.show(), ctx()),
                }
            } else { driver::probe("probe:failed-loudly"); }
            Ok(())
        }
    }
}
fn n_has_empty_rule(n: &Node) -> bool { match n { Node::Rule(_, k) => k.iter().any(|x| matches!(x, Node::Rule(_, v) if v.is_empty())) || k.iter().any(n_has_empty_rule), _ => false } }

fn table_mode() -> Verdict {
    let k = range(1, 2) as usize;
    let jobs: Vec<Job> = (0..k).map(|_| gen_job()).collect();
    for j in &jobs { note(|| format!("{} input {:?} stream {:?}", j.e.show(), j.input, j.stream.iter().map(|t| t.id).collect::<Vec<_>>())); }
    sched::swarm();
    let outs = par(jobs.iter().map(|j| Box::new(move || Carry(build(j))) as Box<dyn FnOnce() -> Carry<Built>>).collect());
    let mut built = vec![];
    for o in outs { built.push(expect("building the parser", o)?.0); }
    let maps: Vec<(Vec<usize>, Vec<usize>)> = built.iter().map(|b| (b.rules.clone(), b.toks.clone())).collect();
    let faulty = chance(25);
    if faulty { sched::stdout_faults(); }
    let outs = par(jobs.iter().zip(built).map(|(j, b)| {
        let b = Carry(b);
        Box::new(move || {
            let b = { let c = b; c.0 };
            let tk = tokens(j, &b.toks);
            let r = if j.v1 { SyntaxisParser::new(tk, b.t, b.g.vocabulary).parse() } else { LL1Parser::new(tk, b.t, b.g).parse() };
            let mut x = vec![];
            if !j.damaged { texts(&r, &j.input, &mut x); }
            let mut sp = vec![]; spans(&r, &mut sp);
            (tree::of_rule(&r), x, sp)
        }) as Box<dyn FnOnce() -> _>
    }).collect());
    let io = sched::io_result();
    for (i, o) in outs.into_iter().enumerate() { judge(&jobs[i], o, &maps[i].0, &maps[i].1, &io.out[i], io.hard[i])?; }
    Ok(())
}

/// One client parses several streams one after the other; each is judged alone.
fn session_mode() -> Verdict {
    let mut j = gen_job();
    let whole = { let mut k = j.stream.clone(); if j.damaged { let s = ebnf::sentence(&j.g, 20); k = make_input(&j.e, &s).1; } k };
    let mut rounds: Vec<(Vec<Tk>, bool)> = vec![(j.stream.clone(), j.v1)];
    for _ in 0..range(1, 3) {
        let next = match choose(5) { 0 | 1 => rounds[choose(rounds.len() as u64) as usize].0.clone(), 2 => whole.clone(), _ => damage(&whole, j.e.toks.len()) };
        rounds.push((next, if chance(70) { j.v1 } else { !j.v1 }));
    }
    for r in &rounds { note(|| format!("stream {:?}", r.0.iter().map(|t| t.id).collect::<Vec<_>>())); }
    note(|| j.e.show());
    j.damaged = true; // spans belong to different inputs
    sched::swarm();
    driver::probe("probe:several-streams");
    struct Round { o: Outcome<(Tree, Vec<String>, Vec<usize>)>, rules: Vec<usize>, toks: Vec<usize>, from: usize, to: usize }
    let (jj, rr) = (&j, &rounds);
    let outs = par((0..1).map(|_| Box::new(move || rr.iter().map(|(s, v1)| {
        let jr = Job { e: jj.e.clone(), g: jj.g.clone(), input: String::new(), stream: s.clone(), damaged: true, v1: *v1, meta: jj.meta };
        let b = build(&jr);
        let (rules, toks) = (b.rules.clone(), b.toks.clone());
        let tk = tokens(&jr, &b.toks);
        let from = sched::out_len();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || if *v1 { SyntaxisParser::new(tk, b.t, b.g.vocabulary).parse() } else { LL1Parser::new(tk, b.t, b.g).parse() }));
        let to = sched::out_len();
        let o = match r { Ok(r) => { let mut sp = vec![]; spans(&r, &mut sp); Outcome::Done((tree::of_rule(&r), vec![], sp)) } Err(_) => Outcome::Panicked("parsing".into()) };
        Round { o, rules, toks, from, to }
    }).collect::<Vec<_>>()) as Box<dyn FnOnce() -> Vec<Round>>).collect());
    let io = sched::io_result();
    for o in outs {
        let rounds_done = expect("parsing several streams", o)?;
        for (r, (s, v1)) in rounds_done.into_iter().zip(&rounds) {
            let jr = Job { e: j.e.clone(), g: j.g.clone(), input: String::new(), stream: s.clone(), damaged: true, v1: *v1, meta: j.meta };
            judge(&jr, r.o, &r.rules, &r.toks, &io.out[0][r.from..r.to], 0)?;
        }
    }
    Ok(())
}

fn run() -> Verdict { if chance(12) { session_mode() } else if chance(25) { meta::text_mode() } else { table_mode() } }

fn main() {
    tree::warm();
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    driver::main(Scenario {
        id: "C05", run, quick_runs: 80_000, thorough_runs: 1_000_000, warmup: 4,
        rule: "seeded LL(1) EBNF grammars (and the tool's own grammar) with sampled sentences, built and parsed by 1-2 concurrent clients under their own hash keys; 45% of streams damaged (lost, duplicated, reordered, replaced, inserted, cut tokens), 25% with output faults; plus random grammar texts through the self-hosted lexer and parser with every typed entry point; in 12% of runs one client parses 2-4 streams one after the other; non-trivial = more than 200 preemption points",
        nontrivial: |c| c.steps > 200,
        real: &["syntaxis::tool::parser::ll1_parser", "syntaxis::tool::v1 lexer, parser and contexts", "grammar building pipeline and table", "syntaxis::runtime::ast"],
        stub: &["standard output device", "token channel between lexer and parser (fault injected)", "entropy source of hash keys", "thread scheduler"],
        probes: &["probe:meta-grammar", "probe:damaged-but-prefix-parses", "probe:reference-rejects", "probe:mismatch-reported", "probe:failed-loudly", "probe:empty-named-rule", "probe:entry-point", "probe:long-sentence", "probe:several-streams"],
        assumptions: &["grammars are sampled LL(1) grammars, sentences up to about 60 tokens, rarely up to 700", "a correct prefix followed by further tokens may be accepted, reported or refused"],
        setup: meta::setup,
    })
}
