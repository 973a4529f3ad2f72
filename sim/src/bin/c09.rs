//! C09: the same grammar gives the same parser in every process.
#[path = "../glue/gram.rs"] mod gram;
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/pipeline.rs"] mod pipeline;
use std::collections::{BTreeMap, BTreeSet};
use synsim::ebnf::{self, Ebnf};
use synsim::refgram::{self, Gram, Prod, Sym};
use synsim::reftree::Tree;
use synsim::*;
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;

enum Src { E(Ebnf), G(Gram) }
impl Src { fn show(&self) -> String { match self { Src::E(e) => e.show(), Src::G(g) => g.show() } } }

/// Everything a user can tell about the built parser.
#[derive(PartialEq, Debug)]
struct Seen { rules: BTreeMap<usize, Option<String>>, toks: BTreeMap<usize, Option<String>>, prods: BTreeSet<Prod>, data: pipeline::TokRules, firsts: gram::Firsts, follows: BTreeMap<usize, refgram::Set>, table: gram::Table, parse: Option<(u8, Option<Tree>)> }

fn make(s: &Src) -> (Grammar, pipeline::TokRules) {
    match s { Src::E(e) => pipeline::build(&tree::to_rule(&e.tree(&ebnf::HAND))), Src::G(g) => (gram::build(g), vec![]) }
}
/// Does a table-driven parse of this stream end, and how deep does it go?
fn bounded(table: &gram::Table, toks: &[usize], start: usize) -> bool {
    let mut stack = vec![(Sym::N(start), 0usize)];
    let (mut cur, mut fuel) = (0, 3000);
    while let Some((s, d)) = stack.pop() {
        fuel -= 1;
        if fuel == 0 || d > 150 { return false; }
        match s {
            Sym::T(_) => { if cur >= toks.len() { return true; } cur += 1; }
            Sym::N(n) => {
                let Some(t) = toks.get(cur) else { return true };
                let Some(p) = table.get(&(n, *t)) else { return true };
                for x in p.1.iter().rev() { stack.push((*x, d + 1)); }
            }
        }
    }
    true
}
fn observe(s: &Src, stream: &[usize], v1: bool, share: bool) -> Seen {
    let (g, data) = make(s);
    // a second grammar object alive at the same time must not matter
    let _other = if share { Some(make(s)) } else { None };
    let rules = g.vocabulary.get_all_nonterminals().iter().map(|n| (*n, g.vocabulary.get_nonterminal_name_by_id(*n))).collect();
    let toks: BTreeMap<usize, Option<String>> = g.vocabulary.get_all_terminals().iter().map(|n| (*n, g.vocabulary.get_terminal_name_by_id(*n))).collect();
    let (f, p) = g.first_set();
    let fo = g.follow_set(&f);
    let t = g.ll1_table(&p, &fo);
    let table: gram::Table = t.iter().map(|(k, v)| (*k, gram::prod(v))).collect();
    let all: Vec<usize> = toks.keys().copied().filter(|t| *t > 1).collect();
    let ids: Vec<usize> = stream.iter().map(|x| if *x == usize::MAX || all.is_empty() { 1 } else { all[*x % all.len()] }).collect();
    let mut seen = Seen { rules, toks, prods: gram::prods_of(&g), data, firsts: gram::firsts(&g), follows: fo.iter().map(|(n, s)| (*n, s.iter().copied().collect())).collect(), table, parse: None };
    if bounded(&seen.table, &ids, 0) {
        let tk: Vec<Token> = ids.iter().map(|i| Token::new(*i, "t", &format!("x{}", i))).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if v1 { SyntaxisParser::new(tk, t, g.vocabulary).parse() } else { LL1Parser::new(tk, t, g).parse() }));
        seen.parse = Some(match r { Ok(r) => (1, Some(tree::of_rule(&r))), Err(p) => { drop(p); (2, None) } });
    }
    seen
}

fn run() -> Verdict {
    let n = range(1, 2) as usize;
    let srcs: Vec<Src> = (0..n).map(|_| match choose(5) { 0 | 1 => Src::G(refgram::gen()), 2 | 3 => Src::E(ebnf::gen_any()), _ => Src::E(ebnf::gen_ll1().0) }).collect();
    let streams: Vec<Vec<usize>> = (0..n).map(|_| { let mut v: Vec<usize> = (0..choose(8)).map(|_| choose(16) as usize).collect(); v.push(usize::MAX); v }).collect();
    for s in &srcs { note(|| s.show()); }
    sched::swarm();
    let v1 = chance(50);
    let copies = range(2, 3) as usize;
    let shared = chance(20);
    let outs = par((0..n * copies).map(|k| { let (s, st) = (&srcs[k % n], &streams[k % n]); Box::new(move || observe(s, st, v1, shared)) as Box<dyn FnOnce() -> Seen> }).collect());
    let mut seen: Vec<Seen> = vec![];
    for o in outs { seen.push(expect("building the parser", o)?); }
    // later, in a quiet process, once more
    let late = chance(50);
    for k in 0..n * copies {
        let (a, b) = (&seen[k % n], &seen[k]);
        let what = &srcs[k % n];
        require!(a.rules == b.rules && a.toks == b.toks, "identifiers-differ", "two builds gave different identifiers: {:?} and {:?} for {}", a.rules, b.rules, what.show());
        require!(a.prods == b.prods, "productions-differ", "two builds gave different productions: {:?} and {:?} for {}", a.prods.difference(&b.prods).collect::<Vec<_>>(), b.prods.difference(&a.prods).collect::<Vec<_>>(), what.show());
        require!(a.data == b.data, "token-rules-differ", "two builds gave different token rules for {}", what.show());
        require!(a.firsts == b.firsts && a.follows == b.follows, "sets-differ", "two builds gave different FIRST or FOLLOW sets for {}", what.show());
        if a.table != b.table {
            let d = a.table.iter().find(|(k, v)| b.table.get(k) != Some(v)).map(|(k, v)| format!("(n{}, t{}): {:?} and {:?}", k.0, k.1, v, b.table.get(k)));
            violation!("table-differs", "two builds predict differently: {:?} for {}", d, what.show());
        }
        require!(a.parse == b.parse, "parse-differs", "the same stream parsed differently for {}", what.show());
        match &a.parse { Some((1, _)) => driver::probe("probe:parsed"), Some(_) => driver::probe("probe:refused"), None => driver::probe("probe:parse-unbounded") }
    }
    if late {
        let (s, st) = (&srcs[0], &streams[0]);
        let o = expect("building the parser", solo(|| observe(s, st, v1, false)))?;
        require!(o == seen[0], "later-differs", "a later build differs for {}", s.show());
    }
    for s in &srcs { let g = match s { Src::E(e) => e.lower(), Src::G(g) => g.clone() }; if ebnf::is_ll1(&g) { driver::probe("probe:ll1") } else { driver::probe("probe:not-ll1") } }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C09", run, quick_runs: 80_000, thorough_runs: 600_000, warmup: 4,
        rule: "seeded grammars (direct productions and EBNF trees, LL(1) and not) each built 2-4 times with different hash keys by interleaved clients; identifiers, productions, token rules, FIRST/FOLLOW, table and the parse of a seeded token stream compared; non-trivial = more than 200 preemption points",
        nontrivial: |c| c.steps > 200,
        real: &["grammar building pipeline", "FIRST/FOLLOW/table", "both table-driven parsers"],
        stub: &["entropy source of hash keys (every build draws its own)", "standard output device", "thread scheduler"],
        probes: &["probe:ll1", "probe:not-ll1", "probe:parsed", "probe:refused"],
        assumptions: &["another process differs only in hash keys, schedule and time", "parses are compared where a table-driven parse ends within 3000 steps and depth 150"],
        setup: || {},
    })
}
