//! C04: lowering EBNF to productions preserves every rule's language.
#[path = "../glue/gram.rs"] mod gram;
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/pipeline.rs"] mod pipeline;
use std::collections::{BTreeMap, BTreeSet};
use synsim::ebnf::{self, Decl, Ebnf, Lang};
use synsim::refgram::Prod;
use synsim::*;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleVisitor, StringLiteralVisitor};

const PASS: &str = "\u{1}next pass\u{1}";
struct Built { prods: BTreeSet<Prod>, rules: Vec<Option<usize>>, toks: Vec<Option<usize>>, rname: Vec<Option<String>>, tname: Vec<Option<String>>, nts: BTreeSet<usize>, ts: BTreeSet<usize>, data: pipeline::TokRules, data2: pipeline::TokRules }

/// The tree of a grammar, in which a rule may be declared again, word for word.
fn tree_of(e: &Ebnf, again: Option<usize>) -> synsim::reftree::Tree {
    let mut t = e.tree(&ebnf::HAND);
    if let (Some(i), synsim::reftree::Tree::Rule { kids, .. }) = (again, &mut t) {
        let is = |k: &&synsim::reftree::Tree| matches!(k, synsim::reftree::Tree::Rule { kids, .. } if matches!(kids.first(), Some(synsim::reftree::Tree::Tok { text, .. }) if *text == e.rules[i].0));
        if let Some(k) = kids.iter().find(is).cloned() { kids.push(k); }
    }
    t
}
fn build(e: &Ebnf, again: Option<usize>) -> Built {
    let ast = tree::to_rule(&tree_of(e, again));
    let (g, data) = pipeline::build(&ast);
    // separates what the passes say
    println!("{}", PASS);
    let mut lv = LexerRuleVisitor::new(vec![], 2);
    RuleListContext::accept(&ast, &mut lv);
    let v = &g.vocabulary;
    let rules: Vec<_> = e.rules.iter().map(|r| v.get_nonterminal_id_by_name(&r.0)).collect();
    let toks: Vec<_> = e.toks.iter().map(|r| v.get_terminal_id_by_name(&r.0)).collect();
    Built {
        prods: gram::prods_of(&g),
        rname: rules.iter().map(|i| i.and_then(|i| v.get_nonterminal_name_by_id(i))).collect(),
        tname: toks.iter().map(|i| i.and_then(|i| v.get_terminal_name_by_id(i))).collect(),
        rules, toks,
        nts: v.get_all_nonterminals().iter().copied().collect(), ts: v.get_all_terminals().iter().copied().collect(),
        data, data2: lv.data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect(),
    }
}

thread_local! { static LANGS: std::cell::RefCell<BTreeMap<usize, &'static Lang>> = std::cell::RefCell::new(BTreeMap::new()); }
fn lang(k: usize) -> &'static Lang { LANGS.with(|l| *l.borrow_mut().entry(k).or_insert_with(|| Box::leak(Box::new(Lang::new(k))))) }

fn check(b: &Built, e: &Ebnf, first_rule: usize, letters: &[usize]) -> Verdict {
    let mut seen = BTreeSet::new();
    for (i, r) in b.rules.iter().enumerate() {
        let Some(r) = r else { violation!("rule-lost", "rule {} has no identifier in {}", e.rules[i].0, e.show()) };
        require!(seen.insert(*r), "rule-id-shared", "two rules share identifier {} in {}", r, e.show());
        require!(b.rname[i].as_ref() == Some(&e.rules[i].0), "rule-name", "identifier {} of rule {} maps back to {:?} in {}", r, e.rules[i].0, b.rname[i], e.show());
        require!(b.nts.contains(r), "rule-unregistered", "rule {} is not registered in {}", r, e.show());
    }
    require!(b.rules[first_rule] == Some(0), "start-rule", "the first declared rule {} has identifier {:?}, not the start identifier, in {}", e.rules[first_rule].0, b.rules[first_rule], e.show());
    let mut seen = BTreeSet::new();
    for (i, t) in b.toks.iter().enumerate() {
        let Some(t) = t else { violation!("token-lost", "token {} has no identifier in {}", e.toks[i].0, e.show()) };
        require!(seen.insert(*t) && *t > 1, "token-id-shared", "token {} has identifier {}, already taken, in {}", e.toks[i].0, t, e.show());
        require!(b.tname[i].as_ref() == Some(&e.toks[i].0), "token-name", "identifier {} of token {} maps back to {:?} in {}", t, e.toks[i].0, b.tname[i], e.show());
        require!(b.ts.contains(t), "token-unregistered", "token {} is not registered in {}", t, e.show());
    }
    // token rules: once each, in declaration order, pattern as written
    let want: Vec<(String, String)> = e.order.iter().filter_map(|d| match d { Decl::T(i) => Some((e.toks[*i].0.clone(), format!("^({})", e.toks[*i].1.replace("\\/", "/")))), _ => None }).collect();
    for (what, data) in [("symbol pass", &b.data), ("token rule pass", &b.data2)] {
        // anchored and grouped; a group that captures nothing means the same
        let got: Vec<(String, String)> = data.iter().map(|d| (d.1.clone(), match d.2.strip_prefix("^(?:") { Some(r) if !want.iter().any(|w| w.1 == d.2) => format!("^({}", r), _ => d.2.clone() })).collect();
        require!(got == want, "token-rules", "{}: token rules {:?} but declared {:?}", what, got, want);
        for d in data { let i = e.toks.iter().position(|t| t.0 == d.1).unwrap(); require!(Some(d.0) == b.toks[i], "token-rule-id", "{}: token rule {} has identifier {} but the symbol table says {:?}", what, d.1, d.0, b.toks[i]); }
    }
    // every symbol in a production is registered
    for (l, r) in &b.prods {
        require!(b.nts.contains(l), "production-unregistered", "production of unregistered rule {} in {}", l, e.show());
        for s in r { let ok = match s { refgram::Sym::N(n) => b.nts.contains(n), refgram::Sym::T(t) => b.ts.contains(t) }; require!(ok, "symbol-unregistered", "unregistered symbol {:?} in a production of {}", s, e.show()); }
    }
    let lg = lang(letters.len());
    let by_tok: BTreeMap<usize, usize> = letters.iter().enumerate().map(|(c, t)| (*t, c)).collect();
    let by_id: BTreeMap<usize, usize> = letters.iter().enumerate().map(|(c, t)| (b.toks[*t].unwrap(), c)).collect();
    let want = ebnf::ebnf_language(e, lg, &by_tok);
    let got = ebnf::prod_language(&b.prods, lg, &by_id);
    for i in 0..e.rules.len() {
        let g = got.get(&b.rules[i].unwrap()).copied().unwrap_or(0);
        require!(g == want[i], "language", "rule {} generates a different language (strings up to length {} over {} tokens: missing {} extra {}) in {}", e.rules[i].0, lg.l, lg.k, (want[i] & !g).count_ones(), (g & !want[i]).count_ones(), e.show());
    }
    Ok(())
}

/// Quoted literals as written, and the text they stand for.
const LITS: &[(&str, &str)] = &[("'if'", "if"), ("'x'", "x"), ("'X1'", "X1"), ("'x1'", "x1"), ("'+'", "+"), ("'++'", "++"), ("'*'", "*"), ("'a*b'", "a*b"), ("'\\n'", "\n"), ("'a\\tb'", "a\tb"), ("'\\''", "'"), ("'中'", "中"), ("'if '", "if ")];
fn run_literals() -> Verdict {
    let mut e = ebnf::gen_any();
    let kinds = range(1, LITS.len() as u64);
    fn sprinkle(b: &mut Vec<ebnf::Alt>, kinds: u64) {
        for a in b { for x in a { match &mut x.atom { ebnf::Atom::Block(b) => sprinkle(b, kinds), at => if chance(60) { *at = ebnf::Atom::Lit(LITS[choose(kinds) as usize].0.into()) } } } }
    }
    for r in &mut e.rules { sprinkle(&mut r.1, kinds); }
    note(|| e.show());
    let t = e.tree(&ebnf::HAND);
    let mut leaves = vec![];
    t.leaves(&mut leaves);
    let mut want: Vec<&str> = vec![];
    for l in leaves { if let synsim::reftree::Tree::Tok { ty, text, .. } = l { if *ty == ebnf::HAND.lit && !want.contains(&text.as_str()) { want.push(text); } } }
    sched::swarm();
    let tt = &t;
    let outs = par((0..range(1, 3)).map(|_| Box::new(move || {
        let ast = tree::to_rule(tt);
        let mut v = StringLiteralVisitor::new();
        RuleListContext::accept(&ast, &mut v);
        (v.data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect::<Vec<_>>(), v.next_token_type)
    }) as Box<dyn FnOnce() -> (pipeline::TokRules, usize)>).collect());
    for o in outs {
        let (data, next) = expect("collecting the literals", o)?;
        require!(data.len() == want.len() && next == 2 + want.len(), "literal-count", "collected {:?} (next number {}) from the literals {:?}", data, next, want);
        for (i, (d, w)) in data.iter().zip(&want).enumerate() {
            require!(d.0 == 2 + i && d.1 == format!("T_{}", 2 + i), "literal-number", "the literal number {} is {:?}; literals in order {:?}", i, d, want);
            let text = LITS.iter().find(|l| l.0 == *w).unwrap().1;
            let _g = sched::Guard::new();
            let Ok(re) = regex::Regex::new(&d.2) else { violation!("literal-pattern", "the pattern {:?} of literal {} is no pattern", d.2, w) };
            require!(re.find(text).map(|m| m.range()) == Some(0..text.len()), "literal-pattern", "the pattern {:?} of literal {} does not match {:?}", d.2, w, text);
            for (_, other) in LITS { require!(other.starts_with(text) || re.find(other).is_none(), "literal-pattern", "the pattern {:?} of literal {} also matches at the start of {:?}", d.2, w, other); }
        }
    }
    if want.len() > 3 { driver::probe("probe:literals"); }
    Ok(())
}

fn run() -> Verdict {
    if chance(8) { return run_literals(); }
    let k = range(1, 2) as usize;
    let gs: Vec<Ebnf> = (0..k).map(|_| ebnf::gen_any()).collect();
    let again: Vec<Option<usize>> = gs.iter().map(|g| if chance(10) { Some(choose(g.rules.len() as u64) as usize) } else { None }).collect();
    for (g, a) in gs.iter().zip(&again) { note(|| format!("{} rule declared again: {:?}", g.show(), a)); }
    sched::swarm();
    let twice = chance(30);
    let outs = par(gs.iter().zip(&again).cycle().take(if twice { 2 * k } else { k }).map(|(g, a)| { let (g, a) = (g.clone(), *a); Box::new(move || build(&g, a)) as Box<dyn FnOnce() -> Built> }).collect());
    let io = sched::io_result();
    for (i, o) in outs.into_iter().enumerate() {
        let e = &gs[i % k];
        let said = String::from_utf8_lossy(&io.out[i]).into_owned();
        for d in &e.dups {
            for part in said.split(PASS) { require!(part.contains(&e.toks[d.0].0), "unreported-duplicate", "token {} is declared twice and one of the passes did not report it ({:?}) in {}", e.toks[d.0].0, said, e.show()); }
            driver::probe("probe:declared-again");
        }
        let b = expect("building the grammar", o)?;
        if let Some(r) = again[i % k] {
            let first = said.split(PASS).next().unwrap_or("");
            require!(first.contains(&e.rules[r].0), "unreported-duplicate", "rule {} is declared twice and that was not reported ({:?}) in {}", e.rules[r].0, said, e.show());
            driver::probe("probe:rule-declared-again");
        }
        // strings over a few of the tokens (all of them when there are few)
        let n = e.toks.len();
        let letters: Vec<usize> = if n <= 4 { (0..n).collect() } else { let s = choose(n as u64) as usize; let d = 1 + choose(n as u64 - 1) as usize; let mut v: Vec<usize> = (0..3).map(|j| (s + j * d) % n).collect(); v.sort(); v.dedup(); v };
        check(&b, e, 0, &letters)?;
    }
    if gs.iter().any(|g| g.show().contains("+")) { driver::probe("probe:plus"); }
    if gs.iter().any(|g| g.show().contains(")*")) { driver::probe("probe:starred-group"); }
    if gs.iter().any(|g| g.toks.len() > 4) { driver::probe("probe:many-tokens"); }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C04", run, quick_runs: 220_000, thorough_runs: 1_200_000, warmup: 4,
        rule: "seeded EBNF grammars (1-5 rules, 1-8 tokens, groups two deep, repeated sub-expressions), built by 1-4 concurrent clients with their own hash keys; every rule's language compared for all strings up to the length bound (6 over 2 tokens, 4 over 3, 3 over 4; over a 2-3 token subset when there are more); non-trivial = more than 100 preemption points",
        nontrivial: |c| c.steps > 100,
        real: &["syntaxis::tool::visitor (string literal, symbol and production passes, token rule pass)", "syntaxis::tool::syntaxis visitor and context code", "syntaxis::runtime::vocabulary"],
        stub: &["entropy source of hash keys", "thread scheduler", "standard output device"],
        probes: &["probe:plus", "probe:starred-group", "probe:many-tokens", "probe:declared-again", "probe:rule-declared-again", "probe:literals"],
        assumptions: &["string literals in rules are only collected, not lowered (unimplemented, see C15)", "rule and token names are distinct", "languages are compared up to a length bound"],
        setup: || {},
    })
}
