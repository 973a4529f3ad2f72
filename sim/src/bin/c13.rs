//! C13: concurrent sessions of every kind in one process do not influence each other.
#[path = "../glue/gram.rs"] mod gram;
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/pipeline.rs"] mod pipeline;
#[path = "../glue/meta.rs"] mod meta;
#[path = "../glue/draw.rs"] mod draw;
#[path = "../glue/lexsess.rs"] mod lexsess;
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use synsim::ebnf::{self, Ebnf, Node, V1};
use synsim::refgram::{self, Gram, Set};
use synsim::reflex::{self, RefLexer, Spec, Tok};
use synsim::reftree::{self, Tree};
use synsim::*;
use syntaxis::runtime::{ast::{error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext}, lexer::Lexer, token::{Position, Token}};
use syntaxis::tool::gui::ast_drawer::ASTDrawer;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;

static SPECS: OnceLock<(Spec, Spec)> = OnceLock::new();
fn setup() { let _ = SPECS.set((reflex::v1(), reflex::hand())); meta::setup(); draw::setup(); }

enum Job {
    Lex { v1: bool, text: String, ops: Vec<Option<u64>> }, // Some(k) = k single scans, None = everything
    Load { data: Vec<u8>, text: bool, chunk: usize, fail: Option<(usize, bool)>, want: Option<Option<Tree>> } /* want None = may be refused or read either way; fail = the reader fails (or panics) there */,
    Table { g: Gram },
    Parse { e: Ebnf, g: Gram, ids: Vec<usize>, good: bool, v1: bool },
    Text { input: String, want: Tree },
    Walk { t: Tree, fail_at: Option<usize> },
    Draw { t: Tree, path: String, name: String },
    Malformed { t: Tree },
    /// A session whose reader or callback holds another whole session.
    Nest { outer: Box<Job>, inner: Box<Job>, at: usize },
}
impl Job {
    fn kind(&self) -> &'static str { match self { Job::Lex { .. } => "lexing", Job::Load { .. } => "loading", Job::Table { .. } => "table building", Job::Parse { .. } => "parsing", Job::Text { .. } => "parsing a text", Job::Walk { .. } => "traversing", Job::Draw { .. } => "drawing", Job::Malformed { .. } => "building from a malformed tree", Job::Nest { outer, .. } => match **outer { Job::Walk { .. } => "traversing with sessions in its callbacks", _ => "loading with sessions in its reader" } } }
    fn show(&self) -> String {
        match self {
            Job::Lex { v1, text, ops } => format!("lex v1={} {:?} {:?}", v1, text, ops), Job::Load { data, chunk, fail, .. } => format!("load (by {}, fails {:?}) {}", chunk, fail, String::from_utf8_lossy(data)), Job::Nest { outer, inner, at } => format!("{{{}}} in step {} of {{{}}}", inner.show(), at, outer.show()), Job::Table { g } => format!("table {}", g.show()),
            Job::Parse { e, ids, good, v1, .. } => format!("parse v1={} good={} {:?} with {}", v1, good, ids, e.show()), Job::Text { input, .. } => format!("text {:?}", input),
            Job::Walk { t, fail_at } => format!("walk {} fail {:?}", t.show(), fail_at), Job::Draw { t, path, name } => format!("draw {} as {} to {}", t.show(), name, path), Job::Malformed { t } => format!("malformed {}", t.show()),
        }
    }
}
#[derive(PartialEq, Debug, Clone)]
enum Out {
    Lex(Vec<Vec<Tok>>, Vec<bool>),
    Load(Option<Tree>),
    Table(gram::Firsts, BTreeMap<usize, Set>, gram::Table),
    Parse(Tree),
    Text(Tree),
    Walk(Vec<String>, Vec<String>),
    Draw(Vec<u8>),
    Nest(Box<Out>, Option<Box<Out>>),
    Died,
}

// ---- the sessions -----------------------------------------------------------------------
struct Rec<'a> { ev: Vec<String>, fail_at: Option<usize>, hook: &'a dyn Fn() }
impl Rec<'_> { fn push(&mut self, s: String) { sched::point(5); (self.hook)(); if self.fail_at == Some(self.ev.len()) { panic!("callback gave up"); } self.ev.push(s); } }
impl syntaxis::tool::syntaxis::syntaxis_listener::SyntaxisListener for Rec<'_> {
    fn enter_every_rule(&mut self, c: &RuleContext) { self.push(format!("+{}", c.rule_name)); }
    fn exit_every_rule(&mut self, c: &RuleContext) { self.push(format!("-{}", c.rule_name)); }
    fn enter_terminal(&mut self, c: &TerminalContext) { self.push(format!("t{}", c.symbol.text)); }
    fn enter_errornode(&mut self, c: &ErrorContext) { self.push(format!("e{}", c.symbol.text)); }
}
struct Vis<'a>(Vec<String>, &'a dyn Fn());
/// A stream in pieces that may fail, or do something else, while it is read.
struct Pieces<'a> { data: &'a [u8], at: usize, chunk: usize, fail: Option<(usize, bool)>, hook: &'a dyn Fn() }
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        sched::point(5);
        (self.hook)();
        let mut n = b.len().min(self.data.len() - self.at).min(self.chunk);
        if let Some((p, loud)) = self.fail {
            if self.at >= p { if loud { panic!("the reader gave up"); } return Err(std::io::Error::from_raw_os_error(5)); }
            n = n.min(p - self.at);
        }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor for Vis<'_> {
    fn visit_terminal(&mut self, c: &TerminalContext) -> Box<dyn Any> { sched::point(5); (self.1)(); self.0.push(format!("t{}", c.symbol.text)); Box::new(()) }
    fn visit_errornode(&mut self, c: &ErrorContext) -> Box<dyn Any> { self.0.push(format!("e{}", c.symbol.text)); Box::new(()) }
}
struct Walker;
impl syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker for Walker {}

fn perform(j: &Job, hook: &dyn Fn()) -> Out {
    match j {
        Job::Nest { outer, inner, at } => {
            let (step, got) = (std::cell::Cell::new(0), std::cell::RefCell::new(None));
            let h = || { let k = step.get(); step.set(k + 1); if k == *at { let o = safely(inner); *got.borrow_mut() = Some(Box::new(o)); } };
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(outer, &h))) { Ok(o) => o, Err(p) => { drop(p); Out::Died } };
            Out::Nest(Box::new(o), got.into_inner())
        }
        Job::Lex { v1, text, ops } => {
            let mut lx: Box<dyn Lexer> = if *v1 { Box::new(syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(text)) } else { Box::new(syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer::new(text)) };
            let (mut v, mut e) = (vec![], vec![]);
            for o in ops { match o {
                Some(k) => { let mut w = vec![]; for _ in 0..*k { match lx.scan() { Ok(t) => { w.push(lexsess::tok(&t)); e.push(true) } Err(_) => e.push(false) } } v.push(w); }
                None => v.push(lx.scan_all_on_channel_tokens(0).iter().map(lexsess::tok).collect()),
            } }
            Out::Lex(v, e)
        }
        Job::Load { data, text, chunk, fail, .. } => Out::Load(match std::str::from_utf8(data) { Ok(s) if *text => syntaxis::tool::serde_ast::from_str(s), _ => syntaxis::tool::serde_ast::from_reader(Pieces { data, at: 0, chunk: *chunk, fail: *fail, hook }) }.ok().map(|t| tree::of_rule(&t))),
        Job::Table { g } => { let gr = gram::build(g); let f = gram::firsts(&gr); let fo = gram::follows(&gr); let t = gram::table(&gr); Out::Table(f, fo, t) }
        Job::Parse { e, ids, v1, .. } => {
            let (g, _) = pipeline::build(&tree::to_rule(&e.tree(&ebnf::HAND)));
            let (f, p) = g.first_set();
            let fo = g.follow_set(&f);
            let t = g.ll1_table(&p, &fo);
            let tk: Vec<Token> = ids.iter().enumerate().map(|(i, k)| {
                let (ty, name) = if *k < 2 { (*k, "_STOP".to_string()) } else { let n = &e.toks[*k - 2].0; (g.vocabulary.get_terminal_id_by_name(n).expect("token id"), n.clone()) };
                let mut k = Token::new(ty, &name, &format!("x{}", i));
                k.start = Position { line: 0, char_position: i };
                k.stop = Position { line: 0, char_position: i };
                k.channel = 0; k.token_index = i; k.char_start_index = i; k.char_stop_index = i;
                k
            }).collect();
            let r = if *v1 { SyntaxisParser::new(tk, t, g.vocabulary).parse() } else { LL1Parser::new(tk, t, g).parse() };
            Out::Parse(tree::of_rule(&r))
        }
        Job::Text { input, .. } => Out::Text(tree::of_rule(&meta::parser_for(input).parse())),
        Job::Walk { t, fail_at } => {
            use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker;
            use syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor;
            let r = tree::to_rule(t);
            let mut l = Rec { ev: vec![], fail_at: *fail_at, hook };
            Walker.walk(&mut l, &r);
            let mut v = Vis(vec![], hook);
            v.visit(&r);
            Out::Walk(l.ev, v.0)
        }
        Job::Draw { t, path, name } => { ASTDrawer::new().draw(&tree::to_rule(t), name, path); let _g = sched::Guard::new(); Out::Draw(std::fs::read(path).unwrap_or_default()) }
        Job::Malformed { t } => { let (g, _) = pipeline::build(&tree::to_rule(t)); let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo); Out::Died }
    }
}
fn safely(j: &Job) -> Out { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(j, &|| ()))) { Ok(o) => o, Err(p) => { drop(p); Out::Died } } }

// ---- what each would produce alone ---------------------------------------------------------
fn walk_events(t: &Tree, ev: &mut Vec<String>, lv: &mut Vec<String>) {
    match t {
        Tree::Rule { name, kids, .. } => { ev.push(format!("+{}", name)); for k in kids { walk_events(k, ev, lv); } ev.push(format!("-{}", name)); }
        Tree::Tok { text, .. } => { ev.push(format!("t{}", text)); lv.push(format!("t{}", text)); }
        Tree::Err { text, .. } => { ev.push(format!("e{}", text)); lv.push(format!("e{}", text)); }
    }
}
fn same(a: &Tok, b: &Tok) -> bool { if a.name.eq_ignore_ascii_case("question") && b.name.eq_ignore_ascii_case("question") { let mut a = a.clone(); a.name = b.name.clone(); return a == *b; } a == b }
fn judge(j: &Job, o: &Out, excuse: bool, when: &str) -> Verdict {
    let ctx = || format!("{} {}: {}", j.kind(), when, j.show());
    if let (Job::Nest { outer, inner, .. }, Out::Nest(a, b)) = (j, o) {
        judge(outer, a, excuse, when)?;
        if let Some(b) = b { driver::probe("probe:session-in-session"); judge(inner, b, excuse, when)?; }
        return Ok(());
    }
    let may_die = excuse || matches!(j, Job::Malformed { .. } | Job::Parse { good: false, .. } | Job::Walk { fail_at: Some(_), .. } | Job::Load { fail: Some((_, true)), text: false, .. });
    if *o == Out::Died { require!(may_die, "session-failed", "a session failed that should not have; {}", ctx()); driver::probe("probe:failed-session"); return Ok(()); }
    match (j, o) {
        (Job::Lex { v1, text, ops }, Out::Lex(v, e)) => {
            let s = SPECS.get().unwrap();
            let mut m = RefLexer::new(if *v1 { &s.0 } else { &s.1 }, text);
            let (mut wv, mut we) = (vec![], vec![]);
            for o in ops { match o { Some(k) => { let mut w = vec![]; for _ in 0..*k { match m.scan() { Some(t) => { w.push(t); we.push(true) } None => we.push(false) } } wv.push(w); } None => wv.push(m.scan_all(0)) } }
            let ok = *e == we && v.len() == wv.len() && v.iter().zip(&wv).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)));
            require!(ok, "session-differs", "tokens {:?} instead of {:?}; {}", v, wv, ctx());
        }
        (Job::Load { want: Some(want), .. }, Out::Load(t)) => require!(t == want, "session-differs", "loaded {:?} instead of {:?}; {}", t.as_ref().map(|t| t.show()), want.as_ref().map(|t| t.show()), ctx()),
        (Job::Load { want: None, .. }, Out::Load(_)) => {}
        (Job::Table { g }, Out::Table(f, fo, t)) => {
            let a = g.analyse();
            let wf: BTreeMap<usize, (bool, Set)> = a.first.iter().map(|(n, s)| (*n, (a.nullable.contains(n), s.clone()))).collect();
            require!(f.0 == wf && f.1 == a.pfirst, "session-differs", "wrong FIRST sets; {}", ctx());
            require!(*fo == a.follow, "session-differs", "wrong FOLLOW sets; {}", ctx());
            let cells = g.cells(&a);
            require!(t.len() == cells.len() && t.iter().all(|(k, p)| cells.get(k).map_or(false, |c| c.contains_key(p))), "session-differs", "wrong table; {}", ctx());
        }
        (Job::Parse { e, g, ids, good: true, .. }, Out::Parse(t)) => {
            let (n, _) = ebnf::ll1_parse(g, ids, 0).expect("sentence");
            fn shape(n: &Node, e: &Ebnf, ids: &[usize]) -> Tree { match n { Node::Rule(r, k) => Tree::rule(0, &e.rules[*r].0, k.iter().map(|x| shape(x, e, ids)).collect()), Node::Tok(i) => Tree::tok(0, &e.toks[ids[*i] - 2].0, &format!("x{}", i)) } }
            fn strip(t: &Tree) -> Tree { match t { Tree::Rule { name, kids, .. } => Tree::rule(0, name, kids.iter().map(strip).collect()), Tree::Tok { name, text, .. } => Tree::tok(0, name, text), Tree::Err { name, text, .. } => Tree::Err { ty: 0, name: name.clone(), text: text.clone() } } }
            let w = shape(&n, e, ids);
            require!(strip(t) == w, "session-differs", "tree {} instead of {}; {}", t.show(), w.show(), ctx());
        }
        (Job::Parse { .. }, Out::Parse(_)) => {}
        (Job::Text { want, .. }, Out::Text(t)) => require!(t == want, "session-differs", "tree {} instead of {}; {}", t.show(), want.show(), ctx()),
        (Job::Walk { t, .. }, Out::Walk(a, b)) => { let (mut x, mut y) = (vec![], vec![]); walk_events(t, &mut x, &mut y); require!(*a == x && *b == y, "session-differs", "events {:?} and {:?} instead of {:?} and {:?}; {}", a, b, x, y, ctx()); }
        (Job::Draw { t, name, .. }, Out::Draw(d)) => if let Err((c, m)) = draw::check(d, t, name) { violation!(c, "{}; {}", m, ctx()); },
        (Job::Malformed { .. }, _) => {}
        _ => violation!("session-differs", "unexpected kind of result; {}", ctx()),
    }
    Ok(())
}

// ---- generation -----------------------------------------------------------------------------
const PIECES: &[&str] = &["rule_list", "aB_9", "ID", "TOKEN_REF", "fragment", "epsilon", "ε", ":", "::=", "->", ";", "|", "*", "+", "?", "(", ")", "'a'", "'\\n'", "''", "/[a-z]+/", "/\\//", " ", "\n", "\r\n", "\t", "  \n ", "// c\n", "/* x */", ".", "..", "~", "#", "zz"];
/// only = the kinds of this run (numbers as in `gen_one`), empty = all.
fn gen(path: String, only: &[u64]) -> Job {
    let gen_one = |path: String| gen_one(path, only);
    if only.is_empty() && chance(12) {
        let outer = loop { let j = gen_one(path.clone()); if matches!(j, Job::Walk { .. } | Job::Load { text: false, .. }) { break j; } };
        let inner = if chance(50) { loop { let j = gen_one(format!("in_{}", path)); if std::mem::discriminant(&j) == std::mem::discriminant(&outer) { break j; } } } else { gen_one(format!("in_{}", path)) };
        return Job::Nest { outer: Box::new(outer), inner: Box::new(inner), at: choose(3) as usize };
    }
    gen_one(path)
}
fn gen_one(path: String, only: &[u64]) -> Job {
    match if only.is_empty() { choose(16) } else { pick(only) } {
        0 | 1 | 2 => Job::Lex { v1: chance(50), text: lexsess::gen_text(PIECES, &["中", "\"", "'", "{"]), ops: (0..range(1, 4)).map(|_| if chance(60) { Some(range(1, 9)) } else { None }).collect() },
        3 | 4 => {
            let mut t = reftree::gen(15, true, 12, false);
            if chance(6) { for _ in 0..range(30, 60) { t = Tree::rule(1, "deep", vec![t]); } }
            let mut v = t.json();
            let k = choose(100);
            if k >= 60 { reftree::bend(&mut v); fault("document-bent", || String::new()); }
            let mut data = v.to_string().into_bytes();
            if k >= 40 && k < 60 { let n = choose(data.len() as u64) as usize; fault("stream-truncated", || format!("at {}", n)); data.truncate(n); }
            let want = match reftree::meaning(&data) { None => Some(None), Some((_, true)) => None, Some((t, _)) => Some(Some(t)) };
            let chunk = pick(&[1usize << 20, 1 << 20, 1, 7, 100]);
            let fail = if chance(20) { let p = choose(data.len() as u64 + 1) as usize; let loud = chance(20); fault(if loud { "reader-panics" } else { "reader-error" }, || format!("at {}", p)); Some((p, loud)) } else { None };
            let text = chance(40) && std::str::from_utf8(&data).is_ok();
            let want = if fail.is_some() && !text { Some(None) } else { want };
            Job::Load { data, text, chunk, fail, want }
        }
        5 | 6 => Job::Table { g: refgram::gen() },
        7 | 8 | 9 => {
            let (e, g) = ebnf::gen_ll1();
            let mut ids = ebnf::sentence(&g, [6, 15][choose(2) as usize]);
            ids.push(1);
            let good = !chance(30);
            if !good { let i = choose(ids.len() as u64) as usize; match choose(3) { 0 => { ids.remove(i); } 1 => ids.truncate(i), _ => ids[i] = 2 + choose(e.toks.len() as u64) as usize } fault("token-stream-damaged", || format!("#{}", i)); }
            Job::Parse { e, g, ids, good, v1: chance(50) }
        }
        10 => { let e = meta::gen_grammar(); let mut t = e.tree(&V1); meta::decorate(&mut t); let (input, _) = meta::render(&t, ""); Job::Text { input, want: t } }
        11 | 12 => { let t = reftree::gen(30, false, 11, true); let fail_at = if chance(25) { fault("callback-fails", || String::new()); Some(choose(2 * t.count() as u64) as usize) } else { None }; Job::Walk { t, fail_at } }
        13 | 14 => Job::Draw { t: reftree::gen(20, true, 12, true), path: draw::place(&path), name: pick::<&str>(&["g", "文法", "syntaxis"]).to_string() },
        _ => {
            // a reference to a rule nobody declares, or an element with nothing in it
            let e = ebnf::gen_any();
            let mut t = e.tree(&ebnf::HAND);
            fn bend(t: &mut Tree, n: &mut u64) { if let Tree::Rule { index, kids, .. } = t { if *index == 5 && *n == 0 { if kids.len() % 2 == 0 { kids.clear() } else { kids[0] = Tree::tok(7, "RULE_REF", "nowhere"); } *n = u64::MAX; return; } if *index == 5 { *n = n.saturating_sub(1); } for k in kids { if *n != u64::MAX { bend(k, n) } } } }
            let mut n = choose(4);
            bend(&mut t, &mut n);
            fault("malformed-grammar", || String::new());
            Job::Malformed { t }
        }
    }
}

fn died(o: &Out) -> bool { match o { Out::Died => true, Out::Nest(a, b) => died(a) || b.as_ref().map_or(false, |b| died(b)), _ => false } }
fn run() -> Verdict {
    let n = range(2, 4) as usize;
    // in some runs all sessions are of one kind, or of two
    // now and then the same short sessions again and again, so that small drifts add up
    let times = if choose(40) == 0 { driver::probe("probe:storm"); range(20, 80) as usize } else { 1 };
    let only: Vec<u64> = if times > 1 { vec![pick(&[0u64, 3, 3, 3, 5, 7, 10, 11, 13])] } else { match choose(10) { 7 => vec![choose(16)], 8 => vec![choose(16), choose(16)], 9 => vec![3, 13], _ => vec![] } };
    if !only.is_empty() { driver::probe("probe:few-kinds"); }
    let work: Vec<Vec<Job>> = (0..n).map(|i| (0..if times > 1 { 1 } else { range(1, 3) }).map(|k| gen(format!("s{}_{}", i, k), &only)).collect()).collect();
    for (i, w) in work.iter().enumerate() { for j in w { note(|| format!("t{}: {}", i + 1, j.show())); } }
    fn clear(j: &Job) { match j { Job::Draw { path, .. } => { let _ = std::fs::remove_file(path); } Job::Nest { outer, inner, .. } => { clear(outer); clear(inner) } _ => {} } }
    for j in work.iter().flatten() { clear(j); }
    sched::swarm();
    // some threads meet I/O errors, the others do not
    let sick = if chance(35) { 1u64 << choose(n as u64) } else { 0 };
    if sick != 0 {
        sched::stdout_faults();
        let k = choose(8);
        let io = &mut sched::ctl().io;
        io.rates.w_err = if k & 1 != 0 { 30 } else { 0 }; io.rates.w_nospc = if k & 2 != 0 { 30 } else { 0 }; io.rates.open_err = if k & 4 != 0 { 15 } else { 0 };
        io.faults_left = 4; io.only = sick;
        driver::probe("probe:sick-session");
    }
    let outs = par(work.iter().map(|w| Box::new(move || {
        let mut all = vec![];
        while all.is_empty() || all.len() < times && sched::steps() < 2_000_000 { all.push(w.iter().map(safely).collect::<Vec<_>>()); }
        all
    }) as Box<dyn FnOnce() -> Vec<Vec<Out>>>).collect());
    let io = sched::io_result();
    let mut res: Vec<Vec<Out>> = vec![];
    for (i, o) in outs.into_iter().enumerate() {
        let mut o = expect("a session", o)?;
        let last = o.pop().unwrap();
        for early in o { for (j, o) in work[i].iter().zip(&early) { judge(j, o, io.hard[i] > 0, "running interleaved with others, again and again")?; } }
        res.push(last);
    }
    for i in 0..n { for (j, o) in work[i].iter().zip(&res[i]) { judge(j, o, io.hard[i] > 0, "running interleaved with others")?; } }
    // once everyone is gone: each session alone gives the same
    sched::no_faults();
    sched::ctl().preempt = 0;
    for i in 0..n { for (j, o) in work[i].iter().zip(&res[i]) {
        if !chance(60) { continue; }
        let late = expect("a session", solo(|| safely(j)))?;
        judge(j, &late, false, "running alone afterwards")?;
        if !died(o) || io.hard[i] == 0 { require!(*o == late, "alone-differs", "{}: interleaved and alone differ: {:?} and {:?}", j.show(), o, late); }
        driver::probe("probe:compared-alone");
    } }
    let k: std::collections::BTreeSet<&str> = work.iter().flatten().map(|j| j.kind()).collect();
    if k.len() >= 3 { driver::probe("probe:three-kinds"); }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C13", run, quick_runs: 20_000, thorough_runs: 600_000, warmup: 12,
        rule: "2-4 threads each running 1-3 sessions of mixed kinds, of one or two kinds, or one short session 20-80 times (lexing, loading, FIRST/FOLLOW/table, building and parsing, grammar text parsing, traversing, drawing, malformed input; one session inside the reader or callback of another), preempted at allocations, locks, file and output calls and callbacks; in 35% of runs one thread's I/O fails; every result checked against a reference and against the same session alone; non-trivial = at least one preemptive switch",
        nontrivial: |c| c.switches > 0,
        real: &["all of syntaxis' library: both lexers, both parsers, tree loader, grammar builder and analyses, walker and visitors, drawer", "std stdout, tera, regex, serde_json", "real files in a scratch directory"],
        stub: &["thread scheduler", "kernel file and output calls under fault injection", "entropy source of hash keys"],
        probes: &["probe:session-in-session", "probe:sick-session", "probe:failed-session", "probe:compared-alone", "probe:three-kinds", "probe:few-kinds", "probe:storm"],
        assumptions: &["sessions share no data and write different files", "switches happen at allocations, locks, I/O calls and callbacks"],
        setup,
    })
}
