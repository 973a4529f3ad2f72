//! C18: the front end shipped with the tool is the one its own grammar file describes.
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/pipeline.rs"] mod pipeline;
#[path = "../glue/meta.rs"] mod meta;
#[path = "../glue/lexsess.rs"] mod lexsess;
use std::collections::HashMap;
use std::io::{self, Read};
use std::rc::Rc;
use std::sync::OnceLock;
use synsim::ebnf::V1;
use synsim::reflex::{RefLexer, Spec, Tok};
use synsim::reftree::Tree;
use synsim::*;
use syntaxis::runtime::{ast::rule_context::RuleContext, lexer::Lexer, token::Token};
use syntaxis::tool::grammar::{Grammar, Production};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::serde_ast;
use syntaxis::tool::syntaxis::syntaxis_parser::SyntaxisParser as HandParser;
use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer, syntaxis_parser::SyntaxisParser};

static FILE: OnceLock<Vec<u8>> = OnceLock::new();
fn setup() { meta::setup(); tree::warm(); let _ = FILE.set(std::fs::read("/repo/src/tool/syntaxis/syntaxis2.json").expect("syntaxis2.json")); }

/// The grammar file as it comes off a device in its own time.
struct Dev { at: usize, max: u64, eintr: u64, err_at: Option<usize> }
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::point(5);
        let d = FILE.get().unwrap();
        if buf.is_empty() { return Ok(0); }
        if self.eintr > 0 && chance(self.eintr) { fault("read-interrupted", || format!("at {}", self.at)); return Err(io::ErrorKind::Interrupted.into()); }
        let mut k = buf.len().min(d.len() - self.at);
        if let Some(e) = self.err_at { if self.at >= e { fault("read-error", || format!("at {}", self.at)); return Err(io::ErrorKind::Other.into()); } k = k.min(e - self.at); }
        if k > 1 && self.max > 0 { let m = 1 + choose(self.max) as usize; if m < k { k = m; fault("short-read", || format!("{}", k)); } }
        buf[..k].copy_from_slice(&d[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
/// One thing that goes wrong between lexer and parser.
#[derive(Clone, Copy, Debug)]
enum Lie { Type(usize, usize), Lost(usize), Twice(usize), Swapped(usize), Inserted(usize, usize), Cut(usize) }
impl Lie {
    fn draw() -> Lie {
        let i = choose(60) as usize;
        let ty = pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
        match choose(6) { 0 => Lie::Type(i, ty), 1 => Lie::Lost(i), 2 => Lie::Twice(i), 3 => Lie::Swapped(i), 4 => Lie::Inserted(i, ty), _ => Lie::Cut(i) }
    }
    fn tell(self, t: &mut Vec<Token>) {
        let n = t.len();
        if n == 0 { return; }
        match self {
            Lie::Type(i, ty) => t[i % n].token_type = ty,
            Lie::Lost(i) => { t.remove(i % n); }
            Lie::Twice(i) => { let x = t[i % n].clone(); t.insert(i % n, x); }
            Lie::Swapped(i) => if n > 1 { t.swap(i % (n - 1), i % (n - 1) + 1) },
            Lie::Inserted(i, ty) => { let mut x = t[i % n].clone(); x.token_type = ty; t.insert(i % n, x); }
            Lie::Cut(i) => t.truncate(i % n),
        }
    }
}
struct Quirks { max: u64, eintr: u64, err_at: Option<usize> }

/// What one client makes of the file.
struct Front { g: Grammar, t: HashMap<(usize, usize), Rc<Production>>, rules: pipeline::TokRules }
fn front(ast: &RuleContext) -> Front {
    let (g, rules) = pipeline::build(ast);
    let (f, p) = g.first_set();
    let fo = g.follow_set(&f);
    let t = g.ll1_table(&p, &fo);
    Front { g, t, rules }
}
struct Seen {
    first_load_failed: Option<bool>,
    rule_ids: Vec<(&'static str, Option<usize>, usize)>, tok_ids: Vec<(&'static str, Option<usize>, usize)>, rules: pipeline::TokRules,
    toks: Vec<Tok>, generic: Result<Tree, String>, own: Result<Tree, String>,
}
macro_rules! consts { ($t:ty, $f:expr, $($c:ident $n:literal),*) => { vec![$(($n, $f($n), <$t>::$c)),*] } }
fn client(q: &Quirks, text: &str, lie: &[Lie]) -> Seen {
    let mut first_load_failed = None;
    let ast = match serde_ast::from_reader(Dev { at: 0, max: q.max, eintr: q.eintr, err_at: q.err_at }) {
        Ok(a) => { if q.err_at.is_some() { first_load_failed = Some(false); } a }
        Err(_) => { first_load_failed = Some(true); serde_ast::from_reader(Dev { at: 0, max: q.max, eintr: q.eintr, err_at: None }).unwrap_or_else(|_| panic!("a healthy grammar file was refused")) }
    };
    let f = front(&ast);
    let v = &f.g.vocabulary;
    let r = |n: &str| v.get_nonterminal_id_by_name(n);
    let t = |n: &str| v.get_terminal_id_by_name(n);
    let mut rule_ids = consts!(SyntaxisParser, r, RULE_LIST "rule_list", PARSER_RULE "parser_rule", BLOCK "block", ALTERNATIVE "alternative", EPSILON "epsilon", ELEMENT "element", EBNF_SUFFIX "ebnf_suffix", LEXER_RULE "lexer_rule", REGULAR "regular");
    rule_ids.extend(consts!(HandParser, r, RULE_LIST "rule_list", PARSER_RULE "parser_rule", BLOCK "block", ALTERNATIVE "alternative", EPSILON "epsilon", ELEMENT "element", EBNF_SUFFIX "ebnf_suffix", LEXER_RULE "lexer_rule", REGULAR "regular"));
    let tok_ids = consts!(SyntaxisLexer, t, _START "_START", _STOP "_STOP", RULE_REF "RULE_REF", TOKEN_REF "TOKEN_REF", COLON "COLON", SEMI "SEMI", OR "OR", EPSILON "EPSILON", STAR "STAR", PLUS "PLUS", QUESTION "QUESTION", LPAREN "LPAREN", RPAREN "RPAREN", STRING_LITERAL "STRING_LITERAL", REGULAR_LITERAL "REGULAR_LITERAL", WHITE_SPACE "WHITE_SPACE");
    let mut tokens = SyntaxisLexer::new(text).scan_all_on_channel_tokens(0);
    let toks = tokens.iter().map(lexsess::tok).collect();
    for l in lie { l.tell(&mut tokens); }
    let vocabulary = front(&ast).g.vocabulary;
    let Front { g, t, rules } = f;
    let run = |f: &mut dyn FnMut() -> RuleContext| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree::of_rule(&f()))).map_err(|p| { drop(p); "refused".to_string() });
    let (t2, k2): (HashMap<_, _>, Vec<Token>) = (t.clone(), tokens.clone());
    println!("{}", MARK);
    let lp = LL1Parser::new(tokens, t, g);
    let generic = run(&mut || lp.parse());
    println!("{}", MARK);
    let sp = SyntaxisParser::new(k2, t2, vocabulary);
    let own = run(&mut || sp.parse());
    Seen { first_load_failed, rule_ids, tok_ids, rules, toks, generic, own }
}
const MARK: &str = "\u{1}--\u{1}";

const PIECES: &[&str] = &["rule_list", "aB_9", "ID", "Ab", "epsilon", "epsilonx", "ε", ":", "::=", ":=", "->", "=>", "=", ";", "|", "*", "+", "?", "(", ")", "'a'", "'\\n'", "'12'", "'\\\\'", "'\\''", "'\\u{0x1f}'", "''", "'中'", "/[a-z]+/", "/\\//", "/a\nb/", " ", "\n", "\r\n", "\t", "\u{c}", "ab", "Zz1", "// c\n"];
const BAD: &[&str] = &["a", "A", "中", "'", "'abc", "/", "\"", "{", "\\", "9", "_x", "-", "\u{0}", "'a\nb'", ">", "."];

fn run() -> Verdict {
    let sentence = chance(60);
    let mut want = None;
    let text = if sentence {
        let e = meta::gen_grammar();
        let mut full = e.tree(&V1);
        meta::decorate(&mut full);
        let (t, _) = meta::render(&full, "");
        want = Some(full);
        t
    } else { lexsess::gen_text(PIECES, BAD) };
    let mut lies: Vec<Lie> = vec![];
    if chance(40) { for _ in 0..range(1, 2) { lies.push(Lie::draw()); } }
    let lie = &lies[..];
    note(|| format!("text {:?} lie {:?}", text, lie));
    sched::swarm();
    let k = range(1, 2);
    sched::ctl().budget = 60_000_000;
    let quirks: Vec<Quirks> = (0..k).map(|_| Quirks { max: pick(&[0, 40, 600, 8192]), eintr: pick(&[0, 0, 1, 6]), err_at: if chance(20) { Some(choose(FILE.get().unwrap().len() as u64 + 1) as usize) } else { None } }).collect();
    let tx = &text;
    let outs = par(quirks.iter().map(|q| Box::new(move || client(q, tx, lie)) as Box<dyn FnOnce() -> Seen>).collect());
    let io = sched::io_result();
    for (i, o) in outs.into_iter().enumerate() {
        let s = expect("processing the tool's own grammar", o)?;
        let said = String::from_utf8_lossy(&io.out[i]).into_owned();
        let parts: Vec<&str> = said.split(MARK).collect();
        if let Some(failed) = s.first_load_failed { require!(failed, "error-lost", "the grammar file loaded although reading it failed"); driver::probe("probe:load-retried"); }
        for (n, got, want) in s.rule_ids.iter().chain(&s.tok_ids) { require!(*got == Some(*want), "numbers", "{} has number {:?} in the tool's own grammar but the shipped front end says {}", n, got, want); }
        let spec = Spec { rules: s.rules.iter().map(|r| Ok((r.0, r.1.clone(), regex::Regex::new(&r.2).map_err(|e| e.to_string())?))).collect::<Result<Vec<_>, String>>().map_err(|e| Violation { class: "pattern".into(), msg: e })?, skip: s.rules.iter().filter(|r| r.1 == "WHITE_SPACE").map(|r| r.0).collect(), stop: true };
        let mut rl = RefLexer::new(&spec, &text);
        let toks = rl.scan_all(0);
        require!(s.toks == toks, "tokens", "the shipped lexer makes {:?} of {:?} but the tool's own grammar says {:?}", s.toks, text, toks);
        // a table without conflicts is made without a word; what the lexer did not match it prints
        let quiet = parts[0].trim();
        require!(if rl.stuck() { parts[0].trim_end().ends_with(rl.rest().trim_end()) && parts[0].trim_end().len() <= rl.rest().trim_end().len() + 2 } else { quiet.is_empty() }, "diagnostics", "processing the tool's own grammar and lexing {:?} printed {:?}", text, parts[0]);
        let silent = |i: usize| parts[i].trim().is_empty();
        match (&s.generic, &s.own) {
            (Ok(a), Ok(b)) if silent(1) && silent(2) => { require!(a == b, "parsers-differ", "the generic parser gives {} and the shipped one {} for {:?}", a.show(), b.show(), text); driver::probe("probe:parsers-agree"); }
            (a, b) => {
                let (pa, pb) = (a.is_ok() && silent(1), b.is_ok() && silent(2));
                require!(pa == pb, "parsers-differ", "for {:?} (tokens damaged by {:?}) the generic parser {} and the shipped one {}", text, lie, if pa { "accepts" } else { "does not" }, if pb { "accepts" } else { "does not" });
                driver::probe("probe:both-refuse");
            }
        }
        if let (Some(w), true) = (&want, lie.is_empty()) {
            for (what, t, i) in [("generic", &s.generic, 1), ("shipped", &s.own, 2)] {
                require!(silent(i) && t.as_ref() == Ok(w), "wrong-tree", "the {} parser makes {:?} (printing {:?}) of {:?} instead of {}", what, t.as_ref().map(|t| t.show()), parts[i], text, w.show());
            }
            driver::probe("probe:grammar-text");
        }
    }
    Ok(())
}

fn main() {
    driver::main(Scenario {
        id: "C18", run, quick_runs: 12_000, thorough_runs: 150_000, warmup: 4,
        rule: "1-3 clients load the tool's own grammar file through readers that are short, interrupted or fail once, lower it, build the table, and run the shipped lexer and both parsers on seeded grammar texts and damaged texts or token streams (lost, doubled, swapped, inserted, retyped, cut), under their own hash keys, preempted; non-trivial = more than 200 preemption points",
        nontrivial: |c| c.steps > 200,
        real: &["the whole front end: serde_ast, visitor passes, grammar analysis, v1 lexer and parser, generic parser", "regex", "serde_json"],
        stub: &["the reader the file comes from", "standard output device", "entropy source of hash keys", "thread scheduler"],
        probes: &["probe:load-retried", "probe:parsers-agree", "probe:both-refuse", "probe:grammar-text"],
        assumptions: &["the grammar file is src/tool/syntaxis/syntaxis2.json, the one the program loads", "what one token rule matches at a place is what the regex crate's find reports for its pattern"],
        setup,
    })
}
