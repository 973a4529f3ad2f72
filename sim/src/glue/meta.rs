//! The tool's own grammar: its tree file, its EBNF on the harness' side, and random grammar
//! texts driven through the self-hosted lexer and parser.
#![allow(dead_code)]
use std::sync::OnceLock;
use synsim::ebnf::{self, Alt, Atom, Ebnf, Elem, Suf, V1};
use synsim::reftree::Tree;
use synsim::*;
use syntaxis::runtime::ast::rule_context::RuleContext;
use syntaxis::runtime::ast::terminal_context::TerminalContext;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::tool::serde_ast;
use syntaxis::tool::v1::syntaxis_context::*;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;

static JSON: OnceLock<String> = OnceLock::new();
pub fn setup() { let _ = JSON.set(std::fs::read_to_string("/repo/src/tool/syntaxis/syntaxis2.json").expect("syntaxis2.json")); }
pub fn load() -> RuleContext { serde_ast::from_str(JSON.get().unwrap()).expect("syntaxis2.json is a tree") }

pub fn ebnf() -> Ebnf {
    let names = ["RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
    let rules = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
    let t = |n: &str| Elem { atom: Atom::Tok(names.iter().position(|x| *x == n).unwrap()), suf: Suf::One, lazy: false };
    let r = |n: &str, s: Suf| Elem { atom: Atom::Rule(rules.iter().position(|x| *x == n).unwrap()), suf: s, lazy: false };
    let b = |v: Vec<Alt>, s: Suf| Elem { atom: Atom::Block(v), suf: s, lazy: false };
    let one = Suf::One;
    let defs: Vec<Vec<Alt>> = vec![
        vec![vec![b(vec![vec![r("parser_rule", one)], vec![r("lexer_rule", one)]], Suf::Star)]],
        vec![vec![t("RULE_REF"), t("COLON"), r("block", one), t("SEMI")]],
        vec![vec![r("alternative", one), b(vec![vec![t("OR"), r("alternative", one)]], Suf::Star)]],
        vec![vec![r("element", Suf::Plus)], vec![r("epsilon", one)]],
        vec![vec![t("EPSILON")]],
        vec![vec![b(vec![vec![t("TOKEN_REF")], vec![t("STRING_LITERAL")], vec![t("RULE_REF")], vec![t("LPAREN"), r("block", one), t("RPAREN")]], one), r("ebnf_suffix", Suf::Opt)]],
        vec![vec![b(vec![vec![t("STAR")], vec![t("PLUS")], vec![t("QUESTION")]], one), Elem { suf: Suf::Opt, ..t("QUESTION") }]],
        vec![vec![t("TOKEN_REF"), t("COLON"), r("regular", one), t("SEMI")]],
        vec![vec![t("REGULAR_LITERAL")]],
    ];
    Ebnf { dups: vec![],
        toks: names.iter().map(|n| (n.to_string(), "x".to_string())).collect(),
        rules: rules.iter().map(|n| n.to_string()).zip(defs).collect(),
        order: (0..rules.len()).map(ebnf::Decl::R).chain((0..names.len()).map(ebnf::Decl::T)).collect(),
    }
}

/// Vary what a grammar text may vary: literals, colon forms.
pub fn decorate(t: &mut Tree) {
    match t {
        Tree::Rule { kids, .. } => for k in kids { decorate(k) },
        Tree::Tok { ty, text, .. } if *ty == V1.colon => *text = pick::<&str>(&[":", "::=", ":=", "->", "=>", "="]).to_string(),
        _ => {}
    }
}
fn literals(b: &mut Vec<Alt>) {
    for e in b.iter_mut().flatten() {
        match &mut e.atom {
            Atom::Block(x) => literals(x),
            Atom::Tok(_) if chance(15) => e.atom = Atom::Lit(pick::<&str>(&["'a'", "'+'", "'\\n'", "'12'", "'\\\\'", "'ε'", "''", "'\\''", "' ; '"]).to_string()),
            _ => {}
        }
    }
}
pub fn gen_grammar() -> Ebnf {
    let mut e = ebnf::gen_any();
    for p in e.toks.iter_mut().map(|t| &mut t.1).chain(e.dups.iter_mut().map(|d| &mut d.1)) { *p = pick::<&str>(&["[a-z]+", "x", "\\/\\/[^\\n]*", "a\\/b", "\\+", "ε|epsilon", ";", "#'\"", "中+", "[ \\r\\n\\t\\f]+"]).to_string(); }
    for r in &mut e.rules { literals(&mut r.1); }
    e
}
/// Text of a token sequence with random spacing; byte span of every token.
pub fn render(t: &Tree, tail: &str) -> (String, Vec<(usize, usize)>) {
    let mut l = vec![];
    t.leaves(&mut l);
    let mut s = String::new();
    let mut v = vec![];
    let mut prev_word = false;
    for x in l {
        if let Tree::Tok { ty, text, .. } = x {
            let word = *ty == V1.rule_ref || *ty == V1.token_ref;
            if (word && prev_word) || chance(50) { s += pick::<&str>(&[" ", "\n", "  ", "\r\n\t"]); }
            let a = s.len();
            s += text;
            v.push((a, s.len()));
            prev_word = word;
        }
    }
    if chance(40) { s += "\n"; }
    s += tail;
    (s, v)
}

/// Everything observed of one parse, as plain data.
#[derive(Default)]
pub struct Seen { pub tree: Option<Tree>, pub texts: Vec<String>, pub accessors: Result_ }
pub type Result_ = Option<String>;

fn tx(t: Option<&TerminalContext>) -> Option<String> { t.map(|t| t.symbol.text.clone()) }
fn kid<'a>(t: &'a Tree, idx: usize) -> Vec<&'a Tree> { match t { Tree::Rule { kids, .. } => kids.iter().filter(|k| matches!(k, Tree::Rule { index, .. } if *index == idx)).collect(), _ => vec![] } }
fn tok(t: &Tree, ty_: usize) -> Vec<String> { match t { Tree::Rule { kids, .. } => kids.iter().filter_map(|k| match k { Tree::Tok { ty, text, .. } if *ty == ty_ => Some(text.clone()), _ => None }).collect(), _ => vec![] } }
macro_rules! same { ($what:expr, $got:expr, $want:expr) => {{ let (g, w) = ($got, $want); if g != w { return Err(format!("{} gives {:?} instead of {:?}", $what, g, w)); } }} }

pub fn acc_rule_list(c: &dyn RuleListContext, t: &Tree) -> Result<(), String> {
    let (p, l) = (c.parser_rule_list(), c.lexer_rule_list());
    same!("parser_rule_list", p.len(), kid(t, 1).len());
    same!("lexer_rule_list", l.len(), kid(t, 7).len());
    for (x, y) in p.iter().zip(kid(t, 1)) { acc_parser_rule(*x, y)?; }
    for (x, y) in l.iter().zip(kid(t, 7)) { acc_lexer_rule(*x, y)?; }
    Ok(())
}
pub fn acc_parser_rule(c: &dyn ParserRuleContext, t: &Tree) -> Result<(), String> {
    same!("parser_rule.rule_ref", tx(c.rule_ref()), tok(t, V1.rule_ref).first().cloned());
    same!("parser_rule.colon", tx(c.colon()), tok(t, V1.colon).first().cloned());
    same!("parser_rule.semi", tx(c.semi()), tok(t, V1.semi).first().cloned());
    same!("parser_rule.block", c.block().is_some(), true);
    acc_block(c.block().unwrap(), kid(t, 2)[0])
}
pub fn acc_block(c: &dyn BlockContext, t: &Tree) -> Result<(), String> {
    let a = c.alternative_list();
    same!("block.alternative_list", a.len(), kid(t, 3).len());
    same!("block.or_list", c.or_list().len(), tok(t, V1.or).len());
    for (x, y) in a.iter().zip(kid(t, 3)) { acc_alternative(*x, y)?; }
    Ok(())
}
pub fn acc_alternative(c: &dyn AlternativeContext, t: &Tree) -> Result<(), String> {
    same!("alternative.epsilon", c.epsilon().is_some(), !kid(t, 4).is_empty());
    if let Some(e) = c.epsilon() { acc_epsilon(e, kid(t, 4)[0])?; }
    let a = c.element_list();
    same!("alternative.element_list", a.len(), kid(t, 5).len());
    for (x, y) in a.iter().zip(kid(t, 5)) { acc_element(*x, y)?; }
    Ok(())
}
pub fn acc_epsilon(c: &dyn EpsilonContext, t: &Tree) -> Result<(), String> { same!("epsilon.epsilon", tx(c.epsilon()), tok(t, V1.eps).first().cloned()); Ok(()) }
pub fn acc_element(c: &dyn ElementContext, t: &Tree) -> Result<(), String> {
    same!("element.token_ref", tx(c.token_ref()), tok(t, V1.token_ref).first().cloned());
    same!("element.rule_ref", tx(c.rule_ref()), tok(t, V1.rule_ref).first().cloned());
    same!("element.string_literal", tx(c.string_literal()), tok(t, V1.lit).first().cloned());
    same!("element.lparen", tx(c.lparen()), tok(t, V1.lp).first().cloned());
    same!("element.rparen", tx(c.rparen()), tok(t, V1.rp).first().cloned());
    same!("element.block", c.block().is_some(), !kid(t, 2).is_empty());
    if let Some(b) = c.block() { acc_block(b, kid(t, 2)[0])?; }
    same!("element.ebnf_suffix", c.ebnf_suffix().is_some(), !kid(t, 6).is_empty());
    if let Some(b) = c.ebnf_suffix() { acc_suffix(b, kid(t, 6)[0])?; }
    Ok(())
}
pub fn acc_suffix(c: &dyn EbnfSuffixContext, t: &Tree) -> Result<(), String> {
    same!("ebnf_suffix.star", tx(c.star()), tok(t, V1.star).first().cloned());
    same!("ebnf_suffix.plus", tx(c.plus()), tok(t, V1.plus).first().cloned());
    same!("ebnf_suffix.question_list", c.question_list().len(), tok(t, V1.quest).len());
    Ok(())
}
pub fn acc_lexer_rule(c: &dyn LexerRuleContext, t: &Tree) -> Result<(), String> {
    same!("lexer_rule.token_ref", tx(c.token_ref()), tok(t, V1.token_ref).first().cloned());
    same!("lexer_rule.colon", tx(c.colon()), tok(t, V1.colon).first().cloned());
    same!("lexer_rule.semi", tx(c.semi()), tok(t, V1.semi).first().cloned());
    same!("lexer_rule.regular", c.regular().is_some(), true);
    acc_regular(c.regular().unwrap(), kid(t, 8)[0])
}
pub fn acc_regular(c: &dyn RegularContext, t: &Tree) -> Result<(), String> { same!("regular.regular_literal", tx(c.regular_literal()), tok(t, V1.reg).first().cloned()); Ok(()) }

pub fn parser_for(input: &str) -> SyntaxisParser {
    let (g, _) = super::pipeline::build(&load());
    let (f, p) = g.first_set();
    let fo = g.follow_set(&f);
    let t = g.ll1_table(&p, &fo);
    let tokens = SyntaxisLexer::new(input).scan_all_on_channel_tokens(0);
    SyntaxisParser::new(tokens, t, g.vocabulary)
}

/// Pick one node of kind idx in the tree (the first met by a seeded walk).
fn find<'a>(t: &'a Tree, idx: usize, out: &mut Vec<&'a Tree>) { if let Tree::Rule { index, kids, .. } = t { if *index == idx { out.push(t); } for k in kids { find(k, idx, out); } } }

fn node_texts(t: &Tree, sp: &[(usize, usize)], at: &mut usize, input: &str, out: &mut Vec<String>) {
    match t {
        Tree::Rule { kids, .. } => {
            let slot = out.len(); out.push(String::new());
            let s = *at;
            for k in kids { node_texts(k, sp, at, input, out); }
            if *at > s { out[slot] = input[sp[s].0..sp[*at - 1].1].to_string(); }
        }
        _ => *at += 1,
    }
}
fn got_texts(r: &RuleContext, input: &str, out: &mut Vec<String>) {
    use syntaxis::runtime::ast::ast_context::ASTContext;
    out.push(r.get_text(input).to_string());
    for c in &r.children { if let ASTContext::Rule(r) = c { got_texts(r, input, out) } }
}

/// Random grammar text -> lexer -> parser -> typed tree, through every entry point.
pub fn text_mode() -> Verdict {
    let e = gen_grammar();
    let mut full = e.tree(&V1);
    decorate(&mut full);
    let entry = choose(10) as usize; // 0 parse, 1 rule_list, 2.. the others
    let idx = if entry < 2 { 0 } else { entry - 1 };
    let mut c = vec![];
    find(&full, idx, &mut c);
    if c.is_empty() { return Ok(()); }
    let want = c[choose(c.len() as u64) as usize].clone();
    let tail = match idx { 0 | 1 | 7 => "", _ => ";" };
    let (input, sp) = render(&want, tail);
    note(|| format!("entry {} text {:?}", entry, input));
    sched::swarm();
    let k = range(1, 2);
    let (w2, i2) = (&want, &input);
    let outs = par((0..k).map(|_| Box::new(move || {
        let p = parser_for(i2);
        macro_rules! via { ($m:ident, $acc:ident) => {{ let r = p.$m(); let a = $acc(r.as_ref(), w2); (r.as_rule().clone(), a) }} }
        let (r, a) = match entry {
            0 => { let r = p.parse(); let a = acc_rule_list(&r, w2); (r, a) }
            1 => via!(rule_list, acc_rule_list), 2 => via!(parser_rule, acc_parser_rule), 3 => via!(block, acc_block), 4 => via!(alternative, acc_alternative),
            5 => via!(epsilon, acc_epsilon), 6 => via!(element, acc_element), 7 => via!(ebnf_suffix, acc_suffix), 8 => via!(lexer_rule, acc_lexer_rule), _ => via!(regular, acc_regular),
        };
        let mut x = vec![];
        got_texts(&r, i2, &mut x);
        (super::tree::of_rule(&r), x, a.err())
    }) as Box<dyn FnOnce() -> (Tree, Vec<String>, Option<String>)>).collect());
    for o in outs {
        let (t, x, a) = expect("parsing a grammar text", o)?;
        require!(t == want, "wrong-tree", "{:?} parsed as {} instead of {}", input, t.show(), want.show());
        if let Some(m) = a { violation!("accessor", "{} for {:?}", m, input); }
        let mut w = vec![]; let mut at = 0;
        node_texts(&want, &sp, &mut at, &input, &mut w);
        require!(x == w, "node-text", "node texts {:?} instead of {:?} for {:?}", x, w, input);
    }
    driver::probe("probe:entry-point");
    Ok(())
}
