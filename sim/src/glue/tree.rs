//! Between the harness' trees and syntaxis' own.
#![allow(dead_code)]
use synsim::reftree::Tree;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;

/// A rule node, made without naming the type's fields exhaustively.
pub fn rule(index: usize, name: &str, children: Vec<ASTContext>) -> RuleContext {
    static BLANK: std::sync::OnceLock<synsim::Carry<RuleContext>> = std::sync::OnceLock::new();
    let mut r = BLANK.get_or_init(|| synsim::Carry(syntaxis::tool::serde_ast::from_str(r#"{"rule_index":0,"rule_name":"","children":[]}"#).expect("an empty rule is a tree"))).0.clone();
    r.rule_index = index;
    r.rule_name = name.to_string();
    r.children = children;
    r
}
/// So that the first use is never inside a simulated run (if the loader refuses this text, a run will say so).
pub fn warm() { let _ = std::panic::catch_unwind(|| { rule(0, "", vec![]); }); }
pub fn to_rule(t: &Tree) -> RuleContext {
    match t {
        Tree::Rule { index, name, kids } => rule(*index, name, kids.iter().map(to_ctx).collect()),
        _ => panic!("not a rule"),
    }
}
pub fn to_ctx(t: &Tree) -> ASTContext {
    match t {
        Tree::Rule { .. } => ASTContext::Rule(to_rule(t)),
        Tree::Tok { ty, name, text } => ASTContext::Terminal(TerminalContext { symbol: Token::new(*ty, name, text) }),
        Tree::Err { ty, name, text } => ASTContext::Error(ErrorContext { symbol: Token::new(*ty, name, text) }),
    }
}
pub fn of_rule(r: &RuleContext) -> Tree { Tree::Rule { index: r.rule_index, name: r.rule_name.clone(), kids: r.children.iter().map(of_ctx).collect() } }
pub fn of_ctx(c: &ASTContext) -> Tree {
    match c {
        ASTContext::Rule(r) => of_rule(r),
        ASTContext::Terminal(t) => Tree::Tok { ty: t.symbol.token_type, name: t.symbol.token_name.clone(), text: t.symbol.text.clone() },
        ASTContext::Error(t) => Tree::Err { ty: t.symbol.token_type, name: t.symbol.token_name.clone(), text: t.symbol.text.clone() },
    }
}
