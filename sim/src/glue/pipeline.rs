//! The grammar-building pipeline exactly as the program and its tests drive it.
#![allow(dead_code)]
use syntaxis::runtime::ast::rule_context::RuleContext;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};

/// (type, name, pattern) of every token rule
pub type TokRules = Vec<(usize, String, String)>;

pub fn build(ast: &RuleContext) -> (Grammar, TokRules) {
    let mut grammar = Grammar::new("g");
    let token_cnt;
    let data;
    {
        let mut v = StringLiteralToTokenVisitor::new(&mut grammar, 2);
        RuleListContext::accept(ast, &mut v);
        token_cnt = v.next_token_id;
        data = v.data;
    }
    let rule_cnt;
    let lexer_data;
    {
        let mut v = SymbolVisitor::new(&mut grammar, token_cnt, 0, data);
        RuleListContext::accept(ast, &mut v);
        rule_cnt = v.next_rule_id;
        lexer_data = v.data;
    }
    {
        let mut v = ProductionVisitor::new(&mut grammar, rule_cnt);
        RuleListContext::accept(ast, &mut v);
    }
    let d = lexer_data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect();
    (grammar, d)
}
