//! C06: both lexers tile their input for any call history and interleaving.
#[path = "../glue/lexsess.rs"] mod lexsess;
use std::sync::OnceLock;
use synsim::reflex::{self, Spec};
use synsim::*;
use syntaxis::runtime::lexer::Lexer;

static SPECS: OnceLock<(Spec, Spec)> = OnceLock::new();
fn setup() { let _ = SPECS.set((reflex::v1(), reflex::hand())); }

const PIECES: &[&str] = &["rule_list", "aB_9", "ID", "TOKEN_REF", "Ab", "fragment", "fragments", "epsilon", "epsilonx", "ε", ":", "::=", ":=", "->", "=>", "=", ";", "|", "*", "+", "?", "(", ")", "'a'", "'\\n'", "'+'", "'12'", "'\\\\'", "'\\''", "'\\u{0x1f}'", "''", "'中'", "/[a-z]+/", "/\\//", "/a\nb/", " ", "\n", "\r\n", "\t", "  \n ", "\n\n", "// c\n", "//\n", "/* x */", "/* a\n b */", "/* 中\n é*/", "/中\n😀/", "/* *\n/ **/", "/***/", ".", "..", "~", "#", "ab", "zz", "Zz1"];
const BAD: &[&str] = &["a", "A", "中", "😀", "'", "'abc", "/", "/*", "\"", "{", "\\", "9", "_x", "-", "\u{c}", "\u{0}", "// no newline", "'a\nb'", "@", "é", "\u{feff}", ">"];

fn mk_v1(t: &str) -> Box<dyn Lexer> { Box::new(syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(t)) }
fn mk_hand(t: &str) -> Box<dyn Lexer> { Box::new(syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer::new(t)) }

/// The identifiers a user compares token types with.
macro_rules! consts { ($t:ty, $($c:ident)*) => { vec![$((stringify!($c), <$t>::$c)),*] } }
fn constants() -> Verdict {
    use syntaxis::tool::{syntaxis::syntaxis_lexer::SyntaxisLexer as H, v1::syntaxis_lexer::SyntaxisLexer as V};
    let (v1, hand) = SPECS.get().unwrap();
    let v = consts!(V, RULE_REF TOKEN_REF COLON SEMI OR EPSILON STAR PLUS QUESTION LPAREN RPAREN STRING_LITERAL REGULAR_LITERAL WHITE_SPACE);
    let h = consts!(H, LINE_COMMENT BLOCK_COMMENT WS FRAGMENT TOKEN_REF RULE_REF COLON OR SEMI STAR PLUS QUESTION DOT NOT LPAREN RPAREN POUND STRING_LITERAL RANGE REGULAR_LITERAL EPSILON);
    for (l, spec, cs, ends) in [("self-hosted", v1, v, (V::_START, V::_STOP)), ("hand-written", hand, h, (H::_START, H::_STOP))] {
        require!(ends == (0, 1), "constant", "the start and end marker of the {} lexer are {:?}", l, ends);
        for r in &spec.rules {
            let got = cs.iter().find(|c| c.0.eq_ignore_ascii_case(&r.1)).map(|c| c.1);
            require!(got == Some(r.0), "constant", "constant {} of the {} lexer is {:?}, its tokens have type {}", r.1, l, got, r.0);
        }
    }
    Ok(())
}

fn run() -> Verdict {
    constants()?;
    let (v1, hand) = SPECS.get().unwrap();
    // now and then one lexer and more tokens than 16 bits can number
    let huge = choose(6000) == 0;
    let n = if huge { driver::probe("probe:huge-text"); 1 } else { range(1, 3) };
    let mut ss = vec![];
    for i in 0..n {
        let a = chance(55);
        let text = if huge { pick::<&str>(&[";", " ", "ab ", "中\n;", ":=\n"]).repeat(range(33_000, 70_000) as usize) } else { lexsess::gen_text(PIECES, BAD) };
        note(|| format!("lexer {} {} on {:?}", i, if a { "self-hosted" } else { "hand-written" }, text));
        ss.push(if a { lexsess::Session { spec: v1, make: &mk_v1, text, label: "self-hosted lexer".into(), always_prints: false } }
            else { lexsess::Session { spec: hand, make: &mk_hand, text, label: "hand-written lexer".into(), always_prints: true } });
    }
    lexsess::run(&ss)
}

fn main() {
    driver::main(Scenario {
        id: "C06", run, quick_runs: 60_000, thorough_runs: 500_000, warmup: 6,
        rule: "1-3 lexers (self-hosted and hand-written) on seeded texts of plausible and damaged pieces, driven through 2-6 phases of single-token and scan-everything calls, every phase on fresh threads that share the lexers out anew, preempted inside the calls; 30% with output faults; non-trivial = more than 200 preemption points",
        nontrivial: |c| c.steps > 200,
        real: &["syntaxis::tool::v1::syntaxis_lexer", "syntaxis::tool::syntaxis::syntaxis_lexer", "regex", "std stdout"],
        stub: &["standard output device", "entropy source of hash keys", "thread scheduler"],
        probes: &["probe:lexer-moved-on", "probe:scan-after-end", "probe:stuck", "probe:end-marker", "probe:scan-all", "probe:failed-loudly", "probe:unmatched-reported"],
        assumptions: &["what one rule matches at a place is what the regex crate's find reports for the documented pattern", "lines are separated by line feeds; columns and offsets count bytes", "after a failed scan-everything call (output error) the lexer is abandoned"],
        setup,
    })
}
