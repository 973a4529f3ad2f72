//! C14, second stage: lexers generated from seeded token rule sets tokenise by those rules.
#[path = "../../sim/src/glue/lexsess.rs"] mod lexsess;
// written by the first stage (sim/src/bin/gen14.rs)
mod gen { include!(concat!(env!("SYNSIM_GEN14"), "/all.rs")); }
use regex::Regex;
use std::sync::OnceLock;
use synsim::reflex::Spec;
use synsim::*;

struct Set { spec: Spec, pieces: Vec<String>, shown: String }
static SETS: OnceLock<Vec<Set>> = OnceLock::new();
fn setup() {
    let v = gen::SETS.iter().map(|(_, _, d)| {
        let d: serde_json::Value = serde_json::from_str(d).unwrap();
        let s = |v: &serde_json::Value| v.as_str().unwrap().to_string();
        let rules: Vec<(usize, String, Regex)> = d["rules"].as_array().unwrap().iter().enumerate().map(|(i, r)| (i + 2, s(&r[0]), Regex::new(&format!("^(?:{})", s(&r[1]).replace("\\/", "/"))).unwrap())).collect();
        let ws = rules.iter().find(|r| r.1 == "WHITE_SPACE").unwrap().0;
        Set { spec: Spec { rules, skip: vec![ws], stop: true }, pieces: d["pieces"].as_array().unwrap().iter().map(s).collect(), shown: s(&d["declared_as"]) }
    }).collect();
    let _ = SETS.set(v);
}
const BAD: &[&str] = &["a", "A", "中", "😀", "'", "\"", "/", "/*", "{", "\\", "9", "\u{c}", "\u{0}", "@", "é", "\u{feff}", "~", "\r", "\r\n", "\u{b}"];

fn run() -> Verdict {
    let sets = SETS.get().unwrap();
    let n = range(1, 3);
    let mut picked = vec![];
    for i in 0..n {
        let k = choose(sets.len() as u64) as usize;
        let s = &sets[k];
        let p: Vec<&str> = s.pieces.iter().map(|s| s.as_str()).collect();
        let text = lexsess::gen_text(&p, BAD);
        note(|| format!("lexer {} generated from {} on {:?}", i, s.shown, text));
        // the identifiers a user of the generated source names
        for ((n, v), want) in gen::SETS[k].1.iter().zip([0, 1].into_iter().chain(s.spec.rules.iter().map(|r| r.0))) { require!(*v == want, "constant", "constant {} of the lexer generated from {} is {} instead of {}", n, s.shown, v, want); }
        picked.push((k, text));
    }
    if picked.iter().any(|p| sets[p.0].spec.rules.len() > 10) { driver::probe("probe:many-rules"); }
    let ss: Vec<lexsess::Session> = picked.iter().map(|(k, text)| lexsess::Session { spec: &sets[*k].spec, make: &gen::SETS[*k].0, text: text.clone(), label: format!("lexer generated from {}", sets[*k].shown), always_prints: false }).collect();
    lexsess::run(&ss)
}

fn main() {
    driver::main(Scenario {
        id: "C14", run, quick_runs: 60_000, thorough_runs: 500_000, warmup: 6,
        rule: "72 seeded token rule sets (0-26 rules besides WHITE_SPACE, drawn from a catalogue of 42 pattern kinds that overlap, match nothing, span lines or contain the template's own delimiters, and from random patterns with groups, alternatives, classes, flags and all repetitions), extracted from a grammar tree and rendered by the real code and template, compiled, then 1-3 of the compiled lexers on seeded texts driven through 2-6 phases of calls on fresh threads, preempted inside the calls; 30% with output faults; non-trivial = more than 200 preemption points",
        nontrivial: |c| c.steps > 200,
        real: &["syntaxis::tool::visitor (token rule extraction)", "src/tool/templates/target/rust/lexer.tera through tera", "the generated lexers, compiled by rustc", "regex", "std stdout"],
        stub: &["standard output device", "entropy source of hash keys", "thread scheduler"],
        probes: &["probe:lexer-moved-on", "probe:scan-after-end", "probe:stuck", "probe:end-marker", "probe:scan-all", "probe:failed-loudly", "probe:unmatched-reported", "probe:many-rules"],
        assumptions: &["what one rule matches at a place is what the regex crate's find reports for the declared pattern", "patterns are one line of printable characters (or escapes) and names are identifiers", "lines are separated by line feeds; columns and offsets count bytes", "after a failed scan-everything call (output error) the lexer is abandoned"],
        setup,
    })
}
