//! First stage of C14: seeded token rule sets go through the real extraction and the
//! real lexer template; the rendered sources are written to a directory that the
//! second stage (crate gen14) compiles in. Exit 3 = the pipeline itself failed.
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/pipeline.rs"] mod pipeline;
use serde_json::json;
use synsim::choice::{fnv, mix, Choices};
use synsim::ebnf::{self, Atom, Decl, Ebnf, Elem, Suf};
use synsim::sched::Ctl;
use synsim::*;
use syntaxis::tool::visitor::lexer_rule_visitor::LexerRuleData;

pub const SETS: usize = 72;
const WS: &[&str] = &["[ \\r\\n\\t]+", "\\s+", "[ \\r\\n\\t\\f]+", " |\\n", "(\\r?\\n| )+"];
/// (pattern as written between the slashes, texts around it)
const CAT: &[(&str, &[&str])] = &[
    ("[a-z]+", &["abc", "x", "if", "select", "zz"]),
    ("[a-z][a-zA-Z0-9_]*", &["a", "aB_9", "ifx", "else1"]),
    ("[A-Z][A-Z0-9_]+", &["AB", "A", "X9_"]),
    ("if|else|while", &["if", "else", "while", "whilex", "el"]),
    ("[0-9]+(\\.[0-9]+)?", &["12", "3.5", "4.", "0"]),
    ("0x[0-9a-f]+", &["0x1f", "0x", "0"]),
    ("\"([^\"\\\\]|\\\\.)*\"", &["\"a\"", "\"\\\"\"", "\"\"", "\"x\ny\"", "\"中\""]),
    ("'[^']*'", &["'q'", "''", "'a\nb'"]),
    ("\\/\\/[^\\n]*", &["// c", "//", "/", "//x\n"]),
    ("(?s)\\/\\*.*?\\*\\/", &["/* a */", "/* a\n b */", "/**/", "/*"]),
    ("==|=|!=", &["=", "==", "!=", "===", "!"]),
    ("\\+\\+?|-", &["+", "++", "+++", "-"]),
    ("\\*", &["*"]), ("\\(|\\)", &["(", ")"]), ("\\{\\{|\\}\\}", &["{{", "}}", "{"]), ("\\{%|%\\}", &["{%", "%}", "{#", "#}"]),
    ("#+", &["#", "####", "##"]),
    ("\"#", &["\"#", "\"##", "\"####"]),
    ("\"####", &["\"####", "\"###", "\"#####"]),
    ("\\\"#{4}|@\"#####", &["\"####", "@\"#####", "@"]),
    ("(?i)select", &["select", "SELECT", "SeLeCt"]),
    ("中+|ε", &["中", "中中", "ε", "εε"]),
    ("[😀-😎]", &["😀", "😎"]),
    ("a{2,3}", &["aa", "aaa", "aaaa", "a"]),
    ("a|ab|abc", &["a", "ab", "abc"]),
    ("abc|ab|a", &["a", "ab", "abc", "abcab"]),
    ("(ab|a)(c|bcd)?", &["ab", "abcd", "ac", "abc"]),
    ("x*", &["x", "xxx", ""]),
    ("y?", &["y", "yy"]),
    ("[^a-z\\s\\d]+?", &["@", "$%", "&"]),
    ("<|<=|&lt;|&amp;", &["<", "<=", "&lt;", "&amp;", "&"]),
    ("\\\\[a-z]", &["\\n", "\\z", "\\"]),
    ("/+", &["/", "///"]),
    ("\\.\\.?\\.?", &[".", "..", "...", "...."]),
    (";", &[";"]), (",", &[",", ",,"]), ("`[^`]*`", &["`a`", "`"]),
    ("\\p{Greek}+", &["αβ", "Ω"]),
    ("\\d{1,3}", &["1", "12", "123", "1234"]),
    ("\\n+", &["\n", "\n\n"]), ("\\t", &["\t"]),
    ("let[ \\n]+mut", &["let mut", "let\n mut", "let"]),
];

/// A random pattern: what is written, and something it is likely to match.
fn random_pattern(depth: u64) -> (String, String) {
    const LITS: &[(&str, &str)] = &[("a", "a"), ("b", "b"), ("ab", "ab"), ("0", "0"), ("Z", "Z"), ("_", "_"), ("中", "中"), ("😀", "😀"), ("é", "é"), ("\\.", "."), ("\\/", "/"), ("\"", "\""), ("'", "'"), ("#", "#"), ("\\{", "{"), ("\\}", "}"), ("%", "%"),
        ("\\\\", "\\"), ("\\n", "\n"), ("\\x41", "A"), ("\\u{3b5}", "ε"), ("-", "-"), ("&", "&"), ("<", "<"), (",", ","), ("~", "~"), ("\\$", "$"), ("\\^", "^")];
    const CLASSES: &[(&str, &str)] = &[("[ab]", "b"), ("[^a]", "b"), ("[a-c0-2]", "2"), ("\\d", "7"), ("\\w", "q"), (".", "z"), ("[^\"\\n]", "x"), ("[\\[\\]]", "]"), ("[#{}]", "#"), ("[中-丰]", "丫"), ("[[:alpha:]]", "k"), ("\\pL", "é"), ("[a&&[^b]]", "a")];
    match if depth == 0 { choose(2) } else { choose(7) } {
        0 => { let l = LITS[choose(LITS.len() as u64) as usize]; (l.0.into(), l.1.into()) }
        1 => { let l = CLASSES[choose(CLASSES.len() as u64) as usize]; (l.0.into(), l.1.into()) }
        2 | 3 => (0..range(2, 4)).map(|_| random_pattern(depth - 1)).fold((String::new(), String::new()), |a, b| if b.0.contains('|') && !b.0.starts_with('(') { (format!("{}(?:{})", a.0, b.0), a.1 + &b.1) } else { (a.0 + &b.0, a.1 + &b.1) }),
        4 => {
            let v: Vec<_> = (0..range(2, 4)).map(|_| random_pattern(depth - 1)).collect();
            (v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("|"), v[choose(v.len() as u64) as usize].1.clone())
        }
        5 => {
            let (p, t) = random_pattern(depth - 1);
            let open = pick::<&str>(&["(", "(?:", "(?i:", "(?P<n>", "(?s:"]);
            let open = if open == "(?P<n>" && p.contains("?P<") { "(" } else { open };
            (format!("{}{})", open, p), t)
        }
        _ => {
            let (p, t) = random_pattern(depth - 1);
            let (q, n) = [("*", 2), ("+", 3), ("?", 1), ("{2}", 2), ("{1,3}", 3), ("*?", 1), ("+?", 1), ("??", 1), ("{0,2}", 2)][choose(9) as usize];
            (format!("({}){}", p.replace("(?P<n>", "("), q), t.repeat(n))
        }
    }
}

struct Set { rules: Vec<(String, String)>, pieces: Vec<String>, e: Ebnf }
fn set(k: usize) -> Set {
    let mut rules: Vec<(String, String)> = vec![];
    let mut pieces: Vec<String> = vec![" ".into(), "\n".into()];
    let n = match k % 8 { 0 => range(0, 2), 7 => range(12, 26), _ => range(2, 9) } as usize;
    for i in 0..n {
        // the first sets walk the catalogue so that every pattern is compiled
        let c = if i == 0 { CAT[k % CAT.len()] } else { CAT[choose(CAT.len() as u64) as usize] };
        let name = match choose(4) { 0 => format!("T{}", i), 1 => format!("KW_{}", i), 2 => ebnf::tok_name(i), _ => format!("Tok{}x", i) };
        let random = if k >= CAT.len() || (i > 0 && chance(30)) { Some((0..).map(|_| random_pattern(3)).find(|p| p.0.matches("?P<").count() < 2 && regex::Regex::new(&p.0.replace("\\/", "/")).is_ok()).unwrap()) } else { None };
        if let Some((p, t)) = random {
            pieces.extend([t.clone(), t.chars().rev().collect(), t.chars().take(1).collect(), t + "a"]);
            rules.push((name, p));
            continue;
        }
        rules.push((name, c.0.into()));
        pieces.extend(c.1.iter().map(|s| s.to_string()));
    }
    let at = choose(n as u64 + 1) as usize;
    rules.insert(at, ("WHITE_SPACE".into(), pick::<&str>(WS).into()));
    let mut seen = std::collections::BTreeSet::new();
    rules.retain(|r| seen.insert(r.0.clone()));
    let mut e = Ebnf { toks: rules.clone(), ..Default::default() };
    let nr = range(0, 2) as usize;
    for i in 0..nr {
        let t = choose(rules.len() as u64) as usize;
        e.rules.push((format!("rule{}", i), vec![vec![Elem { atom: Atom::Tok(t), suf: [Suf::One, Suf::Star, Suf::Plus][choose(3) as usize], lazy: false }]]));
    }
    let (mut i, mut j) = (0, 0);
    while i < nr || j < rules.len() { if j >= rules.len() || (i < nr && chance(40)) { e.order.push(Decl::R(i)); i += 1; } else { e.order.push(Decl::T(j)); j += 1; } }
    Set { rules, pieces, e }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (dir, templates) = (&a[1], &a[2]);
    let seed: u64 = a[3].parse().unwrap();
    std::fs::create_dir_all(dir).unwrap();
    sched::install_panic_hook();
    let mut tera = match tera::Tera::new(&format!("{}/*.tera", templates)) { Ok(t) => t, Err(e) => { println!("the lexer template does not load: {:?}", e); std::process::exit(3) } };
    tera.autoescape_on(vec![]);
    let mut mods = String::from("use syntaxis::runtime::lexer::Lexer;\n");
    let mut table = String::from("pub static SETS: &[(fn(&str) -> Box<dyn Lexer>, &[(&str, usize)], &str)] = &[\n");
    for k in 0..SETS {
        sched::install(Ctl::new(Choices::seeded(mix(mix(seed, fnv(b"C14-sets")), k as u64)), false));
        let s = set(k);
        let desc = json!({"set": k, "rules": s.rules, "pieces": s.pieces, "declared_as": s.e.show()});
        let fail = |what: String| -> ! { println!("rule set {}: {}\n{}", k, what, desc); std::process::exit(3) };
        let ast = tree::to_rule(&s.e.tree(&ebnf::HAND));
        let data = match solo(|| pipeline::build(&ast).1) { Outcome::Done(d) => d, _ => fail("extracting the token rules panicked".into()) };
        sched::uninstall();
        let data: Vec<LexerRuleData> = data.into_iter().map(|d| LexerRuleData { token_type: d.0, token_name: d.1, regex: d.2 }).collect();
        let mut c = tera::Context::new();
        c.insert("tokens", &data);
        c.insert("name", &format!("Set{}", k));
        let src = match tera.render("lexer.tera", &c) { Ok(s) => s, Err(e) => fail(format!("the lexer template does not render: {:?}", e)) };
        let f = format!("{}/set_{}.rs", dir, k);
        // unchanged sources keep their time stamp, so that nothing is recompiled
        let put = |f: &str, s: &str| if std::fs::read_to_string(f).ok().as_deref() != Some(s) { std::fs::write(f, s).unwrap() };
        put(&f, &src);
        mods += &format!("#[path = {:?}] #[allow(warnings, clippy::all)] pub mod set_{};\n", f, k);
        let ends = format!("(\"_START\", set_{k}::Set{k}Lexer::_START), (\"_STOP\", set_{k}::Set{k}Lexer::_STOP), ");
        let consts: String = ends + &s.rules.iter().map(|r| format!("({:?}, set_{}::Set{}Lexer::{}), ", r.0, k, k, r.0)).collect::<String>();
        table += &format!("  (|t| Box::new(set_{k}::Set{k}Lexer::new(t)), &[{}], {:?}),\n", consts, desc.to_string());
        if k + 1 == SETS { put(&format!("{}/all.rs", dir), &format!("{}\n{}];\n", mods, table)); }
    }
}
