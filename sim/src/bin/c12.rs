//! C12: the program writes the right tree or exits with failure, under any I/O faults.
//! The real program runs in its own process; a preloaded shim carries out the fault plan.
#[path = "../glue/draw.rs"] mod draw;
use std::sync::OnceLock;
use synsim::ebnf::{self, Atom, Alt, Ebnf, Elem, Node, Suf};
use synsim::reftree::{self, Tree};
use synsim::*;
use serde_json::Value;

const TEXT: &str = include_str!("../../data/program_text.txt");
const INPUT: &str = "src/tool/syntaxis/syntaxis2.json";
const PAGE: &str = "parser2.html";

struct Base { want: Tree, json: Vec<u8>, counts: Vec<u64>, prog: String, shim: String }
static BASE: OnceLock<Base> = OnceLock::new();

// ---- what the program's text means -----------------------------------------------------
fn grammar() -> Ebnf {
    let names = ["RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
    let rules = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
    let t = |n: &str| Elem { atom: Atom::Tok(names.iter().position(|x| *x == n).unwrap()), suf: Suf::One, lazy: false };
    let r = |n: &str, s: Suf| Elem { atom: Atom::Rule(rules.iter().position(|x| *x == n).unwrap()), suf: s, lazy: false };
    let b = |v: Vec<Alt>, s: Suf| Elem { atom: Atom::Block(v), suf: s, lazy: false };
    let one = Suf::One;
    let defs: Vec<Vec<Alt>> = vec![
        vec![vec![b(vec![vec![r("parser_rule", one)], vec![r("lexer_rule", one)]], Suf::Star)]],
        vec![vec![t("RULE_REF"), t("COLON"), r("block", one), t("SEMI")]],
        vec![vec![r("alternative", one), b(vec![vec![t("OR"), r("alternative", one)]], Suf::Star)]],
        vec![vec![r("element", Suf::Plus)], vec![r("epsilon", one)]],
        vec![vec![t("EPSILON")]],
        vec![vec![b(vec![vec![t("TOKEN_REF")], vec![t("STRING_LITERAL")], vec![t("RULE_REF")], vec![t("LPAREN"), r("block", one), t("RPAREN")]], one), r("ebnf_suffix", Suf::Opt)]],
        vec![vec![b(vec![vec![t("STAR")], vec![t("PLUS")], vec![t("QUESTION")]], one), Elem { suf: Suf::Opt, ..t("QUESTION") }]],
        vec![vec![t("TOKEN_REF"), t("COLON"), r("regular", one), t("SEMI")]],
        vec![vec![t("REGULAR_LITERAL")]],
    ];
    Ebnf { dups: vec![], toks: names.iter().map(|n| (n.to_string(), "x".to_string())).collect(), rules: rules.iter().map(|n| n.to_string()).zip(defs).collect(), order: vec![] }
}
fn reference() -> Tree {
    let spec = reflex::v1();
    let mut l = reflex::RefLexer::new(&spec, TEXT);
    let toks = l.scan_all(0);
    assert!(!l.stuck(), "the reference lexer stops at {:?}", l.rest());
    let e = grammar();
    let ids: Vec<usize> = toks.iter().map(|t| t.ty).collect();
    let (n, used) = ebnf::ll1_parse(&e.lower(), &ids, 0).expect("reference parse");
    assert!(used + 1 == ids.len());
    fn conv(n: &Node, e: &Ebnf, toks: &[reflex::Tok]) -> Tree {
        match n { Node::Rule(r, k) => Tree::rule(*r, &e.rules[*r].0, k.iter().map(|x| conv(x, e, toks)).collect()), Node::Tok(i) => Tree::tok(toks[*i].ty, &toks[*i].name, &toks[*i].text) }
    }
    conv(&n, &e, &toks)
}
/// What a tree file says: None = not a tree.
fn meaning(bytes: &[u8]) -> Option<Tree> {
    fn rule(v: &Value) -> Option<Tree> {
        let o = v.as_object()?;
        let kids = o.get("children")?.as_array()?.iter().map(|k| match k.get("children") {
            None | Some(Value::Null) => { let o = k.as_object()?; Some(Tree::tok(o.get("token_type")?.as_u64()? as usize, o.get("token_name")?.as_str()?, match o.get("text") { Some(Value::String(s)) => s, _ => "<no text>" })) }
            Some(_) => rule(k),
        }).collect::<Option<Vec<_>>>()?;
        Some(Tree::rule(o.get("rule_index")?.as_u64()? as usize, o.get("rule_name")?.as_str()?, kids))
    }
    rule(&serde_json::from_slice(bytes).ok()?)
}

// ---- running the program ---------------------------------------------------------------
struct Ran { code: Option<i32>, signal: Option<i32>, faults: Vec<(String, i64, i64)>, counts: Vec<u64>, page: Option<Vec<u8>>, out: Vec<u8> }
fn launch(prog: &str, shim: &str, key: u64, plan: &str) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    let _ = std::fs::remove_file("faults.log");
    let mut c = std::process::Command::new(prog).env_clear()
        .env("LD_PRELOAD", shim).env("SYNSIM_LOG", "faults.log").env("SYNSIM_PLAN", format!("{}{}", key, plan))
        .stdin(std::process::Stdio::null()).stdout(std::fs::File::create("stdout.txt").unwrap()).stderr(std::process::Stdio::null()).spawn().expect("starting the program");
    // the program gets 10 s of processor time from the shim; a blocked program is stopped here
    let t = std::time::Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().expect("wait") { break s; }
        if t.elapsed().as_secs() > 60 { let _ = c.kill(); let _ = c.wait(); return Ran { code: None, signal: Some(-9), faults: vec![], counts: vec![], page: None, out: vec![] }; }
        std::thread::sleep(std::time::Duration::from_micros(300));
    };
    let log = std::fs::read_to_string("faults.log").unwrap_or_default();
    let mut r = Ran { code: st.code(), signal: st.signal(), faults: vec![], counts: vec![], page: std::fs::read(PAGE).ok(), out: std::fs::read("stdout.txt").unwrap_or_default() };
    for l in log.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] { "F" if w.len() == 4 => r.faults.push((w[1].into(), w[2].parse().unwrap_or(0), w[3].parse().unwrap_or(0))), "C" => r.counts = w[1..].iter().map(|x| x.parse().unwrap_or(0)).collect(), _ => {} }
    }
    r
}
const HARD: &[&str] = &["read-error", "write-error", "disk-full", "open-error", "directory-error", "stat-error", "allocation-failure", "crash-before-open", "crash-before-read", "crash-in-write", "file-operation-error", "crash-before-file-operation"];
const SOFT: &[&str] = &["short-read", "read-eintr", "short-write", "write-eintr"];
fn count(r: &Ran) {
    for (k, at, v) in &r.faults {
        if let Some(n) = HARD.iter().chain(SOFT).find(|n| **n == k.as_str()) { let (at, v) = (*at, *v); fault(n, || format!("call {} value {}", at, v)); }
    }
    let c = sched::ctl();
    let h = choice::fnv(format!("{:?} {:?} {:?} {:?}", r.code, r.signal, r.faults, r.counts).as_bytes());
    c.ev(7, h, 0, || format!("program ended: exit {:?} signal {:?}, calls {:?}, page {:?} bytes", r.code, r.signal, r.counts, r.page.as_ref().map(|p| p.len())));
    c.steps += r.counts.iter().sum::<u64>();
}

fn setup() {
    for d in ["src", "src/tool", "src/tool/syntaxis"] { std::fs::create_dir_all(d).expect("dir"); }
    // a private copy of the input, everything else as it is in the repository
    for (dir, skip) in [("src", "tool"), ("src/tool", "syntaxis"), ("src/tool/syntaxis", "syntaxis2.json")] {
        for e in std::fs::read_dir(format!("/repo/{}", dir)).expect("repository").flatten() {
            let n = e.file_name(); if n == skip { continue; }
            let _ = std::os::unix::fs::symlink(e.path(), format!("{}/{}", dir, n.to_string_lossy()));
        }
    }
    draw::frame();
    let json = std::fs::read(format!("/repo/{}", INPUT)).expect("input");
    std::fs::write(INPUT, &json).expect("input");
    let exe = std::env::current_exe().unwrap();
    let dir = exe.parent().unwrap().to_string_lossy().into_owned();
    let (prog, shim) = (format!("{}/prog", dir), format!("{}/shim.so", dir));
    let r = launch(&prog, &shim, 1, "");
    let _ = BASE.set(Base { want: reference(), json, counts: if r.counts.len() == 8 { r.counts } else { vec![40000, 1, 3, 20, 10, 16000, 1, 25000] }, prog, shim });
}

/// An ordinal among n calls, with the first and last few more likely.
fn ordinal(n: u64) -> u64 { let n = n.max(1); match choose(4) { 0 => choose(n), 1 => choose(n.min(4)), 2 => n - 1 - choose(n.min(4)), _ => choose(n) } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum In { Good, Same, Other, NotATree, Missing }
fn damage(json: &[u8]) -> Vec<u8> {
    let mut d = json.to_vec();
    let n = d.len() as u64;
    for _ in 0..range(1, 2) {
        let n = (d.len() as u64).max(1);
        match choose(7) {
            0 | 1 => { let p = if chance(30) { n - 1 - choose(n.min(6)) } else { choose(n) } as usize; fault("input-truncated", || format!("to {} bytes", p)); d.truncate(p); }
            2 | 3 => { let p = choose(n) as usize; let b = choose(8); if p < d.len() { fault("input-bit-flipped", || format!("offset {} bit {}", p, b)); d[p] ^= 1 << b; } }
            4 => { let a = choose(n) as usize; let e = (a + 1 + choose(600) as usize).min(d.len()); if a < e { fault("input-block-zeroed", || format!("{}..{}", a, e)); for x in &mut d[a..e] { *x = 0; } } }
            5 => { let a = choose(n) as usize; let e = (a + 1 + choose(600) as usize).min(d.len()); if a < e { fault("input-block-lost", || format!("{}..{}", a, e)); d.drain(a..e); } }
            _ => { fault("input-trailing-data", || String::new()); d.extend_from_slice(pick::<&[u8]>(&[b"}", b"x", b"{}", b"\0\0\0", b"]", b"\n"])); }
        }
        if d.is_empty() { break; }
    }
    let _ = n;
    d
}

fn run() -> Verdict {
    let b = BASE.get().unwrap();
    // --- the world before the program starts
    let mut input = In::Good;
    let mut bytes = b.json.clone();
    if chance(25) {
        if chance(8) { input = In::Missing; let _ = std::fs::remove_file(INPUT); fault("input-missing", || String::new()); }
        else {
            bytes = damage(&b.json);
            input = match meaning(&bytes) { None => In::NotATree, Some(t) if Some(&t) == meaning(&b.json).as_ref() => In::Same, Some(_) => In::Other };
            std::fs::write(INPUT, &bytes).expect("input");
        }
    } else { std::fs::write(INPUT, &b.json).expect("input"); }
    let blocked = chance(2);
    let _ = std::fs::remove_file(PAGE); let _ = std::fs::remove_dir(PAGE);
    match choose(4) { 0 => {}, 1 => std::fs::write(PAGE, "old").unwrap(), 2 => std::fs::write(PAGE, "y".repeat(120_000)).unwrap(), _ => std::fs::write(PAGE, "<html>".repeat(2000)).unwrap() }
    if blocked { let _ = std::fs::remove_file(PAGE); std::fs::create_dir(PAGE).unwrap(); fault("output-blocked", || String::new()); }
    // --- the plan
    let key = choose(1 << 20);
    let c = &b.counts;
    let mut plan = String::new();
    let nf = [0, 1, 1, 1, 2, 3][choose(6) as usize];
    for _ in 0..nf {
        let p = match choose(19) {
            0 => format!("rs:{}:{}", ordinal(c[0]), 1 + choose(3)),
            1 => format!("rs:-1:{}", 1 + choose(200)),
            2 => format!("ri:{}:{}", ordinal(c[0]), 1 + choose(5)),
            3 => "ri:-1:1".to_string(),
            4 => format!("ws:{}:{}", ordinal(c[1] + 1), 1 + choose(30_000)),
            5 => format!("ws:-1:{}", pick(&[1u64, 7, 512, 4096, 8191])),
            6 => format!("wi:{}:{}", ordinal(c[1]), 1 + choose(5)),
            7 => "wi:-1:1".to_string(),
            8 => format!("re:{}:{}", ordinal(c[0]), pick(&[5, 11, 21, 103])),
            9 => format!("we:{}:{}", ordinal(c[1] + 1), pick(&[5, 27, 28, 32, 122, 11])),
            10 => format!("wf:-1:{}", choose(c[7] + 10)),
            11 => format!("wx:{}:{}", ordinal(c[1]), choose(c[7] + 1)),
            12 => format!("oe:{}:{}", choose(c[2] + 1), pick(&[13, 24, 5, 2, 28])),
            13 => format!("de:{}:{}", choose(c[3] + 1), pick(&[13, 24, 5])),
            14 => format!("se:{}:{}", choose(c[4] + 1), pick(&[13, 5, 2])),
            15 => if chance(50) { format!("ox:{}:0", choose(c[2] + 1)) } else { format!("rx:{}:0", ordinal(c[0])) },
            17 => format!("fe:{}:{}", if chance(50) { -1 } else { choose(2) as i64 }, pick(&[5, 13, 18, 28])),
            18 => format!("fx:{}:0", choose(2)),
            _ => format!("me:{}:0", ordinal(c[5])),
        };
        plan += " "; plan += &p;
    }
    note(|| format!("input {:?}, key {}, plan {:?}", input, key, plan));
    let r = launch(&b.prog, &b.shim, key, &plan);
    count(&r);
    let hard = r.faults.iter().any(|f| HARD.contains(&f.0.as_str())) || blocked;
    let crashed = r.faults.iter().any(|f| f.0.starts_with("crash"));
    if crashed { driver::probe("probe:crash"); }
    let how = format!("input {:?}, faults {:?}", input, r.faults);
    require!(r.signal != Some(24) && r.signal != Some(-9), "hang", "the program did not finish ({})", how);
    let ok = r.code == Some(0);
    if ok {
        driver::probe("probe:exit-zero");
        require!(!blocked && input != In::Missing, "success-without-page", "the program reported success although it could not have worked ({})", how);
        let page = match &r.page { Some(p) => p, None => violation!("page-missing", "exit zero but no page ({})", how) };
        match input {
            In::Good | In::Same => { if let Err((c, m)) = draw::check(page, &b.want, "parser") { violation!(c, "exit zero but {} ({})", m, how); } }
            In::Other => { driver::probe("probe:other-grammar"); if let Err(m) = whole(page) { violation!("page-incomplete", "exit zero but {} ({})", m, how); } }
            _ => violation!("damage-ignored", "exit zero although the input is not a tree ({})", how),
        }
        if hard { driver::probe("probe:error-survived"); }
        if !r.faults.is_empty() && !hard { driver::probe("probe:soft-faults-survived"); }
    } else {
        driver::probe("probe:exit-nonzero");
        require!(hard || matches!(input, In::NotATree | In::Missing | In::Other), "failed", "the program failed (exit {:?}, signal {:?}) without an error to fail on ({}); output {:?}", r.code, r.signal, how, String::from_utf8_lossy(&r.out).chars().take(200).collect::<String>());
    }
    // --- faults stop: running it again gives the complete page
    if blocked { std::fs::remove_dir(PAGE).unwrap(); }
    if !ok || chance(15) {
        std::fs::write(INPUT, &b.json).expect("input");
        let r = launch(&b.prog, &b.shim, choose(1 << 20), "");
        count(&r);
        require!(r.code == Some(0), "rerun-failed", "running again after {} fails: exit {:?}, signal {:?}", how, r.code, r.signal);
        let page = match &r.page { Some(p) => p, None => violation!("page-missing", "running again leaves no page") };
        if let Err((c, m)) = draw::check(page, &b.want, "parser") { violation!(c, "running again after {}: {}", how, m); }
        driver::probe("probe:rerun");
    }
    Ok(())
}
/// A complete page, whatever tree it shows.
fn whole(page: &[u8]) -> Result<(), String> {
    let s = std::str::from_utf8(page).map_err(|_| "the page is not UTF-8")?;
    reftree::read_document(s)?;
    if let Some((h, t)) = draw::around("parser") { if !s.starts_with(&h) || !s.ends_with(&t) || s.len() < h.len() + t.len() { return Err("the page is cut off".into()); } }
    Ok(())
}

fn main() {
    driver::main(Scenario {
        id: "C12", run, quick_runs: 6_000, thorough_runs: 250_000, warmup: 0,
        rule: "the real program, one process per run, under a seeded plan of up to 3 faults at chosen calls (short, interrupted and failing reads and writes, full disk, failing opens, directory and stat calls, failing allocations, crashes), seeded hash keys, intact, damaged, truncated or missing input and earlier output, then run again without faults; non-trivial = at least one fault fired or input damaged",
        nontrivial: |c| !c.fired.iter().all(|(k, _)| k.starts_with("probe:")),
        real: &["the program (src/main.rs) as its own process", "all library code it uses, tera, serde_json, std", "real files in a scratch directory"],
        stub: &["libc file, directory, allocation and entropy calls of that process (preloaded shim, fault injected)"],
        probes: &["probe:exit-zero", "probe:exit-nonzero", "probe:crash", "probe:rerun", "probe:soft-faults-survived", "probe:error-survived"],
        assumptions: &["the page template's bytes are intact", "input that still encodes a tree, but another one, is a different grammar: only a complete page is required then", "the program is single-threaded, so its calls are the only schedule"],
        setup,
    })
}
