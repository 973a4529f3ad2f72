//! Lexer sessions: several lexers, call histories in phases, moves between threads.
#![allow(dead_code)]
use synsim::reflex::{RefLexer, Spec, Tok};
use synsim::*;
use syntaxis::runtime::{lexer::Lexer, token::Token};

pub type Maker<'a> = &'a (dyn Fn(&str) -> Box<dyn Lexer> + 'a);
pub struct Session<'a> { pub spec: &'a Spec, pub make: Maker<'a>, pub text: String, pub label: String, pub always_prints: bool }

#[derive(Clone, Copy, Debug)]
enum Op { Scan(u64), All(usize) }

pub fn tok(t: &Token) -> Tok {
    Tok { ty: t.token_type, name: t.token_name.clone(), text: t.text.clone(), a: t.char_start_index, b: t.char_stop_index, start: (t.start.line, t.start.char_position), end: (t.stop.line, t.stop.char_position), index: t.token_index, channel: t.channel }
}
fn same(a: &Tok, b: &Tok) -> bool {
    // one kind name of the hand-written lexer is misspelt; either spelling is fine
    if a.name.eq_ignore_ascii_case("question") && b.name.eq_ignore_ascii_case("question") { let mut a = a.clone(); a.name = b.name.clone(); return a == *b; }
    a == b
}

enum Got { One(Option<Tok>), Many(Vec<Tok>) }
struct Live<'a> { lx: Option<Carry<Box<dyn Lexer>>>, model: RefLexer<'a>, errs: u64 }

pub fn run(ss: &[Session]) -> Verdict {
    let n = ss.len();
    sched::swarm();
    let faulty = chance(30);
    // lexers are created inside simulated threads too
    let mut live: Vec<Live> = vec![];
    let outs = par(ss.iter().map(|s| Box::new(move || Carry((s.make)(&s.text))) as Box<dyn FnOnce() -> _>).collect());
    for (o, s) in outs.into_iter().zip(ss) { live.push(Live { lx: Some(expect("creating a lexer", o)?), model: RefLexer::new(s.spec, &s.text), errs: 0 }); }
    let phases = range(1, 5);
    for ph in 0..=phases {
        let last = ph == phases;
        if last { sched::no_faults(); } else if faulty { sched::stdout_faults(); }
        // who runs which lexer in this phase
        let workers = range(1, n as u64) as usize;
        let mut plan: Vec<Vec<(usize, Op)>> = vec![vec![]; workers];
        for i in 0..n {
            let w = choose(workers as u64) as usize;
            let ops = if last { 1 } else { range(0, 2) };
            for _ in 0..ops {
                let op = if last { Op::All(0) } else { match choose(8) { 0..=4 => Op::Scan(range(1, 6)), 5 => Op::Scan(range(7, 40)), 6 => Op::All(0), _ => Op::All(if chance(30) { 1 } else { 0 }) } };
                plan[w].push((i, op));
            }
        }
        if ph > 0 { driver::probe("probe:lexer-moved-on"); }
        note(|| format!("phase {} plan {:?}", ph, plan));
        let mut mine: Vec<Vec<(usize, Carry<Box<dyn Lexer>>)>> = plan.iter().map(|p| {
            let mut v: Vec<(usize, Carry<Box<dyn Lexer>>)> = vec![];
            for (i, _) in p { if !v.iter().any(|x| x.0 == *i) { v.push((*i, live[*i].lx.take().unwrap())); } }
            v
        }).collect();
        let tasks: Vec<Box<dyn FnOnce() -> Vec<(usize, Got, bool)> + '_>> = plan.iter().zip(mine.iter_mut()).map(|(p, m)| Box::new(move || {
            let mut res = vec![];
            for (i, op) in p {
                let lx = &mut m.iter_mut().find(|x| x.0 == *i).unwrap().1 .0;
                match op {
                    Op::Scan(k) => for _ in 0..*k { let g = lx.scan().ok().map(|t| tok(&t)); res.push((*i, Got::One(g), false)); },
                    Op::All(c) => {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lx.scan_all_on_channel_tokens(*c)));
                        match r { Ok(v) => res.push((*i, Got::Many(v.iter().map(tok).collect()), false)), Err(p) => { drop(p); res.push((*i, Got::Many(vec![]), true)) } }
                    }
                }
            }
            res
        }) as Box<dyn FnOnce() -> _>).collect();
        let outs = par(tasks);
        let io = sched::io_result();
        for m in mine { for (i, l) in m { live[i].lx = Some(l); } }
        for (w, o) in outs.into_iter().enumerate() {
            let res = expect("lexing", o)?;
            let mut pos = 0;
            let mut rests: Vec<String> = vec![];
            for (i, op) in &plan[w] {
                let s = &ss[*i];
                let cnt = match op { Op::Scan(k) => *k, _ => 1 };
                for _ in 0..cnt {
                    let (_, got, panicked) = &res[pos]; pos += 1;
                    let l = &mut live[*i];
                    if l.lx.is_none() { continue; }
                    let at = l.model.at;
                    match (op, got) {
                        (Op::Scan(_), Got::One(g)) => {
                            let want = l.model.scan();
                            match (g, &want) {
                                (Some(g), Some(w)) => require!(same(g, w), "wrong-token", "{}: scan at byte {} gave {:?} instead of {:?} in {:?}", s.label, at, g, w, s.text),
                                (None, None) => { l.errs += 1; if l.errs > 1 { driver::probe("probe:scan-after-end"); } if l.model.stuck() { driver::probe("probe:stuck"); } }
                                (Some(g), None) => violation!("extra-token", "{}: scan at byte {} gave {:?} where nothing matches in {:?}", s.label, at, g, s.text),
                                (None, Some(w)) => violation!("missing-token", "{}: scan at byte {} failed instead of giving {:?} in {:?}", s.label, at, w, s.text),
                            }
                            if let Some(w) = want { if w.ty == 1 { driver::probe("probe:end-marker"); } }
                        }
                        (Op::All(c), Got::Many(v)) => {
                            let want = l.model.scan_all(*c);
                            if *panicked {
                                require!(io.hard[w] > 0, "panic", "{}: scan-everything panicked without an output error in {:?}", s.label, s.text);
                                driver::probe("probe:failed-loudly");
                                // faults stop: a new lexer on the same text delivers everything
                                l.lx = None;
                                continue;
                            }
                            require!(v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| same(a, b)), "wrong-tokens", "{}: scan-everything from byte {} on channel {} gave {:?} instead of {:?} in {:?}", s.label, at, c, v, want, s.text);
                            if l.model.stuck() { rests.push(l.model.rest().to_string()); }
                            driver::probe("probe:scan-all");
                        }
                        _ => unreachable!(),
                    }
                }
            }
            if io.hard.iter().all(|h| *h == 0) {
                let out = String::from_utf8_lossy(&io.out[w]).into_owned();
                for r in rests { require!(out.contains(&r), "unmatched-unreported", "unmatched text {:?} was not reported (reported: {:?})", r, out); driver::probe("probe:unmatched-reported"); }
            }
        }
        for i in 0..n {
            if live[i].lx.is_none() {
                sched::no_faults();
                let s = &ss[i];
                let o = solo(|| Carry((s.make)(&s.text)));
                live[i] = Live { lx: Some(expect("creating a lexer", o)?), model: RefLexer::new(s.spec, &s.text), errs: 0 };
            }
        }
    }
    Ok(())
}

const CHARS: &[char] = &['\'', '\\', 'a', 'u', '{', '}', '0', 'x', 'F', 'n', 'd', '9', '/', '/', '*', ' ', '\n', '\r', '\t', 'e', '_', '"', '中', 'ε', 'é', '😀', '\u{b}', '\u{c}', '\u{7}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{301}', ':', '=', '-', '>', ';', '|', '+', '?', '(', ')', 'Z', '-', '[', ']', '^', '.'];
/// Something in quotes or slashes, with every kind of escape, right or almost right.
fn gen_quoted() -> String {
    let slash = chance(25);
    let q = if slash { '/' } else { '\'' };
    let mut s = String::from(q);
    for _ in 0..choose(5) {
        match choose(6) {
            0 => s.push(pick(CHARS)),
            1 => { s.push('\\'); s.push(pick(&['\\', '\'', '/', 'a', 'd', 'n', 'r', 't', 'f', 'v', 'b', 'N', 'x', '0', 'u', '"'])); }
            2 | 3 => {
                s += pick::<&str>(&["\\u{", "\\u{", "\\u{", "\\U{", "\\u", "u{"]);
                s += pick::<&str>(&["", "0x", "0", "0X", "x"]);
                for _ in 0..choose(6) { s.push(pick(&['0', '1', '7', '9', 'a', 'f', 'c', 'A', 'F', 'g', '_'])); }
                s += pick::<&str>(&["}", "}", "}", "", "}}"]);
            }
            4 => s += pick::<&str>(&["x1", "9", "中", "+", "*", " ", "\t", "\n", "\u{7}", "\u{b}", "\u{c}", "\r"]),
            _ => s.push(pick(&['a', 'Z', '(', ')', '[', ']', '|', '?'])),
        }
    }
    if !chance(8) { s.push(q); }
    s
}
/// Text made of plausible pieces, sometimes with damage.
pub fn gen_text(pieces: &[&str], bad: &[&str]) -> String {
    let n = [0, 3, 8, 20, 60][choose(5) as usize];
    let n = if choose(150) == 0 { range(200, 900) } else { choose(n + 1) };
    let rate = [0, 0, 4, 15][choose(4) as usize];
    let mut s = String::new();
    let rate = if n > 100 { rate.min(1) } else { rate };
    if n > 100 && chance(30) { s += &pick::<&str>(&[" ", "x1 ", "中\n"]).repeat(range(100, 400) as usize); }
    // a run of one thing: long tokens, many lines, many tokens
    let run = if choose(60) == 0 { driver::probe("probe:long-run"); Some((choose(n.max(1)), pick::<&str>(&["\n", " ", "\r\n", "\t", "a", "中", "\n\t", "a\n"]).repeat(range(100, 700) as usize), choose(4))) } else { None };
    let quoted = if chance(25) { pick(&[3, 20, 60]) } else { 0 };
    let loose = if n <= 100 && chance(25) { pick(&[3, 20, 100]) } else { 0 };
    for k in 0..n.max(run.is_some() as u64) {
        if let Some((at, text, wrap)) = &run { if *at == k {
            let (a, b) = [("", ""), ("/* ", " */"), ("/", "/"), ("//", "\n")][*wrap as usize];
            s += a; s += text; s += b;
        } }
        if quoted > 0 && chance(quoted) { s += &gen_quoted(); continue; }
        if loose > 0 && chance(loose) { for _ in 0..range(1, 7) { s.push(pick(CHARS)); } continue; }
        s += if chance(rate) { pick::<&str>(bad) } else { pick::<&str>(pieces) };
    }
    s
}
