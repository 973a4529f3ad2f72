//! C16: tree accessors answer from the tree as it stands, under any history.
use std::sync::{Mutex, RwLock};
use synsim::*;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext, to_rule::ToRule};
use syntaxis::runtime::token::Token;
#[path = "../glue/tree.rs"]
mod tree;

/// The tree as a user understands it.
#[derive(Clone, PartialEq, Debug)]
enum M { Rule { index: usize, name: String, kids: Vec<M> }, Tok { err: bool, ty: usize, name: String, text: String, span: (usize, usize) } }
use M::*;

fn real(m: &M) -> ASTContext {
    match m {
        Rule { .. } => ASTContext::Rule(real_rule(m)),
        Tok { err, ty, name, text, span } => {
            let mut symbol = Token::new(*ty, name, text);
            symbol.char_start_index = span.0;
            symbol.char_stop_index = span.1;
            if *err { ASTContext::Error(ErrorContext { symbol }) } else { ASTContext::Terminal(TerminalContext { symbol }) }
        }
    }
}
fn real_rule(m: &M) -> RuleContext { match m { Rule { index, name, kids } => tree::rule(*index, name, kids.iter().map(real).collect()), _ => unreachable!() } }
fn of_tok(t: &Token, err: bool) -> M { Tok { err, ty: t.token_type, name: t.token_name.clone(), text: t.text.clone(), span: (t.char_start_index, t.char_stop_index) } }
fn of_rule(r: &RuleContext) -> M { Rule { index: r.rule_index, name: r.rule_name.clone(), kids: r.children.iter().map(of).collect() } }
fn of(c: &ASTContext) -> M { match c { ASTContext::Rule(r) => of_rule(r), ASTContext::Terminal(t) => of_tok(&t.symbol, false), ASTContext::Error(e) => of_tok(&e.symbol, true) } }

// ---- what is asked
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sel { T(usize), E(usize), R(usize) }
#[derive(Clone, Debug)]
enum Q { Children, Count, Index, Nth(Sel, usize), All(Sel), Start, Stop, FirstT, LastT, Text, Typed(usize, usize) }
#[derive(Clone, Debug)]
enum Edit { Push(M), Insert(usize, M), Remove(usize), Replace(usize, M), Clear, Kind(usize), Name(String), Retype(usize, usize), Respan(usize, (usize, usize)), Retext(usize, String), Swap(usize, usize), Truncate(usize) }
#[derive(Clone, Debug)]
enum Op { Ask(Vec<u64>, Q), Edit(Vec<u64>, Edit), /** copy a node into a slot */ Copy(Vec<u64>, usize), /** put a copy of a slot's tree under a node */ Graft(Vec<u64>, usize) }
#[derive(Clone, PartialEq, Debug)]
enum Ans { Nodes(Vec<M>), N(usize), S(String), Done, Died }

// ---- typed accessors of both generations of the tool's own tree types
type Acc = (&'static str, fn(&RuleContext) -> Vec<M>, Sel, bool);
fn o<'a>(t: Option<&'a TerminalContext>) -> Vec<M> { t.into_iter().map(|t| of_tok(&t.symbol, false)).collect() }
fn l(v: Vec<&TerminalContext>) -> Vec<M> { v.into_iter().map(|t| of_tok(&t.symbol, false)).collect() }
macro_rules! typed {
    ($f:ident, $m:ident) => {
        fn $f() -> Vec<Acc> {
            use syntaxis::tool::$m::syntaxis_context::*;
            use syntaxis::tool::$m::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P};
            macro_rules! t1 { ($t:ident $n:ident $k:expr) => { (concat!(stringify!($m), "::", stringify!($t), "::", stringify!($n)), (|r: &RuleContext| o($t::$n(r))) as fn(&RuleContext) -> Vec<M>, Sel::T($k), true) } }
            macro_rules! tn { ($t:ident $n:ident $k:expr) => { (concat!(stringify!($m), "::", stringify!($t), "::", stringify!($n)), (|r: &RuleContext| l($t::$n(r))) as fn(&RuleContext) -> Vec<M>, Sel::T($k), false) } }
            macro_rules! r1 { ($t:ident $n:ident $k:expr) => { (concat!(stringify!($m), "::", stringify!($t), "::", stringify!($n)), (|r: &RuleContext| $t::$n(r).into_iter().map(|x| of_rule(x.as_rule())).collect()) as fn(&RuleContext) -> Vec<M>, Sel::R($k), true) } }
            macro_rules! rn { ($t:ident $n:ident $k:expr) => { (concat!(stringify!($m), "::", stringify!($t), "::", stringify!($n)), (|r: &RuleContext| $t::$n(r).into_iter().map(|x| of_rule(x.as_rule())).collect()) as fn(&RuleContext) -> Vec<M>, Sel::R($k), false) } }
            vec![
                rn!(RuleListContext parser_rule_list P::PARSER_RULE), rn!(RuleListContext lexer_rule_list P::LEXER_RULE),
                t1!(ParserRuleContext rule_ref L::RULE_REF), t1!(ParserRuleContext colon L::COLON), r1!(ParserRuleContext block P::BLOCK), t1!(ParserRuleContext semi L::SEMI),
                rn!(BlockContext alternative_list P::ALTERNATIVE), tn!(BlockContext or_list L::OR),
                rn!(AlternativeContext element_list P::ELEMENT), r1!(AlternativeContext epsilon P::EPSILON),
                t1!(EpsilonContext epsilon L::EPSILON),
                t1!(ElementContext token_ref L::TOKEN_REF), t1!(ElementContext string_literal L::STRING_LITERAL), t1!(ElementContext rule_ref L::RULE_REF), t1!(ElementContext lparen L::LPAREN), t1!(ElementContext rparen L::RPAREN), r1!(ElementContext block P::BLOCK), r1!(ElementContext ebnf_suffix P::EBNF_SUFFIX),
                t1!(EbnfSuffixContext star L::STAR), t1!(EbnfSuffixContext plus L::PLUS), tn!(EbnfSuffixContext question_list L::QUESTION),
                t1!(LexerRuleContext token_ref L::TOKEN_REF), t1!(LexerRuleContext colon L::COLON), t1!(LexerRuleContext semi L::SEMI), r1!(LexerRuleContext regular P::REGULAR),
                t1!(RegularContext regular_literal L::REGULAR_LITERAL),
            ]
        }
    };
}
typed!(typed_v1, v1);
typed!(typed_new, syntaxis);

// ---- the reference
fn sel(kids: &[M], s: Sel) -> Vec<M> {
    kids.iter().filter(|k| match (k, s) { (Rule { index, .. }, Sel::R(i)) => *index == i, (Tok { err, ty, .. }, Sel::T(i)) => !err && *ty == i, (Tok { err, ty, .. }, Sel::E(i)) => *err && *ty == i, _ => false }).cloned().collect()
}
fn leaves<'a>(m: &'a M, out: &mut Vec<&'a M>) { match m { Rule { kids, .. } => for k in kids { leaves(k, out) }, t => out.push(t) } }
/// The leaf at the left (right) edge, if the edge has no empty rules before it.
fn edge(m: &M, left: bool) -> Option<&M> { match m { Rule { kids, .. } => edge(if left { kids.first()? } else { kids.last()? }, left), t => Some(t) } }
/// None: nothing is promised.
fn expected(n: &M, q: &Q, input: &str, typed: &[Vec<Acc>; 2]) -> Option<Ans> {
    let (index, kids) = match n { Rule { index, kids, .. } => (*index, kids), _ => unreachable!() };
    let mut lv = vec![];
    leaves(n, &mut lv);
    let one = |x: Option<&&M>| Ans::Nodes(x.into_iter().map(|m| match m { Tok { ty, name, text, span, .. } => Tok { err: false, ty: *ty, name: name.clone(), text: text.clone(), span: *span }, _ => unreachable!() }).collect());
    Some(match q {
        Q::Children => Ans::Nodes(kids.clone()),
        Q::Count => Ans::N(kids.len()),
        Q::Index => Ans::N(index),
        Q::Nth(s, i) => Ans::Nodes(sel(kids, *s).into_iter().skip(*i).take(1).collect()),
        Q::All(s) => Ans::Nodes(sel(kids, *s)),
        Q::Start => one(lv.first()),
        Q::Stop => one(lv.last()),
        Q::FirstT | Q::LastT => {
            let left = matches!(q, Q::FirstT);
            if lv.is_empty() { return Some(Ans::Nodes(vec![])); }
            match edge(n, left) { Some(Tok { err: false, .. }) => one(if left { lv.first() } else { lv.last() }), _ => return None }
        }
        Q::Text => match (lv.first(), lv.last()) {
            (Some(Tok { span: a, .. }), Some(Tok { span: b, .. })) => { if a.0 > b.1 { return None; } Ans::S(input[a.0..b.1].to_string()) }
            _ => Ans::S(String::new()),
        },
        Q::Typed(gen, k) => { let (_, _, s, first) = typed[*gen][*k]; let v = sel(kids, s); Ans::Nodes(if first { v.into_iter().take(1).collect() } else { v }) }
    })
}
fn model_edit(n: &mut M, e: &Edit) {
    let (index, name, kids) = match n { Rule { index, name, kids } => (index, name, kids), _ => unreachable!() };
    let len = kids.len();
    match e {
        Edit::Push(m) => kids.push(m.clone()),
        Edit::Insert(i, m) => kids.insert(i % (len + 1), m.clone()),
        Edit::Clear => kids.clear(),
        Edit::Truncate(i) => kids.truncate(i % (len + 1)),
        Edit::Kind(k) => *index = *k,
        Edit::Name(s) => *name = s.clone(),
        _ if len == 0 => {}
        Edit::Remove(i) => { kids.remove(i % len); }
        Edit::Replace(i, m) => kids[i % len] = m.clone(),
        Edit::Swap(i, j) => kids.swap(i % len, j % len),
        Edit::Retype(i, t) => match &mut kids[i % len] { Tok { ty, .. } => *ty = *t, Rule { index, .. } => *index = *t },
        Edit::Respan(i, s) => if let Tok { span, .. } = &mut kids[i % len] { *span = *s },
        Edit::Retext(i, s) => match &mut kids[i % len] { Tok { text, .. } => *text = s.clone(), Rule { name, .. } => *name = s.clone() },
    }
}
fn real_edit(r: &mut RuleContext, e: &Edit) {
    let r = r.as_mut_rule();
    let len = r.children.len();
    fn sym(c: &mut ASTContext) -> Option<&mut Token> { match c { ASTContext::Terminal(t) => Some(&mut t.symbol), ASTContext::Error(t) => Some(&mut t.symbol), _ => None } }
    match e {
        Edit::Push(m) => r.children.push(real(m)),
        Edit::Insert(i, m) => r.children.insert(i % (len + 1), real(m)),
        Edit::Clear => r.children.clear(),
        Edit::Truncate(i) => r.children.truncate(i % (len + 1)),
        Edit::Kind(k) => r.rule_index = *k,
        Edit::Name(s) => r.rule_name = s.clone(),
        _ if len == 0 => {}
        Edit::Remove(i) => { r.children.remove(i % len); }
        Edit::Replace(i, m) => r.children[i % len] = real(m),
        Edit::Swap(i, j) => r.children.swap(i % len, j % len),
        Edit::Retype(i, t) => match &mut r.children[i % len] { ASTContext::Rule(r) => r.rule_index = *t, c => sym(c).unwrap().token_type = *t },
        Edit::Respan(i, s) => if let Some(k) = sym(&mut r.children[i % len]) { k.char_start_index = s.0; k.char_stop_index = s.1; },
        Edit::Retext(i, s) => match &mut r.children[i % len] { ASTContext::Rule(r) => r.rule_name = s.clone(), c => sym(c).unwrap().text = s.clone() },
    }
}
/// Follow a path through rule children; stops where there are none.
fn go<'a>(m: &'a mut M, path: &[u64]) -> &'a mut M {
    let rules = match &*m { Rule { kids, .. } => kids.iter().enumerate().filter(|(_, k)| matches!(k, Rule { .. })).map(|(i, _)| i).collect::<Vec<_>>(), _ => unreachable!() };
    if path.is_empty() || rules.is_empty() { return m; }
    match m { Rule { kids, .. } => go(&mut kids[rules[path[0] as usize % rules.len()]], &path[1..]), _ => unreachable!() }
}
fn at<'a>(r: &'a RuleContext, path: &[u64]) -> &'a RuleContext {
    let rules: Vec<usize> = r.children.iter().enumerate().filter(|(_, k)| matches!(k, ASTContext::Rule(_))).map(|(i, _)| i).collect();
    if path.is_empty() || rules.is_empty() { return r; }
    match &r.children[rules[path[0] as usize % rules.len()]] { ASTContext::Rule(x) => at(x, &path[1..]), _ => unreachable!() }
}
fn at_mut<'a>(r: &'a mut RuleContext, path: &[u64]) -> &'a mut RuleContext {
    let rules: Vec<usize> = r.children.iter().enumerate().filter(|(_, k)| matches!(k, ASTContext::Rule(_))).map(|(i, _)| i).collect();
    if path.is_empty() || rules.is_empty() { return r; }
    match &mut r.children[rules[path[0] as usize % rules.len()]] { ASTContext::Rule(x) => at_mut(x, &path[1..]), _ => unreachable!() }
}
fn ask(r: &RuleContext, q: &Q, input: &str, typed: &[Vec<Acc>; 2]) -> Ans {
    let tk = |t: Option<Token>| Ans::Nodes(t.iter().map(|t| of_tok(t, false)).collect());
    match q {
        Q::Children => Ans::Nodes(r.get_children().iter().map(of).collect()),
        Q::Count => Ans::N(r.get_child_count()),
        Q::Index => Ans::N(r.get_rule_index()),
        Q::Nth(Sel::T(k), i) => Ans::Nodes(o(r.get_terminal(*k, *i))),
        Q::Nth(Sel::E(k), i) => Ans::Nodes(r.get_errornode(*k, *i).into_iter().map(|e| of_tok(&e.symbol, true)).collect()),
        Q::Nth(Sel::R(k), i) => Ans::Nodes(r.get_rule_context(*k, *i).into_iter().map(of_rule).collect()),
        Q::All(Sel::T(k)) => Ans::Nodes(l(r.get_terminals(*k))),
        Q::All(Sel::E(k)) => Ans::Nodes(r.get_errornodes(*k).into_iter().map(|e| of_tok(&e.symbol, true)).collect()),
        Q::All(Sel::R(k)) => Ans::Nodes(r.get_rule_contexts(*k).into_iter().map(of_rule).collect()),
        Q::Start => tk(r.get_start_token()),
        Q::Stop => tk(r.get_stop_token()),
        Q::FirstT => Ans::Nodes(o(r.get_first_terminal())),
        Q::LastT => Ans::Nodes(o(r.get_last_terminal())),
        Q::Text => Ans::S(r.get_text(input).to_string()),
        Q::Typed(g, k) => Ans::Nodes((typed[*g][*k].1)(r)),
    }
}

// ---- histories
enum Shared { M(Mutex<RuleContext>), R(RwLock<RuleContext>) }
struct Done { slot: usize, seq: u64, op: Op, ans: Ans }
struct World { slots: Vec<Shared>, input: String, typed: [Vec<Acc>; 2], seq: std::cell::Cell<u64> }
fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(t) => Some(t), Err(p) => { drop(p); None } } }
fn read_slot<T>(s: &Shared, f: impl FnOnce(&RuleContext) -> T) -> T { match s { Shared::M(m) => f(&m.lock().unwrap_or_else(|e| e.into_inner())), Shared::R(l) => f(&l.read().unwrap_or_else(|e| e.into_inner())) } }
fn write_slot<T>(s: &Shared, die: bool, f: impl FnOnce(&mut RuleContext) -> T) -> T {
    macro_rules! with { ($g:expr) => {{ let mut g = $g; let t = f(&mut g); if die { let _ = catch(move || { let _g = g; fault("client-dies-holding-lock", || String::new()); std::panic::panic_any("client died") }); } t }} }
    match s { Shared::M(m) => with!(m.lock().unwrap_or_else(|e| e.into_inner())), Shared::R(l) => with!(l.write().unwrap_or_else(|e| e.into_inner())) }
}
/// Copies are two steps, each with its own place in the order: (take from slot, put in slot).
fn perform(w: &World, slot: usize, op: &Op, die: bool, done: &mut Vec<Done>) {
    let stamp = || { let n = w.seq.get() + 1; w.seq.set(n); n };
    match op {
        Op::Ask(p, q) => {
            let (seq, ans) = read_slot(&w.slots[slot], |r| (stamp(), catch(|| ask(at(r, p), q, &w.input, &w.typed)).unwrap_or(Ans::Died)));
            done.push(Done { slot, seq, op: op.clone(), ans });
        }
        Op::Edit(p, e) => {
            let seq = write_slot(&w.slots[slot], die, |r| { let n = stamp(); real_edit(at_mut(r, p), e); n });
            done.push(Done { slot, seq, op: op.clone(), ans: Ans::Done });
        }
        Op::Copy(p, to) | Op::Graft(p, to) => {
            let graft = matches!(op, Op::Graft(..));
            let (from, from_path, dest) = if graft { (*to, vec![], slot) } else { (slot, p.clone(), *to) };
            let (s1, copy) = read_slot(&w.slots[from], |r| (stamp(), at(r, &from_path).clone()));
            done.push(Done { slot: from, seq: s1, op: op.clone(), ans: Ans::Nodes(vec![of_rule(&copy)]) });
            sched::point(5);
            let m = of_rule(&copy);
            if graft { let s2 = write_slot(&w.slots[dest], die, |r| { let n = stamp(); at_mut(r, p).children.push(ASTContext::Rule(copy)); n }); done.push(Done { slot: dest, seq: s2, op: Op::Edit(p.clone(), Edit::Push(m)), ans: Ans::Done }); }
            else { let s2 = write_slot(&w.slots[dest], die, |r| { let n = stamp(); *r = copy; n }); done.push(Done { slot: dest, seq: s2, op: Op::Edit(vec![], Edit::Replace(usize::MAX, m)), ans: Ans::Done }); }
        }
    }
}

const INPUT: &str = "ab := 中文 (x | 😀 y)+ ; \n/[a-z]+/ tail ε";
fn span() -> (usize, usize) {
    let b: Vec<usize> = INPUT.char_indices().map(|c| c.0).chain([INPUT.len()]).collect();
    let (x, y) = (b[choose(b.len() as u64) as usize], b[choose(b.len() as u64) as usize]);
    (x.min(y), x.max(y))
}
fn kind(k: u64) -> usize { if chance(6) { pick(&[0usize, 255, 256, 257, 1 << 32, usize::MAX, 23]) } else { choose(k) as usize } }
fn gen_tok(k: u64) -> M { Tok { err: chance(20), ty: kind(k), name: reftree::gen_name(false), text: pick::<&str>(&["a", "", "中", ";", "ε"]).to_string(), span: span() } }
fn gen(depth: u64, k: u64, wide: bool) -> M {
    let n = if depth > 5 { 0 } else if wide && depth == 0 { if chance(10) { range(250, 600) } else { range(20, 90) } } else { choose(5) };
    Rule { index: kind(k.min(9)), name: reftree::gen_name(false), kids: (0..n).map(|_| if chance(if wide { 30 } else { 55 }) { gen(depth + 1 + wide as u64 * 3, k, false) } else { gen_tok(k) }).collect() }
}
/// Very many children of one kind, or one very far down.
fn gen_extreme(k: u64) -> M {
    if chance(50) {
        let main = gen_tok(k);
        let n = range(100, 700);
        return Rule { index: kind(k.min(9)), name: "many".into(), kids: (0..n).map(|i| if chance(4) { gen(4, k, false) } else if let Tok { err, ty, name, span, .. } = &main { Tok { err: *err, ty: *ty, name: name.clone(), text: i.to_string(), span: *span } } else { unreachable!() }).collect() };
    }
    let mut m = if chance(80) { Rule { index: 1, name: "end".into(), kids: vec![gen_tok(k)] } } else { gen(5, k, false) };
    for _ in 0..range(20, 150) {
        let empty = |n: u64| -> Vec<M> { (0..choose(n)).map(|_| Rule { index: 2, name: "empty".into(), kids: vec![] }).collect() };
        let mut kids = empty(3); kids.push(m); kids.extend(empty(3));
        m = Rule { index: kind(k.min(9)), name: "deep".into(), kids };
    }
    m
}
fn gen_any(k: u64) -> M { if chance(50) { gen(4, k, false) } else { gen_tok(k) } }
fn path() -> Vec<u64> { (0..[0, 0, 1, 1, 2, 3][choose(6) as usize]).map(|_| choose(6)).collect() }
fn gen_op(k: u64, slots: u64, wr: u64, typed: &[Vec<Acc>; 2], asked: &[Sel]) -> Op {
    if !asked.is_empty() && chance(50) {
        let s = pick(asked);
        return Op::Ask(if chance(70) { vec![] } else { path() }, match choose(6) { 0 => Q::All(s), 1 => Q::Start, 2 => Q::Stop, 3 => Q::Text, _ => Q::Nth(s, choose(700) as usize) });
    }
    if chance(wr) {
        if chance(18) { return if chance(60) { Op::Copy(path(), choose(slots) as usize) } else { Op::Graft(path(), choose(slots) as usize) }; }
        let i = choose(8) as usize;
        return Op::Edit(path(), match choose(12) { 0 | 1 => Edit::Push(gen_any(k)), 2 => Edit::Insert(i, gen_any(k)), 3 => Edit::Remove(i), 4 => Edit::Replace(i, gen_any(k)), 5 => if chance(30) { Edit::Clear } else { Edit::Truncate(i) }, 6 => Edit::Kind(kind(k.min(9))), 7 => Edit::Name(reftree::gen_name(false)), 8 => Edit::Retype(i, kind(k)), 9 => Edit::Respan(i, span()), 10 => Edit::Retext(i, reftree::gen_text(true)), _ => Edit::Swap(i, choose(8) as usize) });
    }
    let s = || match choose(3) { 0 => Sel::T(kind(k)), 1 => Sel::E(kind(k)), _ => Sel::R(kind(k.min(9))) };
    let g = choose(2) as usize;
    Op::Ask(path(), match choose(16) { 0 => Q::Children, 1 => Q::Count, 2 => Q::Index, 3 | 4 => Q::Nth(s(), if chance(5) { usize::MAX } else if chance(8) { choose(300) as usize } else { choose(5) as usize }), 5 | 6 => Q::All(s()), 7 => Q::Start, 8 => Q::Stop, 9 => Q::FirstT, 10 => Q::LastT, 11 | 12 => Q::Text, _ => Q::Typed(g, choose(typed[g].len() as u64) as usize) })
}

fn run() -> Verdict {
    let typed = [typed_v1(), typed_new()];
    let (slots, clients) = (range(1, 3), range(1, 3) as usize);
    let k = pick(&[4u64, 9, 16, 23]);
    let wide = chance(12);
    let (len, wr, dies) = (range(1, 24), pick(&[40u64, 15, 70]), chance(25));
    let extreme = choose(60) == 0;
    let mut models: Vec<M> = (0..slots).map(|_| if extreme { driver::probe("probe:extreme"); gen_extreme(k) } else { gen(0, k, wide) }).collect();
    let asked: Vec<Sel> = if !extreme { vec![] } else { models.iter().filter_map(|m| match m { Rule { kids, .. } => kids.iter().find_map(|t| match t { Tok { err, ty, .. } => Some(if *err { Sel::E(*ty) } else { Sel::T(*ty) }), Rule { index, .. } => Some(Sel::R(*index)) }), _ => None }).collect() };
    let work: Vec<Vec<(usize, Op, bool)>> = (0..clients).map(|_| (0..choose(len) + 1).map(|_| (choose(slots) as usize, gen_op(k, slots, wr, &typed, &asked), dies && chance(8))).collect()).collect();
    let rw = chance(50);
    note(|| format!("trees {:?}", models));
    let w = World { slots: models.iter().map(|m| { let r = real_rule(m); if rw { Shared::R(RwLock::new(r)) } else { Shared::M(Mutex::new(r)) } }).collect(), input: INPUT.to_string(), typed, seq: std::cell::Cell::new(0) };
    sched::swarm();
    let wr = Carry(&w);
    let outs = par(work.iter().map(|ops| { let wr = Carry(wr.0); Box::new(move || { let wr = wr; let mut done = vec![]; for (slot, op, die) in ops { sched::point(6); perform(wr.0, *slot, op, *die, &mut done); } done }) as Box<dyn FnOnce() -> Vec<Done>> }).collect());
    let mut hist: Vec<Done> = vec![];
    for o in outs { hist.extend(expect("using shared trees", o)?); }
    hist.sort_by_key(|d| d.seq);
    for (n, d) in hist.iter().enumerate() {
        note(|| format!("#{} tree {} {:?} -> {:?}", n, d.slot, d.op, d.ans));
        match &d.op {
            Op::Ask(p, q) => {
                let node = go(&mut models[d.slot], p);
                match expected(node, q, &w.input, &w.typed) {
                    None => driver::probe("probe:unpromised"),
                    Some(want) => {
                        let what = match q { Q::Typed(g, k) => w.typed[*g][*k].0.to_string(), q => format!("{:?}", q) };
                        require!(d.ans == want, "answer", "operation {} of the history, {} of a node, answered {:?} instead of {:?}; the node is {:?}", n, what, d.ans, want, node);
                    }
                }
            }
            Op::Edit(_, Edit::Replace(usize::MAX, m)) => models[d.slot] = m.clone(),
            Op::Edit(p, e) => { driver::probe("probe:edit"); model_edit(go(&mut models[d.slot], p), e) }
            Op::Copy(..) | Op::Graft(..) => {
                let p: &[u64] = match &d.op { Op::Copy(p, _) => p, _ => &[] };
                driver::probe("probe:copy");
                let want = Ans::Nodes(vec![go(&mut models[d.slot], p).clone()]);
                require!(d.ans == want, "copy", "operation {} of the history copied {:?} instead of {:?}", n, d.ans, want);
            }
        }
    }
    for (s, m) in w.slots.into_iter().zip(&models) {
        let r = match s { Shared::M(m) => m.into_inner().unwrap_or_else(|e| e.into_inner()), Shared::R(r) => r.into_inner().unwrap_or_else(|e| e.into_inner()) };
        require!(&of_rule(&r) == m, "final-state", "after the history the tree is {:?} instead of {:?}", of_rule(&r), m);
    }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C16", run, quick_runs: 500_000, thorough_runs: 3_000_000, warmup: 4,
        rule: "seeded histories of edits, copies, grafts and accessor calls by 1-3 clients over 1-3 shared trees behind exclusive or reader/writer locks, preempted at allocations and lock operations, clients dying while holding the lock; every answer checked in lock order against a sequential tree model, trees compared at the end; non-trivial = more than 20 preemption points",
        nontrivial: |c| c.steps > 20,
        real: &["syntaxis::runtime::ast", "typed accessors of syntaxis::tool::v1 and syntaxis::tool::syntaxis", "std Mutex and RwLock over simulated futexes"],
        stub: &["thread scheduler", "entropy source of hash keys"],
        probes: &["probe:edit", "probe:copy", "probe:unpromised", "probe:extreme"],
        assumptions: &["clients share a tree through a lock, as Rust requires for mutable data", "the first/last-terminal accessors are judged only when no empty rule or error node stands at that edge; text only when the edge tokens are in order"],
        setup: || {},
    })
}
