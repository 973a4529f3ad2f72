//! C11: the symbol table stays a consistent one-to-one registry under any history.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Mutex, RwLock};
use synsim::*;
use syntaxis::runtime::vocabulary::Vocabulary;

/// The registry as a user understands it.
#[derive(Clone)]
struct Model { term: BTreeMap<usize, String>, named: BTreeMap<usize, String>, unnamed: BTreeSet<usize> }
impl Model {
    fn new() -> Model { Model { term: [(0, "_START".to_string()), (1, "_STOP".to_string())].into(), named: BTreeMap::new(), unnamed: BTreeSet::new() } }
}
fn by_name(m: &BTreeMap<usize, String>, n: &str) -> Option<usize> { m.iter().find(|(_, x)| *x == n).map(|(i, _)| *i) }

#[derive(Clone, Debug)]
enum Op { AddT(usize, String), AddN(usize, String), AddU(usize), TId(String), NId(String), TName(usize), NName(usize), IsT(usize), IsN(usize), TDef(String), NDef(String), NDefault(usize), TNameHard(usize), AllT, AllN }
#[derive(Clone, PartialEq, Debug)]
enum Ans { B(bool), Id(Option<usize>), Name(Option<String>), Ids(BTreeSet<usize>), Died }
impl Op { fn writes(&self) -> bool { matches!(self, Op::AddT(..) | Op::AddN(..) | Op::AddU(..)) } }

fn expected(m: &mut Model, o: &Op) -> Ans {
    match o {
        Op::AddT(i, n) => { let ok = !m.term.contains_key(i) && by_name(&m.term, n).is_none(); if ok { m.term.insert(*i, n.clone()); } Ans::B(ok) }
        Op::AddN(i, n) => { let ok = !m.named.contains_key(i) && !m.unnamed.contains(i) && by_name(&m.named, n).is_none(); if ok { m.named.insert(*i, n.clone()); } Ans::B(ok) }
        Op::AddU(i) => { let ok = !m.named.contains_key(i) && !m.unnamed.contains(i); if ok { m.unnamed.insert(*i); } Ans::B(ok) }
        Op::TId(n) => Ans::Id(by_name(&m.term, n)),
        Op::NId(n) => Ans::Id(by_name(&m.named, n)),
        Op::TName(i) => Ans::Name(m.term.get(i).cloned()),
        Op::NName(i) => Ans::Name(m.named.get(i).cloned()),
        Op::IsT(i) => Ans::B(m.term.contains_key(i)),
        Op::IsN(i) => Ans::B(m.named.contains_key(i) || m.unnamed.contains(i)),
        Op::TDef(n) => Ans::B(by_name(&m.term, n).is_some()),
        Op::NDef(n) => Ans::B(by_name(&m.named, n).is_some()),
        Op::NDefault(i) => Ans::Name(Some(m.named.get(i).cloned().unwrap_or_else(|| i.to_string()))),
        Op::TNameHard(i) => match m.term.get(i) { Some(n) => Ans::Name(Some(n.clone())), None => Ans::Died },
        Op::AllT => Ans::Ids(m.term.keys().copied().collect()),
        Op::AllN => Ans::Ids(m.named.keys().chain(&m.unnamed).copied().collect()),
    }
}
fn read(v: &Vocabulary, o: &Op) -> Ans {
    match o {
        Op::TId(n) => Ans::Id(v.get_terminal_id_by_name(n)),
        Op::NId(n) => Ans::Id(v.get_nonterminal_id_by_name(n)),
        Op::TName(i) => Ans::Name(v.get_terminal_name_by_id(*i)),
        Op::NName(i) => Ans::Name(v.get_nonterminal_name_by_id(*i)),
        Op::IsT(i) => Ans::B(v.is_terminal_id(*i)),
        Op::IsN(i) => Ans::B(v.is_nonterminal_id(*i)),
        Op::TDef(n) => Ans::B(v.is_terminal_name_defined(n)),
        Op::NDef(n) => Ans::B(v.is_nonterminal_name_defined(n)),
        Op::NDefault(i) => Ans::Name(Some(v.get_nonterminal_name_with_default(*i))),
        Op::TNameHard(i) => Ans::Name(Some(v.get_terminal_name(*i))),
        Op::AllT => Ans::Ids(v.get_all_terminals().iter().copied().collect()),
        Op::AllN => Ans::Ids(v.get_all_nonterminals().iter().copied().collect()),
        _ => unreachable!(),
    }
}
fn write(v: &mut Vocabulary, o: &Op) -> Ans {
    match o {
        Op::AddT(i, n) => Ans::B(v.add_terminal(*i, n)),
        Op::AddN(i, n) => Ans::B(v.add_named_nonterminal(*i, n)),
        Op::AddU(i) => Ans::B(v.add_unnamed_nonterminal(*i)),
        o => read(v, o),
    }
}
/// A table shared by clients, under an exclusive or a reader/writer lock.
enum Shared { M(Mutex<Vocabulary>), R(RwLock<Vocabulary>) }
/// One operation as a client performed it: what was asked, what came back, and its place in the order of lock acquisitions.
struct Done { table: usize, seq: u64, op: Op, ans: Ans }

fn perform(s: &Shared, seq: &std::cell::Cell<u64>, op: &Op, die: bool) -> (u64, Ans) {
    // the lock may be poisoned by a client that died holding it; the table must still be sound
    let stamp = || { let n = seq.get() + 1; seq.set(n); n };
    match s {
        Shared::M(m) => {
            let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
            let n = stamp();
            if die { let a = catch(|| { let _hold = &mut g; write(&mut *_hold, op) }); let _ = catch(move || { let _g = g; fault("client-dies-holding-lock", || String::new()); std::panic::panic_any("client died") }); return (n, a.unwrap_or(Ans::Died)); }
            (n, catch(|| write(&mut g, op)).unwrap_or(Ans::Died))
        }
        Shared::R(l) => {
            if op.writes() || die {
                let mut g = l.write().unwrap_or_else(|e| e.into_inner());
                let n = stamp();
                let a = catch(|| write(&mut g, op)).unwrap_or(Ans::Died);
                if die { let _ = catch(move || { let _g = g; fault("client-dies-holding-lock", || String::new()); std::panic::panic_any("client died") }); }
                (n, a)
            } else {
                let g = l.read().unwrap_or_else(|e| e.into_inner());
                let n = stamp();
                (n, catch(|| read(&g, op)).unwrap_or(Ans::Died))
            }
        }
    }
}
fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(t) => Some(t), Err(p) => { drop(p); None } } }

const NAMES: &[&str] = &["a", "A", "rule", "RULE", "rule ", "名", "_START", "_STOP", "", "5", "a\u{301}", "á", "expr", "ID", "_start", "0"];
fn gen_op(ids: u64, names: u64, wr: u64) -> Op {
    let id = || { let k = choose(ids); if ids > 100 { k as usize } else { [2, 3, 4, 0, 1, 5, 7, 100, 1 << 33, usize::MAX, 2 + (1 << 32), 255, 256][k as usize % 13] } };
    let name = || { let k = choose(names); if names > 100 { format!("n{}", k) } else if k == 17 { "long".repeat(90) } else if k == 18 { "long".repeat(90) + "!" } else { NAMES[k as usize % NAMES.len()].to_string() } };
    if chance(wr) { match choose(3) { 0 => Op::AddT(id(), name()), 1 => Op::AddN(id(), name()), _ => Op::AddU(id()) } }
    else { match choose(12) { 0 => Op::TId(name()), 1 => Op::NId(name()), 2 => Op::TName(id()), 3 => Op::NName(id()), 4 => Op::IsT(id()), 5 => Op::IsN(id()), 6 => Op::TDef(name()), 7 => Op::NDef(name()), 8 => Op::NDefault(id()), 9 => Op::TNameHard(id()), 10 => Op::AllT, _ => Op::AllN } }
}
/// Every question about every identifier and name that occurred.
fn audit(v: &Vocabulary, m: &Model, ids: &BTreeSet<usize>, names: &BTreeSet<String>) -> Verdict {
    let mut m = m.clone();
    let mut ask: Vec<Op> = vec![Op::AllT, Op::AllN];
    for i in ids { ask.extend([Op::TName(*i), Op::NName(*i), Op::IsT(*i), Op::IsN(*i), Op::NDefault(*i)]); }
    for n in names { ask.extend([Op::TId(n.clone()), Op::NId(n.clone()), Op::TDef(n.clone()), Op::NDef(n.clone())]); }
    for o in ask { let (got, want) = (read(v, &o), expected(&mut m, &o)); require!(got == want, "final-state", "after the history {:?} answers {:?} instead of {:?}", o, got, want); }
    Ok(())
}

fn run() -> Verdict {
    let tables = if chance(30) { 2 } else { 1 };
    let clients = range(1, 4) as usize;
    let big = chance(6);
    let (ids, names) = if big { (range(150, 400), range(150, 400)) } else { (range(3, 13), range(3, 19)) };
    let len = if big { range(60, 300) } else { range(1, 30) };
    let wr = pick(&[50u64, 30, 80]);
    let dies = chance(25);
    let work: Vec<Vec<(usize, Op, bool)>> = (0..clients).map(|_| (0..choose(len) + 1).map(|_| (choose(tables) as usize, gen_op(ids, names, wr), dies && chance(8))).collect()).collect();
    let rw = chance(50);
    if big { driver::probe("probe:large"); }
    sched::swarm();
    let made = expect("creating a symbol table", solo(|| (0..tables).map(|_| Vocabulary::new()).collect::<Vec<_>>()))?;
    let shared: Vec<Shared> = made.into_iter().map(|v| if rw { Shared::R(RwLock::new(v)) } else { Shared::M(Mutex::new(v)) }).collect();
    let seq = Carry(std::cell::Cell::new(0u64));
    let (sh, sq) = (Carry(&shared), Carry(&seq.0));
    let outs = par(work.iter().map(|w| { let (sh, sq) = (Carry(sh.0), Carry(sq.0)); Box::new(move || { let (sh, sq) = (sh, sq); w.iter().map(|(t, op, die)| { sched::point(6); let (seq, ans) = perform(&sh.0[*t], sq.0, op, *die); Done { table: *t, seq, op: op.clone(), ans } }).collect::<Vec<_>>() }) as Box<dyn FnOnce() -> Vec<Done>> }).collect());
    let mut hist: Vec<Done> = vec![];
    for o in outs { hist.extend(expect("using a symbol table", o)?); }
    hist.sort_by_key(|d| d.seq);
    let mut models = vec![Model::new(); tables as usize];
    let (mut idset, mut nameset): (BTreeSet<usize>, BTreeSet<String>) = ([0, 1, 2].into(), ["_START".to_string(), "_STOP".into(), "zz".into()].into());
    for (k, d) in hist.iter().enumerate() {
        note(|| format!("#{} table {} {:?} -> {:?}", k, d.table, d.op, d.ans));
        match &d.op { Op::AddT(i, n) | Op::AddN(i, n) => { idset.insert(*i); nameset.insert(n.clone()); } Op::AddU(i) => { idset.insert(*i); } _ => {} }
        let want = expected(&mut models[d.table], &d.op);
        if want == Ans::B(false) && d.op.writes() { driver::probe("probe:refused"); }
        if want == Ans::Died { driver::probe("probe:unknown-terminal-name"); }
        require!(d.ans == want, "answer", "operation {} of the history, {:?}, answered {:?} instead of {:?}", k, d.op, d.ans, want);
    }
    for (t, s) in shared.into_iter().enumerate() {
        let v = match s { Shared::M(m) => m.into_inner().unwrap_or_else(|e| e.into_inner()), Shared::R(r) => r.into_inner().unwrap_or_else(|e| e.into_inner()) };
        audit(&v, &models[t], &idset, &nameset)?;
    }
    Ok(())
}

fn main() {
    driver::main(Scenario {
        id: "C11", run, quick_runs: 400_000, thorough_runs: 4_000_000, warmup: 4,
        rule: "seeded histories of registrations and lookups by 1-4 clients over 1-2 symbol tables behind an exclusive or reader/writer lock, preempted at allocations and lock operations, clients dying while holding the lock; every answer checked in lock order against a sequential registry, full audit at the end; non-trivial = more than 20 preemption points",
        nontrivial: |c| c.steps > 20,
        real: &["syntaxis::runtime::vocabulary", "std Mutex and RwLock over simulated futexes"],
        stub: &["thread scheduler", "entropy source of hash keys"],
        probes: &["probe:large", "probe:refused", "probe:unknown-terminal-name"],
        assumptions: &["clients share a table through a lock, as Rust requires for a type with mutating methods", "asking for the name of an unregistered terminal through the infallible accessor fails loudly"],
        setup: || {},
    })
}
