//! C02: FOLLOW sets under every hash key, interleaving and edit history.
#[path = "../glue/gram.rs"] mod gram;
use std::collections::BTreeMap;
use synsim::refgram::{self, Gram, Set};
use synsim::*;
use syntaxis::tool::grammar::Grammar;

fn check(got: &BTreeMap<usize, Set>, g: &Gram, what: &str) -> Verdict {
    let a = g.analyse();
    for (n, s) in &a.follow {
        let Some(t) = got.get(n) else { violation!("follow-missing", "{}: no FOLLOW entry for n{} in {}", what, n, g.show()) };
        require!(t == s, "follow-set", "{}: FOLLOW(n{}) = {:?} but the least solution is {:?} in {}", what, n, t, s, g.show());
    }
    require!(got.len() == a.follow.len(), "follow-extra", "{}: FOLLOW entries for symbols that do not exist in {}", what, g.show());
    Ok(())
}

fn run() -> Verdict {
    let g = refgram::gen();
    note(|| g.show());
    let mode = choose(4);
    sched::swarm();
    match mode {
        0 | 1 => {
            let k = range(1, 3);
            let outs = par((0..k).map(|_| { let g = g.clone(); Box::new(move || { let gr = gram::build(&g); (gram::follows(&gr), gram::follows(&gr)) }) as Box<dyn FnOnce() -> _> }).collect());
            for o in outs { let (a, b) = expect("follow_set", o)?; check(&a, &g, "first call")?; check(&b, &g, "second call")?; }
        }
        2 if is_sync!(Grammar) => {
            let gr = Carry(expect("build", solo(|| gram::build(&g)))?);
            let gr = &gr;
            let k = range(2, 3);
            let outs = par((0..k).map(|i| Box::new(move || { if i % 2 == 1 { let _ = gram::firsts(&gr.0); } gram::follows(&gr.0) }) as Box<dyn FnOnce() -> _>).collect());
            for o in outs { check(&expect("follow_set", o)?, &g, "shared grammar")?; }
            driver::probe("probe:shared-grammar");
        }
        _ => {
            let mut hist = vec![g.clone()];
            let mut edits = vec![];
            for _ in 0..range(1, 3) { let (h, r, a) = refgram::edit(hist.last().unwrap()); note(|| format!("edit: remove {:?} add {:?}", r, a)); edits.push((r, a)); hist.push(h); }
            let g0 = g.clone();
            let o = solo(move || {
                let mut gr = gram::build(&g0);
                let mut v = vec![gram::follows(&gr)];
                for (r, a) in edits {
                    if let Some(r) = r { gr.productions.remove(&gram::production(&r)); }
                    if let Some(a) = a { gr.productions.insert(gram::production(&a)); }
                    v.push(gram::follows(&gr));
                }
                v
            });
            for (i, f) in expect("follow_set", o)?.iter().enumerate() { check(f, &hist[i], "after edits")?; }
            driver::probe("probe:edited-grammar");
        }
    }
    let a = g.analyse();
    if a.follow.values().filter(|s| s.contains(&1)).count() > 2 { driver::probe("probe:end-marker-spreads"); }
    if a.follow.values().any(|s| s.is_empty()) { driver::probe("probe:unreachable-rule"); }
    Ok(())
}

fn main() {
    driver::main(Scenario {
        id: "C02", run, quick_runs: 220_000, thorough_runs: 1_500_000, warmup: 4,
        rule: "seeded random grammars (random, chains, nullable chains, large, recursive), 1-3 clients with their own hash keys, shared or edited grammar objects, seeded preemption; non-trivial = more than 40 preemption points",
        nontrivial: |c| c.steps > 40,
        real: &["syntaxis::tool::grammar (FIRST and FOLLOW computation)", "syntaxis::runtime::vocabulary", "std HashMap/HashSet with simulated keys"],
        stub: &["entropy source of hash keys", "thread scheduler"],
        probes: &["probe:shared-grammar", "probe:edited-grammar", "probe:end-marker-spreads", "probe:unreachable-rule"],
        assumptions: &["rule 0 exists (the start rule)", "every nonterminal used in a production is registered in the vocabulary", "the grammar is sampled, not enumerated"],
        setup: || {},
    })
}
