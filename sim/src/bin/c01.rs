//! C01: FIRST sets under every hash key, interleaving and edit history.
#[path = "../glue/gram.rs"] mod gram;
use synsim::refgram::{self, Gram};
use synsim::*;
use syntaxis::tool::grammar::Grammar;

fn check(got: &gram::Firsts, g: &Gram, what: &str) -> Verdict {
    let a = g.analyse();
    let (nts, prods) = got;
    for (n, s) in &a.first {
        let Some((e, t)) = nts.get(n) else { violation!("first-missing", "{}: no FIRST entry for n{} in {}", what, n, g.show()) };
        require!(*e == a.nullable.contains(n), "first-nullable", "{}: nullable(n{}) reported {} but is {} in {}", what, n, e, !e, g.show());
        require!(t == s, "first-set", "{}: FIRST(n{}) = {:?} but the least solution is {:?} in {}", what, n, t, s, g.show());
    }
    require!(nts.len() == a.first.len(), "first-extra", "{}: FIRST entries for symbols that do not exist: {:?} in {}", what, nts.keys(), g.show());
    for (p, v) in &a.pfirst {
        let Some(x) = prods.get(p) else { violation!("pfirst-missing", "{}: no FIRST entry for production {:?} in {}", what, p, g.show()) };
        require!(x == v, "pfirst", "{}: FIRST of production {:?} = {:?} but should be {:?} in {}", what, p, x, v, g.show());
    }
    require!(prods.len() == a.pfirst.len(), "pfirst-extra", "{}: FIRST entries for productions that do not exist in {}", what, g.show());
    Ok(())
}

fn run() -> Verdict {
    let g = refgram::gen();
    note(|| g.show());
    let mode = choose(4);
    sched::swarm();
    let shared_ok = is_sync!(Grammar);
    match mode {
        0 | 1 => {
            // own grammar objects, different hash keys, several clients
            let k = range(1, 3);
            let outs = par((0..k).map(|_| { let g = g.clone(); Box::new(move || { let gr = gram::build(&g); (gram::firsts(&gr), gram::firsts(&gr)) }) as Box<dyn FnOnce() -> _> }).collect());
            for o in outs { let (a, b) = expect("first_set", o)?; check(&a, &g, "first call")?; check(&b, &g, "second call")?; }
        }
        2 if shared_ok => {
            // several clients analyse one grammar object at the same time
            let gr = Carry(expect("build", solo(|| gram::build(&g)))?);
            let gr = &gr;
            let k = range(2, 3);
            let outs = par((0..k).map(|i| Box::new(move || { if i % 2 == 1 { let _ = gram::follows(&gr.0); } gram::firsts(&gr.0) }) as Box<dyn FnOnce() -> _>).collect());
            for o in outs { let a = expect("first_set", o)?; check(&a, &g, "shared grammar")?; }
            driver::probe("probe:shared-grammar");
        }
        _ => {
            // analyse, edit the grammar, analyse again
            let mut hist = vec![g.clone()];
            let mut edits = vec![];
            for _ in 0..range(1, 3) { let (h, r, a) = refgram::edit(hist.last().unwrap()); note(|| format!("edit: remove {:?} add {:?}", r, a)); edits.push((r, a)); hist.push(h); }
            let g0 = g.clone();
            let o = solo(move || {
                let mut gr = gram::build(&g0);
                let mut v = vec![gram::firsts(&gr)];
                for (r, a) in edits {
                    if let Some(r) = r { gr.productions.remove(&gram::production(&r)); }
                    if let Some(a) = a { gr.productions.insert(gram::production(&a)); }
                    v.push(gram::firsts(&gr));
                }
                v
            });
            for (i, f) in expect("first_set", o)?.iter().enumerate() { check(f, &hist[i], "after edits")?; }
            driver::probe("probe:edited-grammar");
        }
    }
    if g.analyse().nullable.len() > 2 { driver::probe("probe:several-nullable"); }
    if g.nts.len() > 8 { driver::probe("probe:large-grammar"); }
    Ok(())
}

fn main() {
    driver::main(Scenario {
        id: "C01", run, quick_runs: 220_000, thorough_runs: 1_500_000, warmup: 4,
        rule: "seeded random grammars (random, chains, nullable chains, large, recursive), 1-3 clients with their own hash keys, shared or edited grammar objects, seeded preemption; non-trivial = at least one nonterminal with at least two productions worth of work (more than 40 preemption points)",
        nontrivial: |c| c.steps > 40,
        real: &["syntaxis::tool::grammar (FIRST computation)", "syntaxis::runtime::vocabulary", "std HashMap/HashSet with simulated keys"],
        stub: &["entropy source of hash keys", "thread scheduler"],
        probes: &["probe:shared-grammar", "probe:edited-grammar", "probe:several-nullable", "probe:large-grammar"],
        assumptions: &["every nonterminal used in a production is registered in the vocabulary", "the grammar is sampled, not enumerated"],
        setup: || {},
    })
}
