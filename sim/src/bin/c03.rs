//! C03: the prediction table, its diagnostics, and failing standard output.
#[path = "../glue/gram.rs"] mod gram;
use synsim::refgram::{self, Gram};
use synsim::*;

fn check(got: &gram::Table, g: &Gram) -> Verdict {
    let a = g.analyse();
    let cells = g.cells(&a);
    for (k, ps) in &cells {
        let Some(p) = got.get(k) else { violation!("table-missing", "no entry for (n{}, t{}) although {:?} applies; {}", k.0, k.1, ps.keys().next().unwrap(), g.show()) };
        require!(ps.contains_key(p), "table-wrong", "entry for (n{}, t{}) is {:?}, applicable are {:?}; {}", k.0, k.1, p, ps.keys(), g.show());
    }
    for k in got.keys() { require!(cells.contains_key(k), "table-extra", "entry for (n{}, t{}) although no production applies; {}", k.0, k.1, g.show()); }
    Ok(())
}

fn run() -> Verdict {
    let g = refgram::gen();
    note(|| g.show());
    sched::swarm();
    let a = g.analyse();
    let cells = g.cells(&a);
    let real_conflict = cells.values().any(|p| p.len() > 1);
    let single = cells.values().all(|p| p.len() == 1 && p.values().all(|w| *w == 1));
    if real_conflict { driver::probe("probe:conflict"); } else { driver::probe("probe:no-conflict"); }
    let faulty = chance(40);
    if faulty { sched::stdout_faults(); }
    let k = range(1, 3) as usize;
    let outs = par((0..k).map(|_| { let g = g.clone(); Box::new(move || { let gr = gram::build(&g); gram::table(&gr) }) as Box<dyn FnOnce() -> _> }).collect());
    let io = sched::io_result();
    for (i, o) in outs.into_iter().enumerate() {
        match o {
            Outcome::Panicked(m) => {
                require!(io.hard[i] > 0, "table-panic", "building the table failed without an output error: {}; {}", m, g.show());
                driver::probe("probe:failed-loudly");
            }
            Outcome::Done(t) => {
                check(&t, &g)?;
                if io.hard[i] == 0 {
                    let said = !io.out[i].is_empty();
                    require!(said || !real_conflict, "conflict-silent", "a conflicting grammar produced no diagnostic; {}", g.show());
                    require!(!said || !single, "diagnostic-spurious", "a conflict-free grammar produced a diagnostic; {}", g.show());
                    if said { driver::probe("probe:diagnostic"); }
                }
            }
        }
    }
    if faulty {
        // faults stop: the same grammar builds
        sched::no_faults();
        let o = solo(|| gram::table(&gram::build(&g)));
        let t = expect("table after output recovered", o)?;
        check(&t, &g)?;
        let io = sched::io_result();
        require!(!io.out[0].is_empty() || !real_conflict, "conflict-silent", "after a failed attempt a conflicting grammar produced no diagnostic; {}", g.show());
    }
    Ok(())
}

fn main() {
    driver::main(Scenario {
        id: "C03", run, quick_runs: 220_000, thorough_runs: 1_500_000, warmup: 4,
        rule: "seeded random grammars, 1-3 clients with their own hash keys and preemption, with and without faults on standard output, then a fault-free rebuild; non-trivial = more than 60 preemption points",
        nontrivial: |c| c.steps > 60,
        real: &["syntaxis::tool::grammar (FIRST, FOLLOW, table)", "std stdout line buffering"],
        stub: &["standard output device", "entropy source of hash keys", "thread scheduler"],
        probes: &["probe:conflict", "probe:no-conflict", "probe:diagnostic", "probe:failed-loudly"],
        assumptions: &["rule 0 exists (the start rule)", "a production that predicts the same cell twice (by FIRST and by FOLLOW) may or may not be reported"],
        setup: || {},
    })
}
