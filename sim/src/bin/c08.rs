//! C08: drawing writes the complete faithful document or fails loudly.
#[path = "../glue/tree.rs"] mod tree;
#[path = "../glue/draw.rs"] mod draw;
use synsim::reftree::{self, Tree};
use synsim::*;
use syntaxis::tool::gui::ast_drawer::ASTDrawer;

struct Job { t: Tree, name: String, path: String, old: Option<Vec<u8>> }

fn faults() {
    let k = 1 + choose(31);
    let c = sched::ctl();
    let r = &mut c.io.rates;
    if k & 1 != 0 { r.w_short = 40; r.r_short = 15; }
    if k & 2 != 0 { r.w_eintr = 25; r.r_eintr = 10; }
    if k & 4 != 0 { r.w_err = 20; r.r_err = 4; }
    if k & 8 != 0 { r.w_nospc = 25; }
    if k & 16 != 0 { r.open_err = 8; }
    if chance(25) { sched::ctl().io.rates.crash = 12; }
    sched::ctl().io.faults_left = range(1, 3);
}

/// The k-th node gets another name of the same length.
fn rename(t: &mut Tree, k: &mut u64) {
    let other = |s: &mut String| { let c: Vec<char> = s.chars().collect(); if let Some(i) = c.iter().position(|x| x.is_ascii_alphanumeric()) { *s = c.iter().enumerate().map(|(n, x)| if n == i { if *x == 'q' { 'w' } else { 'q' } } else { *x }).collect(); } };
    if *k == 0 { match t { Tree::Rule { name, .. } | Tree::Tok { name, .. } | Tree::Err { name, .. } => other(name) } *k = u64::MAX; return; }
    *k -= 1;
    if let Tree::Rule { kids, .. } = t { for c in kids { rename(c, k); if *k == u64::MAX { return; } } }
}

fn run() -> Verdict {
    let n = range(1, 3) as usize;
    let jobs: Vec<Job> = (0..n).map(|i| {
        let huge = choose(200) == 0;
        if huge { driver::probe("probe:huge-page"); }
        let t = if huge { reftree::gen_big(3000, true, 12, true) } else { reftree::gen(if chance(10) { 120 } else { 14 }, !chance(20), 12, true) };
        let mut t = t;
        if choose(60) == 0 { for k in 0..range(60, 900) { t = Tree::rule((k % 10) as usize, "deep", if k % 7 == 3 { vec![Tree::tok(2, "ID", "x"), t, Tree::tok(2, "ID", "y")] } else { vec![t] }); } driver::probe("probe:deep-page"); }
        let name = pick::<&str>(&["syntaxis", "g", "文法", "a-b.c", "My Grammar"]).to_string();
        let old = match choose(4) { 0 => None, 1 => Some(b"short".to_vec()), 2 => Some(vec![b'x'; 60_000]), _ => Some("<script>const ast = { name:`old`,id:`0`,children:[]};</script>".repeat(40).into_bytes()) };
        Job { t, name, path: draw::place(&format!("out{}", i)), old }
    }).collect();
    for j in &jobs {
        match &j.old { Some(o) => std::fs::write(&j.path, o).expect("old"), None => { let _ = std::fs::remove_file(&j.path); } }
        note(|| format!("{} <- {} (before: {:?} bytes)", j.path, j.t.show(), j.old.as_ref().map(|o| o.len())));
    }
    sched::swarm();
    let faulty = chance(75);
    if faulty { faults(); }
    // one drawer per client, or one shared by all
    let shared = chance(30) && is_sync!(ASTDrawer);
    let drawer = if shared {
        let keep = sched::ctl().io.rates.clone(); let left = sched::ctl().io.faults_left;
        sched::no_faults();
        let d = expect("creating a drawer", solo(|| Carry(ASTDrawer::new())))?;
        sched::ctl().io.rates = keep; sched::ctl().io.faults_left = left;
        driver::probe("probe:shared-drawer");
        Some(d)
    } else { None };
    let dr = drawer.as_ref();
    let outs = par(jobs.iter().map(|j| Box::new(move || {
        let r = tree::to_rule(&j.t);
        match dr { Some(d) => d.0.draw(&r, &j.name, &j.path), None => ASTDrawer::new().draw(&r, &j.name, &j.path) }
    }) as Box<dyn FnOnce() -> ()>).collect());
    let io = sched::io_result();
    let mut first: Vec<Option<Vec<u8>>> = vec![];
    for (i, o) in outs.into_iter().enumerate() {
        let j = &jobs[i];
        match o {
            Outcome::Done(()) => {
                let d = draw::require_doc(&j.path, &j.t, &j.name, if io.hard[i] > 0 { "drawing returned although an operation failed" } else { "drawing returned" })?;
                if io.hard[i] > 0 { driver::probe("probe:error-survived"); }
                if io.soft[i] > 0 { driver::probe("probe:soft-faults-survived"); }
                first.push(Some(d));
            }
            Outcome::Panicked(m) => {
                require!(io.hard[i] > 0, "panic", "drawing {} failed without an injected error: {}", j.t.show(), m);
                let touched = io.opened[i].iter().any(|p| p.ends_with(draw::base(&j.path)));
                if !touched {
                    let now = std::fs::read(&j.path).ok();
                    require!(now == j.old, "old-file-lost", "drawing failed before opening its output, yet the old file changed");
                    driver::probe("probe:failed-before-open");
                } else { driver::probe("probe:failed-after-open"); }
                if io.crashed[i] { driver::probe("probe:crash"); }
                first.push(None);
            }
        }
    }
    // faults stop (or the process restarts): drawing again gives the whole document
    sched::no_faults();
    let again = chance(50) || faulty;
    if again {
        let outs = par(jobs.iter().map(|j| Box::new(move || { let r = tree::to_rule(&j.t); match dr { Some(d) => d.0.draw(&r, &j.name, &j.path), None => ASTDrawer::new().draw(&r, &j.name, &j.path) } }) as Box<dyn FnOnce() -> ()>).collect());
        for (i, o) in outs.into_iter().enumerate() {
            let j = &jobs[i];
            expect("drawing again", o)?;
            let d = draw::require_doc(&j.path, &j.t, &j.name, "drawing again returned")?;
            if let Some(f) = &first[i] { require!(*f == d, "document-differs", "the same tree drawn twice gave different documents ({} and {} bytes)", f.len(), d.len()); }
        }
    }
    // another, smaller tree over the same file
    if chance(40) {
        let j = &jobs[0];
        // a small one, or one that differs in a single name and is just as long
        let twin = chance(50);
        let (mut t, name) = if twin { (j.t.clone(), j.name.as_str()) } else { (reftree::gen(3, false, 3, false), "small") };
        if twin { let mut k = choose(j.t.count() as u64); rename(&mut t, &mut k); }
        let o = solo(|| { let r = tree::to_rule(&t); match dr { Some(d) => d.0.draw(&r, name, &j.path), None => ASTDrawer::new().draw(&r, name, &j.path) } });
        expect("drawing a second tree", o)?;
        draw::require_doc(&j.path, &t, name, "drawing a second tree over the first")?;
        driver::probe(if twin { "probe:redrawn-twin" } else { "probe:redrawn-smaller" });
    }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C08", run, quick_runs: 16_000, thorough_runs: 300_000, warmup: 3,
        rule: "1-3 concurrent drawings of seeded trees (texts with script, template and quoting metacharacters) into files with earlier content, under short/interrupted/failing/full-disk writes, failing opens and template reads and crashes inside file operations, then drawn again fault-free and over each other; non-trivial = more than 200 preemption points",
        nontrivial: |c| c.steps > 200,
        real: &["syntaxis::tool::gui::ast_drawer", "tera with the repository's page template", "std::fs", "a real scratch directory"],
        stub: &["kernel file operations under fault injection", "thread scheduler", "browser (a reader of the page's script element and tree literal)"],
        probes: &["probe:huge-page", "probe:deep-page", "probe:shared-drawer", "probe:soft-faults-survived", "probe:failed-before-open", "probe:failed-after-open", "probe:crash", "probe:redrawn-smaller", "probe:redrawn-twin"],
        assumptions: &["the template's own bytes are read undamaged or with an error", "a failed or crashed drawing may leave a partial file once it has opened it"],
        setup: draw::setup,
    })
}
