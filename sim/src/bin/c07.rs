//! C07: loading a tree from a reader is all-or-nothing under any reader behaviour.
#[path = "../glue/tree.rs"] mod tree;
use serde_json::{json, Value};
use std::io::{self, Read};
use synsim::reftree::{self, Tree};
use synsim::*;
use syntaxis::tool::serde_ast;

fn write_json(v: &Value, style: u64, out: &mut String) {
    let sp = |out: &mut String| if style > 0 && chance(30) { *out += pick::<&str>(&[" ", "\n", "\t", "\r\n  "]) };
    match v {
        Value::Array(a) => { out.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { out.push(','); } sp(out); write_json(x, style, out); } sp(out); out.push(']'); }
        Value::Object(o) => {
            out.push('{');
            let mut ks: Vec<&String> = o.keys().collect();
            if style == 2 { for i in (1..ks.len()).rev() { let j = choose(i as u64 + 1) as usize; ks.swap(i, j); } }
            for (i, k) in ks.iter().enumerate() { if i > 0 { out.push(','); } sp(out); *out += &json!(k).to_string(); sp(out); out.push(':'); sp(out); write_json(&o[*k], style, out); }
            out.push('}');
        }
        Value::String(s) if style > 0 => {
            out.push('"');
            for c in s.chars() {
                if c < ' ' || c == '"' || c == '\\' || chance(15) { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { *out += &format!("\\u{:04x}", u); } } else { out.push(c); }
            }
            out.push('"');
        }
        x => *out += &x.to_string(),
    }
}
struct SimReader { data: Vec<u8>, at: usize, err_at: Option<usize>, kind: io::ErrorKind, max: u64, eintr: u64, hit: bool }
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::point(5);
        if buf.is_empty() { return Ok(0); }
        if self.eintr > 0 && chance(self.eintr) { let at = self.at; fault("read-interrupted", || format!("at {}", at)); return Err(io::ErrorKind::Interrupted.into()); }
        if self.err_at == Some(self.at) { self.hit = true; let (at, k) = (self.at, self.kind); fault("read-error", || format!("{:?} at {}", k, at)); return Err(self.kind.into()); }
        let mut k = buf.len().min(self.data.len() - self.at);
        if let Some(e) = self.err_at { if self.at < e { k = k.min(e - self.at); } }
        if k > 1 && self.max > 0 { let m = 1 + choose(self.max) as usize; if m < k { k = m; let at = self.at; fault("short-read", || format!("{} at {}", k, at)); } }
        buf[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

struct Job { data: Vec<u8>, err_at: Option<usize>, kind: io::ErrorKind, max: u64, eintr: u64, file: bool, wrap: bool }
fn gen_job(i: usize) -> Job {
    let huge = choose(400) == 0;
    if huge { driver::probe("probe:huge-document"); }
    let mut t = if huge { reftree::gen_big(4000, true, 12, false) } else { match choose(8) { 0 => reftree::gen(60, true, 12, false), _ => reftree::gen(12, true, 12, false) } };
    if chance(6) { // deep
        let n = range(50, 70);
        for _ in 0..n { t = Tree::rule(1, "deep", vec![t]); }
        driver::probe("probe:deep-tree");
    }
    let mut v = t.json();
    if chance(15) { // text left out
        fn strip(v: &mut Value) { if let Some(a) = v.get_mut("children").and_then(|c| c.as_array_mut()) { for k in a { if chance(40) { if let Some(o) = k.as_object_mut() { o.remove("text"); } } strip(k); } } }
        strip(&mut v);
    }
    if chance(35) { reftree::bend(&mut v); if chance(30) { reftree::bend(&mut v); } }
    let mut s = String::new();
    write_json(&v, choose(3), &mut s);
    if chance(12) { s += pick::<&str>(&[" ", "\n\n", "x", "{}", "]", "\u{0}", ",", " null"]); }
    if chance(3) { s.insert_str(0, pick::<&str>(&["\u{feff}", " ", "\n", "["])); }
    let mut d = s.into_bytes();
    let n = d.len() as u64;
    let dm = if chance(45) { 1 + choose(6) } else { 0 };
    match dm {
        1 => { let p = choose(n) as usize; fault("stream-truncated", || format!("at {} of {}", p, n)); d.truncate(p); }
        2 => { let p = choose(n) as usize; let b = choose(8); fault("byte-flipped", || format!("offset {} bit {}", p, b)); d[p] ^= 1 << b; }
        3 => { let a = choose(n) as usize; let k = 1 + choose(16) as usize; let e = (a + k).min(d.len()); fault("chunk-lost", || format!("{}..{}", a, e)); d.drain(a..e); }
        4 => { let a = choose(n) as usize; let k = 1 + choose(16) as usize; let e = (a + k).min(d.len()); fault("chunk-duplicated", || format!("{}..{}", a, e)); let c = d[a..e].to_vec(); d.splice(e..e, c); }
        5 => { let a = choose(n) as usize; let b = (a + 1 + choose(8) as usize).min(d.len()); let e = (b + 1 + choose(8) as usize).min(d.len()); fault("chunks-reordered", || format!("{}..{}..{}", a, b, e)); d[a..e].rotate_left(b - a); }
        _ => {}
    }
    let err_at = if chance(20) { Some(choose(d.len() as u64 + 1) as usize) } else { None };
    let kind = pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe]);
    let file = err_at.is_none() && chance(15) && d.len() < 1500;
    let _ = i;
    Job { data: d, err_at, kind, max: if huge { [0, 400, 9000][choose(3) as usize] } else { [0, 1, 3, 40][choose(4) as usize] }, eintr: [0, 0, 10, 40][choose(4) as usize], file, wrap: chance(30) }
}
fn judge(what: &str, j: &Job, got: Result<Tree, ()>, failed: bool) -> Verdict {
    let show = || String::from_utf8_lossy(&j.data).chars().take(600).collect::<String>();
    let want = reftree::meaning(&j.data);
    if failed {
        driver::probe("probe:error-reached-the-loader");
        require!(got.is_err(), "error-ignored", "{} returned a tree although reading failed: {}", what, show());
        return Ok(());
    }
    match (got, want) {
        (Ok(t), Some((w, _))) => { require!(t == w, "wrong-tree", "{} gave {} instead of {} from {}", what, t.show(), w.show(), show()); driver::probe("probe:loaded"); }
        (Err(()), Some((_, odd))) => require!(odd, "refused", "{} refused {}", what, show()),
        (Ok(t), None) => violation!("accepted", "{} gave {} from what is not a tree: {}", what, t.show(), show()),
        (Err(()), None) => driver::probe("probe:refused"),
    }
    Ok(())
}
fn load(j: &Job, path: &str, faults: bool) -> (Result<Tree, ()>, bool) {
    if j.file {
        let f = match std::fs::File::open(path) { Ok(f) => f, Err(_) => return (Err(()), true) };
        let r = serde_ast::from_reader(f);
        return (r.map(|t| tree::of_rule(&t)).map_err(|_| ()), false);
    }
    let mut r = SimReader { data: j.data.clone(), at: 0, err_at: if faults { j.err_at } else { None }, kind: j.kind, max: if faults { j.max } else { 0 }, eintr: if faults { j.eintr } else { 0 }, hit: false };
    let res = if j.wrap { serde_ast::from_reader(io::BufReader::with_capacity(16, &mut r)) } else { serde_ast::from_reader(&mut r) };
    (res.map(|t| tree::of_rule(&t)).map_err(|_| ()), r.hit)
}

fn run() -> Verdict {
    let k = range(1, 3) as usize;
    let jobs: Vec<Job> = (0..k).map(gen_job).collect();
    for (i, j) in jobs.iter().enumerate() {
        note(|| format!("stream {}: {}", i, String::from_utf8_lossy(&j.data)));
        if j.file { std::fs::write(format!("in{}.json", i), &j.data).expect("input"); driver::probe("probe:file"); }
    }
    sched::swarm();
    let ff = chance(60);
    if ff { let k = choose(8); let r = &mut sched::ctl().io.rates; r.r_eintr = if k & 1 != 0 { 2 } else { 0 }; r.r_err = if k & 2 != 0 { 1 } else { 0 }; r.open_err = if k & 4 != 0 { 10 } else { 0 }; sched::ctl().io.faults_left = 1; }
    let outs = par(jobs.iter().enumerate().map(|(i, j)| Box::new(move || load(j, &format!("in{}.json", i), true)) as Box<dyn FnOnce() -> _>).collect());
    let io = sched::io_result();
    sched::no_faults();
    for (i, o) in outs.into_iter().enumerate() {
        let (r, hit) = expect("loading a tree", o)?;
        judge("loading from a reader", &jobs[i], r, hit || io.hard[i] > 0)?;
    }
    // faults stop: the same bytes, whole, from the same source and as a string
    for (i, j) in jobs.iter().enumerate() {
        let o = solo(|| load(j, &format!("in{}.json", i), false));
        let (r, _) = expect("loading again", o)?;
        judge("loading again", j, r, false)?;
        if let Ok(s) = std::str::from_utf8(&j.data) {
            let o = solo(|| serde_ast::from_str(s).map(|t| tree::of_rule(&t)).map_err(|_| ()));
            judge("loading from a string", j, expect("loading from a string", o)?, false)?;
        }
    }
    Ok(())
}

fn main() {
    tree::warm();
    driver::main(Scenario {
        id: "C07", run, quick_runs: 120_000, thorough_runs: 1_500_000, warmup: 4,
        rule: "1-3 concurrent loads of seeded tree documents (varied spelling, structurally bent 35%, stream damaged 45%) through simulated readers (short reads, interrupts, errors at any offset) and real files under injected open and read faults, then the same bytes fault-free from reader and string; non-trivial = at least 40 preemption points",
        nontrivial: |c| c.steps >= 40,
        real: &["syntaxis::tool::serde_ast", "serde_json", "std::fs::File (15% of streams)"],
        stub: &["byte stream", "kernel file reads under fault injection", "thread scheduler"],
        probes: &["probe:huge-document", "probe:deep-tree", "probe:error-reached-the-loader", "probe:loaded", "probe:refused", "probe:file"],
        assumptions: &["a document means what serde_json's generic reader says it means (last duplicate key wins, nesting limit 128)", "a token without text carries the placeholder <no text>; a token text that is not a string may be treated as absent or refused"],
        setup: || {},
    })
}
