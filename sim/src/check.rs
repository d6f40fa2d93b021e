//! The driver: forks worker processes over a range of seeds, attributes crashes and hangs to the seed
//! that caused them, minimises the first violation, writes the replay file and the evidence file.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use crate::json::{self, J};
use crate::rng::mix;
use crate::scen::{self, Input, Outcome, Scenario};
use crate::prof;
use crate::real::FAULT_NAMES;

extern "C" { fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32; }
pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); setrlimit(4, &[0, 0]); } }

/// every seed of a check is derived from VERIF_SEED and its index
pub fn seed_of(prop: &str, base: u64, i: u64) -> u64 { mix(mix(base ^ 0xC0FD_4E55) ^ crate::rng::hash_str(prop) ^ mix(i)) >> 16 }

const HANG: u64 = 40;

/// Runs one scenario in this process; a panic is a violation.
pub fn run_one(sc: &Scenario, verbose: bool) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::run(sc, verbose))) {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            let at = LAST_PANIC.with(|l| l.borrow().clone());
            Outcome { violation: Some(format!("the process panicked: {} ({})", m, at)), ..Outcome::default() }
        }
    }
}
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn quiet_panics() { std::panic::set_hook(Box::new(|p| { let t = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); LAST_PANIC.with(|l| *l.borrow_mut() = t) })); }

pub fn worker(prop: &str, base: u64, first: u64, stride: u64, end: u64) {
    quiet_panics();
    limit_memory(3500 << 20);
    let out = std::io::stdout();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fresh: Vec<u64> = vec![];
    let mut i = first;
    while i < end {
        let seed = seed_of(prop, base, i);
        writeln!(out.lock(), "S {}", i).unwrap();
        let Some(sc) = prof::scenario(prop, seed) else { writeln!(out.lock(), "E no profile").unwrap(); return };
        let o = run_one(&sc, false);
        let mut l = format!("D {} {} {} {} {} {} {} {} ", i, o.units, o.errors, o.rejected, o.exits, o.steps, o.calls, o.trace_hash);
        l += &o.faults.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(",");
        l.push(' ');
        l += &sc.mode; l.push(' ');
        l += &o.features.iter().cloned().collect::<Vec<_>>().join(",");
        writeln!(out.lock(), "{}", l).unwrap();
        for (k, n) in &o.kinds { writeln!(out.lock(), "K {} {}", n, k).unwrap() }
        if let Some(a) = o.abort { writeln!(out.lock(), "A {} {}", i, a.replace('\n', " ")).unwrap() }
        if let Some(v) = o.violation { writeln!(out.lock(), "V {} {}", i, json::s(&short(&v)).line()).unwrap() }
        if hashes.insert(o.trace_hash) { fresh.push(o.trace_hash) }
        i += stride;
    }
    writeln!(out.lock(), "T").unwrap();
}

#[derive(Default)]
pub struct Stats { pub runs: u64, pub units: u64, pub errors: u64, pub rejected: u64, pub exits: u64, pub steps: u64, pub calls: u64, pub faults: [u64; 8], pub hashes: HashSet<u64>, pub trivial: u64, pub features: BTreeMap<String, u64>, pub modes: BTreeMap<String, u64>, pub aborts: BTreeMap<String, u64>, pub kinds: BTreeMap<String, u64>, pub violations: Vec<(u64, String)> }

enum Msg { Line(usize, String), Gone(usize) }
struct W { child: Child, cur: Option<u64>, last: Instant, next: u64, done: bool }

pub fn campaign(prop: &str, base: u64, from: u64, n: u64, workers: usize, deadline: Instant, max_viol: usize) -> Stats {
    let mut st = Stats::default();
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<Msg>();
    let end = from + n;
    let stride = workers as u64;
    let spawn = |k: usize, first: u64, tx: mpsc::Sender<Msg>| -> W {
        let mut child = Command::new(&exe).args(["worker", prop, &base.to_string(), &first.to_string(), &stride.to_string(), &end.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker");
        let so = child.stdout.take().unwrap();
        std::thread::spawn(move || { for l in BufReader::new(so).lines() { match l { Ok(l) => { if tx.send(Msg::Line(k, l)).is_err() { return } } Err(_) => break } } let _ = tx.send(Msg::Gone(k)); });
        W { child, cur: None, last: Instant::now(), next: first, done: false }
    };
    let mut ws: Vec<W> = (0..workers).map(|k| spawn(k, from + k as u64, tx.clone())).collect();
    let mut live = workers;
    while live > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(k, l)) => {
                ws[k].last = Instant::now();
                let mut p = l.splitn(2, ' ');
                match p.next().unwrap() {
                    "S" => { let i: u64 = p.next().unwrap().parse().unwrap(); ws[k].cur = Some(i); ws[k].next = i + stride }
                    "D" => {
                        let f: Vec<&str> = p.next().unwrap().split(' ').collect();
                        let g = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                        st.runs += 1; st.units += g(1); st.errors += g(2); st.rejected += g(3); st.exits += g(4); st.steps += g(5); st.calls += g(6);
                        if g(5) + g(6) < 3 { st.trivial += 1 } else { st.hashes.insert(g(7)); }
                        for (j, x) in f[8].split(',').enumerate() { st.faults[j] += x.parse::<u64>().unwrap_or(0) }
                        *st.modes.entry(f[9].into()).or_default() += 1;
                        for x in f[10].split(',') { if !x.is_empty() { *st.features.entry(x.into()).or_default() += 1 } }
                        ws[k].cur = None;
                    }
                    "K" => { let mut q = p.next().unwrap().splitn(2, ' '); let n: u64 = q.next().unwrap().parse().unwrap(); *st.kinds.entry(q.next().unwrap_or("").to_string()).or_default() += n }
                    "A" => { let t = p.next().unwrap().splitn(2, ' ').nth(1).unwrap_or("").split(" at line").next().unwrap().to_string(); *st.aborts.entry(t).or_default() += 1 }
                    "V" => { let mut q = p.next().unwrap().splitn(2, ' '); let i: u64 = q.next().unwrap().parse().unwrap(); st.violations.push((i, J::parse(q.next().unwrap()).unwrap().str())) }
                    "E" => { st.violations.push((0, format!("worker: {}", l))) }
                    "T" => ws[k].done = true,
                    _ => {}
                }
            }
            Ok(Msg::Gone(k)) => {
                let status = ws[k].child.wait().ok();
                if ws[k].done { live -= 1; continue }
                if status.and_then(|s| s.code()) == Some(77) { *st.aborts.entry("a single request for more memory than any machine has".into()).or_default() += 1; st.runs += 1; ws[k].cur = None }
                if let Some(i) = ws[k].cur { if Instant::now() < deadline { st.violations.push((i, format!("the process died: {}", status.map(|s| s.to_string()).unwrap_or_default()))); st.runs += 1 } }
                if Instant::now() < deadline && ws[k].next < end && st.violations.len() < max_viol { let nx = ws[k].next; ws[k] = spawn(k, nx, tx.clone()) } else { live -= 1 }
            }
            Err(_) => {}
        }
        let now = Instant::now();
        for w in ws.iter_mut() {
            if w.done { continue }
            if now > deadline || st.violations.len() >= max_viol { w.cur = None; w.next = end; let _ = w.child.kill(); }
            else if now - w.last > Duration::from_secs(HANG) { if let Some(i) = w.cur.take() { st.violations.push((i, format!("no progress for {} s", HANG))); st.runs += 1; let _ = w.child.kill(); } }
        }
    }
    st
}

/// Runs a scenario in a process of its own: the violation, if there is one.
pub fn isolated(sc: &Scenario, secs: u64) -> Option<String> { isolated_as(sc, secs, false) }
fn isolated_as(sc: &Scenario, secs: u64, base: bool) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    if base { c.env("SIM_BASE", "1"); } else { c.env_remove("SIM_BASE"); }
    let mut c = c.args(["one"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let t = sc.to_json().text();
    let mut si = c.stdin.take().unwrap();
    let wr = std::thread::spawn(move || { let _ = si.write_all(t.as_bytes()); });
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut std::io::Read::take(&mut so, 1 << 20), &mut s); s });
    let t0 = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = c.try_wait() { break Some(s) }
        if t0.elapsed() > Duration::from_secs(secs) { let _ = c.kill(); let _ = c.wait(); break None }
        std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 20 { 300 } else { 3000 }));
    };
    let _ = wr.join(); let s = rd.join().unwrap_or_default();
    match status {
        None => Some(format!("no progress for {} s", secs)),
        Some(st) if st.code() == Some(0) => None,
        Some(st) if st.code() == Some(1) => Some(J::parse(s.trim()).map(|j| j.str()).unwrap_or(s)),
        Some(st) if st.code() == Some(2) || st.code() == Some(77) => None,
        Some(st) => Some(format!("the process died: {}", st)),
    }
}
/// beginning and end of a long text
pub fn short(v: &str) -> String { if v.len() < 8000 { return v.into() } let c: Vec<char> = v.chars().collect(); if c.len() < 8000 { return v.into() } c[..3000].iter().collect::<String>() + " ..... " + &c[c.len() - 4000..].iter().collect::<String>() }
pub fn one() {
    quiet_panics(); limit_memory(3500 << 20);
    let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let sc = Scenario::from_json(&J::parse(&s).unwrap());
    let o = run_one(&sc, false);
    if let Some(v) = o.violation { println!("{}", json::s(&short(&v)).line()); std::process::exit(1) }
    std::process::exit(if o.abort.is_some() { 2 } else { 0 })
}

/// what sort of violation it is; minimising keeps to the same sort
pub fn class(v: &str) -> String {
    for (p, c) in [("the process panicked", "panic"), ("the process died", "died"), ("no progress", "hang"), ("an effect before the input was complete", "early"), ("no continuation prompt", "prompt"), ("still asking", "asking"),
        ("wrong location", "location"), ("wrong error message", "message"), ("wrong call stack", "stack"), ("source line is not quoted", "quote"), ("expected a compile error report", "not rejected"), ("exit did not end", "exit")] { if v.contains(p) { return c.into() } }
    if let Some(t) = v.strip_prefix("S2: ") {
        // the first clause, without what is quoted and counted
        let (mut c, mut q, mut esc) = (String::new(), false, false);
        for x in t.chars() { if esc { esc = false } else if q && x == '\\' { esc = true } else if x == '"' { q = !q } else if !q && x == ';' { break } else if !q && !x.is_ascii_digit() { c.push(x) } }
        return c.chars().take(70).collect()
    }
    // events that differ: what the real system reported instead is part of the class
    let act = v.rsplit("but got [").next().unwrap_or("");
    match act.split("out \"").skip(1).find(|o| o.contains("  at: line ")) {
        Some(o) => format!("reported {}", o.split(|c: char| c == ':' || c == '\'' || c == '\\' || c.is_ascii_digit()).next().unwrap_or("")),
        None => "events".into(),
    }
}

/// Removes parts of the scenario as long as the same kind of violation remains.
pub fn shrink(sc: &Scenario, v: &str, budget: Duration) -> (Scenario, String) {
    let t0 = Instant::now();
    let k = class(v);
    let secs = if k == "hang" { 4 } else { 20 };
    let mut best = sc.clone(); let mut why = v.to_string();
    let test = |c: &Scenario| -> Option<String> { isolated(c, secs).filter(|x| class(x) == k) };
    let late = |t0: Instant| t0.elapsed() > budget;
    loop {
        let before = best.to_json().line().len();
        // whole inputs
        let mut size = best.inputs.len().max(1);
        while size > 0 && !late(t0) {
            let mut at = best.inputs.len();
            while at > 0 && !late(t0) {
                let lo = at.saturating_sub(size);
                let mut c = best.clone(); c.inputs.drain(lo..at);
                if !c.inputs.is_empty() && (at - lo < best.inputs.len()) { if let Some(x) = test(&c) { best = c; why = x } }
                at = lo.min(best.inputs.len());
            }
            size /= 2;
        }
        // parts of an input
        for i in (0..best.inputs.len()).rev() {
            // a rejected text stays as it is: nobody knows whether a part of it is to be rejected too
            if best.inputs[i].kind == "bad" { continue }
            let text = best.inputs[i].lines.join("\n");
            let Ok(toks) = crate::lang::lex(&text) else { continue };
            let ch: Vec<char> = text.chars().collect();
            let mut spans: Vec<(usize, usize)> = vec![]; let mut p = 0;
            for t in &toks { spans.push((p, t.end)); p = t.end }
            let mut parts: Vec<String> = spans.iter().map(|(a, b)| ch[*a..*b].iter().collect()).collect();
            let mut size = parts.len() / 2;
            while size > 0 && !late(t0) {
                let mut at = parts.len();
                while at > 0 && !late(t0) {
                    let lo = at.saturating_sub(size);
                    let mut q = parts.clone(); q.drain(lo..at);
                    let t = q.concat();
                    if !t.trim().is_empty() {
                        let mut c = best.clone(); c.inputs[i] = Input { kind: c.inputs[i].kind.clone(), lines: t.split('\n').map(|s| s.to_string()).collect() };
                        if let Some(x) = test(&c) { best = c; why = x; parts = q }
                    }
                    at = lo.min(parts.len());
                }
                size /= 2;
            }
        }
        // faults
        for i in (0..best.plan.fail.len()).rev() { let mut c = best.clone(); c.plan.fail.remove(i); if let Some(x) = test(&c) { best = c; why = x } }
        let simpler: [fn(&mut Scenario); 5] = [|c| c.write_seed = 0, |c| c.read_seed = 0, |c| c.write_limit = None, |c| c.read_fail = None, |c| c.stdin.clear()];
        if best.proc.is_some() {
            let parts: [(fn(&crate::proc::Proc) -> usize, fn(&mut crate::proc::Proc, usize)); 8] = [(|p| p.faults.len(), |p, i| { p.faults.remove(i); }), (|p| p.env.len(), |p, i| { p.env.remove(i); }), (|p| p.args.len(), |p, i| { p.args.remove(i); }), (|p| p.opts.len(), |p, i| { p.opts.remove(i); }), (|p| p.files.len(), |p, i| { p.files.remove(i); }), (|p| p.outcomes.len(), |p, i| { p.outcomes.remove(i); }), (|p| p.links.len(), |p, i| { p.links.remove(i); }), (|p| p.libs.len(), |p, i| { p.libs.remove(i); })];
            for (len, cut) in parts { for i in (0..len(best.proc.as_ref().unwrap())).rev() { if late(t0) { break } let mut c = best.clone(); cut(c.proc.as_mut().unwrap(), i); if let Some(x) = test(&c) { best = c; why = x } } }
            let plain: [fn(&mut crate::proc::Proc); 8] = [|p| p.crash = None, |p| p.err_seed = 0, |p| p.fs_seed = 0, |p| p.out_errno = 5, |p| p.in_errno = 5, |p| p.stdin.clear(), |p| { let n = p.stdin.len(); p.stdin.drain(..n / 2); }, |p| { let n = p.stdin.len(); p.stdin.truncate(n / 2); }];
            for f in plain { let mut c = best.clone(); f(c.proc.as_mut().unwrap()); if c.to_json().line() != best.to_json().line() { if let Some(x) = test(&c) { best = c; why = x } } }
        }
        for f in simpler { let mut c = best.clone(); f(&mut c); if c.to_json().line() != best.to_json().line() { if let Some(x) = test(&c) { best = c; why = x } } }
        if late(t0) || best.to_json().line().len() >= before { break }
    }
    (best, why)
}

pub fn env_u64(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = if std::env::args().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { "thorough" } else { "quick" };
    let base = env_u64("VERIF_SEED", 1);
    let (quick, thorough) = prof::runs(prop);
    let n = env_u64("SIM_RUNS", if tier == "quick" { quick } else { thorough });
    let limit = env_u64("SIM_SECS", if tier == "quick" { 300 } else { 5400 });
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16);
    println!("check {} tier {} seed {} runs {} workers {}", prop, tier, base, n, workers);
    let mut st = campaign(prop, base, 0, n, workers, t0 + Duration::from_secs(limit), 4);
    // determinism of the simulator itself: the first runs again, with another number of workers, and compared
    let det_n = (n / 20).clamp(20, 400).min(st.runs);
    let mut det_bad = 0;
    if st.violations.is_empty() {
        let a = campaign(prop, base, 0, det_n, 3, Instant::now() + Duration::from_secs(120), 4);
        let b = campaign(prop, base, 0, det_n, 5, Instant::now() + Duration::from_secs(120), 4);
        if a.hashes != b.hashes || a.steps != b.steps || a.units != b.units || !a.hashes.is_subset(&st.hashes) { det_bad += 1; st.violations.push((0, "the same seeds gave different executions in another process".into())) }
    }
    st.violations.sort();
    // a run without progress is given more time, alone; a program that does not end without the optimiser either says nothing about it
    let mut kept = vec![];
    for (i, v) in std::mem::take(&mut st.violations) {
        if v.starts_with("no progress") && kept.is_empty() {
            let sc = prof::scenario(prop, seed_of(prop, base, i)).unwrap();
            let again = isolated(&sc, 5 * HANG);
            let endless = again.as_ref().map_or(false, |x| x.starts_with("no progress")) && sc.mode.starts_with("opt") && isolated_as(&sc, HANG, true).map_or(false, |x| x.starts_with("no progress"));
            if again.is_none() || endless { *st.aborts.entry(if endless { "endless with and without the optimiser" } else { "slow" }.into()).or_default() += 1; continue }
        }
        kept.push((i, v))
    }
    st.violations = kept;
    let mut code = 0;
    let mut found = vec![];
    if let Some((i, v)) = st.violations.first().cloned() {
        code = 1;
        let seed = seed_of(prop, base, i);
        let sc = prof::scenario(prop, seed).unwrap();
        let (small, why) = match isolated(&sc, HANG) { Some(v2) => { shrink(&sc, &v2, Duration::from_secs(env_u64("SIM_SHRINK_SECS", 60))) } None => (sc.clone(), v.clone()) };
        let dir = "/verif/replays"; let _ = std::fs::create_dir_all(dir);
        let path = format!("{}/{}-{}.json", dir, prop, i);
        let J::O(mut f) = small.to_json() else { unreachable!() };
        f.push(("violation".into(), json::s(&why)));
        f.push(("original_seed_index".into(), J::I(i as i64)));
        let _ = std::fs::write(&path, J::O(f).text());
        println!("{}", why);
        println!("VIOLATION property={} replay={}", prop, path);
        for (i, v) in st.violations.iter().take(3) { found.push(json::s(&format!("run {}: {}", i, v.chars().take(400).collect::<String>()))) }
    }
    evidence(prop, tier, base, &st, t0.elapsed().as_secs_f64(), det_n, det_bad, found, n);
    println!("{} runs, {} inputs, {} distinct executions, {} violations, {:.1} s", st.runs, st.units, st.hashes.len(), st.violations.len(), t0.elapsed().as_secs_f64());
    code
}

fn evidence(prop: &str, tier: &str, base: u64, st: &Stats, wall: f64, det_n: u64, det_bad: u64, found: Vec<J>, n: u64) {
    let map = |m: &BTreeMap<String, u64>| J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect());
    let mut faults: Vec<(String, J)> = FAULT_NAMES.iter().zip(st.faults.iter()).filter(|(n, c)| **n != "-" && **c > 0).map(|(n, c)| (n.to_string(), J::I(*c as i64))).collect();
    for (k, c) in &st.kinds { faults.push((k.clone(), J::I(*c as i64))) }
    if st.errors > 0 { faults.push(("program error inside a statement".into(), J::I(st.errors as i64))) }
    if st.rejected > 0 { faults.push(("rejected input".into(), J::I(st.rejected as i64))) }
    if st.exits > 0 { faults.push(("exit in the middle".into(), J::I(st.exits as i64))) }
    let mut samples = vec![];
    for i in 0..2 { if let Some(sc) = prof::scenario(prop, seed_of(prop, base, i)) { samples.push(sc.to_json()) } }
    let doc = prof::doc(prop);
    let cov = json::o(vec![
        ("evaluations", J::I(st.runs as i64)),
        ("distinct_nontrivial", J::I(st.hashes.len() as i64)),
        ("rule", json::s(&format!("Seeds are derived from VERIF_SEED and the run's index; {} A run is non-trivial when it executes at least three model steps or foreign calls; two runs are the same when their complete transcripts (output, foreign calls, reports) have the same hash.", doc.0))),
        ("runs_requested", J::I(n as i64)),
        ("inputs_entered", J::I(st.units as i64)),
        ("runs_per_hour", J::I((st.runs as f64 / wall * 3600.0) as i64)),
        ("simulated_time", json::s(&format!("{} steps of the reference model (the system has no clock; a step is one statement, call or iteration)", st.steps))),
        ("foreign_calls", J::I(st.calls as i64)),
        ("faults_injected", J::O(faults)),
        ("rare_conditions_reached", map(&st.features)),
        ("modes", map(&st.modes)),
        ("runs_outside_the_model", map(&st.aborts)),
        ("determinism", json::s(&format!("the first {} runs were executed again twice, in other processes and with 3 and 5 workers: {} differences", det_n, det_bad))),
        ("real_components", json::s(doc.1)),
        ("stubbed_components", json::s(doc.2)),
        ("violations_found", J::A(found)),
        ("samples", J::A(samples)),
    ]);
    let lv = if prof::level(prop) == "fault_enumeration" { "fault_enumeration" } else { "exploration" };
    let e = json::o(vec![("property", json::s(prop)), ("tier", json::s(tier)), ("seed", J::I(base as i64)), ("level", json::s(lv)), ("coverage", cov), ("assumptions", J::A(vec![json::s("The reference model (sim/src/model.rs, lang.rs) states the documented semantics; it was written from the documentation and tests and compared with the code by hand where they differ.")])), ("wall_s", J::F(wall)), ("violations", J::I(st.violations.len() as i64))]);
    let _ = std::fs::create_dir_all("/verif/evidence");
    let _ = std::fs::write(format!("/verif/evidence/{}.json", prop), e.text());
    let _: BTreeSet<u8> = BTreeSet::new();
}

pub fn replay(path: &str) -> i32 {
    let sc = Scenario::from_json(&J::parse(&std::fs::read_to_string(path).unwrap()).unwrap());
    println!("property {} seed {} mode {} foreign-call failures {:?}", sc.property, sc.seed, sc.mode, sc.plan.fail);
    quiet_panics();
    match isolated(&sc, HANG) {
        Some(v) => { println!("{}", v); println!("VIOLATION property={} replay={}", sc.property, path); 1 }
        None => { println!("no violation"); 0 }
    }
}
