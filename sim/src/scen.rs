//! A scenario is one complete, replayable simulated execution: inputs plus everything the outside
//! world does.  `run` executes it on the real code and on the model and compares them.
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use crate::compare;
use crate::json::{self, J};
use crate::model::{End, Ev, Model};
use crate::plan::Plan;
use crate::real::{self, RealEnd, RealRepl, SimReader, World};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Input { pub kind: String, pub lines: Vec<String> }
#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub property: String, pub seed: u64, pub mode: String, pub inputs: Vec<Input>, pub plan: Plan,
    pub stdin: String, pub read_seed: u64, pub read_fail: Option<usize>, pub write_seed: u64, pub write_limit: Option<usize>,
    /// whether the memory of the real system is watched; where it is placed, if not 0
    pub mem: bool, pub scatter: u64,
    /// a whole process
    pub proc: Option<crate::proc::Proc>,
}
#[derive(Default)]
pub struct Outcome { pub violation: Option<String>, pub abort: Option<String>, pub units: u64, pub errors: u64, pub rejected: u64, pub steps: u64, pub calls: u64, pub faults: [u64; 8], pub features: BTreeSet<String>, pub trace_hash: u64, pub exits: u64, pub transcript: String, pub blocks: u64, pub kinds: std::collections::BTreeMap<String, u64> }

impl Scenario {
    pub fn to_json(&self) -> J {
        let tail = |mut j: J| { if let (J::O(f), Some(p)) = (&mut j, &self.proc) { f.push(("process".into(), p.to_json())) } j };
        let ints = |v: &[u64]| J::A(v.iter().map(|i| J::I(*i as i64)).collect());
        let oi = |v: Option<usize>| v.map_or(J::Nul, |i| J::I(i as i64));
        tail(json::o(vec![("property", json::s(&self.property)), ("seed", J::I(self.seed as i64)), ("mode", json::s(&self.mode)),
            ("ffi_seed", J::I(self.plan.seed as i64)), ("ffi_fail", ints(&self.plan.fail)),
            ("stdin", json::s(&self.stdin)), ("read_seed", J::I(self.read_seed as i64)), ("read_fail", oi(self.read_fail)), ("write_seed", J::I(self.write_seed as i64)), ("write_limit", oi(self.write_limit)), ("memory", J::I(self.mem as i64)), ("scatter", J::I(self.scatter as i64)),
            ("inputs", J::A(self.inputs.iter().map(|i| json::o(vec![("kind", json::s(&i.kind)), ("lines", J::A(i.lines.iter().map(|l| json::s(l)).collect()))])).collect()))]))
    }
    pub fn from_json(j: &J) -> Scenario {
        Scenario { property: j.get("property").str(), seed: j.get("seed").int() as u64, mode: j.get("mode").str(),
            plan: Plan { seed: j.get("ffi_seed").int() as u64, fail: j.get("ffi_fail").arr().iter().map(|x| x.int() as u64).collect(), web: j.get("mode").str() == "web" },
            stdin: j.get("stdin").str(), read_seed: j.get("read_seed").int() as u64, read_fail: j.get("read_fail").opt_int().map(|i| i as usize), write_seed: j.get("write_seed").int() as u64, write_limit: j.get("write_limit").opt_int().map(|i| i as usize), mem: j.get("memory").opt_int().unwrap_or(0) != 0, scatter: j.get("scatter").opt_int().unwrap_or(0) as u64,
            proc: match j.get("process") { J::O(_) => Some(crate::proc::Proc::from_json(j.get("process"))), _ => None },
            inputs: j.get("inputs").arr().iter().map(|i| Input { kind: i.get("kind").str(), lines: i.get("lines").arr().iter().map(|l| l.str()).collect() }).collect() }
    }
}

pub fn world(sc: &Scenario) -> real::W {
    Rc::new(RefCell::new(World { plan: sc.plan.clone(), write_seed: sc.write_seed, write_limit: sc.write_limit, ..World::default() }))
}

pub fn run(sc: &Scenario, verbose: bool) -> Outcome {
    if sc.mem { memory(sc, verbose) } else { plain(sc, verbose) }
}

/// The run with the real system's memory watched.
fn memory(sc: &Scenario, verbose: bool) -> Outcome {
    let go = |leaks: bool| { crate::alloc::start(); crate::alloc::scatter(sc.scatter); let o = plain(sc, verbose); crate::alloc::scatter(0); (o, crate::alloc::finish(leaks)) };
    let (mut o, mut r) = go(true);
    // a panic has left everything where it was
    if o.abort.as_deref() == Some("panic") { return o }
    if sc.mode.starts_with("free") && o.violation.is_none() {
        // what is read after it was released is not what it was
        let p = plain(sc, false);
        if p.trace_hash != o.trace_hash { o.violation = Some("released memory was used: what the program did changes when released memory is overwritten".into()) }
    }
    if o.violation.is_none() && r.problem.is_some() {
        // what is set up once for the process and kept is no leak: it does not happen a second time
        let (_, r2) = go(true);
        if r2.problem.is_none() { r.problem = None }
    }
    if let Some(p) = r.problem { o.violation = Some(match o.violation { Some(v) => format!("{}; and {}", p, v), None => p }) }
    o.blocks = r.blocks; if r.cyclic > 0 { o.features.insert("cycle-left".into()); }
    o
}

fn plain(sc: &Scenario, verbose: bool) -> Outcome {
    match sc.mode.as_str() {
        "repl" => session(sc, verbose),
        "script" | "script-o" => script(sc, verbose),
        "web" => web(sc, verbose),
        "steady" => steady(sc, verbose),
        "free" | "free-s" => free(sc, verbose),
        m if m.starts_with("p:") => crate::proc::run(sc, verbose),
        m if m.starts_with("det:") => det(sc, verbose),
        "opt" | "opt-l" | "opt-m" | "opt-f" => opt(sc, verbose),
        m => Outcome { abort: Some(format!("mode {}", m)), ..Outcome::default() },
    }
}

fn note(o: &mut Outcome, s: &str) { o.trace_hash = crate::rng::mix(o.trace_hash ^ crate::rng::hash_str(s)); }

fn session(sc: &Scenario, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let plan = sc.plan.clone();
    let mut m = Model::new(&plan);
    let w = world(sc);
    let mut r = RealRepl::new(w.clone());
    for (k, inp) in sc.inputs.iter().enumerate() {
        let text = inp.lines.join("\n") + "\n";
        let exp = match inp.kind.as_str() {
            "bad" => { m.units.push(crate::model::Unit { name: "<stdin>".into(), text: text.clone() }); crate::model::UnitResult { events: vec![], end: End::Rejected } }
            _ => { m.reset_steps(); m.run("<stdin>", &text) }
        };
        if let End::Abort(a) = &exp.end { o.abort = Some(a.clone()); break }
        o.units += 1;
        let here = |s: String| Some(format!("input {} {:?}: {}", k, text, s));
        let n = inp.lines.len();
        let mut last = (vec![], RealEnd::Ok);
        for (i, l) in inp.lines.iter().enumerate() {
            if verbose { eprintln!("{}{}", r.prompt(), l) }
            let (ev, end) = r.line(l);
            if verbose { eprint!("{}", ev.iter().map(|e| match e { Ev::Out(s) => s.clone(), Ev::Ffi(s) => format!("[call {}]\n", s) }).collect::<String>()) }
            note(&mut o, &compare::show(&ev));
            if i + 1 < n {
                if (inp.kind == "bad" || exp.end == End::Rejected) && (!ev.is_empty()) { 
                    // the error may be reported as soon as it is certain; the rest of the input is then not entered
                    last = (ev, end); break
                }
                if !ev.is_empty() || end != RealEnd::Ok { o.violation = here(format!("an effect before the input was complete (line {}): [{}] {:?}", i + 1, compare::show(&ev), end)); return fin(o, &m, &w) }
                if r.prompt() != "... " { o.violation = here(format!("no continuation prompt after line {}", i + 1)); return fin(o, &m, &w) }
            } else { last = (ev, end) }
        }
        let (ev, end) = last;
        if r.prompt() != ">>> " { o.violation = here("still asking for continuation".into()); return fin(o, &m, &w) }
        let res = match &exp.end {
            End::Ok => if end != RealEnd::Ok { Err(format!("ended with {:?}", end)) } else { compare::events(&exp.events, &ev) },
            End::Exit => { o.exits += 1; if end != RealEnd::Exit { Err(format!("exit did not end the session: {:?} [{}]", end, compare::show(&ev))) } else { compare::events(&exp.events, &ev) } }
            End::Error(e) => { o.errors += 1; if end != RealEnd::Ok { Err(format!("ended with {:?}", end)) } else { compare::split_report(&exp.events, &ev).and_then(|t| compare::report(t.strip_suffix('\n').unwrap_or(&t), e, &m.units)) } }
            End::Rejected => { o.rejected += 1; if end != RealEnd::Ok { Err(format!("ended with {:?}", end)) } else { compare::split_report(&[], &ev).and_then(|t| compare::compile_report(&t, "<stdin>")) } }
            End::WriteFail | End::Abort(_) => unreachable!(),
        };
        if let Err(s) = res { o.violation = here(s); return fin(o, &m, &w) }
        if exp.end == End::Exit { break }
    }
    fin(o, &m, &w)
}
fn fin(mut o: Outcome, m: &Model, w: &real::W) -> Outcome {
    o.calls = m.ffi_calls; o.faults = w.borrow().faults; o.steps = m.total_steps;
    for f in &m.features { o.features.insert(f.to_string()); }
    o
}

fn script(sc: &Scenario, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let plan = sc.plan.clone();
    let mut m = Model::new(&plan);
    m.repl = false;
    m.budget = 60_000;
    m.stdin = sc.stdin.chars().collect();
    m.stdin_fail = sc.read_fail.map(|b| { let mut b = b.min(sc.stdin.len()); while !sc.stdin.is_char_boundary(b) { b -= 1 } sc.stdin[..b].chars().count() });
    if let Some(f) = m.stdin_fail { m.stdin.truncate(f) }
    m.out_limit = sc.write_limit;
    let text = sc.inputs.iter().map(|i| i.lines.join("\n")).collect::<Vec<_>>().join("\n") + "\n";
    // one text that is rejected makes the whole program rejected
    let exp = if sc.inputs.iter().any(|i| i.kind == "bad") { crate::model::UnitResult { events: vec![], end: End::Rejected } } else { m.run("main.cor", &text) };
    if let End::Abort(a) = &exp.end { o.abort = Some(a.clone()); return o }
    o.units = 1;
    let w = world(sc);
    let fail = sc.read_fail.map(|b| b.min(sc.stdin.len()));
    let rd = SimReader::new(w.clone(), sc.stdin.clone().into_bytes(), sc.read_seed, fail);
    let (ev, end) = real::script(&w, "main.cor", &text, sc.mode == "script-o", rd, vec![]);
    if verbose { eprintln!("{}\n{:?}", compare::show(&ev), end) }
    note(&mut o, &compare::show(&ev));
    let res = match (&exp.end, &end) {
        (End::Ok, RealEnd::Ok) => compare::events(&exp.events, &ev),
        (End::Exit, RealEnd::Ok) => { o.exits += 1; compare::events(&exp.events, &ev) }
        (End::Error(e), RealEnd::Error(t)) => { o.errors += 1; compare::events(&exp.events, &ev).and_then(|_| compare::report(t, e, &m.units)) }
        (End::Rejected, RealEnd::Compile(t)) => { o.rejected += 1; compare::events(&[], &ev).and_then(|_| compare::compile_report(t, "main.cor")) }
        (End::WriteFail, RealEnd::Error(_) | RealEnd::Panic(_)) => { let full: String = exp.events.iter().map(|e| if let Ev::Out(s) = e { s.as_str() } else { "" }).collect(); let got: String = ev.iter().map(|e| if let Ev::Out(s) = e { s.as_str() } else { "" }).collect(); if full.starts_with(&got) { Ok(()) } else { Err("output is not a prefix".into()) } }
        (x, y) => Err(format!("expected the run to end with {:?} after [{}] but it ended with {:?} after [{}]", x, compare::show(&exp.events), y, compare::show(&ev))),
    };
    if let Err(s) = res { o.violation = Some(s) }
    fin(o, &m, &w)
}

/// Takes the highlighting off a highlighted text.  Brackets of the text itself are always escaped.
fn unmark(t: &str) -> Result<String, String> {
    let c: Vec<char> = t.chars().collect();
    let (mut out, mut i, mut open) = (String::new(), 0, false);
    while i < c.len() {
        if c[i] == '[' && c.get(i + 1) == Some(&'[') { match c[i..].iter().position(|x| *x == ']') { Some(k) if !open => { open = true; i += k + 1 } _ => return Err("markup is not well formed".into()) } }
        else if c[i] == '[' { return Err("an unescaped bracket".into()) }
        else if c[i] == ']' { if !open { return Err("an unescaped closing bracket".into()) } open = false; i += 1 }
        else if c[i..].starts_with(&['&', '#', '9', '1', ';']) { out.push('['); i += 5 }
        else if c[i..].starts_with(&['&', '#', '9', '2', ';']) { out.push('\\'); i += 5 }
        else if c[i..].starts_with(&['&', '#', '9', '3', ';']) { out.push(']'); i += 5 }
        else { out.push(c[i]); i += 1 }
    }
    if open { return Err("markup is not closed".into()) }
    Ok(out)
}

/// The real web console, a real REPL beside it fed the same inputs, and the model.
fn web(sc: &Scenario, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut plan = sc.plan.clone(); plan.web = true;
    let w = Rc::new(RefCell::new(World { plan: plan.clone(), ..World::default() }));
    let fresh = || { let m = Model::new(&plan); (m, RealRepl::new(w.clone())) };
    let (mut m, mut r) = fresh();
    // the console installs its own panic hook the first time it is loaded
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| { let h = std::panic::take_hook(); cordy_web::load(); std::panic::set_hook(h) });
    cordy_web::load();
    let (mut steps, mut calls) = (0, 0);
    let text_of = |ev: &[Ev]| -> String { ev.iter().map(|e| match e { Ev::Out(s) => s.clone(), Ev::Ffi(s) => format!("called native function '{}'\n", s) }).collect() };
    let out = |s: String| if s.is_empty() { vec![] } else { vec![Ev::Out(s)] };
    let mut done = false;
    for (k, inp) in sc.inputs.iter().enumerate() {
        let text = inp.lines.join("\n") + "\n";
        let here = |s: String| Some(format!("input {} {} {:?}: {}", k, inp.kind, text, s));
        macro_rules! bad { ($($t:tt)*) => { { o.violation = here(format!($($t)*)); break } } }
        if inp.kind == "load" {
            steps += m.total_steps; calls += m.ffi_calls;
            let (m2, r2) = fresh(); m = m2; r = r2; done = false;
            cordy_web::load();
            if verbose { eprintln!("-- load") }
            if cordy_web::prompt() != ">>> " { bad!("prompt after load: {:?}", cordy_web::prompt()) }
            continue
        }
        if inp.kind == "scan" {
            let before = cordy_web::prompt();
            let t = inp.lines.join("\n");
            let s1 = cordy_web::scan(t.clone());
            if verbose { eprintln!("-- scan {:?}", s1) }
            match unmark(&s1) { Ok(u) if u == t => {} Ok(u) => bad!("highlighting changed the text to {:?}", u), Err(e) => bad!("{}: {:?}", e, s1) }
            if cordy_web::scan(t.clone()) != s1 { bad!("highlighting the same text twice differs") }
            if cordy_web::prompt() != before { bad!("highlighting changed the prompt") }
            o.features.insert("scan".into()); if before != ">>> " { o.features.insert("scan-in-continuation".into()); }
            continue
        }
        if done { continue }
        let exp = match inp.kind.as_str() {
            "bad" => { m.units.push(crate::model::Unit { name: "<stdin>".into(), text: text.clone() }); crate::model::UnitResult { events: vec![], end: End::Rejected } }
            "open" => crate::model::UnitResult { events: vec![], end: End::Ok },
            _ => { m.reset_steps(); m.run("<stdin>", &text) }
        };
        if let End::Abort(a) = &exp.end { o.abort = Some(a.clone()); break }
        o.units += 1;
        let n = inp.lines.len();
        let mut last = None;
        let mut stop = None;
        for (i, l) in inp.lines.iter().enumerate() {
            // the page highlights what is being typed, also in a continuation
            if crate::rng::mix(sc.seed ^ ((k * 64 + i) as u64)) % 3 == 0 {
                let s1 = cordy_web::scan(l.clone());
                match unmark(&s1) { Ok(u) if u == *l => {} _ => { stop = Some(format!("highlighting line {} gave {:?}", i + 1, s1)); break } }
                if i > 0 { o.features.insert("scan-in-continuation".into()); }
            }
            let g = cordy_web::exec(l.clone());
            let (ev, end) = r.line(l);
            let rt = text_of(&ev);
            if verbose { eprintln!("{}{}\n{:?} {}", r.prompt(), l, g.lines, g.exit) }
            note(&mut o, &g.lines);
            let mut want = rt.clone(); if want.ends_with('\n') { want.pop(); }
            if g.lines != want && g.lines != want.trim_end_matches('\r') { stop = Some(format!("line {}: the console showed {:?} where the REPL shows {:?}", i + 1, g.lines, want)); break }
            if g.exit != (end == RealEnd::Exit) { stop = Some(format!("line {}: exit {} but the REPL ended with {:?}", i + 1, g.exit, end)); break }
            if cordy_web::prompt() != r.prompt() { stop = Some(format!("line {}: prompt {:?} where the REPL has {:?}", i + 1, cordy_web::prompt(), r.prompt())); break }
            if i + 1 < n || inp.kind == "open" {
                if (inp.kind == "bad" || exp.end == End::Rejected) && !rt.is_empty() { last = Some((rt, end)); break }
                if !rt.is_empty() || g.exit { stop = Some(format!("an effect before the input was complete (line {})", i + 1)); break }
                if r.prompt() != "... " { stop = Some(format!("no continuation prompt after line {}", i + 1)); break }
            } else { last = Some((rt, end)) }
        }
        if let Some(s) = stop { bad!("{}", s) }
        if inp.kind == "open" { o.features.insert("left-incomplete".into()); continue }
        let (rt, end) = last.unwrap();
        if r.prompt() != ">>> " { bad!("still asking for continuation") }
        let (act, want) = (out(rt), out(text_of(&exp.events)));
        let res = match &exp.end {
            End::Ok => if end != RealEnd::Ok { Err(format!("ended with {:?}", end)) } else { compare::events(&want, &act) },
            End::Exit => { o.exits += 1; done = true; if end != RealEnd::Exit { Err(format!("exit did not end the session: {:?}", end)) } else { compare::events(&want, &act) } }
            End::Error(e) => { o.errors += 1; if end != RealEnd::Ok { Err(format!("ended with {:?}", end)) } else { compare::split_report(&want, &act).and_then(|t| compare::report(t.strip_suffix('\n').unwrap_or(&t), e, &m.units)) } }
            End::Rejected => { o.rejected += 1; if end != RealEnd::Ok { Err(format!("ended with {:?}", end)) } else { compare::split_report(&[], &act).and_then(|t| compare::compile_report(&t, "<stdin>")) } }
            End::WriteFail | End::Abort(_) => unreachable!(),
        };
        if let Err(s) = res { bad!("{}", s) }
    }
    let v = std::mem::take(&mut o.violation); let a = std::mem::take(&mut o.abort);
    let mut o = fin(o, &m, &w);
    o.violation = v; o.abort = a; o.steps += steps; o.calls += calls;
    o
}


/// The same program compiled with and without the optimiser, each against its own copy of the same world.
fn opt(sc: &Scenario, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let text = sc.inputs.iter().map(|i| i.lines.join("\n")).collect::<Vec<_>>().join("\n") + "\n";
    if sc.mode == "opt-m" {
        // generated programs of unknown running time: the model decides whether they terminate, and what they do
        let mut s = sc.clone(); s.mode = "script".into();
        o = script(&s, false);
        if o.abort.is_some() { return o }
        // a violation here is not about the optimiser, unless the optimised program disagrees as well
        o.violation = None;
    }
    let memory = std::cell::Cell::new(false);
    let go = |optimise: bool| {
        let w = world(sc); let w2 = w.clone();
        let fail = sc.read_fail.map(|b| b.min(sc.stdin.len()));
        let rd = SimReader::new(w.clone(), sc.stdin.clone().into_bytes(), 0, fail);
        // programs of modes "opt-f" and "opt-l" are of any kind: what crashes either way is not about the optimiser
        let (ev, end) = if sc.mode != "opt-m" { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real::script(&w, "main.cor", &text, optimise, rd, vec![]))) { Ok(x) => x, Err(e) => { let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); memory.set(memory.get() || t.contains("capacity overflow") || t.contains("out of memory")); if sc.mode == "opt" && !memory.get() { std::panic::resume_unwind(e) } (w2.borrow_mut().take(), RealEnd::Panic("panic".into())) } } } else { real::script(&w, "main.cor", &text, optimise, rd, vec![]) };
        let (c, f, l) = { let w = w.borrow(); (w.ffi_calls, w.faults, w.read_ops) };
        (ev, end, c, f, l)
    };
    let a = go(false);
    if std::env::var_os("SIM_BASE").is_some() { return o }
    // a name which is not declared anywhere may be overlooked in a part that can never be executed
    if let RealEnd::Compile(t) = &a.1 { if t.split("\n\n").filter(|l| l.contains("\n  at: line ")).all(|l| l.trim_start().starts_with("Undeclared identifier")) { o.rejected += 1; return o } }
    let b = go(true);
    // a text of 2^60 characters: there is no telling which step first asks for the memory
    if memory.get() { o.abort = Some("out of memory".into()); return o }
    if verbose { eprintln!("{}\n{:?}\n---- optimised\n{}\n{:?}", compare::show(&a.0), a.1, compare::show(&b.0), b.1) }
    note(&mut o, &compare::show(&a.0)); note(&mut o, &format!("{:?}", a.1));
    o.units = 1; if sc.mode != "opt-m" { o.calls = a.2; o.faults = a.3; o.steps = a.0.len() as u64; if let RealEnd::Error(_) = a.1 { o.errors += 1 } if let RealEnd::Compile(_) = a.1 { o.rejected += 1 } }
    // An operation on constants which must fail is reported before the program is started.  Programs of mode "opt" have none.
    if let (RealEnd::Compile(t), true) = (&b.1, b.0.is_empty()) {
        if let RealEnd::Compile(_) = a.1 { return o }
        let known = t.split("\n\n").filter(|l| l.contains("\n  at: line ")).all(|l| ["TypeError:", "ValueError:", "Index '"].iter().any(|k| l.trim_start().starts_with(k)));
        if sc.mode != "opt" && known { o.features.insert("constant-error-at-compile-time".into()); o.rejected += 1; return o }
    }
    if a.0 != b.0 { o.violation = Some(format!("with -o the effects differ: expected [{}] but got [{}] {:?}", compare::show(&a.0), compare::show(&b.0), b.1)) }
    else if a.1 != b.1 { o.violation = Some(format!("with -o the run ends differently: {:?} but {:?}", a.1, b.1)) }
    o
}


/// One execution of a program that is not compared with the model: everything it did, in order.
pub fn transcript(sc: &Scenario, optimise: bool) -> String {
    let w = world(sc);
    let mut t = String::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut t = String::new();
        if sc.mode == "free" || sc.mode.starts_with("det:r") {
            let mut r = RealRepl::new(w.clone());
            for inp in &sc.inputs {
                let mut end = RealEnd::Ok;
                for l in &inp.lines {
                    let (ev, e) = r.line(l);
                    t += r.prompt(); t += &compare::show(&ev); t.push('\n'); end = e;
                    // an input reported before its last line: the rest of it is not entered, it would be another program
                    if !ev.is_empty() { break }
                }
                if end != RealEnd::Ok { t += &format!("{:?}\n", end); break }
            }
        } else {
            let text = sc.inputs.iter().map(|i| i.lines.join("\n")).collect::<Vec<_>>().join("\n") + "\n";
            let rd = SimReader::new(w.clone(), sc.stdin.clone().into_bytes(), sc.read_seed, sc.read_fail.map(|b| b.min(sc.stdin.len())));
            let (ev, end) = real::script(&w, "main.cor", &text, optimise, rd, vec![]);
            t = format!("{}\n{:?}\n", compare::show(&ev), end);
        }
        t
    }));
    match r { Ok(s) => t += &s, Err(_) => { let ev = w.borrow_mut().take(); t += &format!("{}\nPANIC", compare::show(&ev)) } }
    t
}

/// One statement again and again: whatever it does and however it ends, it may not leave more behind each time
/// than one that does nothing.
fn steady(sc: &Scenario, verbose: bool) -> Outcome {
    const N: usize = 6;
    let mut o = Outcome::default();
    let w = world(sc);
    let mut r = RealRepl::new(w.clone());
    let go = |r: &mut RealRepl, o: &mut Outcome, l: &str, n: usize| -> bool {
        for _ in 0..n {
            let (ev, end) = r.line(l);
            o.units += 1; o.steps += 4;
            let t = compare::show(&ev);
            if verbose { eprintln!(">>> {}\n{}", l, t) }
            note(o, &t);
            if t.contains("  at: line ") { o.errors += 1 }
            if end != RealEnd::Ok { return false }
        }
        true
    };
    // what a statement that does nothing leaves (its text), and what one that fails at once does
    let mut base: Option<[usize; 2]> = None;
    for inp in &sc.inputs {
        let l = inp.lines.join(" ");
        if inp.kind != "rep" { if !go(&mut r, &mut o, &l, 1) { return o } continue }
        let grows = |r: &mut RealRepl, o: &mut Outcome, l: &str| -> Option<(usize, bool)> {
            if !go(r, o, l, 2) { return None }
            let (a, e) = (crate::alloc::live(), o.errors);
            if !go(r, o, l, N) { return None }
            Some((crate::alloc::live().saturating_sub(a), o.errors > e))
        };
        if base.is_none() {
            let (Some(x), Some(y)) = (grows(&mut r, &mut o, "nop()"), grows(&mut r, &mut o, "nope()")) else { return o };
            base = Some([x.0, y.0]);
        }
        let Some((n, failed)) = grows(&mut r, &mut o, &l) else { return o };
        let want = base.unwrap()[failed as usize];
        if n > want { o.violation = Some(format!("input {:?} left {} blocks allocated when it was repeated {} times, where {} are expected", l, n, N, want)); return o }
    }
    o
}

fn free(sc: &Scenario, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let t = transcript(sc, false);
    if verbose { eprintln!("{}", t) }
    note(&mut o, &t);
    o.units = sc.inputs.len() as u64;
    o.steps = t.len() as u64 / 16; o.errors = t.matches("  at: line ").count() as u64;
    if t.ends_with("PANIC") { o.abort = Some("panic".into()); }
    o
}


/// The same program again and again: in a fresh state, after other work, with its memory somewhere else,
/// with its input arriving and its output leaving in other pieces.
fn det(sc: &Scenario, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut cut = sc.clone();
    if sc.mode.contains('m') {
        // of these it is not known whether they end: the model is asked
        let mut s = sc.clone(); s.mode = if sc.mode.starts_with("det:r") { "repl" } else { "script" }.into();
        let m = plain(&s, false);
        if m.abort.is_some() { o.abort = m.abort; return o }
        if m.violation.is_some() && s.mode == "repl" { cut.inputs.truncate(m.units as usize) }
    }
    let sc = &cut;
    let go = |k: u64| -> String {
        let mut s = sc.clone();
        if k > 0 { s.read_seed = crate::rng::mix(sc.seed ^ k) | 1; s.write_seed = crate::rng::mix(sc.seed ^ (k << 8)) | 1; }
        if k > 0 { crate::alloc::scatter(crate::rng::mix(sc.seed ^ (k << 16)) | 1) }
        let t = transcript(&s, sc.mode.contains('o'));
        crate::alloc::scatter(0);
        t
    };
    let a = go(0);
    if verbose { eprintln!("{}", a) }
    note(&mut o, &a);
    o.units = sc.inputs.len() as u64; o.steps = a.len() as u64 / 16; o.errors = a.matches("  at: line ").count() as u64;
    for k in 1..3 {
        if k == 2 { let other = crate::wildgen::scenario("C17", crate::rng::mix(sc.seed), if sc.seed & 1 == 0 { "det:r" } else { "det:s" }); crate::alloc::scatter(0); let _ = transcript(&other, false); }
        let b = go(k);
        if a != b {
            let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let cut = |t: &str| -> String { let lo = (0..=i.saturating_sub(60)).rev().find(|j| t.is_char_boundary(*j)).unwrap_or(0); t[lo..].chars().take(200).collect() };
            o.violation = Some(format!("execution {} differs from the first one: expected ...{:?} but got ...{:?}", k + 1, cut(&a), cut(&b)));
            break
        }
    }
    if a.ends_with("PANIC") && o.violation.is_none() { o.abort = Some("panic".into()) }
    o
}
