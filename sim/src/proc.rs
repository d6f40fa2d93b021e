//! A whole `cordy` process under simulation: the real binary, with everything it asks of the operating
//! system answered by the preloaded world in sim/proc/shim.c.  The reference model says what must come out.
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};
use crate::compare;
use crate::json::{self, J};
use crate::model::{Disk, End, Ev, FsFault, Fv, Lib, Model, Outside};
use crate::scen::{Input, Outcome, Scenario};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Proc {
    pub args: Vec<Vec<u8>>, pub env: Vec<(Vec<u8>, Vec<u8>)>, pub opts: Vec<String>,
    pub stdin: Vec<u8>, pub in_errno: i64, pub out_errno: i64, pub err_seed: u64, pub fs_seed: u64,
    pub files: Vec<(String, Vec<u8>)>, pub dirs: Vec<String>, pub faults: Vec<FsFault>,
    pub libs: Vec<Lib>, pub links: Vec<(String, String)>, pub outcomes: Vec<Fv>,
    pub crash: Option<u64>,
    /// bytes of the script, if they are not its text; None with `no_script`: there is none
    pub script: Option<Vec<u8>>, pub no_script: String,
}
pub const SCRIPT: &str = "/sim/main.cor";

fn bytes(b: &[u8]) -> J { match std::str::from_utf8(b) { Ok(s) if !s.starts_with("hex:") => json::s(s), _ => json::s(&format!("hex:{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>())) } }
fn unbytes(j: &J) -> Vec<u8> { let s = j.str(); match s.strip_prefix("hex:") { Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[i * 2..i * 2 + 2], 16).unwrap()).collect(), None => s.into_bytes() } }
fn fv(f: &Fv) -> J {
    let tag = |t: &str, v: J| json::o(vec![(t, v)]);
    match f { Fv::Nil => json::s("nil"), Fv::Arg => json::s("argument"), Fv::Bool(b) => json::s(if *b { "true" } else { "false" }), Fv::Int(i) => tag("int", json::s(&i.to_string())), Fv::Str(s) => tag("str", json::s(s)), Fv::Arr(a) => tag("array", J::A(a.iter().map(fv).collect())), Fv::NoText(b) => tag("bytes", bytes(b)), Fv::Err(m) => tag("error", json::s(m)), Fv::ErrNoText(b) => tag("error_bytes", bytes(b)) }
}
fn unfv(j: &J) -> Fv {
    if let J::O(f) = j { let v = &f[0].1; return match f[0].0.as_str() { "int" => Fv::Int(v.str().parse().unwrap()), "str" => Fv::Str(v.str()), "array" => Fv::Arr(v.arr().iter().map(unfv).collect()), "bytes" => Fv::NoText(unbytes(v)), "error" => Fv::Err(v.str()), _ => Fv::ErrNoText(unbytes(v)) } }
    match j.str().as_str() { "true" => Fv::Bool(true), "false" => Fv::Bool(false), "argument" => Fv::Arg, _ => Fv::Nil }
}
impl Proc {
    pub fn to_json(&self) -> J {
        let list = |v: Vec<J>| J::A(v);
        json::o(vec![
            ("args", list(self.args.iter().map(|a| bytes(a)).collect())), ("env", list(self.env.iter().map(|e| J::A(vec![bytes(&e.0), bytes(&e.1)])).collect())), ("options", list(self.opts.iter().map(|a| json::s(a)).collect())),
            ("stdin", bytes(&self.stdin)), ("input_errno", J::I(self.in_errno)), ("output_errno", J::I(self.out_errno)), ("stderr_seed", J::I(self.err_seed as i64)), ("file_seed", J::I(self.fs_seed as i64)),
            ("files", list(self.files.iter().map(|f| J::A(vec![json::s(&f.0), bytes(&f.1)])).collect())), ("directories", list(self.dirs.iter().map(|a| json::s(a)).collect())),
            ("file_faults", list(self.faults.iter().map(|f| json::o(vec![("open_number", J::I(f.op as i64)), ("stage", json::s(&f.stage.to_string())), ("errno", J::I(f.errno)), ("after_bytes", J::I(f.after as i64))])).collect())),
            ("libraries", list(self.libs.iter().map(|l| json::o(vec![("name", json::s(&l.name)), ("failing_loads", J::I(l.fail_first as i64)), ("no_init", J::I(l.no_init as i64)), ("missing", list(l.missing.iter().map(|m| json::s(m)).collect()))])).collect())),
            ("links", list(self.links.iter().map(|l| J::A(vec![json::s(&l.0), json::s(&l.1)])).collect())), ("foreign_results", list(self.outcomes.iter().map(fv).collect())),
            ("killed_at_call", self.crash.map_or(J::Nul, |c| J::I(c as i64))), ("script_bytes", self.script.as_ref().map_or(J::Nul, |b| bytes(b))), ("no_script", json::s(&self.no_script)),
        ])
    }
    pub fn from_json(j: &J) -> Proc {
        let pair = |j: &J| (j.arr()[0].clone(), j.arr()[1].clone());
        Proc {
            args: j.get("args").arr().iter().map(unbytes).collect(), env: j.get("env").arr().iter().map(|e| { let (a, b) = pair(e); (unbytes(&a), unbytes(&b)) }).collect(), opts: j.get("options").arr().iter().map(|a| a.str()).collect(),
            stdin: unbytes(j.get("stdin")), in_errno: j.get("input_errno").int(), out_errno: j.get("output_errno").int(), err_seed: j.get("stderr_seed").int() as u64, fs_seed: j.get("file_seed").int() as u64,
            files: j.get("files").arr().iter().map(|e| { let (a, b) = pair(e); (a.str(), unbytes(&b)) }).collect(), dirs: j.get("directories").arr().iter().map(|a| a.str()).collect(),
            faults: j.get("file_faults").arr().iter().map(|f| FsFault { op: f.get("open_number").int() as u64, stage: f.get("stage").str().chars().next().unwrap_or('o'), errno: f.get("errno").int(), after: f.get("after_bytes").int() as usize }).collect(),
            libs: j.get("libraries").arr().iter().map(|l| Lib { name: l.get("name").str(), fail_first: l.get("failing_loads").int() as u64, no_init: l.get("no_init").int() != 0, missing: l.get("missing").arr().iter().map(|m| m.str()).collect() }).collect(),
            links: j.get("links").arr().iter().map(|e| { let (a, b) = pair(e); (a.str(), b.str()) }).collect(), outcomes: j.get("foreign_results").arr().iter().map(unfv).collect(),
            crash: j.get("killed_at_call").opt_int().map(|c| c as u64), script: match j.get("script_bytes") { J::Nul => None, b => Some(unbytes(b)) }, no_script: j.get("no_script").str(),
        }
    }
}

// ------------------------------------------------------------------ the process

#[derive(Clone, Debug, PartialEq)]
pub enum Rec { Out(Vec<u8>), Err(Vec<u8>), Call(String), Init(String), Load(String), Fs(String), Write(String, Rc<Vec<u8>>), Patch(String, usize, Vec<u8>), Gone(String), Fault(String), End }
#[derive(Clone, Debug, Default)]
pub struct Run { pub recs: Vec<Rec>, pub code: Option<i32>, pub signal: Option<i32>, pub hung: bool }
impl Run {
    pub fn out(&self) -> Vec<u8> { self.recs.iter().flat_map(|r| if let Rec::Out(b) = r { b.clone() } else { vec![] }).collect() }
    pub fn err(&self) -> Vec<u8> { self.recs.iter().flat_map(|r| if let Rec::Err(b) = r { b.clone() } else { vec![] }).collect() }
    pub fn calls(&self) -> Vec<String> { self.recs.iter().filter_map(|r| if let Rec::Call(c) = r { Some(c.clone()) } else { None }).collect() }
    pub fn show(&self) -> String { format!("stdout {:?} stderr {:?} calls {:?} ended with {:?}{}", String::from_utf8_lossy(&self.out()), String::from_utf8_lossy(&self.err()), self.calls(), self.code, self.signal.map_or(String::new(), |s| format!(" signal {}", s))) }
}

fn encode(f: &Fv, o: &mut Vec<u8>) {
    let mut tagged = |c: char, b: &[u8]| { o.extend(format!("{}{}:", c, b.len()).bytes()); o.extend(b) };
    match f {
        Fv::Nil => o.push(b'n'), Fv::Bool(true) => o.push(b't'), Fv::Bool(false) => o.push(b'f'), Fv::Arg => o.push(b'p'),
        Fv::Int(i) => o.extend(format!("i{};", i).bytes()),
        Fv::Str(s) => tagged('s', s.as_bytes()), Fv::NoText(b) => tagged('b', b), Fv::Err(m) => tagged('e', m.as_bytes()), Fv::ErrNoText(b) => tagged('e', b),
        Fv::Arr(a) => { o.extend(format!("a{}:", a.len()).bytes()); for x in a { encode(x, o) } }
    }
}

fn world(sc: &Scenario, text: &str, limit: Option<usize>, crash: Option<u64>) -> Vec<u8> {
    let p = sc.proc.as_ref().unwrap();
    let repl = sc.mode == "p:repl";
    let mut w: Vec<u8> = vec![];
    fn put(w: &mut Vec<u8>, b: &[u8]) { w.extend(format!(" {}:", b.len()).bytes()); w.extend(b); }
    let stdin: Vec<u8> = if repl { text.as_bytes().to_vec() } else { p.stdin.clone() };
    w.extend(format!("i {} {} {}", sc.read_seed, sc.read_fail.map_or(-1, |f| f.min(stdin.len()) as i64), p.in_errno).bytes()); put(&mut w, &stdin);
    w.extend(format!("\no {} {} {}\ne {}\ns {}\n", sc.write_seed, limit.map_or(-1, |l| l as i64), p.out_errno, p.err_seed, p.fs_seed).bytes());
    if let Some(c) = crash { w.extend(format!("c {}\n", c).bytes()) }
    for (n, c) in &p.files { w.push(b'f'); put(&mut w, n.as_bytes()); put(&mut w, c); w.push(b'\n') }
    if !repl { match p.no_script.as_str() { "missing" => {} "directory" => { w.push(b'd'); put(&mut w, SCRIPT.as_bytes()); w.push(b'\n') } _ => { w.push(b'f'); put(&mut w, SCRIPT.as_bytes()); put(&mut w, p.script.as_deref().unwrap_or(text.as_bytes())); w.push(b'\n') } } }
    for d in &p.dirs { w.push(b'd'); put(&mut w, d.as_bytes()); w.push(b'\n') }
    for f in &p.faults { w.extend(format!("x {} {} {} {}\n", f.op, f.stage, f.errno, f.after).bytes()) }
    for l in &p.libs { w.push(b'l'); put(&mut w, l.name.as_bytes()); w.extend(format!(" {} {}", l.fail_first, l.no_init as u8).bytes()); put(&mut w, format!(",{},", l.missing.join(",")).as_bytes()); w.push(b'\n') }
    for f in &p.outcomes { let mut e = vec![]; encode(f, &mut e); w.push(b'r'); put(&mut w, &e); w.push(b'\n') }
    w
}

fn target() -> std::path::PathBuf { std::env::current_exe().unwrap().ancestors().nth(3).unwrap().to_path_buf() }

pub fn execute(sc: &Scenario, text: &str, limit: Option<usize>, crash: Option<u64>) -> Run {
    let p = sc.proc.as_ref().unwrap();
    let t = target();
    let bin = std::env::var_os("SIM_CORDY").map(|p| p.into()).unwrap_or(t.join("cordy/debug/cordy"));
    let mut c = Command::new(bin);
    c.env_clear();
    for (k, v) in &p.env { c.env(std::ffi::OsStr::from_bytes(k), std::ffi::OsStr::from_bytes(v)); }
    c.env("LD_PRELOAD", t.join("shim.so")).env("SIM_WORLD", "1");
    for o in &p.opts { c.arg(o); }
    for (m, l) in &p.links { c.arg("-l").arg(format!("{}={}", m, l)); }
    if sc.mode != "p:repl" { c.arg(SCRIPT); for a in &p.args { c.arg(std::ffi::OsStr::from_bytes(a)); } }
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("the cordy binary can be started");
    let w = world(sc, text, limit, crash);
    let mut si = ch.stdin.take().unwrap();
    let _ = si.write_all(&w); drop(si);
    let mut so = ch.stdout.take().unwrap();
    let mut log: Vec<u8> = vec![];
    let mut hung = false;
    // a process that makes no progress is ended; reads do not block for longer
    #[repr(C)] struct PollFd { fd: i32, events: i16, revents: i16 }
    extern "C" { fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32; }
    let t0 = Instant::now();
    let mut chunk = vec![0u8; 1 << 16];
    loop {
        let mut pf = PollFd { fd: std::os::fd::AsRawFd::as_raw_fd(&so), events: 1, revents: 0 };
        let r = unsafe { poll(&mut pf, 1, 1000) };
        if r > 0 { match so.read(&mut chunk) { Ok(0) => break, Ok(n) => log.extend(&chunk[..n]), Err(_) => break } }
        if t0.elapsed() > Duration::from_secs(25) || log.len() > 64 << 20 { hung = true; let _ = ch.kill(); break }
    }
    let st = ch.wait().unwrap();
    let mut recs = vec![];
    let mut at = 0;
    while at + 9 <= log.len() {
        let n = |i: usize| u32::from_le_bytes(log[i..i + 4].try_into().unwrap()) as usize;
        let (a, b) = (n(at + 1), n(at + 5));
        if at + 9 + a + b > log.len() { break }
        let (x, y) = (&log[at + 9..at + 9 + a], &log[at + 9 + a..at + 9 + a + b]);
        let s = String::from_utf8_lossy(x).into_owned();
        recs.push(match log[at] { b'O' => Rec::Out(x.to_vec()), b'E' => Rec::Err(x.to_vec()), b'C' => Rec::Call(s), b'I' => Rec::Init(s), b'L' => Rec::Load(s), b'F' => Rec::Fs(s), b'W' => Rec::Write(s, Rc::new(y.to_vec())), b'P' => Rec::Patch(s, u64::from_le_bytes(y[..8].try_into().unwrap()) as usize, y[8..].to_vec()), b'D' => Rec::Gone(s), b'X' => Rec::Fault(s), _ => Rec::End });
        at += 9 + a + b;
    }
    Run { recs, code: st.code(), signal: st.signal(), hung }
}

// ------------------------------------------------------------------ what must have happened

fn apply(d: &mut Disk, r: &Rec) { match r { Rec::Write(p, c) => { d.insert(p.clone(), c.clone()); } Rec::Patch(p, at, c) => { let v = Rc::make_mut(d.entry(p.clone()).or_default()); if v.len() < at + c.len() { v.resize(at + c.len(), 0) } v[*at..at + c.len()].copy_from_slice(c); } Rec::Gone(p) => { d.remove(p); } _ => {} } }
fn initial(p: &Proc) -> Disk { p.files.iter().map(|(n, c)| (n.clone(), Rc::new(c.clone()))).collect() }
fn differs(want: &Disk, got: &Disk) -> Option<String> {
    for (k, v) in want { match got.get(k) { None => return Some(format!("the file {} is gone", k)), Some(g) if g != v => return Some(format!("the file {} has the content {:?} instead of {:?}", k, brief(g), brief(v))), _ => {} } }
    for k in got.keys() { if !want.contains_key(k) { return Some(format!("there is a file {}", k)) } }
    None
}
fn brief(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); if s.len() > 120 { format!("{}... ({} bytes)", s.chars().take(80).collect::<String>(), b.len()) } else { s.into_owned() } }

/// the disk after each opening of a file, just before the next one or the next thing the program did
fn after_ops(p: &Proc, run: &Run, skip: usize) -> Vec<Disk> {
    let mut d = initial(p); let mut v: Vec<Disk> = vec![];
    let mut op = 0;
    for r in &run.recs {
        if let Rec::Fs(f) = r { if f.starts_with("open") { op += 1; if op > skip { v.push(d.clone()) } } }
        let script = matches!(r, Rec::Write(p, _) | Rec::Patch(p, ..) if p == SCRIPT);
        if !script { apply(&mut d, r) }
        if let Some(l) = v.last_mut() { *l = d.clone() }
    }
    v
}

pub fn model_of(sc: &Scenario, after: Vec<Disk>, limit: Option<usize>) -> Model {
    let p = sc.proc.as_ref().unwrap();
    let repl = sc.mode == "p:repl";
    let mut m = Model::new(&sc.plan);
    m.repl = repl;
    if !repl {
        m.budget = 60_000;
        let s = &p.stdin;
        // the input is good up to its first failure: of the stream, or the first byte which is no text
        let upto = sc.read_fail.map_or(s.len(), |f| f.min(s.len()));
        let (good, bad) = match std::str::from_utf8(&s[..upto]) { Ok(t) => (t.to_string(), sc.read_fail.is_some()), Err(e) => (String::from_utf8_lossy(&s[..e.valid_up_to()]).into_owned(), true) };
        m.stdin = good.chars().collect();
        if bad { m.stdin_fail = Some(m.stdin.len()) }
    }
    m.out_limit = limit;
    let lossy = |b: &Vec<u8>| String::from_utf8_lossy(b).into_owned();
    let mut env: Vec<(String, String)> = p.env.iter().filter(|e| std::str::from_utf8(&e.0).is_ok() && std::str::from_utf8(&e.1).is_ok()).map(|e| (lossy(&e.0), lossy(&e.1))).collect();
    env.sort();
    // opening the script is the first thing that happens to the disk
    let shift = !repl as u64;
    m.outside = Some(Outside { argv: p.args.iter().map(lossy).collect(), env, disk: initial(p), dirs: p.dirs.clone(), faults: p.faults.iter().filter(|f| f.op >= shift).map(|f| FsFault { op: f.op - shift, ..f.clone() }).collect(), libs: p.libs.clone(), links: p.links.clone(), outcomes: p.outcomes.clone(), after, ..Outside::default() });
    m
}

fn note(o: &mut Outcome, s: &str) { o.trace_hash = crate::rng::mix(o.trace_hash ^ crate::rng::hash_str(s)); }

pub fn run(sc: &Scenario, verbose: bool) -> Outcome {
    let p = sc.proc.as_ref().unwrap();
    let repl = sc.mode == "p:repl";
    let mut o = Outcome::default();
    let text = if repl { sc.inputs.iter().map(|i| crate::gen::one_line(&i.lines.join("\n")) + "\n").collect::<String>() } else { sc.inputs.iter().map(|i| i.lines.join("\n")).collect::<Vec<_>>().join("\n") + "\n" };
    // whether the program ends is known from the model; what a failed write leaves behind is not
    let (exps, m) = expect(sc, &text, vec![], None);
    if let Some(a) = exps.iter().find_map(|e| if let End::Abort(a) = &e.1 { Some(a.clone()) } else { None }) { o.abort = Some(a); return o }
    let a = execute(sc, &text, None, None);
    if verbose { eprintln!("{}", a.show()); for r in &a.recs { if !matches!(r, Rec::Out(_) | Rec::Err(_)) { eprintln!("   {}", crate::check::short(&format!("{:?}", r))) } } }
    let (exps, m) = if m.outside.as_ref().unwrap().failed_writes.is_empty() { (exps, m) } else { expect(sc, &text, after_ops(p, &a, !repl as usize), None) };
    if let Some(x) = exps.iter().find_map(|e| if let End::Abort(a) = &e.1 { Some(a.clone()) } else { None }) { o.abort = Some(x); return o }
    o.units = exps.len() as u64;
    for e in &exps { match e.1 { End::Error(_) => o.errors += 1, End::Exit => o.exits += 1, End::Rejected => o.rejected += 1, _ => {} } }
    let faults = |o: &mut Outcome, r: &Run| for x in &r.recs { if let Rec::Fault(f) = x { *o.kinds.entry(f.clone()).or_default() += 1 } };
    faults(&mut o, &a);
    note(&mut o, &a.show());
    let v = judge(sc, &exps, &m, &a);
    if let Err(e) = v { if e.ends_with(": no mark") { o.abort = Some("no mark".into()); return o } o.violation = Some(crate::check::short(&format!("S2: {}; {}", e, a.show()))) }
    let full = a.out();
    // the same with an output stream that fails for good
    if let (None, Some(l)) = (&o.violation, sc.write_limit) {
        let l = if full.is_empty() { 0 } else { l % (full.len() + 2) };
        let b = execute(sc, &text, Some(l), None);
        if verbose { eprintln!("-- output fails after {} bytes: {}", l, b.show()) }
        faults(&mut o, &b); note(&mut o, &b.show());
        if let Err(e) = judge_cut(sc, &text, &a, &b, l, full.len()) { o.violation = Some(crate::check::short(&format!("S2: with the output stream failing after {} bytes: {}; {}; in full: {}", l, e, b.show(), a.show()))) }
    }
    // the same, killed at some call of the operating system
    if let (None, Some(c)) = (&o.violation, p.crash) {
        let steps = a.recs.len().max(1) as u64;
        let b = execute(sc, &text, None, Some(c % steps));
        if verbose { eprintln!("-- killed at call {}: {}", c % steps, b.show()) }
        faults(&mut o, &b); note(&mut o, &b.show());
        let ok = full.starts_with(&b.out()) && a.calls().starts_with(&b.calls());
        if !ok { o.violation = Some(crate::check::short(&format!("S2: killed at call {}, what it had done is no prefix of what it does: {}; in full: {}", c % steps, b.show(), a.show()))) }
        else if let Err(e) = judge_disk(sc, &m, &b, false) { o.violation = Some(crate::check::short(&format!("S2: killed at call {}: {}; {}", c % steps, e, b.show()))) }
    }
    o.calls = m.ffi_calls; o.steps = m.total_steps;
    for f in &m.features { o.features.insert(f.to_string()); }
    let x = m.outside.as_ref().unwrap();
    if x.io_errors > 0 { o.features.insert("io-error".into()); }
    if !x.failed_writes.is_empty() { o.features.insert("failed-write".into()); }
    o
}

fn optimized(p: &Proc) -> bool { p.opts.iter().any(|o| o == "-o" || o == "--optimize") }

type Exp = (Vec<Ev>, End);
fn expect(sc: &Scenario, text: &str, after: Vec<Disk>, limit: Option<usize>) -> (Vec<Exp>, Model) {
    let mut m = model_of(sc, after, limit);
    let repl = sc.mode == "p:repl";
    if !repl {
        let p = sc.proc.as_ref().unwrap();
        if p.script.is_some() || !p.no_script.is_empty() || p.faults.iter().any(|f| f.op == 0) || sc.inputs.iter().any(|i| i.kind == "bad") { return (vec![(vec![], End::Rejected)], m) }
        let r = m.run(SCRIPT, text);
        // what the optimizer removes is never looked up: with -o a name used only there is no error
        if optimized(p) && r.end == End::Rejected { return (vec![(vec![], End::Abort("rejected without -o".into()))], m) }
        return (vec![(r.events, r.end)], m)
    }
    let mut v = vec![];
    let mut at = 0;
    for i in &sc.inputs {
        let t = crate::gen::one_line(&i.lines.join("\n")) + "\n";
        at += t.len();
        // only what arrived completely is executed
        if sc.read_fail.map_or(false, |f| f < at) { break }
        if i.kind == "bad" { m.units.push(crate::model::Unit { name: "<stdin>".into(), text: t }); v.push((vec![], End::Rejected)); continue }
        m.reset_steps();
        let mut r = m.run("<stdin>", &t);
        if optimized(sc.proc.as_ref().unwrap()) && r.end == End::Rejected { r.end = End::Abort("rejected without -o".into()) }
        let stop = matches!(r.end, End::Exit | End::Abort(_) | End::WriteFail);
        v.push((r.events, r.end));
        if stop { break }
    }
    (v, m)
}

fn outs(e: &[Ev]) -> String { e.iter().map(|e| if let Ev::Out(s) = e { s.as_str() } else { "" }).collect() }
fn ffis<'a>(e: impl Iterator<Item = &'a Exp>) -> Vec<String> { e.flat_map(|e| e.0.iter().filter_map(|e| if let Ev::Ffi(s) = e { Some(s.clone()) } else { None }).collect::<Vec<_>>()).collect() }
fn text(b: Vec<u8>) -> Result<String, String> { String::from_utf8(b).map_err(|_| "what was written is not text".to_string()) }

fn judge(sc: &Scenario, exps: &[Exp], m: &Model, a: &Run) -> Result<(), String> {
    let repl = sc.mode == "p:repl";
    if a.hung { return Err("the process made no progress for 25 s".into()) }
    if let Some(s) = a.signal { return Err(format!("the process was ended by signal {}", s)) }
    let (out, err) = (text(a.out())?, text(a.err())?);
    if err.contains("panicked at") { return Err(format!("the process panicked: {}", err)) }
    for r in &a.recs { if let Rec::Fs(f) = r { if f.starts_with("outside") { return Err(format!("the process touched something it should not: {}", f)) } } }
    let want = ffis(exps.iter());
    let got = a.calls();
    if want != got { let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len())); return Err(format!("foreign call {}: expected {:?} but got {:?}", i, want.get(i), got.get(i))) }
    // each library is loaded and initialised once, before it is called
    let (mut loaded, mut inits): (std::collections::BTreeMap<String, u64>, std::collections::BTreeMap<String, u64>) = Default::default();
    for r in &a.recs { match r {
        Rec::Load(l) => { if let Some(n) = l.strip_prefix("loaded ") { *loaded.entry(n.into()).or_default() += 1 } else if l.starts_with("real ") { return Err(format!("an unexpected library was loaded: {}", l)) } }
        Rec::Init(n) => { *inits.entry(n.clone()).or_default() += 1; if inits[n] > loaded.get(n).copied().unwrap_or(0) { return Err(format!("{} was initialised again", n)) } }
        Rec::Call(c) => { let n = c.split("->").next().unwrap(); if !inits.contains_key(n) { return Err(format!("{} was called before it was initialised", n)) } }
        _ => {}
    } }
    for (n, k) in &inits { if !repl && *k > sc.proc.as_ref().unwrap().links.iter().filter(|l| l.1 == *n).count() as u64 { return Err(format!("{} was initialised {} times", n, k)) } }
    if repl {
        let banner = out.split_inclusive('\n').next().unwrap_or("");
        if !banner.starts_with("Welcome to Cordy") { return Err("no banner".into()) }
        let mut rest = &out[banner.len()..];
        for (k, (ev, end)) in exps.iter().enumerate() {
            let here = |s: String| format!("input {} {:?}: {}", k, sc.inputs[k].lines.join("\n"), s);
            let want = outs(ev);
            let Some(r) = rest.strip_prefix(want.as_str()) else { return Err(here(format!("expected the output {:?} but got {:?}", brief(want.as_bytes()), brief(rest.as_bytes())))) };
            match end {
                End::Ok | End::Exit => rest = r,
                End::Error(_) | End::Rejected => {
                    // the report ends where the next input's output begins
                    let next = exps.get(k + 1).map(|e| outs(&e.0)).filter(|n| !n.is_empty());
                    let cut = match &next { Some(n) => match r.find(n.as_str()) { Some(i) => i, None => return Err(here(format!("expected a report followed by {:?} but got {:?}", brief(n.as_bytes()), brief(r.as_bytes())))) }, None if k + 1 == exps.len() => r.len(), None => return Err(here("no mark".into())) };
                    let rep = &r[..cut];
                    let res = match end { End::Error(e) => compare::report(rep.strip_suffix('\n').unwrap_or(rep), e, &m.units), _ => compare::compile_report(rep, "<stdin>") };
                    res.map_err(here)?;
                    rest = &r[cut..];
                }
                _ => return Err("?".into()),
            }
        }
        if !rest.is_empty() { return Err(format!("more output than expected: {:?}", brief(rest.as_bytes()))) }
        // a reader that fails ends the session with a report
        let failed = sc.read_fail.map_or(false, |f| f <= sc.inputs.iter().map(|i| crate::gen::one_line(&i.lines.join("\n")).len() + 1).sum::<usize>()) && !matches!(exps.last(), Some((_, End::Exit)));
        if failed && err.is_empty() { return Err("the failing input was not reported".into()) }
        if !failed && !err.is_empty() { return Err(format!("unexpected text on standard error: {:?}", brief(err.as_bytes()))) }
    } else {
        let (ev, end) = &exps[0];
        let want = outs(ev);
        if out != want { let i = out.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len())); return Err(format!("the output differs after {} bytes: expected {:?} but got {:?}", i, brief(&want.as_bytes()[i..]), brief(&out.as_bytes()[i..]))) }
        match end {
            End::Ok | End::Exit => if !err.is_empty() { return Err(format!("unexpected text on standard error: {:?}", brief(err.as_bytes()))) },
            End::Error(e) => compare::report(err.strip_suffix('\n').unwrap_or(&err), e, &m.units)?,
            End::Rejected => {
                let p = sc.proc.as_ref().unwrap();
                if p.script.is_some() || !p.no_script.is_empty() || p.faults.iter().any(|f| f.op == 0) { if err.trim().is_empty() { return Err("the script could not be read and nothing was reported".into()) } }
                else { compare::compile_report(&err, SCRIPT)? }
            }
            _ => return Err("?".into()),
        }
    }
    judge_disk(sc, m, a, true)
}

/// The simulated disk at every foreign call and every print is what the program had written by then.
fn judge_disk(sc: &Scenario, m: &Model, a: &Run, complete: bool) -> Result<(), String> {
    let p = sc.proc.as_ref().unwrap();
    let repl = sc.mode == "p:repl";
    let x = m.outside.as_ref().unwrap();
    let mut d = initial(p);
    let (mut done, mut call, mut print) = (0usize, 0usize, 0usize);
    for r in &a.recs {
        match r {
            Rec::Call(c) => { if let Some(w) = x.at_call.get(call) { if let Some(e) = differs(w, &d) { return Err(format!("at the foreign call {} {}", c, e)) } } call += 1; }
            Rec::Out(b) if !repl => {
                while print < x.at_out.len() && x.at_out[print].0 + x.at_out[print].1 <= done { print += 1 }
                if let Some((_, _, w)) = x.at_out.get(print) { if let Some(e) = differs(w, &d) { return Err(format!("when {:?} was printed {}", brief(b), e)) } }
                done += b.len();
            }
            Rec::Write(p, _) | Rec::Patch(p, ..) if p == SCRIPT => return Err("the script was written to".into()),
            r => apply(&mut d, r),
        }
    }
    if complete { if let Some(e) = differs(&x.disk, &d) { return Err(format!("at the end {}", e)) } }
    else {
        // the writes that were completed, in order, and at most one that was under way
        let mut before = initial(p);
        if differs(&before, &d).is_none() { return Ok(()) }
        for (path, text, after) in &x.hist {
            let mut rest = d.clone(); let got = rest.remove(path);
            let mut b = before.clone(); let old = b.remove(path);
            if b == rest && match &got { Some(g) => Some(g) == old.as_ref() || text.starts_with(g) || Some(g) == after.get(path), None => old.is_none() } { return Ok(()) }
            before = after.clone();
        }
        return Err(format!("the files are in no state which the program's writes lead to: {:?}", d.iter().map(|(k, v)| (k.clone(), brief(v))).collect::<Vec<_>>()))
    }
    Ok(())
}

/// The output stream failed after `l` bytes: what was delivered is a prefix, nothing was done afterwards, and the failure is not hidden.
fn judge_cut(sc: &Scenario, text: &str, a: &Run, b: &Run, l: usize, full: usize) -> Result<(), String> {
    if b.hung { return Err("the process made no progress for 25 s".into()) }
    if let Some(s) = b.signal { return Err(format!("the process was ended by signal {}", s)) }
    if l >= full { if a.out() != b.out() || a.calls() != b.calls() { return Err("it behaves differently although the stream did not fail".into()) } return Ok(()) }
    if !a.out().starts_with(&b.out()) { return Err("what was delivered is not a prefix of the output".into()) }
    if !a.calls().starts_with(&b.calls()) { return Err("its foreign calls are not a prefix of those made otherwise".into()) }
    let at = b.recs.iter().position(|r| matches!(r, Rec::Fault(f) if f == "output stream failure")).ok_or("the failure was never noticed")?;
    for r in &b.recs[at..] { match r { Rec::Call(_) | Rec::Write(..) | Rec::Patch(..) | Rec::Gone(_) | Rec::Init(_) => return Err(format!("it went on after its output had failed: {}", crate::check::short(&format!("{:?}", r)))), _ => {} } }
    if b.code == Some(0) && b.err().is_empty() { return Err("the failure is not reported".into()) }
    if sc.mode != "p:repl" {
        let (e, m) = expect(sc, text, after_ops(sc.proc.as_ref().unwrap(), b, 1), Some(l));
        if let End::WriteFail = e[0].1 {
            let want = ffis(e.iter());
            if want != b.calls() { return Err(format!("it did not stop at the print that failed: {} foreign calls instead of {}", b.calls().len(), want.len())) }
            let mut d = initial(sc.proc.as_ref().unwrap()); for r in &b.recs { if !matches!(r, Rec::Write(p, _) | Rec::Patch(p, ..) if p == SCRIPT) { apply(&mut d, r) } }
            if let Some(e) = differs(&m.outside.as_ref().unwrap().disk, &d) { return Err(format!("it did not stop at the print that failed: {}", e)) }
        }
    }
    Ok(())
}

pub fn input(t: &str) -> Input { Input { kind: "ok".into(), lines: t.split('\n').map(|s| s.to_string()).collect() } }
