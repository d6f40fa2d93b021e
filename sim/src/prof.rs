//! What each property's runs are made of.
use crate::gen::{session, Prof, S};
use crate::rng::{mix, Rng};
use crate::scen::{Input, Scenario};

fn base() -> Prof { Prof { w: vec![], fail: 0, ffi_fail: 0, reject: 0, cut: 0, dump: 60, n: (4, 12), depth: 3, stmts_per_input: 2, redeclare: 0, fns_in_data: false, unicode: false } }
/// a little of everything that is not the property's own subject
fn common() -> Vec<(S, u32)> { use S::*; vec![(Let, 8), (LetPat, 3), (LetMany, 2), (Assign, 5), (OpAssign, 4), (Elem, 4), (SetPat, 3), (Print, 4), (Probe, 4), (If, 5), (While, 3), (For, 4), (Loop, 2), (Do, 3), (Fn, 6), (Call, 6), (Closure, 2), (SharedPair, 1), (LoopCapture, 1), (NestCapture, 1), (Struct, 2), (Members, 2), (Member, 4), (Inst, 2), (Method, 3), (Mutate, 4), (Callback, 3), (Expr, 2), (Shadow, 1), (Partial, 2), (Late, 1)] }
fn with(mut w: Vec<(S, u32)>, own: &[(S, u32)]) -> Vec<(S, u32)> {
    for (s, k) in own { if let Some(e) = w.iter_mut().find(|e| e.0 == *s) { e.1 = *k } else { w.push((*s, *k)) } }
    w
}

pub fn scenario(property: &str, seed: u64) -> Option<Scenario> {
    use S::*;
    // swarm: each run also drops a random part of the common statements
    let mut r = Rng::new(mix(seed ^ 0x5157_4152_4d));
    let mut c = common();
    if r.chance(1, 2) { c.retain(|_| !r.chance(1, 3)); }
    if c.is_empty() { c = common() }
    if r.chance(1, 20) { c.push((Scale, 10)) }
    let mut p = base();
    p.depth = 2 + r.below(2) as u32;
    let mut mode = "repl";
    match property {
        "C01" => { p.w = with(c, &[(Callback, 14), (SortFail, 8), (Assert, 6), (Exit, 5), (Memo, 3), (DictDefault, 3), (Recursion, 2), (Eval, 3), (Unroll, 2)]); p.fail = 25 + 25 * r.below(3) as u32; p.ffi_fail = 20; if r.chance(1, 3) { mode = "script" } }
        "C02" => { p.w = with(c, &[(Members, 4), (Member, 8), (LetMany, 6), (LetPat, 8), (Decor, 2), (Closure, 5), (LoopCapture, 3), (Callback, 6), (Assert, 2), (Struct, 4)]); p.fail = 60 + 30 * r.below(3) as u32; p.ffi_fail = 25; p.dump = 60; p.n = (6, 16) }
        "C03" => { p.w = with(c, &[(Members, 6), (Member, 12), (Closure, 14), (SharedPair, 12), (LoopCapture, 16), (NestCapture, 14), (Shadow, 6), (Fn, 8), (Escape, 0), (Late, 3), (Assign, 8), (OpAssign, 8)]); p.fail = *r.pick(&[0, 0, 20, 60]); p.ffi_fail = if p.fail > 0 { 10 } else { 0 }; p.dump = 40; p.n = (5, 14) }
        "C04" => { p.w = with(c, &[(Members, 5), (Member, 8), (Struct, 4), (Closure, 4)]); p.reject = 35; p.fail = *r.pick(&[0, 0, 30]); p.redeclare = 0; p.n = (6, 16) }
        "C05" => { p.w = with(c, &[(Members, 3), (Member, 5), (Closure, 4), (NestCapture, 3), (Struct, 4), (Chain, 2)]); p.cut = 85; p.fail = *r.pick(&[0, 0, 20]); p.reject = *r.pick(&[0, 10]); p.unicode = r.chance(1, 4) }
        "C06" => { p.w = with(c, &[(Members, 3), (Member, 6), (Eval, 34), (Memo, 3), (DictDefault, 3)]); p.fail = *r.pick(&[0, 20, 40]); if r.chance(1, 4) { mode = "script" } }
        "C14" => { p.w = with(c, &[(Memo, 20), (DictDefault, 20), (Call, 8)]); p.fail = *r.pick(&[0, 15, 40]); p.ffi_fail = 30 }
        "C15" => { p.w = with(c, &[(Iterate, 40), (SetOps, 6), (Mutate, 6)]); p.fail = *r.pick(&[0, 0, 15]); p.dump = 40 }
        "C20" => { p.w = vec![(Scale, if r.chance(1, 20) { 8 } else { 0 }), (Jumps, 40), (LoopCapture, 3), (Fn, 2), (For, 2), (While, 2), (Loop, 2), (Let, 4), (Print, 2)]; p.fail = *r.pick(&[0, 0, 0, 15]); p.n = (2, 6); if r.chance(1, 3) { mode = "script" } }
        "C13" => {
            p.w = with(c, &[(Callback, 6), (Eval, 4), (Exit, 2), (Assert, 2), (Struct, 3), (Escape, 4), (Unroll, 2)]); p.fail = *r.pick(&[0, 20, 50]); p.reject = *r.pick(&[0, 15, 30]); p.cut = *r.pick(&[0, 30, 60]); p.unicode = r.chance(1, 3); p.n = (3, 9);
            // several sessions of the console, each started by load(), with texts highlighted in between
            let mut sc = session(property, seed, p.clone(), "web");
            for k in 0..r.below(3) as u64 {
                if r.chance(1, 2) { let t = *r.pick(&["fn foo() {", "'open string", "[1, 2,", "/* comment", "if true {", "(", "let fresh0 =", "print(1,", "'ünï ö", "['日本', "]); sc.inputs.push(Input { kind: "open".into(), lines: vec![t.into()] }) }
                let more = session(property, mix(seed + 77 + k), p.clone(), "web");
                sc.inputs.push(Input { kind: "load".into(), lines: vec![] });
                sc.inputs.extend(more.inputs);
            }
            const TEXTS: &[&str] = &["let x = 'hello' + 3 // comment", "", "'open", "[1, 2][0]", "fn foo(a) -> a . map(fn(x) { x })", "/* open comment", "é = 'naïve'", "a[0]]]", "\\", "x /* c */ y", "'日本語' . len // 日本", "1.2.3 0x5g $ @", "}", "if x then 3 else nil", "  \t ", "'a\\'b' + '\\n' . print"];
            let old = std::mem::take(&mut sc.inputs);
            let mut last = String::new();
            for i in old {
                if r.chance(1, 4) { sc.inputs.push(Input { kind: "scan".into(), lines: vec![(*r.pick(TEXTS)).to_string()] }) }
                if r.chance(1, 6) && i.kind != "load" { sc.inputs.push(Input { kind: "scan".into(), lines: vec![i.lines[0].clone()] }) }
                if r.chance(1, 12) && !last.is_empty() { sc.inputs.push(Input { kind: "scan".into(), lines: vec![last.chars().take(r.below(30)).collect()] }) }
                last = i.lines.join(" ");
                sc.inputs.push(i);
            }
            return Some(sc)
        }
        "C16" => {
            p.w = with(c, &[(Callback, 8), (SortFail, 3), (Memo, 3), (DictDefault, 3), (Eval, 4), (Unroll, 2), (Iterate, 8), (SetOps, 3), (Exit, 2), (Assert, 2), (Escape, 2), (Decor, 2), (Chain, 2), (Jumps, 3), (Struct, 4), (LoopCapture, 3)]);
            if r.chance(1, 10) { let mut sc = crate::steadygen::scenario(property, seed); if r.chance(1, 3) { sc.scatter = mix(seed) | 1 } return Some(sc) }
            p.fail = *r.pick(&[0, 30, 60, 90]); p.ffi_fail = *r.pick(&[0, 30]); p.reject = *r.pick(&[0, 0, 15]); p.cut = *r.pick(&[0, 0, 20]); p.fns_in_data = false; p.unicode = r.chance(1, 4);
            if r.chance(1, 3) { mode = "script" }
            let mut sc = if r.chance(1, 2) { crate::wildgen::scenario(property, seed, if mode == "repl" { "free" } else { "free-s" }) } else if r.chance(1, 6) { let mut s = crate::optgen::scenario(property, seed); s.mode = "opt-l".into(); s } else { session(property, seed, p, mode) };
            if sc.mode == "script" && r.chance(1, 3) { sc.mode = "opt-m".into() }
            sc.mem = true; if r.chance(1, 3) { sc.scatter = mix(seed) | 1 }
            return Some(sc)
        }
        "C17" => {
            let script = r.chance(1, 2);
            if r.chance(1, 2) {
                p.w = with(c, &[(Callback, 5), (Memo, 3), (DictDefault, 3), (Eval, 3), (SetOps, 5), (Struct, 4), (Closure, 4), (Decor, 2)]); p.fail = *r.pick(&[0, 30, 60]); p.ffi_fail = 20; p.reject = if script { 0 } else { *r.pick(&[0, 20]) }; p.unicode = r.chance(1, 3);
                let mut sc = session(property, seed, p, if script { "script" } else { "repl" });
                sc.mode = (*r.pick(if script { &["det:sm", "det:smo"] } else { &["det:rm", "det:rm"] })).into();
                return Some(sc)
            }
            return Some(crate::wildgen::scenario(property, seed, *r.pick(if script { &["det:s", "det:so"] } else { &["det:r", "det:r"] })))
        }
        "C18" => { p.w = with(c, &[(Chain, 22), (Recursion, 4), (Callback, 5), (Assert, 4), (Eval, 2)]); p.fail = 60; p.ffi_fail = 25; p.unicode = r.chance(1, 2); p.cut = 20; if r.chance(1, 2) { mode = "script" } }
        "C12" => {
            if r.chance(1, 5) { return Some(crate::wildgen::scenario(property, seed, "opt-f")) }
            if !r.chance(1, 4) { return Some(crate::optgen::scenario(property, seed)) }
            p.w = with(c, &[(Callback, 6), (Closure, 4), (NestCapture, 2), (Recursion, 2), (Struct, 3), (Exit, 2), (Assert, 2), (Unroll, 2), (Eval, 2)]); p.fail = *r.pick(&[0, 20]); p.ffi_fail = 20; mode = "script";
            let mut sc = session(property, seed, p, mode); sc.mode = "opt-m".into();
            return Some(sc)
        }
        "C07" | "C08" | "C09" | "C10" | "C11" | "C19" => {
            p.w = c.into_iter().map(|(s, k)| (s, k.div_ceil(3))).collect(); p.n = (3, 10); p.unicode = r.chance(1, 4);
            return Some(crate::procgen::scenario(property, seed, p))
        }
        _ => return None,
    }
    Some(session(property, seed, p, mode))
}

/// number of runs: quick, thorough
pub fn runs(property: &str) -> (u64, u64) {
    let q = match property { "C01" | "C03" => 110_000, "C05" => 36_000, "C20" => 20_000, "C12" => 300_000, "C16" => 60_000, "C17" => 50_000, "C07" | "C08" | "C09" | "C10" | "C11" | "C19" => 50_000, _ => 60_000 };
    (q, q * 30)
}
pub fn level(_property: &str) -> &'static str { "exploration" }

const REAL: &str = "compiler (scanner, parser, optimiser, code generator), incremental compile, virtual machine, REPL, standard library, error reporting: all of cordy-sys, unmodified, linked from /repo's working tree";
const STUB: &str = "the outside world only, behind the traits the code already has: the terminal (the simulator feeds lines to Repl::run), standard output (Write), standard input (BufRead), native libraries (FunctionInterface)";
/// properties whose runs are whole processes
pub fn whole(property: &str) -> bool { matches!(property, "C07" | "C08" | "C09" | "C10" | "C11" | "C19") }
const REAL2: &str = "the whole cordy binary as shipped (main.rs, ffi.rs, cordy-sys, the Rust standard library's buffered I/O), built from /repo's working tree and run as a process of its own";
const STUB2: &str = "the operating system's calls, in a preloaded library (sim/proc/shim.c): read, write, writev, open, openat, stat, close, lseek on standard streams and on a simulated disk; dlopen and dlsym of simulated libraries (the foreign functions are stubs which record their arguments); an exit at a chosen call is the crash";
/// how cases are made; what runs for real; what is simulated
pub fn doc(property: &str) -> (String, &'static str, &'static str) {
    let t = match property {
        "C01" => "each run generates a session or script rich in library functions driving callbacks; operations that fail, failing native calls, assertions and `exit` are placed at random points, also inside callbacks, and the transcript must stop there.",
        "C02" => "each run generates a session of 6 to 16 inputs of which many stop with a runtime error at a random point (nested calls, loops, half-built literals, destructuring, declarations); probes after every failure compare the whole visible state, failed names are declared again.",
        "C03" => "each run generates a session of closures over loop, block, function and global variables, which escape by every route (return, break, continue, error) and are called afterwards in random interleavings.",
        "C04" => "each run generates a session into which rejected inputs (scan, syntax and semantic errors after valid declarations) are interleaved at random; later inputs re-declare their names and probe everything.",
        "C05" => "each run generates a session whose inputs are cut into lines at random places where they are certainly incomplete; every intermediate line must only ask for continuation.",
        "C06" => "each run generates a session or script with evals (nested, failing, rejected, returning functions) in every context: callbacks, loops, defaults, closures.",
        "C14" => "each run generates histories of memoised calls and dict-default lookups whose computations fail, recurse and re-enter.",
        "C15" => "each run generates loops and library functions over collections with mutations of that collection scheduled at random steps.",
        "C13" => "each run generates a history of load, exec, prompt and scan calls on the real web console, with succeeding, failing, rejected and incomplete inputs.",
        "C16" => "each run generates a session over acyclic values with failures at random points; every allocation made while the real code runs is accounted, freed memory is poisoned and checked for double release, and nothing may remain after the session is dropped; one run in ten repeats a statement which changes no variable and must not come to hold more.",
        "C07" => "each run generates a program which reads lines and whole input by many routes (callbacks, memoisation, eval, partials), a text of standard input with every kind of line end, long lines and multi-byte characters, and a delivery of it in pieces of random size with interrupted calls.",
        "C08" => "as C07, with the input failing at a random byte with a random error code, or being no UTF-8 at a random byte; reading then must be an IOError at that point, and never data that was not read.",
        "C09" => "each run executes a printing program up to twice as a whole process: with its output taken in pieces of random size and interrupted, and with the output failing for good after a random number of bytes; what was delivered must be exactly the output, or a prefix of it after which nothing more is done.",
        "C10" => "each run executes a program of reads and writes of files as a whole process, with failures when opening, reading or writing at a random operation and byte, short and interrupted transfers, missing and non-UTF-8 files, and a kill at a random call of the operating system; the simulated disk is compared with the reference model's at every print, foreign call and the end.",
        "C11" => "each run executes a program of native calls as a whole process against simulated dynamic libraries: loads that fail once or for ever, missing symbols, missing initialisers, shared libraries, foreign errors and results of every type; every call, load and initialisation is recorded and compared.",
        "C19" => "each run executes a program as a whole process with random arguments, options, environment (also not Unicode) and a script that is read in pieces, or cannot be read, or is not UTF-8, or does not compile.",
        "C17" => "each run generates a session or script, executes it in a fresh state and again after other work in the same process with the allocator's addresses perturbed, and the transcripts must be byte-identical.",
        _ => "",
    };
    if whole(property) { return (t.into(), REAL2, STUB2) }
    (t.into(), REAL, STUB)
}
