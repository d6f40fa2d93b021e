#![feature(alloc_error_hook)]
mod alloc; mod json; mod rng; mod plan; mod lang; mod model; mod real; mod compare; mod scen; mod gen; mod optgen; mod wildgen; mod steadygen; mod proc; mod procgen; mod prof; mod check;

#[global_allocator] static ALLOC: alloc::Sim = alloc::Sim;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::thread::Builder::new().stack_size(512 << 20).spawn(move || real_main(a)).unwrap().join().unwrap();
}
fn real_main(a: Vec<String>) {
    // memory that ran out (a string repeated 2^60 times) ends the run and not the process
    std::alloc::set_alloc_error_hook(|l| panic!("out of memory: {} bytes", l.size()));
    match a.get(1).map(|s| s.as_str()) {
        Some("try") => {
            // inputs separated by lines of dashes; `--script` runs the text as a script
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut sc = scen::Scenario::default();
            sc.mode = a.get(3).map(|s| s.to_string()).unwrap_or("repl".into());
            for f in a.iter().skip(4) { sc.plan.fail.push(f.parse().unwrap()) }
            if sc.mode == "repl" { for p in t.split("---\n") { sc.inputs.push(scen::Input { kind: "ok".into(), lines: p.trim_end().split('\n').map(|s| s.to_string()).collect() }) } }
            else { sc.inputs.push(scen::Input { kind: "ok".into(), lines: t.trim_end().split('\n').map(|s| s.to_string()).collect() }) }
            let o = scen::run(&sc, true);
            println!("{:?} {}", o.abort, o.violation.unwrap_or("agrees".into()));
        }
        Some("fuzz") => fuzz(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(5).is_some()),
        Some("worker") => { let g = |i: usize| a[i].parse::<u64>().unwrap(); check::worker(&a[2], g(3), g(4), g(5), g(6)) }
        Some("one") => check::one(),
        Some("check") => std::process::exit(check::check(&a[2])),
        Some("replay") => std::process::exit(check::replay(&a[2])),
        Some("shrink") => { let sc = prof::scenario(&a[2], a[3].parse().unwrap()).unwrap(); match check::isolated(&sc, 40) { Some(v) => { let (s, w) = check::shrink(&sc, &v, std::time::Duration::from_secs(20)); for i in &s.inputs { println!("--- {}\n{}", i.kind, i.lines.join("\n")) } println!("{:?} {}\n=> {}", s.plan.fail, s.mode, w) } None => println!("passes") } }
        Some("show") => { let sc = prof::scenario(&a[2], a[3].parse().unwrap()).unwrap(); for i in &sc.inputs { println!("--- {}\n{}", i.kind, i.lines.join("\n")) } println!("{:?}", sc.plan) }
        Some("wild") => { let sc = wildgen::scenario(&a[2], a[3].parse().unwrap(), &a[4]); for i in &sc.inputs { println!("{}", i.lines.join("\n")) } let t = scen::transcript(&sc, false); println!("{}", t) }
        _ => eprintln!("usage: sim check|worker|replay|try ..."),
    }
}

fn fuzz(prop: &str, from: u64, n: u64, stop: bool) {
    check::limit_memory(6000 << 20);
    std::panic::set_hook(Box::new(|p| println!("panic at {:?} {}", p.location().map(|l| (l.file().to_string(), l.line())), std::env::var("BT").map(|_| std::backtrace::Backtrace::force_capture().to_string()).unwrap_or_default())));
    let mut blocks = 0u64; let mut cyc = 0u64; let (mut aborts, mut bad, mut inputs, mut errs, mut steps) = (std::collections::BTreeMap::new(), 0, 0, 0, 0);
    for seed in from..from + n {
        let r = std::panic::catch_unwind(|| { let sc = prof::scenario(prop, seed).unwrap(); let o = scen::run(&sc, std::env::var("VERB").is_ok()); (sc, o) });
        match r {
            Ok((_, o)) => { blocks += o.blocks; cyc += o.features.contains("cycle-left") as u64; inputs += o.units; errs += o.errors; steps += o.steps; if let Some(a) = o.abort { if std::env::var("ABORT").is_ok() { println!("abort {} {}", seed, a) } *aborts.entry(a).or_insert(0u64) += 1 } if let Some(v) = o.violation { bad += 1; println!("== seed {} {}", seed, if stop { v } else { brief(&v) }); if stop { break } } }
            Err(e) => { bad += 1; println!("== seed {} PANIC {:?}", seed, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))); if stop { break } }
        }
    }
    println!("{} blocks, {} runs left cycles", blocks, cyc);
    println!("{} runs, {} bad, {} inputs, {} errors, {} steps, aborts {:?}", n, bad, inputs, errs, steps, aborts);
}

fn brief(v: &str) -> String { let c: Vec<char> = v.chars().collect(); if c.len() <= 700 { v.into() } else { c[..250].iter().collect::<String>() + " ..... " + &c[c.len() - 440..].iter().collect::<String>() } }
