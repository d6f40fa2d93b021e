//! Judges what the real system did against what the reference model says it should have done.
use crate::model::{ErrRep, Ev, Msg, Unit};

pub fn show(ev: &[Ev]) -> String { ev.iter().map(|e| match e { Ev::Out(s) => format!("out {:?}", s), Ev::Ffi(s) => format!("call {}", s) }).collect::<Vec<_>>().join("; ") }

pub fn events(exp: &[Ev], act: &[Ev]) -> Result<(), String> {
    if exp == act { return Ok(()) }
    Err(format!("expected [{}] but got [{}]", show(exp), show(act)))
}

/// Splits the error report off the end of the actual events of a session input.
pub fn split_report(exp: &[Ev], act: &[Ev]) -> Result<String, String> {
    let bad = || format!("expected [{}] followed by an error report but got [{}]", show(exp), show(act));
    let mut act = act.to_vec();
    let Some(Ev::Out(last)) = act.pop() else { return Err(bad()) };
    if act.len() == exp.len() { return if act == exp { Ok(last) } else { Err(bad()) } }
    if act.len() + 1 != exp.len() || act[..] != exp[..act.len()] { return Err(bad()) }
    let Some(Ev::Out(p)) = exp.last() else { return Err(bad()) };
    match last.strip_prefix(p.as_str()) { Some(r) if !r.is_empty() => Ok(r.to_string()), _ => Err(bad()) }
}

/// A report of a compile error: at least one located message and nothing else.
pub fn compile_report(text: &str, name: &str) -> Result<(), String> {
    if text.contains("\n  at: line ") && text.contains(&format!(" ({})\n", name)) { Ok(()) } else { Err(format!("expected a compile error report, got {:?}", text)) }
}

pub fn report(text: &str, e: &ErrRep, units: &[Unit]) -> Result<(), String> {
    let fail = |s: &str| Err(format!("{}\n--- reported\n{}--- expected\n{}", s, text, render(e, units)));
    let Some(at) = text.rfind("\n  at: line ") else { return fail("no location in the report") };
    let msg = &text[..at];
    match &e.msg { Msg::Exact(m) => if msg != m { return fail("wrong error message") }, Msg::Prefix(m) => if !msg.starts_with(m.as_str()) { return fail("wrong error message") } }
    let mut lines = text[at + 1..].split('\n');
    let head = lines.next().unwrap();
    let unit = &units[e.unit];
    let src: Vec<&str> = unit.text.split('\n').collect();
    if e.loc.a > 0 {
        let a = e.loc.a;
        let ok = head == format!("  at: line {} ({})", a, unit.name) || (head.starts_with(&format!("  at: line {} - ", a)) && head.ends_with(&format!(" ({})", unit.name)));
        if !ok { return fail("wrong location") }
        let q = src[a as usize - 1].trim_end_matches('\r');
        let ok = text.lines().any(|l| { let l = l.trim_start(); l == if q.is_empty() { format!("{} |", a) } else { format!("{} | {}", a, q) } });
        if !ok { return fail("the failing source line is not quoted") }
    }
    let mut want = vec![];
    for (i, (o, l)) in e.trace.iter().enumerate() {
        for (p, n) in &e.repeats { if *p == i { want.push(format!("  ... above line repeated {} more time(s) ...", n)) } }
        want.push(format!("  at: `{}` (line {})", o, l));
    }
    for (p, n) in &e.repeats { if *p == e.trace.len() { want.push(format!("  ... above line repeated {} more time(s) ...", n)) } }
    for w in want {
        match lines.next() { Some(l) if l == w || (w.contains("(line 0)") && l.starts_with(w.trim_end_matches("0)"))) => {} _ => return fail("wrong call stack") }
    }
    match lines.next() { Some("") => {} _ => return fail("wrong call stack") }
    // the quoted lines, in order, and a mark under what failed
    let range: Vec<usize> = head["  at: line ".len()..].split(" (").next().unwrap().split(" - ").map(|n| n.parse().unwrap_or(0)).collect();
    let (a, b) = (range[0], *range.last().unwrap());
    if a == 0 || b < a || b > src.len() { return fail("wrong location: no such line") }
    let width = (b + 1).to_string().len();
    for k in a..=b {
        let q = src[k - 1].strip_suffix('\r').unwrap_or(src[k - 1]);
        let want = if q.is_empty() { format!("{:width$} |", k) } else { format!("{:width$} | {}", k, q) };
        if lines.next() != Some(want.as_str()) { return fail("source line is not quoted") }
    }
    let Some(mark) = lines.next().and_then(|l| l.strip_prefix(&format!("{:width$} |", b + 1))) else { return fail("source line is not quoted: no mark") };
    if a == b {
        let q: Vec<char> = src[a - 1].chars().collect();
        let m: Vec<char> = mark.strip_prefix(' ').unwrap_or(mark).chars().collect();
        let from = m.iter().position(|c| *c == '^').unwrap_or(m.len());
        let good = from < m.len() && m[from..].iter().all(|c| *c == '^') && m[..from].iter().enumerate().all(|(i, c)| *c == if q.get(i) == Some(&'\t') { '\t' } else { ' ' });
        if !good { return fail("source line is not quoted: bad mark") }
        if e.loc.a > 0 && (m.len() > q.len() || q[from].is_whitespace() || q[m.len() - 1].is_whitespace()) { return fail("source line is not quoted: the mark is under nothing") }
    } else if !mark.starts_with(" ^") && (a..=b).any(|k| !src[k - 1].trim_end_matches('\r').is_empty()) { return fail("source line is not quoted: no mark") }
    if lines.any(|l| !l.is_empty()) { return fail("more text in the report") }
    Ok(())
}
pub fn render(e: &ErrRep, units: &[Unit]) -> String {
    let mut s = format!("{}\n  at: line {} ({})\n", match &e.msg { Msg::Exact(m) => m.clone(), Msg::Prefix(m) => format!("{}...", m) }, e.loc.a, units[e.unit].name);
    for (o, l) in &e.trace { s += &format!("  at: `{}` (line {})\n", o, l) }
    for (p, n) in &e.repeats { s += &format!("  (repeat at {}: {})\n", p, n) }
    s
}
