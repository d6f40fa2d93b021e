//! The real system under simulation: its reader, writer and foreign functions are simulator objects.
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::rc::Rc;
use cordy_sys::compiler::{self, FunctionLibrary};
use cordy_sys::repl::{ReadResult, Repl, RunResult};
use cordy_sys::vm::{ExitType, FunctionInterface, IntoValue, RuntimeError, ValuePtr, ValueResult, VirtualMachine};
use cordy_sys::SourceView;
use crate::alloc;
use crate::model::Ev;
use crate::plan::{FfiOutcome, Plan, Pv};
use crate::rng::mix;

#[derive(Default)]
pub struct World {
    pub ev: Vec<Ev>,
    pub raw: Vec<u8>,
    pub plan: Plan,
    pub ffi_calls: u64,
    /// how writes behave: 0 = whole, otherwise seeds short writes and interruptions
    pub write_seed: u64,
    pub write_limit: Option<usize>,
    pub written: usize,
    pub write_ops: u64,
    pub read_ops: u64,
    pub faults: [u64; 8],
}
pub const F_SHORT_WRITE: usize = 0;
pub const F_EINTR_WRITE: usize = 1;
pub const F_WRITE_FAIL: usize = 2;
pub const F_FFI: usize = 3;
pub const F_SHORT_READ: usize = 4;
pub const F_EINTR_READ: usize = 5;
pub const F_READ_FAIL: usize = 6;
pub const FAULT_NAMES: [&str; 8] = ["short write", "interrupted write", "output stream failure", "foreign function failure", "short read", "interrupted read", "input stream failure", "-"];

pub type W = Rc<RefCell<World>>;
impl World {
    fn flush(&mut self) { if !self.raw.is_empty() { let t = String::from_utf8_lossy(&self.raw).into_owned(); self.raw.clear(); if let Some(Ev::Out(x)) = self.ev.last_mut() { x.push_str(&t) } else { self.ev.push(Ev::Out(t)) } } }
    pub fn take(&mut self) -> Vec<Ev> { self.flush(); std::mem::take(&mut self.ev) }
}

pub struct SimWriter(pub W);
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _s = alloc::sim();
        let mut w = self.0.borrow_mut();
        w.write_ops += 1;
        let mut n = buf.len();
        if w.write_seed != 0 && n > 0 {
            let h = mix(w.write_seed ^ mix(w.write_ops));
            match h % 5 { 0 => { w.faults[F_EINTR_WRITE] += 1; return Err(io::Error::from(io::ErrorKind::Interrupted)) } 1 | 2 => { let k = 1 + (h >> 8) as usize % n; if k < n { w.faults[F_SHORT_WRITE] += 1 } n = k } _ => {} }
        }
        if let Some(l) = w.write_limit {
            if w.written >= l && n > 0 { w.faults[F_WRITE_FAIL] += 1; return Err(io::Error::from_raw_os_error(28)) }
            n = n.min(l - w.written);
        }
        w.written += n;
        w.raw.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub struct SimReader { w: W, data: Vec<u8>, pos: usize, seed: u64, fail_at: Option<usize>, ops: u64, window: usize }
impl SimReader {
    pub fn new(w: W, data: Vec<u8>, seed: u64, fail_at: Option<usize>) -> SimReader { SimReader { w, data, pos: 0, seed, fail_at, ops: 0, window: 0 } }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { let n = { let b = self.fill_buf()?; let n = b.len().min(buf.len()); buf[..n].copy_from_slice(&b[..n]); n }; self.consume(n); Ok(n) }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let _s = alloc::sim();
        if self.window <= self.pos {
            self.ops += 1;
            let mut w = self.w.borrow_mut();
            w.read_ops += 1;
            let end = self.fail_at.unwrap_or(self.data.len()).min(self.data.len());
            let h = mix(self.seed ^ mix(self.ops));
            if self.seed != 0 && h % 4 == 0 { w.faults[F_EINTR_READ] += 1; return Err(io::Error::from(io::ErrorKind::Interrupted)) }
            if self.pos >= end {
                if self.fail_at.is_some() { w.faults[F_READ_FAIL] += 1; return Err(io::Error::from_raw_os_error(5)) }
                return Ok(&[])
            }
            let n = if self.seed == 0 { end - self.pos } else { let k = 1 + (h >> 8) as usize % 9; if k < end - self.pos { w.faults[F_SHORT_READ] += 1 } k.min(end - self.pos) };
            self.window = self.pos + n;
        }
        Ok(&self.data[self.pos..self.window])
    }
    fn consume(&mut self, n: usize) { self.pos += n }
}

pub struct SimFfi(pub W);
impl FunctionInterface for SimFfi {
    fn handle(&mut self, lib: &FunctionLibrary, id: u32, args: Vec<ValuePtr>) -> ValueResult {
        let _s = alloc::sim();
        let e = lib.lookup(id);
        let mut w = self.0.borrow_mut();
        w.flush();
        let text = format!("{}->{}({})", e.module_name, e.method_name, args.iter().map(|a| a.to_repr_str().to_string()).collect::<Vec<_>>().join(", "));
        if w.plan.web { let t = format!("called native function '{}->{}{}'\n", e.module_name, e.method_name, args.to_value().to_repr_str()); if let Some(Ev::Out(x)) = w.ev.last_mut() { x.push_str(&t) } else { w.ev.push(Ev::Out(t)) } return ValuePtr::nil().ok() }
        w.ev.push(Ev::Ffi(text));
        let i = w.ffi_calls; w.ffi_calls += 1;
        match w.plan.ffi(i, &e.method_name) {
            FfiOutcome::Fail(m) => { w.faults[F_FFI] += 1; let _r = alloc::real(); RuntimeError::OSError(m.as_str().to_string()).err() }
            FfiOutcome::Val(v) => { let _r = alloc::real(); match v {
                Pv::Arg => args.into_iter().next().unwrap_or(ValuePtr::nil()).ok(),
                Pv::Nil => ValuePtr::nil().ok(), Pv::Bool(b) => b.to_value().ok(), Pv::Int(i) => i.to_value().ok(), Pv::Str(s) => s.as_str().to_string().to_value().ok(),
            } }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RealEnd { Ok, Exit, Error(String), Compile(String), Panic(String), ReadError(String) }

pub struct RealRepl { pub w: W, repl: Repl<SimWriter, SimFfi> }
impl RealRepl {
    pub fn new(w: W) -> RealRepl { let _r = alloc::real(); RealRepl { repl: Repl::new(SimWriter(w.clone()), SimFfi(w.clone())), w } }
    pub fn prompt(&self) -> &'static str { self.repl.prompt() }
    pub fn line(&mut self, s: &str) -> (Vec<Ev>, RealEnd) {
        let r = { let _r = alloc::real(); self.repl.run(ReadResult::Ok(s.to_string())) };
        let ev = self.w.borrow_mut().take();
        (ev, match r { RunResult::Ok => RealEnd::Ok, RunResult::Exit => RealEnd::Exit, RunResult::Error(e) => RealEnd::ReadError(e) })
    }
}

/// Compiles and runs a script against the simulated world.
pub fn script(w: &W, name: &str, text: &str, optimise: bool, read: SimReader, argv: Vec<String>) -> (Vec<Ev>, RealEnd) {
    let end = {
        let _r = alloc::real();
        let view = SourceView::new(name.to_string(), text.to_string());
        match compiler::compile(optimise, &view) {
            Err(e) => RealEnd::Compile(e.join("\n")),
            Ok(c) => {
                let mut vm = VirtualMachine::new(c, view, read, SimWriter(w.clone()), SimFfi(w.clone()));
                vm.with_args(argv);
                match vm.run_until_completion() { ExitType::Error(e) => RealEnd::Error(vm.view().format(&e)), ExitType::Exit | ExitType::Return | ExitType::Yield => RealEnd::Ok }
            }
        }
    };
    let ev = w.borrow_mut().take();
    (ev, end)
}
