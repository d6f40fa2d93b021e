//! The executable reference model: a direct tree-walking interpreter for the subset of Cordy
//! which `lang` parses.  It shares no code with /repo.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::rc::Rc;
use crate::lang::*;
use crate::plan::{FfiOutcome, Plan, Pv};

// ---------------------------------------------------------------- values

#[derive(Clone)]
pub enum V {
    Nil, Bool(bool), Int(i64), Str(Rc<str>),
    List(Rc<RefCell<Vec<V>>>), Vector(Rc<RefCell<Vec<V>>>), Set(Rc<RefCell<Vec<V>>>), Dict(Rc<DictV>),
    Range(i64, i64, i64), Enum(Rc<V>),
    Fn(Rc<Clos>), Part(Rc<(V, Vec<V>)>), Nat(&'static str), Memo(Rc<Memo>),
    StructT(Rc<StructT>), Inst(Rc<Inst>), Mod(Rc<ModT>), Ffi(Rc<FfiFn>), FieldFn(Rc<str>), OpR(&'static str, Rc<V>),
}
pub struct DictV { pub items: RefCell<Vec<(V, V)>>, pub default: RefCell<Option<V>> }
pub struct Memo { f: V, cache: RefCell<Vec<(Vec<V>, V)>> }
pub struct StructT { name: String, fields: Vec<String>, methods: Vec<(String, V, bool)>, serial: u64, module: bool }
pub struct Inst { ty: Rc<StructT>, vals: RefCell<Vec<V>> }
pub struct ModT { name: String, fns: Vec<(String, Rc<FfiFn>)>, serial: u64 }
pub struct FfiFn { module: String, name: String, params: Vec<String>, variadic: bool, opt: usize, defaults: Rc<Vec<P>>, env: Env, line: u32, unit: usize }
pub struct Clos { f: Rc<Func>, env: Env, unit: usize }

type CellV = Rc<RefCell<V>>;
#[derive(Clone)]
pub struct Env(Option<Rc<EnvNode>>);
struct EnvNode { id: u32, cell: CellV, next: Env }
impl Env {
    fn get(&self, id: u32) -> Option<&CellV> {
        let mut e = self;
        while let Some(n) = &e.0 { if n.id == id { return Some(&n.cell) } e = &n.next }
        None
    }
    fn push(&mut self, id: u32, v: V) { self.push_cell(id, Rc::new(RefCell::new(v))) }
    fn push_cell(&mut self, id: u32, cell: CellV) { let next = self.clone(); *self = Env(Some(Rc::new(EnvNode { id, cell, next }))) }
}

fn holds(v: &V, id: usize, d: u32) -> Option<bool> {
    if d > 30 { return None }
    let any = |vs: &[V]| -> Option<bool> { let mut r = false; for x in vs { r |= holds(x, id, d + 1)? } Some(r) };
    match v {
        V::List(l) | V::Vector(l) => any(&l.borrow()),
        V::Set(l) => if Rc::as_ptr(l) as usize == id { Some(true) } else { any(&l.borrow()) },
        V::Dict(x) => if Rc::as_ptr(x) as usize == id { Some(true) } else { let mut r = false; for (a, b) in x.items.borrow().iter() { r |= holds(a, id, d + 1)?; r |= holds(b, id, d + 1)? } Some(r) },
        V::Inst(i) => any(&i.vals.borrow()),
        _ => Some(false),
    }
}

// ---------------------------------------------------------------- errors and events

#[derive(Clone, Debug, PartialEq)]
pub enum Msg { Exact(String), Prefix(String) }

#[derive(Clone, Debug, PartialEq)]
pub struct ErrRep { pub msg: Msg, pub unit: usize, pub loc: Loc, pub trace: Vec<(String, u32)>, pub repeats: Vec<(usize, usize)> }

pub enum Ctl { Err(Box<ErrRep>), Exit, Break, Continue, Return(V), Abort(&'static str) }
type Rs<T> = Result<T, Ctl>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Out(String), Ffi(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum End { Ok, Exit, Error(ErrRep), Rejected, Abort(String), WriteFail }

#[derive(Clone, Debug)]
pub struct UnitResult { pub events: Vec<Ev>, pub end: End }

/// What a foreign function answers.
#[derive(Clone, Debug, PartialEq)]
pub enum Fv { Nil, Bool(bool), Int(i64), Str(String), Arr(Vec<Fv>), NoText(Vec<u8>), Err(String), ErrNoText(Vec<u8>), Arg }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Lib { pub name: String, pub fail_first: u64, pub no_init: bool, pub missing: Vec<String> }
/// a file-system fault: at the op-th opened file, 'o'pening, 'r'eading or 'w'riting fails after so many bytes
#[derive(Clone, Debug, PartialEq, Default)]
pub struct FsFault { pub op: u64, pub stage: char, pub errno: i64, pub after: usize }
pub type Disk = std::collections::BTreeMap<String, Rc<Vec<u8>>>;
#[derive(Clone, Default)]
pub struct Outside {
    pub argv: Vec<String>, pub env: Vec<(String, String)>, pub disk: Disk, pub dirs: Vec<String>, pub faults: Vec<FsFault>, pub ops: u64,
    pub libs: Vec<Lib>, pub links: Vec<(String, String)>, pub outcomes: Vec<Fv>, pub attempts: Vec<u64>, pub loaded: HashSet<String>,
    /// what the disk really looked like after the op-th file operation, if it failed
    pub after: Vec<Disk>,
    /// the disk at every print (output bytes before it, bytes of it) and every foreign call
    pub at_out: Vec<(usize, usize, Disk)>, pub at_call: Vec<Disk>,
    /// every write that got as far as the file: its path, the text, the disk after it
    pub hist: Vec<(String, Vec<u8>, Disk)>,
    /// files whose content is not determined: a failed write
    pub failed_writes: Vec<String>, pub io_errors: u64,
}

pub struct Unit { pub name: String, pub text: String }

struct Frame { owner: String, site: u64, line: u32, unit: usize }

/// `hidden`: its declaration did not execute, so the name can not be referenced (nor conflicted with) any more
struct Global { name: String, cell: Option<CellV>, hidden: bool }

pub struct Model {
    globals: Vec<Global>,
    fields: HashSet<String>,
    pub units: Vec<Unit>,
    unit: usize,
    frames: Vec<Frame>,
    events: Vec<Ev>,
    next_id: u32,
    serial: u64,
    steps: u64,
    pub total_steps: u64,
    depth: u32,
    pub budget: u64,
    pub plan: Plan,
    pub ffi_calls: u64,
    pub stdin: Vec<char>,
    pub stdin_pos: usize,
    /// position at which the input stream fails for good
    pub stdin_fail: Option<usize>,
    late_names: Vec<String>,
    pub repl: bool,
    out_bytes: usize,
    /// bytes the output stream accepts before it fails for good
    pub out_limit: Option<usize>,
    pub features: HashSet<&'static str>,
    /// a whole process: its files, libraries, arguments and environment
    pub outside: Option<Outside>,
}

fn is_native(n: &str) -> Option<(&'static str, u8)> { NATS.iter().find(|x| x.0 == n).copied() }
// arity kind: 0 Arg0, 1 Arg1, 2 Arg2, 3 Arg3, 10 Arg0To1, 12 Arg1To2, 13 Arg1To3, 20 Unique, 21 Iter, 22 IterNonEmpty, 23 UniqueNonEmpty, 99 Invalid
const NATS: &[(&str, u8)] = &[
    ("read", 0), ("read_line", 0), ("print", 20), ("read_text", 1), ("write_text", 2), ("env", 14), ("argv", 0), ("bool", 1), ("int", 12), ("complex", 99), ("rational", 12),
    ("str", 1), ("list", 21), ("set", 21), ("dict", 21), ("heap", 21), ("vector", 20), ("function", 99), ("iterable", 99), ("repr", 1), ("eval", 1), ("typeof", 1), ("monitor", 1),
    ("to_lower", 1), ("to_upper", 1), ("replace", 3), ("search", 2), ("trim", 1), ("split", 2), ("join", 2), ("char", 1), ("ord", 1), ("hex", 1), ("bin", 1),
    ("len", 1), ("range", 13), ("enumerate", 1), ("sum", 22), ("min", 22), ("max", 22), ("min_by", 2), ("max_by", 2), ("map", 2), ("filter", 2), ("flat_map", 2), ("concat", 1), ("zip", 22),
    ("reduce", 2), ("sort", 22), ("sort_by", 2), ("group_by", 2), ("reverse", 22), ("permutations", 2), ("combinations", 2), ("any", 2), ("all", 2), ("memoize", 1), ("union", 2), ("intersect", 2), ("difference", 2), ("counter", 1), ("copy", 1),
    ("peek", 1), ("pop", 1), ("pop_front", 1), ("push", 2), ("push_front", 2), ("insert", 3), ("remove", 2), ("clear", 1), ("find", 2), ("rfind", 2), ("index_of", 2), ("rindex_of", 2), ("default", 2), ("keys", 1), ("values", 1),
    ("abs", 1), ("sqrt", 1), ("gcd", 22), ("lcm", 22), ("count_ones", 1), ("count_zeros", 1), ("real", 1), ("imag", 1), ("numer", 1), ("denom", 1),
];

pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Nil, V::Nil) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Str(x), V::Str(y)) => x == y,
        (V::List(x), V::List(y)) | (V::Vector(x), V::Vector(y)) => Rc::ptr_eq(x, y) || { let (x, y) = (x.borrow(), y.borrow()); x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| eq(p, q)) },
        (V::Set(x), V::Set(y)) => Rc::ptr_eq(x, y) || { let (x, y) = (x.borrow(), y.borrow()); x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| eq(p, q))) },
        (V::Dict(x), V::Dict(y)) => Rc::ptr_eq(x, y) || { let (x, y) = (x.items.borrow(), y.items.borrow()); x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| eq(&p.0, &q.0) && eq(&p.1, &q.1))) },
        (V::Inst(x), V::Inst(y)) => Rc::ptr_eq(x, y) || (x.ty.serial == y.ty.serial && { let (x, y) = (x.vals.borrow(), y.vals.borrow()); x.iter().zip(y.iter()).all(|(p, q)| eq(p, q)) }),
        (V::Range(a, b, c), V::Range(d, e, f)) => (a, b, c) == (d, e, f),
        (V::Nat(x), V::Nat(y)) => x == y,
        _ => { if a_fn(a) && a_fn(b) { FN_EQ.with(|f| f.set(true)) } false }
    }
}
fn a_fn(v: &V) -> bool { matches!(v, V::Enum(_) | V::Fn(_) | V::Part(_) | V::Memo(_) | V::OpR(..) | V::StructT(_) | V::Mod(_) | V::Ffi(_) | V::FieldFn(_) | V::Nat(_)) }
thread_local! { /// set when two functions were compared: their equality isn't modelled
    static FN_EQ: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }

fn tyname(v: &V) -> &'static str {
    match v { V::Nil => "nil", V::Bool(_) => "bool", V::Int(_) => "int", V::Str(_) => "str", V::List(_) => "list", V::Vector(_) => "vector", V::Set(_) => "set", V::Dict(_) => "dict", V::Range(..) => "range", V::Enum(_) => "enumerate", _ => "?" }
}
fn known_ty(v: &V) -> bool { tyname(v) != "?" }

fn truthy(v: &V) -> bool {
    match v {
        V::Nil => false, V::Bool(b) => *b, V::Int(i) => *i != 0, V::Str(s) => !s.is_empty(),
        V::List(l) | V::Vector(l) | V::Set(l) => !l.borrow().is_empty(), V::Dict(d) => !d.items.borrow().is_empty(),
        V::Range(a, b, c) => if *c > 0 { a < b } else { a > b },
        V::Enum(v) => truthy(v),
        _ => true
    }
}

pub fn to_str(v: &V) -> Option<String> { match v { V::Str(s) => Some(s.to_string()), V::Nat(n) => Some(n.to_string()), _ => repr(v, 0) } }
pub fn repr(v: &V, d: u32) -> Option<String> {
    if d > 24 { return None }
    let join = |x: &Vec<V>| -> Option<String> { Some(x.iter().map(|e| repr(e, d + 1)).collect::<Option<Vec<_>>>()?.join(", ")) };
    Some(match v {
        V::Nil => "nil".into(), V::Bool(b) => b.to_string(), V::Int(i) => i.to_string(),
        V::Str(s) => { let e = format!("{:?}", &**s); format!("'{}'", &e[1..e.len() - 1]) }
        V::List(l) => format!("[{}]", join(&l.borrow())?),
        V::Vector(l) => format!("({})", join(&l.borrow())?),
        V::Set(l) => format!("{{{}}}", join(&l.borrow())?),
        V::Dict(x) => format!("{{{}}}", x.items.borrow().iter().map(|(k, v)| Some(format!("{}: {}", repr(k, d + 1)?, repr(v, d + 1)?))).collect::<Option<Vec<_>>>()?.join(", ")),
        V::Inst(i) => format!("{}({})", i.ty.name, i.vals.borrow().iter().zip(&i.ty.fields).map(|(v, k)| Some(format!("{}={}", k, repr(v, d + 1)?))).collect::<Option<Vec<_>>>()?.join(", ")),
        V::StructT(t) if t.module => format!("module {}", t.name),
        V::StructT(t) => format!("struct {}({})", t.name, t.fields.join(", ")),
        _ => return None
    })
}

fn pat_repr(p: &Pat) -> String {
    match p {
        Pat::Name(v, _) => v.name.clone(),
        Pat::VarName(v, _) => format!("*{}", v.name),
        Pat::Empty => "_".into(),
        Pat::VarEmpty => "*_".into(),
        Pat::Terms(t) => format!("({})", t.iter().map(pat_repr).collect::<Vec<_>>().join(", ")),
        _ => "?".into(),
    }
}
fn func_repr(f: &Func) -> String {
    format!("fn {}({})", f.name.as_deref().unwrap_or("_"), f.params.iter().map(|p| pat_repr(&p.pat).trim_start_matches('*').to_string()).collect::<Vec<_>>().join(", "))
}

enum It { Coll(usize, V), Str(Vec<char>, usize), Range(i64, i64, i64), Enum(usize, Box<It>) }

// ---------------------------------------------------------------- static resolution

struct RVar { name: String, id: u32, init: bool, global: bool }
struct RFn { vars: Vec<RVar>, marks: Vec<usize> }
/// a name used before it is declared: by a global, a method of the module it is used in, or else an older global
struct Late { name: String, from: usize, in_module: bool, this: Option<u32>, store: bool, bound: Option<Ref>, fallback: Option<u32> }
struct RMod { module: bool, fields: Vec<String>, methods: Vec<(String, Rc<Func>)> }
struct Resolver<'a> { fns: Vec<RFn>, module: Option<RMod>, globals: &'a Vec<Global>, new_globals: Vec<String>, next_id: u32, late: Vec<Late>, fields: HashSet<String>, used_fields: Vec<String>, features: HashSet<&'static str>, err: bool, is_eval: bool, in_default: usize }

const GLOBAL_BIT: u32 = 0x8000_0000;

impl<'a> Resolver<'a> {
    fn top_level(&self) -> bool { self.fns.len() == 1 && self.fns[0].marks.is_empty() && !self.is_eval }
    fn depth_vars(&mut self) -> &mut RFn { self.fns.last_mut().unwrap() }
    /// declares a variable in the current scope; returns the reference id
    fn declare(&mut self, name: &str) -> u32 {
        if is_native(name).is_some() { self.err = true; return 0 }
        let global = self.top_level();
        let from = *self.fns.last().unwrap().marks.last().unwrap_or(&0);
        if self.fns.last().unwrap().vars[from..].iter().any(|v| v.name == name) { self.err = true; return 0 }
        let id = if global {
            if self.globals.iter().any(|g| !g.hidden && g.name == name) || self.new_globals.iter().any(|g| g == name) { self.err = true; return 0 }
            self.new_globals.push(name.to_string());
            ((self.globals.len() + self.new_globals.len() - 1) as u32) | GLOBAL_BIT
        } else { self.next_id += 1; self.next_id };
        self.depth_vars().vars.push(RVar { name: name.to_string(), id, init: false, global });
        id
    }
    fn init(&mut self, id: u32) { for v in self.depth_vars().vars.iter_mut().rev() { if v.id == id { v.init = true; return } } }
    fn push(&mut self) { let f = self.depth_vars(); let n = f.vars.len(); f.marks.push(n) }
    fn pop(&mut self) { let f = self.depth_vars(); let n = f.marks.pop().unwrap(); f.vars.truncate(n) }

    fn var(&mut self, v: &Var, store: bool) {
        let r = self.lookup(&v.name, store);
        *v.r.borrow_mut() = r;
    }
    fn lookup(&mut self, name: &str, store: bool) -> Ref {
        if is_native(name).is_some() { if store { self.err = true } return Ref::Native }
        for f in (0..self.fns.len()).rev() {
            for v in self.fns[f].vars.iter().rev() {
                if v.name == name && v.init && (f + 1 == self.fns.len() || !v.global) {
                    return if v.global { Ref::Global(v.id & !GLOBAL_BIT) } else { Ref::Local(v.id) }
                }
            }
        }
        if name == "self" { self.err = true; return Ref::Unresolved }
        let in_fn = self.fns.len() > 1 + self.in_default;
        let here = in_fn && self.module.is_some();
        if let (true, Some(m)) = (in_fn, &self.module) {
            let method = m.methods.iter().find(|x| x.0 == name).map(|x| x.1.clone());
            let own = if m.module { None } else { method.clone().filter(|f| f.is_self) };
            let field = !m.module && m.fields.iter().any(|f| f == name);
            if own.is_some() || field {
                let Some(this) = self.this() else { self.err = true; return Ref::Unresolved };
                if let Some(f) = own { if store { self.err = true } self.features.insert("this-method"); return Ref::ThisMethod(this, f) }
                self.features.insert("this-field");
                return Ref::ThisField(this)
            }
            if let Some(f) = method.filter(|f| !f.is_self) { if store { self.err = true } self.features.insert("own-method"); return Ref::Method(f) }
        }
        let old = if self.is_eval { None } else { self.globals.iter().position(|g| !g.hidden && g.name == name).map(|i| i as u32) };
        if self.fns.len() > 1 {
            let g = old.or_else(|| self.fns[0].vars.iter().rev().find(|v| v.global && v.init && v.name == name).map(|v| v.id & !GLOBAL_BIT));
            if g.is_some() && !here { return Ref::Global(g.unwrap()) }
            if in_fn {
                let this = self.this();
                self.late.push(Late { name: name.to_string(), from: self.new_globals.len(), in_module: here, this, store, bound: None, fallback: g });
                return Ref::Late(self.late.len() - 1)
            }
        } else if let Some(i) = old { return Ref::Global(i) }
        self.err = true;
        Ref::Unresolved
    }
    /// the variable which is `self` here
    fn this(&self) -> Option<u32> { self.fns.iter().rev().flat_map(|f| f.vars.iter().rev()).find(|v| v.name == "self" && v.init).map(|v| v.id) }
    /// a method binds the names used in its module before it
    fn method(&mut self, n: &str, f: &Rc<Func>) {
        for l in self.late.iter_mut().filter(|l| l.in_module && l.bound.is_none() && l.name == n) {
            if l.store { self.err = true }
            l.bound = Some(if f.is_self { match l.this { Some(t) => Ref::ThisMethod(t, f.clone()), None => { self.err = true; Ref::Unresolved } } } else { Ref::Method(f.clone()) });
            self.features.insert("late-method");
        }
        self.module.as_mut().unwrap().methods.push((n.to_string(), f.clone()));
    }
    /// what a late reference is bound to, if anything
    fn late_ref(&self, l: &Late) -> Option<Ref> {
        if l.bound.is_some() { return l.bound.clone() }
        // the first declaration that comes after it
        let i = if l.fallback.is_some() { None } else { self.new_globals[l.from..].iter().position(|g| *g == l.name) };
        i.map(|i| (self.globals.len() + l.from + i) as u32).or(l.fallback).map(Ref::Global)
    }
    fn pat_declare(&mut self, p: &Pat, ids: &mut Vec<u32>) {
        match p {
            Pat::Name(v, c) | Pat::VarName(v, c) => { let id = self.declare(&v.name); c.set(id); ids.push(id) }
            Pat::Terms(ts) => for t in ts { self.pat_declare(t, ids) },
            Pat::Empty | Pat::VarEmpty => {}
            Pat::Idx(..) | Pat::Fld(..) => self.err = true,
        }
    }
    fn pat_assign(&mut self, p: &Pat) {
        match p {
            Pat::Name(v, _) | Pat::VarName(v, _) => self.var(v, true),
            Pat::Terms(ts) => for t in ts { self.pat_assign(t) },
            Pat::Idx(a, i) => { self.expr(a); self.expr(i) }
            Pat::Fld(a, f) => { self.expr(a); self.field(f) }
            _ => {}
        }
    }
    fn field(&mut self, f: &str) { self.used_fields.push(f.to_string()) }
    fn block(&mut self, b: &[S]) { self.push(); self.stmts(b); self.pop() }
    fn stmts(&mut self, b: &[S]) { for s in b { self.stmt(s) } }
    fn func(&mut self, f: &Func) {
        self.fns.push(RFn { vars: vec![], marks: vec![] });
        let mut ids = vec![];
        // parameters are all locals of the function; defaults are evaluated before the body
        for p in &f.params { self.pat_declare(&p.pat, &mut ids) }
        for p in &f.params { if let Some(d) = &p.default { self.in_default += 1; self.expr(d); self.in_default -= 1 } }
        for id in ids { self.init(id) }
        match &f.body { Body::Expr(e) => self.expr(e), Body::Block(b) => self.block(b) }
        self.fns.pop();
    }
    fn stmt(&mut self, s: &S) {
        match &s.s {
            St::Let(v) => for (p, e, end) in v {
                let mut ids = vec![];
                self.pat_declare(p, &mut ids);
                if let Some(e) = e { self.expr(e) }
                for id in ids { self.init(id) }
            },
            St::Fn(f, decs) => {
                for d in decs { self.expr(d) }
                let id = self.declare(f.name.as_ref().unwrap()); f.decl.set(id); self.init(id);
                self.func(f);
            }
            St::Struct(n, fs, ms, c, module) => {
                if !self.top_level() { self.err = true }
                let id = self.declare(n); c.set(id); self.init(id);
                self.module = Some(RMod { module: *module, fields: fs.clone(), methods: vec![] });
                let mut seen = HashSet::new();
                for f in fs { if !seen.insert(f.clone()) { self.err = true } self.fields.insert(f.clone()); }
                for m in ms {
                    let n = m.name.clone().unwrap();
                    if !seen.insert(n.clone()) { self.err = true } self.fields.insert(n.clone());
                    self.method(&n, m);
                    self.func(m);
                }
                self.module = None;
                for l in &mut self.late { l.in_module = false }
            }
            St::NativeMod(n, fs, c) => {
                let id = self.declare(n); c.set(id); self.init(id);
                let mut seen = HashSet::new();
                for f in fs { if !seen.insert(f.0.clone()) { self.err = true } self.fields.insert(f.0.clone()); self.fns.push(RFn { vars: vec![], marks: vec![] }); for d in f.3.iter() { self.in_default += 1; self.expr(d); self.in_default -= 1 } self.fns.pop(); }
            }
            St::If(br, el) => { for (c, b) in br { self.expr(c); self.block(b) } if let Some(e) = el { self.block(e) } }
            St::Loop(b) => self.block(b),
            St::While(c, b, e) => { self.expr(c); self.block(b); if let Some(e) = e { self.block(e) } }
            St::Do(b, w, e) => { self.block(b); if let Some(w) = w { self.expr(w) } if let Some(e) = e { self.block(e) } }
            St::For(p, e, b, el, _) => {
                self.push();
                self.expr(e);
                let mut ids = vec![];
                self.pat_declare(p, &mut ids);
                for id in ids { self.init(id) }
                self.block(b);
                self.pop();
                if let Some(e) = el { self.block(e) }
            }
            St::Break | St::Continue => {}
            St::Return(e) => { if let Some(e) = e { self.expr(e) } }
            St::Assert(e, m, ..) => { self.expr(e); if let Some(m) = m { self.expr(m) } }
            St::Expr(e, _) => self.expr(e),
        }
    }
    fn items(&mut self, v: &[(bool, P)]) { for (_, e) in v { self.expr(e) } }
    fn expr(&mut self, e: &N) {
        match &e.e {
            E::Nil | E::Bool(_) | E::Int(_) | E::Str(_) | E::Exit | E::OpFn(_) => {}
            E::FieldFn(f) => self.field(f),
            E::Var(v) => self.var(v, false),
            E::List(v) | E::Vector(v) | E::Set(v) | E::Dict(v) => self.items(v),
            E::Chain(a, v) => { self.expr(a); for (_, b) in v { self.expr(b) } }
            E::Un(_, a) | E::OpPart(_, a) => self.expr(a),
            E::Bin(_, a, b) | E::Cmp(_, a, b) | E::And(a, b) | E::Or(a, b) | E::Compose(a, b) | E::Index(a, b) => { self.expr(a); self.expr(b) }
            E::If(a, b, c) => { self.expr(a); self.expr(b); self.expr(c) }
            E::Call(f, a) => { self.expr(f); self.items(a) }
            E::Slice(a, b, c) => { self.expr(a); if let Some(b) = b { self.expr(b) } if let Some(c) = c { self.expr(c) } }
            E::Field(a, f) => { self.expr(a); self.field(f) }
            E::Lambda(f) => self.func(f),
            E::SetVar(v, e) | E::OpVar(_, v, e) => { self.var(v, true); self.expr(e) }
            E::SetIdx(a, i, e) | E::OpIdx(_, a, i, e) => { self.expr(a); self.expr(i); self.expr(e) }
            E::SetField(a, f, e) | E::OpField(_, a, f, e) => { self.expr(a); self.field(f); self.expr(e) }
            E::SetPat(p, e, _) => { self.pat_assign(p); self.expr(e) }
        }
    }
}

// ---------------------------------------------------------------- execution

macro_rules! unsup { ($s:expr) => { return Err(Ctl::Abort($s)) } }

impl Model {
    pub fn new(plan: &Plan) -> Model {
        Model { globals: vec![], fields: HashSet::new(), units: vec![], unit: 0, frames: vec![], events: vec![], next_id: 0, serial: 0, steps: 0, total_steps: 0, depth: 0, budget: 20_000, plan: plan.clone(), ffi_calls: 0, stdin: vec![], stdin_pos: 0, stdin_fail: None, late_names: vec![], repl: true, out_bytes: 0, out_limit: None, features: HashSet::new(), outside: None }
    }
    pub fn global_names(&self) -> Vec<String> { self.globals.iter().filter(|g| !g.hidden).map(|g| g.name.clone()).collect() }

    fn out(&mut self, s: &str) -> Rs<()> {
        if let Some(o) = &mut self.outside { o.at_out.push((self.out_bytes, s.len(), o.disk.clone())) }
        self.out_bytes += s.len(); self.work(s.len() / 16)?;
        if let Some(Ev::Out(t)) = self.events.last_mut() { t.push_str(s) } else { self.events.push(Ev::Out(s.to_string())) }
        if let Some(l) = self.out_limit { if self.out_bytes > l { return Err(Ctl::Abort("write-failed")) } }
        Ok(())
    }

    /// Compiles and runs one complete piece of source text.  In REPL mode a trailing expression is echoed.
    pub fn run(&mut self, name: &str, text: &str) -> UnitResult {
        self.events = vec![];
        self.units.push(Unit { name: name.to_string(), text: text.to_string() });
        let unit = self.units.len() - 1;
        let prog = match Parser::new(text).and_then(|p| p.program()) { Ok(p) => p, Err(e) => return UnitResult { events: vec![], end: End::Abort(format!("parse: {}", e)) } };
        let mut r = Resolver { fns: vec![RFn { vars: vec![], marks: vec![] }], globals: &self.globals, new_globals: vec![], next_id: self.next_id, late: vec![], fields: self.fields.clone(), used_fields: vec![], features: HashSet::new(), module: None, err: false, is_eval: false, in_default: 0 };
        r.stmts(&prog);
        let late: Vec<Option<Ref>> = r.late.iter().map(|l| r.late_ref(l)).collect();
        let ok = !r.err && late.iter().all(|l| l.is_some()) && r.used_fields.iter().all(|f| r.fields.contains(f));
        if !ok { return UnitResult { events: vec![], end: End::Rejected } }
        self.next_id = r.next_id;
        self.fields = r.fields;
        self.features.extend(r.features);
        let names = r.new_globals;
        let base = self.globals.len();
        for n in names { self.globals.push(Global { name: n, cell: None, hidden: false }) }
        // late references are resolved once the whole unit has been seen
        let late: Vec<Ref> = late.into_iter().map(|l| l.unwrap()).collect();
        patch_late(&prog, &late);
        self.unit = unit;
        self.frames.clear();
        self.depth = 0;
        let mut env = Env(None);
        let n = prog.len();
        let mut res: Rs<()> = Ok(());
        FN_EQ.with(|f| f.set(false));
        for (i, s) in prog.iter().enumerate() {
            match self.stmt(s, &mut env) {
                Ok(v) => {
                    if let (Some(v), true, true, St::Expr(_, false)) = (v, self.repl, i + 1 == n, &s.s) {
                        res = match to_str(&v) { Some(t) => self.out(&format!("{}\n", t)), None => Err(Ctl::Abort("echo")) };
                        if res.is_err() { break }
                    }
                }
                Err(c) => { res = Err(c); break }
            }
        }
        if FN_EQ.with(|f| f.get()) { res = Err(Ctl::Abort("function equality")) }
        let end = match res {
            Ok(()) => End::Ok,
            Err(Ctl::Err(e)) => End::Error(*e),
            Err(Ctl::Exit) => End::Exit,
            Err(Ctl::Abort("write-failed")) => End::WriteFail,
            Err(Ctl::Abort(s)) => End::Abort(s.into()),
            Err(Ctl::Break | Ctl::Continue | Ctl::Return(_)) => End::Abort("stray control".into()),
        };
        if end != End::Ok {
            // declared variables are a prefix of the new globals
            let k = self.globals[base..].iter().take_while(|g| g.cell.is_some()).count();
            for g in &mut self.globals[base + k..] { g.hidden = true }
        }
        UnitResult { events: std::mem::take(&mut self.events), end }
    }

    /// work in proportion to the size of what is handled
    fn work(&mut self, n: usize) -> Rs<()> { self.steps += n as u64; if self.steps > self.budget { unsup!("budget") } Ok(()) }
    fn step(&mut self) -> Rs<()> { self.steps += 1; self.total_steps += 1; if FN_EQ.with(|f| f.get()) { unsup!("function equality") } if self.steps > self.budget { unsup!("budget") } Ok(()) }
    pub fn reset_steps(&mut self) { self.steps = 0 }

    fn err<T>(&self, n: &N, msg: Msg) -> Rs<T> { self.err_at(n.loc, n.id, msg) }
    fn err_at<T>(&self, loc: Loc, id: u64, msg: Msg) -> Rs<T> {
        let mut trace = vec![]; let mut repeats = vec![];
        let mut prev = id; let mut pf: Option<(u64, u64)> = None; let mut cnt = 0usize;
        for f in self.frames.iter().rev() {
            if pf == Some((f.site, prev)) { cnt += 1 } else { if cnt > 3 { repeats.push((trace.len(), cnt - 3)) } cnt = 0 }
            if cnt <= 3 { trace.push((f.owner.clone(), f.line)) }
            pf = Some((f.site, prev));
            prev = f.site;
        }
        if cnt > 3 { repeats.push((trace.len(), cnt - 3)) }
        Err(Ctl::Err(Box::new(ErrRep { msg, unit: self.unit, loc, trace, repeats })))
    }
    fn ex<T>(&self, n: &N, s: String) -> Rs<T> { self.err(n, Msg::Exact(s)) }
    /// an error whose text mentions values
    fn ev<T>(&self, n: &N, class: &str, f: impl Fn() -> Option<String>) -> Rs<T> {
        match f() { Some(s) => self.err(n, Msg::Exact(format!("{}{}", class, s))), None => self.err(n, Msg::Prefix(class.to_string())) }
    }
    fn must_be<T>(&self, n: &N, v: &V, what: &str) -> Rs<T> {
        self.ev(n, "TypeError: ", || if known_ty(v) { Some(format!("Expected '{}' of type '{}' to be {}", to_str(v)?, tyname(v), what)) } else { None })
    }
    fn val_err(v: &V) -> Option<String> { if known_ty(v) { Some(format!("'{}' of type '{}'", to_str(v)?, tyname(v))) } else { None } }

    fn get_var(&mut self, n: &N, v: &Var, env: &Env) -> Rs<V> {
        let r = v.r.borrow().clone();
        match r {
            Ref::Native => Ok(V::Nat(is_native(&v.name).unwrap().0)),
            Ref::Local(id) => match env.get(id) { Some(c) => Ok(c.borrow().clone()), None => unsup!("unbound local") },
            Ref::Global(g) => match self.globals.get(g as usize).and_then(|x| x.cell.as_ref()) {
                Some(c) => Ok(c.borrow().clone()),
                None => if self.globals.get(g as usize).map_or(false, |x| x.name == v.name) { self.ex(n, format!("ValueError: '{}' was referenced but has not been declared yet", v.name)) } else { unsup!("rolled back global") }
            },
            Ref::ThisField(id) => { let this = match env.get(id) { Some(c) => c.borrow().clone(), None => unsup!("unbound self") }; self.field(n, &this, &v.name) }
            Ref::ThisMethod(id, f) => { let this = match env.get(id) { Some(c) => c.borrow().clone(), None => unsup!("unbound self") }; Ok(V::Part(Rc::new((self.make_fn(&f, &Env(None)), vec![this])))) }
            Ref::Method(f) => Ok(self.make_fn(&f, &Env(None))),
            Ref::Late(_) | Ref::Unresolved => unsup!("unresolved"),
        }
    }
    /// a variable that is declared only later is reported where it is named
    fn late_at(n: &N, v: &Var) -> N { N { e: E::Nil, loc: if v.late.get() { Loc { a: v.line, b: v.line } } else { n.loc }, id: n.id } }
    fn set_var(&mut self, n: &N, v: &Var, env: &Env, x: V) -> Rs<()> {
        let r = v.r.borrow().clone();
        match r {
            Ref::Local(id) => match env.get(id) { Some(c) => { *c.borrow_mut() = x; Ok(()) } None => unsup!("unbound local") },
            Ref::Global(g) => match self.globals.get(g as usize).and_then(|x| x.cell.as_ref()) {
                Some(c) => { *c.borrow_mut() = x; Ok(()) }
                None => if self.globals.get(g as usize).map_or(false, |x| x.name == v.name) { self.ex(n, format!("ValueError: '{}' was referenced but has not been declared yet", v.name)) } else { unsup!("rolled back global") }
            },
            Ref::ThisField(id) => { let this = match env.get(id) { Some(c) => c.borrow().clone(), None => unsup!("unbound self") }; self.set_field(n, &this, &v.name, x).map(|_| ()) }
            _ => unsup!("store"),
        }
    }
    fn declare(&mut self, id: u32, env: &mut Env, v: V) {
        if id & GLOBAL_BIT != 0 { let g = (id & !GLOBAL_BIT) as usize; self.globals[g].cell = Some(Rc::new(RefCell::new(v))) } else { env.push(id, v) }
    }
    fn assign_declared(&mut self, id: u32, env: &Env, v: V) {
        if id & GLOBAL_BIT != 0 { let g = (id & !GLOBAL_BIT) as usize; *self.globals[g].cell.as_ref().unwrap().borrow_mut() = v } else { *env.get(id).unwrap().borrow_mut() = v }
    }
    fn pat_ids(p: &Pat, out: &mut Vec<u32>) { match p { Pat::Name(_, c) | Pat::VarName(_, c) => out.push(c.get()), Pat::Terms(t) => for t in t { Self::pat_ids(t, out) }, _ => {} } }

    /// Bind a declared pattern (let, for, parameters).  All variables are declared already.
    fn bind(&mut self, n: &N, p: &Pat, v: &V, env: &mut Env) -> Rs<()> {
        match p {
            Pat::Empty | Pat::VarEmpty => Ok(()),
            Pat::Name(_, c) | Pat::VarName(_, c) => { self.assign_declared(c.get(), env, v.clone()); Ok(()) }
            Pat::Terms(ts) => {
                let e = env.clone();
                self.destructure(n, ts, v, &mut |m, t, x| m.bind(n, t, &x, &mut e.clone()))
            }
            _ => unsup!("bind")
        }
    }
    fn destructure(&mut self, n: &N, ts: &[Pat], v: &V, f: &mut dyn FnMut(&mut Self, &Pat, V) -> Rs<()>) -> Rs<()> {
        let len = self.len(n, v)?;
        let vari = ts.iter().position(|t| matches!(t, Pat::VarEmpty | Pat::VarName(..)));
        let want = if vari.is_some() { ts.len() - 1 } else { ts.len() };
        let bad = if vari.is_some() { len < want } else { len != want };
        if bad {
            let how = if vari.is_some() { "at least" } else { "exactly" };
            return self.ev(n, "ValueError: Cannot unpack ", || Some(format!("{} with length {}, expected {} {} elements", Self::val_err(v)?, len, how, want)))
        }
        for i in (0..ts.len()).rev() {
            let t = &ts[i];
            if matches!(t, Pat::Empty | Pat::VarEmpty) { continue }
            let x = match vari {
                Some(k) if i == k => self.slice(n, v, k as i64, (len - (ts.len() - 1 - k)) as i64)?,
                Some(k) if i > k => { let ix = -((ts.len() - i) as i64); self.index(n, v, &V::Int(ix))? }
                _ => self.index(n, v, &V::Int(i as i64))?,
            };
            f(self, t, x)?;
        }
        Ok(())
    }

    fn block(&mut self, b: &[S], env: &Env) -> Rs<Option<V>> {
        let mut e = env.clone();
        self.stmts(b, &mut e)
    }
    fn stmts(&mut self, b: &[S], e: &mut Env) -> Rs<Option<V>> {
        let mut last = None;
        for (i, s) in b.iter().enumerate() {
            let v = self.stmt(s, e)?;
            last = if i + 1 == b.len() { if let St::Expr(_, false) = s.s { v } else { None } } else { None };
        }
        Ok(last)
    }

    fn make_fn(&self, f: &Rc<Func>, env: &Env) -> V { V::Fn(Rc::new(Clos { f: f.clone(), env: env.clone(), unit: self.unit })) }

    fn stmt(&mut self, s: &S, env: &mut Env) -> Rs<Option<V>> {
        self.step()?;
        match &s.s {
            St::Let(v) => {
                for (p, e, end) in v {
                    let mut ids = vec![]; Self::pat_ids(p, &mut ids);
                    match e {
                        None => for id in ids { self.declare(id, env, V::Nil) },
                        Some(e) => {
                            let x = self.expr(e, env)?;
                            if let Pat::Name(_, c) = p { self.declare(c.get(), env, x) }
                            else {
                                for id in ids { self.declare(id, env, V::Nil) }
                                self.features.insert("let-pattern");
                                let tmp = N { e: E::Nil, loc: Loc { a: *end, b: *end }, id: e.id };
                                self.bind(&tmp, p, &x, env)?;
                            }
                        }
                    }
                }
                Ok(None)
            }
            St::Fn(f, decs) => {
                // decorators are evaluated first, outermost first, and applied innermost first
                let mut ds = vec![];
                for d in decs { ds.push((self.expr(d, env)?, d)) }
                let id = f.decl.get();
                // the name is in scope of the body
                if id & GLOBAL_BIT == 0 { env.push(id, V::Nil); }
                let mut v = self.make_fn(f, env);
                if decs.is_empty() {
                    if id & GLOBAL_BIT != 0 { self.declare(id, env, v) } else { self.assign_declared(id, env, v) }
                } else {
                    // the call comes at the end of the function
                    for (d, node) in ds.into_iter().rev() { let tmp = N { e: E::Nil, loc: Loc { a: f.end, b: f.end }, id: node.id }; v = self.call(&tmp, &d, vec![v])? }
                    if id & GLOBAL_BIT != 0 { self.declare(id, env, v) } else { self.assign_declared(id, env, v) }
                }
                Ok(None)
            }
            St::Struct(name, fs, ms, c, module) => {
                self.serial += 1;
                let methods = ms.iter().map(|m| (m.name.clone().unwrap(), self.make_fn(m, env), m.is_self)).collect();
                let t = V::StructT(Rc::new(StructT { name: name.clone(), fields: fs.clone(), methods, serial: self.serial, module: *module }));
                self.declare(c.get(), env, t);
                Ok(None)
            }
            St::NativeMod(name, fs, c) => {
                self.serial += 1;
                let unit = self.unit;
                let fns = fs.iter().map(|(n, ps, v, o, l)| (n.clone(), Rc::new(FfiFn { module: name.clone(), name: n.clone(), params: ps.clone(), variadic: *v, opt: o.len(), defaults: o.clone(), env: env.clone(), line: *l, unit }))).collect();
                let m = V::Mod(Rc::new(ModT { name: name.clone(), fns, serial: self.serial }));
                self.declare(c.get(), env, m);
                Ok(None)
            }
            St::If(br, el) => {
                for (c, b) in br { if truthy(&self.expr(c, env)?) { self.block(b, env)?; return Ok(None) } }
                if let Some(e) = el { self.block(e, env)?; }
                Ok(None)
            }
            St::Loop(b) => loop { self.step()?; match self.block(b, env) { Err(Ctl::Break) => return Ok(None), Err(Ctl::Continue) | Ok(_) => {} Err(c) => return Err(c) } },
            St::While(c, b, el) => {
                loop {
                    self.step()?;
                    if !truthy(&self.expr(c, env)?) { break }
                    match self.block(b, env) { Err(Ctl::Break) => return Ok(None), Err(Ctl::Continue) | Ok(_) => {} Err(c) => return Err(c) }
                }
                if let Some(e) = el { self.block(e, env)?; }
                Ok(None)
            }
            St::Do(b, w, el) => {
                loop {
                    self.step()?;
                    match self.block(b, env) { Err(Ctl::Break) => return Ok(None), Err(Ctl::Continue) => continue, Ok(_) => {} Err(c) => return Err(c) }
                    match w { None => break, Some(w) => if !truthy(&self.expr(w, env)?) { break } }
                }
                if let Some(e) = el { self.block(e, env)?; }
                Ok(None)
            }
            St::For(p, e, b, el, loc) => {
                let x = self.expr(e, env)?;
                let node = N { e: E::Nil, loc: *loc, id: e.id };
                let mut it = self.iter(&node, &x)?;
                drop(x);
                loop {
                    self.step()?;
                    let v = match self.next(&mut it) { Some(v) => v, None => break };
                    let mut env2 = env.clone();
                    let mut ids = vec![]; Self::pat_ids(p, &mut ids);
                    for id in &ids { env2.push(*id, V::Nil) }
                    if let Pat::Name(_, c) = p { self.assign_declared(c.get(), &env2, v) }
                    else { let tmp = N { e: E::Nil, loc: *loc, id: e.id }; self.bind(&tmp, p, &v, &mut env2)?; }
                    match self.block(b, &env2) { Err(Ctl::Break) => return Ok(None), Err(Ctl::Continue) | Ok(_) => {} Err(c) => return Err(c) }
                }
                if let Some(e) = el { self.block(e, env)?; }
                Ok(None)
            }
            St::Break => Err(Ctl::Break),
            St::Continue => Err(Ctl::Continue),
            St::Return(e) => { let v = match e { Some(e) => self.expr(e, env)?, None => V::Nil }; Err(Ctl::Return(v)) }
            St::Assert(e, m, loc, apart) => {
                let cmp = *apart && matches!(e.e, E::Cmp(..));
                let mut reason = None;
                let ok = if let (E::Cmp(op, a, b), true) = (&e.e, cmp) {
                    let a = self.expr(a, env)?; let b = self.expr(b, env)?;
                    let ok = self.compare(op, &a, &b)?;
                    if !ok { reason = match (repr(&a, 0), repr(&b, 0)) { (Some(x), Some(y)) => Some(format!("Expected {} {} {}", x, op, y)), _ => None } }
                    ok
                } else { truthy(&self.expr(e, env)?) };
                if ok { return Ok(None) }
                let msg = match m { None => None, Some(m) => match self.expr(m, env)? { V::Str(s) => Some(s), V::Nil => None, v => Some(match to_str(&v) { Some(s) => s.into(), None => unsup!("assert message") }) } };
                let text = if cmp { match reason { None => return self.err_at(*loc, e.id, Msg::Prefix("Assertion Failed:".into())), Some(r) => format!("Assertion Failed: {}{}", msg.map_or(String::new(), |m| format!("{}\n", m)), r) } }
                    else { match msg { Some(m) => format!("Assertion Failed: {}", m), None => "Assertion Failed:".into() } };
                self.err_at(*loc, e.id, Msg::Exact(text))
            }
            St::Expr(e, _) => Ok(Some(self.expr(e, env)?)),
        }
    }

    fn items(&mut self, n: &N, v: &[(bool, P)], env: &Env) -> Rs<Vec<V>> {
        let mut out = vec![];
        for (un, e) in v {
            if !un { out.push(self.expr(e, env)?); continue }
            let E::Un(_, inner) = &e.e else { unreachable!() };
            let x = self.expr(inner, env)?;
            { let mut it = self.iter(e, &x)?; while let Some(y) = self.next(&mut it) { out.push(y); self.step()? } }
        }
        let _ = n;
        Ok(out)
    }

    pub fn expr(&mut self, n: &N, env: &Env) -> Rs<V> {
        self.step()?;
        match &n.e {
            E::Nil => Ok(V::Nil), E::Bool(b) => Ok(V::Bool(*b)), E::Int(i) => Ok(V::Int(*i)), E::Str(s) => Ok(V::Str(s.as_str().into())),
            E::Exit => Err(Ctl::Exit),
            E::Var(v) => self.get_var(n, v, env),
            E::List(v) => { let x = self.items(n, v, env)?; Ok(list(x)) }
            E::Vector(v) => { let x = self.items(n, v, env)?; Ok(vector(x)) }
            E::Set(v) => { let x = self.items(n, v, env)?; Ok(set(x)) }
            E::Dict(v) => {
                let mut d = vec![]; let mut it = v.iter();
                while let Some((un, a)) = it.next() {
                    if !un { let k = self.expr(a, env)?; let x = self.expr(&it.next().unwrap().1, env)?; dput(&mut d, k, x); continue }
                    let E::Un(_, e) = &a.e else { unreachable!() };
                    let x = self.expr(e, env)?; let mut i = self.iter(a, &x)?;
                    while let Some(y) = self.next(&mut i) {
                        self.step()?;
                        match &y { V::Vector(l) | V::List(l) if l.borrow().len() == 2 => { let l = l.borrow(); dput(&mut d, l[0].clone(), l[1].clone()) } _ => return self.ev(a, "ValueError: Cannot collect", || Some(format!(" key-value pair {} into a dict", Self::val_err(&y)?))) }
                    }
                }
                Ok(dict(d))
            }
            E::Un(op, a) => { let a = self.expr(a, env)?; self.unary(n, op, a) }
            E::Bin(op, a, b) => { let a = self.expr(a, env)?; let b = self.expr(b, env)?; let r = self.binary(n, op, a, b)?; if let V::Str(s) = &r { self.work(s.len() / 16)? } Ok(r) }
            E::Cmp(op, a, b) => {
                if matches!(a.e, E::Cmp(..)) { unsup!("chained compare") }
                let a = self.expr(a, env)?; let b = self.expr(b, env)?; Ok(V::Bool(self.compare(op, &a, &b)?))
            }
            E::Chain(a, v) => {
                let mut a = self.expr(a, env)?;
                for (op, b) in v { let b = self.expr(b, env)?; if !self.compare(op, &a, &b)? { return Ok(V::Bool(false)) } a = b }
                Ok(V::Bool(true))
            }
            E::And(a, b) => { let a = self.expr(a, env)?; if truthy(&a) { self.expr(b, env) } else { Ok(a) } }
            E::Or(a, b) => { let a = self.expr(a, env)?; if truthy(&a) { Ok(a) } else { self.expr(b, env) } }
            E::If(c, a, b) => { if truthy(&self.expr(c, env)?) { self.expr(a, env) } else { self.expr(b, env) } }
            E::Call(f, a) => { let f = self.expr(f, env)?; let a = self.items(n, a, env)?; self.call(n, &f, a) }
            E::Compose(x, f) => { let x = self.expr(x, env)?; let f = self.expr(f, env)?; self.call(n, &f, vec![x]) }
            E::Index(a, i) => { let a = self.expr(a, env)?; let i = self.expr(i, env)?; self.index(n, &a, &i) }
            E::Slice(a, lo, hi) => {
                let a = self.expr(a, env)?;
                let len = match &a { V::List(_) | V::Vector(_) | V::Str(_) => self.len(n, &a)? as i64, _ => 0 };
                let lo = match lo { Some(e) => match self.expr(e, env)? { V::Int(i) => i, V::Nil => 0, _ => unsup!("slice index") }, None => 0 };
                let hi = match hi { Some(e) => match self.expr(e, env)? { V::Int(i) => i, V::Nil => len, _ => unsup!("slice index") }, None => len };
                if matches!(&a, V::Nil | V::Int(_) | V::Bool(_) | V::Set(_) | V::Range(..) | V::Enum(_) | V::Dict(_) | V::Inst(_)) { return self.ev(n, "TypeError: Cannot slice ", || Self::val_err(&a)) }
                let f = |i: i64| if i >= 0 { i } else { len + i };
                self.slice(n, &a, f(lo), f(hi))
            }
            E::Field(a, f) => { let a = self.expr(a, env)?; self.field(n, &a, f) }
            E::Lambda(f) => Ok(self.make_fn(f, env)),
            E::FieldFn(f) => Ok(V::FieldFn(f.as_str().into())),
            E::OpFn(o) => Ok(V::Nat(opname(o))),
            E::OpPart(o, a) => { let a = self.expr(a, env)?; Ok(V::OpR(o, Rc::new(a))) }
            E::SetVar(v, e) => { let x = self.expr(e, env)?; self.set_var(&Self::late_at(n, v), v, env, x.clone())?; Ok(x) }
            E::SetIdx(a, i, e) => { let a = self.expr(a, env)?; let i = self.expr(i, env)?; let x = self.expr(e, env)?; self.set_index(n, &a, i, x)?; unsup_value(a) }
            E::SetField(a, f, e) => { let a = self.expr(a, env)?; let x = self.expr(e, env)?; self.set_field(n, &a, f, x) }
            E::OpVar(op, v, e) => {
                let cur = { let own = matches!(*v.r.borrow(), Ref::ThisField(_)); let tmp = N { e: E::Nil, loc: if own || v.late.get() { Loc { a: v.line, b: v.line } } else { n.loc }, id: n.id }; self.get_var(&tmp, v, env)? };
                let r = self.expr(e, env)?;
                let x = if *op == "." { self.call(n, &r, vec![cur])? } else { self.binary(n, op, cur, r)? };
                self.set_var(&Self::late_at(n, v), v, env, x.clone())?; Ok(x)
            }
            E::OpIdx(op, a, i, e) => {
                let a = self.expr(a, env)?; let i = self.expr(i, env)?;
                let cur = self.index(n, &a, &i)?;
                let r = self.expr(e, env)?;
                let x = if *op == "." { self.call(n, &r, vec![cur])? } else { self.binary(n, op, cur, r)? };
                self.set_index(n, &a, i, x)?; unsup_value(a)
            }
            E::OpField(op, a, f, e) => {
                let a = self.expr(a, env)?;
                let cur = self.field(n, &a, f)?;
                let r = self.expr(e, env)?;
                let x = if *op == "." { self.call(n, &r, vec![cur])? } else { self.binary(n, op, cur, r)? };
                self.set_field(n, &a, f, x)
            }
            E::SetPat(p, e, line) => {
                let n = &N { e: E::Nil, loc: Loc { a: line.get(), b: line.get() }, id: n.id };
                // targets of element and field assignments are evaluated first, in order
                let mut targets = vec![];
                self.pat_targets(p, env, &mut targets)?;
                let x = self.expr(e, env)?;
                self.features.insert("assign-pattern");
                let Pat::Terms(ts) = p else { unsup!("pattern") };
                self.assign_terms(n, ts, &x, env, &mut targets)?;
                Ok(x)
            }
        }
    }
    fn pat_targets(&mut self, p: &Pat, env: &Env, out: &mut Vec<(V, V)>) -> Rs<()> {
        match p {
            Pat::Idx(a, i) => { let a = self.expr(a, env)?; let i = self.expr(i, env)?; out.push((a, i)) }
            Pat::Fld(a, _) => { let a = self.expr(a, env)?; out.push((a, V::Nil)) }
            Pat::Terms(t) => for t in t { self.pat_targets(t, env, out)? },
            _ => {}
        }
        Ok(())
    }
    fn assign_terms(&mut self, n: &N, ts: &[Pat], v: &V, env: &Env, targets: &mut Vec<(V, V)>) -> Rs<()> {
        self.destructure(n, ts, v, &mut |m, t, x| match t {
            Pat::Name(w, _) | Pat::VarName(w, _) => m.set_var(n, w, env, x),
            Pat::Idx(..) => { let (a, i) = targets.pop().unwrap(); m.set_index(n, &a, i, x) }
            Pat::Fld(_, f) => { let (a, _) = targets.pop().unwrap(); m.set_field(n, &a, f, x).map(|_| ()) }
            Pat::Terms(ts) => m.assign_terms(n, ts, &x, env, targets),
            _ => Ok(())
        })
    }

    // ------------------------------------------------ operators
    fn unary(&mut self, n: &N, op: &'static str, a: V) -> Rs<V> {
        match (op, &a) {
            ("-", V::Int(i)) => Ok(V::Int(-i)), ("-", V::Bool(b)) => Ok(V::Int(-(*b as i64))),
            ("-" | "!", V::Vector(v)) => { let v = v.borrow().clone(); let mut r = vec![]; for x in v { r.push(self.unary(n, op, x)?) } Ok(vector(r)) }
            ("not", _) => Ok(V::Bool(!truthy(&a))),
            ("!", V::Bool(b)) => Ok(V::Bool(!b)),
            ("!", V::Int(i)) => Ok(V::Int(!i)),
            _ if known_ty(&a) => self.ex(n, format!("TypeError: Operator unary '{}' is not supported for type {}", op, tyname(&a))),
            _ => self.err(n, Msg::Prefix(format!("TypeError: Operator unary '{}' is not supported for type ", op)))
        }
    }
    fn bin_err<T>(&self, n: &N, op: &str, a: &V, b: &V) -> Rs<T> {
        if known_ty(a) && known_ty(b) { self.ex(n, format!("TypeError: Operator '{}' is not supported for arguments of type {} and {}", op, tyname(a), tyname(b))) }
        else { self.err(n, Msg::Prefix("TypeError: Operator ".into())) }
    }
    fn chk(&self, i: Option<i64>) -> Rs<V> { match i { Some(i) if i.abs() < (1 << 50) => Ok(V::Int(i)), _ => unsup!("large int") } }
    pub fn binary(&mut self, n: &N, op: &'static str, a: V, b: V) -> Rs<V> {
        let ia = match &a { V::Int(i) => Some(*i), V::Bool(b) => Some(*b as i64), _ => None };
        let ib = match &b { V::Int(i) => Some(*i), V::Bool(b) => Some(*b as i64), _ => None };
        if matches!(op, "max" | "min") {
            let o = match self.cmp(&a, &b) { Some(o) => o, None => unsup!("max") };
            return Ok(if (o == std::cmp::Ordering::Greater) == (op == "max") { a } else { b })
        }
        if matches!(op, "in" | "notin" | "is" | "isnot") {
            let r = match (op, &a, &b) {
                ("is" | "isnot", _, r) => match (&a, r) {
                    (_, V::Nil) => matches!(a, V::Nil),
                    (_, V::Nat(t)) => match *t {
                        "int" => matches!(a, V::Int(_) | V::Bool(_)), "str" => matches!(a, V::Str(_)), "list" => matches!(a, V::List(_)), "bool" => matches!(a, V::Bool(_)), "dict" => matches!(a, V::Dict(_)), "set" => matches!(a, V::Set(_)), "vector" => matches!(a, V::Vector(_)),
                        "any" => true,
                        "function" => match a { V::Fn(_) | V::Nat(_) => true, _ if known_ty(&a) => false, _ => unsup!("is function") },
                        "iterable" => match a { V::Str(_) | V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) | V::Range(..) | V::Enum(_) => true, V::Nil | V::Bool(_) | V::Int(_) | V::Inst(_) | V::Fn(_) | V::Nat(_) => false, _ => unsup!("is iterable") },
                        _ => return self.err(n, Msg::Prefix("TypeError: ".into()))
                    },
                    (V::Inst(i), V::StructT(t)) => i.ty.serial == t.serial,
                    (_, V::StructT(_)) => false,
                    (a, r) => return self.ev(n, "TypeError: ", || Some(format!("{} is not a type and cannot be used with binary 'is' on {}", Self::val_err(r)?, Self::val_err(a)?)))
                },
                (_, V::Str(x), V::Str(y)) => y.contains(&**x),
                (_, _, V::List(l) | V::Vector(l) | V::Set(l)) => l.borrow().iter().any(|e| eq(e, &a)),
                (_, _, V::Dict(d)) => d.items.borrow().iter().any(|e| eq(&e.0, &a)),
                (_, V::Int(_) | V::Bool(_), V::Range(s, e, c)) => { let v = match &a { V::Int(i) => *i, V::Bool(b) => *b as i64, _ => 0 }; (*c > 0 && v >= *s && v < *e && (v - s) % c == 0) || (*c < 0 && v <= *s && v > *e && (s - v) % c == 0) }
                _ => return self.bin_err(n, "in", &a, &b)
            };
            return Ok(V::Bool(if op == "notin" || op == "isnot" { !r } else { r }))
        }
        if let (Some(x), Some(y)) = (ia, ib) {
            return match op {
                "+" => self.chk(x.checked_add(y)), "-" => self.chk(x.checked_sub(y)), "*" => self.chk(x.checked_mul(y)),
                "/" => if y == 0 { self.ex(n, "ValueError: Division by zero".into()) } else { Ok(V::Int(x.div_euclid(y) - if y < 0 && x.rem_euclid(y) != 0 { 1 } else { 0 })) },
                "%" => if y == 0 { self.ex(n, "ValueError: Modulo by zero".into()) } else { let r = x.rem_euclid(y); Ok(V::Int(if y < 0 && r != 0 { r + y } else { r })) },
                "**" => if y < 0 { self.ex(n, format!("ValueError: Power of an integral value by '{}' which is negative", y)) } else if y > 20 { unsup!("pow") } else { self.chk(x.checked_pow(y as u32)) },
                "&" | "|" | "^" => match (&a, &b) {
                    (V::Bool(p), V::Bool(q)) => Ok(V::Bool(match op { "&" => p & q, "|" => p | q, _ => p ^ q })),
                    _ => Ok(V::Int(match op { "&" => x & y, "|" => x | y, _ => x ^ y })),
                },
                "<<" | ">>" => {
                    let by = if op == "<<" { y } else { -y };
                    if by > 40 || by < -63 { unsup!("shift") }
                    if by >= 0 { self.chk(x.checked_mul(1 << by)) } else { Ok(V::Int(x >> (-by))) }
                }
                _ => unsup!("int op")
            }
        }
        match (op, &a, &b) {
            ("+", V::List(x), V::List(y)) => { self.work((x.borrow().len() + y.borrow().len()) / 8)?; let mut r = x.borrow().clone(); r.extend(y.borrow().iter().cloned()); Ok(list(r)) }
            ("+", V::Str(s), o) => match to_str(o) { Some(t) => Ok(V::Str(format!("{}{}", s, t).into())), None => unsup!("str concat") },
            ("+", o, V::Str(s)) => match to_str(o) { Some(t) => Ok(V::Str(format!("{}{}", t, s).into())), None => unsup!("str concat") },
            ("-" | "&" | "|" | "^", V::Set(x), V::Set(y)) => {
                let (x, y) = (x.borrow(), y.borrow());
                let has = |s: &Vec<V>, v: &V| s.iter().any(|e| eq(e, v));
                let r: Vec<V> = match op {
                    "-" => x.iter().filter(|e| !has(&y, e)).cloned().collect(),
                    "&" => x.iter().filter(|e| has(&y, e)).cloned().collect(),
                    "|" => x.iter().cloned().chain(y.iter().filter(|e| !has(&x, e)).cloned()).collect(),
                    _ => x.iter().filter(|e| !has(&y, e)).cloned().chain(y.iter().filter(|e| !has(&x, e)).cloned()).collect(),
                };
                Ok(set(r))
            }
            ("*", V::Str(s), V::Int(k)) | ("*", V::Int(k), V::Str(s)) if *k >= 0 && (*k as usize) * s.len() < if self.outside.is_some() { 300_000 } else { 500 } => Ok(V::Str(s.repeat(*k as usize).into())),
            ("*", V::Str(_), V::Int(k)) | ("*", V::Int(k), V::Str(_)) => if *k < 0 { self.ex(n, format!("ValueError: Operator '*' is not supported for arguments of type str and negative integer {}", k)) } else { unsup!("str repeat") },
            ("*" | "**", V::List(l), V::Int(k)) | ("*" | "**", V::Int(k), V::List(l)) => {
                if *k < 0 { return self.ex(n, format!("ValueError: Operator '{}' is not supported for arguments of type list and negative integer {}", op, k)) }
                let l = l.borrow();
                if *k > 500 || *k as usize * l.len() > 500 { unsup!("list repeat") }
                let mut r = vec![];
                for _ in 0..*k { for x in l.iter() { r.push(if op == "**" { copy(x, 0)? } else { x.clone() }) } }
                Ok(list(r))
            }
            ("%", V::Str(_), _) => unsup!("format"),
            (_, V::Vector(x), V::Vector(y)) => { let (x, y) = (x.borrow().clone(), y.borrow().clone()); let mut r = vec![]; for (p, q) in x.into_iter().zip(y) { r.push(self.binary(n, op, p, q)?) } Ok(vector(r)) }
            (_, V::Vector(x), _) => { let x = x.borrow().clone(); let mut r = vec![]; for p in x { r.push(self.binary(n, op, p, b.clone())?) } Ok(vector(r)) }
            (_, _, V::Vector(y)) => { let y = y.borrow().clone(); let mut r = vec![]; for q in y { r.push(self.binary(n, op, a.clone(), q)?) } Ok(vector(r)) }
            _ => self.bin_err(n, op, &a, &b)
        }
    }
    fn compare(&mut self, op: &str, a: &V, b: &V) -> Rs<bool> {
        use std::cmp::Ordering::*;
        if op == "==" || op == "!=" {
            if matches!((a, b), (V::Bool(_), V::Int(_)) | (V::Int(_), V::Bool(_))) { unsup!("bool eq int") }
            if matches!(a, V::Fn(_) | V::Part(_) | V::Memo(_) | V::OpR(..) | V::StructT(_) | V::Mod(_) | V::Ffi(_)) { unsup!("function equality") }
            return Ok(eq(a, b) == (op == "=="))
        }
        let o = match self.cmp(a, b) { Some(o) => o, None => unsup!("compare") };
        Ok(match op { "<" => o == Less, "<=" => o != Greater, ">" => o == Greater, ">=" => o != Less, _ => unsup!("cmp") })
    }
    fn cmp(&self, a: &V, b: &V) -> Option<std::cmp::Ordering> {
        match (a, b) {
            (V::Int(x), V::Int(y)) => Some(x.cmp(y)), (V::Str(x), V::Str(y)) => Some(x.cmp(y)), (V::Bool(x), V::Bool(y)) => Some(x.cmp(y)),
            (V::Vector(x), V::Vector(y)) | (V::List(x), V::List(y)) => {
                let (x, y) = (x.borrow(), y.borrow());
                for (p, q) in x.iter().zip(y.iter()) { let o = self.cmp(p, q)?; if o != std::cmp::Ordering::Equal { return Some(o) } }
                Some(x.len().cmp(&y.len()))
            }
            _ => None
        }
    }

    // ------------------------------------------------ collections
    fn len(&self, n: &N, v: &V) -> Rs<usize> {
        Ok(match v {
            V::Str(s) => s.chars().count(),
            V::List(l) | V::Vector(l) | V::Set(l) => l.borrow().len(),
            V::Dict(d) => d.items.borrow().len(),
            V::Range(a, b, 1) => (b - a).max(0) as usize,
            V::Enum(v) => return self.len(n, v),
            V::Range(..) => unsup!("range len"),
            _ => return self.must_be(n, v, "an iterable")
        })
    }
    fn iter(&self, n: &N, v: &V) -> Rs<It> {
        Ok(match v {
            V::Str(s) => It::Str(s.chars().collect(), 0),
            V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) => It::Coll(0, v.clone()),
            V::Range(a, b, c) => It::Range(*a, *b, *c),
            V::Enum(v) => It::Enum(0, Box::new(self.iter(n, v)?)),
            _ => return self.must_be(n, v, "an iterable")
        })
    }
    fn coll_get(v: &V, i: usize) -> Option<V> {
        match v {
            V::List(l) | V::Vector(l) | V::Set(l) => l.borrow().get(i).cloned(),
            V::Dict(d) => d.items.borrow().get(i).map(|(k, v)| vector(vec![k.clone(), v.clone()])),
            _ => None
        }
    }
    fn next(&mut self, it: &mut It) -> Option<V> {
        self.steps += 1;
        match it {
            It::Coll(i, v) => { let r = Self::coll_get(v, *i); *i += 1; r }
            It::Str(s, i) => { let r = s.get(*i).map(|c| V::Str(c.to_string().into())); *i += 1; r }
            It::Range(a, b, c) => if (*c > 0 && *a < *b) || (*c < 0 && *a > *b) { let r = *a; *a += *c; Some(V::Int(r)) } else { None },
            It::Enum(i, x) => { let v = self.next(x)?; let k = *i; *i += 1; Some(vector(vec![V::Int(k as i64), v])) }
        }
    }
    fn collect(&mut self, n: &N, v: &V) -> Rs<Vec<V>> { let mut it = self.iter(n, v)?; let mut r = vec![]; while let Some(x) = self.next(&mut it) { self.step()?; r.push(x) } Ok(r) }

    fn to_index(&self, n: &N, i: &V, len: usize) -> Rs<usize> {
        match i {
            V::Int(i) => { let k = if *i < 0 { *i + len as i64 } else { *i }; if k >= 0 && (k as usize) < len { Ok(k as usize) } else { self.ex(n, format!("Index '{}' is out of bounds for list of length [0, {})", i, len)) } }
            V::Bool(_) => unsup!("bool index"),
            _ => self.must_be(n, i, "a int")
        }
    }
    pub fn index(&mut self, n: &N, a: &V, i: &V) -> Rs<V> {
        match a {
            V::Dict(d) => {
                let hit = d.items.borrow().iter().find(|e| eq(&e.0, i)).map(|e| e.1.clone());
                if let Some(v) = hit { return Ok(v) }
                let def = d.default.borrow().clone();
                match def {
                    None => self.ev(n, "ValueError: Key ", || Some(format!("{} not found in dictionary", Self::val_err(i)?))),
                    Some(f) => {
                        self.features.insert("dict-default");
                        let v = match &f { V::Nat("list") => list(vec![]), V::Nat("dict") => dict(vec![]), V::Nat("set") => set(vec![]), V::Nat("vector") => vector(vec![]), V::Fn(_) | V::Part(_) | V::Ffi(_) => self.call(n, &f, vec![])?, V::Nat(_) | V::OpR(..) | V::StructT(_) => unsup!("default"), v => (*v).clone() };
                        let mut it = d.items.borrow_mut();
                        if let Some(e) = it.iter().find(|e| eq(&e.0, i)) { return Ok(e.1.clone()) }
                        it.push((i.clone(), v.clone()));
                        Ok(v)
                    }
                }
            }
            V::List(l) | V::Vector(l) => { let k = self.to_index(n, i, l.borrow().len())?; let v = l.borrow()[k].clone(); Ok(v) }
            V::Str(s) => { let c: Vec<char> = s.chars().collect(); let k = self.to_index(n, i, c.len())?; Ok(V::Str(c[k].to_string().into())) }
            V::Nil | V::Int(_) | V::Bool(_) | V::Set(_) | V::Range(..) | V::Enum(_) | V::Fn(_) | V::Nat(_) | V::Ffi(_) | V::StructT(_) | V::Inst(_) => self.ev(n, "TypeError: Cannot index ", || Self::val_err(a)),
            _ => unsup!("index")
        }
    }
    /// a set or a dict's key must not hold the collection itself
    fn no_cycle(&mut self, n: &N, v: &V, id: usize) -> Rs<()> {
        match holds(v, id, 0) { None => unsup!("cycle"), Some(false) => Ok(()), Some(true) => self.ex(n, "ValueError: Cannot create recursive hash-based collection".into()) }
    }
    pub fn set_index(&mut self, n: &N, a: &V, i: V, x: V) -> Rs<()> {
        match a {
            V::Dict(d) => { self.no_cycle(n, &i, Rc::as_ptr(d) as usize)?; dput(&mut d.items.borrow_mut(), i, x); Ok(()) }
            V::List(l) | V::Vector(l) => { let k = self.to_index(n, &i, l.borrow().len())?; l.borrow_mut()[k] = x; Ok(()) }
            V::Nil | V::Int(_) | V::Bool(_) => self.ev(n, "TypeError: Cannot index ", || Self::val_err(a)),
            _ => unsup!("set index")
        }
    }
    fn slice(&mut self, _n: &N, a: &V, lo: i64, hi: i64) -> Rs<V> {
        match a {
            V::List(l) | V::Vector(l) => {
                let l2 = l.borrow(); let mut r = vec![];
                for i in lo..hi { if i >= 0 && (i as usize) < l2.len() { r.push(l2[i as usize].clone()) } }
                Ok(if matches!(a, V::List(_)) { list(r) } else { vector(r) })
            }
            V::Str(s) => { let c: Vec<char> = s.chars().collect(); let mut r = String::new(); for i in lo..hi { if i >= 0 && (i as usize) < c.len() { r.push(c[i as usize]) } } Ok(V::Str(r.into())) }
            _ => unsup!("slice")
        }
    }
    fn field(&mut self, n: &N, a: &V, f: &str) -> Rs<V> {
        match a {
            V::Inst(i) => {
                if let Some(k) = i.ty.fields.iter().position(|x| x == f) { return Ok(i.vals.borrow()[k].clone()) }
                if let Some(m) = i.ty.methods.iter().find(|m| m.0 == f) { return Ok(if m.2 { V::Part(Rc::new((m.1.clone(), vec![a.clone()]))) } else { return self.err(n, Msg::Prefix(format!("TypeError: Cannot get field '{}' on ", f))) }) }
                self.err(n, Msg::Prefix(format!("TypeError: Cannot get field '{}' on ", f)))
            }
            V::StructT(t) => { if let Some(m) = t.methods.iter().find(|m| m.0 == f) { return Ok(m.1.clone()) } if t.fields.iter().any(|x| x == f) { return Ok(V::FieldFn(f.into())) } self.err(n, Msg::Prefix(format!("TypeError: Cannot get field '{}' on ", f))) }
            V::Mod(m) => { if let Some(x) = m.fns.iter().find(|m| m.0 == f) { return Ok(V::Ffi(x.1.clone())) } self.err(n, Msg::Prefix(format!("TypeError: Cannot get field '{}' on ", f))) }
            _ => self.err(n, Msg::Prefix(format!("TypeError: Cannot get field '{}' on ", f)))
        }
    }
    fn set_field(&mut self, n: &N, a: &V, f: &str, x: V) -> Rs<V> {
        if let V::Inst(i) = a { if let Some(k) = i.ty.fields.iter().position(|y| y == f) { i.vals.borrow_mut()[k] = x.clone(); return Ok(x) } }
        self.err(n, Msg::Prefix(format!("TypeError: Cannot set field '{}' on ", f)))
    }

    // ------------------------------------------------ calls
    pub fn call(&mut self, n: &N, f: &V, args: Vec<V>) -> Rs<V> {
        self.step()?;
        match f {
            V::Fn(c) => self.call_fn(n, f, c, args),
            V::Ffi(x) => {
                let min = x.params.len() - x.opt - x.variadic as usize;
                if args.len() < min { return Ok(if args.is_empty() { f.clone() } else { V::Part(Rc::new((f.clone(), args))) }) }
                if args.len() > x.params.len() && !x.variadic { return self.ex(n, format!("Incorrect number of arguments for native fn {}({}), got {}", x.name, x.params.join(", "), args.len())) }
                self.call_ffi(n, x, args)
            }
            V::Part(p) => {
                if args.is_empty() { 
                    // too few arguments still, unless the function accepts what it has
                    let min = match &p.0 { V::Fn(c) => c.f.params.iter().filter(|p| p.default.is_none() && !p.variadic).count(), V::Ffi(x) => x.params.len() - x.opt - x.variadic as usize, _ => usize::MAX };
                    if p.1.len() < min { return Ok(f.clone()) }
                }
                let mut a = p.1.clone(); let k = args.len(); a.extend(args);
                self.call(n, &p.0, a)
            }
            V::OpR(op, r) => { if args.len() != 1 { unsup!("operator arity") } let a = args.into_iter().next().unwrap(); self.op2(n, op, a, (**r).clone()) }
            V::Nat(name) => self.native(n, name, args),
            V::Memo(m) => {
                if args.iter().any(|a| !known_ty(a)) { unsup!("memo key") }
                if let Some(h) = m.cache.borrow().iter().find(|(k, _)| k.len() == args.len() && k.iter().zip(&args).all(|(p, q)| eq(p, q))) { return Ok(h.1.clone()) }
                self.features.insert("memo-miss");
                let f = m.f.clone();
                let r = self.call(n, &f, args.clone())?;
                let mut c = m.cache.borrow_mut();
                if let Some(h) = c.iter().find(|(k, _)| k.len() == args.len() && k.iter().zip(&args).all(|(p, q)| eq(p, q))) { return Ok(h.1.clone()) }
                c.push((args, r.clone()));
                Ok(r)
            }
            V::FieldFn(f) => { if args.len() != 1 { unsup!("field arity") } self.field(n, &args[0], f) }
            V::StructT(t) if t.module => self.ex(n, format!("Tried to evaluate module {} but it is not a function.", t.name)),
            V::StructT(t) => {
                if args.len() != t.fields.len() { return self.err(n, Msg::Prefix(format!("Incorrect number of arguments for "))) }
                Ok(V::Inst(Rc::new(Inst { ty: t.clone(), vals: RefCell::new(args) })))
            }
            V::List(l) if args.len() == 1 => {
                let k = l.borrow().len();
                if k != 1 { return self.ex(n, format!("ValueError: Evaluating an index must have len = 1, got len = {}", k)) }
                let i = l.borrow()[0].clone();
                self.index(n, &args[0], &i)
            }
            v => self.ev(n, "Tried to evaluate ", || if known_ty(v) { Some(format!("{} but it is not a function.", repr(v, 0)?)) } else { None })
        }
    }
    fn op2(&mut self, n: &N, op: &'static str, a: V, b: V) -> Rs<V> {
        match op { "<" | "<=" | ">" | ">=" | "==" | "!=" => Ok(V::Bool(self.compare(op, &a, &b)?)), _ => self.binary(n, op, a, b) }
    }
    fn call_fn(&mut self, n: &N, fv: &V, c: &Rc<Clos>, args: Vec<V>) -> Rs<V> {
        let ps = &c.f.params;
        let variadic = ps.last().map_or(false, |p| p.variadic);
        let min = ps.iter().filter(|p| p.default.is_none() && !p.variadic).count();
        if args.len() < min { return Ok(if args.is_empty() { fv.clone() } else { V::Part(Rc::new((fv.clone(), args))) }) }
        if args.len() > ps.len() && !variadic { return self.ex(n, format!("Incorrect number of arguments for {}, got {}", func_repr(&c.f), args.len())) }
        if self.depth > 60 { unsup!("deep recursion") }
        self.depth += 1;
        let unit = self.unit;
        self.frames.push(Frame { owner: func_repr(&c.f), site: n.id, line: n.loc.a, unit });
        self.unit = c.unit;
        let r = self.call_body(c, args, variadic);
        let r = match r { Ok(v) => Ok(v), Err(Ctl::Return(v)) => Ok(v), Err(Ctl::Break | Ctl::Continue) => Err(Ctl::Abort("stray")), Err(e) => return Err(e) };
        let fr = self.frames.pop().unwrap();
        self.unit = fr.unit;
        self.depth -= 1;
        r
    }
    fn call_body(&mut self, c: &Rc<Clos>, args: Vec<V>, variadic: bool) -> Rs<V> {
        let ps = &c.f.params;
        let mut env = c.env.clone();
        let mut vals: Vec<V> = vec![];
        let np = ps.len();
        let mut it = args.into_iter();
        for (i, p) in ps.iter().enumerate() {
            if variadic && i + 1 == np { vals.push(vector(it.by_ref().collect())); break }
            match it.next() {
                Some(v) => vals.push(v),
                None => { let d = p.default.as_ref().unwrap(); let v = self.expr(d, &c.env)?; vals.push(v) }
            }
        }
        for p in ps { let mut ids = vec![]; Self::pat_ids(&p.pat, &mut ids); for id in ids { env.push(id, V::Nil) } }
        for (p, v) in ps.iter().zip(vals) {
            let tmp = N { e: E::Nil, loc: Loc { a: c.f.pline, b: c.f.pline }, id: 0 };
            if let Pat::Terms(_) = p.pat { self.features.insert("param-pattern"); }
            self.bind(&tmp, &p.pat, &v, &mut env)?;
        }
        match &c.f.body {
            Body::Expr(e) => self.expr(e, &env),
            Body::Block(b) => Ok(self.block(b, &env)?.unwrap_or(V::Nil)),
        }
    }
    fn call_ffi(&mut self, n: &N, x: &Rc<FfiFn>, args: Vec<V>) -> Rs<V> {
        let mut full: Vec<V> = vec![];
        let np = x.params.len();
        let mut it = args.into_iter();
        let unit = self.unit;
        self.frames.push(Frame { owner: format!("native fn {}({})", x.name, x.params.join(", ")), site: n.id, line: n.loc.a, unit });
        self.unit = x.unit;
        for i in 0..np {
            if x.variadic && i + 1 == np { full.push(vector(it.by_ref().collect())); continue }
            match it.next() { Some(v) => full.push(v), None => { let v = self.expr(&x.defaults[i + x.opt + x.variadic as usize - np], &x.env)?; full.push(v) } }
        }
        self.frames.pop(); self.unit = unit;
        if self.outside.is_some() { return self.call_library(n, x, full) }
        let rs = match full.iter().map(|v| repr(v, 0)).collect::<Option<Vec<_>>>() { Some(r) => r, None => unsup!("ffi arg") };
        let idx = self.ffi_calls; self.ffi_calls += 1;
        if self.ffi_calls > 400 { unsup!("ffi budget") }
        let key = format!("{}->{}({})", x.module, x.name, rs.join(", "));
        self.events.push(Ev::Ffi(key));
        match self.plan.ffi(idx, &x.name) {
            FfiOutcome::Fail(m) => self.ffi_err(n, x, Msg::Exact(format!("OSError: {}", m))),
            FfiOutcome::Val(v) => Ok(match v { Pv::Arg => full.into_iter().next().unwrap_or(V::Nil), Pv::Nil => V::Nil, Pv::Bool(b) => V::Bool(b), Pv::Int(i) => V::Int(i), Pv::Str(s) => V::Str(s.into()) }),
        }
    }
    fn ffi_err(&mut self, n: &N, x: &Rc<FfiFn>, m: Msg) -> Rs<V> {
        let owner = format!("native fn {}({})", x.name, x.params.join(", "));
        // native functions are compiled into a wrapper whose only instruction is the call
        let unit = self.unit;
        self.frames.push(Frame { owner, site: n.id, line: n.loc.a, unit });
        self.unit = x.unit;
        let r = self.err_at(Loc { a: x.line, b: x.line }, 0, m);
        self.frames.pop(); self.unit = unit;
        r
    }
    /// A call into a dynamic library, which is loaded when it is first needed.
    fn call_library(&mut self, n: &N, x: &Rc<FfiFn>, full: Vec<V>) -> Rs<V> {
        fn show(v: &V, d: u32) -> Result<String, &'static str> {
            if d > 20 { return Err("deep") }
            Ok(match v {
                V::Nil => "nil".into(), V::Bool(b) => b.to_string(), V::Int(i) => i.to_string(),
                V::Str(s) => { if s.contains('\0') { return Err("") } format!("\"{}\"", s) }
                V::List(l) | V::Vector(l) => format!("[{}]", l.borrow().iter().map(|v| show(v, d + 1)).collect::<Result<Vec<_>, _>>()?.join(", ")),
                _ => return Err(""),
            })
        }
        fn back(v: &V) -> V { match v { V::List(l) | V::Vector(l) => vector(l.borrow().iter().map(back).collect()), v => v.clone() } }
        fn value(f: &Fv, a: &[V]) -> Result<V, Msg> {
            Ok(match f {
                Fv::Nil => V::Nil, Fv::Bool(b) => V::Bool(*b), Fv::Int(i) => V::Int(*i), Fv::Str(s) => V::Str(s.as_str().into()),
                Fv::Arr(x) => vector(x.iter().map(|e| value(e, a)).collect::<Result<Vec<_>, _>>()?),
                Fv::Arg => a.first().map_or(V::Nil, back),
                Fv::NoText(_) | Fv::ErrNoText(_) => return Err(Msg::Prefix("OSError: ".into())),
                Fv::Err(m) => return Err(Msg::Exact(format!("OSError: {}", m))),
            })
        }
        let o = self.outside.as_mut().unwrap();
        let Some(link) = o.links.iter().find(|l| l.0 == x.module).map(|l| l.1.clone()) else { self.features.insert("no-link"); return self.ffi_err(n, x, Msg::Prefix("OSError: ".into())) };
        let lib = o.libs.iter().position(|l| l.name == link);
        let Some(k) = lib else { self.features.insert("no-such-library"); return self.ffi_err(n, x, Msg::Prefix("OSError: ".into())) };
        if !o.loaded.contains(&x.module) {
            o.attempts.resize(o.libs.len(), 0);
            let a = o.attempts[k]; o.attempts[k] += 1;
            if a < o.libs[k].fail_first || o.libs[k].no_init { self.features.insert("load-failed"); return self.ffi_err(n, x, Msg::Prefix("OSError: ".into())) }
            if a > 0 { self.features.insert("load-retried"); }
            o.loaded.insert(x.module.clone());
        }
        if o.libs[k].missing.contains(&x.name) { self.features.insert("missing-symbol"); return self.ffi_err(n, x, Msg::Prefix("OSError: ".into())) }
        let args = match full.iter().map(|v| show(v, 0)).collect::<Result<Vec<_>, _>>() { Ok(a) => a, Err("") => { self.features.insert("argument-not-representable"); return self.ffi_err(n, x, Msg::Prefix("OSError: ".into())) } Err(_) => unsup!("ffi depth") };
        let idx = self.ffi_calls; self.ffi_calls += 1;
        if self.ffi_calls > 400 { unsup!("ffi budget") }
        self.events.push(Ev::Ffi(format!("{}->{}({})", link, x.name, args.join(", "))));
        let o = self.outside.as_mut().unwrap();
        o.at_call.push(o.disk.clone());
        let f = if o.outcomes.is_empty() { Fv::Nil } else { o.outcomes[idx as usize % o.outcomes.len()].clone() };
        let f = match f { Fv::Err(_) | Fv::NoText(_) | Fv::ErrNoText(_) => f, _ if x.name.starts_with('p') => Fv::Arg, _ if x.name.starts_with('c') => Fv::Bool(crate::rng::mix(idx) & 1 == 1), f => f };
        match value(&f, &full) { Ok(v) => Ok(v), Err(m) => self.ffi_err(n, x, m) }
    }
    /// Reading or writing a whole file of the simulated disk.
    fn file_op(&mut self, n: &N, path: &str, write: Option<&str>) -> Rs<V> {
        let o = self.outside.as_mut().unwrap();
        let op = o.ops; o.ops += 1;
        let real = o.after.get(op as usize).cloned();
        let fault = |o: &Outside, c: char| o.faults.iter().find(|f| f.op == op && f.stage == c).cloned();
        let parent = path.rsplit_once('/').map_or("", |p| p.0);
        let dir = o.dirs.iter().any(|d| d == path);
        let reach = parent == "/sim" || o.dirs.iter().any(|d| d == parent);
        let io = Msg::Prefix("IOError: ".into());
        if fault(o, 'o').is_some() || !reach || (write.is_some() && dir) { o.io_errors += 1; return self.err(n, io) }
        match write {
            Some(t) => {
                if let Some(f) = fault(o, 'w') { if t.len() > f.after {
                    // how much of a failed write is on the disk is not determined, only that nothing else changed
                    o.failed_writes.push(path.into()); o.io_errors += 1;
                    match real.as_ref().map(|d| d.get(path)) { Some(Some(c)) => { o.disk.insert(path.into(), c.clone()); } Some(None) => { o.disk.remove(path); } None => { o.disk.insert(path.into(), Rc::new(t.as_bytes()[..f.after].to_vec())); } }
                    o.hist.push((path.into(), t.as_bytes().to_vec(), o.disk.clone()));
                    return self.err(n, io)
                } }
                o.disk.insert(path.into(), Rc::new(t.as_bytes().to_vec()));
                o.hist.push((path.into(), t.as_bytes().to_vec(), o.disk.clone()));
                self.work(t.len() / 16)?;
                Ok(V::Nil)
            }
            None => {
                let Some(c) = o.disk.get(path).cloned() else { o.io_errors += 1; return self.err(n, io) };
                if fault(o, 'r').is_some() { o.io_errors += 1; return self.err(n, io) }
                match std::str::from_utf8(&c) { Ok(t) => { let t = t.replace("\r\n", "\n"); self.work(t.len() / 16)?; Ok(V::Str(t.into())) } Err(_) => { self.outside.as_mut().unwrap().io_errors += 1; self.err(n, io) } }
            }
        }
    }
    fn int(&self, n: &N, v: &V) -> Rs<i64> { match v { V::Int(i) => Ok(*i), V::Bool(_) => unsup!("bool as int"), v => self.must_be(n, v, "a int") } }
    fn str(&self, n: &N, v: &V) -> Rs<Rc<str>> { match v { V::Str(s) => Ok(s.clone()), v => self.must_be(n, v, "a string") } }
    /// the values which functions taking "a function or a value" treat as functions; memoised ones are not among them
    fn callable(&self, v: &V) -> bool { matches!(v, V::Fn(_) | V::Ffi(_) | V::Part(_) | V::Nat(_) | V::StructT(_) | V::OpR(..)) }
    /// the values which can be applied to elements
    fn need_fn(&self, n: &N, f: &V) -> Rs<()> {
        if self.callable(f) || matches!(f, V::Memo(_) | V::List(_) | V::FieldFn(_)) { Ok(()) } else { self.ev(n, "Tried to evaluate ", || if known_ty(f) { Some(format!("{} but it is not a function.", repr(f, 0)?)) } else { None }) }
    }
    fn nonempty<T>(&self, n: &N, v: Option<T>, f: &str) -> Rs<T> { match v { Some(v) => Ok(v), None => self.ex(n, format!("ValueError: Expected '{}' argument to be a non-empty iterable", f)) } }

    fn native(&mut self, n: &N, name: &'static str, mut args: Vec<V>) -> Rs<V> {
        if name.starts_with('(') {
            let op: &'static str = OPN.iter().find(|o| o.1 == name).unwrap().0;
            return match args.len() { 2 => { let b = args.pop().unwrap(); let a = args.pop().unwrap(); self.op2(n, op, a, b) } 1 if op != "-" => Ok(V::Part(Rc::new((V::Nat(name), args)))), _ => unsup!("op arity") }
        }
        let kind = is_native(name).unwrap().1;
        let k = args.len();
        let (min, max) = match kind { 0 => (0, 0), 1 => (1, 1), 2 => (2, 2), 3 => (3, 3), 14 => (0, 1), 12 => (1, 2), 13 => (1, 3), 20 | 21 => (0, usize::MAX), 22 | 23 => (1, usize::MAX), _ => unsup!("invalid native") };
        if k > max { return self.err(n, Msg::Prefix(format!("Incorrect number of arguments for fn {}(", name))) }
        if k < min {
            if kind >= 22 { return self.err(n, Msg::Prefix(format!("Incorrect number of arguments for fn {}(", name))) }
            return Ok(if k == 0 { V::Nat(name) } else { V::Part(Rc::new((V::Nat(name), args))) })
        }
        // variable natives take either one iterable or their arguments
        let var = |m: &mut Self, args: Vec<V>| -> Rs<Vec<V>> { if args.len() == 1 { m.collect(n, &args[0]) } else { Ok(args) } };
        match name {
            "print" => {
                if k == 0 { self.out("\n")?; return Ok(V::Nil) }
                let mut s = String::new();
                for (i, a) in args.iter().enumerate() { if i > 0 { s.push(' ') } match to_str(a) { Some(t) => s.push_str(&t), None => unsup!("print") } }
                s.push('\n');
                self.out(&s)?;
                Ok(V::Nil)
            }
            "read_text" if self.outside.is_some() => { let p = self.str(n, &args[0])?; self.file_op(n, &p, None) }
            "write_text" if self.outside.is_some() => { let p = self.str(n, &args[0])?; let t = self.str(n, &args[1])?; self.file_op(n, &p, Some(&t)) }
            "argv" if self.outside.is_some() => Ok(list(self.outside.as_ref().unwrap().argv.iter().map(|a| V::Str(a.as_str().into())).collect())),
            "env" if self.outside.is_some() && k == 0 => { let mut d = vec![]; for (a, b) in &self.outside.as_ref().unwrap().env { dput(&mut d, V::Str(a.as_str().into()), V::Str(b.as_str().into())) } Ok(dict(d)) }
            "env" if self.outside.is_some() => { let p = self.str(n, &args[0])?; Ok(self.outside.as_ref().unwrap().env.iter().find(|e| e.0 == *p).map_or(V::Nil, |e| V::Str(e.1.as_str().into()))) }
            "read_line" => {
                let mut s = String::new();
                while self.stdin_pos < self.stdin.len() { if self.stdin_fail == Some(self.stdin_pos) { return self.err(n, Msg::Prefix("IOError: ".into())) } let c = self.stdin[self.stdin_pos]; self.stdin_pos += 1; s.push(c); if c == '\n' { break } }
                if self.stdin_pos >= self.stdin.len() && !s.ends_with('\n') && self.stdin_fail.is_some() { return self.err(n, Msg::Prefix("IOError: ".into())) }
                if s.ends_with('\n') { s.pop(); if s.ends_with('\r') { s.pop(); } }
                Ok(V::Str(s.into()))
            }
            "read" => { if self.stdin_fail.is_some() { return self.err(n, Msg::Prefix("IOError: ".into())) } let s: String = self.stdin[self.stdin_pos.min(self.stdin.len())..].iter().collect(); self.stdin_pos = self.stdin.len(); Ok(V::Str(s.replace("\r\n", "\n").into())) }
            "bool" => Ok(V::Bool(truthy(&args[0]))),
            "int" => match (&args[0], k) { (V::Int(i), 1) => Ok(V::Int(*i)), (V::Bool(b), 1) => Ok(V::Int(*b as i64)), _ => unsup!("int()") },
            "str" => match to_str(&args[0]) { Some(s) => Ok(V::Str(s.into())), None => unsup!("str") },
            "repr" => match repr(&args[0], 0) { Some(s) => Ok(V::Str(s.into())), None => unsup!("repr") },
            "list" => { let v = if k == 0 { vec![] } else { var(self, args)? }; Ok(list(v)) }
            "vector" => { let v = if k == 0 { vec![] } else { if k == 1 && matches!(args[0], V::Int(_) | V::Bool(_)) { unsup!("vector(int)") } var(self, args)? }; Ok(vector(v)) }
            "set" => { let v = if k == 0 { vec![] } else { var(self, args)? }; Ok(set(v)) }
            "dict" => {
                let v = if k == 0 { vec![] } else { var(self, args)? };
                let mut d = vec![];
                for e in v { match &e { V::Vector(p) if p.borrow().len() == 2 => { let p = p.borrow(); dput(&mut d, p[0].clone(), p[1].clone()) } _ => return self.err(n, Msg::Prefix("ValueError: Cannot collect key-value pair".into())) } }
                Ok(dict(d))
            }
            "eval" => { let s = self.str(n, &args[0])?; self.eval(n, &s) }
            "len" => Ok(V::Int(self.len(n, &args[0])? as i64)),
            "range" => {
                let a: Vec<i64> = args.iter().map(|a| self.int(n, a)).collect::<Rs<_>>()?;
                Ok(match a.len() { 1 => V::Range(0, a[0], 1), 2 => V::Range(a[0], a[1], 1), _ => { if a[2] == 0 { return self.ex(n, "ValueError: 'step' argument cannot be zero".into()) } V::Range(a[0], a[1], a[2]) } })
            }
            "enumerate" => Ok(V::Enum(Rc::new(args.remove(0)))),
            "sum" => { let mut s = 0i64; for v in var(self, args)? { s += self.int(n, &v)?; } Ok(V::Int(s)) }
            "min" | "max" => {
                let v = var(self, args)?; let mut best: Option<V> = None;
                for x in v { best = Some(match best { None => x, Some(b) => { let o = match self.cmp(&x, &b) { Some(o) => o, None => unsup!("min compare") }; if (name == "min" && o == std::cmp::Ordering::Less) || (name == "max" && o != std::cmp::Ordering::Less) { x } else { b } } }) }
                self.nonempty(n, best, name)
            }
            "sort" => { let mut v = var(self, args)?; self.sort_vals(&mut v)?; Ok(list(v)) }
            "reverse" => { let mut v = var(self, args)?; v.reverse(); Ok(list(v)) }
            "zip" => {
                let v = if k == 1 { self.collect(n, &args[0])? } else { args };
                let mut its = v.iter().map(|x| self.iter(n, x)).collect::<Rs<Vec<_>>>()?;
                if its.is_empty() { return self.nonempty(n, None, "zip") }
                let mut out = vec![];
                'o: loop { let mut row = vec![]; for it in &mut its { match self.next(it) { Some(x) => row.push(x), None => break 'o } } self.step()?; out.push(vector(row)) }
                Ok(list(out))
            }
            "concat" => { let mut out = vec![]; let mut it = self.iter(n, &args[0])?; while let Some(x) = self.next(&mut it) { out.extend(self.collect(n, &x)?) } Ok(list(out)) }
            "map" | "filter" | "any" | "all" | "flat_map" => {
                let x = args.pop().unwrap(); let f = args.pop().unwrap();
                self.need_fn(n, &f)?;
                let mut it = self.iter(n, &x)?;
                let mut out = vec![];
                while let Some(e) = self.next(&mut it) {
                    let r = self.call(n, &f, vec![e.clone()])?;
                    match name {
                        "map" => out.push(r),
                        "filter" => if truthy(&r) { out.push(e) },
                        "any" => if truthy(&r) { return Ok(V::Bool(true)) },
                        "all" => if !truthy(&r) { return Ok(V::Bool(false)) },
                        _ => out.extend(self.collect(n, &r)?),
                    }
                }
                Ok(match name { "any" => V::Bool(false), "all" => V::Bool(true), _ => list(out) })
            }
            "reduce" => {
                let x = args.pop().unwrap(); let f = args.pop().unwrap();
                let mut it = self.iter(n, &x)?;
                let first = self.next(&mut it);
                let mut acc = self.nonempty(n, first, "reduce")?;
                self.need_fn(n, &f)?;
                while let Some(e) = self.next(&mut it) { acc = self.call(n, &f, vec![acc, e])? }
                Ok(acc)
            }
            "group_by" => {
                let x = args.pop().unwrap(); let f = args.pop().unwrap();
                let mut it = self.iter(n, &x)?;
                if let V::Int(size) = f {
                    if size <= 0 { return self.ex(n, format!("ValueError: Expected value '{}: int' to be positive", size)) }
                    let mut out = vec![]; let mut g = vec![];
                    while let Some(e) = self.next(&mut it) { g.push(e); if g.len() == size as usize { out.push(vector(std::mem::take(&mut g))) } }
                    if !g.is_empty() { out.push(vector(g)) }
                    return Ok(list(out))
                }
                self.need_fn(n, &f)?;
                let mut d: Vec<(V, V)> = vec![];
                while let Some(e) = self.next(&mut it) {
                    let key = self.call(n, &f, vec![e.clone()])?;
                    match d.iter().find(|x| eq(&x.0, &key)) { Some((_, V::Vector(g))) => g.borrow_mut().push(e), _ => d.push((key, vector(vec![e]))) }
                }
                Ok(dict(d))
            }
            "min_by" | "max_by" | "sort_by" => {
                let x = args.pop().unwrap(); let f = args.pop().unwrap();
                let mut it = self.iter(n, &x)?;
                let arity = match &f { V::Fn(c) => c.f.params.iter().filter(|p| p.default.is_none() && !p.variadic).count(), V::Ffi(x) => x.params.len() - x.opt, V::Nat("len" | "str" | "int" | "abs" | "repr") => 1, V::Nat("sum" | "set" | "list") => 0, V::Memo(_) | V::List(_) | V::Nil | V::Int(_) | V::Bool(_) | V::Str(_) | V::Dict(_) | V::Set(_) | V::Vector(_) => return self.must_be(n, &f, "a function"), _ => unsup!("by function") };
                let mut keyed: Vec<(V, V)> = vec![];
                match arity {
                    1 => {
                        // the smallest and largest are found while iterating, a sort takes all elements first
                        if name == "sort_by" { let v = self.collect(n, &x)?; if v.len() < 2 { return Ok(list(v)) } for e in v { let key = self.call(n, &f, vec![e.clone()])?; keyed.push((key, e)) } }
                        else { while let Some(e) = self.next(&mut it) { let key = self.call(n, &f, vec![e.clone()])?; keyed.push((key, e)) } }
                    }
                    2 => {
                        // insertion by comparisons
                        let v = self.collect(n, &x)?;
                        let mut out: Vec<V> = vec![];
                        for e in v {
                            let mut at = out.len();
                            for i in 0..out.len() {
                                let r = self.call(n, &f, vec![out[i].clone(), e.clone()])?;
                                if self.int(n, &r)? > 0 { at = i; break }
                            }
                            out.insert(at, e);
                        }
                        return match name { "sort_by" => Ok(list(out)), "min_by" => { let r = out.into_iter().next(); self.nonempty(n, r, name) } _ => { let r = out.pop(); self.nonempty(n, r, name) } }
                    }
                    _ => return self.must_be(n, &f, "a '<A, B> fn key(A) -> B' or '<A> cmp(A, A) -> int' function")
                }
                match name {
                    "sort_by" => {
                        let mut out: Vec<(V, V)> = vec![];
                        for e in keyed {
                            let mut at = out.len();
                            for i in 0..out.len() { match self.cmp(&out[i].0, &e.0) { Some(std::cmp::Ordering::Greater) => { at = i; break } Some(_) => {} None => unsup!("key compare") } }
                            out.insert(at, e);
                        }
                        Ok(list(out.into_iter().map(|e| e.1).collect()))
                    }
                    _ => {
                        let mut best: Option<(V, V)> = None;
                        for e in keyed { best = Some(match best { None => e, Some(b) => { let o = match self.cmp(&e.0, &b.0) { Some(o) => o, None => unsup!("key compare") }; if (name == "min_by" && o == std::cmp::Ordering::Less) || (name == "max_by" && o != std::cmp::Ordering::Less) { e } else { b } } }) }
                        self.nonempty(n, best.map(|b| b.1), name)
                    }
                }
            }
            "find" | "index_of" => {
                let x = args.pop().unwrap(); let f = args.pop().unwrap();
                let mut it = self.iter(n, &x)?; let mut i = 0i64;
                while let Some(e) = self.next(&mut it) {
                    let hit = if self.callable(&f) { truthy(&self.call(n, &f, vec![e.clone()])?) } else { eq(&e, &f) };
                    if hit { return Ok(if name == "find" { e } else { V::Int(i) }) }
                    i += 1;
                }
                Ok(if name == "find" { V::Nil } else { V::Int(-1) })
            }
            "rfind" | "rindex_of" => {
                let x = args.pop().unwrap(); let f = args.pop().unwrap();
                let n0 = match &x { V::List(_) | V::Vector(_) | V::Set(_) | V::Dict(_) => self.len(n, &x)?, V::Nil | V::Int(_) => { self.iter(n, &x)?; 0 } _ => unsup!("rfind") };
                let mut i = n0; 
                while i > 0 {
                    i -= 1;
                    let e = match Self::coll_get(&x, i) { Some(e) => e, None => break };
                    let hit = if self.callable(&f) { truthy(&self.call(n, &f, vec![e.clone()])?) } else { eq(&e, &f) };
                    if hit { return Ok(if name == "rfind" { e } else { V::Int(i as i64) }) }
                }
                Ok(if name == "rfind" { V::Nil } else { V::Int(-1) })
            }
            "memoize" => { let f = args.pop().unwrap(); if !self.callable(&f) { return self.must_be(n, &f, "a function") } Ok(V::Memo(Rc::new(Memo { f, cache: RefCell::new(vec![]) }))) }
            "counter" => {
                let mut it = self.iter(n, &args[0])?; let mut d: Vec<(V, V)> = vec![];
                while let Some(e) = self.next(&mut it) { match d.iter_mut().find(|x| eq(&x.0, &e)) { Some((_, V::Int(c))) => *c += 1, _ => d.push((e, V::Int(1))) } }
                Ok(dict(d))
            }
            "copy" => copy(&args[0], 0),
            "union" | "intersect" | "difference" => {
                let this = args.pop().unwrap(); let other = args.pop().unwrap();
                let V::Set(s) = &this else { return self.must_be(n, &this, "a set") };
                let o = self.collect(n, &other)?;
                let mut s = s.borrow_mut();
                match name { "union" => for e in o { if !s.iter().any(|x| eq(x, &e)) { s.push(e) } }, "intersect" => s.retain(|x| o.iter().any(|y| eq(x, y))), _ => s.retain(|x| !o.iter().any(|y| eq(x, y))) }
                drop(s);
                Ok(this)
            }
            "peek" => {
                let r = match &args[0] { V::List(_) | V::Set(_) | V::Dict(_) | V::Vector(_) => Self::coll_get(&args[0], 0), v => return self.must_be(n, v, "an iterable") };
                self.nonempty(n, r, "peek")
            }
            "pop" => {
                let r = match &args[0] { V::List(l) | V::Set(l) => l.borrow_mut().pop(), V::Dict(d) => d.items.borrow_mut().pop().map(|(a, b)| vector(vec![a, b])), v => return self.must_be(n, v, "an iterable") };
                self.nonempty(n, r, "pop")
            }
            "pop_front" => {
                let r = match &args[0] { V::List(l) => { let mut l = l.borrow_mut(); if l.is_empty() { None } else { Some(l.remove(0)) } } v => return self.must_be(n, v, "a list") };
                self.nonempty(n, r, "pop_front")
            }
            "push" => {
                let t = args.pop().unwrap(); let v = args.pop().unwrap();
                match &t { V::List(l) => l.borrow_mut().push(v), V::Set(s) => { self.no_cycle(n, &v, Rc::as_ptr(s) as usize)?; if !s.borrow().iter().any(|x| eq(x, &v)) { s.borrow_mut().push(v) } } x => return self.must_be(n, x, "an iterable") }
                Ok(t)
            }
            "push_front" => { let t = args.pop().unwrap(); let v = args.pop().unwrap(); match &t { V::List(l) => l.borrow_mut().insert(0, v), x => return self.must_be(n, x, "a list") } Ok(t) }
            "insert" => {
                let t = args.pop().unwrap(); let v = args.pop().unwrap(); let i = args.pop().unwrap();
                match &t {
                    V::List(l) => { let i = self.int(n, &i)?; let len = l.borrow().len(); if i >= 0 && i as usize <= len { l.borrow_mut().insert(i as usize, v) } else { return self.ex(n, format!("Index '{}' is out of bounds for list of length [0, {})", i, len)) } }
                    V::Dict(d) => { self.no_cycle(n, &i, Rc::as_ptr(d) as usize)?; dput(&mut d.items.borrow_mut(), i, v) }
                    x => return self.ev(n, "TypeError: Cannot index ", || Self::val_err(x))
                }
                Ok(t)
            }
            "remove" => {
                let t = args.pop().unwrap(); let p = args.pop().unwrap();
                match &t {
                    V::List(l) => { let i = self.int(n, &p)?; let len = l.borrow().len(); if i >= 0 && (i as usize) < len { Ok(l.borrow_mut().remove(i as usize)) } else { self.ex(n, format!("Index '{}' is out of bounds for list of length [0, {})", i, len)) } }
                    V::Set(s) => { let mut s = s.borrow_mut(); match s.iter().position(|x| eq(x, &p)) { Some(i) => { s.remove(i); Ok(V::Bool(true)) } None => Ok(V::Bool(false)) } }
                    V::Dict(d) => { let mut s = d.items.borrow_mut(); match s.iter().position(|x| eq(&x.0, &p)) { Some(i) => { s.remove(i); Ok(V::Bool(true)) } None => Ok(V::Bool(false)) } }
                    x => self.must_be(n, x, "an iterable")
                }
            }
            "clear" => { let t = args.pop().unwrap(); match &t { V::List(l) | V::Set(l) => l.borrow_mut().clear(), V::Dict(d) => d.items.borrow_mut().clear(), x => return self.must_be(n, x, "an iterable") } Ok(t) }
            "default" => { let t = args.pop().unwrap(); let d = args.pop().unwrap(); match &t { V::Dict(x) => *x.default.borrow_mut() = Some(d), x => return self.must_be(n, x, "a dict") } Ok(t) }
            "keys" => match &args[0] { V::Dict(d) => Ok(set(d.items.borrow().iter().map(|e| e.0.clone()).collect())), x => self.must_be(n, x, "a dict") },
            "values" => match &args[0] { V::Dict(d) => Ok(list(d.items.borrow().iter().map(|e| e.1.clone()).collect())), x => self.must_be(n, x, "a dict") },
            "join" => {
                let j = self.str(n, &args[0])?; let v = self.collect(n, &args[1])?;
                match v.iter().map(to_str).collect::<Option<Vec<_>>>() { Some(s) => Ok(V::Str(s.join(&j).into())), None => unsup!("join") }
            }
            "split" => {
                let p = self.str(n, &args[0])?; let s = self.str(n, &args[1])?;
                if p.is_empty() { return Ok(list(s.chars().map(|c| V::Str(c.to_string().into())).collect())) }
                if !p.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == ',') { unsup!("regex") }
                Ok(list(s.split(&*p).map(|x| V::Str(x.into())).collect()))
            }
            "replace" => {
                let s = self.str(n, &args[2])?;
                let p = self.str(n, &args[0])?;
                if p.is_empty() || !p.chars().all(|c| c.is_ascii_alphanumeric()) { unsup!("regex") }
                let f = args[1].clone();
                if !self.callable(&f) { let r = self.str(n, &f)?; if r.contains('$') { unsup!("regex") } return Ok(V::Str(s.replace(&*p, &r).into())) }
                let mut out = String::new(); let mut rest: &str = &s;
                while let Some(i) = rest.find(&*p) {
                    out.push_str(&rest[..i]);
                    let r = self.call(n, &f, vec![V::Str(p.clone())])?;
                    out.push_str(&*self.str(n, &r)?);
                    rest = &rest[i + p.len()..];
                }
                out.push_str(rest);
                Ok(V::Str(out.into()))
            }
            "abs" => match &args[0] { V::Int(i) => Ok(V::Int(i.abs())), V::Bool(_) | V::Vector(_) => unsup!("abs"), v => self.ev(n, "TypeError: Cannot convert ", || Some(format!("{} to an int", Self::val_err(v)?))) },
            "to_upper" => Ok(V::Str(self.str(n, &args[0])?.to_uppercase().into())),
            "to_lower" => Ok(V::Str(self.str(n, &args[0])?.to_lowercase().into())),
            "permutations" | "combinations" => unsup!("permutations"),
            _ => unsup!("native")
        }
    }
    fn sort_vals(&self, v: &mut Vec<V>) -> Rs<()> {
        let mut out: Vec<V> = vec![];
        for e in v.drain(..) {
            let mut at = out.len();
            for i in 0..out.len() { match self.cmp(&out[i], &e) { Some(std::cmp::Ordering::Greater) => { at = i; break } Some(_) => {} None => unsup!("sort compare") } }
            out.insert(at, e);
        }
        *v = out;
        Ok(())
    }

    fn eval(&mut self, n: &N, text: &str) -> Rs<V> {
        self.features.insert("eval");
        let prog = Parser::new(text).and_then(|p| p.only_expr());
        let bad = |m: &Self| m.err(n, Msg::Prefix("Encountered compilation error(s) within 'eval':".into()));
        let prog = match prog { Ok(p) => Rc::new(p), Err(_) => return bad(self) };
        let none = vec![];
        let mut r = Resolver { fns: vec![RFn { vars: vec![], marks: vec![] }], globals: &none, new_globals: vec![], next_id: self.next_id, late: vec![], fields: self.fields.clone(), used_fields: vec![], features: HashSet::new(), module: None, err: false, is_eval: true, in_default: 0 };
        r.expr(&prog);
        if r.err || !r.late.is_empty() || r.used_fields.iter().any(|f| !r.fields.contains(f)) { return bad(self) }
        self.next_id = r.next_id;
        if self.depth > 60 { unsup!("deep recursion") }
        self.units.push(Unit { name: "<eval>".into(), text: text.to_string() });
        self.depth += 1;
        let unit = self.unit;
        self.frames.push(Frame { owner: "<script>".into(), site: n.id, line: n.loc.a, unit });
        self.unit = self.units.len() - 1;
        let v = self.expr(&prog, &Env(None))?;
        // function bodies are referenced by the closures themselves
        std::mem::forget(prog.clone());
        let fr = self.frames.pop().unwrap();
        self.unit = fr.unit;
        self.depth -= 1;
        Ok(v)
    }
}

fn unsup_value(a: V) -> Rs<V> { Ok(a) }

const OPN: &[(&str, &str)] = &[("+", "(+)"), ("-", "(-)"), ("*", "(*)"), ("/", "(/)"), ("%", "(%)"), ("**", "(**)"), ("&", "(&)"), ("|", "(|)"), ("^", "(^)"), ("<", "(<)"), ("<=", "(<=)"), (">", "(>)"), (">=", "(>=)"), ("==", "(==)"), ("!=", "(!=)"), ("<<", "(<<)"), (">>", "(>>)")];
fn opname(o: &str) -> &'static str { OPN.iter().find(|x| x.0 == o).map(|x| x.1).unwrap_or("(?)") }

pub fn list(v: Vec<V>) -> V { V::List(Rc::new(RefCell::new(v))) }
pub fn vector(v: Vec<V>) -> V { V::Vector(Rc::new(RefCell::new(v))) }
pub fn set(v: Vec<V>) -> V { let mut o: Vec<V> = vec![]; for e in v { if !o.iter().any(|x| eq(x, &e)) { o.push(e) } } V::Set(Rc::new(RefCell::new(o))) }
pub fn dict(v: Vec<(V, V)>) -> V { V::Dict(Rc::new(DictV { items: RefCell::new(v), default: RefCell::new(None) })) }
pub fn dput(d: &mut Vec<(V, V)>, k: V, v: V) { match d.iter_mut().find(|e| eq(&e.0, &k)) { Some(e) => e.1 = v, None => d.push((k, v)) } }

fn copy(v: &V, d: u32) -> Rs<V> {
    if d > 20 { unsup!("copy") }
    Ok(match v {
        V::List(l) => list(l.borrow().iter().map(|e| copy(e, d + 1)).collect::<Rs<_>>()?),
        V::Vector(l) => vector(l.borrow().iter().map(|e| copy(e, d + 1)).collect::<Rs<_>>()?),
        V::Set(l) => set(l.borrow().iter().map(|e| copy(e, d + 1)).collect::<Rs<_>>()?),
        V::Dict(x) => dict(x.items.borrow().iter().map(|e| Ok((copy(&e.0, d + 1)?, copy(&e.1, d + 1)?))).collect::<Rs<_>>()?),
        V::Inst(i) => V::Inst(Rc::new(Inst { ty: i.ty.clone(), vals: RefCell::new(i.vals.borrow().iter().map(|e| copy(e, d + 1)).collect::<Rs<_>>()?) })),
        v => v.clone()
    })
}

pub fn walk(n: &N, f: &mut dyn FnMut(&N)) {
    f(n);
    match &n.e {
        E::List(v) | E::Vector(v) | E::Set(v) | E::Dict(v) => for (_, e) in v { walk(e, f) },
        E::Chain(a, v) => { walk(a, f); for (_, e) in v { walk(e, f) } }
        E::Un(_, a) | E::OpPart(_, a) => walk(a, f),
        E::Bin(_, a, b) | E::Cmp(_, a, b) | E::And(a, b) | E::Or(a, b) | E::Compose(a, b) | E::Index(a, b) => { walk(a, f); walk(b, f) }
        E::If(a, b, c) => { walk(a, f); walk(b, f); walk(c, f) }
        E::Call(g, a) => { walk(g, f); for (_, e) in a { walk(e, f) } }
        E::Slice(a, b, c) => { walk(a, f); if let Some(b) = b { walk(b, f) } if let Some(c) = c { walk(c, f) } }
        E::Field(a, _) => walk(a, f),
        E::SetVar(_, e) | E::OpVar(_, _, e) => walk(e, f),
        E::SetIdx(a, i, e) | E::OpIdx(_, a, i, e) => { walk(a, f); walk(i, f); walk(e, f) }
        E::SetField(a, _, e) | E::OpField(_, a, _, e) => { walk(a, f); walk(e, f) }
        E::SetPat(p, e, _) => { walk_pat(p, f); walk(e, f) }
        _ => {}
    }
}
fn walk_pat(p: &Pat, f: &mut dyn FnMut(&N)) { match p { Pat::Terms(t) => for t in t { walk_pat(t, f) }, Pat::Idx(a, b) => { walk(a, f); walk(b, f) } Pat::Fld(a, _) => walk(a, f), _ => {} } }

/// rewrite late references once the indices of the unit's globals are known
fn patch_late(b: &[S], late: &[Ref]) {
    fn var(v: &Var, l: &[Ref]) { let r = v.r.borrow().clone(); if let Ref::Late(i) = r { v.late.set(true); *v.r.borrow_mut() = l[i].clone() } }
    fn pat(p: &Pat, l: &[Ref]) { match p { Pat::Name(v, _) | Pat::VarName(v, _) => var(v, l), Pat::Terms(t) => for t in t { pat(t, l) }, Pat::Idx(a, b) => { ex(a, l); ex(b, l) } Pat::Fld(a, _) => ex(a, l), _ => {} } }
    fn func(f: &Func, l: &[Ref]) { for p in &f.params { if let Some(d) = &p.default { ex(d, l) } } match &f.body { Body::Expr(e) => ex(e, l), Body::Block(b) => patch_late(b, l) } }
    fn ex(n: &N, l: &[Ref]) {
        match &n.e {
            E::Var(v) => var(v, l),
            E::List(v) | E::Vector(v) | E::Set(v) | E::Dict(v) => for (_, e) in v { ex(e, l) },
            E::Chain(a, v) => { ex(a, l); for (_, e) in v { ex(e, l) } }
            E::Un(_, a) | E::OpPart(_, a) | E::Field(a, _) => ex(a, l),
            E::Bin(_, a, b) | E::Cmp(_, a, b) | E::And(a, b) | E::Or(a, b) | E::Compose(a, b) | E::Index(a, b) => { ex(a, l); ex(b, l) }
            E::If(a, b, c) => { ex(a, l); ex(b, l); ex(c, l) }
            E::Call(g, a) => { ex(g, l); for (_, e) in a { ex(e, l) } }
            E::Slice(a, b, c) => { ex(a, l); if let Some(b) = b { ex(b, l) } if let Some(c) = c { ex(c, l) } }
            E::Lambda(f) => func(f, l),
            E::SetVar(v, e) | E::OpVar(_, v, e) => { var(v, l); ex(e, l) }
            E::SetIdx(a, i, e) | E::OpIdx(_, a, i, e) => { ex(a, l); ex(i, l); ex(e, l) }
            E::SetField(a, _, e) | E::OpField(_, a, _, e) => { ex(a, l); ex(e, l) }
            E::SetPat(p, e, _) => { pat(p, l); ex(e, l) }
            _ => {}
        }
    }
    for s in b {
        match &s.s {
            St::Let(v) => for (_, e, _) in v { if let Some(e) = e { ex(e, late) } },
            St::Fn(f, d) => { for d in d { ex(d, late) } func(f, late) }
            St::Struct(_, _, ms, ..) => for m in ms { func(m, late) },
            St::NativeMod(_, fs, _) => for f in fs { for d in f.3.iter() { ex(d, late) } },
            St::If(br, el) => { for (c, b) in br { ex(c, late); patch_late(b, late) } if let Some(e) = el { patch_late(e, late) } }
            St::Loop(b) => patch_late(b, late),
            St::While(c, b, e) => { ex(c, late); patch_late(b, late); if let Some(e) = e { patch_late(e, late) } }
            St::Do(b, w, e) => { patch_late(b, late); if let Some(w) = w { ex(w, late) } if let Some(e) = e { patch_late(e, late) } }
            St::For(_, e, b, el, _) => { ex(e, late); patch_late(b, late); if let Some(e) = el { patch_late(e, late) } }
            St::Return(Some(e)) | St::Expr(e, _) => ex(e, late),
            St::Assert(e, m, ..) => { ex(e, late); if let Some(m) = m { ex(m, late) } }
            _ => {}
        }
    }
}
