//! An independent lexer and parser for the subset of Cordy that the generators emit.
//! It shares no code with /repo: the reference model interprets what this produces.
use std::cell::Cell;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Tok { Id(String), Int(i64), Str(String), Op(&'static str), Kw(&'static str) }

#[derive(Debug, Clone)]
pub struct Token { pub t: Tok, pub line: u32, pub nl: bool, pub start: usize, pub end: usize }

pub const KWS: &[&str] = &["let","fn","return","if","elif","else","then","loop","while","for","in","is","not","break","continue","do","true","false","nil","struct","exit","assert","module","self","native","and","or"];
pub const OPS: &[&str] = &["...","<=>","**=","<<=",">>=",".=","->","==","!=","<=",">=","<<",">>","+=","-=","*=","/=","%=","&=","|=","^=","**","(",")","[","]","{","}",",",";",":",".","+","-","*","/","%","<",">","=","!","&","|","^","@","_?","?"];

pub type R<T> = Result<T, String>;

pub fn lex(src: &str) -> R<Vec<Token>> {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0; let mut line = 1u32; let mut nl = false;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c == '\n' { line += 1; nl = true; i += 1; continue }
        if c.is_whitespace() { i += 1; continue }
        if c == '/' && i + 1 < b.len() && b[i+1] == '/' { while i < b.len() && b[i] != '\n' { i += 1 } continue }
        if c == '/' && i + 1 < b.len() && b[i+1] == '*' {
            i += 2;
            loop {
                if i + 1 >= b.len() { return Err("unterminated comment".into()) }
                if b[i] == '*' && b[i+1] == '/' { i += 2; break }
                if b[i] == '\n' { line += 1; nl = true }
                i += 1;
            }
            continue
        }
        let start = i; let l0 = line;
        let t = if c.is_alphabetic() || c == '_' {
            let mut s = String::new();
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { s.push(b[i]); i += 1 }
            match KWS.iter().find(|k| **k == s) { Some(k) => Tok::Kw(k), None => Tok::Id(s) }
        } else if c.is_ascii_digit() {
            let mut s = String::new();
            while i < b.len() && b[i].is_ascii_digit() { s.push(b[i]); i += 1 }
            Tok::Int(s.parse::<i64>().map_err(|_| "bad int".to_string())?)
        } else if c == '\'' || c == '"' {
            let q = c; i += 1; let mut s = String::new();
            loop {
                if i >= b.len() { return Err("unterminated string".into()) }
                let c = b[i];
                if c == q { i += 1; break }
                if c == '\\' {
                    i += 1; if i >= b.len() { return Err("unterminated string".into()) }
                    match b[i] { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), '\\' => s.push('\\'), '\'' => s.push('\''), '"' => s.push('"'), _ => return Err("bad escape".into()) }
                    i += 1; continue
                }
                if c == '\n' { line += 1 }
                s.push(c); i += 1;
            }
            Tok::Str(s)
        } else {
            let mut f = None;
            for o in OPS {
                let oc: Vec<char> = o.chars().collect();
                if i + oc.len() <= b.len() && b[i..i+oc.len()] == oc[..] { f = Some(*o); i += oc.len(); break }
            }
            match f { Some(o) => Tok::Op(o), None => return Err(format!("bad char {}", c)) }
        };
        out.push(Token { t, line: l0, nl, start, end: i });
        nl = false;
    }
    Ok(out)
}

/// Source span of the operation of a node, in lines (first, last) relative to its input.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Loc { pub a: u32, pub b: u32 }

#[derive(Debug, Clone)]
/// `ThisField`, `ThisMethod`: a name of the enclosing struct, and which variable holds `self`
pub enum Ref { Unresolved, Native, Local(u32), Global(u32), Late(usize), ThisField(u32), ThisMethod(u32, Rc<Func>), Method(Rc<Func>) }

#[derive(Debug)]
/// `line` is where it is named; `late` is set if that is before the declaration
pub struct Var { pub name: String, pub r: std::cell::RefCell<Ref>, pub line: u32, pub late: Cell<bool> }
impl Var { fn new(n: &str, line: u32) -> Var { Var { name: n.to_string(), r: std::cell::RefCell::new(Ref::Unresolved), line, late: Cell::new(false) } } }

#[derive(Debug)]
pub struct N { pub e: E, pub loc: Loc, pub id: u64 }
pub type P = Box<N>;

#[derive(Debug)]
pub enum E {
    Nil, Bool(bool), Int(i64), Str(String), Exit,
    Var(Var),
    List(Vec<(bool, P)>), Vector(Vec<(bool, P)>), Set(Vec<(bool, P)>), Dict(Vec<(bool, P)>),
    Un(&'static str, P), Bin(&'static str, P, P), Cmp(&'static str, P, P), And(P, P), Or(P, P),
    If(P, P, P),
    Call(P, Vec<(bool, P)>), Compose(P, P),
    Index(P, P), Slice(P, Option<P>, Option<P>), Field(P, String),
    Lambda(Rc<Func>),
    /// `(->field)`
    FieldFn(String),
    OpFn(&'static str),
    /// partial operator `(op x)`
    OpPart(&'static str, P),
    /// `a < b < c`
    Chain(P, Vec<(&'static str, P)>),
    SetVar(Var, P), SetIdx(P, P, P), SetField(P, String, P),
    OpVar(&'static str, Var, P), OpIdx(&'static str, P, P, P), OpField(&'static str, P, String, P),
    /// with the line that its errors are reported at, the last one of the whole expression
    SetPat(Pat, P, Rc<Cell<u32>>),
}

#[derive(Debug)]
pub enum Pat { Empty, VarEmpty, Name(Var, Cell<u32>), VarName(Var, Cell<u32>), Terms(Vec<Pat>), Idx(P, P), Fld(P, String) }

#[derive(Debug)]
pub struct Func {
    pub name: Option<String>,
    pub params: Vec<Param>,
    pub body: Body,
    pub decl: Cell<u32>,
    pub is_self: bool,
    pub line: u32, pub pline: u32, pub end: u32,
}
#[derive(Debug)]
pub struct Param { pub pat: Pat, pub variadic: bool, pub default: Option<P> }
#[derive(Debug)]
pub enum Body { Expr(P), Block(Vec<S>) }

#[derive(Debug)]
pub struct S { pub s: St, pub line: u32 }
#[derive(Debug)]
pub enum St {
    Let(Vec<(Pat, Option<P>, u32)>),
    Fn(Rc<Func>, Vec<P>),
    /// also a module, which has no fields and can not be called
    Struct(String, Vec<String>, Vec<Rc<Func>>, Cell<u32>, bool),
    NativeMod(String, Vec<(String, Vec<String>, bool, Rc<Vec<P>>, u32)>, Cell<u32>),
    If(Vec<(P, Vec<S>)>, Option<Vec<S>>),
    Loop(Vec<S>), While(P, Vec<S>, Option<Vec<S>>), Do(Vec<S>, Option<P>, Option<Vec<S>>),
    For(Pat, P, Vec<S>, Option<Vec<S>>, Loc),
    Break, Continue, Return(Option<P>), Assert(P, Option<P>, Loc, bool),
    /// expression, followed by `;` ?
    Expr(P, bool),
}

thread_local! { static NEXT: Cell<u64> = Cell::new(1); }
fn nid() -> u64 { NEXT.with(|n| { let v = n.get(); n.set(v + 1); v }) }
pub fn reset_ids() { NEXT.with(|n| n.set(1)) }

pub struct Parser { t: Vec<Token>, i: usize, pats: Vec<Rc<Cell<u32>>> }

fn op_prec(o: &str) -> Option<(u8, u8)> {
    Some(match o {
        "**" => (13, 13), "*" | "/" | "%" => (12, 0), "+" | "-" => (11, 0), "<<" | ">>" => (10, 0),
        "&" | "|" | "^" => (9, 0), "." => (8, 0),
        "<" | "<=" | ">" | ">=" | "==" | "!=" => (7, 0),
        _ => return None
    })
}

impl Parser {
    pub fn new(src: &str) -> R<Parser> { Ok(Parser { t: lex(src)?, i: 0, pats: vec![] }) }
    fn pk(&self) -> Option<&Tok> { self.t.get(self.i).map(|t| &t.t) }
    fn pk2(&self) -> Option<&Tok> { self.t.get(self.i + 1).map(|t| &t.t) }
    fn line(&self) -> u32 { self.t.get(self.i).or(self.t.last()).map_or(1, |t| t.line) }
    fn prev_line(&self) -> u32 { if self.i == 0 { 1 } else { self.t[self.i-1].line } }
    fn is(&self, o: &str) -> bool { matches!(self.pk(), Some(Tok::Op(x)) if *x == o) }
    fn isk(&self, o: &str) -> bool { matches!(self.pk(), Some(Tok::Kw(x)) if *x == o) }
    fn eat(&mut self, o: &str) -> bool { if self.is(o) { self.i += 1; true } else { false } }
    fn eatk(&mut self, o: &str) -> bool { if self.isk(o) { self.i += 1; true } else { false } }
    fn ex(&mut self, o: &str) -> R<()> { if self.eat(o) { Ok(()) } else { Err(format!("expected {} at line {} got {:?}", o, self.line(), self.pk())) } }
    fn id(&mut self) -> R<String> { match self.pk().cloned() { Some(Tok::Id(s)) => { self.i += 1; Ok(s) } x => Err(format!("expected id got {:?}", x)) } }
    fn n(&self, e: E, a: u32) -> P { Box::new(N { e, loc: Loc { a, b: a }, id: nid() }) }
    fn n2(&self, e: E, a: u32, b: u32) -> P { Box::new(N { e, loc: Loc { a, b }, id: nid() }) }

    pub fn program(mut self) -> R<Vec<S>> {
        let s = self.stmts()?;
        if self.i < self.t.len() { return Err(format!("trailing {:?}", self.pk())) }
        Ok(s)
    }
    pub fn only_expr(mut self) -> R<P> {
        let e = self.expr()?;
        if self.i < self.t.len() { return Err("trailing".into()) }
        Ok(e)
    }
    fn stmts(&mut self) -> R<Vec<S>> {
        let mut v = vec![];
        loop {
            if self.eat(";") { continue }
            match self.pk() { None => break, Some(Tok::Op("}")) => break, _ => {} }
            let line = self.line();
            let s = self.stmt()?;
            v.push(S { s, line });
        }
        Ok(v)
    }
    fn block(&mut self) -> R<Vec<S>> { self.ex("{")?; let s = self.stmts()?; self.ex("}")?; Ok(s) }
    fn opt_else(&mut self) -> R<Option<Vec<S>>> { if self.eatk("else") { Ok(Some(self.block()?)) } else { Ok(None) } }
    fn stmt(&mut self) -> R<St> {
        match self.pk().cloned() {
            Some(Tok::Op("@")) => {
                let mut decs = vec![];
                while self.eat("@") { decs.push(self.expr()?); }
                if !self.isk("fn") { return Err("expected fn".into()) }
                Ok(St::Fn(Rc::new(self.func(true)?), decs))
            }
            Some(Tok::Kw("fn")) if matches!(self.pk2(), Some(Tok::Id(_))) => Ok(St::Fn(Rc::new(self.func(true)?), vec![])),
            Some(Tok::Kw("return")) => {
                self.i += 1;
                if self.is("}") || self.eat(";") { return Ok(St::Return(None)) }
                Ok(St::Return(Some(self.expr()?)))
            }
            Some(Tok::Kw("let")) => {
                self.i += 1; let mut v = vec![];
                loop {
                    let p = self.bare_pat()?;
                    if self.eat("=") { let e = self.expr_noassign()?; v.push((p, Some(e), self.prev_line())); }
                    else {
                        match p { Pat::Terms(ts) => for t in ts { v.push((t, None, 0)) }, p => v.push((p, None, 0)) }
                    }
                    if !self.eat(",") { break }
                }
                Ok(St::Let(v))
            }
            Some(Tok::Kw(k)) if k == "struct" || k == "module" => {
                let module = k == "module";
                self.i += 1; let n = self.id()?; let mut f = vec![];
                if !module { self.ex("(")?; while !self.is(")") { f.push(self.id()?); if !self.eat(",") { break } } self.ex(")")?; }
                let mut ms = vec![];
                if self.eat("{") { while self.isk("fn") { ms.push(Rc::new(self.func(true)?)); } self.ex("}")?; }
                Ok(St::Struct(n, f, ms, Cell::new(0), module))
            }
            Some(Tok::Kw("native")) => {
                self.i += 1; if !self.eatk("module") { return Err("module".into()) }
                let n = self.id()?; self.ex("{")?; let mut fs = vec![];
                while self.eatk("fn") {
                    let l = self.prev_line(); let m = self.id()?; self.ex("(")?; let mut ps = vec![]; let mut var = false; let mut opt = vec![];
                    while !self.is(")") {
                        if self.eat("*") { var = true }
                        ps.push(self.id()?);
                        if self.eat("?") { let d = self.n(E::Nil, l); opt.push(d) } else if self.eat("=") { opt.push(self.expr_noassign()?) }
                        if !self.eat(",") { break }
                    }
                    self.ex(")")?; while self.eat(";") {}
                    fs.push((m, ps, var, Rc::new(opt), l));
                }
                self.ex("}")?;
                Ok(St::NativeMod(n, fs, Cell::new(0)))
            }
            Some(Tok::Kw("if")) => {
                let save = self.i; self.i += 1;
                let c = self.expr()?;
                if self.isk("then") { self.i = save; return self.expr_stmt() }
                let mut v = vec![(c, self.block()?)];
                loop {
                    if self.eatk("elif") { let c = self.expr()?; v.push((c, self.block()?)); }
                    else if self.eatk("else") { return Ok(St::If(v, Some(self.block()?))) }
                    else { return Ok(St::If(v, None)) }
                }
            }
            Some(Tok::Kw("loop")) => { self.i += 1; Ok(St::Loop(self.block()?)) }
            Some(Tok::Kw("while")) => { self.i += 1; let c = self.expr()?; let b = self.block()?; let e = self.opt_else()?; Ok(St::While(c, b, e)) }
            Some(Tok::Kw("do")) => { self.i += 1; let b = self.block()?; let w = if self.eatk("while") { Some(self.expr()?) } else { None }; let e = self.opt_else()?; Ok(St::Do(b, w, e)) }
            Some(Tok::Kw("for")) => {
                self.i += 1; let p = self.bare_pat()?; if !self.eatk("in") { return Err("in".into()) }
                let e = self.expr()?; let l = self.prev_line();
                let b = self.block()?; let el = self.opt_else()?;
                Ok(St::For(p, e, b, el, Loc { a: l, b: l }))
            }
            Some(Tok::Kw("break")) => { self.i += 1; Ok(St::Break) }
            Some(Tok::Kw("continue")) => { self.i += 1; Ok(St::Continue) }
            Some(Tok::Kw("assert")) => {
                self.i += 1; let a = self.line(); let start = self.i;
                let e = self.expr()?; let b = self.prev_line();
                // a comparison in parenthesis is not taken apart
                let mut d = 0; let mut close = None;
                for k in start..self.i { match &self.t[k].t { Tok::Op("(") => d += 1, Tok::Op(")") => { d -= 1; if d == 0 && close.is_none() { close = Some(k) } } _ => {} } }
                let paren = matches!(self.t[start].t, Tok::Op("(")) && close == Some(self.i - 1);
                let m = if self.eat(":") { Some(self.expr()?) } else { None };
                Ok(St::Assert(e, m, Loc { a, b }, !paren))
            }
            _ => self.expr_stmt()
        }
    }
    fn expr_stmt(&mut self) -> R<St> {
        let e = self.expr()?;
        let semi = self.is(";");
        Ok(St::Expr(e, semi))
    }
    fn func(&mut self, named: bool) -> R<Func> {
        let line = self.line();
        if !self.eatk("fn") { return Err("fn".into()) }
        let name = if named { Some(self.id()?) } else { None };
        self.ex("(")?;
        let mut params = vec![]; let mut is_self = false;
        while !self.is(")") {
            if self.eatk("self") { is_self = true; params.push(Param { pat: Pat::Name(Var::new("self", self.prev_line()), Cell::new(0)), variadic: false, default: None }); }
            else if self.is("*") && matches!(self.pk2(), Some(Tok::Id(_))) {
                self.i += 1; let n = self.id()?;
                params.push(Param { pat: Pat::Name(Var::new(&n, self.prev_line()), Cell::new(0)), variadic: true, default: None });
            } else {
                let p = self.pat()?;
                let d = if self.eat("?") { Some(self.n(E::Nil, line)) } else if self.eat("=") { Some(self.expr_noassign()?) } else { None };
                params.push(Param { pat: p, variadic: false, default: d });
            }
            if !self.eat(",") { break }
        }
        self.ex(")")?; let pline = self.prev_line();
        let body = if self.eat("->") { Body::Expr(self.expr()?) } else { Body::Block(self.block()?) };
        Ok(Func { name, params, body, decl: Cell::new(0), is_self, line, pline, end: self.t[self.i - 1].line })
    }
    fn pat(&mut self) -> R<Pat> {
        if self.eat("(") {
            let mut v = vec![];
            while !self.is(")") { v.push(self.pat()?); if !self.eat(",") { break } }
            self.ex(")")?;
            return Ok(Pat::Terms(v))
        }
        if self.eat("*") {
            let n = self.id()?;
            return Ok(if n == "_" { Pat::VarEmpty } else { Pat::VarName(Var::new(&n, self.prev_line()), Cell::new(0)) })
        }
        let n = self.id()?;
        Ok(if n == "_" { Pat::Empty } else { Pat::Name(Var::new(&n, self.prev_line()), Cell::new(0)) })
    }
    fn bare_pat(&mut self) -> R<Pat> {
        let p = self.pat()?;
        if !self.is(",") { return Ok(p) }
        let mut v = vec![p];
        while self.is(",") {
            self.i += 1;
            if self.is("=") { break }
            v.push(self.pat()?);
        }
        Ok(Pat::Terms(v))
    }
    pub fn expr(&mut self) -> R<P> { let from = self.pats.len(); let e = self.assign(true)?; self.emitted(from); Ok(e) }
    fn expr_noassign(&mut self) -> R<P> { let from = self.pats.len(); let e = self.logic()?; self.emitted(from); Ok(e) }
    fn emitted(&mut self, from: usize) { let b = self.prev_line(); for p in self.pats.drain(from..) { p.set(b) } }
    fn set_pat(&mut self, p: Pat, r: P) -> E { let l = Rc::new(Cell::new(0)); self.pats.push(l.clone()); E::SetPat(p, r, l) }
    fn to_lv(&mut self, e: P) -> R<Pat> {
        let N { e, .. } = *e;
        Ok(match e {
            E::Var(v) => if v.name == "_" { Pat::Empty } else { Pat::Name(v, Cell::new(0)) },
            E::Index(a, i) => Pat::Idx(a, i),
            E::Field(a, f) => Pat::Fld(a, f),
            E::Vector(items) => Pat::Terms(items.into_iter().map(|(_, x)| self.to_lv(x)).collect::<R<Vec<_>>>()?),
            E::OpPart("*", v) => match self.to_lv(v)? { Pat::Name(v, c) => Pat::VarName(v, c), Pat::Empty => Pat::VarEmpty, _ => return Err("lv".into()) },
            _ => return Err("not assignable".into())
        })
    }
    fn star_or_logic(&mut self) -> R<P> {
        if self.is("*") && matches!(self.pk2(), Some(Tok::Id(_))) {
            let l = self.line(); self.i += 1; let n = self.id()?;
            let v = self.n(E::Var(Var::new(&n, self.prev_line())), l);
            return Ok(self.n(E::OpPart("*", v), l))
        }
        self.logic()
    }
    fn assign(&mut self, commas: bool) -> R<P> {
        let l0 = self.line();
        let save = self.i;
        let e = self.star_or_logic()?;
        // bare pattern assignment `a, b = ...`
        if commas && self.is(",") {
            let mut v = vec![(false, e)]; 
            while self.eat(",") { if self.is("=") { break } v.push((false, self.star_or_logic()?)); }
            if self.is("=") {
                self.i += 1;
                let r = self.assign(true)?;
                let b = self.prev_line();
                let mut ps = vec![];
                for (_, x) in v { ps.push(self.to_lv(x)?); }
                let e = self.set_pat(Pat::Terms(ps), r);
                return Ok(self.n2(e, b, b))
            }
            self.i = save;
            return self.logic()
        }
        let line = self.line();
        match self.pk().cloned() {
            Some(Tok::Op("=")) => {
                self.i += 1; let r = self.assign(commas)?; let b = self.prev_line();
                let loc = e.loc;
                let mut node = match e.e {
                    E::Var(v) => self.n(E::SetVar(v, r), line),
                    E::Index(a, i) => self.n(E::SetIdx(a, i, r), line),
                    E::Field(a, f) => self.n(E::SetField(a, f, r), line),
                    E::Vector(_) => { let p = self.to_lv(Box::new(N { e: e.e, loc, id: 0 }))?; let e = self.set_pat(Pat::Terms(vec![p]), r); self.n(e, b) }
                    _ => return Err("bad assign".into())
                };
                let _ = l0;
                if let E::SetPat(..) = node.e { node.loc = Loc { a: b, b } }
                Ok(node)
            }
            Some(t) if self.opset(&t).is_some() => {
                let (base, k) = self.opset(&t).unwrap();
                self.i += k; let r = self.assign(commas)?;
                Ok(match e.e {
                    E::Var(v) => self.n(E::OpVar(base, v, r), line),
                    E::Index(a, i) => self.n(E::OpIdx(base, a, i, r), line),
                    E::Field(a, f) => self.n(E::OpField(base, a, f, r), line),
                    _ => return Err("bad assign".into())
                })
            }
            _ => Ok(e)
        }
    }
    /// the operator of an assignment, and how many tokens it is
    fn opset(&self, t: &Tok) -> Option<(&'static str, usize)> {
        Some(match t {
            Tok::Op(o) => (match *o { "+=" => "+", "-=" => "-", "*=" => "*", "/=" => "/", "%=" => "%", ".=" => ".", "**=" => "**", "<<=" => "<<", ">>=" => ">>", "&=" => "&", "|=" => "|", "^=" => "^", _ => return None }, 1),
            Tok::Id(x) if matches!(self.pk2(), Some(Tok::Op("="))) => (match x.as_str() { "max" => "max", "min" => "min", _ => return None }, 2),
            _ => return None
        })
    }
    fn logic(&mut self) -> R<P> {
        let mut l = self.bin(7)?;
        loop {
            let line = self.line();
            if matches!(self.pk2(), Some(Tok::Op(")"))) { break }
            if self.eatk("and") { let r = self.bin(7)?; l = self.n(E::And(l, r), line) }
            else if self.eatk("or") { let r = self.bin(7)?; l = self.n(E::Or(l, r), line) }
            else { break }
        }
        Ok(l)
    }
    fn bin(&mut self, min: u8) -> R<P> {
        let mut l = self.unary()?;
        let mut compared = false;
        loop {
            let line = self.line();
            let o: &'static str = match self.pk() {
                Some(Tok::Op(o)) => o,
                Some(Tok::Kw("in")) if min <= 12 => "in",
                Some(Tok::Kw("is")) if min <= 12 => "is",
                Some(Tok::Kw("not")) if min <= 12 && matches!(self.pk2(), Some(Tok::Kw("in"))) => "notin",
                _ => break
            };
            let p = if matches!(o, "in" | "is" | "notin") { 12 } else { match op_prec(o) { Some((p, _)) => p, None => break } };
            if p < min { break }
            if matches!(self.t.get(self.i + 1).map(|t| &t.t), Some(Tok::Op(")"))) { break }
            self.i += if o == "notin" { 2 } else { 1 };
            let o = if o == "is" && self.eatk("not") { "isnot" } else { o };
            let r = self.bin(p + 1)?;
            l = match o {
                "." => self.n(E::Compose(l, r), line),
                "<" | "<=" | ">" | ">=" | "==" | "!=" => {
                    let was = std::mem::replace(&mut compared, true);
                    if was {
                        let N { e, loc, id } = *l;
                        match e {
                            E::Cmp(o1, a, b) => Box::new(N { e: E::Chain(a, vec![(o1, b), (o, r)]), loc, id }),
                            E::Chain(a, mut v) => { v.push((o, r)); Box::new(N { e: E::Chain(a, v), loc, id }) }
                            _ => return Err("chain".into())
                        }
                    } else { self.n(E::Cmp(o, l, r), line) }
                }
                _ => self.n(E::Bin(o, l, r), line)
            };
        }
        Ok(l)
    }
    fn unary(&mut self) -> R<P> {
        let line = self.line();
        if self.eat("-") { let e = self.unary()?; return Ok(self.n(E::Un("-", e), line)) }
        if self.eat("!") { let e = self.unary()?; return Ok(self.n(E::Un("!", e), line)) }
        if self.eatk("not") { let e = self.unary()?; return Ok(self.n(E::Un("not", e), line)) }
        let mut e = self.term()?;
        loop {
            let nl = self.t.get(self.i).map_or(false, |t| t.nl);
            let line = self.line();
            match self.pk().cloned() {
                Some(Tok::Op("(")) if !nl => {
                    self.i += 1;
                    let a = self.items(")")?;
                    let b = self.prev_line();
                    e = self.n2(E::Call(e, a), line, b);
                }
                Some(Tok::Op("[")) if !nl => {
                    self.i += 1;
                    if self.eat(":") {
                        let hi = if self.is("]") { None } else { Some(self.logic()?) };
                        self.ex("]")?; e = self.n(E::Slice(e, None, hi), line); continue
                    }
                    let i = self.logic()?;
                    if self.eat(":") {
                        let hi = if self.is("]") { None } else { Some(self.logic()?) };
                        self.ex("]")?; e = self.n(E::Slice(e, Some(i), hi), line); continue
                    }
                    self.ex("]")?; let b = self.prev_line();
                    e = self.n2(E::Index(e, i), line, b);
                }
                Some(Tok::Op("->")) => { self.i += 1; let f = self.id()?; e = self.n(E::Field(e, f), line) }
                // `f x`
                Some(t) if !nl && match t { Tok::Id(_) => !matches!(self.pk2(), Some(Tok::Op("="))), Tok::Kw("fn") => matches!(self.pk2(), Some(Tok::Op("("))), Tok::Kw("nil" | "true" | "false" | "exit" | "if") | Tok::Int(_) | Tok::Str(_) => true, _ => false } => {
                    let a = self.term()?;
                    let b = self.prev_line();
                    e = self.n2(E::Call(e, vec![(false, a)]), line, b);
                }
                _ => break
            }
        }
        Ok(e)
    }
    /// comma separated items up to the closing token
    fn items(&mut self, close: &str) -> R<Vec<(bool, P)>> {
        let mut v = vec![];
        while !self.is(close) {
            v.push(self.unroll()?);
            if !self.eat(",") { break }
        }
        self.ex(close)?;
        Ok(v)
    }
    fn arg(&mut self) -> R<P> { self.assign(false) }
    fn unroll(&mut self) -> R<(bool, P)> {
        let l = self.line();
        if self.eat("...") { let e = self.arg()?; return Ok((true, self.n(E::Un("...", e), l))) }
        if let Some(Tok::Op(o)) = self.pk().cloned() {
            if op_prec(o).is_some() && !matches!(o, "-" | ".") && (o != "*" || !matches!(self.pk2(), Some(Tok::Id(_)))) {
                self.i += 1;
                if matches!(self.pk(), Some(Tok::Op(")" | "," | "]" | "}"))) { return Ok((false, self.n(E::OpFn(o), l))) }
                let e = self.logic()?; return Ok((false, self.n(E::OpPart(o, e), l)))
            }
        }
        let e = self.arg()?;
        // `(x +)`
        if let (Some(Tok::Op(o)), Some(Tok::Op(")"))) = (self.pk().cloned(), self.pk2().cloned()) {
            if op_prec(o).is_some() && !matches!(o, "-" | ".") { let l = self.line(); self.i += 1; let f = self.n(E::OpFn(o), l); return Ok((false, self.n(E::Call(f, vec![(false, e)]), l))) }
        }
        Ok((false, e))
    }
    fn elif(&mut self) -> R<P> {
        let l = self.line(); self.i += 1;
        let c = self.logic()?; if !self.eatk("then") { return Err("then".into()) }
        let a = self.logic()?;
        let b = if self.isk("elif") { self.elif()? } else { if !self.eatk("else") { return Err("else".into()) } self.logic()? };
        Ok(self.n(E::If(c, a, b), l))
    }
    fn term(&mut self) -> R<P> {
        let l = self.line();
        let t = match self.pk().cloned() { Some(t) => t, None => return Err("eof".into()) };
        Ok(match t {
            Tok::Kw("nil") => { self.i += 1; self.n(E::Nil, l) }
            Tok::Kw("true") => { self.i += 1; self.n(E::Bool(true), l) }
            Tok::Kw("false") => { self.i += 1; self.n(E::Bool(false), l) }
            Tok::Kw("exit") => { self.i += 1; self.n(E::Exit, l) }
            Tok::Kw("self") => { self.i += 1; self.n(E::Var(Var::new("self", self.prev_line())), l) }
            Tok::Int(i) => { self.i += 1; self.n(E::Int(i), l) }
            Tok::Str(s) => { self.i += 1; self.n(E::Str(s), l) }
            Tok::Id(s) => { self.i += 1; self.n(E::Var(Var::new(&s, self.prev_line())), l) }
            Tok::Kw("fn") => { let f = self.func(false)?; self.n(E::Lambda(Rc::new(f)), l) }
            Tok::Kw("if") => {
                self.i += 1; let c = self.logic()?; if !self.eatk("then") { return Err("then".into()) }
                let a = self.logic()?;
                let b = if self.isk("elif") { self.elif()? } else { if !self.eatk("else") { return Err("else".into()) } self.logic()? };
                self.n(E::If(c, a, b), l)
            }
            Tok::Op("[") => { self.i += 1; let v = self.items("]")?; self.n(E::List(v), l) }
            Tok::Op("{") => {
                self.i += 1;
                if self.eat("}") { return Ok(self.n(E::Set(vec![]), l)) }
                // a set, unless one entry has a `:`
                let (mut v, mut keys): (Vec<(bool, P)>, Option<bool>) = (vec![], None);
                loop {
                    let (un, k) = self.unroll()?; v.push((un, k));
                    if !un {
                        let colon = self.is(":");
                        match keys { None => keys = Some(colon), Some(d) => if d != colon { return Err("dict or set".into()) } }
                        if colon { self.i += 1; let x = self.arg()?; v.push((false, x)) }
                    }
                    if !self.eat(",") || self.is("}") { break }
                }
                self.ex("}")?;
                self.n(if keys == Some(true) { E::Dict(v) } else { E::Set(v) }, l)
            }
            Tok::Op("(") => {
                self.i += 1;
                if self.eat(")") { return Ok(self.n(E::Vector(vec![]), l)) }
                if self.eat("->") { let f = self.id()?; self.ex(")")?; return Ok(self.n(E::FieldFn(f), l)) }
                // operator functions
                if let (Some(Tok::Op(o)), Some(Tok::Op(")"))) = (self.pk().cloned(), self.pk2().cloned()) {
                    if op_prec(o).is_some() && o != "." { self.i += 2; return Ok(self.n(E::OpFn(o), l)) }
                }
                if let Some(Tok::Op(o)) = self.pk().cloned() {
                    if op_prec(o).is_some() && !matches!(o, "-" | ".") && (o != "*" || !matches!(self.pk2(), Some(Tok::Id(_)))) { self.i += 1; let e = self.logic()?; self.ex(")")?; return Ok(self.n(E::OpPart(o, e), l)) }
                }
                let (un, first) = if self.is("*") { (false, self.star_or_logic()?) } else { self.unroll()? };
                if self.is(")") && !un { self.i += 1; return Ok(first) }
                let mut v = vec![(un, first)];
                while self.eat(",") {
                    if self.is(")") { break }
                    v.push(if self.is("*") { (false, self.star_or_logic()?) } else { self.unroll()? });
                }
                self.ex(")")?;
                self.n(E::Vector(v), l)
            }
            x => return Err(format!("unexpected {:?} line {}", x, l))
        })
    }
}
