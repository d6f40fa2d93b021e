//! Workload generation.  Every choice comes from the run's seed.  The generator runs the reference
//! model beside itself so that it knows which variables exist after a failed statement.
use crate::model::{End, Model};
use crate::rng::Rng;
use crate::scen::{Input, Scenario};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Int, Bool, Str, List, Dict, Set, F0, F1, F2, FL, Inst, Any, Mod }
#[derive(Clone)]
pub struct Var { pub n: String, pub k: K }

/// statement families
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S { Let, LetPat, Assign, OpAssign, Elem, SetPat, Print, Probe, If, While, For, Loop, Do, Fn, Call, Closure, SharedPair, LoopCapture, NestCapture, Struct, Inst, Method, Mutate, Callback, Iterate, Memo, DictDefault, Eval, Assert, Exit, Expr, Late, SortFail, Recursion, Decor, Unroll, SetOps, Read, Escape, Partial, Shadow, Acyclic, LetMany, Chain, Jumps, Stdin, File, Native, Args, Big, Members, Member, Scale }

#[derive(Clone)]
pub struct Prof {
    pub w: Vec<(S, u32)>,
    /// chance in 1000 that an expression fails on purpose
    pub fail: u32,
    /// chance in 100 that an input is given a failing foreign call
    pub ffi_fail: u32,
    pub reject: u32,
    pub cut: u32,
    pub dump: u32,
    pub n: (i64, i64),
    pub depth: u32,
    pub stmts_per_input: usize,
    pub redeclare: u32,
    pub fns_in_data: bool,
    pub unicode: bool,
}

#[derive(Clone)]
pub struct Type { n: String, module: bool, fields: Vec<String>, methods: Vec<(String, usize, bool)> }

pub struct Gen { pub r: Rng, pub scopes: Vec<Vec<Var>>, next: usize, fn_depth: u32, loop_depth: u32, structs: Vec<(String, Vec<String>)>, pub p: Prof, fuel: i32, failed: Vec<String>, self_struct: Option<usize>, no_fail: u32, in_callback: u32, pub has_mod: bool, late: Vec<String>, members: Vec<Type>, pub w: Option<crate::procgen::Info> }

/// operations that fail, each with its own error
const FAILING: &[&str] = &["(2 ** (0 - 1))", "(range(1, 2, 0))", "(set(nil))", "(dict(nil))", "([1, 2] . dict)", "(1 . [1, 2])", "(sum('a'))", "(fn() { let a, b = [1]; a })()", "(fn() { let a, *b, c = 'x'; a })()", "(1 . map(fn(q) -> q))", "('a' . map(nil))", "([nil] . sum)", "(-nil)", "(1 in 2)", "(('abc')['x'])", "([1]['x'])", "((1)->fx)", "([1, 2] . sort_by(5))", "([1, 2] . group_by(nil))", "([1, 2] . zip(3))", "(zip(3))", "(len(5))", "(keys([1]))", "(values(3))", "(reverse(3))", "(max(nil))", "(max([]))", "(5 . pop)", "(push(1, 2))", "(pop({}))", "(insert(0, 1, 2))", "(remove(1, 2))", "(remove(9, [1]))", "([1] . insert(7, 3))", "(clear(3))", "(find(1, 3))", "(index_of(3, nil))", "(split(1, 2))", "(join(1, [1]))", "(join('a', 3))", "(replace('a', 3, 'b'))", "(abs('x'))", "(repr(1, 2))", "(default(1, 2))", "(any(nil, [1]))", "(all(1, 2))", "(peek([]))", "(front([]))", "(argv(1))", "(eval(3))", "(1 >> 'x')", "({1} - 3)", "(nil & 1)", "(memoize(3))", "(memoize(3)(1))", "(1 . min)", "(min(3))", "(fn(q) -> q)(1, 2)", "(product([]))", "(flat_map(nil, [1]))", "(concat(3))", "((3, 4)[5])", "('abc'[9])", "(!nil)", "(!'a')", "(-[1])", "(1 is 2)", "(nil is 'a')", "('a' * (0 - 1))", "([1] * (0 - 2))", "([1] ** (0 - 1))", "{...[1], 2: 3}", "{...5, 2: 3}", "{1, ...5}", "(fn(a) -> a)(...5)", "((1, nil) + 2)", "((1, 2) / (3, 0))", "(-(1, 'x'))", "(1 << nil)", "(len 5)", "(1 < 2 < (nil + 1))", "([1] * nil)", "(nil ** 2)", "((nil -> fx))", "(if 1 then if nil then 2 elif nil + 1 then 3 else 4 else 5)", "(1 (2))", "((+ nil) 3)", "((3 *) nil)"];
const STRS: &[&str] = &["a", "b", "xy", "hello", "a longer string value", "", "k1", "k2"];

impl Gen {
    pub fn new(seed: u64, p: Prof) -> Gen { Gen { r: Rng::new(seed), scopes: vec![vec![]], next: 0, fn_depth: 0, loop_depth: 0, structs: vec![], p, fuel: 0, failed: vec![], self_struct: None, no_fail: 0, in_callback: 0, has_mod: true, late: vec![], members: vec![], w: None } }
    pub fn fresh(&mut self, c: &str) -> String { self.next += 1; format!("{}{}", c, self.next) }
    pub fn declare(&mut self, n: &str, k: K) { self.scopes.last_mut().unwrap().push(Var { n: n.into(), k }) }
    pub fn vars(&self, k: K) -> Vec<String> {
        let mut seen: Vec<&str> = vec![]; let mut out = vec![];
        for s in self.scopes.iter().rev() { for v in s.iter().rev() { if seen.contains(&v.n.as_str()) { continue } seen.push(&v.n); if v.k == k { out.push(v.n.clone()) } } }
        out
    }
    pub fn var(&mut self, k: K) -> Option<String> { let v = self.vars(k); if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) } }
    /// what a slice is taken with
    fn bounds(&mut self) -> String {
        let mut b = |g: &mut Self| match g.r.below(6) { 0 => String::new(), 1 => "nil".into(), 2 => g.e(K::Int, 0), _ => (*g.r.pick(&["0", "1", "2", "-1", "-2", "3", "7"])).to_string() };
        let (x, y) = (b(self), b(self));
        format!("{}:{}", x, y)
    }
    fn lit_str(&mut self) -> String { if self.p.unicode && self.r.chance(1, 3) { return (*self.r.pick(&["'é'", "'日本語'", "'naïve ünïcode text'", "'😀'"])).to_string() } format!("'{}'", self.r.pick(STRS)) }
    fn int_lit(&mut self) -> String { let i = self.r.range(-2, 9); if i < 0 { format!("(0 - {})", -i) } else { i.to_string() } }
    fn key(&mut self) -> String { (*self.r.pick(&["'k1'", "'k2'", "'a'", "3"])).to_string() }
    pub fn local(&self) -> bool { self.scopes.len() > 1 }

    /// an expression that fails with a runtime error when it is evaluated
    pub fn folding(&self) -> bool { self.w.as_ref().map_or(false, |w| w.fold) }
    pub fn boom(&mut self) -> String {
        if self.folding() { return (*self.r.pick(&["env(5)", "(1 + env('A=B'))", "(argv() . len + nil)", "env('A=B')[0]", "(argv() - 1)"])).into() }
        if self.r.chance(1, 14) && self.p.w.iter().any(|w| w.0 == S::Exit) { return (*self.r.pick(&["(exit)", "eval('exit')", "(fn() { exit })()", "([1, 2] . map(fn(q) -> if q == 2 then exit else q))", "eval('[1, (fn() -> exit)()]')", "(memoize(fn(q) { exit })(1))"])).into() }
        if self.r.chance(1, 12) {
            let (s, d) = (self.var(K::Set), self.var(K::Dict));
            match (self.r.below(5), s, d) {
                (0, Some(s), _) => return format!("({s} . push({s}))"), (1, Some(s), _) => return format!("({s} . push([1, {s}]))"),
                (2, _, Some(d)) => return format!("({d} . insert({d}, 1))"), (3, Some(s), Some(d)) => return format!("({d} . insert([{s}, {d}], 1))"),
                _ => return "(fn() { let q = {1}; [2] . map(fn(r) -> q . push([r, q])) })()".into(),
            }
        }
        if self.r.chance(1, 5) { return (*self.r.pick(FAILING)).into() }
        if self.r.chance(1, 4) { return (*self.r.pick(&["int('x')", "eval('nil + 1')", "eval('1 +')", "eval('2 + eval(\\'nil[0]\\')')", "(fn(q) -> q + nil)(1)", "(fn() { let q = [1]; for r in q { let s = [r, 2]; s[r + 4] } })()", "([0, 1] . map(fn(q) -> 1 / q))", "(if true then nil + 1 else 2)", "(fn(a, b) -> a)(...[1, 2, 3])", "[...5]", "(memoize(fn(q) -> q + nil)(1))", "(dict() . default(fn() -> nil + 1))[2]", "((+)(nil)(1))", "([2, 1] . reduce(fn(a, b) -> a + nil))", "(fn(q, r = q + nil) -> r)(1)"])).into() }
        match self.r.below(12) {
            0 => "(1 + nil)".into(), 1 => "([1, 2][7])".into(), 2 => "({'q': 1}['zz'])".into(), 3 => "(1 / 0)".into(), 4 => "(nil . len)".into(),
            5 => "([] . pop)".into(), 6 => "(7 % 0)".into(), 7 => "min([])".into(), 8 => "(5)(1)".into(), 9 => "(nil[0])".into(), 10 => format!("{}(1, 2, 3, 4)", self.vars(K::F1).first().cloned().unwrap_or("(fn(q) -> q)".into())), _ => "('x' - 1)".into(),
        }
    }
    fn maybe_boom(&mut self) -> Option<String> { if self.no_fail == 0 && self.r.chance(self.p.fail, 1000) { Some(self.boom()) } else { None } }
    pub fn probe(&mut self, e: String) -> String { if self.has_mod { format!("m->p({})", e) } else { format!("({})", e) } }

    /// a target of a pattern assignment, with the text of a value for it, and whether it takes the rest
    fn target(&mut self, d: u32, rest: bool) -> (String, String, bool) {
        for _ in 0..6 {
            let r = match self.r.below(9) {
                0..=2 => self.var(K::Int).map(|v| (v, self.e(K::Int, d), false)),
                3 => self.var(K::List).map(|v| {
                    let vs = self.vars(K::Int);
                    let i = if !vs.is_empty() && self.r.chance(1, 3) { let (x, y) = (self.r.pick(&vs).clone(), self.r.pick(&vs).clone()); format!("(({}, {}) = (({}, 0),))[0][1]", x, y, self.r.below(3)) } else { self.r.below(3).to_string() };
                    (format!("{}[{}]", v, i), self.e(K::Int, d), false)
                }),
                4 => self.var(K::Inst).map(|v| (format!("{}->{}", v, self.field()), self.e(K::Int, d), false)),
                5 => Some(("_".into(), self.e(K::Int, 0), false)),
                6 => { let (a, b) = (self.target(d, false), self.target(d, false)); Some((format!("({}, {})", a.0, b.0), format!("({}, {})", a.1, b.1), false)) }
                7 | 8 if rest => {
                    let l = if self.r.chance(1, 2) { self.var(K::List) } else { Some("_".into()) };
                    l.map(|v| { let x: Vec<String> = (0..self.r.below(4)).map(|_| self.e(K::Int, 0)).collect(); (format!("*{}", v), x.join(", "), true) })
                }
                _ => None,
            };
            if let Some(r) = r { return r }
        }
        ("_".into(), "nil".into(), false)
    }
    /// a call without parentheses
    fn bare(&mut self, d: u32) -> String {
        let x = match self.r.below(6) { 0 => "7".into(), 1 => "0".into(), 2 => "true".into(), 3 => { let (c, a, b) = (self.e(K::Bool, d), self.e(K::Int, 0), self.e(K::Int, 0)); format!("if {} then {} else {}", c, a, b) } _ => self.var(K::Int).unwrap_or_else(|| "2".into()) };
        match self.r.below(6) {
            0 => if self.has_mod { format!("(m->p {})", x) } else { format!("(len {})", self.var(K::List).unwrap_or_else(|| "'ab'".into())) },
            1 => format!("(len {})", self.var(K::List).unwrap_or_else(|| "'abc'".into())),
            2 => { let (a, o) = (self.e(K::Int, 0), *self.r.pick(&["+", "*", "&", "|", "^"])); format!("(({} {}) {})", a, o, x) }
            3 => if let Some(f) = self.var(K::F2) { let y = self.var(K::Int).unwrap_or_else(|| "3".into()); format!("({} {} {})", f, y, x) } else { format!("((fn(q) -> q + 1) {})", x) },
            _ => if let Some(f) = self.var(K::F1) { format!("({} {})", f, x) } else { format!("((fn(q) -> q + 1) {})", x) },
        }
    }
    /// an operator with an assignment, and what is assigned
    fn opset(&mut self, d: u32) -> String {
        let e = self.e(K::Int, d);
        match self.r.below(16) {
            0..=2 => format!("+= {}", e), 3 | 4 => format!("-= {}", e), 5 => format!("&= {}", e), 6 => format!("|= {}", e), 7 => format!("^= {}", e), 8 => format!("max= {}", e), 9 => format!("min= {}", e),
            10 => "%= 7".into(), 11 => ">>= 1".into(), 12 => "/= 3".into(), 13 => { let f = self.f1(d); format!(".= {}", f) } 14 => "*= 2".into(), _ => format!("+= {}", e),
        }
    }
    pub fn e(&mut self, k: K, d: u32) -> String {
        self.fuel -= 1;
        if let Some(b) = self.maybe_boom() { return b }
        let deep = d > 0 && self.fuel > 0;
        match k {
            K::Int => {
                match if deep { self.r.below(21) } else { self.r.below(4) } {
                    0 | 1 => self.int_lit(),
                    2 | 3 => self.var(K::Int).unwrap_or_else(|| "4".into()),
                    4 | 5 => { let (a, b) = (self.e(K::Int, d - 1), self.e(K::Int, d - 1)); let o = *self.r.pick(&["+", "-", "*", "+", "/", "%"]); if (o == "/" || o == "%") && (self.folding() || !self.r.chance(1, 6)) { format!("({} {} 3)", a, o) } else if o == "*" { format!("(({} % 100) * ({} % 10))", a, b) } else { format!("({} {} {})", a, o, b) } }
                    6 => { let l = self.e(K::List, d - 1); format!("len({})", l) }
                    7 => { if let Some(l) = self.var(K::List) { let i = self.r.below(3); format!("{}[{}]", l, i) } else { self.int_lit() } }
                    8 => { let e = self.e(K::Int, d - 1); self.probe(e) }
                    9 => { if let Some(f) = self.var(K::F1) { let a = self.e(K::Int, d - 1); if self.r.chance(1, 4) { format!("({} . {})", a, f) } else { format!("{}({})", f, a) } } else { self.int_lit() } }
                    10 => { if let Some(f) = self.var(K::F0) { format!("{}()", f) } else { self.int_lit() } }
                    11 => { let (c, a, b) = (self.e(K::Bool, d - 1), self.e(K::Int, d - 1), self.e(K::Int, d - 1)); format!("(if {} then {} else {})", c, a, b) }
                    12 => { if let (Some(v), true) = (self.var(K::Int), self.in_callback == 0) { let e = self.e(K::Int, d - 1); format!("({} = {})", v, e) } else { self.int_lit() } }
                    13 => { if let Some(i) = self.var(K::Inst) { let f = self.field(); format!("{}->{}", i, f) } else { self.int_lit() } }
                    17 => { let (a, b) = (self.e(K::Int, d - 1), self.e(K::Int, d - 1)); match self.r.below(6) { 0 => format!("(({} % 50) << ({} % 5))", a, b), 1 => format!("({} >> 2)", a), 2 => format!("({} & {})", a, b), 3 => format!("({} | {})", a, b), 4 => format!("({} ^ {})", a, b), _ => format!("(({} % 9) ** 2)", a) } }
                    18 => { let a = self.e(K::Int, d - 1); format!("{}{}", self.r.pick(&["-", "!", "- -", "!-"]), a) }
                    19 => { let v: Vec<String> = (0..3).map(|_| self.e(K::Bool, d - 1)).collect(); let w: Vec<String> = (0..4).map(|_| self.e(K::Int, d - 1)).collect(); if self.r.chance(1, 3) { format!("(if {} then {} elif {} then {} elif {} then {} else {})", v[0], w[0], v[1], w[1], v[2], w[2], w[3]) } else { format!("(if {} then {} elif {} then {} else {})", v[0], w[0], v[1], w[1], w[2]) } }
                    20 => self.bare(d - 1),
                    14 => { let l = self.e(K::List, d - 1); let f = *self.r.pick(&["sum([0] + {})", "len({} . reverse)", "len({})", "max([0] + {})"]); f.replace("{}", &l) }
                    15 => { if let Some(f) = self.var(K::F2) { let (a, b) = (self.e(K::Int, d - 1), self.e(K::Int, d - 1)); if self.r.chance(1, 4) { format!("{}({})({})", f, a, b) } else { format!("{}({}, {})", f, a, b) } } else { self.int_lit() } }
                    _ => { if let Some(x) = self.var(K::Dict) { let k = self.key(); if self.r.chance(1, 3) { format!("{}[{}]", x, k) } else { format!("len({})", x) } } else { self.int_lit() } }
                }
            }
            K::Bool => match if deep { self.r.below(13) } else { self.r.below(2) } {
                7 => { let k = *self.r.pick(&[K::Str, K::List, K::Dict, K::Set, K::List, K::Any]); let (a, b) = (self.e(k, d - 1), if self.r.chance(1, 3) { self.var(k).unwrap_or_else(|| "nil".into()) } else { self.e(k, d - 1) }); let c = if k == K::Str || k == K::List { self.r.below(6) } else { self.r.below(2) }; format!("({} {} {})", a, ["==", "!=", "<", ">=", ">", "<="][c], b) }
                8 => { let (a, k) = (self.e(K::Int, d - 1), *self.r.pick(&[K::List, K::Dict, K::Set])); let b = self.e(k, d - 1); format!("({} {} {})", a, self.r.pick(&["in", "not in"]), b) }
                9 => { let a = self.e(K::Int, d - 1); let v: Vec<i64> = (0..3).map(|_| self.r.range(-5, 9)).collect(); match self.r.below(3) { 0 => format!("({} in range({}))", a, v[0]), 1 => format!("({} not in range({}, {}))", a, v[0], v[1]), _ => format!("({} in range({}, {}, {}))", a, v[0], v[1], if v[2] == 0 { 2 } else { v[2] }) } }
                10 => { let n = 3 + self.r.below(2); let v: Vec<String> = (0..n).map(|_| self.e(K::Int, d - 1)).collect(); let mut t = v[0].clone(); for x in &v[1..] { t += &format!(" {} {}", self.r.pick(&["<", "<=", ">", ">=", "==", "!="]), x) } format!("({})", t) }
                11 => { let k = self.data_kind(); let a = self.e(k, d - 1); format!("({} {} {})", a, self.r.pick(&["is", "is not"]), self.r.pick(&["int", "str", "list", "nil", "any", "iterable", "dict", "bool", "set", "vector"])) }
                12 => { let a = self.e(K::Bool, d - 1); format!("(not {})", a) }
                0 => (*self.r.pick(&["true", "false"])).into(),
                1 => self.var(K::Bool).unwrap_or_else(|| "true".into()),
                2 | 3 => { let (a, b) = (self.e(K::Int, d - 1), self.e(K::Int, d - 1)); format!("({} {} {})", a, self.r.pick(&["<", ">", "==", "!=", "<=", ">="]), b) }
                4 => { let (a, b) = (self.e(K::Bool, d - 1), self.e(K::Bool, d - 1)); format!("({} {} {})", a, self.r.pick(&["and", "or"]), b) }
                5 => if self.has_mod { "m->c()".into() } else { "true".into() },
                _ => { let (a, l) = (self.e(K::Int, d - 1), self.e(K::List, d - 1)); format!("({} {} {})", a, self.r.pick(&["in", "not in"]), l) }
            },
            K::Str => match if deep { self.r.below(11) } else { self.r.below(2) } {
                8 => { let e = self.e(K::Str, d - 1); let s = self.bounds(); format!("({})[{}]", e, s) }
                9 => { let e = self.lit_str(); format!("({} + 'z')[{}]", e, self.r.pick(&["0", "-1"])) }
                10 => { let e = self.lit_str(); let i = if self.p.fail > 0 && self.no_fail == 0 && self.r.chance(1, 6) { *self.r.pick(&["3", "5", "-5", "12"]) } else { "1" }; format!("('ab' + {})[{}]", e, i) }
                0 => self.lit_str(), 1 => self.var(K::Str).unwrap_or_else(|| "'s'".into()),
                2 => { let (a, b) = (self.e(K::Str, d - 1), self.e(K::Int, d - 1)); format!("({} + {})", a, b) }
                3 => { let e = self.e(K::Str, d - 1); self.probe(e) }
                4 => { let e = self.e(K::List, d - 1); format!("str({})", e) }
                7 => { let e = self.lit_str(); format!("({} * {})", e, self.r.below(4)) }
                5 => { let (e, f) = (self.e(K::Str, d - 1), *self.r.pick(&["to_upper", "to_lower"])); format!("({} . {})", e, f) }
                _ => { let e = self.e(K::List, d - 1); format!("join('-', {})", e) }
            },
            K::List => match if deep { self.r.below(15) } else { self.r.below(3) } {
                14 => { let e = self.e(K::List, d - 1); let s = self.bounds(); format!("({})[{}]", e, s) }
                0 => { let n = self.r.below(4); let v: Vec<String> = (0..n).map(|_| self.e(K::Int, 0)).collect(); format!("[{}]", v.join(", ")) }
                1 | 2 => self.var(K::List).unwrap_or_else(|| "[1, 2, 3]".into()),
                3 => { let (l, f) = (self.e(K::List, d - 1), self.f1(d - 1)); format!("({} . map({}))", l, f) }
                4 => { let l = self.e(K::List, d - 1); let b = self.lambda_bool(d - 1); format!("({} . filter({}))", l, b) }
                5 => { let (a, b) = (self.e(K::List, d - 1), self.e(K::List, d - 1)); format!("({} + {})", a, b) }
                6 => { let l = self.e(K::List, d - 1); format!("({} . {})", l, self.r.pick(&["sort", "reverse", "copy"])) }
                7 => { let n = self.r.below(5); format!("list(range({}))", n) }
                8 => { let v: Vec<String> = (0..self.r.below(3) + 1).map(|_| self.e(K::Int, d - 1)).collect(); if self.r.chance(1, 3) { let l = self.e(K::List, d - 1); format!("[{}, ...{}]", v.join(", "), l) } else { format!("[{}]", v.join(", ")) } }
                11 => { let l = self.e(K::List, d - 1); format!("({}[0:2] {} {})", l, self.r.pick(&["*", "**"]), self.r.below(4)) }
                12 => { let v: Vec<String> = (0..3).map(|_| self.e(K::Int, d - 1)).collect(); let e = self.e(K::Int, d - 1); let o = *self.r.pick(&["+", "-", "*", "+"]); match self.r.below(4) { 0 => format!("list(({}, {}) {} {})", v[0], v[1], o, e), 1 => format!("list({} {} ({}, {}))", e, o, v[0], v[1]), 2 => format!("list(-({}, {}))", v[0], v[1]), _ => format!("list(({}, {}) {} ({}, {}))", v[0], v[1], o, v[2], e) }.replace(" * ", " + ") }
                13 => { let l = self.e(K::List, d - 1); let o = *self.r.pick(&["map (+ 1)", "filter (> 1)", "map (2 +)", "reverse", "map abs", "sort"]); format!("({} . {})", l, o) }
                9 => if let Some(x) = self.var(K::Dict) { format!("values({})", x) } else { "[4, 4]".into() },
                _ => { let l = self.e(K::List, d - 1); let (a, b) = (self.r.below(3), self.r.below(4)); format!("{}[{}:{}]", l, a, b) }
            },
            K::Dict => match self.r.below(3) {
                0 => self.var(K::Dict).unwrap_or_else(|| "{'k1': 1}".into()),
                1 => { let mut v: Vec<String> = (0..self.r.below(3) + 1).map(|_| { let k = self.key(); let e = self.e(K::Int, d.saturating_sub(1)); format!("{}: {}", k, e) }).collect(); if self.r.chance(1, 5) { let x = self.var(K::Dict).unwrap_or_else(|| "[('k1', 2), ['a', 4]]".into()); let i = self.r.below(v.len() + 1); v.insert(i, format!("...{}", x)) } format!("{{{}}}", v.join(", ")) }
                _ => "dict()".into(),
            },
            K::Set => match self.r.below(3) {
                0 => self.var(K::Set).unwrap_or_else(|| "{1, 2}".into()),
                1 => { let v: Vec<String> = (0..self.r.below(3) + 1).map(|_| self.e(K::Int, 0)).collect(); if self.r.chance(1, 3) { let l = self.var(K::List).unwrap_or_else(|| "'ab'".into()); format!("({{{}, ...{}}})", v.join(", "), l) } else { format!("set([{}])", v.join(", ")) } }
                _ => { let l = self.e(K::List, d.saturating_sub(1)); format!("set({})", l) }
            },
            K::F0 => { let e = self.body_expr(d.saturating_sub(1), K::Int, &[]); format!("fn() -> {}", e) }
            K::F1 => self.f1(d),
            K::F2 => { let a = self.fresh("x"); let b = self.fresh("x"); let e = self.body_expr(d.saturating_sub(1), K::Int, &[&a, &b]); format!("fn({}, {}) -> {}", a, b, e) }
            K::FL => "[]".into(),
            K::Inst => if self.structs.is_empty() { self.e(K::Int, d) } else if let (Some(i), true) = (self.var(K::Inst), self.r.chance(1, 2)) { i } else { let (n, fs) = { let i = self.r.below(self.structs.len()); self.structs[i].clone() }; let v: Vec<String> = fs.iter().map(|_| self.e(K::Int, d.saturating_sub(1))).collect(); format!("{}({})", n, v.join(", ")) },
            K::Any => { let k = self.data_kind(); self.e(k, d) }
            K::Mod => "m".into(),
        }
    }
    fn field(&mut self) -> String { if self.structs.is_empty() { return "fx".into() } let i = self.r.below(self.structs.len()); let f = self.structs[i].1.clone(); self.r.pick(&f).clone() }
    fn data_kind(&mut self) -> K { *self.r.pick(&[K::Int, K::Int, K::Int, K::Str, K::List, K::List, K::Dict, K::Set, K::Bool]) }
    fn body_expr(&mut self, d: u32, k: K, params: &[&str]) -> String {
        self.scopes.push(params.iter().map(|p| Var { n: p.to_string(), k: K::Int }).collect());
        self.fn_depth += 1; let l = std::mem::take(&mut self.loop_depth);
        let e = self.e(k, d);
        self.fn_depth -= 1; self.loop_depth = l; self.scopes.pop();
        e
    }
    /// a function of one argument
    fn f1(&mut self, d: u32) -> String {
        match self.r.below(8) {
            0 => self.var(K::F1).unwrap_or_else(|| "(fn(z) -> z + 1)".into()),
            1 => if self.has_mod { "m->p".into() } else { "(+ 2)".into() },
            2 => "(+ 1)".into(),
            3 => if let Some(f) = self.var(K::F2) { let a = self.e(K::Int, 0); format!("{}({})", f, a) } else { "(* 2)".into() }.replace("(* 2)", "(fn(z) -> z * 2)"),
            _ => { let x = self.fresh("x"); let e = self.body_expr(d.saturating_sub(1), K::Int, &[&x]); format!("(fn({}) -> {})", x, e) }
        }
    }
    fn lambda_bool(&mut self, d: u32) -> String { let x = self.fresh("x"); let e = self.body_expr(d.saturating_sub(1), K::Bool, &[&x]); if self.r.chance(1, 3) { format!("(fn({}) -> {} > 1)", x, x) } else { format!("(fn({}) -> {})", x, e) } }

    fn block(&mut self, d: u32, n: usize, loops: bool) -> String {
        self.scopes.push(vec![]);
        if loops { self.loop_depth += 1 }
        let mut s = vec![];
        for _ in 0..n { if self.fuel > 0 { s.push(self.stmt(d)); } }
        if loops { self.loop_depth -= 1 }
        self.scopes.pop();
        self.wrap(s)
    }
    fn wrap(&mut self, s: Vec<String>) -> String { let s: Vec<String> = s.into_iter().map(|x| x.replace('\u{1}', " ")).collect(); if self.r.chance(1, 3) { format!("{{ {} }}", s.join(" ")) } else { format!("{{\n{}\n}}", s.join("\n")) } }
    fn jump(&mut self) -> Option<String> {
        if self.loop_depth > 0 && self.r.chance(1, 2) { return Some((*self.r.pick(&["break;", "continue;"])).into()) }
        if self.fn_depth > 0 && self.loop_depth == 0 && self.r.chance(1, 2) { let e = self.e(K::Int, 1); return Some(format!("return {};", e)) }
        None
    }

    pub fn stmt(&mut self, d: u32) -> String {
        let w: Vec<u32> = self.p.w.iter().map(|x| x.1).collect();
        let s = self.p.w[self.r.weighted(&w)].0;
        self.one(s, d)
    }
    pub fn one(&mut self, s: S, d: u32) -> String {
        self.fuel -= 1;
        let d1 = d.saturating_sub(1);
        match s {
            S::Let => { let k = self.data_kind(); let e = self.e(k, d); let n = self.new_name(); self.declare(&n, k); format!("let {} = {};", n, e) }
            S::LetMany => {
                let mut v = vec![]; let mut decl = vec![];
                for _ in 0..self.r.below(3) + 2 { let k = self.data_kind(); let e = self.e(k, d); let n = self.new_name(); v.push(format!("{} = {}", n, e)); decl.push((n, k)) }
                for (n, k) in decl { self.declare(&n, k) }
                format!("let {};", v.join(", "))
            }
            S::LetPat if self.r.chance(1, 2) => {
                let mut ns = vec![]; let how = self.r.below(6);
                let (p, v) = self.pattern(0, how == 3, &mut ns);
                if ns.is_empty() { return self.one(S::Let, d) }
                let all = self.probe(format!("[{}]", ns.join(", ")));
                match how {
                    0 => format!("for {p} in [{v}] {{ {all}; }}"),
                    1 => format!("(fn(({p})) {{ {all}; }})({v});"),
                    2 => format!("(fn(w, ({p})) {{ (fn() {{ {all}; }})(); }})(1, {v});"),
                    3 => { for x in &ns { self.declare(x, K::Any) } format!("let {}; {p} = {v}; {all};", ns.join(", ")) }
                    _ => { for x in &ns { self.declare(x, K::Any) } format!("let {p} = {v}; {all};") }
                }
            }
            S::LetPat => {
                let n = 2 + self.r.below(2); let names: Vec<String> = (0..n).map(|_| self.new_name()).collect();
                let extra = if self.p.fail > 0 && self.r.chance(1, 6) { 1 } else { 0 };
                let vals: Vec<String> = (0..n + extra).map(|_| self.e(K::Int, 1)).collect();
                for x in &names { self.declare(x, K::Int) }
                if self.r.chance(1, 3) { let l = names.len() - 1; let mut m = names.clone(); m[l] = format!("*{}", m[l]); self.scopes.last_mut().unwrap().last_mut().unwrap().k = K::List; format!("let {} = [{}];", m.join(", "), vals.join(", ")) }
                else { format!("let {} = ({});", names.join(", "), vals.join(", ")) }
            }
            S::Assign => { let k = *self.r.pick(&[K::Int, K::Int, K::List, K::Str]); if let Some(v) = self.var(k) { let e = self.e(k, d); format!("{} = {};", v, e) } else { self.one(S::Let, d) } }
            S::OpAssign => if let Some(v) = self.var(K::Int) { let e = self.e(K::Int, d1); let o = *self.r.pick(&["+=", "-=", "+="]); if self.r.chance(1, 2) { let o = self.opset(d1); format!("{} {};", v, o) } else { format!("{} {} {};", v, o, e) } } else { self.one(S::Let, d) },
            S::Elem => match self.r.below(5) {
                0 | 1 => if let Some(v) = self.var(K::List) { let (i, e) = (self.r.below(3), self.e(K::Int, d1)); let o = *self.r.pick(&["=", "+=", "="]); if self.r.chance(1, 3) { let o = self.opset(d1); format!("{}[{}] {};", v, i, o) } else { format!("{}[{}] {} {};", v, i, o, e) } } else { self.one(S::Let, d) },
                3 => match self.r.below(4) {
                    0 => if let Some(v) = self.var(K::Str) { let e = self.e(K::Any, d1); format!("{} += {};", v, e) } else { self.one(S::Let, d) },
                    1 => if let Some(v) = self.var(K::Set) { let e = self.e(K::Set, d1); format!("{} {} {};", v, self.r.pick(&["|=", "&=", "-=", "^="]), e) } else { self.one(S::Let, d) },
                    2 => if let Some(v) = self.var(K::List) { match self.r.below(4) { 0 => { let e = self.e(K::List, d1); format!("{} += {};", v, e) } 1 => { let f = self.f1(d1); format!("{} .= map({});", v, f) } 2 => format!("{} .= reverse;", v), _ => format!("{} .= sort;", v) } } else { self.one(S::Let, d) },
                    _ => if let Some(v) = self.var(K::Dict) { let (i, e) = (self.key(), self.opset(d1)); format!("{}[{}] {};", v, i, e) } else { self.one(S::Let, d) },
                },
                2 => if let Some(v) = self.var(K::Dict) { let (i, e) = (self.key(), self.e(K::Int, d1)); format!("{}[{}] = {};", v, i, e) } else { self.one(S::Let, d) },
                _ => if let Some(v) = self.var(K::Inst) { let (f, e) = (self.field(), self.e(K::Int, d1)); let o = *self.r.pick(&["=", "+=", "="]); if self.r.chance(1, 3) { let o = self.opset(d1); format!("{}->{} {};", v, f, o) } else { format!("{}->{} {} {};", v, f, o, e) } } else { self.one(S::Let, d) },
            },
            S::SetPat => {
                let vs = self.vars(K::Int);
                if vs.len() < 2 { return self.one(S::LetPat, d) }
                let a = self.r.pick(&vs).clone(); let b = match self.var(K::List) { Some(l) if self.r.chance(1, 3) => format!("{}[0]", l), _ => self.r.pick(&vs).clone() };
                let (x, y) = (self.e(K::Int, d1), self.e(K::Int, d1));
                match self.r.below(16) {
                    0 | 1 => format!("{}, {} = [{}];", a, b, x),
                    2..=7 => format!("{}, {} = ({}, {});", a, b, x, y),
                    _ => {
                        let n = 2 + self.r.below(3); let (mut ts, mut vs, mut rest) = (vec![], vec![], false);
                        for _ in 0..n {
                            let (t, v, r) = self.target(d1, !rest && !ts.is_empty());
                            rest |= r; ts.push(t); if !(r && v.is_empty()) { vs.push(v) }
                        }
                        if ts.iter().all(|t: &String| t.chars().all(|c| "_*(), ".contains(c))) { return format!("{}, {} = [{}];", a, b, x) }
                        if self.p.fail > 0 && self.r.chance(1, 12) { vs.pop(); }
                        let v = if self.r.chance(1, 4) || vs.is_empty() { format!("[{}]", vs.join(", ")) } else { format!("({},)", vs.join(", ")) };
                        // as an expression, the targets are in parentheses, which is one level more
                        if self.r.chance(1, 5) && !rest { let n = self.new_name(); self.declare(&n, K::Any); format!("let {} = (({}) = ({},));", n, ts.join(", "), v) } else { format!("{} = {};", ts.join(", "), v) }
                    }
                }
            }
            S::Print if self.r.chance(1, 12) => { let v = self.var(K::Int).unwrap_or_else(|| "'bare'".into()); format!("print {};", v) }
            S::Print => { let k = self.data_kind(); let e = self.e(k, d); if self.r.chance(1, 3) { let f = self.e(K::Int, 1); format!("print({}, {});", e, f) } else { format!("print({});", e) } }
            S::Probe => { let e = self.e(K::Int, d); let p = self.probe(e); format!("{};", p) }
            S::Expr => { if self.r.chance(1, 6) { let b = self.bare(d1); return format!("{};", b[1..b.len() - 1].trim()) } if self.r.chance(1, 8) { let (c, a, b) = (self.e(K::Bool, d1), self.e(K::Int, d1), self.e(K::Int, d1)); return format!("if {} then {} else {};", c, a, b) } let e = self.e(K::Int, d); format!("{};", e) }
            S::If => {
                let c = self.e(K::Bool, d1); let n = 1 + self.r.below(2); let mut b = self.block(d1, n, false);
                if self.r.chance(1, 4) { if let Some(j) = self.jump() { b = self.wrap(vec![j]) } }
                let mut mid = String::new();
                while self.r.chance(1, 4) { let c = self.e(K::Bool, d1); let e = self.block(d1, 1, false); mid += &format!(" elif {} {}", c, e) }
                let b = b + &mid;
                if self.r.chance(1, 2) { let e = self.block(d1, 1, false); format!("if {} {} else {}", c, b, e) } else { format!("if {} {}", c, b) }
            }
            S::While => {
                let i = self.fresh("w"); let lim = self.r.below(4);
                self.scopes.push(vec![]); self.declare(&i, K::Any); self.loop_depth += 1;
                let mut s = vec![format!("{} += 1;", i)];
                for _ in 0..1 + self.r.below(2) { s.push(self.stmt(d1)) }
                if self.r.chance(1, 3) { let j = self.jump().unwrap_or("break;".into()); let c = self.e(K::Bool, 1); s.insert(1 + self.r.below(s.len()), format!("if {} {{ {} }}", c, j)) }
                self.loop_depth -= 1; self.scopes.pop();
                let b = self.wrap(s);
                let el = if self.r.chance(1, 4) { let e = self.block(d1, 1, false); format!(" else {}", e) } else { String::new() };
                if self.local() { format!("let {} = 0; while {} < {} {}{}", i, i, lim, b, el) } else { format!("do {{ let {} = 0; while {} < {} {}{} }}", i, i, lim, b, el) }
            }
            S::For => {
                let it = match self.r.below(5) { 0 => format!("range({})", self.r.below(5)), 1 => { let l = self.e(K::List, 1); format!("enumerate({})", l) } 2 => self.e(K::Set, 1), _ => self.e(K::List, d1) };
                let en = it.starts_with("enumerate");
                self.scopes.push(vec![]); 
                let pat = if en { let (a, b) = (self.fresh("i"), self.fresh("i")); self.declare(&a, K::Int); self.declare(&b, K::Int); format!("{}, {}", a, b) } else { let a = self.fresh("i"); self.declare(&a, K::Int); a };
                self.scopes.push(vec![]); self.loop_depth += 1;
                let mut s = vec![];
                for _ in 0..1 + self.r.below(3) { s.push(self.stmt(d1)) }
                if self.r.chance(1, 3) { let j = self.jump().unwrap_or("continue;".into()); let c = self.e(K::Bool, 1); let at = self.r.below(s.len() + 1); s.insert(at, format!("if {} {{ {} }}", c, j)) }
                self.loop_depth -= 1; self.scopes.pop(); self.scopes.pop();
                let b = self.wrap(s);
                let el = if self.r.chance(1, 5) { let e = self.block(d1, 1, false); format!(" else {}", e) } else { String::new() };
                format!("for {} in {} {}{}", pat, it, b, el)
            }
            S::Loop => {
                let i = self.fresh("w"); self.scopes.push(vec![]); self.scopes.push(vec![]); self.loop_depth += 1;
                let s1 = self.stmt(d1); let s2 = self.stmt(d1);
                self.loop_depth -= 1; self.scopes.pop(); self.scopes.pop();
                let k = self.r.below(3); let b = self.wrap(vec![s1, format!("if {} >= {} {{ break; }}", i, k), format!("{} += 1;", i), s2]);
                format!("do {{ let {} = 0; while true {} }}", i, b).replace("while true", if self.r.chance(1, 2) { "loop" } else { "while true" })
            }
            S::Do => { let n = 1 + self.r.below(3); let ld = std::mem::take(&mut self.loop_depth); let b = self.block(d1, n, false); self.loop_depth = ld; format!("do {}", b) }
            S::Fn => self.func(d, None),
            S::Call => { let k = *self.r.pick(&[K::F0, K::F1, K::F2]); if let Some(f) = self.var(k) { let n = match k { K::F0 => 0, K::F1 => 1, _ => 2 }; let a: Vec<String> = (0..n).map(|_| self.e(K::Int, d1)).collect(); if self.r.chance(1, 2) { let e = format!("{}({})", f, a.join(", ")); let p = self.probe(e); format!("{};", p) } else { format!("{}({});", f, a.join(", ")) } } else { self.one(S::Fn, d) } }
            S::Closure => {
                // a function which makes a counter; the counter outlives the call
                let (f, x, g) = (self.new_fn(), self.fresh("c"), self.fresh("g"));
                let init = self.e(K::Int, 1); let step = self.int_lit();
                let early = match self.r.below(4) { 0 => format!("if {} > 4 {{ return {}; }}", x, g), _ => String::new() };
                let boom = if self.p.fail > 0 && self.r.chance(1, 8) { format!("{};", self.boom()) } else { String::new() };
                let t = format!("fn {}() {{\nlet {x} = {};\nfn {g}() {{ {x} += {}; {x} }}\n{}{}{g}\n}}", f, init, step, early, boom);
                let a = self.new_name(); 
                self.declare(&f, K::Any); self.declare(&a, K::F0);
                format!("{}\nlet {} = {}();", t, a, f).replace("}\nlet", "} let")
            }
            S::SharedPair => {
                // two closures over one variable, one reading and one writing
                let (x, gl, f) = (self.fresh("c"), self.new_name(), self.new_fn());
                let (get, set) = (self.new_name(), self.new_name());
                let how = self.r.below(4);
                let wr = match how { 0 => format!("fn(q) -> {} = q", x), 1 => format!("fn(q) -> {} += q", x), 2 => format!("fn(q) {{ {} = {} + q; {} }}", x, x, x), _ => format!("fn(q) {{ fn deep() {{ {} = q; }} deep(); {} }}", x, x) };
                let after = match self.r.below(4) { 0 => format!("{} = 50; ", x), 1 => format!("{} += 7; ", x), _ => String::new() };
                let b = if self.p.fail > 0 && self.r.chance(1, 4) { format!("{}; ", self.boom()) } else { String::new() };
                self.declare(&gl, K::Any); self.declare(&f, K::Any); self.declare(&get, K::F0); self.declare(&set, K::F1);
                let init = self.int_lit();
                format!("let {gl} = [(fn() -> 0), (fn(q) -> q)], {get} = (fn() -> {gl}[0]()), {set} = (fn(q) -> {gl}[1](q)); fn {f}() {{ let {x} = {init}; {gl}[0] = fn() -> {x}; {gl}[1] = {wr}; {after}{b}nil }} {f}();")
            }
            S::LoopCapture => {
                // every iteration's variable is a fresh one
                let (l, i, f) = (self.new_name(), self.fresh("i"), self.fresh("t"));
                let y = self.fresh("y");
                let n = 2 + self.r.below(3);
                let j = match self.r.below(5) { 0 => format!("if {} == 1 {{ continue; }}", i), 1 => format!("if {} == {} {{ break; }}", i, n - 1), 2 if self.p.fail > 0 => format!("if {} == {} {{ {}; }}", i, n - 1, self.boom()), 3 => format!("if {} == 2 {{ continue; }}", i), _ => String::new() };
                let early = self.r.chance(1, 2);
                let cap = match self.r.below(3) { 0 => format!("fn() -> {}", i), 1 => format!("fn() -> {} += 1", i), _ => format!("fn() -> {} + {}", i, y) };
                let decl = format!("let {} = {} * 10;", y, i);
                let b = if early { format!("{} {} {} {}", decl, format!("{} . push({});", l, cap), j, format!("{} += 1;", i)) } else { format!("{} {} {}", decl, j, format!("{} . push({});", l, cap)) };
                let b = b.replace(&format!("{} . push(", l), &format!("push({} /*f*/, ", l)); // push(value, list) order fixed below
                let b = b.replace(&format!("push({} /*f*/, {});", l, cap), &format!("{} . push({});", l, cap));
                self.declare(&l, K::FL); let _ = f;
                let lp = if self.r.chance(1, 3) { let w = self.fresh("w"); format!("do {{ let {w} = 0; while {w} < {n} {{ {w} += 1; let {i} = {w} - 1; {b} }} }}") } else { format!("for {} in range({}) {{ {} }}", i, n, b) };
                if self.r.chance(1, 2) { let g = self.new_fn(); self.declare(&g, K::Any); format!("let {} = []; fn {}() {{ {} nil }} {}();", l, g, lp, g) } else { format!("let {} = []; {}", l, lp) }
            }
            S::NestCapture => {
                let (f, a, b, c) = (self.new_fn(), self.fresh("a"), self.fresh("b"), self.fresh("c"));
                let h = self.new_name();
                let ops = [format!("{} += 1", a), format!("{} += {}", b, a), format!("{} = {} + {}", c, a, b), format!("{} += {}", a, c)];
                let o1 = self.r.pick(&ops).clone(); let o2 = self.r.pick(&ops[..2]).clone(); let o3 = self.r.pick(&ops[..1]).clone();
                let order = match self.r.below(3) { 0 => format!("fn deep() {{ {o1}; {a} + {b} + {c} }} deep"), 1 => format!("fn deep2() {{ {o2}; {b} }} fn deep() {{ {o1}; deep2() + {c} }} deep"), _ => format!("fn deep() {{ let {c} = 3; fn deeper() {{ {o1}; {b} + {a} + {c} }} deeper() }} deep") };
                self.declare(&f, K::Any); self.declare(&h, K::F0);
                format!("fn {f}({a}) {{\nlet {b} = {a} * 2;\nfn mid({c}) {{ {o2}; {order} }}\n{o3};\nmid({b})\n}} let {h} = {f}({});", self.r.below(5))
            }
            S::Struct => {
                if self.local() { return self.one(S::Let, d) }
                let n = self.fresh("T"); let fs: Vec<String> = (0..1 + self.r.below(2)).map(|i| format!("f{}{}", (b'x' + i as u8) as char, self.r.below(2))).collect();
                self.scopes.push(vec![Var { n: "arg".into(), k: K::Int }]); let fd = self.fn_depth; self.fn_depth = 1; let ld = std::mem::take(&mut self.loop_depth);
                let e = self.e(K::Int, d1); let e2 = self.e(K::Int, d1);
                self.fn_depth = fd; self.loop_depth = ld; self.scopes.pop();
                let f0 = fs[0].clone();
                if !self.local() { self.structs.push((n.clone(), fs.clone())); }
                self.declare(&n, K::Any);
                format!("struct {}({}) {{\nfn bump{}(self, arg) {{ self->{} += {}; self->{} }}\nfn get{}(self) -> self->{} + {}\n}}", n, fs.join(", "), n, f0, e, f0, n, f0, e2.replace("arg", "1"))
            }
            S::Inst => if self.structs.is_empty() { self.one(S::Struct, d) } else { let e = { let (n, fs) = { let i = self.r.below(self.structs.len()); self.structs[i].clone() }; let v: Vec<String> = fs.iter().map(|_| self.e(K::Int, d1)).collect(); format!("{}({})", n, v.join(", ")) }; let n = self.new_name(); self.declare(&n, K::Inst); format!("let {} = {};", n, e) },
            S::Method => if let (Some(i), false) = (self.var(K::Inst), self.structs.is_empty()) { let t = { let i = self.r.below(self.structs.len()); self.structs[i].0.clone() }; if self.r.chance(1, 2) { let e = self.e(K::Int, d1); format!("{}->bump{}({});", i, t, e) } else { format!("{}->get{}();", i, t) } } else { self.one(S::Inst, d) },
            S::Mutate => {
                match self.r.below(8) {
                    0 | 1 => if let Some(l) = self.var(K::List) { let e = self.e(K::Int, d1); format!("{} . push({});", l, e) } else { self.one(S::Let, d) },
                    2 => if let Some(l) = self.var(K::List) { format!("{} . {};", l, self.r.pick(&["pop", "pop_front", "clear"])) } else { self.one(S::Let, d) },
                    3 => if let Some(l) = self.var(K::List) { let (i, e) = (self.r.below(3), self.e(K::Int, d1)); format!("{} . insert({}, {});", l, i, e) } else { self.one(S::Let, d) },
                    4 => if let Some(l) = self.var(K::List) { let i = self.r.below(3); format!("{} . remove({});", l, i) } else { self.one(S::Let, d) },
                    5 => if let Some(l) = self.var(K::Set) { let e = self.e(K::Int, d1); format!("{} . push({});", l, e) } else { self.one(S::Let, d) },
                    6 => if let Some(l) = self.var(K::Dict) { let k = self.key(); if self.r.chance(1, 2) { format!("{} . remove({});", l, k) } else { let e = self.e(K::Int, d1); format!("{} . insert({}, {});", l, k, e) } } else { self.one(S::Let, d) },
                    _ => if let Some(l) = self.var(K::List) { let e = self.e(K::Int, d1); format!("{} . push_front({});", l, e) } else { self.one(S::Let, d) },
                }
            }
            S::Callback => if self.r.chance(1, 2) { self.callback(d) } else { self.callback_any() },
            S::SortFail => self.sort_fail(),
            S::Iterate => self.iterate(d),
            S::Memo => if self.r.chance(1, 2) { self.memo(d) } else { self.memo_any() },
            S::DictDefault => if self.r.chance(1, 2) { self.dict_default(d) } else { self.default_any() },
            S::Eval => self.eval(d),
            S::Assert => match self.r.below(3) { 0 => { let (a, b) = (self.e(K::Int, d1), self.e(K::Int, d1)); format!("assert {} {} {};", a, self.r.pick(&["<", "<=", "!="]), b) } 1 => { let e = self.e(K::Bool, d1); let s = if self.r.chance(1, 3) { self.e(K::Any, 1) } else { self.lit_str() }; format!("assert {} : {};", e, s) } _ => { let (a, s) = (self.e(K::Int, d1), self.lit_str()); format!("assert ({} - 1) == 3 : {};", a, s) } },
            S::Exit => { let c = self.e(K::Bool, 1); match self.r.below(3) { 0 => format!("if {} {{ exit; }}", c), 1 => { let n = self.r.below(3); format!("[1, 2, 3] . map(fn(q) -> if q == {} then exit else {});", n + 1, self.probe("q".into())) } _ => "exit;".into() } }
            S::Late => {
                // a function which refers to a global that is declared after it
                if self.local() { return self.one(S::Call, d) }
                let (f, v) = (self.new_fn(), self.fresh("v"));
                let early = self.r.chance(1, 3);
                self.declare(&f, K::F0); self.declare(&v, K::Int);
                let e = self.e(K::Int, 1);
                if !early && self.r.chance(1, 3) {
                    // a pattern assignment to variables declared later
                    let (l, y, w) = (self.var(K::List), self.e(K::Int, 1), self.fresh("v"));
                    self.declare(&w, K::Int);
                    let (t, z) = match l { Some(l) => (match self.r.below(3) { 0 => format!("{}[0], ", l), 1 => format!("{}[(({v}, {w}) = ((0, 1),))[0][0]], ", l), _ => format!("{}[((_, {w}) = ((1, {v}),))[0][0]], ", l) }, "7, "), None => (String::new(), "") };
                    let s = if self.r.chance(1, 2) { format!("{v}, {t}{w} = ({e}, {z}{v})") } else { format!("{t}{w}, {v} = ({z}{v}, {e})") };
                    return format!("fn {f}() {{ {s}; {v} + {w} }}; let {v} = {y}, {w} = 1;")
                }
                let body = if self.r.chance(1, 3) { format!("{{ {} += 1; {} }}", v, v) } else { format!("-> {} + 1", v) };
                if early { format!("fn {f}() {body} {} let {v} = {e};", self.probe(format!("{}()", f)) + ";").replace(") -> ", ") -> ").replace(&format!("+ 1 {}", if self.has_mod { "m->p" } else { "(" }), &format!("+ 1; {}", if self.has_mod { "m->p" } else { "(" })) } else { format!("fn {f}() {body}; let {v} = {e};") }
            }
            S::Recursion => {
                let f = self.new_fn(); let n = self.r.below(9);
                let leaf = if self.p.fail > 0 && self.r.chance(1, 2) { self.boom() } else { self.e(K::Int, 1) };
                self.declare(&f, K::F1);
                let t = match self.r.below(3) { 0 => format!("fn {f}(n) {{\nif n <= 0 {{ {leaf} }} else {{\n{f}(n - 1)\n}}\n}}"), 1 => format!("fn {f}(n) {{\nif n <= 0 {{ return {leaf}; }}\nreturn {f}(n - 1) + 1;\n}}"), _ => format!("fn {f}(n) -> if n <= 0 then {leaf} else {f}(n - 1) + 1;") };
                format!("{} {}({});", t, f, n)
            }
            S::Decor => {
                let (dn, f) = (self.new_fn(), self.new_fn());
                self.no_fail += 1; let e = self.e(K::Int, 1); let e2 = self.body_expr(1, K::Int, &["q"]); self.no_fail -= 1;
                self.declare(&dn, K::Any); self.declare(&f, K::F1);
                if self.r.chance(1, 3) {
                    let (k, j) = (self.int_lit(), self.int_lit());
                    return format!("fn {dn}(n) {{ {}; fn(g) {{ {}; fn(q) {{ n += 1; g(q) + n }} }} }} @{dn}({k})\n@{dn}({j})\nfn {f}(q) -> {e2};", self.probe("n".into()), self.probe("-n".into()))
                }
                format!("fn {dn}(g) {{ let n = {e}; fn(q) {{ n += 1; g(q) + n }} }} @{dn} fn {f}(q) -> {e2};")
            }
            S::Unroll => { let l = self.e(K::List, d1); let e = self.e(K::Int, d1); match self.r.below(4) { 0 => format!("print(...{}, {});", l, e), 1 => if self.has_mod { format!("m->w({}, ...{});", e, l) } else { format!("print({}, ...{});", e, l) }, 2 => { let n = self.new_name(); self.declare(&n, K::List); format!("let {} = [{}, ...{}, {}];", n, e, l, e) } _ => format!("(fn(*zs) {{ {}; }})({}, ...{});", self.probe("zs".into()), e, l) } }
            S::SetOps => { if let Some(s) = self.var(K::Set) { let o = match self.r.below(4) { 0 => s.clone(), 1 => self.e(K::List, d1), _ => self.e(K::Set, d1) }; match self.r.below(4) { 0 => format!("{} . union({});", s, o), 1 => format!("{} . intersect({});", s, o), 2 => format!("{} . difference({});", s, o), _ => { let o = self.e(K::Set, 1); let n = self.new_name(); self.declare(&n, K::Set); format!("let {} = ({} {} {});", n, s, self.r.pick(&["-", "&", "|", "^"]), o) } } } else { let n = self.new_name(); let e = self.e(K::Set, d); self.declare(&n, K::Set); format!("let {} = {};", n, e) } }
            S::Read => { match self.r.below(6) { 0 => "print(read());".into(), 1 => { let n = self.new_name(); self.declare(&n, K::Str); format!("let {} = read_line();", n) } 2 => "for q in range(2) { print(q, read_line()); }".into(), 3 => "print(repr(read_line()));".into(), 4 => format!("{};", self.probe("read_line()".into())), _ => "print(len(read_line()));".into() } }
            S::Escape => { let a = self.lit_str(); format!("print({} + '\\n' + {} + '\\t\\'q');", a, a) }
            S::Partial if self.r.chance(1, 2) => {
                let (f, k) = (self.fresh("f"), self.int_lit());
                let v: Vec<String> = (0..self.r.below(5)).map(|_| self.e(K::Int, 0)).collect();
                let (n, a) = (self.new_name(), self.e(K::Int, 1));
                let args = v.join(", ");
                match self.r.below(7) {
                    5 | 6 => {
                        // the same arguments, handed over in one call or in several
                        let t = self.probe("[a, b, c]".into()); let b = self.body_expr(1, K::Int, &["a", "b", "c"]);
                        let (x, y, z) = (self.e(K::Int, 0), self.e(K::Int, 0), self.e(K::Int, 1));
                        self.declare(&n, K::F1);
                        let s = match self.r.below(5) { 0 => format!("{f}({x})({y})"), 1 => format!("{f}({x}, {y})"), 2 => format!("[{y}] . map({f}({x})) . [0]"), 3 => format!("({x} . {f})({y})"), _ => format!("{f}(...[{x}], {y})") };
                        format!("fn {f}(a, b, c) {{ {t}; {b} }} let {n} = {s}; {}; {n}({z});", self.probe(format!("[{n}(1), {f}({x})({y}, 3), {f}({x})({y})({z})]")))
                    }
                    0 => { self.declare(&n, K::Any); format!("fn {f}(a, b, *c) {{ let d = a; fn() -> [d, b, c] }} let {n} = {f}({a})({k}{}{args}); {};", if v.is_empty() { "" } else { ", " }, self.probe(format!("{n}()"))) }
                    1 => { self.declare(&n, K::Any); format!("fn {f}(a, b, c = {k}, *d) -> [a, b, c, d]; let {n} = {f}({a}); {};", self.probe(format!("[{n}({k}), {n}({k}, 3), {n}({k}, ...[{args}])]"))) }
                    2 => { self.declare(&n, K::F1); format!("let {n} = (fn(a, b, c = {k}) {{ let d = b + c; a + d }})({a}); {};", self.probe(format!("[{n}(1), {n}(1, 2)]"))) }
                    3 if !self.local() => { let t = self.fresh("T"); self.declare(&t, K::Any); self.declare(&n, K::Any); format!("struct {t}(qa) {{ fn all(self, *r) {{ let z = [self->qa, r]; z }} fn some(self, a, b = {k}, *r) -> [self->qa, a, b, r] }} let {n} = {t}({a}); {}; {};", self.probe(format!("{n}->all({args})")), self.probe(format!("{n}->some(1{}{args})", if v.is_empty() { "" } else { ", " }))) }
                    _ => { self.declare(&n, K::Any); format!("let {n} = (fn(a, b, *c) -> [a, b, c])({a}); {};", self.probe(format!("[1, 2, 3] . map({n})"))) }
                }
            }
            S::Partial => { if let Some(f) = self.var(K::F2) { let (a, n) = (self.e(K::Int, d1), self.new_name()); self.declare(&n, K::F1); format!("let {} = {}({});", n, f, a) } else { self.one(S::Fn, d) } }
            S::Shadow => { if let Some(v) = self.var(K::Int) { let e = self.e(K::Int, d1); let g = self.fresh("g"); format!("do {{ let {v} = {e}; fn {g}() -> {v} += 1; {g}(); {} }}", self.probe(v.clone()) + ";") } else { self.one(S::Let, d) } }
            S::Acyclic => self.acyclic(),
            S::Members => self.members_decl(d),
            S::Member => self.member(d),
            S::Scale => self.scale(d),
            S::Chain => self.chain(),
            S::Jumps => self.jumps_top(),
            S::Stdin | S::File | S::Native | S::Args | S::Big => self.io(s),
        }
    }
    /// one statement of a size which small examples never have: many values, names, arguments, constants, branches or levels at once
    fn scale(&mut self, d: u32) -> String {
        if self.local() || self.in_callback > 0 { return self.one(S::Let, d) }
        let n = match self.r.below(5) { 0 => 20 + self.r.below(30), 1 => 60 + self.r.below(10), 2 => 126 + self.r.below(6), 3 => 252 + self.r.below(10), _ => 300 + self.r.below(40) };
        let small = n.min(60 + n % 7);
        let (v, x, f) = (self.new_name(), self.fresh("x"), self.fresh("f"));
        // an element: mostly constants, here and there something which is recorded or fails
        let (call, fail) = (if self.has_mod { 12 } else { 0 }, self.p.fail > 0 && self.r.chance(1, 3));
        let at = self.r.below(n * 2);
        let b = if fail { self.boom() } else { "0".into() };
        let k0 = self.r.below(3);
        let mut hit = false;
        let mut el = |g: &mut Gen, i: usize| -> String {
            if fail && i == at { hit = true; return b.clone() }
            if call > 0 && g.r.chance(1, call * 4) { return format!("m->p({})", i) }
            match (k0 + i / 64) % 3 { 0 => format!("{}", i * 7 % 1000), 1 => format!("'s{}'", i), _ => format!("[{}]", i) }
        };
        let each = |g: &mut Gen, el: &mut dyn FnMut(&mut Gen, usize) -> String, n: usize| -> String { (0..n).map(|i| el(g, i)).collect::<Vec<_>>().join(", ") };
        let pk = |g: &mut Gen, n: usize| -> usize { match g.r.below(4) { 0 => 0, 1 => n - 1, 2 => n / 2, _ => g.r.below(n) } };
        let (i1, i2, i3) = (pk(self, n), pk(self, n), pk(self, n));
        let show = |g: &mut Gen, e: String| g.probe(e);
        let out = match self.r.below(22) {
            0 => { let a = each(self, &mut el, n); let s = show(self, format!("[len({v}), {v}[{i1}], {v}[{i2}], {v}[-1]]")); format!("let {v} = [{a}]; {s};") }
            1 => { let a = each(self, &mut el, n); let c = *self.r.pick(&["(fn(a, *r) -> [a, len(r), r[-1]])", "(fn(a, b = 3, *r) -> [a, b, len(r)])", "(fn(*r) { let z = fn() -> r; z() })"]); let s = show(self, format!("{c}({a})")); format!("let {v} = {s};") }
            2 if self.has_mod => { let a = each(self, &mut el, n); format!("let {v} = m->w({a});") }
            3 => { let a = each(self, &mut el, n); format!("let {v} = 0; print({a});") }
            4 => { let a = each(self, &mut el, n); let s = show(self, format!("[len({v}), {i1} in {v}, ('s{i2}') in {v}, [{i3}] in {v}, {v}]")); format!("let {v} = {{{a}}}; {s};") }
            5 => { let a = (0..n).map(|i| { let e = el(self, i); format!("{}: {}", if i % 3 == 0 { format!("'k{}'", i) } else { i.to_string() }, e) }).collect::<Vec<_>>().join(", "); let s = show(self, format!("[len({v}), keys({v})[{i1}], values({v})[{i2}], {v}]")); format!("let {v} = {{{a}}}; {s};") }
            // many locals of one function, some of them captured
            6 => { let a = (0..n).map(|i| { let e = el(self, i); format!("let {x}q{i} = {e}") }).collect::<Vec<_>>().join("; "); let s = show(self, format!("[{v}[0](), {v}[1](), {v}[0]()]")); format!("let {v} = (fn() {{ {a}; [fn() {{ {x}q{i1} = [{x}q{i1}, {x}q{i2}]; {x}q{i1} }}, fn() -> [{x}q{i1}, {x}q{i3}, {x}q{}]] }})(); {s};", n - 1) }
            // one function capturing many variables
            7 => { let a = (0..n).map(|i| format!("{x}q{i} = {}", i * 3 % 100)).collect::<Vec<_>>().join(", "); let u = (0..n).map(|i| format!("{x}q{i}")).collect::<Vec<_>>().join(" + "); let s = show(self, format!("[{v}[0](), {v}[1](), {v}[0]()]")); format!("let {v} = (fn() {{ let {a}; [(fn() -> {u}), fn() {{ {x}q{i1} += 1; {x}q{i2} += 10; {x}q{i3} }}] }})(); {s};") }
            // many globals
            8 => { let a = (0..n).map(|i| { let e = el(self, i); format!("let {x}q{i} = {e}") }).collect::<Vec<_>>().join("; "); let s = show(self, format!("[{x}q{i1}, {x}q{i2}, {x}q{i3}, {f}()]")); format!("fn {f}() -> [{x}q{i3}, {x}q{i1}]; let {v} = 0; {a}; {s};") }
            // many functions
            9 => { let a = (0..n).map(|i| match i % 3 { 0 => format!("(fn(x) -> x + {i})"), 1 => format!("(fn(x) {{ {i} - x }})"), _ => format!("(+ {i})") }).collect::<Vec<_>>().join(", "); let s = show(self, format!("[{v}[{i1}](1), {v} . map(fn(g) -> g(2)) . sum]")); format!("let {v} = [{a}]; {s};") }
            // jumps over long bodies
            10 => { let a = each(self, &mut el, n); let b2 = each(self, &mut el, n / 2); let c = self.e(K::Bool, 1); let s = show(self, v.clone()); format!("let {v} = []; if {c} {{ {v} = [{a}]; }} else {{ {v} = [{b2}]; }} {s};") }
            11 => { let a = each(self, &mut el, n); let k = self.r.below(4); let (br, s) = (*self.r.pick(&["break", "continue"]), show(self, v.clone())); format!("let {v} = 0; for {x} in range(3) {{ if {x} == {k} {{ {br}; }} [{a}]; {v} += 1; }} else {{ {v} = 0 - 1; }} {s};") }
            12 => { let a = each(self, &mut el, n); let o = *self.r.pick(&["and", "or"]); let c = self.e(K::Bool, 0); let s = show(self, v.clone()); format!("let {v} = ({c} {o} [{a}]); {s};") }
            // many levels
            13 => { let k = small / 2; let mut t = format!("{v} += {x}q0; {}", (0..k).map(|i| format!("{x}q{i}")).collect::<Vec<_>>().join(" + ")); for i in (0..k).rev() { t = match (i + k0) % 3 { 0 => format!("do {{ let {x}q{i} = {i}; {t}; }}"), 1 => format!("if true {{ let {x}q{i} = {i}; {t}; }}"), _ => format!("for {x}q{i} in [{i}] {{ {t}; }}") } } let s = show(self, v.clone()); format!("let {v} = 1; {t} {s};") }
            14 => { let k = 3 + small / 8; let mut t = format!("{v} += {x}q0; {x}q0 += 1; {}", (0..k).map(|i| format!("{x}q{i}")).collect::<Vec<_>>().join(" + ")); for i in (0..k).rev() { t = format!("(fn({x}q{i}) {{ {t} }})({i})") } let s = show(self, format!("[{v}, {t}, {v}]")); format!("let {v} = 1; {s};") }
            15 => { let k = small / 2; let mut t = self.e(K::Int, 1); for i in 0..k { t = match (i + k0) % 5 { 0 => format!("[{t}]"), 1 => format!("({t}, {i})"), 2 => format!("(fn() -> {t})()"), 3 => format!("(if true then {t} else nil)"), _ => format!("{{{i}: {t}}}") } } let s = show(self, v.clone()); format!("let {v} = {t}; {s};") }
            // sorting, grouping and the like of many elements
            16 => { let m = 2 + self.r.below(9); let t = match self.r.below(8) { 0 => format!("(range({n}) . sort_by(fn(q) -> q * {m} % 1009))"), 1 => format!("(range({n}) . list . sort_by(fn(q, r) -> q * {m} % 1009 - r * {m} % 1009))"), 2 => format!("(range({n}) . group_by(fn(q) -> q % {m}))"), 3 => format!("(range({n}) . map(fn(q) -> q * 37 % 101) . sort)"), 4 => format!("(range({n}) . min_by(fn(q) -> 0 - q % {m}))"), 5 => format!("(set(range({n}) . map(fn(q) -> q * 37 % 101)))"), 6 => format!("(range({n}) . map(fn(q) -> (q * 37 % 101, q)) . dict)"), _ => format!("(range({n}) . reduce(fn(a, b) -> a * {m} % 1009 + b))") }; let s = show(self, v.clone()); format!("let {v} = {t}; {s};") }
            // collections which grow and shrink
            17 => { let (c, g, r) = match self.r.below(3) { 0 => ("dict()", format!("{v}[{x} * 37 % 101] = {x}"), format!("{v} . remove({x} * 5)")), 1 => ("set()", format!("{v} . push({x} * 37 % 101)"), format!("{v} . remove({x} * 5)")), _ => ("[]", format!("{v} . push({x} * 37 % 101)"), format!("{v} . remove({x} * 3)")) }; let s = show(self, format!("[len({v}), {v}]")); format!("let {v} = {c}; for {x} in range({small}) {{ {g}; }} for {x} in range(12) {{ {r}; }} {s};") }
            // many targets of one pattern
            18 => { let k = small; let (j1, j2) = (pk(self, k), pk(self, k)); let names = (0..k).map(|i| if i == j1 && self.r.chance(1, 2) { format!("*{x}q{i}") } else if i % 11 == 5 { "_".into() } else { format!("{x}q{i}") }).collect::<Vec<_>>(); let use_: Vec<String> = names.iter().enumerate().filter(|(i, n)| *n != "_" && (*i == j1 || *i == j2 || i % 13 == 0)).map(|(_, n)| n.trim_start_matches('*').to_string()).collect(); let m = if names.iter().any(|n| n.starts_with('*')) { k + self.r.below(4) - 1 } else { k }; let s = show(self, format!("[{}]", use_.join(", "))); format!("let {v} = 0; let {} = range({m}); {s};", names.join(", ")) }
            // many fields
            19 => { let k = small; let t = self.fresh("T"); let fs = (0..k).map(|i| format!("{x}q{i}")).collect::<Vec<_>>(); let a = each(self, &mut el, k); let (j1, j2) = (pk(self, k), pk(self, k)); self.declare(&t, K::Any); let s = show(self, format!("[{v}->{}, {v}->{}, {v}]", fs[j1], fs[j2])); format!("struct {t}({}) {{ fn sa(self) {{ {} = 5; {} }} }} let {v} = {t}({a}); {v}->sa(); {s};", fs.join(", "), fs[j1], fs[j2]) }
            // many parameters
            20 => { let k = small; let opt = self.r.below(k); let ps = (0..k).map(|i| if i < opt { format!("{x}q{i}") } else { format!("{x}q{i} = {i}") }).collect::<Vec<_>>(); let given = opt + self.r.below(k - opt + 2); let a = each(self, &mut el, given.max(1)); let (j1, j2) = (pk(self, k), pk(self, k)); let s = show(self, format!("(fn({}) {{ let z = {x}q{j1}; fn() -> [z, {x}q{j1}, {x}q{j2}, {x}q{}] }})({a})()", ps.join(", "), k - 1)); format!("let {v} = {s};") }
            _ => { let s = show(self, format!("[len({v}), {v}[{i1}], {v}[-1]]")); let k = self.r.below(5); let t = match k { 0 => format!("'{}'", "abcdefghij".repeat(n)), 1 => format!("'ab' * {n}"), 2 => format!("join(',', range({n}))"), 3 => format!("(range({n}) . map(fn(q) -> str(q)) . reduce(+))"), _ => format!("('x,' * {n} . split(','))") }; format!("let {v} = {t}; {s}; print({v});") }
        };
        self.declare(&v, K::Any);
        out
    }
    /// a struct or module whose methods refer to fields and methods without `self`, to each other, and to global functions of the same names declared earlier, later or not at all
    fn members_decl(&mut self, d: u32) -> String {
        if self.local() { return self.one(S::Member, d) }
        const POOL: &[(&str, usize)] = &[("ma", 0), ("mb", 1), ("mc", 0), ("md", 1), ("me", 0)];
        let d1 = d.saturating_sub(1);
        let n = self.fresh("T"); let module = self.r.chance(2, 5);
        let mut fields: Vec<String> = vec![];
        if !module { for i in 0..1 + self.r.below(3) { let f = match (self.r.below(6), self.var(K::Int)) { (0 | 1, Some(v)) => v, (2, _) => format!("g{}", i), _ => format!("f{}{}", (b'x' + i as u8) as char, self.r.below(2)) }; if !fields.contains(&f) { fields.push(f) } } }
        let mut methods: Vec<(String, usize, bool)> = vec![];
        for _ in 0..1 + self.r.below(3) { let p = *self.r.pick(POOL); if methods.iter().all(|m| m.0 != p.0) { let own = !module && self.r.chance(2, 3); methods.push((p.0.into(), p.1, own)) } }
        let mut need: Vec<(&str, usize)> = vec![];
        let globals: Vec<String> = self.scopes[0].iter().map(|v| v.n.clone()).collect();
        let mut body = vec![];
        let kf = |a: usize| if a == 0 { K::F0 } else { K::F1 };
        let wild = self.p.reject > 0 && self.r.chance(1, 12);
        for (m, a, own) in methods.clone() {
            let x = self.fresh("x");
            let mut ps = vec![]; if own { ps.push("self".to_string()) }
            if a == 1 { if self.r.chance(1, 4) { let e = self.e(K::Int, 1); ps.push(format!("{} = {}", x, e)) } else { ps.push(x.clone()) } }
            let mut sc: Vec<Var> = vec![];
            for f in &fields { sc.push(Var { n: f.clone(), k: if own || wild { K::Int } else { K::Mod } }) }
            for (m, a, o) in &methods { sc.push(Var { n: m.clone(), k: if *o && !own && !wild { K::Mod } else { kf(*a) } }) }
            self.scopes.push(sc);
            self.scopes.push(if a == 1 { vec![Var { n: x.clone(), k: K::Int }] } else { vec![] });
            self.fn_depth += 1; let ld = std::mem::take(&mut self.loop_depth);
            let mut b = vec![];
            for _ in 0..self.r.below(3) { b.push(self.stmt(d1)) }
            let extra = self.r.below(3);
            for _ in 0..extra {
                let t = match self.r.below(9) {
                    0 | 1 => {
                        // a method, or a function which need not exist yet
                        let mut p = *self.r.pick(POOL);
                        if own && self.r.chance(1, 2) { let o = self.r.pick(&methods).0.clone(); p = *POOL.iter().find(|p| p.0 == o).unwrap() }
                        if methods.iter().any(|m| m.0 == p.0 && m.2) && !own && !wild { continue }
                        if p.0 == m && self.r.chance(3, 4) { continue }
                        if methods.iter().all(|m| m.0 != p.0) && !need.contains(&p) { need.push(p) }
                        let e = if p.1 == 1 { self.e(K::Int, 1) } else { String::new() };
                        let call = format!("{}({})", p.0, e);
                        match self.r.below(4) { 0 => format!("(fn() -> {})();", call), 1 => format!("[1, 2] . map(fn(q) {{ {} }});", call), _ => self.probe(call) + ";" }
                    }
                    2 if own && !fields.is_empty() => { let f = self.r.pick(&fields).clone(); let e = self.e(K::Int, 1); format!("self->{f} = {e}; {};", self.probe(f.clone())) }
                    3 if own && !fields.is_empty() => { let (f, g) = (self.r.pick(&fields).clone(), self.r.pick(&fields).clone()); let (a, b, c) = (self.e(K::Int, 1), self.e(K::Int, 1), self.e(K::Int, 0)); match self.r.below(4) { 0 => format!("{f}, {g} = ({a}, {b});"), 1 => format!("{f}, _, *{g} = [{a}, {b}, {c}];"), 2 => format!("{f}, ({g}, _) = ({a}, ({b}, {c}));"), _ => format!("{f}, {g} = {b};") } }
                    4 if own && !fields.is_empty() => { let f = self.r.pick(&fields).clone(); let g = self.fresh("g"); let e = self.e(K::Int, 1); format!("fn {g}() {{ {f} += {e}; {f} }} {};", self.probe(format!("{g}() + {g}() + {f}"))) }
                    5 if own && !fields.is_empty() => { let f = self.r.pick(&fields).clone(); let i = self.fresh("i"); format!("for {i} in range(2) {{ {f} += {i}; }} {};", self.probe(f.clone())) }
                    6 if own && !fields.is_empty() => { let (f, g) = (self.r.pick(&fields).clone(), self.r.pick(&fields).clone()); let e = self.e(K::Int, 1); format!("{f} = {g} = {e}; {f} .= (+ 1); {};", self.probe(format!("[{f}, {g}, self->{f}]"))) }
                    7 if own => { let p = self.probe("self".into()); format!("{};", p) }
                    _ => { let e = self.e(K::Int, d1); self.probe(e) + ";" }
                };
                let at = self.r.below(b.len() + 1); b.insert(at, t);
            }
            if own && self.r.chance(1, 5) { let e = self.e(K::Int, 1); b.push(match self.r.below(3) { 0 => "self".into(), 1 => format!("fn() -> {}", e), _ if !fields.is_empty() => format!("(fn(q) {{ {} = q }})", self.r.pick(&fields)), _ => e }) } else { b.push(self.e(K::Int, d1)) }
            self.fn_depth -= 1; self.loop_depth = ld; self.scopes.pop(); self.scopes.pop();
            body.push(if b.len() == 1 && self.r.chance(1, 2) { format!("fn {}({}) -> ({})", m, ps.join(", "), b[0]) } else { format!("fn {}({}) {}", m, ps.join(", "), self.wrap(b)) });
        }
        let head = if module { format!("module {}", n) } else { format!("struct {}({})", n, fields.join(", ")) };
        let mut t = format!("{} {}", head, self.wrap(body));
        if self.r.chance(1, 4) {
            // a function before it which uses one of the methods' names
            let p = *self.r.pick(POOL);
            if globals.iter().any(|g| g == p.0) || self.r.chance(2, 3) { if !need.contains(&p) && !globals.iter().any(|g| g == p.0) { need.push(p) } let f = self.fresh("f"); self.declare(&f, K::F0); t = format!("fn {f}() -> {}({}); {t}", p.0, if p.1 == 1 { "2" } else { "" }) }
        }
        let (a, b): (Vec<(&str, usize)>, Vec<_>) = need.into_iter().filter(|p| !globals.iter().any(|g| g == p.0)).partition(|_| self.r.chance(1, 5));
        for p in a { let e = self.e(K::Int, 0); t = format!("fn {}({}) -> {}; {t}", p.0, if p.1 == 1 { "q" } else { "" }, e); self.declare(p.0, kf(p.1)) }
        if self.r.chance(1, 3) && !b.is_empty() {
            // another one has a method of that name
            let o = self.fresh("T"); let p = *self.r.pick(&b); let own = self.r.chance(1, 4);
            let r = self.int_lit();
            t = format!("{t} {} {o}{} {{ fn {}({}{}) -> {} }}", if own { "struct" } else { "module" }, if own { "(fx0)" } else { "" }, p.0, if own { "self" } else { "" }, match (own, p.1) { (true, 1) => ", q", (false, 1) => "q", _ => "" }, r);
            self.declare(&o, K::Any);
            self.members.push(Type { n: o, module: !own, fields: if own { vec!["fx0".into()] } else { vec![] }, methods: vec![(p.0.into(), p.1, own)] });
        }
        for p in b { if wild && self.r.chance(1, 2) { continue } let e = self.body_expr(1, K::Int, &[]); t = format!("{t} fn {}({}) -> {};", p.0, if p.1 == 1 { "q" } else { "" }, e); self.declare(p.0, kf(p.1)) }
        self.declare(&n, K::Any);
        self.members.push(Type { n, module, fields, methods });
        if self.r.chance(1, 2) { let u = self.member(d); t = format!("{t} {u}") }
        t
    }
    /// uses of such types
    fn member(&mut self, d: u32) -> String {
        let d1 = d.saturating_sub(1);
        let any = self.vars(K::Any);
        self.members.retain(|m| any.contains(&m.n) || self.scopes.len() > 1);
        let c: Vec<Type> = self.members.iter().filter(|m| any.contains(&m.n)).cloned().collect();
        if c.is_empty() { return if self.local() { self.one(S::Call, d) } else { self.one(S::Let, d) } }
        let t = if self.r.chance(1, 2) { c[c.len() - 1].clone() } else { self.r.pick(&c).clone() };
        let n = t.n.clone();
        let make = |g: &mut Gen| { let v: Vec<String> = t.fields.iter().map(|_| g.e(K::Int, 1)).collect(); format!("{}({})", n, v.join(", ")) };
        let inst = |g: &mut Gen| match g.var(K::Inst) { Some(i) if g.r.chance(3, 4) => i, _ => make(g) };
        let (m, a, own) = self.r.pick(&t.methods).clone();
        let arg = |g: &mut Gen| if a == 1 { g.e(K::Int, 1) } else { String::new() };
        let kf = if a == 0 { K::F0 } else { K::F1 };
        match self.r.below(16) {
            0..=2 if !t.module => { let e = make(self); let v = self.new_name(); self.declare(&v, K::Inst); format!("let {} = {};", v, e) }
            3..=6 => { let e = arg(self); let c = if own { format!("{}->{}({})", inst(self), m, e) } else { format!("{}->{}({})", n, m, e) }; if self.r.chance(2, 3) { self.probe(c) + ";" } else { c + ";" } }
            7 if own => { let (i, e) = (inst(self), arg(self)); self.probe(format!("{}->{}({}{}{})", n, m, i, if a == 1 { ", " } else { "" }, e)) + ";" }
            8 | 9 => { let e = if own { format!("{}->{}", inst(self), m) } else { format!("{}->{}", n, m) }; let v = self.new_name(); self.declare(&v, kf); format!("let {} = {};", v, e) }
            10 if !t.fields.is_empty() => { let f = self.r.pick(&t.fields).clone(); let (i, j) = (make(self), inst(self)); let l = format!("[{i}, {j}, {i}]"); let e = match self.r.below(5) { 0 => format!("{l} . map(->{f})"), 1 => format!("{l} . map({n}->{f})"), 2 => format!("(->{f})({i})"), 3 => format!("{l} . sort_by(->{f})"), _ => format!("{l} . sort") }; self.probe(e) + ";" }
            11 => { let (i, e) = (inst(self), arg(self)); let e = match self.r.below(4) { 0 => format!("[{i}, {i}] . map(->{m}) . map(fn(q) -> q({e}))"), 1 => format!("(->{m})({i})({e})"), 2 => format!("(->{m})({n})({}{e})", if !own { String::new() } else if a == 1 { format!("{i}, ") } else { i.clone() }), _ => format!("[{i}] . map({n}->{m})") }; self.probe(e) + ";" }
            12 if self.p.fail > 0 => { let i = inst(self); let e = arg(self); match self.r.below(6) { 0 => format!("{i}->{m}({e}, 1, 2);"), 1 => format!("{n}(1, 2, 3, 4, 5);"), 2 => format!("{n}->{m} = 3;"), 3 => format!("{i}->{m} = 3;"), 4 => format!("{n}->{m};"), _ => format!("nil->{m};") } }
            13 => { let i = inst(self); let e = match self.r.below(6) { 0 => n.clone(), 1 => i, 2 => format!("[{n}, {i}]"), 3 => format!("{i} == {i}"), 4 => format!("repr({n})"), _ => format!("{n} == {n}") }; format!("print({});", e) }
            14 if !t.fields.is_empty() => { if let Some(i) = self.var(K::Inst) { let f = self.r.pick(&t.fields).clone(); let e = self.e(K::Int, d1); format!("{i}->{f} {} {e};", self.r.pick(&["=", "+=", "-="])) } else { self.one(S::Let, d) } }
            _ => { let e = arg(self); let c = if own { format!("{}->{}({})", inst(self), m, e) } else { format!("{}->{}({})", n, m, e) }; let v = self.new_name(); self.declare(&v, K::Any); format!("let {} = {};", v, c) }
        }
    }
    pub fn new_name(&mut self) -> String { if !self.failed.is_empty() && !self.local() && self.r.chance(1, 2) { let i = self.r.below(self.failed.len()); return self.failed.swap_remove(i) } if self.p.redeclare > 0 && !self.local() && self.r.chance(self.p.redeclare, 100) { if let Some(v) = self.scopes[0].last() { return v.n.clone() } } if self.local() && self.r.chance(1, 8) { if let Some(v) = self.var(K::Int) { return v } } self.fresh("v") }
    pub fn new_fn(&mut self) -> String { if !self.failed.is_empty() && !self.local() && self.r.chance(1, 4) { let i = self.r.below(self.failed.len()); return self.failed.swap_remove(i) } self.fresh("f") }

    /// the terms of a pattern and a value which it takes apart, or fails to
    fn pattern(&mut self, depth: u32, assign: bool, names: &mut Vec<String>) -> (String, String) {
        let n = 2 + self.r.below(2); let var = if self.r.chance(1, 3) { self.r.below(n) } else { 9 };
        let (mut ps, mut vs) = (vec![], vec![]);
        for i in 0..n {
            if i == var {
                if assign && depth > 0 || self.r.chance(1, 3) { ps.push("*_".to_string()) } else { let x = self.fresh("v"); ps.push(format!("*{}", x)); names.push(x) }
                for _ in 0..self.r.below(3) { let e = self.e(K::Int, 0); vs.push(e) }
                continue
            }
            match self.r.below(8) {
                0 => { ps.push("_".into()); let e = self.e(K::Int, 1); vs.push(e) }
                1 | 2 if depth < 2 => { let (p, v) = self.pattern(depth + 1, assign, names); ps.push(format!("({})", p)); vs.push(v) }
                _ => { let x = self.fresh("v"); ps.push(x.clone()); names.push(x); let e = if depth > 0 { self.e(K::Int, 0) } else { self.e(K::Any, 1) }; vs.push(e) }
            }
        }
        if self.p.fail > 0 && self.no_fail == 0 && self.r.chance(1, 10) { if self.r.chance(1, 2) { vs.pop(); } else { vs.push("7".into()) } }
        let v = match self.r.below(8) { 0 if self.p.fail > 0 && self.no_fail == 0 => "set(range(2))".to_string(), 1 | 2 => format!("vector({})", vs.join(", ")), 3 if vs.len() > 1 => format!("({})", vs.join(", ")), _ => format!("[{}]", vs.join(", ")) };
        (ps.join(", "), v)
    }
    fn func(&mut self, d: u32, name: Option<String>) -> String {
        let n = self.r.below(3);
        let f = name.unwrap_or_else(|| self.new_fn());
        let ps: Vec<String> = (0..n).map(|_| self.fresh("x")).collect();
        let k = [K::F0, K::F1, K::F2][n];
        let style = self.r.below(6);
        let mut params = ps.clone();
        if n > 0 && style == 5 { let e = self.e(K::Int, 0); params[n - 1] = format!("{} = {}", ps[n - 1], e) }
        self.scopes.push(ps.iter().map(|p| Var { n: p.clone(), k: K::Int }).collect());
        self.fn_depth += 1; let ld = std::mem::take(&mut self.loop_depth);
        let t = if style == 0 { let e = self.e(K::Int, d.saturating_sub(1)); format!("fn {}({}) -> {};", f, params.join(", "), e) } else {
            self.scopes.push(vec![]);
            let mut b = vec![];
            for _ in 0..1 + self.r.below(3) { b.push(self.stmt(d.saturating_sub(1))) }
            if self.r.chance(1, 4) { if let Some(j) = self.jump() { let c = self.e(K::Bool, 1); b.push(format!("if {} {{ {} }}", c, j)) } }
            b.push(self.e(K::Int, 1));
            self.scopes.pop();
            format!("fn {}({}) {}", f, params.join(", "), self.wrap(b))
        };
        self.fn_depth -= 1; self.loop_depth = ld; self.scopes.pop();
        self.declare(&f, k);
        t
    }

    /// a callback body with effects, which may fail at its k-th invocation
    fn cb_body(&mut self, x: &str, result: &str) -> String {
        let mut s = vec![];
        if self.r.chance(1, 2) { s.push(format!("{};", self.probe(x.into()))) }
        if let (Some(l), true) = (self.var(K::List), self.r.chance(1, 3)) { s.push(format!("if len({}) < 8 {{ {} . push(1); }}", l, l)) }
        if let (Some(v), true) = (self.var(K::Int), self.r.chance(1, 3)) { s.push(format!("{} += 1;", v)) }
        if self.r.chance(1, 5) { s.push("print('cb');".into()) }
        if self.no_fail == 0 && self.p.fail > 0 && self.r.chance(1, 3) { let k = self.r.below(4); let b = self.boom(); s.push(format!("if {} == {} {{ {}; }}", x, k, b)) }
        if self.r.chance(1, 12) && self.no_fail == 0 && self.p.w.iter().any(|w| w.0 == S::Exit) { s.push(format!("if {} == 2 {{ exit; }}", x)) }
        s.push(result.to_string());
        format!("{{ {} }}", s.join(" "))
    }
    /// a callable taking `n` arguments, of any kind the language has.  Returns what must be declared before it
    /// and the expression; `res` is its usual result, `wrong` one its caller may not be able to use
    fn callee(&mut self, n: usize, xs: &[String], res: &str, wrong: &str) -> (String, String) {
        let ps = xs[..n.min(xs.len())].join(", ");
        let c = self.fresh("n");
        let fails = self.no_fail == 0 && self.p.fail > 0;
        let exit = self.p.w.iter().any(|w| w.0 == S::Exit);
        let k = 1 + self.r.below(4);
        let act = match self.r.below(12) {
            0 | 1 if fails => format!("{};", self.boom()),
            2 | 3 | 4 if fails => format!("return {wrong};"),
            5 if exit => "exit;".to_string(),
            6 => if let Some(l) = self.var(K::List) { format!("{l} . clear;") } else { String::new() },
            7 => if let Some(l) = self.var(K::Dict) { format!("{l}['k1'] = {c};") } else { String::new() },
            8 if fails => format!("eval('1 + {}');", self.r.pick(&["nil", "", "qqq"])),
            9 if fails => format!("assert {} == 0 : 'in callback';", c),
            10 if fails => format!("return [1, 2] . map(fn(q) -> if q == 2 then {} else {});", wrong, res),
            _ => String::new(),
        };
        let seen = if self.r.chance(2, 3) { format!("{};", self.probe(if n == 0 { c.clone() } else { format!("[{c}, {ps}]") })) } else { String::new() };
        let (before, after) = if self.r.chance(1, 2) { (seen, String::new()) } else { (String::new(), seen) };
        let body = if act.is_empty() { format!("{{ {c} += 1; {before} {after} {res} }}") } else { format!("{{ {c} += 1; {before} if {c} == {k} {{ {act} }} {after} {res} }}") };
        self.declare(&c, K::Int);
        let pre = format!("let {c} = 0; ");
        match self.r.below(14) {
            0..=3 => (pre, format!("fn({ps}) {body}")),
            4 => { let f = self.fresh("f"); self.declare(&f, K::Any); (format!("{pre}fn {f}({ps}) {body} "), f) }
            5 => { let f = self.fresh("f"); self.declare(&f, K::Any); (format!("{pre}let {f} = memoize(fn({ps}) {body}); "), f) }
            6 => { let f = self.fresh("f"); self.declare(&f, K::Any); (format!("{pre}fn {f}(zz{}{ps}) {body} ", if n > 0 { ", " } else { "" }), if n > 0 { format!("{f}(5)") } else { format!("fn() -> {f}(5)") }) }
            7 if !self.local() => { let t = self.fresh("T"); self.declare(&t, K::Any); let v = self.fresh("v"); self.declare(&v, K::Any); (format!("{pre}struct {t}(qs) {{ fn cb{t}(self{}{ps}) {body} }} let {v} = {t}(3); ", if n > 0 { ", " } else { "" }), format!("{v}->cb{t}")) }
            8 if !self.local() && n > 0 => { let t = self.fresh("T"); self.declare(&t, K::Any); (format!("struct {t}({}) ", (0..n).map(|i| format!("q{}", ['a', 'b', 'c'][i])).collect::<Vec<_>>().join(", ")), t) }
            9 if fails => (String::new(), (*self.r.pick(&["7", "nil", "'f'", "[1]", "(fn() -> 1)", "(fn(a, b, c, d) -> 1)", "{1: 2}"])).to_string()),
            10 => (String::new(), match n { 0 => (*self.r.pick(&["list", "dict", "set", "(fn() -> [])"])).to_string(), 1 => (*self.r.pick(&["len", "str", "list", "set", "abs", "repr", "type", "sum", "bool", "(+ 1)", "(== 2)"])).to_string(), _ => (*self.r.pick(&["(+)", "(-)", "min", "max", "(<)", "(*)"])).to_string() }),
            11 if self.has_mod => (String::new(), match n { 1 => "m->p".to_string(), _ => "m->w".into() }),
            12 => { let f = self.fresh("f"); self.declare(&f, K::Any); (format!("let {f} = eval('fn({ps}) -> {}'); ", res.replace('\\', "\\\\").replace('\'', "\\'")), f) }
            _ => (pre, format!("fn({ps}, *zs) {body}").replace("(, ", "(")),
        }
    }
    fn source(&mut self) -> String {
        match self.r.below(12) {
            0 => format!("range({})", 1 + self.r.below(4)), 1 => "[1, 2, 3]".into(), 2 => "[3, 1, 2, 3]".into(), 3 => "{1, 2, 3}".into(), 4 => "{1: 4, 2: 5}".into(), 5 => "'abca'".into(), 6 => "[[1, 2], [], [3]]".into(), 7 => "(1, 2, 3)".into(),
            8 => self.var(K::List).unwrap_or("[4, 5]".into()), 9 => self.var(K::Set).unwrap_or("[4]".into()), 10 => self.var(K::Dict).unwrap_or("[]".into()), _ => "enumerate([7, 8])".into(),
        }
    }
    /// a library function, a source, and a callable of any kind
    fn callback_any(&mut self) -> String {
        let (x, y) = (self.fresh("x"), self.fresh("x"));
        let xs = [x.clone(), y.clone()];
        let src = self.source();
        let w = *self.r.pick(&["nil", "7", "'w'", "[1, 2]", "true"]);
        let (pre, call) = match self.r.below(14) {
            0 | 1 => { let (p, f) = self.callee(1, &xs, &x, w); (p, format!("{src} . map({f})")) }
            2 => { let (p, f) = self.callee(1, &xs, &format!("{x} != 2"), w); (p, format!("{src} . {}({f})", self.r.pick(&["filter", "any", "all", "find", "rfind", "index_of", "rindex_of"]))) }
            3 => { let (p, f) = self.callee(2, &xs, &format!("[{x}, {y}]"), w); (p, format!("{src} . reduce({f})")) }
            4 => { let (p, f) = self.callee(2, &xs, &format!("{x} + {y}"), w); (p, format!("{src} . reduce({f})")) }
            5 | 6 | 7 => { let w = *self.r.pick(&["nil", "7", "true", "2"]); let (p, f) = self.callee(1, &xs, &format!("[{x}, {x}]"), w); (p, format!("{src} . flat_map({f})")) }
            8 => { let (p, f) = self.callee(1, &xs, &format!("len(str({x}))"), "0"); (p, format!("{src} . {}({f})", self.r.pick(&["min_by", "max_by"]))) }
            9 => { let (p, f) = self.callee(1, &xs, &format!("str({x})"), w); (p, format!("{src} . group_by({f})")) }
            10 => { let w = *self.r.pick(&["nil", "7", "[]"]); let (p, f) = self.callee(1, &xs, &format!("'<' + str({x})"), w); (p, format!("'abcabab' . replace('{}', {f})", self.r.pick(&["a", "b", "ab"]))) }
            11 => { let (p, f) = self.callee(1, &xs, &x, w); (p, format!("{src} . map(fn(qq) -> [qq] . map({f}))")) }
            12 => { let (p, f) = self.callee(1, &xs, &x, w); let (q, g) = self.callee(1, &[y.clone()], &y, w); (p + &q, format!("{src} . map({f}) . map({g})")) }
            _ => { let (p, f) = self.callee(1, &xs, &x, w); (p, format!("{src} . {f}")) }
        };
        match self.r.below(3) { 0 => format!("{pre}{call};"), 1 => format!("{pre}{};", self.probe(call)), _ => { let n = self.new_name(); self.declare(&n, K::Any); format!("{pre}let {n} = {call};") } }
    }
    /// memoised callables of every kind, re-entered, failing, and shared
    fn memo_any(&mut self) -> String {
        let (f, n, g) = (self.new_name(), self.fresh("n"), self.fresh("g"));
        let boom = if self.p.fail > 0 { self.boom() } else { "nil".into() };
        let k = 1 + self.r.below(3);
        match self.r.below(9) {
            // the computation asks for the value it is computing
            0 | 1 => { self.declare(&f, K::F1); let fail = if self.r.chance(1, 3) { format!("if me == {k} {{ {boom}; }} ") } else { String::new() }; let deep = 1 + self.r.below(3); let arg = if self.r.chance(2, 3) { "x" } else { "x + 1" };
                format!("let {n} = 0, {g} = nil; {g} = memoize(fn(x) {{ {n} += 1; let me = {n}; if me <= {deep} {{ {g}({arg}); }} {fail}me * 10 + x }}); let {f} = {g}; {}; {};", self.probe(format!("{f}(1)")), self.probe(format!("[{f}(1), {f}(2), {f}(1), {n}]"))) }
            2 => { self.declare(&f, K::Any); let xs = [self.fresh("x"), self.fresh("x")]; let na = 1 + self.r.below(2); let (p, h) = self.callee(na, &xs, &xs[0], "nil"); let a: Vec<String> = (0..3).map(|_| (0..na).map(|_| (*self.r.pick(&["1", "2", "'a'", "[1, 2]", "(1, 2)", "nil", "[[]]", "{1}"])).to_string()).collect::<Vec<_>>().join(", ")).collect(); format!("{p}let {f} = memoize({h}); {}; {f}({}); {};", self.probe(format!("{f}({})", a[0])), a[1], self.probe(format!("[{f}({}), {f}({}), {f}({})]", a[0], a[1], a[2]))) }
            // two memoised functions over one function are independent
            3 => { self.declare(&f, K::F1); self.declare(&n, K::Int); format!("let {n} = 0, {g} = fn(x) {{ {n} += 1; {n} + x }}; let {f} = memoize({g}), {g}2 = memoize({g}); {};", self.probe(format!("[{f}(1), {g}2(1), {f}(1), {g}2(1), {n}]"))) }
            // a failure stores nothing, and the same call is tried again
            4 => { self.declare(&f, K::F1); self.declare(&n, K::Int); format!("let {n} = 0; let {f} = memoize(fn(x) {{ {n} += 1; {} if {n} <= {k} {{ {boom}; }} x * 2 }});\u{1}{f}(1);\u{1}{f}(1);\u{1}{f}(1);\u{1}{f}(2);", self.probe("[x]".into()) + ";") }
            6 => { self.declare(&f, K::Any); format!("let {f} = memoize(fn(*xs) {{ {}; len(xs) }}); {};", self.probe("xs".into()), self.probe(format!("[{f}(), {f}(1), {f}(1, 2), {f}(), {f}(1), {f}((1, 2)), {f}(1, 2)]"))) }
            7 => { self.declare(&f, K::Any); format!("let {f} = memoize(fn(x, y = {k}) {{ {}; [x, y] }}); {};", self.probe("[x, y]".into()), self.probe(format!("[{f}(1), {f}(1, {k}), {f}(1), {f}(2, 1), {f}(1, 2)]"))) }
            _ => { self.declare(&f, K::Any); format!("fn {g}(a) {{ let cnt = a; memoize(fn(x) {{ cnt += 1; [cnt, x] }}) }} let {f} = {g}({k}), {n} = {g}(50); {};", self.probe(format!("[{f}(1), {n}(1), {f}(1), {f}(2), {n}(2)]"))) }
        }
    }
    /// default functions which touch the dictionary they are the default of
    fn default_any(&mut self) -> String {
        let (f, n) = (self.new_name(), self.fresh("n"));
        self.declare(&f, K::Dict); self.declare(&n, K::Int);
        let boom = if self.p.fail > 0 { self.boom() } else { "nil".into() };
        let k = 1 + self.r.below(3);
        let touch = match self.r.below(9) { 0 | 1 | 2 => format!("{f}['zz'] = {n} * 7;"), 3 => format!("{f} . clear;"), 4 => format!("{f} . remove('k1');"), 5 => format!("{f}['other'] = {n};"), 6 => format!("{f} . default(9);"), 7 => format!("if {n} < 3 {{ {f}['zz']; }}"), _ => format!("if {n} < 3 {{ {f}['deep']; }}") };
        let fail = if self.r.chance(1, 3) { format!("if {n} == {k} {{ {boom}; }}") } else { String::new() };
        let (t1, t2) = if self.r.chance(1, 2) { (touch, fail) } else { (fail, touch) };
        let pre = format!("let {f} = {{'k1': 1}}, {n} = 0; {f} . default(fn() {{ {n} += 1; let me = {n}; {t1} {t2} me + 100 }});");
        match self.r.below(5) {
            0 => format!("{pre}\u{1}{};\u{1}{f}['zz'];\u{1}{f}['other'];", self.probe(format!("{f}['zz']"))),
            1 => format!("{pre}\u{1}{f}['zz'] += 1;\u{1}{};", self.probe(format!("[{f}['zz'], {n}]"))),
            2 => format!("{pre}\u{1}{};\u{1}{};", self.probe(format!("['zz', 'k1', 'zz'] . map(fn(q) -> {f}[q])")), self.probe(f.clone())),
            3 => format!("{pre}\u{1}for q in {f} {{ {}; {f}['zz']; if {n} > 4 {{ break; }} }}", self.probe("q".into())),
            _ => { let (p, h) = self.callee(0, &[], "[]", "nil"); format!("{p}let {n}a = dict() . default({h}); {};\u{1}{};", self.probe(format!("[{n}a[1], {n}a[2], {n}a[1]]")), self.probe(format!("{n}a"))) }
        }
    }
    fn callback(&mut self, d: u32) -> String {
        self.in_callback += 1;
        let l = match self.r.below(4) { 0 => format!("range({})", 1 + self.r.below(4)), 1 => { let n = 2 + self.r.below(3); format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")) } _ => self.e(K::List, d.saturating_sub(1)) };
        let x = self.fresh("x");
        let c = self.int_lit();
        let t = match self.r.below(14) {
            0 | 1 => { let b = self.cb_body(&x, &format!("{} + 1", x)); format!("{} . map(fn({}) {})", l, x, b) }
            2 => { let b = self.cb_body(&x, &format!("{} > {}", x, c)); format!("{} . filter(fn({}) {})", l, x, b) }
            3 => { let b = self.cb_body(&x, &format!("{} + acc", x)); format!("{} . reduce(fn(acc, {}) {})", l, x, b) }
            4 => { let b = self.cb_body(&x, &format!("[{}, {}]", x, x)); format!("{} . flat_map(fn({}) {})", l, x, b) }
            5 => { let b = self.cb_body(&x, &format!("{} > {}", x, c)); format!("{} . {}(fn({}) {})", l, self.r.pick(&["any", "all"]), x, b) }
            6 => { let b = self.cb_body(&x, &format!("{} == {}", x, c)); format!("{} . {}(fn({}) {})", l, self.r.pick(&["find", "index_of"]), x, b) }
            7 => { let b = self.cb_body(&x, &format!("{} % 2", x)); format!("{} . group_by(fn({}) {})", l, x, b) }
            8 => { let b = self.cb_body(&x, &format!("{} + 'z'", x)); let b = b.replace(&format!("if {} == ", x), "if 1 == "); format!("'abcabca' . replace('{}', fn({}) {})", self.r.pick(&["a", "b", "q"]), x, b) }
            9 => if self.r.chance(1, 3) { let b = self.probe(format!("{} . sort_by(fn({}) -> 0 - {})", l, x, x)); b } else { let b = self.cb_body(&x, &format!("0 - {}", x)); format!("{} . {}(fn({}) {})", l, self.r.pick(&["min_by", "max_by"]), x, b) },
            10 => { let b = self.cb_body(&x, &format!("{} + 1", x)); let f = self.fresh("x"); format!("{} . map(fn({}) -> {} . map(fn({}) {}))", l, f, "[1, 2]", x, b) }
            11 => { let (p, q) = (self.fresh("x"), self.fresh("x")); let b = self.cb_body(&p, &format!("{} + {}", p, q)); format!("enumerate({}) . map(fn(({}, {})) {})", l, p, q, b) }
            12 => { let b = self.cb_body(&x, &format!("{} + 1", x)); format!("{} . map(fn({}) {}) . filter(fn(z) -> {} > 1)", l, x, b, self.probe("z".into())) }
            _ => { let b = self.cb_body(&x, "nil"); let f = self.fresh("f"); format!("fn {}({}) {} {} . map({})", f, x, b, l, f) }
        };
        self.in_callback -= 1;
        if t.starts_with("fn ") { return format!("{};", t) }
        if self.r.chance(1, 3) && !t.contains("range(") { let n = self.new_name(); self.declare(&n, K::Any); format!("let {} = {};", n, t) } else if self.has_mod && self.r.chance(1, 2) { format!("m->p({});", t) } else { format!("{};", t) }
    }
    /// the order in which a sort calls its function is up to the library, so only the number of calls
    /// up to the first failure is observable
    fn sort_fail(&mut self) -> String {
        let (c, k) = (self.fresh("n"), 1 + self.r.below(3));
        let n = k + 2 + self.r.below(3);
        let mut l: Vec<String> = (0..n).map(|i| (i * 7 % 11).to_string()).collect();
        if self.r.chance(1, 2) { l.reverse() }
        let b = match self.r.below(3) { 0 => "exit".to_string(), _ => self.boom() };
        let b = if b == "exit" && !self.p.w.iter().any(|w| w.0 == S::Exit) { self.boom() } else { b };
        let after = if self.has_mod { "m->p('call');" } else { "" };
        let f = *self.r.pick(&["sort_by", "sort_by", "min_by", "max_by"]);
        self.declare(&c, K::Int);
        if self.r.chance(1, 3) { format!("let {c} = 0; [{}] . {f}(fn(qq) {{ {c} += 1; {after} if {c} == {k} {{ {b}; }} qq }});", l.join(", ")).replace("m->p('call')", "m->p('key')") }
        else { format!("let {c} = 0; [{}] . {f}(fn(qa, qb) {{ {c} += 1; {after} if {c} == {k} {{ {b}; }} qa - qb }});", l.join(", ")) }
    }
    fn iterate(&mut self, d: u32) -> String {
        let n = 2 + self.r.below(4);
        let kind = self.r.below(4);
        let c = self.fresh("v");
        let lits: Vec<String> = (0..n).map(|i| (i + 1).to_string()).collect();
        let (init, k) = match kind { 0 | 3 => (format!("[{}]", lits.join(", ")), K::List), 1 => (format!("set([{}])", lits.join(", ")), K::Set), _ => (format!("{{{}}}", lits.iter().map(|i| format!("{}: {}", i, i)).collect::<Vec<_>>().join(", ")), K::Dict) };
        self.declare(&c, k);
        let x = self.fresh("i");
        let lim = n + 4;
        let val = match self.r.below(3) { 0 => "9".to_string(), 1 => format!("len({}) + 20", c), _ => "1".into() };
        let at = self.r.below(n + 1);
        let mut muts = vec![];
        for _ in 0..1 + self.r.below(2) {
            muts.push(match k {
                K::List => match self.r.below(8) { 0 => format!("if len({c}) < {lim} {{ {c} . push({val}); }}"), 1 => format!("if len({c}) > 0 {{ {c} . pop; }}"), 2 => format!("if len({c}) > 0 {{ {c} . pop_front; }}"), 3 => format!("{c} . clear;"), 4 => format!("if len({c}) < {lim} {{ {c} . insert(0, {val}); }}"), 5 => format!("if len({c}) > {at} {{ {c} . remove({at}); }}"), 6 => format!("if len({c}) > {at} {{ {c}[{at}] = {val}; }}"), _ => format!("if len({c}) < {lim} {{ {c} . push_front({val}); }}") },
                K::Set => match self.r.below(5) { 0 | 1 => format!("if len({c}) < {lim} {{ {c} . push({val}); }}"), 2 => format!("{c} . remove({});", self.r.below(n + 1)), 3 => format!("{c} . clear;"), _ => format!("if len({c}) > 0 {{ {c} . pop; }}") },
                _ => match self.r.below(6) { 0 | 1 => format!("if len({c}) < {lim} {{ {c}[{val}] = 0; }}"), 2 => format!("{c} . remove({});", self.r.below(n + 1)), 3 => format!("{c} . clear;"), 4 => format!("if len({c}) > 0 {{ {c} . pop; }}"), _ => format!("{c} . insert({}, 7);", 1 + self.r.below(n)) },
            })
        }
        let cond = match self.r.below(4) { 0 => String::new(), 1 => if kind == 2 { format!("if {x}[0] == 2 ") } else { format!("if {x} == 2 ") }, 2 => format!("if len({c}) > 2 "), _ => if kind == 2 { format!("if ({x}[0] % 2) == 1 ") } else { format!("if ({x} % 2) == 1 ") } };
        let m = muts.join(" ");
        let body = if cond.is_empty() { m } else { format!("{}{{ {} }}", cond, m) };
        let body = match self.r.below(3) { 0 => format!("{}; {}", self.probe(x.clone()), body), 1 => format!("{} {};", body, self.probe(x.clone())), _ => format!("{}; {} {};", self.probe(x.clone()), body, self.probe(c.clone())) };
        let _ = d;
        match self.r.below(if k == K::List { 12 } else { 8 }) {
            0..=3 => format!("let {c} = {init}; for {x} in {c} {{ {body} }}"),
            4 => format!("let {c} = {init}; {c} . map(fn({x}) {{ {body} {x} }});"),
            5 => { let w = *self.r.pick(&["filter", "any", "all", "find", "index_of", "flat_map", "group_by", "reduce"]); let r = if w == "flat_map" { "[1]" } else if w == "all" { "true" } else if w == "reduce" { "0" } else { "false" }; let ps = if w == "reduce" { format!("acc, {}", x) } else { x.clone() }; format!("let {c} = {init}; {c} . {w}(fn({ps}) {{ {body} {r} }});") }
            6 => format!("let {c} = {init}; for {x} in {c} {{ {body} for {x} in {c} {{ if len({c}) > {lim} {{ break; }} {}; }} }}", self.probe(x.clone())),
            7 => format!("let {c} = {init}; for qi, {x} in enumerate({c}) {{ {body} {}; }}", self.probe("qi".into())),
            8 => format!("let {c} = {init}; {c} . min_by(fn({x}) {{ {body} 0 - {x} }});"),
            9 => format!("let {c} = {init}; {c} . {}(fn({x}) {{ {body} false }});", self.r.pick(&["rfind", "rindex_of"])),
            10 => format!("let {c} = {init}; {}; ", self.probe(format!("[...{c}, ...({c} . map(fn({x}) {{ {body} {x} }}))]"))),
            _ => format!("let {c} = {init}; {};", self.probe(format!("{c} . sort_by(fn({x}) {{ {c} . clear; 0 - {x} }})"))),
        }
    }
    fn memo(&mut self, d: u32) -> String {
        let f = self.new_name(); let n = self.fresh("n");
        let _ = d;
        match self.r.below(6) {
            0 => { self.declare(&f, K::F1); let x = self.fresh("x"); let b = self.cb_body(&x, &format!("{} * 2", x)); format!("let {f} = memoize(fn({x}) {b}); for qi in [1, 2, 1, 3, 2] {{ {}; }}", self.probe(format!("{f}(qi)"))) }
            1 => { self.declare(&f, K::F1); let x = self.fresh("x"); format!("let {f} = memoize(fn({x}) -> m->v({x})); {}; {};", self.probe(format!("[{f}(1), {f}(2), {f}(1)]")), self.probe(format!("[{f}(2), {f}(3)]"))).replace("m->v", if self.has_mod { "m->v" } else { "(+ 1)" }) }
            2 => { self.declare(&f, K::F1); self.declare(&n, K::Int); let k = 1 + self.r.below(4); let b = self.boom(); format!("let {n} = 0, {f} = memoize(fn(x) {{ {n} += 1; if {n} == {k} {{ {b}; }} {n} * 100 + x }}); {f}(1); {f}(2); {f}(1); {f}(3);") }
            3 => { if self.local() { return self.one(S::Let, 1) } self.declare(&f, K::F1); let k = 2 + self.r.below(5); let b = if self.p.fail > 0 && self.r.chance(1, 2) { self.boom() } else { "1".into() }; format!("@memoize fn {f}(x) {{ {}; if x <= 1 {{ {b} }} else {{ {f}(x - 1) + {f}(x - 2) }} }} {f}({k});", self.probe("x".into())) }
            4 => { self.declare(&f, K::F2); format!("let {f} = memoize(fn(x, y) {{ {}; [x, y] }}); {f}(1, 2); {f}(2, 1); {f}(1, 2) . push(9); {};", self.probe("x".into()), self.probe(format!("{f}(1, 2)"))) }
            _ => { self.declare(&f, K::Any); format!("@memoize fn {f}(x, y) {{ {}; x + y }} {f}(1, 2); {f}(1, 3); {f}(1, 2);", self.probe("y".into())) }
        }
    }
    fn dict_default(&mut self, d: u32) -> String {
        let f = self.new_name(); let n = self.fresh("n"); let _ = d;
        match self.r.below(6) {
            0 => { self.declare(&f, K::Dict); self.declare(&n, K::Int); let k = 1 + self.r.below(4); let b = if self.p.fail > 0 { self.boom() } else { "nil".into() }; format!("let {n} = 0, {f} = {{'k1': 1}} . default(fn() {{ {n} += 1; {}; if {n} == {k} {{ {b}; }} {n} }}); {f}['k1']; {f}['k2']; {f}['k2']; {f}['a']; {f}[3];", self.probe(n.clone())) }
            1 => { self.declare(&f, K::Any); format!("let {f} = dict() . default(list); {f}[1] . push(2); {f}[1] . push(3); {f}[2] . push(4); {};", self.probe(f.clone())) }
            2 => { self.declare(&f, K::Dict); format!("let {f} = dict() . default(0); {f}['a'] += 1; {f}['a'] += 2; {f}['k1'] += 5;") }
            3 => { self.declare(&f, K::Dict); format!("let {f} = dict(); {f} . default(fn() -> {}); {f}['k1'] += 1; {f}['k1'] += 1; {f}['a'];", self.probe("3".into())) }
            4 => { if self.local() { return self.one(S::Let, 1) } self.declare(&f, K::Dict); self.declare(&n, K::Int); format!("let {n} = 0, {f} = dict(); {f} . default(fn() {{ {n} += 1; if {n} < 4 {{ {f}[{n}] + 1 }} else {{ {n} * 10 }} }}); {};", self.probe(format!("{f}['a']"))) }
            _ => { self.declare(&f, K::Any); let dd = self.fresh("n"); self.declare(&dd, K::Int); format!("let {dd} = 0, {f} = dict() . default(fn() {{ {dd} += 1; {f2} }}); [1, 2, 1] . map(fn(q) -> {f}[q]);", f2 = if self.has_mod { format!("m->v({})", dd) } else { dd.clone() }) }
        }
    }
    fn closed(&mut self, d: u32) -> String {
        // an expression without free variables
        let saved = std::mem::replace(&mut self.scopes, vec![vec![], vec![]]); let st = std::mem::take(&mut self.structs); let hm = std::mem::replace(&mut self.has_mod, false);
        let k = *self.r.pick(&[K::Int, K::Int, K::List, K::Str, K::Bool]);
        let (p, l) = (self.fn_depth, std::mem::take(&mut self.loop_depth));
        let e = self.e(k, d);
        self.fn_depth = p; self.loop_depth = l; self.scopes = saved; self.structs = st; self.has_mod = hm;
        e
    }
    pub fn quote(&mut self, s: &str) -> String { format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n")) }
    fn eval(&mut self, d: u32) -> String {
        let mut e = match self.r.below(10) {
            0 => "1 +".to_string(), 1 => "let x = 1".into(), 2 => format!("{}", self.var(K::Int).unwrap_or("nope".into())), 3 => "print('in eval')".into(), 4 => "(fn(a, b) -> a * 10 + b)(4, 5)".into(), 5 => "[1, 2, 3] . map(fn(x) -> x * 2)".into(), 6 => "foo->bar".into(),
            _ => self.closed(d),
        };
        if self.r.chance(1, 8) { e = format!("(fn(a) {{ let b = a; for c in [1, 2] {{ b += c; }} b }})(3) + {}", if self.r.chance(1, 3) { "nil" } else { "1" }) }
        if self.p.fail > 0 && self.no_fail == 0 && self.r.chance(1, 6) { let (t, u) = (self.closed(d), self.closed(1)); let x = if self.r.chance(1, 2) { self.valid_text() } else { u }; e = self.mutate(&one_line(&t), &one_line(&x), "vm", "fm") }
        for _ in 0..self.r.below(3) { let q = self.quote(&e); e = match self.r.below(3) { 0 => format!("eval({})", q), 1 => format!("[eval({}), 5]", q), _ => format!("(fn() -> eval({}))()", q) } }
        let q = self.quote(&e);
        match self.r.below(10) {
            0 => { let n = self.new_name(); self.declare(&n, K::Any); format!("let {} = eval({});", n, q) }
            1 => format!("for qi in [1, 2] {{ {}; {}; }}", self.probe("qi".into()), self.probe(format!("eval({})", q))),
            2 => format!("[1, 2] . map(fn(qi) -> [qi, eval({})]);", q),
            3 => { let f = self.new_fn(); self.declare(&f, K::F1); format!("let {f} = eval('fn(x) -> x + {}'); {};", self.r.below(5), self.probe(format!("{f}(1)"))) }
            4 => { let f = self.new_fn(); self.declare(&f, K::F0); format!("let {f} = eval('fn() {{ let n = 0; fn() {{ n += 1; n }} }}')(); {f}();") }
            5 => format!("print([1, eval({}), 3]);", q),
            6 => { let f = self.new_fn(); self.declare(&f, K::F1); format!("fn {f}(qx) {{ let qy = qx + 1; let qz = eval({q}); {}; qy }} {f}(2);", self.probe("[qx, qy]".into())) }
            7 => { let f = self.new_fn(); self.declare(&f, K::F1); let n = self.r.below(3); format!("let {f} = eval('fn(x) -> [x][{}]'); {f}(4);", n) }
            8 => { let n = self.fresh("v"); self.declare(&n, K::Dict); format!("let {n} = dict() . default(fn() -> eval({q})); {n}[1]; {n}[2];") }
            _ => format!("{};", self.probe(format!("eval({})", q))),
        }
    }
    /// values that hold each other without cycles, some of them released in the middle of a failing statement
    fn acyclic(&mut self) -> String {
        let b = if self.r.chance(1, 3) { self.boom() } else { "nil".into() };
        let n = self.new_name();
        self.declare(&n, K::Any);
        match self.r.below(11) {
            0 => format!("let {n} = [[1, 'a string that is long'], {{'k': [2, 3]}}, (4, [5])]; [{n}, {b}, [6]];"),
            1 => format!("let {n} = [1, 2, 3] . map(fn(x) -> [x, 'text of some length ' + x]); (fn(q) {{ let w = [q, {n}]; {b}; w }})(7);"),
            2 => format!("let {n} = (fn() {{ let c = ['captured text value']; fn() {{ c = [len(c), 'another text value']; c }} }})(); {n}(); {b}; {n}();"),
            3 => format!("let {n} = [fn(x) -> [x], fn(x) {{ let y = [x]; fn() -> y }}]; {n}[1](3)(); {b};"),
            4 => format!("let {n} = 'some text to split into' . split(' ') . map(fn(x) -> x + x) . sort; [...{n}, {b}];"),
            5 => format!("let {n} = dict() . default(list); {n}['a'] . push([1]); {n}['b'] . push('text'); {b}; {n};"),
            6 => format!("let {n} = memoize(fn(x) -> ['memo', x]); {n}(1); {n}([2, 3]); {b}; {n}(1);"),
            7 => format!("let {n} = eval('[fn(x) -> [x, \"text in eval\"], 3]'); {n}[0](4); {b};"),
            8 => format!("let {n} = [3, 1, 2] . sort_by(fn(a, b) {{ {b}; a - b }});"),
            9 => format!("let {n} = (fn(*xs) -> [xs, xs])(1, ['q'], ...[[3], [4]]); print('x', ...{n}, {b});"),
            _ => format!("for q in [[1], [2], [3]] {{ let {n}z = [q, 'inner text value']; if q[0] == 2 {{ {b}; }} {}; }}", self.probe(format!("{n}z"))),
        }
    }
    fn jumps_top(&mut self) -> String {
        let g = self.new_name();
        if !self.local() { self.fuel = self.fuel.max(24) } else if self.fuel < 12 { return self.one(S::Let, 1) }
        let d = 2 + self.r.below(2) as u32;
        let t = if self.r.chance(1, 2) || self.local() { self.jump_fn(&g, d) } else { let b = self.jump_block(&g, d, false); format!("do {b}") };
        self.declare(&g, K::FL);
        format!("let {g} = []; {t}{}", if self.r.chance(1, 2) { format!(" {};", self.probe(format!("({g} . map(fn(g) -> g()))"))) } else { String::new() })
    }
    /// a function (with parameters, maybe a pattern) made of nested loops, called in the middle of an expression
    fn jump_fn(&mut self, g: &str, d: u32) -> String {
        let f = self.fresh("f"); let (a, b) = (self.fresh("x"), self.fresh("x"));
        let pat = self.r.chance(1, 3);
        self.scopes.push(vec![]); self.declare(&a, K::Int); self.declare(&b, K::Int);
        self.fn_depth += 1; let ld = std::mem::take(&mut self.loop_depth);
        let body = self.jump_block(g, d, true);
        self.fn_depth -= 1; self.loop_depth = ld; self.scopes.pop();
        let (params, args) = if pat { (format!("({a}, {b})"), "[1, 2]".to_string()) } else { (format!("{a}, {b}"), "1, 2".to_string()) };
        let call = format!("{f}({args})");
        let use_ = match self.r.below(6) { 0 => format!("print(7, {call}, 8);"), 1 => format!("{};", self.probe(format!("[5, {call}, 6]"))), 2 => format!("{};", self.probe(format!("(10 + ({call} == nil then 1 else 2))").replace("(10 + (", "(10 + (if ").to_string())), 3 => { let v = self.fresh("v"); if self.local() { self.declare(&v, K::Any) } format!("let {v} = [{call}, 3]; {};", self.probe(v.clone())) } 4 => format!("{};", self.probe(format!("{{1: {call}, 2: [{call}]}}"))), _ => format!("{call};") };
        format!("fn {f}({params}) {body} {use_}")
    }
    fn show_locals(&mut self) -> String {
        let v = self.vars(K::Int); let v: Vec<String> = v.into_iter().filter(|n| n.starts_with(|c| "jixyw".contains(c))).collect();
        let n = v.len().min(5);
        self.probe(format!("[{}]", v[..n].join(", ")))
    }
    fn jump_block(&mut self, g: &str, d: u32, value: bool) -> String {
        self.scopes.push(vec![]);
        let mut s = vec![];
        let n = 2 + self.r.below(4);
        for _ in 0..n {
            if self.fuel <= 0 { break }
            self.fuel -= 1;
            match self.r.below(12) {
                0 | 1 => { let v = self.fresh("j"); let e = self.int_lit(); self.declare(&v, K::Int); s.push(format!("let {v} = {e};")) }
                2 => { let (v, w) = (self.fresh("j"), self.fresh("j")); let e = self.e(K::Int, 0); self.declare(&v, K::Int); self.declare(&w, K::Int); s.push(format!("let {v}, {w} = ({e}, {});", self.r.below(9))) }
                3 => { let t = self.show_locals(); s.push(format!("{t};")) }
                4 => { let v: Vec<String> = self.vars(K::Int).into_iter().filter(|n| n.starts_with(|c| "jixy".contains(c))).collect(); if let Some(x) = v.first() { let op = if self.r.chance(1, 2) { format!("{x} += 1") } else { format!("[{}]", v[..v.len().min(2)].join(", ")) }; s.push(format!("if len({g}) < 9 {{ {g} . push(fn() -> {op}); }}")) } }
                5 => { let v: Vec<String> = self.vars(K::Int).into_iter().filter(|n| n.starts_with('j')).collect(); if let Some(x) = v.first() { s.push(format!("{x} += 1;")) } }
                6 | 7 | 8 if d > 0 => s.push(self.jump_loop(g, d)),
                9 if d > 0 => { let t = self.jump_block(g, d - 1, false); s.push(format!("do {t}")) }
                10 if d > 1 && self.r.chance(1, 2) => { let t = self.jump_fn(g, d - 1); s.push(t) }
                _ => { if let Some(j) = self.jump_stmt() { s.push(j) } }
            }
        }
        if self.r.chance(2, 3) { let t = self.show_locals(); s.push(format!("{t};")) }
        if value { s.push(match self.r.below(3) { 0 => "nil".into(), 1 => { let t = self.e(K::Int, 0); t } _ => "4".into() }) }
        self.scopes.pop();
        self.wrap(s)
    }
    fn jump_stmt(&mut self) -> Option<String> {
        let mut c: Vec<String> = vec![];
        if self.loop_depth > 0 { c.push("break;".into()); c.push("break;".into()); if self.loop_depth < 1000 { c.push("continue;".into()); c.push("continue;".into()) } }
        if self.fn_depth > 0 { c.push("return;".into()); let e = self.e(K::Int, 0); c.push(format!("return {e};")) }
        if c.is_empty() { return None }
        let j = self.r.pick(&c).clone();
        Some(match self.r.below(8) { 0 => { let v = self.fresh("j"); format!("if m->c() {{ let {v} = 1; {j} }}") } 1 => format!("if m->c() {{ 3; {j} }} else {{ 4 }}"), 2 => format!("if m->c() {{ if m->c() {{ {j} }} }}"), 3 if self.r.chance(1, 4) => j, _ => format!("if m->c() {{ {j} }}") })
    }
    fn jump_loop(&mut self, g: &str, d: u32) -> String {
        let kind = self.r.below(7);
        let ld = self.loop_depth;
        let mut head = String::new();
        self.scopes.push(vec![]);
        // depth 1000 and more marks a loop in which `continue` would not end
        self.loop_depth = match kind { 4 | 6 => 1000, _ => 1 };
        let w = self.fresh("w");
        let lim = 1 + self.r.below(3);
        let (pre, post) = match kind {
            0 | 1 => { let x = self.fresh("i"); self.declare(&x, K::Int); let it = match self.r.below(4) { 0 => format!("range({lim})"), 1 => "'ab'".into(), _ => "[1, 2, 3]".into() }; if it == "'ab'" { self.scopes.last_mut().unwrap().last_mut().unwrap().k = K::Str } (format!("for {x} in {it} "), String::new()) }
            2 => { let (x, y) = (self.fresh("i"), self.fresh("i")); self.declare(&x, K::Int); self.declare(&y, K::Int); (format!("for {x}, {y} in [[1, 2], (3, 4)] "), String::new()) }
            3 => { head = format!("let {w} = 0; "); (format!("while {w} < {lim} "), String::new()) }
            4 => { head = format!("let {w} = 0; "); ("do ".into(), format!(" while {w} < {lim}")) }
            5 => { head = format!("let {w} = 0; "); ("loop ".into(), String::new()) }
            _ => ("do ".into(), String::new()),
        };
        let b = self.jump_block(g, d - 1, false);
        self.loop_depth = ld; self.scopes.pop();
        // loops with a counter advance it first
        let b = if matches!(kind, 3 | 4 | 5) { let (x, rest) = b.split_at(1); let stop = if kind == 5 { format!(" if {w} > {lim} {{ break; }}") } else { String::new() }; format!("{x} {w} += 1;{stop}{rest}") } else { b };
        let el = if kind != 5 && self.r.chance(1, 2) { let e = self.jump_block(g, d - 1, false); format!(" else {e}") } else { String::new() };
        let end = if !post.is_empty() && el.is_empty() { ";" } else { "" };
        let t = format!("{head}{pre}{b}{post}{el}{end}");
        if head.is_empty() { t } else { self.scopes.last_mut().unwrap().push(Var { n: w, k: K::Int }); t }
    }
    /// several functions on different lines calling each other
    fn chain(&mut self) -> String {
        let fs: Vec<String> = (0..3).map(|_| self.new_fn()).collect();
        let b = self.boom();
        let pad = |g: &mut Gen| -> String { match g.r.below(6) { 0 => "\n".into(), 1 => "// a comment line\n".into(), 2 => if g.p.unicode { "// ünïcödé cömmént 日本語日本語日本語\n".into() } else { "\n\n".into() }, 3 => if g.p.unicode { "let u = '日本語 é é é é é é';\n".into() } else { "".into() }, 4 => "/* block\ncomment */\n".into(), _ => String::new() } };
        let (p1, p2, p3) = (pad(self), pad(self), pad(self));
        for f in &fs { self.declare(f, K::F1) }
        let c = match self.r.below(3) { 0 => format!("[x] . map({})", fs[0]), 1 => format!("{}(\nx\n)", fs[0]), _ => format!("{}(x)", fs[0]) };
        let inner = match self.r.below(3) { 0 => format!("if x > 1 {{\n{}{b};\n}}\nx", p2), 1 => format!("{}let y = x +\n{b};\ny", p2), _ => format!("{}x; {b}", p2) };
        format!("fn {}(x) {{\n{p1}{inner}\n}} fn {}(x) {{\n{p3}let r = {};\nr\n}} fn {}(x) -> {}(x) + 1; {}({});", fs[0], fs[1], c, fs[2], fs[1], fs[2], self.r.below(4))
    }

    pub fn calls(&mut self) -> Option<String> {
        // calls every known closure once, in a random order
        let mut v: Vec<String> = vec![];
        for f in self.vars(K::F0) { v.push(format!("{}()", f)) }
        for f in self.vars(K::F1) { if self.r.chance(1, 2) { v.push(format!("{}({})", f, self.r.below(4))) } }
        for l in self.vars(K::FL) { v.push(format!("({} . map(fn(g) -> g()))", l)) }
        if v.is_empty() { return None }
        for i in (1..v.len()).rev() { let j = self.r.below(i + 1); v.swap(i, j) }
        v.truncate(6);
        Some(format!("[{}]", v.join(", ")))
    }
    pub fn dump(&mut self) -> String {
        let mut v = vec![];
        for x in &self.scopes[0] { if matches!(x.k, K::Int | K::Bool | K::Str | K::List | K::Dict | K::Set | K::Inst) && !v.contains(&x.n) { v.push(x.n.clone()) } }
        if v.len() > 12 { let n = v.len() - 12; v.drain(..n); }
        format!("[{}]", v.join(", "))
    }
    pub fn bad_input(&mut self) -> (String, bool) {
        // the second result says that the text is certainly rejected
        let n = self.fresh("v"); let f = self.fresh("f");
        let ok = one_line(&self.valid_text());
        if self.r.chance(2, 5) { return (self.mutant(&n, &f), true) }
        if self.r.chance(1, 2) {
            let t = self.r.pick(REJECTED).replace("v99", &n).replace("f98", &f);
            return (match self.r.below(4) { 0 => format!("{ok} ; {t}"), 1 => format!("{t} {ok}"), _ => t }, true)
        }
        match self.r.below(16) {
            0 => (format!("let {n} = 3; let {n} = 4;"), true),
            1 => (format!("let {n} = ) ;"), true),
            2 => (format!("{ok} undeclared_thing + 1;"), true),
            3 => (format!("fn {f}(x) {{ x + undeclared_thing; }}"), true),
            4 => (format!("let {n} = [1, 2; 3];"), true),
            5 => (format!("struct Z{n}(a, b) {{ fn go(self) -> self->nofield{n}; }}"), true),
            6 => (format!("{ok} break;"), true),
            7 => (format!("let {n} = 1; fn {f}(x) {{ let y = x; fn g() -> y + {n} }} ] ;"), true),
            8 => (format!("let print = 3;"), true),
            9 => (format!("fn {f}(a, a) {{ a }} let {n} = 5;"), true),
            10 => (format!("{ok} 1 ? 2;"), true),
            11 => (format!("native module mm{n} {{ fn q(x) fn q(y) }}"), true),
            12 => (format!("struct A{n}(x) struct A{n}(y)"), true),
            13 => (format!("let {n} = fn(x) {{ let y = [x, 'text']; fn() {{ y += 1 }} }} let {f} = }};"), true),
            14 => { let v = self.scopes[0].last().map(|v| v.n.clone()).unwrap_or(n.clone()); (format!("{ok} let {v} = 1, {v} = 2;"), true) }
            _ => (format!("for q in [1, 2] {{ print(q) ; let {n} = q; }} else {{ {n} }}"), true),
        }
    }
    /// statements with some of their tokens changed; the closing braces at the end keep the whole from being accepted
    fn mutant(&mut self, n: &str, f: &str) -> String {
        let t = one_line(&self.valid_text()); let u = one_line(&self.valid_text());
        self.mutate(&t, &u, n, f)
    }
    fn mutate(&mut self, t: &str, u: &str, n: &str, f: &str) -> String {
        const ODD: &[&str] = &["0x", "0o", "0b2", "7i", "0b11", "1_0", "'t'", "$", "?", "_", "*_", "... _", "self", "return", "break", "continue", "exit", "(->", "->", "->a", "(-> a)", "[...", "[:", "...", "**=", "max=", ".=", "not in", "is not", "@", "if 1 then", "fn(", "fn", "fn() ->", "native", "module", "struct", "let", "let (", "(,", "()", "[]", "{}", "{:}", "{1:", ",", ", )", "=", "undeclared_m", "if true {", "loop {", "for x in", "while 1 {", "else", "elif", "do {", "} while", "nil", "print", "99999999999999999999", "4611686018427387904", "\"a\"", "'"];
        let cut = |t: &str| -> Vec<String> { let ch: Vec<char> = t.chars().collect(); crate::lang::lex(t).map(|v| v.iter().map(|k| ch[k.start..k.end].iter().collect()).collect()).unwrap_or_default() };
        let (mut a, b) = (cut(t), cut(u));
        if self.r.chance(1, 3) { let k = self.r.below(a.len() + 1); a.truncate(k); let j = self.r.below(b.len() + 1); a.extend(b[j..].iter().cloned()) }
        let edits = 1 + self.r.below(3);
        for _ in 0..edits {
            if a.is_empty() { break }
            let i = self.r.below(a.len());
            let word = match self.r.below(6) { 0 => n.to_string(), 1 => f.to_string(), 2 if !b.is_empty() => self.r.pick(&b).clone(), 3 => (*self.r.pick(crate::lang::OPS)).to_string(), _ => (*self.r.pick(ODD)).to_string() };
            match self.r.below(6) {
                0 => { a.remove(i); }
                1 => { let x = a[i].clone(); a.insert(i, x) }
                2 => { let j = self.r.below(a.len()); a.swap(i, j) }
                3 | 4 => a[i] = word,
                _ => a.insert(i, word),
            }
        }
        if a.iter().filter(|x| *x == "'").count() % 2 == 1 { a.retain(|x| x != "'") }
        format!("{} ;{} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }} }}", a.join(" "), if self.r.chance(1, 2) { " undeclared_thing ;" } else { "" })
    }
    /// source text of a statement that would be fine on its own; nothing from it may survive
    pub fn valid_text(&mut self) -> String {
        let saved = self.scopes.clone(); let st = self.structs.clone(); let (nf, cut) = (self.no_fail, self.fuel);
        self.fuel = 12; let s = *self.r.pick(&[S::Let, S::Fn, S::Closure, S::Print, S::Callback, S::LetMany, S::For, S::Struct]);
        let t = self.one(s, 2);
        self.scopes = saved; self.structs = st; self.no_fail = nf; self.fuel = cut;
        t
    }
    /// cuts a complete text into lines at places where what came before is certainly incomplete
    pub fn cut(&mut self, t: &str, chance: (u32, u32)) -> String {
        let Ok(toks) = crate::lang::lex(t) else { return t.into() };
        use crate::lang::Tok;
        let mut out = String::new(); let (mut depth, mut hole) = (0i32, None);
        let ch: Vec<char> = t.chars().collect();
        let mut at = 0;
        for (i, k) in toks.iter().enumerate() {
            out.extend(&ch[at..k.end]); at = k.end;
            if let Tok::Op(o) = &k.t { match *o { "(" | "[" | "{" => depth += 1, ")" | "]" | "}" => depth -= 1, _ => {} } }
            let Some(nx) = toks.get(i + 1) else { break };
            hole = hole.map(|h: i32| h.min(depth));
            // `_` and `*` on the left of an assignment are only known to be a pattern once the `=` is there
            match &k.t { Tok::Id(x) if x == "_" => hole = Some(hole.unwrap_or(depth)), Tok::Op("*") if i == 0 || matches!(&toks[i - 1].t, Tok::Op("," | "(" | ";" | "{" | "}")) => hole = Some(hole.unwrap_or(depth)), Tok::Op("->") if i > 0 && !matches!(&toks[i - 1].t, Tok::Op(")")) => {} Tok::Op("=") if hole.map_or(false, |h| depth > h) => {} Tok::Op("=" | ";" | "{" | "->") | Tok::Kw("in") => hole = None, _ => {} }
            if hole.is_some() { continue }
            let suffix = matches!(&nx.t, Tok::Op("(") | Tok::Op("[")) || matches!(&k.t, Tok::Id(_) | Tok::Int(_) | Tok::Str(_) | Tok::Kw("nil" | "true" | "false" | "self") | Tok::Op(")" | "]")) && matches!(&nx.t, Tok::Id(_) | Tok::Int(_) | Tok::Str(_) | Tok::Kw("nil" | "true" | "false" | "exit" | "if" | "fn")) || matches!(&k.t, Tok::Id(x) if x == "max" || x == "min") && nx.t == Tok::Op("=");
            let dangling = matches!(&k.t, Tok::Op("=") | Tok::Op("+") | Tok::Op("+=") | Tok::Op("-=") | Tok::Op(".") | Tok::Op("->") | Tok::Op(",") | Tok::Kw("let") | Tok::Kw("fn") | Tok::Kw("in") | Tok::Kw("if") | Tok::Kw("and") | Tok::Kw("or") | Tok::Kw("struct") | Tok::Kw("for") | Tok::Kw("while") | Tok::Kw("assert") | Tok::Kw("then") | Tok::Kw("else"));
            // `return` and `break` must keep their line; a suffix may not begin a line
            if (depth > 0 || dangling) && !suffix && !matches!(&k.t, Tok::Kw("return")) && self.r.chance(chance.0, chance.1) {
                out.push_str(*self.r.pick(&["\n", "\n", "\n", "\n\n", "\n// note\n", " \n", "\r\n", "\n  "]))
            }
        }
        out.extend(&ch[at..]);
        out
    }
}

/// texts which are always rejected; `v99` and `f98` stand for fresh names
const REJECTED: &[&str] = &[
    r#"let *v99, *v98 = [1];"#,
    r#"print(_);"#,
    r#"let v99 = [1, _];"#,
    r#"struct Zv99(a, a)"#,
    r#"fn f98() { struct Zv99(a) }"#,
    r#"fn f98() { module Zv99 { fn g() -> 1 } }"#,
    r#"fn f98(a, *b, c) -> a"#,
    r#"fn f98(a = 1, b) -> a"#,
    r#"let v99 = 3; 1 += 2;"#,
    r#"let v99 = 3; len = 3;"#,
    r#"print(3) = 2;"#,
    r#"let _ = 3;"#,
    r#"let *v99 = [1];"#,
    r#"let v99, 3 = 4;"#,
    r#"fn f98() -> self"#,
    r#"let v99 = [...[1]:2];"#,
    r#"print((+ ...[1]));"#,
    r#"print((...[1] +));"#,
    r#"[1]->nofieldv99;"#,
    r#"struct Zv99(a) { let x = 3 }"#,
    r#"@ 5 let v99 = 3;"#,
    r#"fn f98 5;"#,
    r#"fn f98(x y) { x }"#,
    r#"fn f98(x) 5"#,
    r#"if true { let v99 = 1; } else 5;"#,
    r#"let v99 = 3 $ 4;"#,
    r#"let v99 = 0x;"#,
    r#"let v99 = 99999999999999999999;"#,
    r#"fn f98() { return 5 } } ;"#,
    r#"let v99 = 0; else { let v98 = 1; }"#,
    r#"for in [1] { let v99 = 2; }"#,
    r#"fn f98() { let a = 1; fn a() -> 2 }"#,
    r#"native module mmv99 { fn q(x, x) }"#,
    r#"struct Zv99(a) { fn a() -> 1 }"#,
    r#"let v99 = (1, 2 ];"#,
    r#"let v99 = {1, 2: 3};"#,
    r#"let v99 = {1: 2, 3};"#,
    r#"fn f98((a, a)) -> a"#,
    r#"fn f98(self) -> 1"#,
    r#"module Zv99(a) { fn g() -> 1 }"#,
    r#"let v99 = 1 + ;"#,
    r#"let v99 = if 1 then 2;"#,
    r#"let v99 = fn(x) -> x + undeclared_q;"#,
    r#"for q, q in [(1, 2)] { print(q) }"#,
    r#"let v99 = 3; [1]->(3);"#,
    r#"let v99 = 1; (v99, 5) = (1, 2);"#,
    r#"let v99 = 1; v99, v99() = 1, 2;"#,
    r#"fn f98() { let v99 = (fn() { let w = 1; fn() -> w + undeclared_w })(); }"#,
    r#"let v99 = print(1 2;"#,
    r#"let v99 = [1:...[2]];"#,
    r#"let v99 = [1:2:...[3]];"#,
    r#"let v99 = {1: ...[2]};"#,
    r#"let v99 = {...[1], 2: ...[2]};"#,
    r#"let v99 = 3; return 3;"#,
    r#"do { let v99 = 3; return }"#,
    r#"let v99 = 0o7;"#,
    r#"0o"#,
    r#"continue;"#,
    r#"let v99 = [1]; v99[...[0]];"#,
    r#"let v99 = ...[1];"#,
    r#"fn f98(a = ...[1]) -> a"#,
    r#"fn f98() { let w = 1; fn() { w = 2; break } }"#,
    r#"let v99 = 1; v99[0] -> ;"#,
    r#"let v99 = 'x' % ] ;"#,
    r#"fn f98() { fn g98() { let u = 1; do { return u + undeclared_u } } }"#,
    r#"let v99 = 3; fn f98(x = undeclared_x) -> x"#,
    r#"struct Zv99(a, b) { fn m98(self) -> self->a  fn n98(self) -> undeclared_y }"#,
    r#"module Zv99 { fn m98() -> undeclared_z  fn n98() -> m98() }"#,
    r#"f98 = 3;"#,
    r#"let v99 = 1; v99, f98 = 2, 3;"#,
];

/// the same text on one line, without its line comments
pub fn one_line(t: &str) -> String { t.split('\n').map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ") }

/// Builds one complete scenario for a profile.
pub fn session(property: &str, seed: u64, p: Prof, mode: &str) -> Scenario {
    session_in(Scenario { property: property.into(), seed, mode: mode.into(), ..Scenario::default() }, p, None)
}
pub fn session_in(mut sc: Scenario, p: Prof, info: Option<crate::procgen::Info>) -> Scenario {
    let seed = sc.seed; let mode = sc.mode.clone(); let mode = mode.as_str();
    let mut g = Gen::new(seed, p);
    sc.plan.seed = g.r.next() >> 16;
    let mut m = if sc.proc.is_some() { crate::proc::model_of(&sc, vec![], None) } else { Model::new(&sc.plan) };
    let script = mode == "script" || mode == "script-o" || mode == "p:script";
    m.repl = !script;
    let mods = info.as_ref().map(crate::procgen::modules).unwrap_or_default();
    g.w = info;
    let mut mark = 0;
    let n = g.r.range(g.p.n.0, g.p.n.1);
    let web = mode == "web";
    if web { m.plan.web = true; sc.plan.web = true }
    let mut push = |g: &mut Gen, m: &mut Model, sc: &mut Scenario, kind: &str, text: String| -> End {
        let lines: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
        let t = lines.join("\n") + "\n";
        sc.inputs.push(Input { kind: kind.into(), lines });
        if kind == "bad" { if mode == "p:repl" { mark += 1; sc.inputs.push(Input { kind: "ok".into(), lines: vec![format!("print('@@{}');", mark)] }) } return End::Rejected }
        m.reset_steps();
        let calls = m.ffi_calls;
        if g.r.chance(g.p.ffi_fail, 100) { let k = calls + g.r.below(4) as u64; m.plan.fail.push(k); sc.plan.fail.push(k) }
        let r = m.run("<stdin>", &t);
        // a planned failure that was not reached is forgotten, so that later inputs decide for themselves
        let now = m.ffi_calls; m.plan.fail.retain(|k| *k < now); sc.plan.fail.retain(|k| *k < now);
        let names = m.global_names();
        let gone: Vec<String> = g.scopes[0].iter().filter(|v| !names.contains(&v.n)).map(|v| v.n.clone()).collect();
        g.scopes[0].retain(|v| names.contains(&v.n));
        for x in gone { if x.starts_with('v') && !g.failed.contains(&x) && g.r.chance(2, 3) { g.failed.push(x) } }
        g.structs.retain(|s| names.contains(&s.0));
        if mode == "p:repl" && matches!(r.end, End::Error(_) | End::Rejected) { mark += 1; sc.inputs.push(Input { kind: "ok".into(), lines: vec![format!("print('@@{}');", mark)] }) }
        r.end
    };
    let head = "native module m { fn p(x) fn c() fn v(a, b?) fn w(x, *rest) }";
    push(&mut g, &mut m, &mut sc, "ok", head.to_string());
    if g.r.chance(3, 4) { let t = "let v0 = 5, vl = [3, 1, 2], vd = {'k1': 1, 'a': 2}, vs = {1, 2, 3};".to_string(); for (n, k) in [("v0", K::Int), ("vl", K::List), ("vd", K::Dict), ("vs", K::Set)] { g.declare(n, k) } push(&mut g, &mut m, &mut sc, "ok", t); }
    if !mods.is_empty() { push(&mut g, &mut m, &mut sc, "ok", mods); }
    if script {
        // one program: later statements are generated without knowing whether earlier ones fail
        let mut all: Vec<String> = sc.inputs.iter().map(|i| i.lines.join("\n")).collect();
        for _ in 0..n { g.fuel = 40; let d = g.p.depth; let s = g.stmt(d).replace('\u{1}', " "); let s = if g.r.chance(g.p.cut, 100) { g.cut(&s, (1, 6)) } else { s }; all.push(s); if g.r.chance(g.p.dump, 100) { all.push(format!("print({});", g.dump())); } if g.r.chance(1, 5) { if let Some(c) = g.calls() { all.push(format!("print({});", c)) } } }
        sc.inputs = all.into_iter().map(|t| Input { kind: "ok".into(), lines: t.split('\n').map(|s| s.to_string()).collect() }).collect();
        if g.p.reject > 0 && g.r.chance(g.p.reject, 100) { let k = 1 + g.r.below(sc.inputs.len()); let (t, _) = g.bad_input(); sc.inputs.insert(k, Input { kind: "bad".into(), lines: t.split('\n').map(|s| s.to_string()).collect() }) }
        if sc.proc.is_some() { return sc }
        // decide about a failing foreign call by running the program once
        let mut m = Model::new(&sc.plan); m.repl = false; m.budget = 60_000;
        if g.r.chance(g.p.ffi_fail, 100) {
            let text = sc.inputs.iter().map(|i| i.lines.join("\n")).collect::<Vec<_>>().join("\n") + "\n";
            m.run("main.cor", &text);
            if m.ffi_calls > 0 { let k = g.r.below(m.ffi_calls as usize) as u64; sc.plan.fail.push(k) }
        }
        return sc
    }
    for _ in 0..n {
        if g.r.chance(g.p.reject, 100) {
            let (t, _) = g.bad_input();
            push(&mut g, &mut m, &mut sc, "bad", t);
        } else {
            g.fuel = 40;
            let mut parts = vec![];
            let k = 1 + g.r.below(g.p.stmts_per_input);
            for _ in 0..k { let d = g.p.depth; let s = g.stmt(d); parts.push(s) }
            // a statement that begins with a brace or bracket could continue the one before it; ours never do
            let mut t = parts.join(" ");
            if t.contains('\u{1}') {
                // some statements are meant to be separate inputs, so that each can fail by itself
                let mut v: Vec<&str> = t.split('\u{1}').collect(); let last = v.pop().unwrap().to_string(); let mut end = false;
                for x in v { match push(&mut g, &mut m, &mut sc, "ok", x.to_string()) { End::Exit => { end = true; break } End::Abort(_) => { sc.inputs.pop(); end = true; break } _ => {} } }
                if end { break }
                t = last;
            }
            if g.r.chance(g.p.cut, 100) { t = g.cut(&t, (1, 5)) }
            match push(&mut g, &mut m, &mut sc, "ok", t) { End::Exit => break, End::Abort(_) => { sc.inputs.pop(); break } _ => {} }
        }
        if g.r.chance(g.p.dump, 100) { let t = g.dump(); if let End::Abort(_) = push(&mut g, &mut m, &mut sc, "ok", t) { sc.inputs.pop(); break } }
        if g.r.chance(g.p.dump, 150) { if let Some(t) = g.calls() { match push(&mut g, &mut m, &mut sc, "ok", t) { End::Abort(_) => { sc.inputs.pop(); break } End::Exit => break, _ => {} } } }
    }
    sc
}
