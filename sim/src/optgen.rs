//! Scripts for comparing a program compiled with and without the optimiser: expressions in which constant
//! parts, operators, sections, compositions and partial applications are mixed with visible effects
//! (native calls, output, assignments, mutation, exit).  They terminate by construction.
use crate::plan::Plan;
use crate::rng::{mix, Rng};
use crate::scen::{Input, Scenario};

#[derive(Clone, Copy, PartialEq)]
enum K { I, B, S, L, F, A }
struct G { r: Rng, wild: u32, effects: u32, locals: Vec<String>, ints: Vec<String>, n: usize, in_fn: bool, fns: Vec<String>, late: Vec<String>, insts: Vec<String> }

const INT_OPS: &[&str] = &["+", "-", "*", "+", "-", "%", "/", "**", "&", "|", "^", "<<", ">>"];
const CMP_OPS: &[&str] = &["<", "<=", ">", ">=", "==", "!="];

impl G {
    fn clean(&self) -> bool { self.wild == 0 }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn k(&mut self) -> K { *self.r.pick(&[K::I, K::I, K::I, K::B, K::S, K::L, K::F]) }
    fn ilit(&mut self) -> String { (*self.r.pick(&["0", "1", "2", "3", "5", "7", "-1", "-4", "10"])).to_string() }
    fn e(&mut self, k: K, d: u32) -> String {
        let k = if k == K::A || self.r.chance(self.wild, 100) { self.k() } else { k };
        if self.r.chance(self.effects, 100) {
            let x = if self.r.chance(1, 400) { "exit".to_string() } else {
                let i = self.e0(k, d.saturating_sub(1));
                match self.r.below(8) {
                    0 => format!("({} . m->p)", i),
                    1 if k == K::I => { let v = self.int_var(); format!("({} = {})", v, i) }
                    2 if k == K::I => { let (v, o) = (self.int_var(), *self.r.pick(&["+", "-", "*"])); format!("({} {}= {})", v, o, i) }
                    3 if k == K::L => format!("(gpush({}) . repr . m->p . fn(q) -> {})", self.n, i),
                    4 if k == K::B => "m->c()".into(),
                    _ => format!("m->p({})", i),
                }
            };
            return x
        }
        self.e0(k, d)
    }
    /// a bound of a slice: never a huge number
    fn bound(&mut self) -> String { if self.r.chance(self.wild, 30) { return self.e(K::S, 0) } let i = self.ilit(); match self.r.below(4) { 0 => format!("m->p({})", i), 1 => format!("({} + 1)", i), _ => i } }
    fn int_var(&mut self) -> String { let v = if !self.locals.is_empty() && self.r.chance(2, 3) { &self.locals } else { &self.ints }; self.r.pick(v).clone() }
    fn e0(&mut self, k: K, d: u32) -> String {
        let deep = d > 0;
        let d = d.saturating_sub(1);
        if deep && self.r.chance(1, 9) { let (c, a, b) = (self.e(K::B, d), self.e(k, d), self.e(k, d)); return format!("(if {} then {} else {})", c, a, b) }
        match k {
            K::I => match if deep { self.r.below(19) } else { self.r.below(3) } {
                0 => self.ilit(), 1 => self.int_var(), 2 => self.ilit(),
                3 | 4 => { let (a, b, o) = (self.e(K::I, d), self.e(K::I, d), *self.r.pick(INT_OPS)); let b = if matches!(o, "**" | "<<" | ">>") { self.r.below(4).to_string() } else if self.clean() && matches!(o, "/" | "%") { "3".into() } else { b }; format!("({} {} {})", a, o, b) }
                5 => { let a = self.e(K::I, d); format!("({}{})", self.r.pick(&["-", "~", "-"]), a) }
                6 | 7 => { let (a, f) = (self.e(K::I, d), self.f(d)); format!("({} . {})", a, f) }
                8 => { let (a, f) = (self.e(K::I, d), self.f(d)); format!("({}({}))", f, a) }
                9 => { let (a, b, o) = (self.e(K::I, d), self.e(K::I, d), *self.r.pick(&["+", "*", "-", "%", "/", "&", "|", "^"])); let (a, b) = if self.clean() && matches!(o, "/" | "%") { (format!("({} + 0 * m->p(0))", a), "4".to_string()) } else { (a, b) }; match self.r.below(4) { 0 => format!("({})({}, {})", o, a, b), 1 => format!("({})({})({})", o, a, b), 2 => format!("({} {})({})", o, a, b), _ => format!("({} . ({})({}))", a, o, b) } }
                10 => { let (l, i) = (self.e(K::L, d), self.e(K::I, 0)); match self.r.below(3) { 0 => format!("({} . [{}])", l, i), 1 => format!("{}[{}]", l, i), _ => format!("({} . [0])", l) } }
                11 => { let l = self.e(K::L, d); (*self.r.pick(&["sum(L)", "len(L)", "(L . len)", "(L . sum)", "max(L)", "(L . reduce(+))", "reduce(*)(L)", "(L . reduce(*))"])).replace('L', &l) }
                13 => { let (x, b, c) = (self.e(K::I, d), self.e(K::I, d), self.e(K::I, d)); let (o, q) = (*self.r.pick(&["+", "*", "-", "&", "|", "^"]), *self.r.pick(&["+", "*", "-"])); match self.r.below(4) { 0 if !self.clean() => format!("({x} . (({o})({b}, {c})))"), 1 => format!("({x} . (({o})({b} {q} {c})))"), 2 => format!("({x} . ({o} ({b} . ({q} {c}))))"), _ => format!("({x} . ({b} {o}) . ({q} {c}))") } }
                14 => { let n = self.native(d); n }
                15 if !self.insts.is_empty() => { let i = self.r.pick(&self.insts.clone()).clone(); let e = self.e(K::I, d); match self.r.below(8) { 0 => format!("{i}->pa"), 1 => format!("({i}->pa = {e})"), 2 => format!("({i}->pb += {e})"), 3 => format!("{i}->ma({e})"), 4 => format!("({e} . {i}->ma)"), 5 => format!("(P->ma({i}, {e}))"), 6 => format!("({i} . (->pb))"), _ => format!("({e} . P->mb)") } }
                16 if !self.late.is_empty() => { let f = self.r.pick(&self.late.clone()).clone(); let e = self.e(K::I, d); if self.r.chance(1, 2) { format!("{f}({e})") } else { format!("({e} . {f})") } }
                12 => { let l = self.e(K::L, d); format!("sum(...{})", l).replace("sum(...", if self.r.chance(1, 2) { "max(..." } else { "min(1, ..." }) }
                _ => (*self.r.pick(&["min(int)", "max(int)", "(int . min)", "int('12')", "(min(int) - 1)", "('ab' . len)", "(1 + 2 * 3)", "(4 . (- 1))", "(2 . (1 +))", "-5", "0x1f"])).into(),
            },
            K::B => match if deep { self.r.below(8) } else { self.r.below(2) } {
                0 => "true".into(), 1 => "false".into(),
                2 => { let (a, b, o) = (self.e(K::I, d), self.e(K::I, d), *self.r.pick(CMP_OPS)); match self.r.below(4) { 0 => format!("({})({}, {})", o, a, b), 1 => format!("({} . ({} {}))", a, o, b), 2 => format!("({} {})({})", o, a, b), _ => format!("({} {} {})", a, o, b) } }
                3 => { let (a, b, c, o, p) = (self.e(K::I, d), self.e(K::I, d), self.e(K::I, d), *self.r.pick(CMP_OPS), *self.r.pick(CMP_OPS)); format!("({} {} {} {} {})", a, o, b, p, c) }
                4 => { let (a, b) = (self.e(K::B, d), self.e(K::B, d)); format!("({} {} {})", a, self.r.pick(&["and", "or"]), b) }
                5 => { let a = self.e(K::B, d); format!("(not {})", a) }
                6 => { let (a, b, o) = (self.e(K::I, d), self.e(K::L, d), *self.r.pick(&["in", "not in"])); match self.r.below(3) { 0 => format!("({} . ({} {}))", a, o, b), _ => format!("({} {} {})", a, o, b) } }
                _ => { let (a, t, o) = (self.e(K::A, d), *self.r.pick(&["int", "str", "list", "any", "function", "iterable"]), *self.r.pick(&["is", "is not"])); match self.r.below(3) { 0 => format!("({} . ({} {}))", a, o, t), _ => format!("({} {} {})", a, o, t) } }
            },
            K::S => match if deep { self.r.below(6) } else { self.r.below(2) } {
                0 => "'a'".into(), 1 => "'xy'".into(),
                2 => { let (a, b) = (self.e(K::S, d), self.e(K::A, d)); format!("({} + {})", a, b) }
                3 => { let (a, b) = (self.e(K::S, d), self.r.below(4)); format!("({} * {})", a, b) }
                4 => { let a = self.e(K::A, d); format!("({} . {})", a, self.r.pick(&["repr", "str", "typeof . repr"])) }
                _ => { let (a, b) = (self.e(K::S, d), self.bound()); (*self.r.pick(&["(S . [0])", "(S . to_upper)", "S[-1:]", "(S . [:1])", "(S . [::-1])", "(S . split(''))[0]", "(S . [I:])"])).replace('S', &a).replace('I', &b) }
            },
            K::L => match if deep { self.r.below(9) } else { self.r.below(3) } {
                0 => "[1, 2, 3]".into(), 1 => "gl".into(), 2 => "[]".into(),
                3 => { let n = self.r.below(4); let v: Vec<String> = (0..n).map(|_| self.e(K::I, d)).collect(); format!("[{}]", v.join(", ")) }
                4 => { let (a, l) = (self.e(K::I, d), self.e(K::L, d)); format!("[{}, ...{}]", a, l) }
                5 => { let (l, f) = (self.e(K::L, d), self.f(d)); match self.r.below(4) { 0 => format!("({} . map({}))", l, f), 1 => format!("map({}, {})", f, l), 2 => format!("map({})({})", f, l), _ => format!("(map({}) . fn(mm) -> mm({}))", f, l) } }
                6 => { let (l, f) = (self.e(K::L, d), self.f(d)); format!("({} . filter({}))", l, f) }
                7 => { let (l, a, b) = (self.e(K::L, d), self.bound(), self.bound()); (*self.r.pick(&["(L . [A:])", "(L . [:B])", "(L . [A:B])", "(L . [::2])", "L[A:B:1]", "(L . [A:B:1])", "L[A:]"])).replace('L', &l).replace('A', &a).replace('B', &b) }
                _ => { let (a, b) = (self.e(K::I, d), self.e(K::I, d)); if self.r.chance(1, 3) { format!("list(set({}, {}))", a, b) } else { format!("({}, {})", a, b) } }
            },
            K::F => self.f(d),
            K::A => unreachable!(),
        }
    }
    /// native functions which are called with some of their arguments first
    fn native(&mut self, d: u32) -> String {
        let (i, j) = (self.e(K::I, d), self.e(K::I, d));
        match self.r.below(11) {
            8 | 9 => { let (f, l) = (self.f(d), self.e(K::L, d)); match self.r.below(9) {
                0 => format!("len(map(...[{f}])({l}))"), 1 => format!("len(insert(...[0])({i}, gl . copy))"), 2 => format!("len(insert(...[0, {i}])([{j}]))"), 3 => format!("(-)(...[{i}])({j})"), 4 => format!("len(insert({i})(...[{j}, ({l} . copy)]))"),
                5 => format!("len(insert(...[0], {i})(...[{l} . copy]))"), 6 => format!("len(map({f})(...[{l}]))"), 7 => format!("reduce(...[(fn(q, w) -> q - w)])(...[[{i}, {j}, 2]])"), _ => format!("len(insert(...[0, {i}], {l} . copy)(1))"),
            } }
            0 => format!("([1, 2] . push({i}) . len)"), 1 => format!("len(push({i})(gl . copy))"), 2 => format!("len(insert(0)({i}, gl . copy))"), 3 => format!("([3, 4] . insert(0, {i}) . len)"),
            4 => { let f = self.f(d); let l = self.e(K::L, d); format!("len(map({f})({l}))") }
            5 => { let f = self.f(d); let l = self.e(K::L, d); format!("({l} . filter({f}) . len)") }
            6 => { let s = self.e(K::S, d); format!("len(replace({s} . fn(q) -> 'x')('b', {s}))") }
            7 => { let s = self.e(K::S, d); format!("({s} . replace('a')('b' . m->p) . typeof . repr . len)") }
            _ => { let l = self.e(K::L, d); format!("(reduce((fn(q, w) -> m->p(q) * {i} % 50 - w))({j} . fn(q) -> [q, 1, 2] + {l}))") }
        }
    }
    /// something that is called with one argument
    fn f(&mut self, d: u32) -> String {
        if self.r.chance(self.wild, 200) { return match self.r.below(6) { 0 => "exit".into(), 1 => self.e(K::I, d), 2 => "[]".into(), 3 => "[1, 2]".into(), 4 => { let a = self.e(K::L, d); format!("[{}]", a) } _ => self.e(K::L, d) } }
        match if d > 0 { self.r.below(14) } else { self.r.below(4) } {
            0 => "m->p".into(),
            12 => { let (a, b) = (self.f(d - 1), self.f(d - 1)); let c = self.e(K::B, d - 1); match self.r.below(4) { 0 => format!("({a} or {b})"), 1 => format!("({a} and {b})"), 2 => format!("(nil or {a})"), _ => format!("(({c}) and {a} or {b})") } }
            13 => { let (a, b) = (self.e(K::I, d - 1), self.e(K::I, d - 1)); match self.r.below(5) { 0 => format!("(fn(q, r = {a}) -> q * 2 - r)"), 1 => format!("(fn(q, r) -> q - r)({a})"), 2 => format!("(fn(q, *r) -> q + len(r))"), 3 => format!("push({a}) . fn(g) -> fn(q) -> len(g([q, {b}]))").replacen("push", "(push", 1) + ")", _ => "((fn(q) -> fn(r) -> m->p(q) + r)(m->p(1)))".into() } }
            1 => { let o = *self.r.pick(&["+", "*", "-", "<", "==", "%", "**", "in", "not in", "is", ">="]); let b = if o.contains("in") { "[1, 2]".into() } else if o == "is" { "int".into() } else if self.clean() && matches!(o, "%" | "**") { "3".into() } else { self.ilit() }; format!("({} {})", o, b) }
            2 => (*self.r.pick(&["repr", "str", "abs", "print", "typeof", "int", "bool", "(-)", "(!)", "(not)", "list"])).replace("(not)", "(!)"),
            3 => { let f = self.fns.clone(); if f.is_empty() { "(fn(x) -> x)".into() } else { self.r.pick(&f).clone() } }
            4 => { let (o, b) = (*self.r.pick(&["+", "*", "-", "/", "<", ">=", "=="]), self.e(K::I, d - 1)); let b = if self.clean() && o == "/" { "7".into() } else { b }; format!("({} {})", o, b) }
            5 => { let (o, b) = (*self.r.pick(if self.clean() { &["+", "*", "<", "==", "&", "|"] } else { &["+", "*", "/", "<", "==", "%"] }), self.e(K::I, d - 1)); format!("({} {})", b, o) }
            6 => { let b = self.e(K::I, d - 1); let o = *self.r.pick(if self.clean() { &["+", "*", "|", "-", "<"] } else { &["+", "*", "/", "-", "<"] }); format!("({})({})", o, b) }
            7 => { let x = self.fresh("x"); self.locals.push(x.clone()); let (e, o) = (self.e(K::I, d - 1), std::mem::replace(&mut self.in_fn, true)); self.locals.pop(); self.in_fn = o; format!("(fn({}) -> {})", x, e) }
            8 => { let f = self.f(d - 1); format!("m->p({})", f) }
            9 => { let (c, a, b) = (self.e(K::B, d - 1), self.f(d - 1), self.f(d - 1)); format!("(if {} then {} else {})", c, a, b) }
            10 => { let (f, g) = (self.f(d - 1), self.e(K::I, d - 1)); let _ = f; format!("add2({})", g) }
            _ => { let a = self.e(K::L, 0); format!("{}", (*self.r.pick(&["(. 1)", "add2(1)", "(add2 . fn(g) -> g(2))", "(in L)"])).replace("(. 1)", "add2(3)").replace('L', &a)) }
        }
    }
    fn stmt(&mut self, out: &mut Vec<String>, ind: &str, depth: u32) {
        let d = 1 + self.r.below(3) as u32;
        match self.r.below(19) {
            18 if depth < 2 => {
                // variables of one, two or no functions further out, assigned and used right after one another
                let (f, a, b, c) = (self.fresh("f"), self.fresh("a"), self.fresh("b"), self.fresh("c"));
                let (p, q, e0) = (self.e(K::I, 1), self.e(K::I, 1), self.e(K::I, 1));
                let ls = std::mem::take(&mut self.locals); let o = std::mem::replace(&mut self.in_fn, true);
                let mut vs = vec![a.clone(), b.clone(), c.clone()];
                let mut seq = |g: &mut G, vs: &[String], n: usize| -> String {
                    let mut t = String::new();
                    for _ in 0..n {
                        let (v, w, u) = (g.r.pick(vs).clone(), g.r.pick(vs).clone(), g.r.pick(vs).clone());
                        let i = g.ilit();
                        t += &match g.r.below(10) { 0 => format!("{v} = {w}; {u} . m->p; "), 1 => format!("{v} = {i}; {u} += {w}; "), 2 => format!("{v} += {i}; {w} = {u}; "), 3 => format!("{v}; {w}; {i}; "), 4 => format!("{v} = {i}; [{w}, {v}] . m->p; "), 5 => format!("{v} = {w} = {i}; {u}; "), 6 => format!("{v}, {w} = ({w}, {v}); {u} . m->p; "), 7 => format!("if {v} {{ {w} = {i} }} {u} . m->p; "), 8 => format!("{v} = {w}; {w} = {v}; {v} = {u}; "), _ => format!("{v} . m->p; ") };
                    }
                    t
                };
                let (s1, s2) = (seq(self, &vs, 3), seq(self, &vs, 2));
                let inner = if self.r.chance(1, 2) { let d = self.fresh("d"); vs.push(d.clone()); let t = seq(self, &vs, 4); let i = self.ilit(); let deep = if self.r.chance(1, 2) { let x = seq(self, &vs, 3); format!("fn {f}h() {{ {x} {d} }} {f}h() . m->p;") } else { String::new() }; vs.pop(); format!("fn {f}g({d}) {{ {t} {deep} {d} }} {f}g({i}) . m->p;") } else { let t = seq(self, &vs, 4); format!("fn {f}g() {{ {t} {b} }} {f}g() . m->p;") };
                self.in_fn = o; self.locals = ls;
                out.push(format!("{ind}fn {f}({a}, {b}) {{ let {c} = {e0}; {s1} {inner} {s2} ({a}, {b}, {c}) }} {f}({p}, {q}) . m->p;"));
            }
            16 if depth == 0 => { let v = self.fresh("s"); let (a, b) = (self.e(K::I, 1), self.e(K::I, 1)); out.push(format!("let {} = P({}, {});", v, a, b)); self.insts.push(v) }
            17 if depth == 0 => {
                // a function which uses a variable that is declared further down, called before and after the declaration
                let (f, v, x) = (self.fresh("f"), self.fresh("late"), self.fresh("x"));
                let ls = std::mem::take(&mut self.locals); self.locals.push(x.clone());
                let a = self.e(K::I, 1); let g = self.f(1);
                let e = match self.r.below(6) { 0 => format!("({a} . (+ {v}))"), 1 => format!("(({a}) . ({v} -))"), 2 => format!("({a} . fn(q) -> q + {v})"), 3 => format!("({v} . {g})"), 4 => format!("({a} + ({v} = {x}))"), _ => format!("({a} - {v})") };
                self.locals = ls;
                out.push(format!("fn {f}({x}) -> {e}"));
                if !self.clean() && self.r.chance(1, 3) { out.push(format!("m->p({f}(1));")) }
                let b = self.e(K::I, 1); out.push(format!("let {v} = {b};")); self.ints.push(v); self.late.push(f)
            }
            0 | 1 => { let e = self.e(K::A, d); out.push(format!("{}m->p({});", ind, e)) }
            2 | 3 => { let e = self.e(K::A, d); out.push(format!("{}{} . print;", ind, e)) }
            4 => { let e = self.e(K::A, d); out.push(format!("{}{} . m->p;", ind, e)) }
            5 | 6 => { let (v, e) = (self.int_var(), self.e(K::I, d)); match self.r.below(4) { 0 => out.push(format!("{}{} = {}; {} . m->p;", ind, v, e, v)), 1 => { let w = self.int_var(); out.push(format!("{}{} = {}; {} = {};", ind, v, e, w, v)) } 2 => { let w = self.int_var(); out.push(format!("{}{} = {} = {};", ind, v, w, e)) } _ => out.push(format!("{}{} = {};", ind, v, e)) } }
            7 => { let e = self.e(K::A, d); let f = self.e(K::A, 0); out.push(format!("{}{}; {}; {};", ind, e, f, self.ilit())) }
            8 if depth < 2 => { let c = self.e(K::B, d); out.push(format!("{}if {} {{", ind, c)); self.block(out, ind, depth); if self.r.chance(1, 2) { out.push(format!("{}}} else {{", ind)); self.block(out, ind, depth); } out.push(format!("{}}}", ind)) }
            9 if depth < 2 => { let v = self.fresh("i"); let b = self.r.below(3); out.push(format!("{}for {} in range({}) {{", ind, v, b)); self.locals.push(v); self.block(out, ind, depth); self.locals.pop(); out.push(format!("{}}}", ind)) }
            10 if depth < 2 => { let (f, x, y) = (self.fresh("f"), self.fresh("x"), self.fresh("y")); let ls = std::mem::take(&mut self.locals); if self.r.chance(1, 2) { self.locals = ls.clone() }
                let dflt = if self.r.chance(1, 2) { let e = self.e(K::I, 1); self.locals.push(x.clone()); self.locals.push(y.clone()); format!(", {} = {}", y, e) } else { self.locals.push(x.clone()); String::new() };
                out.push(format!("{}fn {}({}{}) {{", ind, f, x, dflt)); let o = std::mem::replace(&mut self.in_fn, true); self.block(out, ind, depth); let e = self.e(K::I, 2);
                if self.r.chance(1, 3) { out.push(format!("{}  return {}", ind, e)) } else { out.push(format!("{}  {}", ind, e)) } out.push(format!("{}}}", ind)); self.in_fn = o; self.locals = ls; if depth == 0 { self.fns.push(f) } else { let a = self.e(K::I, 1); out.push(format!("{}{}({}) . m->p;", ind, f, a)) } }
            11 => { let (v, e) = (self.fresh("v"), self.e(K::I, d)); out.push(format!("{}let {} = {};", ind, v, e)); if depth == 0 { self.ints.push(v) } else { self.locals.push(v) } }
            12 => { let (e, c) = (self.e(K::B, d), self.e(K::A, 1)); let e = if self.r.chance(3, 4) { format!("({} or true)", e) } else { e }; out.push(format!("{}assert {} : {};", ind, e, c)) }
            13 => { let (i, e) = (self.r.below(2), self.e(K::I, d)); out.push(format!("{}gl[{}] {} {};", ind, i, self.r.pick(&["=", "=", "+=", ".="]).replace(".=", "="), e)) }
            14 => { let (e, v, w) = (self.e(K::I, d), self.fresh("v"), self.fresh("v")); let e2 = self.e(K::I, d); out.push(format!("{}let {}, {} = ({}, {});", ind, v, w, e, e2)); if depth == 0 { self.ints.push(v); self.ints.push(w) } else { self.locals.push(v); self.locals.push(w) } }
            _ => { let v = self.int_var(); let f = self.f(d); out.push(format!("{}{} .= {};", ind, v, f)); let e = self.ilit(); out.push(format!("{}{} = {};", ind, v, e)) }
        }
    }
    fn block(&mut self, out: &mut Vec<String>, ind: &str, depth: u32) {
        let (n, f) = (self.locals.len(), self.fns.len());
        let ind = format!("{}  ", ind);
        for _ in 0..1 + self.r.below(3) { self.stmt(out, &ind, depth + 1) }
        self.locals.truncate(n); self.fns.truncate(f);
    }
}

pub fn scenario(property: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(mix(seed ^ 0x0971));
    let wild = *r.pick(&[0, 0, 2, 5]);
    let effects = *r.pick(&[8, 20, 35]);
    let mut g = G { r: r.clone(), wild, effects, locals: vec![], ints: vec!["ga".into(), "gb".into()], n: 0, in_fn: false, fns: vec![], late: vec![], insts: vec![] };
    let mut out = vec!["native module m { fn p(x) fn c() fn v(a, b?) fn w(x, *rest) }".to_string(), "let ga = 4, gb = 2, gl = [1, 2, 3];".into(), "fn add2(a, b) -> m->p(a) + b".into(), "fn gpush(x) { if len(gl) < 9 { gl . push(x) } gl }".into()];
    let mut inputs = vec![Input { kind: "ok".into(), lines: std::mem::take(&mut out) }];
    if g.r.chance(1, 2) {
        g.in_fn = true; g.locals = ["pa", "pb", "x"].map(String::from).to_vec();
        let (a, b, c) = (g.e(K::I, 2), g.e(K::I, 3), g.e(K::I, 2));
        g.locals = vec!["x".into()]; let o = g.e(K::I, 2);
        g.in_fn = false; g.locals.clear();
        inputs.push(Input { kind: "ok".into(), lines: vec![format!("struct P(pa, pb) {{"), format!("  fn ma(self, x) {{ {a}; {b} }}"), format!("  fn mb(x) -> {o}"), format!("  fn mc(self, x) -> m->p({c}) . ma"), "}".into(), "let s0 = P(3, 4);".into()] });
        g.insts.push("s0".into());
    }
    for _ in 0..2 + g.r.below(8) { g.stmt(&mut out, "", 0); inputs.push(Input { kind: "ok".into(), lines: std::mem::take(&mut out) }); if g.r.chance(1, 5) { inputs.push(Input { kind: "ok".into(), lines: vec!["m->p((ga, gb, gl));".into()] }) } }
    inputs.push(Input { kind: "ok".into(), lines: vec!["m->p((ga, gb, gl));".into()] });
    let mut fail = vec![];
    if g.r.chance(1, 6) { fail.push(g.r.below(12) as u64) }
    Scenario { property: property.into(), seed, mode: if wild == 0 { "opt" } else { "opt-l" }.into(), inputs, plan: Plan { seed: mix(seed ^ 5), fail, web: false }, ..Scenario::default() }
}
