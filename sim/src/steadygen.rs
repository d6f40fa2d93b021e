//! Sessions which repeat one statement that changes no variable: what it leaves allocated must not grow.
use crate::plan::Plan;
use crate::rng::{mix, Rng};
use crate::scen::{Input, Scenario};

struct G { r: Rng, n: usize, vars: Vec<String>, hot: bool }
impl G {
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    /// a fresh value which is sure to succeed
    fn a(&mut self) -> String {
        if !self.vars.is_empty() && self.r.chance(1, 4) { return self.r.pick(&self.vars).clone() }
        (*self.r.pick(&["1", "[1, 2, 3]", "['a' * 30, 'b' * 31]", "'long' * 9", "(1, [2], 'x' * 33)", "{1: [2], 'k': {3}}", "{(1, 2), 'z' * 40}", "(range(4) . list)", "[[1], [2, [3]]]", "(fn() -> 3)", "(+ 1)", "map(fn(q) -> [q])", "P([1], {2})", "P([1])", "2i", "heap([3, 1, 2])", "nil", "(->fa)", "[1:2]", "add3([1])", "P(1, 2)->ma"])).to_string()
    }
    fn it(&mut self) -> String { (*self.r.pick(&["[1, 2, 3]", "range(3)", "{1, 2, 3}", "{1: 2, 3: [4]}", "'abc'", "(1, 2, 3)", "['q' * 40, 'w' * 50]", "heap([3, 1, 2])", "enumerate([5, 6, 7])"])).to_string() }
    /// an expression which (perhaps) fails at the end of a random path through it
    fn h(&mut self, d: u32) -> String {
        if d == 0 {
            if !self.hot { return self.a() }
            return (*self.r.pick(&["(nil + 1)", "[][1]", "(1 / 0)", "int('x' * 30)", "([1] . map(nil))", "{[1], [1]}", "{'k' * 30: 1}['no']", "P(1, 2)->ma(nil)", "5()", "(fn() { assert false : 'm' * 40; 1 })()"])).to_string()
        }
        let d = d - 1;
        match self.r.below(34) {
            0 => { let (a, x, b) = (self.a(), self.h(d), self.a()); format!("[{}, {}, {}]", a, x, b) }
            1 => { let (a, x) = (self.a(), self.h(d)); format!("(({}, {}), 1)", a, x) }
            2 => { let (a, x) = (self.a(), self.h(d)); format!("{{'one' * 20: {}, 'two': {}}}", a, x) }
            3 => { let x = self.h(d); format!("{{1, 'three' * 20, str({})}}", x) }
            4 => { let (a, x, b) = (self.a(), self.h(d), self.a()); format!("[{}, ...[{}], {}]", a, x, b) }
            5 => { let (a, x, i) = (self.a(), self.h(d), self.it()); format!("add3(...[{}], ...{}, {})", a, i, x) }
            6 => { let (a, x) = (self.a(), self.h(d)); format!("first({}, {}, [1])", a, x) }
            7 => { let (v, a) = (self.fresh("v"), self.a()); self.vars.push(v.clone()); let x = self.h(d); self.vars.pop(); let b = self.a(); format!("(fn({v}) {{ let w{v} = {b}; let z{v} = fn() {{ w{v} = [{v}]; {x} }}; z{v}() }})({a})") }
            8 => { let (v, i) = (self.fresh("v"), self.it()); self.vars.push(v.clone()); let (x, a) = (self.h(d), self.a()); self.vars.pop(); let t = self.at(&v); let f = *self.r.pick(&["map", "filter", "flat_map", "sort_by", "group_by", "any", "all", "find", "min_by", "max_by"]); let b = if f == "flat_map" { format!("[{}]", a) } else if f == "sort_by" || f == "min_by" || f == "max_by" { "1".into() } else if f == "group_by" { format!("str({})", a) } else { a }; format!("({i} . {f}(fn({v}) {{ if {t} {{ {x} }} else {{ {b} }} }}))") }
            9 => { let (v, w, i) = (self.fresh("v"), self.fresh("w"), self.it()); let x = self.h(d); format!("({i} . reduce(fn({v}, {w}) {{ if typeof({w}) == nil {{ 1 }} else {{ {x} }} }}))") }
            10 => { let (v, i) = (self.fresh("v"), self.it()); self.vars.push(v.clone()); let x = self.h(d); self.vars.pop(); let t = self.at(&v); format!("(fn() {{ let fs = []; for {v} in {i} {{ let y = [{v}]; fs . push(fn() -> [y, {v}]); if {t} {{ {x} }} }} len(fs) }})()") }
            11 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ let n = 0; while n < 4 {{ let y = [{a}], f = fn() -> y; n += 1; if n == 3 {{ [f, {x}] }} }} n }})()") }
            12 => { let x = self.h(d); format!("(dict() . default(fn() -> {}))['k' * 30]", x) }
            13 => { let (v, x, a) = (self.fresh("v"), self.h(d), self.a()); format!("memoize(fn({v}) {{ [{v}]; {x} }})(str({a}))") }
            14 => { let (x, i) = (self.h(d), self.it()); format!("({i} . list . sort(fn(p, q) {{ if true {{ [{x}] }} 0 }}))") }
            15 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ let p, q = [nil, nil]; p, q = ({a}, {x}); [q, p] }})()") }
            16 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ let (p, *q), r = ((1, {a}, {a}), {x}); [q, p, r] }})()") }
            17 => { let (a, x) = (self.a(), self.h(d)); format!("P({}, {})", a, x) }
            18 => { let x = self.h(d); format!("(P([1], {{2}})->fa = {})", x) }
            19 => { let (a, x) = (self.a(), self.h(d)); format!("P({}, 1)->mb({})", a, x) }
            20 => { let (a, x) = (self.a(), self.h(d)); format!("first({})({}, 1)", a, x) }
            21 => { let x = self.h(d); format!("({} . copy)", x) }
            22 => { let (a, x) = (self.a(), self.h(d)); format!("(if [{a}] then {x} else 1)") }
            23 => { let (a, x) = (self.a(), self.h(d)); format!("([{a}] and [{x}])") }
            24 => { let (i, x) = (self.it(), self.h(d)); format!("([{i}, [{x}]] . zip)") }
            25 => { let (a, x) = (self.a(), self.h(d)); format!("[[{a}], [{x}]][{}]", self.r.pick(&["0", "-1", "7", "nil"])) }
            26 => { let (a, x) = (self.a(), self.h(d)); format!("m->w([{a}], {x}, 'n' * 30)") }
            27 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ for v in [1, [2]] {{ let y = {a}, g = fn() -> [v, y]; if typeof(v) == list {{ return [g, {x}] }} }} 1 }})()") }
            28 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ fn inner(k, j = {a}) {{ let u = [j]; fn deep() {{ u . push(k); {x} }} deep() }} inner('s' * 30) }})()") }
            29 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ let l = [{a}, 2, 3]; l[1] = {x}; l . pop; l }})()") }
            30 => { let (a, x) = (self.a(), self.h(d)); format!("(fn() {{ let l = [{a}], d = dict(); d['k'] = l; d['j'] = {x}; d['k'] . push({a}); d }})()") }
            31 => { let x = self.h(d); format!("(fn(a, b = {x}, *c) -> [a, b, c])('x' * 40)") }
            32 => { let (a, x) = (self.a(), self.h(d)); format!("({x} . str . (+ str({a})))") }
            _ => { let (a, x) = (self.a(), self.h(d)); format!("(fn(x, *ys) {{ ys . push(x); [ys, {x}] }})({a}, ...[{a}, {a}], 4)") }
        }
    }
    fn at(&mut self, v: &str) -> String { (*self.r.pick(&["true", "[V] == [2]", "typeof(V) == int and V > 1", "false"])).replace('V', v) }
}

pub fn scenario(property: &str, seed: u64) -> Scenario {
    let mut g = G { r: Rng::new(mix(seed ^ 0x57EAD)), n: 0, vars: vec![], hot: true };
    let mut inputs: Vec<Input> = vec![];
    let ok = |s: String| Input { kind: "ok".into(), lines: vec![s] };
    inputs.push(ok("native module m { fn p(x) fn c() fn v(a, b?) fn w(x, *rest) }".into()));
    inputs.push(ok("struct P(fa, fb) { fn ma(self, x) { [fa, x + 1] } fn mb(self, x) { let g = fn() -> [fb, x]; self->fb = [x]; g() } }".into()));
    inputs.push(ok("fn first(a, b, c) -> a; fn add3(a, *b) -> [a, b]; fn nop() { nil } fn nope() { nil + 1 }".into()));
    let k = 1 + g.r.below(4);
    for i in 0..k {
        g.hot = g.r.chance(4, 5);
        let d = 1 + g.r.below(4) as u32;
        let e = g.h(d);
        inputs.push(ok(format!("fn pr{}() {{ {} }}", i, e)));
    }
    if g.r.chance(1, 2) {
        // input which is rejected leaves nothing either
        let d = g.r.below(4) as u32;
        let e = g.h(d);
        let t = match g.r.below(8) { 0 => format!("fn zz(a, b) {{ let (c, *d) = a; {} + undeclared }}", e), 1 => format!("let zz = {}, zy = 'constant' * 30, zz = 1", e), 2 => format!("struct Z(ga, gb) {{ fn mz(self, x) {{ {} ga }} }} let let", e), 3 => format!("let za, (zb, *zc) = ({}, 1), f = fn() {{ za, zb = 'uvw', undeclared }}", e), 4 => format!("native module n{} {{ fn e1(x) fn e2(y) }} {} )", g.n, e), 5 => format!("module Mod {{ fn fz() {{ {} }} fn fz() }}", e), 6 => format!("do {{ let q = {}; for (x, y) in q {{ break }} }} break", e), _ => format!("'some string constant'; fn f1() -> 98765; fn f2() -> f1() + {}; nothing", e) };
        inputs.push(Input { kind: "rep".into(), lines: vec![t] });
    }
    for i in 0..k { inputs.push(Input { kind: "rep".into(), lines: vec![format!("pr{}()", i)] }) }
    Scenario { property: property.into(), seed, mode: "steady".into(), inputs, plan: Plan { seed: mix(seed ^ 9), fail: vec![], web: false }, mem: true, ..Scenario::default() }
}
