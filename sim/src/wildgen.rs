//! Programs over every kind of value and every library function, correct or not.  They are not compared with
//! the model but with themselves: watched memory, repeated execution, optimised execution.  By construction
//! they terminate, their values stay small and refer to each other without cycles: global number k is only
//! ever given values made from globals with smaller numbers, and what loops and callbacks change is separate.
use crate::plan::Plan;
use crate::rng::{mix, Rng};
use crate::scen::{Input, Scenario};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { I, B, S, C, Q, L, V, T, D, H, R, F, G, P, N }
use K::*;
const ALL: &[K] = &[I, I, B, S, S, C, Q, L, L, L, V, V, T, T, D, D, H, R, R, F, F, G, P, N];
struct W { r: Rng, kinds: Vec<Option<K>>, lim: usize, n: usize, loc: Vec<(String, K)>, structs: usize, fx: u32, addr: bool, script: bool, nest: u32, optable: bool }

impl W {
    fn ch(&mut self, a: usize, b: usize) -> bool { self.r.chance(a as u32, b as u32) }
    fn one(&mut self, v: &[&str]) -> String { (*self.r.pick(v)).to_string() }
    fn kind(&mut self) -> K { let k = *self.r.pick(ALL); if k == Q && self.script { I } else { k } }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn known(&mut self, k: K) -> Option<String> {
        let mut v: Vec<String> = self.loc.iter().filter(|l| l.1 == k).map(|l| l.0.clone()).collect();
        for i in 0..self.lim.min(self.kinds.len()) { if self.kinds[i] == Some(k) { v.push(format!("g{}", i)) } }
        if v.is_empty() { None } else { let x = self.r.pick(&v).clone(); Some(if matches!(k, L | T | D | V) && self.ch(1, 2) { format!("copy({})", x) } else { x }) }
    }
    fn key(&mut self, d: u32) -> String { if self.addr && self.ch(1, 3) { let k = *self.r.pick(&[F, G, P, R]); return if self.ch(1, 3) { self.one(&["Pt", "add2", "print", "m->p", "m", "int", "(->fa)", "push(1)", "[1:]", "(+)"]) } else { self.e(k, d.min(1)) } } let k = *self.r.pick(&[I, I, S, S, B, V, N, C, Q]); self.e(k, d.min(1)) }
    fn e(&mut self, k: K, d: u32) -> String {
        let k = if self.ch(1, 30) { self.kind() } else { k };
        if self.ch(self.fx as usize, 100) {
            let x = self.e0(k, d.saturating_sub(1));
            return match self.r.below(7) {
                0 => format!("({} . m->p)", x), 1 => format!("m->v({}, {})", x, self.ilit()), 2 => { let y = self.key(0); format!("m->w({}, {}, 1)", x, y) }
                3 => format!("(fn(q) {{ if len(sl) < 12 {{ sl . push(q); }} q }})({})", x),
                4 => { let y = self.key(0); format!("(fn(q) {{ if len(sd) < 12 {{ sd[{}] = q; }} q }})({})", y, x) }
                5 => match self.r.below(4) { 0 => format!("({}, m->c())[0]", x), 1 => format!("(if m->c() then {} else {})", x, x), 2 => format!("(fn() {{ print('x'); {} }})()", x), _ => format!("[m->p(7), {}][1]", x) },
                _ => format!("m->p({})", x),
            }
        }
        self.e0(k, d)
    }
    fn ilit(&mut self) -> String { self.one(&["0", "1", "2", "3", "5", "-1", "-2", "7"]) }
    fn many(&mut self, max: usize, d: u32) -> Vec<String> { let n = self.r.below(max + 1); let same = self.ch(2, 3); let k = if self.addr && self.ch(1, 3) { *self.r.pick(&[F, G, P, N]) } else { *self.r.pick(&[I, I, S, V, Q, L, C]) }; (0..n).map(|_| { let k = if same { k } else { self.kind() }; self.e(k, d) }).collect() }
    fn iter(&mut self, d: u32) -> String { let k = *self.r.pick(&[L, L, V, T, D, H, R, R, S]); self.e(k, d) }
    /// a function of one argument, or several
    fn lam(&mut self, args: &[K], res: K, d: u32) -> String {
        let ps: Vec<String> = args.iter().map(|_| self.fresh("x")).collect();
        let keep = self.loc.len();
        for (p, k) in ps.iter().zip(args) { self.loc.push((p.clone(), *k)) }
        let b = self.e(res, d);
        let side = match self.r.below(12) { 0 => "m->p('cb'); ".to_string(), 1 => { let e = self.key(0); format!("if len(sl) < 12 {{ sl . push({}); }} ", e) } 2 => { let c = self.e(B, 0); format!("if {} {{ return {}; }} ", c, ps[0]) } 3 => { let y = self.fresh("y"); let e = self.e(L, 0); format!("let {} = {}; let z{} = fn() {{ if len({}) < 30 {{ {} . push(1); }} {} }}; z{}(); ", y, e, y, y, y, y, y) } 4 => "n0 += 1; if n0 % 5 == 4 { 'boom' - 1; } ".into(), 5 => "print('cb'); ".into(), _ => String::new() };
        self.loc.truncate(keep);
        if side.is_empty() && self.ch(1, 2) { format!("(fn({}) -> {})", ps.join(", "), b) } else { format!("(fn({}) {{ {}{} }})", ps.join(", "), side, b) }
    }
    fn e0(&mut self, k: K, d: u32) -> String {
        if self.ch(1, 3) { if let Some(v) = self.known(k) { return v } }
        let deep = d > 0;
        let d = d.saturating_sub(1);
        if deep && self.ch(1, 12) { let (c, a, b) = (self.e(B, d), self.e(k, d), self.e(k, d)); return format!("(if {} then {} else {})", c, a, b) }
        if deep && self.ch(1, 14) { let (f, a) = (self.lam(&[I], k, d), self.e(I, d)); return format!("{}({})", f, a) }
        if deep && self.ch(1, 14) { let l = self.many(4, d).join(", "); let x = self.e(k, d); return match self.r.below(6) { 0 => format!("[{}, {}][0]", x, l), 1 => format!("({}, 1)[0]", x), 2 => format!("[{}] . pop", x), 3 => format!("{{'k': {}}}['k']", x), 4 => format!("[{}, ...[{}]] . peek", x, l), _ => format!("copy({})", x) } }
        let t: String = match k {
            I => if !deep { self.ilit() } else { match self.r.below(12) {
                0 | 1 => { let (a, b, o) = (self.e(I, d), self.e(I, d), self.one(&["+", "-", "%", "&", "|", "^", "/", "and", "or"])); format!("(({} {} {}) % 97)", a, o, b) }
                2 => format!("len({})", self.iter(d)), 3 => { let l = self.iter(d); format!("(sum({}) % 89)", l) }
                4 => { let (l, f) = (self.iter(d), self.one(&["min", "max", "peek", "pop", "pop_front"])); format!("{}({})", f, l) }
                5 => { let (l, i) = (self.e(*[L, V].get(self.n % 2).unwrap(), d), self.ilit()); format!("{}[{}]", l, i) }
                6 => { let (l, f) = (self.e(L, d), self.lam(&[I], I, d)); let o = self.one(&["min_by", "max_by", "find", "index_of", "rindex_of", "rfind"]); format!("({} . {}({}))", l, o, f) }
                7 => { let (l, f) = (self.iter(d), self.lam(&[I, I], I, d)); format!("({} . reduce({}))", l, f) }
                8 => { let a = self.e(S, d); let f = self.one(&["int(A, 3)", "int(A)", "(A . len)", "ord(A)", "(A . index_of('l'))"]); f.replace('A', &a) }
                9 => { let (a, b) = (self.e(I, d), self.e(I, d)); self.one(&["gcd(A, B)", "lcm(A, B)", "abs(A)", "sqrt(A)", "count_ones(A)", "count_zeros(A)", "(- A)", "(~A)", "(A . (- B))", "(+)(A, B)", "(* 2)(A)"]).replace('A', &a).replace('B', &b) }
                10 => { let p = self.e(P, d); self.one(&["A->fa", "A->fb", "A->total()", "(->fa)(A)", "(A . (->fb))", "A->get(2)"]).replace('A', &p) }
                _ => { let c = self.e(C, d); self.one(&["real(A)", "imag(A)", "numer(1 + 2)", "int(real(A))"]).replace('A', &c) }
            } },
            B => if !deep { self.one(&["true", "false"]) } else { match self.r.below(7) {
                0 => { let k = self.kind(); let (a, b) = (self.e(k, d), self.e(k, d)); if self.addr { format!("({} {} {})", a, self.one(&["==", "!=", "<", ">=", "<=", ">"]), b) } else { format!("({} {} {})", a, self.one(&["==", "!="]), b) } }
                1 => { let (a, b) = (self.e(I, d), self.e(I, d)); format!("({} < {} < 9)", a, b) }
                2 => { let (a, l) = (self.key(d), self.iter(d)); format!("({} {} {})", a, self.one(&["in", "not in"]), l) }
                3 => { let k = self.kind(); let a = self.e(k, d); format!("({} {} {})", a, self.one(&["is", "is not"]), self.one(&["int", "list", "str", "any", "iterable", "function", "dict", "nil"])) }
                4 => { let (l, f) = (self.iter(d), self.lam(&[I], B, d)); format!("({} . {}({}))", l, self.one(&["any", "all"]), f) }
                5 => { let a = self.e(B, d); format!("(not {})", a) }
                _ => "m->c()".into(),
            } },
            S => if self.script && self.addr && self.ch(1, 8) { self.one(&["read_line()", "read_line()", "read_line()", "read()"]) } else if !deep { self.one(&["'a'", "'hello'", "'a longer string value'", "''", "'x,y,z,w,long long'", "'né日本'"]) } else { match self.r.below(12) {
                0 | 1 => { let k = self.kind(); let (a, b) = (self.e(S, d), self.e(k, d)); if self.ch(1, 2) { format!("({} + {})", a, b) } else { format!("({} + {})", b, a) } }
                2 => { let k = self.kind(); let a = self.e(k, d); format!("{}({})", self.one(&["repr", "str"]), a) }
                3 => { let (a, b) = (self.e(S, d), self.r.below(4)); format!("({} * {})", a, b) }
                4 => { let a = self.e(S, d); self.one(&["(A . to_upper)", "(A . to_lower)", "(A . trim)", "A[1:]", "A[::-1]", "A[0]", "(A . reverse . join(''))", "(A . [:2])"]).replace('A', &a) }
                5 => { let l = self.iter(d); format!("({} . map(str) . join(','))", l) }
                6 => { let (a, f) = (self.e(S, d), self.lam(&[S], S, d)); format!("({} . replace('l', {}))", a, f) }
                7 => { let a = self.e(S, d); self.one(&["(A . replace('(l+)o?', '<$1>'))", "(A . replace('[a-z]', 'longer replacement text'))", "hex(11)", "bin(5)", "char(97)", "(A . search('[a-l]') . repr)"]).replace('A', &a) }
                8 => { let (a, b) = (self.e(I, d), self.e(S, d)); format!("('%d and %s or %x' % ({}, {}, 7))", a, b) }
                9 => { let k = self.kind(); let a = self.e(k, d); format!("(typeof({}) . str)", a) }
                10 => { let a = self.e(S, d); format!("sum({} . split(','))", a) }
                _ => { let l = self.iter(d); format!("min({} . map(repr))", l) }
            } },
            C => if !deep { self.one(&["3i", "(1 + 2i)", "-1i"]) } else { let (a, b) = (self.e(I, d), self.e(C, 0)); self.one(&["(A + B)", "(A * 1i)", "(B * 2i)", "(B - A)", "(B / 2)", "(1 + 1i) ** 2", "abs(B)"]).replace('A', &a).replace('B', &b) },
            Q => if !deep { self.one(&["rational(1, 3)", "rational('2/7')", "rational(4)"]) } else { let (a, b) = (self.e(I, d), self.e(Q, 0)); self.one(&["(A + B)", "(B * 2)", "(B - A)", "(B / 3)", "rational(A, 5)", "(B < 1)", "numer(B)", "denom(B)", "abs(B)"]).replace('A', &a).replace('B', &b) },
            L => if !deep { self.one(&["[]", "[3, 1, 2]", "['b', 'a', 'longer string element']", "[[1], (2, 3)]"]) } else { match self.r.below(19) {
                0 | 1 => { let v = self.many(4, d); format!("[{}]", v.join(", ")) }
                2 => { let (l, k) = (self.iter(d), self.kind()); let k = if k == L { I } else { k }; let f = self.lam(&[I], k, d); format!("({} . map({}))", l, f) }
                3 => { let (l, f) = (self.iter(d), self.lam(&[I], B, d)); format!("({} . filter({}))", l, f) }
                4 => { let (l, f) = (self.iter(d), self.lam(&[I], L, d.min(1))); format!("({} . flat_map({}))", l, f) }
                5 => { let (l, f) = (self.iter(d), if self.ch(1, 2) { self.lam(&[I, I], I, d) } else { self.lam(&[I], I, d) }); format!("({} . sort_by({}))", l, f) }
                6 => { let l = self.iter(d); self.one(&["sort(A)", "reverse(A)", "list(A)", "list(enumerate(A))", "(A . copy)", "(A . zip('abc'))", "concat([A, [1]])", "(A . permutations(2))", "(A . combinations(2))", "list(permutations(2, A)) . len", "(vector(A) . list)", "(A . zip(A, [1, 2, 3]))"]).replace('A', &l) }
                7 => { let (a, b) = (self.e(L, d), self.e(L, d)); format!("({} + {})", a, b) }
                8 => { let a = self.e(L, d); self.one(&["A[1:]", "A[::-1]", "(A . [:2])", "A[-2:]", "(A . map([1:]))", "[...A, ...A]", "(A * 2)"]).replace('A', &a) }
                9 => { let (l, f) = (self.iter(d), self.lam(&[I], I, d)); format!("({} . group_by({}) . values)", l, f) }
                10 => { let l = self.iter(d); format!("({} . group_by(2))", l) }
                11 => { let a = self.e(D, d); self.one(&["keys(A)", "values(A)", "list(A)"]).replace('A', &a) }
                12 => { let (a, k) = (self.e(L, d), self.kind()); let x = self.e(k, d); self.one(&["(fn(q, r) { if len(q) < 30 { q . push(r); } q })(A, X)", "(fn(q, r) { if len(q) < 30 { q . insert(0, r); } q })(A, X)", "(fn(q, r) { if len(q) < 30 { q . push_front(r); } q })(A, X)", "(A . clear)", "(A . remove(0))", "(A . pop_front)"]).replace('A', &a).replace('X', &x) }
                13 => { let a = self.e(S, d); format!("({} . split(','))", a) }
                14 => { let a = self.e(T, d); format!("list({})", a) }
                15 => { let (a, b) = (self.e(L, d), self.e(L, d)); self.one(&["(A . union(B))", "(A . intersect(B))", "(A . difference(B))"]).replace('A', &a).replace('B', &b) }
                16 => { let a = self.e(H, d); format!("list({})", a) }
                17 => { let l = self.iter(d); format!("({} . map(m->p))", l) }
                _ => { let a = self.e(S, d); format!("({} . search('([a-z])([a-z])?'))", a) }
            } },
            V => if !deep { self.one(&["(1, 2)", "(1, 'a long tuple element')", "(3, [1])"]) } else { match self.r.below(6) { 0 | 1 => { let v = self.many(3, d); format!("vector({})", v.join(", ")) } 2 => { let (a, k) = (self.e(I, d), self.kind()); let b = self.e(k, d); format!("({}, {})", a, b) } 3 => { let a = self.e(V, d); format!("({} + 1)", a) } 4 => { let l = self.iter(d); format!("vector(...{})", l) } _ => { let (a, b) = (self.e(V, 0), self.e(V, 0)); format!("({} * {})", a, b) } } },
            T => if !deep { self.one(&["{1, 2, 3}", "set()", "{'a', 'bb'}", "{(1, 2), nil}"]) } else { match self.r.below(6) { 0 => { let n = 1 + self.r.below(3); let v: Vec<String> = (0..n).map(|_| self.key(d)).collect(); format!("{{{}}}", v.join(", ")) } 1 => { let l = self.iter(d); format!("set({})", l) } 2 => { let (a, b) = (self.e(T, d), self.e(T, d)); format!("({} {} {})", a, self.one(&["|", "&", "-", "^"]), b) } 3 => { let (a, x) = (self.e(T, d), self.key(d)); self.one(&["(A . push(X))", "(A . remove(X))", "(A . insert(X))", "(A . clear)"]).replace('A', &a).replace('X', &x) } 4 => { let a = self.e(D, d); format!("set({})", a) } _ => { let v = self.many(3, d); format!("set([{}])", v.join(", ")) } } },
            D => if !deep { self.one(&["{'k': 1, 'a': [2]}", "dict()", "{1: 'x', 2: 'longer value here'}"]) } else { match self.r.below(7) { 0 | 1 => { let n = 1 + self.r.below(3); let v: Vec<String> = (0..n).map(|_| { let k = self.kind(); format!("{}: {}", self.key(d), self.e(k, d)) }).collect(); format!("{{{}}}", v.join(", ")) } 2 => { let l = self.iter(d); format!("({} . zip([1, 2, 3]) . dict)", l) } 3 => { let l = self.iter(d); format!("counter({})", l) } 4 => { let (l, f) = (self.iter(d), self.lam(&[I], I, d)); format!("({} . group_by({}))", l, f) } 5 => { let (a, k) = (self.e(D, d), self.kind()); let x = self.e(k, d); format!("({} . default({}))", a, if self.ch(1, 2) { format!("fn() -> {}", x) } else { x }) } _ => { let (a, x) = (self.e(D, d), self.key(d)); self.one(&["(A . insert(X, [1]))", "(A . remove(X))", "(A . clear)", "(A . copy)"]).replace('A', &a).replace('X', &x) } } },
            H => { let l = if deep { self.iter(d) } else { "[3, 1, 2]".into() }; if self.ch(1, 3) { format!("(heap({}) . push({}))", l, self.ilit()) } else { format!("heap({})", l) } }
            R => if !deep { self.one(&["range(3)", "range(4, 0, -1)", "range(0)"]) } else { let l = self.iter(d); self.one(&["range(1, 4)", "enumerate(A)", "enumerate(A)", "range(len(A))", "enumerate(enumerate(A))", "(range(9) . [2:5])"]).replace('A', &l) },
            F => if !deep { self.one(&["(+ 1)", "repr", "m->p", "len", "[1:]", "[::-1]", "(->fa)", "add2(1)", "push(3)", "map(str)", "filter(bool)", "(fn(q) -> q)", "int", "list", "(== 1)", "memoize(fn(q) -> [q])", "Pt(1)"]) } else { match self.r.below(6) { 0 | 1 | 2 => { let k = self.kind(); self.lam(&[I], k, d) } 3 => { let k = self.kind(); let f = self.lam(&[I], k, d); format!("memoize({})", f) } 4 => { let f = self.lam(&[I, I], L, d); let k = self.kind(); let a = self.e(k, d); format!("{}({})", f, a) } _ => { let (f, a) = (self.one(&["map", "filter", "sort_by", "reduce", "min_by", "insert", "split", "join", "push", "zip", "replace('l')"]), self.key(d)); format!("{}({})", f, a) } } },
            G => if !deep { self.one(&["add2", "(+)", "(<)", "(fn(a, b) -> [a, b])", "push", "Pt", "max", "(fn(*a) -> a)"]) } else { self.lam(&[I, I], L, d) },
            P => if !deep { self.one(&["Pt(1, 2)", "Pt('a long field value', [1])"]) } else { let (k, j) = (self.kind(), self.kind()); let (a, b) = (self.e(k, d), self.e(j, d)); if self.ch(1, 4) { let p = self.e(P, 0); format!("{}->setp({})", p, a) } else { format!("Pt({}, {})", a, b) } },
            N => self.one(&["nil", "nil", "print('n')", "m->p(nil)", "m->c"]),
        };
        t
    }
    fn assign(&mut self) -> String {
        let i = self.r.below(8); let k = if self.ch(1, 10) { K::F } else { self.kind() };
        let keep = std::mem::replace(&mut self.lim, i);
        let e = self.e(k, 2 + (i as u32 & 1));
        self.lim = keep;
        while self.kinds.len() <= i { self.kinds.push(None) }
        let new = self.kinds[i].is_none();
        self.kinds[i] = Some(k);
        let _ = new;
        format!("g{} = {};", i, e)
    }
    fn mutate(&mut self) -> String {
        let c: Vec<usize> = (0..self.kinds.len()).filter(|i| matches!(self.kinds[*i], Some(L | T | D | H | V | P))).collect();
        if c.is_empty() { return "if len(sl) < 30 { sl . push(1); }".into() }
        let i = *self.r.pick(&c);
        let keep = std::mem::replace(&mut self.lim, i);
        let k = self.kind(); let (x, y, j) = (self.e(k, 2), self.key(1), self.ilit());
        self.lim = keep;
        let t = match self.kinds[i].unwrap() {
            L => self.one(&["if len(G) < 30 { G . push(X); }", "if len(G) < 30 { G . insert(J, X); }", "G[J] = X;", "G . pop;", "G . pop_front;", "if len(G) < 30 { G . push_front(X); }", "G . remove(J);", "G . clear;", "G . sort;", "for q in G { if q == 3 { break; } }"]),
            T => self.one(&["G . push(Y);", "G . remove(Y);", "G . insert(Y);", "G . pop;", "G . clear;", "for q in G { if q == 2 { break; } m->p(q); }"]),
            D => self.one(&["G[Y] = X;", "G . insert(Y, X);", "G[Y];", "G . remove(Y);", "G . pop;", "G . default(X);", "G . default(fn() -> [1]); G[Y];", "for q, w in G { m->p(q); break; }", "G . clear;"]),
            H => self.one(&["if len(G) < 30 { G . push(J); }", "G . pop;", "G . pop;", "G . clear;", "for q in G { break; }"]),
            V => self.one(&["G[J] = X;", "let q0, q1 = G;", "G[0] = X;"]),
            _ => self.one(&["G->fa = X;", "G->fb = X;", "G->setp(X);", "G->fa += 1;", "G->get;", "G->total();", "G->deco(Y);"]),
        };
        let t = t.replace('G', &format!("g{}", i)).replace('X', &x).replace('Y', &y).replace('J', &j);
        if t.starts_with("let") { format!("do {{ {} }}", t) } else { t }
    }
    /// a text for eval()
    fn source(&mut self) -> String {
        self.one(&["'1 + 2'", "'[1, 2] . map(fn(q) -> [q])'", "'fn(x) -> [x, x]'", "'nil . len'", "'let'", "'{1: [2]}'", "'(fn() { let a = [1]; fn() -> a })()'", "\"'long long long string' + 'x'\"", "'fn((a, b)) -> [a, b]'", "'fn((a, (b, *c)), d) -> [c, a]'", "'(fn() { let x, *y = [1, 2, 3]; y })()'", "'[fn((*a, b)) -> a, fn((a, *_)) -> a]'", "'(fn((a, b)) -> [b, a])((3, 4))'", "'(fn((a, b)) -> a)([1])'"])
    }
    fn body(&mut self, d: u32) -> String { let n = 1 + self.r.below(3); let keep = self.loc.len(); let b = (0..n).map(|_| self.stmt(d)).collect::<Vec<_>>().join(" "); self.loc.truncate(keep); b }
    /// statements usable anywhere: they change nothing but locals and the sinks
    fn stmt(&mut self, d: u32) -> String {
        match self.r.below(if d == 0 { 7 } else { 15 }) {
            0 => { let k = self.kind(); let e = self.e(k, 2); format!("print({});", e) }
            1 => { let k = self.kind(); let e = self.e(k, 2); format!("m->p({});", e) }
            2 => { let k = self.kind(); let (v, e) = (self.fresh("v"), self.e(k, 2)); self.loc.push((v.clone(), k)); format!("let {} = {};", v, e) }
            3 => { let c: Vec<(String, K)> = self.loc.iter().filter(|l| l.0.starts_with('v')).cloned().collect(); if c.is_empty() { "n0 += 1;".into() } else { let (v, k) = self.r.pick(&c).clone(); let keep = std::mem::take(&mut self.loc); let e = self.e(k, 1); self.loc = keep; format!("{} = {};", v, e) } }
            4 => { let k = self.kind(); let e = self.e(k, 1); let y = self.key(1); self.one(&["if len(sl) < 12 { sl . push(X); }", "if len(sd) < 12 { sd[Y] = X; }", "if len(ss) < 12 { ss . push(Y); }", "sl . pop;", "sd . remove(Y);", "sl . clear;", "if len(sl) > 0 { sl[0] = X; }"]).replace('X', &e).replace('Y', &y) }
            5 => { let e = self.key(1); let l = self.iter(1); self.one(&["assert n0 < 30 : L;", "n0 += 1; if n0 % 7 == 6 { E - 'zz'; }", "n0 += 1;", "n0 += 1; if n0 % 11 == 9 { L . map(fn(q) { E[q]['no'] }); }"]).replace('E', &e).replace('L', &l) }
            6 => { let e = self.source(); if self.ch(1, 4) { let (f, v) = (self.fresh("f"), self.fresh("v")); self.loc.push((f.clone(), F)); self.loc.push((v.clone(), L)); return format!("let {}, {}, *{} = ({}, eval({}), [1]);", self.fresh("v"), f, v, self.ilit(), e) } format!("m->p(eval({}));", e) }
            7 | 8 => { let l = self.iter(2); let v = self.fresh("i"); self.loc.push((v.clone(), I)); let b = self.body(d - 1); let j = match self.r.below(4) { 0 => { let c = self.e(B, 1); format!(" if {} {{ break; }}", c) } 1 => { let c = self.e(B, 1); format!(" if {} {{ continue; }} n0 += 1;", c) } _ => String::new() }; self.loc.retain(|l| l.0 != v); format!("for {} in {} {{ {}{} }}", v, l, b, j) }
            9 => { let c = self.e(B, 2); let (a, b) = (self.body(d - 1), self.body(d - 1)); format!("if {} {{ {} }} else {{ {} }}", c, a, b) }
            10 => { let b = self.body(d - 1); format!("do {{ {} }}", b) }
            11 => { let (f, x, y) = (self.fresh("f"), self.fresh("x"), self.fresh("y")); let k = self.kind(); let keep = self.loc.len(); let dflt = self.e(k, 1); self.loc.push((x.clone(), I)); self.loc.push((y.clone(), k)); let b = self.body(d - 1); let r = self.e(k, 1); self.loc.truncate(keep);
                let a = self.e(I, 1); let deco = if self.ch(1, 6) { "@memoize " } else { "" }; format!("{}fn {}({}, {} = {}) {{ {} {} }} m->p([{}({}), {}({})]);", deco, f, x, y, dflt, b, r, f, a, f, a) }
            13 => { // a pattern whose elements come from a function: it runs while the pattern is being taken apart
                let (v, w, u) = (self.fresh("v"), self.fresh("v"), self.fresh("v")); let (k, e) = (self.kind(), self.source()); let x = self.e(k, 1);
                let n = 1 + self.r.below(2); let dict = (0..n + 1).map(|i| format!("'k{}': {}", i, i)).collect::<Vec<_>>().join(", ");
                let work = if self.ch(2, 3) { format!("for q in range({}) {{ eval({}); }}", 1 + self.r.below(9), e) } else { self.body(d - 1) };
                let names = [v.clone(), w.clone(), u.clone()][..n + 1].join(", ");
                for q in [&v, &w, &u].iter().take(n + 1) { self.loc.push((q.to_string(), k)) }
                let t = match self.r.below(4) { 0 => format!("let {} = nil; {} = D;", names.replace(", ", " = nil, "), names), 1 => format!("for {} in [D, D] {{ m->p({}); }}", names, v), 2 => format!("(fn(({})) {{ m->p({}); }})(D);", names, v), _ => format!("let {} = D;", names) };
                if t.starts_with("for") || t.starts_with("(fn") { self.loc.retain(|l| ![&v, &w, &u].contains(&&l.0)) }
                t.replace('D', &format!("({{{}}} . default(fn() {{ {} {} }}))", dict, work, x)) }
            12 => { let (v, w) = (self.fresh("v"), self.fresh("v")); let l = self.iter(2); self.loc.push((v.clone(), I)); self.loc.push((w.clone(), L)); format!("let {}, *{} = {};", v, w, l) }
            _ => { let (f, v) = (self.fresh("f"), self.fresh("v")); let k = self.kind(); let e = self.e(k, 1); let x = self.e(k, 1); self.loc.push((f.clone(), F)); format!("let {} = {}, {} = fn(q) {{ {} = {}; [{}, q] }}; {}(1);", v, e, f, v, x, v, f) }
        }
    }
    fn top(&mut self) -> String {
        match self.r.below(14) {
            0..=3 => self.assign(),
            4..=6 => self.mutate(),
            7 => { let i = self.r.below(8); if self.kinds.get(i).map_or(false, |k| k.is_some()) { self.one(&["gI", "gI . print", "m->p(gI)", "(gI, sl)", "[gI] . repr . m->p"]).replace('I', &i.to_string()) } else { "sl".into() } }
            8 => { let k = self.kind(); self.e(k, 3) }
            9 => { if self.ch(1, 14) { return "exit".into() } if self.ch(1, 3) && !self.script { return self.one(&["let a b", "fn (", "let zz = ; g0", "struct Qq(a, b) { fn }", "undefined_name + 1", "g0 = = 1", "fn bad() { break }", "[1, 2"]).replace("[1, 2", "[1, 2)") } self.stmt(2) }
            10 => { self.structs += 1; let s = self.structs; let k = self.kind(); let e = self.e(k, 1); format!("struct St{}(ax, by) {{ fn go(self, v) {{ self->ax = v; self }} fn mk() -> [{}] }} m->p(St{}(1, [2])->go('later value')->ax);", s, e, s) }
            _ => self.stmt(2),
        }
    }
}

/// `addr`: also what depends on the identity of functions and types (equality, membership, grouping, order)
pub fn scenario(property: &str, seed: u64, mode: &str) -> Scenario {
    let mut r = Rng::new(mix(seed ^ 0x317D));
    let fx = *r.pick(&[0, 6, 15]);
    let mut w = W { r, kinds: vec![], lim: 8, n: 0, loc: vec![], structs: 0, fx, addr: property == "C17", script: mode != "free" && !mode.starts_with("det:r"), nest: 0, optable: false };
    let _ = w.nest;
    let mut inputs: Vec<Input> = [
        "native module m { fn p(x) fn c() fn v(a, b?) fn w(x, *rest) }",
        "let g0, g1, g2, g3, g4, g5, g6, g7 = (nil, nil, nil, nil, nil, nil, nil, nil), n0 = 0;", "let sl = [], sd = dict(), ss = set();",
        "fn add2(a, b) -> (a, b)",
        "struct Pt(fa, fb) { fn total(self) -> self->fa + self->fb fn setp(self, v) { self->fa = v; self } fn get(self, k) -> [self->fa, k] fn deco(self, k) { let c = fn() -> [self, k]; c() } }",
    ].iter().map(|l| Input { kind: "ok".into(), lines: vec![l.to_string()] }).collect();
    let n = 3 + w.r.below(10);
    for _ in 0..n { w.loc.clear(); let s = w.top(); inputs.push(Input { kind: "ok".into(), lines: vec![if w.script && !s.ends_with('}') && !s.ends_with(';') { format!("print({});", s).replace("print(exit);", "exit;") } else { s }] }) }
    inputs.push(Input { kind: "ok".into(), lines: vec!["print(sl, ss, n0);".into()] });
    let mut fail = vec![];
    if w.r.chance(1, 2) { for _ in 0..1 + w.r.below(2) { fail.push(w.r.below(20) as u64) } }
    let stdin = if mode.starts_with("det:s") { let n = w.r.below(6); (0..n).map(|_| w.one(&["one line\n", "second, longer line of input\r\n", "né 日本\n", "\n", "last", "\r\n", "x\ry\n"])).collect() } else { String::new() };
    Scenario { stdin, property: property.into(), seed, mode: mode.into(), inputs, plan: Plan { seed: mix(seed ^ 9), fail, web: false }, ..Scenario::default() }
}
