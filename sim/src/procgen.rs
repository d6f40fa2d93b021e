//! Workloads for whole simulated processes: what the program asks of its standard input, its files, its
//! native libraries, its arguments and environment, and what the world answers.
use crate::gen::{Gen, Prof, K, S};
use crate::model::{FsFault, Fv, Lib};
use crate::proc::Proc;
use crate::rng::Rng;
use crate::scen::Scenario;

/// what programs know about their world
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub paths: Vec<String>,
    /// native modules with their functions: name, required, optional, variadic
    pub mods: Vec<(String, Vec<(String, usize, usize, bool)>)>,
    pub envs: Vec<String>, pub odd_env: bool, pub argc: usize,
    /// the program is optimised: what fails is no constant expression
    pub fold: bool,
    /// statements that read standard input are of use
    pub input: bool,
}

const SHORT: &[&str] = &["'a'", "'hello'", "''", "'é'", "'日本語'", "'one\\ntwo\\n'", "'1\\r\\n2\\r\\n'", "'x\\ry'", "'\\r\\n'", "'naïve ünïcode text'", "'😀'", "'tab\\there'", "'\"quoted\"'", "'a\\\\b'"];

impl Gen {
    fn info(&self) -> Info { self.w.clone().unwrap_or_default() }
    fn path(&mut self) -> String { let w = self.info(); if w.paths.is_empty() { return "'/sim/none'".into() } if let (Some(s), true) = (self.vars(K::Str).iter().find(|s| s.starts_with("pa")).cloned(), self.r.chance(1, 8)) { return s } format!("'{}'", self.r.pick(&w.paths)) }
    /// a text, short or long
    fn words(&mut self) -> String {
        match self.r.below(14) {
            0 | 1 => { let n = *self.r.pick(&[100, 1023, 1024, 4097, 8191, 8192, 8193, 20000, 70000]); let s = *self.r.pick(&["'x'", "'é'", "'line\\n'", "'crlf\\r\\n'", "'日'"]); format!("({} * {})", s, n) }
            2 => "''".into(),
            3 => { let a = self.words2(); let b = self.words2(); format!("({} + {})", a, b) }
            4 => { let e = self.e(K::List, 1); format!("str({})", e) }
            5 => { let e = self.e(K::Int, 1); format!("str({})", e) }
            _ => self.words2(),
        }
    }
    fn words2(&mut self) -> String { if let (Some(s), true) = (self.var(K::Str), self.r.chance(1, 4)) { return s } (*self.r.pick(SHORT)).into() }
    /// what a program does with a value to make it seen
    fn seen(&mut self, e: &str) -> String {
        let f = *self.r.pick(&["print(repr({}));", "print(repr({}));", "print({});", "print(len({}));", "m->p({});", "print([{}]);", "let {n} = {}; print(repr({n}));", "print({} + '|');"]);
        if f.contains("{n}") { let n = self.fresh("v"); if !self.local() { self.declare(&n, K::Str); } return f.replace("{n}", &n).replace("{}", e) }
        f.replace("{}", e)
    }
    /// the same operation, made in some roundabout way
    fn route(&mut self, e: &str) -> String {
        let q = self.fresh("q");
        match self.r.below(22) {
            0 => format!("print([1, 2] . map(fn({q}) -> {e}));"),
            1 => format!("for {q} in range(2) {{ print({q}, repr({e})); }}"),
            2 => { let t = self.quote(e); format!("print(repr(eval({t})));") }
            3 => { let f = self.new_fn(); if !self.local() { self.declare(&f, K::F0); } format!("fn {f}() {{ let {q} = {e}; {q} }} print([{f}(), {f}()]);") }
            4 => format!("print(memoize(fn({q}) -> {e})(1));"),
            5 => format!("let {q} = dict() . default(fn() -> {e}); print([{q}[1], {q}[1], {q}[2]]);").replace("let q", if self.local() { "let q" } else { "let vq" }).replace(&format!("{q}["), &format!("{}{q}[", if self.local() { "" } else { "v" })),
            6 => format!("print(if {e} == '' then 'none' else {e});"),
            7 => format!("print([3, 1, 2] . filter(fn({q}) -> {q} > 1 and str({e}) != {q}));"),
            8 => format!("do {{ let {q} = [{e}, {e}]; print({q} . reverse); }}"),
            9 => format!("print([1, 2, 3] . reduce(fn({q}, r) -> str({e}) + r));"),
            _ => self.seen(e),
        }
    }
    pub fn io(&mut self, s: S) -> String {
        let w = self.info();
        match s {
            S::Stdin => {
                if !w.input { return self.io(S::Big) }
                match self.r.below(16) {
                    0 | 1 | 2 => self.route("read_line()"),
                    3 => { let n = self.r.below(6) + 1; let q = self.fresh("q"); format!("for {q} in range({n}) {{ print({q}, repr(read_line())); }}") }
                    4 => { let n = self.new_name(); if !self.local() { self.declare(&n, K::Str); } format!("let {n} = read_line(); print(len({n}));") }
                    5 => if self.r.chance(1, 3) { self.route("read()") } else { self.route("read_line()") },
                    6 => { let q = self.fresh("v"); let k = self.r.range(1, 5); if self.local() { format!("do {{ let {q} = read_line(), i = 0; while {q} != '' and i < {k} {{ print(repr({q})); {q} = read_line(); i += 1; }} }}") } else { format!("let {q} = read_line(), {q}i = 0; while {q} != '' and {q}i < {k} {{ print(repr({q})); {q} = read_line(); {q}i += 1; }}") } }
                    7 => "print([read_line(), read_line(), read_line()]);".into(),
                    8 => "print(read_line() + '/' + read_line());".into(),
                    9 => { let f = self.new_fn(); if !self.local() { self.declare(&f, K::F0); } format!("let {f} = read_line; print([{f}(), {f}()]);") }
                    10 => { let q = self.fresh("v"); format!("let {q} = [read_line, read]; print({q}[0]());") }
                    11 => "print({read_line(): read_line()});".into(),
                    12 => { let p = self.path(); if w.paths.is_empty() { return self.route("read_line()") } format!("write_text({p}, read_line()); print(repr(read_text({p})));") }
                    13 => "print(read_line() . split(' ') . map(repr));".into(),
                    14 => "print(read_line() == read_line());".into(),
                    _ => "print(repr(read_line()), repr(read_line()));".into(),
                }
            }
            S::File => {
                if w.paths.is_empty() { return self.io(S::Big) }
                let p = self.path();
                match self.r.below(24) {
                    0..=4 => { let t = self.words(); format!("write_text({p}, {t});") }
                    5 | 6 => self.route(&format!("read_text({p})")),
                    7 => { let t = self.words(); let t2 = t.clone(); format!("write_text({p}, {t}); print(read_text({p}) == {t2});") }
                    8 => { let t = self.words(); format!("write_text({p}, read_text({p}) + {t});") }
                    9 => { let t = self.words(); let p2 = self.path(); format!("write_text({p}, {t}); write_text({p2}, read_text({p})); print(len(read_text({p2})));") }
                    10 => { let p2 = self.path(); format!("print([{p}, {p2}] . map(read_text) . map(len));") }
                    11 => { let q = self.fresh("q"); format!("print([1, 22, 333] . map(fn({q}) {{ write_text({p}, str({q})); {q} }})); print(read_text({p}));") }
                    12 => { let q = self.fresh("q"); let f = *self.r.pick(&["[1, 2] . map", "[1, 2] . filter", "[1, 2] . any", "[[1], [2]] . flat_map"]); format!("print({f}(fn({q}) {{ write_text({p}, str({q})); 1 }}));") }
                    13 => { let f = self.new_fn(); let t = self.words(); if !self.local() { self.declare(&f, K::F1); } format!("let {f} = write_text({p}); {f}({t}); {f}('again'); print(repr(read_text({p})));") }
                    14 => { let e = *self.r.pick(&["5", "nil", "['a']", "{1, 2}", "true"]); if self.r.chance(1, 2) { format!("write_text({p}, {e});") } else { format!("write_text({e}, 'x');") } }
                    15 => { let e = *self.r.pick(&["5", "nil", "['/sim/a.txt']"]); format!("print(read_text({e}));") }
                    16 => { let b = self.boom(); format!("write_text({p}, 'before'); write_text({p}, str({b}));") }
                    17 => { let t = self.words(); let r = self.quote(&format!("write_text({}, {})", p, t)); format!("eval({r}); print(len(read_text({p})));") }
                    18 => { let q = self.fresh("q"); let t = self.words2(); format!("for {q} in range(3) {{ write_text({p}, str({q}) + {t}); print(repr(read_text({p}))); }}") }
                    19 => { let f = self.new_fn(); if !self.local() { self.declare(&f, K::F1); } let q = self.fresh("q"); format!("let {f} = memoize(fn({q}) -> read_text({p}) + {q}); print({f}('a')); write_text({p}, 'changed'); print({f}('a'), {f}('b'));") }
                    20 => { let q = self.fresh("q"); format!("for {q} in read_text({p}) . split('\\n') {{ print(repr({q})); }}") }
                    21 => { let a = self.words2(); format!("[{p}, {a}] . print; ({p} . write_text)('dotted'); print({p} . read_text);") }
                    22 => { let x = self.path(); format!("let {n} = [read_text({p}), read_text({x})]; print({n} . map(len));", n = self.fresh("v")) }
                    _ => { let t = self.words2(); format!("print(1); write_text({p}, {t}); {}; print(2);", self.probe("7".into())) }
                }
            }
            S::Native => {
                if w.mods.is_empty() { return self.io(S::Big) }
                let (m, fs) = self.r.pick(&w.mods).clone(); let (f, req, opt, var) = self.r.pick(&fs).clone();
                let name = format!("{}->{}", m, f);
                let exact = req + self.r.below(opt + 1);
                let n = match self.r.below(12) { 0 => req.saturating_sub(1), 1 => req + opt + 1, _ => exact } + if var { self.r.below(4) } else { 0 };
                let args: Vec<String> = (0..n).map(|_| self.foreign_arg()).collect();
                let call = format!("{}({})", name, args.join(", "));
                let q = self.fresh("q");
                match self.r.below(22) {
                    0 => self.route(&call),
                    1 => format!("print([1, 'b'] . map({name}));"),
                    2 => { let g = self.new_fn(); let c: Vec<&str> = args.iter().map(|a| a.as_str()).collect(); if !self.local() { self.declare(&g, K::Any); } format!("let {g} = {name}; print({g}({}));", c.join(", ")) }
                    3 if n > 0 => format!("print({}({})({}));", name, args[0], args[1..].join(", ")),
                    4 => { let a = self.foreign_arg(); format!("print({a} . {name});") }
                    5 => format!("print({}(...[{}]));", name, args.join(", ")),
                    6 => { let b = self.boom(); format!("{}({}{}{});", name, args.join(", "), if n > 0 { ", " } else { "" }, b) }
                    7 => format!("for {q} in range(3) {{ {name}({q}); }}"),
                    8 => { let (m2, f2) = (&w.mods[0].0, &w.mods[0].1[0].0); format!("print([{call}, {m2}->{f2}(1), {call}]);") }
                    9 => { let t = self.quote(&call); format!("print(eval({t}));") }
                    10 => format!("let {q} = {call}; print({q}, typeof({q}));").replace("let q", "let vq").replace(&format!("print({q}, typeof({q}))"), &format!("print(v{q}, typeof(v{q}))")),
                    11 => format!("do {{ let {q} = {name}; print({q}({})); }}", args.join(", ")),
                    12 => format!("print({name}({}) == {name}({}));", args.join(", "), args.join(", ")),
                    13 if !w.paths.is_empty() => { let p = self.path(); format!("write_text({p}, 'x'); {call}; write_text({p}, 'y');") }
                    14 => format!("fn f{q}() {{ {call}; {call} }} print(f{q}());"),
                    15 => format!("print(if {call} then 'yes' else 'no');"),
                    16 => format!("print(memoize({name})({}));", args.first().cloned().unwrap_or_default()),
                    _ => if self.r.chance(1, 2) { format!("print(repr({call}));") } else { format!("{call};") },
                }
            }
            S::Args => {
                let key = |g: &mut Gen| -> String { let w = g.info(); if w.envs.is_empty() || g.r.chance(1, 6) { return (*g.r.pick(&["'MISSING'", "''", "'A=B'", "'a'", "'LD_PRELOAD_'"])).into() } let k = g.r.pick(&w.envs).clone(); g.quote(&k) };
                match self.r.below(24) {
                    0 | 1 => "print(repr(argv()));".into(),
                    2 => "print(len(argv()));".into(),
                    3 => { let i = self.r.below(w.argc.max(1)); format!("print(repr(argv()[{}]));", i) }
                    4 => "for a in argv() { print(repr(a)); }".into(),
                    5 => { let n = self.fresh("v"); let op = *self.r.pick(&["push('extra')", "clear", "sort", "reverse", "insert(0, 'zero')"]); format!("let {n} = argv(); {n} . {op}; print(repr(argv()));") }
                    6 => "print(argv() == argv());".into(),
                    7 => "print(argv() . map(len));".into(),
                    8..=12 => { let k = key(self); format!("print(repr(env({k})));") }
                    13 => { let k = key(self); format!("print({k} in env());") }
                    14 => { let k = key(self); let v = w.envs.clone(); if v.is_empty() { format!("print(env({k}));") } else { let k = self.r.pick(&v).clone(); let k = self.quote(&k); format!("print(repr(env()[{k}]));") } }
                    15 => if w.odd_env { "len(env()); print('still here');".into() } else { "print(len(env()));".into() },
                    16 => if w.odd_env { "env() . keys . len; print('still here');".into() } else { "print(env() . keys . sort);".into() },
                    17 => if w.odd_env { "env(); print('still here');".into() } else { let q = self.fresh("q"); format!("for {q} in env() . keys . sort {{ print(repr({q}), repr(env({q}))); }}") },
                    18 => { let (a, b) = (key(self), key(self)); format!("print([{a}, {b}] . map(env));") }
                    19 => { let n = self.fresh("v"); format!("let {n} = env(); {n}['A'] = 'changed'; {n}['NEW'] = 'x'; print(repr(env('A')), repr(env('NEW')), 'NEW' in env());") }
                    20 => { let k = *self.r.pick(&["5", "nil", "['A']"]); format!("print(env({k}));") }
                    21 => { let k = key(self); let t = self.quote(&format!("[argv(), env({})]", k)); format!("print(eval({t}));") }
                    22 => { let f = self.new_fn(); let k = key(self); format!("fn {f}() -> [argv(), env({k})]; print({f}());") }
                    _ => { let k = key(self); self.probe(format!("env({k})")) + ";" }
                }
            }
            _ => match self.r.below(14) {
                0 => "print();".into(),
                1 => "print('');".into(),
                2 => { let n = *self.r.pick(&[10, 1022, 1023, 1024, 1025, 4095, 8190, 8191, 8192, 9000, 30000]); let c = *self.r.pick(&["'x'", "'é'", "'日本'", "'l\\n'"]); format!("print({} * {});", c, n) }
                3 => { let q = self.fresh("q"); let n = self.r.below(30) + 2; format!("for {q} in range({n}) {{ print({q}); }}") }
                4 => { let q = self.fresh("q"); let n = self.r.below(400) + 2; format!("print(range({n}) . map(fn({q}) -> {q} * 3));") }
                5 => "print('a', 1, nil, [true, 'x'], {'k': 'v'});".into(),
                6 => "print('no newline\\n' + '\\n', '\\n');".into(),
                7 => { let q = self.fresh("q"); format!("[1, 2, 3] . map(fn({q}) {{ print('cb', {q}); {q} }}) . print;") }
                8 => { let q = self.fresh("q"); let b = self.boom(); format!("[1, 2, 3] . map(fn({q}) {{ print('cb', {q}); if {q} == 2 {{ {b} }} {q} }}) . print;") }
                9 => { let q = self.fresh("q"); format!("for {q} in range(5) {{ print('x' * ({q} * 700)); }}") }
                10 => "print(eval('print(1); 2'));".replace("print(1); 2", "[print(1), 2]"),
                11 => { let t = self.words(); format!("print({t}, {t});") }
                12 => "['a', 'b'] . map(print);".into(),
                _ => { let t = self.words(); format!("print({t});") }
            },
        }
    }
    fn foreign_arg(&mut self) -> String {
        match self.r.below(20) {
            0 => (*self.r.pick(&["{1, 2}", "{'k': 1}", "(fn(x) -> x)", "range(3)", "print", "[1, {2}]", "('a' + char(0))", "heap([1])", "m"])).into(),
            1 => "nil".into(), 2 => "true".into(), 3 => "false".into(),
            4 => (*self.r.pick(&["2305843009213693951", "(0 - 2305843009213693951)", "1000000007", "0", "(0 - 1)"])).into(),
            5 | 6 => { let t = self.words2(); t }
            7 => "[[1, [2, nil]], 'x', []]".into(),
            8 => "(1, 'two', [3, (4, 5)])".into(),
            9 => "vector(1, 2)".into(),
            10 => { let t = self.words(); t }
            11 => "[]".into(),
            12 => { let e = self.e(K::List, 1); e }
            13 => { let b = self.r.chance(1, 4); if b { self.boom() } else { "'seven77'".into() } }
            14 => "'eight888'".into(),
            15 => { let e = self.e(K::Str, 1); e }
            _ => self.e(K::Int, 1),
        }
    }
}

fn answer(r: &mut Rng, d: u32) -> Fv {
    match r.below(if d > 0 { 16 } else { 12 }) {
        0 => Fv::Nil, 1 => Fv::Bool(true), 2 => Fv::Bool(false),
        3 => Fv::Int(*r.pick(&[0, -1, 1, 255, 256, 1 << 31, -(1 << 31), 1 << 32, (1 << 62) - 1, -(1 << 62), 1 << 53])), 4..=6 => Fv::Int(r.range(-50, 99)),
        7 => Fv::Str(String::new()), 8 => Fv::Str("seven77".into()), 9 => Fv::Str("eight888".into()), 10 => Fv::Str((*r.pick(&["é", "日本語", "a somewhat longer string value", "x\ny\r\n", "😀😀"])).into()), 11 => Fv::Str("z".repeat(*r.pick(&[100, 5000]))),
        _ => Fv::Arr((0..r.below(4)).map(|_| answer(r, d - 1)).collect()),
    }
}
fn answers(r: &mut Rng, fail: u32) -> Vec<Fv> {
    (0..r.below(20) + 1).map(|_| if r.chance(fail, 100) {
        match r.below(5) { 0 => Fv::NoText(vec![b'a', 0xff, b'b']), 1 => Fv::ErrNoText(vec![b'e', 0xc3]), 2 => Fv::Arr(vec![Fv::Int(1), Fv::NoText(vec![0x80]), Fv::Str("q".into())]), _ => Fv::Err((*r.pick(&["boom", "", "ünï failure", "a longer message: with: colons"])).into()) }
    } else { answer(r, 3) }).collect()
}

fn input_text(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..r.below(14) {
        match r.below(24) {
            0..=3 => {} 4..=7 => s.push_str(*r.pick(&["a", "hello", "two words", "  spaces  ", "'quoted'", "\\n", "0", "[1, 2]"])),
            8 | 9 => s.push_str(*r.pick(&["é", "日本語", "😀", "naïve ünïcode text"])),
            10 => s.push_str(*r.pick(&["a\rb", "\r", "x\r\ry", "end\r", "\u{c}", "\t", "\u{85}", "\u{2028}x"])),
            11 => { let n = *r.pick(&[100, 1023, 1024, 8190, 8191, 8192, 8193, 16400]); s.push_str(&"x".repeat(n)) }
            12 => { let n = *r.pick(&[100, 2730, 4095, 4096]); s.push_str(&"é".repeat(n)) }
            13 => s.push('\u{feff}'),
            14 => s.push('\0'),
            _ => s.push_str(&format!("line {}", r.below(100))),
        }
        s.push_str(*r.pick(&["\n", "\n", "\n", "\n", "\r\n", "\r\n", "\r\r\n", "\n\n", "\n\r\n"]));
    }
    if r.chance(2, 5) { while s.ends_with('\n') || s.ends_with('\r') { s.pop(); } if r.chance(1, 4) { s.push('\r') } }
    s.into_bytes()
}

const DIR: &str = "/sim/d";
fn disk(r: &mut Rng, p: &mut Proc, i: &mut Info, faults: usize) {
    p.dirs.push(DIR.into());
    i.paths = ["/sim/a.txt", "/sim/b.txt", "/sim/d/c.txt", "/sim/é x.txt"].iter().map(|s| s.to_string()).collect();
    if r.chance(1, 2) { i.paths.push((*r.pick(&["/sim/missing/x.txt", "/sim/d", "/sim/none.txt"])).into()) }
    for k in 0..r.below(4) {
        let c: Vec<u8> = match r.below(9) { 0 => vec![], 1 => b"old content".to_vec(), 2 => vec![b'a', 0xff, b'b'], 3 => "é".repeat(5000).into_bytes(), 4 => "crlf\r\nline\rend\r\n".into(), 5 => "x".repeat(*r.pick(&[31, 32, 33, 8192, 70000])).into_bytes(), 6 => vec![0xe6, 0x97], _ => "a\nb\n".into() };
        p.files.push((i.paths[k].clone(), c));
    }
    if r.chance(1, 2) { p.fs_seed = r.next() >> 16 | 1 }
    for _ in 0..faults { fs_fault(r, p) }
}
fn fs_fault(r: &mut Rng, p: &mut Proc) {
    // EIO ENOSPC EACCES EFBIG EDQUOT ENOENT EMFILE EROFS
    let stage = *r.pick(&['o', 'w', 'w', 'r']);
    let errno = *r.pick(match stage { 'o' => &[13, 5, 24, 2, 30, 20], 'w' => &[28, 5, 27, 122, 0, 11], _ => &[5i64, 21, 11, 116, 5, 5] });
    let after = match r.below(4) { 0 => 0, 1 => r.below(4), 2 => r.below(40), _ => r.below(9000) };
    p.faults.push(FsFault { op: 1 + r.below(12) as u64, stage, errno, after });
}
/// libraries for the modules, of which some are in trouble
fn libraries(r: &mut Rng, p: &mut Proc, i: &mut Info, trouble: bool) {
    p.libs.push(Lib { name: "sim:m".into(), ..Lib::default() }); p.links.push(("m".into(), "sim:m".into()));
    for k in 0..r.below(3) + 1 {
        let m = format!("nm{}", k);
        let mut fs: Vec<(String, usize, usize, bool)> = vec![];
        for _ in 0..r.below(5) + 1 { let (q, o, v) = (r.below(4), r.below(3), r.chance(1, 4)); let o = if v { 0 } else { o }; let pre = *r.pick(&["f", "f", "g", "ff", "get_", "p", "c"]); let n = format!("{}{}", pre, if r.chance(1, 2) { fs.len() } else { q * 10 + o }); if fs.iter().all(|f| f.0 != n) { fs.push((n, q, o, v)) } }
        if r.chance(1, 2) { fs.push(("same".into(), 1, 0, false)); fs.push(("same2".into(), 1, 0, false)); }
        let share = trouble && r.chance(1, 8);
        let name = if share { "sim:m".into() } else { format!("sim:lib{}", k) };
        if !share {
            let mut l = Lib { name: name.clone(), ..Lib::default() };
            if trouble && r.chance(1, 6) { l.fail_first = r.below(4) as u64 + 1 }
            if trouble && r.chance(1, 14) { l.no_init = true }
            if trouble && r.chance(1, 6) { l.missing = vec![fs[r.below(fs.len())].0.clone()] }
            if !(trouble && r.chance(1, 14)) { p.libs.push(l) }
        }
        if !(trouble && r.chance(1, 14)) { p.links.push((m.clone(), name)) }
        i.mods.push((m, fs));
    }
    if r.chance(1, 4) { p.links.push(("unused".into(), "sim:unused".into())) }
    if r.chance(1, 2) { p.links.reverse() }
}
pub fn modules(i: &Info) -> String {
    i.mods.iter().map(|(m, fs)| format!("native module {} {{ {} }}", m, fs.iter().map(|(f, q, o, v)| {
        let mut a: Vec<String> = (0..*q).map(|k| format!("a{}", k)).collect(); a.extend((0..*o).map(|k| { const D: &[&str] = &["?", "?", " = 5", " = 'dflt'", " = nil", " = [1, 'two']", " = m->p(70 + 1)", " = true", " = len('four')", " = if 2 > 1 then 8 else 9", " = (1 + nil)", " = -3"]; format!("b{}{}", k, { let d = D[crate::rng::hash_str(&format!("{}{}{}{}", m, f, k, i.mods.len())) as usize % D.len()]; if i.fold && d.contains('+') { " = 6" } else { d } }) })); if *v { a.push("*rest".into()) }
        format!("fn {}({})", f, a.join(", "))
    }).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" ")
}

fn bytes_of(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }

pub fn scenario(property: &str, seed: u64, mut prof: Prof) -> Scenario {
    let mut r = Rng::new(crate::rng::mix(seed ^ 0x9AC5));
    let mut p = Proc::default(); let mut i = Info::default();
    let mut sc = Scenario { property: property.into(), seed, ..Scenario::default() };
    let mut repl = false;
    prof.ffi_fail = 0;
    let w = |p: &mut Prof, own: &[(S, u32)]| for (s, k) in own { if let Some(e) = p.w.iter_mut().find(|e| e.0 == *s) { e.1 = *k } else { p.w.push((*s, *k)) } };
    let chunks = |r: &mut Rng| if r.chance(3, 4) { r.next() >> 16 | 1 } else { 0 };
    match property {
        "C07" | "C08" => {
            i.input = true;
            w(&mut prof, &[(S::Stdin, 60), (S::Big, 6)]);
            p.stdin = input_text(&mut r); sc.read_seed = chunks(&mut r);
            if r.chance(1, 3) { disk(&mut r, &mut p, &mut i, 0); }
            p.in_errno = *r.pick(&[5, 11, 6, 21, 110, 104, 12]);
            if property == "C08" || r.chance(1, 10) {
                let n = p.stdin.len();
                if r.chance(1, 2) || n == 0 { sc.read_fail = Some(r.below(n + 1)) } else {
                    let at = r.below(n + 1);
                    let bad: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xe6\x97", b"\xf0\x9f\x98", b"\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80"]);
                    let tail = p.stdin.split_off(at); p.stdin.extend(bad); p.stdin.extend(tail);
                }
            }
            prof.n = (3, 12);
        }
        "C09" => {
            w(&mut prof, &[(S::Big, 40), (S::Exit, 3), (S::Assert, 3), (S::Callback, 6)]);
            sc.write_seed = chunks(&mut r); if r.chance(3, 5) { sc.write_limit = Some(r.below(40000)) }
            p.out_errno = *r.pick(&[5, 28, 32, 11, 27, 0, 122]);
            p.err_seed = chunks(&mut r);
            repl = r.chance(2, 5); prof.fail = *r.pick(&[0, 15, 30]);
            if r.chance(1, 3) { disk(&mut r, &mut p, &mut i, 0); w(&mut prof, &[(S::File, 8)]); p.fs_seed = 0; }
            if repl { prof.reject = *r.pick(&[0, 0, 10]) }
        }
        "C10" => {
            let k = r.below(4);
            disk(&mut r, &mut p, &mut i, k);
            w(&mut prof, &[(S::File, 70), (S::Big, 3)]);
            repl = r.chance(1, 2); prof.fail = *r.pick(&[0, 0, 20]);
            if r.chance(1, 4) { p.crash = Some(r.below(400) as u64) }
            if !repl { if r.chance(1, 2) { p.faults.retain(|f| f.stage != 'x') } prof.n = (3, 10) }
        }
        "C11" => {
            let trouble = r.chance(2, 3);
            libraries(&mut r, &mut p, &mut i, trouble);
            let f = *r.pick(&[0, 0, 10, 25]);
            p.outcomes = answers(&mut r, f);
            w(&mut prof, &[(S::Native, 70), (S::Big, 2), (S::Callback, 4), (S::Memo, 2), (S::DictDefault, 2)]);
            repl = r.chance(1, 2); prof.fail = *r.pick(&[0, 15, 30]);
            if r.chance(1, 5) { disk(&mut r, &mut p, &mut i, 0) }
        }
        _ => {
            w(&mut prof, &[(S::Args, 60), (S::Big, 4)]);
            prof.n = (1, 7);
            const A: &[&str] = &["a", "--number-of-ducks", "2", "-run", "", " ", "-o", "--help", "-l", "m=x", "é", "日本語", "a b", "a\nb", "--", "-", "'quoted'", "\\", "$HOME", "*", "second.cor", "-h", "--link"];
            for _ in 0..r.below(6) { let a = bytes_of(*r.pick(A)); p.args.push(a) }
            if r.chance(1, 6) { let k = r.below(p.args.len() + 1); p.args.insert(k, vec![b'x', 0xff, b'y']) }
            const E: &[(&str, &str)] = &[("A", "1"), ("B", ""), ("LONG_NAME_OF_A_VARIABLE", "value with spaces"), ("É", "ünï"), ("EQ", "a=b=c"), ("NL", "line\nbreak\r\n"), ("lower", "x"), ("a", "not A"), ("EMPTY", ""), ("QUOTE", "'\"\\"), ("日本", "語"), ("PATH", "/sim/bin"), ("HOME", "/sim/d"), ("BIG", "")];
            for (k, v) in E { if r.chance(1, 3) { let v = if *k == "BIG" { "v".repeat(5000) } else { v.to_string() }; p.env.push((bytes_of(k), v.into_bytes())); i.envs.push(k.to_string()) } }
            if r.chance(1, 3) { i.odd_env = true; p.env.push(match r.below(3) { 0 => (vec![b'O', 0xff], b"v".to_vec()), 1 => (b"ODDVALUE".to_vec(), vec![0xc3, 0x28]), _ => (vec![0x80], vec![0xff]) }) }
            if r.chance(1, 2) { p.opts.push((*r.pick(&["-o", "--optimize", "--no-line-numbers", "--format-no-style"])).into()) }
            i.argc = p.args.len(); i.fold = p.opts.iter().any(|o| o == "-o" || o == "--optimize");
            p.fs_seed = chunks(&mut r);
            match r.below(16) {
                0 => p.no_script = "missing".into(), 1 => p.no_script = "directory".into(),
                2 => { let mut t = b"print('an effect'); write_text('/sim/a.txt', 'x');\n".to_vec(); let k = r.below(t.len()); t.insert(k, 0xff); p.script = Some(t) }
                3 => p.faults.push(FsFault { op: 0, stage: 'o', errno: *r.pick(&[13, 5, 24]), after: 0 }),
                4 => p.faults.push(FsFault { op: 0, stage: 'r', errno: *r.pick(&[5, 11, 116]), after: r.below(200) }),
                5 | 6 => prof.reject = 100,
                _ => {}
            }
            disk(&mut r, &mut p, &mut i, 0);
            if r.chance(3, 4) { libraries(&mut r, &mut p, &mut i, false) }
        }
    }
    if p.libs.is_empty() { p.libs.push(Lib { name: "sim:m".into(), ..Lib::default() }); p.links.push(("m".into(), "sim:m".into())) }
    if p.outcomes.is_empty() && r.chance(1, 2) { p.outcomes = answers(&mut r, 0) }
    sc.mode = if repl { "p:repl".into() } else { "p:script".into() };
    sc.proc = Some(p);
    crate::gen::session_in(sc, prof, Some(i))
}
