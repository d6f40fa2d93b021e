//! A minimal JSON reader and writer (the sandbox has no network, and the harness no dependencies).
#[derive(Clone, Debug, PartialEq)]
pub enum J { Nul, B(bool), I(i64), F(f64), S(String), A(Vec<J>), O(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> &J { if let J::O(v) = self { for (n, x) in v { if n == k { return x } } } &J::Nul }
    pub fn str(&self) -> String { if let J::S(s) = self { s.clone() } else { String::new() } }
    pub fn int(&self) -> i64 { match self { J::I(i) => *i, J::F(f) => *f as i64, _ => 0 } }
    pub fn bool(&self) -> bool { matches!(self, J::B(true)) }
    pub fn arr(&self) -> &[J] { if let J::A(v) = self { v } else { &[] } }
    pub fn opt_int(&self) -> Option<i64> { if let J::I(i) = self { Some(*i) } else { None } }
    pub fn text(&self) -> String { let mut s = String::new(); self.w(&mut s, 0, true); s.push('\n'); s }
    pub fn line(&self) -> String { let mut s = String::new(); self.w(&mut s, 0, false); s }
    fn w(&self, o: &mut String, d: usize, pretty: bool) {
        let nl = |o: &mut String, d: usize| if pretty { o.push('\n'); for _ in 0..d { o.push_str("  ") } };
        match self {
            J::Nul => o.push_str("null"), J::B(b) => o.push_str(&b.to_string()), J::I(i) => o.push_str(&i.to_string()),
            J::F(f) => o.push_str(&format!("{:.3}", f)), J::S(s) => quote(s, o),
            J::A(v) => {
                let small = v.iter().all(|x| !matches!(x, J::A(_) | J::O(_))) && v.iter().map(|x| if let J::S(s) = x { s.len() } else { 4 }).sum::<usize>() < 100;
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(if pretty && small { ", " } else { "," }) } if !small { nl(o, d + 1) } x.w(o, d + 1, pretty) }
                if !small && !v.is_empty() { nl(o, d) }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } nl(o, d + 1); quote(k, o); o.push_str(": "); x.w(o, d + 1, pretty) }
                if !v.is_empty() { nl(o, d) }
                o.push('}')
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let c: Vec<char> = s.chars().collect(); let mut i = 0;
        let v = val(&c, &mut i)?; ws(&c, &mut i);
        if i < c.len() { return Err("trailing text".into()) }
        Ok(v)
    }
}
fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"')
}
fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1 } }
fn val(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    let Some(&ch) = c.get(*i) else { return Err("eof".into()) };
    match ch {
        '{' => { *i += 1; let mut v = vec![]; loop { ws(c, i); match c.get(*i) { Some('}') => { *i += 1; return Ok(J::O(v)) } Some(',') => { *i += 1 } Some('"') => { let k = val(c, i)?.str(); ws(c, i); if c.get(*i) != Some(&':') { return Err("colon".into()) } *i += 1; v.push((k, val(c, i)?)) } _ => return Err("object".into()) } } }
        '[' => { *i += 1; let mut v = vec![]; loop { ws(c, i); match c.get(*i) { Some(']') => { *i += 1; return Ok(J::A(v)) } Some(',') => { *i += 1 } None => return Err("array".into()), _ => v.push(val(c, i)?) } } }
        '"' => {
            *i += 1; let mut s = String::new();
            loop {
                let Some(&x) = c.get(*i) else { return Err("string".into()) }; *i += 1;
                match x {
                    '"' => return Ok(J::S(s)),
                    '\\' => { let Some(&e) = c.get(*i) else { return Err("escape".into()) }; *i += 1; match e { 'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'), 'u' => { let h: String = c.iter().skip(*i).take(4).collect(); *i += 4; s.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).unwrap_or('?')) } e => s.push(e) } }
                    x => s.push(x)
                }
            }
        }
        _ => {
            let mut s = String::new();
            while *i < c.len() && (c[*i].is_alphanumeric() || matches!(c[*i], '-' | '+' | '.')) { s.push(c[*i]); *i += 1 }
            Ok(match s.as_str() { "null" => J::Nul, "true" => J::B(true), "false" => J::B(false), s => if let Ok(n) = s.parse::<i64>() { J::I(n) } else { J::F(s.parse::<f64>().map_err(|_| format!("bad token '{}'", s))?) } })
        }
    }
}
pub fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }
pub fn s(v: &str) -> J { J::S(v.to_string()) }
