//! Query text against a reference tokenizer and a reference parser (C10-C13).
use harness::*;
use server::analysis::{AnnotatedToken, Parser, Statement, Token, Tokenizer};
use server::storage::StorageValue;

// ---------------------------------------------------------------- reference tokenizer
fn keyword(w: &str) -> Option<Token> {
    Some(match w {
        "get" => Token::Get, "set" => Token::Set, "del" => Token::Delete, "ex" => Token::Exists, "upd" => Token::Update,
        "lt" => Token::Lifetime, "try_get" => Token::GetOrNone, "try_set" => Token::SetIfNotExists, "none" => Token::None,
        "true" => Token::Bool(true), "false" => Token::Bool(false), "type" => Token::ValueType,
        "vset" => Token::VectorSet, "vget" => Token::VectorGet, "vpop" => Token::VectorPop, "vpush" => Token::VectorAppend, "vlen" => Token::VectorLength,
        "mex" => Token::MapExists, "mget" => Token::MapGet, "mset" => Token::MapSet, "mdel" => Token::MapDelete, "mlen" => Token::MapLength,
        "int" => Token::IntType, "float" => Token::FloatType, "str" => Token::StringType, "bool" => Token::BoolType,
        "vec" => Token::VectorType, "map" => Token::MapType, "shutdown" => Token::Shutdown,
        _ => return None,
    })
}
const KEYWORDS: [&str; 29] = ["get", "set", "del", "ex", "upd", "lt", "try_get", "try_set", "none", "true", "false", "type", "vset", "vget", "vpop", "vpush", "vlen",
    "mex", "mget", "mset", "mdel", "mlen", "int", "float", "str", "bool", "vec", "map", "shutdown"];

fn ends(c: char) -> bool { c.is_whitespace() || [';', ':', ',', ']', '}'].contains(&c) }

/// tokens before the first error, and whether there is one
fn reference(text: &str) -> (Vec<AnnotatedToken>, bool) {
    let c: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    loop {
        while i < c.len() && c[i].is_whitespace() { i += 1; }
        if i >= c.len() { return (out, false); }
        let s = i;
        let run = |mut j: usize| { while j < c.len() && !ends(c[j]) { j += 1; } j };
        let token = match c[i] {
            ';' => { i += 1; Token::Semicolon }
            '[' => { i += 1; Token::LeftBracket }
            ']' => { i += 1; Token::RightBracket }
            ',' => { i += 1; Token::Comma }
            ':' => { i += 1; Token::Colon }
            '{' => { i += 1; Token::LeftCurlyBracket }
            '}' => { i += 1; Token::RightCurlyBracket }
            '"' => {
                let mut v = String::new();
                i += 1;
                loop {
                    if i >= c.len() { return (out, true); }
                    if c[i] == '"' { i += 1; break; }
                    if c[i] == '\\' {
                        i += 1;
                        if i >= c.len() { return (out, true); }
                        v.push(match c[i] { '\\' => '\\', '"' => '"', 'r' => '\r', 't' => '\t', 'n' => '\n', _ => return (out, true) });
                    } else { v.push(c[i]); }
                    i += 1;
                }
                if i < c.len() && !ends(c[i]) { return (out, true); }
                Token::StringValue(Box::new(v))
            }
            x if x.is_numeric() || x == '-' => {
                i = run(i + 1);
                let t: String = c[s..i].iter().collect();
                if c[s + 1..i].contains(&'.') { match t.parse() { Ok(v) => Token::Float(v), Err(_) => return (out, true) } }
                else { match t.parse() { Ok(v) => Token::Integer(v), Err(_) => return (out, true) } }
            }
            x if x.is_alphabetic() || x == '_' => {
                i = run(i + 1);
                if c[s..i].iter().any(|x| !x.is_alphanumeric() && *x != '_') { return (out, true); }
                let w = c[s..i].iter().collect::<String>().to_lowercase();
                keyword(&w).unwrap_or_else(|| Token::Identifier(Box::new(w)))
            }
            _ => return (out, true),
        };
        out.push(AnnotatedToken { token, position: s, lexeme: c[s..i].iter().collect() });
    }
}

fn blank(r: &mut Rng) -> String { r.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{b}", " \u{85}"]).to_string() }
/// characters that look like blanks, letters, digits or quotes, and others from anywhere in Unicode
fn other_char(r: &mut Rng) -> char {
    if r.chance(1, 2) { return *r.pick(&['\u{feff}', '\u{200b}', '\u{200e}', '\u{2060}', '\u{ad}', '\u{180e}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{2028}', '\u{2003}', '\u{1680}', '\u{205f}', '“', '”', '«', '’', '`', '，', '；', '：', '．', '－', '−', '–', '—', '［', '｛', '＿', '‿', '٫', '・', '…', '%', '&', '/', '*', '!', '?', '|', '~', '^', '<', '>', '\u{300}', '\u{20dd}', 'Ⅷ', 'ª', 'ʰ', '𝔘', '߀', '𝟗', '㊿', '％']); }
    loop {
        let top = *r.pick(&[0x80u32, 0x100, 0x300, 0x3000, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(r.below(top as usize) as u32) { return c; }
    }
}
fn any_case(r: &mut Rng, s: &str) -> String { s.chars().map(|c| if r.chance(1, 3) { c.to_uppercase().next().unwrap() } else { c }).collect() }
fn fragment(r: &mut Rng) -> String {
    match r.below(16) {
        0 | 1 => { let k = *r.pick(&KEYWORDS); any_case(r, k) }
        2 | 3 => { let w = *r.pick(&["x", "key1", "_a", "aB_2", "é", "straße", "İd", "ǅ", "getx", "k²", "名前", "_", "sets", "x٣"]); any_case(r, w) }
        4 => r.pick(&["1", "-1", "0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "007", "-", "12a", "٣", "½", "1e5", "--1", "+1", "-0", "1_000", "5\"a\"", "1-2", "99999999999999999999999"]).to_string(),
        5 => r.pick(&["1.0", "-2.5", "1.", "-.5", ".5", "1.5e3", "1..2", "1e400.0", "3.4e39", "0.1", "1.0f", "-1.5E-3", "1.2.3", "7.", "1.25\"", "2.5x", "1.00000017881393432617187499", "1.00000005960464477539062501", "16777217.0", "16777219.000000001", "-16777217.0000000001", "0.000000000000000000000000000000000000000000000700649232162408535461864791644958", "3.40282356779733661637539395458142568447e38", "340282356779733661637539395458142568447.9", "340282346638528859811704183484516925440.0", "-0.0", "0.30000001192092896"]).to_string(),
        6 | 7 => {
            let mut s = "\"".to_string();
            for _ in 0..r.below(6) { s += *r.pick(&["a", "B", " ", "\\\\", "\\\"", "\\n", "\\t", "\\r", "é", ";", "\n", "'", "\\n\\n", "\\\\\\\"", "\\\\n", "{", "Xy", "\u{1F600}"]); }
            if r.chance(1, 12) { s += *r.pick(&["\\x", "\\", "\\0", "\\'", "\\u", "\\N"]); }
            if !r.chance(1, 12) { s.push('"'); }
            if r.chance(1, 12) { s += *r.pick(&["a", "\"", "1", "[", "{", "."]); }
            s
        }
        8 | 9 => r.pick(&[";", "[", "]", ",", ":", "{", "}", ";;", "[]", "{}"]).to_string(),
        11 => { let w = r.pick(words()); if w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { any_case(r, w) } else { format!("\"{}\"", w) } }
        12 => r.pick(numbers()).to_string(),
        13 => { // decimal fractions of any length
            let mut s = if r.chance(1, 3) { "-".to_string() } else { String::new() };
            for _ in 0..1 + r.below(12) { s.push((b'0' + r.below(10) as u8) as char); }
            s.push('.');
            for _ in 0..r.below(24) { s.push((b'0' + r.below(10) as u8) as char); }
            s
        }
        10 => if r.chance(1, 3) { other_char(r).to_string() } else { r.pick(&["#", "@", ".", "\\", "'", "=", "\u{0}", "(", "a-b", "a#", "$x", "x[", "x{", "a.b", "x\"y\"", "²", "\u{1F600}"]).to_string() },
        _ => "a".to_string(),
    }
}

fn query(r: &mut Rng, size: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(size.min(14) + 1) {
        if r.chance(1, 2) { s += &fragment(r); if !r.chance(1, 6) { s += &blank(r); } }
        else { let f = fragment(r); if r.chance(3, 4) { s += &blank(r); } s += &f; s += *r.pick(&[" ", ";", ",", "]", "", ":", "}"]); }
    }
    if r.chance(1, 6) { let n = s.chars().count(); s = s.chars().take(r.below(n + 1)).collect(); }
    s
}

fn on_small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, Stop> {
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap();
    h.join().map_err(|e| Stop::Violation(format!("panic: {}", panic_text(e))))
}

fn tokens(c: &mut Ctx) -> Res {
    let mut q = if c.index % 97 == 96 {
        // long texts
        let f = if c.rng.chance(1, 2) { blank(&mut c.rng) } else { fragment(&mut c.rng) };
        f.repeat(if c.index % 5 == 1 { 1_000_000 } else { 60_000 } / f.len().max(1))
    } else { query(&mut c.rng, c.size) };
    if c.index == 0 { q = String::new(); }
    log(format!("text {:?}", q.chars().take(400).collect::<String>()));
    if q.chars().count() > 400 { log(format!("({} characters)", q.chars().count())); }
    let (want, bad) = reference(&q);
    // the iterator
    let q2 = q.clone();
    let (got, err, after) = if c.is("C10") {
        on_small_stack(move || {
            let mut t = Tokenizer::new(&q2);
            let (mut got, mut err, mut after) = (vec![], false, vec![]);
            let limit = q2.chars().count() + 2;
            loop {
                match t.next() {
                    None => break,
                    Some(Ok(x)) => got.push(x),
                    Some(Err(e)) => { err = true; log(format!("{:?}", e)); break; }
                }
                if got.len() > limit { return (got, err, vec!["more tokens than characters".to_string()]); }
            }
            if err { for _ in 0..3 { if let Some(x) = t.next() { after.push(format!("{:?}", x)); } } }
            (got, err, after)
        })?
    } else {
        match Tokenizer::new(&q).tokenize() { Ok(v) => (v, false, vec![]), Err(_) => (vec![], true, vec![]) }
    };
    if c.is("C10") {
        c.check(&["C10"], after.is_empty(), || format!("after the error: {:?}", after))?;
        // tokenize agrees with its iterator
        let q2 = q.clone();
        let r = on_small_stack(move || Tokenizer::new(&q2).tokenize())?;
        c.check(&["C10"], r.is_err() == err, || format!("the iterator ends in an error: {}, tokenize returns an error: {}", err, r.is_err()))?;
        return c.check(&["C10"], r.is_err() || r.as_ref().ok() == Some(&got), || format!("tokenize returns {:?}", r));
    }
    c.check(&["C11"], err == bad, || format!("{} text that the lexical rules {}", if err { "rejected" } else { "accepted" }, if bad { "reject" } else { "accept" }))?;
    if err { return Ok(()); }
    for (i, (a, b)) in got.iter().zip(want.iter()).enumerate() { c.check(&["C11"], same(a, b), || format!("token {} is {:?}, the text says {:?}", i, a, b))?; }
    c.check(&["C11"], got.len() == want.len(), || format!("{} tokens instead of {}", got.len(), want.len()))
}

fn same(a: &AnnotatedToken, b: &AnnotatedToken) -> bool {
    a.position == b.position && a.lexeme == b.lexeme && format!("{:?}", a.token) == format!("{:?}", b.token)
}

// ---------------------------------------------------------------- reference parser
#[derive(Clone, Debug, PartialEq)]
enum V { Null, S(String, char), Vec(char, Vec<String>), Map(char, char, Vec<(String, String)>) }

struct P<'a> { t: &'a [Token], i: usize }
type R<T> = Result<T, ()>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Token> { self.t.get(self.i) }
    fn next(&mut self) -> R<&'a Token> { let t = self.peek().ok_or(())?; self.i += 1; Ok(t) }
    fn end(&self) -> bool { matches!(self.peek(), None | Some(Token::Semicolon)) }
    fn name(&mut self) -> R<String> { match self.next()? { Token::Identifier(s) => Ok(format!("{:?}", s)), _ => Err(()) } }
    fn scalar(&mut self) -> R<(String, char)> {
        Ok(match self.next()? {
            Token::Bool(b) => (format!("bool {}", b), 'b'),
            Token::Integer(i) => (format!("int {}", i), 'i'),
            Token::Float(f) => (format!("float {:?}", f), 'f'),
            Token::StringValue(s) => (format!("str {:?}", s), 's'),
            _ => return Err(()),
        })
    }
    fn key(&mut self) -> R<String> { match self.scalar()? { (s, 'i') | (s, 's') => Ok(s), _ => Err(()) } }
    fn index(&mut self) -> R<String> { match self.next()? { Token::Integer(i) if *i >= 0 => Ok(i.to_string()), _ => Err(()) } }
    fn lifetime(&mut self) -> R<String> { if self.end() { Ok("None".into()) } else { Ok(format!("Some({})", self.index()?)) } }
    fn typ(t: &Token) -> Option<char> { Some(match t { Token::BoolType => 'b', Token::IntType => 'i', Token::FloatType => 'f', Token::StringType => 's', _ => return None }) }
    fn value(&mut self) -> R<V> {
        if self.end() { return Ok(V::Null); }
        let c = match Self::typ(self.peek().unwrap()) { None => { let (s, c) = self.scalar()?; return Ok(V::S(s, c)); } Some(c) => c };
        self.i += 1;
        if self.end() { return Ok(V::Vec(c, vec![])); }
        if let Some(c2) = Self::typ(self.peek().unwrap()) {
            self.i += 1;
            if c != 'i' && c != 's' { return Err(()); }
            let mut m: Vec<(String, String)> = vec![];
            if self.peek() == Some(&Token::LeftCurlyBracket) {
                self.i += 1;
                if self.peek() == Some(&Token::RightCurlyBracket) { self.i += 1; return Ok(V::Map(c, c2, m)); }
                loop {
                    let (k, kc) = self.scalar()?;
                    if self.next()? != &Token::Colon || kc != c { return Err(()); }
                    let (v, vc) = self.scalar()?;
                    if vc != c2 { return Err(()); }
                    match m.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = v, None => m.push((k, v)) }
                    match self.next()? { Token::RightCurlyBracket => break, Token::Comma => (), _ => return Err(()) }
                }
            }
            return Ok(V::Map(c, c2, m));
        }
        if self.next()? != &Token::LeftBracket { return Err(()); }
        let mut v = vec![];
        if self.peek() == Some(&Token::RightBracket) { self.i += 1; return Ok(V::Vec(c, v)); }
        loop {
            let (x, xc) = self.scalar()?;
            if xc != c { return Err(()); }
            v.push(x);
            match self.next()? { Token::RightBracket => break, Token::Comma => (), _ => return Err(()) }
        }
        Ok(V::Vec(c, v))
    }
    fn statement(&mut self) -> R<String> {
        let k = self.next()?;
        let one = |p: &mut Self, n: &str| Ok(format!("{} {}", n, p.name()?));
        let keyed = |p: &mut Self, n: &str| { let a = p.name()?; Ok(format!("{} {} {}", n, a, p.key()?)) };
        let valued = |p: &mut Self, n: &str| { let a = p.name()?; let v = p.value()?; Ok(format!("{} {} {} {}", n, a, text(&v), p.lifetime()?)) };
        match k {
            Token::Get => one(self, "Get"), Token::Delete => one(self, "Delete"), Token::Exists => one(self, "Exists"), Token::GetOrNone => one(self, "GetIfExists"),
            Token::MapLength => one(self, "MapLength"), Token::ValueType => one(self, "ValueType"), Token::VectorLength => one(self, "VectorLength"), Token::VectorPop => one(self, "VectorPop"),
            Token::MapDelete => keyed(self, "MapDelete"), Token::MapExists => keyed(self, "MapExists"), Token::MapGet => keyed(self, "MapGet"),
            Token::MapSet => { let a = self.name()?; let k = self.key()?; Ok(format!("MapSet {} {} {}", a, k, self.scalar()?.0)) }
            Token::VectorAppend => { let a = self.name()?; Ok(format!("VectorAppend {} {}", a, self.scalar()?.0)) }
            Token::VectorGet => { let a = self.name()?; Ok(format!("VectorGet {} {}", a, self.index()?)) }
            Token::VectorSet => { let a = self.name()?; let i = self.index()?; Ok(format!("VectorSet {} {} {}", a, i, self.scalar()?.0)) }
            Token::Set => valued(self, "Set"), Token::SetIfNotExists => valued(self, "SetIfNotExists"), Token::Update => valued(self, "Update"),
            Token::SetLifetime => { let a = self.name()?; Ok(format!("UpdateLifetime {} {}", a, self.lifetime()?)) }
            Token::Shutdown => Ok("Shutdown".into()),
            _ => Err(()),
        }
    }
    fn query(&mut self) -> R<Vec<String>> {
        let mut out = vec![];
        loop {
            while self.peek() == Some(&Token::Semicolon) { self.i += 1; }
            if self.i >= self.t.len() { return Ok(out); }
            out.push(self.statement()?);
        }
    }
}

fn ty(c: char) -> &'static str { match c { 'b' => "Bool", 'i' => "Int", 'f' => "Float", _ => "String" } }
fn text(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::S(s, _) => s.clone(),
        V::Vec(c, x) => format!("vec {} [{}]", ty(*c), x.join(", ")),
        V::Map(k, c, m) => { let mut x: Vec<String> = m.iter().map(|(k, v)| format!("{} => {}", k, v)).collect(); x.sort(); format!("map {} {} {{{}}}", ty(*k), ty(*c), x.join(", ")) }
    }
}
fn value_text(v: &StorageValue) -> String {
    match v {
        StorageValue::Map(m) => {
            let mut x: Vec<String> = vals::entries(m).into_iter().map(|(k, v)| format!("{} => {}", vals::canon(k), vals::canon(v))).collect();
            x.sort();
            let more = if m.len() != x.len() { format!(" and {} more", m.len() as i64 - x.len() as i64) } else { String::new() };
            format!("map {:?} {:?} {{{}}}{}", m.key_type, m.collection_type, x.join(", "), more)
        }
        v => vals::canon(v),
    }
}
fn statement_text(s: &Statement) -> String {
    use Statement::*;
    let v = value_text;
    match s {
        Get(k) => format!("Get {:?}", k), Delete(k) => format!("Delete {:?}", k), Exists(k) => format!("Exists {:?}", k), GetIfExists(k) => format!("GetIfExists {:?}", k),
        MapLength(k) => format!("MapLength {:?}", k), ValueType(k) => format!("ValueType {:?}", k), VectorLength(k) => format!("VectorLength {:?}", k), VectorPop(k) => format!("VectorPop {:?}", k),
        MapDelete(k, x) => format!("MapDelete {:?} {}", k, v(x)), MapExists(k, x) => format!("MapExists {:?} {}", k, v(x)), MapGet(k, x) => format!("MapGet {:?} {}", k, v(x)),
        MapSet(k, x, y) => format!("MapSet {:?} {} {}", k, v(x), v(y)), VectorAppend(k, x) => format!("VectorAppend {:?} {}", k, v(x)),
        VectorGet(k, i) => format!("VectorGet {:?} {}", k, i), VectorSet(k, i, x) => format!("VectorSet {:?} {} {}", k, i, v(x)),
        Set(k, x, l) => format!("Set {:?} {} {:?}", k, v(x), l), SetIfNotExists(k, x, l) => format!("SetIfNotExists {:?} {} {:?}", k, v(x), l), Update(k, x, l) => format!("Update {:?} {} {:?}", k, v(x), l),
        UpdateLifetime(k, l) => format!("UpdateLifetime {:?} {:?}", k, l), Shutdown => "Shutdown".into(),
        other => format!("{:?}", other),
    }
}

fn scalar_token(r: &mut Rng) -> Token {
    match r.below(4) { 0 => Token::Bool(r.chance(1, 2)), 1 => Token::Integer(*r.pick(&vals::ints())), 2 => Token::Float(vals::float(r)), _ => Token::StringValue(Box::new(r.pick(&vals::texts()).clone())) }
}
fn typed_token(r: &mut Rng, c: usize) -> Token {
    if r.chance(1, 25) { return scalar_token(r); }
    match c { 0 => Token::Bool(r.chance(1, 2)), 1 => Token::Integer(*r.pick(&vals::ints())), 2 => Token::Float(vals::float(r)), _ => Token::StringValue(Box::new(r.pick(&vals::texts()).clone())) }
}
fn type_token(c: usize) -> Token { [Token::BoolType, Token::IntType, Token::FloatType, Token::StringType][c].clone() }
const PUNCT: [Token; 7] = [Token::Semicolon, Token::LeftBracket, Token::RightBracket, Token::Comma, Token::Colon, Token::LeftCurlyBracket, Token::RightCurlyBracket];

fn any_token(r: &mut Rng) -> Token {
    match r.below(6) {
        0 => scalar_token(r),
        1 => Token::Identifier(Box::new(r.pick(&["k", "x", "k1"]).to_string())),
        2 => type_token(r.below(4)),
        3 => r.pick(&PUNCT).clone(),
        4 => r.pick(&[Token::SetLifetime, Token::Lifetime, Token::None, Token::VectorType, Token::MapType]).clone(),
        _ => keyword(*r.pick(&KEYWORDS)).unwrap(),
    }
}
fn statement(r: &mut Rng, out: &mut Vec<Token>) {
    let name = Token::Identifier(Box::new(r.pick(&["k", "x", "k1", "é"]).to_string()));
    let kw = r.pick(&["get", "del", "ex", "try_get", "mlen", "type", "vlen", "vpop", "mdel", "mex", "mget", "mset", "vpush", "vget", "vset", "set", "try_set", "upd", "set", "shutdown", "!"]).to_string();
    out.push(if kw == "!" { Token::SetLifetime } else { keyword(&kw).unwrap() });
    if kw == "shutdown" { return; }
    out.push(name);
    let key = |r: &mut Rng| { let c = if r.chance(1, 2) { 1 } else { 3 }; typed_token(r, c) };
    match kw.as_str() {
        "mdel" | "mex" | "mget" => out.push(key(r)),
        "mset" => { out.push(key(r)); out.push(scalar_token(r)) }
        "vpush" => out.push(scalar_token(r)),
        "vget" => out.push(Token::Integer(*r.pick(&[0, 1, 5, -1, i64::MAX]))),
        "vset" => { out.push(Token::Integer(*r.pick(&[0, 1, 5, -1]))); out.push(scalar_token(r)) }
        "!" => if r.chance(2, 3) { out.push(Token::Integer(*r.pick(&[0, 1, 5, -1, i64::MAX]))) },
        "set" | "try_set" | "upd" => {
            let c = r.below(4);
            match r.below(8) {
                0 => return,
                1 | 2 => out.push(scalar_token(r)),
                3 => { out.push(type_token(c)); if r.chance(1, 2) { return; } out.push(Token::LeftBracket); out.push(Token::RightBracket) }
                4 | 5 => {
                    out.push(type_token(c)); out.push(Token::LeftBracket);
                    for i in 0..1 + r.below(4) { if i > 0 { out.push(Token::Comma); } out.push(typed_token(r, c)); }
                    out.push(Token::RightBracket)
                }
                _ => {
                    let k = if r.chance(1, 2) { 1 } else if r.chance(1, 10) { r.below(4) } else { 3 };
                    out.push(type_token(k)); out.push(type_token(c));
                    if r.chance(4, 5) {
                        out.push(Token::LeftCurlyBracket);
                        for i in 0..r.below(4) { if i > 0 { out.push(Token::Comma); } out.push(typed_token(r, k)); out.push(Token::Colon); out.push(typed_token(r, c)); }
                        out.push(Token::RightCurlyBracket)
                    }
                }
            }
            if r.chance(1, 3) { out.push(Token::Integer(*r.pick(&[0, 1, 5, 60, -1, i64::MAX]))); }
        }
        _ => (),
    }
}

/// a collection literal in which at most one element or key has another type
fn literal(r: &mut Rng, t: &mut Vec<Token>) {
    let plain = |r: &mut Rng, c: usize| match c { 0 => Token::Bool(r.chance(1, 2)), 1 => Token::Integer(vals::int(r)), 2 => Token::Float(vals::float(r)), _ => Token::StringValue(Box::new(vals::text(r))) };
    t.push(r.pick(&[Token::Set, Token::SetIfNotExists, Token::Update]).clone());
    t.push(Token::Identifier(Box::new("k".into())));
    let (k, c, n) = (if r.chance(1, 2) { 1 } else { 3 }, r.below(4), r.below(5));
    let map = r.chance(1, 2);
    let odd = if r.chance(1, 2) { r.below(2 * n + 1) } else { 2 * n + 1 };
    let other = r.below(4);
    if map { t.push(type_token(k)); }
    t.push(type_token(c));
    t.push(if map { Token::LeftCurlyBracket } else { Token::LeftBracket });
    for i in 0..n {
        if i > 0 { t.push(Token::Comma); }
        if map { t.push(plain(r, if odd == 2 * i + 1 { other } else { k })); t.push(Token::Colon); }
        t.push(plain(r, if odd == 2 * i { other } else { c }));
    }
    t.push(if map { Token::RightCurlyBracket } else { Token::RightBracket });
    if r.chance(1, 4) { t.push(Token::Integer(vals::int(r))); }
    if r.chance(1, 4) { t.push(Token::Semicolon); t.push(Token::Get); t.push(Token::Identifier(Box::new("k".into()))); }
}

fn parsing(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let mut t = vec![];
    if c.index % 197 == 196 {
        // long queries
        let mut one = vec![];
        if r.chance(1, 2) { one.push(Token::Semicolon); } else { statement(r, &mut one); one.push(Token::Semicolon); }
        for _ in 0..(if c.index % 5 < 3 { 300_000 } else { 20_000 }) / one.len() { t.extend(one.iter().cloned()); }
    } else if c.index % 211 == 210 {
        t = vec![Token::Set, Token::Identifier(Box::new("k".into())), Token::IntType, Token::LeftBracket];
        for _ in 0..(if c.index % 5 < 3 { 120_000 } else { 10_000 }) { t.push(Token::Integer(1)); t.push(Token::Comma); }
        t.push(Token::Integer(1)); t.push(Token::RightBracket);
    } else if c.index % 4 == 1 {
        literal(r, &mut t);
    } else {
        for _ in 0..r.below(4) + (c.index % 2) as usize {
            statement(r, &mut t);
            if !r.chance(1, 6) { t.push(Token::Semicolon); }
        }
        // damage
        for _ in 0..if r.chance(1, 2) { 0 } else { 1 + r.below(3) } {
            let n = t.len();
            match r.below(5) {
                0 => { t.truncate(r.below(n + 1)); }
                1 => if n > 0 { t.remove(r.below(n)); },
                2 => { let x = any_token(r); t.insert(r.below(n + 1), x); }
                3 => if n > 0 { let x = any_token(r); t[r.below(n)] = x; },
                _ => if n > 1 { let (a, b) = (r.below(n), r.below(n)); t.swap(a, b); },
            }
        }
    }
    log(format!("tokens {:?}", &t[..t.len().min(60)]));
    if t.len() > 60 { log(format!("({} tokens)", t.len())); }
    let want = P { t: &t, i: 0 }.query();
    let input: Vec<AnnotatedToken> = t.iter().enumerate().map(|(i, x)| AnnotatedToken { token: x.clone(), position: i, lexeme: "l".into() }).collect();
    let got = if c.is("C12") { on_small_stack(move || Parser::new(input).parse())? } else { Parser::new(input).parse() };
    if c.is("C12") { return Ok(()); }
    match (&got, &want) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Ok(w)) => {
            for (i, (a, b)) in g.iter().zip(w.iter()).enumerate() {
                c.check(&["C13"], statement_text(a) == *b, || format!("statement {} is {}, the query says {}", i, statement_text(a), b))?;
            }
            c.check(&["C13"], g.len() == w.len(), || format!("{} statements instead of {}", g.len(), w.len()))
        }
        (Ok(g), Err(_)) => c.check(&["C13"], false, || format!("accepted as {:?}, but the query does not fit the grammar", g.iter().map(statement_text).collect::<Vec<_>>())),
        (Err(e), Ok(w)) => c.check(&["C13"], false, || format!("rejected with {:?}, but the query says {:?}", e, w)),
    }
}

fn main() {
    main_with(|p| Policy { panic: p == "C10" || p == "C12", hang: p == "C10" || p == "C12" }, |c| if c.is("C10") || c.is("C11") { tokens(c) } else { parsing(c) });
}
