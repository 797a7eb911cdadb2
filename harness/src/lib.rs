//! Native search used to replay failed obligations against the real code.
//! A case is determined by (property, seed); the report spells the case out.
pub mod oracle;
pub mod vals;
use std::cell::RefCell;
use std::io::{Seek, Write};
use std::panic::{self, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..3 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

/// the text of a literal, unless it is long or a format
fn unescape(w: &str) -> Option<String> {
    let mut out = String::new();
    let mut cs = w.chars();
    while let Some(c) = cs.next() {
        match c {
            '{' | '}' => return None,
            '\\' => match cs.next()? {
                'n' => out.push('\n'), 't' => out.push('\t'), 'r' => out.push('\r'), '0' => out.push('\0'),
                'x' => { let h: String = cs.by_ref().take(2).collect(); out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?); }
                'u' => { let h: String = cs.by_ref().skip(1).take_while(|c| *c != '}').collect(); out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?); }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    if out.is_empty() || out.len() > 24 { None } else { Some(out) }
}

fn literals() -> &'static (Vec<String>, Vec<i64>, Vec<String>) {
    static L: std::sync::OnceLock<(Vec<String>, Vec<i64>, Vec<String>)> = std::sync::OnceLock::new();
    fn walk(d: &std::path::Path, out: &mut String) {
        let Ok(es) = std::fs::read_dir(d) else { return };
        let mut es: Vec<_> = es.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es { if p.is_dir() { walk(&p, out) } else if p.extension().is_some_and(|e| e == "rs") { let t = std::fs::read_to_string(&p).unwrap_or_default(); *out += t.split("#[cfg(test)]").next().unwrap_or(""); out.push('\n') } }
    }
    L.get_or_init(|| {
        let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
        let mut src = String::new();
        walk(&std::path::Path::new(&root).join("server/src"), &mut src);
        let (mut ws, mut ns) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        for line in src.lines() {
            for (i, w) in line.replace("\\\"", "\\u{22}").split('"').enumerate() { if i % 2 == 1 { ws.extend(unescape(w)); } }
            // character literals
            let cs: Vec<char> = line.chars().collect();
            for i in 0..cs.len() {
                if cs[i] != '\'' { continue }
                if let Some(k) = (2..=9).find(|k| i + k < cs.len() && cs[i + k] == '\'' && !(*k == 2 && cs[i + 1] == '\\')) {
                    let w: String = cs[i + 1..i + k].iter().collect();
                    if k == 2 || w.starts_with('\\') { ws.extend(unescape(&w)); }
                }
            }
            for w in line.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                if !w.starts_with(|c: char| c.is_ascii_digit()) { continue }
                let w = w.replace('_', "");
                let n = if let Some(h) = w.strip_prefix("0x") { i64::from_str_radix(h, 16).ok() } else { w.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("i64").trim_end_matches("u32").trim_end_matches("i32").parse().ok() };
                if let Some(n) = n { for n in [n, n.saturating_add(1), n.saturating_sub(1)] { ns.insert(n); } }
            }
        }
        ws.insert("word".into());
        if ns.is_empty() { ns.insert(0); }
        let plain = ws.iter().filter(|w| !w.contains(|c: char| c.is_control() || c == '"' || c == '\\')).cloned().collect();
        (plain, ns.into_iter().collect(), ws.into_iter().collect())
    })
}
/// the short string and character literals of the code under test
pub fn literal_texts() -> &'static Vec<String> { &literals().2 }
/// the printable ones without quotes and backslashes
pub fn words() -> &'static Vec<String> { &literals().0 }
/// the integers written in the code under test, and their neighbours
pub fn numbers() -> &'static Vec<i64> { &literals().1 }

/// Why a case stops: a violation of the property under test, or a reason to drop the case.
pub enum Stop {
    Violation(String),
    Skip,
}

pub type Res = Result<(), Stop>;

thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); }

pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
pub fn take_log() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

pub fn violation<T>(s: impl Into<String>) -> Result<T, Stop> { Err(Stop::Violation(s.into())) }

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub size: usize,
    pub index: u64,
}

impl Ctx {
    pub fn is(&self, p: &str) -> bool { self.prop == p }
    /// a check: `tags` are the properties it speaks about; a failure of another property's check
    /// ends the case silently (the model no longer follows the code).
    pub fn check(&self, tags: &[&str], cond: bool, msg: impl FnOnce() -> String) -> Res {
        if cond { return Ok(()); }
        if tags.iter().any(|t| *t == self.prop) { return Err(Stop::Violation(msg())); }
        Err(Stop::Skip)
    }
    /// the same for an observation the model does not depend on
    pub fn observe(&self, tags: &[&str], cond: bool, msg: impl FnOnce() -> String) -> Res {
        if !cond && tags.iter().any(|t| *t == self.prop) { return Err(Stop::Violation(msg())); }
        Ok(())
    }
}

/// what a panic or a hang of the code under test means for a property
pub struct Policy {
    pub panic: bool,
    pub hang: bool,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

fn run_case(prop: &str, seed: u64, index: u64, policy: &Policy, f: fn(&mut Ctx) -> Res) -> (Option<String>, Vec<String>, bool) {
    let p = prop.to_string();
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let size = (index as usize / 40 + 2).min(60);
        let mut c = Ctx { prop: p, rng: Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(index)), size, index };
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        let log = take_log();
        let _ = tx.send((r.map_err(panic_text), log));
    }).unwrap();
    match rx.recv_timeout(Duration::from_secs(30)) {
        Ok((r, log)) => {
            let _ = h.join();
            match r {
                Ok(Ok(())) => (None, log, true),
                Ok(Err(Stop::Skip)) => (None, log, false),
                Ok(Err(Stop::Violation(s))) => (Some(s), log, true),
                Err(text) => if policy.panic { (Some(format!("panic: {}", text)), log, true) } else { (None, log, false) },
            }
        }
        Err(_) => if policy.hang { (Some("no answer within 30 s".to_string()), vec![], true) } else { (None, vec![], false) },
    }
}

/// usage: BIN search PROP SEED SECS OUT | BIN replay PROP SEED INDEX OUT
pub fn main_with(policy: fn(&str) -> Policy, f: fn(&mut Ctx) -> Res) {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let pol = policy(&prop);
    let out = a[5].clone();
    let report = |status: &str, index: u64, n: u64, full: u64, msg: &str, log: &[String]| {
        let j = serde_json::json!({"status": status, "property": prop, "seed": seed, "index": index, "cases": n, "completed": full, "message": msg, "case": log});
        let tmp = format!("{}.tmp", out);
        std::fs::File::create(&tmp).unwrap().write_all(j.to_string().as_bytes()).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
    };
    if a[1] == "replay" {
        let index: u64 = a[4].parse().unwrap();
        report("running", index, 0, 0, "the process ended while running this case", &[]);
        let (v, log, _) = run_case(&prop, seed, index, &pol, f);
        match v {
            Some(m) => { report("violation", index, 1, 1, &m, &log); std::process::exit(1) }
            None => { report("ok", index, 1, 1, "", &log); std::process::exit(0) }
        }
    }
    let secs: f64 = a[4].parse().unwrap();
    let t0 = Instant::now();
    let (mut index, mut full) = (0u64, 0u64);
    let mut sample = vec![];
    let mut last = Instant::now();
    report("running", 0, 0, 0, "the process ended while running a case", &[]);
    // which case is running, should the process die
    let mut at = std::fs::File::create(format!("{}.index", out)).unwrap();
    while t0.elapsed().as_secs_f64() < secs {
        if last.elapsed().as_millis() > 200 {
            report("running", index, index, full, "the process ended while running a case", &[]);
            last = Instant::now();
        }
        let _ = at.seek(std::io::SeekFrom::Start(0));
        let _ = at.write_all(format!("{:020}", index).as_bytes());
        let (v, log, complete) = run_case(&prop, seed, index, &pol, f);
        if let Some(m) = v {
            report("violation", index, index + 1, full, &m, &log);
            std::process::exit(1);
        }
        if complete { full += 1; if log.len() < 40 { sample = log; } }
        index += 1;
    }
    report("ok", 0, index, full, "", &sample);
    std::process::exit(0);
}
