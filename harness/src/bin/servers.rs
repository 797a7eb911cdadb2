//! The servers against the interpreter run directly (C14-C16, C19-C21).
use harness::oracle::outcome;
use harness::*;
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
use server::auth::{AuthenticationResult, AuthenticationService, AuthorizationLevel};
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamRequest, StreamSender};
use server::multithreaded::analysis::{AnalysisPool, AnalysisRequest};
use server::multithreaded::executor::{Executor, ExecutorRequest, ExecutorResponse};
use server::multithreaded::expiration::ExpirationWorker;
use server::multithreaded::listener::ListenerPool;
use server::single_threaded::SingleThreadedServer;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{CollectionType, Storage, StorageElement, StorageValue, StorageVector};
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::{self, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Answer = Result<InterpreterResponse, ServerError>;
type I = Interpreter<HashMapStorage>;

fn text(a: &Answer) -> String { match a { Err(e) => format!("error {:?}", e), Ok(_) => outcome(a) } }

/// does this request shut the server down? (its statements one by one on an interpreter of their own)
fn shuts(b: &mut I, ss: &[Statement], level: AuthorizationLevel) -> Option<bool> {
    if !harness::oracle::permitted(ss, level)? { return Some(false); }
    for s in ss {
        let r = b.interpret(InterpreterRequest { statements: vec![s.clone()], authorization: AuthorizationLevel::Admin });
        if matches!(s, Statement::Shutdown) { return Some(true); }
        if r.is_err() { return Some(false); }
    }
    Some(false)
}

/// statements of a query, by the code's own tokenizer and parser (their correctness is C10-C13)
fn analyse(q: &str) -> Result<Vec<Statement>, ServerError> {
    let mut t = Tokenizer::new(q);
    let tokens = t.tokenize()?;
    Parser::new(tokens).parse()
}

fn query(r: &mut Rng) -> String {
    let n = if r.chance(1, 8) { 0 } else { 1 + r.below(4) };
    let mut s = vec![];
    for _ in 0..n {
        let k = *r.pick(&["a", "b", "c", "d"]);
        let i = r.below(6).to_string();
        s.push(match r.below(26) {
            0..=3 => format!("set {} {}", k, i),
            4 => format!("set {} \"x{}\"", k, i),
            5 => format!("upd {} {}", k, i),
            6 => format!("set {} int [1, {}]", k, i),
            7 => format!("set {} int str {{{}: \"b\"}}", k, i),
            8..=11 => format!("get {}", k),
            12 => format!("try_get {}", k),
            13 => format!("try_set {} {}", k, i),
            14 => format!("del {}", k),
            15 => format!("ex {}", k),
            16 => format!("vpush {} {}", k, i),
            17 => format!("vlen {}", k),
            18 => format!("mset {} {} \"y\"", k, i),
            19 => format!("mget {} {}", k, i),
            20 => format!("type {}", k),
            21 => if r.chance(1, 3) { "shutdown".to_string() } else { format!("get {}", k) },
            22 => (*r.pick(&["get", "set", "set a 9999999999999999999999", "bogus a", "\"open", "set a [1, \"x\"]", "get \u{1F600}", "mset", "]", "set a 1 2 3"])).to_string(),
            23 => "shutdown extra".to_string(),
            _ => format!("get {}", k),
        });
    }
    s.join(*r.pick(&[";", "; ", " ;\n"]))
}

fn user(r: &mut Rng) -> HashMap<String, String> {
    let mut h = HashMap::new();
    h.insert("Host".to_string(), "admin".to_string());
    let name = *r.pick(&["admin", "admin", "admin", "admin", "write", "write", "read", "unauthenticated", "Admin", "nobody", "", "", "administrator"]);
    if name.is_empty() { if r.chance(1, 2) { h.insert("username".to_string(), "admin".to_string()); } else if r.chance(1, 2) { h.insert("Username".to_string(), "".to_string()); } }
    else { h.insert("Username".to_string(), if r.chance(1, 6) { near(r, name) } else { name.to_string() }); }
    if r.chance(1, 6) {
        // no other header counts
        let w = r.pick(words()).clone();
        let name = if r.chance(1, 8) { "Authorization".to_string() } else { w };
        if name.bytes().all(|c| c.is_ascii_alphabetic() || c == b'-') && !["content-length", "username", "host"].contains(&name.to_ascii_lowercase().as_str()) {
            h.insert(name, match r.below(5) { 0 => r.pick(words()).clone(), 1 => "write".into(), 2 => "read".into(), _ => "admin".into() });
        }
    }
    h
}

/// a name close to one of the table
fn near(r: &mut Rng, name: &str) -> String {
    let name = if r.chance(1, 2) { *r.pick(&["admin", "write", "read", "unauthenticated"]) } else { name };
    let c = *r.pick(&['1', '2', '0', ' ', '_', '-', '.', 's', 'A', '@', '/', '\t', '"', ';', '*', '#', ':']);
    let mut v: Vec<char> = name.chars().collect();
    match r.below(10) {
        0 | 1 | 2 => v.push(c),
        3 | 4 => v.insert(0, c),
        5 => { v.pop(); }
        6 => return name.to_uppercase(),
        7 => { if !v.is_empty() { v[0] = v[0].to_ascii_uppercase(); } }
        8 => { let i = r.below(v.len() + 1); v.insert(i, c); }
        _ => { let w = v.clone(); v.extend(w); }
    }
    v.into_iter().collect()
}

enum Admit { Level(AuthorizationLevel), No(&'static str) }

/// the documented table of users
fn table(h: &HashMap<String, String>) -> Admit {
    match h.get("Username").map(|s| s.as_str()) {
        None => Admit::No("InternalError"),
        Some("unauthenticated") => Admit::No("AuthenticationError"),
        Some("admin") => Admit::Level(AuthorizationLevel::Admin),
        Some("write") => Admit::Level(AuthorizationLevel::Write),
        Some("read") => Admit::Level(AuthorizationLevel::Read),
        Some(_) => Admit::No("AuthorizationError"),
    }
}

#[derive(Clone)]
struct Got { index: usize, answer: Answer }
type Box_ = Arc<Mutex<Vec<Got>>>;

struct Reply { index: usize, to: Box_, fails: bool }
impl StreamSender for Reply {
    fn send(&mut self, response: Answer) -> Result<(), ServerError> {
        self.to.lock().unwrap().push(Got { index: self.index, answer: response });
        if self.fails { Err(ServerError::NetworkError("the peer is gone".to_string())) } else { Ok(()) }
    }
}

fn dup(r: &Result<String, ServerError>) -> Result<String, ServerError> { r.clone() }

#[derive(Clone)]
struct Req { request: Result<String, ServerError>, headers: HashMap<String, String>, sender: bool, fails: bool }

fn requests(c: &mut Ctx, n: usize) -> Vec<Req> {
    (0..n).map(|_| {
        let request = if c.rng.chance(1, 12) { Err(c.rng.pick(&[ServerError::RequestError("Malformed request.".into()), ServerError::NetworkError("x".into())]).clone()) } else { Ok(query(&mut c.rng)) };
        let x = Req { request, headers: user(&mut c.rng), sender: !c.rng.chance(1, 10), fails: c.rng.chance(1, 10) };
        log(format!("user {:?}{}: {:?}", x.headers.get("Username"), if x.sender { "" } else { " (no sender)" }, x.request));
        x
    }).collect()
}

fn stream(x: &Req, index: usize, to: &Box_) -> StreamRequest {
    StreamRequest { request: dup(&x.request), headers: x.headers.clone(), sender: if x.sender { Some(Box::new(Reply { index, to: to.clone(), fails: x.fails })) } else { None } }
}

// ---------------------------------------------------------------- one thread
struct Script { left: VecDeque<StreamRequest>, taken: Arc<AtomicUsize> }
impl StreamHandler for Script {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        let x = self.left.pop_front();
        if x.is_some() { self.taken.fetch_add(1, Ordering::SeqCst); }
        x
    }
}

fn kind_of(a: &Answer) -> String { let t = outcome(a); t }

fn single(c: &mut Ctx) -> Res {
    let n = 1 + c.rng.below(2 + c.size);
    let reqs = requests(c, n);
    let to: Box_ = Default::default();
    let taken = Arc::new(AtomicUsize::new(0));
    let script = Script { left: reqs.iter().enumerate().map(|(i, x)| stream(x, i, &to)).collect(), taken: taken.clone() };
    let mut s = SingleThreadedServer::new();
    s.serve(script);
    let got = to.lock().unwrap().clone();
    let mut i: I = Interpreter::new(HashMapStorage::new());
    let mut down = None;
    let mut b: I = Interpreter::new(HashMapStorage::new());
    let mut want: Vec<(Option<Answer>, Vec<String>, bool)> = vec![]; // expected answer, or kinds; touches the store
    for (j, x) in reqs.iter().enumerate() {
        let auth = table(&x.headers);
        let e = match (&auth, &x.request) {
            (Admit::Level(l), Ok(q)) => match analyse(q) {
                Ok(ss) => {
                    let s = shuts(&mut b, &ss, *l);
                    let r = i.interpret(InterpreterRequest { statements: ss, authorization: *l });
                    let d = matches!(r, Ok(InterpreterResponse::ShuttingDown));
                    if d { down = Some(j); }
                    if let Some(s) = s { c.check(&["C15"], s == d, || format!("request {} {} shut the server down; it answers {}", j, if s { "must" } else { "must not" }, text(&r)))?; }
                    (Some(r), vec![], true)
                }
                Err(e) => (Some(Err(e)), vec![], false),
            },
            (Admit::Level(_), Err(e)) => (Some(Err(e.clone())), vec![], false),
            (Admit::No(k), Ok(_)) => (None, vec![k.to_string()], false),
            (Admit::No(k), Err(e)) => (None, vec![k.to_string(), harness::oracle::kind(e).to_string()], false),
        };
        want.push(e);
        if down.is_some() { break; }
    }
    let seen = taken.load(Ordering::SeqCst);
    c.check(&["C15"], seen >= want.len(), || format!("the server stopped after request {} although no shutdown was executed", seen))?;
    c.check(&["C15"], seen <= want.len(), || format!("the server went on after the shutdown of request {}", want.len()))?;
    for (j, (exact, kinds, ran)) in want.iter().enumerate() {
        let mine: Vec<&Got> = got.iter().filter(|g| g.index == j).collect();
        if !reqs[j].sender { continue; }
        c.check(&["C16"], mine.len() == 1, || format!("request {} was answered {} times", j, mine.len()))?;
        let a = &mine[0].answer;
        match exact {
            Some(w) => c.check(if *ran { &["C16", "C14"] } else { &["C16"] }, text(a) == text(w), || format!("request {} was answered {} instead of {}", j, text(a), text(w)))?,
            None => c.check(&["C14"], kinds.iter().any(|k| kind_of(a) == format!("error {}", k) || text(a).starts_with(&format!("error {}(", k))), || format!("request {} of a user who must be turned down was answered {} (expected {:?})", j, text(a), kinds))?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- executor
fn wait(d: u64) -> Duration { Duration::from_millis(d) }

fn executor(c: &mut Ctx) -> Res {
    let (tx, rx) = mpsc::channel();
    let flag = Arc::new(AtomicBool::new(false));
    let mut e = Executor::new(rx, flag.clone());
    e.start();
    let mut i: I = Interpreter::new(HashMapStorage::new());
    let n = 1 + c.rng.below(2 + c.size);
    let mut b: I = Interpreter::new(HashMapStorage::new());
    let mut kept = vec![];
    let mut down = false;
    let mut result = Ok(());
    for j in 0..n {
        let level = *c.rng.pick(&[AuthorizationLevel::Admin, AuthorizationLevel::Admin, AuthorizationLevel::Write, AuthorizationLevel::Read]);
        let mut q = query(&mut c.rng);
        if c.is("C15") && c.rng.chance(1, 8) { q = format!("{}{}shutdown", q, if q.is_empty() { "" } else { "; " }); }
        let ss = match analyse(&q) { Ok(ss) => ss, Err(_) => continue };
        let few = c.rng.chance(1, 6);
        let mode = c.rng.below(if few { 2 } else { 10 });
        log(format!("{:?} {:?}{}", level, ss, match mode { 0 => " (no reply channel)", 1 => " (nobody waits)", _ => "" }));
        let w = i.interpret(InterpreterRequest { statements: ss.clone(), authorization: level });
        let is_down = matches!(w, Ok(InterpreterResponse::ShuttingDown));
        if let Some(s) = shuts(&mut b, &ss, level) {
            result = c.check(&["C15"], s == is_down, || format!("request {} {} shut the server down; it answers {}", j, if s { "must" } else { "must not" }, text(&w)));
            if result.is_err() { break; }
        }
        // the flag must be down until a shutdown was executed
        result = c.check(&["C15"], !flag.load(Ordering::SeqCst) || down, || format!("the shutdown signal was raised before request {} although no shutdown was executed", j));
        if result.is_err() { break; }
        let (rt, rr) = mpsc::channel();
        let rr = if mode == 1 { drop(rr); None } else { Some(rr) };
        let request = InterpreterRequest { statements: ss, authorization: level };
        let sent = tx.send(ExecutorRequest { request, sender: if mode == 0 { None } else { Some(rt) } }).is_ok();
        result = c.check(&["C16", "C15"], sent, || "the executor is gone".to_string());
        if result.is_err() { break; }
        down |= is_down;
        if let (true, Some(rr)) = (mode >= 2, rr) {
            match rr.recv_timeout(wait(4000)) {
                Ok(a) => result = c.check(&["C16", "C14"], text(&a.response) == text(&w), || format!("request {} was answered {} instead of {}", j, text(&a.response), text(&w))),
                Err(_) => result = c.check(&["C16"], false, || format!("request {} was not answered", j)),
            }
            kept.push((j, rr));
        }
        if result.is_err() { break; }
    }
    if result.is_ok() {
        // a last request, so that everything before it has been executed
        let (rt, rr) = mpsc::channel();
        let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::Null], authorization: AuthorizationLevel::Read }, sender: Some(rt) });
        let answered = rr.recv_timeout(wait(4000)).is_ok();
        result = c.check(&["C16"], answered, || "the last request was not answered".to_string());
        result?;
        drop(tx);
        e.stop();
        let now = flag.load(Ordering::SeqCst);
        c.check(&["C15"], now == down, || format!("a shutdown was {}executed, the signal is {}raised", if down { "" } else { "not " }, if now { "" } else { "not " }))?;
        for (j, rr) in kept { let more = rr.try_iter().count(); c.check(&["C16"], more == 0, || format!("request {} was answered {} times", j, 1 + more))?; }
        return Ok(());
    }
    drop(tx);
    result
}

// ---------------------------------------------------------------- analysers
fn analysers(c: &mut Ctx) -> Res {
    let workers = 1 + c.rng.below(3);
    let (atx, arx) = mpsc::channel();
    let (etx, erx) = mpsc::channel::<ExecutorRequest>();
    let mut pool = AnalysisPool::new(workers, etx, Arc::new(Mutex::new(arx)));
    pool.start();
    let n = 1 + c.rng.below(2 + c.size);
    let mut sent = vec![];
    for _ in 0..n {
        let q = query(&mut c.rng);
        let level = *c.rng.pick(&[AuthorizationLevel::Admin, AuthorizationLevel::Write, AuthorizationLevel::Read]);
        let silent = c.rng.chance(1, 10);
        log(format!("{:?} {:?}{}", level, q, if silent { " (no reply channel)" } else { "" }));
        let (rt, rr) = mpsc::channel::<ExecutorResponse>();
        let _ = atx.send(AnalysisRequest { request: q.clone(), authorization: level, sender: if silent { None } else { Some(rt) } });
        sent.push((q, level, silent, rr));
    }
    let well = sent.iter().filter(|x| analyse(&x.0).is_ok()).count();
    // play the executor: every request gets its own number back
    let mut queued: Vec<(String, AuthorizationLevel, bool)> = vec![];
    let t0 = Instant::now();
    while queued.len() < well && t0.elapsed() < wait(4000) {
        if let Ok(q) = erx.recv_timeout(wait(50)) {
            let k = queued.len();
            queued.push((format!("{:?}", q.request.statements), q.request.authorization, q.sender.is_some()));
            if let Some(s) = q.sender { let _ = s.send(ExecutorResponse { response: Err(ServerError::InternalError(k.to_string())) }); }
        }
    }
    let mut result = Ok(());
    let mut used = vec![false; queued.len()];
    for (j, (q, level, silent, rr)) in sent.iter().enumerate() {
        if *silent { continue; }
        let w = analyse(q);
        let a = match rr.recv_timeout(wait(4000)) { Ok(a) => a.response, Err(_) => { result = c.check(&["C16"], false, || format!("request {} ({:?}) was not answered", j, q)); break } };
        match (&w, &a) {
            (Ok(ss), Err(ServerError::InternalError(k))) if k.parse::<usize>().map(|k| k < queued.len()).unwrap_or(false) => {
                let k: usize = k.parse().unwrap();
                used[k] = true;
                result = c.check(&["C16"], queued[k].0 == format!("{:?}", ss), || format!("request {:?} was queued as {}", q, queued[k].0))
                    .and_then(|_| c.check(&["C14"], queued[k].1 == *level, || format!("request {:?} at level {:?} was queued at level {:?}", q, level, queued[k].1)));
            }
            (Ok(_), a) => result = c.check(&["C16"], false, || format!("request {:?} was answered {}", q, text(a))),
            (Err(e), a) => result = c.check(&["C16"], text(a) == text(&Err(e.clone())), || format!("request {:?} was answered {} instead of {:?}", q, text(a), e)),
        }
        if result.is_err() { break; }
    }
    drop(atx);
    if result.is_ok() { pool.stop(); }
    drop(pool);
    result?;
    let extra: Vec<_> = erx.try_iter().collect();
    c.check(&["C16", "C14"], extra.is_empty() && queued.len() <= well, || format!("{} requests were queued for {} well-formed ones", queued.len() + extra.len(), well))?;
    let mut rest: Vec<(String, AuthorizationLevel)> = sent.iter().filter(|x| x.2).filter_map(|x| analyse(&x.0).ok().map(|s| (format!("{:?}", s), x.1))).collect();
    for (k, u) in used.iter().enumerate() {
        if *u { continue; }
        let p = rest.iter().position(|r| r.0 == queued[k].0 && r.1 == queued[k].1);
        c.check(&["C14", "C16"], p.is_some() && !queued[k].2, || format!("{} at level {:?} was queued, which nobody sent", queued[k].0, queued[k].1))?;
        rest.remove(p.unwrap());
    }
    c.check(&["C16"], rest.is_empty(), || format!("{:?} was not queued", rest))?;
    for (j, x) in sent.iter().enumerate() { let more = x.3.try_iter().count(); c.check(&["C16"], more == 0, || format!("request {} was answered {} times", j, 1 + more))?; }
    Ok(())
}

// ---------------------------------------------------------------- listeners
struct Door { left: VecDeque<StreamRequest>, taken: Arc<AtomicUsize> }
impl StreamHandler for Door {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        match self.left.pop_front() {
            Some(x) => { self.taken.fetch_add(1, Ordering::SeqCst); Some(x) }
            None => { std::thread::sleep(wait(2)); None }
        }
    }
}

struct Table;
fn verdict(h: &HashMap<String, String>) -> Result<AuthenticationResult, ServerError> {
    match h.get("u").map(|s| s.as_str()) {
        Some("a") => Ok(AuthenticationResult::Authenticated("a".into(), Some(AuthorizationLevel::Admin))),
        Some("w") => Ok(AuthenticationResult::Authenticated("w".into(), Some(AuthorizationLevel::Write))),
        Some("r") => Ok(AuthenticationResult::Authenticated("r".into(), Some(AuthorizationLevel::Read))),
        Some("n") => Ok(AuthenticationResult::Authenticated("n".into(), None)),
        Some("k") => Err(ServerError::KeyError("the service broke".into())),
        Some("x") => Ok(AuthenticationResult::Unauthenticated),
        _ => Err(ServerError::InternalError("the service broke".into())),
    }
}
impl AuthenticationService for Table {
    fn authenticate(&mut self, h: &HashMap<String, String>) -> Result<AuthenticationResult, ServerError> { verdict(h) }
}

fn listeners(c: &mut Ctx) -> Res {
    let workers = 1 + c.rng.below(3);
    let n = 1 + c.rng.below(2 + c.size.min(20));
    let mut reqs = requests(c, n);
    for (j, x) in reqs.iter_mut().enumerate() {
        x.headers = HashMap::new();
        let u = *c.rng.pick(&["a", "a", "a", "w", "w", "r", "n", "x", "k", "?"]);
        x.headers.insert("u".into(), u.into());
        if let Ok(q) = &mut x.request { *q = if c.rng.chance(1, 8) { format!("{}{}", " ".repeat(j), c.rng.pick(&["", "\n", ";"])) } else { format!("{} #{}", q, j) }; }
        log(format!("{} user {}", j, u));
    }
    let to: Box_ = Default::default();
    let taken = Arc::new(AtomicUsize::new(0));
    let door = Door { left: reqs.iter().enumerate().map(|(i, x)| stream(x, i, &to)).collect(), taken: taken.clone() };
    let (atx, arx) = mpsc::channel::<AnalysisRequest>();
    let mut pool = ListenerPool::new(workers, atx, Arc::new(Mutex::new(door)), Arc::new(Mutex::new(Table)));
    // play the analysers: late answers, lost requests, a closed queue
    let closed = c.rng.chance(1, 20);
    let lost = if c.rng.chance(1, 8) { c.rng.below(n) } else { n };
    let seen: Arc<Mutex<Vec<(usize, String, AuthorizationLevel)>>> = Default::default();
    let seen2 = seen.clone();
    let player = std::thread::spawn(move || {
        if closed { return; }
        let mut held: Vec<Sender<ExecutorResponse>> = vec![];
        let mut k = 0;
        for q in arx {
            seen2.lock().unwrap().push((k, q.request, q.authorization));
            if let Some(s) = q.sender { if k == lost { held.push(s) } else { let _ = s.send(ExecutorResponse { response: Err(ServerError::WriteError(k.to_string())) }); } }
            k += 1;
        }
    });
    if closed { std::thread::sleep(wait(1)); }
    pool.start();
    let due = reqs.iter().filter(|x| x.sender).count();
    let t0 = Instant::now();
    while (taken.load(Ordering::SeqCst) < n || to.lock().unwrap().len() < due) && t0.elapsed() < wait(6000) { std::thread::sleep(wait(1)); }
    let slow = t0.elapsed() > wait(800); // an answer may have come too late
    std::thread::sleep(wait(3));
    pool.stop();
    drop(pool);
    let _ = player.join();
    let got = to.lock().unwrap().clone();
    let seen = seen.lock().unwrap().clone();
    let admitted = |x: &Req| matches!(verdict(&x.headers), Ok(AuthenticationResult::Authenticated(_, Some(_)))) && x.request.is_ok();
    let mut passed = 0;
    for (j, x) in reqs.iter().enumerate() {
        let mine: Vec<&Got> = got.iter().filter(|g| g.index == j).collect();
        if x.sender { c.check(&["C16"], mine.len() == 1, || format!("request {} was answered {} times", j, mine.len()))?; }
        let q: Vec<_> = seen.iter().filter(|s| x.request.as_ref().map(|r| *r == s.1).unwrap_or(false)).collect();
        passed += q.len();
        if !admitted(x) { c.check(&["C14"], q.is_empty(), || format!("request {} of a user who must be turned down was passed on", j))?; }
        else if !closed {
            c.check(&["C16"], q.len() == 1, || format!("request {} was passed on {} times", j, q.len()))?;
            if let Ok(AuthenticationResult::Authenticated(_, Some(l))) = verdict(&x.headers) {
                c.check(&["C14"], q[0].2 == l, || format!("request {} of a user with level {:?} was passed on at level {:?}", j, l, q[0].2))?;
            }
        }
        if !x.sender { continue; }
        let a = &mine[0].answer;
        let t = text(a);
        let ok = |k: &str| t.starts_with(&format!("error {}(", k));
        match (verdict(&x.headers), &x.request) {
            (Ok(AuthenticationResult::Authenticated(_, Some(_))), Ok(_)) => {
                if slow && ok("InternalError") { continue; }
                if closed || q[0].0 == lost { c.check(&["C16"], ok("InternalError"), || format!("request {} was answered {}, although it has no outcome", j, t))?; }
                else { c.check(&["C16"], t == text(&Err(ServerError::WriteError(q[0].0.to_string()))), || format!("request {} was answered {}, its outcome is number {}", j, t, q[0].0))?; }
            }
            (Ok(AuthenticationResult::Authenticated(_, Some(_))), Err(e)) => c.check(&["C16"], t == text(&Err(e.clone())), || format!("request {} was answered {} instead of {:?}", j, t, e))?,
            (v, r) => {
                let good = match v { Err(e) => t == text(&Err(e)), Ok(AuthenticationResult::Unauthenticated) => ok("AuthenticationError"), _ => ok("AuthorizationError") };
                let read = r.as_ref().err().map(|e| t == text(&Err(e.clone()))).unwrap_or(false);
                c.check(&["C14", "C16"], good || read, || format!("request {} of a user who must be turned down was answered {}", j, t))?;
            }
        }
    }
    c.check(&["C16", "C14"], passed == seen.len(), || format!("{} requests were passed on, {} of them nobody sent", seen.len(), seen.len() - passed))?;
    Ok(())
}

// ---------------------------------------------------------------- everything together
fn ask(port: u16, who: &str, q: &str) -> Option<String> {
    let t0 = Instant::now();
    let mut s = loop {
        match std::net::TcpStream::connect(("127.0.0.1", port)) { Ok(s) => break s, Err(_) => { if t0.elapsed() > wait(3000) { return None } std::thread::sleep(wait(10)) } }
    };
    let _ = s.set_read_timeout(Some(wait(5000)));
    let body = serde_json::json!({ "query": q }).to_string();
    s.write_all(format!("POST / HTTP/1.1\r\nUsername: {}\r\nContent-Length: {}\r\n\r\n{}", who, body.len(), body).as_bytes()).ok()?;
    let mut out = String::new();
    let _ = s.read_to_string(&mut out);
    Some(out)
}

fn whole(c: &mut Ctx) -> Res {
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let (dtx, drx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = server::multithreaded::Coordinator::new(2, 2, "127.0.0.1".parse().unwrap(), port as usize);
        s.serve();
        let _ = dtx.send(());
    });
    let status = |r: &Option<String>| r.as_ref().map(|s| s.split(' ').nth(1).unwrap_or("").to_string()).unwrap_or_default();
    let r = ask(port, "admin", "set a 5");
    if r.is_none() { return Err(Stop::Skip); }
    c.check(&["C16"], status(&r) == "200", || format!("set a 5 by admin answered {:?}", r))?;
    let r = ask(port, "read", "set a 6");
    c.check(&["C14"], status(&r) == "401", || format!("set a 6 by read answered {:?}", r))?;
    let r = ask(port, "nobody", "set a 6");
    c.check(&["C14"], status(&r) == "401", || format!("set a 6 by nobody answered {:?}", r))?;
    let r = ask(port, "unauthenticated", "shutdown");
    c.check(&["C14"], status(&r) == "403", || format!("shutdown by unauthenticated answered {:?}", r))?;
    let r = ask(port, "write", "shutdown");
    c.check(&["C14"], status(&r) == "401", || format!("shutdown by write answered {:?}", r))?;
    let r = ask(port, "read", "get a");
    c.check(&["C16", "C14"], r.as_ref().map(|s| s.contains('5')).unwrap_or(false) && status(&r) == "200", || format!("get a by read answered {:?}", r))?;
    c.check(&["C15"], drx.recv_timeout(wait(1300)).is_err(), || "the server stopped although no shutdown was executed".to_string())?;
    let r = ask(port, "admin", "shutdown");
    c.check(&["C16"], status(&r) == "200", || format!("shutdown by admin answered {:?}", r))?;
    c.check(&["C15", "C21"], drx.recv_timeout(wait(20000)).is_ok(), || "the server did not stop after a shutdown was executed".to_string())?;
    Ok(())
}

// ---------------------------------------------------------------- the server programs themselves
/// one answer over the wire: status and payload
fn wire_ask<'a>(who: impl IntoIterator<Item = &'a (String, String)>, body: &str, secs: u64) -> Option<(String, String)> {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", 7878)).ok()?;
    let _ = s.set_read_timeout(Some(Duration::from_secs(secs)));
    let head: String = who.into_iter().map(|(k, v)| format!("{}: {}\r\n", k, v)).collect();
    s.write_all(format!("POST / HTTP/1.1\r\nHost: admin\r\n{}Content-Length: {}\r\n\r\n{}", head, body.len(), body).as_bytes()).ok()?;
    let mut out = String::new();
    let _ = s.read_to_string(&mut out);
    let (h, b) = out.split_once("\n\n")?;
    Some((h.lines().next().unwrap_or("").split(' ').nth(1).unwrap_or("").to_string(), b.trim_end_matches('\n').to_string()))
}

fn on_wire(a: &Answer) -> (String, String) {
    match a {
        Ok(r) => ("200".to_string(), serde_json::json!(r).to_string()),
        Err(e) => (server::error::get_error_code(e).split(' ').next().unwrap_or("").to_string(), format!("{}", e)),
    }
}
/// the order of the entries of a map is not determined
fn unordered(v: &serde_json::Value) -> serde_json::Value {
    use serde_json::Value;
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| match (k.as_str(), unordered(v)) {
            ("map", Value::Array(mut a)) => { a.sort_by_key(|x| x.to_string()); (k.clone(), Value::Array(a)) }
            (_, v) => (k.clone(), v),
        }).collect()),
        Value::Array(a) => Value::Array(a.iter().map(unordered).collect()),
        _ => v.clone(),
    }
}
fn same_wire(a: &(String, String), b: &(String, String)) -> bool {
    if a.0 != b.0 { return false; }
    if a.1 == b.1 { return true; }
    match (serde_json::from_str(&a.1), serde_json::from_str(&b.1)) { (Ok(x), Ok(y)) => unordered(&x) == unordered(&y), _ => false }
}

struct Port(std::fs::File);
/// the programs all listen on 7878: one at a time on this machine
fn port() -> Option<Port> {
    let f = std::fs::OpenOptions::new().create(true).write(true).open(std::env::temp_dir().join("verif-port-7878.lock")).ok()?;
    let t0 = Instant::now();
    loop {
        if f.try_lock().is_ok() {
            if std::net::TcpListener::bind("127.0.0.1:7878").is_ok() { return Some(Port(f)); }
            let _ = f.unlock();
        }
        if t0.elapsed() > wait(3000) { return None; }
        std::thread::sleep(wait(20));
    }
}

/// is there a socket listening on 7878? (binding it to find out could get into the way of the program)
fn listening() -> bool {
    ["/proc/net/tcp", "/proc/net/tcp6"].iter().any(|f| std::fs::read_to_string(f).unwrap_or_default().lines().any(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        w.len() > 3 && w[1].ends_with(":1EC6") && w[3] == "0A"
    }))
}

struct Program(std::process::Child);
impl Drop for Program { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
impl Program {
    fn start(name: &str) -> Option<Program> {
        let exe = std::env::current_exe().ok()?.parent()?.join(name);
        let p = Program(std::process::Command::new(exe).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().ok()?);
        let t0 = Instant::now();
        // not even a connection is made before the first request: it would count as one
        while t0.elapsed() < wait(5000) {
            if listening() { return Some(p); }
            std::thread::sleep(wait(5));
        }
        None
    }
    fn gone(&mut self, ms: u64) -> bool {
        let t0 = Instant::now();
        loop {
            if matches!(self.0.try_wait(), Ok(Some(_)) | Err(_)) { return true; }
            if t0.elapsed() > wait(ms) { return false; }
            std::thread::sleep(wait(5));
        }
    }
}

fn program(c: &mut Ctx, name: &str) -> Res {
    let _port = match port() { Some(p) => p, None => return Err(Stop::Skip) };
    log(format!("the program {}", name));
    let mut p = match Program::start(name) { Some(p) => p, None => return Err(Stop::Skip) };
    let slow = name != "sut_simple";
    let mut i: I = Interpreter::new(HashMapStorage::new());
    let n = 4 + c.rng.below(8 + c.size);
    let long = c.rng.below(3);
    for j in 0..n {
        let mut h = user(&mut c.rng);
        for v in h.values_mut() { *v = v.trim_matches(|x| x == ' ' || x == '\t').to_string(); }
        let who: Vec<(String, String)> = h.iter().filter(|(k, _)| k.as_str() != "Host").map(|(k, v)| (k.clone(), v.clone())).collect();
        let q = loop { let q = query(&mut c.rng); if !matches!(table(&h), Admit::Level(AuthorizationLevel::Admin)) || !q.contains("shutdown") { break q } };
        // a long request of which a part runs or none, and what it left behind
        let q = if j == long {
            if !matches!(table(&h), Admit::Level(AuthorizationLevel::Write)) { h = HashMap::from([("Username".to_string(), "write".to_string())]); }
            let number = c.rng.chance(1, 2);
            let size = if number { (*c.rng.pick(numbers())).clamp(1, 1500) as usize } else { *c.rng.pick(&[2usize, 9, 17, 33, 66, 129, 258, 1030]) };
            let first = c.rng.below(size + 1);
            let stop = *c.rng.pick(&["get nosuchkey", "get nosuchkey", "upd nosuchkey 1", "vlen nosuchkey", "shutdown"]);
            format!("set bulk 1; {}{}; {}upd bulk 2; set bulk2 3", "ex x; ".repeat(first), stop, "ex x; ".repeat(size - first))
        } else if j == long + 1 { "get bulk".to_string() } else if j == long + 2 { "ex bulk2".to_string() } else { q };
        let bad = c.rng.chance(1, 12) && (j < long || j > long + 2);
        if j > long && j <= long + 2 { h = HashMap::from([("Username".to_string(), "write".to_string())]); }
        let who: Vec<(String, String)> = if j < long || j > long + 2 { who } else { h.iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
        let body = if bad { serde_json::json!({ "querry": q }).to_string() } else { serde_json::json!({ "query": q }).to_string() };
        log(format!("{} {:?}: {}", j, who, if body.len() < 2000 { body.clone() } else { format!("{} bytes: {} ...", body.len(), &body[..120]) }));
        let auth = table(&h);
        let want = match (&auth, bad) {
            (Admit::Level(_), true) => Some(Err(ServerError::RequestError("Malformed request.".into()))),
            (Admit::Level(l), false) => Some(analyse(&q).and_then(|ss| i.interpret(InterpreterRequest { statements: ss, authorization: *l }))),
            (Admit::No(_), _) => None,
        };
        let got = match wire_ask(&who, &body, 8) {
            Some(g) => g,
            None => {
                if p.gone(300) { return c.check(&["C15", "C16"], false, || format!("the server ended at request {} although no shutdown was executed", j)); }
                return c.check(&["C16"], false, || format!("request {} was not answered", j));
            }
        };
        if slow && got.1.contains("timed out") { return Err(Stop::Skip); }
        match want {
            Some(w) => { let t = on_wire(&w); c.check(if bad { &["C16"] } else if j >= long && j <= long + 2 { &["C16", "C14", "C19"] } else { &["C16", "C14"] }, same_wire(&got, &t), || format!("request {} was answered {:?} instead of {:?}", j, got, t))? }
            None => {
                let codes: Vec<&str> = match auth { Admit::No("InternalError") => vec!["500"], Admit::No("AuthenticationError") => vec!["403"], _ => vec!["401"] };
                c.check(&["C14"], codes.contains(&got.0.as_str()) || (bad && got.0 == "400"), || format!("request {} of a user who must be turned down was answered {:?}", j, got))?
            }
        }
    }
    // several clients at once: everybody gets their own answers
    if slow {
        let k = 2 + c.rng.below(4);
        let seeds: Vec<u64> = (0..k).map(|_| c.rng.next()).collect();
        let clients: Vec<_> = seeds.into_iter().enumerate().map(|(t, seed)| std::thread::spawn(move || {
            let who = Some(("Username".to_string(), "admin".to_string()));
            let mut bad = None;
            let mut r = Rng::new(seed);
            for j in 0..4usize {
                let v = (t * 1000 + j) as _;
                let (q, w) = if j % 2 == 0 { (format!("set c{} {}; get c{}", t, v, t), StorageValue::Int(v)) } else { let (q, w) = unit(&mut r, t + 1); (format!("set x 0; set y 0; set z 0; set x0 0; {}", q), w) };
                let w = on_wire(&Ok(InterpreterResponse::Value(w)));
                match wire_ask(&who, &serde_json::json!({ "query": q }).to_string(), 8) {
                    Some(g) if g.1.contains("timed out") => return None,
                    Some(g) if same_wire(&g, &w) => (),
                    g => { bad = Some(format!("{} was answered {:?} instead of {:?}", q, g, w)); break }
                }
            }
            bad
        })).collect();
        for h in clients { if let Ok(Some(m)) = h.join() { c.check(&["C16", "C19"], false, || m)?; } }
    }
    if c.is("C19") { return Ok(()); }
    let admin = Some(("Username".to_string(), "admin".to_string()));
    let failing = serde_json::json!({ "query": "get nosuchkey; shutdown" }).to_string();
    let _ = wire_ask(&Some(("Username".into(), "write".into())), &serde_json::json!({ "query": "get a; shutdown" }).to_string(), 8);
    let _ = wire_ask(&admin, &failing, 8);
    if c.is("C15") { c.check(&["C15"], !p.gone(if slow { 1400 } else { 100 }), || "the server ended although no shutdown was executed".to_string())?; }
    let _ = wire_ask(&admin, &serde_json::json!({ "query": "set a 1; shutdown; set a 2" }).to_string(), 8);
    if c.is("C15") { c.check(&["C15"], p.gone(if slow { 20000 } else { 4000 }), || "the server did not end after a shutdown was executed".to_string())?; }
    Ok(())
}

// ---------------------------------------------------------------- one at a time (C19)
/// a request over shared keys and the answer it has in every serial order
fn unit(r: &mut Rng, me: usize) -> (String, StorageValue) {
    let v = (me * 1000 + r.below(1000)) as _;
    let (a, b) = *r.pick(&[("x", "y"), ("y", "x"), ("x", "x0"), ("z", "x")]);
    let filler = *r.pick(&["", "; get x0", "; try_get q; try_get q", "; set f 1; set f 2; set f 3", "; ex x; ex y; ex z"]);
    let filler = filler.repeat(*r.pick(&[1, 1, 1, 2, 5, 12, 30, 70]));
    match r.below(6) {
        0 => (format!("set {} {}; set {} {}{}; get {}", a, v, b, me, filler, a), if a == b { StorageValue::Int(me as _) } else { StorageValue::Int(v) }),
        1 => (format!("set {} {}{}; get {}; get {}", a, v, filler, b, a), StorageValue::Int(v)),
        2 => (format!("set v int [1]; vpush v {}{}; vpush v 3; vlen v; vget v 1", v, filler), StorageValue::Int(v)),
        3 => (format!("set {} {}; del {}{}; try_set {} {}; get {}", a, v, a, filler, a, v, a), StorageValue::Int(v)),
        4 => (format!("set m int int {{1: 2}}; mset m 7 {}{}; mget m 7", v, filler), StorageValue::Int(v)),
        _ => (format!("set {} {}{}; upd {} {}; get {}", a, me, filler, a, v, a), StorageValue::Int(v)),
    }
}

/// one long request and short ones behind it
fn long(c: &mut Ctx) -> Res {
    let n = *c.rng.pick(&[1usize, 8, 9, 16, 17, 33, 65, 129, 300, 1025, 3000, 12000]);
    let short = 1 + c.rng.below(20);
    log(format!("a request of {} statements that sets and reads x, {} requests behind it that set x", n + 2, short));
    let (tx, rx) = mpsc::channel();
    let mut e = Executor::new(rx, Arc::new(AtomicBool::new(false)));
    e.start();
    let set = |v: i64| Statement::Set("x".to_string(), StorageValue::Int(v as _), None);
    let get = || Statement::Get("x".to_string());
    let mut v = vec![set(1)];
    for _ in 0..n { v.push(get()); }
    v.push(get());
    let (rt, rr) = mpsc::channel();
    let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements: v, authorization: AuthorizationLevel::Admin }, sender: Some(rt) });
    let pause = c.rng.below(3) as u64 * 500;
    for _ in 0..short {
        let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![set(2)], authorization: AuthorizationLevel::Write }, sender: None });
        if pause > 0 { std::thread::sleep(Duration::from_micros(pause)); }
    }
    let a = rr.recv_timeout(wait(8000));
    std::mem::forget(e);
    match a { Ok(a) => c.check(&["C19"], text(&a.response) == text(&Ok(InterpreterResponse::Value(StorageValue::Int(1)))), || format!("the long request was answered {}", text(&a.response))), Err(_) => Err(Stop::Skip) }
}

fn serial(c: &mut Ctx) -> Res {
    if c.rng.chance(1, 3) { return long(c); }
    let (workers, clients, each) = (1 + c.rng.below(4), 2 + c.rng.below(6), 3 + c.rng.below(10));
    let (etx, erx) = mpsc::channel();
    let (atx, arx) = mpsc::channel();
    let flag = Arc::new(AtomicBool::new(false));
    let mut e = Executor::new(erx, flag);
    let mut pool = AnalysisPool::new(workers, etx.clone(), Arc::new(Mutex::new(arx)));
    e.start();
    pool.start();
    for k in ["x", "y", "z", "x0"] { let _ = etx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::Set(k.to_string(), StorageValue::Int(0), None)], authorization: AuthorizationLevel::Admin }, sender: None }); }
    log(format!("{} analysers, {} clients with {} requests each over shared keys", workers, clients, each));
    let seeds: Vec<u64> = (0..clients).map(|_| c.rng.next()).collect();
    let hs: Vec<_> = seeds.into_iter().enumerate().map(|(me, seed)| {
        let (atx, etx) = (atx.clone(), etx.clone());
        std::thread::spawn(move || -> Option<String> {
            let mut r = Rng::new(seed);
            let own = |q: String| -> Option<Answer> { let (rt, rr) = mpsc::channel(); let _ = atx.send(AnalysisRequest { request: q, authorization: AuthorizationLevel::Write, sender: Some(rt) }); rr.recv_timeout(wait(4000)).ok().map(|a| a.response) };
            let mut kept = None;
            for j in 0..each {
                // what this client alone has written stays, whatever other requests come to
                if r.chance(1, 3) {
                    if own(format!("set own{} {}", me, j)).map(|a| a.is_ok()) != Some(true) { return None; }
                    kept = Some(j);
                }
                if r.chance(1, 3) { let _ = own(loop { let q = query(&mut r); if !q.contains("own") && !q.contains("shutdown") { break q } }); }
                if let (Some(v), true) = (kept, r.chance(1, 2)) {
                    let a = match own(format!("get own{}", me)) { Some(a) => a, None => return None };
                    let w = Ok(InterpreterResponse::Value(StorageValue::Int(v as _)));
                    if text(&a) != text(&w) { return Some(format!("get own{} was answered {} instead of {}", me, text(&a), text(&w))); }
                }
                let (q, w) = unit(&mut r, me + 1);
                let (rt, rr) = mpsc::channel();
                let direct = r.chance(1, 3);
                if direct {
                    let ss = match analyse(&q) { Ok(s) => s, Err(_) => return None };
                    let _ = etx.send(ExecutorRequest { request: InterpreterRequest { statements: ss, authorization: AuthorizationLevel::Write }, sender: Some(rt) });
                } else { let _ = atx.send(AnalysisRequest { request: q.clone(), authorization: AuthorizationLevel::Write, sender: Some(rt) }); }
                if r.chance(1, 4) { let _ = etx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin }, sender: None }); }
                let a = match rr.recv_timeout(wait(4000)) { Ok(a) => a.response, Err(_) => return Some(format!("{} was not answered", q)) };
                if text(&a) != text(&Ok(InterpreterResponse::Value(w.clone()))) { return Some(format!("{} was answered {} instead of {}", q, text(&a), text(&Ok(InterpreterResponse::Value(w))))); }
            }
            None
        })
    }).collect();
    let mut bad = None;
    for h in hs { match h.join() { Ok(Some(m)) => bad = Some(m), _ => () } }
    drop(atx); drop(etx);
    if bad.is_some() { std::mem::forget(pool); std::mem::forget(e); return c.check(&["C19", "C16"], false, || bad.unwrap()); }
    std::thread::spawn(move || { pool.stop(); e.stop(); });
    Ok(())
}

// ---------------------------------------------------------------- expiry (C20)
fn reclaim(c: &mut Ctx) -> Res {
    let mut i: I = Interpreter::new(HashMapStorage::new());
    let now = std::time::SystemTime::now();
    let n = 1 + c.rng.below(2 + c.size.min(12));
    let mut seen: HashMap<String, Option<std::time::SystemTime>> = HashMap::new();
    let exp = |r: &mut Rng| match r.below(5) { 0 => None, 1 => Some(now + Duration::from_secs(500)), _ => Some(now + Duration::from_millis(r.below(25) as u64)) };
    for _ in 0..2 * n {
        let k = format!("k{}", c.rng.below(n));
        let x = exp(&mut c.rng);
        let el = StorageElement { key: k.clone(), value: StorageValue::Int(1), expiration: x };
        match c.rng.below(8) {
            0..=2 => { log(format!("set {} {}", k, show(&x, now))); if i.storage.set(&k, el).is_ok() { seen.insert(k, x); } }
            3 => { log(format!("set_if_not_exists {} {}", k, show(&x, now))); if matches!(i.storage.set_if_not_exists(&k, el), Ok(true)) { seen.insert(k, x); } }
            4 => { log(format!("update {} {}", k, show(&x, now))); if i.storage.update(&k, el).is_ok() { seen.insert(k, x); } }
            5 => { log(format!("update_expiration {} {}", k, show(&x, now))); if i.storage.update_expiration(&k, x).is_ok() { seen.insert(k, x); } }
            6 => { log(format!("delete {}", k)); let _ = i.storage.delete(&k); seen.remove(&k); }
            _ => { log(format!("get {}", k)); let _ = i.storage.get_if_exists(&k); }
        }
    }
    std::thread::sleep(wait(27));
    let live = seen.values().filter(|x| x.map(|t| t > now + wait(1000)).unwrap_or(true)).count();
    log(format!("wait until everything short-lived has expired, then passes; {} entries stay", live));
    let mut left = 0;
    for _ in 0..400 * n {
        let r = i.interpret(InterpreterRequest { statements: vec![Statement::ExpireKeys], authorization: AuthorizationLevel::Admin });
        c.check(&["C20"], r.is_ok(), || format!("an expiry pass answered {}", text(&r)))?;
        left = i.storage.len().unwrap_or(usize::MAX);
        if left <= live { break; }
    }
    c.check(&["C20"], left == live, || format!("after {} expiry passes {} entries are stored, {} of them have not expired", 400 * n, left, live))
}

fn show(x: &Option<std::time::SystemTime>, now: std::time::SystemTime) -> String {
    match x { None => "no expiry".to_string(), Some(t) => match t.duration_since(now) { Ok(d) => format!("expires in {} ms", d.as_millis()), Err(_) => "expired".to_string() } }
}

/// the expiry worker queues passes again and again
fn expirer(c: &mut Ctx) -> Res {
    log("an expiry worker, started".into());
    let (tx, rx) = mpsc::channel::<ExecutorRequest>();
    let mut w = ExpirationWorker::new(tx);
    w.start();
    let mut when = vec![];
    let t0 = Instant::now();
    // two rounds at least: the second one comes at a time of its own
    while t0.elapsed() < wait(28000) {
        if let Ok(q) = rx.recv_timeout(wait(200)) {
            c.check(&["C20"], q.request.statements == vec![Statement::ExpireKeys], || format!("the expiry worker queued {:?}", q.request.statements))?;
            when.push(t0.elapsed());
            if *when.last().unwrap() > when[0] + wait(1000) { break; }
        }
    }
    if when.is_empty() && t0.elapsed() > wait(27000) { /* a longer interval than this case can see */ return Err(Stop::Skip); }
    std::mem::forget(w);
    Ok(())
}

// ---------------------------------------------------------------- shutting down (C21)
/// does this end in time?
fn ends(c: &Ctx, what: &str, secs: u64, f: impl FnOnce() + Send + 'static) -> Res {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { f(); let _ = tx.send(()); });
    let r = rx.recv_timeout(Duration::from_secs(secs)).is_ok();
    c.check(&["C21"], r, || format!("{} did not stop within {} s", what, secs))
}

struct Stuck { left: VecDeque<StreamRequest> }
impl StreamHandler for Stuck {
    fn receive_request(&mut self) -> Option<StreamRequest> {
        match self.left.pop_front() { Some(x) => Some(x), None => { std::thread::sleep(Duration::from_secs(25)); None } }
    }
}

/// clients that go on while a whole server shuts down: nobody's request is left without its outcome
fn farewell(c: &mut Ctx) -> Option<usize> {
    let p = std::net::TcpListener::bind("127.0.0.1:0").ok()?.local_addr().ok()?.port();
    std::thread::spawn(move || server::multithreaded::Coordinator::new(3, 3, std::net::IpAddr::V4(std::net::Ipv4Addr::new(127, 0, 0, 1)), p as usize).serve());
    let ask = move |q: &str| -> Option<String> {
        let mut s = std::net::TcpStream::connect(("127.0.0.1", p)).ok()?;
        let _ = s.set_read_timeout(Some(Duration::from_secs(6)));
        let b = serde_json::json!({ "query": q }).to_string();
        s.write_all(format!("POST / HTTP/1.1\r\nUsername: admin\r\nContent-Length: {}\r\n\r\n{}", b.len(), b).as_bytes()).ok()?;
        let mut o = String::new();
        let _ = s.read_to_string(&mut o);
        Some(o)
    };
    let t0 = Instant::now();
    while ask("set warm 1").map(|o| !o.contains("200")).unwrap_or(true) { if t0.elapsed() > wait(5000) { return None; } std::thread::sleep(wait(20)); }
    let down = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..5).map(|j| { let down = down.clone(); std::thread::spawn(move || {
        let mut lost = 0;
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(6) {
            let late = down.load(Ordering::SeqCst);
            match ask(&format!("set f{} 1; get f{}", j, j)) {
                Some(o) if o.contains("timed out") => if late { lost += 1 } else { return None },
                Some(o) if o.is_empty() => break,
                None => break,
                _ => (),
            }
        }
        Some(lost)
    }) }).collect();
    std::thread::sleep(Duration::from_millis(c.rng.below(200) as u64));
    let _ = ask("shutdown");
    down.store(true, Ordering::SeqCst);
    let mut n = 0;
    for h in hs { n += h.join().ok()??; }
    Some(n)
}

fn stopping(c: &mut Ctx) -> Res {
    if c.index % 16 == 11 {
        log("clients go on while a server with 3 listeners shuts down".into());
        // an overloaded machine may make one request late; not several of them, twice in a row
        for _ in 0..2 { match farewell(c) { Some(n) if n > 1 => (), _ => return Ok(()) } }
        return c.check(&["C21"], false, || "requests taken up while the server was shutting down were not executed: they were answered with a time-out".to_string());
    }
    match c.rng.below(4) {
        0 => {
            let busy = c.rng.chance(1, 2);
            log(format!("an executor{} is stopped", if busy { " with a queue that never runs dry" } else { "" }));
            let (tx, rx) = mpsc::channel();
            let mut e = Executor::new(rx, Arc::new(AtomicBool::new(false)));
            e.start();
            let on = Arc::new(AtomicBool::new(true));
            // reading this takes its time
            let mut big = StorageVector::new(CollectionType::Int);
            for j in 0..4000 { let _ = big.push(StorageValue::Int(j as _)); }
            let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::Set("x".to_string(), StorageValue::Vector(big), None)], authorization: AuthorizationLevel::Admin }, sender: None });
            let on2 = on.clone();
            let hs: Vec<_> = (0..3).map(|_| { let (on2, tx) = (on2.clone(), tx.clone()); std::thread::spawn(move || {
                while on2.load(Ordering::SeqCst) {
                    // more than can be executed in the meantime; not so much that the memory fills up
                    if busy { for _ in 0..40 { let _ = tx.send(ExecutorRequest { request: InterpreterRequest { statements: vec![Statement::GetIfExists("x".to_string())], authorization: AuthorizationLevel::Read }, sender: None }); } }
                    std::thread::sleep(Duration::from_millis(3));
                }
            }) }).collect();
            std::thread::sleep(wait(c.rng.below(30) as u64));
            let r = ends(c, "the executor", 9, move || e.stop());
            on.store(false, Ordering::SeqCst);
            for h in hs { let _ = h.join(); }
            r
        }
        1 => {
            let workers = c.rng.below(5);
            log(format!("{} analysers are stopped", workers));
            let (atx, arx) = mpsc::channel();
            let (etx, _erx) = mpsc::channel::<ExecutorRequest>();
            let mut pool = AnalysisPool::new(workers, etx, Arc::new(Mutex::new(arx)));
            pool.start();
            for _ in 0..c.rng.below(20) { let _ = atx.send(AnalysisRequest { request: query(&mut c.rng), authorization: AuthorizationLevel::Read, sender: None }); }
            let r = ends(c, "the analysers", 12, move || pool.stop());
            drop(atx);
            r
        }
        2 => {
            let workers = c.rng.below(5);
            let n = c.rng.below(6);
            log(format!("{} listeners are stopped, one of them waiting for a connection; {} requests nobody answers", workers, n));
            let reqs = requests(c, n);
            let to: Box_ = Default::default();
            let door = Stuck { left: reqs.iter().enumerate().map(|(i, x)| stream(x, i, &to)).collect() };
            let (atx, _arx) = mpsc::channel::<AnalysisRequest>();
            let mut pool = ListenerPool::new(workers, atx, Arc::new(Mutex::new(door)), Arc::new(Mutex::new(Table)));
            pool.start();
            std::thread::sleep(wait(c.rng.below(30) as u64));
            ends(c, "the listeners", 12, move || pool.stop())
        }
        _ => {
            if c.index % 8 != 7 { return stopping(c); }
            log("an expiry worker is stopped".into());
            let (tx, _rx) = mpsc::channel::<ExecutorRequest>();
            let mut w = ExpirationWorker::new(tx);
            w.start();
            std::thread::sleep(wait(c.rng.below(30) as u64));
            ends(c, "the expiry worker", 25, move || w.stop())
        }
    }
}

fn case(c: &mut Ctx) -> Res {
    if c.is("C19") {
        if c.index == 5 || c.index % 40 == 39 { return program(c, "sut_async"); }
        if c.index == 7 || c.index % 40 == 19 { return program(c, "sut_multi"); }
        return if c.index % 4 == 3 { analysers(c) } else if c.index % 4 == 2 { executor(c) } else { serial(c) };
    }
    if c.is("C20") { return if c.index % 400 == 150 { expirer(c) } else { reclaim(c) }; }
    if c.is("C21") { return if c.index == 10 { log("the multi-threaded server over loopback".into()); whole(c) } else { stopping(c) }; }
    if c.index == 90 { log("the multi-threaded server over loopback".into()); return whole(c); }
    if c.index == 5 || c.index % 20 == 19 { return program(c, "sut_async"); }
    if c.index == 6 || c.index % 60 == 38 { return program(c, "sut_simple"); }
    if c.index == 7 || c.index % 60 == 58 { return program(c, "sut_multi"); }
    match c.index % 5 {
        0 | 1 => single(c),
        2 => executor(c),
        3 => analysers(c),
        _ => listeners(c),
    }
}
fn policy(p: &str) -> Policy { Policy { panic: true, hang: p == "C15" || p == "C16" || p == "C21" } }
fn main() { main_with(policy, case) }
