//! Random requests against the statement model (C06-C09).
use harness::oracle::{self, *};
use harness::*;
use server::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Statement};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{CollectionType, Storage, StorageElement, StorageValue, StorageVector};
use std::time::{Duration, SystemTime};

type I = Interpreter<HashMapStorage>;

fn run(i: &mut I, statements: Vec<Statement>, authorization: AuthorizationLevel) -> Result<InterpreterResponse, ServerError> {
    i.interpret(InterpreterRequest { statements, authorization })
}

/// what the store holds now
fn dump(i: &I) -> Vec<(String, Option<(Val, Option<SystemTime>)>)> {
    oracle::keys().iter().map(|k| (k.to_string(), match i.storage.get_if_exists(k) { Ok(Some(e)) => Some((snap(&e.value), e.expiration)), _ => None })).collect()
}

fn tick(t: SystemTime) { while SystemTime::now() <= t { std::hint::spin_loop() } }

/// the store against the model; tags C08 for values, C09 for expiries
fn compare(c: &Ctx, i: &I, m: &Model, what: &str) -> Res {
    let t0 = SystemTime::now();
    let d = dump(i);
    let t1 = SystemTime::now();
    for (k, got) in &d {
        match (m.seen(k, t0, t1), got) {
            (Seen::Unknown, _) => return Err(Stop::Skip),
            (Seen::Live, None) => return c.check(&["C08"], false, || format!("after {}: entry {:?} is gone", what, k)),
            (Seen::Live, Some((v, x))) => {
                let e = &m.m[k.as_str()];
                c.check(&["C08"], *v == e.val, || format!("after {}: entry {:?} holds {} instead of {}", what, k, show(v), show(&e.val)))?;
                let same = match (x, e.exp) { (None, None) => true, (Some(x), Some((a, b))) => a <= *x && *x <= b, _ => false };
                c.check(&["C08", "C09"], same, || format!("after {}: entry {:?} has expiry {:?}, expected {:?}", what, k, x, e.exp))?;
            }
            (_, Some((v, _))) => return c.check(&["C08"], false, || format!("after {}: entry {:?} holds {} instead of being absent", what, k, show(v))),
            (_, None) => (),
        }
    }
    Ok(())
}

fn seeded(c: &mut Ctx, n: &mut Vec<StorageElement>) {
    oracle::choose_keys(&mut c.rng);
    // entries with expiries no statement can give
    for k in oracle::keys() {
        if c.rng.chance(1, 6) {
            let now = SystemTime::now();
            let expiration = Some(if c.rng.chance(1, 2) { now - Duration::from_secs(1 + c.rng.below(50) as u64) } else { now + Duration::from_millis(500_500) });
            n.push(StorageElement { key: k.to_string(), value: vals::value(&mut c.rng), expiration });
        }
    }
}

fn fresh(es: &[StorageElement]) -> (I, Model) {
    let mut i = Interpreter::new(HashMapStorage::new());
    let mut m = Model::default();
    for e in es {
        let _ = i.storage.set(&e.key, e.clone());
        m.m.insert(e.key.clone(), Entry { val: snap(&e.value), exp: e.expiration.map(|t| (t, t)) });
    }
    (i, m)
}

/// single statements (C08, C09)
fn statements(c: &mut Ctx) -> Res {
    let mut es = vec![];
    seeded(c, &mut es);
    for e in &es { log(format!("store holds {:?}: {} {:?}", e.key, show(&snap(&e.value)), e.expiration)); }
    let (mut i, mut m) = fresh(&es);
    let nk = 1 + c.rng.below(oracle::keys().len());
    for _ in 0..c.size {
        let s = oracle::statement(&mut c.rng, nk);
        log(format!("{:?}", s));
        tick(SystemTime::now());
        let t0 = SystemTime::now();
        let r = run(&mut i, vec![s.clone()], AuthorizationLevel::Admin);
        let t1 = SystemTime::now();
        tick(t1);
        let want = m.exec(&s, t0, t1)?;
        let timed = matches!(s, Statement::Set(..) | Statement::SetIfNotExists(..) | Statement::Update(..) | Statement::UpdateLifetime(..) | Statement::GetLifetime(_));
        let tags: &[&str] = if timed { &["C08", "C09"] } else { &["C08"] };
        c.check(tags, want.admits(&r), || format!("{:?} answered {} instead of {:?}", s, outcome(&r), want))?;
        compare(c, &i, &m, &format!("{:?}", s))?;
    }
    Ok(())
}

fn close(a: &Option<(Val, Option<SystemTime>)>, b: &Option<(Val, Option<SystemTime>)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((v, x)), Some((w, y))) => v == w && match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => x.duration_since(*y).unwrap_or_else(|e| e.duration()) < Duration::from_secs(20),
            _ => false,
        },
        _ => false,
    }
}

/// whole requests (C06, C07)
fn requests(c: &mut Ctx) -> Res {
    let mut es = vec![];
    seeded(c, &mut es);
    for e in &es { log(format!("store holds {:?}: {} {:?}", e.key, show(&snap(&e.value)), e.expiration)); }
    let (mut a, _) = fresh(&es);
    let (mut b, _) = fresh(&es);
    let nk = 1 + c.rng.below(oracle::keys().len());
    for _ in 0..(1 + c.size / 4) {
        let n = if c.rng.chance(1, 10) { 0 } else { 1 + c.rng.below(1 + c.size / 2) };
        let level = *c.rng.pick(&[AuthorizationLevel::Admin, AuthorizationLevel::Write, AuthorizationLevel::Read, AuthorizationLevel::Admin]);
        let mut ss: Vec<Statement> = vec![];
        // biased towards lists that are permitted, or forbidden by a single statement
        let bad = if c.rng.chance(1, 3) && n > 0 { Some(c.rng.below(n)) } else { None };
        while ss.len() < n {
            let mut s = oracle::statement(&mut c.rng, nk);
            // the next statement on the same entry
            if c.rng.chance(1, 4) {
                if let Some(p) = ss.last() { for _ in 0..20 { if oracle::key(&s) == oracle::key(p) { break } s = oracle::statement(&mut c.rng, nk); } }
            }
            if c.rng.chance(1, 25) { s = Statement::Shutdown; }
            if matches!(s, Statement::ExpireKeys) { continue; }
            // the clock must not decide
            let z = |l: &Option<u64>| matches!(l, Some(n) if *n < 1000 || (*n > 10_000_000_000 && *n < u64::MAX - 10));
            if match &s { Statement::Set(_, _, l) | Statement::SetIfNotExists(_, _, l) | Statement::Update(_, _, l) | Statement::UpdateLifetime(_, l) => z(l), Statement::GetLifetime(_) => true, _ => false } { continue; }
            if bad == Some(ss.len()) { if needs(&s) <= oracle::level(level) && c.rng.chance(19, 20) { continue } }
            else if needs(&s) > oracle::level(level) { continue }
            ss.push(s);
        }
        // requests as long as the numbers the code mentions
        if c.index % 11 == 3 && bad.is_none() && c.rng.chance(1, 4) {
            let wanted = *c.rng.pick(numbers());
            if (1..=12_000).contains(&wanted) {
                let k = oracle::keys()[c.rng.below(nk)].clone();
                let write = !matches!(level, AuthorizationLevel::Read);
                if write { ss.insert(0, Statement::Set(k.clone(), StorageValue::Vector(StorageVector::new(CollectionType::Int)), None)); }
                ss.retain(|s| !matches!(s, Statement::Shutdown));
                while ss.len() < wanted as usize { let n = ss.len() as i64; ss.insert(1.min(ss.len()), if write { Statement::VectorAppend(k.clone(), StorageValue::Int(n)) } else { Statement::Exists(k.clone()) }); }
                if write { ss.push(Statement::VectorLength(k.clone())); ss.push(Statement::VectorAppend(k.clone(), StorageValue::Int(-1))); } else { ss.push(Statement::ValueType(k)); }
            }
        }
        if ss.len() <= 60 { log(format!("{:?}: {:?}", level, ss)); } else { log(format!("{:?}: {} statements: {:?} ...", level, ss.len(), &ss[..20])); }
        let before = dump(&a);
        let r = run(&mut a, ss.clone(), level);
        let refused = matches!(r, Err(ServerError::AuthorizationError(_)));
        match permitted(&ss, level) {
            Some(false) => {
                c.check(&["C06"], refused, || format!("a request with a forbidden statement answered {}", outcome(&r)))?;
                let after = dump(&a);
                for (x, y) in before.iter().zip(after.iter()) {
                    c.check(&["C06"], close(&x.1, &y.1), || format!("a rejected request changed entry {:?} from {:?} to {:?}", x.0, x.1, y.1))?;
                }
                continue;
            }
            Some(true) => c.check(&["C06"], !refused, || "a permitted request was rejected as unauthorised".to_string())?,
            None => if refused { continue },
        }
        let mut last: Result<InterpreterResponse, ServerError> = Ok(InterpreterResponse::Null);
        let mut ran = 0;
        for s in &ss {
            last = run(&mut b, vec![s.clone()], AuthorizationLevel::Admin);
            ran += 1;
            if matches!(last, Err(_) | Ok(InterpreterResponse::ShuttingDown)) { break; }
        }
        c.check(&["C07"], outcome(&r) == outcome(&last), || format!("the request answered {}, its last executed statement (number {}) answers {}", outcome(&r), ran, outcome(&last)))?;
        let (x, y) = (dump(&a), dump(&b));
        for (x, y) in x.iter().zip(y.iter()) {
            c.check(&["C07"], close(&x.1, &y.1), || format!("the request leaves entry {:?} as {:?}; its first {} statements run one by one leave {:?}", x.0, x.1, ran, y.1))?;
        }
    }
    Ok(())
}

fn case(c: &mut Ctx) -> Res { if c.is("C06") || c.is("C07") { requests(c) } else { statements(c) } }
fn policy(p: &str) -> Policy { Policy { panic: p == "C08" || p == "C09", hang: p != "C06" } }
fn main() { main_with(policy, case) }
