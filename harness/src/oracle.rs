//! An executable model of the statements, over canonical texts of values (C06-C09, C14-C16).
use crate::vals::{self, canon};
use crate::{Rng, Stop};
use server::analysis::{InterpreterResponse, Statement, ValueType};
use server::auth::AuthorizationLevel;
use server::error::ServerError;
use server::storage::{CollectionType, KeyType, StorageValue};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, SystemTime};

/// elements of collections are scalars, kept as their canonical text
#[derive(Clone, Debug)]
pub enum Val {
    Scalar(String),
    Vec(CollectionType, Vec<String>),
    Map(KeyType, CollectionType, BTreeMap<String, String>),
}

pub fn snap(v: &StorageValue) -> Val {
    match v {
        StorageValue::Vector(v) => Val::Vec(v.collection_type, (0..v.len()).map(|i| v.get(i).map(canon).unwrap_or_else(|_| "?".into())).collect()),
        StorageValue::Map(m) => {
            let mut x = BTreeMap::new();
            for (k, v) in vals::entries(m) { x.insert(canon(k), canon(v)); }
            if x.len() != m.len() { x.insert("(other keys)".into(), m.len().to_string()); }
            Val::Map(m.key_type, m.collection_type, x)
        }
        other => Val::Scalar(canon(other)),
    }
}

impl PartialEq for Val { fn eq(&self, o: &Val) -> bool { show(self) == show(o) } }

pub fn show(v: &Val) -> String { format!("{:?}", v) }

pub fn fits(v: &StorageValue, t: &CollectionType) -> bool {
    matches!((v, t), (StorageValue::Bool(_), CollectionType::Bool) | (StorageValue::Int(_), CollectionType::Int)
        | (StorageValue::Float(_), CollectionType::Float) | (StorageValue::String(_), CollectionType::String))
}

pub fn fits_key(v: &StorageValue, t: &KeyType) -> bool {
    matches!((v, t), (StorageValue::Int(_), KeyType::Int) | (StorageValue::String(_), KeyType::String))
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub val: Val,
    /// the expiry lies in this interval
    pub exp: Option<(SystemTime, SystemTime)>,
}

#[derive(Clone, Default, Debug)]
pub struct Model { pub m: BTreeMap<String, Entry> }

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Seen { Live, Expired, Absent, Unknown }

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(String),
    /// an answer of so many seconds
    Secs(u64, u64),
    /// so many entries removed, at most
    AtMost(usize),
    Err(Vec<&'static str>),
}

pub fn kind(e: &ServerError) -> &'static str {
    match e {
        ServerError::KeyError(_) => "KeyError",
        ServerError::NetworkError(_) => "NetworkError",
        ServerError::WriteError(_) => "WriteError",
        ServerError::TokenizationError(_) => "TokenizationError",
        ServerError::ParseError(_) => "ParseError",
        ServerError::IndexError(_) => "IndexError",
        ServerError::TypeError(_) => "TypeError",
        ServerError::InternalError(_) => "InternalError",
        ServerError::AuthorizationError(_) => "AuthorizationError",
        ServerError::AuthenticationError(_) => "AuthenticationError",
        ServerError::RequestError(_) => "RequestError",
    }
}

pub fn response(r: &InterpreterResponse) -> String {
    match r {
        InterpreterResponse::Value(v) => format!("value {}", show(&snap(v))),
        InterpreterResponse::Message(s) => format!("message {}", s),
        InterpreterResponse::Size(n) => format!("size {}", n),
        InterpreterResponse::Expiration(x) => format!("expiration {:?}", x),
        InterpreterResponse::Key(k) => format!("key {:?}", k),
        InterpreterResponse::Bool(b) => format!("bool {}", b),
        InterpreterResponse::ValueType(t) => format!("type {}", tytext(t)),
        InterpreterResponse::ShuttingDown => "shutting down".into(),
        InterpreterResponse::Null => "null".into(),
    }
}

fn tytext(t: &ValueType) -> String {
    match t {
        ValueType::Null => "null".into(), ValueType::Bool => "bool".into(), ValueType::Int => "int".into(),
        ValueType::Float => "float".into(), ValueType::String => "string".into(),
        ValueType::Vector(c) => format!("vector {:?}", c), ValueType::Map(k, c) => format!("map {:?} {:?}", k, c),
    }
}

pub fn outcome(r: &Result<InterpreterResponse, ServerError>) -> String {
    match r { Ok(x) => response(x), Err(e) => format!("error {}", kind(e)) }
}

impl Out {
    pub fn admits(&self, r: &Result<InterpreterResponse, ServerError>) -> bool {
        match (self, r) {
            (Out::Ok(s), Ok(x)) => *s == response(x),
            (Out::Secs(a, b), Ok(InterpreterResponse::Expiration(Some(n)))) => n >= a && n <= b,
            (Out::AtMost(n), Ok(InterpreterResponse::Size(k))) => k <= n,
            (Out::Err(ks), Err(e)) => ks.contains(&kind(e)),
            _ => false,
        }
    }
}

pub fn needs(s: &Statement) -> u8 {
    match s {
        Statement::Shutdown => 2,
        Statement::Delete(..) | Statement::Set(..) | Statement::SetIfNotExists(..) | Statement::VectorSet(..) | Statement::VectorAppend(..)
        | Statement::VectorPop(..) | Statement::MapSet(..) | Statement::MapDelete(..) | Statement::Update(..) | Statement::UpdateLifetime(..) => 1,
        _ => 0,
    }
}

pub fn level(a: AuthorizationLevel) -> u8 {
    match a { AuthorizationLevel::Admin => 2, AuthorizationLevel::Write => 1, AuthorizationLevel::Read => 0 }
}

/// None: the properties leave it open (expiring keys removes only what nobody can see)
pub fn permitted(ss: &[Statement], a: AuthorizationLevel) -> Option<bool> {
    if ss.iter().any(|s| needs(s) > level(a)) { return Some(false); }
    if level(a) == 0 && ss.iter().any(|s| matches!(s, Statement::ExpireKeys)) { return None; }
    Some(true)
}

/// the largest representable whole second
pub fn max_secs() -> u64 {
    let (mut lo, mut hi) = (0u64, u64::MAX);
    while lo < hi {
        let mid = lo + (hi - lo) / 2 + 1;
        if SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(mid)).is_some() { lo = mid } else { hi = mid - 1 }
    }
    lo
}

impl Model {
    pub fn seen(&self, k: &str, t0: SystemTime, t1: SystemTime) -> Seen {
        match self.m.get(k) {
            None => Seen::Absent,
            Some(e) => match e.exp {
                None => Seen::Live,
                Some((_, b)) if b < t0 => Seen::Expired,
                Some((a, _)) if a > t1 => Seen::Live,
                _ => Seen::Unknown,
            },
        }
    }

    /// the effect of one statement executed between t0 and t1; Skip where the clock decides
    pub fn exec(&mut self, s: &Statement, t0: SystemTime, t1: SystemTime) -> Result<Out, Stop> {
        let lifetime = |n: &Option<u64>| -> Result<Option<Option<(SystemTime, SystemTime)>>, Stop> {
            match n {
                None => Ok(Some(None)),
                Some(n) => {
                    let d = Duration::from_secs(*n);
                    match (t0.checked_add(d), t1.checked_add(d)) {
                        (Some(a), Some(b)) => Ok(Some(Some((a, b)))),
                        (None, None) => Ok(None),
                        _ => Err(Stop::Skip),
                    }
                }
            }
        };
        const ANY: [&str; 6] = ["RequestError", "InternalError", "IndexError", "TypeError", "KeyError", "ParseError"];
        let too_large = || Out::Err(ANY.to_vec());
        let okm = || Out::Ok("message Ok".into());
        let key_error = || Out::Err(vec!["KeyError"]);
        let k: &str = match s {
            Statement::Get(k) | Statement::Set(k, ..) | Statement::Update(k, ..) | Statement::Exists(k) | Statement::Delete(k) | Statement::GetLifetime(k)
            | Statement::UpdateLifetime(k, _) | Statement::GetIfExists(k) | Statement::SetIfNotExists(k, ..) | Statement::VectorGet(k, _)
            | Statement::VectorSet(k, ..) | Statement::VectorAppend(k, _) | Statement::VectorPop(k) | Statement::VectorLength(k) | Statement::MapGet(k, _)
            | Statement::MapSet(k, ..) | Statement::MapDelete(k, _) | Statement::MapLength(k) | Statement::MapExists(k, _) | Statement::ValueType(k) => k,
            Statement::ExpireKeys | Statement::Shutdown | Statement::Null => "",
        };
        let named = !matches!(s, Statement::ExpireKeys | Statement::Shutdown | Statement::Null | Statement::Set(..));
        let w = if named { self.seen(k, t0, t1) } else { Seen::Live };
        if w == Seen::Unknown { return Err(Stop::Skip); }
        let live = w == Seen::Live;
        if w == Seen::Expired { self.m.remove(k); }
        let put = |m: &mut Model, v: &StorageValue, exp| { m.m.insert(k.to_string(), Entry { val: snap(v), exp }); };
        Ok(match s {
            Statement::Shutdown => Out::Ok("shutting down".into()),
            Statement::Null => Out::Ok("null".into()),
            Statement::ExpireKeys => Out::AtMost(1),
            Statement::Get(_) => if live { Out::Ok(format!("value {}", show(&self.m[k].val))) } else { key_error() },
            Statement::GetIfExists(_) => Out::Ok(format!("value {}", if live { show(&self.m[k].val) } else { show(&Val::Scalar("null".into())) })),
            Statement::Exists(_) => Out::Ok(format!("bool {}", live)),
            Statement::GetLifetime(_) => if !live { Out::Err(ANY.to_vec()) } else {
                match self.m[k].exp {
                    None => Out::Ok("expiration None".into()),
                    Some((a, b)) => Out::Secs(a.duration_since(t1).map_err(|_| Stop::Skip)?.as_secs(), b.duration_since(t0).map_err(|_| Stop::Skip)?.as_secs()),
                }
            },
            Statement::Set(_, v, n) => match lifetime(n)? { None => too_large(), Some(x) => { put(self, v, x); okm() } },
            Statement::SetIfNotExists(_, v, n) => match lifetime(n)? {
                None => too_large(),
                Some(x) => if live { Out::Ok("bool false".into()) } else { put(self, v, x); Out::Ok("bool true".into()) },
            },
            Statement::Update(_, v, n) => match lifetime(n)? { None => too_large(), Some(x) => if live { put(self, v, x); okm() } else { key_error() } },
            Statement::UpdateLifetime(_, n) => match lifetime(n)? {
                None => too_large(),
                Some(x) => if live { self.m.get_mut(k).unwrap().exp = x; okm() } else { key_error() },
            },
            Statement::Delete(_) => { if live { self.m.remove(k); } Out::Ok(format!("bool {}", live)) }
            Statement::ValueType(_) => if !live { key_error() } else {
                Out::Ok(format!("type {}", match &self.m[k].val {
                    Val::Scalar(s) => match s.split(' ').next().unwrap() { "str" => "string".to_string(), t => t.to_string() },
                    Val::Vec(c, _) => format!("vector {:?}", c),
                    Val::Map(kt, c, _) => format!("map {:?} {:?}", kt, c),
                }))
            },
            Statement::VectorGet(..) | Statement::VectorSet(..) | Statement::VectorAppend(..) | Statement::VectorPop(..) | Statement::VectorLength(..) => {
                if !live { return Ok(key_error()); }
                let (ct, xs) = match &mut self.m.get_mut(k).unwrap().val { Val::Vec(ct, xs) => (*ct, xs), _ => return Ok(Out::Err(vec!["TypeError"])) };
                match s {
                    Statement::VectorGet(_, i) => match xs.get(*i) { Some(x) => Out::Ok(format!("value {}", show(&Val::Scalar(x.clone())))), None => Out::Err(vec!["IndexError"]) },
                    Statement::VectorLength(_) => Out::Ok(format!("size {}", xs.len())),
                    Statement::VectorPop(_) => Out::Ok(format!("value {}", show(&Val::Scalar(xs.pop().unwrap_or_else(|| "null".into()))))),
                    Statement::VectorAppend(_, v) => if fits(v, &ct) { xs.push(canon(v)); okm() } else { Out::Err(vec!["TypeError"]) },
                    Statement::VectorSet(_, i, v) => {
                        let mut e = vec![];
                        if !fits(v, &ct) { e.push("TypeError") }
                        if *i >= xs.len() { e.push("IndexError") }
                        if e.is_empty() { xs[*i] = canon(v); okm() } else { Out::Err(e) }
                    }
                    _ => unreachable!(),
                }
            }
            Statement::MapGet(..) | Statement::MapSet(..) | Statement::MapDelete(..) | Statement::MapLength(..) | Statement::MapExists(..) => {
                if !live { return Ok(key_error()); }
                let (kt, ct, xs) = match &mut self.m.get_mut(k).unwrap().val { Val::Map(kt, ct, xs) => (*kt, *ct, xs), _ => return Ok(Out::Err(vec!["TypeError"])) };
                match s {
                    Statement::MapLength(_) => Out::Ok(format!("size {}", xs.len())),
                    Statement::MapGet(_, q) => if !fits_key(q, &kt) { Out::Err(vec!["TypeError", "IndexError"]) } else {
                        match xs.get(&canon(q)) { Some(x) => Out::Ok(format!("value {}", show(&Val::Scalar(x.clone())))), None => Out::Err(vec!["IndexError"]) }
                    },
                    Statement::MapExists(_, q) => if !fits_key(q, &kt) { Out::Err(vec!["TypeError"]) } else { Out::Ok(format!("bool {}", xs.contains_key(&canon(q)))) },
                    Statement::MapDelete(_, q) => if !fits_key(q, &kt) { Out::Err(vec!["TypeError"]) } else { Out::Ok(format!("bool {}", xs.remove(&canon(q)).is_some())) },
                    Statement::MapSet(_, q, v) => if !fits_key(q, &kt) || !fits(v, &ct) { Out::Err(vec!["TypeError"]) } else { xs.insert(canon(q), canon(v)); okm() },
                    _ => unreachable!(),
                }
            }
        })
    }

    pub fn keys(&self) -> BTreeSet<String> { self.m.keys().cloned().collect() }
}

const KEYS: [&str; 5] = ["a", "b", "c", "A", "k é"];
thread_local! { static NAMES: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(KEYS.iter().map(|k| k.to_string()).collect()); }
/// the keys of this case
pub fn keys() -> Vec<String> { NAMES.with(|n| n.borrow().clone()) }
/// now and then, keys like those the code mentions
pub fn choose_keys(r: &mut Rng) {
    let mut ks: Vec<String> = KEYS.iter().map(|k| k.to_string()).collect();
    if r.chance(1, 3) {
        for i in 0..ks.len() {
            if !r.chance(1, 2) { continue }
            let k = match r.below(4) {
                0 => r.pick(vals::texts()).clone(),
                1 => r.pick(crate::literal_texts()).clone(),
                2 => format!("{}a", r.pick(crate::literal_texts())),
                _ => format!("{}{}", r.pick(&["a", "k"]), r.pick(crate::literal_texts())),
            };
            if !ks.contains(&k) { ks[i] = k; }
        }
    }
    NAMES.with(|n| *n.borrow_mut() = ks);
}

pub fn lifetime(r: &mut Rng) -> Option<u64> {
    match r.below(12) {
        0..=6 => None,
        7 => Some(1000 + r.below(1000) as u64),
        8 => Some(3_000_000_000 + r.below(5_000_000_000) as u64),
        9 => Some(0),
        10 => Some(u64::MAX - r.below(3) as u64),
        _ => { let now = SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs(); (max_secs() - now).checked_add(r.below(400) as u64).map(|x| x - 200) }
    }
}

/// the entry a statement is about
pub fn key(s: &Statement) -> Option<&str> {
    use Statement::*;
    match s {
        Set(k, ..) | SetIfNotExists(k, ..) | Update(k, ..) | UpdateLifetime(k, _) | Delete(k) | Get(k) | GetIfExists(k) | Exists(k) | GetLifetime(k) | VectorGet(k, _) | VectorSet(k, ..)
        | VectorAppend(k, _) | VectorPop(k) | VectorLength(k) | MapGet(k, _) | MapSet(k, ..) | MapDelete(k, _) | MapLength(k) | MapExists(k, _) | ValueType(k) => Some(k),
        _ => None,
    }
}

pub fn statement(r: &mut Rng, nkeys: usize) -> Statement {
    let k = NAMES.with(|n| { let n = n.borrow(); n[r.below(nkeys.min(n.len()))].clone() });
    let v = vals::value(r);
    let x = if r.chance(1, 12) { vals::value(r) } else { vals::scalar(r) };
    let q = if r.chance(1, 10) { vals::scalar(r) } else if r.chance(1, 2) { StorageValue::Int(vals::int(r)) } else { StorageValue::String(vals::text(r)) };
    let i = if r.chance(1, 20) { usize::MAX } else if r.chance(1, 12) { (1usize << *r.pick(&[7, 8, 15, 16, 31, 32, 33, 48, 62, 63])) + r.below(3) - r.below(2) } else if r.chance(1, 20) { *r.pick(crate::numbers()) as usize } else { r.below(5) };
    match r.below(48) {
        0..=5 => Statement::Set(k, v, lifetime(r)),
        6 | 7 => Statement::SetIfNotExists(k, v, lifetime(r)),
        8 | 9 => Statement::Update(k, v, lifetime(r)),
        10 => Statement::UpdateLifetime(k, lifetime(r)),
        11 => Statement::Delete(k),
        12 | 13 => Statement::Get(k),
        14 => Statement::GetIfExists(k),
        15 => Statement::Exists(k),
        16 | 17 => Statement::GetLifetime(k),
        18 | 19 => Statement::VectorGet(k, i),
        20..=22 => Statement::VectorSet(k, i, x),
        23..=26 => Statement::VectorAppend(k, x),
        27 | 28 => Statement::VectorPop(k),
        29 => Statement::VectorLength(k),
        30 | 31 => Statement::MapGet(k, q),
        32..=36 => Statement::MapSet(k, q, x),
        37 | 38 => Statement::MapDelete(k, q),
        39 => Statement::MapLength(k),
        40 => Statement::MapExists(k, q),
        41 => Statement::ValueType(k),
        42 => Statement::ExpireKeys,
        43 => Statement::Null,
        44 => if r.chance(1, 3) { Statement::Shutdown } else { Statement::Get(k) },
        _ => Statement::Get(k),
    }
}

pub fn levels() -> [AuthorizationLevel; 3] { [AuthorizationLevel::Admin, AuthorizationLevel::Write, AuthorizationLevel::Read] }
