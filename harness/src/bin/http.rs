//! The HTTP layer over loopback (C17, C18): the blocking and the asynchronous version.
use harness::*;
use serde_json::{json, Value};
use server::analysis::{InterpreterResponse, ValueType};
use server::error::ServerError;
use server::io::stream::{StreamHandler, StreamSender};
use server::io::{tcp, tcp_async};
use server::storage::{StorageValue, CollectionType, KeyType};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::mpsc;
use std::time::Duration;

type Answer = Result<InterpreterResponse, ServerError>;

enum Sender { Sync(Box<dyn StreamSender + Send>), Async(tcp_async::TcpStreamSender) }
struct Got { request: Result<String, ServerError>, headers: HashMap<String, String>, sender: Option<Sender> }
/// what the server side reports: the request it read, and what sending the answer returned
type Report = (Result<String, ServerError>, HashMap<String, String>, bool, Option<Result<(), ServerError>>);

/// one request on a listener of its own; `answer` is sent back on its sender once `go` says so.
/// -> the port, and the report channel (dead when the listener panicked)
fn serve(asynchronous: bool, answer: Option<Answer>, n: usize) -> Option<(u16, mpsc::Receiver<Report>, mpsc::Sender<()>)> {
    let port = std::net::TcpListener::bind("127.0.0.1:0").ok()?.local_addr().ok()?.port();
    let ip: std::net::IpAddr = "127.0.0.1".parse().unwrap();
    let (tx, rx) = mpsc::channel();
    let (gtx, grx) = mpsc::channel::<()>();
    let (utx, urx) = mpsc::channel::<()>();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let rt = if asynchronous { Some(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()) } else { None };
        let mut hs = None;
        let mut ha = None;
        match &rt { None => hs = Some(tcp::TcpStreamHandler::new(ip, port as usize)), Some(rt) => ha = Some(rt.block_on(tcp_async::TcpStreamHandler::new(ip, port as usize))) }
        let _ = utx.send(());
        for _ in 0..n {
            let got = match (&mut hs, &mut ha, &rt) {
                (Some(h), _, _) => match h.receive_request() { Some(r) => Got { request: r.request, headers: r.headers, sender: r.sender.map(Sender::Sync) }, None => continue },
                (_, Some(h), Some(rt)) => { let r = rt.block_on(h.receive_request()); Got { request: r.request, headers: r.headers, sender: r.sender.map(Sender::Async) } }
                _ => unreachable!(),
            };
            let Got { request, headers, sender } = got;
            let a = match (&answer, &request) { (Some(a), _) => a.clone(), (None, Err(e)) => Err(e.clone()), (None, Ok(_)) => Ok(InterpreterResponse::Null) };
            let can = sender.is_some();
            let _ = grx.recv();
            let sent = match sender {
                None => None,
                Some(Sender::Sync(mut s)) => Some(s.send(a)),
                Some(Sender::Async(mut s)) => Some(rt.as_ref().unwrap().block_on(s.send(a))),
            };
            let _ = tx.send((request, headers, can, sent));
        }
    }).ok()?;
    urx.recv_timeout(Duration::from_secs(20)).ok()?;
    Some((port, rx, gtx))
}

fn chunks(r: &mut Rng, n: usize) -> Vec<usize> {
    // cut points
    let k = match r.below(6) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => 3 + r.below(4), _ => 1 };
    let mut v: Vec<usize> = (0..k).map(|_| r.below(n + 1)).collect();
    v.sort();
    v.dedup();
    v.retain(|x| *x > 0 && *x < n);
    v.push(n);
    v
}

fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(5) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}

struct Sent { bytes: Vec<u8>, head: usize, good_start: bool, post: bool, headers: Vec<(String, Vec<u8>)>, many: bool }

fn short(b: &[u8]) -> String { let s = String::from_utf8_lossy(b).to_string(); if s.len() > 700 { format!("{}… ({} bytes)", s.chars().take(600).collect::<String>(), b.len()) } else { s } }

fn qtext(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "set a \"é😀\"; get a".into(),
        2 => "get \"\\\" \n \t".into(),
        3 => "set k ".to_string() + &"x".repeat(r.below(6000)),
        4 if r.chance(1, 5) => "set k \"".to_string() + &r.pick(&["z", "é", "0123456789"]).repeat(30_000 + r.below(90_000)) + "\"",
        4 => "é".repeat(1 + r.below(1500)),
        5 => "y".repeat(900 + r.below(300)),
        _ => r.pick(&["get a", "set a 5", "set b \"x\"; get b", "shutdown", "mget a 1"]).to_string(),
    }
}

fn body(r: &mut Rng) -> String {
    let q = qtext(r);
    match r.below(18) {
        0 => json!({"Query": q}).to_string(),
        1 => json!({"query": 5}).to_string(),
        2 => json!({"query": [q]}).to_string(),
        3 => json!([{"query": q}]).to_string(),
        4 => json!(q).to_string(),
        5 => String::new(),
        6 => format!("{}}}", json!({"query": q})),
        7 => json!({"query": q}).to_string()[1..].to_string(),
        8 => format!("{{\"query\": {}", json!(q)),
        9 => json!({"a": 1, "query": q, "z": {"query": "other"}}).to_string(),
        10 => format!("  \n{}\n ", json!({"query": q})),
        11 => format!("{{ \"query\" : {} }}", json!(q)),
        12 => "null".into(),
        _ => json!({"query": q}).to_string(),
    }
}

fn request(r: &mut Rng) -> Sent {
    let mut b = body(r);
    if r.chance(1, 10) { b = b.replace('é', "\\u00e9"); }
    let method = if r.chance(6, 7) { "POST" } else { *r.pick(&["GET", "PUT", "post", "DELETE", "POSTX", "Post", "PATCH", "HEAD"]) };
    let target = *r.pick(&["/", "/query", "*", "/a?b=c"]);
    let version = if r.chance(1, 10) { "HTTP/1.0" } else { "HTTP/1.1" };
    let mut headers: Vec<(String, Vec<u8>)> = vec![];
    let others = match r.below(8) { 0 => 31, 1 => 32, 2 => 40, 3 => 12, _ => r.below(5) };
    for i in 0..others {
        let name = match r.below(7) { 6 => match r.pick(words()) { w if w.bytes().all(|c| c.is_ascii_alphabetic() || c == b'-') && !w.eq_ignore_ascii_case("content-length") => cased(r, w), _ => "X-W".into() }, 0 => "Host".to_string(), 1 => cased(r, "Username"), 2 => "Content-Type".into(), 3 => "X-Content-Length".into(), 4 => format!("X-H{}", i), _ => "Content-Lengt".into() };
        let value: Vec<u8> = match r.below(10) { 8 => (0..r.below(9)).map(|_| r.pick(b"a0,;:.!\"'=()[]{}<>/\\@#$%^&*+-_~|`?zA \t").to_owned()).collect(), 9 => r.pick(words()).clone().into_bytes(), 0 => vec![], 1 => vec![0xC3, 0xA9, b'x'], 2 => vec![b'a', 0xFF, b'b'], 3 => b"7".to_vec(), 4 => vec![b'v'; r.below(120)], _ => r.pick(&["admin", "write", "x y", "application/json", "a: b"]).as_bytes().to_vec() };
        headers.push((name, value));
    }
    let n = b.len();
    let length: Option<Vec<u8>> = match r.below(22) {
        0 => None,
        1 => Some(r.pick(&["abc", "-1", "", "5x", "1e3", "12 3", "0x10", "3.0", "x5", "--2"]).as_bytes().to_vec()),
        2 => Some(r.pick(&["18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "99999999999999999999999999", "4294967296", "70001", "1048577", "20000000", "150000000"]).as_bytes().to_vec()),
        3 => Some(format!("{}", n.saturating_sub(1 + r.below(4))).into_bytes()),
        4 => Some(format!("{}", n + 1 + r.below(3)).into_bytes()),
        5 => Some(format!("{:05}", n).into_bytes()),
        6 => Some(vec![0xFF, b'1']),
        7 => Some(b"0".to_vec()),
        _ => Some(format!("{}", n).into_bytes()),
    };
    if let Some(l) = length {
        let name = cased(r, "Content-Length");
        let at = r.below(headers.len() + 1);
        headers.insert(at, (name, l));
    }
    let mut bytes: Vec<u8> = vec![];
    let mut good_start = true;
    if r.chance(1, 14) {
        good_start = false;
        bytes.extend_from_slice(r.pick(&["POST\r\n", "POST / HTTP/9.9\r\n", "\u{1}\u{2} / HTTP/1.1\r\n", "POST / \r\n", "POST  HTTP/1.1 x\r\n", "POST / HTTX/1.1\r\n"]).as_bytes());
    } else { bytes.extend_from_slice(format!("{} {} {}\r\n", method, target, version).as_bytes()); }
    for (k, v) in &headers {
        bytes.extend_from_slice(k.as_bytes());
        bytes.extend_from_slice(if r.chance(1, 6) { b":" } else { b": " });
        bytes.extend_from_slice(v);
        bytes.extend_from_slice(b"\r\n");
    }
    bytes.extend_from_slice(b"\r\n");
    let head = bytes.len();
    bytes.extend_from_slice(b.as_bytes());
    if r.chance(1, 8) { bytes.extend_from_slice(r.pick(&["\n", "}", "{\"query\": \"evil\"}", "   x", "\r\n\r\n"]).as_bytes()); }
    let many = headers.len() > 32;
    Sent { bytes, head, good_start, post: method == "POST", headers, many }
}

const CUT: &str = "it is cut off in the body";

impl Sent {
    fn length(&self) -> Option<usize> { std::str::from_utf8(&self.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-length"))?.1).ok()?.parse().ok() }
}

/// what must come of the first `n` bytes: the query, or an error; and the headers
fn expected(s: &Sent, n: usize) -> Result<(String, HashMap<String, String>), &'static str> {
    if !s.good_start { return Err("the request line is malformed"); }
    if s.many { return Err("more than 32 headers"); }
    if n < s.head { return Err("it is cut off in the headers"); }
    if !s.post { return Err("it is not a POST request"); }
    let l = s.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-length")).ok_or("it has no length")?;
    let l = std::str::from_utf8(&l.1).map_err(|_| "its length is invalid")?;
    if l.is_empty() || !l.bytes().all(|c| c.is_ascii_digit()) { return Err("its length is invalid"); }
    let l: u128 = l.parse().map_err(|_| "its length is invalid")?;
    if l > (n - s.head) as u128 { return Err(CUT); }
    let b = &s.bytes[s.head..s.head + l as usize];
    let v: Value = serde_json::from_slice(b).map_err(|_| "its body is not JSON")?;
    let q = v.as_object().and_then(|m| m.get("query")).and_then(|q| q.as_str()).ok_or("its body has no query")?.to_string();
    let mut m = HashMap::new();
    for (k, v) in &s.headers { if let Ok(v) = std::str::from_utf8(v) { m.insert(k.clone(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()); } }
    Ok((q, m))
}

const LONG: Duration = Duration::from_secs(12);

fn read_case(c: &mut Ctx) -> Res {
    let asynchronous = c.rng.chance(1, 3);
    let n = 1 + c.rng.below(3);
    let Some((port, rx, go)) = serve(asynchronous, None, n) else { return Err(Stop::Skip) };
    for _ in 0..n {
        let s = request(&mut c.rng);
        let len = s.bytes.len();
        let cut = if c.rng.chance(1, 4) { if c.rng.chance(1, 2) { c.rng.below(len + 1) } else { len - c.rng.below(len.min(4)) - 1 } } else { len };
        // never split a character of the body at the cut: a lossy decoding of half of one is not pinned down
        let exp = expected(&s, cut);
        let cuts = chunks(&mut c.rng, cut);
        // keep the connection open only where the answer does not depend on its end
        let open = exp.is_ok() && c.rng.chance(1, 2);
        log(format!("{} version, pieces end at {:?}, {}: {}", if asynchronous { "async" } else { "blocking" }, cuts, if open { "left open" } else { "then closed" }, short(&s.bytes[..cut])));
        let mut t = match TcpStream::connect(("127.0.0.1", port)) { Ok(t) => t, Err(_) => return Err(Stop::Skip) };
        let _ = t.set_nodelay(true);
        let _ = t.set_read_timeout(Some(LONG));
        let mut at = 0;
        for e in cuts {
            if t.write_all(&s.bytes[at..e]).is_err() { break; } // answered already
            at = e;
            if at < cut { std::thread::sleep(Duration::from_micros(if c.rng.chance(1, 3) { 3000 } else { 600 })); }
        }
        let _ = go.send(());
        // the rest of its body may still come: not to be answered yet
        let rest = exp == Err(CUT) && s.length().map_or(false, |l| l < 1 << 28) && c.rng.chance(1, 2);
        let early = if rest { rx.recv_timeout(Duration::from_millis(40)) } else { Err(mpsc::RecvTimeoutError::Timeout) };
        if let Ok((got, ..)) = &early { return violation(format!("the request is answered with {:?} although the rest of its body may still come", got)); }
        if !open { let _ = t.shutdown(Shutdown::Write); }
        let rep = match early { Err(mpsc::RecvTimeoutError::Timeout) => rx.recv_timeout(LONG), e => e };
        let why = match &exp { Ok(_) => "it is complete".to_string(), Err(w) => format!("{}, then the peer closed", w) };
        let (got, headers, can, _) = match rep {
            Ok(x) => x,
            Err(mpsc::RecvTimeoutError::Timeout) => return violation(format!("reading the request never ends ({})", why)),
            Err(_) => return violation(format!("reading the request panics ({})", why)),
        };
        match (&exp, &got) {
            (Ok((q, m)), Ok(g)) => {
                if q != g { return violation(format!("the query handed on is {:?} instead of {:?}", g, q)); }
                if *m != headers { return violation(format!("the headers handed on are {:?} instead of {:?}", headers, m)); }
            }
            (Ok((q, _)), Err(e)) => return violation(format!("a complete request with query {:?} is answered with {:?}", q, e)),
            (Err(w), Ok(g)) => return violation(format!("query {:?} is handed on although {}", g, w)),
            (Err(_), Err(_)) => (),
        }
        if !can { return violation("the request has no sender to answer on"); }
    }
    Ok(())
}

// ---------------------------------------------------------------- responses
fn jvalue(v: &StorageValue, r: &mut Vec<Value>) -> Value {
    match v {
        StorageValue::Null => json!("Null"),
        StorageValue::Bool(b) => json!({ "Bool": b }),
        StorageValue::Int(i) => json!({ "Int": i }),
        StorageValue::Float(f) => json!({ "Float": *f as f64 }),
        StorageValue::String(s) => json!({ "String": s }),
        StorageValue::Vector(x) => {
            let xs: Vec<Value> = (0..x.len()).map(|i| jvalue(x.get(i).unwrap(), r)).collect();
            json!({"Vector": {"vector": xs, "collection_type": format!("{:?}", x.collection_type)}})
        }
        StorageValue::Map(m) => {
            let mut xs = vec![];
            for (k, v) in vals::entries(m) { xs.push(json!([jvalue(k, r), jvalue(v, r)])); }
            json!({"Map": {"map": xs, "key_type": format!("{:?}", m.key_type), "collection_type": format!("{:?}", m.collection_type)}})
        }
    }
}

/// the order of the entries of a map is not determined
fn sorted(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| {
            let v = sorted(v);
            let v = if k == "map" { if let Value::Array(mut a) = v { a.sort_by_key(|x| x.to_string()); Value::Array(a) } else { v } } else { v };
            (k.clone(), v)
        }).collect()),
        Value::Array(a) => Value::Array(a.iter().map(sorted).collect()),
        _ => v.clone(),
    }
}

fn message(r: &mut Rng) -> String {
    match r.below(12) {
        8 | 9 => vals::text(r),
        10 => { let w = r.pick(literal_texts()).clone(); format!("{}{}{}", if r.chance(1, 2) { "Ab" } else { "" }, w, if r.chance(1, 2) { "cd" } else { "" }) }
        11 => { let n = 1 + r.below(6); (0..n).map(|_| char::from_u32(match r.below(5) { 0 => r.below(128), 1 => r.below(0x300), 2 => 0x2000 + r.below(0x80), 3 => r.below(0xd800), _ => 0xe000 + r.below(0x102000) } as u32).unwrap_or('?')).collect() }
        0 => String::new(),
        1 => "x".repeat(r.below(3000)),
        2 => "é😀".repeat(r.below(400)),
        3 => "y".repeat(60_000 + r.below(10_000)),
        4 => "line\r\n\r\nline \"q\"".into(),
        5 => "{}".into(),
        _ => r.pick(&["Malformed request.", "OK", "Ä", "Entry with key 'é' already exists"]).to_string(),
    }
}

fn outcome(r: &mut Rng) -> (Answer, &'static str, Payload) {
    type R = InterpreterResponse;
    if r.chance(2, 5) {
        let m = message(r);
        type E = ServerError;
        let (e, code, kind) = match r.below(11) {
            0 => (E::KeyError(m.clone()), "422", "KeyError"),
            1 => (E::NetworkError(m.clone()), "500", "NetworkError"),
            2 => (E::WriteError(m.clone()), "500", "WriteError"),
            3 => (E::TokenizationError(m.clone()), "422", "TokenizationError"),
            4 => (E::ParseError(m.clone()), "422", "ParseError"),
            5 => (E::IndexError(m.clone()), "422", "IndexError"),
            6 => (E::TypeError(m.clone()), "422", "TypeError"),
            7 => (E::InternalError(m.clone()), "500", "InternalError"),
            8 => (E::AuthorizationError(m.clone()), "401", "AuthorizationError"),
            9 => (E::AuthenticationError(m.clone()), "403", "AuthenticationError"),
            _ => (E::RequestError(m.clone()), "400", "RequestError"),
        };
        return (Err(e), code, Payload::Text(format!("{}: {}", kind, m)));
    }
    let ct = *r.pick(&[CollectionType::Bool, CollectionType::Int, CollectionType::Float, CollectionType::String]);
    let kt = *r.pick(&[KeyType::Int, KeyType::String]);
    let (x, j) = match r.below(14) {
        0..=4 => { let v = vals::value(r); let j = jvalue(&v, &mut vec![]); (R::Value(v), json!({ "Value": j })) }
        5 => { let m = message(r); (R::Value(StorageValue::String(m.clone())), json!({"Value": {"String": m}})) }
        6 => { let m = message(r); (R::Message(m.clone()), json!({ "Message": m })) }
        7 => { let n = *r.pick(&[0usize, 1, 12, usize::MAX]); (R::Size(n), json!({ "Size": n })) }
        8 => { let e = *r.pick(&[None, Some(0u64), Some(5), Some(u64::MAX)]); (R::Expiration(e), json!({ "Expiration": e })) }
        9 => { let m = message(r); (R::Key(m.clone()), json!({ "Key": m })) }
        10 => { let b = r.chance(1, 2); (R::Bool(b), json!({ "Bool": b })) }
        11 => match r.below(7) {
            0 => (R::ValueType(ValueType::Null), json!({"ValueType": "Null"})),
            1 => (R::ValueType(ValueType::Bool), json!({"ValueType": "Bool"})),
            2 => (R::ValueType(ValueType::Int), json!({"ValueType": "Int"})),
            3 => (R::ValueType(ValueType::Float), json!({"ValueType": "Float"})),
            4 => (R::ValueType(ValueType::String), json!({"ValueType": "String"})),
            5 => (R::ValueType(ValueType::Vector(ct)), json!({"ValueType": {"Vector": format!("{:?}", ct)}})),
            _ => (R::ValueType(ValueType::Map(kt, ct)), json!({"ValueType": {"Map": [format!("{:?}", kt), format!("{:?}", ct)]}})),
        },
        12 => (R::ShuttingDown, json!("ShuttingDown")),
        _ => (R::Null, json!("Null")),
    };
    (Ok(x), "200", Payload::Json(sorted(&j)))
}

enum Payload { Text(String), Json(Value) }

fn send_case(c: &mut Ctx) -> Res {
    let asynchronous = c.rng.chance(1, 3);
    let (mut a, mut code, mut pay) = outcome(&mut c.rng);
    let gone = c.index == 11 || c.rng.chance(1, 300);
    if gone || c.index == 31 || c.rng.chance(1, 300) {
        let m = "z".repeat(24 << 20);
        a = Ok(InterpreterResponse::Message(m.clone()));
        code = "200";
        pay = Payload::Json(json!({ "Message": m }));
    }
    let what = short(format!("{:?}", a).as_bytes());
    log(format!("{} version{}: {}", if asynchronous { "async" } else { "blocking" }, if gone { ", the peer leaves before the answer" } else { "" }, what));
    let Some((port, rx, go)) = serve(asynchronous, Some(a), 1) else { return Err(Stop::Skip) };
    let Ok(mut t) = TcpStream::connect(("127.0.0.1", port)) else { return Err(Stop::Skip) };
    let _ = t.set_read_timeout(Some(LONG));
    let b = "{\"query\": \"get a\"}";
    if t.write_all(format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n{}", b.len(), b).as_bytes()).is_err() { return Err(Stop::Skip); }
    if gone {
        drop(t);
        std::thread::sleep(Duration::from_millis(20));
        let _ = go.send(());
        return match rx.recv_timeout(Duration::from_secs(25)) {
            Ok((_, _, true, Some(Err(ServerError::NetworkError(_))))) => Ok(()),
            Ok((Ok(_), _, true, Some(x))) => violation(format!("24 MB cannot be written to a peer that is gone, but sending returned {:?}", x)),
            Err(mpsc::RecvTimeoutError::Disconnected) => violation("sending to a peer that is gone panics"),
            _ => Err(Stop::Skip),
        };
    }
    let _ = go.send(());
    let slow = c.rng.chance(1, 10);
    let mut out = vec![];
    if slow { std::thread::sleep(Duration::from_millis(30)); }
    let end = t.read_to_end(&mut out);
    let sent = match rx.recv_timeout(LONG) {
        Ok((Ok(_), _, true, Some(x))) => x,
        Err(mpsc::RecvTimeoutError::Disconnected) => return violation("sending the response panics"),
        Err(mpsc::RecvTimeoutError::Timeout) => return violation("sending the response never ends"),
        _ => return Err(Stop::Skip),
    };
    if end.is_err() { return Err(Stop::Skip); }
    if let Err(e) = sent { return violation(format!("everything can be written, but sending returned {:?}", e)); }
    // status line, headers, blank line, payload
    let mut at = 0;
    let mut lines = vec![];
    loop {
        let Some(k) = out[at..].iter().position(|b| *b == b'\n') else { return violation(format!("the response has no blank line after its headers: {}", short(&out))) };
        let l = String::from_utf8_lossy(&out[at..at + k]).trim_end_matches('\r').to_string();
        at += k + 1;
        if l.is_empty() { break; }
        lines.push(l);
    }
    let st: Vec<&str> = lines.first().map(|l| l.splitn(3, ' ').collect()).unwrap_or_default();
    if st.len() < 2 || !st[0].starts_with("HTTP/1.") { return violation(format!("the status line is {:?}", lines.first())); }
    if st[1] != code { return violation(format!("the status is {} instead of {}", st[1], code)); }
    let ls: Vec<String> = lines[1..].iter().filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case("content-length")).map(|(_, v)| v.trim().to_string()).collect();
    if ls.len() != 1 { return violation(format!("the response has {} Content-Length headers", ls.len())); }
    let Ok(n) = ls[0].parse::<usize>() else { return violation(format!("Content-Length is {:?}", ls[0])) };
    let rest = &out[at..];
    if n > rest.len() { return violation(format!("Content-Length is {}, but only {} bytes follow the headers", n, rest.len())); }
    let (p, extra) = rest.split_at(n);
    if !extra.iter().all(|b| b" \r\n".contains(b)) { return violation(format!("Content-Length is {}, but more follows: {}", n, short(rest))); }
    match pay {
        Payload::Text(s) => if p != s.as_bytes() { return violation(format!("the payload is {} instead of {}", short(p), short(s.as_bytes()))); },
        Payload::Json(j) => match serde_json::from_slice::<Value>(p) {
            Ok(v) => if sorted(&v) != j { return violation(format!("the payload is {} instead of {}", short(p), short(j.to_string().as_bytes()))); },
            Err(e) => return violation(format!("the payload is not JSON ({}): {}", e, short(p))),
        },
    }
    Ok(())
}

fn case(c: &mut Ctx) -> Res { if c.is("C18") { send_case(c) } else { read_case(c) } }
fn policy(p: &str) -> Policy { let _ = p; Policy { panic: false, hang: true } }
fn main() { main_with(policy, case) }
