//! Random histories of store operations against a map model (C01-C04), and of vector and map
//! operations against a sequence and a map (C05).
use harness::vals::{self, canon};
use harness::*;
use server::error::ServerError;
use server::storage::hashmap_storage::HashMapStorage;
use server::storage::{CollectionType, KeyType, Storage, StorageElement, StorageMap, StorageValue, StorageVector};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime};

const NAMES: [&str; 6] = ["a", "b", "c", "A", "", "k é"];

#[derive(Clone)]
struct Entry { val: String, exp: Option<SystemTime> }

#[derive(PartialEq, Clone, Copy, Debug)]
enum Seen { Live, Expired, Absent, Unknown }

fn seen(m: &BTreeMap<String, Entry>, k: &str, t0: SystemTime, t1: SystemTime) -> Seen {
    match m.get(k) {
        None => Seen::Absent,
        Some(e) => match e.exp {
            None => Seen::Live,
            Some(x) if x < t0 => Seen::Expired,
            Some(x) if x > t1 => Seen::Live,
            _ => Seen::Unknown,
        },
    }
}

fn expiry(r: &mut Rng) -> Option<SystemTime> {
    let now = SystemTime::now();
    match r.below(10) {
        0 | 1 | 2 => None,
        3 | 4 | 5 => Some(now - Duration::from_secs(1 + r.below(1000) as u64)),
        6 => Some(SystemTime::UNIX_EPOCH),
        7 => Some(now + Duration::from_millis(2)),
        _ => Some(now + Duration::from_secs(100_000 + r.below(1000) as u64)),
    }
}

fn show(e: &Option<SystemTime>) -> String {
    match e {
        None => "no expiry".into(),
        Some(t) => match t.duration_since(SystemTime::now()) {
            Ok(d) => format!("expires in {:.3} s", d.as_secs_f64()),
            Err(d) => format!("expired {:.3} s ago", d.duration().as_secs_f64()),
        },
    }
}

fn is_key_error(e: &ServerError) -> bool { matches!(e, ServerError::KeyError(_)) }

fn store_case(c: &mut Ctx) -> Res {
    let mut s = HashMapStorage::new();
    let mut m: BTreeMap<String, Entry> = BTreeMap::new();
    let n = c.size;
    let mut keys: Vec<String> = NAMES.iter().map(|k| k.to_string()).collect();
    // now and then, keys like those the code mentions
    if c.rng.chance(1, 3) { harness::oracle::choose_keys(&mut c.rng); keys = harness::oracle::keys(); }
    let nkeys = 1 + c.rng.below(keys.len());
    for _ in 0..n {
        let key = keys[c.rng.below(nkeys)].as_str();
        let op = c.rng.below(14);
        let v = vals::value(&mut c.rng);
        let cv = canon(&v);
        let exp = expiry(&mut c.rng);
        let element = || StorageElement { key: key.to_string(), value: v.clone(), expiration: exp };
        let entry = Entry { val: cv.clone(), exp };
        let (len0, t0) = (s.len().unwrap_or(usize::MAX), SystemTime::now());
        let mut pass = false;
        match op {
            0 | 1 | 2 => {
                log(format!("set({:?}, {}, {})", key, cv, show(&exp)));
                let r = s.set(key, element());
                c.check(&["C01"], r.is_ok(), || format!("set failed: {:?}", r))?;
                m.insert(key.into(), entry);
            }
            3 => {
                log(format!("set_if_not_exists({:?}, {}, {})", key, cv, show(&exp)));
                let r = s.set_if_not_exists(key, element());
                let w = seen(&m, key, t0, SystemTime::now());
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, Ok(false)) => (),
                    (Seen::Expired, Ok(true)) | (Seen::Absent, Ok(true)) => { m.insert(key.into(), entry); }
                    _ => return c.check(&["C01", "C02"], false, || format!("set_if_not_exists on a {:?} entry answered {:?}", w, r)),
                }
            }
            4 => {
                log(format!("update({:?}, {}, {})", key, cv, show(&exp)));
                let r = s.update(key, element());
                let w = seen(&m, key, t0, SystemTime::now());
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, Ok(())) => { m.insert(key.into(), entry); }
                    (Seen::Expired, Err(e)) | (Seen::Absent, Err(e)) if is_key_error(e) => (),
                    _ => return c.check(&["C01", "C02"], false, || format!("update of a {:?} entry answered {:?}", w, r)),
                }
            }
            5 => {
                log(format!("delete({:?})", key));
                let r = s.delete(key);
                let w = seen(&m, key, t0, SystemTime::now());
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, Ok(true)) => { m.remove(key); }
                    (Seen::Expired, Ok(false)) | (Seen::Absent, Ok(false)) => (),
                    _ => return c.check(&["C01", "C02"], false, || format!("delete of a {:?} entry answered {:?}", w, r)),
                }
            }
            6 => {
                log(format!("update_expiration({:?}, {})", key, show(&exp)));
                let r = s.update_expiration(key, exp);
                let w = seen(&m, key, t0, SystemTime::now());
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, Ok(())) => { m.get_mut(key).unwrap().exp = exp; }
                    (Seen::Expired, Err(e)) | (Seen::Absent, Err(e)) if is_key_error(e) => (),
                    _ => return c.check(&["C01", "C02"], false, || format!("update_expiration of a {:?} entry answered {:?}", w, r)),
                }
            }
            7 => {
                log(format!("get_mut({:?}).value = {}", key, cv));
                let r = match s.get_mut(key) { Ok(e) => { e.value = v.clone(); Ok(()) } Err(e) => Err(e) };
                let w = seen(&m, key, t0, SystemTime::now());
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, Ok(())) => { m.get_mut(key).unwrap().val = cv; }
                    (Seen::Expired, Err(e)) | (Seen::Absent, Err(e)) if is_key_error(e) => (),
                    _ => return c.check(&["C01", "C02"], false, || format!("get_mut of a {:?} entry answered {:?}", w, r)),
                }
            }
            8 => {
                log(format!("get({:?})", key));
                let r = s.get(key);
                let w = seen(&m, key, t0, SystemTime::now());
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, Ok(e)) => {
                        let want = m.get(key).unwrap();
                        c.check(&["C01"], canon(&e.value) == want.val && e.expiration == want.exp, || format!("get({:?}) reads {} instead of {}", key, canon(&e.value), want.val))?
                    }
                    (Seen::Expired, Err(e)) | (Seen::Absent, Err(e)) if is_key_error(e) => (),
                    _ => return c.check(&["C01", "C02"], false, || format!("get of a {:?} entry answered {:?}", w, r)),
                }
            }
            9 | 10 => {
                log(format!("check_and_expire({:?})", key));
                let r = s.check_and_expire(key);
                pass = true;
                let w = seen(&m, key, t0, SystemTime::now());
                let removed = len0.wrapping_sub(s.len().unwrap_or(0));
                c.observe(&["C03"], removed <= 1, || format!("check_and_expire removed {} entries", removed))?;
                match (w, &r) {
                    (Seen::Unknown, _) => return Err(Stop::Skip),
                    (Seen::Live, r) => c.observe(&["C03"], matches!(r, Ok(false)), || format!("check_and_expire of a live entry answered {:?}", r))?,
                    (_, Ok(true)) => c.observe(&["C03"], removed == 1, || format!("check_and_expire answered true but removed {} entries", removed))?,
                    (_, _) => c.observe(&["C03"], removed == 0, || format!("check_and_expire answered {:?} but removed {} entries", r, removed))?,
                }
            }
            11 | 12 => {
                log("invalidate_expired_keys()".into());
                let r = s.invalidate_expired_keys();
                pass = true;
                let removed = len0.wrapping_sub(s.len().unwrap_or(0));
                c.observe(&["C03"], matches!(&r, Ok(n) if *n <= 1 && *n == removed), || format!("a pass answered {:?} and removed {} entries", r, removed))?;
            }
            _ => {
                if c.rng.chance(1, 4) { log("wait 4 ms".into()); std::thread::sleep(Duration::from_millis(4)); }
            }
        }
        // every key reads as the model says
        for k in keys.iter() {
            let t0 = SystemTime::now();
            let r = s.get_if_exists(k);
            let x = s.contains_key(k);
            let w = seen(&m, k, t0, SystemTime::now());
            let tags: &[&str] = if pass { &["C01", "C02", "C03"] } else { &["C01", "C02"] };
            match w {
                Seen::Unknown => return Err(Stop::Skip),
                Seen::Live => {
                    let want = m.get(k).unwrap();
                    match &r {
                        Ok(Some(e)) => {
                            c.check(if pass { &["C01", "C03"] } else { &["C01"] }, canon(&e.value) == want.val && e.expiration == want.exp, || format!("key {:?} reads {} ({}) instead of {} ({})", k, canon(&e.value), show(&e.expiration), want.val, show(&want.exp)))?
                        }
                        _ => c.check(tags, false, || format!("key {:?} is stored and has not expired but get_if_exists answers {:?}", k, r))?,
                    }
                    c.check(tags, matches!(x, Ok(true)), || format!("key {:?} is stored and has not expired but contains_key answers {:?}", k, x))?;
                }
                Seen::Expired => {
                    c.check(&["C02"], matches!(r, Ok(None)), || format!("key {:?} has expired but get_if_exists answers {:?}", k, r))?;
                    c.check(&["C02"], matches!(x, Ok(false)), || format!("key {:?} has expired but contains_key answers {:?}", k, x))?;
                }
                Seen::Absent => {
                    c.check(&["C01", "C02"], matches!(r, Ok(None)), || format!("key {:?} was never stored but get_if_exists answers {:?}", k, r))?;
                    c.check(&["C01", "C02"], matches!(x, Ok(false)), || format!("key {:?} was never stored but contains_key answers {:?}", k, x))?;
                }
            }
        }
        let (len, cnt) = (s.len().unwrap_or(usize::MAX), s.expiring_keys_count().unwrap_or(usize::MAX));
        let plain = m.values().filter(|e| e.exp.is_none()).count();
        c.observe(&["C04"], len.wrapping_sub(cnt) == plain, || format!("{} entries are stored, {} of them without an expiry, but {} expiring keys are reported", len, plain, cnt))?;
    }
    // every listed key can be chosen by a pass: drain the expired ones
    if c.is("C04") {
        log("passes until every expired entry is gone".into());
        let t0 = SystemTime::now();
        if m.keys().any(|k| seen(&m, k, t0, t0 + Duration::from_millis(500)) == Seen::Unknown) { return Err(Stop::Skip); }
        let live = m.keys().filter(|k| m[*k].exp.is_some() && seen(&m, k, t0, t0) == Seen::Live).count();
        for _ in 0..(200 * (m.len() + 1)) { let _ = s.invalidate_expired_keys(); }
        let (len, cnt) = (s.len().unwrap_or(usize::MAX), s.expiring_keys_count().unwrap_or(usize::MAX));
        let plain = m.values().filter(|e| e.exp.is_none()).count();
        if SystemTime::now() > t0 + Duration::from_millis(500) { return Err(Stop::Skip); }
        c.check(&["C04"], cnt == live && len == plain + live, || format!("after many passes {} entries are stored and {} keys listed; {} live entries have an expiry and {} have none", len, cnt, live, plain))?;
    }
    Ok(())
}

/// a store of many entries: what holds for a few must hold for a thousand
fn many(c: &mut Ctx) -> Res {
    let sizes: Vec<usize> = numbers().iter().filter(|n| **n >= 40 && **n <= 12_000).map(|n| *n as usize).chain([70, 300, 1100, 2500]).collect();
    let n = *c.rng.pick(&sizes) + c.rng.below(12);
    let mut s = HashMapStorage::new();
    let mut m: Vec<Option<Option<SystemTime>>> = vec![None; n];     // per entry: stored? with which expiry?
    let now = SystemTime::now();
    let (past, future) = (now - Duration::from_secs(77), now + Duration::from_secs(500_000));
    let kinds = [vec![Some(future)], vec![Some(past)], vec![Some(past), Some(future)], vec![None, Some(past), Some(future)]];
    let exps = c.rng.pick(&kinds).clone();
    let gone = |e: &Option<Option<SystemTime>>| matches!(e, None | Some(Some(_))) && *e != Some(Some(future));
    log(format!("{} entries with expiries {:?}", n, exps));
    for i in 0..n {
        let expiration = *c.rng.pick(&exps);
        let key = format!("key {}", i);
        let r = s.set(&key, StorageElement { key: key.clone(), value: StorageValue::Int(i as i64), expiration });
        c.check(&["C01"], r.is_ok(), || format!("set of {:?} failed: {:?}", key, r))?;
        m[i] = Some(expiration);
    }
    let counts = |s: &HashMapStorage| (s.len().unwrap_or(usize::MAX), s.expiring_keys_count().unwrap_or(usize::MAX));
    for _ in 0..(40 + c.rng.below(n)) {
        // the last ones, the first ones, any
        let i = match c.rng.below(4) { 0 => n - 1 - c.rng.below(3), 1 => c.rng.below(3), _ => c.rng.below(n) };
        let key = format!("key {}", i);
        let expiration = *c.rng.pick(&[None, Some(future), Some(past)]);
        let dead = gone(&m[i]);
        let mut pass = false;
        let (len0, cnt0) = counts(&s);
        let what;
        match c.rng.below(8) {
            0 | 1 => { what = format!("delete({:?})", key); let r = s.delete(&key); c.check(&["C01", "C02"], matches!(r, Ok(b) if b != dead), || format!("{} answered {:?}", what, r))?; if !dead { m[i] = None; } }
            2 => { what = format!("set({:?}, {:?})", key, expiration); let r = s.set(&key, StorageElement { key: key.clone(), value: StorageValue::Int(i as i64), expiration }); c.check(&["C01"], r.is_ok(), || format!("{} answered {:?}", what, r))?; m[i] = Some(expiration); }
            3 => { what = format!("update_expiration({:?}, {:?})", key, expiration); let r = s.update_expiration(&key, expiration); c.check(&["C01", "C02"], r.is_ok() != dead, || format!("{} answered {:?}", what, r))?; if !dead { m[i] = Some(expiration); } }
            4 => { what = format!("update({:?}, {:?})", key, expiration); let r = s.update(&key, StorageElement { key: key.clone(), value: StorageValue::Int(i as i64), expiration }); c.check(&["C01", "C02"], r.is_ok() != dead, || format!("{} answered {:?}", what, r))?; if !dead { m[i] = Some(expiration); } }
            5 => { what = format!("set_if_not_exists({:?}, {:?})", key, expiration); let r = s.set_if_not_exists(&key, StorageElement { key: key.clone(), value: StorageValue::Int(i as i64), expiration }); c.check(&["C01", "C02"], matches!(r, Ok(b) if b == dead), || format!("{} answered {:?}", what, r))?; if dead { m[i] = Some(expiration); } }
            6 => { what = format!("check_and_expire({:?})", key); pass = true; let r = s.check_and_expire(&key); let k = len0.wrapping_sub(counts(&s).0); c.observe(&["C03"], match r { Ok(true) => k == 1 && dead, Ok(false) => k == 0, Err(_) => k == 0 && dead }, || format!("{} answered {:?} and removed {} entries", what, r, k))?; }
            _ => { what = "invalidate_expired_keys()".to_string(); pass = true; let r = s.invalidate_expired_keys(); let k = len0.wrapping_sub(counts(&s).0); c.observe(&["C03"], matches!(r, Ok(r) if r == k && k <= 1), || format!("a pass answered {:?} and removed {} entries", r, k))?; }
        }
        let r = s.get_if_exists(&key).map(|e| e.map(|e| e.value.clone()));
        let dead = gone(&m[i]);
        c.check(if pass { &["C01", "C02", "C03"] } else { &["C01", "C02"] }, matches!(&r, Ok(v) if v.is_none() == dead), || format!("after {} with {} entries stored and {} expiring, {:?} reads {:?}", what, len0, cnt0, key, r))?;
        let (len, cnt) = counts(&s);
        let plain = m.iter().filter(|e| **e == Some(None)).count();
        c.observe(&["C04"], len.wrapping_sub(cnt) == plain, || format!("after {} with {} entries stored and {} expiring: {} entries are stored, {} of them without an expiry, but {} expiring keys are reported", what, len0, cnt0, len, plain, cnt))?;
    }
    for (i, e) in m.iter().enumerate() {
        let r = s.get_if_exists(&format!("key {}", i)).map(|e| e.map(|e| (canon(&e.value), e.expiration)));
        match r {
            Ok(None) => c.check(&["C01", "C02", "C03"], gone(e), || format!("entry {} of {} is gone", i, n))?,
            Ok(Some((v, x))) => { c.check(&["C01", "C02"], !gone(e), || format!("entry {} of {} still reads", i, n))?; c.check(&["C01"], v == format!("int {}", i) && *e == Some(x), || format!("entry {} of {} reads {} {:?}", i, n, v, x))?; }
            Err(_) => c.check(&["C01"], false, || format!("entry {} of {} cannot be read", i, n))?,
        }
    }
    if c.is("C04") {
        log("passes until every expired entry is gone".into());
        let live = m.iter().filter(|e| **e == Some(Some(future))).count();
        let plain = m.iter().filter(|e| **e == Some(None)).count();
        let t0 = SystemTime::now();
        for _ in 0..(60 * n) { if counts(&s).1 == live { break } if t0.elapsed().map_or(true, |d| d.as_secs() > 8) { return Err(Stop::Skip) } let _ = s.invalidate_expired_keys(); }
        for _ in 0..n { let _ = s.invalidate_expired_keys(); }
        let (len, cnt) = counts(&s);
        c.check(&["C04"], cnt == live && len == plain + live, || format!("after many passes {} entries are stored and {} keys listed; {} live entries have an expiry and {} have none", len, cnt, live, plain))?;
    }
    Ok(())
}

fn fits(v: &StorageValue, t: &CollectionType) -> bool {
    matches!((v, t), (StorageValue::Bool(_), CollectionType::Bool) | (StorageValue::Int(_), CollectionType::Int) | (StorageValue::Float(_), CollectionType::Float) | (StorageValue::String(_), CollectionType::String))
}

fn fits_key(v: &StorageValue, t: &KeyType) -> bool {
    matches!((v, t), (StorageValue::Int(_), KeyType::Int) | (StorageValue::String(_), KeyType::String))
}

fn type_error<T>(r: &Result<T, ServerError>) -> bool { matches!(r, Err(ServerError::TypeError(_))) }
fn index_error<T>(r: &Result<T, ServerError>) -> bool { matches!(r, Err(ServerError::IndexError(_))) }
fn kind<T>(r: &Result<T, ServerError>) -> String { match r { Ok(_) => "Ok".into(), Err(e) => format!("{:?}", e) } }

fn any_value(r: &mut Rng, t: &CollectionType) -> StorageValue {
    match r.below(6) { 0 => StorageValue::Null, 1 => vals::value(r), 2 => vals::scalar(r), _ => vals::of_type(r, t) }
}

fn vec_case(c: &mut Ctx) -> Res {
    let t = *c.rng.pick(&vals::CTS);
    let mut v = StorageVector::new(t);
    let mut m: Vec<String> = vec![];
    log(format!("vector of {:?}", t));
    for _ in 0..c.size {
        let x = any_value(&mut c.rng, &t);
        let cx = canon(&x);
        match c.rng.below(5) {
            0 | 1 => {
                log(format!("push({})", cx));
                let r = v.push(x.clone());
                if fits(&x, &t) { c.check(&["C05"], r.is_ok(), || format!("push: {}", kind(&r)))?; m.push(cx); }
                else { c.check(&["C05"], type_error(&r), || format!("push of a mismatched value: {}", kind(&r)))?; }
            }
            2 => {
                log("pop()".into());
                let r = v.pop().map(|x| canon(&x));
                c.check(&["C05"], r == m.pop(), || format!("pop answered {:?}", r))?;
            }
            3 => {
                let i = if c.rng.chance(1, 8) { usize::MAX } else { c.rng.below(m.len() + 2) };
                log(format!("set({}, {})", i, cx));
                let r = v.set(i, x.clone());
                if !fits(&x, &t) { c.check(&["C05"], r.is_err() && (type_error(&r) || i >= m.len()), || format!("set of a mismatched value: {}", kind(&r)))?; }
                else if i >= m.len() { c.check(&["C05"], index_error(&r), || format!("set out of range: {}", kind(&r)))?; }
                else { c.check(&["C05"], r.is_ok(), || format!("set: {}", kind(&r)))?; m[i] = cx; }
            }
            _ => {
                let i = if c.rng.chance(1, 8) { usize::MAX } else { c.rng.below(m.len() + 2) };
                log(format!("get({})", i));
                let r = v.get(i);
                if i >= m.len() { c.check(&["C05"], index_error(&r), || format!("get out of range: {}", kind(&r)))?; }
            }
        }
        c.check(&["C05"], v.len() == m.len(), || format!("length {} instead of {}", v.len(), m.len()))?;
        for (i, w) in m.iter().enumerate() {
            let r = v.get(i);
            c.check(&["C05"], matches!(&r, Ok(x) if canon(x) == *w), || format!("element {} is {:?} instead of {}", i, r, w))?;
        }
        let cl = v.clone();
        c.check(&["C05"], canon(&StorageValue::Vector(cl)) == canon(&StorageValue::Vector(v.clone())), || "a clone differs".to_string())?;
    }
    Ok(())
}

fn map_case(c: &mut Ctx) -> Res {
    let t = *c.rng.pick(&vals::CTS);
    let kt = *c.rng.pick(&[KeyType::Int, KeyType::String]);
    let mut v = StorageMap::new(kt, t);
    let mut m: HashMap<String, String> = HashMap::new();
    log(format!("map of {:?} to {:?}", kt, t));
    let steps = c.size;
    for step in 0..steps {
        let x = any_value(&mut c.rng, &t);
        let cx = canon(&x);
        let k = if c.rng.chance(1, 6) { vals::value(&mut c.rng) } else { vals::key_of(&mut c.rng, &kt) };
        let ck = canon(&k);
        let good = fits_key(&k, &kt);
        match c.rng.below(6) {
            0 | 1 | 2 => {
                log(format!("set({}, {})", ck, cx));
                let r = v.set(k.clone(), x.clone());
                if !good || !fits(&x, &t) { c.check(&["C05"], type_error(&r), || format!("set of a mismatched key or value: {}", kind(&r)))?; }
                else { c.check(&["C05"], r.is_ok(), || format!("set: {}", kind(&r)))?; m.insert(ck.clone(), cx); }
            }
            3 => {
                log(format!("delete({})", ck));
                let r = v.delete(&k);
                if !good { c.check(&["C05"], type_error(&r), || format!("delete of a mismatched key: {}", kind(&r)))?; }
                else {
                    let had = m.remove(&ck).is_some();
                    c.check(&["C05"], matches!(r, Ok(b) if b == had), || format!("delete answered {:?}", r))?;
                }
            }
            4 => {
                log(format!("contains_key({})", ck));
                let r = v.contains_key(&k);
                if !good { c.check(&["C05"], type_error(&r), || format!("contains_key of a mismatched key: {}", kind(&r)))?; }
                else { c.check(&["C05"], matches!(r, Ok(b) if b == m.contains_key(&ck)), || format!("contains_key answered {:?}", r))?; }
            }
            _ => {
                log(format!("get({})", ck));
                let r = v.get(&k);
                if !good { c.check(&["C05"], type_error(&r), || format!("get of a mismatched key: {}", kind(&r)))?; }
                else if !m.contains_key(&ck) { c.check(&["C05"], index_error(&r), || format!("get of a missing key: {}", kind(&r)))?; }
            }
        }
        c.check(&["C05"], v.len() == m.len(), || format!("length {} instead of {}", v.len(), m.len()))?;
        let split = vals::ints().len();
        let keys = match kt { KeyType::Int => &vals::keys()[..split], KeyType::String => &vals::keys()[split..] };
        for k in keys.iter().take(if step + 1 == steps { keys.len() } else { 12 }).chain([&k].into_iter().filter(|_| good)) {
            let r = v.get(k);
            match m.get(&canon(k)) {
                Some(w) => c.check(&["C05"], matches!(&r, Ok(x) if canon(x) == *w), || format!("{} reads {:?} instead of {}", canon(k), r, w))?,
                None => c.check(&["C05"], index_error(&r), || format!("{} is not in the map but reads {:?}", canon(k), r))?,
            }
        }
    }
    Ok(())
}

fn eq_case(c: &mut Ctx) -> Res {
    let (a, b) = (vals::scalar(&mut c.rng), vals::scalar(&mut c.rng));
    for (x, y) in [(&a, &b), (&a, &a)] {
        let same = canon(x) == canon(y);
        log(format!("{} == {}", canon(x), canon(y)));
        if fits_key(x, &KeyType::Int) || fits_key(x, &KeyType::String) {
            c.check(&["C05"], (x == y) == same, || format!("{} == {} answered {}", canon(x), canon(y), x == y))?;
        }
    }
    Ok(())
}

/// collections much larger than any size a program mentions
fn large_case(c: &mut Ctx) -> Res {
    let n = *c.rng.pick(&[300usize, 5_000, 66_000, 140_000]) + c.rng.below(40);
    let strings = c.rng.chance(1, 3);
    log(format!("a map and a vector of {} elements, {} keys", n, if strings { "string" } else { "int" }));
    let key = |i: usize| if strings { StorageValue::String(format!("k{}", i)) } else { StorageValue::Int(i as i64 - 100) };
    let mut m = StorageMap::new(if strings { KeyType::String } else { KeyType::Int }, CollectionType::Int);
    let mut v = StorageVector::new(CollectionType::Int);
    for i in 0..n {
        let x = StorageValue::Int((i * 7) as i64);
        let (a, b) = (m.set(key(i), x.clone()), v.push(x));
        c.check(&["C05"], a.is_ok() && b.is_ok(), || format!("with {} elements, set: {}, push: {}", i, kind(&a), kind(&b)))?;
        c.check(&["C05"], m.len() == i + 1 && v.len() == i + 1, || format!("after {} insertions the map has length {} and the vector {}", i + 1, m.len(), v.len()))?;
    }
    for i in 0..n {
        let w = (i * 7) as i64;
        let r = m.get(&key(i));
        c.check(&["C05"], matches!(r, Ok(StorageValue::Int(x)) if *x == w), || format!("key {} of {} reads {:?}", i, n, r))?;
        let r = v.get(i);
        c.check(&["C05"], matches!(r, Ok(StorageValue::Int(x)) if *x == w), || format!("element {} of {} reads {:?}", i, n, r))?;
    }
    let i = c.rng.below(n);
    let r = m.delete(&key(i));
    c.check(&["C05"], matches!(r, Ok(true)) && m.len() == n - 1 && m.get(&key(i)).is_err(), || format!("delete of key {} of {} answered {:?}, the length is {}", i, n, r, m.len()))?;
    let r = v.pop();
    c.check(&["C05"], matches!(r, Some(StorageValue::Int(x)) if x == ((n - 1) * 7) as i64) && v.len() == n - 1, || format!("pop answered {:?}, the length is {}", r.map(|x| canon(&x)), v.len()))?;
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    if c.is("C05") {
        if c.index % 400 == 33 { return large_case(c); }
        match c.rng.below(5) { 0 | 1 => vec_case(c), 2 | 3 => map_case(c), _ => eq_case(c) }
    } else if c.index % 50 == 7 { many(c) } else { store_case(c) }
}

fn policy(p: &str) -> Policy { Policy { panic: p == "C04" || p == "C05", hang: false } }

fn main() { main_with(policy, case) }
