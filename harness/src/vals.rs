//! Values: generation and a canonical text form that does not use the code's own equality.
use crate::Rng;
use server::storage::{CollectionType, KeyType, StorageMap, StorageValue, StorageVector};

pub const CTS: [CollectionType; 4] = [CollectionType::Bool, CollectionType::Int, CollectionType::Float, CollectionType::String];

pub fn float(r: &mut Rng) -> f32 { *r.pick(&[0.0f32, -1.5, 2.25, 1e10, 3.0]) }
const PLAIN: [&str; 11] = ["", "a", "A", "b c", "é", "k1", "k2", "\"q\"", "x\ny", "1", "b"];
// close to the ones above: what a careless comparison takes for the same
const CLOSE: [&str; 20] = ["a ", " a", "a\0", "K1", "É", "e\u{301}", "\u{7f}", "01", "1.0", "+1", "b  c", "b\tc", "x\r\ny", "a\u{200b}", "\u{feff}a", "ß", "ss", "null", "true", "\\q"];
/// every text that text() makes
pub fn texts() -> &'static Vec<String> {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t: Vec<String> = PLAIN.iter().chain(CLOSE.iter()).map(|s| s.to_string()).collect();
        t.push("long".repeat(80)); t.push("long".repeat(80) + "!");
        for w in crate::literal_texts() { if !t.contains(w) { t.push(w.clone()); } }
        for w in crate::literal_texts() { for w in [format!("a{}", w), format!("{}a", w)] { if t.len() < 400 && !t.contains(&w) { t.push(w); } } }
        t
    })
}
pub fn text(r: &mut Rng) -> String {
    if r.chance(5, 6) { return r.pick(&PLAIN).to_string(); }
    if r.chance(1, 2) { return r.pick(&CLOSE).to_string(); }
    r.pick(texts()).clone()
}
pub fn ints() -> &'static Vec<i64> {
    static T: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = vec![0, 1, 2, -1, 7, i64::MAX, i64::MIN, 1 << 40, 3, 5, 10, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, i64::MAX - 1, i64::MIN + 1, -2];
        for n in crate::numbers() { if !t.contains(n) { t.push(*n); } }
        t
    })
}
/// every key that key_of() makes
pub fn keys() -> &'static Vec<StorageValue> {
    static T: std::sync::OnceLock<Vec<StorageValue>> = std::sync::OnceLock::new();
    T.get_or_init(|| ints().iter().copied().map(StorageValue::Int).chain(texts().iter().cloned().map(StorageValue::String)).collect())
}
/// the entries of a map, found by asking for every key there can be
pub fn entries(m: &StorageMap) -> Vec<(&'static StorageValue, &StorageValue)> {
    let mut x = vec![];
    let split = ints().len();
    for k in match m.key_type { KeyType::Int => &keys()[..split], KeyType::String => &keys()[split..] } {
        if x.len() >= m.len() { break }
        if let Ok(v) = m.get(k) { x.push((k, v)); }
    }
    x
}
pub fn int(r: &mut Rng) -> i64 {
    if r.chance(5, 6) { return *r.pick(&[0, 1, 2, -1, 7, i64::MAX, i64::MIN, 1 << 40]); }
    *r.pick(ints())
}

pub fn scalar(r: &mut Rng) -> StorageValue {
    match r.below(4) {
        0 => StorageValue::Bool(r.chance(1, 2)),
        1 => StorageValue::Int(int(r)),
        2 => StorageValue::Float(float(r)),
        _ => StorageValue::String(text(r)),
    }
}

pub fn of_type(r: &mut Rng, t: &CollectionType) -> StorageValue {
    match t {
        CollectionType::Bool => StorageValue::Bool(r.chance(1, 2)),
        CollectionType::Int => StorageValue::Int(int(r)),
        CollectionType::Float => StorageValue::Float(float(r)),
        CollectionType::String => StorageValue::String(text(r)),
    }
}

pub fn key_of(r: &mut Rng, t: &KeyType) -> StorageValue {
    match t {
        KeyType::Int => StorageValue::Int(int(r)),
        KeyType::String => StorageValue::String(text(r)),
    }
}

pub fn value(r: &mut Rng) -> StorageValue {
    match r.below(8) {
        0 => StorageValue::Null,
        1 | 2 => {
            let t = *r.pick(&CTS);
            let mut v = StorageVector::new(t);
            for _ in 0..r.below(4) { let _ = v.push(of_type(r, &t)); }
            StorageValue::Vector(v)
        }
        3 | 4 => {
            let t = *r.pick(&CTS);
            let k = *r.pick(&[KeyType::Int, KeyType::String]);
            let mut m = StorageMap::new(k, t);
            for _ in 0..r.below(4) { let _ = m.set(key_of(r, &k), of_type(r, &t)); }
            StorageValue::Map(m)
        }
        _ => scalar(r),
    }
}

pub fn canon(v: &StorageValue) -> String {
    match v {
        StorageValue::Null => "null".into(),
        StorageValue::Bool(b) => format!("bool {}", b),
        StorageValue::Int(i) => format!("int {}", i),
        StorageValue::Float(f) => format!("float {:?}", f),
        StorageValue::String(s) => format!("str {:?}", s),
        StorageValue::Vector(v) => {
            let xs: Vec<String> = (0..v.len()).map(|i| v.get(i).map(canon).unwrap_or_else(|_| "?".into())).collect();
            format!("vec {:?} [{}]", v.collection_type, xs.join(", "))
        }
        StorageValue::Map(m) => {
            let xs: Vec<String> = entries(m).into_iter().map(|(k, v)| match k { StorageValue::Int(i) => format!("{} => {}", i, canon(v)), StorageValue::String(s) => format!("{:?} => {}", s, canon(v)), _ => String::new() }).collect();
            format!("map {:?} {:?} #{} {{{}}}", m.key_type, m.collection_type, m.len(), xs.join(", "))
        }
    }
}
