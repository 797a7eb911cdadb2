//! Reference code for functions of the standard library that loop over an iterator.  The verifier executes
//! these bodies in the place of the library's own (which are written over raw memory).  Trusted, like every model.
use std::collections::HashMap;
use std::hash::Hash;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(iter: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in iter { v.push(x); }
    v
}

pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, iter: I) {
    for x in iter { v.push(x); }
}

pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, iter: I) {
    for x in iter { v.push(*x); }
}

pub fn result_vec_from_iter<T, E, I: IntoIterator<Item = Result<T, E>>>(iter: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    for x in iter {
        match x {
            Ok(x) => v.push(x),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}

pub fn option_vec_from_iter<T, I: IntoIterator<Item = Option<T>>>(iter: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    for x in iter {
        match x {
            Some(x) => v.push(x),
            None => return None,
        }
    }
    Some(v)
}

pub fn string_from_chars<I: IntoIterator<Item = char>>(iter: I) -> String {
    let mut s = String::new();
    for c in iter { s.push(c); }
    s
}

pub fn string_from_char_refs<'a, I: IntoIterator<Item = &'a char>>(iter: I) -> String {
    let mut s = String::new();
    for c in iter { s.push(*c); }
    s
}

pub fn string_extend<I: IntoIterator<Item = char>>(s: &mut String, iter: I) {
    for c in iter { s.push(c); }
}

pub fn map_from_iter<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(iter: I) -> HashMap<K, V> {
    let mut m = HashMap::new();
    for (k, v) in iter { m.insert(k, v); }
    m
}

pub fn map_extend<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V>, iter: I) {
    for (k, v) in iter { m.insert(k, v); }
}

pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s {
        if y == x { return true; }
    }
    false
}

pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut keep: F) {
    let old = std::mem::take(v);
    for x in old {
        if keep(&x) { v.push(x); }
    }
}

pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(iter: &mut I, mut pred: P) -> Option<usize> {
    let mut n = 0usize;
    while let Some(x) = iter.next() {
        if pred(x) { return Some(n); }
        n += 1;
    }
    None
}
