//! Global, append-ordered history of observable events of one run.
use crate::core::{fp, note, now_ms};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Ev {
    pub ms: u64,
    pub k: &'static str,
    pub a: i64,
    pub b: i64,
    pub c: i64,
}

thread_local! {
    static H: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
}

/// appends an event, returns its position
pub fn ev(k: &'static str, a: i64, b: i64, c: i64) -> usize {
    note(&format!("{k} {a} {b} {c}"));
    let mut x = 0u64;
    for ch in k.bytes() {
        x = x.wrapping_mul(31).wrapping_add(ch as u64);
    }
    fp(x ^ ((a as u64) << 40) ^ ((b as u64) << 20) ^ c as u64);
    H.with(|h| {
        let mut h = h.borrow_mut();
        h.push(Ev { ms: now_ms(), k, a, b, c });
        h.len() - 1
    })
}
pub fn len() -> usize {
    H.with(|h| h.borrow().len())
}
pub fn snapshot() -> Vec<Ev> {
    H.with(|h| h.borrow().clone())
}
pub fn with<R>(f: impl FnOnce(&[Ev]) -> R) -> R {
    H.with(|h| f(&h.borrow()))
}
pub fn has(k: &str, a: i64) -> bool {
    with(|h| h.iter().any(|e| e.k == k && e.a == a))
}
pub fn find(k: &str, a: i64) -> Option<usize> {
    with(|h| h.iter().position(|e| e.k == k && e.a == a))
}
pub fn number(k: &str, a: i64) -> usize {
    with(|h| h.iter().filter(|e| e.k == k && e.a == a).count())
}
