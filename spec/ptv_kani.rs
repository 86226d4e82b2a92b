use kani;
// Contract primitives as read by Kani (bit-precise).  Same interface as ptv.rs.
pub fn real() -> f32 { let x: f32 = kani::any(); kani::assume(x.is_finite()); x }
pub fn real_in(lo: f32, hi: f32) -> f32 { let x: f32 = kani::any(); kani::assume(x >= lo && x <= hi); x }
pub fn pos() -> f32 { let x: f32 = kani::any(); kani::assume(x > 0. && x.is_finite()); x }
pub fn nonneg() -> f32 { let x: f32 = kani::any(); kani::assume(x >= 0. && x.is_finite()); x }
pub fn realx() -> f32 { kani::any() }
pub fn real_or_inf() -> f32 { let x: f32 = kani::any(); kani::assume(x.is_finite() || x == ::std::f32::INFINITY); x }
pub fn real64() -> f64 { let x: f64 = kani::any(); kani::assume(x.is_finite()); x }
pub fn int(lo: i32, hi: i32) -> i32 { let x: i64 = kani::any(); kani::assume(x >= lo as i64 && x <= hi as i64); x as i32 }
pub fn uint(lo: u32, hi: u32) -> u32 { let x: i64 = kani::any(); kani::assume(x >= lo as i64 && x <= hi as i64); x as u32 }
pub fn size(lo: usize, hi: usize) -> usize { let x: i64 = kani::any(); kani::assume(x >= lo as i64 && x <= hi as i64); x as usize }
pub fn choose(n: usize) -> usize { let x: i64 = kani::any(); kani::assume(x >= 0 && x < n as i64); x as usize }
pub fn boolean() -> bool { kani::any() }
pub fn stub<A, B>(_real: A, _spec: B) {}
pub fn sym_vec<T, F: Fn(usize) -> T>(n: usize, f: F) -> Vec<T> { (0..n).map(|i| f(i)).collect() }
pub fn assume(c: bool) { kani::assume(c) }
pub fn native_assume(c: bool) { kani::assume(c) }
pub fn symbolic() -> bool { false }
pub fn check(c: bool, _: &'static str) { kani::assert(c, "contract") }
pub fn close(a: f32, b: f32, _: &'static str) { kani::assert(a == b, "contract") }
pub fn close_s(a: f32, b: f32, _: f32, _: &'static str) { kani::assert(a == b, "contract") }
pub fn leq(a: f32, b: f32, _: &'static str) { kani::assert(a <= b, "contract") }
pub fn leq_s(a: f32, b: f32, _: f32, _: &'static str) { kani::assert(a <= b, "contract") }
pub fn observe(_: &'static str, _: f32) {}
pub fn uf(_: &'static str, _: &[f32]) -> f32 { real() }
pub fn uf_nonneg(_: &'static str, _: &[f32]) -> f32 { nonneg() }
pub fn uf_bool(_: &'static str, _: &[f32]) -> bool { boolean() }
pub fn uf_int(_: &'static str, _: &[f32], lo: u32, hi: u32) -> u32 { uint(lo, hi) }
pub fn loop_contract<A, B, C>(_f: A, _n: usize, _h: B, _i: C) {}
pub fn loop_contract_named<B, C>(_f: &'static str, _n: usize, _h: B, _i: C) {}
pub fn joinable<T>(_: T) -> ::std::thread::JoinHandle<T> { panic!() }
pub fn invariant(_c: bool, _label: &'static str) {}
pub fn decreases(_n: usize) {}
pub fn decreases_real(_x: f32) {}
pub fn any_value<T: Default>() -> T { T::default() }
pub fn emit(_: &'static str, _: &[f32]) {}
pub fn emitted(_: &'static str) -> usize { 0 }
pub fn event(_: &'static str, _: usize, _: usize) -> f32 { real() }
pub fn reset_trace() {}
pub fn main(_: &[(&'static str, fn())]) {}
pub fn iter_from<'a, T>(it: &::std::slice::Iter<'a, T>, n: usize) -> ::std::slice::Iter<'a, T> { let mut i = it.clone(); for _ in 0..n { i.next(); } i }
/// [P] the same for other iterators
pub fn iter_mut_from<'a, T>(_: &::std::slice::IterMut<'a, T>, _: usize) -> ::std::slice::IterMut<'a, T> { panic!() }
pub fn into_iter_from<T>(_: &::std::vec::IntoIter<T>, _: usize) -> ::std::vec::IntoIter<T> { panic!() }
pub fn sorted_place(_j: usize) -> usize { 0 }
pub fn sorted_pair(_i: usize, _j: usize) {}
pub fn again<T>(_: &T) -> T { panic!() }
pub fn grow<T>(_: &mut Vec<T>, _n: usize) {}
pub fn proving() -> bool { true }
pub fn linear() {}
pub fn text_out(_: &[u8]) {}
pub fn text_lines() -> i32 { 0 }
pub fn text_words(_: usize) -> usize { 0 }
pub fn text_is(_: usize, _: usize, _: &'static str) -> bool { false }
pub fn text_int(_: usize, _: usize) -> i32 { 0 }
pub fn m_spawn<F, T>(f: F) -> ::std::thread::JoinHandle<T> where F: FnOnce() -> T, F: Send + 'static, T: Send + 'static { emit("worker", &[]); joinable(f()) }
pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B { let mut it = it; let mut f = f; let mut a = init; while let Some(x) = it.next() { a = f(a, x); } a }
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) { let mut it = it; let mut f = f; while let Some(x) = it.next() { f(x); } }
pub fn m_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> { let mut p = p; while let Some(x) = it.next() { if p(&x) { return Some(x); } } None }
pub fn m_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> { let mut p = p; let mut n = 0; while let Some(x) = it.next() { if p(x) { return Some(n); } n += 1; } None }
pub fn m_count<I: Iterator>(it: I) -> usize { let mut it = it; let mut n = 0; while let Some(_) = it.next() { n += 1; } n }

// what the spec files use of the standard library
pub mod pre {
    pub use std::sync::{Arc, Mutex};
    pub use std::io::Write;
    pub use std::cmp;
}
