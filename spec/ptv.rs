// Contract primitives.  The verifier (ptv) gives the functions marked [P] their meaning directly from the logic and never
// looks at their bodies; the bodies below are the *native* reading, used for replaying counterexamples, for the
// vacuity check and for bounded stand-ins.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic;

pub struct AssumeFailed;

pub struct St {
    pub replay: Vec<f64>,
    pub replaying: bool,
    pub pos: usize,
    pub rng: u64,
    pub mode: u32,
    pub log: Vec<(String, f64)>,
    pub fails: Vec<String>,
    pub checks: u64,
    pub obs: Vec<(String, f64)>,
    pub uf_seed: u64,
    pub blur: u64,
}

thread_local!(pub static ST: RefCell<St> = RefCell::new(St { replay: Vec::new(), replaying: false, pos: 0, rng: 1, mode: 0, log: Vec::new(), fails: Vec::new(), checks: 0, obs: Vec::new(), uf_seed: 0, blur: 0 }));

fn next_u64() -> u64 {
    ST.with(|s| { let mut s = s.borrow_mut(); s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15); mix(s.rng) })
}
fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn unit() -> f64 { (next_u64() >> 11) as f64 / (1u64 << 53) as f64 }

fn input(name: &str, gen: &Fn() -> f64) -> f64 {
    let r = ST.with(|s| { let mut s = s.borrow_mut(); if s.replaying { let p = s.pos; s.pos += 1; let h = mix(s.rng ^ mix(p as u64)) % 16; Some(if p < s.replay.len() && h >= s.blur { s.replay[p] } else { ::std::f64::NAN }) } else { None } });
    let blurred = ST.with(|s| s.borrow().blur > 0);
    let v = match r { Some(v) if !v.is_nan() || name == "realx" && !blurred => v, _ => gen() };
    ST.with(|s| s.borrow_mut().log.push((name.to_string(), v)));
    v
}
fn mode() -> u32 { ST.with(|s| s.borrow().mode) }

fn gen_real() -> f64 {
    let k = next_u64() % 100;
    let m = mode() % 4;
    if m == 0 || k < 20 { // small dyadic grid: many exact coincidences
        (((next_u64() % 33) as i64 - 16) as f64) / [1., 2., 4., 8.][(next_u64() % 4) as usize]
    } else if m == 1 || k < 60 {
        unit() * 4. - 2.
    } else if m == 2 {
        unit() * 20. - 10.
    } else {
        (unit() * 2. - 1.) * (10f64).powf(unit() * 6. - 3.)
    }
}

/// [P] prove the n-th loop of a function (in the order of the source) by an invariant; `havoc` and the invariant take its variables by name
pub fn loop_contract<A, B, C>(_f: A, _n: usize, _havoc: B, _invariant: C) {}
/// [P] the same for a function that has no name to refer to
pub fn loop_contract_named<B, C>(_f: &'static str, _n: usize, _havoc: B, _invariant: C) {}
/// [P] what a thread leaves to be joined
pub fn joinable<T>(_: T) -> ::std::thread::JoinHandle<T> { panic!() }
/// a new thread, as the prover runs it
pub fn m_spawn<F, T>(f: F) -> ::std::thread::JoinHandle<T> where F: FnOnce() -> T, F: Send + 'static, T: Send + 'static { emit("worker", &[]); joinable(f()) }
/// [P] what an invariant states
pub fn invariant(_c: bool, _label: &'static str) {}
/// [P] whether the invariant is being proved here (not assumed)
pub fn proving() -> bool { true }
/// [P] decide which paths are possible without the conditions that have products in them
pub fn linear() {}
/// [P] a bounded quantity that every iteration decreases
pub fn decreases(_n: usize) {}
/// [P] a quantity that is not negative and that every iteration decreases by at least one
pub fn decreases_real(_x: f32) {}
/// [P] any number
pub fn any_value<T: Default>() -> T { T::default() }
/// [P] any finite real
pub fn real() -> f32 { input("real", &|| gen_real() as f32 as f64) as f32 }
/// [P] any real in [lo, hi]
pub fn real_in(lo: f32, hi: f32) -> f32 {
    input("real", &|| {
        let k = next_u64() % 16;
        let (l, h) = (lo as f64, hi as f64);
        let v = if k == 0 { l } else if k == 1 { h } else if k < 6 { let g = (unit() * 16.).floor() / 16.; l + (h - l) * g } else { l + (h - l) * unit() };
        v as f32 as f64
    }) as f32
}
/// [P] any positive real
pub fn pos() -> f32 { input("real", &|| { let v = gen_real().abs(); (if v == 0. { 0.5 } else { v }) as f32 as f64 }) as f32 }
/// [P] any real, an infinity or NaN
pub fn realx() -> f32 { input("realx", &|| match next_u64() % 8 { 0 => ::std::f64::INFINITY, 1 => ::std::f64::NEG_INFINITY, 2 => ::std::f64::NAN, _ => gen_real() as f32 as f64 }) as f32 }
/// [P] any finite real or +infinity (a ray extent)
pub fn real_or_inf() -> f32 { input("realp", &|| match next_u64() % 3 { 0 => ::std::f64::INFINITY, _ => gen_real() as f32 as f64 }) as f32 }
/// [P] any finite double
pub fn real64() -> f64 { input("real64", &|| gen_real()) }
/// [P] any integer in [lo, hi]
pub fn int(lo: i32, hi: i32) -> i32 { input("int", &|| gen_int(lo as i64, hi as i64) as f64) as i32 }
pub fn uint(lo: u32, hi: u32) -> u32 { input("int", &|| gen_int(lo as i64, hi as i64) as f64) as u32 }
pub fn size(lo: usize, hi: usize) -> usize { input("int", &|| gen_int(lo as i64, hi as i64) as f64) as usize }
fn gen_int(lo: i64, hi: i64) -> i64 {
    let span = (hi - lo) as u64;
    match next_u64() % 8 {
        0 => lo, 1 => hi,
        2 | 3 | 4 => { let c = if lo <= 0 && hi >= 0 { 0 } else { lo }; let v = c + (next_u64() % 41) as i64 - 20; if v < lo { lo } else if v > hi { hi } else { v } }
        5 => { let b = next_u64() % 32; let v = lo + ((next_u64() >> (32 + b)) as i64); if v > hi { hi } else { v } }
        _ => if span == 0 { lo } else { lo + (next_u64() % (span + 1)) as i64 },
    }
}
/// [P] one of 0..n, every case explored separately
pub fn choose(n: usize) -> usize { input("choose", &|| (next_u64() % (n as u64)) as f64) as usize }
/// [P]
pub fn boolean() -> bool { input("bool", &|| (next_u64() & 1) as f64) != 0. }

/// [P] any non-negative real
pub fn nonneg() -> f32 { input("real", &|| gen_real().abs() as f32 as f64) as f32 }
/// [P] calls of `real` made by the code under contract are replaced by `spec`, its contract; natively the real function runs
pub fn stub<A, B>(_real: A, _spec: B) {}
/// [P] a vector of length n with element i given by f(i)
pub fn sym_vec<T, F: Fn(usize) -> T>(n: usize, f: F) -> Vec<T> { (0..n).map(|i| f(i)).collect() }

/// [P] requires
pub fn assume(c: bool) { if !c { panic::resume_unwind(Box::new(AssumeFailed)); } }
/// native reading only: keep sampled inputs away from ill-conditioned spots (no effect on the proof)
pub fn native_assume(c: bool) { assume(c) }
/// [P] true under the prover, false natively
pub fn symbolic() -> bool { false }
/// [P] ensures
pub fn check(c: bool, label: &'static str) {
    ST.with(|s| { let mut s = s.borrow_mut(); s.checks += 1; if !c { s.fails.push(label.to_string()); } })
}
/// [P] ensures a == b in exact arithmetic; natively within a relative tolerance of the magnitudes involved
pub fn close(a: f32, b: f32, label: &'static str) { close_s(a, b, 1., label) }
/// [P] the same, with the magnitude of cancelling intermediate values given for the native reading
pub fn close_s(a: f32, b: f32, scale: f32, label: &'static str) {
    let (x, y, s) = (a as f64, b as f64, scale.abs() as f64);
    let ok = (a == b) || (a.is_nan() && b.is_nan()) || (x - y).abs() <= 2e-3 * (s + x.abs().max(y.abs()));
    ST.with(|st| { let mut st = st.borrow_mut(); st.checks += 1; if !ok { st.fails.push(format!("{} ({:e} vs {:e})", label, a, b)); } })
}
/// [P] a <= b in exact arithmetic; natively with slack
pub fn leq(a: f32, b: f32, label: &'static str) { leq_s(a, b, 1., label) }
pub fn leq_s(a: f32, b: f32, scale: f32, label: &'static str) {
    let (x, y, s) = (a as f64, b as f64, scale.abs() as f64);
    let ok = a <= b || x - y <= 2e-3 * (s + x.abs().max(y.abs()));
    let ok = ok && !a.is_nan() && !b.is_nan();
    ST.with(|st| { let mut st = st.borrow_mut(); st.checks += 1; if !ok { st.fails.push(format!("{} ({:e} <= {:e})", label, a, b)); } })
}
/// [P] values recorded for cross-checking the symbolic semantics against the real code
pub fn observe(name: &'static str, v: f32) { ST.with(|s| s.borrow_mut().obs.push((name.to_string(), v as f64))) }

fn hash_args(name: &str, args: &[f32]) -> u64 {
    let mut h = 1469598103934665603u64 ^ ST.with(|s| s.borrow().uf_seed);
    for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
    for a in args { let a = if *a == 0. { 0. } else { *a }; h = (h ^ a.to_bits() as u64).wrapping_mul(1099511628211); h = mix(h); }
    mix(h)
}
/// [P] an arbitrary function of its arguments
pub fn uf(name: &'static str, args: &[f32]) -> f32 {
    let h = hash_args(name, args);
    match h % 8 { 0 => 0., 1 => 1., _ => (((h >> 20) % 4001) as f32 - 2000.) / 1000. }
}
/// [P] an arbitrary non-negative function of its arguments
pub fn uf_nonneg(name: &'static str, args: &[f32]) -> f32 { uf(name, args).abs() }
/// [P] an arbitrary predicate of its arguments
pub fn uf_bool(name: &'static str, args: &[f32]) -> bool { hash_args(name, args) & 16 != 0 }
/// [P] an arbitrary integer function of its arguments, in [lo, hi]
pub fn uf_int(name: &'static str, args: &[f32], lo: u32, hi: u32) -> u32 { lo + (hash_args(name, args) % (hi as u64 - lo as u64 + 1)) as u32 }

/// [P] where the element that was the j-th before the last sort of a vector of arbitrary length is after it
pub fn sorted_place(_j: usize) -> usize { 0 }
/// [P] the i-th and j-th elements after that sort are in the order of the comparator, if i < j
pub fn sorted_pair(_i: usize, _j: usize) {}
/// [P] the value once more (contracts only)
pub fn again<T>(_: &T) -> T { panic!() }
/// [P] n more elements of any value
pub fn grow<T>(_: &mut Vec<T>, _n: usize) {}
/// [P] the iterator after n steps
pub fn iter_from<'a, T>(it: &::std::slice::Iter<'a, T>, n: usize) -> ::std::slice::Iter<'a, T> { let mut i = it.clone(); for _ in 0..n { i.next(); } i }
/// [P] the same for other iterators
pub fn iter_mut_from<'a, T>(_: &::std::slice::IterMut<'a, T>, _: usize) -> ::std::slice::IterMut<'a, T> { panic!() }
pub fn into_iter_from<T>(_: &::std::vec::IntoIter<T>, _: usize) -> ::std::vec::IntoIter<T> { panic!() }

// ghost trace of calls, for contracts of the form "is called exactly with ..."
thread_local!(static TRACE: RefCell<HashMap<&'static str, Vec<Vec<f32>>>> = RefCell::new(HashMap::new()));
/// [P]
pub fn emit(name: &'static str, args: &[f32]) { TRACE.with(|t| t.borrow_mut().entry(name).or_insert(Vec::new()).push(args.to_vec())) }
/// [P] number of events so far
pub fn emitted(name: &'static str) -> usize { TRACE.with(|t| t.borrow().get(name).map(|v| v.len()).unwrap_or(0)) }
/// [P] argument k of event i
pub fn event(name: &'static str, i: usize, k: usize) -> f32 { TRACE.with(|t| t.borrow()[name][i][k]) }
pub fn reset_trace() { TRACE.with(|t| t.borrow_mut().clear()); TEXT.with(|t| t.borrow_mut().clear()) }

// ghost text: what was written, as lines of words
thread_local!(static TEXT: RefCell<Vec<u8>> = RefCell::new(Vec::new()));
/// [P] appends written bytes
pub fn text_out(b: &[u8]) { TEXT.with(|t| t.borrow_mut().extend_from_slice(b)) }
/// [P] number of complete lines; -1 if the text does not end with a line end
pub fn text_lines() -> i32 { TEXT.with(|t| { let t = t.borrow(); if t.len() > 0 && t[t.len() - 1] != b'\n' { -1 } else { t.iter().filter(|c| **c == b'\n').count() as i32 } }) }
fn text_word(l: usize, k: usize) -> String { TEXT.with(|t| String::from_utf8_lossy(&t.borrow()).split('\n').nth(l).unwrap_or("").split(' ').nth(k).unwrap_or("").to_string()) }
/// [P] number of words of a line
pub fn text_words(l: usize) -> usize { TEXT.with(|t| String::from_utf8_lossy(&t.borrow()).split('\n').nth(l).unwrap_or("").split(' ').count()) }
/// [P] whether a word is the given one
pub fn text_is(l: usize, k: usize, w: &'static str) -> bool { text_word(l, k) == w }
/// [P] the integer a word is
pub fn text_int(l: usize, k: usize) -> i32 { text_word(l, k).parse::<i32>().unwrap_or(-1) }

// models of iterator adapters (used in place of the core library's loop-heavy default methods)
pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B { let mut it = it; let mut f = f; let mut a = init; while let Some(x) = it.next() { a = f(a, x); } a }
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) { let mut it = it; let mut f = f; while let Some(x) = it.next() { f(x); } }
pub fn m_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> { let mut p = p; while let Some(x) = it.next() { if p(&x) { return Some(x); } } None }
pub fn m_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> { let mut p = p; let mut n = 0; while let Some(x) = it.next() { if p(x) { return Some(n); } n += 1; } None }
pub fn m_count<I: Iterator>(it: I) -> usize { let mut it = it; let mut n = 0; while let Some(_) = it.next() { n += 1; } n }

pub fn run_one(f: fn(), seed: u64, mode: u32, replay: Option<Vec<f64>>) -> (u32, Vec<String>, Vec<(String, f64)>, Vec<(String, f64)>) {
    // result code: 0 ok, 1 failed checks, 2 panicked, 3 assumption not met
    reset_trace();
    ST.with(|s| { let mut s = s.borrow_mut(); s.replaying = replay.is_some(); s.replay = replay.unwrap_or(Vec::new()); s.pos = 0; s.rng = mix(seed); s.mode = mode; s.log.clear(); s.fails.clear(); s.obs.clear(); s.uf_seed = mix(seed ^ 77); });
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f()));
    let (fails, log, obs) = ST.with(|s| { let s = s.borrow(); (s.fails.clone(), s.log.clone(), s.obs.clone()) });
    match r {
        Ok(()) => (if fails.is_empty() { 0 } else { 1 }, fails, log, obs),
        Err(e) => if e.is::<AssumeFailed>() { if fails.is_empty() { (3, fails, log, obs) } else { (1, fails, log, obs) } } else {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".to_string() };
            let mut v = fails; v.push(format!("panic: {}", m)); (2, v, log, obs) }
    }
}

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o }
fn num(v: f64) -> String { if v.is_nan() { "\"nan\"".into() } else if v.is_infinite() { if v > 0. { "\"inf\"".into() } else { "\"-inf\"".into() } } else { format!("{:e}", v) } }

/// ptvrun search NAME SEED COUNT BUDGET_MS | ptvrun near NAME SEED COUNT BUDGET_MS v1 v2 ... | ptvrun replay NAME v1 v2 ... | ptvrun list
pub fn main(table: &[(&'static str, fn())]) {
    panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = ::std::env::args().collect();
    if a[1] == "list" { for &(n, _) in table { println!("{}", n); } return; }
    let f = match table.iter().find(|e| e.0 == a[2]) { Some(e) => e.1, None => { println!("{{\"missing\":true}}"); return; } };
    if a[1] == "replay" {
        let seed: u64 = a[3].parse().unwrap();
        let v: Vec<f64> = a[4..].iter().map(|s| s.parse().unwrap_or(::std::f64::NAN)).collect();
        let (c, fails, log, obs) = run_one(f, seed, 0, Some(v));
        println!("{{\"code\":{},\"fails\":[{}],\"log\":[{}],\"obs\":[{}]}}", c, fails.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
            log.iter().map(|s| format!("[\"{}\",{}]", s.0, num(s.1))).collect::<Vec<_>>().join(","), obs.iter().map(|s| format!("[\"{}\",{}]", s.0, num(s.1))).collect::<Vec<_>>().join(","));
        return;
    }
    // near: the inputs given after the budget, a part of them drawn anew
    let given: Option<Vec<f64>> = if a[1] == "near" { Some(a[6..].iter().map(|s| s.parse().unwrap_or(::std::f64::NAN)).collect()) } else { None };
    let seed: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let ms: u64 = a[5].parse().unwrap();
    let t0 = ::std::time::Instant::now();
    let (mut ran, mut passed, mut skipped) = (0u64, 0u64, 0u64);
    let mut found = String::new();
    for k in 0..count {
        if k % 16 == 0 && (t0.elapsed().as_secs() * 1000 + t0.elapsed().subsec_nanos() as u64 / 1000000) > ms { break; }
        ran += 1;
        let sd = mix(seed.wrapping_add(k * 7919));
        if given.is_some() { ST.with(|s| s.borrow_mut().blur = 1 + (k / 4) % 15); }
        let (c, fails, log, _) = run_one(f, sd, (k % 4) as u32, given.clone());
        if c == 3 { skipped += 1; } else if c == 0 { passed += 1; } else {
            found = format!(",\"seed\":{},\"code\":{},\"fails\":[{}],\"log\":[{}]", sd, c, fails.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                log.iter().map(|s| format!("[\"{}\",{}]", s.0, num(s.1))).collect::<Vec<_>>().join(","));
            break;
        }
    }
    println!("{{\"ran\":{},\"passed\":{},\"skipped\":{}{}}}", ran, passed, skipped, found);
}

// what the spec files use of the standard library
pub mod pre {
    pub use std::sync::{Arc, Mutex};
    pub use std::io::Write;
    pub use std::cmp;
}
