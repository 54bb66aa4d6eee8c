//! Interface between the property harnesses and their executor.
//!
//! Symbolic mode: `vp_*` are external functions interpreted by irsym.
//! Native mode (feature `native`): the same functions read a counterexample from the command line.
#![allow(dead_code)]
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(feature = "native"))]
mod ext {
    extern "C" {
        pub fn vp_sym(width: u32, name: *const u8, len: usize) -> u64;
        pub fn vp_below(n: u64, name: *const u8, len: usize) -> u64;
        pub fn vp_choose(n: u64, name: *const u8, len: usize) -> u64;
        pub fn vp_param(default: u64, name: *const u8, len: usize) -> u64;
        pub fn vp_assume(c: bool);
        pub fn vp_assert(c: bool, name: *const u8, len: usize);
        pub fn vp_cover(name: *const u8, len: usize);
        pub fn vp_note(name: *const u8, len: usize);
        pub fn vp_trace(v: u64, name: *const u8, len: usize);
        pub fn vp_print(name: *const u8, len: usize);
        pub fn vp_concretize(v: u64) -> u64;
        pub fn vp_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
        pub fn vp_join(t: u64);
    }
}
#[cfg(feature = "native")]
use crate::native as ext;

pub fn sym(width: u32, name: &str) -> u64 {
    unsafe { ext::vp_sym(width, name.as_ptr(), name.len()) }
}
/// any number less than n
pub fn below(n: u64, name: &str) -> u64 {
    unsafe { ext::vp_below(n, name.as_ptr(), name.len()) }
}
pub fn u64_(name: &str) -> u64 {
    sym(64, name)
}
pub fn i64_(name: &str) -> i64 {
    sym(64, name) as i64
}
pub fn f64_(name: &str) -> f64 {
    f64::from_bits(sym(64, name))
}
pub fn u32_(name: &str) -> u32 {
    sym(32, name) as u32
}
pub fn u8_(name: &str) -> u8 {
    sym(8, name) as u8
}
pub fn bool_(name: &str) -> bool {
    sym(1, name) != 0
}
/// one path per value 0..n
pub fn choose(n: usize, name: &str) -> usize {
    unsafe { ext::vp_choose(n as u64, name.as_ptr(), name.len()) as usize }
}
/// a bound of the harness: fixed for a run, set by the driver per tier
pub fn param(name: &str, default: usize) -> usize {
    unsafe { ext::vp_param(default as u64, name.as_ptr(), name.len()) as usize }
}
pub fn flag(name: &str) -> bool {
    choose(2, name) == 1
}
pub fn assume(c: bool) {
    unsafe { ext::vp_assume(c) }
}
pub fn check(c: bool, name: &str) {
    unsafe { ext::vp_assert(c, name.as_ptr(), name.len()) }
}
/// marks a situation the harness must be able to reach (a check that never reaches it is vacuous)
pub fn cover(name: &str) {
    unsafe { ext::vp_cover(name.as_ptr(), name.len()) }
}
pub fn note(s: &str) {
    unsafe { ext::vp_note(s.as_ptr(), s.len()) }
}
pub fn trace(v: u64, name: &str) {
    unsafe { ext::vp_trace(v, name.as_ptr(), name.len()) }
}
pub fn print(s: &str) {
    unsafe { ext::vp_print(s.as_ptr(), s.len()) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { ext::vp_concretize(v) }
}
pub fn spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
    unsafe { ext::vp_spawn(f, arg) }
}
pub fn join(t: u64) {
    unsafe { ext::vp_join(t) }
}

struct Job<'a> {
    f: Option<Box<dyn FnOnce() + Send + 'a>>,
}
extern "C" fn run_job(p: *mut u8) {
    let j = unsafe { &mut *(p as *mut Job) };
    (j.f.take().unwrap())();
}
/// Runs the closures concurrently and waits for all of them.
pub fn parallel<'a>(fs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    let mut jobs: Vec<Box<Job<'a>>> = fs.into_iter().map(|f| Box::new(Job { f: Some(f) })).collect();
    let ids: Vec<u64> = jobs.iter_mut().map(|j| spawn(run_job, &mut **j as *mut Job as *mut u8)).collect();
    for i in ids {
        join(i);
    }
}

/// Runs `f`; a panic is a violation of `name`.
pub fn no_panic<T>(name: &str, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            check(false, name);
            None
        }
    }
}
/// Runs `f`, returning None when it panics.
pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
pub fn start() {
    std::panic::set_hook(Box::new(|info| {
        let mut s = String::from("panic at ");
        match info.location() {
            Some(l) => {
                s.push_str(l.file());
                s.push(':');
                let mut n = l.line();
                let mut d = [0u8; 10];
                let mut i = 0;
                while n > 0 {
                    d[i] = b'0' + (n % 10) as u8;
                    n /= 10;
                    i += 1;
                }
                while i > 0 {
                    i -= 1;
                    s.push(d[i] as char);
                }
            }
            None => s.push_str("unknown location"),
        }
        note(&s);
    }));
}

// ---------------------------------------------------------------- numbers in rendered text
// When a number is symbolic the executor diverts its formatting to these functions, which write an
// injective token instead of decimal digits: "~", a tag, and 16 letters a..p for the 16 nibbles.
fn token(tag: u8, bits: u64, f: &mut fmt::Formatter) -> fmt::Result {
    let mut b = [0u8; 18];
    b[0] = b'~';
    b[1] = tag;
    let mut i = 0;
    while i < 16 {
        b[2 + i] = b'a' + ((bits >> (60 - 4 * i)) & 15) as u8;
        i += 1;
    }
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
}
fn plain(f: &fmt::Formatter) -> bool {
    f.precision().is_none() && f.width().is_none() && !f.sign_plus() && !f.alternate()
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_f64_display(v: &f64, f: &mut fmt::Formatter) -> fmt::Result {
    if v.is_nan() {
        return f.write_str("NaN");
    }
    if *v == f64::INFINITY {
        return f.write_str("inf");
    }
    if *v == f64::NEG_INFINITY {
        return f.write_str("-inf");
    }
    let t = if plain(f) { b'F' } else { b'X' };
    token(t, v.to_bits(), f)
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_f64_debug(v: &f64, f: &mut fmt::Formatter) -> fmt::Result {
    vp_stub_f64_display(v, f)
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_f64_exp(v: &f64, f: &mut fmt::Formatter) -> fmt::Result {
    vp_stub_f64_display(v, f)
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_u64_display(v: &u64, f: &mut fmt::Formatter) -> fmt::Result {
    let t = if plain(f) { b'U' } else { b'X' };
    token(t, *v, f)
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_i64_display(v: &i64, f: &mut fmt::Formatter) -> fmt::Result {
    let t = if plain(f) { b'I' } else { b'X' };
    token(t, *v as u64, f)
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_u32_display(v: &u32, f: &mut fmt::Formatter) -> fmt::Result {
    vp_stub_u64_display(&(*v as u64), f)
}
#[no_mangle]
#[inline(never)]
pub fn vp_stub_i32_display(v: &i32, f: &mut fmt::Formatter) -> fmt::Result {
    vp_stub_i64_display(&(*v as i64), f)
}
type Stub<T> = fn(&T, &mut fmt::Formatter) -> fmt::Result;
#[used]
pub static STUBS: (Stub<f64>, Stub<f64>, Stub<f64>, Stub<u64>, Stub<i64>, Stub<u32>, Stub<i32>) = (
    vp_stub_f64_display,
    vp_stub_f64_debug,
    vp_stub_f64_exp,
    vp_stub_u64_display,
    vp_stub_i64_display,
    vp_stub_u32_display,
    vp_stub_i32_display,
);

#[derive(Clone, Copy, Debug)]
pub enum Num {
    F(u64),
    U(u64),
    I(i64),
    Bad,
}
pub fn untoken(s: &[u8]) -> Option<(u8, u64)> {
    if s.len() != 18 || s[0] != b'~' {
        return None;
    }
    let mut v = 0u64;
    let mut i = 0;
    while i < 16 {
        let n = s[2 + i].wrapping_sub(b'a');
        if !(n < 16) {
            return None;
        }
        v = v << 4 | n as u64;
        i += 1;
    }
    Some((s[1], v))
}
/// Reads a number as a Prometheus parser would (NaN, +Inf, -Inf, decimal).
pub fn number(s: &str) -> Num {
    if let Some((t, v)) = untoken(s.as_bytes()) {
        return match t {
            b'F' => Num::F(v),
            b'U' => Num::U(v),
            b'I' => Num::I(v as i64),
            _ => Num::Bad,
        };
    }
    match s {
        "NaN" => return Num::F(f64::NAN.to_bits()),
        "+Inf" => return Num::F(f64::INFINITY.to_bits()),
        "-Inf" => return Num::F(f64::NEG_INFINITY.to_bits()),
        _ => {}
    }
    let b = s.as_bytes();
    if b.is_empty() || !b.iter().all(|c| matches!(c, b'0'..=b'9' | b'.' | b'-' | b'+' | b'e' | b'E')) {
        return Num::Bad;
    }
    if b.iter().all(|c| c.is_ascii_digit()) {
        if let Ok(v) = s.parse::<u64>() {
            return Num::U(v);
        }
    }
    if let Ok(v) = s.parse::<i64>() {
        return Num::I(v);
    }
    match s.parse::<f64>() {
        Ok(v) => Num::F(v.to_bits()),
        Err(_) => Num::Bad,
    }
}
/// The text denotes the double with exactly these bits (any NaN for NaN; the sign of zero is ignored,
/// as it is numerically).
pub fn is_f64(s: &str, v: f64) -> bool {
    match number(s) {
        Num::F(b) => {
            let x = f64::from_bits(b);
            (b == v.to_bits()) | (x == v) | ((x != x) & (v != v))
        }
        Num::U(u) => u as f64 == v,
        Num::I(i) => i as f64 == v,
        Num::Bad => false,
    }
}
pub fn is_u64(s: &str, v: u64) -> bool {
    match number(s) {
        Num::U(u) => u == v,
        Num::F(b) => f64::from_bits(b) == v as f64 && f64::from_bits(b) < 9007199254740992.0,
        Num::I(i) => i >= 0 && i as u64 == v,
        Num::Bad => false,
    }
}
pub fn is_i64(s: &str, v: i64) -> bool {
    match number(s) {
        Num::I(i) => i == v,
        Num::U(u) => v >= 0 && u == v as u64,
        _ => false,
    }
}

// ---------------------------------------------------------------- virtual clock
#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}
pub struct Clock {
    pub real: (i64, i64),
    pub mono: (i64, i64),
    pub reads: u32,
}
pub static mut CLOCK: Clock = Clock { real: (1_000_000, 0), mono: (1_000, 0), reads: 0 };
pub fn set_real(sec: i64, nsec: i64) {
    unsafe { (*std::ptr::addr_of_mut!(CLOCK)).real = (sec, nsec) }
}
pub fn set_mono(sec: i64, nsec: i64) {
    unsafe { (*std::ptr::addr_of_mut!(CLOCK)).mono = (sec, nsec) }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    unsafe {
        let c = &mut *std::ptr::addr_of_mut!(CLOCK);
        c.reads += 1;
        // CLOCK_REALTIME (0, 5) and CLOCK_MONOTONIC (everything else)
        let v = if id == 0 || id == 5 { c.real } else { c.mono };
        (*ts).sec = v.0;
        (*ts).nsec = v.1;
    }
    0
}

// ---------------------------------------------------------------- comparing floats
/// the same value, bit for bit, with all NaNs alike
pub fn same_f64(a: f64, b: f64) -> bool {
    (a.to_bits() == b.to_bits()) | ((a != a) & (b != b))
}
pub fn trace_f64(v: f64, name: &str) {
    trace(if v != v { 1 } else { v.to_bits() }, name)
}
/// a non-negative multiple of 2^-scale with `bits` significant bits
pub fn grid(name: &str, bits: u32, scale: u32) -> f64 {
    sym(bits, name) as f64 / (1u64 << scale) as f64
}
/// the same with either sign (two's complement)
pub fn sgrid(name: &str, bits: u32, scale: u32) -> f64 {
    let v = sym(bits, name) as i64;
    let v = (v << (64 - bits)) >> (64 - bits);
    v as f64 / (1u64 << scale) as f64
}
/// one of 16 telling values (decided by the solver, not one path each), in increasing order
pub const TELLING: [f64; 16] = [
    f64::NEG_INFINITY, -1e300, -2.0, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1e-17, 2e-17, 1.0, 1.0000000000000002, 2.0, 9007199254740993.0, 1e300, f64::INFINITY,
];
pub fn telling(name: &str) -> f64 {
    let i = sym(4, name) as usize;
    let mut v = TELLING[0].to_bits();
    for (k, t) in TELLING.iter().enumerate() {
        let m = ((i == k) as u64).wrapping_neg();
        v = (v & !m) | (t.to_bits() & m);
    }
    f64::from_bits(v)
}
/// any f64 but a NaN, or (with the parameter "telling") one of 16 values
pub fn number_in(name: &str) -> f64 {
    if param("telling", 0) == 1 {
        telling(name)
    } else {
        let x = f64_(name);
        assume(!(x != x));
        x
    }
}

// ---------------------------------------------------------------- memory
/// The allocator of the program, which counts bytes once asked to (by a harness of a single thread).
struct Counting;
static mut COUNTED: Option<i64> = None;
fn count(n: i64) {
    unsafe {
        let c = std::ptr::addr_of_mut!(COUNTED);
        if let Some(ref mut c) = *c {
            *c = c.wrapping_add(n);
        }
    }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
pub fn track_memory() {
    unsafe { COUNTED = Some(0) }
}
/// bytes allocated and not yet released since `track_memory`
pub fn memory() -> i64 {
    unsafe { (*std::ptr::addr_of!(COUNTED)).unwrap_or(0) }
}
