//! Native implementation of the vp_* interface: inputs come from the command line.
use std::sync::Mutex;
pub static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
pub static NOTE: Mutex<String> = Mutex::new(String::new());
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
}
fn next() -> u64 {
    let mut g = INPUTS.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    g.0.get(i).copied().unwrap_or(0)
}
pub fn finish(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
pub unsafe fn vp_sym(width: u32, name: *const u8, len: usize) -> u64 {
    let v = next();
    let v = if width == 64 { v } else { v & ((1 << width) - 1) };
    println!("input {} = {} ({:#x})", s(name, len), v, v);
    v
}
pub unsafe fn vp_below(n: u64, name: *const u8, len: usize) -> u64 {
    let v = next();
    println!("input {} = {} ({:#x})", s(name, len), v, v);
    if v >= n {
        println!("RESULT assumption-failed");
        finish(3);
    }
    v
}
pub unsafe fn vp_choose(n: u64, name: *const u8, len: usize) -> u64 {
    let v = next();
    println!("choice {} = {}", s(name, len), v);
    if v >= n {
        println!("RESULT assumption-failed");
        finish(3);
    }
    v
}
pub unsafe fn vp_param(default: u64, name: *const u8, len: usize) -> u64 {
    let n = s(name, len);
    std::env::args()
        .skip(3)
        .filter_map(|a| a.split_once('=').and_then(|(k, v)| if k == n { v.parse().ok() } else { None }))
        .next()
        .unwrap_or(default)
}
pub unsafe fn vp_assume(c: bool) {
    if !c {
        println!("RESULT assumption-failed");
        finish(3);
    }
}
pub unsafe fn vp_assert(c: bool, name: *const u8, len: usize) {
    if !c {
        println!("RESULT violated: {} {}", s(name, len), NOTE.lock().unwrap());
        finish(1);
    }
}
pub unsafe fn vp_cover(_: *const u8, _: usize) {}
pub unsafe fn vp_note(p: *const u8, n: usize) {
    *NOTE.lock().unwrap() = s(p, n).to_string();
    println!("note {}", s(p, n));
}
pub unsafe fn vp_trace(v: u64, p: *const u8, n: usize) {
    println!("trace {} {}", s(p, n), v);
}
pub unsafe fn vp_print(p: *const u8, n: usize) {
    println!("print {}", s(p, n));
}
pub unsafe fn vp_concretize(v: u64) -> u64 {
    v
}
static THREADS: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());
pub unsafe fn vp_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
    let a = arg as usize;
    let mut g = THREADS.lock().unwrap();
    g.push(Some(std::thread::spawn(move || f(a as *mut u8))));
    g.len() as u64 - 1
}
pub unsafe fn vp_join(t: u64) {
    let h = THREADS.lock().unwrap()[t as usize].take();
    if let Some(h) = h {
        h.join().unwrap();
    }
}
