//! C25: process metrics. The kernel's files and constants are played by the functions below, which
//! take the place of the C library's in both builds.
use crate::rt::*;
use prometrics::metric::*;
use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;

#[derive(Clone, Copy, PartialEq)]
pub enum State {
    Good,
    Missing,
    Unreadable,
    Garbage,
    Empty,
    Torn,
}
struct Kernel {
    armed: bool,
    files: Vec<(&'static str, State, Vec<u8>)>,
    /// (file, position) by descriptor
    open: Vec<Option<(usize, usize)>>,
    opened: usize,
    piece: usize,
    interrupt: bool,
    ticks: i64,
    page: i64,
}
static mut KERNEL: Kernel = Kernel { armed: false, files: Vec::new(), open: Vec::new(), opened: 0, piece: 100_000, interrupt: false, ticks: 100, page: 4096 };
fn kernel() -> &'static mut Kernel {
    unsafe { &mut *std::ptr::addr_of_mut!(KERNEL) }
}
const FIRST: i32 = 1_000_000;
extern "C" {
    fn __errno_location() -> *mut i32;
    #[cfg(feature = "native")]
    fn syscall(n: i64, ...) -> i64;
}
fn fail(e: i32) -> i64 {
    unsafe { *__errno_location() = e };
    -1
}
unsafe fn c_str<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
const PID: &[u8] = b"4321";
unsafe fn open_file(path: *const u8) -> i32 {
    let k = kernel();
    let p = c_str(path);
    let rest = if p.starts_with(b"/proc/self/") {
        &p[11..]
    } else if p.starts_with(b"/proc/thread-self/") {
        &p[18..]
    } else if p.starts_with(b"/proc/") && p[6..].starts_with(PID) && p.get(10) == Some(&b'/') {
        &p[11..]
    } else {
        return fail(2) as i32;
    };
    for i in 0..k.files.len() {
        if k.files[i].0.as_bytes() == rest {
            if k.files[i].1 == State::Missing {
                return fail(13) as i32;
            }
            k.open.push(Some((i, 0)));
            k.opened += 1;
            return FIRST + k.open.len() as i32 - 1;
        }
    }
    fail(2) as i32
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if kernel().armed {
        return open_file(path);
    }
    #[cfg(feature = "native")]
    return syscall(2, path, flags, mode) as i32;
    #[cfg(not(feature = "native"))]
    {
        let _ = (flags, mode);
        fail(2) as i32
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let k = kernel();
    if fd >= FIRST {
        let (f, at) = match k.open.get((fd - FIRST) as usize) {
            Some(&Some(x)) => x,
            _ => return fail(9) as isize,
        };
        if k.interrupt {
            k.interrupt = false;
            return fail(4) as isize;
        }
        if k.files[f].1 == State::Unreadable && at > 0 {
            return fail(5) as isize;
        }
        let data = &k.files[f].2;
        let left = data.len() - at;
        let m = if left < n { left } else { n };
        let m = if m < k.piece { m } else { k.piece };
        for i in 0..m {
            *buf.add(i) = data[at + i];
        }
        k.open[(fd - FIRST) as usize] = Some((f, at + m));
        return m as isize;
    }
    #[cfg(feature = "native")]
    return syscall(0, fd, buf, n) as isize;
    #[cfg(not(feature = "native"))]
    return fail(9) as isize;
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let k = kernel();
    if fd >= FIRST {
        match k.open.get_mut((fd - FIRST) as usize) {
            Some(x) if x.is_some() => {
                *x = None;
                k.opened -= 1;
                return 0;
            }
            _ => return fail(9) as i32,
        }
    }
    #[cfg(feature = "native")]
    return syscall(3, fd) as i32;
    #[cfg(not(feature = "native"))]
    return fail(9) as i32;
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fd >= FIRST {
        return if let Some(&Some(_)) = kernel().open.get((fd - FIRST) as usize) { 0 } else { fail(9) as i32 };
    }
    #[cfg(feature = "native")]
    return syscall(72, fd, cmd, arg) as i32;
    #[cfg(not(feature = "native"))]
    {
        let _ = (cmd, arg);
        0
    }
}
/// (sizes and positions are only asked for as hints)
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn lseek64(fd: i32, to: i64, how: i32) -> i64 {
    #[cfg(feature = "native")]
    if fd < FIRST {
        return syscall(8, fd, to, how);
    }
    let _ = (fd, to, how);
    fail(29)
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
    match name {
        2 => kernel().ticks,
        30 => kernel().page,
        84 => 8,
        _ => -1,
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn getpid() -> i32 {
    4321
}

/// a number of n digits, any but those the solver rules out, written to the text
fn digits(out: &mut Vec<u8>, n: usize, name: &str) -> u64 {
    let mut v = 0u64;
    for _ in 0..n {
        let d = below(10, name) as u8;
        out.push(b'0' | d);
        v = v.wrapping_mul(10).wrapping_add(d as u64);
    }
    v
}
struct Figures {
    ticks: u64,
    threads: u64,
    vsize: u64,
    rss: u64,
    fds: u64,
    max_fds: Option<u64>,
}
fn put(v: &mut Vec<u8>, s: &str) {
    v.extend_from_slice(s.as_bytes());
}
/// like digits, after fixed ones
fn after(out: &mut Vec<u8>, before: &str, n: usize, name: &str) -> u64 {
    let mut v = 0u64;
    for d in before.bytes() {
        out.push(d);
        v = v * 10 + (d - b'0') as u64;
    }
    for _ in 0..n {
        let d = below(10, name) as u8;
        out.push(b'0' | d);
        v = v * 10 + d as u64;
    }
    v
}
const TAIL: &str = " 18446744073709551615 94370132635648 94370132653233 140726255680976 0 0 0 0 0 0 0 0 0 17 6 0 0 0 0 0 94370132667024 94370132668520 94370305474560 140726255687538 140726255687594 140726255687594 140726255689707 0\n";
fn stat(v: &mut Vec<u8>, f: &mut Figures, n: usize) {
    put(v, ["4321 (cat) S", "4321 ((a) b c) R"][n & 1]);
    put(v, " 32725 32725 245 0 -1 4194304 84 13 2 1 ");
    let u = digits(v, param("digits", 6), "utime");
    put(v, " ");
    let s = digits(v, param("digits", 6), "stime");
    f.ticks = u + s;
    put(v, " 7000000 9000000 20 0 ");
    f.threads = digits(v, 3, "threads");
    put(v, " 0 1048082 ");
    f.vsize = digits(v, param("digits", 6) * 2, "vsize");
    put(v, " ");
    f.rss = digits(v, param("digits", 6), "rss");
    put(v, TAIL);
}
fn status(v: &mut Vec<u8>, f: &mut Figures) {
    put(v, "Name:\tcat\nUmask:\t0022\nState:\tR (running)\nTgid:\t4321\nNgid:\t0\nPid:\t4321\nPPid:\t32725\nTracerPid:\t0\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nFDSize:\t");
    f.fds = digits(v, 5, "descriptors");
    put(v, "\nVmPeak:\t    2852 kB\nVmSize:\t    2852 kB\nVmRSS:\t    1636 kB\nThreads:\t77\n");
}
fn limits(v: &mut Vec<u8>, f: &mut Figures, limited: bool) {
    put(v, "Limit                     Soft Limit           Hard Limit           Units     \nMax cpu time              unlimited            unlimited            seconds   \nMax file size             unlimited            unlimited            bytes     \nMax data size             unlimited            unlimited            bytes     \nMax stack size            8388608              unlimited            bytes     \nMax core file size        0                    unlimited            bytes     \nMax resident set          unlimited            unlimited            bytes     \nMax processes             128780               128781               processes \nMax open files            ");
    if limited {
        f.max_fds = Some(digits(v, 7, "limit"));
    } else {
        put(v, "unlimited");
        f.max_fds = None;
    }
    put(v, "             987654321                files     \nMax locked memory         8388608              8388608              bytes     \nMax address space         unlimited            unlimited            bytes     \nMax file locks            unlimited            unlimited            locks     \nMax pending signals       128780               128780               signals   \nMax msgqueue size         819200               819200               bytes     \nMax nice priority         0                    0                    \nMax realtime priority     0                    0                    \nMax realtime timeout      unlimited            unlimited            us        \n");
}
fn spoil(v: &mut Vec<u8>, s: State) {
    match s {
        State::Garbage => {
            let n = v.len();
            *v = b"?".iter().copied().cycle().take(n).collect();
        }
        State::Empty => v.clear(),
        State::Torn => {
            let n = v.len() / 2 - 3;
            v.truncate(n);
        }
        _ => {}
    }
}
fn figure(f: &MetricFamilies, name: &str, kind: MetricKind) -> Option<f64> {
    let mut got = None;
    for f in f.as_ref() {
        if f.name().to_string() == name {
            check(f.kind() == kind, "a figure has its kind");
            check(got.is_none(), "a figure is reported once");
            match *f.metrics() {
                Metrics::Counter(ref v) if v.len() == 1 => {
                    check(v[0].labels().is_empty(), "a figure has no labels");
                    got = Some(v[0].value());
                }
                Metrics::Gauge(ref v) if v.len() == 1 => {
                    check(v[0].labels().is_empty(), "a figure has no labels");
                    got = Some(v[0].value());
                }
                _ => check(false, "a figure is reported once"),
            }
        }
    }
    got
}
fn expect(f: &MetricFamilies, name: &str, kind: MetricKind, v: Option<f64>) {
    match (figure(f, name, kind), v) {
        (None, None) => {}
        (Some(x), Some(y)) => check(x == y, "a figure is the kernel's, in base units"),
        (Some(_), None) => check(false, "a figure that cannot be read is not reported"),
        (None, Some(_)) => check(false, "a figure that can be read is reported"),
    }
}
fn verify(f: &MetricFamilies, x: &Figures, states: &[State; 3], start: u64) {
    let ok = |i: usize| states[i] == State::Good;
    let stat = |v: u64| if ok(0) { Some(v as f64) } else { None };
    expect(f, "process_threads_total", MetricKind::Gauge, stat(x.threads));
    expect(f, "process_virtual_memory_bytes", MetricKind::Gauge, stat(x.vsize));
    expect(f, "process_resident_memory_bytes", MetricKind::Gauge, stat(x.rss * kernel().page as u64));
    expect(f, "process_max_fds", MetricKind::Gauge, if ok(2) { x.max_fds.map(|v| v as f64) } else { None });
    // a status file that ends early may still have told the figure
    if states[1] == State::Torn || states[1] == State::Empty {
        let _ = figure(f, "process_open_fds", MetricKind::Gauge);
    } else {
        expect(f, "process_open_fds", MetricKind::Gauge, if ok(1) { Some(x.fds as f64) } else { None });
    }
    match figure(f, "process_cpu_seconds_total", MetricKind::Counter) {
        None => check(!ok(0), "a figure that can be read is reported"),
        Some(v) => {
            check(ok(0), "a figure that cannot be read is not reported");
            let t = kernel().ticks as f64;
            let (e, total) = (x.ticks as f64 / t, x.ticks as f64);
            check((v == e) | ((v * t >= total * 0.999999999999999) & (v * t <= total * 1.000000000000001)), "CPU seconds are user plus system ticks over ticks per second");
        }
    }
    match figure(f, "process_start_time_seconds", MetricKind::Gauge) {
        None => check(false, "the start time is reported whatever cannot be read"),
        Some(v) => check((v >= start as f64) & (v < start as f64 + 1.0), "the start time is the collector's creation time"),
    }
    for g in f.as_ref() {
        check(g.name().to_string().as_bytes().starts_with(b"process_"), "the names begin with process_");
    }
    check(kernel().opened == 0, "no file stays open");
}
const STATES: [State; 6] = [State::Good, State::Missing, State::Unreadable, State::Garbage, State::Empty, State::Torn];
// C25
entry!(h_c25_process {
    let k = kernel();
    let mut g = Gatherer::new();
    let start = u64_("creation time");
    assume(start < 1 << 40);
    set_real(start as i64, 123_456_789);
    g.registry().register(ProcessMetricsCollector::new());
    set_real(1 << 41, 0);
    k.ticks = [100, 250, 1024][choose(3, "ticks per second")];
    k.page = [4096, 65536][choose(2, "page size")];
    let n = param("states", 4);
    let states = [STATES[choose(n, "stat")], STATES[choose(n, "status")], STATES[choose(n, "limits")]];
    let mut x = Figures { ticks: 0, threads: 0, vsize: 0, rss: 0, fds: 0, max_fds: None };
    let (mut a, mut b, mut c) = (Vec::new(), Vec::new(), Vec::new());
    stat(&mut a, &mut x, 0);
    status(&mut b, &mut x);
    limits(&mut c, &mut x, flag("limited"));
    spoil(&mut a, states[0]);
    spoil(&mut b, states[1]);
    spoil(&mut c, states[2]);
    k.files = vec![("stat", states[0], a), ("status", states[1], b), ("limits", states[2], c)];
    k.piece = [100_000, 100][choose(2, "pieces")];
    k.interrupt = k.piece == 100;
    k.armed = true;
    let f = no_panic("collecting does not panic", || g.gather());
    k.armed = false;
    if let Some(f) = f {
        verify(&f, &x, &states, start);
        drop(f);
    }
    // a later gathering finds other figures, all of them readable
    let (mut a, mut b, mut c) = (Vec::new(), Vec::new(), Vec::new());
    stat(&mut a, &mut x, 1);
    status(&mut b, &mut x);
    limits(&mut c, &mut x, true);
    k.files = vec![("stat", State::Good, a), ("status", State::Good, b), ("limits", State::Good, c)];
    k.armed = true;
    let f = no_panic("collecting does not panic", || g.gather());
    k.armed = false;
    if let Some(f) = f {
        verify(&f, &x, &[State::Good; 3], start);
    }
    cover("end");
});
// C25: large and small figures
entry!(h_c25_sizes {
    let k = kernel();
    let mut g = Gatherer::new();
    let start = u64_("creation time");
    assume(start < 1 << 40);
    set_real(start as i64, 999_999_999);
    g.registry().register(ProcessMetricsCollector::new());
    set_real(1 << 41, 0);
    k.ticks = [100, 1000][choose(2, "ticks per second")];
    k.page = [4096, 16384][choose(2, "page size")];
    k.piece = 100_000;
    for round in 0..2 {
        let mut x = Figures { ticks: 0, threads: 0, vsize: 0, rss: 0, fds: 0, max_fds: None };
        let (mut a, mut b, mut c) = (Vec::new(), Vec::new(), Vec::new());
        // figures of ordinary, small and large sizes
        let w = if round == 0 { choose(3, "size") } else { 0 };
        let n = [2, 0, 2][w];
        put(&mut a, "4321 (a b) S 32725 32725 245 0 -1 4194304 84 13 2 1 ");
        x.ticks = after(&mut a, ["123", "0", "72057594037"][w], n, "utime");
        put(&mut a, " ");
        x.ticks += after(&mut a, ["45", "1", "4294967"][w], [2, 0, 3][w], "stime");
        put(&mut a, " 7000000 9000000 20 0 ");
        x.threads = after(&mut a, ["3", "1", "419430"][w], [1, 0, 1][w], "threads");
        put(&mut a, " 0 1048082 ");
        x.vsize = after(&mut a, ["29208", "0", "175921860"][w], [2, 0, 5][w], "vsize");
        put(&mut a, " ");
        x.rss = after(&mut a, ["12", "0", "42949"][w], [2, 0, 5][w], "rss");
        put(&mut a, TAIL);
        put(&mut b, "Name:\tcat\nUmask:\t0022\nState:\tR (running)\nTgid:\t4321\nNgid:\t0\nPid:\t4321\nPPid:\t32725\nTracerPid:\t0\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nFDSize:\t");
        x.fds = after(&mut b, ["6", "0", "2147483"][w], [1, 0, 2][w], "descriptors");
        put(&mut b, "\nVmPeak:\t    2852 kB\nVmSize:\t    2852 kB\nVmRSS:\t    1636 kB\nThreads:\t77\n");
        let mut d = Figures { ticks: 0, threads: 0, vsize: 0, rss: 0, fds: 0, max_fds: None };
        let mut text = Vec::new();
        limits(&mut text, &mut d, false);
        // the soft limit stands where "unlimited" stood
        let key = b"Max open files            ";
        let at = text.windows(key.len()).position(|w| w == key).unwrap() + key.len();
        c.extend_from_slice(&text[..at]);
        x.max_fds = Some(after(&mut c, ["10", "0", "9007199254"][w], [2, 0, 5][w], "limit"));
        c.extend_from_slice(&text[at + "unlimited".len()..]);
        k.files = vec![("stat", State::Good, a), ("status", State::Good, b), ("limits", State::Good, c)];
        k.armed = true;
        let f = no_panic("collecting does not panic", || g.gather());
        k.armed = false;
        if let Some(f) = f {
            verify(&f, &x, &[State::Good; 3], start);
        }
    }
    cover("end");
});
