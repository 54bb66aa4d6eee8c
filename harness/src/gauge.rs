//! C03, C05: gauges, timing and in-progress helpers.
use crate::rt::*;
use prometrics::metrics::*;
use std::cell::Cell;
use std::time::Duration;

// C03: a sequence of updates from an arbitrary initial value
entry!(h_c03_seq {
    let init = f64_("init");
    let g = GaugeBuilder::new("a").initial_value(init).finish().unwrap();
    let h = g.clone();
    let mut v = init;
    check(same_f64(g.value(), v), "a gauge starts at its initial value");
    for _ in 0..param("ops", 2) {
        let w = if flag("clone") { &h } else { &g };
        let _ = no_panic("gauge update does not panic", || match choose(5, "op") {
            0 => { v = f64_("set"); w.set(v); }
            1 => { let x = f64_("add"); w.add(x); v = v + x; }
            2 => { let x = f64_("sub"); w.subtract(x); v = v - x; }
            3 => { w.increment(); v = v + 1.0; }
            _ => { w.decrement(); v = v - 1.0; }
        });
        check(same_f64(g.value(), v), "the value is the last one set moved by the later adds and subtracts");
        check(same_f64(h.value(), v), "clones observe the same value");
    }
    trace_f64(v, "v");
    cover("end");
});
// C03: set reads back any bit pattern; defaults
entry!(h_c03_set {
    let g = Gauge::new("a").unwrap();
    check(g.value() == 0.0, "a gauge starts at zero by default");
    let x = f64_("x");
    g.set(x);
    check(same_f64(g.value(), x), "set reads back exactly");
    check((x != x) | (g.value().to_bits() == x.to_bits()), "the sign of zero is kept");
    let neg = flag("before epoch");
    let (secs, n) = (u64_("s"), nanos("n"));
    assume(secs < 1 << 40);
    // the time is secs seconds and n nanoseconds after (or before) the epoch
    if neg {
        set_real(-(secs as i64) - (n != 0) as i64, if n == 0 { 0 } else { 1_000_000_000 - n as i64 });
        cover("before the epoch");
    } else {
        set_real(secs as i64, n as i64);
    }
    let _ = no_panic("set_to_current_time does not panic", || g.set_to_current_time());
    let got = if neg { -g.value() } else { g.value() };
    check(is_seconds(got, secs, n), "set_to_current_time sets the seconds since the epoch");
    cover("end");
});

/// Nanoseconds: a few telling values, or (with the parameter) any
fn nanos(name: &str) -> u32 {
    const T: [u32; 6] = [0, 500_000_000, 250_000_000, 1, 999_999_999, 123_456_789];
    let k = choose(param("nanos", 6), name);
    if k < 6 {
        T[k as usize]
    } else {
        let n = u32_(name);
        assume(n < 1_000_000_000);
        n
    }
}
/// v is s seconds and n nanoseconds, give or take the rounding of half a nanosecond
fn is_seconds(v: f64, s: u64, n: u32) -> bool {
    let e = s as f64 + n as f64 / 1e9;
    (v == e) | ((v >= s as f64 + (n as f64 - 0.5) / 1e9) & (v <= s as f64 + (n as f64 + 0.5) / 1e9))
}
// C05: timing helpers of all four kinds
entry!(h_c05_time {
    let kind = choose(4, "kind");
    let start = (u64_("start"), nanos("start nsec"));
    let (s, n) = (u64_("elapsed"), nanos("elapsed nsec"));
    assume((start.0 < 1 << 40) & (s < 1 << 40));
    let carry = start.1 + n >= 1_000_000_000;
    let end = (start.0 + s + carry as u64, start.1 + n - if carry { 1_000_000_000 } else { 0 });
    set_mono(start.0 as i64, start.1 as i64);
    let runs = Cell::new(0u32);
    let body = || {
        runs.set(runs.get() + 1);
        set_mono(end.0 as i64, end.1 as i64);
        17u32
    };
    let ret;
    match kind {
        0 => {
            let c = CounterBuilder::new("a").finish().unwrap();
            ret = no_panic("timing does not panic", || c.time(body));
            check(is_seconds(c.value(), s, n), "a timed counter gains the elapsed seconds");
            trace_f64(c.value(), "v");
        }
        1 => {
            let g = GaugeBuilder::new("a").initial_value(5.5).finish().unwrap();
            ret = no_panic("timing does not panic", || g.time(body));
            check(is_seconds(g.value(), s, n), "a timed gauge is set to the elapsed seconds");
        }
        2 => {
            let h = HistogramBuilder::new("a").finish().unwrap();
            ret = no_panic("timing does not panic", || h.time(body));
            check(h.count() == 1, "a timed histogram gains one observation");
            check(is_seconds(h.sum(), s, n), "a timed histogram observes the elapsed seconds");
        }
        _ => {
            let u = SummaryBuilder::new("a", Duration::from_secs(60)).quantile(0.5).finish().unwrap();
            ret = no_panic("timing does not panic", || u.time(body));
            check(u.count() == 1, "a timed summary gains one observation");
            check(is_seconds(u.sum(), s, n), "a timed summary observes the elapsed seconds");
            let q = u.quantiles();
            check(q.len() == 1 && is_seconds(q[0].1, s, n), "the elapsed time is a sample");
        }
    }
    check(ret == Some(17), "the closure's result is returned");
    check(runs.get() == 1, "the closure runs exactly once");
    cover("end");
});
// C05: a timed counter keeps what it had
entry!(h_c05_time_adds {
    let c = CounterBuilder::new("a").finish().unwrap();
    c.add_u64(3);
    set_mono(10, 0);
    let (s, n) = (u32_("s") as i64 & 0xffff, nanos("n") as i64);
    let _ = no_panic("timing does not panic", || c.time(|| set_mono(10 + s, n)));
    check(is_seconds(c.value(), 3 + s as u64, n as u32), "timing adds to the counter");
    cover("end");
});
// C05: in-progress tracking, with other updates going on inside, returning or panicking
entry!(h_c05_inprogress {
    let init = f64_("init");
    let g = GaugeBuilder::new("a").initial_value(init).finish().unwrap();
    let panics = flag("panics");
    let nested = flag("nested");
    let z = f64_("z");
    let runs = Cell::new(0u32);
    let r = catch(|| {
        g.track_inprogress(|| {
            runs.set(runs.get() + 1);
            check(same_f64(g.value(), init + 1.0), "the gauge is one higher while the code runs");
            if nested {
                let r = g.track_inprogress(|| {
                    check(same_f64(g.value(), init + 1.0 + 1.0), "nested tracking counts both");
                    3u32
                });
                check(r == 3, "the closure's result is returned");
            } else {
                g.add(z);
            }
            if panics {
                cover("panic");
                panic!("tracked code");
            }
            17u32
        })
    });
    check(runs.get() == 1, "the closure runs exactly once");
    if !panics {
        check(r == Some(17), "the closure's result is returned");
    }
    let want = if nested { init + 1.0 + 1.0 - 1.0 - 1.0 } else { init + 1.0 + z - 1.0 };
    check(same_f64(g.value(), want), "afterwards the increment has been taken back");
    cover("end");
});
// C03: a long history, two of whose amounts are arbitrary
entry!(h_c03_many {
    let g = GaugeBuilder::new("a").initial_value(-0.5).finish().unwrap();
    let h = g.clone();
    let n = param("ops", 60);
    let at = [3, n / 2][choose(2, "position")];
    let mut v = -0.5;
    for i in 0..n {
        let w = if i % 3 == 0 { &h } else { &g };
        if i == at {
            let x = f64_("set");
            w.set(x);
            v = x;
        } else if i == at + 2 {
            let x = f64_("add");
            w.add(x);
            v = v + x;
        } else {
            let x = [0.1, -3.5, 0.0, 1e10, 2.0][i % 5];
            match i % 7 {
                0 => { w.increment(); v = v + 1.0; }
                1 => { w.decrement(); v = v - 1.0; }
                2 | 3 => { w.add(x); v = v + x; }
                4 | 5 => { w.subtract(x); v = v - x; }
                _ if i < at => { w.set(x); v = x; }
                _ => { w.decrement(); v = v - 1.0; }
            }
        }
        check(same_f64(g.value(), v), "the value is the last one set moved by the later adds and subtracts");
    }
    check(same_f64(h.value(), v), "clones observe the same value");
    cover("end");
});
// C05: deeply nested tracking, one of whose levels panics; and timing again and again
fn nest(g: &Gauge, depth: usize, deepest: usize, panics: usize, add: f64) -> usize {
    g.track_inprogress(|| {
        check(g.value() == depth as f64 + add, "the gauge counts every tracked piece of code");
        let r = if depth < deepest { nest(g, depth + 1, deepest, panics, add) } else { 0 };
        check(g.value() == depth as f64 + add, "the gauge counts every tracked piece of code");
        if depth == panics {
            panic!("tracked code");
        }
        r + 1
    })
}
entry!(h_c05_many {
    let g = Gauge::new("a").unwrap();
    let add = sgrid("initial", 16, 4);
    g.set(add);
    let deepest = 1 + choose(param("depth", 12), "depth");
    let panics = choose(deepest + 1, "panics");
    let r = catch(|| nest(&g, 1, deepest, panics, add));
    check(r == if panics == 0 { Some(deepest) } else { None }, "the closure's result is returned");
    check(g.value() == add, "afterwards the increments have been taken back");
    // one after another
    for i in 0..20usize {
        let r = g.track_inprogress(|| i * 2);
        check(r == i * 2, "the closure's result is returned");
    }
    check(g.value() == add, "afterwards the increments have been taken back");
    cover("end");
});
entry!(h_c05_time_many {
    let c = Counter::new("a").unwrap();
    let u = Gauge::new("u").unwrap();
    let h = HistogramBuilder::new("a").finish().unwrap();
    let s = SummaryBuilder::new("a", Duration::from_secs(600)).quantile(1.0).finish().unwrap();
    let x = below(1 << 20, "seconds");
    let n = param("runs", 20);
    let (mut now, mut total, mut most) = (100u64, 0u64, 0u64);
    for i in 0..n as u64 {
        let d = if i == 11 { x } else { i * 7 % 5 };
        let (a, b) = (now, now + d);
        now = b;
        total += d;
        most = most.max(d);
        let body = |k: u64| {
            set_mono(a as i64, 0);
            move || {
                set_mono(b as i64, 0);
                k
            }
        };
        check(c.time(body(i)) == i, "the closure's result is returned");
        check(u.time(body(i)) == i, "the closure's result is returned");
        check(h.time(body(i)) == i, "the closure's result is returned");
        check(s.time(body(i)) == i, "the closure's result is returned");
        check(c.value() == total as f64, "a timed counter gains the elapsed seconds");
        check(u.value() == d as f64, "a timed gauge is set to the elapsed seconds");
        check((h.sum() == total as f64) & (h.count() == i + 1), "a timed histogram observes the elapsed seconds");
        check((s.sum() == total as f64) & (s.count() == i + 1), "a timed summary observes the elapsed seconds");
    }
    let q = s.quantiles();
    check(q.len() == 1 && q[0].1 == most as f64, "the elapsed time is a sample");
    cover("end");
});
