//! C01, C02: counters.
use crate::rt::*;
use prometrics::metrics::*;
use prometrics::ErrorKind;

use crate::rt::same_f64 as same;

// C01: from zero, a sequence of arbitrary updates
entry!(h_c01_seq {
    let c = CounterBuilder::new("a").finish().unwrap();
    let d = c.clone();
    let n = param("ops", 2);
    let mut prev = c.value();
    check(prev == 0.0, "a counter starts at zero");
    for _ in 0..n {
        let k = choose(3, "op");
        let _ = no_panic("counter update does not panic", || match k {
            0 => { c.increment(); }
            1 => { c.add_u64(u64_("x")); }
            _ => { let _ = c.add(f64_("y")); }
        });
        let v = d.value();
        check(v >= prev, "value never decreases and is not NaN");
        prev = v;
    }
    cover("end");
});

// C01: one update from an arbitrary state (integer total u, fractional total f)
entry!(h_c01_step {
    let c = CounterBuilder::new("a").finish().unwrap();
    let k = choose(3, "op");
    let _ = no_panic("counter update does not panic", || {
        c.add_u64(u64_("u"));
        let _ = c.add(f64_("f"));
    });
    let prev = c.value();
    let _ = no_panic("counter update does not panic", || match k {
        0 => { c.increment(); }
        1 => { c.add_u64(u64_("x")); }
        _ => { let _ = c.add(f64_("y")); }
    });
    let v = c.value();
    check(v >= prev, "value never decreases and is not NaN");
    trace_f64(v, "v");
    cover("end");
});

// C02: which additions are accepted, and a rejected one changes nothing
entry!(h_c02_accept {
    let c = CounterBuilder::new("a").finish().unwrap();
    let d = c.clone();
    let u = u32_("u");
    c.add_u64(u as u64);
    let f = f64_("f");
    assume((f > 0.0) & (f < 1.0));
    check(c.add(f).is_ok(), "a positive fraction is accepted");
    let before = c.value();
    let x = f64_("x");
    let r = match no_panic("add does not panic", || c.add(x)) { Some(r) => r, None => return };
    let nan = x != x;
    let neg = x < 0.0;
    match r {
        Ok(()) => {
            cover("accepted");
            check(!nan & !neg, "an accepted amount is not NaN and not negative");
        }
        Err(e) => {
            cover("rejected");
            check(nan | neg, "a rejected amount is NaN or negative");
            check(*e.kind() == ErrorKind::InvalidInput, "rejection is InvalidInput");
            check(same(d.value(), before), "a rejected addition changes nothing");
            std::mem::forget(e);
        }
    }
    cover("end");
});

// C02: integral totals are exact up to 2^53
entry!(h_c02_integral {
    let c = CounterBuilder::new("a").finish().unwrap();
    let d = c.clone();
    let n = param("ops", 2);
    let lim = 1u64 << 53;
    let mut total = 0u64;
    for _ in 0..n {
        match choose(3, "op") {
            0 => {
                c.increment();
                total = total.wrapping_add(1);
            }
            1 => {
                let x = sym(52, "x");
                d.add_u64(x);
                total = total.wrapping_add(x);
            }
            _ => {
                let x = sym(52, "y");
                let r = c.add(x as f64);
                check(r.is_ok(), "an integral amount is accepted");
                total = total.wrapping_add(x);
            }
        }
        assume(total <= lim);
        check(c.value() == total as f64, "integral totals up to 2^53 are exact");
        check(d.value() == total as f64, "clones read the same value");
    }
    trace_f64(c.value(), "v");
    cover("end");
});

/// |a - b| <= about 2^-50 of b, for non-negative finite numbers; both infinite is close too
fn close(a: f64, b: f64) -> bool {
    (a == b) | ((a >= b * 0.999_999_999_999_999_1) & (a <= b * 1.000_000_000_000_000_9))
}

// C02: fractional amounts, on the grid of multiples of 2^-scale, where all sums are exact
entry!(h_c02_fraction {
    let c = CounterBuilder::new("a").finish().unwrap();
    let d = c.clone();
    let (bits, scale) = (param("bits", 40) as u32, param("scale", 10) as u32);
    let mut total = 0.0;
    for _ in 0..param("ops", 3) {
        match choose(3, "op") {
            0 => {
                c.increment();
                total += 1.0;
            }
            1 => {
                let x = sym(bits - scale, "x");
                d.add_u64(x);
                total += x as f64;
            }
            _ => {
                let x = grid("y", bits, scale);
                check(c.add(x).is_ok(), "a non-negative amount is accepted");
                total += x;
            }
        }
        check(c.value() == total, "the value is the exact total of the amounts");
        check(d.value() == total, "clones read the same value");
    }
    trace_f64(c.value(), "v");
    cover("end");
});

// C02: amounts beyond the integer range
entry!(h_c02_large {
    let c = CounterBuilder::new("a").finish().unwrap();
    let u = u64_("u");
    c.add_u64(u);
    check(c.value() == u as f64, "an integer amount is the value");
    let x = f64_("x");
    assume(x >= 18446744073709551616.0);
    check(c.add(x).is_ok(), "accepted");
    check(close(c.value(), x + u as f64), "an amount beyond the integer range raises the value by that amount");
    cover("end");
});
// C02: integral amounts beyond 2^53, where the value is rounded once
entry!(h_c02_big {
    let c = CounterBuilder::new("a").finish().unwrap();
    let x = [9007199254740992.0, 9007199254740994.0, 36028797018963976.0, 9223372036854775808.0, 18446744073709549568.0][choose(5, "x")];
    let u = sym(param("ubits", 16) as u32, "u");
    if flag("first") {
        c.add_u64(u);
        check(c.add(x).is_ok(), "accepted");
    } else {
        check(c.add(x).is_ok(), "accepted");
        c.add_u64(u);
    }
    check(close(c.value(), x + u as f64), "a large amount raises the value by that amount");
    trace_f64(c.value(), "v");
    cover("end");
});
// C02: integer additions that pass the integer range
entry!(h_c02_wrap {
    let c = CounterBuilder::new("a").finish().unwrap();
    let u = u64_("u");
    c.add_u64(u);
    let w = u64_("w");
    if flag("inc") {
        c.increment();
        check(c.value() >= u as f64, "an increment does not lower the value");
    }
    c.add_u64(w);
    let v = c.value();
    check(v >= u as f64, "the total is at least each amount");
    check(v >= w as f64, "the total is at least each amount");
    check(v <= 36893488147419107328.0, "the total is at most what was added");
    cover("end");
});
entry!(h_c02_edge {
    // just below 2^64, where the integer total is full
    let c = CounterBuilder::new("a").finish().unwrap();
    let u = u64::MAX - sym(8, "u");
    c.add_u64(u);
    match choose(4, "op") {
        0 => c.increment(),
        1 => {
            for _ in 0..3 {
                c.increment();
            }
        }
        2 => c.add_u64(sym(8, "w")),
        _ => {
            let _ = c.add(sym(8, "w") as f64);
        }
    }
    check(close(c.value(), 18446744073709551616.0), "the total stays next to 2^64");
    c.add_u64(u64::MAX);
    check(close(c.value(), 36893488147419103232.0), "and doubles to 2^65");
    cover("end");
});
// C01, C02: a long history, two of whose amounts are arbitrary; the value is read after each update
entry!(h_c02_many {
    let c = CounterBuilder::new("a").finish().unwrap();
    let d = c.clone();
    let n = param("ops", 30);
    let (x, y) = (sym(40, "x"), grid("y", 30, 10));
    let at = [3, n / 2][choose(2, "position")];
    let (mut total, mut prev) = (0.0, 0.0);
    for i in 0..n {
        let w = if i % 3 == 0 { &d } else { &c };
        if i == at {
            w.add_u64(x);
            total += x as f64;
        } else if i == at + 2 {
            check(w.add(y).is_ok(), "a non-negative amount is accepted");
            total += y;
        } else {
            match i % 5 {
                0 => {
                    w.increment();
                    total += 1.0;
                }
                1 | 2 => {
                    let k = (i * 37 % 101) as u64;
                    w.add_u64(k);
                    total += k as f64;
                }
                3 => {
                    let k = (i * 29 % 64) as f64 / 16.0;
                    check(w.add(k).is_ok(), "a non-negative amount is accepted");
                    total += k;
                }
                _ => check(w.add(-1.0 - i as f64).is_err(), "a negative amount is refused"),
            }
        }
        let v = c.value();
        check(v == total, "the value is the exact total of the amounts");
        check(v >= prev, "value never decreases and is not NaN");
        prev = v;
    }
    check(d.value() == total, "clones read the same value");
    cover("end");
});
