//! C24: timestamps.
use crate::names::*;
use crate::rt::*;
use prometrics::metric::*;
use prometrics::Gatherer;
use std::time::{Duration, UNIX_EPOCH};

/// a point less than a second after a whole one: (nanoseconds, whole milliseconds, is there a remainder)
fn part(name: &str) -> (u32, i64, bool) {
    let ms = below(1000, name) as u32;
    let rest = below(1_000_000, name) as u32;
    (ms * 1_000_000 + rest, ms as i64, rest != 0)
}
const MOST: u64 = (i64::MAX / 1000) as u64;
fn step(m: &mut Any, now: &mut Option<i64>) {
    match choose(5, "change") {
        0 => {
            let t = i64_("milliseconds");
            assume(t != i64::MIN);
            m.set_timestamp(t);
            *now = Some(t);
        }
        1 => {
            let s = below(MOST + 1, "seconds after the epoch");
            let (n, ms, _) = part("part");
            assume((s < MOST) | (ms <= i64::MAX % 1000));
            m.set_time(UNIX_EPOCH + Duration::new(s, n));
            *now = Some(s as i64 * 1000 + ms);
        }
        2 => {
            let s = below(MOST + 1, "seconds before the epoch");
            let (n, ms, _) = part("part");
            assume((s < MOST) | (ms <= i64::MAX % 1000));
            m.set_time(UNIX_EPOCH - Duration::new(s, n));
            *now = Some(-(s as i64 * 1000 + ms));
        }
        3 => {
            let s = i64_("clock");
            assume((s < MOST as i64) & (s > -(MOST as i64)));
            let (n, ms, rest) = part("clock part");
            set_real(s, n as i64);
            m.set_now();
            let t = s * 1000 + ms;
            // a remainder before the epoch is on the other side
            *now = Some(if (s < 0) & rest { t + 1 } else { t });
        }
        _ => {
            m.clear_timestamp();
            *now = None;
        }
    }
}
fn shows(m: &Any, now: Option<i64>) {
    let got = m.timestamp();
    match (got, now) {
        (Some(a), Some(b)) => check(a == b, "the timestamp reads back"),
        (None, None) => {}
        (None, Some(_)) => check(false, "a timestamp that was set is there"),
        (Some(_), None) => check(false, "there is no timestamp until one is set, or after clearing"),
    }
}
fn gathered(g: &mut Gatherer, now: Option<i64>) {
    let f = g.gather();
    let fs = f.as_ref();
    check(fs.len() == 1, "the metric is gathered");
    let t = match *fs[0].metrics() {
        Metrics::Counter(ref v) => v[0].timestamp().get(),
        Metrics::Gauge(ref v) => v[0].timestamp().get(),
        Metrics::Histogram(ref v) => v[0].timestamp().get(),
        Metrics::Summary(ref v) => v[0].timestamp().get(),
    };
    match (t, now) {
        (Some(a), Some(b)) => check(a == b, "the gathered metric has the timestamp"),
        (None, None) => {}
        _ => check(false, "the gathered metric has a timestamp if and only if one is set"),
    }
}
// C24
entry!(h_c24_history {
    let mut g = Gatherer::new();
    let mut a = build(choose(KINDS, "kind"), &Spec { name: "m", registries: vec![g.registry()], ..Default::default() }).unwrap();
    let mut b = a.clone();
    let mut now = None;
    shows(&a, now);
    gathered(&mut g, now);
    for _ in 0..param("changes", 3) {
        if flag("which clone") {
            no_panic("changing a timestamp does not panic", || step(&mut b, &mut now));
        } else {
            no_panic("changing a timestamp does not panic", || step(&mut a, &mut now));
        }
        shows(&a, now);
        shows(&b, now);
    }
    shows(&a.clone(), now);
    gathered(&mut g, now);
    cover("end");
});
// C24: many changes, one of them arbitrary
entry!(h_c24_many {
    let mut g = Gatherer::new();
    let mut a = build(choose(KINDS, "kind"), &Spec { name: "m", registries: vec![g.registry()], ..Default::default() }).unwrap();
    let mut b = a.clone();
    let mut now = None;
    let n = param("changes", 14);
    let at = [1, n / 2, n - 2][choose(3, "place")];
    for i in 0..n {
        let m = if i % 3 == 1 { &mut b } else { &mut a };
        if i == at {
            no_panic("changing a timestamp does not panic", || step(m, &mut now));
        } else {
            let k = i as i64 * 1_000_003 % 7919;
            match i % 5 {
                0 | 3 => {
                    m.set_timestamp(k - 4000);
                    now = Some(k - 4000);
                }
                1 => {
                    m.set_time(UNIX_EPOCH + Duration::new(k as u64, 999_999_999));
                    now = Some(k * 1000 + 999);
                }
                2 => {
                    m.set_time(UNIX_EPOCH - Duration::new(k as u64, 1_500_000));
                    now = Some(-(k * 1000 + 1));
                }
                _ => {
                    m.clear_timestamp();
                    now = None;
                }
            }
        }
        shows(&a, now);
        shows(&b, now);
        if i % 4 == 3 {
            gathered(&mut g, now);
        }
    }
    gathered(&mut g, now);
    cover("end");
});
