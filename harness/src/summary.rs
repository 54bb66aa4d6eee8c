//! C09, C10, C11, C12: summaries and quantiles.
use crate::rt::*;
use prometrics::metric::Metrics;
use prometrics::metrics::*;
use prometrics::quantile::Quantile;
use prometrics::{ErrorKind, Gatherer};
use std::cmp::Ordering;
use std::time::Duration;

/// a quantile: on the grid of eighths, or one of the telling ones
fn quantile(name: &str) -> f64 {
    const T: [f64; 8] = [0.0, 1.0, 0.9999999999999999, 5e-324, 0.3333333333333333, 0.6666666666666666, 0.99, -0.0];
    match choose(param("telling quantiles", 8) + 1, name) {
        0 if param("any quantile", 0) == 1 => {
            let q = f64_(name);
            assume((q >= 0.0) & (q <= 1.0));
            q
        }
        0 => {
            let q = sym(param("quantile bits", 4) as u32, name) as f64 / (1u64 << (param("quantile bits", 4) - 1)) as f64;
            assume(q <= 1.0);
            q
        }
        k => T[k - 1],
    }
}
/// v is the sample of rank floor(q*n) (the last for q=1) among the n samples that are not NaN
fn is_quantile(v: f64, q: f64, samples: &[f64]) -> bool {
    let (mut n, mut below, mut upto) = (0u64, 0u64, 0u64);
    for x in samples {
        n += !(*x != *x) as u64;
        below += (*x < v) as u64;
        upto += (*x <= v) as u64;
    }
    // n is at most the number of samples: one case each keeps the product a constant factor
    let mut ok = false;
    for k in 1..=samples.len() as u64 {
        let p = q * k as f64;
        let rank = if p.floor() >= k as f64 { k - 1 } else { p.floor() as u64 };
        let exact = below <= rank && rank < upto;
        // a product that the rounding lifted to an integer may also be taken at the rank below
        let lifted = !k.is_power_of_two() & (p.floor() == p) & (rank > 0) & (q < 1.0);
        let lower = lifted && below <= rank.wrapping_sub(1) && rank.wrapping_sub(1) < upto;
        ok = ok | ((n == k) & (exact | lower));
    }
    ok
}
fn check_quantiles(got: &[(Quantile, f64)], qs: &[f64], samples: &[f64]) {
    let mut any = false;
    for x in samples {
        any = any | !(*x != *x);
    }
    if got.is_empty() {
        let none = qs.is_empty();
        return check(none | !any, "quantiles are reported when there is a sample");
    }
    check(any, "no quantile is reported without a sample");
    for i in 0..got.len() {
        let (q, v) = (got[i].0.as_f64(), got[i].1);
        check(!(v != v), "a quantile is not NaN");
        check(is_quantile(v, q, samples), "a quantile is the sample of rank floor(q*n)");
        let mut wanted = false;
        for w in qs {
            wanted = wanted | (*w == q);
        }
        check(wanted, "only configured quantiles are reported");
        if i > 0 {
            check(got[i - 1].0.as_f64() < q, "quantiles are distinct and in increasing order");
            check(got[i - 1].1 <= v, "values do not decrease as the quantile grows");
        }
    }
    for w in qs {
        let mut found = false;
        for g in got {
            found = found | (g.0.as_f64() == *w);
        }
        check(found, "every configured quantile is reported");
    }
}
fn sum_of(xs: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in xs {
        s = s + *x;
    }
    s
}

// C09: any samples (also NaN), any configured quantiles
entry!(h_c09_quantiles {
    let mut builder = SummaryBuilder::new("a", Duration::from_secs(60));
    let qs: Vec<f64> = (0..param("quantiles", 1)).map(|_| quantile("q")).collect();
    for q in &qs {
        builder.quantile(*q);
    }
    let s = builder.finish().unwrap();
    let t = s.clone();
    let n = choose(param("samples", 3) + 1, "samples");
    let mut obs = Vec::new();
    for _ in 0..n {
        let x = f64_("x");
        let _ = no_panic("observing does not panic", || s.observe(x));
        obs.push(x);
    }
    let got = match no_panic("asking for quantiles does not panic", || t.quantiles()) { Some(g) => g, None => return };
    check_quantiles(&got, &qs, &obs);
    check(t.count() == obs.len() as u64, "the count is the number of observations");
    check(same_f64(t.sum(), sum_of(&obs)), "the sum is the sum of the observations");
    cover("end");
});
// C09: quantiles and samples distinct, more samples, in arbitrary order
entry!(h_c09_rank {
    let mut builder = SummaryBuilder::new("a", Duration::from_secs(60));
    let q = quantile("q");
    builder.quantile(q);
    let s = builder.finish().unwrap();
    let n = 1 + choose(param("samples", 8), "samples");
    let mut obs = Vec::new();
    for i in 0..n {
        // a fixed scattered order: 0 5 2 7 4 1 6 3
        let x = ((i * 5) % 8) as f64;
        s.observe(x);
        obs.push(x);
    }
    let got = match no_panic("asking for quantiles does not panic", || s.quantiles()) { Some(g) => g, None => return };
    check_quantiles(&got, &[q], &obs);
    cover("end");
});

// C10: arbitrary non-decreasing times, window, and interleaving of observing and querying
fn later(t: (u64, u32), name: &str) -> (u64, u32) {
    let (s, n) = (sym(param("second bits", 5) as u32, name), nanos(name));
    assume((s > t.0) | ((s == t.0) & (n >= t.1)));
    (s, n)
}
/// the sub-second part: 8 values that tell nanoseconds from coarser units, or any
fn nanos(name: &str) -> u32 {
    if param("any nanosecond", 0) == 1 {
        let n = u32_(name);
        assume(n < 1_000_000_000);
        return n;
    }
    let k = sym(3, name) as u32;
    // 0, 1 ns, 500 ms, 500 ms + 1 ns and 499999999 ns more of each, as bits
    (k & 1) + (k >> 1 & 1) * 499_999_998 + (k >> 2) * 500_000_000
}
/// t - s <= window, that is s + window >= t
fn inside(s: (u64, u32), w: (u64, u32), t: (u64, u32)) -> bool {
    let n = s.1 + w.1;
    let carry = n >= 1_000_000_000;
    let n = if carry { n - 1_000_000_000 } else { n };
    let e = s.0 + w.0 + carry as u64;
    (e > t.0) | ((e == t.0) & (n >= t.1))
}
const EIGHTHS: [f64; 9] = [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0];
entry!(h_c10_window {
    let w = (sym(param("second bits", 5) as u32, "window"), nanos("window nsec"));
    let mut builder = SummaryBuilder::new("a", Duration::new(w.0, w.1));
    for q in EIGHTHS.iter() {
        builder.quantile(*q);
    }
    let s = builder.finish().unwrap();
    let mut now = (0u64, 0u32);
    let mut seen: Vec<((u64, u32), f64)> = Vec::new();
    let mut sum = 0.0;
    let ops = param("ops", 3);
    for i in 0..ops {
        now = later(now, "t");
        set_real(now.0 as i64, now.1 as i64);
        if i + 1 < ops && flag("observe") {
            // scattered values, so that the oldest is not always the smallest
            let x = [4.0, 1.0, 8.0, 2.0][seen.len() % 4];
            s.observe(x);
            seen.push((now, x));
            sum += x;
        } else {
            let got = match no_panic("asking for quantiles does not panic", || s.quantiles()) { Some(g) => g, None => return };
            for (t, x) in &seen {
                let mut found = false;
                for g in &got {
                    found = found | (g.1 == *x);
                }
                check(found == inside(*t, w, now), "a sample is used exactly while it is inside the window");
                cover("sample");
            }
            for g in &got {
                let mut known = false;
                for (_, x) in &seen {
                    known = known | (g.1 == *x);
                }
                check(known, "only observations are reported");
            }
            if !got.is_empty() {
                cover("reported");
            } else if !seen.is_empty() {
                cover("all expired");
            }
        }
        check(s.count() == seen.len() as u64, "the count covers every observation");
        check(s.sum() == sum, "the sum covers every observation");
    }
    cover("end");
});
// C10: any window at all, up to Duration::MAX, and any times, also before the epoch
entry!(h_c10_any {
    let w = (u64_("window"), { let n = u32_("window nsec"); assume(n < 1_000_000_000); n });
    let mut builder = SummaryBuilder::new("a", Duration::new(w.0, w.1));
    builder.quantile(0.0).quantile(1.0);
    let s = builder.finish().unwrap();
    let bits = param("second bits", 61);
    let (t, n) = (sym(bits as u32, "t") as i64 - (1 << (bits - 1)), { let n = u32_("nsec"); assume(n < 1_000_000_000); n as i64 });
    let (u, m) = (sym(bits as u32, "u") as i64 - (1 << (bits - 1)), { let n = u32_("later nsec"); assume(n < 1_000_000_000); n as i64 });
    assume((u > t) | ((u == t) & (m >= n)));
    set_real(t, n);
    let _ = no_panic("observing does not panic", || s.observe(1.0));
    set_real(u, m);
    let second = flag("observe again");
    if second {
        let _ = no_panic("observing does not panic", || s.observe(2.0));
    }
    let got = match no_panic("asking for quantiles does not panic", || s.quantiles()) { Some(g) => g, None => return };
    // the age
    let borrow = m < n;
    let age = ((u - t) as u64 - borrow as u64, if borrow { m + 1_000_000_000 - n } else { m - n } as u32);
    let inside = (age.0 < w.0) | ((age.0 == w.0) & (age.1 <= w.1));
    let (mut one, mut two) = (false, false);
    for g in &got {
        one = one | (g.1 == 1.0);
        two = two | (g.1 == 2.0);
    }
    check(one == inside, "a sample is used exactly while it is inside the window");
    check(two == second, "a sample just observed is used");
    check(s.count() == 1 + second as u64, "the count covers every observation");
    cover("end");
});
// C10: any clock, also running backwards
entry!(h_c10_backwards {
    let w = (sym(param("second bits", 5) as u32, "window"), nanos("window nsec"));
    let mut builder = SummaryBuilder::new("a", Duration::new(w.0, w.1));
    builder.quantile(0.0).quantile(1.0);
    let s = builder.finish().unwrap();
    let mut n = 0;
    for _ in 0..param("ops", 3) {
        let (t, ns) = (sym(param("second bits", 5) as u32, "t") as i64, nanos("nsec"));
        let t = t - (1 << (param("second bits", 5) - 1));
        set_real(t, ns as i64);
        if flag("observe") {
            let _ = no_panic("observing does not panic", || s.observe(1.0));
            n += 1;
        } else {
            let _ = no_panic("asking for quantiles does not panic", || std::mem::forget(s.quantiles()));
        }
        check(s.count() == n, "the count covers every observation");
        check(s.sum() == n as f64, "the sum covers every observation");
    }
    cover("end");
});
// C10: merged summaries drop expired samples too, each by its own window
entry!(h_c10_merged {
    let mut gatherer = Gatherer::new();
    let mut seen = Vec::new();
    let mut now = (0u64, 0u32);
    let mut ss = Vec::new();
    for i in 0..2 {
        let w = (sym(param("second bits", 5) as u32, "window"), nanos("window nsec"));
        let mut builder = SummaryBuilder::new("a", Duration::new(w.0, w.1));
        for q in EIGHTHS.iter() {
            builder.quantile(*q);
        }
        let s = builder.registry(gatherer.registry()).finish().unwrap();
        now = later(now, "t");
        set_real(now.0 as i64, now.1 as i64);
        let x = [4.0, 1.0][i];
        s.observe(x);
        seen.push((now, w, x));
        ss.push(s);
    }
    now = later(now, "t");
    set_real(now.0 as i64, now.1 as i64);
    let families = gatherer.gather().into_vec();
    let v = match *families[0].metrics() { Metrics::Summary(ref v) => v, _ => return check(false, "the family is of summaries") };
    check(v.len() == 1, "summaries of the same name and labels are merged");
    let got = match no_panic("asking for quantiles does not panic", || v[0].quantiles()) { Some(g) => g, None => return };
    for (t, w, x) in &seen {
        let mut found = false;
        for g in &got {
            found = found | (g.1 == *x);
        }
        check(found == inside(*t, *w, now), "a member's sample is used exactly while it is inside the member's window");
    }
    check(v[0].count() == 2, "the merged count covers every observation");
    check(v[0].sum() == 5.0, "the merged sum covers every observation");
    cover("end");
});

// C11: any samples and quantiles of two members
entry!(h_c11_merge {
    let mut gatherer = Gatherer::new();
    let mut qs = Vec::new();
    let mut obs = Vec::new();
    let mut ss = Vec::new();
    let mut sums = Vec::new();
    for i in 0..param("members", 2) {
        let mut builder = SummaryBuilder::new("a", Duration::from_secs(60));
        builder.label("l", "v").registry(gatherer.registry());
        for _ in 0..param("quantiles", 1) {
            let q = quantile("q");
            builder.quantile(q);
            qs.push(q);
        }
        let s = builder.finish().unwrap();
        let mut mine = Vec::new();
        for _ in 0..param(if i == 0 { "samples" } else { "samples of others" }, 1) {
            let x = f64_("x");
            s.observe(x);
            obs.push(x);
            mine.push(x);
        }
        sums.push(sum_of(&mine));
        ss.push(s);
    }
    let families = match no_panic("gathering does not panic", || gatherer.gather().into_vec()) { Some(f) => f, None => return };
    check(families.len() == 1, "there is one family");
    let v = match *families[0].metrics() { Metrics::Summary(ref v) => v, _ => return check(false, "the family is of summaries") };
    check(v.len() == 1, "summaries of the same name and labels are merged");
    let got = match no_panic("asking for merged quantiles does not panic", || v[0].quantiles()) { Some(g) => g, None => return };
    check_quantiles(&got, &qs, &obs);
    check(v[0].count() == obs.len() as u64, "the merged count is the total");
    if sums.len() == 2 {
        check(same_f64(v[0].sum(), sums[0] + sums[1]), "the merged sum is the total of the members' sums");
    }
    // gathering takes nothing away from the members
    for s in &ss {
        check(s.count() == 1 || param("samples", 1) != 1, "members keep their observations");
    }
    cover("end");
});

// C12: quantiles
entry!(h_c12_new {
    let x = f64_("x");
    let inside = (x >= 0.0) & (x <= 1.0);
    match no_panic("creating a quantile does not panic", || Quantile::new(x)) {
        Some(Ok(q)) => {
            check(inside, "an accepted quantile is from 0 to 1");
            check(q.as_f64().to_bits() == x.to_bits(), "a quantile reports the value it was given");
            cover("accepted");
        }
        Some(Err(e)) => {
            check(!inside, "a value from 0 to 1 is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        None => {}
    }
    cover("end");
});
entry!(h_c12_build {
    // one of the configured quantiles is arbitrary, the others are fine
    let x = f64_("x");
    let at = choose(3, "position");
    let mut builder = SummaryBuilder::new("a", Duration::from_secs(60));
    for i in 0..3 {
        builder.quantile(if i == at { x } else { [0.5, 0.0, 1.0][i] });
    }
    let inside = (x >= 0.0) & (x <= 1.0);
    match no_panic("building does not panic", || builder.finish()) {
        Some(Ok(_)) => { check(inside, "a summary with a quantile out of range is refused"); cover("built"); }
        Some(Err(e)) => {
            check(!inside, "a summary with quantiles in range is built");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        None => {}
    }
    cover("end");
});
entry!(h_c12_order {
    let (x, y) = (f64_("x"), f64_("y"));
    assume((x >= 0.0) & (x <= 1.0) & (y >= 0.0) & (y <= 1.0));
    let (p, q) = (Quantile::new(x).unwrap(), Quantile::new(y).unwrap());
    let want = if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal };
    let _ = no_panic("comparing quantiles does not panic", || {
        check(p.cmp(&q) == want, "quantiles are ordered by value");
        check(p.partial_cmp(&q) == Some(want), "the partial order agrees");
        check((p == q) == (x == y), "equality agrees with the value");
        check((p != q) == (x != y), "inequality agrees with the value");
        check((p < q) == (x < y), "less agrees with the value");
        check((p <= q) == (x <= y), "less or equal agrees with the value");
        check((p > q) == (x > y), "greater agrees with the value");
        check((p >= q) == (x >= y), "greater or equal agrees with the value");
        check(p.max(q).as_f64() >= x && p.max(q).as_f64() >= y, "the maximum is above both");
        check(p.min(q).as_f64() <= x && p.min(q).as_f64() <= y, "the minimum is below both");
    });
    cover("end");
});
/// how many samples are below and not above a value
fn ranks(v: f64, samples: &[f64]) -> (u64, u64) {
    let (mut below, mut upto) = (0u64, 0u64);
    for x in samples {
        below += (*x < v) as u64;
        upto += (*x <= v) as u64;
    }
    (below, upto)
}
// quantiles whose product with any number of samples up to 128 is not near an integer by rounding alone
const QS: [f64; 7] = [0.0, 0.125, 0.25, 0.5, 0.75, 0.9375, 1.0];
fn check_ranks(got: &[(Quantile, f64)], qs: &[f64], samples: &[f64]) {
    check(got.len() == qs.len(), "every configured quantile is reported");
    for (g, q) in got.iter().zip(qs) {
        check(g.0.as_f64() == *q, "quantiles are in increasing order");
        let rank = ((*q * samples.len() as f64).floor() as u64).min(samples.len() as u64 - 1);
        let (below, upto) = ranks(g.1, samples);
        check((below <= rank) & (rank < upto), "a quantile is the sample of rank floor(q*n)");
    }
}
// C09: many samples, one of them arbitrary; many quantiles
entry!(h_c09_many {
    let mut builder = SummaryBuilder::new("a", Duration::from_secs(60));
    for i in 0..QS.len() {
        builder.quantile(QS[i * 3 % QS.len()]);
    }
    let s = builder.finish().unwrap();
    let n = [param("samples", 20), 17][choose(2, "samples")];
    let mut obs = Vec::new();
    for i in 0..n {
        let x = if i == n / 3 { f64_("x") } else { ((i * 29) % 41) as f64 * 0.5 - 3.0 };
        if i == n / 3 {
            assume(!(x != x));
        }
        s.observe(x);
        obs.push(x);
    }
    let got = match no_panic("asking for quantiles does not panic", || s.quantiles()) { Some(g) => g, None => return };
    check_ranks(&got, &QS, &obs);
    check(s.count() == n as u64, "the count is the number of observations");
    cover("end");
});
// C10: many samples over time, looked at now and then, and at last at any time
entry!(h_c10_many {
    let w = 20u64;
    let mut builder = SummaryBuilder::new("a", Duration::new(w, 0));
    for q in EIGHTHS.iter() {
        builder.quantile(*q);
    }
    let s = builder.finish().unwrap();
    let n = param("samples", 48);
    let mut seen: Vec<(u64, f64)> = Vec::new();
    let mut sum = 0.0;
    let mut look = |seen: &[(u64, f64)], sum: f64, now: u64| {
        let got = match no_panic("asking for quantiles does not panic", || s.quantiles()) { Some(g) => g, None => return };
        let live: Vec<f64> = seen.iter().filter(|x| x.0 + w >= now).map(|x| x.1).collect();
        if live.is_empty() {
            check(got.is_empty(), "no quantile is reported without a sample");
            cover("all expired");
        } else {
            check_ranks(&got, &EIGHTHS, &live);
        }
        check(s.count() == seen.len() as u64, "the count covers every observation");
        check(s.sum() == sum, "the sum covers every observation");
    };
    let mut now = 5;
    for i in 0..n {
        now += (i * 3 % 4) as u64 / 2;
        set_real(now as i64, 0);
        let x = ((i * 31) % 53) as f64;
        s.observe(x);
        seen.push((now, x));
        sum += x;
        if i % 16 == 15 {
            look(&seen, sum, now);
        }
    }
    let then = now + below(64, "later");
    let then = concretize(then);
    set_real(then as i64, 0);
    look(&seen, sum, then);
    cover("end");
});
// C11: many members with many samples, one of them arbitrary
entry!(h_c11_many {
    let mut gatherer = Gatherer::new();
    let (members, each) = (param("members", 4), param("samples", 6));
    let (mut obs, mut ss, mut sum) = (Vec::new(), Vec::new(), 0.0);
    for i in 0..members {
        let mut builder = SummaryBuilder::new("a", Duration::from_secs(60 + i as u64));
        builder.label("l", "v").registry(gatherer.registry());
        for k in 0..2 {
            builder.quantile(QS[(i * 2 + k) % QS.len()]);
        }
        let s = builder.finish().unwrap();
        for k in 0..each - i {
            let x = if i == 1 && k == 4 { sgrid("x", 10, 2) } else { ((i * 19 + k * 29) % 83) as f64 * 0.5 - 9.0 };
            s.observe(x);
            obs.push(x);
            sum += x;
        }
        ss.push(s);
    }
    let families = gatherer.gather().into_vec();
    check(families.len() == 1, "there is one family");
    let v = match *families[0].metrics() { Metrics::Summary(ref v) => v, _ => return check(false, "the family is of summaries") };
    check(v.len() == 1, "summaries of the same name and labels are merged");
    let got = match no_panic("asking for merged quantiles does not panic", || v[0].quantiles()) { Some(g) => g, None => return };
    check_ranks(&got, &QS, &obs);
    check(v[0].count() == obs.len() as u64, "the merged count is the total");
    check(v[0].sum() == sum, "the merged sum is the total of the members' sums");
    for (i, s) in ss.iter().enumerate() {
        check(s.count() == (each - i) as u64, "members keep their observations");
    }
    cover("end");
});
