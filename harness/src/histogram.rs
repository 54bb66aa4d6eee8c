//! C06, C07, C08: histograms.
use crate::rt::*;
use prometrics::metric::Metrics;
use prometrics::metrics::*;
use prometrics::{ErrorKind, Gatherer};

const INF: f64 = f64::INFINITY;

fn bounds(n: usize, name: &str) -> Vec<f64> {
    (0..n).map(|_| f64_(name)).collect()
}
/// how many of the values are <= bound
fn at_most(v: &[f64], bound: f64) -> u64 {
    let mut n = 0;
    for x in v {
        n += (*x <= bound) as u64;
    }
    n
}
fn check_counts(h: &Histogram, obs: &[f64]) {
    let mut prev = 0;
    let mut last = None;
    let mut n = 0;
    for b in h.cumulative_buckets() {
        check(b.cumulative_count() == at_most(obs, b.upper_bound()), "a cumulative count is the number of observations not above the bound");
        check(b.cumulative_count() >= prev, "cumulative counts never decrease");
        prev = b.cumulative_count();
        last = Some(b);
        n += 1;
    }
    match last {
        Some(b) => {
            check(b.upper_bound() == INF, "the last bucket is +Inf");
            check(b.cumulative_count() == h.count(), "the +Inf bucket equals the total count");
        }
        None => check(false, "there are buckets"),
    }
    check(n == h.buckets().len(), "cumulative buckets match the buckets");
    check(h.count() == obs.len() as u64, "the count is the number of observations");
    let mut sum = 0.0;
    for x in obs {
        sum = sum + *x;
    }
    check(same_f64(h.sum(), sum), "the sum is the sum of the observations");
}

// C06: any bounds, any observations
entry!(h_c06_counts {
    let bs: Vec<f64> = (0..param("bounds", 2)).map(|_| number_in("bound")).collect();
    let mut builder = HistogramBuilder::new("a");
    builder.buckets(bs.clone());
    let h = builder.finish().unwrap();
    let g = h.clone();
    let mut obs = Vec::new();
    for _ in 0..param("obs", 2) {
        let x = number_in("x");
        let _ = no_panic("observing does not panic", || h.observe(x));
        obs.push(x);
    }
    check_counts(&g, &obs);
    cover("end");
});
// C06: a NaN is refused and changes nothing, before and after a proper observation
entry!(h_c06_nan {
    let bs = bounds(1, "bound");
    assume(!(bs[0] != bs[0]));
    let mut builder = HistogramBuilder::new("a");
    builder.buckets(bs);
    let h = builder.finish().unwrap();
    let x = f64_("x");
    assume(!(x != x));
    let when = flag("nan first");
    let mut obs = Vec::new();
    if !when {
        h.observe(x);
        obs.push(x);
    }
    let n = f64_("nan");
    assume(n != n);
    let r = catch(|| h.observe(n));
    check(r.is_none(), "a NaN observation is refused");
    check_counts(&h, &obs);
    if when {
        let _ = no_panic("observing does not panic", || h.observe(x));
        obs.push(x);
        check_counts(&h, &obs);
    }
    cover("end");
});
// C06: bounds on every side of the observations, more of them
entry!(h_c06_order {
    // strictly increasing bounds, so that only the search is explored
    let n = param("bounds", 5);
    let mut builder = HistogramBuilder::new("a");
    for i in 0..n {
        builder.bucket(i as f64);
    }
    let h = builder.finish().unwrap();
    let mut obs = Vec::new();
    for _ in 0..param("obs", 2) {
        let x = f64_("x");
        assume(!(x != x));
        let _ = no_panic("observing does not panic", || h.observe(x));
        obs.push(x);
    }
    check_counts(&h, &obs);
    cover("end");
});

/// the distinct requested bounds, strictly increasing, with +Inf last
fn check_bounds(h: &Histogram, want: &[f64]) {
    let b = h.buckets();
    for i in 1..b.len() {
        check(b[i - 1].upper_bound() < b[i].upper_bound(), "bounds are strictly increasing");
    }
    match b.last() {
        Some(l) => check(l.upper_bound() == INF, "+Inf is last"),
        None => check(false, "there are buckets"),
    }
    for w in want {
        let mut n = 0;
        for x in b {
            n += (x.upper_bound() == *w) as u32;
        }
        check(n == 1, "every requested bound is present exactly once");
    }
    for x in b {
        let mut found = x.upper_bound() == INF;
        for w in want {
            found = found | (x.upper_bound() == *w);
        }
        check(found, "no other bound is present");
    }
    let mut m = 0;
    for (x, y) in h.cumulative_buckets().zip(b) {
        check(same_f64(x.upper_bound(), y.upper_bound()), "cumulative buckets have the same bounds");
        m += 1;
    }
    check(m == b.len(), "cumulative buckets have the same bounds");
}

// C07: requested bounds, any bit patterns
entry!(h_c07_build {
    let n = param("bounds", 3);
    let bs = bounds(n, "bound");
    let mut nan = false;
    for b in &bs {
        nan = nan | (*b != *b);
    }
    let mut builder = HistogramBuilder::new("a");
    match choose(3, "how") {
        0 => { builder.buckets(bs.clone()); }
        1 => {
            for b in &bs {
                builder.bucket(*b);
            }
        }
        _ => {
            if n > 0 {
                builder.bucket(bs[0]);
                builder.buckets(bs[1..].to_vec());
            }
        }
    }
    match no_panic("building does not panic", || builder.finish()) {
        Some(Ok(h)) => {
            check(!nan, "a NaN bound is refused");
            check_bounds(&h, &bs);
            cover("built");
        }
        Some(Err(e)) => {
            check(nan, "bounds without NaN are accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        None => {}
    }
    cover("end");
});
// C07: linear buckets, on a grid where start + i*width is exact
entry!(h_c07_linear {
    let (start, width) = (sgrid("start", param("bits", 12) as u32, 4), sgrid("width", param("bits", 12) as u32, 4));
    let n = choose(param("count", 4), "count");
    let want: Vec<f64> = (0..n).map(|i| start + i as f64 * width).collect();
    let h = match no_panic("building does not panic", || HistogramBuilder::with_linear_buckets("a", start, width, n).finish()) {
        Some(Ok(h)) => h,
        Some(Err(e)) => { std::mem::forget(e); return check(false, "linear buckets build"); }
        None => return,
    };
    check_bounds(&h, &want);
    cover("end");
});
// C07: linear buckets of any start and width: the first two bounds
entry!(h_c07_linear_any {
    let (start, width) = (f64_("start"), f64_("width"));
    let n = 1 + choose(2, "count");
    let second = start + width;
    assume(!(start != start) & !(second != second) & (start != INF));
    assume((width > 0.0) & (width != INF) & (start != -INF));
    let h = match no_panic("building does not panic", || HistogramBuilder::with_linear_buckets("a", start, width, n).finish()) {
        Some(Ok(h)) => h,
        Some(Err(e)) => { std::mem::forget(e); return check(false, "linear buckets build"); }
        None => return,
    };
    check(h.buckets()[0].upper_bound() == start, "the first linear bound is the start");
    if n == 2 && h.buckets().len() == 3 {
        check(h.buckets()[1].upper_bound() == second, "the second linear bound is start + width");
    }
    cover("end");
});
// C07: exponential buckets, on a grid where start * factor^i is exact
entry!(h_c07_exponential {
    let start = sgrid("start", param("start bits", 8) as u32, 3);
    // telling factors, or (with the parameter) any on a grid
    let factor = match param("factor bits", 0) {
        0 => [2.0, 0.5, 1.0, 1.5, 10.0, 0.0][choose(6, "factor")],
        b => grid("factor", b as u32, 2),
    };
    let n = choose(param("count", 4), "count");
    let mut want = Vec::new();
    let mut p = 1.0;
    for _ in 0..n {
        want.push(start * p);
        p = p * factor;
    }
    let h = match no_panic("building does not panic", || HistogramBuilder::with_exponential_buckets("a", start, factor, n).finish()) {
        Some(Ok(h)) => h,
        Some(Err(e)) => { std::mem::forget(e); return check(false, "exponential buckets build"); }
        None => return,
    };
    check_bounds(&h, &want);
    cover("end");
});

// C08: histograms of the same name and labels, gathered
entry!(h_c08_merge {
    let members = param("members", 2);
    let nb = param("bounds", 2);
    let mut gatherer = Gatherer::new();
    let registry = gatherer.registry();
    let mut hs = Vec::new();
    let mut obs = Vec::new();
    for i in 0..members {
        let bs: Vec<f64> = (0..if i < 2 { nb } else { 1 }).map(|_| number_in("bound")).collect();
        let mut builder = HistogramBuilder::new("a");
        builder.label("l", "v").buckets(bs).registry(registry.clone());
        let h = builder.finish().unwrap();
        for _ in 0..param("obs", 1) {
            let x = number_in("x");
            h.observe(x);
            obs.push(x);
        }
        hs.push(h);
    }
    let families = match no_panic("gathering does not panic", || gatherer.gather().into_vec()) { Some(f) => f, None => return };
    check(families.len() == 1, "there is one family");
    let v = match *families[0].metrics() { Metrics::Histogram(ref v) => v, _ => return check(false, "the family is of histograms") };
    check(v.len() == 1, "histograms of the same name and labels are merged");
    let m = &v[0];
    // the distinct bounds of the members
    let mut prev: Option<f64> = None;
    let mut got = Vec::new();
    let mut last_count = 0;
    let it = m.cumulative_buckets();
    for b in it {
        let ub = b.upper_bound();
        if let Some(p) = prev {
            check(p < ub, "merged bounds are strictly increasing");
        }
        prev = Some(ub);
        let mut want = 0;
        let mut known = false;
        for h in &hs {
            for x in h.buckets() {
                known = known | (x.upper_bound() == ub);
                want += if x.upper_bound() <= ub { x.count() } else { 0 };
            }
        }
        check(known, "a merged bound is a bound of a member");
        check(b.cumulative_count() == want, "a merged cumulative count is the total of the members' buckets up to the bound");
        last_count = b.cumulative_count();
        got.push(ub);
        if got.len() > members * (nb + 1) {
            return check(false, "there are no more merged bounds than bounds");
        }
    }
    check(prev == Some(INF), "the last merged bound is +Inf");
    for h in &hs {
        for x in h.buckets() {
            let mut found = false;
            for g in &got {
                found = found | (*g == x.upper_bound());
            }
            check(found, "every member's bound is listed");
        }
    }
    check(m.count() == obs.len() as u64, "the merged count is the total count");
    check(last_count == m.count(), "the merged +Inf bucket equals the merged count");
    let mut sum = 0.0;
    let per = param("obs", 1);
    // the order of the members is the gatherer's choice: with a single observation each any order is a sum
    if members == 2 {
        let mut s = [0.0; 2];
        for (i, x) in obs.iter().enumerate() {
            s[i / per.max(1)] = s[i / per.max(1)] + *x;
        }
        sum = s[0] + s[1];
        check(same_f64(m.sum(), sum), "the merged sum is the total of the members' sums");
    }
    trace_f64(sum, "sum");
    trace(got.len() as u64, "bounds");
    cover("end");
});
/// bounds in no order, some of them twice
fn scattered(n: usize) -> Vec<f64> {
    (0..n).map(|i| ((i * 17) % n) as f64 * 0.5 - if i % 9 == 4 { 0.5 } else { 0.0 }).collect()
}
// C06: many bounds and observations, one of each arbitrary
entry!(h_c06_many {
    let n = param("bounds", 16);
    let mut bs = scattered(n);
    let what = choose(2, "what is arbitrary");
    if what == 0 {
        bs[n / 3] = number_in("bound");
    }
    let mut builder = HistogramBuilder::new("a");
    builder.buckets(bs);
    let h = builder.finish().unwrap();
    let mut obs = Vec::new();
    let m = param("obs", 20);
    for i in 0..m {
        let x = if i == m / 2 && what == 1 { sgrid("x", 12, 3) } else { ((i * 23) % 31) as f64 * 0.75 - 1.0 };
        h.observe(x);
        obs.push(x);
    }
    check_counts(&h, &obs);
    cover("end");
});
entry!(h_c06_many_obs {
    let n = param("bounds", 40);
    let mut builder = HistogramBuilder::new("a");
    for b in scattered(n) {
        builder.bucket(b);
    }
    let h = builder.finish().unwrap();
    let x = f64_("x");
    assume(!(x != x));
    h.observe(x);
    check_counts(&h, &[x]);
    cover("end");
});
// C07: many bounds
entry!(h_c07_many {
    let n = param("bounds", 16);
    let x = f64_("bound");
    let mut bs = scattered(n);
    bs[[0, n / 2, n - 1][choose(3, "position")]] = x;
    let mut builder = HistogramBuilder::new("a");
    if flag("one by one") {
        for b in &bs {
            builder.bucket(*b);
        }
    } else {
        builder.buckets(bs[..n / 2].to_vec());
        builder.buckets(bs[n / 2..].to_vec());
    }
    match no_panic("building does not panic", || builder.finish()) {
        Some(Ok(h)) => {
            check(!(x != x), "a NaN bound is refused");
            check_bounds(&h, &bs);
        }
        Some(Err(e)) => {
            check(x != x, "bounds without NaN are accepted");
            std::mem::forget(e);
        }
        None => {}
    }
    cover("end");
});
// C07: many generated bounds
entry!(h_c07_generated {
    let n = param("count", 40);
    let k = choose(3, "step");
    let start = [0.25, -7.5, 100.0][choose(3, "start")];
    let (h, want) = if flag("linear") {
        let w = [0.5, 3.0, 1e-3][k];
        (no_panic("building does not panic", || HistogramBuilder::with_linear_buckets("a", start, w, n).finish()), (0..n).map(|i| start + w * i as f64).collect::<Vec<f64>>())
    } else {
        let f = [2.0f64, 0.5, 4.0][k];
        (no_panic("building does not panic", || HistogramBuilder::with_exponential_buckets("a", start, f, n).finish()), (0..n).map(|i| start * f.powi(i as i32)).collect())
    };
    match h {
        Some(Ok(h)) => check_bounds(&h, &want),
        Some(Err(e)) => { std::mem::forget(e); check(false, "generated buckets build") }
        None => {}
    }
    cover("end");
});
// C08: many members with many bounds and observations, one of each arbitrary
entry!(h_c08_many {
    let (members, nb, no) = (param("members", 6), param("bounds", 8), param("obs", 6));
    let mut gatherer = Gatherer::new();
    let registry = gatherer.registry();
    let mut hs = Vec::new();
    let mut obs = Vec::new();
    let what = choose(2, "what is arbitrary");
    for i in 0..members {
        let mut bs: Vec<f64> = (0..nb).map(|k| ((i * 5 + k * 7) % 19) as f64).collect();
        if i == members / 2 && what == 0 {
            bs[nb / 2] = f64_("bound");
            assume(!(bs[nb / 2] != bs[nb / 2]));
        }
        let mut builder = HistogramBuilder::new("a");
        builder.label("l", "v").buckets(bs).registry(registry.clone());
        let h = builder.finish().unwrap();
        for k in 0..no {
            let x = if i == members / 2 && k == no / 2 && what == 1 { sgrid("x", 12, 3) } else { ((i * 11 + k * 13) % 47) as f64 * 0.5 };
            h.observe(x);
            obs.push(x);
        }
        hs.push(h);
    }
    let families = gatherer.gather().into_vec();
    check(families.len() == 1, "there is one family");
    let v = match *families[0].metrics() { Metrics::Histogram(ref v) => v, _ => return check(false, "the family is of histograms") };
    check(v.len() == 1, "histograms of the same name and labels are merged");
    let m = &v[0];
    let mut got: Vec<(f64, u64)> = Vec::new();
    for b in m.cumulative_buckets() {
        got.push((b.upper_bound(), b.cumulative_count()));
        if got.len() > members * (nb + 1) {
            return check(false, "there are no more merged bounds than bounds");
        }
    }
    for i in 0..got.len() {
        let (ub, n) = got[i];
        if i > 0 {
            check(got[i - 1].0 < ub, "merged bounds are strictly increasing");
        }
        let (mut want, mut known) = (0, false);
        for h in &hs {
            for x in h.buckets() {
                known = known | (x.upper_bound() == ub);
                want += (x.upper_bound() <= ub) as u64 * x.count();
            }
        }
        check(known, "a merged bound is a bound of a member");
        check(n == want, "a merged cumulative count is the total of the members' buckets up to the bound");
    }
    for h in &hs {
        for x in h.buckets() {
            let mut found = false;
            for g in &got {
                found = found | (g.0 == x.upper_bound());
            }
            check(found, "every member's bound is listed");
        }
    }
    let mut sum = 0.0;
    for x in &obs {
        sum += *x;
    }
    check(m.sum() == sum, "the merged sum is the total of the members' sums");
    check(m.count() == obs.len() as u64, "the merged count is the total count");
    check(got.last().map_or(false, |l| l.0 == INF && l.1 == m.count()), "the merged +Inf bucket equals the merged count");
    cover("end");
});
