//! Long histories and large sizes: fixed ones, with something arbitrary in or after them.
use crate::names::*;
use crate::rt::*;
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::{Collect, Gatherer};
use std::cell::Cell;
use std::rc::Rc;
use std::time::Duration;

// C02, C01: very many updates, then an arbitrary one
entry!(h_c02_long {
    let c = Counter::new("n").unwrap();
    let d = c.clone();
    let n = param("updates", 70_000);
    let (mut want, mut last) = (0.0, 0.0);
    for i in 0..n {
        let c = if i % 5 < 3 { &c } else { &d };
        match i % 7 {
            0 => {
                check(c.add(0.25).is_ok(), "an addition is accepted");
                want += 0.25;
            }
            1 => {
                c.add_u64((i % 11) as u64);
                want += (i % 11) as f64;
            }
            2 => {
                check(c.add((i % 3) as f64).is_ok(), "an addition is accepted");
                want += (i % 3) as f64;
            }
            _ => {
                c.increment();
                want += 1.0;
            }
        }
        if i % 8 == 7 || i % 256 < 3 {
            let v = d.value();
            check(v == want, "the value is the sum of the updates");
            check(v >= last, "the value never goes down");
            last = v;
        }
    }
    match choose(3, "last update") {
        0 => {
            let x = sym(40, "count");
            c.add_u64(x);
            want += x as f64;
        }
        1 => {
            let x = grid("amount", 40, 10);
            check(c.add(x).is_ok(), "an addition is accepted");
            want += x;
        }
        _ => {
            c.increment();
            want += 1.0;
        }
    }
    check(d.value() == want, "the value is the sum of the updates");
    check(c.value() == want, "clones read the same");
    cover("end");
});

// C03: very many updates, with an arbitrary value set before the end
entry!(h_c03_long {
    let mut b = GaugeBuilder::new("n");
    b.initial_value(-3.5);
    let g = b.finish().unwrap();
    let h = g.clone();
    let n = param("updates", 70_000);
    let mut want = -3.5;
    for i in 0..n {
        let g = if i % 3 == 1 { &g } else { &h };
        match i % 6 {
            0 => {
                g.add(0.25);
                want += 0.25;
            }
            1 => {
                g.subtract((i % 13) as f64);
                want -= (i % 13) as f64;
            }
            2 => {
                g.decrement();
                want -= 1.0;
            }
            3 if i % 1000 == 3 => {
                g.set(i as f64);
                want = i as f64;
            }
            4 if i % 100 == 4 => {
                let r = g.track_inprogress(|| {
                    check(h.value() == want + 1.0, "one more while the code runs");
                    i
                });
                check(r == i, "the result is returned");
            }
            _ => {
                g.increment();
                want += 1.0;
            }
        }
        if i % 8 == 7 || i % 256 < 3 {
            check(h.value() == want, "the value follows the updates");
        }
    }
    let x = f64_("value");
    h.set(x);
    check(same_f64(g.value(), x), "the value reads back");
    g.add(1.5);
    check(same_f64(h.value(), x + 1.5), "the addition counts");
    cover("end");
});

// C06: very many observations, then an arbitrary one
entry!(h_c06_long {
    const B: [f64; 5] = [-1.0, 0.0, 0.5, 7.0, 1e9];
    let mut b = HistogramBuilder::new("n");
    for x in B.iter() {
        b.bucket(*x);
    }
    let h = b.finish().unwrap();
    let o = h.clone();
    let n = param("observations", 70_000);
    let mut want = [0u64; 6];
    let mut sum = 0.0;
    for i in 0..=n {
        let x = if i == n {
            let x = f64_("x");
            assume(!(x != x));
            x
        } else if i % 3 == 0 {
            0.5
        } else {
            ((i * 7) % 41) as f64 * 0.25 - 2.0
        };
        o.observe(x);
        sum += x;
        for (k, b) in B.iter().enumerate() {
            want[k] += (x <= *b) as u64;
        }
        want[5] += 1;
        if i % 1024 == 255 || i >= n - 1 {
            for (k, c) in h.cumulative_buckets().enumerate() {
                check(k < 6 && c.cumulative_count() == want[k], "the cumulative count is the number of observations up to the bound");
            }
            check(h.count() == i as u64 + 1, "the count is the number of observations");
            check(same_f64(h.sum(), sum), "the sum is the sum of the observations");
        }
    }
    cover("end");
});

// C07: very many generated buckets
entry!(h_c07_long {
    let n = [param("count", 1000), 65][choose(2, "count")];
    let form = choose(7, "form");
    // the bounds and how far they may be off, relatively
    let (start, step) = [(-3.5, 0.25), (1e6, -8.0), (0.75, 2.0), (1e3, 0.5), (-1.5, -2.0), (0.1, 1.01), (1.0, 10.0)][form];
    let h = if form < 2 { HistogramBuilder::with_linear_buckets("a", start, step, n) } else { HistogramBuilder::with_exponential_buckets("a", start, step, n) };
    let h = match no_panic("building does not panic", || h.finish()) {
        Some(Ok(h)) => h,
        Some(Err(e)) => { std::mem::forget(e); return check(false, "generated buckets build"); }
        None => return,
    };
    let mut want = Vec::new();
    let mut p = 1.0;
    for i in 0..n {
        want.push(if form < 2 { start + i as f64 * step } else { start * p });
        p *= step;
    }
    want.push(f64::INFINITY);
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    want.dedup();
    let got = h.buckets();
    check(got.len() == want.len(), "each distinct requested bound once, and +Inf");
    let (mut last, mut k) = (f64::NEG_INFINITY, 0);
    for b in got {
        let (x, w) = (b.upper_bound(), want[k]);
        check(k == 0 || last < x, "bounds strictly increase");
        check(x == w || form >= 5 && (x - w).abs() <= w.abs() * 1e-9, "the bounds are those described");
        last = x;
        k += 1;
    }
    cover("end");
});

// C08: a gathering of many histograms with the same name and labels
entry!(h_c08_long {
    let mut g = Gatherer::new();
    let n = param("members", 70);
    let mut hs = Vec::new();
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let mut per: Vec<(f64, u64)> = Vec::new();
    let (mut total, mut sum) = (0u64, 0.0);
    for i in 0..n {
        let mut b = HistogramBuilder::new("h");
        b.label("k", "v").registry(g.registry());
        let bounds = [(i % 9) as f64, 3.0, (i % 4) as f64 * 2.5];
        for x in bounds.iter() {
            b.bucket(*x);
        }
        let h = b.finish().unwrap();
        for k in 0..1 + i % 5 {
            let x = if i == at && k == 0 {
                let x = sgrid("x", 10, 4);
                x
            } else {
                ((i * 5 + k * 3) % 12) as f64 - 0.5
            };
            h.observe(x);
            total += 1;
            sum += x;
        }
        for b in h.buckets() {
            match per.iter_mut().find(|p| p.0 == b.upper_bound()) {
                Some(p) => p.1 += b.count(),
                None => {
                    per.push((b.upper_bound(), b.count()));
                }
            }
        }
        hs.push(h);
    }
    per.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let f = g.gather().into_vec();
    check(f.len() == 1, "one family");
    match f[0].metrics() {
        Metrics::Histogram(v) => {
            check(v.len() == 1, "one entry");
            let (mut i, mut sofar) = (0, 0);
            for b in v[0].cumulative_buckets() {
                check(i < per.len() && b.upper_bound() == per[i].0, "every distinct bound once, in order");
                sofar += per[i].1;
                check(b.cumulative_count() == sofar, "the cumulative count is the total of the members' buckets up to the bound");
                i += 1;
            }
            check(i == per.len(), "every distinct bound once, in order");
            check(sofar == total, "the last count is the total");
            check(v[0].count() == total, "the merged count is the total");
            check(v[0].sum() == sum, "the merged sum is the total");
        }
        _ => check(false, "the family is of histograms"),
    }
    cover("end");
});

// C09, C10: very many samples, some of them expired at an arbitrary time
const TENTHS: [f64; 6] = [0.0, 0.125, 0.5, 0.75, 0.96875, 1.0];
fn ranked(got: &[(prometrics::quantile::Quantile, f64)], mut live: Vec<f64>) {
    if live.is_empty() {
        return check(got.is_empty(), "no quantile is reported without a sample");
    }
    live.sort_by(|a, b| a.partial_cmp(b).unwrap());
    check(got.len() == TENTHS.len(), "every configured quantile is reported");
    for (g, q) in got.iter().zip(TENTHS.iter()) {
        check(g.0.as_f64() == *q, "quantiles are in increasing order");
        let rank = ((*q * live.len() as f64).floor() as usize).min(live.len() - 1);
        check(g.1 == live[rank], "a quantile is the sample of rank floor(q*n)");
    }
}
entry!(h_c10_long {
    let n = param("samples", 5000);
    let w = n as u64 / 2;
    let mut b = SummaryBuilder::new("s", Duration::from_secs(w));
    for q in TENTHS.iter() {
        b.quantile(*q);
    }
    let s = b.finish().unwrap();
    let (mut now, mut sum) = (0u64, 0.0);
    let mut seen: Vec<(u64, f64)> = Vec::new();
    // at first all at once, then one in every second
    for i in 0..2 * n {
        if i > n {
            now += 1;
        }
        set_real(now as i64, 0);
        let x = ((i * 7919) % 10007) as f64;
        s.observe(x);
        seen.push((now, x));
        sum += x;
        if i == n || i == n + n / 4 {
            ranked(&s.quantiles(), seen.iter().filter(|x| x.0 + w >= now).map(|x| x.1).collect());
        }
    }
    let late = concretize(below(8, "later"));
    now += [0, 1, 2, w / 2, w - 1, w, w + 1, 10 * w][late as usize];
    set_real(now as i64, 0);
    ranked(&s.quantiles(), seen.iter().filter(|x| x.0 + w >= now).map(|x| x.1).collect());
    check(s.count() == 2 * n as u64, "the count covers every observation");
    check(s.sum() == sum, "the sum covers every observation");
    cover("end");
});

// C11: large members
entry!(h_c11_long {
    let mut g = Gatherer::new();
    let (members, n) = (param("members", 5), param("samples", 1500));
    let (mut all, mut sum) = (Vec::new(), 0.0);
    let mut ss = Vec::new();
    // one of them is mostly expired
    let old = choose(members + 1, "expired");
    for m in 0..members {
        let mut b = SummaryBuilder::new("s", Duration::from_secs(100));
        b.label("k", "v").registry(g.registry());
        for (i, q) in TENTHS.iter().enumerate() {
            if i % members == m || i % 2 == m % 2 {
                b.quantile(*q);
            }
        }
        let s = b.finish().unwrap();
        for i in 0..n {
            let expired = m == old && i < n - 7;
            set_real(if expired { 1000 } else { 1200 }, 0);
            let x = ((i * 7919 + m * 31) % 10007) as f64;
            s.observe(x);
            sum += x;
            if !expired {
                all.push(x);
            }
        }
        ss.push(s);
    }
    let f = g.gather().into_vec();
    check(f.len() == 1, "one family");
    match f[0].metrics() {
        Metrics::Summary(v) => {
            check(v.len() == 1, "one entry");
            ranked(&v[0].quantiles(), all);
            check(v[0].count() == (members * n) as u64, "the merged count is the total");
            check(v[0].sum() == sum, "the merged sum is the total");
        }
        _ => check(false, "the family is of summaries"),
    }
    cover("end");
});

fn numbered(p: &str, i: usize) -> String {
    let d = [b'0' + (i / 100 % 10) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
    [p, std::str::from_utf8(&d).unwrap()].concat()
}
// C15, C26: hundreds of labels, changed while they are iterated
entry!(h_c15_long {
    let kind = choose(KINDS, "kind");
    let n = param("labels", 150);
    let names: Vec<String> = (0..n).map(|i| numbered("l", i)).collect();
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let v = { let c = sym(7, "value") as u8; unsafe { String::from_utf8_unchecked(vec![c]) } };
    let mut s = Spec { name: "n", ..Spec::default() };
    for i in 0..n / 3 {
        s.labels.push((&names[i * 37 % n], "b"));
    }
    let mut m = build(kind, &s).unwrap();
    let mut other = m.clone();
    for i in n / 3..n {
        check((if i % 2 == 0 { &mut m } else { &mut other }).insert(&names[i * 37 % n], "b").is_ok(), "a good label is accepted");
    }
    check(m.labels().len() == n, "the length is the number of names");
    let mut i = 0;
    for l in m.labels().iter() {
        if i % 16 == 5 {
            other.remove(&names[n - 1 - i]);
        }
        if i == n / 4 {
            check(other.insert(&names[at], &v).is_ok(), "a good label is accepted");
        }
        check(i < n && l.name() == names[i] && l.value() == "b", "an iteration lists the labels from before the changes, in order");
        i += 1;
    }
    check(i == n, "an iteration lists the labels from before the changes, in order");
    let gone = |k: usize| (n - 1 - k) % 16 == 5 && !(k == at && (n - 1 - k) < n / 4);
    let mut left = 0;
    for (k, name) in names.iter().enumerate() {
        let want: &str = if k == at { &v } else { "b" };
        match m.labels().get(name) {
            Some(l) => check(!gone(k) & same(l.value(), want), "lookup finds the label with the value given last"),
            None => check(gone(k), "lookup finds every label"),
        }
        left += !gone(k) as usize;
    }
    check(m.labels().len() == left, "the length is the number of names");
    other.clear();
    check(m.labels().is_empty(), "clearing removes every label");
    cover("end");
});

// C19, C22: hundreds of metrics, all waiting for the first gathering
entry!(h_c19_long {
    let n = param("metrics", 400);
    let mut g = Gatherer::new();
    let mut ms: Vec<Any> = Vec::new();
    let names: Vec<String> = (0..n).map(|i| numbered("m", i)).collect();
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let x = sym(40, "value");
    // every third name has a counter with each of three labels, the others one gauge
    for i in 0..n {
        let k = i * 137 % n;
        let kinds = if k % 3 == 0 { 3 } else { 1 };
        for j in 0..kinds {
            let mut s = Spec { name: &names[k], registries: vec![g.registry()], ..Spec::default() };
            if k % 3 == 0 {
                s.labels.push(("l", ["c", "a", "b"][j]));
            }
            let m = build(if k % 3 == 0 { 0 } else { 1 }, &s).unwrap();
            let v = if k == at { x } else { k as u64 };
            match &m {
                Any::C(c) => c.add_u64(v),
                Any::G(g) => g.set(v as f64),
                _ => {}
            }
            ms.push(m);
        }
    }
    let dropped = flag("dropped");
    for round in 0..2 {
        let f = g.gather().into_vec();
        let keep = |k: usize| round == 0 || !dropped || k % 7 != 2;
        check(f.len() == (0..n).filter(|k| keep(*k)).count(), "one family per name and kind");
        let mut k = 0;
        for f in &f {
            while !keep(k) {
                k += 1;
            }
            check(f.name().name() == names[k], "families are in the order of their names");
            let v = (if k == at { x } else { k as u64 }) as f64;
            match f.metrics() {
                Metrics::Counter(c) => {
                    check(k % 3 == 0 && c.len() == 3, "one entry per distinct label set");
                    for (c, l) in c.iter().zip(["a", "b", "c"].iter()) {
                        check(c.labels().get("l").map_or(false, |x| x.value() == *l), "entries are in the order of their labels");
                        check(c.value() == v, "an entry has its metric's value");
                    }
                }
                Metrics::Gauge(c) => {
                    check(k % 3 != 0 && c.len() == 1, "one entry per distinct label set");
                    check(c[0].value() == v, "an entry has its metric's value");
                }
                _ => check(false, "a family has its metrics' kind"),
            }
            k += 1;
        }
        if round == 0 && dropped {
            // their order is that of the creation: drop those of some names
            let mut rest = Vec::new();
            for m in ms.drain(..) {
                let k = names.iter().position(|n| *n == m.name().name()).unwrap();
                if k % 7 != 2 {
                    rest.push(m);
                }
            }
            ms = rest;
        }
    }
    cover("end");
});

// C21: hundreds of collectors and gatherings
struct Ending {
    calls: Rc<Cell<usize>>,
    ends: usize,
    metric: Metric,
}
unsafe impl Send for Ending {}
impl Collect for Ending {
    type Metrics = std::option::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.ends {
            None
        } else {
            Some(Some(self.metric.clone()).into_iter())
        }
    }
}
entry!(h_c21_long {
    let (n, rounds) = (param("collectors", 100), param("gatherings", 60));
    let mut g = Gatherer::new();
    let r = g.registry();
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let life = concretize(below(4, "ends after")) as usize;
    let (mut calls, mut ends) = (Vec::new(), Vec::new());
    for i in 0..n {
        let c = Rc::new(Cell::new(0));
        let e = if i == at { [0, 1, rounds / 2, rounds + 5][life] } else { (i * 53) % (rounds + 10) };
        r.register(Ending { calls: c.clone(), ends: e, metric: Counter::new(&numbered("c", i)).unwrap().into() });
        calls.push(c);
        ends.push(e);
    }
    for t in 1..=rounds {
        let f = g.gather().into_vec();
        let mut k = 0;
        for i in 0..n {
            check(calls[i].get() == t.min(ends[i] + 1), "a collector is asked once per gathering until it has ended");
            if t <= ends[i] {
                check(k < f.len() && f[k].name().name() == numbered("c", i), "the metrics of the collectors that have not ended are gathered");
                k += 1;
            }
        }
        check(k == f.len(), "nothing else is gathered");
    }
    cover("end");
});
// C21: very many gatherings
entry!(h_c21_rounds {
    let n = param("gatherings", 3000);
    let mut g = Gatherer::new();
    let mut ms: Vec<Option<Any>> = (0..4).map(|k| Some(build(k, &Spec { name: ["a", "b", "c", "d"][k], registries: vec![g.registry()], ..Spec::default() }).unwrap())).collect();
    let gone = choose(4, "dropped");
    let at = [300, n - 2][choose(2, "when")];
    let mut short = Vec::new();
    for t in 0..n {
        if t == at {
            ms[gone] = None;
        }
        // metrics come and go
        if t % 16 == 3 {
            short.push(build(1, &Spec { name: "s", registries: vec![g.registry()], ..Spec::default() }).unwrap());
        }
        if t % 64 == 60 {
            short.clear();
        }
        let f = g.gather().into_vec();
        let mut k = 0;
        for i in 0..4 {
            if ms[i].is_some() {
                check(k < f.len() && f[k].name().name() == ["a", "b", "c", "d"][i], "a live metric is gathered");
                k += 1;
            }
        }
        if !short.is_empty() {
            check(k < f.len() && f[k].name().name() == "s", "a live metric is gathered");
            k += 1;
        }
        check(k == f.len(), "a dropped metric is not gathered");
    }
    cover("end");
});

// C31, C22: a builder used very many times
entry!(h_c31_long {
    let kind = choose(KINDS, "kind");
    let n = param("metrics", 300);
    let mut g = Gatherer::new();
    let (mut c, mut gb, mut h, mut s) = (CounterBuilder::new("n"), GaugeBuilder::new("n"), HistogramBuilder::new("n"), SummaryBuilder::new("n", Duration::from_secs(9)));
    macro_rules! set {
        ($b:expr) => {
            $b.namespace("a").help("h").label("k", "v").registry(g.registry());
        };
    }
    set!(c);
    set!(gb);
    set!(h);
    set!(s);
    gb.initial_value(2.5);
    h.bucket(1.0);
    s.quantile(0.5);
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let x = sym(40, "value");
    let mut ms = Vec::new();
    for i in 0..n {
        let mut m = match kind {
            0 => Any::C(c.finish().unwrap()),
            1 => Any::G(gb.finish().unwrap()),
            2 => Any::H(h.finish().unwrap()),
            _ => Any::S(s.finish().unwrap()),
        };
        check(m.help() == Some("h") && m.name().namespace() == Some("a") && m.labels().len() == 1, "every metric has the builder's settings");
        check(m.timestamp().is_none(), "a metric starts unused");
        check(m.insert("i", &numbered("", i)).is_ok(), "a good label is accepted");
        m.set_timestamp(i as i64);
        let y = if i == at { x } else { i as u64 };
        match &m {
            Any::C(m) => {
                check(m.value() == 0.0, "a metric starts unused");
                m.add_u64(y);
            }
            Any::G(m) => {
                check(m.value() == 2.5, "a metric starts unused");
                m.set(y as f64);
            }
            Any::H(m) => {
                check(m.count() == 0 && m.sum() == 0.0 && m.buckets().len() == 2, "a metric starts unused");
                m.observe(y as f64);
            }
            Any::S(m) => {
                check(m.count() == 0 && m.sum() == 0.0, "a metric starts unused");
                m.observe(y as f64);
            }
        }
        ms.push(m);
    }
    let f = g.gather().into_vec();
    check(f.len() == 1, "metrics of one name are in one family");
    let mut k = 0;
    let mut one = |labels: &prometrics::label::Labels, value: f64, time: Option<i64>| {
        check(k < n && labels.get("i").map_or(false, |l| l.value() == numbered("", k)), "every metric is gathered, in the order of its labels");
        check(value == (if k == at { x } else { k as u64 }) as f64, "metrics from one builder share no value");
        check(time == Some(k as i64), "metrics from one builder share no timestamp");
        k += 1;
    };
    match f[0].metrics() {
        Metrics::Counter(v) => v.iter().for_each(|m| one(m.labels(), m.value(), m.timestamp().get())),
        Metrics::Gauge(v) => v.iter().for_each(|m| one(m.labels(), m.value(), m.timestamp().get())),
        Metrics::Histogram(v) => v.iter().for_each(|m| one(m.labels(), m.sum(), m.timestamp().get())),
        Metrics::Summary(v) => v.iter().for_each(|m| one(m.labels(), m.sum(), m.timestamp().get())),
    }
    check(k == n, "every metric is gathered, in the order of its labels");
    cover("end");
});
