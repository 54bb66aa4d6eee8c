//! C21, C24 under concurrency; C32: the ways of reading a gathering.
use crate::names::*;
use crate::par::{done, started, update, Task};
use crate::rt::*;
use crate::text::{compare, lines, Expect};
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::Gatherer;
use std::time::Duration;

// C21: handles are dropped while another thread gathers
fn gauges(ms: Vec<MetricFamily>, names: &[&str]) -> u32 {
    let mut seen = 0;
    for f in ms {
        match names.iter().position(|n| *n == f.name().name()) {
            Some(i) => {
                check(seen >> i & 1 == 0, "a gathering has every metric once");
                seen |= 1 << i;
            }
            None => check(false, "a gathering has no other metrics"),
        }
    }
    seen
}
entry!(h_c21_threads {
    const NAMES: [&str; 4] = ["a", "b", "c", "d"];
    let mut g = Gatherer::new();
    let n = param("metrics", 3);
    let mut ms: Vec<Option<Any>> = Vec::new();
    for i in 0..n {
        ms.push(Some(build(i % KINDS, &Spec { name: NAMES[i], registries: vec![g.registry()], ..Default::default() }).unwrap()));
    }
    let all = (1u32 << n) - 1;
    if flag("gathered before") {
        check(gauges(g.gather().into_vec(), &NAMES[..n]) == all, "every live metric is gathered");
    }
    let mut gone = 0u32;
    let threads = param("threads", 1);
    let mut parts: Vec<Vec<(usize, Any)>> = (0..threads).map(|_| Vec::new()).collect();
    for t in 0..threads {
        let i = choose(n, "dropped");
        if let Some(m) = ms[i].take() {
            // a second handle, dropped as well, here or there
            if flag("second handle") {
                parts[t].push((i, m.clone()));
            }
            parts[t].push((i, m));
            gone |= 1 << i;
        }
    }
    let late = if flag("a late registration") { Some(g.registry()) } else { None };
    let kept = all & !gone;
    let mut last = None;
    {
        let mut tasks: Vec<Task> = Vec::new();
        for p in parts {
            tasks.push(Box::new(move || {
                for (i, m) in p {
                    let _ = i;
                    drop(m);
                }
            }));
        }
        if let Some(r) = late.clone() {
            let last = &mut last;
            tasks.push(Box::new(move || update(0, || *last = Some(build(1, &Spec { name: "d", registries: vec![r], ..Default::default() }).unwrap()))));
        }
        let g = &mut g;
        let gathers = param("gatherings", 1);
        let late = late.is_some();
        tasks.push(Box::new(move || {
            let mut before = all;
            for _ in 0..gathers {
                let must = done();
                let seen = gauges(g.gather().into_vec(), &NAMES);
                check(seen & kept == kept, "metrics with a handle are gathered");
                check(seen & all & !before == 0, "a metric that has gone does not come back");
                check(late | (seen & !all == 0), "there are no others");
                check((must == 0) | (seen >> 3 & 1 == 1), "a metric registered before is gathered");
                before = seen & all;
            }
        }));
        parallel(tasks);
    }
    let want = kept | if late.is_some() { 8 } else { 0 };
    check(gauges(g.gather().into_vec(), &NAMES) == want, "exactly the metrics with a handle left are gathered");
    check(gauges(g.gather().into_vec(), &NAMES) == want, "exactly the metrics with a handle left are gathered");
    cover("end");
});

// C24: a timestamp that several threads change
entry!(h_c24_threads {
    let kind = choose(KINDS, "kind");
    let mut a = build(kind, &Spec { name: "m", ..Default::default() }).unwrap();
    let first = if flag("set before") { Some(i64_("first")) } else { None };
    if let Some(t) = first {
        assume(t != i64::MIN);
        a.set_timestamp(t);
    }
    let threads = param("threads", 2);
    let changes: Vec<Option<i64>> = (0..threads)
        .map(|_| {
            if flag("clears") {
                None
            } else {
                let t = i64_("milliseconds");
                assume(t != i64::MIN);
                Some(t)
            }
        })
        .collect();
    let explained = |got: Option<i64>, first: Option<Option<i64>>, may: u32, changes: &[Option<i64>]| {
        let mut ok = false;
        for (i, c) in changes.iter().map(|c| *c).enumerate().chain(first.map(|f| (31, f))) {
            if i == 31 || may >> i & 1 == 1 {
                ok = ok | match (got, c) {
                    (Some(x), Some(y)) => x == y,
                    (None, None) => true,
                    _ => false,
                };
            }
        }
        ok
    };
    let mut clones: Vec<Any> = (0..threads).map(|_| a.clone()).collect();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for (i, m) in clones.iter_mut().enumerate() {
            let c = changes[i];
            tasks.push(Box::new(move || {
                update(i, || match c {
                    Some(t) => m.set_timestamp(t),
                    None => m.clear_timestamp(),
                })
            }));
        }
        let (a, changes) = (&a, &changes);
        let reads = param("reads", 2);
        tasks.push(Box::new(move || {
            for _ in 0..reads {
                let must = done();
                let got = a.timestamp();
                // once some change has returned, the first value is gone
                check(explained(got, if must == 0 { Some(first) } else { None }, started(), changes), "a reader sees one of the timestamps set");
            }
        }));
        parallel(tasks);
    }
    check(explained(a.timestamp(), None, !0 >> 1, &changes), "the last change stays");
    cover("end");
});

// C32
/// the lines an entry should have, by what its accessors say
fn said(f: &MetricFamily) -> Vec<(Vec<Expect>, Vec<(String, String)>, Option<i64>)> {
    let name = f.name().to_string();
    fn own(l: &prometrics::label::Labels) -> Vec<(String, String)> {
        l.iter().map(|l| (l.name().to_string(), l.value().to_string())).collect()
    }
    let mut v = Vec::new();
    macro_rules! plain {
        ($ms:expr) => {
            for m in $ms.iter() {
                check(m.metric_name().to_string() == name, "an entry has its family's name");
                v.push((vec![Expect { name: name.clone(), first: None, value: m.value(), count: false }], own(m.labels()), m.timestamp().get()));
            }
        };
    }
    macro_rules! total {
        ($m:expr, $es:expr) => {{
            check($m.metric_name().to_string() == name, "an entry has its family's name");
            let mut es: Vec<Expect> = $es;
            es.push(Expect { name: [&name[..], "_sum"].concat(), first: None, value: $m.sum(), count: false });
            es.push(Expect { name: [&name[..], "_count"].concat(), first: None, value: $m.count() as f64, count: true });
            v.push((es, own($m.labels()), $m.timestamp().get()));
        }};
    }
    match *f.metrics() {
        Metrics::Counter(ref ms) => plain!(ms),
        Metrics::Gauge(ref ms) => plain!(ms),
        Metrics::Histogram(ref ms) => {
            for m in ms.iter() {
                total!(m, m.cumulative_buckets().map(|b| Expect { name: [&name[..], "_bucket"].concat(), first: Some(("le", b.upper_bound())), value: b.cumulative_count() as f64, count: true }).collect())
            }
        }
        Metrics::Summary(ref ms) => {
            for m in ms.iter() {
                total!(m, m.quantiles().iter().map(|&(q, x)| Expect { name: name.clone(), first: Some(("quantile", q.as_f64())), value: x, count: false }).collect())
            }
        }
    }
    v
}
fn agrees(text: &str, fs: &[MetricFamily]) {
    let ls = lines(text);
    let mut at = 0;
    for f in fs {
        at += f.help().map_or(0, |_| 1) + 1;
        for (es, labels, time) in said(f) {
            let end = at + es.len();
            if end > ls.len() {
                return check(false, "every sample has its line");
            }
            let labels: Vec<(&str, &str)> = labels.iter().map(|(a, b)| (&a[..], &b[..])).collect();
            compare(&ls[at..end], &es, &labels, time);
            at = end;
        }
    }
    check(at == ls.len(), "there are no other lines");
}
fn texts<'a>(fs: impl Iterator<Item = &'a MetricFamily>) -> String {
    let mut s = String::new();
    for f in fs {
        s.push_str(&f.to_string());
    }
    s
}
fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok = ok & (a[i] == b[i]);
        }
    }
    ok
}
fn one(kind: usize, s: &Spec) -> Any {
    macro_rules! set {
        ($b:expr) => {{
            let mut b = $b;
            for (n, v) in &s.labels {
                b.label(n, v);
            }
            if let Some(h) = s.help {
                b.help(h);
            }
            for r in &s.registries {
                b.registry(r.clone());
            }
            b.finish().unwrap()
        }};
    }
    match kind {
        2 => {
            let mut b = HistogramBuilder::new(s.name);
            b.bucket(0.5).bucket(2.0);
            Any::H(set!(b))
        }
        3 => {
            let mut b = SummaryBuilder::new(s.name, Duration::from_secs(60));
            b.quantile(0.5).quantile(0.25);
            Any::S(set!(b))
        }
        k => build(k, s).unwrap(),
    }
}
fn put(m: &Any, x: f64) {
    match m {
        Any::C(m) => check(m.add(x).is_ok(), "a good amount is accepted"),
        Any::G(m) => m.set(x),
        Any::H(m) => m.observe(x),
        Any::S(m) => m.observe(x),
    }
}
entry!(h_c32_ways {
    let mut g = Gatherer::new();
    let r = g.registry();
    let kind = choose(KINDS, "kind");
    let c = sym(7, "label value") as u8;
    let v = unsafe { String::from_utf8_unchecked(vec![c]) };
    let x = grid("value", 12, 2);
    let help = flag("help");
    let mut ms = Vec::new();
    for i in 0..param("metrics", 3) {
        let s = Spec {
            name: ["m", "m", "n", "a"][i % 4],
            help: if help { Some("about") } else { None },
            labels: if i == 0 { vec![("l", &v)] } else { vec![] },
            registries: vec![r.clone()],
            ..Spec::default()
        };
        let mut m = one((kind + i / 2) % KINDS, &s);
        put(&m, if i == 0 { x } else { i as f64 });
        if i == 1 || (i == 0 && flag("timestamp")) {
            let t = i64_("timestamp");
            assume(t != i64::MIN);
            m.set_timestamp(t);
        }
        ms.push(m);
    }
    let got = g.gather();
    let text = got.to_text();
    agrees(&text, got.as_ref());
    check(same_text(&text, &texts(got.as_ref().iter())), "the text is that of the families");
    let copy = got.clone();
    check(same_text(&text, &copy.to_text()), "a clone reads the same");
    let fs: Vec<MetricFamily> = copy.into_iter().collect();
    check(fs.len() == got.as_ref().len(), "iterating yields the families");
    check(same_text(&text, &texts(fs.iter())), "iterating yields the families");
    let fs = got.into_vec();
    check(same_text(&text, &texts(fs.iter())), "the vector has the families");
    for f in &fs {
        check(f.help().is_some() == help, "a family has its help");
        let parts: Vec<String> = match *f.metrics() {
            Metrics::Counter(ref v) => v.iter().map(|m| m.to_string()).collect(),
            Metrics::Gauge(ref v) => v.iter().map(|m| m.to_string()).collect(),
            Metrics::Histogram(ref v) => v.iter().map(|m| m.to_string()).collect(),
            Metrics::Summary(ref v) => v.iter().map(|m| m.to_string()).collect(),
        };
        let mut all = parts.join("\n");
        all.push('\n');
        check(same_text(&f.metrics().to_string(), &all), "the list of entries reads as its entries do");
    }
    // the general wrapper
    let own = ms.swap_remove(0);
    let (name, k, text) = (own.name().to_string(), own.kind(), own.text());
    let m = match own.clone() {
        Any::C(m) => Metric::from(m),
        Any::G(m) => Metric::from(m),
        Any::H(m) => Metric::from(m),
        Any::S(m) => Metric::from(m),
    };
    check(m.name().to_string() == name, "the wrapper has the metric's name");
    check(m.kind() == [MetricKind::Counter, MetricKind::Gauge, MetricKind::Histogram, MetricKind::Summary][k], "the wrapper has the metric's kind");
    let l: Vec<&str> = m.labels().iter().map(|l| l.value()).collect();
    check(l.len() == 1 && same_text(l[0], &v), "the wrapper has the metric's labels");
    check(k == match m { Metric::Counter(_) => 0, Metric::Gauge(_) => 1, Metric::Histogram(_) => 2, Metric::Summary(_) => 3 }, "the wrapper wraps the metric");
    let inner = match m.clone() {
        Metric::Counter(m) => m.to_string(),
        Metric::Gauge(m) => m.to_string(),
        Metric::Histogram(m) => m.to_string(),
        Metric::Summary(m) => m.to_string(),
    };
    check(same_text(&inner, &text), "the wrapper wraps the metric");
    cover("end");
});
// C32: what was gathered of counters and gauges stays
entry!(h_c32_snapshot {
    let mut g = Gatherer::new();
    let r = g.registry();
    let kind = choose(2, "kind");
    let members = 1 + choose(2, "members");
    let mut ms: Vec<Any> = (0..members).map(|_| build(kind, &Spec { name: "m", registries: vec![r.clone()], ..Default::default() }).unwrap()).collect();
    let x = grid("value", 12, 2);
    put(&ms[0], x);
    let time = if flag("timestamp") {
        let t = i64_("timestamp");
        assume(t != i64::MIN);
        ms[0].set_timestamp(t);
        Some(t)
    } else {
        None
    };
    let got = g.gather();
    let before = got.to_text();
    // things go on
    put(&ms[0], grid("later value", 12, 2));
    match choose(3, "later timestamp") {
        0 => {}
        1 => ms[0].clear_timestamp(),
        _ => {
            let t = i64_("timestamp");
            assume(t != i64::MIN);
            ms[members - 1].set_timestamp(t);
        }
    }
    match choose(3, "later") {
        0 => {}
        1 => {
            let _ = g.gather();
        }
        _ => {
            ms.clear();
            drop(r);
            drop(g);
        }
    }
    check(same_text(&before, &got.to_text()), "the text of gathered counters and gauges stays");
    let fs = got.into_vec();
    check(fs.len() == 1, "they are one family");
    let (v, t) = match *fs[0].metrics() {
        Metrics::Counter(ref v) => (v[0].value(), v[0].timestamp().get()),
        Metrics::Gauge(ref v) => (v[0].value(), v[0].timestamp().get()),
        _ => return check(false, "the family has the metric's kind"),
    };
    check(v == x, "the value is that at the gathering");
    match (t, time) {
        (Some(a), Some(b)) => check(a == b, "the timestamp is that at the gathering"),
        (a, b) => check(a.is_none() & b.is_none(), "the timestamp is that at the gathering"),
    }
    cover("end");
});
