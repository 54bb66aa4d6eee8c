//! C19-C23: registering and gathering.
use crate::names::*;
use crate::rt::*;
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use std::cell::Cell;
use std::rc::Rc;
use std::time::Duration;

type Pairs = Vec<(String, String)>;
fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok = ok & (a[i] == b[i]);
        }
    }
    ok
}
fn same_pairs(a: &Pairs, b: &Pairs) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for (x, y) in a.iter().zip(b) {
            ok = ok & eq(&x.0, &y.0) & eq(&x.1, &y.1);
        }
    }
    ok
}
fn pairs(l: &prometrics::label::Labels) -> Pairs {
    l.iter().map(|l| (l.name().to_string(), l.value().to_string())).collect()
}
/// what an entry of a family shows: labels, the sum of what its members hold, timestamp
struct Entry {
    name: String,
    labels: Pairs,
    value: f64,
    time: Option<i64>,
}
fn kind_of(k: MetricKind) -> usize {
    match k {
        MetricKind::Counter => 0,
        MetricKind::Gauge => 1,
        MetricKind::Histogram => 2,
        MetricKind::Summary => 3,
    }
}
fn entries(f: &MetricFamily) -> Vec<Entry> {
    macro_rules! list {
        ($v:expr, $get:ident) => {
            $v.iter().map(|m| Entry { name: m.metric_name().to_string(), labels: pairs(m.labels()), value: m.$get(), time: m.timestamp().get() }).collect()
        };
    }
    let k = kind_of(f.kind());
    match *f.metrics() {
        Metrics::Counter(ref v) => {
            check(k == 0, "the family's kind is that of its entries");
            list!(v, value)
        }
        Metrics::Gauge(ref v) => {
            check(k == 1, "the family's kind is that of its entries");
            list!(v, value)
        }
        Metrics::Histogram(ref v) => {
            check(k == 2, "the family's kind is that of its entries");
            list!(v, sum)
        }
        Metrics::Summary(ref v) => {
            check(k == 3, "the family's kind is that of its entries");
            list!(v, sum)
        }
    }
}
/// a registered metric, as the harness knows it
struct Known {
    full: String,
    kind: usize,
    labels: Pairs,
    /// what it holds: a power of two of its own
    bit: u64,
}
fn hold(m: &Any, bit: u64) {
    match m {
        Any::C(m) => m.add_u64(bit),
        Any::G(m) => m.set(bit as f64),
        Any::H(m) => m.observe(bit as f64),
        Any::S(m) => m.observe(bit as f64),
    }
}
/// The families are those of exactly the known metrics.
fn verify(got: &MetricFamilies, known: &[Known]) {
    let fs = got.as_ref();
    let mut seen = 0u64;
    for (i, f) in fs.iter().enumerate() {
        let full = f.name().to_string();
        let kind = kind_of(f.kind());
        if i > 0 {
            let before = fs[i - 1].name().to_string();
            check(before <= full, "families are ordered by full name");
        }
        for g in &fs[..i] {
            check(!((kind_of(g.kind()) == kind) & eq(&g.name().to_string(), &full)), "there is one family per full name and kind");
        }
        let es = entries(f);
        check(!es.is_empty(), "a family has entries");
        for (j, e) in es.iter().enumerate() {
            check(eq(&e.name, &full), "an entry has its family's name");
            if j > 0 {
                check(es[j - 1].labels < e.labels, "there is one entry per set of labels, ordered by labels");
            }
            let mut sum = 0u64;
            for k in known {
                if k.kind == kind && eq(&k.full, &full) && same_pairs(&k.labels, &e.labels) {
                    sum += k.bit;
                }
            }
            check(sum != 0, "an entry belongs to a registered live metric");
            check(e.value == sum as f64, "an entry holds exactly the metrics of its name, kind and labels, each once");
            check(seen & sum == 0, "nothing is listed twice");
            seen |= sum;
        }
    }
    let mut all = 0u64;
    for k in known {
        all |= k.bit;
    }
    check(seen == all, "every live metric is listed");
}
fn own(l: &[(&str, &str)]) -> Pairs {
    l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
fn letter(name: &str) -> String {
    let c = sym(7, name) as u8;
    assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_') | (c == b':'));
    String::from_utf8(vec![c]).unwrap()
}
fn ascii(name: &str) -> String {
    let c = sym(7, name) as u8;
    unsafe { String::from_utf8_unchecked(vec![c]) }
}

/// one metric of any shape, built and registered
fn any_metric(r: &Registry, bit: u64, shapes: usize, kinds: usize, sets: usize) -> (Any, Known) {
    let x = letter("letter");
    let shape = choose(shapes, "name");
    let kind = choose(kinds, "kind");
    let axb = ["a_", &x].concat();
    let mut s = Spec { name: &x, registries: vec![r.clone()], ..Spec::default() };
    let full = match shape {
        0 => {
            s.namespace = Some("a");
            ["a_", &x].concat()
        }
        1 => {
            s.name = &axb;
            axb.clone()
        }
        2 => x.clone(),
        3 => {
            s.subsystem = Some("a");
            ["a_", &x].concat()
        }
        4 => {
            s.namespace = Some(&x);
            s.subsystem = Some("a");
            s.name = "b";
            [&x, "_a_b"].concat()
        }
        _ => {
            s.namespace = Some(&x);
            s.name = "a_b";
            [&x, "_a_b"].concat()
        }
    };
    let v = ascii("label value");
    let mut late = false;
    match choose(sets, "labels") {
        0 => {}
        1 => s.labels = vec![("l", &v)],
        2 => {
            s.labels = vec![("l", &v)];
            late = true;
        }
        _ => s.labels = vec![("m", &v)],
    }
    let mut labels = own(&s.labels);
    let mut m = build(kind, &s).unwrap();
    if late {
        let _ = m.insert("k", "w");
        labels.insert(0, ("k".to_string(), "w".to_string()));
    }
    hold(&m, bit);
    (m, Known { full, kind, labels, bit })
}
// C19: any metrics
entry!(h_c19_families {
    let mut g = Gatherer::new();
    let r = g.registry();
    let (shapes, kinds, sets) = (param("names", 6), param("kinds", 4), param("labels", 4));
    let (mut ms, mut known) = (Vec::new(), Vec::new());
    for i in 0..param("metrics", 2) {
        let (m, k) = any_metric(&r, 1 << i, shapes, kinds, sets);
        ms.push(m);
        known.push(k);
    }
    let f = g.gather();
    verify(&f, &known);
    drop(f);
    // and again
    verify(&g.gather(), &known);
    cover("end");
});
// C19: many metrics, one of them arbitrary
entry!(h_c19_many {
    let mut g = Gatherer::new();
    let r = g.registry();
    let n = param("metrics", 24);
    let (mut ms, mut known) = (Vec::new(), Vec::new());
    for i in 0..n {
        if i == n / 2 {
            let (m, k) = any_metric(&r, 1 << i, 1, 1, 2);
            ms.push(m);
            known.push(k);
            continue;
        }
        let name = ["m", "a_n", "a_Q", "z"][i * 7 % 4];
        let v = ["", "s", "q", "\u{e9}", "t"][i * 3 % 5];
        let kind = [0, 0, 1, 3, 2][i * 11 % 5];
        let mut s = Spec { name, registries: vec![r.clone()], ..Spec::default() };
        if i % 3 != 0 {
            s.labels = vec![("l", v)];
        }
        let m = build(kind, &s).unwrap();
        hold(&m, 1 << i);
        known.push(Known { full: name.to_string(), kind, labels: own(&s.labels), bit: 1 << i });
        ms.push(m);
    }
    verify(&g.gather(), &known);
    cover("end");
});

// C19: every kind, with several sets of labels of several members each, one label arbitrary
entry!(h_c19_repeats {
    let mut g = Gatherer::new();
    let r = g.registry();
    let v = ascii("label value");
    let kind = choose(4, "kind");
    let (mut ms, mut known) = (Vec::new(), Vec::new());
    let n = 36;
    for j in 0..n + 1 {
        let i = j * 5 % n;
        let mut s = Spec { name: if i / 12 == 2 { "z" } else { "m" }, registries: vec![r.clone()], ..Spec::default() };
        s.labels = match i / 4 % 3 {
            0 => vec![],
            1 => vec![("l", "q")],
            _ => vec![("l", "s"), ("k", "w")],
        };
        let mut k = i % 4;
        if j == n {
            s.name = "m";
            s.labels = vec![("l", &v)];
            k = kind;
        }
        let m = build(k, &s).unwrap();
        hold(&m, 1 << j);
        let mut labels = own(&s.labels);
        labels.sort();
        known.push(Known { full: s.name.to_string(), kind: k, labels, bit: 1 << j });
        ms.push(m);
    }
    verify(&g.gather(), &known);
    cover("end");
});

// C20: values and times of merged counters and gauges
fn time_() -> Option<i64> {
    if flag("timestamp set") {
        let t = i64_("timestamp");
        assume(t != i64::MIN);
        Some(t)
    } else {
        None
    }
}
fn later(a: Option<i64>, b: Option<i64>) -> Option<i64> {
    match (a, b) {
        (Some(x), Some(y)) => Some(if x > y { x } else { y }),
        (None, b) => b,
        (a, None) => a,
    }
}
fn one_entry(g: &mut Gatherer) -> Option<Entry> {
    let f = g.gather();
    check(f.as_ref().len() == 1, "they are one family");
    let mut es = entries(&f.as_ref()[0]);
    check(es.len() == 1, "they are one entry");
    es.pop()
}
fn same_f64(a: f64, b: f64) -> bool {
    (a.to_bits() == b.to_bits()) | (a.is_nan() & b.is_nan())
}
fn same_time(a: Option<i64>, b: Option<i64>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x == y,
        (None, None) => true,
        _ => false,
    }
}
entry!(h_c20_values {
    let kind = choose(2, "kind");
    let mut g = Gatherer::new();
    let n = param("members", 2);
    let big = param("any value", 1) == 1;
    let v = ascii("label value");
    let (mut ms, mut sum, mut time, mut total) = (Vec::new(), 0.0, None, 0u64);
    for i in 0..n {
        let mut s = Spec { name: "n", registries: vec![g.registry()], ..Spec::default() };
        s.labels = vec![("l", &v), ("k", "w")];
        if i == 1 {
            s.namespace = None;
            s.labels = vec![("k", "w"), ("l", "overridden"), ("l", &v)];
        }
        let mut m = build(kind, &s).unwrap();
        let x;
        if big {
            x = f64_("value");
            match &m {
                Any::C(m) => {
                    assume(x >= 0.0);
                    check(m.add(x).is_ok(), "a good amount is accepted");
                    // what a counter makes of the amount is C02's subject
                    sum = if i == 0 { m.value() } else { sum + m.value() };
                }
                Any::G(m) => {
                    m.set(x);
                    sum = if i == 0 { x } else { sum + x };
                }
                _ => {}
            }
        } else {
            let k = sym(50, "value");
            total += k;
            match &m {
                Any::C(m) => m.add_u64(k),
                Any::G(m) => m.set(k as f64),
                _ => {}
            }
        }
        let t = time_();
        if let Some(t) = t {
            m.set_timestamp(t);
        }
        time = later(time, t);
        ms.push(m);
    }
    let e = match one_entry(&mut g) { Some(e) => e, None => return };
    if !big {
        sum = total as f64;
    }
    check(same_f64(e.value, sum), "the entry's value is the sum of the members'");
    check(same_time(e.time, time), "the entry's timestamp is the latest of the members'");
    check(same_pairs(&e.labels, &vec![("k".to_string(), "w".to_string()), ("l".to_string(), v.clone())]), "the entry has the members' labels");
    cover("end");
});
// C20: metrics with different labels or kinds are not merged
entry!(h_c20_apart {
    let mut g = Gatherer::new();
    let r = g.registry();
    let kinds = [choose(2, "kind"), choose(2, "kind")];
    let mut sets: Vec<Pairs> = Vec::new();
    let mut ms = Vec::new();
    for i in 0..2 {
        // one or two labels of any one-letter names and one- or two-character values
        let n = 1 + choose(2, "labels");
        let mut set: Pairs = Vec::new();
        for j in 0..n {
            let name = letter("label name");
            assume(name.as_bytes()[0] != b':');
            if j > 0 {
                assume(name.as_bytes()[0] > set[0].0.as_bytes()[0]);
            }
            let mut value = ascii("label value");
            if j == 0 && flag("two characters") {
                value.push_str(&ascii("label value"));
            }
            set.push((name, value));
        }
        let m = build(kinds[i], &Spec { name: "n", labels: set.iter().map(|(a, b)| (&a[..], &b[..])).collect(), registries: vec![r.clone()], ..Spec::default() }).unwrap();
        hold(&m, 1 << i);
        ms.push(m);
        sets.push(set);
    }
    let f = g.gather();
    let mut n = 0;
    let mut merged = false;
    for f in f.as_ref() {
        for e in entries(f) {
            n += 1;
            merged = merged | (e.value == 3.0);
        }
    }
    let alike = same_pairs(&sets[0], &sets[1]) & (kinds[0] == kinds[1]);
    check(merged == alike, "metrics are merged if and only if kind and labels are the same");
    check(n == if alike { 1 } else { 2 }, "metrics are listed together if and only if kind and labels are the same");
    if alike { cover("merged") } else { cover("apart") }
});

// C21: collectors that end, metrics that are dropped
struct Custom {
    calls: Rc<Cell<u32>>,
    ends: u32,
    metrics: Vec<Metric>,
}
unsafe impl Send for Custom {}
impl Collect for Custom {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.ends {
            None
        } else {
            Some(self.metrics.clone().into_iter())
        }
    }
}
fn counter(name: &str, bit: u64) -> Counter {
    let c = Counter::new(name).unwrap();
    c.add_u64(bit);
    c
}
const NAME: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
/// names as a bit set of what is gathered
fn listed(f: &MetricFamilies) -> u64 {
    let mut set = 0u64;
    for f in f.as_ref() {
        for e in entries(f) {
            check(e.value >= 1.0, "an entry is one of those registered");
            let b = e.value as u64;
            check(set & b == 0, "nothing is listed twice");
            set |= b;
        }
    }
    set
}
entry!(h_c21_collectors {
    let mut g = Gatherer::new();
    let r = g.registry();
    let (n, rounds) = (param("collectors", 4), param("rounds", 3));
    let late = choose(2, "registered late");
    // each: (calls, ends) of a custom collector with one metric or none, or the life of a metric
    let mut calls = Vec::new();
    let mut ends = Vec::new();
    let mut made: Vec<Box<dyn FnOnce(&Registry)>> = Vec::new();
    let mut bits = Vec::new();
    for i in 0..n {
        let c = Rc::new(Cell::new(0));
        let e = u8_("ends after") as u32;
        calls.push(c.clone());
        ends.push(e);
        let several = i == 1;
        let metrics: Vec<Metric> = if i == 2 { vec![] } else if several { vec![counter(NAME[i], 1 << i).into(), counter("several", 1 << 20).into()] } else { vec![counter(NAME[i], 1 << i).into()] };
        bits.push(if i == 2 { 0 } else if several { 1 << i | 1 << 20 } else { 1u64 << i });
        made.push(Box::new(move |r: &Registry| r.register(Custom { calls: c, ends: e, metrics })));
    }
    let mut from = vec![0; n];
    let mut waiting = None;
    for (i, f) in made.into_iter().enumerate() {
        if i + 1 == n && late == 1 {
            from[i] = 1;
            waiting = Some(f);
        } else {
            f(&r);
        }
    }
    for t in 0..rounds + 1 {
        if t == 1 {
            if let Some(f) = waiting.take() {
                f(&r);
            }
        }
        let f = g.gather();
        let mut want = 0;
        for i in 0..n {
            if t < from[i] {
                check(calls[i].get() == 0, "a collector is not asked before it is registered");
                continue;
            }
            let asked = (t + 1 - from[i]) as u32;
            check((calls[i].get() == asked) | ((calls[i].get() == ends[i] + 1) & (ends[i] < asked)), "a collector is asked once per gathering until it has ended");
            want |= if asked <= ends[i] { bits[i] } else { 0 };
        }
        check(listed(&f) == want, "exactly the metrics of the collectors that have not ended are gathered");
    }
    cover("end");
});
entry!(h_c21_handles {
    let mut g = Gatherer::new();
    let r = g.registry();
    let n = param("metrics", 4);
    let rounds = param("rounds", 2);
    let mut handles: Vec<Vec<Any>> = Vec::new();
    for i in 0..n {
        let kind = if i == 0 { choose(4, "kind") } else { (i + 2) % 4 };
        let m = build(kind, &Spec { name: NAME[i], registries: vec![r.clone()], ..Spec::default() }).unwrap();
        hold(&m, 1 << i);
        let mut v = Vec::new();
        if i < 2 {
            v.push(m.clone());
        }
        v.push(m);
        handles.push(v);
    }
    let custom = Rc::new(Cell::new(0));
    r.register(Custom { calls: custom.clone(), ends: 100, metrics: vec![counter("z", 1 << 20).into()] });
    for t in 0..rounds + 1 {
        if t > 0 {
            for i in 0..n {
                // the clones go first or last
                if !handles[i].is_empty() && bool_("drop") {
                    if i == 0 {
                        handles[i].remove(0);
                    } else {
                        handles[i].pop();
                    }
                }
            }
        }
        let mut want = 1 << 20;
        for i in 0..n {
            if !handles[i].is_empty() {
                want |= 1 << i;
            }
        }
        let f = g.gather();
        check(listed(&f) == want, "exactly the metrics with a handle left are gathered");
        check(custom.get() == t as u32 + 1, "a collector is asked once per gathering until it has ended");
    }
    cover("end");
});
// C21: the collector a metric hands out, and metrics that a collector keeps alive
entry!(h_c21_collector {
    let kind = choose(4, "kind");
    let m = build(kind, &Spec { name: "n", ..Spec::default() }).unwrap();
    hold(&m, 1);
    let mut g = Gatherer::new();
    match &m {
        Any::C(m) => g.registry().register(m.collector()),
        Any::G(m) => g.registry().register(m.collector()),
        Any::H(m) => g.registry().register(m.collector()),
        Any::S(m) => g.registry().register(m.collector()),
    }
    check(listed(&g.gather()) == 1, "a metric is gathered while a handle is alive");
    let keep = bool_("kept elsewhere");
    let other = m.clone();
    drop(m);
    check(listed(&g.gather()) == 1, "a metric is gathered while a handle is alive");
    if keep {
        let mut h = Gatherer::new();
        let held: Metric = match other {
            Any::C(m) => m.into(),
            Any::G(m) => m.into(),
            Any::H(m) => m.into(),
            Any::S(m) => m.into(),
        };
        h.registry().register(Custom { calls: Rc::new(Cell::new(0)), ends: 1, metrics: vec![held] });
        check(listed(&h.gather()) == 1, "a collector's metric is gathered");
        check(listed(&g.gather()) == 1, "a metric is gathered while a collector keeps it");
        check(listed(&h.gather()) == 0, "a collector that has ended is forgotten");
    } else {
        drop(other);
    }
    check(listed(&g.gather()) == 0, "a metric is not gathered once all its handles are gone");
    check(listed(&g.gather()) == 0, "a metric is not gathered once all its handles are gone");
    cover("end");
});

// C22
entry!(h_c22_registries {
    let kind = choose(4, "kind");
    let mut gs: Vec<Option<Gatherer>> = (0..3).map(|_| Some(Gatherer::new())).collect();
    let rs: Vec<Registry> = gs.iter().map(|g| g.as_ref().unwrap().registry()).collect();
    let others: Vec<Registry> = gs.iter().map(|g| g.as_ref().unwrap().registry()).collect();
    let set = sym(3, "registries");
    let clones = bool_("cloned");
    let gone = choose(4, "gatherer gone");
    let mut late_gone = false;
    if gone < 3 {
        if bool_("gone before") {
            gs[gone] = None;
        } else {
            late_gone = true;
        }
    }
    // three builds of one builder, one of them refused
    let bad = choose(4, "refused build");
    let mut ms = Vec::new();
    let mut count = 0u64;
    let mut regs = Vec::new();
    for i in 0..3 {
        if set >> i & 1 == 1 {
            regs.push(if clones { others[i].clone() } else { rs[i].clone() });
        }
    }
    drop(others);
    let spec = |name, labels| Spec { name, labels, registries: regs.clone(), ..Spec::default() };
    macro_rules! twice {
        ($b:expr, $k:path, $label:expr) => {{
            let mut b = $b;
            for r in &regs {
                b.registry(r.clone());
            }
            for _ in 0..2 {
                match b.finish() {
                    Ok(m) => {
                        let m = $k(m);
                        hold(&m, 1 << count);
                        count += 1;
                        ms.push(m);
                    }
                    Err(_) => check(false, "a good metric is built"),
                }
            }
        }};
    }
    match kind {
        0 => twice!(CounterBuilder::new("n"), Any::C, "l"),
        1 => twice!(GaugeBuilder::new("n"), Any::G, "l"),
        2 => twice!(HistogramBuilder::new("n"), Any::H, "l"),
        _ => twice!(SummaryBuilder::new("n", Duration::from_secs(1)), Any::S, "l"),
    }
    let refused = match bad {
        0 => build(kind, &spec("0", vec![])),
        1 => build(kind, &spec("m", vec![("l", "v"), ("__l", "v")])),
        2 => build(kind, &Spec { namespace: Some(""), ..spec("m", vec![]) }),
        _ => build([2, 3, 2, 3][kind], &spec("m", vec![(["le", "quantile", "le", "quantile"][kind], "v")])),
    };
    check(refused.is_err(), "a bad metric is refused");
    std::mem::forget(refused);
    if late_gone {
        gs[gone] = None;
        // registering with a registry whose gatherer is gone does no harm
        let c = Rc::new(Cell::new(0));
        let late = build(kind, &spec("late", vec![]));
        check(late.is_ok(), "a metric is built although a gatherer is gone");
        rs[gone].register(Custom { calls: c, ends: 1, metrics: vec![] });
        std::mem::forget(late.map(|m| hold(&m, 1 << 10)));
    }
    for i in 0..3 {
        if let Some(ref mut g) = gs[i] {
            let f = g.gather();
            let want = if set >> i & 1 == 1 { 3.0 } else { 0.0 };
            let mut n = 0;
            for f in f.as_ref() {
                let name = f.name().to_string();
                for e in entries(f) {
                    n += 1;
                    if name == "n" {
                        check(e.value == want, "both metrics of the builder reach the registries added to it");
                    } else {
                        check(false, "nothing else is registered");
                    }
                }
            }
            check(n == if want == 0.0 { 0 } else { 1 }, "a metric reaches its registries and no others");
        }
    }
    cover("end");
});
// C22, C23: the default registry
entry!(h_c22_default {
    let kind = choose(4, "kind");
    let how = choose(5, "registered");
    let mut g = Gatherer::new();
    let mut one = |d: bool, r: bool| -> Any {
        macro_rules! b {
            ($b:expr) => {{
                let mut b = $b;
                if d {
                    b.default_registry();
                }
                if r {
                    b.registry(g.registry());
                }
                b.finish().unwrap()
            }};
        }
        match kind {
            0 => Any::C(b!(CounterBuilder::new("n"))),
            1 => Any::G(b!(GaugeBuilder::new("n"))),
            2 => Any::H(b!(HistogramBuilder::new("n"))),
            _ => Any::S(b!(SummaryBuilder::new("n", Duration::from_secs(1)))),
        }
    };
    let m = match how {
        0 => one(false, false),
        1 => one(true, false),
        2 => one(false, true),
        3 => one(true, true),
        _ => {
            let m = one(false, false);
            match &m {
                Any::C(m) => default_registry().register(m.collector()),
                Any::G(m) => default_registry().register(m.collector()),
                Any::H(m) => default_registry().register(m.collector()),
                Any::S(m) => default_registry().register(m.collector()),
            }
            m
        }
    };
    hold(&m, 1);
    check(listed(&g.gather()) == (how == 2 || how == 3) as u64, "a metric reaches its registries and no others");
    let d = default_gatherer().lock().unwrap().gather();
    check(listed(&d) == (how == 1 || how >= 3) as u64, "a metric reaches the default gatherer exactly when it is registered with the default registry");
    cover("end");
});

// C23
struct Model {
    namespace: Option<String>,
    subsystem: Option<String>,
    labels: Pairs,
    registries: u8,
}
fn set(l: &mut Pairs, n: &str, v: &str) {
    l.retain(|x| x.0 != n);
    l.push((n.to_string(), v.to_string()));
    l.sort_by(|a, b| a.0.cmp(&b.0));
}
fn change(b: &mut MetricBuilder, m: &mut Model, rs: &[Registry]) {
    match choose(7, "change") {
        0 => {
            let x = letter("namespace");
            b.namespace(&x);
            m.namespace = Some(x);
        }
        1 => {
            let x = letter("subsystem");
            b.subsystem(&x);
            m.subsystem = Some(x);
        }
        2 => {
            let v = ascii("label value");
            b.label("l", &v);
            set(&mut m.labels, "l", &v);
        }
        3 => {
            b.label("k", "w");
            set(&mut m.labels, "k", "w");
        }
        4 => {
            b.registry(rs[1].clone());
            // (adding the same registry twice is outside the property)
            assume(m.registries & 2 == 0);
            m.registries |= 2;
        }
        5 => {
            let i = choose(2, "registry");
            b.set_registry(rs[2 * i].clone());
            m.registries = 1 << (2 * i);
        }
        _ => {}
    }
}
fn started(b: &MetricBuilder, kind: usize, extra: usize, rs: &[Registry]) -> Any {
    macro_rules! b {
        ($b:expr) => {{
            let mut b = $b;
            match extra {
                0 => {}
                1 => {
                    b.label("l", "own").label("m", "own");
                }
                2 => {
                    b.namespace("own").registry(rs[3].clone());
                }
                _ => {
                    b.subsystem("own").help("own");
                }
            }
            b
        }};
    }
    match kind {
        0 => Any::C(b!(b.counter("n")).finish().unwrap()),
        1 => Any::G(b!(b.gauge("n")).finish().unwrap()),
        2 => Any::H(b!(b.histogram("n")).finish().unwrap()),
        _ => Any::S(b!(b.summary("n", Duration::from_secs(1))).finish().unwrap()),
    }
}
fn agrees(m: &Any, e: &Model, gs: &mut [Gatherer], bit: u64) {
    check(m.name().name() == "n", "the metric has its own name");
    let same = |a: Option<&str>, b: &Option<String>| match (a, b) {
        (Some(a), Some(b)) => eq(a, b),
        (None, None) => true,
        _ => false,
    };
    check(same(m.name().namespace(), &e.namespace), "the metric has the builder's namespace");
    check(same(m.name().subsystem(), &e.subsystem), "the metric has the builder's subsystem");
    check(same_pairs(&pairs(m.labels()), &e.labels), "the metric has the builder's labels");
    hold(m, bit);
    for (i, g) in gs.iter_mut().enumerate() {
        let mut there = false;
        for f in g.gather().as_ref() {
            for x in entries(f) {
                there = there | (x.value as u64 & bit != 0);
                check(x.value as u64 & bit == 0 || same_pairs(&x.labels, &e.labels), "the gathered metric has the builder's labels");
            }
        }
        check(there == (e.registries >> i & 1 == 1), "the metric reaches the builder's registries and no others");
    }
}
entry!(h_c23_builder {
    let kind = choose(4, "kind");
    let mut gs: Vec<Gatherer> = (0..4).map(|_| Gatherer::new()).collect();
    let rs: Vec<Registry> = gs.iter().map(|g| g.registry()).collect();
    let with = flag("with a registry");
    let mut b = if with { MetricBuilder::with_registry(rs[0].clone()) } else { MetricBuilder::without_registry() };
    let mut e = Model { namespace: None, subsystem: None, labels: vec![], registries: with as u8 };
    let n = param("changes", 2);
    for _ in 0..n {
        change(&mut b, &mut e, &rs);
    }
    let extra = choose(4, "added afterwards");
    let cloned = flag("from a clone");
    let first = if cloned { started(&b.clone(), kind, extra, &rs) } else { started(&b, kind, extra, &rs) };
    let mut f = Model { namespace: e.namespace.clone(), subsystem: e.subsystem.clone(), labels: e.labels.clone(), registries: e.registries };
    match extra {
        1 => {
            set(&mut f.labels, "l", "own");
            set(&mut f.labels, "m", "own");
        }
        2 => {
            f.namespace = Some("own".to_string());
            f.registries |= 8;
        }
        3 => f.subsystem = Some("own".to_string()),
        _ => {}
    }
    check(first.help() == if extra == 3 { Some("own") } else { None }, "the help is the one given");
    agrees(&first, &f, &mut gs, 1);
    // another one after a further change
    change(&mut b, &mut e, &rs);
    let second = started(&b, kind, 0, &rs);
    agrees(&second, &e, &mut gs, 2);
    // which the first one does not see
    check(same_pairs(&pairs(first.labels()), &f.labels), "later changes do not affect metrics already started");
    cover("end");
});
// C23: changes between starting and finishing, and the default registry
entry!(h_c23_started {
    let kind = choose(4, "kind");
    let mut g = Gatherer::new();
    let mut h = Gatherer::new();
    let def = flag("default registry");
    let mut b = if def { MetricBuilder::new() } else { MetricBuilder::with_registry(g.registry()) };
    b.namespace("a").label("l", "v");
    macro_rules! go {
        ($k:path, $b:expr) => {{
            let s = $b;
            b.namespace("b").subsystem("c").label("l", "w").label("m", "x").set_registry(h.registry());
            $k(s.finish().unwrap())
        }};
    }
    let m = match kind {
        0 => go!(Any::C, b.counter("n")),
        1 => go!(Any::G, b.gauge("n")),
        2 => go!(Any::H, b.histogram("n")),
        _ => go!(Any::S, b.summary("n", Duration::from_secs(1))),
    };
    hold(&m, 1);
    check(m.name().to_string() == "a_n", "later changes do not affect metrics already started");
    check(same_pairs(&pairs(m.labels()), &own(&[("l", "v")])), "later changes do not affect metrics already started");
    check(listed(&h.gather()) == 0, "later changes do not affect metrics already started");
    check(listed(&g.gather()) == !def as u64, "the metric reaches the builder's registries and no others");
    let d = default_gatherer().lock().unwrap().gather();
    check(listed(&d) == def as u64, "a metric started from a new builder reaches the default gatherer");
    cover("end");
});

// ---------------------------------------------------------------- many members, collectors, registries, changes
// C20: many members, one value and one timestamp among them arbitrary
entry!(h_c20_many {
    let kind = choose(2, "kind");
    let mut g = Gatherer::new();
    let n = param("members", 12);
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let (mut ms, mut sum, mut time) = (Vec::new(), 0.0, None);
    for i in 0..n {
        let mut s = Spec { name: "n", registries: vec![g.registry()], ..Spec::default() };
        s.labels = if i % 2 == 0 { vec![("l", "v"), ("k", "w")] } else { vec![("k", "w"), ("l", "v")] };
        let mut m = build(kind, &s).unwrap();
        let x = if i == at {
            if kind == 0 { sym(46, "value") as f64 } else { sgrid("value", 30, 4) }
        } else if kind == 0 {
            (i * 37 % 23) as f64
        } else {
            (i * 37 % 23) as f64 * 0.25 - 3.0
        };
        match &m {
            Any::C(m) => m.add_u64(x as u64),
            Any::G(m) => m.set(x),
            _ => {}
        }
        sum += x;
        let t = if i == at {
            time_()
        } else if i % 3 == 1 {
            None
        } else {
            Some((i as i64 * 7919) % 101 - 50)
        };
        if let Some(t) = t {
            m.set_timestamp(t);
        }
        time = later(time, t);
        ms.push(m);
    }
    let e = match one_entry(&mut g) { Some(e) => e, None => return };
    check(e.value == sum, "the entry's value is the sum of the members'");
    check(same_time(e.time, time), "the entry's timestamp is the latest of the members'");
    check(same_pairs(&e.labels, &own(&[("k", "w"), ("l", "v")])), "the entry has the members' labels");
    cover("end");
});
fn name_of(i: usize) -> String {
    String::from_utf8(vec![b'a' + (i % 26) as u8, b'a' + (i / 26) as u8]).unwrap()
}
// C21: many collectors and metrics that end in turn, two of them at any time
entry!(h_c21_many {
    let mut g = Gatherer::new();
    let r = g.registry();
    let (n, rounds) = (param("collectors", 12), param("rounds", 6));
    let (mut calls, mut ends, mut bits) = (Vec::new(), Vec::new(), Vec::new());
    let mut handles: Vec<Option<Any>> = Vec::new();
    let (p, q) = [(0, 1), (n / 2, n / 2 + 1), (n - 2, n - 1), (1, n - 1)][choose(4, "places")];
    for i in 0..n {
        let c = Rc::new(Cell::new(0));
        let e = if i == p || i == q { below(8, "ends after") as u32 } else { (i as u32 * 5) % 8 };
        let name = name_of(i);
        let mut metrics: Vec<Metric> = vec![counter(&name, 1 << i).into()];
        let mut b = 1u64 << i;
        if i % 4 == 3 {
            metrics.push(counter("several", 1 << (i + 26)).into());
            b |= 1 << (i + 26);
        }
        bits.push(b);
        calls.push(c.clone());
        ends.push(e);
        r.register(Custom { calls: c, ends: e, metrics });
        // and a metric beside each
        let name = name_of(26 + i);
        let m = build(i % 4, &Spec { name: &name, registries: vec![r.clone()], ..Spec::default() }).unwrap();
        hold(&m, 1 << (i + 13));
        handles.push(Some(m));
    }
    for t in 0..rounds {
        for i in 0..n {
            if (i * 3 + 1) % 7 == t {
                handles[i] = None;
            }
        }
        if t == 2 && bool_("drop") {
            handles[p] = None;
        }
        let f = g.gather();
        let mut want = 0u64;
        for i in 0..n {
            let asked = t as u32 + 1;
            check((calls[i].get() == asked) | ((calls[i].get() == ends[i] + 1) & (ends[i] < asked)), "a collector is asked once per gathering until it has ended");
            want |= if asked <= ends[i] { bits[i] } else { 0 };
            if handles[i].is_some() {
                want |= 1 << (i + 13);
            }
        }
        check(listed(&f) == want, "exactly the metrics of the collectors that have not ended and of live handles are gathered");
    }
    cover("end");
});
// C22: many registries on one builder
entry!(h_c22_many {
    let kind = choose(4, "kind");
    let n = param("registries", 7);
    let mut gs: Vec<Option<Gatherer>> = (0..n).map(|_| Some(Gatherer::new())).collect();
    let rs: Vec<Registry> = gs.iter().map(|g| g.as_ref().unwrap().registry()).collect();
    let set = sym(n as u32, "registries");
    let gone = choose(3, "gatherers gone");
    for i in 0..n {
        if gone > 0 && i % 3 == gone {
            gs[i] = None;
        }
    }
    let mut s = Spec { name: "n", ..Spec::default() };
    for k in 0..n {
        let i = k * 3 % n;
        if set >> i & 1 == 1 {
            s.registries.push(rs[i].clone());
        }
    }
    let m = build(kind, &s).unwrap();
    hold(&m, 1);
    for i in 0..n {
        if let Some(ref mut g) = gs[i] {
            check(listed(&g.gather()) == set >> i & 1, "a metric reaches its registries and no others");
        }
    }
    cover("end");
});
// C22, C27: many metrics waiting to be gathered, one after another or some after a first gathering
entry!(h_c22_waiting {
    let n = param("metrics", 48);
    let split = [0, 1, n / 2, n - 1][choose(4, "gathered after")];
    let mut g = Gatherer::new();
    let mut ms = Vec::new();
    let x = below(n as u64, "dropped");
    let mut all = 0u64;
    for i in 0..n {
        if i == split {
            check(listed(&g.gather()) == all, "a metric reaches its gatherer");
        }
        let name = name_of(i * 5 % n);
        let m = build(if i % 6 == 5 { 1 } else { 0 }, &Spec { name: &name, registries: vec![g.registry()], ..Spec::default() }).unwrap();
        hold(&m, 1 << i);
        all |= 1 << i;
        ms.push(Some(m));
    }
    let x = concretize(x) as usize;
    ms[x] = None;
    check(listed(&g.gather()) == all & !(1 << x), "a metric reaches its gatherer");
    check(listed(&g.gather()) == all & !(1 << x), "a metric reaches its gatherer");
    cover("end");
});
// C23: many changes, one of them arbitrary
entry!(h_c23_many {
    let kind = choose(4, "kind");
    let mut gs: Vec<Gatherer> = (0..4).map(|_| Gatherer::new()).collect();
    let rs: Vec<Registry> = gs.iter().map(|g| g.registry()).collect();
    let mut b = MetricBuilder::with_registry(rs[0].clone());
    let mut e = Model { namespace: None, subsystem: None, labels: vec![], registries: 1 };
    let n = param("changes", 16);
    let at = [0, n / 2, n - 1][choose(3, "place")];
    let mut made: Vec<(Any, Pairs)> = Vec::new();
    for i in 0..n {
        if i == at {
            change(&mut b, &mut e, &rs);
            continue;
        }
        let v = ["x", "y", "z"][i % 3];
        match i % 8 {
            7 => {
                b.namespace(v);
                e.namespace = Some(v.to_string());
            }
            3 => {
                b.subsystem(v);
                e.subsystem = Some(v.to_string());
            }
            _ => {
                let l = name_of(i * 7 % 11);
                b.label(&l, v);
                set(&mut e.labels, &l, v);
            }
        }
        if i % 5 == 4 {
            made.push((started(&b, i % 4, 0, &[]), e.labels.clone()));
        }
    }
    let m = started(&b, kind, choose(2, "added afterwards") * 3, &rs);
    if m.help().is_some() {
        e.subsystem = Some("own".to_string());
    }
    for (m, l) in &made {
        check(same_pairs(&pairs(m.labels()), l), "later changes do not affect metrics already started");
    }
    made.clear();
    agrees(&m, &e, &mut gs, 1);
    cover("end");
});
