//! C29 collectors that panic or act while being asked, C30 memory, C31 builders used again.
use crate::names::*;
use crate::rt::*;
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

fn total(m: &MetricFamily) -> Vec<f64> {
    match *m.metrics() {
        Metrics::Counter(ref v) => v.iter().map(|m| m.value()).collect(),
        Metrics::Gauge(ref v) => v.iter().map(|m| m.value()).collect(),
        Metrics::Histogram(ref v) => v.iter().map(|m| m.sum()).collect(),
        Metrics::Summary(ref v) => v.iter().map(|m| m.sum()).collect(),
    }
}
/// what is gathered, as a set of the bits the metrics hold
fn bits(f: &MetricFamilies) -> u64 {
    let mut set = 0;
    for f in f.as_ref() {
        for v in total(f) {
            check(v >= 1.0, "an entry is one of those registered");
            let b = v as u64;
            check(set & b == 0, "nothing is listed twice");
            set |= b;
        }
    }
    set
}
fn hold(m: &Any, bit: u64) {
    match m {
        Any::C(m) => m.add_u64(bit),
        Any::G(m) => m.set(bit as f64),
        Any::H(m) => m.observe(bit as f64),
        Any::S(m) => m.observe(bit as f64),
    }
}
fn made(kind: usize, name: &str, bit: u64, r: &Registry) -> Any {
    let m = build(kind, &Spec { name, registries: vec![r.clone()], ..Spec::default() }).unwrap();
    hold(&m, bit);
    m
}
fn counter(name: &str, bit: u64) -> Metric {
    let c = Counter::new(name).unwrap();
    c.add_u64(bit);
    c.into()
}
/// the gatherer under test: one of its own, or the default one
enum From {
    Own(Gatherer),
    Default,
}
impl From {
    fn registry(&self) -> Registry {
        match self {
            From::Own(g) => g.registry(),
            From::Default => default_registry(),
        }
    }
    fn gather(&mut self) -> MetricFamilies {
        match self {
            From::Own(g) => g.gather(),
            From::Default => match default_gatherer().lock() {
                Ok(mut g) => g.gather(),
                Err(e) => e.into_inner().gather(),
            },
        }
    }
}

// ---------------------------------------------------------------- C29
#[derive(Clone)]
struct Rude {
    calls: Rc<Cell<u32>>,
    /// the call that panics
    at: u32,
    /// while being asked, or while being iterated over
    late: bool,
    bit: u64,
}
unsafe impl Send for Rude {}
struct RudeIter(bool, std::vec::IntoIter<Metric>);
impl Iterator for RudeIter {
    type Item = Metric;
    fn next(&mut self) -> Option<Metric> {
        if self.0 {
            panic!("a collector's iterator panics");
        }
        self.1.next()
    }
}
impl Collect for Rude {
    type Metrics = RudeIter;
    fn collect(&mut self) -> Option<RudeIter> {
        self.calls.set(self.calls.get() + 1);
        let now = self.calls.get() == self.at;
        if now && !self.late {
            panic!("a collector panics");
        }
        Some(RudeIter(now, vec![counter("rude", self.bit)].into_iter()))
    }
}
struct Asked(Rc<Cell<u32>>, u64);
unsafe impl Send for Asked {}
impl Collect for Asked {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.0.set(self.0.get() + 1);
        Some(vec![counter("asked", self.1)].into_iter())
    }
}
entry!(h_c29_panic {
    let mut g = if choose(2, "gatherer") == 1 { From::Default } else { From::Own(Gatherer::new()) };
    let r = g.registry();
    let kind = choose(4, "kind");
    let place = choose(3, "place");
    let calls = Rc::new(Cell::new(0));
    let at = below(4, "panics at call") as u32;
    let rude = Rude { calls: calls.clone(), at, late: choose(2, "late") == 1, bit: 1 };
    let asked = Rc::new(Cell::new(0));
    let mut kept = Vec::new();
    for i in 0..3 {
        if i == place {
            r.register(rude.clone());
        }
        if i == 1 {
            r.register(Asked(asked.clone(), 2));
        } else {
            kept.push((made((kind + i) % 4, ["a", "b", "c"][i], 4 << i, &r), 4u64 << i));
        }
    }
    let mut want = 1 | 2 | 4 | 16;
    let mut panics = 0;
    for t in 0..4 {
        let before = (calls.get(), asked.get());
        let got = catch(|| g.gather());
        check(calls.get() == before.0 + 1, "the collector is asked once per gathering");
        match got {
            None => {
                check(calls.get() == at, "gathering panics only if a collector does");
                check(asked.get() <= before.1 + 1, "a collector is asked at most once in a gathering that panics");
                panics += 1;
                cover("panic");
            }
            Some(f) => {
                check(calls.get() != at, "a collector's panic reaches the caller");
                check(asked.get() == before.1 + 1, "a collector is asked once per gathering");
                check(bits(&f) == want, "exactly the live registered metrics are gathered, after a panic as before");
                cover(if panics > 0 { "after a panic" } else { "before a panic" });
            }
        }
        // something new is registered, something old dropped
        let how = choose(3, "how");
        let new = if how == 0 { r.clone() } else { g.registry() };
        if how == 2 {
            let (m, bit) = kept.remove(0);
            want &= !bit;
            drop(m);
        }
        kept.push((made((kind + t) % 4, ["d", "e", "f", "g"][t], 32 << t, &new), 32 << t));
        want |= 32 << t;
    }
    check(panics <= 1, "a collector that panics once makes gathering panic once");
    cover("end");
});

/// What a collector does while it is asked.
struct Busy {
    state: Rc<State>,
    what: usize,
}
struct State {
    calls: Cell<u32>,
    own: RefCell<Option<Registry>>,
    others: RefCell<Vec<Any>>,
    made: RefCell<Vec<Any>>,
    second: RefCell<Gatherer>,
}
unsafe impl Send for Busy {}
impl Collect for Busy {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        let s = &self.state;
        s.calls.set(s.calls.get() + 1);
        let mut found = vec![counter("busy", 1)];
        if s.calls.get() != 2 {
            return Some(found.into_iter());
        }
        match self.what {
            0 => s.made.borrow_mut().push(made(0, "new", 1 << 10, s.own.borrow().as_ref().unwrap())),
            1 => {
                s.others.borrow_mut().remove(0);
            }
            2 => {
                s.others.borrow_mut().pop();
            }
            3 => {
                for m in s.others.borrow_mut().iter_mut() {
                    m.insert("l", "v").unwrap();
                }
            }
            4 => {
                *s.own.borrow_mut() = None;
            }
            5 => {
                let f = s.second.borrow_mut().gather();
                check(bits(&f) == 1 << 12, "a collector may use another gatherer");
                found.push(counter("nested", 1 << 11));
            }
            6 => s.made.borrow_mut().push(made(3, "new", 1 << 10, &default_registry())),
            _ => {
                let o = s.own.borrow();
                let o = o.as_ref().unwrap();
                o.register(Asked(Rc::new(Cell::new(0)), 1 << 13));
                s.made.borrow_mut().push(made(2, "new", 1 << 10, o));
            }
        }
        Some(found.into_iter())
    }
}
entry!(h_c29_inside {
    let mut g = Gatherer::new();
    let r = g.registry();
    let kind = choose(4, "kind");
    let what = choose(8, "what");
    let place = choose(4, "place");
    let second = Gatherer::new();
    let _far = made(kind, "far", 1 << 12, &second.registry());
    let state = Rc::new(State { calls: Cell::new(0), own: RefCell::new(Some(r.clone())), others: RefCell::new(vec![]), made: RefCell::new(vec![]), second: RefCell::new(second) });
    for i in 0..4 {
        if i == place {
            r.register(Busy { state: state.clone(), what });
        }
        if i < 3 {
            let m = made((kind + i) % 4, ["a", "b", "c"][i], 2 << i, &r);
            state.others.borrow_mut().push(m);
        }
    }
    for t in 1..5 {
        let f = match no_panic("gathering does not panic", || g.gather()) { Some(f) => f, None => return };
        check(state.calls.get() == t, "the collector is asked once per gathering");
        let got = bits(&f);
        let all = 1 | 2 | 4 | 8;
        // what may and what must be gathered
        let (may, must) = match (what, t) {
            (_, 1) => (all, all),
            (0, 2) => (all | 1 << 10, all),
            (0, _) => (all | 1 << 10, all | 1 << 10),
            (1, 2) => (all, all & !2),
            (1, _) => (all & !2, all & !2),
            (2, 2) => (all, all & !8),
            (2, _) => (all & !8, all & !8),
            (5, 2) => (all | 1 << 11, all | 1 << 11),
            (7, 2) => (all | 1 << 10 | 1 << 13, all),
            (7, _) => (all | 1 << 10 | 1 << 13, all | 1 << 10 | 1 << 13),
            _ => (all, all),
        };
        check(got & !may == 0, "nothing but live registered metrics is gathered");
        check(got & must == must, "every live registered metric is gathered");
        if what == 3 && t > 2 {
            for f in f.as_ref() {
                let l = |l: &prometrics::label::Labels| l.len() == (f.name().to_string() != "busy") as usize;
                check(match *f.metrics() {
                    Metrics::Counter(ref v) => v.iter().all(|m| l(m.labels())),
                    Metrics::Gauge(ref v) => v.iter().all(|m| l(m.labels())),
                    Metrics::Histogram(ref v) => v.iter().all(|m| l(m.labels())),
                    Metrics::Summary(ref v) => v.iter().all(|m| l(m.labels())),
                }, "changes made by a collector take effect");
            }
        }
        if what == 6 {
            let d = default_gatherer().lock().unwrap().gather();
            check(bits(&d) == if t < 2 { 0 } else { 1 << 10 }, "a metric registered with the default registry by a collector is gathered there");
        }
    }
    cover("end");
});

// ---------------------------------------------------------------- C30
/// how much may come and go with the capacity of some buffer
const SLACK: i64 = 512;
fn settled(early: i64, late: i64, what: &str) {
    trace((late - early) as u64, "growth");
    check(late - early <= SLACK, what);
}
entry!(h_c30_window {
    track_memory();
    // seconds, the step larger than the window
    let w = 1 + below(8, "window");
    let w = concretize(w);
    let step = w + 1 + concretize(below(3, "pause"));
    let mut b = SummaryBuilder::new("a", Duration::new(w, 0));
    b.quantile(0.5);
    let s = b.finish().unwrap();
    let query = choose(3, "queries");
    let n = param("rounds", 48) as u64;
    let mut early = 0;
    for i in 0..n {
        set_real((10 + i * step) as i64, 0);
        if query < 2 {
            s.observe(f64_("x"));
        } else if i < 8 {
            for k in 0..6 {
                s.observe(k as f64);
            }
        }
        if query == 1 && i % 5 == 4 {
            let q = s.quantiles();
            check(q.len() <= 1, "one quantile");
        }
        if i == n / 4 {
            early = memory();
        }
    }
    settled(early, memory(), "samples that have left the window are not kept");
    cover("end");
});
entry!(h_c30_labels {
    track_memory();
    let kind = choose(4, "kind");
    let m = build(kind, &Spec { name: "n", labels: vec![("b", "x")], ..Spec::default() }).unwrap();
    let mut other = m.clone();
    let mut m = m;
    let clears = choose(2, "clears");
    let n = param("rounds", 40);
    let mut early = 0;
    for i in 0..n {
        let mut v = vec![];
        push_char(&mut v, 0, "value");
        m.insert(["a", "b", "c"][i % 3], std::str::from_utf8(&v).unwrap()).unwrap();
        other.insert("d", "y").unwrap();
        check(m.labels().iter().count() >= 1, "labels are listed");
        if i % 3 == 2 {
            if clears == 1 { other.clear() } else { m.remove("c") }
        }
        if i == n / 4 {
            early = memory();
        }
    }
    settled(early, memory(), "labels that have been replaced or removed are not kept");
    cover("end");
});
entry!(h_c30_updates {
    track_memory();
    let kind = choose(4, "kind");
    let mut m = build(kind, &Spec { name: "n", ..Spec::default() }).unwrap();
    let mut g = Gatherer::new();
    let r = g.registry();
    match &m {
        Any::C(m) => r.register(m.collector()),
        Any::G(m) => r.register(m.collector()),
        Any::H(m) => r.register(m.collector()),
        Any::S(m) => r.register(m.collector()),
    }
    let n = param("rounds", 24);
    let mut early = 0;
    for i in 0..n {
        set_real(10 + i as i64 * 100, 0);
        let x = f64_("x");
        match &m {
            Any::C(m) => {
                check(m.add([0.5, 3.0, f64::INFINITY, -1.0][i % 4]).is_ok() == (i % 4 != 3), "an addition is accepted exactly when it is not negative");
            }
            Any::G(m) => m.set(x),
            Any::H(m) => m.observe(i as f64),
            Any::S(m) => m.observe(x),
        }
        m.set_timestamp(i as i64);
        let c = m.clone();
        let f = g.gather();
        check(f.as_ref().len() == 1, "the metric is gathered");
        drop((c, f));
        if i == n / 4 {
            early = memory();
        }
    }
    settled(early, memory(), "updating, cloning and gathering a metric accumulates nothing");
    cover("end");
});
entry!(h_c30_dropped {
    track_memory();
    let kind = choose(4, "kind");
    let custom = choose(2, "custom collectors") == 1;
    let mut g = Gatherer::new();
    let r = g.registry();
    let stays = made(0, "stays", 1, &r);
    // registrations are queued in blocks of 31: compared at the same place in a block
    let rounds = 10 + 31 * param("blocks", 3);
    let mut early = 0;
    for i in 0..rounds {
        if custom {
            r.register(Ends(if i % 48 == 3 { concretize(below(3, "ends")) as u32 } else { (i % 2) as u32 }));
        } else {
            let m = build((kind + i) % 4, &Spec { name: "n", help: Some("a help text"), labels: vec![("a", "b")], registries: vec![r.clone()], ..Spec::default() }).unwrap();
            if i % 3 == 0 {
                check(g.gather().as_ref().len() == 2, "a live metric is gathered");
            }
            drop(m);
        }
        let n = g.gather().as_ref().len();
        check(n >= 1, "the other metric is gathered");
        if i == 40 {
            early = memory();
        }
    }
    settled(early, memory(), "what has been dropped is released by gathering");
    drop(stays);
    cover("end");
});
struct Ends(u32);
impl Collect for Ends {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        if self.0 == 0 {
            return None;
        }
        self.0 -= 1;
        Some(vec![counter("n", 2)].into_iter())
    }
}
fn life(kind: usize, round: usize) {
    let mut g = Gatherer::new();
    let r = g.registry();
    let mut b = MetricBuilder::without_registry();
    b.namespace("x").label("l", "v").registry(g.registry());
    let mut m = build(kind, &Spec { namespace: Some("y"), subsystem: Some("z"), name: "n", help: Some("h"), labels: vec![("a", "b")], registries: vec![r.clone()] }).unwrap();
    let c = b.counter("c").finish().unwrap();
    m.insert("k", "w").unwrap();
    hold(&m, 3);
    let t = m.text();
    check(t.len() > 3, "it is rendered");
    let one = m.clone();
    let f = g.gather();
    check(f.as_ref().len() == 2, "both are gathered");
    let t = f.to_text();
    check(t.len() > 3, "it is rendered");
    r.register(Ends(5));
    // in which order all goes
    match round {
        0 => drop((f, one, m, c, b, r, g)),
        1 => drop((g, r, b, c, m, one, f)),
        2 => {
            drop((one, m, c));
            drop(g.gather());
            drop((f, g, b, r));
        }
        _ => {
            check(build(kind, &Spec { name: "0", registries: vec![r.clone()], ..Spec::default() }).is_err(), "a malformed name is refused");
            check(m.insert("0", "x").is_err(), "a malformed label is refused");
            drop((b, r, f, g, m, one, c));
        }
    }
}
entry!(h_c30_life {
    let kind = choose(4, "kind");
    let round = choose(4, "order");
    // the first time sets up what the standard library keeps for good
    life(kind, round);
    track_memory();
    life(kind, round);
    let after = memory();
    trace(after as u64, "left");
    check(after == 0, "once every handle, gatherer and result is dropped nothing is left");
    cover("end");
});

// ---------------------------------------------------------------- C31
macro_rules! common {
    ($b:expr, $ns:expr, $v:expr) => {{
        if $ns {
            $b.namespace("x");
        }
        $b.subsystem("y").help("some help").label("k", $v).label("a", "b");
    }};
}
enum Builder {
    C(CounterBuilder),
    G(GaugeBuilder),
    H(HistogramBuilder),
    S(SummaryBuilder),
}
macro_rules! on {
    ($x:expr, $m:pat => $e:expr) => {
        match $x {
            Builder::C($m) => $e,
            Builder::G($m) => $e,
            Builder::H($m) => $e,
            Builder::S($m) => $e,
        }
    };
}
impl Builder {
    fn finish(&self) -> prometrics::Result<Any> {
        Ok(match self {
            Builder::C(b) => Any::C(b.finish()?),
            Builder::G(b) => Any::G(b.finish()?),
            Builder::H(b) => Any::H(b.finish()?),
            Builder::S(b) => Any::S(b.finish()?),
        })
    }
}
/// everything a metric shows, apart from what it has been updated with
#[derive(PartialEq)]
struct Shown {
    name: (Option<String>, Option<String>, String),
    help: Option<String>,
    labels: Vec<(String, String)>,
    bounds: Vec<f64>,
    quantiles: Vec<f64>,
}
fn shown(m: &Any) -> Shown {
    Shown {
        name: (m.name().namespace().map(|s| s.to_string()), m.name().subsystem().map(|s| s.to_string()), m.name().name().to_string()),
        help: m.help().map(|s| s.to_string()),
        labels: m.labels().iter().map(|l| (l.name().to_string(), l.value().to_string())).collect(),
        bounds: if let Any::H(h) = m { h.cumulative_buckets().map(|b| b.upper_bound()).collect() } else { vec![] },
        quantiles: if let Any::S(s) = m { s.quantiles().iter().map(|q| q.0.as_f64()).collect() } else { vec![] },
    }
}
/// value, count
fn held(m: &Any) -> (f64, u64) {
    match m {
        Any::C(m) => (m.value(), 0),
        Any::G(m) => (m.value(), 0),
        Any::H(m) => (m.sum(), m.count()),
        Any::S(m) => (m.sum(), m.count()),
    }
}
entry!(h_c31_again {
    set_real(100, 0);
    let kind = choose(4, "kind");
    let ns = choose(2, "namespace") == 1;
    let mut v = vec![];
    push_char(&mut v, 0, "value");
    let v = String::from_utf8(v).unwrap();
    let initial = f64_("initial");
    assume(initial.is_finite());
    let mut b = match kind {
        0 => Builder::C(CounterBuilder::new("n")),
        1 => Builder::G({ let mut b = GaugeBuilder::new("n"); b.initial_value(initial); b }),
        2 => Builder::H({ let mut b = HistogramBuilder::new("n"); b.bucket(4.0).buckets(vec![1.0, 2.0]); b }),
        _ => Builder::S({ let mut b = SummaryBuilder::new("n", Duration::new(60, 0)); b.quantile(0.5).quantile(0.25); b }),
    };
    on!(&mut b, b => common!(b, ns, &v));
    let mut want = Shown {
        name: (if ns { Some("x".to_string()) } else { None }, Some("y".to_string()), "n".to_string()),
        help: Some("some help".to_string()),
        labels: vec![("a".to_string(), "b".to_string()), ("k".to_string(), v.clone())],
        bounds: if kind == 2 { vec![1.0, 2.0, 4.0, f64::INFINITY] } else { vec![] },
        quantiles: if kind == 3 { vec![0.25, 0.5] } else { vec![] },
    };
    let start = if kind == 1 { initial } else { 0.0 };
    let rounds = param("rounds", 3);
    let mut old: Vec<(Any, f64, u64)> = Vec::new();
    for i in 0..rounds {
        if i > 0 {
            match choose(5, "between") {
                0 => {}
                1 => {
                    on!(&mut b, b => { b.label("k", "new"); b.label("c", "d"); });
                    want.labels.retain(|l| l.0 != "k" && l.0 != "c");
                    want.labels.push(("c".to_string(), "d".to_string()));
                    want.labels.push(("k".to_string(), "new".to_string()));
                }
                2 => {
                    on!(&mut b, b => { b.namespace("z"); b.subsystem("w"); b.help("other"); });
                    want.name.0 = Some("z".to_string());
                    want.name.1 = Some("w".to_string());
                    want.help = Some("other".to_string());
                }
                3 => match b {
                    Builder::H(ref mut b) => {
                        b.bucket(3.0);
                        want.bounds = vec![1.0, 2.0, 3.0, 4.0, f64::INFINITY];
                    }
                    Builder::S(ref mut b) => {
                        b.quantile(0.75);
                        want.quantiles = vec![0.25, 0.5, 0.75];
                    }
                    _ => {}
                },
                _ => {
                    // a refused attempt in between
                    on!(&mut b, b => { b.subsystem("0"); });
                    check(b.finish().is_err(), "a malformed name is refused");
                    on!(&mut b, b => { b.subsystem("y"); });
                    want.name.1 = Some("y".to_string());
                }
            }
        }
        let m = match no_panic("building does not panic", || b.finish()) { Some(Ok(m)) => m, Some(Err(_)) => { check(false, "a builder can be used again"); return } None => return };
        check(m.timestamp().is_none(), "a new metric has no timestamp");
        let h = held(&m);
        check((h.0 == start) & (h.1 == 0), "a new metric has not been updated");
        // the update that tells the metrics apart
        hold(&m, 1 << i);
        let s = shown(&m);
        check(s.name == want.name && s.help == want.help, "every metric has the builder's name and help");
        check(s.labels == want.labels, "every metric has the builder's labels");
        check(s.bounds == want.bounds && s.quantiles == want.quantiles, "every metric has the builder's buckets and quantiles");
        let now = held(&m);
        old.push((m, now.0, now.1));
        for (m, x, n) in &old {
            let h = held(m);
            check((h.0 == *x) & (h.1 == *n), "metrics of one builder are updated independently");
        }
    }
    // changing one leaves the others alone
    let k = choose(rounds, "changed");
    let before: Vec<Shown> = old.iter().map(|m| shown(&m.0)).collect();
    old[k].0.insert("q", "r").unwrap();
    old[k].0.remove("a");
    old[k].0.set_timestamp(5);
    for (i, (m, _, _)) in old.iter().enumerate() {
        check((shown(m) == before[i]) == (i != k), "metrics of one builder have labels of their own");
        check(m.timestamp() == if i == k { Some(5) } else { None }, "metrics of one builder have timestamps of their own");
    }
    cover("end");
});
