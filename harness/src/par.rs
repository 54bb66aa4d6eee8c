//! C04, C27: concurrent use.
use crate::rt::*;
use prometrics::metrics::*;
use prometrics::label::Labels;
use prometrics::metric::{MetricFamily, Metrics};
use prometrics::{default_gatherer, default_registry, Gatherer, Registry};
use std::ops::Deref;
use std::ptr::{addr_of, addr_of_mut, read_volatile, write_volatile};
use std::time::Duration;

/// which updates have been started and which have returned (only one thread runs at a time)
static mut STARTED: u32 = 0;
static mut DONE: u32 = 0;
pub fn started() -> u32 {
    unsafe { read_volatile(addr_of!(STARTED)) }
}
pub fn done() -> u32 {
    unsafe { read_volatile(addr_of!(DONE)) }
}
pub fn update(i: usize, f: impl FnOnce()) {
    unsafe { write_volatile(addr_of_mut!(STARTED), started() | 1 << i) };
    f();
    unsafe { write_volatile(addr_of_mut!(DONE), done() | 1 << i) };
}
/// Is the value the sum of some updates, including all that had returned before the reading
/// started and none that had not started before it returned?
fn explained(v: f64, amounts: &[f64], must: u32, may: u32) -> bool {
    let mut ok = false;
    for s in 0..1u32 << amounts.len() {
        if s & must == must && s & !may == 0 {
            let mut sum = 0.0;
            for (i, a) in amounts.iter().enumerate() {
                if s >> i & 1 == 1 {
                    sum += *a;
                }
            }
            ok = ok | (v == sum);
        }
    }
    ok
}
fn explained_count(v: u64, n: usize, must: u32, may: u32) -> bool {
    (must.count_ones() as u64 <= v) & (v <= may.count_ones() as u64) & (v <= n as u64)
}
pub type Task<'a> = Box<dyn FnOnce() + Send + 'a>;

// ------------------------------------------------------------------------------------ counters
#[derive(Clone, Copy)]
enum Add {
    Increment,
    Float(f64),
    Whole(u64),
}
impl Add {
    fn any() -> Add {
        match choose(3, "update") {
            0 => Add::Increment,
            1 => Add::Float(grid("amount", 20, 4)),
            _ => Add::Whole(sym(40, "whole amount")),
        }
    }
    fn amount(self) -> f64 {
        match self {
            Add::Increment => 1.0,
            Add::Float(v) => v,
            Add::Whole(n) => n as f64,
        }
    }
    fn apply(self, c: &Counter) {
        match self {
            Add::Increment => c.increment(),
            Add::Float(v) => {
                let ok = c.add(v).is_ok();
                check(ok, "adding a non-negative amount is accepted");
            }
            Add::Whole(n) => c.add_u64(n),
        }
    }
}
// C04
entry!(h_c04_counter {
    let threads = param("threads", 2);
    let each = param("updates", 1);
    let adds: Vec<Add> = (0..threads * each).map(|_| Add::any()).collect();
    let amounts: Vec<f64> = adds.iter().map(|a| a.amount()).collect();
    let c = Counter::new("c").unwrap();
    let clones: Vec<Counter> = (0..threads).map(|_| c.clone()).collect();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for (t, m) in clones.iter().enumerate() {
            let adds = &adds;
            tasks.push(Box::new(move || {
                for k in 0..each {
                    let i = t * each + k;
                    update(i, || adds[i].apply(m));
                }
            }));
        }
        let (c, amounts) = (&c, &amounts);
        let reads = param("reads", 2);
        if reads > 0 {
            tasks.push(Box::new(move || {
                let mut last = 0.0;
                for _ in 0..reads {
                    let must = done();
                    let v = c.value();
                    check(explained(v, amounts, must, started()), "a reader sees some of the updates, each once");
                    check(v >= last, "a counter never appears to go down");
                    last = v;
                }
            }));
        }
        parallel(tasks);
    }
    let total: f64 = amounts.iter().sum();
    check(c.value() == total, "no update is lost");
    cover("end");
});

// -------------------------------------------------------------------------------------- gauges
#[derive(Clone, Copy)]
enum Op {
    Add(f64),
    Subtract(f64),
    Increment,
    Decrement,
    Set(f64),
}
fn amount(name: &str) -> f64 {
    // multiples of 1/16 in [-128, 128)
    sgrid(name, 12, 4)
}
impl Op {
    fn any() -> Op {
        match choose(5, "update") {
            0 => Op::Add(amount("amount")),
            1 => Op::Subtract(amount("amount")),
            2 => Op::Increment,
            3 => Op::Decrement,
            _ => Op::Set(amount("amount")),
        }
    }
    fn on(self, v: f64) -> f64 {
        match self {
            Op::Add(x) => v + x,
            Op::Subtract(x) => v - x,
            Op::Increment => v + 1.0,
            Op::Decrement => v - 1.0,
            Op::Set(x) => x,
        }
    }
    fn apply(self, g: &Gauge) {
        match self {
            Op::Add(x) => g.add(x),
            Op::Subtract(x) => g.subtract(x),
            Op::Increment => g.increment(),
            Op::Decrement => g.decrement(),
            Op::Set(x) => g.set(x),
        }
    }
}
/// Is v the outcome of applying the updates of `must` and some of `may` one after another, in an
/// order that keeps each update behind those that had returned before it started?
fn ordered(v: f64, ops: &[Op], before: &[u32], must: u32, may: u32, state: f64, applied: u32) -> bool {
    let mut ok = (applied & must == must) & same_f64(v, state);
    for i in 0..ops.len() {
        if may >> i & 1 == 1 && applied >> i & 1 == 0 && before[i] & !applied == 0 {
            ok = ok | ordered(v, ops, before, must, may, ops[i].on(state), applied | 1 << i);
        }
    }
    ok
}
static mut BEFORE: [u32; 8] = [0; 8];
fn before() -> Vec<u32> {
    let p = addr_of!(BEFORE) as *const u32;
    (0..8).map(|i| unsafe { read_volatile(p.add(i)) }).collect()
}
pub fn set_before(i: usize) {
    unsafe { write_volatile((addr_of_mut!(BEFORE) as *mut u32).add(i), done()) }
}
entry!(h_c04_gauge {
    let threads = param("threads", 2);
    let each = param("updates", 1);
    let ops: Vec<Op> = (0..threads * each).map(|_| Op::any()).collect();
    let first = amount("initial");
    let g = GaugeBuilder::new("g").initial_value(first).finish().unwrap();
    let clones: Vec<Gauge> = (0..threads).map(|_| g.clone()).collect();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for (t, m) in clones.iter().enumerate() {
            let ops = &ops;
            tasks.push(Box::new(move || {
                for k in 0..each {
                    let i = t * each + k;
                    set_before(i);
                    update(i, || ops[i].apply(m));
                }
            }));
        }
        let (g, ops) = (&g, &ops);
        let reads = param("reads", 1);
        if reads > 0 {
            tasks.push(Box::new(move || {
                for _ in 0..reads {
                    let must = done();
                    let v = g.value();
                    check(ordered(v, ops, &before(), must, started(), first, 0), "a reader sees the outcome of some of the updates");
                }
            }));
        }
        parallel(tasks);
    }
    let all = (1u32 << ops.len()) - 1;
    check(ordered(g.value(), &ops, &before(), all, all, first, 0), "the value is the outcome of all the updates");
    cover("end");
});
entry!(h_c04_inprogress {
    let threads = param("threads", 2);
    let g = Gauge::new("g").unwrap();
    let clones: Vec<Gauge> = (0..threads).map(|_| g.clone()).collect();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for (i, m) in clones.iter().enumerate() {
            let panics = flag("panics");
            tasks.push(Box::new(move || {
                update(i, || {
                    let _ = catch(|| m.track_inprogress(|| {
                        let v = m.value();
                        let lo = 1.0;
                        let hi = (started().count_ones() - done().count_ones()) as f64;
                        check(v >= lo, "code being tracked counts itself");
                        check(v <= hi, "only code in progress is counted");
                        if panics {
                            panic!("tracked code panics");
                        }
                    }));
                });
            }));
        }
        parallel(tasks);
    }
    check(g.value() == 0.0, "nothing is in progress once all tracked code has finished");
    cover("end");
});

// ----------------------------------------------------------------------- histograms, summaries
fn value(name: &str) -> f64 {
    // multiples of 1/4 in [-8, 8)
    sgrid(name, 6, 2)
}
/// the number of values at positions in `set` that satisfy `f`
fn count_in(xs: &[f64], set: u32, f: impl Fn(f64) -> bool) -> u64 {
    let mut n = 0;
    for (i, x) in xs.iter().enumerate() {
        n += (f(*x) & (set >> i & 1 == 1)) as u64;
    }
    n
}
const BOUNDS: [f64; 2] = [0.0, 1.5];
fn in_bucket(i: usize, x: f64) -> bool {
    (i == 0 || BOUNDS[i - 1] < x) & (i == BOUNDS.len() || x <= BOUNDS[i.min(BOUNDS.len() - 1)])
}
entry!(h_c04_histogram {
    let threads = param("threads", 2);
    let each = param("updates", 1);
    let xs: Vec<f64> = (0..threads * each).map(|_| value("observation")).collect();
    let mut b = HistogramBuilder::new("h");
    b.buckets(BOUNDS.iter().cloned());
    let h = b.finish().unwrap();
    let clones: Vec<Histogram> = (0..threads).map(|_| h.clone()).collect();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for (t, m) in clones.iter().enumerate() {
            let xs = &xs;
            tasks.push(Box::new(move || {
                for k in 0..each {
                    let i = t * each + k;
                    update(i, || m.observe(xs[i]));
                }
            }));
        }
        let (h, xs) = (&h, &xs);
        match param("reads", 1) {
            0 => {}
            _ => tasks.push(Box::new(move || {
                let must = done();
                match choose(4, "what is read") {
                    0 => {
                        let n = h.count();
                        check(explained_count(n, xs.len(), must, started()), "a reader's count is explained by the observations made so far");
                        let m = h.count();
                        check(m >= n, "the count never appears to go down");
                    }
                    1 => check(explained(h.sum(), xs, must, started()), "a reader's sum is explained by the observations made so far"),
                    2 => {
                        let got: Vec<u64> = h.buckets().iter().map(|b| b.count()).collect();
                        check(got.len() == BOUNDS.len() + 1, "one bucket per bound and one for the rest");
                        let may = started();
                        for i in 0..got.len() {
                            let lo = count_in(xs, must, |x| in_bucket(i, x));
                            let hi = count_in(xs, may, |x| in_bucket(i, x));
                            check((lo <= got[i]) & (got[i] <= hi), "a reader's bucket counts are explained by the observations made so far");
                        }
                    }
                    _ => {
                        let got: Vec<u64> = h.cumulative_buckets().map(|b| b.cumulative_count()).collect();
                        check(got.len() == BOUNDS.len() + 1, "one bucket per bound and one for the rest");
                        let may = started();
                        for i in 0..got.len() {
                            let up = |x: f64| i == BOUNDS.len() || x <= BOUNDS[i];
                            check((count_in(xs, must, &up) <= got[i]) & (got[i] <= count_in(xs, may, &up)), "a reader's cumulative counts are explained by the observations made so far");
                            check(i == 0 || got[i - 1] <= got[i], "cumulative counts do not decrease");
                        }
                    }
                }
            })),
        }
        parallel(tasks);
    }
    let all = (1u32 << xs.len()) - 1;
    check(h.count() == xs.len() as u64, "every observation is counted");
    check(h.sum() == xs.iter().sum::<f64>(), "every observation is in the sum");
    for (i, b) in h.buckets().iter().enumerate() {
        check(b.count() == count_in(&xs, all, |x| in_bucket(i, x)), "every observation is in its bucket");
    }
    cover("end");
});
/// v is the smallest (largest) of the values in some set between must and may
fn extreme(v: f64, xs: &[f64], must: u32, may: u32, largest: bool) -> bool {
    let mut ok = false;
    for i in 0..xs.len() {
        if may >> i & 1 == 1 {
            let mut best = xs[i] == v;
            for j in 0..xs.len() {
                if must >> j & 1 == 1 {
                    best = best & (if largest { xs[j] <= v } else { xs[j] >= v });
                }
            }
            ok = ok | best;
        }
    }
    ok
}
entry!(h_c04_summary {
    let threads = param("threads", 2);
    let each = param("updates", 1);
    let xs: Vec<f64> = (0..threads * each).map(|_| value("observation")).collect();
    let mut b = SummaryBuilder::new("s", Duration::from_secs(60));
    b.quantile(0.0).quantile(1.0);
    let s = b.finish().unwrap();
    let clones: Vec<Summary> = (0..threads).map(|_| s.clone()).collect();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for (t, m) in clones.iter().enumerate() {
            let xs = &xs;
            tasks.push(Box::new(move || {
                for k in 0..each {
                    let i = t * each + k;
                    update(i, || m.observe(xs[i]));
                }
            }));
        }
        let (s, xs) = (&s, &xs);
        match param("reads", 1) {
            0 => {}
            _ => tasks.push(Box::new(move || {
                let must = done();
                match choose(3, "what is read") {
                    0 => {
                        let n = s.count();
                        check(explained_count(n, xs.len(), must, started()), "a reader's count is explained by the observations made so far");
                        let m = s.count();
                        check(m >= n, "the count never appears to go down");
                    }
                    1 => check(explained(s.sum(), xs, must, started()), "a reader's sum is explained by the observations made so far"),
                    _ => {
                        let got = s.quantiles();
                        let may = started();
                        if got.is_empty() {
                            check(must == 0, "a reader sees the samples of the observations made so far");
                        } else {
                            check(got.len() == 2, "each configured quantile is reported");
                            check(extreme(got[0].1, xs, must, may, false), "the smallest sample is explained by the observations made so far");
                            check(extreme(got[1].1, xs, must, may, true), "the largest sample is explained by the observations made so far");
                        }
                    }
                }
            })),
        }
        parallel(tasks);
    }
    let all = (1u32 << xs.len()) - 1;
    check(s.count() == xs.len() as u64, "every observation is counted");
    check(s.sum() == xs.iter().sum::<f64>(), "every observation is in the sum");
    let got = s.quantiles();
    check(got.len() == 2, "each configured quantile is reported");
    if got.len() == 2 {
        check(extreme(got[0].1, &xs, all, all, false), "every sample is retained (smallest)");
        check(extreme(got[1].1, &xs, all, all, true), "every sample is retained (largest)");
    }
    cover("end");
});

// C04: observing and querying while samples expire: those inside the window stay
entry!(h_c04_expiry {
    let (x, y) = (value("x"), value("y"));
    let mut b = SummaryBuilder::new("s", Duration::from_secs(10));
    b.quantile(0.0).quantile(0.25).quantile(0.5).quantile(1.0);
    let s = b.finish().unwrap();
    for (at, v) in [(0, -100.0), (1, 100.0), (8, -50.0), (9, 50.0)] {
        set_real(at, 0);
        s.observe(v);
    }
    set_real(13 + choose(3, "later") as i64 * 2, 0);
    let (t, u) = (s.clone(), s.clone());
    {
        let (t, u, s) = (&t, &u, &s);
        let mut tasks: Vec<Task> = Vec::new();
        tasks.push(Box::new(move || t.observe(x)));
        tasks.push(Box::new(move || u.observe(y)));
        if param("reads", 0) > 0 {
            tasks.push(Box::new(move || {
                let got = s.quantiles();
                check(got.len() == 4, "each configured quantile is reported");
                if got.len() == 4 {
                    check((got[0].1 == -50.0) & (got[3].1 == 50.0), "a sample inside the window is not dropped");
                }
            }));
        }
        parallel(tasks);
    }
    check(s.count() == 6, "every observation is counted");
    check(s.sum() == x + y, "every observation is in the sum");
    let got = s.quantiles();
    check(got.len() == 4, "each configured quantile is reported");
    if got.len() == 4 {
        let (lo, hi) = if x < y { (x, y) } else { (y, x) };
        check((got[0].1 == -50.0) & (got[3].1 == 50.0), "a sample inside the window is not dropped");
        check((got[1].1 == lo) & (got[2].1 == hi), "every concurrent observation is retained");
    }
    set_real(20, 0);
    let got = s.quantiles();
    check(got.len() == 4, "each configured quantile is reported");
    if got.len() == 4 {
        let (lo, hi) = if x < y { (x, y) } else { (y, x) };
        check((got[0].1 == lo) & (got[3].1 == hi), "every concurrent observation is retained");
    }
    cover("end");
});

// ---------------------------------------------------------------------------------- C27: labels
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Insert,
    Remove,
    Clear,
}
/// a change of the label named by one letter
#[derive(Clone, Copy)]
struct Change {
    kind: Kind,
    name: u8,
    value: u8,
}
pub fn letter(name: &str) -> u8 {
    b'a' + below(26, name) as u8
}
pub fn text(b: u8) -> String {
    unsafe { String::from_utf8_unchecked(vec![b]) }
}
impl Change {
    fn any() -> Change {
        let kind = match choose(param("kinds", 3), "change") {
            0 => Kind::Insert,
            1 => Kind::Remove,
            _ => Kind::Clear,
        };
        let name = if kind == Kind::Clear { 0 } else { letter("label") };
        let value = if kind == Kind::Insert { sym(7, "label value") as u8 } else { 0 };
        Change { kind, name, value }
    }
    fn apply(self, m: &mut Gauge) {
        match self.kind {
            Kind::Insert => {
                let ok = m.labels_mut().insert(&text(self.name), &text(self.value)).is_ok();
                check(ok, "a good label is accepted");
            }
            Kind::Remove => m.labels_mut().remove(&text(self.name)),
            Kind::Clear => m.labels_mut().clear(),
        }
    }
}
/// What a reader sees. It must be ordered, without duplicate names.
fn read(labels: &Labels) -> Vec<(u8, u8)> {
    let mut v: Vec<(u8, u8)> = Vec::new();
    for l in labels.iter() {
        let (n, x) = (l.name().as_bytes(), l.value().as_bytes());
        if n.len() != 1 || x.len() != 1 {
            check(false, "a reader sees labels that were inserted");
            return v;
        }
        check(v.last().map_or(true, |p| p.0 < n[0]), "a reader sees an ordered set of labels");
        v.push((n[0], x[0]));
    }
    v
}
/// The labels seen are what the changes leave behind when made in this order (the label there at first counts
/// as an insertion before all others).
fn left_by(seen: &[(u8, u8)], ops: &[Change], order: &[usize]) -> bool {
    let mut ok = true;
    let mut of = vec![false; seen.len()];
    for (k, &i) in order.iter().enumerate() {
        if ops[i].kind == Kind::Insert {
            let mut stays = true;
            for &j in &order[k + 1..] {
                stays = stays & !((ops[j].kind == Kind::Clear) | (ops[j].name == ops[i].name));
            }
            let mut there = false;
            for (s, l) in seen.iter().enumerate() {
                let same = (l.0 == ops[i].name) & (l.1 == ops[i].value);
                there = there | same;
                of[s] = of[s] | (same & stays);
            }
            ok = ok & (there | !stays);
        }
    }
    for f in of {
        ok = ok & f;
    }
    ok
}
fn some_order(seen: &[(u8, u8)], ops: &[Change], before: &[u32], must: u32, may: u32, order: &mut Vec<usize>) -> bool {
    let applied = order.iter().fold(0, |a, i| a | 1 << i);
    let mut ok = applied & must == must && left_by(seen, ops, order);
    for i in 0..ops.len() {
        if may >> i & 1 == 1 && applied >> i & 1 == 0 && before[i] & !applied == 0 {
            order.push(i);
            ok = ok | some_order(seen, ops, before, must, may, order);
            order.pop();
        }
    }
    ok
}
// C27
entry!(h_c27_labels {
    let threads = [param("changes of the first", 1), param("changes of the second", 1)];
    let reads = param("reads", 1);
    let n = threads[0] + threads[1];
    let mut ops: Vec<Change> = (0..n).map(|_| Change::any()).collect();
    let mut b = GaugeBuilder::new("g");
    if flag("there is a label already") {
        let l = Change { kind: Kind::Insert, name: letter("label"), value: sym(7, "label value") as u8 };
        b.label(&text(l.name), &text(l.value));
        ops.push(l);
        set_before(n);
        update(n, || ());
        for i in 0..n {
            set_before(i);
        }
    }
    let mut g = b.finish().unwrap();
    {
        let mut tasks: Vec<Task> = Vec::new();
        let mut from = 0;
        for k in threads {
            if k == 0 {
                continue;
            }
            let mut m = g.clone();
            let ops = &ops;
            tasks.push(Box::new(move || {
                for i in from..from + k {
                    set_before(i);
                    update(i, || ops[i].apply(&mut m));
                }
            }));
            from += k;
        }
        let (g, ops) = (&g, &ops);
        if reads > 0 {
            tasks.push(Box::new(move || {
                for _ in 0..reads {
                    let must = done();
                    let seen = read(g.labels());
                    check(some_order(&seen, ops, &before(), must, started(), &mut vec![]), "a reader sees the outcome of some of the changes");
                }
            }));
        }
        parallel(tasks);
    }
    let all = (1u32 << ops.len()) - 1;
    let seen = read(g.labels_mut().deref());
    check(some_order(&seen, &ops, &before(), all, all, &mut vec![]), "every change took effect");
    cover("end");
});

// -------------------------------------------------------------------- C27: registering, gathering
const METRICS: [&str; 3] = ["a", "b", "c"];
/// which of the metrics are in the gathering; each at most once and with its value
fn found(ms: Vec<MetricFamily>, values: &[f64]) -> u32 {
    let mut seen = 0;
    for f in ms {
        let i = match (0..3).find(|&n| METRICS[n] == f.name().name()) {
            Some(i) if i < values.len() => i,
            _ => {
                check(false, "a gathering has no other metrics");
                continue;
            }
        };
        check(seen >> i & 1 == 0, "a gathering has every metric once");
        seen |= 1 << i;
        match f.metrics() {
            Metrics::Gauge(ms) => {
                check(ms.len() == 1, "a gathering has every metric once");
                for m in ms {
                    check(same_f64(m.value(), values[i]), "a gathering shows the metric's value");
                }
            }
            _ => check(false, "a gauge is gathered as a gauge"),
        }
    }
    seen
}
static mut KEPT: Vec<Gauge> = Vec::new();
fn register(i: usize, value: f64, r: Registry) {
    let m = GaugeBuilder::new(METRICS[i]).initial_value(value).registry(r).finish();
    match m {
        Ok(m) => unsafe { (*addr_of_mut!(KEPT)).push(m) },
        Err(_) => check(false, "a metric can be registered"),
    }
}
entry!(h_c27_register {
    unsafe { (*addr_of_mut!(KEPT)).reserve(8) };
    let threads = param("threads", 2);
    let each = param("metrics", 1);
    let values: Vec<f64> = (0..threads * each).map(|_| f64_("value")).collect();
    let mut g = Gatherer::new();
    let shared = g.registry();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for t in 0..threads {
            let r = if flag("own registry handle") { g.registry() } else { shared.clone() };
            let values = &values;
            tasks.push(Box::new(move || {
                for i in t * each..(t + 1) * each {
                    update(i, || register(i, values[i], r.clone()));
                }
            }));
        }
        let (g, values) = (&mut g, &values);
        let gathers = param("gatherings", 1);
        if gathers > 0 {
            tasks.push(Box::new(move || {
                for _ in 0..gathers {
                    let must = done();
                    let seen = found(g.gather().into_vec(), values);
                    check(seen & must == must, "a gathering has every metric registered before it started");
                }
            }));
        }
        parallel(tasks);
    }
    let seen = found(g.gather().into_vec(), &values);
    check(seen == (1 << threads * each) - 1, "a gathering has every metric registered before it started");
    cover("end");
});
// C27: the default registry, also when it is used for the first time
entry!(h_c27_default {
    unsafe { (*addr_of_mut!(KEPT)).reserve(8) };
    let values: Vec<f64> = (0..2).map(|_| f64_("value")).collect();
    if flag("used before") {
        let _ = default_registry();
    }
    {
        let mut tasks: Vec<Task> = Vec::new();
        for i in 0..param("threads", 2) {
            let values = &values;
            tasks.push(Box::new(move || update(i, || register(i, values[i], default_registry()))));
        }
        if param("gatherings", 1) > 0 {
            let values = &values;
            tasks.push(Box::new(move || {
                let must = done();
                let ms = match default_gatherer().lock() {
                    Ok(mut g) => g.gather().into_vec(),
                    Err(_) => return check(false, "the default gatherer stays usable"),
                };
                let seen = found(ms, values);
                check(seen & must == must, "a gathering has every metric registered before it started");
            }));
        }
        parallel(tasks);
    }
    let ms = match default_gatherer().lock() {
        Ok(mut g) => g.gather().into_vec(),
        Err(_) => return check(false, "the default gatherer stays usable"),
    };
    check(found(ms, &values) == (1 << param("threads", 2)) - 1, "a gathering has every metric registered before it started");
    cover("end");
});

// ------------------------------------------------------------------ C27: many changes, many registrations
// each thread changes labels of its own: none is lost, in whatever order
entry!(h_c27_many_labels {
    let each = param("changes", 5);
    let x = sym(7, "label value") as u8;
    let g = GaugeBuilder::new("g").label("z", "0").finish().unwrap();
    {
        let mut tasks: Vec<Task> = Vec::new();
        for t in 0..2 {
            let mut m = g.clone();
            tasks.push(Box::new(move || {
                for i in 0..each {
                    let n = [b'a' + (t * 8 + i * 3 % each) as u8];
                    let v = if i == each / 2 { x } else { b'0' + i as u8 };
                    let n = std::str::from_utf8(&n).unwrap();
                    check(m.labels_mut().insert(n, &text(v)).is_ok(), "a good label is accepted");
                    if i % 3 == 2 {
                        m.labels_mut().remove(n);
                    }
                }
            }));
        }
        parallel(tasks);
    }
    let mut want: Vec<(u8, u8)> = vec![(b'z', b'0')];
    for t in 0..2 {
        for i in 0..each {
            if i % 3 != 2 {
                want.push((b'a' + (t * 8 + i * 3 % each) as u8, if i == each / 2 { x } else { b'0' + i as u8 }));
            }
        }
    }
    want.sort_by(|a, b| a.0.cmp(&b.0));
    let seen = read(g.labels());
    check(seen.len() == want.len(), "every change took effect");
    for (s, w) in seen.iter().zip(&want) {
        check((s.0 == w.0) & (s.1 == w.1), "every change took effect");
    }
    cover("end");
});
// two threads register many metrics while a third gathers
entry!(h_c27_many {
    let each = param("metrics", 6);
    let mut g = Gatherer::new();
    let shared = g.registry();
    unsafe { (*addr_of_mut!(KEPT)).reserve(64) };
    fn bits(ms: Vec<MetricFamily>) -> u64 {
        let mut seen = 0;
        for f in ms {
            match f.metrics() {
                Metrics::Gauge(ms) => {
                    for m in ms {
                        let v = m.value() as u64;
                        check(seen & v == 0, "a gathering has every metric once");
                        seen |= v;
                    }
                }
                _ => check(false, "a gauge is gathered as a gauge"),
            }
        }
        seen
    }
    {
        let mut tasks: Vec<Task> = Vec::new();
        for t in 0..2 {
            let r = if t == 0 { g.registry() } else { shared.clone() };
            tasks.push(Box::new(move || {
                for k in 0..each {
                    let i = t * each + k;
                    update(i, || {
                        let name = [b'a' + i as u8];
                        match GaugeBuilder::new(std::str::from_utf8(&name).unwrap()).initial_value((1u64 << i) as f64).registry(r.clone()).finish() {
                            Ok(m) => unsafe { (*addr_of_mut!(KEPT)).push(m) },
                            Err(_) => check(false, "a metric can be registered"),
                        }
                    });
                }
            }));
        }
        let g = &mut g;
        let gatherings = param("gatherings", 1);
        if gatherings > 0 {
            tasks.push(Box::new(move || {
                for _ in 0..gatherings {
                    let must = done() as u64;
                    let seen = bits(g.gather().into_vec());
                    check(seen & must == must, "a gathering has every metric registered before it started");
                }
            }));
        }
        parallel(tasks);
    }
    let x = below(2 * each as u64, "dropped");
    let x = concretize(x) as usize;
    check(bits(g.gather().into_vec()) == (1 << 2 * each) - 1, "a gathering has every metric registered before it started");
    unsafe { (*addr_of_mut!(KEPT)).retain(|m| m.value() != (1u64 << x) as f64) };
    check(bits(g.gather().into_vec()) == ((1 << 2 * each) - 1) & !(1 << x), "a gathering has every live metric");
    cover("end");
});
// many metrics of one family are gathered while the labels of one of them change
entry!(h_c27_sort {
    let n = param("metrics", 22);
    let mut g = Gatherer::new();
    let r = g.registry();
    let mut ms = Vec::new();
    for i in 0..n {
        let c = [b'b' + (i * 7 % n) as u8];
        ms.push(GaugeBuilder::new("g").initial_value((1u64 << i) as f64).label("l", std::str::from_utf8(&c).unwrap()).registry(r.clone()).finish().unwrap());
    }
    fn listed(ms: Vec<MetricFamily>) -> (u64, usize) {
        let (mut seen, mut k) = (0u64, 0);
        for f in ms {
            match f.metrics() {
                Metrics::Gauge(ms) => {
                    for m in ms {
                        let v = m.value() as u64;
                        check(seen & v == 0, "a gathering has every metric once");
                        seen |= v;
                        k += 1;
                    }
                }
                _ => check(false, "a gauge is gathered as a gauge"),
            }
        }
        (seen, k)
    }
    let which = choose(param("which", 2), "which") * (n / 2 - 1);
    let to = [["a", "zz"], ["a", "m"]][choose(param("to", 1), "to")];
    {
        let g = &mut g;
        let mut m = ms[which].clone();
        let mut tasks: Vec<Task> = Vec::new();
        tasks.push(Box::new(move || {
            if let Some(f) = no_panic("gathering does not panic while labels change", || g.gather()) {
                check(listed(f.into_vec()).0 == (1 << n) - 1, "a gathering has every metric, whose labels change or not");
            }
        }));
        tasks.push(Box::new(move || {
            for v in to.iter() {
                check(m.labels_mut().insert("l", v).is_ok(), "a good label is accepted");
            }
        }));
        parallel(tasks);
    }
    let (seen, k) = listed(g.gather().into_vec());
    check(seen == (1 << n) - 1, "a gathering has every metric registered before it started");
    check(k == n - (to[1] == "m") as usize || k == n, "metrics are listed by their labels");
    cover("end");
});
