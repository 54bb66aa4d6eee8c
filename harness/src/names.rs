//! C13, C14, C15, C28: metric names and labels.
use crate::rt::*;
use prometrics::label::{Label, Labels};
use prometrics::metric::MetricName;
use prometrics::metrics::*;
use prometrics::{ErrorKind, Result};
use std::hash::{Hash, Hasher};
use std::time::Duration;

/// A metric of any of the four kinds.
pub enum Any {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
macro_rules! each {
    ($x:expr, $m:pat => $e:expr) => {
        match $x {
            Any::C($m) => $e,
            Any::G($m) => $e,
            Any::H($m) => $e,
            Any::S($m) => $e,
        }
    };
}
impl Any {
    pub fn name(&self) -> &MetricName {
        each!(self, m => m.metric_name())
    }
    pub fn labels(&self) -> &Labels {
        each!(self, m => m.labels())
    }
    pub fn help(&self) -> Option<&str> {
        each!(self, m => m.help())
    }
    pub fn insert(&mut self, n: &str, v: &str) -> Result<()> {
        each!(self, m => m.labels_mut().insert(n, v))
    }
    pub fn remove(&mut self, n: &str) {
        each!(self, m => m.labels_mut().remove(n))
    }
    pub fn clear(&mut self) {
        each!(self, m => m.labels_mut().clear())
    }
    pub fn timestamp(&self) -> Option<i64> {
        each!(self, m => m.timestamp().get())
    }
    pub fn set_timestamp(&mut self, t: i64) {
        each!(self, m => m.timestamp_mut().set(t))
    }
    pub fn set_time(&mut self, t: std::time::SystemTime) {
        each!(self, m => m.timestamp_mut().set_time(t))
    }
    pub fn set_now(&mut self) {
        each!(self, m => m.timestamp_mut().set_now())
    }
    pub fn clear_timestamp(&mut self) {
        each!(self, m => m.timestamp_mut().clear())
    }
    pub fn text(&self) -> String {
        each!(self, m => m.to_string())
    }
    pub fn kind(&self) -> usize {
        match self {
            Any::C(_) => 0,
            Any::G(_) => 1,
            Any::H(_) => 2,
            Any::S(_) => 3,
        }
    }
}
impl Clone for Any {
    fn clone(&self) -> Any {
        match self {
            Any::C(m) => Any::C(m.clone()),
            Any::G(m) => Any::G(m.clone()),
            Any::H(m) => Any::H(m.clone()),
            Any::S(m) => Any::S(m.clone()),
        }
    }
}
#[derive(Clone, Default)]
pub struct Spec<'a> {
    pub namespace: Option<&'a str>,
    pub subsystem: Option<&'a str>,
    pub name: &'a str,
    pub help: Option<&'a str>,
    pub labels: Vec<(&'a str, &'a str)>,
    pub registries: Vec<prometrics::Registry>,
}
macro_rules! setup {
    ($s:expr, $b:expr) => {{
        let mut b = $b;
        if let Some(n) = $s.namespace {
            b.namespace(n);
        }
        if let Some(n) = $s.subsystem {
            b.subsystem(n);
        }
        if let Some(h) = $s.help {
            b.help(h);
        }
        for (n, v) in &$s.labels {
            b.label(n, v);
        }
        for r in &$s.registries {
            b.registry(r.clone());
        }
        b
    }};
}
pub const KINDS: usize = 4;
pub fn build(kind: usize, s: &Spec) -> Result<Any> {
    Ok(match kind {
        0 => Any::C(setup!(s, CounterBuilder::new(s.name)).finish()?),
        1 => Any::G(setup!(s, GaugeBuilder::new(s.name)).finish()?),
        2 => Any::H(setup!(s, HistogramBuilder::new(s.name)).finish()?),
        _ => Any::S(setup!(s, SummaryBuilder::new(s.name, Duration::from_secs(60))).finish()?),
    })
}

// ---------------------------------------------------------------- symbolic text
/// the bytes of one character: any ASCII one (wide = 0), or any one of some block of `wide` bytes
pub fn push_char(v: &mut Vec<u8>, wide: usize, name: &str) {
    match wide {
        1 => {
            // U+0080..U+07FF
            let l = sym(5, name) as u8;
            assume(l >= 2);
            v.push(0xC0 | l);
            v.push(0x80 | sym(6, name) as u8);
        }
        2 => {
            // U+F000..U+FFFF
            v.push(0xEF);
            v.push(0x80 | sym(6, name) as u8);
            v.push(0x80 | sym(6, name) as u8);
        }
        3 => {
            // U+10000..U+3FFFF
            let k = sym(6, name) as u8;
            assume(k >= 16);
            v.push(0xF0);
            v.push(0x80 | k);
            v.push(0x80 | sym(6, name) as u8);
            v.push(0x80 | sym(6, name) as u8);
        }
        _ => v.push(sym(7, name) as u8),
    }
}
/// Any text of 0..=max characters, at most one of which is not ASCII (and then the parameter
/// "wide" says from how many of the blocks).
pub fn text(max: usize, name: &str) -> String {
    let n = choose(max + 1, name);
    let wide = if n == 0 { 0 } else { choose(1 + n * param("wide", 3), name) };
    let mut v = Vec::with_capacity(16);
    for i in 0..n {
        let w = if wide > 0 && (wide - 1) / param("wide", 3) == i { 1 + (wide - 1) % param("wide", 3) } else { 0 };
        push_char(&mut v, w, name);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn letter(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z'))
}
fn digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9')
}
/// [a-zA-Z_:][a-zA-Z0-9_:]*
pub fn metric_name_ok(s: &str) -> bool {
    let mut ok = !s.is_empty();
    for (i, c) in s.bytes().enumerate() {
        ok = ok & (letter(c) | (c == b'_') | (c == b':') | (digit(c) & (i > 0)));
    }
    ok
}
/// [a-zA-Z_][a-zA-Z0-9_]* not beginning with two underscores
pub fn label_name_ok(s: &str) -> bool {
    let b = s.as_bytes();
    let mut ok = !b.is_empty();
    for (i, c) in s.bytes().enumerate() {
        ok = ok & (letter(c) | (c == b'_') | (digit(c) & (i > 0)));
    }
    if b.len() > 1 {
        ok = ok & !((b[0] == b'_') & (b[1] == b'_'));
    }
    ok
}
pub fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok = ok & (a[i] == b[i]);
        }
    }
    ok
}

// C13: any text as one of the parts, the other parts present or not
entry!(h_c13_parts {
    let kind = choose(KINDS, "kind");
    let which = choose(3, "part");
    let t = text(param("chars", 2), "text");
    let mut s = Spec { name: "n", ..Spec::default() };
    if which != 0 && flag("namespace") {
        s.namespace = Some("A:0");
    }
    if which != 1 && flag("subsystem") {
        s.subsystem = Some("_Z9");
    }
    match which {
        0 => s.namespace = Some(&t),
        1 => s.subsystem = Some(&t),
        _ => s.name = &t,
    }
    let ok = metric_name_ok(&t);
    match no_panic("building does not panic", || build(kind, &s)) {
        None => return,
        Some(Err(e)) => {
            check(!ok, "a well-formed name is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        Some(Ok(m)) => {
            check(ok, "a malformed name is refused");
            let n = m.name();
            check(same(n.name(), s.name), "the name reads back");
            check(n.namespace().is_some() == s.namespace.is_some() && n.namespace().map_or(true, |x| same(x, s.namespace.unwrap())), "the namespace reads back");
            check(n.subsystem().is_some() == s.subsystem.is_some() && n.subsystem().map_or(true, |x| same(x, s.subsystem.unwrap())), "the subsystem reads back");
            let mut full = String::new();
            for p in [s.namespace, s.subsystem].iter() {
                if let Some(p) = p {
                    full.push_str(p);
                    full.push('_');
                }
            }
            full.push_str(s.name);
            check(same(&n.to_string(), &full), "the full name is the parts joined by underscores");
            cover("accepted");
        }
    }
    cover("end");
});
// C13: all three parts arbitrary: each is checked
entry!(h_c13_all {
    let kind = choose(KINDS, "kind");
    let mut t = [[0u8; 1]; 3];
    for i in 0..3 {
        t[i][0] = sym(7, "char") as u8;
    }
    let p = |i: usize| unsafe { std::str::from_utf8_unchecked(&t[i]) };
    let s = Spec { namespace: Some(p(0)), subsystem: Some(p(1)), name: p(2), ..Spec::default() };
    let ok = metric_name_ok(p(0)) & metric_name_ok(p(1)) & metric_name_ok(p(2));
    match no_panic("building does not panic", || build(kind, &s)) {
        None => return,
        Some(Err(e)) => {
            check(!ok, "well-formed names are accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        Some(Ok(m)) => {
            check(ok, "a malformed name is refused");
            let full = [p(0), "_", p(1), "_", p(2)].concat();
            check(same(&m.name().to_string(), &full), "the full name is the parts joined by underscores");
            cover("accepted");
        }
    }
    cover("end");
});

// C14: any text as a label name, through every way of giving one
const NAMED: [&str; 8] = ["le", "quantile", "Le", "l", "lee", "quantil", "quantile_", "Quantile"];
fn reserved(kind: usize, n: &str) -> bool {
    (kind == 2 && same(n, "le")) | (kind == 3 && same(n, "quantile"))
}
fn label_name() -> String {
    match choose(1 + NAMED.len() + 8, "name") {
        0 => text(param("chars", 2), "text"),
        k if k <= NAMED.len() => NAMED[k - 1].to_string(),
        k => {
            // "quantile" with any one character at one place
            let at = k - NAMED.len() - 1;
            let mut v = b"quantile".to_vec();
            v[at] = sym(7, "text") as u8;
            unsafe { String::from_utf8_unchecked(v) }
        }
    }
}
entry!(h_c14_new {
    let t = label_name();
    let v = ["", "x", "\"\\\n"][choose(3, "value")];
    match no_panic("making a label does not panic", || Label::new(&t, v)) {
        None => return,
        Some(Err(e)) => {
            check(!label_name_ok(&t), "a well-formed label name is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        Some(Ok(l)) => {
            check(label_name_ok(&t), "a malformed label name is refused");
            check(same(l.name(), &t) & same(l.value(), v), "name and value read back");
            cover("accepted");
        }
    }
    cover("end");
});
entry!(h_c14_build {
    let kind = choose(KINDS, "kind");
    let t = label_name();
    // with another label before and after it
    let mut s = Spec { name: "n", ..Spec::default() };
    let n = choose(3, "place");
    if n == 1 {
        s.labels.push(("k", "1"));
    }
    s.labels.push((&t, "v"));
    if n == 2 {
        s.labels.push(("k", "1"));
    }
    let ok = label_name_ok(&t) & !reserved(kind, &t);
    match no_panic("building does not panic", || build(kind, &s)) {
        None => return,
        Some(Err(e)) => {
            check(!ok, "a well-formed label name is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        Some(Ok(m)) => {
            check(ok, "a malformed or reserved label name is refused");
            let mut found = false;
            for l in m.labels().iter() {
                found = found | (same(l.name(), &t) & (n == 2 || same(l.value(), "v")));
            }
            check(found, "an accepted label is there");
            cover("accepted");
        }
    }
    cover("end");
});
entry!(h_c14_insert {
    let kind = choose(KINDS, "kind");
    let t = label_name();
    let before = choose(3, "labels");
    let mut s = Spec { name: "n", ..Spec::default() };
    if before > 0 {
        s.labels.push(("k", "1"));
    }
    if before > 1 {
        s.labels.push(("m", "2"));
    }
    let mut m = build(kind, &s).unwrap();
    let ok = label_name_ok(&t) & !reserved(kind, &t);
    match no_panic("inserting does not panic", || m.insert(&t, "v")) {
        None => return,
        Some(Err(e)) => {
            check(!ok, "a well-formed label name is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            let l: Vec<_> = m.labels().iter().collect();
            check(l.len() == before, "a refused insertion changes nothing");
            for i in 0..before {
                check(same(l[i].name(), ["k", "m"][i]) & same(l[i].value(), ["1", "2"][i]), "a refused insertion changes nothing");
            }
            cover("refused");
        }
        Some(Ok(())) => {
            check(ok, "a malformed or reserved label name is refused");
            check(m.labels().get(&t).map_or(false, |l| same(l.value(), "v")), "an accepted label is there");
            cover("accepted");
        }
    }
    cover("end");
});

// C15: labels as a map, against a map from four names to the last value
pub struct Model {
    has: [bool; 4],
    val: [u8; 4],
}
impl Model {
    fn set(&mut self, n: u8, v: u8) {
        for k in 0..4 {
            let m = (k as u8 == n) as u8;
            self.has[k] = self.has[k] | (m != 0);
            self.val[k] = (self.val[k] & m.wrapping_sub(1)) | (v & m.wrapping_neg());
        }
    }
    fn remove(&mut self, n: u8) {
        for k in 0..4 {
            self.has[k] = self.has[k] & (k as u8 != n);
        }
    }
    fn check(&self, labels: &Labels) {
        let mut n = 0u64;
        for k in 0..4 {
            n += self.has[k] as u64;
        }
        check(labels.len() as u64 == n, "the length is the number of names");
        check(labels.is_empty() == (n == 0), "empty when there is no label");
        let mut listed = 0;
        let mut last = 0u8;
        for l in labels.iter() {
            let (name, value) = (l.name().as_bytes(), l.value().as_bytes());
            check((name.len() == 1) & (value.len() == 1), "names and values are as given");
            let (c, v) = (name[0], value[0]);
            check(listed == 0 || last < c, "labels are listed once each, in name order");
            let mut ok = false;
            for k in 0..4 {
                ok = ok | ((c == b'a' + k as u8) & self.has[k] & (v == self.val[k]));
            }
            check(ok, "a listed label has the value given last");
            last = c;
            listed += 1;
        }
        check(listed as u64 == n, "every label is listed");
        for k in 0..4 {
            match labels.get(["a", "b", "c", "d"][k]) {
                Some(l) => {
                    check(self.has[k] & (l.name().as_bytes()[0] == b'a' + k as u8) & (l.value().as_bytes()[0] == self.val[k]), "lookup finds the label with the value given last");
                }
                None => check(!self.has[k], "lookup finds every label"),
            }
        }
        check(labels.get("").is_none() & labels.get("ab").is_none(), "lookup finds nothing else");
    }
}
fn one(c: u8) -> String {
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
entry!(h_c15_map {
    let kind = param("kind", KINDS);
    let kind = if kind == KINDS { choose(KINDS, "kind") } else { kind };
    let mut m = Model { has: [false; 4], val: [0; 4] };
    let given: Vec<(u8, String, u8, String)> = (0..choose(param("built", 2) + 1, "builder labels")).map(|_| {
        let (n, v) = (sym(2, "name") as u8, sym(7, "value") as u8);
        (n, one(b'a' + n), v, one(v))
    }).collect();
    let mut s = Spec { name: "n", ..Spec::default() };
    for (n, name, v, value) in &given {
        s.labels.push((name, value));
        m.set(*n, *v);
    }
    let mut clones = [build(kind, &s).unwrap(), build(kind, &Spec { name: "other", labels: vec![("a", "x")], ..Spec::default() }).unwrap()];
    let other = clones[1].clone();
    clones[1] = clones[0].clone();
    m.check(clones[0].labels());
    for i in 0..param("ops", 2) {
        let who = i % 2;
        match choose(3, "op") {
            0 => {
                let (n, v) = (sym(2, "name") as u8, sym(7, "value") as u8);
                let r = clones[who].insert(&one(b'a' + n), &one(v));
                check(r.is_ok(), "a good label is accepted");
                m.set(n, v);
            }
            1 => {
                let n = sym(2, "name") as u8;
                clones[who].remove(&one(b'a' + n));
                m.remove(n);
            }
            _ => {
                clones[who].clear();
                m.has = [false; 4];
            }
        }
        m.check(clones[1 - who].labels());
    }
    m.check(clones[0].labels());
    check(other.labels().len() == 1, "other metrics keep their labels");
    cover("end");
});
// C15: names of different lengths, one a prefix of another; values do not matter for the order
entry!(h_c15_order {
    let kind = choose(KINDS, "kind");
    let mut names: Vec<String> = Vec::new();
    for _ in 0..param("names", 3) {
        let mut v = Vec::new();
        for i in 0..1 + choose(2, "length") {
            let c = sym(7, "char") as u8;
            assume(letter(c) | (c == b'_') | (digit(c) & (i > 0)));
            v.push(c);
        }
        let t = unsafe { String::from_utf8_unchecked(v) };
        assume(label_name_ok(&t));
        assume(!((kind == 2) & same(&t, "le")));
        names.push(t);
    }
    let values = ["z", "", "a"];
    let built = choose(2, "builder");
    let mut s = Spec { name: "n", ..Spec::default() };
    for i in 0..built * names.len() {
        s.labels.push((&names[i], values[i]));
    }
    let mut m = build(kind, &s).unwrap();
    for i in built * names.len()..names.len() {
        check(m.insert(&names[i], values[i]).is_ok(), "a good label is accepted");
    }
    let l: Vec<_> = m.labels().iter().collect();
    for i in 0..l.len() {
        if i > 0 {
            check(l[i - 1].name().as_bytes() < l[i].name().as_bytes(), "labels are listed once each, in name order");
        }
    }
    for (i, n) in names.iter().enumerate() {
        let mut overridden = false;
        for later in &names[i + 1..] {
            overridden = overridden | same(later, n);
        }
        let mut found = false;
        for x in &l {
            found = found | (same(x.name(), n) & same(x.value(), values[i]));
        }
        check(found != overridden, "each name has the value given last");
    }
    check(m.labels().len() == l.len(), "the length is the number of labels listed");
    cover("end");
});

// C28: equality, order and hash
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn fed<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Recorder::default();
    x.hash(&mut h);
    h.0
}
fn bytes_same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok = ok & (a[i] == b[i]);
        }
    }
    ok
}
/// a < b in byte order
fn bytes_less(a: &[u8], b: &[u8]) -> bool {
    let mut less = a.len() < b.len();
    let n = a.len().min(b.len());
    for i in (0..n).rev() {
        less = (a[i] < b[i]) | ((a[i] == b[i]) & less);
    }
    less
}
macro_rules! compare {
    ($p:expr, $q:expr, $same:expr, $less:expr) => {{
        let (p, q, same, less) = ($p, $q, $same, $less);
        check((*p == *q) == same, "equality agrees");
        check((*p != *q) == !same, "inequality agrees");
        check((p.cmp(q) == std::cmp::Ordering::Less) == less, "less agrees");
        check((p.cmp(q) == std::cmp::Ordering::Equal) == same, "the order's equality agrees");
        check(p.partial_cmp(q) == Some(p.cmp(q)), "the partial order agrees with the order");
        check((*p < *q) == less, "the operator < agrees");
        check((*p <= *q) == (less | same), "the operator <= agrees");
        check((*p > *q) == !(less | same), "the operator > agrees");
        check((*p >= *q) == !less, "the operator >= agrees");
        check(q.cmp(p) == p.cmp(q).reverse(), "the order is antisymmetric");
        check(p.cmp(p) == std::cmp::Ordering::Equal && *p == *p, "the order is reflexive");
        if same {
            check(bytes_same(&fed(p), &fed(q)), "equal ones hash alike");
            cover("equal");
        } else {
            cover("different");
        }
    }};
}
fn part(name: &str, max: usize, optional: bool) -> Option<String> {
    let n = choose(max + optional as usize, name) + !optional as usize;
    if n == 0 {
        return None;
    }
    let mut v = Vec::new();
    for _ in 0..n {
        let c = sym(7, name) as u8;
        v.push(c);
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    assume(metric_name_ok(&s));
    Some(s)
}
entry!(h_c28_names {
    let max = param("chars", 1);
    let mut full = Vec::new();
    let mut ms = Vec::new();
    for i in 0..2 {
        let (ns, ss, n) = (part("namespace", max, true), part("subsystem", 1, true), part("name", if i == 0 { max } else { 3 }, false).unwrap());
        let s = Spec { namespace: ns.as_ref().map(|s| s.as_str()), subsystem: ss.as_ref().map(|s| s.as_str()), name: &n, ..Spec::default() };
        ms.push(build(i, &s).unwrap());
        let mut f = String::new();
        for p in [&ns, &ss].iter() {
            if let Some(p) = p {
                f.push_str(p);
                f.push('_');
            }
        }
        f.push_str(&n);
        full.push(f);
    }
    let (a, b) = (full[0].as_bytes(), full[1].as_bytes());
    compare!(ms[0].name(), ms[1].name(), bytes_same(a, b), bytes_less(a, b));
    cover("end");
});
entry!(h_c28_labels {
    let mut t: Vec<(String, String)> = Vec::new();
    for _ in 0..2 {
        let mut s = [String::new(), String::new()];
        for k in 0..2 {
            let mut v = Vec::new();
            for _ in 0..choose(2 + k, "length") + (1 - k) {
                v.push(sym(7, "char") as u8);
            }
            s[k] = unsafe { String::from_utf8_unchecked(v) };
        }
        assume(label_name_ok(&s[0]));
        let [n, v] = s;
        t.push((n, v));
    }
    let (p, q) = (Label::new(&t[0].0, &t[0].1).unwrap(), Label::new(&t[1].0, &t[1].1).unwrap());
    let (n0, n1, v0, v1) = (t[0].0.as_bytes(), t[1].0.as_bytes(), t[0].1.as_bytes(), t[1].1.as_bytes());
    let same = bytes_same(n0, n1) & bytes_same(v0, v1);
    let less = bytes_less(n0, n1) | (bytes_same(n0, n1) & bytes_less(v0, v1));
    compare!(&p, &q, same, less);
    cover("end");
});

// ---------------------------------------------------------------- long names, many labels
/// a long text that is fine as a name, with any one character at one of some places
fn long(n: usize, name: &str) -> String {
    let at = [0, 1, 2, n / 2, n - 2, n - 1][choose(6, "place")];
    let wide = choose(1 + param("wide", 1), "wide");
    let mut v = Vec::new();
    for i in 0..n {
        if i == at {
            push_char(&mut v, wide, name);
        } else {
            v.push(b"zQ_a9Kb_0"[i % 9]);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn length() -> usize {
    [9, 16, 33, param("chars", 70)][choose(4, "length")]
}
// C13: long parts
entry!(h_c13_long {
    let kind = choose(KINDS, "kind");
    let which = choose(3, "part");
    let t = long(length(), "text");
    let other = "y".repeat(40);
    let mut s = Spec { name: &other, namespace: Some(&other), subsystem: Some("b_c"), ..Spec::default() };
    match which {
        0 => s.namespace = Some(&t),
        1 => s.subsystem = Some(&t),
        _ => s.name = &t,
    }
    let ok = metric_name_ok(&t);
    match no_panic("building does not panic", || build(kind, &s)) {
        None => return,
        Some(Err(e)) => {
            check(!ok, "a well-formed name is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        Some(Ok(m)) => {
            check(ok, "a malformed name is refused");
            let n = m.name();
            check(same(n.name(), s.name), "the name reads back");
            check(n.namespace().map_or(false, |x| same(x, s.namespace.unwrap())), "the namespace reads back");
            check(n.subsystem().map_or(false, |x| same(x, s.subsystem.unwrap())), "the subsystem reads back");
            let full = [s.namespace.unwrap(), "_", s.subsystem.unwrap(), "_", s.name].concat();
            check(same(&n.to_string(), &full), "the full name is the parts joined by underscores");
            cover("accepted");
        }
    }
    cover("end");
});
// C14: long label names, on a metric with many labels
entry!(h_c14_long {
    let kind = choose(KINDS, "kind");
    let t = long(length(), "text");
    let names: Vec<String> = (0..12).map(|i| ["k", &"k".repeat(i)].concat()).collect();
    let mut s = Spec { name: "n", ..Spec::default() };
    for n in &names {
        s.labels.push((n, "1"));
    }
    let how = choose(3, "how");
    if how == 1 {
        s.labels.insert(5, (&t, "v"));
    }
    let ok = label_name_ok(&t);
    let r = no_panic("it does not panic", || match how {
        0 => Label::new(&t, "v").map(|l| check(same(l.name(), &t) & same(l.value(), "v"), "name and value read back")),
        _ => build(kind, &s).and_then(|mut m| {
            if how == 2 {
                let r = m.insert(&t, "v");
                if r.is_err() {
                    check(m.labels().len() == 12, "a refused insertion changes nothing");
                    return r;
                }
            }
            check(m.labels().get(&t).map_or(false, |l| same(l.value(), "v")), "an accepted label is there");
            Ok(())
        }),
    });
    match r {
        None => return,
        Some(Err(e)) => {
            check(!ok, "a well-formed label name is accepted");
            check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
            std::mem::forget(e);
            cover("refused");
        }
        Some(Ok(())) => {
            check(ok, "a malformed label name is refused");
            cover("accepted");
        }
    }
    cover("end");
});
// C15: many labels, among them one with any name of up to three characters
const MANY: [&str; 16] = ["a", "abc", "z9", "ab", "_", "B", "abcd", "b", "k10", "aa", "z", "ba", "k1", "_a", "k2", "l"];
struct Op<'a> {
    put: bool,
    name: &'a str,
    value: u8,
}
/// the value of the name after the operations
fn after(ops: &[Op], name: &str) -> (bool, u8) {
    let (mut has, mut val) = (false, 0u8);
    for o in ops {
        let e = same(o.name, name);
        let m = (e as u8).wrapping_neg();
        has = if o.put { has | e } else { has & !e };
        val = (val & !m) | (o.value & m);
    }
    (has, val)
}
entry!(h_c15_many {
    let kind = [0, 1, 2, 3][choose(param("kinds", 2), "kind")];
    let mut v = Vec::new();
    for i in 0..1 + choose(param("length", 3), "length") {
        let c = sym(7, "char") as u8;
        assume(letter(c) | (c == b'_') | (digit(c) & (i > 0)));
        v.push(c);
    }
    let x = unsafe { String::from_utf8_unchecked(v) };
    assume(label_name_ok(&x));
    assume(!((kind == 2) & same(&x, "le")));
    let values: Vec<String> = (0..40).map(|i| one(33 + i as u8)).collect();
    let mut ops: Vec<Op> = Vec::new();
    let mut s = Spec { name: "n", ..Spec::default() };
    for i in 0..8 {
        let n = MANY[i * 5 % 16];
        s.labels.push((n, &values[i]));
        ops.push(Op { put: true, name: n, value: 33 + i as u8 });
    }
    let mut m = build(kind, &s).unwrap();
    let mut other = m.clone();
    fn put<'a>(m: &mut Any, ops: &mut Vec<Op<'a>>, n: &'a str, i: usize) {
        check(m.insert(n, &one(33 + i as u8)).is_ok(), "a good label is accepted");
        ops.push(Op { put: true, name: n, value: 33 + i as u8 });
    }
    let xs: &str = &x;
    let when = choose(2, "when");
    if when == 0 {
        put(&mut other, &mut ops, xs, 8);
    }
    for i in 8..16 {
        put(&mut m, &mut ops, MANY[i * 5 % 16], i + 1);
    }
    put(&mut other, &mut ops, "ab", 20);
    if when == 1 {
        put(&mut other, &mut ops, xs, 21);
    }
    put(&mut m, &mut ops, "z", 22);
    let gone = [xs, "a", "ab", "_", "z9", "k1", "zz"][choose(7, "removed")];
    other.remove(gone);
    ops.push(Op { put: false, name: gone, value: 0 });
    put(&mut m, &mut ops, "k3", 23);
    // all sixteen, the arbitrary one and k3
    let mut all: Vec<&str> = MANY.to_vec();
    all.push("k3");
    let mut count = 0u64;
    let mut known = false;
    let mut states = Vec::new();
    for n in &all {
        let (has, val) = after(&ops, n);
        count += has as u64;
        known = known | same(n, xs);
        states.push((*n, has, val));
    }
    let (has, val) = after(&ops, xs);
    count += (has & !known) as u64;
    states.push((xs, has, val));
    let labels = m.labels();
    for (n, has, val) in &states {
        match labels.get(n) {
            Some(l) => check(*has & same(l.name(), n) & (l.value().as_bytes()[0] == *val), "lookup finds the label with the value given last"),
            None => check(!*has, "lookup finds every label"),
        }
    }
    let mut listed = 0u64;
    let mut last = String::new();
    for l in labels.iter() {
        check(listed == 0 || bytes_less(last.as_bytes(), l.name().as_bytes()), "labels are listed once each, in name order");
        let mut ok = false;
        for (n, has, val) in &states {
            ok = ok | (*has & same(n, l.name()) & (l.value().as_bytes()[0] == *val));
        }
        check(ok, "a listed label has the value given last");
        last = l.name().to_string();
        listed += 1;
    }
    check(listed == count, "every label is listed");
    check(labels.len() as u64 == count, "the length is the number of names");
    check(other.labels().len() as u64 == count, "clones share their labels");
    cover("end");
});
// C28: long names
fn shape(i: usize, x: &str) -> (Option<String>, Option<String>, String) {
    let (a, b) = (["p", x, "qrstuvwxyzabcdef"].concat(), ["ghijklmnopq", x, "rs"].concat());
    match i {
        0 => (Some(a), None, b),
        1 => (None, Some(a), b),
        2 => (None, None, [&a[..], "_", &b].concat()),
        3 => (Some(a), Some("ghij".to_string()), b),
        4 => (None, None, [&a[..], "_ghij_", &b].concat()),
        _ => (Some([&a[..], "_ghij"].concat()), None, b),
    }
}
entry!(h_c28_long {
    let mut full = Vec::new();
    let mut ms = Vec::new();
    for i in 0..2 {
        let c = sym(7, "char") as u8;
        let x = one(c);
        assume(letter(c) | (c == b'_') | (c == b':') | digit(c));
        let (ns, ss, n) = shape(choose(6, "shape"), &x);
        let s = Spec { namespace: ns.as_ref().map(|s| s.as_str()), subsystem: ss.as_ref().map(|s| s.as_str()), name: &n, ..Spec::default() };
        ms.push(build(i, &s).unwrap());
        let mut f = String::new();
        for p in [&ns, &ss].iter() {
            if let Some(p) = p {
                f.push_str(p);
                f.push('_');
            }
        }
        f.push_str(&n);
        full.push(f);
    }
    let (a, b) = (full[0].as_bytes(), full[1].as_bytes());
    compare!(ms[0].name(), ms[1].name(), bytes_same(a, b), bytes_less(a, b));
    cover("end");
});
entry!(h_c28_long_labels {
    let mut t: Vec<(String, String)> = Vec::new();
    for _ in 0..2 {
        let c = sym(7, "char") as u8;
        assume(letter(c) | (c == b'_') | digit(c));
        let v = one(sym(7, "value char") as u8);
        let n = ["abcdefghijklmnop", &one(c), "q"].concat();
        let n = if flag("shorter name") { n[..17].to_string() } else { n };
        let v = ["0123456789abcdef", &v, "zz"].concat();
        let v = if flag("shorter value") { v[..17].to_string() } else { v };
        t.push((n, v));
    }
    let (p, q) = (Label::new(&t[0].0, &t[0].1).unwrap(), Label::new(&t[1].0, &t[1].1).unwrap());
    let (n0, n1, v0, v1) = (t[0].0.as_bytes(), t[1].0.as_bytes(), t[0].1.as_bytes(), t[1].1.as_bytes());
    let same = bytes_same(n0, n1) & bytes_same(v0, v1);
    let less = bytes_less(n0, n1) | (bytes_same(n0, n1) & bytes_less(v0, v1));
    compare!(&p, &q, same, less);
    cover("end");
});
