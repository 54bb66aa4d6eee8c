//! C16, C17, C18: the text format, read back by an independent reader.
use crate::names::*;
use crate::rt::*;
use prometrics::metric::{MetricFamilies, Metrics};
use prometrics::metrics::*;
use prometrics::Gatherer;
use std::time::Duration;

// ---------------------------------------------------------------- reader of the text format
pub struct Line {
    pub name: Vec<u8>,
    pub labels: Vec<(Vec<u8>, Vec<u8>)>,
    pub value: String,
    pub time: Option<String>,
    /// are there braces
    pub braces: bool,
}
/// The value of a quoted text that starts after the quote: (unescaped, bytes used including the quote)
fn unquote(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => return Some((v, i + 1)),
            b'\\' => {
                i += 1;
                match b.get(i) {
                    Some(b'\\') => v.push(b'\\'),
                    Some(b'"') => v.push(b'"'),
                    Some(b'n') => v.push(b'\n'),
                    _ => return None,
                }
            }
            c => v.push(c),
        }
        i += 1;
    }
    None
}
fn word(b: &[u8], i: &mut usize) -> Vec<u8> {
    let s = *i;
    while *i < b.len() && b[*i] != b' ' {
        *i += 1;
    }
    b[s..*i].to_vec()
}
pub fn sample(b: &[u8]) -> Option<Line> {
    let mut i = 0;
    while i < b.len() && b[i] != b'{' && b[i] != b' ' {
        i += 1;
    }
    let name = b[..i].to_vec();
    let mut labels = Vec::new();
    let braces = i < b.len() && b[i] == b'{';
    if braces {
        i += 1;
        loop {
            if *b.get(i)? == b'}' {
                i += 1;
                break;
            }
            let s = i;
            while *b.get(i)? != b'=' {
                i += 1;
            }
            let n = b[s..i].to_vec();
            i += 1;
            if *b.get(i)? != b'"' {
                return None;
            }
            i += 1;
            let (v, used) = unquote(&b[i..])?;
            i += used;
            labels.push((n, v));
            match *b.get(i)? {
                b',' => i += 1,
                b'}' => {}
                _ => return None,
            }
        }
    }
    if name.is_empty() || *b.get(i)? != b' ' {
        return None;
    }
    i += 1;
    let value = unsafe { String::from_utf8_unchecked(word(b, &mut i)) };
    let mut time = None;
    if i < b.len() {
        i += 1;
        time = Some(unsafe { String::from_utf8_unchecked(word(b, &mut i)) });
        if i < b.len() {
            return None;
        }
    }
    Some(Line { name, labels, value, time, braces })
}
pub fn lines(s: &str) -> Vec<&[u8]> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut start = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            v.push(&b[start..i]);
            start = i + 1;
        }
    }
    if start < b.len() {
        v.push(&b[start..]);
    }
    v
}
fn starts(b: &[u8], p: &str) -> bool {
    b.len() >= p.len() && &b[..p.len()] == p.as_bytes()
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok = ok & (a[i] == b[i]);
        }
    }
    ok
}
/// a metric of the kind with something to show: a bucket, a quantile with a sample
fn shown(kind: usize, s: &Spec) -> Any {
    match kind {
        2 => {
            let mut b = HistogramBuilder::new(s.name);
            b.bucket(0.5);
            for (n, v) in &s.labels {
                b.label(n, v);
            }
            if let Some(h) = s.help {
                b.help(h);
            }
            for r in &s.registries {
                b.registry(r.clone());
            }
            Any::H(b.finish().unwrap())
        }
        3 => {
            let mut b = SummaryBuilder::new(s.name, Duration::from_secs(60));
            b.quantile(0.5);
            for (n, v) in &s.labels {
                b.label(n, v);
            }
            if let Some(h) = s.help {
                b.help(h);
            }
            for r in &s.registries {
                b.registry(r.clone());
            }
            let m = b.finish().unwrap();
            m.observe(3.0);
            Any::S(m)
        }
        k => build(k, s).unwrap(),
    }
}

/// with the parameter "padding" the text continues a long one
fn padded(t: String) -> String {
    let n = param("padding", 0);
    if n == 0 {
        return t;
    }
    let mut s = String::new();
    for i in 0..n {
        s.push(['x', ' ', '\\', 'é', '"', '}', '\n', ','][i % 8]);
    }
    s + &t
}
// C16: arbitrary label values
entry!(h_c16_values {
    let kind = choose(KINDS, "kind");
    let gathered = flag("gathered");
    let v = padded(text(param("chars", 2), "value"));
    let w = ["", "\\n\"\n\\"][choose(2, "other")];
    let mut g = Gatherer::new();
    let late = flag("inserted later");
    let mut s = Spec { name: "n", registries: vec![g.registry()], ..Spec::default() };
    if !late {
        s.labels = vec![("l", &v), ("m", w)];
    }
    let mut m = shown(kind, &s);
    if late {
        check(m.insert("m", w).is_ok() && m.insert("l", &v).is_ok(), "good labels are accepted");
    }
    let text = if gathered { g.gather().to_text() } else { m.text() };
    let mut samples = 0;
    for l in lines(&text) {
        if starts(l, "# ") {
            check(gathered & starts(l, "# TYPE n "), "the only other line is the TYPE line");
            continue;
        }
        let l = match sample(l) { Some(l) => l, None => return check(false, "a sample line is readable") };
        let first = &l.name[..];
        let extra = match kind {
            2 if first == b"n_bucket" => Some("le"),
            3 if first == b"n" => Some("quantile"),
            _ => None,
        };
        let known = match kind {
            2 => first == b"n_bucket" || first == b"n_sum" || first == b"n_count",
            3 => first == b"n" || first == b"n_sum" || first == b"n_count",
            _ => first == b"n",
        };
        check(known, "a sample line begins with the metric's name");
        check(l.labels.len() == 2 + extra.is_some() as usize, "a sample line has exactly the metric's labels");
        let mut mine = Vec::new();
        for (n, v) in &l.labels {
            if Some(&n[..]) != extra.map(|x| x.as_bytes()) {
                mine.push((n, v));
            }
        }
        check(mine.len() == 2, "a sample line has exactly the metric's labels");
        check(eq(mine[0].0, b"l") & eq(mine[1].0, b"m"), "the label names read back, in order");
        check(eq(mine[0].1, v.as_bytes()) & eq(mine[1].1, w.as_bytes()), "the label values read back");
        check(!matches!(number(&l.value), Num::Bad) & l.time.is_none(), "a number follows the labels");
        samples += 1;
    }
    check(samples == [1, 1, 4, 3][kind], "there is one line per sample");
    cover("end");
});
// C16: a label on its own, and a whole set of labels
entry!(h_c16_label {
    let v = padded(text(param("chars", 3), "value"));
    let l = prometrics::label::Label::new("a", &v).unwrap();
    let t = l.to_string();
    let b = t.as_bytes();
    check(starts(b, "a=\""), "a label renders as its name and its quoted value");
    match unquote(&b[3..]) {
        Some((got, used)) => {
            check(used == b.len() - 3, "the value ends where the label does");
            check(eq(&got, v.as_bytes()), "the value reads back");
        }
        None => check(false, "the value is readable"),
    }
    for c in b {
        check(*c != b'\n', "there is no line break");
    }
    let mut m = build(0, &Spec { name: "n", ..Spec::default() }).unwrap();
    check(m.insert("a", &v).is_ok(), "a good label is accepted");
    let set = m.labels().to_string();
    check(same(&set, &["{", &t, "}"].concat()), "a set of labels renders its labels in braces");
    cover("end");
});

// C17: arbitrary help
fn unhelp(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            i += 1;
            match b.get(i) {
                Some(b'\\') => v.push(b'\\'),
                Some(b'n') => v.push(b'\n'),
                _ => return None,
            }
        } else {
            v.push(b[i]);
        }
        i += 1;
    }
    Some(v)
}
const KIND: [&str; 4] = ["counter", "gauge", "histogram", "summary"];
entry!(h_c17_help {
    let kind = choose(KINDS, "kind");
    let has = choose(4, "help") != 0;
    let h = padded(text(if has { param("chars", 2) } else { 0 }, "help text"));
    let mut g = Gatherer::new();
    // a family before it and one after it, without help
    let _a = build(0, &Spec { name: "a", registries: vec![g.registry()], ..Spec::default() });
    let s = Spec { name: "n", help: if has { Some(&h) } else { None }, registries: vec![g.registry()], ..Spec::default() };
    let m = shown(kind, &s);
    let _z = build(1, &Spec { name: "z", help: Some("about z"), registries: vec![g.registry()], ..Spec::default() });
    check(m.help().is_some() == has && m.help().map_or(true, |x| same(x, &h)), "the help reads back from the metric");
    let families: MetricFamilies = g.gather();
    {
        let f = families.as_ref();
        check(f.len() == 3, "there are three families");
        check(f[1].help().is_some() == has && f[1].help().map_or(true, |x| same(x, &h)), "the help reads back from the family");
    }
    let text = families.to_text();
    let ls = lines(&text);
    let mut at = 0;
    let next = |at: &mut usize| -> &[u8] {
        *at += 1;
        ls.get(*at - 1).map_or(b"" as &[u8], |l| *l)
    };
    check(next(&mut at) == b"# TYPE a counter", "a family without help begins with its TYPE line");
    check(starts(next(&mut at), "a "), "then come its samples");
    if has {
        let l = next(&mut at);
        check(starts(l, "# HELP n "), "a family with help begins with its HELP line");
        match unhelp(&l[9.min(l.len())..]) {
            Some(t) => check(eq(&t, h.as_bytes()), "the help text reads back"),
            None => check(false, "the help text is readable"),
        }
    }
    check(next(&mut at) == ["# TYPE n ", KIND[kind]].concat().as_bytes(), "then comes the TYPE line");
    for _ in 0..[1, 1, 4, 3][kind] {
        check(starts(next(&mut at), "n"), "then come its samples");
    }
    check(next(&mut at) == b"# HELP z about z", "a family with help begins with its HELP line");
    check(next(&mut at) == b"# TYPE z gauge", "then comes the TYPE line");
    check(starts(next(&mut at), "z "), "then come its samples");
    check(at == ls.len(), "there are no other lines");
    cover("end");
});

// C18: lines, names, values, times
const PLAIN: [f64; 12] = [0.0, -0.0, 1.0, -2.5, 0.1, 123456789.125, 1e21, 5e-324, f64::MAX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
fn value(name: &str) -> f64 {
    let k = choose(1 + PLAIN.len(), name);
    if k == 0 { f64_(name) } else { PLAIN[k - 1] }
}
pub struct Expect {
    pub name: String,
    pub first: Option<(&'static str, f64)>,
    pub value: f64,
    pub count: bool,
}
pub fn compare(text: &[&[u8]], expect: &[Expect], labels: &[(&str, &str)], time: Option<i64>) {
    check(text.len() == expect.len(), "there is one line per sample");
    for (i, e) in expect.iter().enumerate() {
        let l = match sample(text[i]) { Some(l) => l, None => return check(false, "a sample line is readable") };
        check(eq(&l.name, e.name.as_bytes()), "the line begins with the right name");
        let mut rest = &l.labels[..];
        if let Some((n, v)) = e.first {
            check(!rest.is_empty() && eq(&rest[0].0, n.as_bytes()), "the line is labelled with the bound or quantile");
            check(is_f64(unsafe { std::str::from_utf8_unchecked(&rest[0].1) }, v), "the bound or quantile is the right one");
            rest = &rest[1..];
        }
        check(rest.len() == labels.len(), "the line has the metric's labels");
        check(l.braces == !l.labels.is_empty(), "labels are listed if there are any");
        for (k, l) in labels.iter().enumerate() {
            check(eq(&rest[k].0, l.0.as_bytes()) & eq(&rest[k].1, l.1.as_bytes()), "the line has the metric's labels");
        }
        check(is_f64(&l.value, e.value), "the line has the right value");
        if e.count {
            check(is_u64(&l.value, e.value as u64), "a count is an integer");
        }
        match (time, l.time) {
            (None, None) => {}
            (Some(t), Some(s)) => check(is_i64(&s, t), "the line has the timestamp in milliseconds"),
            _ => check(false, "the line has a timestamp if and only if one is set"),
        }
    }
}
fn frame() -> (Spec<'static>, Option<i64>, String) {
    let k = choose(4, "parts");
    let mut s = Spec { name: "n", ..Spec::default() };
    let mut full = String::new();
    if k & 1 != 0 {
        s.namespace = Some("A");
        full.push_str("A_");
    }
    if k & 2 != 0 {
        s.subsystem = Some("b:");
        full.push_str("b:_");
    }
    full.push('n');
    if k != 3 {
        s.labels = [vec![], vec![("l", "v")], vec![("a", "1"), ("l", "v")]][k].clone();
    }
    let time = match choose(4, "time") {
        0 => None,
        1 => Some(-1),
        2 => Some(1_700_000_000_123),
        _ => {
            let t = i64_("timestamp");
            assume(t != i64::MIN);
            Some(t)
        }
    };
    (s, time, full)
}
fn family_text<'a>(text: &'a str, full: &str, kind: usize) -> Vec<&'a [u8]> {
    let ls = lines(text);
    check(!ls.is_empty() && ls[0] == ["# TYPE ", full, " ", KIND[kind]].concat().as_bytes(), "the family begins with its TYPE line");
    check(text.as_bytes().last() == Some(&b'\n'), "every line ends in a line break");
    ls[1..].to_vec()
}
// one or two members with the same name and labels, the last one's rendering or the gathered one
entry!(h_c18_number {
    let kind = choose(2, "kind");
    let (mut s, time, full) = frame();
    let mut g = Gatherer::new();
    s.registries = vec![g.registry()];
    let mut m = build(kind, &s).unwrap();
    let v = match m {
        Any::C(ref c) => {
            c.add_u64(u64_("count"));
            c.value()
        }
        Any::G(ref m) => {
            let v = value("value");
            m.set(v);
            v
        }
        _ => 0.0,
    };
    if let Some(t) = time {
        m.set_timestamp(t);
    }
    let e = [Expect { name: full.clone(), first: None, value: v, count: false }];
    if flag("gathered") {
        let t = g.gather().to_text();
        compare(&family_text(&t, &full, kind), &e, &s.labels, time);
    } else {
        compare(&lines(&m.text()), &e, &s.labels, time);
    }
    cover("end");
});
entry!(h_c18_histogram {
    let (s, time, full) = frame();
    let mut g = Gatherer::new();
    let members = 1 + choose(3, "members");
    let mut ms = Vec::new();
    for i in 0..members.max(2) - 1 {
        let mut b = HistogramBuilder::new(s.name);
        if let Some(n) = s.namespace {
            b.namespace(n);
        }
        if let Some(n) = s.subsystem {
            b.subsystem(n);
        }
        for (n, v) in &s.labels {
            b.label(n, v);
        }
        if i == 0 {
            b.bucket(value("bound"));
        } else {
            b.bucket(2.0);
        }
        let m = match b.registry(g.registry()).finish() { Ok(m) => m, Err(e) => { std::mem::forget(e); return } };
        m.observe([1.5, 1e22][i]);
        if i == 0 {
            m.observe(-0.25);
        }
        if let (Some(t), true) = (time, i == 0) {
            m.timestamp_mut().set(t);
        }
        ms.push(m);
    }
    let mut e = Vec::new();
    let mut line = |suffix: &str, first: Option<f64>, value: f64, count: bool| e.push(Expect { name: full.clone() + suffix, first: first.map(|v| ("le", v)), value, count });
    if members > 1 {
        let f = g.gather();
        {
            let v = match *f.as_ref()[0].metrics() { Metrics::Histogram(ref v) => v, _ => return check(false, "the family is of histograms") };
            check(v.len() == 1, "there is one entry");
            for b in v[0].cumulative_buckets() {
                line("_bucket", Some(b.upper_bound()), b.cumulative_count() as f64, true);
            }
            line("_sum", None, v[0].sum(), false);
            line("_count", None, v[0].count() as f64, true);
        }
        let t = f.to_text();
        compare(&family_text(&t, &full, 2), &e, &s.labels, time);
    } else {
        for b in ms[0].cumulative_buckets() {
            line("_bucket", Some(b.upper_bound()), b.cumulative_count() as f64, true);
        }
        line("_sum", None, ms[0].sum(), false);
        line("_count", None, ms[0].count() as f64, true);
        let t = ms[0].to_string();
        compare(&lines(&t), &e, &s.labels, time);
    }
    for i in 1..e.len() {
        if let (Some(a), Some(b)) = (e[i - 1].first, e[i].first) {
            check(a.1 < b.1, "the bounds increase");
        }
    }
    cover("end");
});
entry!(h_c18_summary {
    let (s, time, full) = frame();
    let mut g = Gatherer::new();
    let members = 1 + choose(3, "members");
    let mut ms = Vec::new();
    for i in 0..members.max(2) - 1 {
        let mut b = SummaryBuilder::new(s.name, Duration::from_secs(60));
        if let Some(n) = s.namespace {
            b.namespace(n);
        }
        if let Some(n) = s.subsystem {
            b.subsystem(n);
        }
        for (n, v) in &s.labels {
            b.label(n, v);
        }
        if i == 0 {
            let q = match choose(3, "quantile") {
                0 => 0.99,
                1 => 0.3333333333333333,
                _ => {
                    let q = f64_("quantile");
                    assume((q >= 0.0) & (q <= 1.0));
                    q
                }
            };
            b.quantile(q).quantile(0.5);
        } else {
            b.quantile(1.0);
        }
        let m = b.registry(g.registry()).finish().unwrap();
        if i == 0 {
            if flag("sample") {
                m.observe(value("sample"));
            }
        } else {
            m.observe(4.0);
        }
        if let (Some(t), true) = (time, i == 0) {
            m.timestamp_mut().set(t);
        }
        ms.push(m);
    }
    let mut e = Vec::new();
    let mut line = |suffix: &str, first: Option<f64>, value: f64, count: bool| e.push(Expect { name: full.clone() + suffix, first: first.map(|v| ("quantile", v)), value, count });
    if members > 1 {
        let f = g.gather();
        {
            let v = match *f.as_ref()[0].metrics() { Metrics::Summary(ref v) => v, _ => return check(false, "the family is of summaries") };
            check(v.len() == 1, "there is one entry");
            for (q, x) in v[0].quantiles() {
                line("", Some(q.as_f64()), x, false);
            }
            line("_sum", None, v[0].sum(), false);
            line("_count", None, v[0].count() as f64, true);
        }
        let t = f.to_text();
        compare(&family_text(&t, &full, 3), &e, &s.labels, time);
    } else {
        for (q, x) in ms[0].quantiles() {
            line("", Some(q.as_f64()), x, false);
        }
        line("_sum", None, ms[0].sum(), false);
        line("_count", None, ms[0].count() as f64, true);
        let t = ms[0].to_string();
        compare(&lines(&t), &e, &s.labels, time);
    }
    cover("end");
});

// ---------------------------------------------------------------- many labels, buckets, quantiles
// C16: many labels, the value of one with an arbitrary character in it
entry!(h_c16_many {
    let kind = choose(KINDS, "kind");
    let gathered = flag("gathered");
    let n = param("labels", 12);
    let names: Vec<String> = (0..n).map(|i| unsafe { String::from_utf8_unchecked(vec![b'a' + (i * 7 % n) as u8, b'l']) }).collect();
    let at = [0, n / 2, n - 1][choose(3, "which label")];
    let values: Vec<String> = (0..n).map(|i| {
        let mut v = b"x\\y \"q\"\n, {".to_vec();
        v.truncate(i % 11);
        if i == at {
            push_char(&mut v, choose(1 + param("wide", 1), "wide"), "value");
            v.extend_from_slice(b"\\\"");
        }
        unsafe { String::from_utf8_unchecked(v) }
    }).collect();
    let mut g = Gatherer::new();
    let mut s = Spec { name: "n", registries: vec![g.registry()], ..Spec::default() };
    for i in 0..n / 2 {
        s.labels.push((&names[i], &values[i]));
    }
    let mut m = shown(kind, &s);
    for i in n / 2..n {
        check(m.insert(&names[i], &values[i]).is_ok(), "good labels are accepted");
    }
    let mut want: Vec<(&str, &str)> = (0..n).map(|i| (&names[i][..], &values[i][..])).collect();
    want.sort_by(|a, b| a.0.cmp(b.0));
    let text = if gathered { g.gather().to_text() } else { m.text() };
    let mut samples = 0;
    for l in lines(&text) {
        if starts(l, "# ") {
            check(gathered & starts(l, "# TYPE n "), "the only other line is the TYPE line");
            continue;
        }
        let l = match sample(l) { Some(l) => l, None => return check(false, "a sample line is readable") };
        let mine: Vec<_> = l.labels.iter().filter(|x| !(kind == 2 && x.0 == b"le") && !(kind == 3 && x.0 == b"quantile")).collect();
        check(mine.len() == n, "a sample line has exactly the metric's labels");
        for (x, w) in mine.iter().zip(&want) {
            check(eq(&x.0, w.0.as_bytes()), "the label names read back, in order");
            check(eq(&x.1, w.1.as_bytes()), "the label values read back");
        }
        check(!matches!(number(&l.value), Num::Bad) & l.time.is_none(), "a number follows the labels");
        samples += 1;
    }
    check(samples == [1, 1, 4, 3][kind], "there is one line per sample");
    cover("end");
});
const QUANTILES: [f64; 12] = [0.0, 0.001, 0.01, 0.0625, 0.25, 0.3333333333333333, 0.5, 0.6666666666666666, 0.99, 0.999, 0.999999, 1.0];
// C18: many buckets or quantiles, and many labels
entry!(h_c18_many {
    let kind = 2 + choose(2, "kind");
    let labels = [("a", "1"), ("b", "2"), ("c", "3"), ("d", "4"), ("e", "5"), ("f", "6"), ("g", "7"), ("h", "8"), ("i", "9"), ("j", "10")];
    let labels = &labels[..[10, 0][choose(2, "labels")]];
    let gathered = choose(3, "gathered");
    let mut g = Gatherer::new();
    let full = "ns_ss_n";
    let time = [None, Some(1_700_000_000_123), Some(-62_135_596_800_000)][choose(3, "time")];
    let (mut hs, mut ss) = (Vec::new(), Vec::new());
    let x = sgrid("observation", 12, 3);
    for k in 0..gathered.max(1) {
        macro_rules! finish {
            ($b:expr) => {{
                let mut b = $b;
                b.namespace("ns").subsystem("ss").registry(g.registry());
                for (n, v) in labels {
                    b.label(n, v);
                }
                let m = b.finish().unwrap();
                if let (Some(t), true) = (time, k == 0) {
                    m.clone().timestamp_mut().set(t);
                }
                m.observe(if k == 0 { x } else { 3.0 });
                for i in 0..9 {
                    m.observe(i as f64 * 0.75);
                }
                m
            }};
        }
        if kind == 2 {
            let mut b = HistogramBuilder::new("n");
            b.buckets((0..param("bounds", 20)).map(|i| (i * 7 % 20) as f64 * [0.1, 1.0][k] - 0.5).collect::<Vec<f64>>());
            hs.push(finish!(b));
        } else {
            let mut b = SummaryBuilder::new("n", Duration::from_secs(60));
            for i in 0..12 {
                b.quantile(QUANTILES[i * 5 % 12]);
            }
            ss.push(finish!(b));
        }
    }
    let mut e = Vec::new();
    let mut line = |suffix: &str, first: Option<f64>, value: f64, count: bool| e.push(Expect { name: full.to_string() + suffix, first: first.map(|v| (if kind == 2 { "le" } else { "quantile" }, v)), value, count });
    let text;
    macro_rules! expect {
        (h $m:expr) => {{
            for b in $m.cumulative_buckets() {
                line("_bucket", Some(b.upper_bound()), b.cumulative_count() as f64, true);
            }
            line("_sum", None, $m.sum(), false);
            line("_count", None, $m.count() as f64, true);
        }};
        (s $m:expr) => {{
            for (q, x) in $m.quantiles() {
                line("", Some(q.as_f64()), x, false);
            }
            line("_sum", None, $m.sum(), false);
            line("_count", None, $m.count() as f64, true);
        }};
    }
    if gathered > 0 {
        let f = g.gather();
        match *f.as_ref()[0].metrics() {
            Metrics::Histogram(ref v) => expect!(h v[0]),
            Metrics::Summary(ref v) => expect!(s v[0]),
            _ => check(false, "the family is of the right kind"),
        }
        text = f.to_text();
        compare(&family_text(&text, full, kind), &e, labels, time);
    } else {
        if kind == 2 { expect!(h hs[0]) } else { expect!(s ss[0]) }
        text = if kind == 2 { hs[0].to_string() } else { ss[0].to_string() };
        compare(&lines(&text), &e, labels, time);
    }
    check(e.len() == if kind == 3 { 14 } else { e.len() }, "there is one line per quantile");
    cover("end");
});
