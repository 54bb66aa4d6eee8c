use crate::rt::*;
use prometrics::metrics::*;
use prometrics::*;

entry!(h_smoke_gather {
    let mut g = Gatherer::new();
    let a = CounterBuilder::new("a").registry(g.registry()).help("hh").label("k", "v").finish().unwrap();
    let b = GaugeBuilder::new("b").registry(g.registry()).finish().unwrap();
    let h = HistogramBuilder::new("h").registry(g.registry()).bucket(1.0).bucket(2.5).finish().unwrap();
    a.add_u64(5);
    b.set(2.5);
    h.observe(1.5);
    let f = g.gather();
    let t = f.to_text();
    trace(t.len() as u64, "len");
    for c in t.bytes() { trace(c as u64, "c"); }
    let r = catch(|| { if t.len() > 3 { panic!("boom {}", t.len()) } });
    check(r.is_none(), "caught");
    print(&t);
    cover("end");
});
