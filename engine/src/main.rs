//! irsym: symbolic execution of a Rust program given as LLVM IR, deciding assertions with Z3.
mod exec;
mod expr;
mod fix;
mod order;
mod ir;
mod mem;
mod unicode;
mod z3;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

fn main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = exec::Cfg {
        max_preempt: 2,
        reuse: false,
        max_steps: 600_000_000,
        deadline: Instant::now(),
        timeout_ms: 60_000,
        max_viol: 8,
        grace: Duration::from_secs(3600),
        concrete: None,
        verbose: false,
        shard: None,
        params: Default::default(),
    };
    let mut secs = 300u64;
    let mut parse_all = false;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = val(),
            "--entry" => entry = val(),
            "--out" => out = val(),
            "--reuse" => cfg.reuse = val() != "0",
            "--preempt" => cfg.max_preempt = val().parse().unwrap(),
            "--time" => secs = val().parse().unwrap(),
            "--query-ms" => cfg.timeout_ms = val().parse().unwrap(),
            "--grace" => cfg.grace = Duration::from_secs(val().parse().unwrap()),
            "--max-violations" => cfg.max_viol = val().parse().unwrap(),
            "--inputs" => cfg.concrete = Some(val().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--shard" => {
                let v = val();
                let mut p = v.split('/');
                cfg.shard = Some((p.next().unwrap().parse().unwrap(), p.next().unwrap().parse().unwrap()));
            }
            "--param" => {
                let v = val();
                let (k, x) = v.split_once('=').expect("name=value");
                cfg.params.insert(k.to_string(), x.parse().unwrap());
            }
            "-v" => cfg.verbose = true,
            "--selftest" => {
                fix::selftest();
                return;
            }
            "--parse-all" => parse_all = true,
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = Instant::now();
    cfg.deadline = t0 + Duration::from_secs(secs);
    let r = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let mut m = ir::Module::load(&ll);
            if parse_all {
                let mut n = 0;
                for i in 0..m.syms.len() as u32 {
                    if let ir::SymKind::FuncDef { .. } = m.syms[i as usize].kind {
                        let f = m.func(i);
                        n += f.blocks.iter().map(|b| b.ins.len()).sum::<usize>();
                    }
                }
                println!("parsed {} symbols, {} instructions in {:?}", m.syms.len(), n, t0.elapsed());
                return 0;
            }
            let mut e = exec::Engine::new(m, cfg);
            e.run(&entry);
            let complete = e.incomplete.is_none() && e.unsupported.is_empty();
            let status = if !e.viol.is_empty() {
                "violated"
            } else if complete {
                "holds"
            } else {
                "inconclusive"
            };
            let viol = list(e.viol.iter().map(|v| {
                format!(
                    "{{\"kind\":{},\"msg\":{},\"note\":{},\"inputs\":{},\"sched\":{},\"stack\":{}}}",
                    js(&v.kind),
                    js(&v.msg),
                    js(&v.note),
                    list(v.inputs.iter().map(|(n, w, x)| format!("{{\"name\":{},\"width\":{},\"value\":\"{}\"}}", js(n), w, x))),
                    list(v.sched.iter().map(|s| s.to_string())),
                    list(v.stack.iter().map(|s| js(s)))
                )
            }));
            let asserts = list(e.asserts.iter().map(|(n, (c, s))| format!("{{\"name\":{},\"decided_by_evaluation\":{},\"decided_by_solver\":{}}}", js(n), c, s)));
            let covers = list(e.covers.iter().map(|(n, c)| format!("{{\"name\":{},\"paths\":{}}}", js(n), c)));
            let unsup = list(e.unsupported.iter().map(|(n, c)| format!("{{\"what\":{},\"paths\":{}}}", js(n), c)));
            let funcs = list(e.funcs.iter().map(|(f, n)| {
                let s = &e.m.syms[*f as usize];
                format!("{{\"name\":{},\"calls\":{}}}", js(if s.pretty.is_empty() { &s.name } else { &s.pretty }), n)
            }));
            let trace = list(e.out_trace.iter().map(|(n, v)| format!("[{},\"{}\"]", js(n), v)));
            let inputs = |v: &[(String, u32, u128)]| list(v.iter().map(|(n, w, x)| format!("{{\"name\":{},\"width\":{},\"value\":\"{}\"}}", js(n), w, x)));
            let samples = list(e.samples.iter().map(|s| {
                format!(
                    "{{\"inputs\":{},\"trace\":{},\"sched\":{}}}",
                    inputs(&s.inputs),
                    list(s.trace.iter().map(|(n, v)| format!("[{},\"{}\"]", js(n), v))),
                    list(s.sched.iter().map(|s| s.to_string()))
                )
            }));
            let params = format!("{{{}}}", e.params_used.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
            let ext = list(e.externs.iter().map(|s| js(s)));
            let s = &e.st;
            let text = format!(
                "{{\"entry\":{},\"status\":{},\"incomplete\":{},\"paths\":{},\"infeasible\":{},\"instructions\":{},\"forks\":{},\"schedule_forks\":{},\"preemptions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"guessed\":{},\"bound_unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"asserts_by_solver\":{},\"asserts_by_evaluation\":{},\"violations\":{},\"asserts\":{},\"covers\":{},\"unsupported\":{},\"functions\":{},\"trace\":{},\"externs\":{},\"params\":{},\"samples\":{},\"solver\":{}}}\n",
                js(&entry),
                js(status),
                match &e.incomplete {
                    Some(x) => js(x),
                    None => "null".into(),
                },
                s.paths,
                s.infeasible,
                s.instrs,
                s.forks,
                s.sched_forks,
                e.cfg.max_preempt,
                s.queries,
                s.sat,
                s.unsat,
                s.unknown,
                s.cache_hits,
                s.model_hits,
                s.guessed,
                s.bound_unsat,
                s.solver.as_secs_f64(),
                s.max_query.as_secs_f64(),
                t0.elapsed().as_secs_f64(),
                s.asserts_sym,
                s.asserts_conc,
                viol,
                asserts,
                covers,
                unsup,
                funcs,
                trace,
                ext,
                params,
                samples,
                js(&z3::version())
            );
            if out.is_empty() {
                print!("{}", text);
            } else {
                std::fs::write(&out, text).unwrap();
            }
            // leave without running destructors of large structures
            std::process::exit(match status {
                "holds" => 0,
                "violated" => 1,
                _ => 2,
            });
        })
        .unwrap()
        .join();
    match r {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(6),
    }
}
