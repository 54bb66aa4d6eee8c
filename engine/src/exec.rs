//! Symbolic executor: forking depth-first exploration of every feasible path, with threads,
//! unwinding, and Z3 deciding branch feasibility and assertions.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Ast, Check};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub sym: u32,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub exc: Option<u64>, // exception being delivered to a landing pad
}
#[derive(Clone, PartialEq, Debug)]
pub enum TS {
    Run,
    Futex(u64, bool), // address, has timeout
    Join(usize),
    Spin, // until something is written
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub st: TS,
    pub sp_done: bool,
    pub last_load: Option<(u32, u32, u32, u64, u64)>,
    pub spins: u32,
    pub errno: u64,
    pub tls: HashMap<u32, u64, BuildFx>,
    pub wake_ret: Option<u128>,
    pub keys: HashMap<u64, u64, BuildFx>,
}
#[derive(Clone)]
pub enum Inp {
    Sym(String, u32, E),
    Choice(String, u64),
}
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub cons: Vec<E>,
    pub known: HashMap<E, u128, BuildFx>,
    pub model: Rc<Model>,
    pub inp: Vec<Inp>,
    pub sched: Vec<u8>,
    pub log: Vec<String>, // debugging
    pub pid: (u64, u32, bool), // choices and scheduling decisions so far, for sharding
    pub preempt: u32,
    pub steps: u64,
    pub trace: Vec<(String, V)>,
    pub note: String,
    pub next_key: u64,
    pub depth: u32,
    pub sp_mark: u8,
    pub writes: u64,
}

pub struct Cfg {
    pub max_preempt: u32,
    pub reuse: bool,
    pub max_steps: u64,
    pub deadline: Instant,
    pub timeout_ms: u32,
    pub max_viol: usize,
    pub grace: Duration,
    pub concrete: Option<Vec<u128>>,
    pub verbose: bool,
    pub shard: Option<(u64, u64)>,
    pub params: BTreeMap<String, u64>,
}
#[derive(Clone)]
/// a path explored to its end, with inputs that take it and the values it traced
pub struct Sample {
    pub inputs: Vec<(String, u32, u128)>,
    pub trace: Vec<(String, u128)>,
    pub sched: Vec<u8>,
}
fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v.wrapping_add(0x9e3779b97f4a7c15)).wrapping_mul(0xff51afd7ed558ccd);
    x ^ x >> 29
}
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, u32, u128)>,
    pub sched: Vec<u8>,
    pub stack: Vec<String>,
    pub note: String,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub bound_unsat: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub guessed: u64,
    pub abstract_queries: u64,
    pub order_queries: u64,
    pub abstract_unsat: u64,
    pub solver: Duration,
    pub max_query: Duration,
    pub forks: u64,
    pub asserts_sym: u64,
    pub asserts_conc: u64,
    pub sched_forks: u64,
}
pub enum Stop {
    Done,
    Assumed,
    Fail(String, String),
    Unsupported(String),
}
type X<T> = Result<T, Stop>;
fn fail<T>(kind: &str, msg: impl Into<String>) -> X<T> {
    Err(Stop::Fail(kind.to_string(), msg.into()))
}
fn unsup<T>(msg: impl Into<String>) -> X<T> {
    Err(Stop::Unsupported(msg.into()))
}
fn mem<T>(r: R<T>) -> X<T> {
    r.map_err(|e| Stop::Fail("memory".into(), e))
}

#[derive(Clone)]
enum QRes {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Engine {
    pub c: Ctx,
    pub m: Module,
    pub cfg: Cfg,
    pub st: Stats,
    pub work: Vec<State>,
    pub viol: Vec<Violation>,
    pub viol_keys: BTreeSet<(String, String)>,
    pub asserts: BTreeMap<String, (u64, u64)>,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeMap<u32, u64>,
    pub unsupported: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub incomplete: Option<String>,
    pub out_trace: Vec<(String, u128)>,
    pub externs: BTreeSet<String>,
    pub params_used: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub follow: Option<Vec<u8>>, // debugging: print the way of the first path with this schedule
    /// follow each value a symbolic address can take on its own
    fork_addr: bool,
    qcache: HashMap<Vec<E>, QRes, BuildFx>,
    hooks: HashMap<u32, (u32, u32)>,
    recent: Vec<Rc<Model>>,
    conc_pos: usize,
    init_ids: u32,
    exploring: bool,
    quick_names: HashMap<u32, &'static str>,
    unicode: HashMap<u32, crate::unicode::Table>,
}

pub const HOOKS: &[(&str, u32, &str)] = &[
    ("<f64 as core::fmt::Display>::fmt", 64, "vp_stub_f64_display"),
    ("<f64 as core::fmt::Debug>::fmt", 64, "vp_stub_f64_debug"),
    ("<f64 as core::fmt::LowerExp>::fmt", 64, "vp_stub_f64_exp"),
    ("<u64 as core::fmt::Display>::fmt", 64, "vp_stub_u64_display"),
    ("<usize as core::fmt::Display>::fmt", 64, "vp_stub_u64_display"),
    ("<u64 as core::fmt::Debug>::fmt", 64, "vp_stub_u64_display"),
    ("<usize as core::fmt::Debug>::fmt", 64, "vp_stub_u64_display"),
    ("<i64 as core::fmt::Display>::fmt", 64, "vp_stub_i64_display"),
    ("<isize as core::fmt::Display>::fmt", 64, "vp_stub_i64_display"),
    ("<i64 as core::fmt::Debug>::fmt", 64, "vp_stub_i64_display"),
    ("<u32 as core::fmt::Display>::fmt", 32, "vp_stub_u32_display"),
    ("<u32 as core::fmt::Debug>::fmt", 32, "vp_stub_u32_display"),
    ("<i32 as core::fmt::Display>::fmt", 32, "vp_stub_i32_display"),
    ("<i32 as core::fmt::Debug>::fmt", 32, "vp_stub_i32_display"),
];

fn below(o: Op, w: u32, a: u128, b: u128) -> bool {
    match o {
        Op::FLt => f64::from_bits(a as u64) < f64::from_bits(b as u64),
        Op::Slt => crate::expr::sx(a, w) < crate::expr::sx(b, w),
        _ => a < b,
    }
}
impl Engine {
    pub fn new(m: Module, cfg: Cfg) -> Engine {
        let fork_addr = cfg.params.get("forkaddr") == Some(&1);
        let mut e = Engine {
            fork_addr,
            c: Ctx::new(),
            m,
            cfg,
            st: Stats::default(),
            work: vec![],
            viol: vec![],
            viol_keys: BTreeSet::new(),
            asserts: BTreeMap::new(),
            covers: BTreeMap::new(),
            funcs: BTreeMap::new(),
            unsupported: BTreeMap::new(),
            notes: BTreeMap::new(),
            incomplete: None,
            out_trace: vec![],
            externs: BTreeSet::new(),
            params_used: BTreeMap::new(),
            samples: vec![],
            follow: std::env::var("IRSYM_FOLLOW").ok().map(|s| s.split(",").map(|x| x.trim().parse().unwrap()).collect()),
            qcache: HashMap::default(),
            hooks: HashMap::new(),
            recent: vec![],
            conc_pos: 0,
            init_ids: 0,
            exploring: true,
            quick_names: HashMap::new(),
            unicode: HashMap::new(),
        };
        let base = |p: &str| -> String {
            match p.rsplit_once('.') {
                Some((a, b)) if !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()) => a.to_string(),
                _ => p.to_string(),
            }
        };
        for i in 0..e.m.syms.len() as u32 {
            if !matches!(e.m.syms[i as usize].kind, SymKind::FuncDef { .. }) {
                continue;
            }
            let p = base(&e.m.syms[i as usize].pretty);
            if let Some((_, w, stub)) = HOOKS.iter().find(|h| h.0 == p) {
                if let Some(&s) = e.m.by_name.get(*stub) {
                    e.hooks.insert(i, (*w, s));
                }
            }
            if let Some(t) = crate::unicode::table(&p) {
                e.unicode.insert(i, t);
            }
        }
        e
    }

    fn initial(&mut self) -> State {
        let mut mem = Mem::new();
        mem.reuse = self.cfg.reuse;
        for i in 0..self.m.syms.len() as u32 {
            let s = match &self.m.syms[i as usize].kind {
                SymKind::FuncDef { .. } => Slot::Func(i),
                SymKind::FuncDecl { weak } => {
                    let _ = weak;
                    Slot::Func(i)
                }
                SymKind::Global { tls, constant, .. } => {
                    if *tls {
                        Slot::Empty
                    } else {
                        let ro = *constant;
                        let data = self.m.global_init(i).unwrap();
                        Slot::Live(Rc::new(Obj { data, sym: None, kind: Kind::Global, ro }))
                    }
                }
            };
            let id = mem.push(s);
            assert_eq!(id, i + 1);
        }
        self.init_ids = self.m.syms.len() as u32 + 1;
        State {
            mem,
            th: vec![],
            cur: 0,
            cons: vec![],
            known: HashMap::default(),
            model: Rc::new(Model::new(HashMap::default())),
            inp: vec![],
            sched: vec![],
            log: vec![],
            pid: (0, 0, false),
            preempt: 0,
            steps: 0,
            trace: vec![],
            note: String::new(),
            next_key: 1,
            depth: 0,
            sp_mark: 0,
            writes: 0,
        }
    }
    fn new_thread(&mut self, st: &mut State, sym: u32, args: &[V]) -> usize {
        let mut t = Thread { frames: vec![], st: TS::Run, sp_done: false, last_load: None, spins: 0, errno: 0, tls: HashMap::default(), wake_ret: None, keys: HashMap::default() };
        t.errno = st.mem.alloc(4, Kind::Heap);
        st.mem.heap_live -= 1;
        let f = self.m.func(sym);
        *self.funcs.entry(sym).or_insert(0) += 1;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, (_, r)) in f.params.iter().enumerate() {
            regs[*r as usize] = args[i].clone();
        }
        t.frames.push(Frame { f, sym, bb: 0, ip: 0, regs, allocas: vec![], exc: None });
        st.th.push(t);
        st.th.len() - 1
    }

    pub fn run(&mut self, entry: &str) {
        let id = *self.m.by_name.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let mut st = self.initial();
        self.new_thread(&mut st, id, &[]);
        self.work.push(st);
        let mut first = None;
        let mut asked = 0;
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.cfg.deadline {
                self.incomplete = Some(format!("time limit; {} open states", self.work.len() + 1));
                break;
            }
            let r = loop {
                if let Err(s) = self.step(&mut st) {
                    break s;
                }
                if st.steps & 0xffff == 0 || asked != self.st.queries + self.st.guessed {
                    asked = self.st.queries + self.st.guessed;
                    if st.steps > self.cfg.max_steps {
                        break Stop::Unsupported(format!("step limit in {}", self.where_(&st)));
                    }
                    if Instant::now() > self.cfg.deadline {
                        break Stop::Unsupported("time limit".into());
                    }
                }
            };
            match r {
                Stop::Done if self.not_mine(&mut st, true) => self.st.infeasible += 1,
                Stop::Done => {
                    self.st.paths += 1;
                    if self.st.paths == 1 || self.cfg.concrete.is_some() {
                        let mo = st.model.clone();
                        self.out_trace = st
                            .trace
                            .iter()
                            .map(|(n, v)| {
                                (
                                    n.clone(),
                                    match v {
                                        V::C(k) => *k,
                                        V::S(e) => self.c.eval(*e, &mo),
                                        _ => 0,
                                    },
                                )
                            })
                            .collect();
                    }
                    if let Some(w) = &self.follow {
                        if *w == st.sched {
                            eprintln!("{}", st.log.join("\n"));
                            std::process::exit(0);
                        }
                    }
                    if self.st.paths.is_power_of_two() && self.samples.len() < 12 {
                        let m = st.model.clone();
                        let inputs = self.input_values(&st, &m);
                        let tr = st.trace.iter().map(|(n, v)| (n.clone(), match v { V::C(k) => *k, V::S(e) => self.c.eval(*e, &m), _ => 0 })).collect();
                        self.samples.push(Sample { inputs, trace: tr, sched: st.sched.clone() });
                    }
                }
                Stop::Assumed => self.st.infeasible += 1,
                Stop::Unsupported(m) => {
                    self.st.paths += 1;
                    if self.cfg.verbose {
                        eprintln!("unsupported: {} {:?}", m, self.stack(&st));
                    }
                    if (m == "time limit" || m.starts_with("step limit")) && self.viol.is_empty() {
                        // a path that does not end: whether it really does not is for the compiled program to tell
                        self.report(&mut st, "timeout", "this run does not end", None);
                    }
                    *self.unsupported.entry(m).or_insert(0) += 1;
                }
                Stop::Fail(k, m) => {
                    self.st.paths += 1;
                    self.report(&mut st, &k, &m, None);
                }
            }
            if !self.viol.is_empty() {
                // what remains can only add further counterexamples
                self.cfg.deadline = self.cfg.deadline.min(*first.get_or_insert_with(|| Instant::now() + self.cfg.grace));
            }
            if self.viol.len() >= self.cfg.max_viol {
                self.incomplete = Some("stopped after the violation limit".into());
                break;
            }
        }
    }

    pub fn where_(&self, st: &State) -> String {
        let t = &st.th[st.cur];
        match t.frames.last() {
            Some(f) => format!("{}:{}", if f.f.pretty.is_empty() { &f.f.name } else { &f.f.pretty }, f.f.blocks[f.bb as usize].name),
            None => "?".into(),
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.th[st.cur].frames.iter().rev().take(14).map(|f| if f.f.pretty.is_empty() { f.f.name.clone() } else { f.f.pretty.clone() }).collect()
    }
    fn input_values(&mut self, st: &State, m: &Rc<Model>) -> Vec<(String, u32, u128)> {
        st.inp
            .iter()
            .map(|i| match i {
                Inp::Sym(n, w, e) => (n.clone(), *w, self.c.eval(*e, m)),
                Inp::Choice(n, k) => (n.clone(), 0, *k as u128),
            })
            .collect()
    }
    fn report(&mut self, st: &mut State, kind: &str, msg: &str, model: Option<Rc<Model>>) {
        let key_note = if kind == "assert" { String::new() } else { st.note.clone() };
        if !self.viol_keys.insert((kind.to_string(), format!("{}|{}", msg, key_note))) {
            return;
        }
        // A model of the complete path condition (the running model satisfies it).
        let m = model.unwrap_or_else(|| st.model.clone());
        for e in &st.cons {
            if self.c.eval(*e, &m) == 0 {
                eprintln!("irsym: internal error: model does not satisfy the path condition");
                std::process::exit(5);
            }
        }
        let inputs = self.input_values(st, &m);
        self.viol.push(Violation { kind: kind.into(), msg: msg.into(), inputs, sched: st.sched.clone(), stack: self.stack(st), note: st.note.clone() });
    }

    // ------------------------------------------------------------ solver
    fn slice(&self, cons: &[E], q: E) -> Vec<E> {
        let mut vs = *self.c.varset(q);
        let mut inn = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for (i, e) in cons.iter().enumerate() {
                if !inn[i] {
                    let v = self.c.varset(*e);
                    if (0..4).any(|j| v[j] & vs[j] != 0) {
                        inn[i] = true;
                        ch = true;
                        for j in 0..4 {
                            vs[j] |= v[j];
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<E> = cons.iter().zip(&inn).filter(|(_, b)| **b).map(|(e, _)| *e).collect();
        r.push(q);
        r.sort();
        r.dedup();
        r
    }
    /// Leaves out comparisons with a constant that a tighter one implies; `None` when two of them
    /// exclude each other.
    fn thin(&self, s: Vec<E>) -> Option<Vec<E>> {
        // (operator, compared expression, is it on the left, negated) -> tightest constant
        let mut best: Vec<((Op, E, bool, bool), u128, E)> = vec![];
        let mut out: Vec<E> = Vec::with_capacity(s.len());
        for e in s {
            let mut n = self.c.nodes[e as usize];
            let neg = n.op == Op::Not;
            if neg {
                n = self.c.nodes[n.a as usize];
            }
            let (v, k, left) = match n.op {
                Op::FLt | Op::Ult | Op::Slt => match (self.c.k(n.a), self.c.k(n.b)) {
                    (None, Some(k)) => (n.a, k, true),
                    (Some(k), None) => (n.b, k, false),
                    _ => {
                        out.push(e);
                        continue;
                    }
                },
                _ => {
                    out.push(e);
                    continue;
                }
            };
            if n.op == Op::FLt && f64::from_bits(k as u64).is_nan() {
                out.push(e);
                continue;
            }
            let key = (n.op, v, left, neg);
            // an upper bound: v < k, or not k < v
            let upper = left != neg;
            match best.iter_mut().find(|b| b.0 == key) {
                None => best.push((key, k, e)),
                Some(b) => {
                    let w = self.c.nodes[v as usize].w as u32;
                    if upper == below(n.op, w, k, b.1) {
                        b.1 = k;
                        b.2 = e;
                    }
                }
            }
        }
        for i in 0..best.len() {
            for j in 0..best.len() {
                let ((o, v, l1, n1), k, _) = best[i];
                let ((o2, v2, l2, n2), k2, _) = best[j];
                if o != o2 || v != v2 || l1 == n1 || l2 != n2 {
                    continue;
                }
                // i bounds v from above by k, j from below by k2; NaN satisfies a negated one
                if o == Op::FLt && n1 && n2 {
                    continue;
                }
                let w = self.c.nodes[v as usize].w as u32;
                // not k2 < k; and equal constants leave room only when neither bound is strict
                if below(o, w, k, k2) || (!below(o, w, k2, k) && (!n1 || !n2)) {
                    return None;
                }
            }
        }
        out.extend(best.iter().map(|b| b.2));
        out.sort();
        Some(out)
    }
    fn query(&mut self, cons: &[E], q: E) -> QRes {
        match self.c.k(q) {
            Some(0) => return QRes::Unsat,
            Some(_) => return QRes::Sat(Rc::new(vec![])),
            None => {}
        }
        let s = match self.thin(self.slice(cons, q)) {
            Some(s) => s,
            None => {
                self.st.queries += 1;
                self.st.unsat += 1;
                self.st.bound_unsat += 1;
                return QRes::Unsat;
            }
        };
        if let Some(r) = self.qcache.get(&s) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        // a recently found model may already satisfy the slice
        for m in self.recent.iter().rev() {
            if s.iter().all(|e| self.c.eval(*e, m) != 0) {
                self.st.model_hits += 1;
                let vs = self.vars_of(&s);
                let vals: Vec<(u32, u128)> = vs.iter().map(|(id, _)| (*id, m.vals.get(id).copied().unwrap_or(0))).collect();
                let r = QRes::Sat(Rc::new(vals));
                self.qcache.insert(s, r.clone());
                return r;
            }
        }
        if let Some((r, dt)) = self.c.order_query(&s, 10_000) {
            self.st.solver += dt;
            self.st.order_queries += 1;
            self.st.max_query = self.st.max_query.max(dt);
            match r {
                crate::order::Ordered::Unsat => {
                    self.st.queries += 1;
                    self.st.unsat += 1;
                    self.qcache.insert(s, QRes::Unsat);
                    return QRes::Unsat;
                }
                crate::order::Ordered::Sat(vals) => {
                    let m = Model::new(vals.iter().copied().collect());
                    if s.iter().all(|e| self.c.eval(*e, &m) != 0) {
                        self.st.queries += 1;
                        self.st.sat += 1;
                        self.recent.push(Rc::new(m));
                        if self.recent.len() > 12 {
                            self.recent.remove(0);
                        }
                        let r = QRes::Sat(Rc::new(vals));
                        self.qcache.insert(s, r.clone());
                        return r;
                    }
                }
                crate::order::Ordered::Unknown => {}
            }
        }
        let fp = s.iter().any(|e| self.c.has_fp(*e));
        if fp {
            // first with rounded operations abstracted to facts that hold for all of them
            if let Some(ab) = self.c.abstract_query(&s) {
                let zs: Vec<Ast> = ab.cons.iter().map(|e| self.c.zbool(*e)).collect();
                let t0 = Instant::now();
                let (r, _) = self.c.z.check(&zs, false, 10_000, &[]);
                let dt = t0.elapsed();
                self.st.solver += dt;
                self.st.abstract_queries += 1;
                self.st.max_query = self.st.max_query.max(dt);
                if let Check::Unsat = r {
                    self.st.queries += 1;
                    self.st.unsat += 1;
                    self.st.abstract_unsat += 1;
                    self.qcache.insert(s, QRes::Unsat);
                    return QRes::Unsat;
                }
            }
        }
        let vars = self.vars_of(&s);
        if fp {
            let t0 = Instant::now();
            let g = self.guess(&s, q, &vars);
            self.st.solver += t0.elapsed();
            if let Some(m) = g {
                self.st.guessed += 1;
                let vals: Vec<(u32, u128)> = vars.iter().map(|(id, _)| (*id, m.vals.get(id).copied().unwrap_or(0))).collect();
                self.recent.push(Rc::new(m));
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                let r = QRes::Sat(Rc::new(vals));
                self.qcache.insert(s, r.clone());
                return r;
            }
        }
        let zs: Vec<Ast> = s.iter().map(|e| self.c.zbool(*e)).collect();
        let zv: Vec<(u32, Ast)> = vars.iter().map(|(id, e)| (*id, self.c.zv(*e))).collect();
        let t0 = Instant::now();
        let left = self.cfg.deadline.saturating_duration_since(t0).as_millis().max(1) as u32;
        let (r, vals) = self.c.z.check(&zs, fp, self.cfg.timeout_ms.min(left), &zv);
        let dt = t0.elapsed();
        self.st.solver += dt;
        self.st.queries += 1;
        if dt > self.st.max_query {
            self.st.max_query = dt;
        }
        if let Some(ms) = std::env::var("IRSYM_DUMP").ok().and_then(|x| x.parse::<u128>().ok()) {
            if dt.as_millis() >= ms {
                eprintln!("; {:?}\n{}(check-sat)", dt, self.c.z.smtlib(&zs));
            }
        }
        if self.cfg.verbose && dt.as_millis() > 1000 {
            eprintln!("slow query {:?} ({} constraints, fp={})", dt, s.len(), fp);
        }
        let r = match r {
            Check::Sat => {
                self.st.sat += 1;
                // the model must satisfy the slice under our own evaluator
                let m = Model::new(vals.iter().copied().collect());
                for e in &s {
                    if self.c.eval(*e, &m) == 0 {
                        eprintln!("irsym: internal error: solver model rejected by the evaluator");
                        if self.cfg.verbose {
                            eprintln!("{}", self.c.z.smtlib(&zs));
                            eprintln!("{:?}", vals);
                        }
                        std::process::exit(5);
                    }
                }
                self.recent.push(Rc::new(m));
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                QRes::Sat(Rc::new(vals))
            }
            Check::Unsat => {
                self.st.unsat += 1;
                QRes::Unsat
            }
            Check::Unknown => {
                self.st.unknown += 1;
                QRes::Unknown
            }
        };
        self.qcache.insert(s, r.clone());
        r
    }
    /// Looks for a model of a floating-point query among telling values before the solver is asked.
    /// A model found is a witness that the query is satisfiable; finding none means nothing.
    fn guess(&self, s: &[E], q: E, vars: &[(u32, E)]) -> Option<Model> {
        const F: [f64; 22] = [
            0.0, 1.0, -0.0, -1.0, 0.5, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -5e-324, 1e-17, 0.1, 3.0, -2.5, 1e300, -1e300, f64::MAX, 9007199254740992.0, 9007199254740993.0, 18446744073709551616.0, 0.999999999999,
        ];
        if vars.is_empty() || vars.len() > 24 {
            return None;
        }
        let t0 = Instant::now();
        let mut rng = 0x9e3779b97f4a7c15u64 ^ s.len() as u64;
        let mut rnd = move || {
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            rng
        };
        // start from models of everything but the question
        let mut bases: Vec<std::collections::HashMap<u32, u128>> = vec![];
        for m in self.recent.iter().rev() {
            if s.iter().all(|e| *e == q || self.c.eval(*e, m) != 0) {
                bases.push(vars.iter().map(|(id, _)| (*id, m.vals.get(id).copied().unwrap_or(0))).collect());
            }
        }
        if bases.is_empty() {
            bases.push(Default::default());
        }
        bases.truncate(4);
        // values of intermediate terms are good candidates where terms are compared
        let mut pool: Vec<u128> = vec![];
        let harvest = |c: &Ctx, m: &Model, pool: &mut Vec<u128>| {
            for e in s {
                c.eval(*e, m);
            }
            for (x, y) in m.cache.borrow().iter() {
                if c.nodes[*x as usize].w == 64 {
                    pool.push(*y);
                }
            }
            pool.sort();
            pool.dedup();
        };
        for b in &bases {
            harvest(&self.c, &Model::new(b.iter().map(|(a, b)| (*a, *b)).collect()), &mut pool);
        }
        for round in 0..4000u32 {
            if t0.elapsed().as_millis() > 400 {
                break;
            }
            let mut v = bases[round as usize % bases.len()].clone();
            let k = match round % 4 {
                0 => 1,
                1 => 2,
                2 => 1 + rnd() as usize % vars.len(),
                _ => vars.len(),
            };
            for j in 0..k {
                let (id, e) = if k == vars.len() { vars[j] } else { vars[rnd() as usize % vars.len()] };
                let w = self.c.nodes[e as usize].w as u32;
                let x: u128 = match rnd() % 8 {
                    0 => rnd() as u128,
                    1 => *v.get(&vars[rnd() as usize % vars.len()].0).unwrap_or(&0),
                    2 => (rnd() % 4) as u128,
                    3 => v.get(&id).copied().unwrap_or(0) ^ 1u128 << (rnd() % 64),
                    4 if w < 64 => rnd() as u128,
                    4 | 5 if !pool.is_empty() => pool[rnd() as usize % pool.len()],
                    _ => F[rnd() as usize % F.len()].to_bits() as u128,
                };
                v.insert(id, x & mask(w));
            }
            let m = Model::new(v.into_iter().collect());
            if round % 64 == 63 && pool.len() < 4000 {
                harvest(&self.c, &m, &mut pool);
            }
            if self.c.eval(q, &m) != 0 && s.iter().all(|e| self.c.eval(*e, &m) != 0) {
                return Some(m);
            }
        }
        None
    }
    fn vars_of(&self, s: &[E]) -> Vec<(u32, E)> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut stack: Vec<E> = s.to_vec();
        while let Some(e) = stack.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.c.nodes[e as usize];
            if n.op == Op::Var {
                out.push((n.k as u32, e));
            }
            let ch = [n.a, n.b, n.c];
            for x in ch.iter().take(arity(n.op)) {
                stack.push(*x);
            }
        }
        out.sort();
        out
    }
    fn merged(&self, base: &Rc<Model>, vals: &[(u32, u128)]) -> Rc<Model> {
        if vals.is_empty() {
            return base.clone();
        }
        let mut v = base.vals.clone();
        for (k, x) in vals {
            v.insert(*k, *x);
        }
        Rc::new(Model::new(v))
    }
    fn add_con(&mut self, st: &mut State, e: E) {
        if self.c.k(e).is_some() {
            return;
        }
        let n = self.c.nodes[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            st.known.insert(e, 1);
            return;
        }
        if n.op == Op::Not {
            let x = self.c.nodes[n.a as usize];
            if x.op == Op::Or && x.w == 1 {
                let a = self.c.not(x.a);
                let b = self.c.not(x.b);
                self.add_con(st, a);
                self.add_con(st, b);
                st.known.insert(n.a, 0);
                return;
            }
            st.known.insert(n.a, 0);
        }
        if n.op == Op::Eq {
            if let Some(k) = self.c.k(n.b) {
                st.known.insert(n.a, k);
            }
        }
        st.known.insert(e, 1);
        if !st.cons.contains(&e) {
            st.cons.push(e);
        }
    }
    /// Concretises a value: forks one state per feasible value.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> X<u128> {
        match v {
            V::C(k) => Ok(*k),
            V::A(_) => unsup("aggregate concretised"),
            V::S(e) => {
                let e = *e;
                if let Some(k) = st.known.get(&e) {
                    return Ok(*k);
                }
                let val = self.c.eval(e, &st.model);
                let k = self.c.konst(val, w);
                let eq = self.c.eq(e, k);
                let ne = self.c.not(eq);
                match self.query(&st.cons.clone(), ne) {
                    QRes::Unsat => {}
                    r => {
                        // other values are feasible: explore them in a sibling that re-executes this instruction
                        match r {
                            QRes::Sat(vals) => {
                                let mut o = st.clone();
                                if o.sp_mark > 0 {
                                    // the sibling repeats this atomic operation: its scheduling decision is already made
                                    let cur = o.cur;
                                    o.th[cur].sp_done = true;
                                }
                                o.model = self.merged(&st.model, &vals);
                                self.add_con(&mut o, ne);
                                self.push(o);
                            }
                            _ => {
                                *self.unsupported.entry(format!("solver gave no answer on a branch in {}", self.where_(st))).or_insert(0) += 1;
                            }
                        }
                    }
                }
                self.add_con(st, eq);
                st.known.insert(e, val);
                Ok(val)
            }
        }
    }
    fn push(&mut self, mut o: State) {
        self.st.forks += 1;
        o.depth += 1;
        self.work.push(o);
    }
    fn truth(&mut self, st: &mut State, v: &V) -> X<bool> {
        Ok(self.conc(st, v, 1)? != 0)
    }
    /// assume: keep only the part of the path where `e` holds
    fn assume(&mut self, st: &mut State, e: E) -> X<()> {
        match self.c.k(e) {
            Some(0) => return Err(Stop::Assumed),
            Some(_) => return Ok(()),
            None => {}
        }
        if let Some(k) = st.known.get(&e) {
            return if *k != 0 { Ok(()) } else { Err(Stop::Assumed) };
        }
        if self.c.eval(e, &st.model) == 0 {
            match self.query(&st.cons.clone(), e) {
                QRes::Sat(vals) => st.model = self.merged(&st.model, &vals),
                QRes::Unsat => return Err(Stop::Assumed),
                QRes::Unknown => return unsup("solver gave no answer on an assumption"),
            }
        }
        self.add_con(st, e);
        Ok(())
    }
    fn check_assert(&mut self, st: &mut State, e: E, kind: &str, name: &str) -> X<()> {
        let ent = self.asserts.entry(name.to_string()).or_insert((0, 0));
        match self.c.k(e) {
            Some(0) => {
                return fail(kind, name);
            }
            Some(_) => {
                ent.0 += 1;
                self.st.asserts_conc += 1;
                return Ok(());
            }
            None => {}
        }
        if let Some(k) = st.known.get(&e) {
            ent.0 += 1;
            return if *k != 0 { Ok(()) } else { fail(kind, name) };
        }
        ent.1 += 1;
        self.st.asserts_sym += 1;
        let ne = self.c.not(e);
        let r = if self.c.eval(ne, &st.model) != 0 { Some(st.model.clone()) } else { None };
        match r {
            Some(m) => self.report(st, kind, name, Some(m)),
            None => match self.query(&st.cons.clone(), ne) {
                QRes::Unsat => {
                    return Ok(());
                }
                QRes::Sat(vals) => {
                    let m = self.merged(&st.model, &vals);
                    self.report(st, kind, name, Some(m));
                }
                QRes::Unknown => {
                    *self.unsupported.entry(format!("solver gave no answer on assertion {}", name)).or_insert(0) += 1;
                    return Ok(());
                }
            },
        }
        // continue on the part where it holds
        self.assume(st, e)
    }

    // ------------------------------------------------------------ memory with symbolic addresses
    /// Resolves an address: either concrete or a small set of candidate addresses within one object.
    fn addr(&mut self, st: &mut State, p: &V, n: u64) -> X<Result<u64, (E, Vec<u64>)>> {
        let e = match p {
            V::C(k) => return Ok(Ok(*k as u64)),
            V::S(e) => *e,
            V::A(_) => return unsup("aggregate address"),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(Ok(*k as u64));
        }
        if self.fork_addr {
            return Ok(Ok(self.conc(st, p, 64)? as u64));
        }
        let val = self.c.eval(e, &st.model) as u64;
        let id = val >> 32;
        let mut cands: Option<Vec<u64>> = None;
        if let Some(vs) = self.c.vset(e, 40) {
            let v: Vec<u64> = vs.iter().map(|x| *x as u64).collect();
            if v.iter().all(|a| a >> 32 == id) {
                cands = Some(v);
            }
        }
        if cands.is_none() {
            if let Some(sz) = st.mem.size_of(val) {
                if sz >= n && sz - n < 1024 {
                    // does the address stay inside this object?
                    let base = self.c.konst((id << 32) as u128, 64);
                    let off = self.c.sub(e, base);
                    let lim = self.c.konst((sz - n + 1) as u128, 64);
                    let inb = self.c.ult(off, lim);
                    let out = self.c.not(inb);
                    if let QRes::Unsat = self.query(&st.cons.clone(), out) {
                        cands = Some((0..=(sz - n)).map(|o| (id << 32) + o).collect());
                    }
                }
            }
        }
        match cands {
            Some(c) if c.len() > 1 => {
                // keep feasible candidates only when there are few
                let mut keep = vec![];
                for a in c.iter() {
                    let k = self.c.konst(*a as u128, 64);
                    let q = self.c.eq(e, k);
                    if self.c.k(q) == Some(0) {
                        continue;
                    }
                    if st.mem.obj(*a, n, false).is_err() {
                        // decide feasibility exactly: an invalid candidate must be reported, not ignored
                        if let QRes::Unsat = self.query(&st.cons.clone(), q) {
                            continue;
                        }
                        let v = self.conc(st, p, 64)?;
                        return Ok(Ok(v as u64));
                    }
                    keep.push(*a);
                }
                Ok(Err((e, keep)))
            }
            _ => Ok(Ok(self.conc(st, p, 64)? as u64)),
        }
    }
    fn load_bytes(&mut self, st: &mut State, p: &V, n: u64) -> X<Vec<B>> {
        match self.addr(st, p, n)? {
            Ok(a) => mem(st.mem.read_b(a, n)),
            Err((e, cands)) => {
                let mut acc: Option<Vec<B>> = None;
                for a in cands.iter().rev() {
                    let b = mem(st.mem.read_b(*a, n))?;
                    acc = Some(match acc {
                        None => b,
                        Some(prev) => {
                            let k = self.c.konst(*a as u128, 64);
                            let q = self.c.eq(e, k);
                            self.mux_bytes(q, &b, &prev)
                        }
                    });
                }
                Ok(acc.unwrap())
            }
        }
    }
    /// per-word if-then-else of byte strings (8-byte groups stay whole expressions)
    fn mux_bytes(&mut self, q: E, a: &[B], b: &[B]) -> Vec<B> {
        let mut out = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            let g = (a.len() - i).min(8);
            if a[i..i + g] == b[i..i + g] {
                out.extend_from_slice(&a[i..i + g]);
            } else {
                let bits = 8 * g as u32;
                let x = join(&mut self.c, &a[i..i + g], bits).e(&mut self.c, bits);
                let y = join(&mut self.c, &b[i..i + g], bits).e(&mut self.c, bits);
                let r = self.c.ite(q, x, y);
                let v = V::of(&self.c, r);
                out.extend(split(&mut self.c, &v, bits, g as u32));
            }
            i += g;
        }
        out
    }
    fn store_bytes(&mut self, st: &mut State, p: &V, b: &[B]) -> X<()> {
        let n = b.len() as u64;
        match self.addr(st, p, n)? {
            Ok(a) => mem(st.mem.write_b(a, b)),
            Err((e, cands)) => {
                for a in &cands {
                    mem(st.mem.obj(*a, n, true).map(|_| ()))?;
                }
                // overlapping candidates are handled by updating sequentially from the old contents
                for a in cands {
                    let old = mem(st.mem.read_b(a, n))?;
                    let k = self.c.konst(a as u128, 64);
                    let q = self.c.eq(e, k);
                    let nb = self.mux_bytes(q, b, &old);
                    mem(st.mem.write_b(a, &nb))?;
                }
                Ok(())
            }
        }
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> X<V> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = match ty {
                    Ty::Struct(_, t) => t.len(),
                    Ty::Arr(n, _) => *n as usize,
                    _ => 0,
                };
                let mut v = vec![];
                for i in 0..n {
                    let q = self.add_off(p, ty.field_off(i));
                    v.push(self.load(st, &q, ty.field(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let bits = ty.bits();
                let n = (bits + 7) / 8;
                if n > 16 {
                    return unsup(format!("load of {:?}", ty));
                }
                if let V::C(a) = p {
                    if let Some(k) = mem(st.mem.read_c(*a as u64, n))? {
                        return Ok(V::C(k & mask(bits)));
                    }
                }
                let b = self.load_bytes(st, p, n as u64)?;
                Ok(join(&mut self.c, &b, bits))
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> X<()> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    _ => {
                        // zeroinitializer / undef of a large aggregate
                        let b = vec![B::C(0); ty.size() as usize];
                        return self.store_bytes(st, p, &b);
                    }
                };
                for (i, x) in vs.iter().enumerate() {
                    let q = self.add_off(p, ty.field_off(i));
                    self.store(st, &q, ty.field(i), x)?;
                }
                Ok(())
            }
            _ => {
                let bits = ty.bits();
                let n = (bits + 7) / 8;
                if let (V::C(a), V::C(k)) = (p, v) {
                    return mem(st.mem.write_c(*a as u64, *k, n));
                }
                let b = split(&mut self.c, v, bits, n);
                self.store_bytes(st, p, &b)
            }
        }
    }
    fn add_off(&mut self, p: &V, off: u64) -> V {
        match p {
            V::C(a) => V::C((*a as u64).wrapping_add(off) as u128),
            V::S(e) => {
                let k = self.c.konst(off as u128, 64);
                let r = self.c.add(*e, k);
                V::of(&self.c, r)
            }
            _ => panic!(),
        }
    }

    // ------------------------------------------------------------ operators
    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> X<V> {
        use BinOp::*;
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                Add => x.wrapping_add(y) & m,
                Sub => x.wrapping_sub(y) & m,
                Mul => x.wrapping_mul(y) & m,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                Shl => eval_op(Op::Shl, w, w, x, y, 0, 0, w),
                LShr => eval_op(Op::LShr, w, w, x, y, 0, 0, w),
                AShr => eval_op(Op::AShr, w, w, x, y, 0, 0, w),
                UDiv | SDiv | URem | SRem => {
                    if y == 0 {
                        return fail("ub", "division by zero");
                    }
                    eval_op(
                        match op {
                            UDiv => Op::UDiv,
                            SDiv => Op::SDiv,
                            URem => Op::URem,
                            _ => Op::SRem,
                        },
                        w,
                        w,
                        x,
                        y,
                        0,
                        0,
                        w,
                    )
                }
                FAdd | FSub | FMul | FDiv => eval_op(
                    match op {
                        FAdd => Op::FAdd,
                        FSub => Op::FSub,
                        FMul => Op::FMul,
                        _ => Op::FDiv,
                    },
                    w,
                    w,
                    x,
                    y,
                    0,
                    0,
                    w,
                ),
                FRem => {
                    if w == 64 {
                        (f64::from_bits(x as u64) % f64::from_bits(y as u64)).to_bits() as u128
                    } else {
                        (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u128
                    }
                }
            };
            return Ok(V::C(r));
        }
        let x = a.e(&mut self.c, w);
        let y = b.e(&mut self.c, w);
        let r = match op {
            Add => self.c.add(x, y),
            Sub => self.c.sub(x, y),
            Mul => self.c.mul(x, y),
            And => self.c.and(x, y),
            Or => self.c.or(x, y),
            Xor => self.c.xor(x, y),
            Shl => self.c.shl(x, y),
            LShr => self.c.lshr(x, y),
            AShr => self.c.ashr(x, y),
            UDiv => self.c.divrem(Op::UDiv, x, y),
            SDiv => self.c.divrem(Op::SDiv, x, y),
            URem => self.c.divrem(Op::URem, x, y),
            SRem => self.c.divrem(Op::SRem, x, y),
            FAdd => self.c.fbin(Op::FAdd, x, y),
            FSub => self.c.fbin(Op::FSub, x, y),
            FMul => self.c.fbin(Op::FMul, x, y),
            FDiv => self.c.fbin(Op::FDiv, x, y),
            FRem => {
                // x % 1 for the fraction: x - trunc(x), keeping the sign of x
                if self.c.k(y) == Some(1f64.to_bits() as u128) && w == 64 {
                    let t = self.c.fun1(Op::FRound, x, 64, 2);
                    let d = self.c.fbin(Op::FSub, x, t);
                    let mag = self.c.extract(d, 0, 63);
                    let sgn = self.c.extract(x, 63, 1);
                    let v = self.c.concat(sgn, mag);
                    let nan = self.c.f_isnan(d);
                    let kn = self.c.konst(NAN64 as u128, 64);
                    self.c.ite(nan, kn, v)
                } else {
                    return unsup("symbolic frem");
                }
            }
        };
        Ok(V::of(&self.c, r))
    }
    fn icmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => sx(x, w) < sx(y, w),
                "sle" => sx(x, w) <= sx(y, w),
                "sgt" => sx(x, w) > sx(y, w),
                _ => sx(x, w) >= sx(y, w),
            };
            return V::C(r as u128);
        }
        let x = a.e(&mut self.c, w);
        let y = b.e(&mut self.c, w);
        let r = self.cmp_e(p, x, y);
        V::of(&self.c, r)
    }
    fn cmp_e(&mut self, p: &str, x: E, y: E) -> E {
        let c = &mut self.c;
        match p {
            "eq" => c.eq(x, y),
            "ne" => {
                let e = c.eq(x, y);
                c.not(e)
            }
            "ult" => c.ult(x, y),
            "ugt" => c.ult(y, x),
            "ule" => {
                let e = c.ult(y, x);
                c.not(e)
            }
            "uge" => {
                let e = c.ult(x, y);
                c.not(e)
            }
            "slt" => c.slt(x, y),
            "sgt" => c.slt(y, x),
            "sle" => {
                let e = c.slt(y, x);
                c.not(e)
            }
            _ => {
                let e = c.slt(x, y);
                c.not(e)
            }
        }
    }
    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, v: &V) -> X<V> {
        if let V::C(x) = v {
            let x = *x;
            let r = match op {
                CastOp::Trunc => x & mask(tw),
                CastOp::ZExt | CastOp::Same => x,
                CastOp::SExt => sx(x, fw) as u128 & mask(tw),
                CastOp::UiToFp => eval_op(Op::UiToF, tw, fw, x, 0, 0, 0, 0),
                CastOp::SiToFp => eval_op(Op::SiToF, tw, fw, x, 0, 0, 0, 0),
                CastOp::FpConv => eval_op(Op::FConv, tw, fw, x, 0, 0, 0, 0),
                CastOp::FpToUi | CastOp::FpToSi => {
                    let e = self.c.konst(x, fw);
                    let r = self.c.f_to_int_sat(e, op == CastOp::FpToSi, tw);
                    self.c.k(r).unwrap()
                }
            };
            return Ok(V::C(r));
        }
        let x = v.e(&mut self.c, fw);
        let r = match op {
            CastOp::Trunc => self.c.trunc(x, tw),
            CastOp::ZExt => self.c.zext(x, tw),
            CastOp::SExt => self.c.sext(x, tw),
            CastOp::Same => x,
            CastOp::UiToFp => self.c.fun1(Op::UiToF, x, tw, 0),
            CastOp::SiToFp => self.c.fun1(Op::SiToF, x, tw, 0),
            CastOp::FpConv => self.c.fun1(Op::FConv, x, tw, 0),
            CastOp::FpToUi => self.c.f_to_int_sat(x, false, tw),
            CastOp::FpToSi => self.c.f_to_int_sat(x, true, tw),
        };
        Ok(V::of(&self.c, r))
    }
    fn lane(&mut self, v: &V, i: u32, lw: u32, total: u32) -> V {
        match v {
            V::C(k) => V::C((k >> (i * lw)) & mask(lw)),
            V::S(e) => {
                let r = self.c.extract(*e, i * lw, lw);
                V::of(&self.c, r)
            }
            _ => {
                let _ = total;
                panic!()
            }
        }
    }
    fn from_lanes(&mut self, l: &[V], lw: u32) -> V {
        if l.iter().all(|x| matches!(x, V::C(_))) {
            let mut r = 0;
            for (i, x) in l.iter().enumerate() {
                if let V::C(k) = x {
                    r |= k << (i as u32 * lw);
                }
            }
            return V::C(r);
        }
        let mut acc: Option<E> = None;
        for x in l {
            let e = x.e(&mut self.c, lw);
            acc = Some(match acc {
                None => e,
                Some(a) => self.c.concat(e, a),
            });
        }
        V::of(&self.c, acc.unwrap())
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, ty: &Ty) -> X<V> {
        if ty.is_agg() {
            match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.ite_v(c, &x[i], &y[i], ty.field(i))?);
                    }
                    Ok(V::A(Rc::new(o)))
                }
                _ => unsup("select of aggregates"),
            }
        } else {
            let w = ty.bits();
            let x = a.e(&mut self.c, w);
            let y = b.e(&mut self.c, w);
            let r = self.c.ite(c, x, y);
            Ok(V::of(&self.c, r))
        }
    }

    // ------------------------------------------------------------ stepping
    #[inline]
    fn opd(fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::C(k) => V::C(*k),
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|x| Self::opd(fr, x)).collect())),
        }
    }
    fn goto(st: &mut State, b: u32) {
        let cur = st.cur;
        let fr = st.th[cur].frames.last_mut().unwrap();
        let from = fr.bb;
        let blk = &fr.f.blocks[b as usize];
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, v) = &blk.phis[0];
                let o = &v.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi without an edge in {}", fr.f.name)).1;
                let x = Self::opd(fr, o);
                fr.regs[*d as usize] = x;
            }
            _ => {
                let mut tmp = Vec::with_capacity(blk.phis.len());
                for (d, v) in &blk.phis {
                    let o = &v.iter().find(|x| x.0 == from).unwrap().1;
                    tmp.push((*d, Self::opd(fr, o)));
                }
                for (d, x) in tmp {
                    fr.regs[d as usize] = x;
                }
            }
        }
        fr.bb = b;
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        if st.th[st.cur].st != TS::Run {
            return self.reschedule(st);
        }
        st.steps += 1;
        self.st.instrs += 1;
        st.sp_mark = 0;
        let cur = st.cur;
        if self.follow.is_some() && st.th.len() > 1 {
            let l = format!("{}: thread {} {} last {:?} {}", st.sched.len(), cur, self.where_(st), st.sched.last(), st.th[cur].sp_done);
            if st.log.last() != Some(&l) {
                st.log.push(l);
            }
        }
        let (f, bb, ip) = {
            let fr = st.th[cur].frames.last().unwrap();
            (fr.f, fr.bb, fr.ip)
        };
        let ins: &'static Ins = &f.blocks[bb as usize].ins[ip as usize];
        macro_rules! fr {
            () => {
                st.th[cur].frames.last_mut().unwrap()
            };
        }
        macro_rules! o {
            ($e:expr) => {
                Self::opd(st.th[cur].frames.last().unwrap(), $e)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = fr!();
                f.regs[$d as usize] = v;
                f.ip += 1;
            }};
        }
        match ins {
            Ins::Bin(d, op, ty, a, b) => {
                let (a, b) = (o!(a), o!(b));
                let v = if let Ty::Vec(n, t) = ty {
                    let lw = t.bits();
                    let mut l = vec![];
                    for i in 0..*n {
                        let x = self.lane(&a, i, lw, ty.bits());
                        let y = self.lane(&b, i, lw, ty.bits());
                        l.push(self.bin(*op, lw, &x, &y)?);
                    }
                    self.from_lanes(&l, lw)
                } else {
                    let w = ty.bits();
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                        if let V::S(e) = b {
                            // rustc guards divisions; a feasible zero divisor would be undefined behaviour
                            let z = self.c.konst(0, w);
                            let q = self.c.eq(e, z);
                            let nz = self.c.not(q);
                            self.check_assert(st, nz, "ub", "division by zero")?;
                        }
                    }
                    self.bin(*op, w, &a, &b)?
                };
                set!(*d, v);
            }
            Ins::ICmp(d, p, ty, a, b) => {
                let (a, b) = (o!(a), o!(b));
                let v = if let Ty::Vec(n, t) = ty {
                    let lw = t.bits();
                    let mut l = vec![];
                    for i in 0..*n {
                        let x = self.lane(&a, i, lw, ty.bits());
                        let y = self.lane(&b, i, lw, ty.bits());
                        l.push(self.icmp(p, lw, &x, &y));
                    }
                    self.from_lanes(&l, 1)
                } else {
                    self.icmp(p, ty.bits(), &a, &b)
                };
                set!(*d, v);
            }
            Ins::FCmp(d, p, ty, a, b) => {
                let (a, b) = (o!(a), o!(b));
                let w = ty.bits();
                let x = a.e(&mut self.c, w);
                let y = b.e(&mut self.c, w);
                let r = self.c.fcmp(p, x, y);
                set!(*d, V::of(&self.c, r));
            }
            Ins::FNeg(d, ty, a) => {
                let w = ty.bits();
                let a = o!(a).e(&mut self.c, w);
                let k = self.c.konst(1 << (w - 1), w);
                let r = self.c.xor(a, k);
                set!(*d, V::of(&self.c, r));
            }
            Ins::Cast(d, op, ft, tt, a) => {
                let a = o!(a);
                let v = if let (Ty::Vec(n, t), Ty::Vec(_, u)) = (ft, tt) {
                    if *op == CastOp::Same && t.bits() == u.bits() || *op == CastOp::Same {
                        a
                    } else {
                        if tt.bits() > 128 {
                            return unsup(format!("vector cast to {:?}", tt));
                        }
                        let mut l = vec![];
                        for i in 0..*n {
                            let x = self.lane(&a, i, t.bits(), ft.bits());
                            l.push(self.cast(*op, t.bits(), u.bits(), &x)?);
                        }
                        self.from_lanes(&l, u.bits())
                    }
                } else {
                    self.cast(*op, ft.bits(), tt.bits(), &a)?
                };
                set!(*d, v);
            }
            Ins::Load(d, ty, p, at) => {
                if *at && st.th.len() > 1 {
                    let a = match o!(p) {
                        V::C(a) => Some(a as u64),
                        _ => None,
                    };
                    if !self.sched_point(st, a)? {
                        return Ok(());
                    }
                }
                let p = o!(p);
                let v = self.load(st, &p, ty)?;
                set!(*d, v);
            }
            Ins::Store(ty, v, p, at) => {
                if *at {
                    self.sched_point(st, None)?;
                }
                let (v, p) = (o!(v), o!(p));
                self.store(st, &p, ty, &v)?;
                if *at {
                    self.wrote(st);
                }
                fr!().ip += 1;
            }
            Ins::Alloca(d, sz, n) => {
                let n = o!(n);
                let n = self.conc(st, &n, 64)?;
                let a = st.mem.alloc(sz * n as u64, Kind::Stack);
                let f = fr!();
                f.allocas.push((a >> 32) as u32);
                f.regs[*d as usize] = V::C(a as u128);
                f.ip += 1;
            }
            Ins::Gep(d, b, off, terms) => {
                let b = o!(b);
                let mut v = self.add_off(&b, *off as u64);
                for (t, w, sc) in terms {
                    let t = o!(t);
                    match (&v, &t) {
                        (V::C(a), V::C(k)) => {
                            v = V::C((*a as u64).wrapping_add((sx(*k, *w) as i64).wrapping_mul(*sc) as u64) as u128);
                        }
                        _ => {
                            let te = t.e(&mut self.c, *w);
                            let te = if *w < 64 { self.c.sext(te, 64) } else { self.c.trunc(te, 64) };
                            let k = self.c.konst(*sc as u64 as u128, 64);
                            let te = self.c.mul(te, k);
                            let be = v.e(&mut self.c, 64);
                            let r = self.c.add(be, te);
                            v = V::of(&self.c, r);
                        }
                    }
                }
                set!(*d, v);
            }
            Ins::Select(d, ct, ty, c, a, b) => {
                let c = o!(c);
                let v = match (ct, c) {
                    (Ty::Vec(n, _), c) => {
                        let lw = ty.field(0).bits();
                        let (a, b) = (o!(a), o!(b));
                        let mut l = vec![];
                        for i in 0..*n {
                            let x = self.lane(&a, i, lw, ty.bits());
                            let y = self.lane(&b, i, lw, ty.bits());
                            let q = self.lane(&c, i, 1, *n).e(&mut self.c, 1);
                            l.push(self.ite_v(q, &x, &y, ty.field(0))?);
                        }
                        self.from_lanes(&l, lw)
                    }
                    (_, V::C(k)) => {
                        if k != 0 {
                            o!(a)
                        } else {
                            o!(b)
                        }
                    }
                    (_, V::S(e)) => {
                        let (a, b) = (o!(a), o!(b));
                        match st.known.get(&e) {
                            Some(0) => b,
                            Some(_) => a,
                            // a choice between two small lengths: keep lengths concrete
                            None if matches!((&a, &b), (V::C(x), V::C(y)) if x != y && *x < 16 && *y < 16) && ty.bits() == 64 && !self.c.has_fp(e) => {
                                if self.conc(st, &V::S(e), 1)? != 0 {
                                    a
                                } else {
                                    b
                                }
                            }
                            None => self.ite_v(e, &a, &b, ty)?,
                        }
                    }
                    _ => return unsup("select condition"),
                };
                set!(*d, v);
            }
            Ins::ExtractValue(d, a, idx) => {
                let mut v = o!(a);
                for i in idx {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => V::C(0),
                    };
                }
                set!(*d, v);
            }
            Ins::InsertValue(d, ty, a, x, idx) => {
                let (a, x) = (o!(a), o!(x));
                let v = insert(&a, ty, &x, idx);
                set!(*d, v);
            }
            Ins::ExtractElement(d, ty, a, i) => {
                let (a, i) = (o!(a), o!(i));
                let i = self.conc(st, &i, 64)?;
                let lw = ty.field(0).bits();
                let v = self.lane(&a, i as u32, lw, ty.bits());
                set!(*d, v);
            }
            Ins::InsertElement(d, ty, a, x, i) => {
                let (a, x, i) = (o!(a), o!(x), o!(i));
                let i = self.conc(st, &i, 64)?;
                let lw = ty.field(0).bits();
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                if n * lw > 128 {
                    return unsup("wide vector");
                }
                let mut l: Vec<V> = (0..n).map(|j| self.lane(&a, j, lw, ty.bits())).collect();
                l[i as usize] = x;
                let v = self.from_lanes(&l, lw);
                set!(*d, v);
            }
            Ins::Shuffle(d, ty, a, b, m) => {
                let (a, b) = (o!(a), o!(b));
                let lw = ty.field(0).bits();
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                if m.len() as u32 * lw > 128 {
                    return unsup("wide vector");
                }
                let mut l = vec![];
                for &i in m {
                    l.push(if i < n { self.lane(&a, i, lw, ty.bits()) } else { self.lane(&b, i - n, lw, ty.bits()) });
                }
                let v = self.from_lanes(&l, lw);
                set!(*d, v);
            }
            Ins::Br(b) => Self::goto(st, *b),
            Ins::CondBr(c, a, b) => {
                let c = o!(c);
                let t = match c {
                    V::C(k) => k != 0,
                    c => self.truth(st, &c)?,
                };
                Self::goto(st, if t { *a } else { *b });
            }
            Ins::Switch(ty, v, def, cs) => {
                let v = o!(v);
                let w = ty.bits();
                match v {
                    V::C(k) => {
                        let b = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                        Self::goto(st, b);
                    }
                    V::S(e) => {
                        if let Some(k) = st.known.get(&e).copied() {
                            let b = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                            Self::goto(st, b);
                        } else {
                            // fork per target block
                            let mut targets: BTreeMap<u32, E> = BTreeMap::new();
                            let mut rest = Ctx::TRUE;
                            for (k, b) in cs {
                                let kk = self.c.konst(*k, w);
                                let q = self.c.eq(e, kk);
                                let nq = self.c.not(q);
                                rest = self.c.and(rest, nq);
                                let cur = targets.get(b).copied().unwrap_or(Ctx::FALSE);
                                let o = self.c.or(cur, q);
                                targets.insert(*b, o);
                            }
                            let cur = targets.get(def).copied().unwrap_or(Ctx::FALSE);
                            let o = self.c.or(cur, rest);
                            targets.insert(*def, o);
                            let mut mine = None;
                            for (b, q) in &targets {
                                if self.c.eval(*q, &st.model) != 0 {
                                    mine = Some((*b, *q));
                                }
                            }
                            let (mb, mq) = mine.unwrap();
                            for (b, q) in &targets {
                                if *b == mb {
                                    continue;
                                }
                                match self.query(&st.cons.clone(), *q) {
                                    QRes::Unsat => {}
                                    QRes::Sat(vals) => {
                                        let mut o = st.clone();
                                        o.model = self.merged(&st.model, &vals);
                                        self.add_con(&mut o, *q);
                                        Self::goto(&mut o, *b);
                                        self.push(o);
                                    }
                                    QRes::Unknown => {
                                        *self.unsupported.entry("solver gave no answer on a switch".into()).or_insert(0) += 1;
                                    }
                                }
                            }
                            self.add_con(st, mq);
                            Self::goto(st, mb);
                        }
                    }
                    _ => return unsup("switch"),
                }
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(_, x)| o!(x));
                self.ret(st, v)?;
            }
            Ins::Unreachable => return fail("ub", format!("unreachable code reached in {}", self.where_(st))),
            Ins::Resume(v) => {
                let v = o!(v);
                let exc = match v {
                    V::A(x) => match &x[0] {
                        V::C(k) => *k as u64,
                        _ => return unsup("resume"),
                    },
                    _ => return unsup("resume"),
                };
                self.pop_frame(st);
                self.unwind(st, exc)?;
            }
            Ins::LandingPad(d, _cleanup, clauses) => {
                let exc = fr!().exc.take().unwrap_or(0);
                let sel = if clauses.iter().any(|c| *c) {
                    1u128
                } else if !clauses.is_empty() {
                    mask(32)
                } else {
                    0
                };
                set!(*d, V::A(Rc::new(vec![V::C(exc as u128), V::C(sel)])));
            }
            Ins::Rmw(d, op, ty, p, v) => {
                self.sched_point(st, None)?;
                let (p, v) = (o!(p), o!(v));
                let w = ty.bits();
                let old = self.load(st, &p, ty)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, w, &old, &v)?,
                    "sub" => self.bin(BinOp::Sub, w, &old, &v)?,
                    "and" => self.bin(BinOp::And, w, &old, &v)?,
                    "or" => self.bin(BinOp::Or, w, &old, &v)?,
                    "xor" => self.bin(BinOp::Xor, w, &old, &v)?,
                    "nand" => {
                        let x = self.bin(BinOp::And, w, &old, &v)?;
                        self.bin(BinOp::Xor, w, &x, &V::C(mask(w)))?
                    }
                    "fadd" => self.bin(BinOp::FAdd, w, &old, &v)?,
                    "fsub" => self.bin(BinOp::FSub, w, &old, &v)?,
                    "max" | "min" | "umax" | "umin" => {
                        let p = match op.as_str() {
                            "max" => "sgt",
                            "min" => "slt",
                            "umax" => "ugt",
                            _ => "ult",
                        };
                        let q = self.icmp(p, w, &old, &v).e(&mut self.c, 1);
                        self.ite_v(q, &old, &v, ty)?
                    }
                    x => return unsup(format!("atomicrmw {}", x)),
                };
                self.store(st, &p, ty, &new)?;
                self.wrote(st);
                set!(*d, old);
            }
            Ins::CmpXchg(d, ty, p, c, n) => {
                self.sched_point(st, None)?;
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let w = ty.bits();
                let old = self.load(st, &p, ty)?;
                let q = self.icmp("eq", w, &old, &c);
                let ok = self.truth(st, &q)?;
                if ok {
                    self.store(st, &p, ty, &n)?;
                    self.wrote(st);
                }
                set!(*d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
            }
            Ins::Fence => {
                fr!().ip += 1;
            }
            Ins::Freeze(d, v) => {
                let v = o!(v);
                set!(*d, v);
            }
            Ins::Call(call) => self.call(st, call)?,
        }
        Ok(())
    }

    fn pop_frame(&mut self, st: &mut State) {
        let cur = st.cur;
        let fr = st.th[cur].frames.pop().unwrap();
        for a in fr.allocas {
            st.mem.free_stack(a);
        }
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> X<()> {
        let cur = st.cur;
        self.pop_frame(st);
        if st.th[cur].frames.is_empty() {
            st.th[cur].st = TS::Done;
            if cur == 0 {
                return Err(Stop::Done);
            }
            let n = st.th.len();
            for i in 0..n {
                if st.th[i].st == TS::Join(cur) {
                    st.th[i].st = TS::Run;
                }
            }
            return Ok(());
        }
        self.finish_call(st, v);
        Ok(())
    }
    /// completes the call instruction on top of the current frame with a result
    fn finish_call(&mut self, st: &mut State, v: Option<V>) {
        let cur = st.cur;
        let fr = st.th[cur].frames.last_mut().unwrap();
        let ins: &'static Ins = &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize];
        if let Ins::Call(c) = ins {
            if let (Some(d), Some(v)) = (c.dst, v) {
                fr.regs[d as usize] = v;
            }
            match c.unwind {
                Some((n, _)) => Self::goto(st, n),
                None => fr.ip += 1,
            }
        } else {
            panic!("return to a non-call");
        }
    }
    fn unwind(&mut self, st: &mut State, exc: u64) -> X<()> {
        let cur = st.cur;
        loop {
            let target = match st.th[cur].frames.last() {
                None => return fail("panic", "panic left the thread"),
                Some(fr) => match &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize] {
                    Ins::Call(c) => c.unwind.map(|u| u.1),
                    _ => None,
                },
            };
            match target {
                Some(b) => {
                    st.th[cur].frames.last_mut().unwrap().exc = Some(exc);
                    Self::goto(st, b);
                    return Ok(());
                }
                None => self.pop_frame(st),
            }
        }
    }

    // ------------------------------------------------------------ scheduling
    /// Before an atomic operation. A scheduling decision (which thread goes on) is recorded at the first
    /// arrival at every such point, and whenever a thread stops; a resumed thread executes its operation
    /// without another one.
    fn sched_point(&mut self, st: &mut State, load: Option<u64>) -> X<bool> {
        if st.th.len() == 1 {
            return Ok(true);
        }
        let cur = st.cur;
        let live = st.th.iter().filter(|t| t.st != TS::Done).count() > 1;
        if !st.th[cur].sp_done && live {
            st.th[cur].sp_done = true;
            let others: Vec<usize> = (0..st.th.len()).filter(|&t| t != cur && st.th[t].st == TS::Run).collect();
            if let Some(addr) = load {
                // the same load again with nothing written in between: it waits for somebody else
                let f = st.th[cur].frames.last().unwrap();
                let at = (f.sym, f.bb, f.ip, addr, st.writes);
                if st.th[cur].last_load == Some(at) {
                    if !others.is_empty() {
                        st.th[cur].st = TS::Spin;
                        for &t in &others[1..] {
                            let mut o = st.clone();
                            o.cur = t;
                            o.sched.push(t as u8);
                            self.push(o);
                        }
                        st.cur = others[0];
                        st.sched.push(st.cur as u8);
                        return Ok(false);
                    }
                    st.th[cur].spins += 1;
                    if st.th[cur].spins > 5000 {
                        return fail("hang", "a thread waits for a change that nobody can make");
                    }
                } else {
                    st.th[cur].last_load = Some(at);
                    st.th[cur].spins = 0;
                }
            }
            if st.preempt < self.cfg.max_preempt && !others.is_empty() {
                st.pid.1 += 1;
                for &t in &others {
                    let mut o = st.clone();
                    o.cur = t;
                    o.preempt += 1;
                    o.pid.0 = mix(o.pid.0, t as u64);
                    o.sched.push(t as u8);
                    if !self.not_mine(&mut o, false) {
                        self.st.sched_forks += 1;
                        self.push(o);
                    }
                }
                st.pid.0 = mix(st.pid.0, cur as u64);
                if self.not_mine(st, false) {
                    return Err(Stop::Assumed);
                }
            }
            st.sched.push(cur as u8);
        }
        st.th[cur].sp_done = false;
        st.sp_mark = 1;
        Ok(true)
    }
    /// Does the path belong to another shard? Decided at the eighth point of possible preemption, or at the end.
    fn not_mine(&self, st: &mut State, end: bool) -> bool {
        match self.cfg.shard {
            Some((i, m)) if self.cfg.max_preempt > 0 && !st.pid.2 && (end || st.pid.1 == 8 || st.preempt == self.cfg.max_preempt) => {
                st.pid.2 = true;
                mix(st.pid.0, 0x5bd1) % m != i
            }
            _ => false,
        }
    }
    /// an atomic operation has written
    fn wrote(&mut self, st: &mut State) {
        st.writes += 1;
        if st.th.len() > 1 {
            for t in &mut st.th {
                if t.st == TS::Spin {
                    t.st = TS::Run;
                }
            }
        }
    }
    fn reschedule(&mut self, st: &mut State) -> X<()> {
        // the current thread cannot run: continue with every runnable one
        let live = st.th.iter().filter(|t| t.st != TS::Done).count() > 1;
        let mut run: Vec<usize> = (0..st.th.len()).filter(|&t| st.th[t].st == TS::Run).collect();
        if run.is_empty() {
            run = (0..st.th.len()).filter(|&t| st.th[t].st == TS::Spin).collect();
            for &t in &run {
                st.th[t].st = TS::Run;
            }
        }
        if run.is_empty() {
            if let Some(t) = (0..st.th.len()).find(|&t| matches!(st.th[t].st, TS::Futex(_, true))) {
                st.th[t].st = TS::Run;
                st.th[t].wake_ret = Some(1);
                run.push(t);
            } else {
                return fail("deadlock", "every thread is blocked");
            }
        }
        for &t in &run[1..] {
            let mut o = st.clone();
            o.cur = t;
            if live {
                o.sched.push(t as u8);
            }
            self.push(o);
        }
        st.cur = run[0];
        if live {
            st.sched.push(run[0] as u8);
        }
        Ok(())
    }
    fn yield_now(&mut self, st: &mut State) -> X<()> {
        let cur = st.cur;
        let live = st.th.iter().filter(|t| t.st != TS::Done).count() > 1;
        let mut run: Vec<usize> = (0..st.th.len()).filter(|&t| t != cur && st.th[t].st == TS::Run).collect();
        if run.is_empty() {
            run.push(cur);
        }
        for &t in &run[1..] {
            let mut o = st.clone();
            o.cur = t;
            if live {
                o.sched.push(t as u8);
            }
            self.push(o);
        }
        st.cur = run[0];
        if live {
            st.sched.push(run[0] as u8);
        }
        Ok(())
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, call: &'static Call) -> X<()> {
        let cur = st.cur;
        let sym = match &call.callee {
            Callee::Sym(s) => *s,
            Callee::AsmNop => {
                self.finish_call(st, None);
                return Ok(());
            }
            Callee::Ind(o) => {
                let v = Self::opd(st.th[cur].frames.last().unwrap(), o);
                let a = self.conc(st, &v, 64)? as u64;
                match st.mem.slot((a >> 32) as u32) {
                    Slot::Func(i) if a as u32 == 0 => *i,
                    _ => return fail("memory", format!("call through a bad function pointer {:#x}", a)),
                }
            }
        };
        if let SymKind::FuncDef { .. } = self.m.syms[sym as usize].kind {
            let mut sym = sym;
            if let Some(&(w, stub)) = self.hooks.get(&sym) {
                if !matches!(call.args.first(), Some((Ty::Ptr, _))) {
                    return unsup("formatting function with a promoted argument");
                }
                let p = Self::opd(st.th[cur].frames.last().unwrap(), &call.args[0].1);
                let v = self.load(st, &p, &Ty::Int(w))?;
                if let V::S(_) = v {
                    sym = stub;
                }
            }
            if let Some(&t) = self.unicode.get(&sym) {
                let v = Self::opd(st.th[cur].frames.last().unwrap(), &call.args[0].1);
                if let V::S(x) = v {
                    let r = crate::unicode::lookup(&mut self.c, t, x);
                    let r = match self.c.k(r) {
                        Some(k) => V::C(k),
                        None => V::S(r),
                    };
                    self.finish_call(st, Some(r));
                    return Ok(());
                }
            }
            let f = self.m.func(sym);
            *self.funcs.entry(sym).or_insert(0) += 1;
            let mut regs = vec![V::C(0); f.nregs as usize];
            {
                let fr = st.th[cur].frames.last().unwrap();
                for (i, (_, r)) in f.params.iter().enumerate() {
                    if i < call.args.len() {
                        regs[*r as usize] = Self::opd(fr, &call.args[i].1);
                    }
                }
            }
            if st.th[cur].frames.len() > 4000 {
                return fail("stack", "stack overflow (4000 frames)");
            }
            st.th[cur].frames.push(Frame { f, sym, bb: 0, ip: 0, regs, allocas: vec![], exc: None });
            return Ok(());
        }
        let args: Vec<V> = {
            let fr = st.th[cur].frames.last().unwrap();
            call.args.iter().map(|a| Self::opd(fr, &a.1)).collect()
        };
        let name: &'static str = match self.quick_names.get(&sym) {
            Some(n) => n,
            None => {
                let n: &'static str = Box::leak(self.m.syms[sym as usize].name.clone().into_boxed_str());
                self.quick_names.insert(sym, n);
                n
            }
        };
        self.builtin(st, name, call, args)
    }

    fn str_arg(&mut self, st: &mut State, p: &V, n: &V) -> X<String> {
        let a = self.conc(st, p, 64)? as u64;
        let n = self.conc(st, n, 64)? as u64;
        let b = mem(st.mem.read_b(a, n))?;
        let mut s = vec![];
        for x in b {
            match x {
                B::C(c) => s.push(c),
                B::S(e, i) => {
                    let v = self.c.eval(e, &st.model);
                    s.push((v >> (8 * i)) as u8)
                }
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    fn builtin(&mut self, st: &mut State, name: &str, call: &'static Call, a: Vec<V>) -> X<()> {
        macro_rules! done {
            () => {{
                self.finish_call(st, None);
                return Ok(());
            }};
            ($v:expr) => {{
                let v = $v;
                self.finish_call(st, Some(v));
                return Ok(());
            }};
        }
        if name == "llvm.x86.sse2.pause" {
            // a spin-wait hint (waiting is recognised at the load that is repeated)
            self.finish_call(st, None);
            return Ok(());
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            let r = self.intrinsic(st, n, call, &a)?;
            self.finish_call(st, r);
            return Ok(());
        }
        if !name.starts_with("vp_") && !self.externs.contains(name) {
            self.externs.insert(name.to_string());
        }
        let cur = st.cur;
        match name {
            // ---- harness interface
            "vp_sym" => {
                let w = self.conc(st, &a[0], 32)? as u32;
                let n = self.str_arg(st, &a[1], &a[2])?;
                let v = if let Some(cv) = &self.cfg.concrete {
                    let k = cv.get(self.conc_pos).copied().unwrap_or(0);
                    self.conc_pos += 1;
                    st.inp.push(Inp::Choice(n, k as u64));
                    V::C(k & mask(w))
                } else {
                    // the variable is identified by its position, so siblings share it
                    let key = st.inp.len();
                    let e = self.input_var(&n, w, key);
                    st.inp.push(Inp::Sym(n, w, e));
                    V::S(e)
                };
                // returned as u64
                let v = match v {
                    V::C(k) => V::C(k),
                    V::S(e) => V::S(self.c.zext(e, 64)),
                    v => v,
                };
                done!(v)
            }
            "vp_choose" => {
                let n = self.conc(st, &a[0], 64)? as u64;
                let nm = self.str_arg(st, &a[1], &a[2])?;
                if let Some(cv) = &self.cfg.concrete {
                    let k = cv.get(self.conc_pos).copied().unwrap_or(0) as u64;
                    self.conc_pos += 1;
                    if k >= n {
                        return Err(Stop::Assumed);
                    }
                    st.inp.push(Inp::Choice(nm, k));
                    done!(V::C(k as u128))
                }
                let first = self.cfg.max_preempt == 0 && !st.inp.iter().any(|i| matches!(i, Inp::Choice(..)));
                let mut list: Vec<u64> = (0..n).collect();
                if first {
                    if let Some((i, m)) = self.cfg.shard {
                        list.retain(|k| k % m == i);
                        if list.is_empty() {
                            return Err(Stop::Assumed);
                        }
                    }
                }
                for &k in list[1..].iter().rev() {
                    let mut o = st.clone();
                    o.inp.push(Inp::Choice(nm.clone(), k));
                    o.pid.0 = mix(o.pid.0, k);
                    self.finish_call(&mut o, Some(V::C(k as u128)));
                    self.push(o);
                }
                let k = list[0];
                st.inp.push(Inp::Choice(nm, k));
                st.pid.0 = mix(st.pid.0, k);
                done!(V::C(k as u128))
            }
            "vp_param" => {
                let d = self.conc(st, &a[0], 64)? as u64;
                let n = self.str_arg(st, &a[1], &a[2])?;
                let v = self.cfg.params.get(&n).copied().unwrap_or(d);
                self.params_used.insert(n, v);
                done!(V::C(v as u128))
            }
            "vp_below" => {
                // a variable that is known to be less than n
                let top = self.conc(st, &a[0], 64)? - 1;
                let n = self.str_arg(st, &a[1], &a[2])?;
                let v = if let Some(cv) = &self.cfg.concrete {
                    let k = cv.get(self.conc_pos).copied().unwrap_or(0);
                    self.conc_pos += 1;
                    st.inp.push(Inp::Choice(n, k as u64));
                    V::C(k as u128)
                } else {
                    let w = (128 - top.leading_zeros()).max(1);
                    let e = self.input_var(&format!("{}<={}", n, top), w, st.inp.len());
                    st.inp.push(Inp::Sym(n, w, e));
                    if top != mask(w) {
                        let c = self.c.limit(e, top);
                        self.assume(st, c)?;
                    }
                    V::S(self.c.zext(e, 64))
                };
                done!(v)
            }
            "vp_assume" => {
                let e = a[0].e(&mut self.c, 1);
                self.assume(st, e)?;
                done!()
            }
            "vp_assert" => {
                let n = self.str_arg(st, &a[1], &a[2])?;
                let e = a[0].e(&mut self.c, 1);
                self.check_assert(st, e, "assert", &n)?;
                done!()
            }
            "vp_cover" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                *self.covers.entry(n).or_insert(0) += 1;
                done!()
            }
            "vp_note" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                st.note = n;
                done!()
            }
            "vp_trace" => {
                let n = self.str_arg(st, &a[1], &a[2])?;
                st.trace.push((n, a[0].clone()));
                done!()
            }
            "vp_print" => {
                let n = self.str_arg(st, &a[0], &a[1])?;
                eprintln!("[{}] {}", st.cur, n);
                done!()
            }
            "vp_concretize" => {
                let v = self.conc(st, &a[0], 64)?;
                done!(V::C(v))
            }
            "vp_is_symbolic" => done!(V::C(matches!(a[0], V::S(_)) as u128)),
            "vp_is_native" => done!(V::C(0)),
            "vp_spawn" => {
                let f = self.conc(st, &a[0], 64)? as u64;
                let sym = match st.mem.slot((f >> 32) as u32) {
                    Slot::Func(i) => *i,
                    _ => return unsup("spawn"),
                };
                let t = self.new_thread(st, sym, &[a[1].clone()]);
                done!(V::C(t as u128))
            }
            "vp_join" => {
                let t = self.conc(st, &a[0], 64)? as usize;
                if st.th[t].st != TS::Done {
                    st.th[cur].st = TS::Join(t);
                    return Ok(());
                }
                done!()
            }
            "vp_heap_live" => done!(V::C(st.mem.heap_live as u64 as u128)),
            // ---- allocator
            "malloc" => {
                let n = self.conc(st, &a[0], 64)? as u64;
                if n > 1 << 26 {
                    return unsup(format!("allocation of {} bytes", n));
                }
                done!(V::C(st.mem.malloc(n, cur) as u128))
            }
            "calloc" => {
                let n = self.conc(st, &a[0], 64)? as u64;
                let m = self.conc(st, &a[1], 64)? as u64;
                if n.saturating_mul(m) > 1 << 26 {
                    return unsup(format!("allocation of {} bytes", n));
                }
                done!(V::C(st.mem.malloc(n * m, cur) as u128))
            }
            "posix_memalign" => {
                let n = self.conc(st, &a[2], 64)? as u64;
                let p = V::C(st.mem.malloc(n, cur) as u128);
                self.store(st, &a[0], &Ty::Ptr, &p)?;
                done!(V::C(0))
            }
            "aligned_alloc" => {
                let n = self.conc(st, &a[1], 64)? as u64;
                done!(V::C(st.mem.malloc(n, cur) as u128))
            }
            "realloc" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[1], 64)? as u64;
                if n > 1 << 26 {
                    return unsup(format!("allocation of {} bytes", n));
                }
                let q = st.mem.malloc(n, cur);
                if p != 0 {
                    let old = match st.mem.size_of(p) {
                        Some(s) => s,
                        None => return fail("memory", "realloc of a freed block"),
                    };
                    mem(st.mem.copy(q, p, old.min(n)))?;
                    mem(st.mem.free(p, cur))?;
                }
                done!(V::C(q as u128))
            }
            "free" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                if p != 0 {
                    mem(st.mem.free(p, cur))?;
                }
                done!()
            }
            // ---- C library
            "memcmp" | "bcmp" => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    done!(V::C(0))
                }
                let x = self.load_bytes(st, &a[0], n)?;
                let y = self.load_bytes(st, &a[1], n)?;
                // decide the concrete prefix
                let mut i = 0;
                while i < x.len() {
                    match (x[i], y[i]) {
                        (B::C(p), B::C(q)) if p == q => i += 1,
                        (p, q) if p == q => i += 1,
                        _ => break,
                    }
                }
                if i == x.len() {
                    done!(V::C(0))
                }
                if let (B::C(p), B::C(q)) = (x[i], y[i]) {
                    done!(V::C((p as i32 - q as i32) as u32 as u128))
                }
                let zero = self.c.konst(0, 32);
                let one = self.c.konst(1, 32);
                let mut acc = zero;
                for j in (i..x.len()).rev() {
                    let p = byte_e(&mut self.c, x[j]);
                    let q = byte_e(&mut self.c, y[j]);
                    let eq = self.c.eq(p, q);
                    let d = if name == "bcmp" {
                        one
                    } else {
                        let lt = self.c.ult(p, q);
                        let m1 = self.c.konst(mask(32), 32);
                        self.c.ite(lt, m1, one)
                    };
                    acc = self.c.ite(eq, acc, d);
                }
                done!(V::of(&self.c, acc))
            }
            "memcpy" | "memmove" => {
                let n = self.conc(st, &a[2], 64)? as u64;
                self.memcpy(st, &a[0], &a[1], n)?;
                done!(a[0].clone())
            }
            "memset" => {
                let n = self.conc(st, &a[2], 64)? as u64;
                let b = self.cast(CastOp::Trunc, 32, 8, &a[1])?;
                self.memset(st, &a[0], &b, n)?;
                done!(a[0].clone())
            }
            "strlen" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let mut n = 0;
                loop {
                    let v = self.load(st, &V::C((p + n) as u128), &Ty::Int(8))?;
                    if self.conc(st, &v, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                done!(V::C(n as u128))
            }
            "__errno_location" => done!(V::C(st.th[cur].errno as u128)),
            "abort" => fail("abort", format!("abort ({})", st.note)),
            "exit" | "_exit" => fail("abort", "process exit"),
            "getenv" => done!(V::C(0)),
            "sched_yield" => {
                self.finish_call(st, Some(V::C(0)));
                self.yield_now(st)
            }
            "pthread_self" => done!(V::C(0x7000 + cur as u128)),
            "gettid" => done!(V::C(100 + cur as u128)),
            "__cxa_thread_atexit_impl" => done!(V::C(0)),
            "pthread_key_create" => {
                let k = st.next_key;
                st.next_key += 1;
                self.store(st, &a[0], &Ty::Int(32), &V::C(k as u128))?;
                done!(V::C(0))
            }
            "pthread_key_delete" => done!(V::C(0)),
            "pthread_setspecific" => {
                let k = self.conc(st, &a[0], 32)? as u64;
                let v = self.conc(st, &a[1], 64)? as u64;
                st.th[cur].keys.insert(k, v);
                done!(V::C(0))
            }
            "pthread_getspecific" => {
                let k = self.conc(st, &a[0], 32)? as u64;
                done!(V::C(st.th[cur].keys.get(&k).copied().unwrap_or(0) as u128))
            }
            "write" => {
                let n = a[2].clone();
                done!(n)
            }
            "writev" => {
                // pretend everything was written
                let n = self.conc(st, &a[2], 32)? as u64;
                let mut tot = 0u64;
                for i in 0..n {
                    let p = self.add_off(&a[1], 16 * i + 8);
                    let l = self.load(st, &p, &Ty::Int(64))?;
                    tot += self.conc(st, &l, 64)? as u64;
                }
                done!(V::C(tot as u128))
            }
            "syscall" => {
                let nr = self.conc(st, &a[0], 64)?;
                match nr {
                    202 => self.futex(st, &a),
                    186 => done!(V::C(100 + cur as u128)),
                    318 => {
                        // getrandom: fixed bytes
                        let p = self.conc(st, &a[1], 64)? as u64;
                        let n = self.conc(st, &a[2], 64)? as u64;
                        for i in 0..n {
                            mem(st.mem.write_c(p + i, 7 * i as u128 + 3, 1))?;
                        }
                        done!(V::C(n as u128))
                    }
                    n => unsup(format!("system call {}", n)),
                }
            }
            "getrandom" => {
                let p = self.conc(st, &a[0], 64)? as u64;
                let n = self.conc(st, &a[1], 64)? as u64;
                for i in 0..n {
                    mem(st.mem.write_c(p + i, 7 * i as u128 + 3, 1))?;
                }
                done!(V::C(n as u128))
            }
            // ---- unwinding
            "_Unwind_RaiseException" => {
                let exc = self.conc(st, &a[0], 64)? as u64;
                // search phase: is there any frame that catches?
                let mut found = false;
                for fr in st.th[cur].frames.iter().rev() {
                    if let Ins::Call(c) = &fr.f.blocks[fr.bb as usize].ins[fr.ip as usize] {
                        if let Some((_, u)) = c.unwind {
                            if let Some(Ins::LandingPad(_, _, cl)) = fr.f.blocks[u as usize].ins.first() {
                                if !cl.is_empty() {
                                    found = true;
                                    break;
                                }
                            }
                        }
                    }
                }
                if !found {
                    return fail("panic", format!("uncaught panic: {}", st.note));
                }
                // this call itself sits in the runtime's frame
                self.unwind(st, exc)
            }
            "_Unwind_DeleteException" => done!(),
            "_Unwind_Backtrace" => done!(V::C(5)),
            "pow" | "exp" | "log" | "exp2" | "log2" | "log10" | "fmod" | "sqrt" | "cbrt" | "sin" | "cos" | "tan" | "expm1" | "log1p" | "powf" => {
                let mut k = vec![];
                for v in &a {
                    match v {
                        V::C(x) => k.push(f64::from_bits(*x as u64)),
                        _ => return unsup(format!("symbolic {}", name)),
                    }
                }
                let r = match name {
                    "pow" => k[0].powf(k[1]),
                    "exp" => k[0].exp(),
                    "log" => k[0].ln(),
                    "exp2" => k[0].exp2(),
                    "log2" => k[0].log2(),
                    "log10" => k[0].log10(),
                    "fmod" => k[0] % k[1],
                    "sqrt" => k[0].sqrt(),
                    "cbrt" => k[0].cbrt(),
                    "expm1" => k[0].exp_m1(),
                    "log1p" => k[0].ln_1p(),
                    _ => return unsup(name.to_string()),
                };
                done!(V::C(r.to_bits() as u128))
            }
            _ => unsup(format!("call to external {}", name)),
        }
    }
    fn input_var(&mut self, name: &str, w: u32, key: usize) -> E {
        let n = format!("{}#{}", name, key);
        for (s, sw, e) in &self.c.var_names {
            if *sw as u32 == w && s.starts_with(&n) && s[n.len()..].starts_with('!') {
                return *e;
            }
        }
        self.c.var(&n, w)
    }
    fn futex(&mut self, st: &mut State, a: &[V]) -> X<()> {
        let cur = st.cur;
        let op = self.conc(st, &a[2], 32)? & 0x7f;
        let addr = self.conc(st, &a[1], 64)? as u64;
        match op {
            0 | 9 => {
                if let Some(r) = st.th[cur].wake_ret.take() {
                    if r == 0 {
                        self.finish_call(st, Some(V::C(0)));
                    } else {
                        let e = st.th[cur].errno;
                        mem(st.mem.write_c(e, 110, 4))?;
                        self.finish_call(st, Some(V::C(mask(64))));
                    }
                    return Ok(());
                }
                let want = self.conc(st, &a[3], 32)? & mask(32);
                let v = self.load(st, &V::C(addr as u128), &Ty::Int(32))?;
                let v = self.conc(st, &v, 32)?;
                if v != want {
                    let e = st.th[cur].errno;
                    mem(st.mem.write_c(e, 11, 4))?;
                    self.finish_call(st, Some(V::C(mask(64))));
                    return Ok(());
                }
                let timeout = match &a[4] {
                    V::C(0) => false,
                    _ => true,
                };
                st.th[cur].st = TS::Futex(addr, timeout);
                Ok(())
            }
            1 | 10 => {
                let n = self.conc(st, &a[3], 32)? & mask(32);
                let mut k = 0;
                for t in 0..st.th.len() {
                    if k >= n {
                        break;
                    }
                    if let TS::Futex(x, _) = st.th[t].st {
                        if x == addr {
                            st.th[t].st = TS::Run;
                            st.th[t].wake_ret = Some(0);
                            k += 1;
                        }
                    }
                }
                self.finish_call(st, Some(V::C(k)));
                Ok(())
            }
            o => unsup(format!("futex op {}", o)),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        if let (V::C(d), V::C(s)) = (d, s) {
            return mem(st.mem.copy(*d as u64, *s as u64, n));
        }
        let b = self.load_bytes(st, s, n)?;
        self.store_bytes(st, d, &b)
    }
    fn memset(&mut self, st: &mut State, d: &V, v: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let b = split(&mut self.c, v, 8, 1)[0];
        let v = vec![b; n as usize];
        self.store_bytes(st, d, &v)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, call: &'static Call, a: &[V]) -> X<Option<V>> {
        let base = n.split('.').next().unwrap();
        macro_rules! has {
            ($p:expr) => {
                n.starts_with($p)
            };
        }
        match base {
            "lifetime" | "dbg" | "experimental" | "assume" | "prefetch" | "invariant" | "donothing" => return Ok(None),
            "memcpy" | "memmove" => {
                let k = self.conc(st, &a[2], 64)? as u64;
                self.memcpy(st, &a[0], &a[1], k)?;
                return Ok(None);
            }
            "memset" => {
                let k = self.conc(st, &a[2], 64)? as u64;
                self.memset(st, &a[0], &a[1], k)?;
                return Ok(None);
            }
            "trap" => return fail("abort", format!("trap ({})", st.note)),
            "is" if has!("is.constant") => return Ok(Some(V::C(0))),
            "expect" => return Ok(Some(a[0].clone())),
            "threadlocal" => {
                let k = match &a[0] {
                    V::C(k) => ((*k as u64 >> 32) - 1) as u32,
                    _ => return unsup("threadlocal"),
                };
                let cur = st.cur;
                if let Some(x) = st.th[cur].tls.get(&k) {
                    return Ok(Some(V::C(*x as u128)));
                }
                let init = self.m.global_init(k).unwrap_or_default();
                let p = st.mem.alloc(init.len() as u64, Kind::Heap);
                st.mem.heap_live -= 1;
                let b: Vec<B> = init.iter().map(|x| B::C(*x)).collect();
                if !b.is_empty() {
                    mem(st.mem.write_b(p, &b))?;
                }
                st.th[cur].tls.insert(k, p);
                return Ok(Some(V::C(p as u128)));
            }
            "x86" => {
                if has!("x86.sse2.pmovmskb.128") {
                    let mut l = vec![];
                    for i in 0..16 {
                        let x = self.lane(&a[0], i, 8, 128);
                        let b = self.lane(&x, 7, 1, 8);
                        l.push(b);
                    }
                    let v = self.from_lanes(&l, 1);
                    return Ok(Some(self.cast(CastOp::ZExt, 16, 32, &v)?));
                }
                return unsup(format!("intrinsic {}", n));
            }
            _ => {}
        }
        let ty = &call.ret;
        if let Ty::Vec(..) = ty {
            return unsup(format!("vector intrinsic {}", n));
        }
        let aw = if call.args.is_empty() || call.args[0].0.is_agg() { 0 } else { call.args[0].0.bits() };
        let r = match base {
            "umax" | "umin" | "smax" | "smin" => {
                let w = ty.bits();
                let p = match base {
                    "umax" => "ugt",
                    "umin" => "ult",
                    "smax" => "sgt",
                    _ => "slt",
                };
                match self.icmp(p, w, &a[0], &a[1]) {
                    V::C(k) => {
                        if k != 0 {
                            a[0].clone()
                        } else {
                            a[1].clone()
                        }
                    }
                    q => {
                        let q = q.e(&mut self.c, 1);
                        self.ite_v(q, &a[0], &a[1], ty)?
                    }
                }
            }
            "abs" => {
                let w = ty.bits();
                let x = a[0].e(&mut self.c, w);
                let z = self.c.konst(0, w);
                let q = self.c.slt(x, z);
                let ng = self.c.neg(x);
                let r = self.c.ite(q, ng, x);
                V::of(&self.c, r)
            }
            "usub" if has!("usub.sat") => {
                let w = ty.bits();
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let q = self.c.ult(x, y);
                let d = self.c.sub(x, y);
                let z = self.c.konst(0, w);
                let r = self.c.ite(q, z, d);
                V::of(&self.c, r)
            }
            "uadd" if has!("uadd.sat") => {
                let w = ty.bits();
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let s = self.c.add(x, y);
                let q = self.c.ult(s, x);
                let m = self.c.konst(mask(w), w);
                let r = self.c.ite(q, m, s);
                V::of(&self.c, r)
            }
            "sadd" | "ssub" if has!("sadd.sat") || has!("ssub.sat") => {
                let w = ty.bits();
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let (r, o) = self.ovf(if base == "sadd" { "sadd" } else { "ssub" }, w, x, y);
                let z = self.c.konst(0, w);
                let neg = self.c.slt(x, z);
                let mn = self.c.konst(1u128 << (w - 1), w);
                let mx = self.c.konst(mask(w - 1), w);
                let sat = self.c.ite(neg, mn, mx);
                let r = self.c.ite(o, sat, r);
                V::of(&self.c, r)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if n.contains("with.overflow") => {
                let w = aw;
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let (r, o) = self.ovf(base, w, x, y);
                V::A(Rc::new(vec![V::of(&self.c, r), V::of(&self.c, o)]))
            }
            "bswap" | "bitreverse" => {
                let w = ty.bits();
                let u = if base == "bswap" { 8 } else { 1 };
                let x = a[0].e(&mut self.c, w);
                let mut acc: Option<E> = None;
                for i in 0..w / u {
                    let p = self.c.extract(x, i * u, u);
                    acc = Some(match acc {
                        None => p,
                        Some(q) => self.c.concat(q, p),
                    });
                }
                V::of(&self.c, acc.unwrap())
            }
            "ctlz" | "cttz" | "ctpop" => {
                let w = ty.bits();
                if let V::C(k) = &a[0] {
                    let k = *k & mask(w);
                    let r = match base {
                        "ctpop" => k.count_ones(),
                        "cttz" => {
                            if k == 0 {
                                w
                            } else {
                                k.trailing_zeros()
                            }
                        }
                        _ => {
                            if k == 0 {
                                w
                            } else {
                                k.leading_zeros() - (128 - w)
                            }
                        }
                    };
                    V::C(r as u128)
                } else {
                    let x = a[0].e(&mut self.c, w);
                    let mut acc = self.c.konst(if base == "ctpop" { 0 } else { w as u128 }, w);
                    for j in 0..w {
                        // process so that the decisive bit ends up outermost
                        let i = match base {
                            "cttz" => w - 1 - j,
                            _ => j,
                        };
                        let b = self.c.extract(x, i, 1);
                        if base == "ctpop" {
                            let z = self.c.zext(b, w);
                            acc = self.c.add(acc, z);
                        } else {
                            let k = self.c.konst(if base == "cttz" { i as u128 } else { (w - 1 - i) as u128 }, w);
                            acc = self.c.ite(b, k, acc);
                        }
                    }
                    V::of(&self.c, acc)
                }
            }
            "fshl" | "fshr" => {
                let w = ty.bits();
                if 2 * w > 128 {
                    return unsup("wide funnel shift");
                }
                let s = self.conc(st, &a[2], w)? as u32 % w;
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let cc = self.c.concat(x, y);
                let lo = if base == "fshl" { w - s } else { s };
                let r = if lo == 2 * w { x } else { self.c.extract(cc, lo, w) };
                V::of(&self.c, r)
            }
            "ucmp" | "scmp" => {
                let rw = ty.bits();
                let (x, y) = (a[0].e(&mut self.c, aw), a[1].e(&mut self.c, aw));
                let lt = if base == "ucmp" { self.c.ult(x, y) } else { self.c.slt(x, y) };
                let eq = self.c.eq(x, y);
                let (m1, z, o) = (self.c.konst(mask(rw), rw), self.c.konst(0, rw), self.c.konst(1, rw));
                let r = self.c.ite(eq, z, o);
                let r = self.c.ite(lt, m1, r);
                V::of(&self.c, r)
            }
            "fabs" => {
                let w = ty.bits();
                let x = a[0].e(&mut self.c, w);
                let m = self.c.extract(x, 0, w - 1);
                let r = self.c.zext(m, w);
                V::of(&self.c, r)
            }
            "copysign" => {
                let w = ty.bits();
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let m = self.c.extract(x, 0, w - 1);
                let s = self.c.extract(y, w - 1, 1);
                let r = self.c.concat(s, m);
                V::of(&self.c, r)
            }
            "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" => {
                let w = ty.bits();
                let x = a[0].e(&mut self.c, w);
                let k = match base {
                    "floor" => 0,
                    "ceil" => 1,
                    "trunc" => 2,
                    _ => 3,
                };
                let r = self.c.fun1(Op::FRound, x, w, k);
                V::of(&self.c, r)
            }
            "round" => {
                // half away from zero: trunc(x) adjusted by the fraction
                let w = ty.bits();
                if w != 64 {
                    return unsup("round.f32");
                }
                let x = a[0].e(&mut self.c, w);
                let t = self.c.fun1(Op::FRound, x, w, 2);
                let d = self.c.fbin(Op::FSub, x, t);
                let mag = self.c.extract(d, 0, 63);
                let mag = self.c.zext(mag, 64);
                let half = self.c.konst(0.5f64.to_bits() as u128, 64);
                let lt = self.c.f_olt(mag, half);
                let sgn = self.c.extract(x, 63, 1);
                let one = self.c.konst(1f64.to_bits() as u128, 64);
                let om = self.c.extract(one, 0, 63);
                let step = self.c.concat(sgn, om);
                let up = self.c.fbin(Op::FAdd, t, step);
                let r = self.c.ite(lt, t, up);
                V::of(&self.c, r)
            }
            "sqrt" | "exp" | "log" | "pow" | "exp2" | "log2" | "log10" | "sin" | "cos" | "fma" | "fmuladd" => {
                if ty.bits() == 64 && a.iter().any(|v| !matches!(v, V::C(_))) {
                    // where the multiplications are exact
                    if base == "fma" || base == "fmuladd" {
                        let (x, y, z) = (a[0].e(&mut self.c, 64), a[1].e(&mut self.c, 64), a[2].e(&mut self.c, 64));
                        if let Some(p) = self.c.fix_bin(Op::FMul, x, y) {
                            let r = self.c.fbin(Op::FAdd, p, z);
                            return Ok(V::of(&self.c, r).into());
                        }
                    }
                    if let ("pow", V::C(k)) = (base, &a[1.min(a.len() - 1)]) {
                        let k = f64::from_bits(*k as u64);
                        if k >= 0.0 && k <= 16.0 && k.fract() == 0.0 {
                            let x = a[0].e(&mut self.c, 64);
                            let mut r = Some(self.c.konst(1f64.to_bits() as u128, 64));
                            for _ in 0..k as u32 {
                                r = r.and_then(|r| self.c.fix_bin(Op::FMul, r, x));
                            }
                            if let Some(r) = r {
                                return Ok(V::of(&self.c, r).into());
                            }
                        }
                    }
                }
                let mut k = vec![];
                for v in a {
                    match v {
                        V::C(x) => k.push(f64::from_bits(*x as u64)),
                        _ => return unsup(format!("symbolic {}", n)),
                    }
                }
                let r = match base {
                    "sqrt" => k[0].sqrt(),
                    "exp" => k[0].exp(),
                    "log" => k[0].ln(),
                    "pow" => k[0].powf(k[1]),
                    "exp2" => k[0].exp2(),
                    "log2" => k[0].log2(),
                    "log10" => k[0].log10(),
                    "fma" | "fmuladd" => k[0].mul_add(k[1], k[2]),
                    _ => return unsup(n.to_string()),
                };
                V::C(r.to_bits() as u128)
            }
            "powi" => {
                let w = ty.bits();
                let ew = call.args[1].0.bits();
                let k = self.conc(st, &a[1], ew)?;
                let b = sx(k, ew) as i64;
                let recip = b < 0;
                let mut b = b.unsigned_abs();
                let mut x = a[0].e(&mut self.c, w);
                let one = self.c.konst(if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 }, w);
                let mut r = one;
                loop {
                    if b & 1 == 1 {
                        r = self.c.fbin(Op::FMul, r, x);
                    }
                    b >>= 1;
                    if b == 0 {
                        break;
                    }
                    x = self.c.fbin(Op::FMul, x, x);
                }
                if recip {
                    r = self.c.fbin(Op::FDiv, one, r);
                }
                V::of(&self.c, r)
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let w = ty.bits();
                let (x, y) = (a[0].e(&mut self.c, w), a[1].e(&mut self.c, w));
                let nx = self.c.f_isnan(x);
                let ny = self.c.f_isnan(y);
                let lt = self.c.f_olt(x, y);
                let r = if base.starts_with("min") { self.c.ite(lt, x, y) } else { self.c.ite(lt, y, x) };
                let r = self.c.ite(ny, x, r);
                let r = self.c.ite(nx, y, r);
                V::of(&self.c, r)
            }
            "is" if has!("is.fpclass") => {
                let w = call.args[0].0.bits();
                let x = a[0].e(&mut self.c, w);
                let k = self.conc(st, &a[1], 32)?;
                let (s, m, q) = if w == 64 { (1u128 << 63, 0x7ffu128 << 52, 1u128 << 51) } else { (1 << 31, 0xffu128 << 23, 1 << 22) };
                let c = &mut self.c;
                let ka = |c: &mut crate::expr::Ctx, v: u128| c.konst(v, w);
                let (ks, km, kmag, kq, z) = (ka(c, s), ka(c, m), ka(c, s - 1), ka(c, q), ka(c, 0));
                let sign = c.and(x, ks);
                let pos = c.eq(sign, z);
                let neg = c.not(pos);
                let mag = c.and(x, kmag);
                let inf = c.eq(mag, km);
                let zero = c.eq(mag, z);
                let nan = c.ult(km, mag);
                let qb = c.and(x, kq);
                let quiet0 = c.eq(qb, z);
                let quiet = c.not(quiet0);
                let ex = c.and(x, km);
                let ez = c.eq(ex, z);
                let em = c.eq(ex, km);
                let nz = c.not(zero);
                let sub = c.and(ez, nz);
                let sp = c.or(ez, em);
                let norm = c.not(sp);
                let class = [(nan, quiet0), (nan, quiet), (inf, neg), (norm, neg), (sub, neg), (zero, neg), (zero, pos), (sub, pos), (norm, pos), (inf, pos)];
                let mut r = c.konst(0, 1);
                for (i, (p, q)) in class.iter().enumerate() {
                    if k >> i & 1 == 1 {
                        let t = c.and(*p, *q);
                        r = c.or(r, t);
                    }
                }
                V::of(&self.c, r)
            }
            "fptoui" | "fptosi" => {
                let x = a[0].e(&mut self.c, aw);
                let r = self.c.f_to_int_sat(x, base == "fptosi", ty.bits());
                V::of(&self.c, r)
            }
            "vector" => {
                if has!("vector.reduce.or") || has!("vector.reduce.and") || has!("vector.reduce.add") {
                    let (n_, t) = match &call.args[0].0 {
                        Ty::Vec(k, t) => (*k, t.bits()),
                        _ => return unsup(n.to_string()),
                    };
                    let op = if has!("vector.reduce.or") {
                        BinOp::Or
                    } else if has!("vector.reduce.and") {
                        BinOp::And
                    } else {
                        BinOp::Add
                    };
                    let mut acc = self.lane(&a[0], 0, t, aw);
                    for i in 1..n_ {
                        let x = self.lane(&a[0], i, t, aw);
                        acc = self.bin(op, t, &acc, &x)?;
                    }
                    acc
                } else {
                    return unsup(format!("intrinsic {}", n));
                }
            }
            _ => return unsup(format!("intrinsic {}", n)),
        };
        Ok(Some(r))
    }
    fn ovf(&mut self, base: &str, w: u32, x: E, y: E) -> (E, E) {
        // no overflow by the operands' ranges
        let (mx, my) = (self.c.umax(x), self.c.umax(y));
        let top = if base.starts_with('s') { mask(w) >> 1 } else { mask(w) };
        match base {
            "uadd" | "sadd" if mx <= top && my <= top && mx + my <= top => return (self.c.add(x, y), Ctx::FALSE),
            "umul" | "smul" if mx <= top && my <= top && mx.checked_mul(my).map_or(false, |p| p <= top) => return (self.c.mul(x, y), Ctx::FALSE),
            _ => {}
        }
        match base {
            "uadd" => {
                let s = self.c.add(x, y);
                let o = self.c.ult(s, x);
                (s, o)
            }
            "usub" => {
                let s = self.c.sub(x, y);
                let o = self.c.ult(x, y);
                (s, o)
            }
            "sadd" | "ssub" => {
                let (xe, ye) = (self.c.sext(x, w + 1), self.c.sext(y, w + 1));
                let s = if base == "sadd" { self.c.add(xe, ye) } else { self.c.sub(xe, ye) };
                let r = self.c.trunc(s, w);
                let hi = self.c.extract(s, w, 1);
                let lo = self.c.extract(s, w - 1, 1);
                let q = self.c.eq(hi, lo);
                let o = self.c.not(q);
                (r, o)
            }
            "umul" | "smul" if self.c.k(y).map_or(false, |k| k > 1 && k <= top) || self.c.k(x).map_or(false, |k| k > 1 && k <= top) => {
                // by a positive constant: the other factor is out of a range
                let (x, y) = if self.c.k(y).is_some() { (x, y) } else { (y, x) };
                let k = self.c.k(y).unwrap();
                let hi = self.c.konst(top / k, w);
                let o = if base == "umul" {
                    self.c.ult(hi, x)
                } else {
                    let lo = self.c.konst(((top + 1) / k).wrapping_neg() & mask(w), w);
                    let (p, q) = (self.c.slt(hi, x), self.c.slt(x, lo));
                    self.c.or(p, q)
                };
                (self.c.mul(x, y), o)
            }
            _ => {
                let signed = base == "smul";
                if 2 * w > 128 {
                    panic!("wide multiplication overflow check");
                }
                let (xe, ye) = if signed { (self.c.sext(x, 2 * w), self.c.sext(y, 2 * w)) } else { (self.c.zext(x, 2 * w), self.c.zext(y, 2 * w)) };
                let p = self.c.mul(xe, ye);
                let r = self.c.trunc(p, w);
                let o = if signed {
                    let back = self.c.sext(r, 2 * w);
                    let q = self.c.eq(back, p);
                    self.c.not(q)
                } else {
                    let hi = self.c.extract(p, w, w);
                    let z = self.c.konst(0, w);
                    let q = self.c.eq(hi, z);
                    self.c.not(q)
                };
                (r, o)
            }
        }
    }
}

fn insert(a: &V, ty: &Ty, x: &V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return x.clone();
    }
    let n = match ty {
        Ty::Struct(_, t) => t.len(),
        Ty::Arr(n, _) => *n as usize,
        _ => panic!("insertvalue into {:?}", ty),
    };
    let mut v: Vec<V> = match a {
        V::A(v) => (**v).clone(),
        _ => vec![V::C(0); n],
    };
    let i = idx[0] as usize;
    v[i] = insert(&v[i].clone(), ty.field(i), x, &idx[1..]);
    V::A(Rc::new(v))
}
