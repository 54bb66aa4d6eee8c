//! Queries in which floats are only compared: each float becomes a small rank.
//!
//! The ranks satisfy every order fact of the floats they stand for (constants are spaced so that as
//! many distinct values as there are terms fit between neighbours), so an unsatisfiable rank query
//! means an unsatisfiable query. A satisfying rank assignment is turned into floats and counts only
//! if the evaluator confirms it.
use crate::expr::*;
use crate::z3::{Ast, Check};
use std::collections::{BTreeMap, HashMap};

pub enum Ordered {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}
/// order-preserving map of non-NaN floats to integers (both zeros alike)
fn key(bits: u64) -> i128 {
    if bits >> 63 == 1 {
        -((bits & (u64::MAX >> 1)) as i128)
    } else {
        bits as i128
    }
}
fn unkey(k: i128) -> u64 {
    if k < 0 {
        (-k) as u64 | 1 << 63
    } else {
        k as u64
    }
}
const PINF: u64 = 0x7ff0_0000_0000_0000;
const NINF: u64 = 0xfff0_0000_0000_0000;

impl Ctx {
    pub fn order_query(&mut self, cons: &[E], timeout_ms: u32) -> Option<(Ordered, std::time::Duration)> {
        // the terms, and the constants they are compared with
        let mut seen = std::collections::HashSet::new();
        let mut stack: Vec<E> = cons.to_vec();
        let mut terms: BTreeMap<E, ()> = BTreeMap::new();
        let mut consts: BTreeMap<i128, ()> = BTreeMap::new();
        consts.insert(key(PINF), ());
        consts.insert(key(NINF), ());
        let mut vars: Vec<(u32, E)> = vec![];
        let mut elsewhere = false;
        while let Some(e) = stack.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.nodes[e as usize];
            if matches!(n.op, Op::FLt | Op::FEq | Op::FNan) {
                for x in [n.a, n.b].iter().take(arity(n.op)) {
                    match self.k(*x) {
                        Some(k) => {
                            consts.insert(key(k as u64), ());
                        }
                        None => {
                            terms.insert(*x, ());
                        }
                    }
                }
                continue;
            }
            if n.op == Op::Var {
                vars.push((n.k as u32, e));
            }
            if matches!(n.op, Op::FAdd | Op::FMul | Op::FDiv | Op::FRound | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FConv) {
                return None;
            }
            for x in [n.a, n.b, n.c].iter().take(arity(n.op)) {
                stack.push(*x);
            }
        }
        if terms.is_empty() {
            return None;
        }
        for (_, v) in &vars {
            elsewhere |= terms.contains_key(v);
        }
        let step = terms.len() as u64 + 1;
        let top = step * (consts.len() as u64 + 1);
        let w = if top < 1 << 7 { 7 } else if top < 1 << 10 { 10 } else { 16 };
        if top >= 1 << 16 {
            return None;
        }
        let rank: HashMap<i128, u64> = consts.keys().enumerate().map(|(i, k)| (*k, (i as u64 + 1) * step)).collect();
        let mut tv: HashMap<E, (E, E)> = HashMap::new();
        let mut out: Vec<E> = vec![];
        let (lo, hi) = (rank[&key(NINF)], rank[&key(PINF)]);
        for t in terms.keys() {
            let kv = self.ord_var(*t, w);
            let nv = self.ord_var(*t, 1);
            let l = self.konst(lo as u128, w);
            let h = self.konst(hi as u128, w);
            let a = self.ult(kv, l);
            let b = self.ult(h, kv);
            let c = self.or(a, b);
            let c = self.not(c);
            out.push(c);
            tv.insert(*t, (kv, nv));
        }
        let mut map: HashMap<E, E> = HashMap::new();
        for e in cons {
            let x = self.ord_rec(*e, &mut map, &tv, &rank, w);
            if x == Ctx::FALSE {
                return Some((Ordered::Unsat, Default::default()));
            }
            out.push(x);
        }
        let mut zv: Vec<(u32, Ast)> = vars.iter().map(|(i, e)| (*i, self.zv(*e))).collect();
        let base = zv.len();
        let mut ids = vec![];
        for (t, (k, n)) in &tv {
            ids.push(*t);
            let (k, n) = (*k, *n);
            let zk = self.zv(k);
            let zn = self.zv(n);
            zv.push((0, zk));
            zv.push((0, zn));
        }
        let zs: Vec<Ast> = out.iter().map(|e| self.zbool(*e)).collect();
        let t0 = std::time::Instant::now();
        let (r, vals) = self.z.check(&zs, false, timeout_ms, &zv);
        let dt = t0.elapsed();
        let r = match r {
            Check::Unsat => Ordered::Unsat,
            Check::Unknown => Ordered::Unknown,
            Check::Sat => {
                let only_inputs = ids.iter().all(|t| self.nodes[*t as usize].op == Op::Var);
                if elsewhere || !only_inputs || vals.len() != zv.len() {
                    return Some((Ordered::Unknown, dt));
                }
                let mut vals: Vec<(u32, u128)> = vals;
                // ranks to floats
                let ks: Vec<i128> = consts.keys().copied().collect();
                let mut gaps: BTreeMap<u64, Vec<u64>> = BTreeMap::new(); // constant index -> ranks above it
                let mut asg: HashMap<u64, u64> = rank.iter().map(|(k, r)| (*r, unkey(*k))).collect();
                for i in 0..ids.len() {
                    let (r, nan) = (vals[base + 2 * i].1 as u64, vals[base + 2 * i + 1].1);
                    if nan == 0 && !asg.contains_key(&r) {
                        let g = gaps.entry(r / step - 1).or_default();
                        if !g.contains(&r) {
                            g.push(r);
                        }
                    }
                }
                for (i, mut rs) in gaps {
                    rs.sort();
                    let (a, b) = (ks[i as usize], ks[i as usize + 1]);
                    if b - a <= rs.len() as i128 {
                        return Some((Ordered::Unknown, dt));
                    }
                    let d = (b - a) / (rs.len() as i128 + 1);
                    for (j, r) in rs.iter().enumerate() {
                        asg.insert(*r, unkey(a + d.max(1) * (j as i128 + 1)));
                    }
                }
                let mut res: Vec<(u32, u128)> = vals.drain(..base).collect::<Vec<_>>();
                let rest = vals;
                for (i, t) in ids.iter().enumerate() {
                    let (r, nan) = (rest[2 * i].1 as u64, rest[2 * i + 1].1);
                    let v = if nan != 0 { NAN64 } else { asg[&r] };
                    res.push((self.nodes[*t as usize].k as u32, v as u128));
                }
                Ordered::Sat(res)
            }
        };
        Some((r, dt))
    }
    fn ord_rec(&mut self, e: E, map: &mut HashMap<E, E>, tv: &HashMap<E, (E, E)>, rank: &HashMap<i128, u64>, w: u32) -> E {
        if let Some(&x) = map.get(&e) {
            return x;
        }
        let n = self.nodes[e as usize];
        let nw = n.w as u32;
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::FLt | Op::FEq => {
                let side = |c: &mut Ctx, x: E| match c.k(x) {
                    Some(k) => (c.konst(rank[&key(k as u64)] as u128, w), Ctx::FALSE),
                    None => tv[&x],
                };
                let (ka, na) = side(self, n.a);
                let (kb, nb) = side(self, n.b);
                let p = if n.op == Op::FLt { self.ult(ka, kb) } else { self.eq(ka, kb) };
                let nn = self.or(na, nb);
                let nn = self.not(nn);
                self.and(nn, p)
            }
            Op::FNan => tv[&n.a].1,
            _ => {
                let ar = arity(n.op);
                let a = if ar > 0 { self.ord_rec(n.a, map, tv, rank, w) } else { 0 };
                let b = if ar > 1 { self.ord_rec(n.b, map, tv, rank, w) } else { 0 };
                let c = if ar > 2 { self.ord_rec(n.c, map, tv, rank, w) } else { 0 };
                self.rebuild(n.op, nw, n.k, e, a, b, c)
            }
        };
        map.insert(e, r);
        r
    }
}
