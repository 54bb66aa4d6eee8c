//! Hash-consed bit-vector / floating-point expression DAG (widths 1..=128) with a simplifier,
//! a concrete evaluator and a translation to Z3 terms.
use crate::z3::{Ast, Z3};
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a = high, b = low
    Extract, // k = low bit
    ZExt,
    SExt,
    // floats (operands are IEEE bit patterns of width 32/64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRound,  // k: 0 floor 1 ceil 2 trunc 3 nearest-even
    FToUi,   // in-range only (operand guarded by the caller)
    FToSi,
    UiToF,
    SiToF,
    FConv,
    // order predicates on 64-bit floats that are inputs or results of float operations
    FLt,
    FEq,
    FNan,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type VarSet = [u64; 4];

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, BuildFx>,
    vs: Vec<VarSet>,
    fp: Vec<bool>,
    /// an upper bound of the unsigned value
    mx: Vec<u128>,
    pub var_names: Vec<(String, u8, E)>,
    z_bv: Vec<Ast>,
    z_bool: Vec<Ast>,
    pub z: Z3,
    abs_vars: HashMap<E, E>,
    /// signed bounds found by `srange`
    pub ranges: HashMap<E, (i128, i128)>,
    ord_vars: HashMap<(E, u32), E>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
pub const NAN64: u64 = 0x7ff8_0000_0000_0000;
pub const NAN32: u32 = 0x7fc0_0000;
fn canon64(x: f64) -> u128 {
    if x.is_nan() {
        NAN64 as u128
    } else {
        x.to_bits() as u128
    }
}
fn canon32(x: f32) -> u128 {
    if x.is_nan() {
        NAN32 as u128
    } else {
        x.to_bits() as u128
    }
}

/// Evaluates one operator on concrete operands.
pub fn eval_op(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128, k: u128, bw: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Const => k,
        Op::Var => unreachable!(),
        Op::Not => !a & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat => (a << bw) | b,
        Op::Extract => (a >> k) & m,
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u128) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 64 {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                canon64(match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                })
            } else {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                canon32(match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                })
            }
        }
        Op::FRound => {
            if w == 64 {
                let x = f64::from_bits(a as u64);
                canon64(match k {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    _ => x.round_ties_even(),
                })
            } else {
                let x = f32::from_bits(a as u32);
                canon32(match k {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    _ => x.round_ties_even(),
                })
            }
        }
        Op::FToUi => {
            let x = if aw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
            (x as u128) & m
        }
        Op::FToSi => {
            let x = if aw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
            (x as i128 as u128) & m
        }
        Op::UiToF => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Op::SiToF => {
            if w == 64 {
                (sx(a, aw) as f64).to_bits() as u128
            } else {
                (sx(a, aw) as f32).to_bits() as u128
            }
        }
        Op::FLt => (f64::from_bits(a as u64) < f64::from_bits(b as u64)) as u128,
        Op::FEq => (f64::from_bits(a as u64) == f64::from_bits(b as u64)) as u128,
        Op::FNan => f64::from_bits(a as u64).is_nan() as u128,
        Op::FConv => {
            if w == 64 {
                canon64(f32::from_bits(a as u32) as f64)
            } else {
                canon32(f64::from_bits(a as u64) as f32)
            }
        }
    }
}

pub struct Model {
    pub vals: HashMap<u32, u128, BuildFx>,
    pub cache: std::cell::RefCell<HashMap<E, u128, BuildFx>>,
}
impl Model {
    pub fn new(vals: HashMap<u32, u128, BuildFx>) -> Model {
        Model { vals, cache: Default::default() }
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            map: HashMap::default(),
            vs: vec![],
            fp: vec![],
            mx: vec![],
            var_names: vec![],
            z_bv: vec![],
            z_bool: vec![],
            z: Z3::new(),
            abs_vars: HashMap::new(),
            ranges: HashMap::new(),
            ord_vars: HashMap::new(),
        };
        c.konst(0, 1);
        c.konst(1, 1);
        c
    }
    pub fn reset(&mut self) {
        self.nodes.clear();
        self.map.clear();
        self.vs.clear();
        self.fp.clear();
        self.mx.clear();
        self.var_names.clear();
        self.z_bv.clear();
        self.z_bool.clear();
        self.abs_vars.clear();
        self.ranges.clear();
        self.ord_vars.clear();
        self.konst(0, 1);
        self.konst(1, 1);
    }
    pub const FALSE: E = 0;
    pub const TRUE: E = 1;
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn k(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn varset(&self, e: E) -> &VarSet {
        &self.vs[e as usize]
    }
    pub fn has_fp(&self, e: E) -> bool {
        self.fp[e as usize]
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let mut vs = [0u64; 4];
        let mut fp = matches!(
            n.op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRound | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FConv
        );
        if n.op == Op::Var {
            let v = (n.k as usize) % 256;
            vs[v / 64] |= 1 << (v % 64);
        } else if n.op != Op::Const {
            for (i, ch) in [n.a, n.b, n.c].iter().enumerate() {
                if i < arity(n.op) {
                    for j in 0..4 {
                        vs[j] |= self.vs[*ch as usize][j];
                    }
                    fp |= self.fp[*ch as usize];
                }
            }
        }
        let mx = self.bound(&n);
        self.nodes.push(n);
        self.mx.push(mx);
        self.vs.push(vs);
        self.fp.push(fp);
        self.z_bv.push(std::ptr::null_mut());
        self.z_bool.push(std::ptr::null_mut());
        self.map.insert(n, id);
        id
    }
    /// records that the variable never exceeds `top` and returns the constraint that makes it so
    pub fn limit(&mut self, e: E, top: u128) -> E {
        let w = self.w(e);
        let k = self.konst(top + 1, w);
        let c = self.raw(Op::Ult, 1, e, k, 0, 0);
        self.mx[e as usize] = top;
        c
    }
    pub fn umax(&self, e: E) -> u128 {
        self.mx[e as usize]
    }
    fn bound(&self, n: &Node) -> u128 {
        let full = mask(n.w as u32);
        let m = |e: E| self.mx[e as usize];
        let fits = |x: Option<u128>| match x {
            Some(x) if x <= full => x,
            _ => full,
        };
        let ones = |x: u128| if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() };
        match n.op {
            Op::Const => n.k,
            Op::ZExt => m(n.a),
            Op::And => m(n.a).min(m(n.b)),
            Op::Or | Op::Xor => ones(m(n.a) | m(n.b)),
            Op::Add => fits(m(n.a).checked_add(m(n.b))),
            Op::Mul => fits(m(n.a).checked_mul(m(n.b))),
            Op::Ite => m(n.b).max(m(n.c)),
            Op::URem => match self.k(n.b) {
                Some(k) if k > 0 => m(n.a).min(k - 1),
                _ => full,
            },
            Op::UDiv => match self.k(n.b) {
                Some(k) if k > 0 => m(n.a) / k,
                _ => full,
            },
            Op::LShr => match self.k(n.b) {
                Some(k) if k < n.w as u128 => m(n.a) >> k,
                _ => full,
            },
            Op::Shl => match self.k(n.b) {
                Some(k) if k < n.w as u128 => fits(m(n.a).checked_mul(1 << k)),
                _ => full,
            },
            Op::Concat => {
                let lw = self.w(n.b);
                (m(n.a) << lw) | ones(m(n.b))
            }
            Op::Extract if n.k == 0 => m(n.a).min(full),
            _ => full,
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = self.var_names.len() as u32;
        let e = self.mk(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: id as u128 });
        self.var_names.push((format!("{}!{}", name, id), w as u8, e));
        e
    }
    pub fn fraw(&mut self, op: Op, w: u32, a: E, b: E, k: u128) -> E {
        self.mk(Node { op, w: w as u8, a, b, c: 0, k })
    }
    pub fn abs_pairs(&self) -> Vec<(E, E)> {
        self.abs_vars.iter().map(|(a, b)| (*a, *b)).collect()
    }
    /// the fresh variable standing for an operation in abstracted queries
    pub fn abs_var(&mut self, e: E, w: u32) -> E {
        if let Some(&v) = self.abs_vars.get(&e) {
            return v;
        }
        let v = self.var("abs", w);
        self.abs_vars.insert(e, v);
        v
    }
    /// the variable for the rank of a float in an order query
    pub fn ord_var(&mut self, e: E, w: u32) -> E {
        if let Some(&v) = self.ord_vars.get(&(e, w)) {
            return v;
        }
        let v = self.var("ord", w);
        self.ord_vars.insert((e, w), v);
        v
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.mk(Node { op, w: w as u8, a, b, c, k })
    }
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(!n.k, n.w as u32),
            Op::Not => n.a,
            Op::Ite if n.w == 1 && (self.k(n.b).is_some() || self.k(n.c).is_some()) => {
                let b = self.not(n.b);
                let c = self.not(n.c);
                self.ite(n.a, b, c)
            }
            _ => self.raw(Op::Not, n.w as u32, a, 0, 0, 0),
        }
    }
    pub fn and(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return a;
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.konst(x & y, w),
            (None, Some(_)) => return self.and_k(b, a),
            (Some(_), None) => return self.and_k(a, b),
            _ => {}
        }
        if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.konst(0, w);
        }
        if w == 1 {
            // absorb: a & (a & x)
            for (x, y) in [(a, b), (b, a)] {
                let ny = self.n(y);
                if ny.op == Op::And && (ny.a == x || ny.b == x) {
                    return y;
                }
            }
        }
        self.raw(Op::And, w, a, b, 0, 0)
    }
    fn and_k(&mut self, ke: E, x: E) -> E {
        let w = self.w(x);
        let k = self.k(ke).unwrap();
        if k == 0 {
            return ke;
        }
        if k == mask(w) {
            return x;
        }
        // contiguous mask -> concat of zero, extract, zero
        let lo = k.trailing_zeros();
        let run = (k >> lo).trailing_ones();
        if k >> lo == mask(run) {
            let m = self.extract(x, lo, run);
            let hi = w - lo - run;
            let mut r = m;
            if lo > 0 {
                let z = self.konst(0, lo);
                r = self.concat(r, z);
            }
            if hi > 0 {
                r = self.zext(r, w);
            }
            return r;
        }
        self.raw(Op::And, w, ke.min(x), ke.max(x), 0, 0)
    }
    pub fn or(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return a;
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.konst(x | y, w),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                if y == mask(w) {
                    return b;
                }
            }
            (Some(x), None) => {
                if x == 0 {
                    return b;
                }
                if x == mask(w) {
                    return a;
                }
            }
            _ => {}
        }
        if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.konst(mask(w), w);
        }
        if w > 1 {
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        } else {
            for (x, y) in [(a, b), (b, a)] {
                let ny = self.n(y);
                if ny.op == Op::Or && (ny.a == x || ny.b == x) {
                    return y;
                }
            }
        }
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    /// or/add/xor of values whose possibly-set bits do not overlap, as a concatenation
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.n(x);
            // x = concat(h, 0_l) (possibly zext'ed), y = zext(small <= l)
            let (inner, xw) = if nx.op == Op::ZExt { (nx.a, nx.w as u32) } else { (x, nx.w as u32) };
            let ni = self.n(inner);
            if ni.op == Op::Concat && self.k(ni.b) == Some(0) {
                let l = self.w(ni.b);
                let ylow = self.n(y);
                let fits = match ylow.op {
                    Op::ZExt => self.w(ylow.a) <= l,
                    Op::Const => ylow.k <= mask(l),
                    _ => false,
                };
                if fits {
                    let yl = self.extract(y, 0, l);
                    let r = self.concat(ni.a, yl);
                    return Some(self.zext(r, xw));
                }
            }
        }
        None
    }
    pub fn xor(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(kx) = self.k(x) {
                if let Some(ky) = self.k(y) {
                    return self.konst(kx ^ ky, w);
                }
                if kx == 0 {
                    return y;
                }
                if kx == mask(w) {
                    return self.not(y);
                }
            }
        }
        if w == 1 {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        if self.k(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.k(b) {
            if y == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(z) = self.k(n.b) {
                    let k = self.konst(y.wrapping_add(z), w);
                    return self.add(n.a, k);
                }
            }
            // (x | k) + y -> x + (k + y) when x and k share no bit, also
            // below a zero extension
            let (inner, iw) = if n.op == Op::ZExt { (n.a, self.w(n.a)) } else { (a, w) };
            let ni = self.n(inner);
            if ni.op == Op::Or {
                for (x, c) in [(ni.a, ni.b), (ni.b, ni.a)] {
                    if let Some(kc) = self.k(c) {
                        let m = self.mx[x as usize];
                        let ones = if m == 0 { 0 } else { u128::MAX >> m.leading_zeros() };
                        if ones & kc == 0 {
                            let x = if iw < w { self.zext(x, w) } else { x };
                            let k = self.konst(kc.wrapping_add(y), w);
                            return self.add(x, k);
                        }
                    }
                }
            }
            if n.op == Op::Ite && (self.k(n.b).is_some() && self.k(n.c).is_some()) {
                let p = self.add(n.b, b);
                let q = self.add(n.c, b);
                return self.ite(n.a, p, q);
            }
            return self.raw(Op::Add, w, a, b, 0, 0);
        }
        // (x + k) + y -> (x + y) + k
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Op::Add && self.k(n.b).is_some() {
                let t = self.add(n.a, y);
                return self.add(t, n.b);
            }
        }
        // x + (-1 * x) = 0 ; x + (-1*y) + y
        if let Some(r) = self.cancel(a, b) {
            return r;
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    fn is_neg_of(&self, x: E, y: E) -> bool {
        let n = self.n(x);
        n.op == Op::Mul && n.a == y && self.k(n.b) == Some(mask(n.w as u32))
    }
    fn cancel(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if self.is_neg_of(a, b) || self.is_neg_of(b, a) {
            return Some(self.konst(0, w));
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Op::Add {
                if self.is_neg_of(n.a, y) || self.is_neg_of(y, n.a) {
                    return Some(n.b);
                }
                if self.is_neg_of(n.b, y) || self.is_neg_of(y, n.b) {
                    return Some(n.a);
                }
            }
        }
        None
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.mul(a, m)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.konst(0, w);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.konst(x.wrapping_mul(y), w);
        }
        if self.k(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.k(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.konst(y.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            let n = self.n(a);
            if n.op == Op::Mul {
                if let Some(z) = self.k(n.b) {
                    let k = self.konst(y.wrapping_mul(z), w);
                    return self.mul(n.a, k);
                }
            }
            if n.op == Op::Add && y == mask(w) {
                // -(x + y) = -x + -y
                let p = self.mul(n.a, b);
                let q = self.mul(n.b, b);
                return self.add(p, q);
            }
            return self.raw(Op::Mul, w, a, b, 0, 0);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    pub fn divrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.konst(eval_op(op, w, w, x, y, 0, 0, w), w);
        }
        if let Some(y) = self.k(b) {
            if y == 1 {
                return match op {
                    Op::UDiv | Op::SDiv => a,
                    _ => self.konst(0, w),
                };
            }
            if matches!(op, Op::SDiv | Op::SRem) && y >> (w - 1) == 0 && self.umax(a) >> (w - 1) == 0 {
                return self.divrem(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
            if matches!(op, Op::UDiv | Op::URem) && y > 0 {
                if self.umax(a) < y {
                    return if op == Op::UDiv { self.konst(0, w) } else { a };
                }
                let n = self.n(a);
                // (x * c + r) / y with c a multiple of y, nothing wrapping
                if n.op == Op::Add {
                    for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                        let np = self.n(p);
                        let c = if np.op == Op::Mul { self.k(np.b) } else { None };
                        if let Some(c) = c {
                            let top = self.umax(np.a).checked_mul(c).and_then(|m| m.checked_add(self.umax(q)));
                            if c % y == 0 && top.map_or(false, |t| t <= mask(w)) {
                                let r = self.divrem(op, q, b);
                                if op == Op::URem {
                                    return r;
                                }
                                let k = self.konst(c / y, w);
                                let m = self.mul(np.a, k);
                                return self.add(m, r);
                            }
                        }
                    }
                }
                if n.op == Op::UDiv && op == Op::UDiv {
                    if let Some(c) = self.k(n.b) {
                        if let Some(cy) = c.checked_mul(y) {
                            if c > 0 && cy <= mask(w) {
                                let k = self.konst(cy, w);
                                return self.divrem(op, n.a, k);
                            }
                        }
                    }
                }
            }
            if y.is_power_of_two() {
                let s = y.trailing_zeros();
                match op {
                    Op::UDiv => {
                        let k = self.konst(s as u128, w);
                        return self.lshr(a, k);
                    }
                    Op::URem => {
                        let x = self.extract(a, 0, s);
                        return self.zext(x, w);
                    }
                    _ => {}
                }
            }
            // narrow: zext(x) op k
            let n = self.n(a);
            if n.op == Op::ZExt && matches!(op, Op::UDiv | Op::URem) {
                let iw = self.w(n.a);
                if y <= mask(iw) {
                    let k = self.konst(y, iw);
                    let r = self.divrem(op, n.a, k);
                    return self.zext(r, w);
                } else {
                    return if op == Op::UDiv { self.konst(0, w) } else { a };
                }
            }
        }
        self.raw(op, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(0, w);
            }
            let s = s as u32;
            let x = self.extract(a, 0, w - s);
            let z = self.konst(0, s);
            return self.concat(x, z);
        }
        if self.k(a) == Some(0) {
            return a;
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(0, w);
            }
            let s = s as u32;
            let x = self.extract(a, s, w - s);
            return self.zext(x, w);
        }
        if self.k(a) == Some(0) {
            return a;
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            let s = if s >= w as u128 { w - 1 } else { s as u32 };
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    fn is_grid(&self, e: E) -> bool {
        matches!(self.n(e).op, Op::UiToF | Op::SiToF | Op::FMul)
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return Ctx::TRUE;
        }
        let w = self.w(a);
        if let (Some(_), Some(_)) = (self.k(a), self.k(b)) {
            return Ctx::FALSE;
        }
        if w == 64 && (self.is_grid(a) || self.is_grid(b)) {
            if let Some(r) = self.fix_eq(a, b) {
                return r;
            }
        }
        if self.k(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.k(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if y > self.umax(a) {
                return Ctx::FALSE;
            }
            let n = self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return Ctx::FALSE;
                    }
                    let k = self.konst(y, iw);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let low = y & mask(iw);
                    if (sx(low, iw) as u128) & mask(w) != y {
                        return Ctx::FALSE;
                    }
                    let k = self.konst(low, iw);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let kh = self.konst(y >> lw, hw);
                    let kl = self.konst(y, lw);
                    let h = self.eq(n.a, kh);
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::Add => {
                    if let Some(z) = self.k(n.b) {
                        let k = self.konst(y.wrapping_sub(z), w);
                        return self.eq(n.a, k);
                    }
                    // x + (-1)*y == 0  ->  x == y
                    if y == 0 {
                        for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                            let nq = self.n(q);
                            if nq.op == Op::Mul && self.k(nq.b) == Some(mask(w)) {
                                return self.eq(p, nq.a);
                            }
                        }
                    }
                }
                Op::Mul => {
                    if let Some(z) = self.k(n.b) {
                        if z == mask(w) {
                            let k = self.konst(y.wrapping_neg(), w);
                            return self.eq(n.a, k);
                        }
                    }
                }
                Op::Not => {
                    let k = self.konst(!y, w);
                    return self.eq(n.a, k);
                }
                Op::Xor => {
                    if let Some(z) = self.k(n.a) {
                        let k = self.konst(y ^ z, w);
                        return self.eq(n.b, k);
                    }
                    if let Some(z) = self.k(n.b) {
                        let k = self.konst(y ^ z, w);
                        return self.eq(n.a, k);
                    }
                }
                Op::Ite => {
                    if self.k(n.b).is_some() || self.k(n.c).is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let m = wa.max(wb);
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if w == 1 {
                if na.op == Op::Not && nb.op == Op::Not {
                    return self.eq(na.a, nb.a);
                }
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                    return Ctx::FALSE;
                }
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return Ctx::FALSE;
        }
        let w = self.w(a);
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return if x < y { Ctx::TRUE } else { Ctx::FALSE };
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(y) = kb {
            if y == 0 {
                return Ctx::FALSE;
            }
            if self.umax(a) < y {
                return Ctx::TRUE;
            }
            if y == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if y == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            let n = self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return Ctx::TRUE;
                    }
                    let k = self.konst(y, iw);
                    return self.ult(n.a, k);
                }
                Op::Concat if self.k(n.a) == Some(0) => unreachable!(),
                Op::Ite if self.k(n.b).is_some() || self.k(n.c).is_some() => {
                    let p = self.ult(n.b, b);
                    let q = self.ult(n.c, b);
                    return self.ite(n.a, p, q);
                }
                _ => {}
            }
        }
        if let Some(x) = ka {
            if x >= self.umax(b) {
                return Ctx::FALSE;
            }
            if x == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            let n = self.n(b);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if x >= mask(iw) {
                        return Ctx::FALSE;
                    }
                    let k = self.konst(x, iw);
                    return self.ult(k, n.a);
                }
                Op::Ite if self.k(n.b).is_some() || self.k(n.c).is_some() => {
                    let p = self.ult(a, n.b);
                    let q = self.ult(a, n.c);
                    return self.ite(n.a, p, q);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, m);
            let y = self.zext(nb.a, m);
            return self.ult(x, y);
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return Ctx::FALSE;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return if sx(x, w) < sx(y, w) { Ctx::TRUE } else { Ctx::FALSE };
        }
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        // both known non-negative -> unsigned
        let nonneg = |s: &Ctx, e: E| -> bool {
            s.umax(e) >> (s.w(e) - 1) == 0
        };
        let (pa, pb) = (nonneg(self, a), nonneg(self, b));
        if pa && pb {
            return self.ult(a, b);
        }
        // constant negative vs non-negative
        if let Some(x) = self.k(a) {
            if x >> (w - 1) == 1 && pb {
                return Ctx::TRUE;
            }
        }
        if let Some(y) = self.k(b) {
            if y >> (w - 1) == 1 && pa {
                return Ctx::FALSE;
            }
            if y == 0 {
                return self.extract(a, w - 1, 1);
            }
        }
        if self.k(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && self.k(b).is_some() && self.k(na.b).is_some() && self.k(na.c).is_some() {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            return self.ite(na.a, p, q);
        }
        if nb.op == Op::Ite && self.k(a).is_some() && self.k(nb.b).is_some() && self.k(nb.c).is_some() {
            let p = self.slt(a, nb.b);
            let q = self.slt(a, nb.c);
            return self.ite(nb.a, p, q);
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.k(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        if w > 1 {
            if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
                if x == 1 && y == 0 {
                    return self.zext(c, w);
                }
                if x == 0 && y == 1 {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
            }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32 + nb.w as u32;
        assert!(w <= 128);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst((na.k << nb.w) | nb.k, w);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::ZExt {
            let hi = self.concat(na.a, b);
            return self.zext(hi, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u32, w);
        }
        // right-assoc merge: concat(x, concat(y, z)) where x,y adjacent extracts
        if nb.op == Op::Concat {
            let ny = self.n(nb.a);
            if na.op == Op::Extract && ny.op == Op::Extract && na.a == ny.a && na.k == ny.k + ny.w as u128 {
                let h = self.extract(na.a, ny.k as u32, na.w as u32 + ny.w as u32);
                return self.concat(h, nb.b);
            }
            if na.op == Op::Const && ny.op == Op::Const {
                let h = self.concat(a, nb.a);
                return self.concat(h, nb.b);
            }
        }
        if na.op == Op::Concat {
            // left-assoc -> right-assoc
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        self.raw(Op::Concat, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if w == aw {
            return a;
        }
        if lo == 63 && w == 1 && self.is_grid(a) {
            if let Some(r) = self.fix_sign(a) {
                return r;
            }
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Ite => {
                if self.k(n.b).is_some() || self.k(n.c).is_some() || self.is_structural(n.b) && self.is_structural(n.c) {
                    let p = self.extract(n.b, lo, w);
                    let q = self.extract(n.c, lo, w);
                    return self.ite(n.a, p, q);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let p = self.extract(n.a, lo, w);
                let q = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(p, q),
                    Op::Or => self.or(p, q),
                    _ => self.xor(p, q),
                };
            }
            Op::Not => {
                let p = self.extract(n.a, lo, w);
                return self.not(p);
            }
            Op::Add | Op::Mul if lo == 0 => {
                let p = self.extract(n.a, 0, w);
                let q = self.extract(n.b, 0, w);
                return if n.op == Op::Add { self.add(p, q) } else { self.mul(p, q) };
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    fn is_structural(&self, e: E) -> bool {
        matches!(self.n(e).op, Op::Concat | Op::ZExt | Op::Extract | Op::Const | Op::Var)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.raw(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(sx(n.k, aw) as u128, w),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ if self.umax(a) >> (aw - 1) == 0 => self.zext(a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let p = self.sext(n.b, w);
                let q = self.sext(n.c, w);
                self.ite(n.a, p, q)
            }
            _ => self.raw(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }
    // ---- floats
    pub fn fbin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.konst(eval_op(op, w, w, x, y, 0, 0, w), w);
        }
        if op == Op::FSub {
            // a - b is a + (-b), NaNs being all treated alike
            let sb = self.konst(1 << (w - 1), w);
            let nb = self.xor(b, sb);
            return self.fbin(Op::FAdd, a, nb);
        }
        if w == 64 && op == Op::FAdd {
            // -0 is the identity of addition (NaNs are all treated alike)
            if self.k(a) == Some(1 << 63) {
                return b;
            }
            if self.k(b) == Some(1 << 63) {
                return a;
            }
            // and so is +0 for what is never -0
            for (z, x) in [(a, b), (b, a)] {
                if self.k(z) == Some(0) && self.never_neg_zero(x, 8) {
                    return x;
                }
            }
        }
        if w == 64 && op == Op::FDiv && self.k(b) == Some(1f64.to_bits() as u128) {
            return a;
        }
        if w == 64 && op == Op::FMul {
            for (k, x) in [(a, b), (b, a)] {
                let kv = match self.k(k) {
                    Some(v) => f64::from_bits(v as u64),
                    None => continue,
                };
                if kv == 1.0 {
                    return x;
                }
                if kv == 0.0 {
                    // a zero of the product's sign, unless the other factor is infinite or NaN
                    let m = self.extract(x, 0, 63);
                    let lim = self.konst(0x7ff0_0000_0000_0000, 63);
                    let fin = self.ult(m, lim);
                    let s = self.extract(x, 63, 1);
                    let ks = self.konst(kv.is_sign_negative() as u128, 1);
                    let s = self.xor(s, ks);
                    let z63 = self.konst(0, 63);
                    let z = self.concat(s, z63);
                    let nan = self.konst(NAN64 as u128, 64);
                    return self.ite(fin, z, nan);
                }
            }
        }
        if let Some(r) = self.fix_bin(op, a, b) {
            return r;
        }
        if matches!(op, Op::FAdd | Op::FMul) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(op, w, a, b, 0, 0)
    }
    /// a sum (rounded to nearest) is -0 only if both its terms are
    fn never_neg_zero(&self, x: E, depth: u32) -> bool {
        let n = self.nodes[x as usize];
        match n.op {
            Op::Const => n.k != 1 << 63,
            Op::UiToF | Op::SiToF => true,
            Op::FAdd if depth > 0 => self.never_neg_zero(n.a, depth - 1) || self.never_neg_zero(n.b, depth - 1),
            Op::Ite if depth > 0 => self.never_neg_zero(n.b, depth - 1) && self.never_neg_zero(n.c, depth - 1),
            _ => false,
        }
    }
    pub fn fun1(&mut self, op: Op, a: E, w: u32, k: u128) -> E {
        if let Some(x) = self.k(a) {
            let aw = self.w(a);
            return self.konst(eval_op(op, w, aw, x, 0, 0, k, 0), w);
        }
        if matches!(op, Op::UiToF | Op::SiToF) {
            let n = self.n(a);
            if n.op == Op::ZExt {
                return self.fun1(Op::UiToF, n.a, w, k);
            }
            if op == Op::SiToF && self.umax(a) >> (n.w - 1) == 0 {
                return self.fun1(Op::UiToF, a, w, k);
            }
        }
        if op == Op::FRound {
            if let Some(r) = self.fix_round(a, k) {
                return r;
            }
        }
        self.raw(op, w, a, 0, 0, k)
    }
    fn fmt_of(w: u32) -> (u128, u128, u128) {
        // (sign bit, exponent mask = infinity bits, magnitude mask)
        if w == 64 {
            (1 << 63, 0x7ff0_0000_0000_0000, 0x7fff_ffff_ffff_ffff)
        } else {
            (1 << 31, 0x7f80_0000, 0x7fff_ffff)
        }
    }
    pub fn f_isnan(&mut self, a: E) -> E {
        let w = self.w(a);
        // results of these operators are never NaN
        if matches!(self.n(a).op, Op::UiToF | Op::SiToF) || self.has_fp(a) && self.as_fix(a).is_some() {
            return Ctx::FALSE;
        }
        if self.opaque(a) {
            return self.raw(Op::FNan, 1, a, 0, 0, 0);
        }
        if let Some((c, x, y)) = self.choice(a) {
            let (p, q) = (self.f_isnan(x), self.f_isnan(y));
            return self.ite(c, p, q);
        }
        self.f_isnan_bits(a)
    }
    fn f_isnan_bits(&mut self, a: E) -> E {
        let w = self.w(a);
        let (_, inf, _) = Ctx::fmt_of(w);
        let m = self.extract(a, 0, w - 1);
        let k = self.konst(inf, w - 1);
        self.ult(k, m)
    }
    /// a 64-bit float whose bits nothing is known about here
    fn opaque(&self, a: E) -> bool {
        let n = self.nodes[a as usize];
        n.w == 64 && matches!(n.op, Op::Var | Op::FAdd | Op::FMul | Op::FDiv | Op::FRound | Op::UiToF | Op::SiToF)
    }
    /// an if-then-else over a few floats that comparisons are pushed into
    fn choice(&self, a: E) -> Option<(E, E, E)> {
        fn leaves(c: &Ctx, a: E, left: &mut u32) -> bool {
            let n = c.nodes[a as usize];
            if n.op == Op::Ite {
                return leaves(c, n.b, left) && leaves(c, n.c, left);
            }
            if *left == 0 {
                return false;
            }
            *left -= 1;
            n.op == Op::Const || c.opaque(a)
        }
        let n = self.nodes[a as usize];
        if n.op == Op::Ite && n.w == 64 && leaves(self, a, &mut 24) {
            Some((n.a, n.b, n.c))
        } else {
            None
        }
    }
    fn atom(&self, a: E, b: E) -> bool {
        let plain = |x: E| self.k(x).map_or(false, |k| !f64::from_bits(k as u64).is_nan());
        self.w(a) == 64 && (self.opaque(a) && (self.opaque(b) || plain(b)) || self.opaque(b) && plain(a))
    }
    /// the bit-level meaning of an order predicate
    fn expand(&mut self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::FLt => self.f_olt_bits(n.a, n.b),
            Op::FEq => self.f_oeq_bits(n.a, n.b),
            Op::FNan => self.f_isnan_bits(n.a),
            _ => e,
        }
    }
    fn f_iszero(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.extract(a, 0, w - 1);
        let z = self.konst(0, w - 1);
        self.eq(m, z)
    }
    /// ordered a < b (false when either is NaN)
    pub fn f_olt(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fix_lt(a, b) {
            return r;
        }
        if self.atom(a, b) {
            if a == b {
                return Ctx::FALSE;
            }
            // nothing is below -Inf or above +Inf
            if self.k(b) == Some(0xfff0_0000_0000_0000) || self.k(a) == Some(0x7ff0_0000_0000_0000) {
                return Ctx::FALSE;
            }
            return self.raw(Op::FLt, 1, a, b, 0, 0);
        }
        if let Some((c, x, y)) = self.choice(a) {
            let (p, q) = (self.f_olt(x, b), self.f_olt(y, b));
            return self.ite(c, p, q);
        }
        if let Some((c, x, y)) = self.choice(b) {
            let (p, q) = (self.f_olt(a, x), self.f_olt(a, y));
            return self.ite(c, p, q);
        }
        self.f_olt_bits(a, b)
    }
    fn f_olt_bits(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let na = if w == 64 { self.f_isnan_bits(a) } else { self.f_isnan(a) };
        let nb = if w == 64 { self.f_isnan_bits(b) } else { self.f_isnan(b) };
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        let ma = self.extract(a, 0, w - 1);
        let mb = self.extract(b, 0, w - 1);
        let za = self.f_iszero(a);
        let zb = self.f_iszero(b);
        let bz = self.and(za, zb);
        let nbz = self.not(bz);
        let pos = self.ult(ma, mb);
        let neg = self.ult(mb, ma);
        let nsa = self.not(sa);
        // sa ? (sb ? neg : nbz) : (sb ? false : pos)
        let t = self.ite(sb, neg, nbz);
        let nsb = self.not(sb);
        let f = self.and(nsb, pos);
        let _ = nsa;
        let r = self.ite(sa, t, f);
        let nan = self.or(na, nb);
        let nnan = self.not(nan);
        self.and(nnan, r)
    }
    pub fn f_oeq(&mut self, a: E, b: E) -> E {
        let z = self.konst(0, self.w(a));
        let nz = 1u128 << (self.w(a) - 1);
        let a = if self.k(a) == Some(nz) { z } else { a };
        let b = if self.k(b) == Some(nz) { z } else { b };
        if let Some(r) = self.fix_eq(a, b) {
            return r;
        }
        if self.atom(a, b) {
            if a == b {
                let n = self.f_isnan(a);
                return self.not(n);
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.raw(Op::FEq, 1, a, b, 0, 0);
        }
        if let Some((c, x, y)) = self.choice(a) {
            let (p, q) = (self.f_oeq(x, b), self.f_oeq(y, b));
            return self.ite(c, p, q);
        }
        if let Some((c, x, y)) = self.choice(b) {
            let (p, q) = (self.f_oeq(a, x), self.f_oeq(a, y));
            return self.ite(c, p, q);
        }
        self.f_oeq_bits(a, b)
    }
    fn f_oeq_bits(&mut self, a: E, b: E) -> E {
        let na = self.f_isnan_bits(a);
        let nb = self.f_isnan_bits(b);
        let za = self.f_iszero(a);
        let zb = self.f_iszero(b);
        let bz = self.and(za, zb);
        let e = self.eq(a, b);
        let r = self.or(bz, e);
        let nan = self.or(na, nb);
        let nnan = self.not(nan);
        self.and(nnan, r)
    }
    pub fn fcmp(&mut self, pred: &str, a: E, b: E) -> E {
        let base = |s: &mut Ctx, p: &str| -> E {
            match p {
                "eq" => s.f_oeq(a, b),
                "lt" => s.f_olt(a, b),
                "gt" => s.f_olt(b, a),
                "le" => {
                    let x = s.f_olt(a, b);
                    let y = s.f_oeq(a, b);
                    s.or(x, y)
                }
                "ge" => {
                    let x = s.f_olt(b, a);
                    let y = s.f_oeq(a, b);
                    s.or(x, y)
                }
                "ne" => {
                    let x = s.f_olt(a, b);
                    let y = s.f_olt(b, a);
                    s.or(x, y)
                }
                _ => panic!("fcmp {}", p),
            }
        };
        match pred {
            "true" => return Ctx::TRUE,
            "false" => return Ctx::FALSE,
            _ => {}
        }
        let na = self.f_isnan(a);
        let nb = self.f_isnan(b);
        let uno = self.or(na, nb);
        match pred {
            "uno" => uno,
            "ord" => self.not(uno),
            p if p.starts_with('o') => base(self, &p[1..]),
            p => {
                // unordered forms are negations of the ordered opposite
                let opp = match &p[1..] {
                    "eq" => "ne",
                    "ne" => "eq",
                    "lt" => "ge",
                    "ge" => "lt",
                    "gt" => "le",
                    "le" => "gt",
                    _ => panic!("fcmp {}", p),
                };
                let r = base(self, opp);
                self.not(r)
            }
        }
    }
    /// saturating conversion; NaN -> 0
    pub fn f_to_int_sat(&mut self, a: E, signed: bool, w: u32) -> E {
        if self.w(a) == 64 {
            if let Some(r) = self.fix_to_int(a, signed, w) {
                return r;
            }
        }
        let fw = self.w(a);
        let kf = |s: &mut Ctx, x: f64| -> E {
            if fw == 64 {
                s.konst(x.to_bits() as u128, 64)
            } else {
                s.konst((x as f32).to_bits() as u128, 32)
            }
        };
        let nan = self.f_isnan(a);
        let (lo, hi) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
        let hk = kf(self, hi);
        let lk = kf(self, lo);
        let big = self.f_olt(a, hk);
        let big = self.not(big); // >= hi or NaN
        let small = self.f_olt(a, lk);
        let raw = self.fun1(if signed { Op::FToSi } else { Op::FToUi }, a, w, 0);
        let (kmin, kmax) = if signed { (1u128 << (w - 1), mask(w - 1)) } else { (0, mask(w)) };
        let emin = self.konst(kmin, w);
        let emax = self.konst(kmax, w);
        let zero = self.konst(0, w);
        let r = self.ite(small, emin, raw);
        let r = self.ite(big, emax, r);
        self.ite(nan, zero, r)
    }

    // ---- evaluation
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.vals.get(&(n.k as u32)).copied().unwrap_or(0),
            _ => {}
        }
        let mut cache = m.cache.borrow_mut();
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if cache.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = &self.nodes[x as usize];
            let get = |c: &HashMap<E, u128, BuildFx>, y: E| -> Option<u128> {
                let ny = &self.nodes[y as usize];
                match ny.op {
                    Op::Const => Some(ny.k),
                    Op::Var => Some(m.vals.get(&(ny.k as u32)).copied().unwrap_or(0)),
                    _ => c.get(&y).copied(),
                }
            };
            let ar = arity(n.op);
            if n.op == Op::Ite {
                match get(&cache, n.a) {
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                    Some(c) => {
                        let br = if c != 0 { n.b } else { n.c };
                        match get(&cache, br) {
                            None => {
                                stack.push(br);
                                continue;
                            }
                            Some(v) => {
                                cache.insert(x, v);
                                stack.pop();
                                continue;
                            }
                        }
                    }
                }
            }
            let a = get(&cache, n.a);
            let b = if ar > 1 { get(&cache, n.b) } else { Some(0) };
            match (a, b) {
                (Some(a), Some(b)) => {
                    let aw = self.nodes[n.a as usize].w as u32;
                    let bw = if ar > 1 { self.nodes[n.b as usize].w as u32 } else { 0 };
                    let v = eval_op(n.op, n.w as u32, aw, a, b, 0, n.k, bw);
                    cache.insert(x, v);
                    stack.pop();
                }
                _ => {
                    if a.is_none() {
                        stack.push(n.a);
                    }
                    if b.is_none() {
                        stack.push(n.b);
                    }
                }
            }
        }
        cache[&e]
    }

    /// small set of values the expression can syntactically take
    pub fn vset(&self, e: E, lim: usize) -> Option<Vec<u128>> {
        let n = self.n(e);
        let w = n.w as u32;
        let mut r: Vec<u128> = match n.op {
            Op::Const => vec![n.k],
            _ if w == 1 => vec![0, 1],
            Op::Ite => {
                let mut x = self.vset(n.b, lim)?;
                x.extend(self.vset(n.c, lim)?);
                x
            }
            Op::ZExt | Op::SExt | Op::Extract | Op::Not => {
                let x = self.vset(n.a, lim)?;
                let aw = self.w(n.a);
                x.into_iter().map(|v| eval_op(n.op, w, aw, v, 0, 0, n.k, 0)).collect()
            }
            Op::Add | Op::Mul | Op::Concat | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => {
                let x = self.vset(n.a, lim)?;
                let y = self.vset(n.b, lim)?;
                if x.len() * y.len() > 4 * lim {
                    return None;
                }
                let aw = self.w(n.a);
                let bw = self.w(n.b);
                let mut o = vec![];
                for &p in &x {
                    for &q in &y {
                        o.push(eval_op(n.op, w, aw, p, q, 0, n.k, bw));
                    }
                }
                o
            }
            _ => return None,
        };
        r.sort();
        r.dedup();
        if r.len() > lim {
            None
        } else {
            Some(r)
        }
    }

    // ---- translation
    pub fn zbool(&mut self, e: E) -> Ast {
        self.prepare(e);
        self.zb(e)
    }
    /// translate bottom-up without deep recursion
    fn prepare(&mut self, e: E) {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let n = self.n(x);
            let done = if n.w == 1 { !self.z_bool[x as usize].is_null() } else { !self.z_bv[x as usize].is_null() };
            if done {
                stack.pop();
                continue;
            }
            let mut pending = false;
            for (i, ch) in [n.a, n.b, n.c].into_iter().enumerate() {
                if i < arity(n.op) {
                    let cw = self.w(ch);
                    let d = if cw == 1 { !self.z_bool[ch as usize].is_null() } else { !self.z_bv[ch as usize].is_null() };
                    if !d {
                        stack.push(ch);
                        pending = true;
                    }
                }
            }
            if !pending {
                if n.w == 1 {
                    self.zb(x);
                } else {
                    self.zv(x);
                }
                stack.pop();
            }
        }
    }
    fn zb(&mut self, e: E) -> Ast {
        if !self.z_bool[e as usize].is_null() {
            return self.z_bool[e as usize];
        }
        let n = self.n(e);
        debug_assert_eq!(n.w, 1);
        let r = match n.op {
            Op::Const => self.z.bool(n.k != 0),
            Op::Not => {
                let a = self.zb(n.a);
                self.z.not(a)
            }
            Op::And => {
                let (a, b) = (self.zb(n.a), self.zb(n.b));
                self.z.and(a, b)
            }
            Op::Or => {
                let (a, b) = (self.zb(n.a), self.zb(n.b));
                self.z.or(a, b)
            }
            Op::Xor => {
                let (a, b) = (self.zb(n.a), self.zb(n.b));
                self.z.xor(a, b)
            }
            Op::Eq => {
                if self.w(n.a) == 1 {
                    let (a, b) = (self.zb(n.a), self.zb(n.b));
                    self.z.eq(a, b)
                } else {
                    let (a, b) = (self.zv(n.a), self.zv(n.b));
                    self.z.eq(a, b)
                }
            }
            Op::Ult => {
                let (a, b) = (self.zv(n.a), self.zv(n.b));
                self.z.bvult(a, b)
            }
            Op::Slt => {
                let (a, b) = (self.zv(n.a), self.zv(n.b));
                self.z.bvslt(a, b)
            }
            Op::Ite => {
                let (c, a, b) = (self.zb(n.a), self.zb(n.b), self.zb(n.c));
                self.z.ite(c, a, b)
            }
            Op::FLt | Op::FEq | Op::FNan => {
                let x = self.expand(e);
                self.zbool(x)
            }
            _ => {
                let v = self.zv(e);
                let one = self.z.num(1, 1);
                self.z.eq(v, one)
            }
        };
        self.z_bool[e as usize] = r;
        r
    }
    pub fn zv(&mut self, e: E) -> Ast {
        if !self.z_bv[e as usize].is_null() {
            return self.z_bv[e as usize];
        }
        let n = self.n(e);
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.z.num(n.k, w),
            Op::Var => {
                let name = self.var_names[n.k as usize].0.clone();
                self.z.var(&name, w)
            }
            _ if w == 1 && matches!(n.op, Op::Not | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Slt | Op::Ite | Op::FLt | Op::FEq | Op::FNan) => {
                let b = self.zb(e);
                let (one, zero) = (self.z.num(1, 1), self.z.num(0, 1));
                self.z.ite(b, one, zero)
            }
            Op::Not => {
                let a = self.zv(n.a);
                let m = self.z.num(mask(w), w);
                self.z.bvxor(a, m)
            }
            Op::Ite => {
                let (c, a, b) = (self.zb(n.a), self.zv(n.b), self.zv(n.c));
                self.z.ite(c, a, b)
            }
            Op::Extract => {
                let a = self.zv(n.a);
                self.z.extract(n.k as u32 + w - 1, n.k as u32, a)
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                let a = self.zv(n.a);
                self.z.zext(w - aw, a)
            }
            Op::SExt => {
                let aw = self.w(n.a);
                let a = self.zv(n.a);
                self.z.sext(w - aw, a)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (a, b) = (self.zv(n.a), self.zv(n.b));
                let (a, b) = (self.z.to_fp(a, w), self.z.to_fp(b, w));
                let k = match n.op {
                    Op::FAdd => 0,
                    Op::FSub => 1,
                    Op::FMul => 2,
                    _ => 3,
                };
                let f = self.z.fbin(k, a, b);
                self.z.from_fp(f, w)
            }
            Op::FRound => {
                let a = self.zv(n.a);
                let a = self.z.to_fp(a, w);
                let f = self.z.fround(n.k as u8, a);
                self.z.from_fp(f, w)
            }
            Op::FToUi | Op::FToSi => {
                let aw = self.w(n.a);
                let a = self.zv(n.a);
                let a = self.z.to_fp(a, aw);
                self.z.fp_to_int(n.op == Op::FToSi, a, w)
            }
            Op::UiToF | Op::SiToF => {
                let a = self.zv(n.a);
                let f = self.z.int_to_fp(n.op == Op::SiToF, a, w);
                self.z.from_fp(f, w)
            }
            Op::FConv => {
                let aw = self.w(n.a);
                let a = self.zv(n.a);
                let a = self.z.to_fp(a, aw);
                let f = self.z.fp_conv(a, w);
                self.z.from_fp(f, w)
            }
            _ => {
                let (a, b) = (self.zv(n.a), self.zv(n.b));
                match n.op {
                    Op::And => self.z.bvand(a, b),
                    Op::Or => self.z.bvor(a, b),
                    Op::Xor => self.z.bvxor(a, b),
                    Op::Add => self.z.bvadd(a, b),
                    Op::Mul => self.z.bvmul(a, b),
                    Op::UDiv => self.z.bvudiv(a, b),
                    Op::SDiv => self.z.bvsdiv(a, b),
                    Op::URem => self.z.bvurem(a, b),
                    Op::SRem => self.z.bvsrem(a, b),
                    Op::Shl => self.z.bvshl(a, b),
                    Op::LShr => self.z.bvlshr(a, b),
                    Op::AShr => self.z.bvashr(a, b),
                    Op::Concat => self.z.concat(a, b),
                    o => panic!("zv {:?}", o),
                }
            }
        };
        self.z_bv[e as usize] = r;
        r
    }
}

pub fn arity(op: Op) -> usize {
    match op {
        Op::Const | Op::Var => 0,
        Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FRound | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FConv | Op::FNan => 1,
        Op::Ite => 3,
        _ => 2,
    }
}
