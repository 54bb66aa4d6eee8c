//! Exact reasoning about doubles that are known to lie on a dyadic grid, and monotonicity facts
//! about rounded operations.
//!
//! A double that equals x * 2^-s for an integer |x| <= 2^53 is handled through the integer x:
//! sums, comparisons, rounding to integers and conversions of such doubles are exact, so they
//! become bit-vector operations.  Zero is always +0 on the grid.
use crate::expr::*;

#[derive(Clone, Copy, Debug)]
pub struct Fix {
    pub x: E, // signed, width w
    pub w: u32,
    pub s: u32,
    pub nonneg: bool,
}
const MAXW: u32 = 54; // |x| <= 2^53

impl Ctx {
    /// number of low bits that can be set
    pub fn sigbits(&self, e: E, d: u32) -> u32 {
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        if d == 0 {
            return w;
        }
        let g = |x: E| self.sigbits(x, d - 1);
        match n.op {
            Op::Const => 128 - n.k.leading_zeros(),
            Op::ZExt => g(n.a),
            Op::Add => w.min(g(n.a).max(g(n.b)) + 1),
            Op::Mul => w.min(g(n.a) + g(n.b)),
            Op::And => g(n.a).min(g(n.b)),
            Op::Or | Op::Xor => g(n.a).max(g(n.b)),
            Op::LShr => match self.k(n.b) {
                Some(k) => g(n.a).saturating_sub(k.min(128) as u32),
                None => g(n.a),
            },
            Op::Shl => match self.k(n.b) {
                Some(k) => w.min(g(n.a) + k.min(128) as u32),
                None => w,
            },
            Op::Ite => g(n.b).max(g(n.c)),
            Op::Concat => {
                let h = g(n.a);
                if h == 0 {
                    g(n.b)
                } else {
                    h + self.w(n.b)
                }
            }
            Op::Extract => w.min(g(n.a).saturating_sub(n.k as u32)),
            Op::UDiv => g(n.a),
            Op::URem => g(n.a).min(g(n.b)),
            _ => w,
        }
    }
    /// width of the signed value
    fn signed_bits(&self, e: E, d: u32) -> u32 {
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let u = self.sigbits(e, d);
        if u < w {
            return u + 1;
        }
        if d == 0 {
            return w;
        }
        let g = |x: E| self.signed_bits(x, d - 1);
        match n.op {
            Op::Const => {
                let v = sx(n.k, w);
                129 - if v < 0 { (!v as u128).leading_zeros() } else { (v as u128).leading_zeros() }
            }
            Op::SExt => g(n.a),
            Op::Add => w.min(g(n.a).max(g(n.b)) + 1),
            Op::Mul => w.min(g(n.a) + g(n.b)),
            Op::Ite => g(n.b).max(g(n.c)),
            _ => w,
        }
    }
    /// bounds of the value, read as signed
    pub fn srange(&mut self, e: E) -> (i128, i128) {
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        if w > 100 {
            return (i128::MIN, i128::MAX);
        }
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        match n.op {
            Op::Const => {
                let v = sx(n.k, w);
                return (v, v);
            }
            Op::Var => return full,
            _ => {}
        }
        if let Some(r) = self.ranges.get(&e) {
            return *r;
        }
        let fits = |lo: i128, hi: i128| if lo >= full.0 && hi <= full.1 { (lo, hi) } else { full };
        let r = match n.op {
            Op::ZExt => {
                let u = self.ubound(n.a);
                if u == u128::MAX { full } else { (0, u as i128) }
            }
            Op::SExt => self.srange(n.a),
            Op::Add => {
                let (a, b) = (self.srange(n.a), self.srange(n.b));
                fits(a.0 + b.0, a.1 + b.1)
            }
            Op::Mul if w <= 60 => {
                let (a, b) = (self.srange(n.a), self.srange(n.b));
                let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                fits(*p.iter().min().unwrap(), *p.iter().max().unwrap())
            }
            Op::Shl => match self.k(n.b) {
                Some(k) if k < w as u128 => {
                    let a = self.srange(n.a);
                    match (a.0.checked_mul(1 << k), a.1.checked_mul(1 << k)) {
                        (Some(x), Some(y)) => fits(x, y),
                        _ => full,
                    }
                }
                _ => full,
            },
            Op::LShr => match self.k(n.b) {
                Some(k) if k < w as u128 => {
                    let u = self.ubound(n.a) >> k;
                    if k > 0 || u <= full.1 as u128 { (0, u as i128) } else { full }
                }
                _ => full,
            },
            Op::AShr => match self.k(n.b) {
                Some(k) if k < w as u128 => {
                    let a = self.srange(n.a);
                    (a.0 >> k, a.1 >> k)
                }
                _ => full,
            },
            Op::Concat => {
                let b = self.ubound(n.b);
                let h = self.srange(n.a);
                let wb = self.w(n.b);
                (h.0 << wb, (h.1 << wb) + b as i128)
            }
            Op::Extract => {
                let wa = self.w(n.a);
                if wa > 100 {
                    full
                } else if n.k as u32 + w == wa {
                    let a = self.srange(n.a);
                    (a.0 >> n.k, a.1 >> n.k)
                } else {
                    let a = self.srange(n.a);
                    fits(a.0 >> n.k, a.1 >> n.k)
                }
            }
            Op::Ite => {
                let (a, b) = (self.srange(n.b), self.srange(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::And => {
                let (a, b) = (self.srange(n.a), self.srange(n.b));
                match (a.0 >= 0, b.0 >= 0) {
                    (true, true) => (0, a.1.min(b.1)),
                    (true, _) => (0, a.1),
                    (_, true) => (0, b.1),
                    _ => full,
                }
            }
            _ => full,
        };
        self.ranges.insert(e, r);
        r
    }
    /// bound of the value, read as unsigned
    fn ubound(&mut self, e: E) -> u128 {
        let w = self.w(e);
        if w > 100 {
            return u128::MAX;
        }
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::ZExt => return self.ubound(n.a),
            Op::Concat => return (self.ubound(n.a) << self.w(n.b)) + self.umax(n.b),
            Op::Extract => {
                let u = self.ubound(n.a);
                let full = (1u128 << w) - 1;
                return if u == u128::MAX { full } else { (u >> n.k).min(full) };
            }
            Op::LShr => {
                if let Some(k) = self.k(n.b) {
                    return self.ubound(n.a) >> k.min(100);
                }
            }
            _ => {}
        }
        let (lo, hi) = self.srange(e);
        let m = self.umax(e);
        if lo >= 0 { m.min(hi as u128) } else { m }
    }
    /// the same signed value in as few bits as its bounds allow
    fn shrink(&mut self, x: E, w: u32) -> (E, u32) {
        let (lo, hi) = self.srange(x);
        let need = |v: i128| 129 - if v < 0 { !v } else { v }.leading_zeros();
        let nw = need(lo).max(need(hi)).max(1);
        if nw < w { (self.extract(x, 0, nw), nw) } else { (x, w) }
    }
    fn fix_const(&mut self, bits: u64) -> Option<Fix> {
        let v = f64::from_bits(bits);
        if !v.is_finite() || bits == 1 << 63 {
            return None;
        }
        if v == 0.0 {
            let x = self.konst(0, 1);
            return Some(Fix { x, w: 1, s: 0, nonneg: true });
        }
        let e = ((bits >> 52) & 0x7ff) as i32;
        if e == 0 {
            return None;
        }
        let mut m = ((bits & ((1 << 52) - 1)) | 1 << 52) as i128;
        let mut ex = e - 1075;
        while m & 1 == 0 {
            m >>= 1;
            ex += 1;
        }
        if ex > 53 || ex < -60 {
            return None;
        }
        let mut s = 0;
        if ex > 0 {
            m <<= ex;
        } else {
            s = -ex as u32;
        }
        if m > 1 << 53 {
            return None;
        }
        if v < 0.0 {
            m = -m;
        }
        let w = if m < 0 { 129 - (!m as u128).leading_zeros() } else { 129 - (m as u128).leading_zeros() };
        let x = self.konst(m as u128, w);
        Some(Fix { x, w, s, nonneg: m >= 0 })
    }
    pub fn as_fix(&mut self, e: E) -> Option<Fix> {
        self.as_fix_d(e, 6)
    }
    fn as_fix_d(&mut self, e: E, d: u32) -> Option<Fix> {
        let n = self.nodes[e as usize];
        if n.w != 64 || d == 0 {
            return None;
        }
        match n.op {
            Op::Const => self.fix_const(n.k as u64),
            Op::UiToF => {
                let u = 128 - self.ubound(n.a).leading_zeros();
                let b = self.sigbits(n.a, 12).min(u).max(1);
                if b > 53 {
                    return None;
                }
                let x = self.extract(n.a, 0, b.min(self.w(n.a)));
                let w = self.w(x) + 1;
                let x = self.zext(x, w);
                Some(Fix { x, w, s: 0, nonneg: true })
            }
            Op::SiToF => {
                let b = self.signed_bits(n.a, 12);
                if b > MAXW {
                    return None;
                }
                let x = self.extract(n.a, 0, b);
                Some(Fix { x, w: b, s: 0, nonneg: false })
            }
            Op::FMul => {
                for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                    if let Some(k) = self.k(p) {
                        if matches!(self.nodes[q as usize].op, Op::UiToF | Op::SiToF) {
                            let s = pow2(k as u64)?;
                            let f = self.as_fix_d(q, d - 1)?;
                            if s < 0 && -s <= 60 {
                                return Some(Fix { s: f.s + (-s) as u32, ..f });
                            }
                        }
                    }
                }
                None
            }
            Op::Ite => {
                if !self.has_fp(e) {
                    return None;
                }
                let p = self.as_fix_d(n.b, d - 1)?;
                let q = self.as_fix_d(n.c, d - 1)?;
                let (x, y, w, s) = self.align(p, q, MAXW)?;
                let x = self.ite(n.a, x, y);
                Some(Fix { x, w, s, nonneg: p.nonneg && q.nonneg })
            }
            Op::ZExt => {
                // absolute value
                let m = self.nodes[n.a as usize];
                if m.op == Op::Extract && m.k == 0 && m.w == 63 && self.w(m.a) == 64 && self.has_fp(m.a) {
                    let f = self.as_fix_d(m.a, d - 1)?;
                    if f.nonneg {
                        return Some(f);
                    }
                    let w = f.w + 1;
                    if w > MAXW {
                        return None;
                    }
                    let x = self.sext(f.x, w);
                    let nx = self.neg(x);
                    let z = self.konst(0, w);
                    let c = self.slt(x, z);
                    let x = self.ite(c, nx, x);
                    return Some(Fix { x, w, s: f.s, nonneg: true });
                }
                None
            }
            _ => None,
        }
    }
    fn align(&mut self, p: Fix, q: Fix, max: u32) -> Option<(E, E, u32, u32)> {
        let s = p.s.max(q.s);
        let w = (p.w + s - p.s).max(q.w + s - q.s);
        if w > max {
            return None;
        }
        let f = |c: &mut Ctx, a: Fix| {
            let x = c.sext(a.x, w);
            if s > a.s {
                let k = c.konst((s - a.s) as u128, w);
                c.shl(x, k)
            } else {
                x
            }
        };
        let x = f(self, p);
        let y = f(self, q);
        Some((x, y, w, s))
    }
    pub fn mk_fix(&mut self, f: Fix) -> E {
        if let Some(k) = self.k(f.x) {
            let v = sx(k, f.w) as f64 * 2f64.powi(-(f.s as i32));
            return self.konst(v.to_bits() as u128, 64);
        }
        let base = if f.nonneg && f.w > 1 {
            let x = self.extract(f.x, 0, f.w - 1);
            self.fun1(Op::UiToF, x, 64, 0)
        } else {
            self.fun1(Op::SiToF, f.x, 64, 0)
        };
        if f.s == 0 {
            return base;
        }
        let k = self.konst(2f64.powi(-(f.s as i32)).to_bits() as u128, 64);
        self.fraw(Op::FMul, 64, base.min(k), base.max(k), 0)
    }
    fn is_fp(&self, e: E) -> bool {
        self.has_fp(e)
    }
    fn neg_of(&self, e: E) -> Option<E> {
        let n = self.nodes[e as usize];
        if n.op == Op::Xor && n.w == 64 {
            if self.k(n.a) == Some(1 << 63) {
                return Some(n.b);
            }
            if self.k(n.b) == Some(1 << 63) {
                return Some(n.a);
            }
        }
        None
    }
    pub fn fix_bin(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if self.w(a) != 64 || !(self.is_fp(a) || self.is_fp(b)) {
            return None;
        }
        match op {
            Op::FAdd | Op::FSub => {
                if let Some(nb) = self.neg_of(b) {
                    // a + (-b) and a - b agree, also for zeros
                    return if op == Op::FAdd { self.fix_bin(Op::FSub, a, nb) } else { None };
                }
                if op == Op::FAdd {
                    if let Some(na) = self.neg_of(a) {
                        return self.fix_bin(Op::FSub, b, na);
                    }
                }
                // a negative zero constant is the identity of addition
                let p = self.as_fix(a)?;
                let q = self.as_fix(b)?;
                let (x, y, w0, s) = self.align(p, q, MAXW)?;
                let w = w0 + 1;
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                let r = if op == Op::FAdd { self.add(x, y) } else { self.sub(x, y) };
                let (r, w) = self.shrink(r, w);
                if w > MAXW {
                    return None;
                }
                Some(self.mk_fix(Fix { x: r, w, s, nonneg: op == Op::FAdd && p.nonneg && q.nonneg }))
            }
            Op::FMul => {
                let p = self.as_fix(a)?;
                let q = self.as_fix(b)?;
                for (f, g) in [(p, q), (q, p)] {
                    if let Some(k) = self.k(g.x) {
                        let v = sx(k, g.w);
                        if v > 0 && (v & (v - 1)) == 0 {
                            let t = v.trailing_zeros();
                            let w = f.w + t;
                            if w > MAXW || f.s + g.s > 60 {
                                return None;
                            }
                            let x = self.sext(f.x, w);
                            let kt = self.konst(t as u128, w);
                            let x = self.shl(x, kt);
                            return Some(self.mk_fix(Fix { x, w, s: f.s + g.s, nonneg: f.nonneg }));
                        }
                    }
                }
                if p.nonneg && q.nonneg {
                    let w = p.w + q.w;
                    if w > MAXW || p.s + q.s > 60 {
                        return None;
                    }
                    let x = self.sext(p.x, w);
                    let y = self.sext(q.x, w);
                    let r = self.mul(x, y);
                    return Some(self.mk_fix(Fix { x: r, w, s: p.s + q.s, nonneg: true }));
                }
                None
            }
            Op::FDiv => {
                let k = self.k(b)?;
                let s = pow2(k as u64)?;
                let f = self.as_fix(a)?;
                if s >= 0 && f.s as i32 + s <= 60 {
                    return Some(self.mk_fix(Fix { s: f.s + s as u32, ..f }));
                }
                None
            }
            _ => None,
        }
    }
    /// floor 0, ceil 1, trunc 2
    pub fn fix_round(&mut self, a: E, k: u128) -> Option<E> {
        if !self.is_fp(a) {
            return None;
        }
        let f = self.as_fix(a)?;
        if f.s == 0 {
            return Some(a);
        }
        if k > 2 || k != 0 && !f.nonneg {
            return None;
        }
        let w = f.w + 1;
        let mut x = self.sext(f.x, w);
        if k == 1 {
            let c = self.konst((1u128 << f.s) - 1, w.max(f.s + 2));
            let w2 = w.max(f.s + 2);
            x = self.sext(x, w2);
            x = self.add(x, c);
        }
        let w = self.w(x);
        let ks = self.konst(f.s.min(w) as u128, w);
        let x = self.ashr(x, ks);
        // the value fits in fewer bits
        let nw = if w > f.s + 1 { w - f.s } else { 1 };
        let x = self.extract(x, 0, nw);
        Some(self.mk_fix(Fix { x, w: nw, s: 0, nonneg: f.nonneg && nw > 1 }))
    }
    pub fn fix_to_int(&mut self, a: E, signed: bool, w: u32) -> Option<E> {
        if !self.is_fp(a) {
            return None;
        }
        let f = self.as_fix(a)?;
        if f.nonneg {
            let m = f.w.max(f.s + 1);
            let x = self.zext(f.x, m); // the sign bit is clear
            let k = self.konst(f.s as u128, m);
            let x = self.lshr(x, k);
            let lim = if signed { w - 1 } else { w };
            if f.w.saturating_sub(1) > lim {
                return None;
            }
            return Some(if m > w { self.extract(x, 0, w) } else { self.zext(x, w) });
        }
        if f.s == 0 && f.w <= w {
            let x = self.sext(f.x, w);
            if signed {
                return Some(x);
            }
            let z = self.konst(0, f.w);
            let c = self.slt(f.x, z);
            let zw = self.konst(0, w);
            return Some(self.ite(c, zw, x));
        }
        None
    }
    /// a < b, both on the grid or one of them a constant
    pub fn fix_lt(&mut self, a: E, b: E) -> Option<E> {
        if self.w(a) != 64 || !(self.is_fp(a) || self.is_fp(b)) {
            return None;
        }
        // -0.0 compares as 0.0
        let z = self.konst(0, 64);
        let nz = 1u128 << 63;
        let a = if self.k(a) == Some(nz) { z } else { a };
        let b = if self.k(b) == Some(nz) { z } else { b };
        match (self.as_fix(a), self.as_fix(b)) {
            (Some(p), Some(q)) => {
                let (x, y, _, _) = self.align(p, q, 126)?;
                Some(self.slt(x, y))
            }
            (Some(p), None) => {
                let v = f64::from_bits(self.k(b)? as u64);
                if v.is_nan() {
                    return Some(Ctx::FALSE);
                }
                if v.abs() >= 2f64.powi(54) {
                    return Some(if v > 0.0 { Ctx::TRUE } else { Ctx::FALSE });
                }
                let t = (v * 2f64.powi(p.s as i32)).ceil();
                if t.abs() >= 2f64.powi(100) {
                    return Some(if v > 0.0 { Ctx::TRUE } else { Ctx::FALSE });
                }
                let x = self.sext(p.x, 126);
                let k = self.konst(t as i128 as u128, 126);
                Some(self.slt(x, k))
            }
            (None, Some(q)) => {
                let v = f64::from_bits(self.k(a)? as u64);
                if v.is_nan() {
                    return Some(Ctx::FALSE);
                }
                if v.abs() >= 2f64.powi(54) {
                    return Some(if v < 0.0 { Ctx::TRUE } else { Ctx::FALSE });
                }
                let t = (v * 2f64.powi(q.s as i32)).floor();
                if t.abs() >= 2f64.powi(100) {
                    return Some(if v < 0.0 { Ctx::TRUE } else { Ctx::FALSE });
                }
                let x = self.sext(q.x, 126);
                let k = self.konst(t as i128 as u128, 126);
                Some(self.slt(k, x))
            }
            _ => None,
        }
    }
    pub fn fix_eq(&mut self, a: E, b: E) -> Option<E> {
        if self.w(a) != 64 || !(self.is_fp(a) || self.is_fp(b)) {
            return None;
        }
        let p = self.as_fix(a)?;
        let q = self.as_fix(b)?;
        let (x, y, _, _) = self.align(p, q, 126)?;
        Some(self.eq(x, y))
    }
    pub fn fix_sign(&mut self, a: E) -> Option<E> {
        if self.w(a) != 64 || !self.is_fp(a) {
            return None;
        }
        let f = self.as_fix(a)?;
        if f.nonneg {
            return Some(Ctx::FALSE);
        }
        let z = self.konst(0, f.w);
        Some(self.slt(f.x, z))
    }
}
/// the exponent of a positive power of two
fn pow2(bits: u64) -> Option<i32> {
    let e = (bits >> 52) as i32;
    if bits & ((1 << 52) - 1) != 0 || e == 0 || e >= 0x7ff {
        return None;
    }
    Some(e - 1023)
}

// ------------------------------------------------------------------------- abstraction with lemmas
/// The query with rounded operations replaced by fresh values about which only general facts are
/// known (each fact holds for every IEEE operation). If this is unsatisfiable, so is the query.
pub struct Abstraction {
    pub cons: Vec<E>,
}
impl Ctx {
    pub fn abstract_query(&mut self, cons: &[E]) -> Option<Abstraction> {
        let mut map = std::collections::HashMap::new();
        let mut ops: Vec<(Op, u128, E, E, E)> = vec![]; // op, k, abstract result, abstract operands
        let mut out = vec![];
        for &e in cons {
            let x = self.abs_rec(e, &mut map, &mut ops)?;
            out.push(x);
        }
        if ops.is_empty() || ops.len() > 40 {
            return None;
        }
        let n0 = out.len();
        let le = |c: &mut Ctx, a: E, b: E| -> E {
            // a <= b where neither is NaN
            let x = c.f_olt(b, a);
            c.not(x)
        };
        let zero = self.konst(0, 64);
        let inf = self.konst(0x7ff0_0000_0000_0000, 64);
        let one = self.konst(1f64.to_bits() as u128, 64);
        for i in 0..ops.len() {
            let (op, k, v, a, b) = ops[i];
            match op {
                Op::FAdd | Op::FSub => {
                    if self.w(v) != 64 {
                        continue;
                    }
                    let sb = self.konst(1 << 63, 64);
                    let b = if op == Op::FSub { self.xor(b, sb) } else { b };
                    let na = self.f_isnan(a);
                    let nb = self.f_isnan(b);
                    let nv = self.f_isnan(v);
                    let ia = self.extract(a, 0, 63);
                    let ib = self.extract(b, 0, 63);
                    let infm = self.extract(inf, 0, 63);
                    let ea = self.eq(ia, infm);
                    let eb = self.eq(ib, infm);
                    let sa = self.extract(a, 63, 1);
                    let sbb = self.extract(b, 63, 1);
                    let df = self.xor(sa, sbb);
                    let t = self.and(ea, eb);
                    let opp = self.and(t, df);
                    let t = self.or(na, nb);
                    let bad = self.or(t, opp);
                    let f = self.eq(nv, bad);
                    out.push(f);
                    for (x, y) in [(a, b), (b, a)] {
                        // y >= 0 -> v >= x ; y <= 0 -> v <= x
                        let c1 = self.f_olt(y, zero);
                        let l1 = le(self, x, v);
                        let t = self.or(c1, l1);
                        let t = self.or(t, bad);
                        out.push(t);
                        let c2 = self.f_olt(zero, y);
                        let l2 = le(self, v, x);
                        let t = self.or(c2, l2);
                        let t = self.or(t, bad);
                        out.push(t);
                        // adding zero to a non-zero number gives that number
                        let zy = self.extract(y, 0, 63);
                        let z63 = self.konst(0, 63);
                        let yz = self.eq(zy, z63);
                        let zx = self.extract(x, 0, 63);
                        let xz = self.eq(zx, z63);
                        let nyz = self.not(yz);
                        let same = self.eq(v, x);
                        let t = self.or(nyz, xz);
                        let t = self.or(t, same);
                        let t = self.or(t, bad);
                        out.push(t);
                    }
                    ops[i].4 = b;
                    ops[i].0 = Op::FAdd;
                }
                Op::UiToF | Op::SiToF => {
                    if self.w(v) != 64 {
                        continue;
                    }
                    let nv = self.f_isnan(v);
                    let t = self.not(nv);
                    out.push(t);
                    let aw = self.w(a);
                    let hi = self.konst(2f64.powi(aw as i32 - (op == Op::SiToF) as i32).to_bits() as u128, 64);
                    let t = le(self, v, hi);
                    out.push(t);
                    if op == Op::UiToF {
                        let s = self.extract(v, 63, 1);
                        let t = self.not(s);
                        out.push(t);
                    } else {
                        let lo = self.konst((-(2f64.powi(aw as i32 - 1))).to_bits() as u128, 64);
                        let t = le(self, lo, v);
                        out.push(t);
                        let s = self.extract(v, 63, 1);
                        let sa = self.extract(a, aw - 1, 1);
                        let t = self.eq(s, sa);
                        out.push(t);
                    }
                    let za = self.konst(0, aw);
                    let c = self.eq(a, za);
                    let d = self.eq(v, zero);
                    let t = self.eq(c, d);
                    out.push(t);
                    for bit in [1u32, 31, 32, 52, 53, 62, 63] {
                        if bit < aw - (op == Op::SiToF) as u32 {
                            // a < 2^bit  <->  v < 2^bit (2^bit is exact, rounding is monotone): one direction each
                            let k = self.konst(1u128 << bit, aw);
                            let kf = self.konst(2f64.powi(bit as i32).to_bits() as u128, 64);
                            let c = if op == Op::UiToF { self.ult(a, k) } else { self.slt(a, k) };
                            let up = le(self, v, kf);
                            let nc = self.not(c);
                            let t = self.or(nc, up);
                            out.push(t);
                            let dn = le(self, kf, v);
                            let t = self.or(c, dn);
                            out.push(t);
                        }
                    }
                }
                Op::FRound => {
                    if self.w(v) != 64 {
                        continue;
                    }
                    let na = self.f_isnan(a);
                    let nv = self.f_isnan(v);
                    let t = self.eq(na, nv);
                    out.push(t);
                    let up = le(self, a, v);
                    let dn = le(self, v, a);
                    if k == 0 {
                        let t = self.or(na, dn);
                        out.push(t);
                    }
                    if k == 1 {
                        let t = self.or(na, up);
                        out.push(t);
                    }
                    // integers (everything from 2^52 on) stay
                    let m = self.extract(a, 0, 63);
                    let lim = self.konst(2f64.powi(52).to_bits() as u128, 63);
                    let small = self.ult(m, lim);
                    let same = self.eq(v, a);
                    let t = self.or(small, same);
                    let t = self.or(t, na);
                    out.push(t);
                }
                Op::FMul | Op::FDiv => {
                    if self.w(v) != 64 {
                        continue;
                    }
                    let (c, x) = if self.k(b).is_some() {
                        (b, a)
                    } else if op == Op::FMul && self.k(a).is_some() {
                        (a, b)
                    } else {
                        continue;
                    };
                    let kv = f64::from_bits(self.k(c).unwrap() as u64);
                    if !(kv > 0.0) || kv.is_infinite() {
                        continue;
                    }
                    let nx = self.f_isnan(x);
                    let nv = self.f_isnan(v);
                    let t = self.eq(nx, nv);
                    out.push(t);
                    let sx_ = self.extract(x, 63, 1);
                    let sv = self.extract(v, 63, 1);
                    let t = self.eq(sx_, sv);
                    let t = self.or(t, nx);
                    out.push(t);
                    let grow = if op == Op::FMul { kv >= 1.0 } else { kv <= 1.0 };
                    let mx = self.extract(x, 0, 63);
                    let mv = self.extract(v, 0, 63);
                    let t = if grow { self.ult(mv, mx) } else { self.ult(mx, mv) };
                    let t = self.not(t);
                    let t = self.or(t, nx);
                    out.push(t);
                    let _ = one;
                }
                _ => {}
            }
        }
        // the same operation on the same operands gives the same result; NaNs are canonical
        let qnan = self.konst(0x7ff8_0000_0000_0000, 64);
        for i in 0..ops.len() {
            let (op, k, v, a, b) = ops[i];
            if self.w(v) == 64 && matches!(op, Op::FAdd | Op::FMul | Op::FDiv) {
                let nv = self.f_isnan(v);
                let nn = self.not(nv);
                let t = self.eq(v, qnan);
                let t = self.or(nn, t);
                out.push(t);
            }
            for j in 0..i {
                let (op2, k2, v2, a2, b2) = ops[j];
                if op != op2 || k != k2 || self.w(v) != self.w(v2) || self.w(a) != self.w(a2) || out.len() > n0 + 400 {
                    continue;
                }
                let two = matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv);
                let e1 = self.eq(a, a2);
                let e2 = if two { self.eq(b, b2) } else { self.konst(1, 1) };
                let mut e = self.and(e1, e2);
                if matches!(op, Op::FAdd | Op::FMul) {
                    let e1 = self.eq(a, b2);
                    let e2 = self.eq(b, a2);
                    let t = self.and(e1, e2);
                    e = self.or(e, t);
                }
                let ne = self.not(e);
                let t = self.eq(v, v2);
                let t = self.or(ne, t);
                out.push(t);
            }
        }
        // monotonicity between pairs
        for i in 0..ops.len() {
            for j in 0..ops.len() {
                if i == j || out.len() > n0 + 400 {
                    continue;
                }
                let (op, k, v, a, b) = ops[i];
                let (op2, k2, v2, a2, b2) = ops[j];
                if op != op2 || k != k2 || self.w(v) != 64 || self.w(v2) != 64 {
                    continue;
                }
                match op {
                    Op::UiToF | Op::SiToF => {
                        let w = self.w(a).max(self.w(a2));
                        let (x, y) = if op == Op::UiToF { (self.zext(a, w), self.zext(a2, w)) } else { (self.sext(a, w), self.sext(a2, w)) };
                        let c = if op == Op::UiToF { self.ult(y, x) } else { self.slt(y, x) };
                        let l = le(self, v, v2);
                        let t = self.or(c, l);
                        out.push(t);
                    }
                    Op::FRound => {
                        let nx = self.f_isnan(a);
                        let ny = self.f_isnan(a2);
                        let c = self.f_olt(a2, a);
                        let l = le(self, v, v2);
                        let t = self.or(c, l);
                        let t = self.or(t, nx);
                        let t = self.or(t, ny);
                        out.push(t);
                    }
                    Op::FAdd => {
                        let n1 = self.f_isnan(v);
                        let n2 = self.f_isnan(v2);
                        let bad = self.or(n1, n2);
                        for (x2, y2) in [(a2, b2), (b2, a2)] {
                            // a <= x2 and b <= y2 -> v <= v2
                            if a != x2 && b != y2 {
                                continue;
                            }
                            let c1 = self.f_olt(x2, a);
                            let c2 = self.f_olt(y2, b);
                            let l = le(self, v, v2);
                            let t = self.or(c1, c2);
                            let t = self.or(t, l);
                            let t = self.or(t, bad);
                            out.push(t);
                        }
                    }
                    Op::FMul | Op::FDiv => {
                        // the same positive constant factor
                        if b == b2 && self.k(b).map_or(false, |k| f64::from_bits(k as u64) > 0.0) {
                            let nx = self.f_isnan(v);
                            let ny = self.f_isnan(v2);
                            let c = self.f_olt(a2, a);
                            let l = le(self, v, v2);
                            let t = self.or(c, l);
                            let t = self.or(t, nx);
                            let t = self.or(t, ny);
                            out.push(t);
                        }
                    }
                    _ => {}
                }
            }
        }
        Some(Abstraction { cons: out })
    }
    fn abs_rec(&mut self, e: E, map: &mut std::collections::HashMap<E, E>, ops: &mut Vec<(Op, u128, E, E, E)>) -> Option<E> {
        if !self.has_fp(e) {
            return Some(e);
        }
        if let Some(&x) = map.get(&e) {
            return Some(x);
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let ar = arity(n.op);
        let a = if ar > 0 { self.abs_rec(n.a, map, ops)? } else { 0 };
        let b = if ar > 1 { self.abs_rec(n.b, map, ops)? } else { 0 };
        let c = if ar > 2 { self.abs_rec(n.c, map, ops)? } else { 0 };
        let r = match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRound | Op::FToUi | Op::FToSi | Op::UiToF | Op::SiToF | Op::FConv => {
                // one shared pool of abstract variables per operation result
                let v = self.abs_var(e, w);
                ops.push((n.op, n.k, v, a, b));
                v
            }
            op => self.rebuild(op, w, n.k, e, a, b, c),
        };
        map.insert(e, r);
        Some(r)
    }
}

impl Ctx {
    /// the node `e` (not a rounded operation) with other operands
    pub fn rebuild(&mut self, op: Op, w: u32, k: u128, e: E, a: E, b: E, c: E) -> E {
        match op {
            Op::Not => self.not(a),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Add => self.add(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv | Op::SDiv | Op::URem | Op::SRem => self.divrem(op, a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Ite => self.ite(a, b, c),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, k as u32, w),
            Op::ZExt => self.zext(a, w),
            Op::SExt => self.sext(a, w),
            Op::FLt => self.f_olt(a, b),
            Op::FEq => self.f_oeq(a, b),
            Op::FNan => self.f_isnan(a),
            _ => e,
        }
    }
}

/// Random expressions on the grid: the simplified form must evaluate to what the machine computes.
/// Lemmas: every generated fact must hold for the real operations.
pub fn selftest() {
    let mut seed = 88172645463325252u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut n = 0u64;
    let mut c = Ctx::new();
    for round in 0..3000 {
        c.reset();
        let mut vals: std::collections::HashMap<u32, u128, BuildFx> = Default::default();
        let mut pool: Vec<(E, f64)> = vec![];
        let mut ints: Vec<(E, u64)> = vec![];
        for i in 0..4 {
            let w = 1 + (rnd() % 40) as u32;
            let v = c.var("v", w);
            let bits = if rnd() % 4 == 0 { mask(w) } else { rnd() as u128 & mask(w) };
            vals.insert(i, bits, );
            let z = c.zext(v, 64);
            ints.push((z, bits as u64));
            let (e, f) = if rnd() % 2 == 0 {
                (c.fun1(Op::UiToF, z, 64, 0), bits as u64 as f64)
            } else {
                let s = c.sext(v, 64);
                (c.fun1(Op::SiToF, s, 64, 0), sx(bits, w) as f64)
            };
            pool.push((e, f));
            let sc = 2f64.powi((rnd() % 12) as i32);
            let k = c.konst(sc.to_bits() as u128, 64);
            pool.push((c.fbin(Op::FDiv, e, k), f / sc));
        }
        for k in [0.5, -0.25, 3.0, 0.1, f64::INFINITY, -0.0, 1e300, 9007199254740993.0] {
            pool.push((c.konst((k as f64).to_bits() as u128, 64), k));
        }
        let m = Model::new(vals);
        let mut sums: Vec<E> = vec![];
        for _ in 0..24 {
            let (a, x) = pool[(rnd() % pool.len() as u64) as usize];
            let (b, y) = pool[(rnd() % pool.len() as u64) as usize];
            let r = match rnd() % 9 {
                0 | 1 => Some((c.fbin(Op::FAdd, a, b), x + y)),
                2 => Some((c.fbin(Op::FSub, a, b), x - y)),
                3 => Some((c.fbin(Op::FMul, a, b), x * y)),
                4 => {
                    let k = c.konst(1 << 63, 64);
                    let nb = c.xor(b, k);
                    Some((c.fbin(Op::FAdd, a, nb), x + -y))
                }
                5 => Some((c.fun1(Op::FRound, a, 64, 0), x.floor())),
                6 => Some((c.fun1(Op::FRound, a, 64, 1), x.ceil())),
                7 => Some((c.fun1(Op::FRound, a, 64, 2), x.trunc())),
                _ => {
                    let mm = c.konst(mask(63), 64);
                    Some((c.and(a, mm), x.abs()))
                }
            };
            if let Some((e, v)) = r {
                let g = f64::from_bits(c.eval(e, &m) as u64);
                assert!(g.to_bits() == v.to_bits() || g.is_nan() && v.is_nan(), "round {}: {} vs {} from {} {}", round, g, v, x, y);
                pool.push((e, v));
                sums.push(e);
                n += 1;
            }
            for (p, want) in [("olt", x < y), ("oeq", x == y), ("ole", x <= y), ("uno", x.is_nan() || y.is_nan()), ("ugt", !(x <= y))] {
                let e = c.fcmp(p, a, b);
                assert!((c.eval(e, &m) != 0) == want, "round {}: {} {} {}", round, x, p, y);
                n += 1;
            }
            let e = c.eq(a, b);
            if !x.is_nan() && !y.is_nan() {
                assert!((c.eval(e, &m) != 0) == (x.to_bits() == y.to_bits()), "eq {} {}", x, y);
            }
            let e = c.f_to_int_sat(a, false, 64);
            assert!(c.eval(e, &m) as u64 == x as u64, "u64 {}", x);
            let e = c.f_to_int_sat(a, true, 64);
            assert!(c.eval(e, &m) as u64 == x as i64 as u64, "i64 {}", x);
            let e = c.extract(a, 63, 1);
            if !x.is_nan() {
                assert!((c.eval(e, &m) != 0) == x.is_sign_negative(), "sign {}", x);
            }
        }
        // every lemma of the abstraction holds for the real values
        let mut goals = vec![];
        for w in sums.windows(2) {
            goals.push(c.fcmp("olt", w[0], w[1]));
        }
        for _ in 0..4 {
            // wide, off-grid operations
            let (a, _) = pool[(rnd() % pool.len() as u64) as usize];
            let (i, _) = ints[(rnd() % 4) as usize];
            let kk = c.konst(rnd() as u128, 64);
            let j = c.mul(i, kk);
            let u = c.fun1(Op::UiToF, j, 64, 0);
            let s = c.fun1(Op::SiToF, j, 64, 0);
            let r = c.fbin(Op::FAdd, a, u);
            let t = c.fbin(Op::FAdd, s, u);
            let q = c.fbin(Op::FSub, a, s);
            let g = c.fcmp("olt", r, t);
            goals.push(g);
            let g = c.fcmp("olt", q, t);
            goals.push(g);
        }
        goals.retain(|g| c.has_fp(*g));
        for chunk in goals.chunks(5) {
            if let Some(ab) = c.abstract_query(chunk) {
                let mut vals = Default::default();
                std::mem::swap(&mut vals, &mut m_vals(&m));
                for (e, v) in c.abs_pairs() {
                    let x = c.eval(e, &m);
                    let id = c.nodes[v as usize].k as u32;
                    vals.insert(id, x);
                }
                let m2 = Model::new(vals);
                for (i, e) in ab.cons.iter().enumerate().skip(chunk.len()) {
                    assert!(c.eval(*e, &m2) != 0, "round {}: lemma {} is false", round, i);
                    n += 1;
                }
                for (g, a) in chunk.iter().zip(&ab.cons) {
                    assert!(c.eval(*g, &m) == c.eval(*a, &m2), "abstraction differs");
                }
            }
        }
    }
    println!("selftest ok: {} comparisons", n);
}
fn m_vals(m: &Model) -> std::collections::HashMap<u32, u128, BuildFx> {
    m.vals.clone()
}
