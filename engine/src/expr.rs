//! Bit-vector expression DAG with construction-time simplification.
use std::sync::Arc;

pub type E = Arc<Node>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }

pub enum K {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Not(E),
    Cmp(Cmp, E, E),
    Extract(E, u32),
    Concat(E, E), // hi, lo
    Zext(E),
    Sext(E),
    Ite(E, E, E),
}

pub struct Node {
    pub k: K,
    pub w: u32,
    pub h: u128,
    pub vars: Arc<[u32]>,
}

impl Drop for Node {
    fn drop(&mut self) {}
}

fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ (b.rotate_left(41))).wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
    let y = x ^ (x >> 59);
    y.wrapping_mul(0xDA942042E4DD58B5_9E3779B97F4A7C15).rotate_left(37) ^ b
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 {
    if w == 0 { return 0 }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

thread_local! { static EMPTY: Arc<[u32]> = Arc::from(Vec::new()); }

fn union(a: &Arc<[u32]>, b: &Arc<[u32]>) -> Arc<[u32]> {
    if Arc::ptr_eq(a, b) || b.is_empty() { return a.clone() }
    if a.is_empty() { return b.clone() }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) { out.push(a[i]); i += 1 }
        else if i >= a.len() || b[j] < a[i] { out.push(b[j]); j += 1 }
        else { out.push(a[i]); i += 1; j += 1 }
    }
    if out.len() == a.len() { return a.clone() }
    if out.len() == b.len() { return b.clone() }
    Arc::from(out)
}

fn mk(k: K, w: u32) -> E {
    let (h, vars) = match &k {
        K::Const(c) => (mix(mix(1, w as u128), *c), EMPTY.with(|e| e.clone())),
        K::Var(i) => (mix(mix(2, w as u128), *i as u128), Arc::from(vec![*i])),
        K::Bin(o, a, b) => (mix(mix(mix(3 + ((*o as u128) << 8), w as u128), a.h), b.h), union(&a.vars, &b.vars)),
        K::Not(a) => (mix(mix(4, w as u128), a.h), a.vars.clone()),
        K::Cmp(o, a, b) => (mix(mix(mix(5 + ((*o as u128) << 8), w as u128), a.h), b.h), union(&a.vars, &b.vars)),
        K::Extract(a, lo) => (mix(mix(mix(6, w as u128), a.h), *lo as u128), a.vars.clone()),
        K::Concat(a, b) => (mix(mix(mix(7, w as u128), a.h), b.h), union(&a.vars, &b.vars)),
        K::Zext(a) => (mix(mix(8, w as u128), a.h), a.vars.clone()),
        K::Sext(a) => (mix(mix(9, w as u128), a.h), a.vars.clone()),
        K::Ite(c, a, b) => (mix(mix(mix(mix(10, w as u128), c.h), a.h), b.h), union(&c.vars, &union(&a.vars, &b.vars))),
    };
    Arc::new(Node { k, w, h, vars })
}

pub fn cst(v: u128, w: u32) -> E { mk(K::Const(v & mask(w)), w) }
pub fn var(i: u32, w: u32) -> E { mk(K::Var(i), w) }
pub fn tru() -> E { cst(1, 1) }
pub fn fls() -> E { cst(0, 1) }

impl Node {
    pub fn c(&self) -> Option<u128> { if let K::Const(c) = self.k { Some(c) } else { None } }
    pub fn is_true(&self) -> bool { self.w == 1 && self.c() == Some(1) }
    pub fn is_false(&self) -> bool { self.w == 1 && self.c() == Some(0) }
}
pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || (a.h == b.h && a.w == b.w) }

/// Concrete semantics shared by the folder, the evaluator and the interpreter.
pub fn bin_c(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sx(a, w) >> s.min(127)) as u128 }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn cmp_c(op: Cmp, a: u128, b: u128, w: u32) -> bool {
    match op {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sx(a, w) < sx(b, w),
        Cmp::Sle => sx(a, w) <= sx(b, w),
    }
}

pub fn bin(op: Op, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.c(), b.c()) { return cst(bin_c(op, x, y, w), w) }
    let m = mask(w);
    // canonical: constant on the right for commutative ops
    let (a, b) = match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if a.c().is_some() => (b, a),
        _ => (a, b),
    };
    if let Some(y) = b.c() {
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a.clone(),
            Op::Mul | Op::UDiv | Op::SDiv if y == 1 => return a.clone(),
            Op::Mul | Op::And if y == 0 => return cst(0, w),
            Op::And if y == m => return a.clone(),
            Op::Or if y == m => return cst(m, w),
            Op::Xor if y == m => return not(a),
            Op::Sub => return bin(Op::Add, a, &cst(y.wrapping_neg(), w)),
            Op::Add => if let K::Bin(Op::Add, p, q) = &a.k { if let Some(z) = q.c() { return bin(Op::Add, p, &cst(z.wrapping_add(y), w)) } },
            Op::Mul if y.is_power_of_two() => return bin(Op::Shl, a, &cst(y.trailing_zeros() as u128, w)),
            Op::UDiv if y.is_power_of_two() => return bin(Op::LShr, a, &cst(y.trailing_zeros() as u128, w)),
            Op::URem if y.is_power_of_two() => return bin(Op::And, a, &cst(y - 1, w)),
            Op::Shl if y >= w as u128 => return cst(0, w),
            Op::LShr if y >= w as u128 => return cst(0, w),
            Op::Shl => { let n = y as u32; return concat(&extract(a, 0, w - n), &cst(0, n)) }
            Op::LShr => { let n = y as u32; return zext(&extract(a, n, w - n), w) }
            Op::And => {
                // contiguous mask
                let tz = y.trailing_zeros();
                let s = y >> tz;
                if s & (s + 1) == 0 {
                    let n = 128 - s.leading_zeros();
                    let mid = extract(a, tz, n);
                    let low = if tz > 0 { concat(&mid, &cst(0, tz)) } else { mid };
                    return zext(&low, w);
                }
            }
            _ => {}
        }
    }
    if let Some(0) = a.c() {
        match op { Op::Shl | Op::LShr | Op::AShr => return cst(0, w), _ => {} }
    }
    if same(a, b) {
        match op {
            Op::Sub | Op::Xor => return cst(0, w),
            Op::And | Op::Or => return a.clone(),
            _ => {}
        }
    }
    if w == 1 {
        match op {
            Op::And => { if let K::Not(x) = &a.k { if same(x, b) { return fls() } } if let K::Not(x) = &b.k { if same(x, a) { return fls() } } }
            Op::Or => { if let K::Not(x) = &a.k { if same(x, b) { return tru() } } if let K::Not(x) = &b.k { if same(x, a) { return tru() } } }
            Op::Add | Op::Sub => return bin(Op::Xor, a, b),
            Op::Mul => return bin(Op::And, a, b),
            _ => {}
        }
    }
    // or/xor/add of zext-low with shifted-high => concat
    if matches!(op, Op::Or | Op::Xor | Op::Add) {
        if let Some(r) = disjoint_or(a, b).or_else(|| disjoint_or(b, a)) { return r }
    }
    // lift over ite with constant arms
    if b.c().is_some() {
        if let K::Ite(c, x, y) = &a.k { if x.c().is_some() && y.c().is_some() { return ite(c, &bin(op, x, b), &bin(op, y, b)) } }
    }
    if matches!(op, Op::And | Op::Or | Op::Xor) && w > 1 {
        // bitwise over two zexts of same width
        if let (K::Zext(x), K::Zext(y)) = (&a.k, &b.k) {
            if x.w == y.w { return zext(&bin(op, x, y), w) }
        }
        if let (K::Zext(x), Some(y)) = (&a.k, b.c()) {
            if op == Op::And || y <= mask(x.w) {
                return zext(&bin(op, x, &cst(y, x.w)), w);
            }
        }
    }
    mk(K::Bin(op, a.clone(), b.clone()), w)
}

/// lo zext'ed to w (high bits zero from lw) and hi = concat(x, 0_lw')  with lw' >= lw.
fn disjoint_or(lo: &E, hi: &E) -> Option<E> {
    let w = lo.w;
    let (x, lw) = match &lo.k { K::Zext(x) => (x, x.w), _ => return None };
    // trailing zero bits of hi
    fn tz(e: &E) -> u32 {
        match &e.k {
            K::Const(c) => if *c == 0 { e.w } else { c.trailing_zeros() },
            K::Concat(h, l) => { let t = tz(l); if t == l.w { t + tz(h) } else { t } }
            K::Zext(a) => { let t = tz(a); if t == a.w { e.w } else { t } }
            _ => 0,
        }
    }
    let t = tz(hi);
    if t >= lw && t < w {
        let top = extract(hi, t, w - t);
        let low = zext(x, t);
        return Some(concat(&top, &low));
    }
    None
}

pub fn not(a: &E) -> E {
    if let Some(x) = a.c() { return cst(!x, a.w) }
    if let K::Not(x) = &a.k { return x.clone() }
    if a.w == 1 {
        match &a.k {
            K::Cmp(Cmp::Ult, x, y) => return cmp(Cmp::Ule, y, x),
            K::Cmp(Cmp::Ule, x, y) => return cmp(Cmp::Ult, y, x),
            K::Cmp(Cmp::Slt, x, y) => return cmp(Cmp::Sle, y, x),
            K::Cmp(Cmp::Sle, x, y) => return cmp(Cmp::Slt, y, x),
            _ => {}
        }
    }
    mk(K::Not(a.clone()), a.w)
}
pub fn and(a: &E, b: &E) -> E { bin(Op::And, a, b) }
pub fn or(a: &E, b: &E) -> E { bin(Op::Or, a, b) }
pub fn eq(a: &E, b: &E) -> E { cmp(Cmp::Eq, a, b) }

pub fn cmp(op: Cmp, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.c(), b.c()) { return cst(cmp_c(op, x, y, w) as u128, 1) }
    if same(a, b) { return cst(matches!(op, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1) }
    let m = mask(w);
    match op {
        Cmp::Eq => {
            let (a, b) = if a.c().is_some() { (b, a) } else { (a, b) };
            if let Some(y) = b.c() {
                if w == 1 { return if y == 1 { a.clone() } else { not(a) } }
                match &a.k {
                    K::Zext(x) => { if y > mask(x.w) { return fls() } return eq(x, &cst(y, x.w)) }
                    K::Sext(x) => { let t = cst(y, x.w); if sx(t.c().unwrap(), x.w) as u128 & m != y { return fls() } return eq(x, &t) }
                    K::Concat(h, l) => return and(&eq(h, &cst(y >> l.w, h.w)), &eq(l, &cst(y, l.w))),
                    K::Ite(c, p, q) if p.c().is_some() || q.c().is_some() => {
                        let (ep, eq_) = (eq(p, b), eq(q, b));
                        if ep.c().is_some() || eq_.c().is_some() { return ite(c, &ep, &eq_) }
                    }
                    K::Bin(Op::Add, p, q) if q.c().is_some() => return eq(p, &cst(y.wrapping_sub(q.c().unwrap()), w)),
                    K::Bin(Op::Xor, p, q) if q.c().is_some() => return eq(p, &cst(y ^ q.c().unwrap(), w)),
                    K::Not(p) => return eq(p, &cst(!y, w)),
                    K::Bin(Op::Or, p, q) if y == 0 => return and(&eq(p, &cst(0, w)), &eq(q, &cst(0, w))),
                    _ => {}
                }
            } else {
                match (&a.k, &b.k) {
                    (K::Zext(x), K::Zext(y)) if x.w == y.w => return eq(x, y),
                    (K::Concat(h, l), K::Concat(h2, l2)) if l.w == l2.w => return and(&eq(h, h2), &eq(l, l2)),
                    _ => {}
                }
            }
            // canonical order
            if b.c().is_none() && a.h > b.h { return mk(K::Cmp(Cmp::Eq, b.clone(), a.clone()), 1) }
            return mk(K::Cmp(Cmp::Eq, a.clone(), b.clone()), 1);
        }
        Cmp::Ult => {
            if let Some(y) = b.c() {
                if y == 0 { return fls() }
                if y == 1 { return eq(a, &cst(0, w)) }
                if y == m { return not(&eq(a, b)) }
                if let K::Zext(x) = &a.k { if y > mask(x.w) { return tru() } return cmp(op, x, &cst(y, x.w)) }
            }
            if let Some(x) = a.c() {
                if x == m { return fls() }
                if x == 0 { return not(&eq(b, &cst(0, w))) }
                if let K::Zext(y) = &b.k { if x > mask(y.w) { return fls() } return cmp(op, &cst(x, y.w), y) }
            }
            if let (K::Zext(x), K::Zext(y)) = (&a.k, &b.k) { if x.w == y.w { return cmp(op, x, y) } }
        }
        Cmp::Ule => {
            if let Some(y) = b.c() {
                if y == m { return tru() }
                if y == 0 { return eq(a, b) }
                if let K::Zext(x) = &a.k { if y >= mask(x.w) { return tru() } return cmp(op, x, &cst(y, x.w)) }
            }
            if let Some(x) = a.c() {
                if x == 0 { return tru() }
                if x == m { return eq(a, b) }
                if let K::Zext(y) = &b.k { if x > mask(y.w) { return fls() } return cmp(op, &cst(x, y.w), y) }
            }
            if let (K::Zext(x), K::Zext(y)) = (&a.k, &b.k) { if x.w == y.w { return cmp(op, x, y) } }
        }
        Cmp::Slt | Cmp::Sle => {
            // both known non-negative -> unsigned
            let nn = |e: &E| match &e.k { K::Zext(x) => x.w < e.w, K::Const(c) => sx(*c, e.w) >= 0, _ => false };
            if nn(a) && nn(b) { return cmp(if op == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b) }
            if op == Cmp::Slt && b.c() == Some(0) { return extract(a, w - 1, 1) }
            if op == Cmp::Slt && a.c() == Some(m) { return not(&extract(b, w - 1, 1)) }
        }
    }
    if let Some(_) = b.c() {
        if let K::Ite(c, p, q) = &a.k { if p.c().is_some() && q.c().is_some() { return ite(c, &cmp(op, p, b), &cmp(op, q, b)) } }
    }
    if let Some(_) = a.c() {
        if let K::Ite(c, p, q) = &b.k { if p.c().is_some() && q.c().is_some() { return ite(c, &cmp(op, a, p), &cmp(op, a, q)) } }
    }
    mk(K::Cmp(op, a.clone(), b.clone()), 1)
}

pub fn extract(a: &E, lo: u32, n: u32) -> E {
    debug_assert!(lo + n <= a.w, "extract {} {} of {}", lo, n, a.w);
    if n == a.w { return a.clone() }
    match &a.k {
        K::Const(c) => return cst(*c >> lo, n),
        K::Extract(x, l2) => return extract(x, lo + l2, n),
        K::Concat(h, l) => {
            if lo + n <= l.w { return extract(l, lo, n) }
            if lo >= l.w { return extract(h, lo - l.w, n) }
            return concat(&extract(h, 0, lo + n - l.w), &extract(l, lo, l.w - lo));
        }
        K::Zext(x) => {
            if lo >= x.w { return cst(0, n) }
            if lo + n <= x.w { return extract(x, lo, n) }
            return zext(&extract(x, lo, x.w - lo), n);
        }
        K::Sext(x) => {
            if lo + n <= x.w { return extract(x, lo, n) }
            if lo < x.w { return sext(&extract(x, lo, x.w - lo), n) }
            return sext(&extract(x, x.w - 1, 1), n);
        }
        K::Ite(c, x, y) if x.c().is_some() || y.c().is_some() || n <= 8 => return ite(c, &extract(x, lo, n), &extract(y, lo, n)),
        K::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => return bin(*op, &extract(x, lo, n), &extract(y, lo, n)),
        K::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => return bin(*op, &extract(x, 0, n), &extract(y, 0, n)),
        K::Not(x) => return not(&extract(x, lo, n)),
        _ => {}
    }
    mk(K::Extract(a.clone(), lo), n)
}

pub fn concat(h: &E, l: &E) -> E {
    let w = h.w + l.w;
    debug_assert!(w <= 128, "concat width {}", w);
    if let (Some(x), Some(y)) = (h.c(), l.c()) { return cst((x << l.w) | y, w) }
    if h.c() == Some(0) { return zext(l, w) }
    if let (K::Extract(x, lx), K::Extract(y, ly)) = (&h.k, &l.k) {
        if same(x, y) && *lx == ly + l.w { return extract(x, *ly, w) }
    }
    // h is extract directly above all of l
    if let K::Extract(x, lx) = &h.k { if same(x, l) && *lx == l.w { return extract(x, 0, w) } }
    // concat(concat(a,b),c) -> concat(a, concat(b,c)) when (b,c) merge
    if let K::Concat(a, b) = &h.k {
        let bc = concat(b, l);
        if !matches!(bc.k, K::Concat(..)) { return concat(a, &bc) }
    }
    if let K::Concat(a, b) = &l.k {
        let ha = match (&h.k, &a.k) {
            (K::Const(_), K::Const(_)) => Some(concat(h, a)),
            (K::Extract(x, lx), K::Extract(y, ly)) if same(x, y) && *lx == ly + a.w => Some(extract(x, *ly, h.w + a.w)),
            _ => None,
        };
        if let Some(ha) = ha { return concat(&ha, b) }
    }
    if let K::Zext(x) = &h.k { let nw = x.w + l.w; return zext(&concat(x, l), nw.max(w)) }
    mk(K::Concat(h.clone(), l.clone()), w)
}

pub fn zext(a: &E, w: u32) -> E {
    if w == a.w { return a.clone() }
    match &a.k {
        K::Const(c) => return cst(*c, w),
        K::Zext(x) => return zext(x, w),
        K::Ite(c, x, y) if x.c().is_some() && y.c().is_some() => return ite(c, &zext(x, w), &zext(y, w)),
        _ => {}
    }
    mk(K::Zext(a.clone()), w)
}
pub fn sext(a: &E, w: u32) -> E {
    if w == a.w { return a.clone() }
    match &a.k {
        K::Const(c) => return cst(sx(*c, a.w) as u128, w),
        K::Zext(x) if x.w < a.w => return zext(x, w),
        K::Sext(x) => return sext(x, w),
        K::Ite(c, x, y) if x.c().is_some() && y.c().is_some() => return ite(c, &sext(x, w), &sext(y, w)),
        _ => {}
    }
    mk(K::Sext(a.clone()), w)
}
pub fn ite(c: &E, a: &E, b: &E) -> E {
    if c.is_true() { return a.clone() }
    if c.is_false() { return b.clone() }
    if same(a, b) { return a.clone() }
    if a.w == 1 {
        match (a.c(), b.c()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(&not(c), b),
            (_, Some(1)) => return or(&not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    if let K::Not(x) = &c.k { return ite(x, b, a) }
    mk(K::Ite(c.clone(), a.clone(), b.clone()), a.w)
}

pub struct Ev { memo: std::collections::HashMap<*const Node, u128> }
impl Ev {
    pub fn new() -> Ev { Ev { memo: Default::default() } }
    pub fn eval(&mut self, e: &E, m: &[u128]) -> u128 {
        match &e.k {
            K::Const(c) => return *c,
            K::Var(i) => return m.get(*i as usize).copied().unwrap_or(0) & mask(e.w),
            _ => {}
        }
        let key = Arc::as_ptr(e);
        if let Some(v) = self.memo.get(&key) { return *v }
        let r = match &e.k {
            K::Const(_) | K::Var(_) => unreachable!(),
            K::Bin(op, a, b) => bin_c(*op, self.eval(a, m), self.eval(b, m), e.w),
            K::Not(a) => !self.eval(a, m) & mask(e.w),
            K::Cmp(op, a, b) => cmp_c(*op, self.eval(a, m), self.eval(b, m), a.w) as u128,
            K::Extract(a, lo) => (self.eval(a, m) >> lo) & mask(e.w),
            K::Concat(a, b) => (self.eval(a, m) << b.w) | self.eval(b, m),
            K::Zext(a) => self.eval(a, m),
            K::Sext(a) => sx(self.eval(a, m), a.w) as u128 & mask(e.w),
            K::Ite(c, a, b) => if self.eval(c, m) == 1 { self.eval(a, m) } else { self.eval(b, m) },
        };
        self.memo.insert(key, r);
        r
    }
}
pub fn eval(e: &E, m: &[u128]) -> u128 { Ev::new().eval(e, m) }

pub fn show(e: &E) -> String {
    fn go(e: &E, d: u32, o: &mut String) {
        use std::fmt::Write;
        if d > 6 { o.push_str("…"); return }
        match &e.k {
            K::Const(c) => { let _ = write!(o, "{}", c); }
            K::Var(i) => { let _ = write!(o, "v{}", i); }
            K::Bin(op, a, b) => { let _ = write!(o, "({:?} ", op); go(a, d + 1, o); o.push(' '); go(b, d + 1, o); o.push(')') }
            K::Not(a) => { o.push('!'); go(a, d + 1, o) }
            K::Cmp(op, a, b) => { let _ = write!(o, "({:?} ", op); go(a, d + 1, o); o.push(' '); go(b, d + 1, o); o.push(')') }
            K::Extract(a, lo) => { go(a, d + 1, o); let _ = write!(o, "[{}+:{}]", lo, e.w); }
            K::Concat(a, b) => { o.push('('); go(a, d + 1, o); o.push_str("::"); go(b, d + 1, o); o.push(')') }
            K::Zext(a) => { o.push_str("z("); go(a, d + 1, o); o.push(')') }
            K::Sext(a) => { o.push_str("s("); go(a, d + 1, o); o.push(')') }
            K::Ite(c, a, b) => { o.push_str("(if "); go(c, d + 1, o); o.push(' '); go(a, d + 1, o); o.push(' '); go(b, d + 1, o); o.push(')') }
        }
    }
    let mut s = String::new();
    go(e, 0, &mut s);
    s
}
