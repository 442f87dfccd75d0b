//! Z3 back end (QF_BV) through the C API, one context per worker thread.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_binary_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("symrust: z3 error {}", e); Z3ERR.fetch_add(1, Relaxed); }
static Z3ERR: AtomicU64 = AtomicU64::new(0);

pub struct Stats {
    pub queries: AtomicU64, pub sat: AtomicU64, pub unsat: AtomicU64, pub unknown: AtomicU64,
    pub nanos: AtomicU64, pub cache_hits: AtomicU64, pub model_hits: AtomicU64, pub max_nanos: AtomicU64,
}
pub static STATS: Stats = Stats {
    queries: AtomicU64::new(0), sat: AtomicU64::new(0), unsat: AtomicU64::new(0), unknown: AtomicU64::new(0),
    nanos: AtomicU64::new(0), cache_hits: AtomicU64::new(0), model_hits: AtomicU64::new(0), max_nanos: AtomicU64::new(0),
};

#[derive(Clone)]
pub enum Ans { Sat(Arc<Vec<(u32, u128)>>), Unsat, Unknown }

pub struct Cache { shards: Vec<Mutex<HashMap<u128, Ans>>> }
impl Cache {
    pub fn new() -> Cache { Cache { shards: (0..64).map(|_| Mutex::new(HashMap::new())).collect() } }
}

pub struct Solver {
    ctx: P, solver: P, solver2: P,
    memo: HashMap<u128, P>,
    uses: usize,
    timeout_ms: u32,
    cache: Arc<Cache>,
    pub dump: Option<std::path::PathBuf>,
}

impl Solver {
    pub fn new(cache: Arc<Cache>, timeout_ms: u32) -> Solver {
        let mut s = Solver { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), solver2: std::ptr::null_mut(), memo: HashMap::new(), uses: 0, timeout_ms, cache, dump: None };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() { Z3_del_context(self.ctx) }
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            let t = CString::new("timeout").unwrap();
            let ts = Z3_mk_string_symbol(self.ctx, t.as_ptr());
            // small queries: the plain SMT core; what it does not settle quickly goes to the QF_BV tactic solver
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            self.solver2 = Z3_mk_solver_for_logic(self.ctx, sy);
            Z3_solver_inc_ref(self.ctx, self.solver2);
            for (s, ms) in [(self.solver, 2000.min(self.timeout_ms)), (self.solver2, self.timeout_ms)] {
                let p = Z3_mk_params(self.ctx);
                Z3_params_inc_ref(self.ctx, p);
                Z3_params_set_uint(self.ctx, p, ts, ms);
                Z3_solver_set_params(self.ctx, s, p);
            }
        }
        self.memo.clear();
        self.uses = 0;
    }
    fn tr(&mut self, e: &E) -> P {
        if let Some(p) = self.memo.get(&e.h) { return *p }
        let c = self.ctx;
        let p = unsafe {
            match &e.k {
                K::Const(v) => {
                    let s = Z3_mk_bv_sort(c, e.w);
                    if e.w <= 64 { Z3_mk_unsigned_int64(c, *v as u64, s) } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                K::Var(i) => {
                    let n = CString::new(format!("v{}_{}", i, e.w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, e.w))
                }
                K::Bin(op, a, b) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                K::Not(a) => { let x = self.tr(a); Z3_mk_bvnot(c, x) }
                K::Cmp(op, a, b) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    let f = match op {
                        Cmp::Eq => Z3_mk_eq(c, x, y), Cmp::Ult => Z3_mk_bvult(c, x, y), Cmp::Ule => Z3_mk_bvule(c, x, y),
                        Cmp::Slt => Z3_mk_bvslt(c, x, y), Cmp::Sle => Z3_mk_bvsle(c, x, y),
                    };
                    let s1 = Z3_mk_bv_sort(c, 1);
                    let (one, zero) = (Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
                    Z3_mk_ite(c, f, one, zero)
                }
                K::Extract(a, lo) => { let x = self.tr(a); Z3_mk_extract(c, lo + e.w - 1, *lo, x) }
                K::Concat(a, b) => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_concat(c, x, y) }
                K::Zext(a) => { let x = self.tr(a); Z3_mk_zero_ext(c, e.w - a.w, x) }
                K::Sext(a) => { let x = self.tr(a); Z3_mk_sign_ext(c, e.w - a.w, x) }
                K::Ite(g, a, b) => {
                    let f = self.tr_bool(g);
                    let (x, y) = (self.tr(a), self.tr(b));
                    Z3_mk_ite(c, f, x, y)
                }
            }
        };
        self.memo.insert(e.h, p);
        p
    }
    fn tr_bool(&mut self, e: &E) -> P {
        let c = self.ctx;
        unsafe {
            match &e.k {
                K::Cmp(op, a, b) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    match op {
                        Cmp::Eq => Z3_mk_eq(c, x, y), Cmp::Ult => Z3_mk_bvult(c, x, y), Cmp::Ule => Z3_mk_bvule(c, x, y),
                        Cmp::Slt => Z3_mk_bvslt(c, x, y), Cmp::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                K::Not(a) => { let x = self.tr_bool(a); Z3_mk_not(c, x) }
                _ => {
                    let x = self.tr(e);
                    let s1 = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, s1);
                    Z3_mk_eq(c, x, one)
                }
            }
        }
    }

    /// Satisfiability of the conjunction `cs`; on Sat gives values for all variables in it.
    pub fn check(&mut self, cs: &[E]) -> Ans {
        // order-independent key
        let mut key: u128 = 0x1234;
        let mut hs: Vec<u128> = cs.iter().map(|e| e.h).collect();
        hs.sort(); hs.dedup();
        for h in &hs { key = (key ^ h).wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645); key ^= key >> 61; }
        let sh = &self.cache.clone().shards[(key as usize) & 63];
        if let Some(a) = sh.lock().unwrap().get(&key) { STATS.cache_hits.fetch_add(1, Relaxed); return a.clone() }
        let t0 = std::time::Instant::now();
        self.uses += 1;
        if self.uses > 20000 || self.memo.len() > 400000 { self.reset() }
        let mut vars: Vec<(u32, u32)> = vec![];
        {
            let mut seen = std::collections::HashSet::new();
            fn go(e: &E, seen: &mut std::collections::HashSet<u128>, out: &mut Vec<(u32, u32)>) {
                if e.vars.is_empty() || !seen.insert(e.h) { return }
                match &e.k {
                    K::Var(i) => out.push((*i, e.w)),
                    K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => { go(a, seen, out); go(b, seen, out) }
                    K::Not(a) | K::Extract(a, _) | K::Zext(a) | K::Sext(a) => go(a, seen, out),
                    K::Ite(c, a, b) => { go(c, seen, out); go(a, seen, out); go(b, seen, out) }
                    K::Const(_) => {}
                }
            }
            for e in cs { go(e, &mut seen, &mut vars) }
        }
        let errs = Z3ERR.load(Relaxed);
        let ans = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for e in cs { let f = self.tr_bool(e); Z3_solver_assert(self.ctx, self.solver, f); }
            if let Some(d) = &self.dump {
                let n = STATS.queries.load(Relaxed);
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                let _ = std::fs::write(d.join(format!("q{}.smt2", n)), s);
            }
            let mut r = Z3_solver_check(self.ctx, self.solver);
            let mut used = self.solver;
            if r == 0 {
                used = self.solver2;
                Z3_solver_push(self.ctx, used);
                for e in cs { let f = self.tr_bool(e); Z3_solver_assert(self.ctx, used, f); }
                r = Z3_solver_check(self.ctx, used);
            }
            let ans = if r == 1 {
                let m = Z3_solver_get_model(self.ctx, used);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                for (i, w) in &vars {
                    let t = self.tr(&var(*i, *w));
                    let mut v: P = std::ptr::null_mut();
                    Z3_model_eval(self.ctx, m, t, true, &mut v);
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_binary_string(self.ctx, v)).to_str().unwrap();
                    out.push((*i, u128::from_str_radix(s, 2).unwrap()));
                }
                Z3_model_dec_ref(self.ctx, m);
                // never trust a model that does not satisfy the constraints as we evaluate them
                let mut mv = vec![];
                for (i, v) in &out { if mv.len() <= *i as usize { mv.resize(*i as usize + 1, 0) } mv[*i as usize] = *v }
                let mut ev = Ev::new();
                if cs.iter().all(|e| ev.eval(e, &mv) == 1) { Ans::Sat(Arc::new(out)) } else {
                    eprintln!("symrust: solver model does not satisfy the query"); Ans::Unknown
                }
            } else if r == -1 { Ans::Unsat } else { Ans::Unknown };
            if used != self.solver { Z3_solver_pop(self.ctx, used, 1) }
            Z3_solver_pop(self.ctx, self.solver, 1);
            ans
        };
        let ans = if Z3ERR.load(Relaxed) != errs { Ans::Unknown } else { ans };
        let dt = t0.elapsed().as_nanos() as u64;
        STATS.queries.fetch_add(1, Relaxed);
        STATS.nanos.fetch_add(dt, Relaxed);
        STATS.max_nanos.fetch_max(dt, Relaxed);
        match &ans { Ans::Sat(_) => &STATS.sat, Ans::Unsat => &STATS.unsat, Ans::Unknown => &STATS.unknown }.fetch_add(1, Relaxed);
        sh.lock().unwrap().insert(key, ans.clone());
        ans
    }

    /// Constraints of `pc` transitively sharing variables with `e`.
    pub fn slice(pc: &[E], e: &E) -> Vec<E> {
        let mut need: std::collections::HashSet<u32> = e.vars.iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if !used[i] && c.vars.iter().any(|v| need.contains(v)) {
                    used[i] = true; ch = true;
                    for v in c.vars.iter() { need.insert(*v); }
                    out.push(c.clone());
                }
            }
            if !ch { return out }
        }
    }
    /// Is pc && e satisfiable?  pc is known satisfiable.
    pub fn may(&mut self, pc: &[E], e: &E) -> Ans {
        if e.is_true() { return Ans::Sat(Arc::new(vec![])) }
        if e.is_false() { return Ans::Unsat }
        let mut s = Self::slice(pc, e);
        s.push(e.clone());
        self.check(&s)
    }
}
