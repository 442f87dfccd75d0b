//! Path-wise symbolic interpreter.
use crate::expr::{self, cst, Cmp, Ev, Op, E};
use crate::ir::*;
use crate::mem::{Mem, Obj, B};
use crate::posix::Os;
use crate::solver::{Ans, Cache, Solver, STATS};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum Dec { B(bool), V(u128) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FKind { Normal, VpRun, Drop, ParRoot }

#[derive(Clone)]
pub struct Frame { pub body: Arc<Body>, pub regs: Vec<V>, pub bb: u32, pub ip: u32, pub stack: u32, pub dynalloc: Vec<u32>, pub kind: FKind, pub save: Option<Arc<RunSave>> }

/// What vp_run remembers to rebuild the process image after a crash.
pub struct RunSave { pub ov: BTreeMap<u32, Arc<Obj>>, pub nfds: usize }

#[derive(Clone)]
pub struct VarInfo { pub w: u32, pub tag: Arc<str> }

#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub done: bool, pub rc: u32 }
#[derive(Clone)]
pub struct Par { pub threads: Vec<Thread>, pub cur: usize, pub switches_left: u32, pub preempt: bool }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub os: Arc<Os>,
    pub pc: Vec<E>,
    pub model: Arc<Vec<u128>>,
    pub vars: Vec<VarInfo>,
    pub forced: VecDeque<Dec>,
    pub log: Vec<Dec>,
    pub mark_pc: usize,
    pub mark_vars: usize,
    pub mark_os: Option<Arc<Os>>,
    pub steps: u64,
    pub known: Option<Arc<str>>,
    pub notes: Vec<(String, Vec<B>)>,
    pub tid: u32,
    pub tls: BTreeMap<(u32, u32), u32>,
    pub par: Option<Par>,
    pub depth: u32,
}

#[derive(Debug)]
pub enum Stop { Done, Drop, Err(String) }
pub type R<T> = Result<T, Stop>;
pub fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

pub enum Flow { Next, Jump(u32), Stay }

pub struct Violation { pub msg: String, pub vars: Vec<(String, u32, u128)>, pub notes: Vec<(String, Vec<u8>)>, pub trace: Vec<String>, pub known: Option<String>, pub os_trace: Vec<String> }

pub struct Cfg { pub entry: String, pub threads: usize, pub max_steps: u64, pub timeout_s: f64, pub max_violations: usize, pub solver_ms: u32, pub max_paths: u64, pub verbose: bool, pub hash_const: bool, pub covered: Vec<String>, pub trace_fns: bool, pub dump: Option<std::path::PathBuf> , pub samples: usize}

#[derive(Default)]
pub struct Results {
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub known: BTreeMap<String, Violation>,
    pub reach: BTreeMap<String, u64>,
    pub samples: Vec<Violation>,
}
pub struct Shared {
    pub q: Mutex<(Vec<State>, usize, bool)>, // states, busy workers, stop
    pub cv: Condvar,
    pub res: Mutex<Results>,
    pub paths: AtomicU64, pub dropped: AtomicU64, pub forks: AtomicU64, pub steps: AtomicU64, pub checks: AtomicU64, pub checks_sym: AtomicU64, pub first_violation: AtomicU64,
    pub stop: AtomicBool,
    pub covered: Vec<AtomicBool>,
    pub started: std::time::Instant,
    pub maxq: AtomicU64,
    pub transitions: AtomicU64,
}

pub struct W<'a> {
    pub m: &'a Module,
    pub cfg: &'a Cfg,
    pub sh: &'a Shared,
    pub solver: Solver,
    pub kinds: Arc<Vec<FnKind>>,
    pub tysz: HashMap<TyId, (u64, u64)>,
    pub types: Types2,
}
/// Immutable snapshot of the type table, refreshed when the lazily parsed bodies add types.
pub struct Types2 { pub v: Vec<Ty>, pub sz: Vec<u32>, pub offs: Vec<Vec<u32>> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FnKind { Body, Ext, Panic, HashOne, NopRet, Stub(u8) }

pub fn to_e(v: &V, w: u32) -> E { match v { V::C(c) => cst(*c, w), V::S(e) => e.clone(), V::A(_) => panic!("aggregate as scalar") } }
pub fn from_e(e: E) -> V { match e.c() { Some(c) => V::C(c), None => V::S(e) } }

impl State {
    pub fn new_var(&mut self, w: u32, tag: &str) -> E {
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { w, tag: Arc::from(tag) });
        // value 0 in the current model, except where an instruction is executed again with the
        // decisions, and the model, of another path
        let again = !self.forced.is_empty() && self.model.len() > i as usize;
        if !again {
            let m = Arc::make_mut(&mut self.model);
            if m.len() <= i as usize { m.resize(i as usize + 1, 0) }
            m[i as usize] = 0;
        }
        expr::var(i, w)
    }
    fn assume(&mut self, e: &E) {
        if e.is_true() { return }
        if let expr::K::Bin(Op::And, a, b) = &e.k { if e.w == 1 { self.assume(a); self.assume(b); return } }
        if self.pc.iter().any(|x| expr::same(x, e)) { return }
        self.pc.push(e.clone());
    }
    pub fn merge_model(&self, upd: &[(u32, u128)]) -> Arc<Vec<u128>> {
        let mut m = (*self.model).clone();
        for (i, v) in upd { if m.len() <= *i as usize { m.resize(*i as usize + 1, 0) } m[*i as usize] = *v }
        Arc::new(m)
    }
    pub fn backtrace(&self, m: &Module) -> Vec<String> {
        self.frames.iter().rev().take(60).map(|f| m.funcs[f.body.id as usize].pretty.to_string()).collect()
    }
}

impl<'a> W<'a> {
    pub fn refresh_types(&mut self) {
        let t = self.m.types.read().unwrap_or_else(|e| e.into_inner());
        for i in self.types.v.len()..t.v.len() {
            self.types.v.push(t.v[i].clone());
            self.types.sz.push(t.size_align(i as u32).0 as u32);
            self.types.offs.push(t.field_offs(i as u32));
        }
    }
    pub fn ty(&mut self, t: TyId) -> &Ty { if t as usize >= self.types.v.len() { self.refresh_types() } &self.types.v[t as usize] }
    pub fn size(&mut self, t: TyId) -> usize { if t as usize >= self.types.v.len() { self.refresh_types() } self.types.sz[t as usize] as usize }

    // ---------- decisions ----------
    fn spawn(&mut self, st: &State, dec: Dec, model: Arc<Vec<u128>>) {
        let mut c = st.clone();
        c.pc.truncate(st.mark_pc);
        c.vars.truncate(st.mark_vars);
        if let Some(o) = &st.mark_os { c.os = o.clone() }
        c.forced = st.log.iter().cloned().chain(std::iter::once(dec)).collect();
        c.log.clear();
        c.model = model;
        self.sh.forks.fetch_add(1, Relaxed);
        let mut q = self.sh.q.lock().unwrap();
        q.0.push(c);
        let n = q.0.len() as u64;
        drop(q);
        self.sh.maxq.fetch_max(n, Relaxed);
        self.sh.cv.notify_one();
    }
    pub fn decide(&mut self, st: &mut State, c: &E) -> R<bool> {
        if let Some(k) = c.c() { return Ok(k == 1) }
        if let Some(d) = st.forced.pop_front() {
            let Dec::B(b) = d else { return err("internal: decision replay mismatch") };
            let e = if b { c.clone() } else { expr::not(c) };
            st.assume(&e);
            st.log.push(Dec::B(b));
            return Ok(b);
        }
        let mv = expr::eval(c, &st.model) == 1;
        STATS.model_hits.fetch_add(1, Relaxed);
        let other = if mv { expr::not(c) } else { c.clone() };
        match self.solver.may(&st.pc, &other) {
            Ans::Unsat => {}
            Ans::Unknown => return err("solver: unknown"),
            Ans::Sat(u) => {
                let m = st.merge_model(&u);
                self.spawn(st, Dec::B(!mv), m);
                let e = if mv { c.clone() } else { expr::not(c) };
                st.assume(&e);
            }
        }
        st.log.push(Dec::B(mv));
        Ok(mv)
    }
    /// Does the path imply c?  No fork.
    pub fn must(&mut self, st: &State, c: &E) -> R<bool> {
        if let Some(k) = c.c() { return Ok(k == 1) }
        if expr::eval(c, &st.model) == 0 { return Ok(false) }
        match self.solver.may(&st.pc, &expr::not(c)) { Ans::Unsat => Ok(true), Ans::Sat(_) => Ok(false), Ans::Unknown => err("solver: unknown") }
    }
    /// All feasible values (forks one path per value).
    pub fn concretize(&mut self, st: &mut State, e: &E, cap: usize, what: &str) -> R<u128> {
        if let Some(k) = e.c() { return Ok(k) }
        if let Some(d) = st.forced.pop_front() {
            let Dec::V(v) = d else { return err("internal: decision replay mismatch") };
            st.assume(&expr::eq(e, &cst(v, e.w)));
            st.log.push(Dec::V(v));
            return Ok(v);
        }
        let v0 = expr::eval(e, &st.model);
        let mut vals: Vec<(u128, Arc<Vec<u128>>)> = vec![];
        let mut seen = vec![v0];
        loop {
            let mut q = expr::tru();
            for v in &seen { q = expr::and(&q, &expr::not(&expr::eq(e, &cst(*v, e.w)))) }
            match self.solver.may(&st.pc, &q) {
                Ans::Unsat => break,
                Ans::Unknown => return err("solver: unknown"),
                Ans::Sat(u) => {
                    let m = st.merge_model(&u);
                    let v = expr::eval(e, &m);
                    if seen.contains(&v) { return err("internal: concretize") }
                    seen.push(v);
                    vals.push((v, m));
                    if seen.len() > cap { return err(format!("concretize cap: {} {}", what, st.backtrace(self.m).into_iter().take(6).collect::<Vec<_>>().join(" < "))) }
                }
            }
        }
        for (v, m) in vals { self.spawn(st, Dec::V(v), m) }
        st.assume(&expr::eq(e, &cst(v0, e.w)));
        st.log.push(Dec::V(v0));
        Ok(v0)
    }
    pub fn assume(&mut self, st: &mut State, c: &E) -> R<()> {
        if c.is_true() { return Ok(()) }
        if c.is_false() { return Err(Stop::Drop) }
        if expr::eval(c, &st.model) != 1 {
            match self.solver.may(&st.pc, c) {
                Ans::Unsat => return Err(Stop::Drop),
                Ans::Unknown => return err("solver: unknown"),
                Ans::Sat(u) => { st.model = st.merge_model(&u) }
            }
        }
        st.assume(c);
        Ok(())
    }
    /// A free environment choice 0..n, as a symbolic variable that is split here.
    pub fn choose(&mut self, st: &mut State, n: u128, tag: &str) -> R<u128> {
        if n <= 1 { return Ok(0) }
        let v = st.new_var(32, tag);
        let c = expr::cmp(Cmp::Ult, &v, &cst(n, 32));
        st.assume(&c);
        self.concretize(st, &v, 4096, tag)
    }

    // ---------- memory ----------
    pub fn obj(&self, st: &State, id: u32) -> R<Arc<Obj>> {
        if id >= st.mem.base {
            match st.mem.heap.get((id - st.mem.base) as usize) { Some(Some(o)) => Ok(o.clone()), _ => err(format!("memory: use of dead object {}", id)) }
        } else if id >= self.m.gbase() {
            if let Some(o) = st.mem.ov.get(&id) { return Ok(o.clone()) }
            Ok(self.m.global_init(id - self.m.gbase()))
        } else { err(format!("memory: bad pointer {:#x}", id)) }
    }
    fn obj_mut<'b>(&self, st: &'b mut State, id: u32) -> R<&'b mut Obj> {
        if id >= st.mem.base {
            match st.mem.heap.get_mut((id - st.mem.base) as usize) { Some(Some(o)) => Ok(Arc::make_mut(o)), _ => err(format!("memory: write to dead object {}", id)) }
        } else if id >= self.m.gbase() {
            let g = id - self.m.gbase();
            if !st.mem.ov.contains_key(&id) {
                let o = self.m.global_init(g);
                if o.ro { return err(format!("memory: write to constant {}", self.m.globals[g as usize].name)) }
                st.mem.ov.insert(id, o);
            }
            Ok(Arc::make_mut(st.mem.ov.get_mut(&id).unwrap()))
        } else { err(format!("memory: write through bad pointer (object {})", id)) }
    }
    fn oob(&self, st: &State, a: u128, n: usize, w: bool) -> Stop {
        Stop::Err(format!("memory: {} out of bounds {:#x}+{} in {}", if w { "write" } else { "read" }, a, n, st.backtrace(self.m).into_iter().take(4).collect::<Vec<_>>().join(" < ")))
    }
    pub fn rd(&mut self, st: &State, a: u128, n: usize) -> R<V> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff) as usize;
        if id >= st.mem.base {
            if let Some(Some(o)) = st.mem.heap.get((id - st.mem.base) as usize) {
                if off + n > o.data.len() { return Err(self.oob(st, a, n, false)) }
                return Ok(o.read(off, n));
            }
        }
        let o = match self.obj(st, id) { Ok(o) => o, Err(_) => return Err(self.oob(st, a, n, false)) };
        if off + n > o.data.len() { return Err(self.oob(st, a, n, false)) }
        Ok(o.read(off, n))
    }
    pub fn wr(&mut self, st: &mut State, a: u128, n: usize, v: &V) -> R<()> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff) as usize;
        match self.obj_mut(st, id) {
            Ok(o) => { if off + n > o.data.len() { return Err(self.oob(st, a, n, true)) } o.write(off, n, v); Ok(()) }
            Err(Stop::Err(s)) => err(format!("{} in {}", s, st.backtrace(self.m).into_iter().take(4).collect::<Vec<_>>().join(" < "))),
            Err(s) => Err(s),
        }
    }
    pub fn rd_bytes(&mut self, st: &State, a: u128, n: usize) -> R<Vec<B>> {
        if n == 0 { return Ok(vec![]) }
        let o = self.obj(st, (a >> 32) as u32)?;
        let off = (a & 0xffff_ffff) as usize;
        if off + n > o.data.len() { return Err(self.oob(st, a, n, false)) }
        Ok((0..n).map(|i| o.byte(off + i)).collect())
    }
    pub fn wr_bytes(&mut self, st: &mut State, a: u128, b: &[B]) -> R<()> {
        if b.is_empty() { return Ok(()) }
        let off = (a & 0xffff_ffff) as usize;
        let len = { let o = self.obj_mut(st, (a >> 32) as u32)?; let l = o.data.len(); if off + b.len() <= l { for (i, x) in b.iter().enumerate() { o.set_byte(off + i, x.clone()) } } l };
        if off + b.len() > len { return Err(self.oob(st, a, b.len(), true)) }
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, d: u128, s: u128, n: usize) -> R<()> {
        if n == 0 { return Ok(()) }
        let so = match self.obj(st, (s >> 32) as u32) { Ok(o) => o, Err(_) => return Err(self.oob(st, s, n, false)) };
        let soff = (s & 0xffff_ffff) as usize;
        let doff = (d & 0xffff_ffff) as usize;
        if soff + n > so.data.len() { return Err(self.oob(st, s, n, false)) }
        if (s >> 32) == (d >> 32) {
            let tmp = Obj { data: so.data[soff..soff + n].to_vec(), sym: so.sym.as_ref().map(|m| Box::new(m.range(soff as u32..(soff + n) as u32).map(|(k, e)| (*k - soff as u32, e.clone())).collect())), ro: false, live: true };
            drop(so);
            let o = self.obj_mut(st, (d >> 32) as u32)?;
            if doff + n > o.data.len() { return Err(self.oob(st, d, n, true)) }
            o.copy_from(doff, &tmp, 0, n);
            return Ok(());
        }
        let o = self.obj_mut(st, (d >> 32) as u32)?;
        if doff + n > o.data.len() { return Err(self.oob(st, d, n, true)) }
        o.copy_from(doff, &so, soff, n);
        Ok(())
    }
    /// Read a typed value.
    fn load(&mut self, st: &mut State, a: u128, ty: TyId) -> R<V> {
        match self.ty(ty).clone() {
            Ty::Int(w) => {
                if w > 128 { return err("load of an integer wider than 128 bits") }
                let n = ((w + 7) / 8) as usize;
                let v = self.rd(st, a, n)?;
                Ok(if w % 8 != 0 { match v { V::C(c) => V::C(c & expr::mask(w)), V::S(e) => from_e(expr::extract(&e, 0, w)), v => v } } else { v })
            }
            Ty::Ptr | Ty::F64 => self.rd(st, a, 8),
            Ty::F32 => self.rd(st, a, 4),
            Ty::Arr(n, e) => { let s = self.size(e); let mut o = vec![]; for i in 0..n { o.push(self.load(st, a + (i as u128) * s as u128, e)?) } Ok(V::A(o.into())) }
            Ty::Vec(n, e) => {
                if matches!(self.ty(e), Ty::Int(1)) {
                    let v = self.rd(st, a, (n as usize + 7) / 8)?;
                    let e = to_e(&v, ((n + 7) / 8) * 8);
                    return Ok(V::A((0..n).map(|i| from_e(expr::extract(&e, i, 1))).collect::<Vec<_>>().into()));
                }
                let s = self.size(e); let mut o = vec![]; for i in 0..n { o.push(self.load(st, a + (i as u128) * s as u128, e)?) } Ok(V::A(o.into()))
            }
            Ty::Struct(f, _) => { let offs = self.types.offs[ty as usize].clone(); let mut o = vec![]; for (i, t) in f.iter().enumerate() { o.push(self.load(st, a + offs[i] as u128, *t)?) } Ok(V::A(o.into())) }
            t => err(format!("load of type {:?}", t)),
        }
    }
    fn store(&mut self, st: &mut State, a: u128, ty: TyId, v: &V) -> R<()> {
        match self.ty(ty).clone() {
            Ty::Int(w) if w > 128 => err("store of an integer wider than 128 bits"),
            Ty::Int(w) => self.wr(st, a, ((w + 7) / 8) as usize, v),
            Ty::Ptr | Ty::F64 => self.wr(st, a, 8, v),
            Ty::F32 => self.wr(st, a, 4, v),
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let V::A(vs) = v else { return err("store agg") };
                if matches!(self.ty(e), Ty::Int(1)) {
                    let nb = (vs.len() + 7) / 8;
                    let mut acc: Option<E> = None;
                    for x in vs.iter() { let b = to_e(x, 1); acc = Some(match acc { None => b, Some(l) => expr::concat(&b, &l) }) }
                    let e = expr::zext(&acc.unwrap(), nb as u32 * 8);
                    return self.wr(st, a, nb, &from_e(e));
                }
                let s = self.size(e);
                for (i, x) in vs.iter().enumerate() { self.store(st, a + (i * s) as u128, e, x)? }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let V::A(vs) = v else { return err("store agg") };
                let offs = self.types.offs[ty as usize].clone();
                for (i, x) in vs.iter().enumerate() { self.store(st, a + offs[i] as u128, f[i], x)? }
                Ok(())
            }
            t => err(format!("store of type {:?}", t)),
        }
    }
    /// Pointer operand to a concrete address (forks when several are feasible).
    fn ptr(&mut self, st: &mut State, v: &V, what: &str) -> R<u128> {
        match v { V::C(c) => Ok(*c), V::S(e) => { let e = e.clone(); self.concretize(st, &e, 300, what) } V::A(_) => err("aggregate pointer") }
    }
    /// Load through a symbolic address: an if-then-else over the feasible addresses when they are few and in one object.
    fn load_sym(&mut self, st: &mut State, e: &E, ty: TyId) -> R<V> {
        if e.vars.len() == 1 && !matches!(self.ty(ty), Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
            let v = e.vars[0] as usize;
            if st.vars[v].w <= 8 && st.forced.is_empty() {
                // exact: every value of the single byte variable allowed by the constraints on it alone
                let w = st.vars[v].w;
                let cs: Vec<E> = st.pc.iter().filter(|c| c.vars.len() == 1 && c.vars[0] as usize == v).cloned().collect();
                let mut m = (*st.model).clone();
                let mut addrs: BTreeMap<u128, ()> = BTreeMap::new();
                for x in 0..(1u128 << w) {
                    m[v] = x;
                    let mut ev = Ev::new();
                    if cs.iter().all(|c| ev.eval(c, &m) == 1) { addrs.insert(ev.eval(e, &m), ()); }
                }
                let addrs: Vec<u128> = addrs.into_keys().collect();
                if !addrs.is_empty() && addrs.iter().all(|a| a >> 32 == addrs[0] >> 32) {
                    let bits = (self.size(ty) * 8) as u32;
                    let bits = match self.ty(ty) { Ty::Int(w) => *w, _ => bits };
                    let mut acc: Option<E> = None;
                    let mut groups: Vec<(E, Vec<u128>)> = vec![];
                    for a in &addrs {
                        let val = to_e(&self.load(st, *a, ty)?, bits);
                        if let Some(g) = groups.iter_mut().find(|g| expr::same(&g.0, &val)) { g.1.push(*a) } else { groups.push((val, vec![*a])) }
                    }
                    groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                    for (val, as_) in groups {
                        acc = Some(match acc {
                            None => val,
                            Some(r) => { let mut c = expr::fls(); for a in as_ { c = expr::or(&c, &expr::eq(e, &cst(a, 64))) } expr::ite(&c, &val, &r) }
                        });
                    }
                    return Ok(from_e(acc.unwrap()));
                }
            }
        }
        let a = self.concretize(st, e, 300, "load address")?;
        self.load(st, a, ty)
    }

    // ---------- frames ----------
    pub fn push_frame(&mut self, st: &mut State, f: u32, args: &[V], kind: FKind) -> R<()> {
        let body = self.m.body(f);
        self.sh.covered[f as usize].store(true, Relaxed);
        if st.frames.len() > 4000 { return err("call depth") }
        let stack = if body.stack > 0 { st.mem.alloc(body.stack as usize) } else { 0 };
        let mut regs = vec![V::C(0); body.nregs as usize];
        for (i, p) in body.params.iter().enumerate() { if let Some(a) = args.get(i) { regs[*p as usize] = a.clone() } }
        if self.cfg.trace_fns { eprintln!("{:indent$}> {}", "", self.m.funcs[f as usize].pretty, indent = st.frames.len()) }
        st.frames.push(Frame { body, regs, bb: 0, ip: 0, stack, dynalloc: vec![], kind, save: None });
        Ok(())
    }
    fn drop_frame(&mut self, st: &mut State) -> Frame {
        let f = st.frames.pop().unwrap();
        if f.stack != 0 { st.mem.release(f.stack) }
        for d in &f.dynalloc { st.mem.release(*d) }
        f
    }
    /// Return `v` into the caller's pending call instruction.
    pub fn do_return(&mut self, st: &mut State, v: Option<V>) -> R<Flow> {
        let f = self.drop_frame(st);
        match f.kind {
            FKind::Normal => {}
            FKind::VpRun => return self.finish_call(st, Some(V::C(0))),
            FKind::Drop => return self.finish_call(st, None),
            FKind::ParRoot => return self.par_thread_end(st, 0),
        }
        if st.frames.is_empty() { return Err(Stop::Done) }
        self.finish_call(st, v)
    }
    fn finish_call(&mut self, st: &mut State, v: Option<V>) -> R<Flow> {
        if st.frames.is_empty() { return Err(Stop::Done) }
        let fr = st.frames.last_mut().unwrap();
        let body = fr.body.clone();
        let I::Call { d, normal, .. } = &body.blocks[fr.bb as usize].insts[fr.ip as usize] else { return err("internal: return to non-call") };
        if *d != NONE { if let Some(v) = v { fr.regs[*d as usize] = v } else { return err("internal: missing return value") } }
        if *normal != NONE { self.jump(st, *normal)?; } else { fr.ip += 1 }
        Ok(Flow::Stay)
    }
    /// Process ends (crash, panic, exit) inside vp_run: unwind to its marker.
    pub fn unwind_run(&mut self, st: &mut State, code: u32) -> R<Flow> {
        loop {
            if st.frames.is_empty() { return err(format!("process ended with code {} outside vp_run", code)) }
            let f = self.drop_frame(st);
            if f.kind == FKind::ParRoot { return self.par_thread_end(st, code) }
            if f.kind == FKind::VpRun {
                if let Some(s) = &f.save { crate::posix::end_process(Arc::make_mut(&mut st.os), s.nfds); st.mem.ov = s.ov.clone(); }
                return self.finish_call(st, Some(V::C(code as u128)));
            }
        }
    }
    fn par_thread_end(&mut self, st: &mut State, code: u32) -> R<Flow> {
        crate::posix::par_end(self, st, code)
    }
    pub fn ret_call(&mut self, st: &mut State, v: Option<V>) -> R<Flow> { self.finish_call(st, v) }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let Some((_, o)) = p.inc.iter().find(|x| x.0 == from) else { return err("phi") };
                let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                fr.regs[p.d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for p in &b.phis {
                    let Some((_, o)) = p.inc.iter().find(|x| x.0 == from) else { return err("phi") };
                    vals.push(match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() });
                }
                for (p, v) in b.phis.iter().zip(vals) { fr.regs[p.d as usize] = v }
            }
        }
        fr.bb = to; fr.ip = 0;
        Ok(())
    }

    // ---------- main loop ----------
    pub fn run(&mut self, st: &mut State) -> Stop {
        let mut cnt = 0u64;
        let stop = loop {
            cnt += 1;
            st.steps += 1;
            if cnt & 0xfff == 0 {
                if st.steps > self.cfg.max_steps { break Stop::Err(format!("step limit in {}", st.backtrace(self.m).into_iter().take(5).collect::<Vec<_>>().join(" < "))) }
                // enough is known a while after the first violation
                if self.sh.started.elapsed().as_secs() > self.sh.first_violation.load(Relaxed).saturating_add(45) { self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); }
                if self.sh.stop.load(Relaxed) { break Stop::Err("stopped".into()) }
                if self.sh.started.elapsed().as_secs_f64() > self.cfg.timeout_s { break Stop::Err("time limit".into()) }
            }
            let fr = match st.frames.last() { Some(f) => f, None => break Stop::Done };
            let body: *const Body = &*fr.body;
            let inst: &I = unsafe { &(&(*body).blocks)[fr.bb as usize].insts[fr.ip as usize] };
            let keep = if matches!(inst, I::Call { .. }) { Some(fr.body.clone()) } else { None };
            st.mark_pc = st.pc.len();
            st.mark_vars = st.vars.len();
            let r = self.exec(st, inst);
            drop(keep);
            match r {
                Ok(Flow::Next) => { st.frames.last_mut().unwrap().ip += 1 }
                Ok(Flow::Jump(b)) => { if let Err(s) = self.jump(st, b) { break s } }
                Ok(Flow::Stay) => {}
                Err(s) => break s,
            }
            if !st.forced.is_empty() { break Stop::Err("internal: unconsumed decisions".into()) }
            if !st.log.is_empty() { st.log.clear() }
        };
        self.sh.steps.fetch_add(cnt, Relaxed);
        stop
    }

    #[inline]
    fn get<'b>(&self, st: &'b State, o: &'b Opd) -> &'b V {
        match o { Opd::R(r) => &st.frames[st.frames.len() - 1].regs[*r as usize], Opd::K(v) => v }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) { if d != NONE { let n = st.frames.len() - 1; st.frames[n].regs[d as usize] = v } }

    pub fn bin_v(&mut self, op: Op, a: &V, b: &V, w: u32) -> R<V> {
        if w > 128 { return wide_bin(op, &wide(a)?, &wide(b)?, w) }
        Ok(match (a, b) {
            (V::C(x), V::C(y)) => {
                if w <= 64 {
                    let (p, q) = (*x as u64, *y as u64);
                    let m = expr::mask(w) as u64;
                    match op {
                        Op::Add => return Ok(V::C((p.wrapping_add(q) & m) as u128)),
                        Op::Sub => return Ok(V::C((p.wrapping_sub(q) & m) as u128)),
                        Op::And => return Ok(V::C((p & q) as u128)),
                        Op::Or => return Ok(V::C((p | q) as u128)),
                        Op::Xor => return Ok(V::C((p ^ q) as u128)),
                        Op::Mul => return Ok(V::C((p.wrapping_mul(q) & m) as u128)),
                        _ => {}
                    }
                }
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *y == 0 { return err("division by zero") }
                V::C(expr::bin_c(op, *x, *y, w))
            }
            (V::A(x), V::A(y)) => { let mut o = vec![]; for (p, q) in x.iter().zip(y.iter()) { o.push(self.bin_v(op, p, q, w)?) } V::A(o.into()) }
            _ => from_e(expr::bin(op, &to_e(a, w), &to_e(b, w))),
        })
    }
    pub fn icmp_v(&mut self, p: Pred, a: &V, b: &V, w: u32) -> R<V> {
        let (c, sw, ng) = p.parts();
        if w > 128 {
            let (x, y) = (wide(a)?, wide(b)?);
            let (x, y) = if sw { (y, x) } else { (x, y) };
            let (x, y) = ((x[1], x[0]), (y[1], y[0]));
            let r = match c { Cmp::Eq => x == y, Cmp::Ult => x < y, Cmp::Ule => x <= y, _ => return err("signed comparison wider than 128 bits") };
            return Ok(V::C((r ^ ng) as u128));
        }
        Ok(match (a, b) {
            (V::C(x), V::C(y)) => { let r = if sw { expr::cmp_c(c, *y, *x, w) } else { expr::cmp_c(c, *x, *y, w) }; V::C((r ^ ng) as u128) }
            (V::A(x), V::A(y)) => { let mut o = vec![]; for (p2, q) in x.iter().zip(y.iter()) { o.push(self.icmp_v(p, p2, q, w)?) } V::A(o.into()) }
            _ => { let (x, y) = (to_e(a, w), to_e(b, w)); let r = if sw { expr::cmp(c, &y, &x) } else { expr::cmp(c, &x, &y) }; from_e(if ng { expr::not(&r) } else { r }) }
        })
    }
    fn cast_v(&mut self, c: Cast, v: &V, from: TyId, to: TyId) -> R<V> {
        let (ft, tt) = (self.ty(from).clone(), self.ty(to).clone());
        // vectors
        if c == Cast::Bit {
            let flat = |w: &mut W, t: &Ty| -> Option<(u32, u32)> { match t { Ty::Vec(n, e) => { let b = match w.ty(*e) { Ty::Int(b) => *b, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => return None }; Some((*n, b)) } _ => None } };
            let e = match v {
                V::A(vs) => {
                    let (_, b) = match flat(self, &ft) { Some(x) => x, None => return err("bitcast") };
                    let mut acc: Option<E> = None;
                    for x in vs.iter() { let e = to_e(x, b); acc = Some(match acc { None => e, Some(a) => { if a.w + e.w > 128 { return err("wide bitcast") } expr::concat(&e, &a) } }) }
                    acc.unwrap()
                }
                v => { let w = match ft { Ty::Int(w) => w, Ty::F32 => 32, _ => 64 }; to_e(v, w) }
            };
            return Ok(match flat(self, &tt) { Some((n, b)) => V::A((0..n).map(|i| from_e(expr::extract(&e, i * b, b))).collect::<Vec<_>>().into()), None => from_e(e) });
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (&ft, &tt) {
            let V::A(vs) = v else { return err("vec cast") };
            let mut o = vec![]; for x in vs.iter() { o.push(self.cast_v(c, x, *fe, *te)?) }
            return Ok(V::A(o.into()));
        }
        let bits = |t: &Ty| match t { Ty::Int(w) => *w, Ty::F32 => 32, _ => 64 };
        let (fw, tw) = (bits(&ft), bits(&tt));
        if fw > 256 || tw > 256 { return err("integer wider than 256 bits") }
        if tw > 128 || fw > 128 {
            let x = if fw > 128 { wide(v)? } else { match (v, c) { (V::C(x), Cast::Zext) => [*x, 0], (V::C(x), Cast::Sext) => { let y = expr::sx(*x, fw); [y as u128, if y < 0 { expr::mask(tw - 128) } else { 0 }] } _ => return err("cast to an integer wider than 128 bits") } };
            return Ok(match c {
                _ if tw > 128 && fw <= 128 => V::A(vec![V::C(x[0]), V::C(x[1])].into()),
                Cast::Trunc if tw <= 128 => V::C(x[0] & expr::mask(tw)),
                _ => return err("cast of an integer wider than 128 bits"),
            });
        }
        Ok(match c {
            Cast::Trunc | Cast::Zext | Cast::PtrToInt | Cast::IntToPtr => match v {
                V::C(x) => V::C(x & expr::mask(tw)),
                V::S(e) => from_e(if tw < fw { expr::extract(e, 0, tw) } else { expr::zext(e, tw) }),
                _ => return err("cast agg"),
            },
            Cast::Sext => match v { V::C(x) => V::C(expr::sx(*x, fw) as u128 & expr::mask(tw)), V::S(e) => from_e(expr::sext(e, tw)), _ => return err("cast agg") },
            _ => {
                let V::C(x) = v else { return err("symbolic floating point") };
                let f = |x: u128, t: &Ty| -> f64 { if matches!(t, Ty::F32) { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } };
                let o = |y: f64, t: &Ty| -> u128 { if matches!(t, Ty::F32) { (y as f32).to_bits() as u128 } else { y.to_bits() as u128 } };
                V::C(match c {
                    Cast::FpTrunc | Cast::FpExt => o(f(*x, &ft), &tt),
                    Cast::FpToUi => (f(*x, &ft) as u128) & expr::mask(tw),
                    Cast::FpToSi => (f(*x, &ft) as i128 as u128) & expr::mask(tw),
                    Cast::UiToFp => o(*x as f64, &tt),
                    Cast::SiToFp => o(expr::sx(*x, fw) as f64, &tt),
                    _ => unreachable!(),
                })
            }
        })
    }

    fn exec(&mut self, st: &mut State, inst: &I) -> R<Flow> {
        match inst {
            I::Bin { op, w, d, a, b, .. } => {
                let r = { let (x, y) = (self.get(st, a), self.get(st, b)); if let (V::C(_), V::C(_)) = (x, y) { let (x, y) = (x.clone(), y.clone()); self.bin_v(*op, &x, &y, *w)? } else { let (x, y) = (x.clone(), y.clone()); self.bin_v(*op, &x, &y, *w)? } };
                self.set(st, *d, r);
            }
            I::ICmp { p, w, d, a, b, .. } => {
                let (x, y) = (self.get(st, a).clone(), self.get(st, b).clone());
                let r = self.icmp_v(*p, &x, &y, *w)?;
                self.set(st, *d, r);
            }
            I::Load { ty, d, p } => {
                let v = match self.get(st, p).clone() { V::C(a) => self.load(st, a, *ty)?, V::S(e) => self.load_sym(st, &e, *ty)?, _ => return err("load ptr") };
                self.set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let pv = self.get(st, p).clone();
                let a = self.ptr(st, &pv, "store address")?;
                let v = self.get(st, v).clone();
                self.store(st, a, *ty, &v)?;
            }
            I::Gep { d, base, off, idx } => {
                let b = self.get(st, base).clone();
                let mut ok = true;
                let mut acc = *off as u64;
                for (o, w, s) in idx { match self.get(st, o) { V::C(c) => acc = acc.wrapping_add((expr::sx(*c, *w) as i64).wrapping_mul(*s) as u64), _ => { ok = false; break } } }
                let r = if let (true, V::C(c)) = (ok, &b) { V::C((*c as u64).wrapping_add(acc) as u128) } else {
                    if matches!(b, V::A(_)) { return err("vector gep") }
                    let mut e = to_e(&b, 64);
                    let mut k = *off as u64;
                    for (o, w, s) in idx {
                        match self.get(st, o) {
                            V::C(c) => k = k.wrapping_add((expr::sx(*c, *w) as i64).wrapping_mul(*s) as u64),
                            V::S(x) => { let x64 = if *w < 64 { expr::sext(x, 64) } else { x.clone() }; e = expr::bin(Op::Add, &e, &expr::bin(Op::Mul, &x64, &cst(*s as u64 as u128, 64))) }
                            _ => return err("vector gep"),
                        }
                    }
                    from_e(expr::bin(Op::Add, &e, &cst(k as u128, 64)))
                };
                self.set(st, *d, r);
            }
            I::Br(b) => return Ok(Flow::Jump(*b)),
            I::CondBr { c, t, f } => {
                let b = match self.get(st, c) { V::C(x) => *x & 1 == 1, V::S(e) => { let e = e.clone(); self.decide(st, &e)? } _ => return err("br") };
                return Ok(Flow::Jump(if b { *t } else { *f }));
            }
            I::Call { d, callee, args, ret, .. } => return self.call(st, *d, callee, args, *ret),
            I::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.get(st, o).clone());
                return self.do_return(st, v);
            }
            I::Alloca { d, off } => {
                let s = st.frames.last().unwrap().stack;
                self.set(st, *d, V::C(addr(s, *off as u64)));
            }
            I::AllocaDyn { d, elem, n, .. } => {
                let nv = self.get(st, n).clone();
                let n = self.ptr(st, &nv, "alloca size")?;
                let id = st.mem.alloc((n as usize) * *elem as usize);
                st.frames.last_mut().unwrap().dynalloc.push(id);
                self.set(st, *d, V::C(addr(id, 0)));
            }
            I::Select { ty, d, c, a, b, .. } => {
                let r = match self.get(st, c).clone() {
                    V::C(x) => if x & 1 == 1 { self.get(st, a).clone() } else { self.get(st, b).clone() },
                    V::S(e) => {
                        let (x, y) = (self.get(st, a).clone(), self.get(st, b).clone());
                        let w = match self.ty(*ty) { Ty::Int(w) => Some(*w), Ty::F64 => Some(64), Ty::F32 => Some(32), _ => None };
                        match w {
                            Some(w) => from_e(expr::ite(&e, &to_e(&x, w), &to_e(&y, w))),
                            None => if self.decide(st, &e)? { x } else { y },
                        }
                    }
                    V::A(cs) => {
                        let (V::A(x), V::A(y)) = (self.get(st, a).clone(), self.get(st, b).clone()) else { return err("vec select") };
                        let et = match self.ty(*ty) { Ty::Vec(_, e) => *e, _ => return err("vec select") };
                        let w = match self.ty(et) { Ty::Int(w) => *w, _ => 64 };
                        let mut o = vec![];
                        for i in 0..cs.len() { o.push(match &cs[i] { V::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, V::S(e) => from_e(expr::ite(e, &to_e(&x[i], w), &to_e(&y[i], w))), _ => return err("vec select") }) }
                        V::A(o.into())
                    }
                };
                self.set(st, *d, r);
            }
            I::Cast { c, from, to, d, a } => {
                let v = self.get(st, a).clone();
                let r = self.cast_v(*c, &v, *from, *to)?;
                self.set(st, *d, r);
            }
            I::Extract { d, a, path } => {
                let mut v = self.get(st, a).clone();
                for p in path { let V::A(x) = &v else { return err("extractvalue") }; let y = x[*p as usize].clone(); v = y }
                self.set(st, *d, v);
            }
            I::Insert { d, a, b, path, .. } => {
                fn ins(v: &V, path: &[u32], x: &V) -> V {
                    if path.is_empty() { return x.clone() }
                    let V::A(vs) = v else { panic!("insertvalue") };
                    let mut o: Vec<V> = vs.to_vec();
                    o[path[0] as usize] = ins(&o[path[0] as usize], &path[1..], x);
                    V::A(o.into())
                }
                let (x, y) = (self.get(st, a).clone(), self.get(st, b).clone());
                self.set(st, *d, ins(&x, path, &y));
            }
            I::Switch { w, v, def, cases } => {
                match self.get(st, v).clone() {
                    V::C(x) => { for (k, l) in cases { if *k == x { return Ok(Flow::Jump(*l)) } } return Ok(Flow::Jump(*def)) }
                    V::S(e) => {
                        for (k, l) in cases { let c = expr::eq(&e, &cst(*k, *w)); if self.decide(st, &c)? { return Ok(Flow::Jump(*l)) } }
                        return Ok(Flow::Jump(*def));
                    }
                    _ => return err("switch"),
                }
            }
            I::Rmw { op, ty, d, p, v } => {
                let pv = self.get(st, p).clone();
                let a = self.ptr(st, &pv, "rmw address")?;
                let old = self.load(st, a, *ty)?;
                let v = self.get(st, v).clone();
                let w = match self.ty(*ty) { Ty::Int(w) => *w, _ => 64 };
                let sel = |s: &mut Self, p: Pred| -> R<V> { let c = s.icmp_v(p, &old, &v, w)?; Ok(from_e(expr::ite(&to_e(&c, 1), &to_e(&old, w), &to_e(&v, w)))) };
                let new = match op {
                    Rmw::Xchg => v.clone(), Rmw::Add => self.bin_v(Op::Add, &old, &v, w)?, Rmw::Sub => self.bin_v(Op::Sub, &old, &v, w)?,
                    Rmw::And => self.bin_v(Op::And, &old, &v, w)?, Rmw::Or => self.bin_v(Op::Or, &old, &v, w)?, Rmw::Xor => self.bin_v(Op::Xor, &old, &v, w)?,
                    Rmw::Nand => { let x = self.bin_v(Op::And, &old, &v, w)?; self.bin_v(Op::Xor, &x, &V::C(expr::mask(w)), w)? }
                    Rmw::Max => sel(self, Pred::Sgt)?, Rmw::Min => sel(self, Pred::Slt)?, Rmw::UMax => sel(self, Pred::Ugt)?, Rmw::UMin => sel(self, Pred::Ult)?,
                };
                self.store(st, a, *ty, &new)?;
                self.set(st, *d, old);
            }
            I::CmpXchg { ty, d, p, a, b } => {
                let pv = self.get(st, p).clone();
                let ad = self.ptr(st, &pv, "cmpxchg address")?;
                let old = self.load(st, ad, *ty)?;
                let (x, y) = (self.get(st, a).clone(), self.get(st, b).clone());
                let w = match self.ty(*ty) { Ty::Int(w) => *w, _ => 64 };
                let c = self.icmp_v(Pred::Eq, &old, &x, w)?;
                let ok = match c { V::C(k) => k == 1, V::S(e) => self.decide(st, &e)?, _ => return err("cmpxchg") };
                if ok { self.store(st, ad, *ty, &y)? }
                self.set(st, *d, V::A(vec![old, V::C(ok as u128)].into()));
            }
            I::Freeze { d, a } => { let v = self.get(st, a).clone(); self.set(st, *d, v) }
            I::Nop => {}
            I::ExtractEl { d, a, i } => {
                let V::A(x) = self.get(st, a).clone() else { return err("extractelement") };
                let iv = self.get(st, i).clone(); let i = self.ptr(st, &iv, "element")?;
                self.set(st, *d, x[i as usize].clone());
            }
            I::InsertEl { d, a, b, i } => {
                let V::A(x) = self.get(st, a).clone() else { return err("insertelement") };
                let iv = self.get(st, i).clone(); let i = self.ptr(st, &iv, "element")?;
                let mut o = x.to_vec(); o[i as usize] = self.get(st, b).clone();
                self.set(st, *d, V::A(o.into()));
            }
            I::Shuffle { d, a, b, mask } => {
                let (V::A(x), V::A(y)) = (self.get(st, a).clone(), self.get(st, b).clone()) else { return err("shuffle") };
                let o: Vec<V> = mask.iter().map(|m| { let m = *m as usize; if m < x.len() { x[m].clone() } else { y[(m - x.len()).min(y.len() - 1)].clone() } }).collect();
                self.set(st, *d, V::A(o.into()));
            }
            I::FBin { op, ty, d, a, b } => {
                let (V::C(x), V::C(y)) = (self.get(st, a).clone(), self.get(st, b).clone()) else { return err("symbolic floating point") };
                let r = if matches!(self.ty(*ty), Ty::F32) {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u128
                };
                self.set(st, *d, V::C(r));
            }
            I::FNeg { ty, d, a } => {
                let V::C(x) = self.get(st, a).clone() else { return err("symbolic floating point") };
                let s = if matches!(self.ty(*ty), Ty::F32) { 31 } else { 63 };
                self.set(st, *d, V::C(x ^ (1 << s)));
            }
            I::FCmp { p, ty, d, a, b } => {
                let (V::C(x), V::C(y)) = (self.get(st, a).clone(), self.get(st, b).clone()) else { return err("symbolic floating point") };
                let f32_ = matches!(self.ty(*ty), Ty::F32);
                let (x, y) = if f32_ { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(y as u64)) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => !un && x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y, "ord" => !un, "uno" => un,
                    "ueq" => un || x == y, "une" => un || x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y, "true" => true, _ => false,
                };
                self.set(st, *d, V::C(r as u128));
            }
            I::Unreachable => return err(format!("unreachable executed in {}", st.backtrace(self.m).into_iter().take(5).collect::<Vec<_>>().join(" < "))),
            I::Unsup(s) => return err(format!("unsupported instruction: {}", s)),
        }
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, d: u32, callee: &Callee, args: &[(TyId, Opd)], ret: TyId) -> R<Flow> {
        let f = match callee {
            Callee::Direct(f) => *f,
            Callee::Intrin(i) => { self.intrin(st, *i, d, args, ret)?; return Ok(Flow::Next).and_then(|f| self.advance(st, f)) }
            Callee::Asm(a) => {
                if a.is_empty() { return self.finish_call(st, Some(V::C(0))) }
                if a.contains("cpuid") { return self.finish_call(st, Some(V::A(vec![V::C(0); 4].into()))) }
                return err(format!("inline asm {}", a));
            }
            Callee::Ind(o) => {
                let v = self.get(st, o).clone();
                let a = self.ptr(st, &v, "call target")?;
                match self.m.func_at(a) { Some(f) => f, None => return err(format!("call through bad pointer {:#x}", a)) }
            }
        };
        let vals: Vec<V> = args.iter().map(|(_, o)| self.get(st, o).clone()).collect();
        self.call_fn(st, f, vals, ret)
    }
    /// Intrinsic calls never are invokes in practice; keep one place that advances.
    fn advance(&mut self, _st: &mut State, f: Flow) -> R<Flow> { Ok(f) }

    pub fn call_fn(&mut self, st: &mut State, f: u32, vals: Vec<V>, _ret: TyId) -> R<Flow> {
        match self.kinds[f as usize] {
            FnKind::Body => { self.push_frame(st, f, &vals, FKind::Normal)?; Ok(Flow::Stay) }
            FnKind::Ext => { crate::posix::ext_call(self, st, f, vals) }
            FnKind::Panic => {
                st.notes.push(("panic".into(), st.backtrace(self.m).into_iter().take(14).collect::<Vec<_>>().join(" < ").into_bytes().into_iter().map(B::C).collect()));
                if std::env::var_os("SYMRUST_PANIC").is_some() { eprintln!("panic: {} < {}", self.m.funcs[f as usize].pretty, st.backtrace(self.m).join(" < ")) }
                self.unwind_run(st, 2)
            }
            FnKind::NopRet => self.finish_call(st, Some(V::C(0))),
            FnKind::HashOne => self.finish_call(st, Some(V::C(0))),
            FnKind::Stub(k) => crate::posix::stub_call(self, st, k, f, vals),
        }
    }

    fn intrin(&mut self, st: &mut State, i: Intr, d: u32, args: &[(TyId, Opd)], ret: TyId) -> R<()> {
        let g = |s: &Self, st: &State, n: usize| -> V { s.get(st, &args[n].1).clone() };
        let w = match args.get(0) { Some((t, _)) => match self.ty(*t).clone() { Ty::Int(w) => w, Ty::Vec(_, e) => match self.ty(e) { Ty::Int(w) => *w, Ty::F32 => 32, _ => 64 }, Ty::F32 => 32, _ => 64 }, None => 0 };
        if w > 128 { return err("intrinsic on integers wider than 128 bits") }
        if let Some(V::A(_)) = args.get(0).map(|_| g(self, st, 0)) {
            if !matches!(i, Intr::VecReduce(_) | Intr::VecMm(_) | Intr::Pmovmskb | Intr::Nop) {
                // elementwise vector intrinsic
                let n = match g(self, st, 0) { V::A(x) => x.len(), _ => 0 };
                let mut out = vec![];
                for k in 0..n {
                    let el: Vec<V> = (0..args.len()).map(|j| match g(self, st, j) { V::A(x) => x[k].clone(), v => v }).collect();
                    out.push(self.intrin_scalar(i, &el, w, 0)?);
                }
                self.set(st, d, V::A(out.into()));
                return Ok(());
            }
        }
        match i {
            Intr::Nop => {}
            Intr::Memcpy | Intr::Memmove => {
                let (a, b, n) = (g(self, st, 0), g(self, st, 1), g(self, st, 2));
                let n = self.ptr(st, &n, "memcpy length")?;
                if n == 0 { return Ok(()) }
                let a = self.ptr(st, &a, "memcpy dst")?; let b = self.ptr(st, &b, "memcpy src")?;
                self.copy(st, a, b, n as usize)?;
            }
            Intr::Memset => {
                let (a, v, n) = (g(self, st, 0), g(self, st, 1), g(self, st, 2));
                let n = self.ptr(st, &n, "memset length")? as usize;
                if n == 0 { return Ok(()) }
                let a = self.ptr(st, &a, "memset dst")?;
                match v {
                    V::C(c) => {
                        let off = (a & 0xffff_ffff) as usize;
                        let len = { let o = self.obj_mut(st, (a >> 32) as u32)?; let l = o.data.len(); if off + n <= l { o.data[off..off + n].fill(c as u8); o.clear_sym(off, n) } l };
                        if off + n > len { return Err(self.oob(st, a, n, true)) }
                    }
                    V::S(e) => { let b: Vec<B> = (0..n).map(|_| B::S(e.clone())).collect(); self.wr_bytes(st, a, &b)? }
                    _ => return err("memset"),
                }
            }
            Intr::Tls => {
                let V::C(a) = g(self, st, 0) else { return err("tls") };
                let gid = (a >> 32) as u32;
                if st.tid == 0 { self.set(st, d, V::C(a)) } else {
                    let key = (st.tid, gid);
                    let id = match st.tls.get(&key) { Some(i) => *i, None => {
                        let o = self.m.global_init(gid - self.m.gbase());
                        let id = st.mem.alloc(o.data.len());
                        let mut c = (*o).clone(); c.ro = false;
                        let b = st.mem.base; st.mem.heap[(id - b) as usize] = Some(Arc::new(c));
                        st.tls.insert(key, id); id } };
                    self.set(st, d, V::C(addr(id, a as u64 & 0xffff_ffff)));
                }
            }
            Intr::Trap => return err("trap"),
            Intr::VecReduce(k) => {
                let V::A(x) = g(self, st, 0) else { return err("reduce") };
                let mut acc = x[0].clone();
                for y in &x[1..] { acc = self.bin_v(match k { 0 => Op::Or, 1 => Op::And, 2 => Op::Add, _ => Op::Xor }, &acc, y, w)? }
                self.set(st, d, acc);
            }
            Intr::VecMm(k) => {
                let V::A(x) = g(self, st, 0) else { return err("reduce") };
                let k = match k { Intr4::UMin => Intr::UMin, Intr4::UMax => Intr::UMax, Intr4::SMin => Intr::SMin, Intr4::SMax => Intr::SMax };
                let mut acc = x[0].clone();
                for y in &x[1..] { acc = self.intrin_scalar(k, &[acc.clone(), y.clone()], w, ret)? }
                self.set(st, d, acc);
            }
            Intr::Pmovmskb => {
                let V::A(x) = g(self, st, 0) else { return err("pmovmskb") };
                let mut acc = cst(0, 32);
                for (k, b) in x.iter().enumerate() { let bit = expr::zext(&expr::extract(&to_e(b, 8), 7, 1), 32); acc = expr::bin(Op::Or, &acc, &expr::bin(Op::Shl, &bit, &cst(k as u128, 32))) }
                self.set(st, d, from_e(acc));
            }
            Intr::Unsup => return err("unsupported intrinsic"),
            _ => {
                let el: Vec<V> = (0..args.len()).map(|j| g(self, st, j)).collect();
                let r = self.intrin_scalar(i, &el, w, ret)?;
                self.set(st, d, r);
            }
        }
        Ok(())
    }
    fn intrin_scalar(&mut self, i: Intr, a: &[V], w: u32, ret: TyId) -> R<V> {
        let m = expr::mask(w);
        let e = |n: usize| to_e(&a[n], w);
        let conc = a.iter().all(|v| matches!(v, V::C(_)));
        let c = |n: usize| if let V::C(x) = &a[n] { *x } else { 0 };
        Ok(match i {
            Intr::AddOv(s) | Intr::SubOv(s) | Intr::MulOv(s) => {
                if w > 64 && !conc {
                    let (x, y) = (e(0), e(1));
                    let op = match i { Intr::AddOv(_) => Op::Add, Intr::SubOv(_) => Op::Sub, _ => Op::Mul };
                    let r = expr::bin(op, &x, &y);
                    let neg = |t: &E| expr::extract(t, w - 1, 1);
                    let ov = match (op, s) {
                        (Op::Add, false) => expr::cmp(Cmp::Ult, &r, &x),
                        (Op::Sub, false) => expr::cmp(Cmp::Ult, &x, &y),
                        (Op::Add, true) => expr::and(&expr::eq(&neg(&x), &neg(&y)), &expr::not(&expr::eq(&neg(&x), &neg(&r)))),
                        (Op::Sub, true) => expr::and(&expr::not(&expr::eq(&neg(&x), &neg(&y))), &expr::not(&expr::eq(&neg(&x), &neg(&r)))),
                        (_, false) => match (&a[0], &a[1]) {
                            (V::C(0), _) | (_, V::C(0)) => cst(0, 1),
                            (V::C(k), _) => expr::cmp(Cmp::Ult, &cst(m / k, w), &y),
                            (_, V::C(k)) => expr::cmp(Cmp::Ult, &cst(m / k, w), &x),
                            _ => expr::and(&expr::not(&expr::eq(&y, &cst(0, w))), &expr::not(&expr::eq(&expr::bin(Op::UDiv, &r, &y), &x))),
                        },
                        _ => return err("wide signed multiplication with overflow"),
                    };
                    return Ok(V::A(vec![from_e(r), from_e(ov)].into()));
                }
                if w > 120 {
                    let (x, y) = (c(0), c(1));
                    let (r, o) = if s { let (x, y) = (x as i128, y as i128); let (r, o) = match i { Intr::AddOv(_) => x.overflowing_add(y), Intr::SubOv(_) => x.overflowing_sub(y), _ => x.overflowing_mul(y) }; (r as u128, o) }
                        else { match i { Intr::AddOv(_) => x.overflowing_add(y), Intr::SubOv(_) => x.overflowing_sub(y), _ => x.overflowing_mul(y) } };
                    return Ok(V::A(vec![V::C(r), V::C(o as u128)].into()));
                }
                let ww = if matches!(i, Intr::MulOv(_)) { (2 * w).min(128) } else { w + 2 };
                let op = match i { Intr::AddOv(_) => Op::Add, Intr::SubOv(_) => Op::Sub, _ => Op::Mul };
                let ext = |x: &E| if s { expr::sext(x, ww) } else { expr::zext(x, ww) };
                let full = expr::bin(op, &ext(&e(0)), &ext(&e(1)));
                let r = expr::bin(op, &e(0), &e(1));
                let ov = match (i, s) {
                    (Intr::AddOv(_), false) => expr::cmp(Cmp::Ult, &r, &e(0)),
                    (Intr::SubOv(_), false) => expr::cmp(Cmp::Ult, &e(0), &e(1)),
                    _ => expr::not(&expr::eq(&full, &ext(&r))),
                };
                V::A(vec![from_e(r), from_e(ov)].into())
            }
            Intr::AddSat(s) | Intr::SubSat(s) => {
                let op = if matches!(i, Intr::AddSat(_)) { Op::Add } else { Op::Sub };
                let r = expr::bin(op, &e(0), &e(1));
                if !s {
                    if op == Op::Add { from_e(expr::ite(&expr::cmp(Cmp::Ult, &r, &e(0)), &cst(m, w), &r)) } else { from_e(expr::ite(&expr::cmp(Cmp::Ult, &e(0), &e(1)), &cst(0, w), &r)) }
                } else {
                    let full = expr::bin(op, &expr::sext(&e(0), w + 1), &expr::sext(&e(1), w + 1));
                    let max = cst(m >> 1, w); let min = cst(1 << (w - 1), w);
                    let hi = expr::cmp(Cmp::Slt, &expr::sext(&max, w + 1), &full);
                    let lo = expr::cmp(Cmp::Slt, &full, &expr::sext(&min, w + 1));
                    from_e(expr::ite(&hi, &max, &expr::ite(&lo, &min, &r)))
                }
            }
            Intr::Ctlz | Intr::Cttz => {
                if conc_first(a) { let x = c(0); return Ok(V::C(if x == 0 { w as u128 } else if i == Intr::Ctlz { (x.leading_zeros() - (128 - w)) as u128 } else { x.trailing_zeros() as u128 })) }
                let x = e(0);
                let mut acc = cst(w as u128, w);
                // ite chain, least priority first
                let order: Vec<u32> = if i == Intr::Ctlz { (0..w).collect() } else { (0..w).rev().collect() };
                for b in order { let v = if i == Intr::Ctlz { w - 1 - b } else { b }; acc = expr::ite(&expr::extract(&x, b, 1), &cst(v as u128, w), &acc) }
                from_e(acc)
            }
            Intr::Ctpop => {
                if conc { return Ok(V::C(c(0).count_ones() as u128)) }
                let x = e(0); let mut acc = cst(0, w);
                for b in 0..w { acc = expr::bin(Op::Add, &acc, &expr::zext(&expr::extract(&x, b, 1), w)) }
                from_e(acc)
            }
            Intr::Bswap => {
                let x = e(0); let n = w / 8; let mut acc = expr::extract(&x, 0, 8);
                for k in 1..n { acc = expr::concat(&acc, &expr::extract(&x, k * 8, 8)) }
                from_e(acc)
            }
            Intr::Bitrev => {
                let x = e(0); let mut acc = expr::extract(&x, 0, 1);
                for k in 1..w { acc = expr::concat(&acc, &expr::extract(&x, k, 1)) }
                from_e(acc)
            }
            Intr::Fshl | Intr::Fshr => {
                let V::C(s) = &a[2] else { 
                    // symbolic shift amount
                    let s = expr::bin(Op::URem, &e(2), &cst(w as u128, w));
                    let inv = expr::bin(Op::Sub, &cst(w as u128, w), &s);
                    let r = if i == Intr::Fshl { expr::bin(Op::Or, &expr::bin(Op::Shl, &e(0), &s), &expr::bin(Op::LShr, &e(1), &inv)) } else { expr::bin(Op::Or, &expr::bin(Op::Shl, &e(0), &inv), &expr::bin(Op::LShr, &e(1), &s)) };
                    return Ok(from_e(r));
                };
                let s = (*s % w as u128) as u32;
                if conc {
                    let (x, y) = (c(0), c(1));
                    let r = if i == Intr::Fshl { if s == 0 { x } else { (x << s) | (y >> (w - s)) } } else if s == 0 { y } else { (x << (w - s)) | (y >> s) };
                    return Ok(V::C(r & m));
                }
                if i == Intr::Fshl { if s == 0 { a[0].clone() } else { from_e(expr::concat(&expr::extract(&e(0), 0, w - s), &expr::extract(&e(1), w - s, s))) } }
                else if s == 0 { a[1].clone() } else { from_e(expr::concat(&expr::extract(&e(0), 0, s), &expr::extract(&e(1), s, w - s))) }
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let cc = expr::cmp(if matches!(i, Intr::UMin | Intr::UMax) { Cmp::Ult } else { Cmp::Slt }, &e(0), &e(1));
                let mn = matches!(i, Intr::UMin | Intr::SMin);
                from_e(if mn { expr::ite(&cc, &e(0), &e(1)) } else { expr::ite(&cc, &e(1), &e(0)) })
            }
            Intr::SCmp | Intr::UCmp => {
                let rw = match self.ty(ret) { Ty::Int(w) => *w, _ => 8 };
                let op = if i == Intr::UCmp { Cmp::Ult } else { Cmp::Slt };
                let lt = expr::cmp(op, &e(0), &e(1)); let q = expr::eq(&e(0), &e(1));
                from_e(expr::ite(&lt, &cst(expr::mask(rw), rw), &expr::ite(&q, &cst(0, rw), &cst(1, rw))))
            }
            Intr::Abs => { let x = e(0); let ng = expr::cmp(Cmp::Slt, &x, &cst(0, w)); from_e(expr::ite(&ng, &expr::bin(Op::Sub, &cst(0, w), &x), &x)) }
            Intr::IsConst => V::C(0),
            Intr::Expect => a[0].clone(),
            Intr::Ptrmask => self.bin_v(Op::And, &a[0], &a[1], 64)?,
            Intr::ObjSize => V::C(expr::mask(64)),
            Intr::Float(f) => {
                if !conc { return err("symbolic floating point") }
                let f32_ = w == 32;
                let g = |k: usize| -> f64 { if f32_ { f32::from_bits(c(k) as u32) as f64 } else { f64::from_bits(c(k) as u64) } };
                let x = g(0);
                if f32_ && !matches!(f, "fabs." | "trunc." | "floor." | "ceil." | "round." | "roundeven." | "rint." | "nearbyint." | "copysign." | "sqrt." | "minimumnum." | "maximumnum." | "minnum." | "maxnum.") { return err("f32 function") }
                let r = match f {
                    "fabs." => x.abs(), "trunc." => x.trunc(), "floor." => x.floor(), "ceil." => x.ceil(), "round." => x.round(),
                    "roundeven." | "rint." | "nearbyint." => x.round_ties_even(), "copysign." => x.copysign(g(1)), "sqrt." => x.sqrt(),
                    "powi." => x.powi(c(1) as u32 as i32), "pow." => x.powf(g(1)), "minimumnum." | "minnum." => x.min(g(1)), "maximumnum." | "maxnum." => x.max(g(1)),
                    "log10." => x.log10(), "log2." => x.log2(), "log." => x.ln(), "exp." => x.exp(), "exp2." => x.exp2(), "sin." => x.sin(), "cos." => x.cos(),
                    "fma." => x.mul_add(g(1), g(2)), _ => x * g(1) + g(2),
                };
                V::C(if f32_ { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 })
            }
            Intr::FToI(signed, f32_) => {
                if !conc { return err("symbolic floating point") }
                let x = if f32_ { f32::from_bits(c(0) as u32) as f64 } else { f64::from_bits(c(0) as u64) };
                let rw = match self.ty(ret) { Ty::Int(w) => *w, _ => return err("fptoint") };
                V::C(if signed {
                    let (lo, hi) = (-(1i128 << (rw - 1).min(126)), (1i128 << (rw - 1).min(126)) - 1);
                    if rw > 64 { return err("fptosi") }
                    (x as i128).clamp(lo, hi) as u128 & expr::mask(rw)
                } else { (x as u128).min(expr::mask(rw)) })
            }
            _ => return err(format!("intrinsic {:?}", i)),
        })
    }

    pub fn report(&self, st: &State, model: &[u128], msg: &str) -> Violation {
        let mut ev = Ev::new();
        Violation {
            msg: msg.to_string(),
            vars: st.vars.iter().enumerate().map(|(i, v)| (v.tag.to_string(), v.w, model.get(i).copied().unwrap_or(0))).collect(),
            notes: st.notes.iter().map(|(k, b)| (k.clone(), b.iter().map(|x| match x { B::C(c) => *c, B::S(e) => ev.eval(e, model) as u8 }).collect())).collect(),
            trace: st.backtrace(self.m),
            known: st.known.as_ref().map(|k| k.to_string()),
            os_trace: crate::posix::trace_strings(&st.os, model),
        }
    }
    /// Assertion: look for values that break it; continue with the values that do not.
    pub fn check(&mut self, st: &mut State, c: &E, msg: &str) -> R<()> {
        self.sh.checks.fetch_add(1, Relaxed);
        if c.is_true() { return Ok(()) }
        if !c.vars.is_empty() { self.sh.checks_sym.fetch_add(1, Relaxed); }
        let bad = expr::not(c);
        match self.solver.may(&st.pc, &bad) {
            Ans::Unsat => { return Ok(()) }
            Ans::Unknown => return err("solver: unknown"),
            Ans::Sat(u) => {
                let m = st.merge_model(&u);
                let v = self.report(st, &m, msg);
                let mut r = self.sh.res.lock().unwrap();
                if let Some(k) = v.known.clone() { r.known.entry(k).or_insert(v); } else {
                    let same = r.violations.iter().filter(|x| x.msg == v.msg).count();
                    if same < 3 { r.violations.push(v) }
                    self.sh.first_violation.fetch_min(self.sh.started.elapsed().as_secs(), Relaxed);
                    if r.violations.len() >= self.cfg.max_violations { self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); }
                }
            }
        }
        self.assume(st, c)
    }
}
fn conc_first(a: &[V]) -> bool { matches!(a[0], V::C(_)) }

pub fn explore(m: &Module, cfg: &Cfg, init: State, kinds: Arc<Vec<FnKind>>) -> Shared {
    let sh = Shared {
        q: Mutex::new((vec![init], 0, false)), cv: Condvar::new(), res: Mutex::new(Results::default()),
        paths: 0.into(), dropped: 0.into(), forks: 0.into(), steps: 0.into(), checks: 0.into(), checks_sym: 0.into(), first_violation: u64::MAX.into(), stop: false.into(),
        covered: (0..m.funcs.len()).map(|_| AtomicBool::new(false)).collect(), started: std::time::Instant::now(), maxq: 0.into(), transitions: 0.into(),
    };
    let cache = Arc::new(Cache::new());
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            let (sh, cache, kinds) = (&sh, cache.clone(), kinds.clone());
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, move || {
                let mut solver = Solver::new(cache, cfg.solver_ms);
                solver.dump = cfg.dump.clone();
                let mut w = W { m, cfg, sh, solver, kinds, tysz: HashMap::new(), types: Types2 { v: vec![], sz: vec![], offs: vec![] } };
                loop {
                    let mut st = {
                        let mut q = sh.q.lock().unwrap();
                        loop {
                            if sh.stop.load(Relaxed) { q.2 = true; }
                            if q.2 { sh.cv.notify_all(); return }
                            if let Some(s) = q.0.pop() { q.1 += 1; break s }
                            if q.1 == 0 { q.2 = true; sh.cv.notify_all(); return }
                            q = sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                        }
                    };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run(&mut st)));
                    let r = match r { Ok(r) => r, Err(p) => Stop::Err(format!("engine panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
                    match r {
                        Stop::Done => {
                            let n = sh.paths.fetch_add(1, Relaxed);
                            sh.transitions.fetch_add(st.os.trace_len() as u64, Relaxed);
                            if (n as usize) < cfg.samples || (cfg.samples > 0 && n % 97 == 0) { let mdl = st.model.clone(); let mut ev = Ev::new(); if !st.pc.iter().all(|e| ev.eval(e, &mdl) == 1) { let mut g = sh.res.lock().unwrap(); *g.errors.entry("internal: a path's values do not satisfy its condition".into()).or_insert(0) += 1; } let v = w.report(&st, &mdl, "path"); let mut g = sh.res.lock().unwrap(); if g.samples.len() < cfg.samples * 4 { g.samples.push(v) } }
                            if n + 1 >= cfg.max_paths { let mut g = sh.res.lock().unwrap(); *g.errors.entry("path limit".into()).or_insert(0) += 1; sh.stop.store(true, SeqCst) }
                        }
                        Stop::Drop => { sh.dropped.fetch_add(1, Relaxed); }
                        Stop::Err(e) => {
                            if !(e == "stopped") {
                                if cfg.verbose { eprintln!("path error: {}\n  {}", e, st.backtrace(m).into_iter().take(12).collect::<Vec<_>>().join("\n  ")) }
                                let mut g = sh.res.lock().unwrap();
                                *g.errors.entry(e.clone()).or_insert(0) += 1;
                                if e == "time limit" || g.errors.len() > 20 { sh.stop.store(true, SeqCst) }
                            }
                        }
                    }
                    let mut q = sh.q.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 && q.0.is_empty() { q.2 = true; sh.cv.notify_all() }
                }
            }).unwrap();
        }
    });
    sh
}
#[allow(unused)]
fn _unused(_: &HashSet<u8>, _: &BTreeSet<u8>) {}

/// Integers of 129 to 256 bits (LLVM widens 128-bit divisions by constants): two halves, concrete only.
fn wide(v: &V) -> R<[u128; 2]> {
    match v { V::A(x) if x.len() == 2 => match (&x[0], &x[1]) { (V::C(a), V::C(b)) => Ok([*a, *b]), _ => err("symbolic integer wider than 128 bits") }, _ => err("symbolic integer wider than 128 bits") }
}
fn wide_bin(op: Op, a: &[u128; 2], b: &[u128; 2], w: u32) -> R<V> {
    let limbs = |x: &[u128; 2]| -> [u64; 4] { [x[0] as u64, (x[0] >> 64) as u64, x[1] as u64, (x[1] >> 64) as u64] };
    let r = match op {
        Op::And => [a[0] & b[0], a[1] & b[1]], Op::Or => [a[0] | b[0], a[1] | b[1]], Op::Xor => [a[0] ^ b[0], a[1] ^ b[1]],
        Op::Add => { let (l, c) = a[0].overflowing_add(b[0]); [l, a[1].wrapping_add(b[1]).wrapping_add(c as u128)] }
        Op::Sub => { let (l, c) = a[0].overflowing_sub(b[0]); [l, a[1].wrapping_sub(b[1]).wrapping_sub(c as u128)] }
        Op::Mul => {
            let (x, y) = (limbs(a), limbs(b));
            let mut r = [0u64; 4];
            for i in 0..4 { let mut c = 0u128; for j in 0..4 - i { let t = x[i] as u128 * y[j] as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64 } }
            [r[0] as u128 | (r[1] as u128) << 64, r[2] as u128 | (r[3] as u128) << 64]
        }
        Op::LShr | Op::Shl => {
            let n = b[0] as u32;
            if b[1] != 0 || b[0] >= w as u128 { return err("shift") }
            match (op, n) {
                (_, 0) => *a,
                (Op::LShr, 1..=127) => [a[0] >> n | a[1] << (128 - n), a[1] >> n], (Op::LShr, _) => [a[1] >> (n - 128), 0],
                (_, 1..=127) => [a[0] << n, a[1] << n | a[0] >> (128 - n)], (_, _) => [0, a[0] << (n - 128)],
            }
        }
        _ => return err("operation on integers wider than 128 bits"),
    };
    Ok(V::A(vec![V::C(r[0]), V::C(r[1] & expr::mask(w - 128))].into()))
}
