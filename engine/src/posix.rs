//! Model of the process environment: files, directories, links, environment, clock - and the harness hooks.
use crate::exec::*;
use crate::expr::{self, cst, Cmp, Op, E};
use crate::ir::*;
use crate::mem::{Obj, B};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Name = Arc<[B]>;
#[derive(Clone)]
pub enum NK { File(Arc<Obj>), Dir { ents: Vec<(Name, u32)>, parent: u32 }, Link(Arc<[B]>) }
#[derive(Clone)]
pub struct Meta { pub mtime: V, pub uid: V, pub gid: V }
#[derive(Clone)]
pub struct Inode { pub k: NK, pub mode: V, pub meta: Option<Meta>, pub nlink: u32 }
#[derive(Clone)]
pub struct Ofd { pub ino: u32, pub pos: u64, pub append: bool, pub rd: bool, pub wr: bool }
#[derive(Clone)]
pub struct DirS { pub ino: u32, pub ents: Vec<(Name, u32)>, pub pos: usize, pub buf: u32 }
pub struct Tr { pub s: String, pub prev: Option<Arc<Tr>>, pub n: usize }
#[derive(Clone)]
pub struct Fault { pub kind: u32, pub at: E, pub base: u64, pub fired: bool, pub what: u32 }

#[derive(Clone)]
pub struct Os {
    pub inodes: Vec<Option<Arc<Inode>>>,
    pub fds: Vec<Option<u32>>,
    pub ofds: Vec<Option<Ofd>>,
    pub streams: Vec<Option<DirS>>,
    pub env: BTreeMap<Vec<u8>, Vec<B>>,
    pub envptr: BTreeMap<Vec<u8>, u128>,
    pub ops: u64,
    pub fault: Option<Fault>,
    pub trace: Option<Arc<Tr>>,
    pub clock: u64,
    pub allow: Vec<u32>,
    pub contain: bool,
    pub escapes: u32,
    pub dirperm: u32,
    pub metasym: u32,
    pub errno: BTreeMap<u32, u128>,
    pub rnd: u64,
    pub pid: u32,
    pub scratch: u32,
    pub cwd: u32,
    pub tlskeys: u32,
    pub tlsvals: BTreeMap<(u32, u32), V>,
    pub log_ops: bool,
    pub symclock: bool,
    pub pids: BTreeMap<u32, u32>,
}

pub const ENOENT: i32 = 2; pub const EIO: i32 = 5; pub const EBADF: i32 = 9; pub const EACCES: i32 = 13; pub const EEXIST: i32 = 17; pub const ENOTDIR: i32 = 20; pub const EISDIR: i32 = 21; pub const EINVAL: i32 = 22; pub const ENOSPC: i32 = 28; pub const EXDEV: i32 = 18;
const ENOTEMPTY: i32 = 39; pub const ELOOP: i32 = 40; pub const ENAMETOOLONG: i32 = 36; pub const ENOSYS: i32 = 38;

pub fn name(s: &str) -> Name { s.bytes().map(B::C).collect::<Vec<_>>().into() }
pub fn show_bytes(b: &[B], model: Option<&[u128]>) -> String {
    let mut o = vec![];
    for x in b { match x { B::C(c) => o.push(*c), B::S(e) => match model { Some(m) => o.push(expr::eval(e, m) as u8), None => o.push(b'?') } } }
    String::from_utf8_lossy(&o).into_owned()
}
pub fn trace_strings(os: &Os, _m: &[u128]) -> Vec<String> {
    let mut v = vec![]; let mut c = os.trace.clone();
    while let Some(t) = c { v.push(t.s.clone()); c = t.prev.clone() }
    v.reverse(); v
}

impl Os {
    pub fn new() -> Os {
        let mut o = Os { inodes: vec![None], fds: vec![Some(0), Some(0), Some(0)], ofds: vec![Some(Ofd { ino: 0, pos: 0, append: false, rd: true, wr: true })], streams: vec![None], env: BTreeMap::new(), envptr: BTreeMap::new(), ops: 0, fault: None, trace: None, clock: 1_600_000_000_000_000_000, allow: vec![], contain: false, escapes: 0, dirperm: 0, metasym: 0, errno: BTreeMap::new(), rnd: 0x9E3779B97F4A7C15, pid: 4242, scratch: 0, cwd: 0, tlskeys: 1, tlsvals: BTreeMap::new(), log_ops: true, symclock: false, pids: BTreeMap::new() };
        o.inodes.push(Some(Arc::new(Inode { k: NK::Dir { ents: vec![], parent: 1 }, mode: V::C(0o40755), meta: None, nlink: 2 })));
        let s = o.mkdir_at(1, name("scratch"));
        o.mkdir_at(s, name("tmp"));
        o.scratch = s;
        o.cwd = s;
        o.env.insert(b"TMPDIR".to_vec(), b"/scratch/tmp".iter().map(|b| B::C(*b)).collect());
        o
    }
    pub fn trace_len(&self) -> usize { self.trace.as_ref().map(|t| t.n).unwrap_or(0) }
    pub fn ino(&self, i: u32) -> &Arc<Inode> { self.inodes[i as usize].as_ref().unwrap() }
    pub fn ino_mut(&mut self, i: u32) -> &mut Inode { Arc::make_mut(self.inodes[i as usize].as_mut().unwrap()) }
    pub fn add_inode(&mut self, n: Inode) -> u32 { self.inodes.push(Some(Arc::new(n))); self.inodes.len() as u32 - 1 }
    pub fn mkdir_at(&mut self, d: u32, n: Name) -> u32 {
        let i = self.add_inode(Inode { k: NK::Dir { ents: vec![], parent: d }, mode: V::C(0o40755), meta: None, nlink: 2 });
        self.link_at(d, n, i);
        i
    }
    pub fn link_at(&mut self, d: u32, n: Name, i: u32) { if let NK::Dir { ents, .. } = &mut self.ino_mut(d).k { ents.push((n, i)) } }
    pub fn unlink_at(&mut self, d: u32, i: u32, pos: usize) { if let NK::Dir { ents, .. } = &mut self.ino_mut(d).k { assert_eq!(ents[pos].1, i); ents.remove(pos); } let n = self.ino_mut(i); n.nlink = n.nlink.saturating_sub(1); }
    pub fn is_dir(&self, i: u32) -> bool { matches!(self.ino(i).k, NK::Dir { .. }) }
    pub fn path_of(&self, i: u32) -> Vec<B> {
        if i == 1 { return vec![] }
        let p = match &self.ino(i).k { NK::Dir { parent, .. } => *parent, _ => return vec![B::C(b'?')] };
        let mut v = self.path_of(p);
        v.push(B::C(b'/'));
        if let NK::Dir { ents, .. } = &self.ino(p).k { if let Some(e) = ents.iter().find(|e| e.1 == i) { v.extend(e.0.iter().cloned()) } }
        v
    }
    fn under_allowed(&self, mut d: u32) -> bool {
        loop {
            if self.allow.contains(&d) { return true }
            if d == 1 { return false }
            d = match &self.ino(d).k { NK::Dir { parent, .. } => *parent, _ => return false };
        }
    }
    /// Each entry of the scratch directory is a file system of its own.
    fn device(&self, mut d: u32) -> u32 {
        loop {
            let p = match &self.ino(d).k { NK::Dir { parent, .. } => *parent, _ => return d };
            if p == self.scratch || d == 1 || p == d { return d }
            d = p;
        }
    }
    pub fn new_fd(&mut self, o: Ofd) -> u32 {
        self.ofds.push(Some(o));
        let i = self.ofds.len() as u32 - 1;
        self.new_fd_for(i)
    }
    pub fn new_fd_for(&mut self, ofd: u32) -> u32 {
        for (i, f) in self.fds.iter_mut().enumerate() { if f.is_none() { *f = Some(ofd); return i as u32 } }
        self.fds.push(Some(ofd));
        self.fds.len() as u32 - 1
    }
    pub fn ofd_of(&self, fd: u128) -> Option<u32> { match self.fds.get(fd as u32 as usize) { Some(Some(i)) if *i != 0 => Some(*i), _ => None } }
    fn tr(&mut self, s: String) { let n = self.trace_len() + 1; self.trace = Some(Arc::new(Tr { s, prev: self.trace.take(), n })) }
}

/// Called when the process inside vp_run died: its descriptors go away, files stay.
pub fn end_process(os: &mut Os, nfds: usize) { for i in nfds..os.fds.len() { os.fds[i] = None } if let Some(f) = &mut os.fault { f.base = u64::MAX } }

pub enum X { Ret(V), Void, Crash, Flow(Flow) }

struct Res { parent: u32, name: Name, pos: usize, ino: Option<u32>, slash: bool }

pub fn cstr(w: &mut W, st: &mut State, a: u128) -> R<Vec<B>> {
    let mut out = vec![];
    let mut p = a;
    loop {
        let b = w.rd_bytes(st, p, 1)?.pop().unwrap();
        match &b {
            B::C(0) => return Ok(out),
            B::C(_) => {}
            B::S(e) => { let z = expr::eq(e, &cst(0, 8)); if w.decide(st, &z)? { return Ok(out) } }
        }
        out.push(b); p += 1;
        if out.len() > 8192 { return err("unterminated C string") }
    }
}
fn is_byte(w: &mut W, st: &mut State, b: &B, c: u8) -> R<bool> { match b { B::C(x) => Ok(*x == c), B::S(e) => { let q = expr::eq(e, &cst(c as u128, 8)); w.decide(st, &q) } } }
fn same_name(w: &mut W, st: &mut State, a: &[B], b: &[B]) -> R<bool> {
    if a.len() != b.len() { return Ok(false) }
    let mut acc = expr::tru();
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (B::C(p), B::C(q)) => if p != q { return Ok(false) },
            _ => { let e = |b: &B| match b { B::C(c) => cst(*c as u128, 8), B::S(e) => e.clone() }; acc = expr::and(&acc, &expr::eq(&e(x), &e(y))) }
        }
    }
    w.decide(st, &acc)
}
fn lookup(w: &mut W, st: &mut State, d: u32, n: &[B]) -> R<Option<(usize, u32)>> {
    let os = st.os.clone();
    if let NK::Dir { ents, .. } = &os.ino(d).k {
        for (i, (k, ino)) in ents.iter().enumerate() { if same_name(w, st, k, n)? { return Ok(Some((i, *ino))) } }
    }
    Ok(None)
}

fn resolve(w: &mut W, st: &mut State, path: &[B], follow: bool) -> R<Result<Res, i32>> {
    if path.is_empty() { return Ok(Err(ENOENT)) }
    let mut work: Vec<Vec<B>> = vec![]; // remaining components, reversed
    let mut dir: u32;
    let split = |w: &mut W, st: &mut State, p: &[B]| -> R<(bool, Vec<Vec<B>>, bool)> {
        let mut comps = vec![]; let mut cur = vec![]; let mut abs = false; let mut trail = false;
        for (i, b) in p.iter().enumerate() {
            if is_byte(w, st, b, b'/')? { if i == 0 { abs = true } if !cur.is_empty() { comps.push(std::mem::take(&mut cur)) } trail = true } else { cur.push(b.clone()); trail = false }
        }
        if !cur.is_empty() { comps.push(cur) }
        Ok((abs, comps, trail))
    };
    let (abs, comps, mut slash) = split(w, st, path)?;
    dir = if abs { 1 } else { st.os.cwd };
    for c in comps.into_iter().rev() { work.push(c) }
    let mut links = 0;
    if work.is_empty() { return Ok(Ok(Res { parent: dir, name: name("."), pos: 0, ino: Some(dir), slash: true })) }
    loop {
        let c = work.pop().unwrap();
        let last = work.is_empty();
        if !st.os.is_dir(dir) { return Ok(Err(ENOTDIR)) }
        if c.len() > 255 { return Ok(Err(ENAMETOOLONG)) }
        if c.len() == 1 && is_byte(w, st, &c[0], b'.')? {
            if last { return Ok(Ok(Res { parent: dir, name: name("."), pos: 0, ino: Some(dir), slash: true })) }
            continue;
        }
        if c.len() == 2 && is_byte(w, st, &c[0], b'.')? && is_byte(w, st, &c[1], b'.')? {
            dir = match &st.os.ino(dir).k { NK::Dir { parent, .. } => *parent, _ => unreachable!() };
            if last { return Ok(Ok(Res { parent: dir, name: name(".."), pos: 0, ino: Some(dir), slash: true })) }
            continue;
        }
        match lookup(w, st, dir, &c)? {
            None => {
                if last { return Ok(Ok(Res { parent: dir, name: c.into(), pos: 0, ino: None, slash })) }
                return Ok(Err(ENOENT));
            }
            Some((pos, ino)) => {
                let node = st.os.ino(ino).clone();
                match &node.k {
                    NK::Link(t) if !last || follow || slash => {
                        links += 1;
                        if links > 40 { return Ok(Err(ELOOP)) }
                        let (abs, comps, tr) = split(w, st, t)?;
                        if abs { dir = 1 }
                        if last { slash |= tr }
                        for c in comps.into_iter().rev() { work.push(c) }
                        if work.is_empty() { return Ok(Ok(Res { parent: dir, name: name("."), pos: 0, ino: Some(dir), slash: true })) }
                    }
                    NK::Dir { .. } => { if last { return Ok(Ok(Res { parent: dir, name: c.into(), pos, ino: Some(ino), slash })) } dir = ino }
                    _ => { if last { if slash { return Ok(Err(ENOTDIR)) } return Ok(Ok(Res { parent: dir, name: c.into(), pos, ino: Some(ino), slash })) } return Ok(Err(ENOTDIR)) }
                }
            }
        }
    }
}

fn os(st: &mut State) -> &mut Os { Arc::make_mut(&mut st.os) }

pub fn set_errno(w: &mut W, st: &mut State, e: i32) -> R<()> {
    let a = errno_addr(st);
    w.wr(st, a, 4, &V::C(e as u128))
}
fn errno_addr(st: &mut State) -> u128 {
    let t = st.tid;
    if let Some(a) = st.os.errno.get(&t) { return *a }
    let id = st.mem.alloc(4);
    os(st).errno.insert(t, addr(id, 0));
    addr(id, 0)
}

/// Kinds of injected fault, selected by the harness.
pub const F_ERR: u32 = 1; pub const F_CRASH: u32 = 2; pub const F_CRASHMID: u32 = 3; pub const F_SHORT: u32 = 4; pub const F_FULL: u32 = 5; pub const F_RO: u32 = 6;
enum Hit { No, Err(i32), Crash, Mid, Short }

/// One file-system operation point: scheduling, fault injection, trace.
fn op(w: &mut W, st: &mut State, mutating: bool, write: bool, what: &str, desc: String) -> R<Hit> {
    if !st.os.log_ops { return Ok(Hit::No) }
    let n = st.os.ops;
    let mut hit = Hit::No;
    if let Some(f) = st.os.fault.clone() {
        // a full disk and a file system turned read-only stay so
        let lasting = match f.kind { F_FULL => mutating && matches!(what, "write" | "copy" | "create" | "mkdir" | "symlink" | "link"), F_RO => mutating, _ => false };
        if f.fired && lasting { hit = Hit::Err(if f.kind == F_FULL { ENOSPC } else { 30 }) }
        if !f.fired && n >= f.base {
            let applicable = match f.kind { F_ERR => true, F_CRASH => mutating, F_CRASHMID | F_SHORT => write, _ => lasting };
            if applicable {
                let c = expr::eq(&f.at, &cst((n - f.base) as u128, f.at.w));
                if w.decide(st, &c)? {
                    hit = match f.kind { F_ERR => Hit::Err(if mutating { ENOSPC } else { EIO }), F_FULL => Hit::Err(ENOSPC), F_RO => Hit::Err(30), F_CRASH => Hit::Crash, F_CRASHMID => Hit::Mid, _ => Hit::Short };
                    if let Some(f) = &mut os(st).fault { f.fired = true; f.what = if matches!(what, "unlink" | "rmdir") { 2 } else if mutating { 3 } else { 1 } }
                }
            }
        }
    }
    let o = os(st);
    o.ops += 1;
    if o.log_ops { let h = match hit { Hit::No => "", Hit::Err(_) => " !err", Hit::Crash => " !crash", Hit::Mid => " !mid", Hit::Short => " !short" }; o.tr(format!("{} {}{}", what, desc, h)); }
    Ok(hit)
}
fn guard_mut(w: &mut W, st: &mut State, parent: u32) -> R<()> {
    let _ = w;
    if st.os.contain && !st.os.under_allowed(parent) { os(st).escapes += 1; let p = st.os.path_of(parent); let s = show_bytes(&p, Some(&st.model)); os(st).tr(format!("ESCAPE {}", s)); }
    Ok(())
}

fn fail(w: &mut W, st: &mut State, e: i32) -> R<X> { set_errno(w, st, e)?; Ok(X::Ret(V::C(0xffff_ffff))) }
fn fail64(w: &mut W, st: &mut State, e: i32) -> R<X> { set_errno(w, st, e)?; Ok(X::Ret(V::C(0xffff_ffff_ffff_ffff))) }

fn c(v: &V) -> R<u128> { match v { V::C(x) => Ok(*x), _ => err("symbolic value where the model needs a concrete one") } }
fn conc(w: &mut W, st: &mut State, v: &V, wd: u32) -> R<u128> { match v { V::C(x) => Ok(*x), V::S(e) => { let e = if e.w > wd { expr::extract(e, 0, wd) } else { e.clone() }; w.concretize(st, &e, 256, "system call argument") } _ => err("agg arg") } }

fn new_meta(st: &mut State) -> Option<Meta> {
    if st.os.metasym == 0 { return None }
    let m = st.new_var(32, "meta.mtime"); let u = st.new_var(16, "meta.uid"); let g = st.new_var(16, "meta.gid");
    Some(Meta { mtime: from_e(expr::zext(&m, 64)), uid: from_e(expr::zext(&u, 32)), gid: from_e(expr::zext(&g, 32)) })
}

fn stat_fill(w: &mut W, st: &mut State, ino: u32, buf: u128, statx: bool) -> R<()> {
    let n = st.os.ino(ino).clone();
    let size = match &n.k { NK::File(o) => o.data.len() as u64, NK::Dir { .. } => 4096, NK::Link(t) => t.len() as u64 };
    let (mt, uid, gid) = match &n.meta { Some(m) => (m.mtime.clone(), m.uid.clone(), m.gid.clone()), None => (V::C(1_600_000_000), V::C(0), V::C(0)) };
    let z: Vec<B> = vec![B::C(0); if statx { 256 } else { 144 }];
    w.wr_bytes(st, buf, &z)?;
    if statx {
        w.wr(st, buf, 4, &V::C(0x7ff))?; w.wr(st, buf + 4, 4, &V::C(4096))?; w.wr(st, buf + 16, 4, &V::C(n.nlink as u128))?;
        w.wr(st, buf + 20, 4, &uid)?; w.wr(st, buf + 24, 4, &gid)?;
        let m16 = match &n.mode { V::S(e) => from_e(expr::extract(e, 0, 16)), V::C(x) => V::C(x & 0xffff), _ => unreachable!() };
        w.wr(st, buf + 28, 2, &m16)?;
        w.wr(st, buf + 32, 8, &V::C(ino as u128))?; w.wr(st, buf + 40, 8, &V::C(size as u128))?; w.wr(st, buf + 48, 8, &V::C(((size + 511) / 512) as u128))?;
        for o in [64u128, 80, 96, 112] { w.wr(st, buf + o, 8, &mt)? }
        w.wr(st, buf + 140, 4, &V::C(1))?;
    } else {
        w.wr(st, buf, 8, &V::C(1))?; w.wr(st, buf + 8, 8, &V::C(ino as u128))?; w.wr(st, buf + 16, 8, &V::C(n.nlink as u128))?;
        w.wr(st, buf + 24, 4, &n.mode)?; w.wr(st, buf + 28, 4, &uid)?; w.wr(st, buf + 32, 4, &gid)?;
        w.wr(st, buf + 48, 8, &V::C(size as u128))?; w.wr(st, buf + 56, 8, &V::C(4096))?; w.wr(st, buf + 64, 8, &V::C(((size + 511) / 512) as u128))?;
        for o in [72u128, 88, 104] { w.wr(st, buf + o, 8, &mt)? }
    }
    Ok(())
}

/// malloc-family helper
fn alloc(st: &mut State, n: usize) -> u128 { addr(st.mem.alloc(n), 0) }

/// Rebuild `environ` after a change, for code that enumerates the environment.
fn environ(w: &mut W, st: &mut State) -> R<()> {
    let Some(id) = w.m.syms.get("environ").copied() else { return Ok(()) };
    let all: Vec<Vec<B>> = st.os.env.iter().map(|(k, v)| k.iter().map(|b| B::C(*b)).chain([B::C(b'=')]).chain(v.iter().cloned()).chain([B::C(0)]).collect()).collect();
    let arr = alloc(st, (all.len() + 1) * 8);
    for (i, e) in all.iter().enumerate() { let p = alloc(st, e.len()); w.wr_bytes(st, p, e)?; w.wr(st, arr + 8 * i as u128, 8, &V::C(p))? }
    w.wr(st, arr + 8 * all.len() as u128, 8, &V::C(0))?;
    w.wr(st, addr(id, 0), 8, &V::C(arr))
}

/// Harness-visible scheduling point for vp_par; true when control moved to the other thread.
fn sched(w: &mut W, st: &mut State) -> R<bool> {
    let Some(p) = &st.par else { return Ok(false) };
    if p.preempt || p.switches_left == 0 || p.threads.iter().enumerate().filter(|(i, t)| *i != p.cur && !t.done).count() == 0 {
        if let Some(p) = &mut st.par { p.preempt = false }
        return Ok(false);
    }
    let k = w.choose(st, 2, "sched")?;
    let p = st.par.as_mut().unwrap();
    if k == 0 { return Ok(false) }
    let other = 1 - p.cur;
    p.switches_left -= 1;
    switch_to(st, other);
    // the resumed thread must not be asked again at the operation it was stopped at
    st.par.as_mut().unwrap().preempt = true;
    Ok(true)
}
fn switch_to(st: &mut State, t: usize) {
    let p = st.par.as_mut().unwrap();
    let cur = p.cur;
    let fr = std::mem::take(&mut st.frames);
    let mut p2 = st.par.take().unwrap();
    p2.threads[cur].frames = fr;
    st.frames = std::mem::take(&mut p2.threads[t].frames);
    p2.cur = t;
    st.tid = 1 + t as u32;
    st.par = Some(p2);
    let o = os(st);
    o.tr(format!("-- process {}", t));
}
pub fn par_end(w: &mut W, st: &mut State, code: u32) -> R<Flow> {
    let p = st.par.as_mut().unwrap();
    let cur = p.cur;
    p.threads[cur].done = true;
    p.threads[cur].rc = code;
    let other = 1 - cur;
    if !p.threads[other].done {
        switch_to(st, other);
        // other thread may be stopped in front of an operation, or not started
        st.par.as_mut().unwrap().preempt = true;
        return Ok(Flow::Stay);
    }
    // both ended: back to the caller of vp_par, which is kept under threads[2]
    let mut p = st.par.take().unwrap();
    let rc = p.threads[0].rc | (p.threads[1].rc << 8);
    st.frames = std::mem::take(&mut p.threads[2].frames);
    st.tid = 0;
    w.ret_call(st, Some(V::C(rc as u128)))
}

pub fn ext_call(w: &mut W, st: &mut State, f: u32, a: Vec<V>) -> R<Flow> {
    let nm = w.m.funcs[f as usize].name;
    if is_fs(nm) && st.par.is_some() && st.os.log_ops && sched(w, st)? { return Ok(Flow::Stay) }
    st.mark_os = Some(st.os.clone());
    let r = ext(w, st, nm, a);
    st.mark_os = None;
    match r? {
        X::Ret(v) => w.ret_call(st, Some(v)),
        X::Void => w.ret_call(st, None),
        X::Crash => w.unwind_run(st, 1),
        X::Flow(f) => Ok(f),
    }
}
fn is_fs(n: &str) -> bool { matches!(n, "open64" | "open" | "read" | "readv" | "pread64" | "pwrite64" | "write" | "writev" | "rename" | "unlink" | "unlinkat" | "symlink" | "link" | "linkat" | "readlink" | "realpath" | "mkdir" | "rmdir" | "opendir" | "stat64" | "lstat64" | "fstat64" | "fstatat64" | "statx" | "copy_file_range" | "sendfile64" | "splice" | "ftruncate64" | "fchmod" | "chmod" | "fsync" | "fdatasync" | "fdopendir" | "openat64" | "renameat2" | "renameat") }

fn file_read(w: &mut W, st: &mut State, ofd: u32, buf: u128, n: usize, at: Option<u64>) -> R<i64> {
    let o = st.os.ofds[ofd as usize].clone().unwrap();
    if !o.rd { return Ok(-(EBADF as i64)) }
    let node = st.os.ino(o.ino).clone();
    let NK::File(d) = &node.k else { return Ok(-(EISDIR as i64)) };
    let pos = at.unwrap_or(o.pos) as usize;
    let k = d.data.len().saturating_sub(pos).min(n);
    if k > 0 {
        let id = (buf >> 32) as u32; let off = (buf & 0xffff_ffff) as usize;
        let _ = id;
        let bytes: Vec<B> = (0..k).map(|i| d.byte(pos + i)).collect();
        let _ = off;
        w.wr_bytes(st, buf, &bytes)?;
    }
    if at.is_none() { os(st).ofds[ofd as usize].as_mut().unwrap().pos += k as u64 }
    Ok(k as i64)
}
fn file_write(st: &mut State, ofd: u32, bytes: &[B], at: Option<u64>) {
    let os = os(st);
    let o = os.ofds[ofd as usize].clone().unwrap();
    let NK::File(d) = &mut os.ino_mut(o.ino).k else { return };
    let d = Arc::make_mut(d);
    let pos = if o.append { d.data.len() } else { at.unwrap_or(o.pos) as usize };
    if d.data.len() < pos + bytes.len() { d.data.resize(pos + bytes.len(), 0) }
    for (i, b) in bytes.iter().enumerate() { d.set_byte(pos + i, b.clone()) }
    if at.is_none() { os.ofds[ofd as usize].as_mut().unwrap().pos = (pos + bytes.len()) as u64 }
}
fn do_open(w: &mut W, st: &mut State, path: Vec<B>, flags: u128, mode: u128) -> R<X> {
    let (acc, creat, excl, trunc, append, dironly, nofollow) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0, flags & 0o400000 != 0);
    let tmpfile = flags & 0o20000000 != 0 && dironly;
    let mutating = creat || trunc;
    match op(w, st, mutating, false, if mutating { "create" } else { "open" }, show_bytes(&path, None))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
    if tmpfile { return fail(w, st, 95) }
    let r = match resolve(w, st, &path, !(creat && excl) && !nofollow)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
    let ino = match r.ino {
        Some(i) => {
            if creat && excl { return fail(w, st, EEXIST) }
            let n = st.os.ino(i).clone();
            match &n.k {
                NK::Dir { .. } => if acc != 0 || creat { return fail(w, st, EISDIR) },
                NK::Link(_) => return fail(w, st, ELOOP),
                NK::File(_) => {
                    if dironly { return fail(w, st, ENOTDIR) }
                    if trunc && acc != 0 { guard_mut(w, st, r.parent)?; if let NK::File(d) = &mut os(st).ino_mut(i).k { *d = Arc::new(Obj::new(0)) } }
                }
            }
            if acc != 0 && !trunc { guard_mut(w, st, r.parent)? }
            i
        }
        None => {
            if !creat { return fail(w, st, ENOENT) }
            if r.slash { return fail(w, st, EISDIR) }
            guard_mut(w, st, r.parent)?;
            let meta = new_meta(st);
            let o = os(st);
            let i = o.add_inode(Inode { k: NK::File(Arc::new(Obj::new(0))), mode: V::C(0o100000 | (mode & 0o7777 & !0o022)), meta, nlink: 1 });
            o.link_at(r.parent, r.name, i);
            i
        }
    };
    let fd = os(st).new_fd(Ofd { ino, pos: 0, append, rd: acc == 0 || acc == 2, wr: acc != 0 });
    Ok(X::Ret(V::C(fd as u128)))
}
fn do_unlink(w: &mut W, st: &mut State, path: Vec<B>, dir: bool) -> R<X> {
    match op(w, st, true, false, if dir { "rmdir" } else { "unlink" }, show_bytes(&path, None))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
    let r = match resolve(w, st, &path, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
    let Some(i) = r.ino else { return fail(w, st, ENOENT) };
    if r.slash && r.name.len() <= 2 && matches!(r.name[0], B::C(b'.')) { return fail(w, st, if dir { EINVAL } else { EISDIR }) }
    match (&st.os.ino(i).k, dir) {
        (NK::Dir { ents, .. }, true) => if !ents.is_empty() { return fail(w, st, ENOTEMPTY) },
        (NK::Dir { .. }, false) => return fail(w, st, EISDIR),
        (_, true) => return fail(w, st, ENOTDIR),
        _ => {}
    }
    guard_mut(w, st, r.parent)?;
    os(st).unlink_at(r.parent, i, r.pos);
    Ok(X::Ret(V::C(0)))
}
fn do_rename(w: &mut W, st: &mut State, from: Vec<B>, to: Vec<B>) -> R<X> {
    match op(w, st, true, false, "rename", format!("{} -> {}", show_bytes(&from, None), show_bytes(&to, None)))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
    let a = match resolve(w, st, &from, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
    let Some(ai) = a.ino else { return fail(w, st, ENOENT) };
    let b = match resolve(w, st, &to, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
    guard_mut(w, st, a.parent)?; guard_mut(w, st, b.parent)?;
    if b.ino == Some(ai) { return Ok(X::Ret(V::C(0))) }
    if st.os.device(a.parent) != st.os.device(b.parent) { return fail(w, st, EXDEV) }
    let adir = st.os.is_dir(ai);
    if let Some(bi) = b.ino {
        let bdir = st.os.is_dir(bi);
        if bdir && !adir { return fail(w, st, EISDIR) }
        if !bdir && adir { return fail(w, st, ENOTDIR) }
        if bdir { if let NK::Dir { ents, .. } = &st.os.ino(bi).k { if !ents.is_empty() { return fail(w, st, ENOTEMPTY) } } }
    } else if b.slash && !adir { return fail(w, st, ENOTDIR) }
    let o = os(st);
    // atomically replace
    if let NK::Dir { ents, .. } = &mut o.ino_mut(a.parent).k { let p = ents.iter().position(|e| e.1 == ai && Arc::ptr_eq(&e.0, &e.0)).unwrap(); let p = if a.pos < ents.len() && ents[a.pos].1 == ai { a.pos } else { p }; ents.remove(p); }
    if let NK::Dir { ents, .. } = &mut o.ino_mut(b.parent).k {
        if let Some(bi) = b.ino { let p = ents.iter().position(|e| e.1 == bi && same_static(&e.0, &b.name)).or_else(|| ents.iter().position(|e| e.1 == bi)).unwrap(); ents[p].1 = ai } else { ents.push((b.name.clone(), ai)) }
    }
    if adir { if let NK::Dir { parent, .. } = &mut o.ino_mut(ai).k { *parent = b.parent } }
    Ok(X::Ret(V::C(0)))
}
fn same_static(a: &[B], b: &[B]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) { (B::C(p), B::C(q)) => p == q, (B::S(p), B::S(q)) => expr::same(p, q), _ => false }) }

fn do_stat(w: &mut W, st: &mut State, path: Vec<B>, follow: bool, buf: u128, statx: bool) -> R<X> {
    match op(w, st, false, false, if follow { "stat" } else { "lstat" }, show_bytes(&path, None))? { Hit::Err(e) => return fail(w, st, e), _ => {} }
    let r = match resolve(w, st, &path, follow)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
    let Some(i) = r.ino else { return fail(w, st, ENOENT) };
    stat_fill(w, st, i, buf, statx)?;
    Ok(X::Ret(V::C(0)))
}
fn fd_desc(st: &State, ofd: u32) -> String { let _ = (st, ofd); format!("fd") }

fn ext(w: &mut W, st: &mut State, nm: &str, a: Vec<V>) -> R<X> {
    if let Some(h) = nm.strip_prefix("vp_") { return hook(w, st, h, a) }
    Ok(match nm {
        // ----- memory -----
        "malloc" => { let n = conc(w, st, &a[0], 64)?; if n > (1 << 31) { return Ok(X::Ret(V::C(0))) } X::Ret(V::C(alloc(st, n as usize))) }
        "calloc" => { let n = conc(w, st, &a[0], 64)?; let m = conc(w, st, &a[1], 64)?; if n.saturating_mul(m) > (1 << 31) { return Ok(X::Ret(V::C(0))) } X::Ret(V::C(alloc(st, (n * m) as usize))) }
        "posix_memalign" => { let n = conc(w, st, &a[2], 64)?; let p = alloc(st, n as usize); let o = c(&a[0])?; w.wr(st, o, 8, &V::C(p))?; X::Ret(V::C(0)) }
        "aligned_alloc" => { let n = conc(w, st, &a[1], 64)?; X::Ret(V::C(alloc(st, n as usize))) }
        "realloc" => {
            let p = conc(w, st, &a[0], 64)?; let n = conc(w, st, &a[1], 64)? as usize;
            if p == 0 { return Ok(X::Ret(V::C(alloc(st, n)))) }
            if n > (1 << 31) { return Ok(X::Ret(V::C(0))) }
            // grow in place: ids are far apart, so the object can keep its address
            let id = (p >> 32) as u32;
            let b = st.mem.base;
            match st.mem.heap.get_mut((id - b) as usize) { Some(Some(o)) if p & 0xffff_ffff == 0 => { let o = Arc::make_mut(o); if n < o.data.len() { o.clear_sym(n, o.data.len() - n) } o.data.resize(n, 0) } _ => return err("realloc of bad pointer") }
            X::Ret(V::C(p))
        }
        "free" => {
            let p = conc(w, st, &a[0], 64)?;
            if p != 0 {
                let id = (p >> 32) as u32;
                if p & 0xffff_ffff != 0 || id < st.mem.base || !matches!(st.mem.heap.get((id - st.mem.base) as usize), Some(Some(_))) { return err(format!("free of bad pointer {:#x}", p)) }
                st.mem.release(id);
            }
            X::Void
        }
        "memcmp" | "bcmp" => {
            let n = conc(w, st, &a[2], 64)? as usize;
            if n == 0 { return Ok(X::Ret(V::C(0))) }
            let p = conc(w, st, &a[0], 64)?; let q = conc(w, st, &a[1], 64)?;
            let (x, y) = (w.rd_bytes(st, p, n)?, w.rd_bytes(st, q, n)?);
            X::Ret(memcmp_v(&x, &y))
        }
        "strlen" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; X::Ret(V::C(s.len() as u128)) }
        "memchr" | "memrchr" => {
            let (p, n) = (c(&a[0])?, conc(w, st, &a[2], 64)? as usize);
            let ch = match &a[1] { V::C(x) => cst(*x & 0xff, 8), V::S(e) => expr::extract(e, 0, 8), _ => return err("memchr") };
            if n == 0 { return Ok(X::Ret(V::C(0))) }
            let bs = w.rd_bytes(st, p, n)?;
            let idx: Vec<usize> = if nm == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
            for i in idx {
                let e = match &bs[i] { B::C(c) => cst(*c as u128, 8), B::S(e) => e.clone() };
                let q = expr::eq(&e, &ch);
                if w.decide(st, &q)? { return Ok(X::Ret(V::C(p + i as u128))) }
            }
            X::Ret(V::C(0))
        }
        "memcpy" | "memmove" => { let (d, s, n) = (c(&a[0])?, c(&a[1])?, conc(w, st, &a[2], 64)?); w.copy(st, d, s, n as usize)?; X::Ret(V::C(d)) }
        // ----- process -----
        "__errno_location" => X::Ret(V::C(errno_addr(st))),
        "abort" => X::Flow(w.unwind_run(st, 2)?),
        "exit" | "_exit" => { let k = conc(w, st, &a[0], 32)? as u32; X::Flow(w.unwind_run(st, 3 + (k & 0xff))?) }
        "getenv" => {
            let p = c(&a[0])?; let k = cstr(w, st, p)?;
            let key: Vec<u8> = show_bytes(&k, None).into_bytes();
            match st.os.env.get(&key).cloned() {
                None => X::Ret(V::C(0)),
                Some(v) => {
                    if let Some(p) = st.os.envptr.get(&key) { return Ok(X::Ret(V::C(*p))) }
                    let p = alloc(st, v.len() + 1); w.wr_bytes(st, p, &v)?; os(st).envptr.insert(key, p); X::Ret(V::C(p))
                }
            }
        }
        "setenv" => { let k = { let p = c(&a[0])?; cstr(w, st, p)? }; let v = { let p = c(&a[1])?; cstr(w, st, p)? }; let key = show_bytes(&k, None).into_bytes(); let o = os(st); o.envptr.remove(&key); o.env.insert(key, v); environ(w, st)?; X::Ret(V::C(0)) }
        "unsetenv" => { let k = { let p = c(&a[0])?; cstr(w, st, p)? }; let key = show_bytes(&k, None).into_bytes(); let o = os(st); o.envptr.remove(&key); o.env.remove(&key); environ(w, st)?; X::Ret(V::C(0)) }
        "isatty" => { set_errno(w, st, 25)?; X::Ret(V::C(0)) }
        "getpid" => { let p = st.os.pid + st.tid; X::Ret(V::C(p as u128)) }
        "gettid" => X::Ret(V::C((st.os.pid + st.tid) as u128)),
        "getuid" | "geteuid" => X::Ret(V::C(1000)),
        "pthread_self" => X::Ret(V::C(0x7000_0000 + st.tid as u128)),
        "clock_gettime" => {
            let p = c(&a[1])?;
            if !st.os.symclock { os(st).clock += 1000; }
            let t = st.os.clock; let id = c(&a[0])?;
            let base = if id & 0xffff_ffff == 0 { 0 } else { 1_599_999_000_000_000_000 };
            w.wr(st, p, 8, &V::C(((t - base) / 1_000_000_000) as u128))?; w.wr(st, p + 8, 8, &V::C((t % 1_000_000_000) as u128))?; X::Ret(V::C(0))
        }
        "getrandom" => {
            let p = c(&a[0])?; let n = conc(w, st, &a[1], 64)? as usize;
            let mut b = vec![];
            for _ in 0..n { let o = os(st); o.rnd = o.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); b.push(B::C((o.rnd >> 33) as u8)) }
            w.wr_bytes(st, p, &b)?; X::Ret(V::C(n as u128))
        }
        "sysconf" => { let k = c(&a[0])?; X::Ret(V::C(match k as u32 { 30 => 4096, 84 | 83 => 4, 70 => 1024, _ => u64::MAX as u128 })) }
        "getauxval" => X::Ret(V::C(0)),
        "getcwd" => { let p = c(&a[0])?; let mut s = st.os.path_of(st.os.cwd); s.push(B::C(0)); w.wr_bytes(st, p, &s)?; X::Ret(V::C(p)) }
        "gnu_get_libc_version" => { let p = alloc(st, 8); let s: Vec<B> = b"2.39\0".iter().map(|b| B::C(*b)).collect(); w.wr_bytes(st, p, &s)?; X::Ret(V::C(p)) }
        "dlsym" => { let p = c(&a[1])?; let s = cstr(w, st, p)?; let n = show_bytes(&s, None); X::Ret(V::C(match w.m.syms.get(n.as_str()) { Some(id) => addr(*id, 0), None => 0 })) }
        "dl_iterate_phdr" => X::Ret(V::C(0)),
        "_Unwind_Backtrace" => X::Ret(V::C(5)),
        "sched_yield" | "pthread_setname_np" | "pthread_mutex_init" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_destroy" => X::Ret(V::C(0)),
        "signal" | "sigaction" | "sigaltstack" | "sigemptyset" | "poll" => X::Ret(V::C(0)),
        "__cxa_thread_atexit_impl" => X::Ret(V::C(0)),
        "pthread_key_create" => { let p = c(&a[0])?; let o = os(st); o.tlskeys += 1; let k = o.tlskeys; w.wr(st, p, 4, &V::C(k as u128))?; X::Ret(V::C(0)) }
        "pthread_key_delete" => X::Ret(V::C(0)),
        "pthread_setspecific" => { let k = c(&a[0])? as u32; let t = st.tid; os(st).tlsvals.insert((t, k), a[1].clone()); X::Ret(V::C(0)) }
        "pthread_getspecific" => { let k = c(&a[0])? as u32; X::Ret(st.os.tlsvals.get(&(st.tid, k)).cloned().unwrap_or(V::C(0))) }
        "__xpg_strerror_r" | "strerror_r" => {
            let e = conc(w, st, &a[0], 32)?; let p = c(&a[1])?; let n = conc(w, st, &a[2], 64)? as usize;
            let t = match e as i32 { 1 => "Operation not permitted", 2 => "No such file or directory", 4 => "Interrupted system call", 5 => "Input/output error", 9 => "Bad file descriptor", 11 => "Resource temporarily unavailable", 12 => "Cannot allocate memory", 13 => "Permission denied", 16 => "Device or resource busy", 17 => "File exists", 18 => "Invalid cross-device link", 20 => "Not a directory", 21 => "Is a directory", 22 => "Invalid argument", 24 => "Too many open files", 26 => "Text file busy", 27 => "File too large", 28 => "No space left on device", 30 => "Read-only file system", 31 => "Too many links", 32 => "Broken pipe", 36 => "File name too long", 38 => "Function not implemented", 39 => "Directory not empty", 40 => "Too many levels of symbolic links", 95 => "Operation not supported", 122 => "Disk quota exceeded", _ => "Unknown error" };
            let mut s: Vec<B> = t.bytes().take(n.saturating_sub(1)).map(B::C).collect(); s.push(B::C(0)); w.wr_bytes(st, p, &s)?; X::Ret(V::C(0))
        }
        "sched_getaffinity" => { let n = c(&a[1])? as usize; let p = c(&a[2])?; let mut b = vec![B::C(0); n]; b[0] = B::C(15); w.wr_bytes(st, p, &b)?; X::Ret(V::C(0)) }
        "nanosleep" | "clock_nanosleep" | "usleep" => {
            let ns = if nm == "usleep" { c(&a[0])? * 1000 } else {
                let p = c(&a[if nm == "nanosleep" { 0 } else { 2 }])?;
                let (s, n) = (w.rd(st, p, 8)?, w.rd(st, p + 8, 8)?);
                if nm == "clock_nanosleep" && c(&a[1])? != 0 { return err("absolute sleep") }
                c(&s)? * 1_000_000_000 + c(&n)?
            };
            os(st).clock += ns as u64; X::Ret(V::C(0))
        }
        "syscall" => {
            let n = c(&a[0])?;
            match n {
                202 => X::Ret(V::C(0)), // futex
                186 => X::Ret(V::C(st.os.pid as u128)),
                318 => return ext(w, st, "getrandom", a[1..].to_vec()),
                435 | 332 | 326 | 439 => fail64(w, st, ENOSYS)?,
                _ => return err(format!("syscall {}", n)),
            }
        }
        "localtime_r" | "gmtime_r" | "tzset" => return err(format!("unmodelled {}", nm)),
        // ----- files -----
        "open64" | "open" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; let fl = conc(w, st, &a[1], 32)?; let m = if a.len() > 2 { conc(w, st, &a[2], 32)? } else { 0 }; return do_open(w, st, s, fl, m) }
        "close" => {
            let fd = c(&a[0])? as u32;
            let o = os(st);
            match o.fds.get_mut(fd as usize) { Some(f @ Some(_)) => { let of = f.take().unwrap(); if !o.fds.iter().any(|x| *x == Some(of)) && of != 0 { o.ofds[of as usize] = None } X::Ret(V::C(0)) } _ => return fail(w, st, EBADF) }
        }
        "dup" | "fcntl" => {
            let fd = c(&a[0])?;
            if nm == "fcntl" {
                let cmd = c(&a[1])?;
                if cmd == 1 || cmd == 3 { return Ok(X::Ret(V::C(0))) }
                if cmd == 2 || cmd == 4 { return Ok(X::Ret(V::C(0))) }
                if cmd != 0 && cmd != 1030 { return err(format!("fcntl {}", cmd)) }
            }
            match st.os.ofd_of(fd) { Some(o) => X::Ret(V::C(os(st).new_fd_for(o) as u128)), None => return fail(w, st, EBADF) }
        }
        "read" | "pread64" => {
            let fd = c(&a[0])?; let n = conc(w, st, &a[2], 64)? as usize; let buf = c(&a[1])?;
            let Some(o) = st.os.ofd_of(fd) else { return if fd == 0 { Ok(X::Ret(V::C(0))) } else { fail64(w, st, EBADF) } };
            let d = fd_desc(st, o);
            match op(w, st, false, false, "read", d)? { Hit::Err(e) => return fail64(w, st, e), _ => {} }
            let at = if nm == "pread64" { Some(conc(w, st, &a[3], 64)? as u64) } else { None };
            let r = file_read(w, st, o, buf, n, at)?;
            if r < 0 { return fail64(w, st, -r as i32) }
            X::Ret(V::C(r as u128))
        }
        "readv" => {
            let fd = c(&a[0])?; let (iov, cnt) = (c(&a[1])?, c(&a[2])?);
            let Some(o) = st.os.ofd_of(fd) else { return fail64(w, st, EBADF) };
            let d = fd_desc(st, o);
            match op(w, st, false, false, "readv", d)? { Hit::Err(e) => return fail64(w, st, e), _ => {} }
            let mut tot = 0;
            for i in 0..cnt {
                let b = w.rd(st, iov + i * 16, 8)?; let l = w.rd(st, iov + i * 16 + 8, 8)?;
                let (b, l) = (c(&b)?, c(&l)? as usize);
                let r = file_read(w, st, o, b, l, None)?;
                if r < 0 { return fail64(w, st, -r as i32) }
                tot += r; if (r as usize) < l { break }
            }
            X::Ret(V::C(tot as u128))
        }
        "write" | "writev" | "pwrite64" => {
            let fd = c(&a[0])?;
            let mut bytes = vec![];
            if nm == "writev" {
                let (iov, cnt) = (c(&a[1])?, c(&a[2])?);
                for i in 0..cnt { let b = w.rd(st, iov + i * 16, 8)?; let l = w.rd(st, iov + i * 16 + 8, 8)?; let (b, l) = (c(&b)?, c(&l)? as usize); bytes.extend(w.rd_bytes(st, b, l)?) }
            } else { let n = conc(w, st, &a[2], 64)? as usize; let p = c(&a[1])?; bytes = w.rd_bytes(st, p, n)? }
            if (fd as u32) < 3 { if std::env::var_os("SYMRUST_OUT").is_some() { eprint!("{}", show_bytes(&bytes, Some(&st.model))) } return Ok(X::Ret(V::C(bytes.len() as u128))) }
            let Some(o) = st.os.ofd_of(fd) else { return fail64(w, st, EBADF) };
            let at = if nm == "pwrite64" { Some(conc(w, st, &a[3], 64)? as u64) } else { None };
            let d = format!("{} {}", fd_desc(st, o), bytes.len());
            let mut n = bytes.len();
            match op(w, st, true, true, "write", d)? {
                Hit::Err(e) => return fail64(w, st, e), Hit::Crash => return Ok(X::Crash),
                Hit::Mid => { let k = (bytes.len() + 1) / 2; file_write(st, o, &bytes[..k.min(bytes.len().saturating_sub(0))], at); return Ok(X::Crash) }
                Hit::Short => { n = (n + 1) / 2 }
                Hit::No => {}
            }
            if !st.os.ofds[o as usize].as_ref().unwrap().wr { return fail64(w, st, EBADF) }
            file_write(st, o, &bytes[..n], at);
            X::Ret(V::C(n as u128))
        }
        "lseek64" => {
            let fd = c(&a[0])?; let off = sxl(conc(w, st, &a[1], 64)?); let wh = c(&a[2])?;
            let Some(o) = st.os.ofd_of(fd) else { return fail64(w, st, EBADF) };
            let of = st.os.ofds[o as usize].clone().unwrap();
            let size = match &st.os.ino(of.ino).k { NK::File(d) => d.data.len() as i64, _ => 0 };
            let np = match wh { 0 => off, 1 => of.pos as i64 + off, 2 => size + off, _ => -1 };
            if np < 0 { return fail64(w, st, EINVAL) }
            os(st).ofds[o as usize].as_mut().unwrap().pos = np as u64;
            X::Ret(V::C(np as u128))
        }
        "fsync" | "fdatasync" => { match op(w, st, false, false, "fsync", String::new())? { Hit::Err(e) => return fail(w, st, e), _ => {} } X::Ret(V::C(0)) }
        "ftruncate64" | "ftruncate" => {
            let fd = c(&a[0])?; let n = conc(w, st, &a[1], 64)? as usize;
            let Some(o) = st.os.ofd_of(fd) else { return fail(w, st, EBADF) };
            match op(w, st, true, false, "ftruncate", format!("{}", n))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
            let ino = st.os.ofds[o as usize].as_ref().unwrap().ino;
            if let NK::File(d) = &mut os(st).ino_mut(ino).k { let d = Arc::make_mut(d); if n < d.data.len() { let l = d.data.len(); d.clear_sym(n, l - n) } d.data.resize(n, 0) }
            X::Ret(V::C(0))
        }
        "copy_file_range" | "sendfile64" => {
            let (fi, fo, n) = if nm == "copy_file_range" { (c(&a[0])?, c(&a[2])?, conc(w, st, &a[4], 64)?) } else { (c(&a[1])?, c(&a[0])?, conc(w, st, &a[3], 64)?) };
            let (Some(i), Some(o)) = (st.os.ofd_of(fi), st.os.ofd_of(fo)) else { return fail64(w, st, EBADF) };
            let src = st.os.ofds[i as usize].clone().unwrap();
            let node = st.os.ino(src.ino).clone();
            let NK::File(d) = &node.k else { return fail64(w, st, EISDIR) };
            let k = d.data.len().saturating_sub(src.pos as usize).min(n as usize);
            let bytes: Vec<B> = (0..k).map(|x| d.byte(src.pos as usize + x)).collect();
            let mut m = k;
            match op(w, st, k > 0, k > 0, "copy", format!("{}", k))? {
                Hit::Err(e) => return fail64(w, st, e), Hit::Crash => return Ok(X::Crash),
                Hit::Mid => { file_write(st, o, &bytes[..(k + 1) / 2], None); return Ok(X::Crash) }
                Hit::Short => { m = (k + 1) / 2 }
                Hit::No => {}
            }
            file_write(st, o, &bytes[..m], None);
            os(st).ofds[i as usize].as_mut().unwrap().pos += m as u64;
            X::Ret(V::C(m as u128))
        }
        "splice" => return fail64(w, st, EINVAL),
        "unlink" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; return do_unlink(w, st, s, false) }
        "rmdir" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; return do_unlink(w, st, s, true) }
        "unlinkat" => { let p = c(&a[1])?; let mut s = cstr(w, st, p)?; let fl = c(&a[2])?; s = at_path(st, &a[0], s)?; return do_unlink(w, st, s, fl & 0x200 != 0) }
        "rename" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; let q = c(&a[1])?; let t = cstr(w, st, q)?; return do_rename(w, st, s, t) }
        "symlink" => {
            let p = c(&a[0])?; let t = cstr(w, st, p)?; let q = c(&a[1])?; let s = cstr(w, st, q)?;
            match op(w, st, true, false, "symlink", format!("{} -> {}", show_bytes(&s, None), show_bytes(&t, None)))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
            if t.is_empty() { return fail(w, st, ENOENT) }
            let r = match resolve(w, st, &s, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
            if r.ino.is_some() { return fail(w, st, EEXIST) }
            if r.slash { return fail(w, st, ENOENT) }
            guard_mut(w, st, r.parent)?;
            let o = os(st);
            let i = o.add_inode(Inode { k: NK::Link(t.into()), mode: V::C(0o120777), meta: None, nlink: 1 });
            o.link_at(r.parent, r.name, i);
            X::Ret(V::C(0))
        }
        "link" | "linkat" => {
            let (i0, i1) = if nm == "link" { (0, 1) } else { (1, 3) };
            let p = c(&a[i0])?; let t = cstr(w, st, p)?; let q = c(&a[i1])?; let s = cstr(w, st, q)?;
            match op(w, st, true, false, "link", format!("{} = {}", show_bytes(&s, None), show_bytes(&t, None)))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
            let f = match resolve(w, st, &t, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
            let Some(fi) = f.ino else { return fail(w, st, ENOENT) };
            let r = match resolve(w, st, &s, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
            if r.ino.is_some() { return fail(w, st, EEXIST) }
            guard_mut(w, st, r.parent)?;
            let o = os(st); o.link_at(r.parent, r.name, fi); o.ino_mut(fi).nlink += 1;
            X::Ret(V::C(0))
        }
        "mkdir" => {
            let p = c(&a[0])?; let s = cstr(w, st, p)?;
            match op(w, st, true, false, "mkdir", show_bytes(&s, None))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
            let r = match resolve(w, st, &s, false)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
            if r.ino.is_some() { return fail(w, st, EEXIST) }
            guard_mut(w, st, r.parent)?;
            let m = conc(w, st, &a[1], 32)?;
            let i = os(st).mkdir_at(r.parent, r.name);
            os(st).ino_mut(i).mode = V::C(0o40000 | (m & 0o777 & !0o022));
            X::Ret(V::C(0))
        }
        "chdir" => {
            let p = c(&a[0])?; let s = cstr(w, st, p)?;
            let r = match resolve(w, st, &s, true)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
            match r.ino { None => return fail(w, st, ENOENT), Some(i) if !st.os.is_dir(i) => return fail(w, st, ENOTDIR), Some(i) => os(st).cwd = i }
            X::Ret(V::C(0))
        }
        "chmod" | "fchmod" => {
            let ino;
            if nm == "chmod" {
                let p = c(&a[0])?; let s = cstr(w, st, p)?;
                match op(w, st, true, false, "chmod", show_bytes(&s, None))? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
                let r = match resolve(w, st, &s, true)? { Ok(r) => r, Err(e) => return fail(w, st, e) };
                let Some(i) = r.ino else { return fail(w, st, ENOENT) };
                guard_mut(w, st, r.parent)?;
                ino = i;
            } else {
                let Some(o) = st.os.ofd_of(c(&a[0])?) else { return fail(w, st, EBADF) };
                match op(w, st, true, false, "fchmod", String::new())? { Hit::Err(e) => return fail(w, st, e), Hit::Crash => return Ok(X::Crash), _ => {} }
                ino = st.os.ofds[o as usize].as_ref().unwrap().ino;
            }
            let n = os(st).ino_mut(ino);
            let old = to_e(&n.mode, 32);
            let new = to_e(&a[1], 32);
            n.mode = from_e(expr::bin(Op::Or, &expr::bin(Op::And, &old, &cst(0o170000, 32)), &expr::bin(Op::And, &new, &cst(0o7777, 32))));
            X::Ret(V::C(0))
        }
        "stat64" | "stat" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; let b = c(&a[1])?; return do_stat(w, st, s, true, b, false) }
        "lstat64" | "lstat" => { let p = c(&a[0])?; let s = cstr(w, st, p)?; let b = c(&a[1])?; return do_stat(w, st, s, false, b, false) }
        "fstat64" | "fstat" => {
            let Some(o) = st.os.ofd_of(c(&a[0])?) else { return fail(w, st, EBADF) };
            match op(w, st, false, false, "fstat", String::new())? { Hit::Err(e) => return fail(w, st, e), _ => {} }
            let i = st.os.ofds[o as usize].as_ref().unwrap().ino; let b = c(&a[1])?;
            stat_fill(w, st, i, b, false)?; X::Ret(V::C(0))
        }
        "fstatat64" => { let p = c(&a[1])?; let mut s = cstr(w, st, p)?; let fl = c(&a[3])?; let b = c(&a[2])?; s = at_path(st, &a[0], s)?; return do_stat(w, st, s, fl & 0x100 == 0, b, false) }
        "statx" => {
            let p = c(&a[1])?; 
            let fl = c(&a[2])?; let b = c(&a[4])?;
            if p == 0 { return fail(w, st, 14) }
            let s = cstr(w, st, p)?;
            if fl & 0x1000 != 0 && s.is_empty() {
                let Some(o) = st.os.ofd_of(c(&a[0])?) else { return fail(w, st, EBADF) };
                match op(w, st, false, false, "fstat", String::new())? { Hit::Err(e) => return fail(w, st, e), _ => {} }
                let i = st.os.ofds[o as usize].as_ref().unwrap().ino;
                stat_fill(w, st, i, b, true)?;
                return Ok(X::Ret(V::C(0)));
            }
            let s = at_path(st, &a[0], s)?;
            return do_stat(w, st, s, fl & 0x100 == 0, b, true)
        }
        "readlink" => {
            let p = c(&a[0])?; let s = cstr(w, st, p)?; let buf = c(&a[1])?; let n = conc(w, st, &a[2], 64)? as usize;
            match op(w, st, false, false, "readlink", show_bytes(&s, None))? { Hit::Err(e) => return fail64(w, st, e), _ => {} }
            let r = match resolve(w, st, &s, false)? { Ok(r) => r, Err(e) => return fail64(w, st, e) };
            let Some(i) = r.ino else { return fail64(w, st, ENOENT) };
            let t = match &st.os.ino(i).k { NK::Link(t) => t.clone(), _ => return fail64(w, st, EINVAL) };
            let k = t.len().min(n);
            w.wr_bytes(st, buf, &t[..k])?;
            X::Ret(V::C(k as u128))
        }
        "realpath" => {
            let p = c(&a[0])?; let s = cstr(w, st, p)?;
            match op(w, st, false, false, "realpath", show_bytes(&s, None))? { Hit::Err(e) => { set_errno(w, st, e)?; return Ok(X::Ret(V::C(0))) } _ => {} }
            let r = match resolve(w, st, &s, true)? { Ok(r) => r, Err(e) => { set_errno(w, st, e)?; return Ok(X::Ret(V::C(0))) } };
            let Some(i) = r.ino else { set_errno(w, st, ENOENT)?; return Ok(X::Ret(V::C(0))) };
            let mut path = if st.os.is_dir(i) { st.os.path_of(i) } else { let mut v = st.os.path_of(r.parent); v.push(B::C(b'/')); v.extend(r.name.iter().cloned()); v };
            if path.is_empty() { path.push(B::C(b'/')) }
            path.push(B::C(0));
            let q = alloc(st, path.len());
            w.wr_bytes(st, q, &path)?;
            X::Ret(V::C(q))
        }
        "opendir" | "fdopendir" => {
            let ino;
            if nm == "opendir" {
                let p = c(&a[0])?; let s = cstr(w, st, p)?;
                match op(w, st, false, false, "opendir", show_bytes(&s, None))? { Hit::Err(e) => { set_errno(w, st, e)?; return Ok(X::Ret(V::C(0))) } _ => {} }
                let r = match resolve(w, st, &s, true)? { Ok(r) => r, Err(e) => { set_errno(w, st, e)?; return Ok(X::Ret(V::C(0))) } };
                let Some(i) = r.ino else { set_errno(w, st, ENOENT)?; return Ok(X::Ret(V::C(0))) };
                if !st.os.is_dir(i) { set_errno(w, st, ENOTDIR)?; return Ok(X::Ret(V::C(0))) }
                ino = i;
            } else {
                let Some(o) = st.os.ofd_of(c(&a[0])?) else { set_errno(w, st, EBADF)?; return Ok(X::Ret(V::C(0))) };
                ino = st.os.ofds[o as usize].as_ref().unwrap().ino;
            }
            let mut ents = match &st.os.ino(ino).k { NK::Dir { ents, .. } => ents.clone(), _ => vec![] };
            ents.sort_by(|x, y| show_bytes(&x.0, None).cmp(&show_bytes(&y.0, None)));
            let n = ents.len();
            if st.os.dirperm != 0 && n > 1 && st.os.log_ops {
                // any order up to the limit, any rotation/reflection beyond it
                let cnt: u128 = if n <= st.os.dirperm as usize { (1..=n as u128).product() } else { 2 * n as u128 };
                let mut k = w.choose(st, cnt, "dirorder")?;
                if n <= st.os.dirperm as usize {
                    let mut pool = ents; let mut out = vec![];
                    for i in (1..=n).rev() { let f: u128 = (1..i as u128).product(); let j = (k / f) as usize; k %= f; out.push(pool.remove(j)) }
                    ents = out;
                } else { let r = (k % n as u128) as usize; let rev = k >= n as u128; ents.rotate_left(r); if rev { ents.reverse() } }
            }
            let buf = st.mem.alloc(19 + 256 + 5);
            let o = os(st);
            o.streams.push(Some(DirS { ino, ents, pos: 0, buf }));
            let d = o.streams.len() - 1;
            // a DIR handle: address of its dirent buffer object
            let _ = d;
            X::Ret(V::C(addr(buf, 0)))
        }
        "readdir64" | "readdir" => {
            let h = c(&a[0])?; let id = (h >> 32) as u32;
            let Some(k) = st.os.streams.iter().position(|s| s.as_ref().map_or(false, |d| d.buf == id)) else { return err("readdir handle") };
            let d = st.os.streams[k].clone().unwrap();
            if d.pos >= 2 { if let Hit::Err(e) = op(w, st, false, false, "readdir", String::new())? { set_errno(w, st, e)?; return Ok(X::Ret(V::C(0))) } }
            if d.pos >= d.ents.len() + 2 { return Ok(X::Ret(V::C(0))) }
            let (n, i): (Name, u32) = if d.pos == 0 { (name("."), d.ino) } else if d.pos == 1 { (name(".."), d.ino) } else { d.ents[d.pos - 2].clone() };
            os(st).streams[k].as_mut().unwrap().pos += 1;
            let ty = match st.os.inodes[i as usize].as_ref().map(|x| &x.k) { Some(NK::Dir { .. }) => 4, Some(NK::Link(_)) => 10, _ => 8 };
            w.wr(st, h, 8, &V::C(i as u128))?; w.wr(st, h + 8, 8, &V::C(d.pos as u128 + 1))?; w.wr(st, h + 16, 2, &V::C(280))?; w.wr(st, h + 18, 1, &V::C(ty))?;
            let mut b: Vec<B> = n.to_vec(); b.push(B::C(0));
            w.wr_bytes(st, h + 19, &b)?;
            X::Ret(V::C(h))
        }
        "closedir" => { let h = c(&a[0])?; let id = (h >> 32) as u32; let o = os(st); for s in o.streams.iter_mut() { if s.as_ref().map_or(false, |d| d.buf == id) { *s = None } } st.mem.release(id); X::Ret(V::C(0)) }
        "dirfd" => { let h = c(&a[0])?; X::Ret(V::C(0x4000_0000 | ((h >> 32) & 0x3fff_ffff))) }
        "openat64" | "openat" => { let p = c(&a[1])?; let mut s = cstr(w, st, p)?; s = at_path(st, &a[0], s)?; let fl = conc(w, st, &a[2], 32)?; let m = if a.len() > 3 { conc(w, st, &a[3], 32)? } else { 0 }; return do_open(w, st, s, fl, m) }
        _ => return err(format!("unmodelled external function {}", nm)),
    })
}
fn sxl(x: u128) -> i64 { x as u64 as i64 }
fn at_path(st: &State, fd: &V, s: Vec<B>) -> R<Vec<B>> {
    if matches!(s.first(), Some(B::C(b'/'))) { return Ok(s) }
    let V::C(f) = fd else { return err("symbolic dir fd") };
    let f = *f as u32;
    if f as i32 == -100 { return Ok(s) }
    let ino = if f & 0x4000_0000 != 0 { match st.os.streams.iter().flatten().find(|d| d.buf == f & 0x3fff_ffff) { Some(d) => d.ino, None => return err("dirfd") } } else { match st.os.ofd_of(f as u128) { Some(o) => st.os.ofds[o as usize].as_ref().unwrap().ino, None => return err("dirfd") } };
    let mut p = st.os.path_of(ino);
    p.push(B::C(b'/'));
    p.extend(s);
    Ok(p)
}
pub fn memcmp_v(x: &[B], y: &[B]) -> V {
    let e = |b: &B| match b { B::C(c) => cst(*c as u128, 8), B::S(e) => e.clone() };
    let mut acc = cst(0, 32);
    for i in (0..x.len()).rev() {
        match (&x[i], &y[i]) {
            (B::C(p), B::C(q)) => if p != q { acc = cst((*p as i32 - *q as i32) as u32 as u128, 32) },
            _ => {
                let (p, q) = (e(&x[i]), e(&y[i]));
                let lt = expr::cmp(Cmp::Ult, &p, &q);
                let one = expr::ite(&lt, &cst(0xffff_ffff, 32), &cst(1, 32));
                acc = expr::ite(&expr::eq(&p, &q), &acc, &one);
            }
        }
    }
    from_e(acc)
}

pub fn stub_call(w: &mut W, st: &mut State, k: u8, f: u32, a: Vec<V>) -> R<Flow> {
    let _ = (k, f, a);
    w.ret_call(st, Some(V::C(0)))
}

fn label(w: &mut W, st: &mut State, p: &V, n: &V) -> R<String> { let (p, n) = (c(p)?, c(n)? as usize); let b = w.rd_bytes(st, p, n)?; Ok(show_bytes(&b, Some(&st.model))) }

fn hook(w: &mut W, st: &mut State, h: &str, a: Vec<V>) -> R<X> {
    Ok(match h {
        // vp_sym(bytes, tag, len) -> u64
        "sym" => { let n = c(&a[0])? as u32; let t = label(w, st, &a[1], &a[2])?; let v = st.new_var(n * 8, &t); X::Ret(from_e(expr::zext(&v, 64))) }
        // vp_sym_buf(ptr, n, tag, len)
        "sym_buf" => {
            let p = c(&a[0])?; let n = c(&a[1])? as usize; let t = label(w, st, &a[2], &a[3])?;
            let b: Vec<B> = (0..n).map(|_| B::S(st.new_var(8, &t))).collect();
            w.wr_bytes(st, p, &b)?; X::Void
        }
        "concretize" => { let v = a[0].clone(); match v { V::C(_) => X::Ret(v), V::S(e) => { let k = w.concretize(st, &e, 4096, "vp_concretize")?; X::Ret(V::C(k)) } _ => return err("agg") } }
        "assume" => { let e = to_e(&a[0], 32); let cnd = expr::not(&expr::eq(&e, &cst(0, e.w))); w.assume(st, &cnd)?; X::Void }
        "check" => {
            let msg = label(w, st, &a[1], &a[2])?;
            let e = to_e(&a[0], 32); let cnd = expr::not(&expr::eq(&e, &cst(0, e.w)));
            w.check(st, &cnd, &msg)?; X::Void
        }
        "reach" => { let m = label(w, st, &a[0], &a[1])?; *w.sh.res.lock().unwrap().reach.entry(m).or_insert(0) += 1; X::Void }
        "note" => {
            let k = label(w, st, &a[0], &a[1])?; let (p, n) = (c(&a[2])?, conc(w, st, &a[3], 64)? as usize);
            let b = w.rd_bytes(st, p, n)?;
            if w.cfg.verbose { eprintln!("note {}: {}", k, show_bytes(&b, Some(&st.model))) }
            st.notes.push((k, b)); X::Void
        }
        "known" => {
            let id = label(w, st, &a[1], &a[2])?;
            let e = to_e(&a[0], 32); let cnd = expr::not(&expr::eq(&e, &cst(0, e.w)));
            if w.decide(st, &cnd)? { st.known = Some(Arc::from(id.as_str())) } else { st.known = None }
            X::Void
        }
        "run" => {
            let f = c(&a[0])?; let Some(fi) = w.m.func_at(f) else { return err("vp_run target") };
            let save = RunSave { ov: st.mem.ov.clone(), nfds: st.os.fds.len() };
            w.push_frame(st, fi, &a[1..2], FKind::VpRun)?;
            st.frames.last_mut().unwrap().save = Some(Arc::new(save));
            X::Flow(Flow::Stay)
        }
        // vp_fault(kind, at)
        "fault" => {
            let k = conc(w, st, &a[0], 32)? as u32;
            let at = to_e(&a[1], 64);
            let base = st.os.ops;
            os(st).fault = if k == 0 { None } else { Some(Fault { kind: k, at, base, fired: false, what: 0 }) };
            X::Void
        }
        "fault_fired" => { let f = st.os.fault.as_ref().map_or(0, |f| f.what); X::Ret(V::C(f as u128)) }
        "ops" => X::Ret(V::C(st.os.ops as u128)),
        "scratch" => { let p = c(&a[0])?; let s: Vec<B> = b"/scratch".iter().map(|b| B::C(*b)).collect(); w.wr_bytes(st, p, &s)?; X::Ret(V::C(8)) }
        // vp_contain(ptr,len): only mutations below the listed directories are allowed from now on
        "contain" => {
            let (p, n) = (c(&a[0])?, c(&a[1])? as usize);
            if n == 0 { let o = os(st); o.contain = true; return Ok(X::Void) }
            let b = w.rd_bytes(st, p, n)?;
            match resolve(w, st, &b, true)? { Ok(Res { ino: Some(i), .. }) => { let o = os(st); o.allow.push(i) } _ => return err("vp_contain path") }
            X::Void
        }
        "contain_off" => { let o = os(st); o.contain = false; o.allow.clear(); let e = o.escapes; o.escapes = 0; X::Ret(V::C(e as u128)) }
        "dirperm" => { let n = c(&a[0])? as u32; os(st).dirperm = n; X::Void }
        "meta" => { let n = c(&a[0])? as u32; os(st).metasym = n; X::Void }
        "freeze_clock" => { let n = c(&a[0])?; os(st).symclock = n != 0; X::Void }
        "advance_clock" => { let n = conc(w, st, &a[0], 64)?; os(st).clock += n as u64; X::Void }
        "seed" => { let n = conc(w, st, &a[0], 64)?; os(st).rnd = (n as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567; X::Void }
        // vp_args(argc, argv): what std would be given before main
        "args" => {
            let Some(fi) = (0..w.m.funcs.len()).find(|i| w.m.funcs[*i].name.contains("ARGV_INIT_ARRAY") && w.m.funcs[*i].body_src.is_some()) else { return err("std's argument hook") };
            let args = [a[0].clone(), a[1].clone(), V::C(0)];
            w.push_frame(st, fi as u32, &args, FKind::Normal)?;
            X::Flow(Flow::Stay)
        }
        "model" => X::Ret(V::C(1)),
        "quiet" => { let n = c(&a[0])?; os(st).log_ops = n == 0; X::Void }
        // vp_par(f, a, g, b, switches) -> rc0 | rc1 << 8
        "par" => {
            let (f, g) = (c(&a[0])?, c(&a[2])?);
            let (Some(fi), Some(gi)) = (w.m.func_at(f), w.m.func_at(g)) else { return err("vp_par target") };
            let sw = c(&a[4])? as u32;
            let first = w.choose(st, 2, "first")? as usize;
            let main = std::mem::take(&mut st.frames);
            w.push_frame(st, fi, &a[1..2], FKind::ParRoot)?;
            let t0 = std::mem::take(&mut st.frames);
            w.push_frame(st, gi, &a[3..4], FKind::ParRoot)?;
            let t1 = std::mem::take(&mut st.frames);
            let mut th = vec![Thread { frames: t0, done: false, rc: 0 }, Thread { frames: t1, done: false, rc: 0 }, Thread { frames: main, done: true, rc: 0 }];
            st.frames = std::mem::take(&mut th[first].frames);
            st.par = Some(Par { threads: th, cur: first, switches_left: sw, preempt: false });
            st.tid = 1 + first as u32;
            X::Flow(Flow::Stay)
        }
        _ => return err(format!("unknown hook vp_{}", h)),
    })
}
