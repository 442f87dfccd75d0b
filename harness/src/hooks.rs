//! Interface between harness and engine (or, for replays, native.c).
extern "C" {
    fn vp_sym(bytes: u32, tag: *const u8, len: usize) -> u64;
    fn vp_sym_buf(p: *mut u8, n: usize, tag: *const u8, len: usize);
    fn vp_concretize(v: u64) -> u64;
    fn vp_assume(c: u32);
    fn vp_check(c: u32, msg: *const u8, len: usize);
    fn vp_reach(msg: *const u8, len: usize);
    fn vp_note(label: *const u8, len: usize, p: *const u8, n: usize);
    fn vp_known(c: u32, id: *const u8, len: usize);
    fn vp_run(f: extern "C" fn(*mut u8), arg: *mut u8) -> u32;
    fn vp_fault(kind: u32, at: u64);
    fn vp_fault_fired() -> u32;
    fn vp_ops() -> u64;
    fn vp_scratch(buf: *mut u8) -> usize;
    fn vp_contain(p: *const u8, n: usize);
    fn vp_contain_off() -> u32;
    fn vp_dirperm(n: u32);
    fn vp_meta(on: u32);
    fn vp_freeze_clock(n: u32);
    fn vp_advance_clock(ns: u64);
    fn vp_seed(n: u64);
    fn vp_model() -> u32;
    fn vp_quiet(n: u32);
    fn vp_args(n: u32, argv: *const *const u8);
    fn vp_par(f: extern "C" fn(*mut u8), a: *mut u8, g: extern "C" fn(*mut u8), b: *mut u8, switches: u32) -> u32;
}
pub fn sym(bytes: u32, tag: &str) -> u64 { unsafe { vp_sym(bytes, tag.as_ptr(), tag.len()) } }
pub fn sym_u8(tag: &str) -> u8 { sym(1, tag) as u8 }
/// a symbolic number below `n`
pub fn below(n: u64, tag: &str) -> u64 { let v = sym(if n <= 256 { 1 } else { 8 }, tag); assume(v < n); v }
/// one of `n` cases, each explored on a path of its own
pub fn choose(n: u64, tag: &str) -> u64 { if n <= 1 { return 0 } let v = below(n, tag); unsafe { vp_concretize(v) } }
pub fn flag(tag: &str) -> bool { choose(2, tag) == 1 }
pub fn bytes(n: usize, tag: &str) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { vp_sym_buf(v.as_mut_ptr(), n, tag.as_ptr(), tag.len()) } } v }
pub fn concretize(v: u64) -> u64 { unsafe { vp_concretize(v) } }
pub fn assume(c: bool) { unsafe { vp_assume(c as u32) } }
pub fn check(c: bool, msg: &str) { unsafe { vp_check(c as u32, msg.as_ptr(), msg.len()) } }
pub fn reach(msg: &str) { unsafe { vp_reach(msg.as_ptr(), msg.len()) } }
pub fn note(label: &str, v: &[u8]) { unsafe { vp_note(label.as_ptr(), label.len(), v.as_ptr(), v.len()) } }
pub fn known(c: bool, id: &str) { unsafe { vp_known(c as u32, id.as_ptr(), id.len()) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Returned, Crashed, Panicked, Exited(u32) }
fn end(c: u32) -> End { match c { 0 => End::Returned, 1 => End::Crashed, 2 => End::Panicked, n => End::Exited(n - 3) } }
extern "C" fn tramp<F: FnOnce()>(p: *mut u8) { unsafe { let f = std::ptr::read(p as *mut F); f() } }
/// Runs `f` as a process of its own: a crash or panic ends it, files stay.
pub fn run<F: FnOnce()>(f: F) -> End {
    let mut f = std::mem::ManuallyDrop::new(f);
    end(unsafe { vp_run(tramp::<F>, &mut *f as *mut F as *mut u8) })
}
pub fn par<F: FnOnce(), G: FnOnce()>(f: F, g: G, switches: u32) -> (End, End) {
    let mut f = std::mem::ManuallyDrop::new(f);
    let mut g = std::mem::ManuallyDrop::new(g);
    let r = unsafe { vp_par(tramp::<F>, &mut *f as *mut F as *mut u8, tramp::<G>, &mut *g as *mut G as *mut u8, switches) };
    (end(r & 255), end(r >> 8 & 255))
}
pub const ERR: u32 = 1; pub const CRASH: u32 = 2; pub const MID: u32 = 3; pub const SHORT: u32 = 4; pub const FULL: u32 = 5; pub const READ_ONLY: u32 = 6;
pub fn fault(kind: u32, at: u64) { unsafe { vp_fault(kind, at) } }
/// What the injected fault hit: 0 nothing yet, 1 an operation that only reads, 2 one that removes something, 3 any other.
pub fn fault_hit() -> u32 { unsafe { vp_fault_fired() } }
pub fn fault_fired() -> bool { unsafe { vp_fault_fired() != 0 } }
pub fn ops() -> u64 { unsafe { vp_ops() } }
pub fn scratch() -> std::path::PathBuf { let mut b = [0u8; 512]; let n = unsafe { vp_scratch(b.as_mut_ptr()) }; std::path::PathBuf::from(std::str::from_utf8(&b[..n]).unwrap()) }
pub fn contain(paths: &[&std::path::Path]) { for p in paths { let s = p.to_str().unwrap(); unsafe { vp_contain(s.as_ptr(), s.len()) } } unsafe { vp_contain(std::ptr::null(), 0) } }
pub fn contain_off() -> u32 { unsafe { vp_contain_off() } }
pub fn dirperm(n: u32) { unsafe { vp_dirperm(n) } }
pub fn meta(on: bool) { unsafe { vp_meta(on as u32) } }
pub fn freeze_clock(on: bool) { unsafe { vp_freeze_clock(on as u32) } }
pub fn advance_clock(ns: u64) { unsafe { vp_advance_clock(ns) } }
pub fn seed(n: u64) { unsafe { vp_seed(n) } }
pub fn model() -> bool { unsafe { vp_model() != 0 } }
/// While on, file-system operations are the harness's own and are neither counted nor traced.
pub fn quiet(on: bool) { unsafe { vp_quiet(on as u32) } }
/// What `std::env::args` answers from now on.
pub fn args_are(args: &[String]) {
    let mut p: Vec<*const u8> = args.iter().map(|a| { let mut b = a.clone().into_bytes(); b.push(0); Box::leak(b.into_boxed_slice()).as_ptr() }).collect();
    p.push(std::ptr::null());
    let p = Box::leak(p.into_boxed_slice());
    unsafe { vp_args(args.len() as u32, p.as_ptr()) }
}
