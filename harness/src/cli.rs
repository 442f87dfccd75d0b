//! C23: the command line.  The root of this crate is a copy of artefacta's own main program
//! (bin_main.rs, written by bin/vp.py), with its `main` renamed; this file is a module of it.
#![allow(dead_code)]
mod hooks;
mod util;
use hooks::*;
use util::*;
use std::path::Path;

extern "C" { fn vp_native_begin() -> i32; fn vp_native_end() -> i32; }

trait Ended { fn good(self) -> bool; }
impl Ended for () { fn good(self) -> bool { true } }
impl<E: std::fmt::Debug> Ended for Result<(), E> { fn good(self) -> bool { match self { Ok(()) => true, Err(e) => { eprintln!("Error: {:?}", e); false } } } }
impl Ended for std::process::ExitCode { fn good(self) -> bool { format!("{:?}", self) == format!("{:?}", std::process::ExitCode::SUCCESS) } }

/// Runs the main program with these arguments as a process.
fn artefacta(args: &[String]) -> Out {
    args_are(args);
    process(|| Ended::good(crate::vp_bin_main()))
}

struct World { s: Stores }
/// Two stores and things to add, below `root`.
fn world(root: &Path, c: &[Vec<u8>]) -> World {
    mkdir(root);
    let s = Stores { local: root.join("local"), remote: root.join("remote"), current: root.join("local/current"), root: root.into() };
    mkdir(&s.local);
    mkdir(&s.remote);
    put(&s.l("1.tar.zst"), &frame(&c[0]));
    put(&s.r("1.tar.zst"), &frame(&c[0]));
    put(&s.r("2.tar.zst"), &frame(&c[1]));
    put(&s.l("il-1.1.tar.zst"), &frame(&c[0]));
    put(&s.l("il-1.2.tar.zst"), &frame(&c[1]));
    put(&s.r("1.0.tar.zst"), &frame(&c[0]));
    put(&s.r("1.1.tar.zst"), &frame(&c[1]));
    put(&root.join("3.tar.zst"), &frame(&c[2]));
    mkdir(&root.join("pkg"));
    put(&root.join("pkg/f"), &c[2]);
    World { s }
}
/// What is in the stores, with links relative to them.
fn state(w: &World) -> (Tree, Tree) {
    let mut t = tree(&w.s.local);
    for (_, n) in t.iter_mut() { if let Node::Link(p) = n { if let Ok(r) = p.strip_prefix(&w.s.root) { let r = r.to_path_buf(); *p = r } } }
    (t, tree(&w.s.remote))
}
const VERS: [&str; 4] = ["a---b", "a/b", "x-", "-1"];
/// Command number `k`: its words, what it must do, and whether that is to succeed.
fn command(k: u64, root: &Path) -> (Vec<String>, Vec<(&'static str, &'static str)>) {
    let p = |n: &str| root.join(n).to_str().unwrap().to_string();
    let w = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut env = vec![];
    let words = match k {
        0 => w(&["install", "2"]),
        1 => w(&["install", "7"]),
        2 => w(&["sync"]),
        3 => w(&["create-patch", "1", "2"]),
        4 => w(&["create-patch", "2", "1"]),
        5 => w(&["create-patch", "1", "7"]),
        6 => w(&["add", &p("3.tar.zst")]),
        7 => w(&["add", &p("3.tar.zst"), "--upload"]),
        8 => w(&["add", "--calc-patch-from", "1", &p("3.tar.zst")]),
        9 => w(&["add-package", "4", &p("pkg")]),
        10 => w(&["add-package", "4", &p("pkg"), "--upload", "--calc-patch-from=2"]),
        11 => w(&["add-package", "4", &p("nothing")]),
        12 => w(&["auto-patch", "--repo-root", &p(""), "1.1"]),
        13 => w(&["auto-patch", "--prefix", "il-", "1.2"]),
        14 => { env.push(("CI_COMMIT_REF_NAME", "1.1")); w(&["auto-patch"]) }
        15 => { env.push(("CI_COMMIT_REF_NAME", "7")); w(&["auto-patch", "1.1"]) }
        16 => w(&["debug"]),
        17 => w(&["add", &p("pkg")]),
        _ => unreachable!(),
    };
    (words, env)
}
fn library(k: u64, w: &World) -> Out {
    let (l, r, root) = (&w.s.local, &w.s.remote_storage(), &w.s.root);
    match k {
        0 => cmd_install(l, r, "2"),
        1 => cmd_install(l, r, "7"),
        2 => cmd_sync(l, r),
        3 => cmd_create_patch(l, r, "1", "2"),
        4 => cmd_create_patch(l, r, "2", "1"),
        5 => cmd_create_patch(l, r, "1", "7"),
        6 => cmd_add(l, r, &root.join("3.tar.zst"), false, None),
        7 => cmd_add(l, r, &root.join("3.tar.zst"), true, None),
        8 => cmd_add(l, r, &root.join("3.tar.zst"), false, Some("1")),
        9 => cmd_add_package(l, r, "4", &root.join("pkg"), false, None),
        10 => cmd_add_package(l, r, "4", &root.join("pkg"), true, Some("2")),
        11 => cmd_add_package(l, r, "4", &root.join("nothing"), false, None),
        12 | 14 | 15 => cmd_auto_patch(l, r, "1.1", ""),
        13 => cmd_auto_patch(l, r, "1.2", "il-"),
        16 => process(|| open(l, r).is_some()),
        17 => cmd_add(l, r, &root.join("pkg"), false, None),
        _ => unreachable!(),
    }
}
fn tags() {
    let w = git2::world();
    *w = git2::World::default();
    for (i, t) in ["refs/tags/1.1", "refs/tags/1.0", "refs/tags/0.2"].iter().enumerate() { w.refs.push(git2::Ref { name: t.as_bytes().to_vec(), seconds: i as i64, commit: true }) }
}
/// Every command does what its name says, to the stores it is given.
pub fn commands(arg: u64) {
    let root = scratch();
    let c = contents(3, 6);
    let k = choose(18, "command");
    let (main, twin, decoy) = (world(&root.join("main"), &c), world(&root.join("twin"), &c), world(&root.join("decoy"), &c));
    tags();
    let (mut words, mut env) = command(k, &main.s.root);
    let how = choose(if arg & 1 == 0 { 6 } else { 16 }, "stores");
    let how = if arg & 1 == 0 { [0, 5, 10, 15, 11, 14][how as usize] } else { how };
    let mut a = vec!["artefacta".to_string()];
    for (opt, var, path, other, how) in [("--local", "ARTEFACTA_LOCAL_STORE", &main.s.local, &decoy.s.local, how & 3), ("--remote", "ARTEFACTA_REMOTE_STORE", &main.s.remote, &decoy.s.remote, how >> 2)].iter() {
        let p = path.to_str().unwrap();
        match how {
            0 => { a.push(opt.to_string()); a.push(p.into()) }
            1 => a.push(format!("{}={}", opt, p)),
            2 => std::env::set_var(var, p),
            _ => { std::env::set_var(var, other); a.push(opt.to_string()); a.push(p.into()) }
        }
    }
    match if arg & 2 == 0 { (how + k) % 5 } else { choose(5, "verbosity") } {
        1 => a.push("-v".into()),
        2 => a.insert(1, "--verbose".into()),
        3 => env.push(("RUST_LOG", "off")),
        4 => env.push(("RUST_LOG", "artefacta=trace")),
        _ => {}
    }
    a.append(&mut words);
    for (n, v) in &env { std::env::set_var(n, v) }
    let before = (tree(&decoy.s.root), state(&main));
    // first, as the error hooks can be set once per process
    let got = artefacta(&a);
    for (n, _) in &env { std::env::remove_var(n) }
    if k >= 12 && k <= 15 {
        quiet(true);
        let at = std::fs::canonicalize(if k == 12 { root.join("main") } else { std::env::current_dir().unwrap() }).ok();
        let asked: Vec<_> = git2::world().asked.iter().map(|p| std::fs::canonicalize(p).ok()).collect();
        quiet(false);
        // 15 fails before it looks at any tags
        check(asked.iter().all(|p| *p == at) && (k == 15 || !asked.is_empty()), "the tags of another repository are used");
    }
    let want = library(k, &twin);
    check(got.ok() || got.failed(), "the command line panics");
    check(want.ok() == got.ok(), "the exit status is not that of the command");
    let (m, t) = (state(&main), state(&twin));
    check(same(&m.0, &t.0), "the command line does something else to the local store");
    check(same(&m.1, &t.1), "the command line does something else to the remote store");
    check(same(&before.0, &tree(&decoy.s.root)), "a store that was not named is changed");
    if k == 16 { check(got.ok() && same(&m.0, &(before.1).0) && same(&m.1, &(before.1).1), "`debug` fails or changes a store") }
    reach(if got.ok() { "done" } else { "failed" });
}
/// A command that says it succeeded has done everything.
pub fn faults(arg: u64) {
    let root = scratch();
    let c = contents(3, 6);
    let k = [0, 2, 3, 6, 7, 8, 9, 10, 12, 13][choose(10, "command") as usize];
    let (main, twin) = (world(&root.join("main"), &c), world(&root.join("twin"), &c));
    tags();
    let (mut words, _) = command(k, &main.s.root);
    let mut a: Vec<String> = ["artefacta", "--local", main.s.local.to_str().unwrap(), "--remote", main.s.remote.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
    a.append(&mut words);
    fault(if arg == 0 { FULL } else { [FULL, ERR, SHORT][choose(3, "kind") as usize] }, sym(8, "at"));
    let got = artefacta(&a);
    let fired = fault_fired();
    fault(0, 0);
    // the option parser reads locations twice and panics where the second time something else is there; that is no success either
    let want = library(k, &twin);
    if !fired { check(got.ok() == want.ok(), "the exit status is not that of the command") }
    if got.ok() {
        let (m, t) = (state(&main), state(&twin));
        let artefacts = |t: &Tree| -> Tree { t.iter().filter(|x| is_artefact(&x.0) || x.0 == "current").cloned().collect() };
        check(want.ok() && same(&artefacts(&m.0), &artefacts(&t.0)) && same(&artefacts(&m.1), &artefacts(&t.1)), "the exit status says success, but not everything was done");
        reach("done")
    } else { reach("failed") }
}
/// What cannot be understood does nothing and fails.
pub fn refused(arg: u64) {
    let root = scratch();
    let c = contents(3, 2);
    let main = world(&root.join("main"), &c);
    tags();
    let (l, r) = (main.s.local.to_str().unwrap().to_string(), main.s.remote.to_str().unwrap().to_string());
    let bad = VERS[choose(if arg == 0 { 3 } else { 4 }, "version") as usize];
    let k = choose(19, "line");
    let file = main.s.root.join("3.tar.zst");
    let file = file.to_str().unwrap();
    let words: Vec<&str> = match k {
        0 => vec!["--local", &l, "--remote", &r],
        1 => vec!["--local", &l, "--remote", &r, "upgrade", "2"],
        14 => vec!["--local", &l, "install", "1"],
        15 => vec!["--local", &l, "sync"],
        16 => vec!["--local", &l, "add-package", "4", file],
        17 => vec!["--remote", &r, "sync"],
        18 => vec!["--remote", &r, "debug"],
        2 => vec!["--local", &l, "install", "2"],
        3 => vec!["--remote", &r, "install", "2"],
        4 => vec!["--local", &l, "--remote", "ftp://x/y", "install", "2"],
        5 => vec!["--local", &l, "--remote", &r, "install", bad],
        6 => vec!["--local", &l, "--remote", &r, "install"],
        7 => vec!["--local", &l, "--remote", &r, "create-patch", "1"],
        8 => vec!["--local", &l, "--remote", &r, "create-patch", "1", "2", "3"],
        9 => vec!["--local", &l, "--remote", &r, "add", file, "--calc-patch-from", bad],
        10 => vec!["--local", &l, "--remote", &r, "add-package", bad, file],
        11 => vec!["--local", &l, "--remote", &r, "sync", "--everything"],
        12 => vec!["--local", &l, "--remote", &r, "auto-patch"],
        13 => vec!["--local", &l, "--remote", &r, "create-patch", bad, "1"],
        _ => unreachable!(),
    };
    let mut a = vec!["artefacta".to_string()];
    a.extend(words.iter().map(|s| s.to_string()));
    // a store found in the working directory was not named either
    std::env::set_current_dir(&main.s.local).unwrap();
    let before = tree(&main.s.root);
    let o = artefacta(&a);
    std::env::set_current_dir(&root).unwrap();
    check(o.failed(), "a command line that cannot be understood is accepted");
    check(same(&before, &tree(&main.s.root)), "a command line that cannot be understood changes a store");
    reach("refused");
}

/// Any text where a version is expected.
pub fn versions(arg: u64) {
    let root = scratch();
    let c = contents(3, 2);
    let k = choose(5, "command");
    let n = choose(arg + 1, "length") as usize;
    let t = bytes(n, "version");
    for b in &t { assume(*b != 0) }
    let t = match String::from_utf8(t) { Ok(t) => t, Err(_) => return };
    let (main, twin) = (world(&root.join("main"), &c), world(&root.join("twin"), &c));
    tags();
    let dir = main.s.root.join("pkg").to_str().unwrap().to_string();
    let file = main.s.root.join("3.tar.zst").to_str().unwrap().to_string();
    let mut a: Vec<String> = ["artefacta", "--local", main.s.local.to_str().unwrap(), "--remote", main.s.remote.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
    let words: Vec<&str> = match k {
        0 => vec!["install", &t],
        1 => vec!["create-patch", "1", &t],
        2 => vec!["create-patch", &t, "2"],
        3 => vec!["add-package", &t, &dir],
        _ => vec!["add", &file, "--calc-patch-from", &t],
    };
    a.extend(words.iter().map(|s| s.to_string()));
    let before = state(&main);
    let got = artefacta(&a);
    let after = state(&main);
    let option = t.starts_with('-');
    let proper = t.parse::<artefacta::Version>().is_ok();
    check(got.ok() || got.failed(), "the command line panics");
    if option || !proper {
        check(option || got.failed(), "something that is no version is accepted");
        check(same(&before.0, &after.0) && same(&before.1, &after.1), "a command line that cannot be understood changes a store");
        reach("refused");
        return
    }
    let (l, r) = (&twin.s.local, &twin.s.remote_storage());
    let want = match k {
        0 => cmd_install(l, r, &t),
        1 => cmd_create_patch(l, r, "1", &t),
        2 => cmd_create_patch(l, r, &t, "2"),
        3 => cmd_add_package(l, r, &t, &twin.s.root.join("pkg"), false, None),
        _ => cmd_add(l, r, &twin.s.root.join("3.tar.zst"), false, Some(&t)),
    };
    check(want.ok() == got.ok(), "the exit status is not that of the command");
    let tw = state(&twin);
    check(same(&after.0, &tw.0) && same(&after.1, &tw.1), "the command line does something else");
    reach(if got.ok() { "done" } else { "failed" });
}

macro_rules! entries { ($($f:ident => $n:ident),* $(,)?) => {
    $( #[no_mangle] pub extern "C" fn $n(arg: u64) { $f(arg) } )*
    static ENTRIES: &[(&str, extern "C" fn(u64))] = &[$((stringify!($n), $n)),*];
} }
entries! { commands => vp_main_c23, refused => vp_main_c23_refused, versions => vp_main_c23_versions, faults => vp_main_c23_faults }
pub fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    let arg: u64 = std::env::args().nth(2).and_then(|a| a.parse().ok()).unwrap_or(0);
    let f = match ENTRIES.iter().find(|e| e.0 == name) { Some(e) => e.1, None => { eprintln!("no entry {:?}", name); std::process::exit(3) } };
    let r = unsafe { vp_native_begin() };
    if r != 0 { std::process::exit(r) }
    f(arg);
    std::process::exit(unsafe { vp_native_end() });
}
