//! C27: stores and sources mean the same however their paths are written.
use crate::{hooks::*, util::*};
use artefacta::Storage;
use std::path::{Path, PathBuf};

/// One layout below `root`: the stores lie at `top`/l and `top`/r.
struct Site { top: PathBuf, l: PathBuf, r: PathBuf, src: PathBuf }
fn site(root: &Path, dir: &str, c: &[Vec<u8>], job: u64) -> Site {
    let top = root.join(dir);
    let s = Site { l: top.join("l"), r: top.join("r"), src: top.join("s"), top };
    for d in &[&s.l, &s.r, &s.src, &s.top.join("o")] { mkdir(d) }
    let (l, r) = (|i: usize| put(&s.l.join(build_file(N[i])), &frame(&c[i])), |i: usize| put(&s.r.join(build_file(N[i])), &frame_blocks(&c[i], 1)));
    match job {
        0 => r(1),
        1 => { l(0); r(1); put(&s.r.join(patch_file(N[0], N[1])), &small_patch(&c[0], &c[1])); link(&s.l.join(build_file(N[0])), &s.l.join("current")) }
        2 => { l(0); r(1) }
        3 | 4 => r(0),
        5 => { l(0); r(1); put(&s.l.join(patch_file(N[0], N[1])), &small_patch(&c[0], &c[1])) }
        _ => { l(0); l(1); link(&PathBuf::from(build_file(N[0])), &s.l.join("current")) }
    }
    put(&s.src.join(build_file(N[1])), &frame(&c[1]));
    mkdir(&s.src.join("app"));
    put(&s.src.join("app/f"), &c[1]);
    s
}
const N: [&str; 2] = ["1", "2"];
/// A way to write `p` from the directory `cwd`, both below `root`.
fn written(form: u64, root: &Path, cwd: &Path, p: &Path) -> PathBuf {
    let rel = || { let mut x = PathBuf::new(); for _ in cwd.strip_prefix(root).unwrap().iter() { x.push("..") } x.join(p.strip_prefix(root).unwrap()) };
    let shortest = || if p == cwd { PathBuf::from(".") } else if let Ok(x) = p.strip_prefix(cwd) { x.into() } else { rel() };
    let with = |x: PathBuf, t: &str| { let mut s = x.into_os_string(); s.push(t); PathBuf::from(s) };
    match form {
        0 => p.into(),
        1 => shortest(),
        2 => with(shortest(), "/"),
        3 => PathBuf::from(".").join(rel()),
        4 => with(p.into(), "//."),
        5 => p.join("..").join(p.file_name().unwrap()),
        // through links
        6 => { let q = root.join(format!("link-{}", p.file_name().unwrap().to_str().unwrap())); remove(&q); link(p, &q); q }
        7 => { let q = root.join("up"); remove(&q); link(Path::new(p.parent().unwrap().file_name().unwrap()), &q); let mut x = PathBuf::new(); for _ in cwd.strip_prefix(root).unwrap().iter() { x.push("..") } x.join("up").join(p.file_name().unwrap()) }
        // `..` behind a link goes where the link leads
        _ => { let q = root.join("deep"); remove(&q); link(&p.parent().unwrap().join("o"), &q); q.join("..").join(p.file_name().unwrap()) }
    }
}
fn act(job: u64, cwd: &Path, l: &Path, r: &Path, src: &Path) -> Out {
    process(|| {
        quiet(true);
        if std::env::set_current_dir(cwd).is_err() { panic!("chdir") }
        quiet(false);
        let rem: Storage = match r.to_str().unwrap().parse() { Ok(r) => r, Err(_) => return false };
        let mut i = match open(l, &rem) { Some(i) => i, None => return false };
        let add = |p: &str| artefacta::cli::AddBuild { path: src.join(p), upload: true, calculate_patch_from: Some(v(N[0])) };
        match job {
            0 | 1 | 6 => block_on(artefacta::install(&mut i, v(N[1]), &l.join("current"))).is_ok(),
            2 => block_on(artefacta::create_patch(&mut i, v(N[0]), v(N[1]))).is_ok(),
            3 => block_on(artefacta::add(&mut i, add("2.tar.zst"))).is_ok(),
            4 => block_on(artefacta::add_package(&mut i, v(N[1]), add("app"))).is_ok(),
            _ => block_on(artefacta::sync(&i)).is_ok(),
        }
    })
}
/// A store without `current`, which is judged on its own; archives by their content.
fn plain(d: &Path, job: u64) -> Tree {
    tree(d).into_iter().filter(|e| e.0 != "current").map(|(n, x)| match x {
        Node::File(b) if job == 4 && n == build_file(N[1]) => { let e: Vec<u8> = unpack(&b).and_then(|t| crate::pack::entries(&t)).map_or(vec![], |e| e.into_iter().flat_map(|e| { let mut v = e.path; v.push(0); v.extend(e.data); v }).collect()); (n, Node::File(e)) }
        Node::File(b) if job == 4 && n.ends_with(".patch.zst") => (n, Node::File(unpack(&b).map_or(vec![], |b| vec![b.len() as u8 & 0]))),
        x => (n, x),
    }).collect()
}
pub fn spellings(arg: u64) {
    let root = scratch();
    let job = choose(7, "command");
    let c = { let mut c = contents(2, 12); let k = choose(2, "size") as usize; c[0].truncate(12 - k); c };
    let dir = ["plain", "with space", "\u{fc}ml\u{e4}ut", "a.tar.zst", "1-2.patch.zst"][choose(if arg & 1 == 0 { 3 } else { 5 }, "name") as usize];
    // what plain absolute paths give
    mkdir(&root.join("twin"));
    let t = site(&root.join("twin"), dir, &c, job);
    let s = site(&root, dir, &c, job);
    let want = act(job, &root, &t.l, &t.r, &t.src);
    check(want.ok(), "(layout)");
    let cwd = match choose(4, "directory") { 0 => root.clone(), 1 => s.top.clone(), 2 => s.l.clone(), _ => s.top.join("o") };
    let forms = 9;
    let (fl, fr) = (choose(forms, "local"), choose(forms, "remote"));
    let l = written(fl, &root, &cwd, &s.l);
    let r = written(fr, &root, &cwd, &s.r);
    let src = written(if arg & 2 == 0 { [0, 1, 6, 8][choose(if job == 3 || job == 4 { 4 } else { 1 }, "source") as usize] } else { choose(if job == 3 || job == 4 { forms } else { 1 }, "source") }, &root, &cwd, &s.src);
    note("local", l.to_str().unwrap().as_bytes()); note("remote", r.to_str().unwrap().as_bytes());
    let o = act(job, &cwd, &l, &r, &src);
    check(o.ok(), "a command fails on a store whose path is written in another way");
    check(same(&plain(&s.l, job), &plain(&t.l, job)), "a command gives other results in a local store whose path is written in another way");
    check(same(&plain(&s.r, job), &plain(&t.r, job)), "a command gives other results in a remote store whose path is written in another way");
    let has = |d: &Path| exists_nofollow(&d.join("current"));
    check(has(&s.l) == has(&t.l), "`current` is missing, or there where it must not");
    // from anywhere
    quiet(true);
    let _ = std::env::set_current_dir("/");
    if job < 2 || job == 6 { check(std::fs::canonicalize(s.l.join("current")).ok() == std::fs::canonicalize(s.l.join(build_file(N[1]))).ok(), "`current` does not lead to the build, if the store's path is written in another way"); reach("installed") }
    let _ = std::env::set_current_dir(&root);
    quiet(false);
    // nothing lies elsewhere
    let known = |n: &str| n.starts_with("twin") || n.starts_with(dir) || n.starts_with("link-") || n == "up" || n == "deep" || n == "tmp" || n.starts_with("tmp/");
    for (n, _) in tree(&root) { if !known(&n) { note("elsewhere", n.as_bytes()); check(false, "a command writes outside the stores") } }
    reach("end");
}
/// One directory as both stores.
pub fn same_place(_: u64) {
    let s = stores();
    let c = contents(3, 12);
    let src = s.root.join("src");
    mkdir(&src);
    put(&src.join("3.tar.zst"), &frame(&c[2]));
    put(&src.join("app"), &c[2]);
    for i in 0..2 { s.build_l(N[i], &c[i]) }
    if flag("patch") { put(&s.l("1-2.patch.zst"), &small_patch(&c[0], &c[1])) }
    if flag("installed") { link(&s.l("1.tar.zst"), &s.current) }
    let rem: Storage = match choose(2, "written") { 0 => { quiet(true); let r = s.local.to_str().unwrap().parse().unwrap(); quiet(false); r } _ => { let q = s.root.join("again"); link(&s.local, &q); quiet(true); let r = q.to_str().unwrap().parse().unwrap(); quiet(false); r } };
    let before = tree(&s.local);
    let k = choose(6, "command");
    let o = match k {
        0 => cmd_install(&s.local, &rem, "2"),
        1 => cmd_install(&s.local, &rem, "1"),
        2 => cmd_create_patch(&s.local, &rem, "1", "2"),
        3 => cmd_sync(&s.local, &rem),
        4 => cmd_add(&s.local, &rem, &src.join("3.tar.zst"), true, Some("1")),
        _ => cmd_add_package(&s.local, &rem, "3", &src.join("app"), true, Some("1")),
    };
    check(o.ok(), "a command fails if both stores are one directory");
    let l = tree(&s.local);
    for (n, x) in &before { if n != "current" { check(node_of(&l, n).map_or(false, |y| same_node(x, y)), "a command changes what is in a directory that is both stores") } }
    let new: &[&str] = match k { 2 => &["1-2.patch.zst"], 4 | 5 => &["3.tar.zst", "1-3.patch.zst"], _ => &[] };
    for (n, _) in &l { check(n == "current" || node_of(&before, n).is_some() || new.contains(&n.as_str()), "a command leaves something else in a directory that is both stores") }
    for n in new { check(file_of(&l, n).map_or(false, |b| b.len() > 0), "a result is missing in a directory that is both stores") }
    match k { 0 => check(installed(&s, "2", &c[1]), "install does not install"), 1 => check(installed(&s, "1", &c[0]), "install does not install"), 2 => check(apply(&c[0], file_of(&l, new[0]).unwrap()).map_or(false, |x| eq(&x, &c[1])), "the patch is wrong"), 4 => check(unpack(file_of(&l, "3.tar.zst").unwrap()).map_or(false, |x| eq(&x, &c[2])), "the build is wrong"), _ => {} }
    reach("end");
}
