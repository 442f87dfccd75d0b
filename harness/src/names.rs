//! C08, C09: version names and file names.
use crate::{hooks::*, util::*};
use artefacta::{paths, Version};
use std::path::Path;

/// Symbolic text of up to `max` bytes: any UTF-8.
pub fn text(max: u64, tag: &str) -> String {
    let n = choose(max + 1, tag) as usize;
    let b = bytes(n, tag);
    match String::from_utf8(b) { Ok(s) => s, Err(_) => { assume(false); String::new() } }
}
/// Symbolic text of exactly `n` bytes over an alphabet.
pub fn word(n: usize, alphabet: &[u8], tag: &str) -> String {
    let b = bytes(n, tag);
    for i in 0..n { let mut ok = false; for c in alphabet { ok |= b[i] == *c } assume(ok) }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn words(max: u64, alphabet: &[u8], tag: &str) -> String { let n = choose(max + 1, tag); word(n as usize, alphabet, tag) }
pub fn same_text(a: &str, b: &str) -> bool { eq(a.as_bytes(), b.as_bytes()) }

fn accepted(s: &str) -> Option<Version> { let (o, v) = value(|| s.parse::<Version>().ok()); check(o != Out::Panic, "parsing a version name panics"); v }
/// The stored form of a build name, below a directory, identifies the version again.
fn build_name(s: &str) {
    note("name", s.as_bytes());
    let ver = match accepted(s) { Some(v) => v, None => return };
    let (o, f) = value(|| paths::build_path_from_version(ver.clone()).ok());
    check(f.is_some(), "no file name for the build of an accepted version");
    let f = f.unwrap();
    check(f.ends_with(".tar.zst"), "the file name of a build has another ending");
    let full = format!("/store/d/{}", f);
    let (o2, back) = value(|| paths::build_version_from_path(&full).ok());
    check(o != Out::Panic && o2 != Out::Panic, "a version name makes the path functions panic");
    check(back.is_some(), "the file name of a build is not understood");
    check(same_text(back.unwrap().as_str(), s), "the file name of a build stands for another version");
    reach("build");
}
/// Names of the files in a directory, in the order they were made.
fn names_in(d: &Path) -> Vec<Vec<u8>> {
    use std::os::unix::ffi::OsStrExt;
    quiet(true);
    let v = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().as_bytes().to_vec()).collect();
    quiet(false);
    v
}
/// The patch file that a command makes stands for its two versions and for no other two.
fn patch_name(a: &str, b: &str, others: &[&str]) {
    note("from", a.as_bytes()); note("to", b.as_bytes());
    let va = match accepted(a) { Some(v) => v, None => return };
    let vb = match accepted(b) { Some(v) => v, None => return };
    if same_text(a, b) { return }
    let s = stores();
    let rem = s.remote_storage();
    let file = |v: &Version| s.local.join(paths::build_path_from_version(v.clone()).unwrap());
    put(&file(&va), &frame(b"a")); put(&file(&vb), &frame(b"bb"));
    let mut all = vec![va.clone(), vb.clone()];
    for o in others { match accepted(o) { Some(v) => { if !same_text(a, o) && !same_text(b, o) { put(&file(&v), &frame(b"c")); all.push(v) } } None => return } }
    let before = names_in(&s.local);
    let o = process(|| { let mut i = match open(&s.local, &rem) { Some(i) => i, None => return false }; block_on(artefacta::create_patch(&mut i, va.clone(), vb.clone())).is_ok() });
    check(o.ok(), "no patch can be made between two accepted versions");
    let after = names_in(&s.local);
    check(after.len() == before.len() + 1, "making a patch makes no file, or several");
    let f = after.iter().find(|x| before.iter().all(|y| !eq(x, y)));
    check(f.is_some(), "making a patch makes no file of its own");
    let f = f.unwrap();
    check(f.ends_with(b".patch.zst"), "the file name of a patch has another ending");
    let all2 = &all;
    let (o, found) = value(|| {
        let mut i = open(&s.local, &rem)?;
        let mut found = vec![];
        for x in all2 { for y in all2 { if let Ok(e) = block_on(i.get_patch(x.clone(), y.clone())) { found.push((x.clone(), y.clone(), e.path)) } } }
        Some(found)
    });
    check(o.ok(), "the store cannot be opened any more");
    let found = found.unwrap();
    check(found.len() > 0, "the file name of a patch is not understood");
    check(found.len() == 1 && same_text(found[0].0.as_str(), a) & same_text(found[0].1.as_str(), b), "the file name of a patch stands for another pair of versions");
    check(eq(found[0].2.as_bytes(), &[s.local.to_str().unwrap().as_bytes(), b"/", f].concat()), "a patch is found in another file than the one made for it");
    reach("patch");
}
pub fn build_free(arg: u64) { build_name(&text(arg, "name")) }
const ENDS: [&str; 12] = [".tar", ".patch", ".zst", ".tar.zst", ".patch.zst", ".tar.tar", ".patch.tar", ".tar.patch", ".part", "-", "tar", "patch"];
/// Names that end like file names do.
pub fn build_ends(arg: u64) {
    let mut s = text(arg, "name");
    s.push_str(ENDS[choose(12, "end") as usize]);
    build_name(&s)
}
pub fn patch_free(arg: u64) { let a = text(arg & 15, "from"); let b = text(arg >> 4 & 15, "to"); let c = text(arg >> 8, "other"); patch_name(&a, &b, &[&c]) }
/// Longer names over the characters that matter.
pub fn patch_words(arg: u64) {
    let a = words(arg & 15, b"-.v1", "from"); let b = words(arg >> 4 & 15, b"-.v1", "to"); let c = words(arg >> 8, b"-.v1", "other");
    patch_name(&a, &b, &[&c])
}
pub fn patch_ends(arg: u64) {
    let mut a = words(arg, b"-.v", "from"); let mut b = words(arg, b"-.v", "to");
    let k = choose(25, "end") as usize;
    if k < 12 { a.push_str(ENDS[k]) } else if k < 24 { b.push_str(ENDS[k - 12]) }
    patch_name(&a, &b, &[])
}
/// Long names, past every inline buffer.
pub fn long(arg: u64) {
    let mut s = String::from("module-name-with-a-rather-long-prefix-");
    s.push_str(&words(arg, b"-.t1", "name"));
    build_name(&s);
    if flag("from") { patch_name(&s, "v2", &[]) } else { patch_name("v1", &s, &[]) }
}

/// Which names are accepted, for every name of up to `arg` bytes.
pub fn accept(arg: u64) {
    let s = text(arg, "name");
    let b = s.as_bytes();
    let n = b.len();
    note("name", b);
    let (o, ver) = value(|| s.parse::<Version>().ok());
    check(o != Out::Panic, "parsing a version name panics");
    let mut bad = n > 0 && ((b[0] == b'-') | (b[n - 1] == b'-'));
    for i in 0..n { bad |= b[i] == b'/' || b[i] == 0; if i + 2 < n { bad |= b[i] == b'-' && b[i + 1] == b'-' && b[i + 2] == b'-' } }
    match &ver {
        Some(ver) => { check(!bad, "a version name with `---`, a separator or NUL, or with `-` at an end, is accepted"); check(eq(ver.as_str().as_bytes(), &b), "an accepted version name is not kept verbatim"); reach("accepted") }
        None => { check(bad, "a harmless version name is rejected"); reach("rejected") }
    }
}
const NAMES: [&str; 12] = ["..", ".", "", "../x", "/scratch/outside/x", "a/../../x", "a/b", "-", "..-..", "...", "a\\b", "~"];
/// Commands with unusual names, and stores with links that lead outside, write nothing elsewhere.
pub fn contained(arg: u64) {
    let s = stores();
    let outside = s.root.join("outside");
    mkdir(&outside);
    mkdir(&s.root.join("src"));
    let c1 = bytes(6, "c1"); let c2 = bytes(7, "c2");
    put(&outside.join("x.tar.zst"), &frame(&c1));
    put(&outside.join("precious"), b"precious");
    let cmd = choose(5, "cmd");
    let names: Vec<&str> = NAMES.iter().cloned().chain(vec!["1"]).collect();
    let a = names[choose(names.len() as u64, "name") as usize];
    let ok = |n: &str| !n.contains('/');
    // what the stores hold: nothing, the named build, or a link that leads outside
    let kind = choose(4, "store");
    let file = format!("{}.tar.zst", a);
    if ok(a) {
        match kind {
            1 => put(&s.r(&file), &frame(&c2)),
            2 => link(&outside.join("precious"), &s.l(&file)),
            3 => { put(&s.r(&file), &frame(&c2)); link(&outside.join("new"), &s.l(&file)) }
            _ => {}
        }
    }
    s.build_r("7", &c1);
    if arg > 0 && flag("leftover") { link(&outside.join("precious"), &s.current) }
    // a package for which there is to be a patch from a known build or an unknown one
    let from = if cmd == 4 { [None, Some("7"), Some("8")][choose(3, "from") as usize] } else { None };
    let src = s.root.join("src").join(if ok(a) { file.clone() } else { "q.tar.zst".into() });
    put(&src, &frame(&c2));
    let rem = s.remote_storage();
    let before = tree(&outside);
    let tmp = s.root.join("tmp");
    contain(&[&s.local, &tmp, &s.remote]);
    let ver = |n: &str| n.parse::<Version>().ok();
    let o = process(|| {
        let mut i = match open(&s.local, &rem) { Some(i) => i, None => return false };
        match cmd {
            0 => match ver(a) { Some(v) => block_on(artefacta::install(&mut i, v, &s.current)).is_ok(), None => false },
            1 => match ver(a) { Some(x) => block_on(artefacta::create_patch(&mut i, v("7"), x)).is_ok(), None => false },
            2 => match ver(a) { Some(x) => block_on(artefacta::create_patch(&mut i, x, v("7"))).is_ok(), None => false },
            3 => block_on(artefacta::add(&mut i, artefacta::cli::AddBuild { path: src.clone(), upload: true, calculate_patch_from: Some(v("7")) })).is_ok(),
            _ => match ver(a) { Some(x) => block_on(artefacta::add_package(&mut i, x, artefacta::cli::AddBuild { path: src.clone(), upload: true, calculate_patch_from: from.map(|f| v(f)) })).is_ok(), None => false },
        }
    });
    let esc = contain_off();
    check(o != Out::Panic && o != Out::Crash, "a command panics");
    check(esc == 0, "a command writes outside the stores and the temporary directory");
    check(same(&before, &tree(&outside)), "a command changes files outside the stores");
    check(tree(&tmp).is_empty(), "files are left in the temporary directory");
    check(eq(&read_back(&src).unwrap_or_default(), &frame(&c2)), "the source of a build is changed");
    let t = tree(&s.local);
    if cmd < 3 { check(same(&artefacts(&tree(&s.remote)), &artefacts(&{ let mut r = vec![("7.tar.zst".to_string(), Node::File(frame(&c1)))]; if ok(a) && (kind == 1 || kind == 3) { r.push((file.clone(), Node::File(frame(&c2)))); r.sort_by(|x, y| x.0.cmp(&y.0)) } r })), "a command that uploads nothing changes the remote store") }
    for e in &t { check(!e.0.contains('/') || e.0.starts_with("local"), "a file lies below the store, not in it") }
    let _ = Path::new("");
    if o.ok() { reach("succeeds") } else { reach("fails") }
}
