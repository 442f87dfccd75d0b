//! C11: packaging.
use crate::{hooks::*, util::*};
use std::path::{Path, PathBuf};

pub struct Entry { pub path: Vec<u8>, pub mode: u64, pub data: Vec<u8>, pub header: Vec<u8> }
fn octal(b: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    let mut i = 0;
    while i < b.len() && b[i] == b' ' { i += 1 }
    while i < b.len() && b[i] != 0 && b[i] != b' ' { if b[i] < b'0' || b[i] > b'7' { return None } n = n << 3 | (b[i] - b'0') as u64; i += 1 }
    Some(n)
}
/// Number without a branch per digit, for symbolic modes.
fn octal_flat(b: &[u8]) -> u64 { let mut n = 0u64; for c in b { if *c != 0 && *c != b' ' { n = n << 3 | (*c & 7) as u64 } } n }
fn zero(b: &[u8]) -> bool { let mut x = 0; for c in b { x |= *c } x == 0 }
fn text_to_nul(b: &[u8]) -> Vec<u8> { let n = b.iter().position(|c| *c == 0).unwrap_or(b.len()); b[..n].to_vec() }
/// The regular files of a tar archive, in order; None if it is not one.
pub fn entries(t: &[u8]) -> Option<Vec<Entry>> { entries_named(t, true) }
/// `names`: look for the end of short names; the header has them in any case.
fn entries_named(t: &[u8], names: bool) -> Option<Vec<Entry>> {
    let mut out = vec![];
    let mut p = 0;
    let mut long: Option<Vec<u8>> = None;
    loop {
        if t.len() < p + 512 { return None }
        let h = &t[p..p + 512];
        if h[257..262] == [0; 5] {
            if !zero(h) { return None }
            if t.len() < p + 1024 || !zero(&t[p..]) { return None }
            return Some(out);
        }
        let size = octal(&h[124..136])? as usize;
        let body = p + 512;
        let padded = (size + 511) / 512 * 512;
        if t.len() < body + padded { return None }
        let data = &t[body..body + size];
        if !zero(&t[body + size..body + padded]) { return None }
        match h[156] {
            b'L' => long = Some(text_to_nul(data)),
            b'0' | 0 => { let path = long.take().unwrap_or_else(|| if names { text_to_nul(&h[..100]) } else { vec![] }); out.push(Entry { path, mode: octal_flat(&h[100..108]), data: data.to_vec(), header: h.to_vec() }) }
            _ => return None,
        }
        p = body + padded;
    }
}
/// The checksum in a header counts its bytes, itself as blanks.
fn checksum_right(h: &[u8]) -> bool {
    let mut sum = 0u64;
    for (i, b) in h.iter().enumerate() { sum += if i >= 148 && i < 156 { 32 } else { *b as u64 } }
    octal_flat(&h[148..156]) == sum
}
fn package(p: &Path) -> Option<Vec<u8>> {
    let (o, v) = value(|| { let mut v = vec![]; artefacta::package(p, &mut v).ok()?; Some(v) });
    check(o == Out::Ok || o == Out::Fail, "packaging panics");
    v
}
fn chmod(p: &Path, m: u32) { use std::os::unix::fs::PermissionsExt; quiet(true); std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap(); quiet(false) }
fn mode_of(p: &Path) -> u64 { use std::os::unix::fs::PermissionsExt; quiet(true); let m = std::fs::metadata(p).unwrap().permissions().mode(); quiet(false); m as u64 & 0o7777 }
/// Puts the files below `d`, in the order `order`.
fn build(d: &Path, files: &[(&str, Vec<u8>, u32)], order: usize) {
    mkdir(d);
    let n = files.len();
    for i in 0..n {
        let f = &files[if order & 1 == 0 { i } else { n - 1 - i }];
        let p = d.join(f.0);
        mkdir(p.parent().unwrap());
        put(&p, &f.1);
        chmod(&p, f.2);
    }
}
const LONG: &str = "a-directory-with-a-rather-long-name-so-that-the-path-does-not-fit/into-the-hundred-bytes-a-tar-header-has/for-it/file";
/// Names per shape, in path order.
fn shape(k: u64) -> Vec<&'static str> {
    match k {
        0 => vec![],
        1 => vec!["a"],
        2 => vec!["a", "b", "c"],
        3 => vec!["a/x", "a-b", "a.c"],
        4 => vec!["B", "a", "b/c/d", "b/c/e", "z"],
        5 => vec![LONG, "b"],
        6 => vec![".hidden", "..x/y", "\u{e9}t\u{e9}"],
        _ => vec!["10", "9", "A/1", "a/1"],
    }
}
/// Two trees that differ in nothing that matters give the same archive, and it is complete.
pub fn packs(arg: u64) {
    let root = scratch();
    let mut k = choose(8, "shape");
    if arg & 8 != 0 { k = arg >> 4 }
    let mut names = shape(k);
    // path order: component by component
    names.sort_by(|a, b| Path::new(a).cmp(Path::new(b)));
    let n = (arg & 7) as usize;
    let mut files: Vec<(&str, Vec<u8>, u32)> = vec![];
    for (i, f) in names.iter().enumerate() {
        let m = match choose(if i == 0 { 5 } else { 1 }, "mode") { 0 => [0o644, 0o755, 0o600][i % 3], 1 => 0o755, 2 => 0o4711, 3 => 0o400, _ => 0o1777 };
        files.push((f, bytes(if i == 0 { n } else { i % 3 }, "content"), m));
    }
    let (one, two) = (root.join("one"), root.join("some/other/place"));
    meta(true);
    build(&one, &files, 0);
    advance_clock(86400_000_000_000);
    build(&two, &files, 1);
    meta(false);
    // things that are not packaged
    let odd = choose(4, "odd");
    match odd { 1 => link(&two.join("nowhere"), &two.join("0link")), 2 => mkdir(&two.join("empty")), 3 => link(&root, &two.join("loop")), _ => {} }
    dirperm(4);
    let a = package(&one);
    let b = package(&two);
    dirperm(0);
    check(a.is_some() && b.is_some(), "packaging fails");
    let (a, b) = (a.unwrap(), b.unwrap());
    check(eq(&a, &b), "the archive depends on something else than paths, contents and permission bits");
    let e = entries(&a);
    check(e.is_some(), "the archive is malformed");
    let e = e.unwrap();
    check(e.len() == files.len(), "files are missing from the archive, or in it twice");
    for (g, f) in e.iter().zip(&files) {
        check(eq(&g.path, f.0.as_bytes()), "the archive has other paths, or in another order");
        check(eq(&g.data, &f.1), "the archive has other contents");
        check(g.mode & 0o7777 == f.2 as u64, "the archive has other permission bits");
        check(checksum_right(&g.header), "the archive has a wrong checksum");
    }
    reach("end");
}
/// All permission bits, all contents, one file.
pub fn modes(arg: u64) {
    let root = scratch();
    let d = root.join("d");
    let m = sym(2, "mode") as u32;
    assume(m <= 0o7777 && m & 0o400 != 0); // replayed as a user who must be able to read it
    let n = choose(arg + 1, "size") as usize;
    let c = bytes(n, "content");
    meta(true);
    mkdir(&d); put(&d.join("f"), &c);
    meta(false);
    chmod(&d.join("f"), m);
    let single = flag("single");
    let p: PathBuf = if single { d.join("f") } else { d.clone() };
    let a = package(&p);
    check(a.is_some(), "packaging fails");
    let e = entries(&a.unwrap());
    check(e.is_some(), "the archive is malformed");
    let e = e.unwrap();
    check(e.len() == 1 && e[0].path == b"f", "the archive has other paths");
    check(eq(&e[0].data, &c), "the archive has other contents");
    check(e[0].mode & 0o7777 == m as u64, "the archive has other permission bits");
    check(checksum_right(&e[0].header), "the archive has a wrong checksum");
    let _ = mode_of;
    reach("end");
}
/// File names of one byte, or of several out of `-.0Aa` and DEL.
pub fn file_names(arg: u64) {
    use std::os::unix::ffi::OsStrExt;
    let root = scratch();
    let d = root.join("d");
    mkdir(&d);
    let n = 1 + choose(arg, "length") as usize;
    let mut names = vec![];
    for _ in 0..2 { let b = bytes(n, "name"); for i in 0..n { assume(b[i] != 0 && b[i] != b'/' && (n == 1 || (b[i] == b'-') | (b[i] == b'.') | (b[i] == b'0') | (b[i] == b'A') | (b[i] == b'a') | (b[i] == 0x7f))) } assume(b != b"." && b != b".."); names.push(b) }
    // in path order
    let mut less = false; let mut settled = false;
    for i in 0..n { let (x, y) = (names[0][i], names[1][i]); less |= !settled & (x < y); settled |= x != y }
    assume(less);
    quiet(true);
    let rev = choose(2, "order") as usize;
    for i in 0..2 { std::fs::write(d.join(std::ffi::OsStr::from_bytes(&names[i ^ rev])), &[(i ^ rev) as u8]).unwrap() }
    quiet(false);
    let a = package(&d);
    check(a.is_some(), "packaging fails");
    let e = entries_named(&a.unwrap(), false);
    check(e.is_some(), "the archive is malformed");
    let e = e.unwrap();
    check(e.len() == 2, "files are missing from the archive, or in it twice");
    for i in 0..2 { check(eq(&e[i].header[..n], &names[i]) && zero(&e[i].header[n..100]), "the archive has other paths, or in another order"); check(e[i].data == [i as u8], "the archive has other contents") }
    reach("end");
}
