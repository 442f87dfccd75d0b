//! C16: store locations; C20: compression settings.
use crate::{hooks::*, names::*, util::*};
use artefacta::Storage;
use std::io::{Cursor, Write};

#[derive(PartialEq, Debug)]
enum Loc { Dir(String), S3 { bucket: String, endpoint: String, path: String }, Error }
/// What the crate makes of a location, seen through requests and listings.
fn parse(s: &str) -> Loc {
    let (o, v) = value(|| s.parse::<Storage>().ok());
    check(o != Out::Panic, "parsing a store location panics");
    match v {
        None => Loc::Error,
        Some(st) => match st.local_path() {
            Some(p) => Loc::Dir(p.to_str().unwrap_or("?").to_string()),
            None => {
                // where its requests go
                rusoto_s3::server::reset();
                let (o, _) = value(|| block_on(st.list_files()).ok());
                check(o != Out::Panic, "listing an S3 location panics");
                let s = rusoto_s3::server::server();
                check(s.places.len() >= 1, "listing an S3 location makes no request");
                let (host, bucket) = s.places[0].clone();
                Loc::S3 { bucket, endpoint: host, path: s.log[0].1.clone() }
            }
        },
    }
}
/// Short locations of any kind.
pub fn any(arg: u64) {
    let root = scratch();
    mkdir(&root.join("d"));
    put(&root.join("f"), b"x");
    mkdir(&root.join("s3:/b.e/p"));
    mkdir(&root.join("D:"));
    let k = choose(6, "form") as usize;
    let l = if k == 0 { text(arg, "location") } else { ["s3:/b.e", "s3://b.e/p", "D:", "s3:", "D:/"][k - 1].to_string() };
    note("location", l.as_bytes());
    let r = parse(&l);
    quiet(true);
    let exists = !l.as_bytes().contains(&0) && std::path::Path::new(&l).exists();
    quiet(false);
    if exists { match &r { Loc::Dir(p) => { check(same_text(p, &l), "an existing path gives a store elsewhere"); reach("path") } _ => check(false, "an existing path is not a file-system store") } }
    else { check(r == Loc::Error, "a location that is neither an existing path nor an S3 URL is accepted"); reach("error") }
}
/// Any text that follows `s3://`.
pub fn s3(arg: u64) {
    scratch();
    let w = words(arg & 15, if arg >> 4 == 0 { b"ab./" } else { b"a./:?#@9-" }, "rest");
    let l = format!("s3://{}", w);
    note("location", l.as_bytes());
    let r = parse(&l);
    let (host, path) = match w.find('/') { Some(i) => (&w[..i], &w[i..]), None => (&w[..], "") };
    let plain = |t: &str| !t.bytes().any(|c| c == b'?' || c == b'#' || c == b'@' || c == b':');
    let dots = path.split('/').any(|p| p == "." || p == "..");
    let d = host.find('.');
    let good = plain(&w) && match d { Some(i) => i > 0 && i + 1 < host.len(), None => false };
    if good {
        let i = d.unwrap();
        match &r {
            Loc::S3 { bucket, endpoint, path: p } => {
                check(same_text(bucket, &host[..i]), "the bucket of an S3 location is wrong");
                check(same_text(endpoint, &host[i + 1..]), "the endpoint of an S3 location is wrong");
                if !dots { check(same_text(p.trim_matches('/'), path.trim_matches('/')), "the path of an S3 location is wrong") }
                reach("s3");
            }
            _ => check(false, "a proper S3 location is not accepted"),
        }
    } else if plain(&w) {
        check(r == Loc::Error, "an S3 location without bucket, endpoint or host is accepted");
        reach("error");
    } else {
        // ports belong to the endpoint; user names, queries and fragments have no meaning here
        match &r {
            Loc::Error => reach("odd error"),
            Loc::S3 { bucket, endpoint, path: p } => {
                let shown = format!("{}.{}/{}", bucket, endpoint, p.trim_matches('/'));
                let written = format!("{}/{}", host, path.trim_matches('/'));
                let port = w.starts_with('@') || w.starts_with(":@") || w.contains(":/") || w.ends_with(':') || w.contains(":0"); // written in another way
                if !dots && !port { check(same_text(&shown, &written), "part of an S3 location is dropped silently") }
                reach("odd s3");
            }
            Loc::Dir(_) => check(false, "an S3 location gives a directory"),
        }
    }
}
/// Other schemes and malformed text around an otherwise proper location.
pub fn scheme(arg: u64) {
    scratch();
    let w = words(arg, b"s3ht:/ ", "scheme");
    assume(w != "s3://" && w != "s3:/" && w != "s3:");
    let l = format!("{}b.e/p", w);
    note("location", l.as_bytes());
    let r = parse(&l);
    let t = w.trim();
    if t.starts_with("s3:") || t.starts_with("S3:") { if let Loc::S3 { bucket, .. } = &r { check(!bucket.is_empty(), "a malformed S3 location gives an empty bucket") } reach("like s3") }
    else { check(r == Loc::Error, "a location of another scheme is accepted"); reach("error") }
}

fn level_of(s: &[u8]) -> Option<i64> {
    let (neg, d) = match s.first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    if d.is_empty() { return None }
    let mut n = 0i64;
    for c in d { if !(*c >= b'0' && *c <= b'9') { return None } n = n * 10 + (*c - b'0') as i64; if n > 1 << 40 { return None } }
    let n = if neg { -n } else { n };
    if n < i32::MIN as i64 || n > i32::MAX as i64 { None } else { Some(n) }
}
const VAR: &str = "ARTEFACTA_COMPRESSION_LEVEL";
fn cycle(content: &[u8], value_of_var: Option<&[u8]>) {
    use std::os::unix::ffi::OsStrExt;
    quiet(true);
    match value_of_var { Some(v) => std::env::set_var(VAR, std::ffi::OsStr::from_bytes(v)), None => std::env::remove_var(VAR) }
    quiet(false);
    let want = match value_of_var { Some(v) if std::str::from_utf8(v).is_ok() => level_of(v).unwrap_or(14), _ => 14 };
    unsafe { zstd_sys::model::LEVEL = -77777; zstd_sys::model::LEVELS_SET = 0 }
    let (o, packed) = value(|| { let mut e = artefacta::compress(vec![]).ok()?; e.write_all(content).ok()?; e.finish().ok() });
    check(o != Out::Panic, "compressing panics");
    check(o.ok(), "compressing fails");
    let packed = packed.unwrap();
    check(unsafe { zstd_sys::model::LEVEL } as i64 == want, "another compression level is used than the variable says");
    let (o, back) = value(|| artefacta::decompress(Cursor::new(packed.clone())).ok());
    check(o.ok(), "decompressing fails");
    check(eq(&back.unwrap(), content), "decompressing gives other bytes");
    check(unpack(&packed).map_or(false, |u| eq(&u, content)), "the compressed form does not hold the bytes");
}
/// The variable holds any short text.
pub fn level(arg: u64) {
    let n = choose(arg + 1, "len") as usize;
    let v = bytes(n, "value");
    for b in &v { assume(*b != 0) }
    note("value", &v);
    let c = bytes(3, "content");
    cycle(&c, Some(&v));
    reach("end");
}
const LEVELS: [&str; 14] = ["2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "+22", "000000000000005", " 5", "5 ", "0x10", "1e1", "-131073", "\u{ff15}", "14\n"];
/// Values at the ends of the range, and none.
pub fn level_ends(_arg: u64) {
    let k = choose(15, "value") as usize;
    let c = bytes(choose(5, "size") as usize, "content");
    cycle(&c, if k == 14 { None } else { Some(LEVELS[k].as_bytes()) });
    reach("end");
}
/// Truncated data, data with something behind it, foreign data.
pub fn damaged(arg: u64) {
    quiet(true); std::env::remove_var(VAR); quiet(false);
    match choose(3, "kind") {
        0 => {
            let c = bytes(5, "content");
            let f = match choose(2, "blocks") { 0 => frame(&c), _ => frame_blocks(&c, 2) };
            let n = choose(f.len() as u64, "kept") as usize;
            let (o, r) = value(|| artefacta::decompress(Cursor::new(f[..n].to_vec())).ok());
            check(o != Out::Panic, "decompressing panics");
            if n == 0 { known(true, "empty-input") }
            check(r.is_none(), "truncated data is decompressed without an error");
            known(false, "");
            reach("truncated");
        }
        1 => {
            let n = 1 + choose(arg, "len") as usize;
            let b = bytes(n, "foreign");
            note("foreign", &b);
            if n >= 4 { assume(b[0] != 0x28 || b[1] != 0xB5 || b[2] != 0x2F || b[3] != 0xFD) }
            let (o, r) = value(|| artefacta::decompress(Cursor::new(b.clone())).ok());
            check(o != Out::Panic, "decompressing panics");
            check(r.is_none(), "data that is no zstd frame is decompressed");
            reach("foreign");
        }
        _ => {
            // one byte of an intact frame changed
            let p = choose(16, "at") as usize;
            // where the change moves the block boundaries, the content is fixed
            let c = if p >= 4 && p < 9 { vec![1, 0, 0, 7] } else { bytes(4, "content") };
            let mut f = frame_blocks(&c, 3);
            check(f.len() == 16, "harness: frame size");
            f[p] = sym_u8("changed");
            // block sizes stay below 512
            if p == 7 || p == 13 { assume(f[p] < 2) }
            if p == 8 || p == 14 { assume(f[p] == 0) }
            if p == 4 { assume(f[p] & 4 == 0) }
            let (o, r) = value(|| artefacta::decompress(Cursor::new(f.clone())).ok());
            check(o != Out::Panic, "decompressing panics");
            let want = unpack(&f);
            match (r, want) { (None, _) => reach("refused"), (Some(_), None) => check(false, "damaged data is decompressed without an error"), (Some(a), Some(b)) => { check(eq(&a, &b), "decompressing gives other bytes"); reach("harmless") } }
        }
    }
}
