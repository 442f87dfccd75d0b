//! C12, C13: tags.
use crate::{hooks::*, names::*, util::*};
use artefacta::git;
use std::cmp::Ordering;

fn parts(s: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    for c in s.chars() { if c == '.' || c == '-' { v.push(String::new()) } else { v.last_mut().unwrap().push(c.to_ascii_lowercase()) } }
    v
}
fn number(s: &str) -> Option<u128> {
    if s.is_empty() { return None }
    let mut n = 0u128;
    for c in s.bytes() { if !(c >= b'0' && c <= b'9') { return None } n = n * 10 + (c - b'0') as u128 }
    Some(n)
}
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
/// natural order: runs of digits by value, everything else by character
pub fn natural(a: &str, b: &str) -> Ordering {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if digit(a[i]) && digit(b[j]) {
            let (mut x, mut y) = (0u128, 0u128);
            while i < a.len() && digit(a[i]) { x = x * 10 + (a[i] - b'0') as u128; i += 1 }
            while j < b.len() && digit(b[j]) { y = y * 10 + (b[j] - b'0') as u128; j += 1 }
            if x != y { return if x < y { Ordering::Less } else { Ordering::Greater } }
        } else {
            if a[i] != b[j] { return if a[i] < b[j] { Ordering::Less } else { Ordering::Greater } }
            i += 1; j += 1;
        }
    }
    (a.len() - i).cmp(&(b.len() - j))
}
fn matches(cur: &[String], place: usize, tag: &str) -> bool {
    let n = match number(&cur[place]) { Some(n) if n > 0 => n - 1, _ => return false };
    let t = parts(tag);
    t.len() > place && t[..place] == cur[..place] && number(&t[place]) == Some(n)
}
fn select(cur: &str, tags: &[String]) -> Vec<String> {
    let (o, v) = value(|| git::find_tags_to_patch(cur, tags).ok());
    check(o != Out::Panic, "selecting tags panics");
    check(v.is_some(), "selecting tags fails");
    v.unwrap()
}
fn judge(cur: &str, tags: &[String]) -> Vec<String> {
    note("current", cur.as_bytes());
    for t in tags { note("tag", t.as_bytes()) }
    let got = select(cur, tags);
    let c = parts(cur);
    let mut k = 0;
    for place in (0..c.len()).rev() {
        let cand: Vec<&String> = tags.iter().filter(|t| matches(&c, place, t)).collect();
        if cand.is_empty() { continue }
        check(k < got.len(), "no source is chosen for a version level that has one");
        let g = &got[k];
        k += 1;
        check(cand.iter().any(|t| *t == g), "the chosen source is no predecessor at its version level");
        for t in &cand { check(natural(g, t) != Ordering::Less, "a later predecessor exists at this version level") }
        reach("chosen");
    }
    check(k == got.len(), "more sources are chosen than there are version levels with a predecessor");
    reach("end");
    got
}
const ALPHA: &[u8] = b"012aA.-+";
/// Any current version and any one tag.
pub fn one_tag(arg: u64) {
    let cur = words(arg & 15, ALPHA, "current");
    let tag = words(arg >> 4, ALPHA, "tag");
    judge(&cur, &[tag]);
}
/// Two or three tags at one version level: the highest is chosen, in whatever order they come.
pub fn three_tags(arg: u64) {
    let cur = ["v1.2", "2.0.1", "il60-1-0", "1"][choose(4, "current") as usize];
    let base = ["v1.1", "2.0.0", "il60-0", "0"];
    let n = 2 + (arg >> 4) as usize;
    let mut tags = vec![];
    for i in 0..n {
        let k = if i == 0 { (0..4).find(|k| ["v1.2", "2.0.1", "il60-1-0", "1"][*k] == cur).unwrap() } else { choose(4, "base") as usize };
        let mut t = String::from(base[k]);
        let w = words(arg & 15, b"-.1209b", "tag");
        if !w.is_empty() { t.push('.'); t.push_str(&w) }
        // numbers without superfluous zeros
        for p in parts(&t) { assume(!(p.len() > 1 && p.as_bytes()[0] == b'0')) }
        tags.push(t);
    }
    for i in 0..n { for j in 0..i { assume(tags[i] != tags[j]) } }
    let got = judge(cur, &tags);
    let mut r = tags.clone();
    match choose(if n == 2 { 1 } else { 5 }, "order") { 0 => r.reverse(), 1 => r.swap(0, 1), 2 => r.swap(1, 2), 3 => r.rotate_left(1), _ => r.rotate_left(2) }
    let again = select(cur, &r);
    check(got == again, "the choice depends on the order of the tags");
}
/// Tags with superfluous zeros and other numerals: the choice is some match and the order does not matter.
pub fn odd_tags(arg: u64) {
    let mut tags = vec![];
    for _ in 0..2 + (arg >> 4) { let mut t = String::from("1.0."); t.push_str(&words(arg & 15, b"01a.", "tag")); tags.push(t) }
    let got = select("1.1.0", &tags);
    for t in &tags { note("tag", t.as_bytes()) }
    check(got.len() == 1 && tags.contains(&got[0]), "the chosen source is no existing tag");
    let mut r = tags.clone();
    match choose(if arg >> 4 == 0 { 1 } else { 5 }, "order") { 0 => r.reverse(), 1 => r.swap(0, 1), 2 => r.swap(1, 2), 3 => r.rotate_left(1), _ => r.rotate_left(2) }
    check(got == select("1.1.0", &r), "the choice depends on the order of the tags");
    reach("end");
}
/// Long numbers and characters outside ASCII.
pub fn extreme(_arg: u64) {
    const C: [&str; 9] = ["1.4294967295", "1.4294967296", "1.99999999999999999999", "1.00000000001", "1.+1", "1.-1", "\u{130}.1", "\u{bd}.1", "1.\u{661}"];
    const T: [&str; 10] = ["1.4294967294", "1.4294967295", "1.20230101123456", "1.20230101123457", "1.99999999999999999999.1", "1.0", "\u{130}.0", "\u{bd}.0", "1.0.20230101123456", "1.0.20230101123455"];
    let cur = C[choose(9, "current") as usize];
    let a = T[choose(10, "tag") as usize]; let b = T[choose(10, "tag") as usize];
    let mut tags = vec![a.to_string(), b.to_string()];
    note("current", cur.as_bytes()); note("tag", a.as_bytes()); note("tag", b.as_bytes());
    let x = select(cur, &tags);
    for t in &x { check(tags.contains(t), "the chosen source is no existing tag") }
    if cur.is_ascii() {
        let c = parts(cur);
        let mut k = 0;
        for place in (0..c.len()).rev() {
            let cand: Vec<&String> = tags.iter().filter(|t| matches(&c, place, t)).collect();
            if cand.is_empty() { continue }
            check(k < x.len() && cand.iter().all(|t| natural(&x[k], t) != Ordering::Less), "a later predecessor exists at this version level");
            k += 1;
        }
    }
    tags.reverse();
    check(x == select(cur, &tags), "the choice depends on the order of the tags");
    reach("end");
}

/// Numbers beyond 32 and 64 bits, and such with zeros in front, at any level.
pub fn long_numbers(arg: u64) {
    let stem = ["2", "42949672", "2023040112000", "184467440737095516"][choose(4, "length") as usize];
    let digits = |t: &str| word(2, b"0123456789", t);
    let pad = |t: &str| ["", "0", "000"][choose(if arg & 1 == 0 { 2 } else { 3 }, t) as usize];
    let tail = |t: &str| ["", ".0", ".7", "-7"][choose(if arg & 1 == 0 { 2 } else { 4 }, t) as usize];
    let one = |t: &str| format!("v1.{}{}{}{}", pad("zeros"), stem, digits(t), tail("tail"));
    let cur = one("current");
    let tags: Vec<String> = (0..1 + arg).map(|_| one("tag")).collect();
    for i in 0..tags.len() { for j in 0..i { assume(tags[i] != tags[j]) } }
    judge(&cur, &tags);
}

/// Versions of many levels.
pub fn many_levels(arg: u64) {
    let levels = |n: usize, t: &str| {
        let w = word(n, b"0129", t);
        let mut s = String::new();
        for (i, c) in w.chars().enumerate() { if i > 0 { s.push(if i == 2 { '-' } else { '.' }) } s.push(c) }
        s
    };
    let cur = levels(4 + choose((arg & 15) - 3, "levels") as usize, "current");
    let mut tags: Vec<String> = vec![];
    for _ in 0..arg >> 4 { tags.push(levels(3 + choose((arg & 15) - 2, "levels") as usize, "tag")) }
    for i in 0..tags.len() { for j in 0..i { assume(tags[i] != tags[j]) } }
    judge(&cur, &tags);
}

fn folded(a: &str, b: &str) -> bool { parts(a) == parts(b) }
/// Up to three builds with any names, any tag.
pub fn resolve(arg: u64) {
    let s = stores();
    let n = choose(1 + (arg >> 8), "builds") as usize;
    let alpha = b"aA.-b_";
    let mut names = vec![];
    for _ in 0..n {
        let w = words(arg & 15, alpha, "build");
        if !w.parse::<artefacta::Version>().is_ok() { return }
        for o in &names { assume(o != &w) }
        names.push(w);
    }
    for w in &names { note("build", w.as_bytes()); put(&s.r(&format!("{}.tar.zst", w)), b"x") }
    let tag = words((arg >> 4) & 15, alpha, "tag");
    note("tag", tag.as_bytes());
    let rem = s.remote_storage();
    let look = || value(|| { let i = open(&s.local, &rem)?; Some(i.get_build_for_tag(&tag).ok().map(|v| v.as_str().to_string())) });
    dirperm(3);
    seed(1);
    let (o, a) = look();
    check(o.ok(), "the store cannot be opened or the lookup panics");
    let a = a.unwrap();
    let exact = names.iter().any(|w| same_text(w, &tag));
    let any = names.iter().any(|w| folded(w, &tag));
    match &a {
        None => { check(!any, "no build is found for a tag that names one"); reach("none") }
        Some(b) => {
            note("found", b.as_bytes());
            check(names.iter().any(|w| w == b), "the build found is not in the index");
            check(folded(b, &tag), "a build of another name is found for the tag");
            if exact { check(same_text(b, &tag), "the build named exactly like the tag is not preferred"); reach("exact") }
            reach("found")
        }
    }
    seed(2);
    let (o, b) = look();
    check(o.ok(), "the store cannot be opened or the lookup panics");
    check(a == b.unwrap(), "the same tag gives different builds on different runs");
    dirperm(0);
}
