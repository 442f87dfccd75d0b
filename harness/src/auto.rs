//! C25: patches from the tags of a repository.
use crate::{hooks::*, lookup::*, util::*};

fn parts(s: &str) -> Vec<String> { s.to_ascii_lowercase().split(|c| c == '.' || c == '-').map(String::from).collect() }
/// The tags that are to be patched from, as the statement says it.
fn sources(cur: &str, tags: &[&str]) -> Vec<String> {
    let c = parts(cur);
    let mut out = vec![];
    for place in (0..c.len()).rev() {
        let n: u64 = match c[place].parse() { Ok(n) if n > 0 => n, _ => continue };
        let mut best: Option<&str> = None;
        for t in tags {
            let p = parts(t);
            if p.len() > place && p[..place] == c[..place] && p[place].parse() == Ok(n - 1) && best.map_or(true, |b| natural(b, t) == std::cmp::Ordering::Less) { best = Some(t) }
        }
        if let Some(b) = best { out.push(b.to_string()) }
    }
    out
}
fn refs(names: &[&str]) {
    let w = git2::world();
    *w = git2::World::default();
    for (i, t) in names.iter().enumerate() { w.refs.push(git2::Ref { name: t.as_bytes().to_vec(), seconds: i as i64 * 1000, commit: true }) }
}
fn judge(s: &Stores, rem: &artefacta::Storage, cur: &str, prefix: &str, tags: &[&str], builds: &[(String, Vec<u8>)], broken: &[String]) {
    let target = format!("{}{}", prefix, cur);
    let before = (tree(&s.local), tree(&s.remote));
    let o = cmd_auto_patch(&s.local, rem, cur, prefix);
    let (l, r) = (tree(&s.local), tree(&s.remote));
    check(o.ok() || o.failed(), "auto-patch panics");
    check(same(&before.1, &r), "auto-patch changes the remote store");
    let content = |n: &str| builds.iter().find(|b| b.0 == n).map(|b| &b.1);
    let known = content(&target).is_some() && !broken.contains(&target);
    let mut all = known;
    let mut made = vec![];
    if content(&target).is_some() { for t in sources(cur, tags) {
        let name = format!("{}{}", prefix, t);
        // the build of that name, or of one that differs in case and separators only
        let fold: Vec<&String> = builds.iter().map(|b| &b.0).filter(|b| parts(b) == parts(&name)).collect();
        let from = match fold.iter().find(|b| **b == &name).or(fold.first()) { Some(b) => b.to_string(), None => { all = false; continue } };
        check(fold.len() < 2 || fold.iter().any(|b| **b == name), "(layout)");
        if broken.contains(&from) || broken.contains(&target) { all = false; continue }
        let f = patch_file(&from, &target);
        made.push(f.clone());
        let old = content(&from).unwrap();
        match node_of(&before.0, &f).or(node_of(&before.1, &f)) {
            Some(n) => check(node_of(&l, &f).map_or(true, |x| same_node(x, n)), "auto-patch makes a patch again"),
            None => {
                check(file_of(&l, &f).is_some(), "a patch the tags call for is not made");
                check(apply(old, file_of(&l, &f).unwrap()).map_or(false, |x| eq(&x, content(&target).unwrap())), "a patch does not turn the tag's build into the current one");
                reach("made");
            }
        }
    } }
    check(o.ok() == all, "auto-patch reports success, but cannot have made all patches, or the other way");
    for (n, x) in &l {
        if let Some(y) = node_of(&before.0, n) { check(same_node(x, y), "auto-patch changes what is in the local store"); continue }
        if let Some(y) = node_of(&before.1, n) { check(same_node(x, y), "auto-patch fetches something wrongly"); continue }
        check(made.iter().any(|m| m == n), "auto-patch makes something no tag calls for");
    }
    for (n, _) in &before.0 { check(node_of(&l, n).is_some(), "auto-patch removes something") }
    reach(if o.ok() { "all" } else { "not all" });
}
/// Any set of tags in any order, with any of the builds.
pub fn tags(arg: u64) {
    let s = stores();
    let prefix = ["", "il-", "Il.0."][choose(if arg & 1 == 0 { 2 } else { 3 }, "prefix") as usize];
    let cur = ["1.10", "2.0.1", "1-10"][choose(if arg & 1 == 0 { 2 } else { 3 }, "current") as usize];
    let pool: &[(&str, &str)] = if cur == "2.0.1" { &[("2.0.0", ""), ("2.0.0.9", ""), ("1.10", "1-10"), ("1.9.7", ""), ("2.0.2", "")] } else { &[("1.9", ""), ("1.9-rc2", "1.9-RC2"), ("0.9", ""), ("0.10", "0-10"), ("1.11", "")] };
    let mut tags: Vec<&str> = vec![];
    let mut builds: Vec<(String, Vec<u8>)> = vec![];
    let mut broken = vec![];
    let mut add = |s: &Stores, name: String, here: bool| { let c = bytes(2 + builds.len() % 2, "content"); if here { put(&s.l(&build_file(&name)), &frame(&c)) } else { put(&s.r(&build_file(&name)), &frame(&c)) } builds.push((name, c)) };
    match choose(3, "own") { 0 => {}, k => add(&s, format!("{}{}", prefix, cur), k == 1) }
    for (i, (t, other)) in pool.iter().enumerate() {
        let k = choose(3, "tag");
        if k == 0 { continue }
        tags.push(t);
        // a build by that name or one spelled differently, or none; a decoy without the prefix
        if k == 1 { add(&s, format!("{}{}", prefix, if other.is_empty() { t } else { other }), i % 2 == 0) }
        else if !prefix.is_empty() { add(&s, t.to_string(), i % 2 == 0) }
    }
    let mut order: Vec<String> = tags.iter().map(|t| format!("refs/tags/{}", t)).collect();
    order.push(format!("refs/heads/{}", pool[0].0));
    order.push("refs/tags/zz".into());
    if arg & 2 != 0 { let k = choose(order.len() as u64, "order") as usize; order.rotate_left(k) }
    if flag("reversed") { order.reverse() }
    refs(&order.iter().map(|t| t.as_str()).collect::<Vec<_>>());
    git2::world().refs.push(git2::Ref { name: b"refs/tags/\xff\xfe".to_vec(), seconds: 5, commit: true });
    tags.push("zz");
    if arg & 4 != 0 && builds.len() > 1 && flag("broken") {
        let n = builds[1].0.clone();
        for p in &[s.l(&build_file(&n)), s.r(&build_file(&n))] { if exists_nofollow(p) { put(p, b"no archive") } }
        broken.push(n);
    } else if builds.len() > 1 && builds[0].0 == format!("{}{}", prefix, cur) && flag("patch there") {
        let f = patch_file(&builds[1].0, &builds[0].0);
        if flag("local") { put(&s.l(&f), b"is there") } else { put(&s.r(&f), b"is there") }
    }
    let rem = s.remote_storage();
    judge(&s, &rem, cur, prefix, &tags, &builds, &broken);
}
/// No repository, unreadable references, a prefix that makes no version.
pub fn unusable(_: u64) {
    let s = stores();
    s.build_l("1.1", b"new");
    s.build_r("1.0", b"old");
    refs(&["refs/tags/1.0"]);
    let k = choose(4, "case");
    match k { 0 => git2::world().no_repo = true, 1 => git2::world().no_refs = true, _ => {} }
    let rem = s.remote_storage();
    let before = (tree(&s.local), tree(&s.remote));
    let o = cmd_auto_patch(&s.local, &rem, if k == 3 { "7" } else { "1.1" }, if k == 2 { ["a/", "-", "a---"][choose(3, "prefix") as usize] } else { "" });
    check(o.failed(), "auto-patch does not fail where it must");
    check(same(&before.0, &tree(&s.local)) && same(&before.1, &tree(&s.remote)), "a failing auto-patch changes a store");
    reach("refused");
}
