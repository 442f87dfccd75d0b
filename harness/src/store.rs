//! C07, C10, C17, C19: the stores and what is put into them.
use crate::{hooks::*, install::{s3_put, s3_stores}, util::*};
use rusoto_s3::server::{server, Fail, Req};
use std::path::{Path, PathBuf};

/// What can be found under a name: nothing, a file, an empty file, links, a directory.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot { Absent, File, Empty, Dangling, Linked, Dir, DirLink }
const SLOTS: [Slot; 7] = [Slot::Absent, Slot::File, Slot::Empty, Slot::Dangling, Slot::Linked, Slot::Dir, Slot::DirLink];
fn place(p: &Path, k: Slot, content: &[u8], other: &Path) {
    match k {
        Slot::Absent => {}
        Slot::File => put(p, content),
        Slot::Empty => put(p, b""),
        Slot::Dangling => link(&p.with_file_name("nowhere"), p),
        Slot::Linked => link(&other.join("file"), p),
        Slot::Dir => mkdir(p),
        Slot::DirLink => link(other, p),
    }
}
/// Things that are neither builds nor patches.
fn junk(d: &Path, k: u64, other: &Path) {
    let n = |s: &str| d.join(s);
    match k {
        1 => put(&n("README"), b"hello"),
        2 => put(&n("._artefacta-temp-15900000001.tar.zst.part"), &frame(b"half")),
        3 => put(&n("a---b.tar.zst"), &frame(b"x")),
        4 => put(&n("a---b---c.patch.zst"), b"x"),
        5 => put(&n("lonely.patch.zst"), b"x"),
        6 => put(&n("8-9.patch.zst"), b"x"),
        7 => mkdir(&n("sub.tar.zst")),
        8 => link(&n("nothing.tar.zst"), &n("current")),
        9 => link(other, &n("backup.patch.zst")),
        10 => { use std::os::unix::ffi::OsStrExt; put(&d.join(std::ffi::OsStr::from_bytes(b"\xff\xfe.tar.zst")), b"x") }
        11 => put(&n("2.tar.zst.bak"), b"x"),
        12 => put(&n("2.tar"), b"x"),
        13 => put(&n("1-2.patch"), b"x"),
        14 => put(&n("-1.tar.zst"), b"x"),
        15 => mkdir(&n("d")),
        _ => {}
    }
}
const JUNK: u64 = 16;

/// What is known about builds for every combination of things under their names.
pub fn index_builds(arg: u64) {
    let s = stores();
    let other = s.root.join("other");
    mkdir(&other);
    put(&other.join("file"), &frame(b"other"));
    let c = [bytes(5, "c"), bytes(6, "c")];
    let names = ["1", "v2-rc.1"];
    let n = 1 + (arg & 1) as usize;
    let mut k = [[Slot::Absent; 2]; 2];
    for i in 0..n {
        k[i] = [SLOTS[choose(7, "local") as usize], SLOTS[choose(if i == 0 { 7 } else { 3 }, "remote") as usize]];
        place(&s.l(&build_file(names[i])), k[i][0], &frame_blocks(&c[i], 4), &other);
        place(&s.r(&build_file(names[i])), k[i][1], &frame_blocks(&c[i], 3), &other);
    }
    if arg & 2 != 0 { junk(if flag("side") { &s.local } else { &s.remote }, choose(JUNK, "junk"), &other) }
    let rem = s.remote_storage();
    dirperm(0);
    let before = tree(&s.root);
    let (o, known) = value(|| {
        let i = open(&s.local, &rem)?;
        Some(names.iter().map(|t| i.get_build_for_tag(t).is_ok()).collect::<Vec<bool>>())
    });
    check(o.ok(), "opening the stores fails");
    check(same(&before, &tree(&s.root)), "opening the stores changes files");
    let known = known.unwrap();
    for i in 0..2 { check(known[i] == (k[i][0] == Slot::File || k[i][1] == Slot::File), "a build is known that is not there, or the other way round") }
    // a tag of neither
    let (o, none) = value(|| Some(open(&s.local, &rem)?.get_build_for_tag("file").is_err()));
    check(o.ok() && none == Some(true), "a build is known that is in no store");
    // fetching
    let t = choose(n as u64, "fetch") as usize;
    let (o, got) = value(|| { let mut i = open(&s.local, &rem)?; Some(block_on(i.get_build(v(names[t]))).map(|e| (e.path, e.size)).ok()) });
    check(o.ok(), "fetching a build panics");
    let got = got.unwrap();
    if !known[t] { check(got.is_none(), "a build that is in no store can be fetched"); check(same(&before, &tree(&s.root)), "a failed fetch changes files"); reach("unknown"); return }
    if got.is_none() { check(k[t][0] == Slot::Dir || k[t][0] == Slot::DirLink, "a known build cannot be fetched"); reach("blocked"); return }
    let (p, size) = got.unwrap();
    check(PathBuf::from(&p) == s.l(&build_file(names[t])), "a build is fetched to another place");
    let f = read_back(&s.l(&build_file(names[t])));
    let want = if k[t][0] == Slot::File { frame_blocks(&c[t], 4) } else { frame_blocks(&c[t], 3) };
    check(f.as_ref().map_or(false, |f| eq(f, &want) && size == f.len() as u64), "a fetched build has the wrong content");
    check(same(&tree(&other), &vec![("file".into(), Node::File(frame(b"other")))]), "fetching a build writes through a link");
    reach("fetched");
}
/// The same for patches between known and unknown builds.
pub fn index_patches(arg: u64) {
    let s = stores();
    let other = s.root.join("other");
    mkdir(&other);
    put(&other.join("file"), &frame(b"other"));
    let names = ["1", "2"];
    let mut side = [0; 2];
    for i in 0..2 { side[i] = choose(4, "build"); if side[i] & 1 != 0 { s.build_l(names[i], b"build") } if side[i] & 2 != 0 { s.build_r(names[i], b"build") } }
    let c = [bytes(4, "patch"), bytes(5, "patch")];
    let (l, r) = (SLOTS[choose(7, "local") as usize], SLOTS[choose(7, "remote") as usize]);
    let f = "1-2.patch.zst";
    place(&s.l(f), l, &c[0], &other);
    place(&s.r(f), r, &c[1], &other);
    if arg & 1 != 0 { junk(if flag("side") { &s.local } else { &s.remote }, choose(JUNK, "junk"), &other) }
    let rem = s.remote_storage();
    let before = tree(&s.root);
    let known = (l == Slot::File || r == Slot::File) && side[0] > 0 && side[1] > 0;
    let (o, got) = value(|| { let mut i = open(&s.local, &rem)?; Some((block_on(i.get_patch(v("1"), v("2"))).map(|e| (e.path, e.size)).ok(), block_on(i.get_patch(v("2"), v("1"))).is_ok())) });
    check(o.ok(), "opening the stores fails");
    let (got, back) = got.unwrap();
    check(!back, "a patch is known that is in no store");
    if !known { check(got.is_none(), "a patch is known that is not there"); check(same(&before, &tree(&s.root)), "looking for a patch changes files"); reach("unknown"); return }
    if got.is_none() { check(l == Slot::Dir || l == Slot::DirLink, "a known patch cannot be fetched"); reach("blocked"); return }
    let (p, size) = got.unwrap();
    let want = if l == Slot::File { &c[0] } else { &c[1] };
    check(PathBuf::from(&p) == s.l(f) && size == want.len() as u64, "a patch is fetched to another place");
    check(read_back(&s.l(f)).map_or(false, |b| eq(&b, want)), "a fetched patch has the wrong content");
    check(same(&tree(&other), &vec![("file".into(), Node::File(frame(b"other")))]), "fetching a patch writes through a link");
    reach("fetched");
}
/// Files with any name at all next to a build and a patch.
pub fn index_names(arg: u64) {
    use std::os::unix::ffi::OsStrExt;
    let s = stores();
    s.build_l("1", b"one"); s.build_r("2", b"two"); put(&s.r("1-2.patch.zst"), b"patch");
    let end = choose(7, "end") as usize;
    let n = choose(if end < 4 { arg + 1 } else { arg }, "length") as usize;
    let mut name = bytes(n, "name");
    for i in 0..n { assume(name[i] != 0 && name[i] != b'/') }
    if end < 4 { name.extend_from_slice([&b".tar.zst"[..], b".patch.zst", b".part", b""][end]) }
    else { let mut x = [&b"5.tar.zst"[..], b"2-1.patch.zst", b"5tar.zst"][end - 4].to_vec(); if end == 6 { x.splice(1..1, name); } else { x.extend(name) } name = x }
    assume(!name.is_empty() && name != b"." && name != b"..");
    note("name", &name);
    for x in [&b"1.tar.zst"[..], b"2.tar.zst", b"1-2.patch.zst"].iter() { if eq(&name, x) { return } }
    let side = flag("side");
    quiet(true);
    std::fs::write((if side { &s.local } else { &s.remote }).join(std::ffi::OsStr::from_bytes(&name)), &bytes(3, "content")).unwrap();
    quiet(false);
    let rem = s.remote_storage();
    let (o, got) = value(|| { let mut i = open(&s.local, &rem)?; Some((i.get_build_for_tag("1").ok()?, i.get_build_for_tag("2").ok()?, block_on(i.get_patch(v("1"), v("2"))).is_ok(), block_on(i.get_patch(v("2"), v("1"))).is_ok())) });
    check(o.ok(), "a file with an odd name makes opening the stores fail");
    let g = got.unwrap();
    check(g.0.as_str() == "1" && g.1.as_str() == "2" && g.2, "a file with an odd name hides a build or patch");
    check(g.3 == (eq(&name, b"2-1.patch.zst") || eq(&name, b"2---1.patch.zst")), "a patch is known that is in no store, or one that is there is not");
    // nothing else is a build or a patch
    let is_build = name.ends_with(b".tar.zst");
    if let (true, Ok(n)) = (end > 2, std::str::from_utf8(&name)) {
        let tags: Vec<&str> = (0..=n.len()).filter(|i| n.is_char_boundary(*i)).map(|i| &n[..i]).collect();
        let (o, found) = value(|| { let i = open(&s.local, &rem)?; Some(tags.iter().filter_map(|t| i.get_build_for_tag(t).ok()).map(|x| x.as_str().to_string()).collect::<Vec<String>>()) });
        check(o.ok(), "opening the stores fails");
        for f in found.unwrap() { check(f == "1" || f == "2" || is_build && f == n[..n.len() - 8], "a file that is no build is known as one") }
    }
    if side && (end > 2 || n < 3) {
        check(cmd_sync(&s.local, &rem).ok(), "a file with an odd name makes sync fail");
        for (f, _) in tree(&s.remote) { check(is_artefact(&f), "a file that is no build or patch is uploaded") }
    }
    reach("end");
}

/// Sync for every distribution of artefacts, in directories.
pub fn sync_dirs(arg: u64) {
    let s = stores();
    let names = ["1.tar.zst", "v2-b.tar.zst", "1---v2-b.patch.zst", "v2-b---1.patch.zst"];
    let n = 2 + (arg & 3).min(2) as usize;
    let mut k = vec![];
    let c: Vec<Vec<u8>> = (0..n).map(|i| bytes(4 + i, "c")).collect();
    for i in 0..n {
        let x = choose(5, "where"); k.push(x);
        // 0 nowhere, 1 local, 2 remote, 3 both, 4 both and different
        if x == 1 || x == 3 || x == 4 { put(&s.l(names[i]), &c[i]) }
        if x == 2 || x == 3 { put(&s.r(names[i]), &c[i]) }
        if x == 4 { put(&s.r(names[i]), &c[i][1..]) }
    }
    let other = s.root.join("other");
    mkdir(&other);
    put(&other.join("file"), &frame(b"other"));
    if arg & 4 != 0 { junk(if flag("side") { &s.local } else { &s.remote }, choose(JUNK, "junk"), &other) }
    let known = |i: usize| i < 2 || k[0] > 0 && k[1] > 0;
    let rem = s.remote_storage();
    dirperm((arg >> 4) as u32);
    let before = (tree(&s.local), tree(&s.remote));
    let inodes: Vec<u64> = (0..n).map(|i| ino(&s.r(names[i]))).collect();
    let o = cmd_sync(&s.local, &rem);
    dirperm(0);
    check(o.ok(), "sync fails for no reason");
    check(same(&before.0, &tree(&s.local)), "sync changes the local store");
    let after = tree(&s.remote);
    for (f, node) in &before.1 { check(node_of(&after, f).map_or(false, |x| same_node(x, node)), "sync changes what the remote store holds") }
    for i in 0..n {
        if k[i] >= 2 { check(ino(&s.r(names[i])) == inodes[i], "sync uploads an artefact that the remote store already holds") }
        if k[i] == 1 && known(i) { check(file_of(&after, names[i]).map_or(false, |b| eq(b, &c[i])), "an artefact is not uploaded unchanged") }
    }
    for (f, _) in &after { check(node_of(&before.1, f).is_some() || (0..n).any(|i| k[i] == 1 && names[i] == f), "sync uploads something that is no build or patch") }
    reach("end");
}
/// Sync of many artefacts.
pub fn sync_many(arg: u64) {
    let far = flag("S3");
    let (s, rem) = if far { s3_stores() } else { let s = stores(); let r = s.remote_storage(); (s, r) };
    let nb = 2 + choose(6 + arg, "builds") as usize;
    let names: Vec<String> = (0..nb).map(|i| format!("{}.{}", i / 4, i)).collect();
    let mut files: Vec<String> = names.iter().map(|n| build_file(n)).collect();
    let np = choose(8 + arg, "patches") as usize;
    let mut k = 0;
    'all: for d in 1..nb { for i in 0..nb { if k == np { break 'all } let o = (i + d) % nb; files.push(patch_file(&names[i], &names[o])); k += 1 } }
    let held = choose(5, "held");
    let mut missing = vec![];
    for (i, f) in files.iter().enumerate() {
        let b: Vec<u8> = (0..3 + i % 4).map(|x| (7 * i + x) as u8).collect();
        put(&s.l(f), &b);
        if match held { 0 => false, 1 => i % 2 == 0, 2 => i % 3 != 0, 3 => i < 4, _ => i + 1 < files.len() } { if far { s3_put(f, &b[1..]); } else { put(&s.r(f), &b[1..]) } } else { missing.push(i) }
    }
    let all = || if far { let mut t: Tree = server().objects.iter().map(|o| (o.key[2..].to_string(), Node::File(o.body.clone()))).collect(); t.sort_by(|a, b| a.0.cmp(&b.0)); t } else { tree(&s.remote) };
    let (l, before) = (tree(&s.local), all());
    note("artefacts", &[files.len() as u8, missing.len() as u8]);
    check(cmd_sync(&s.local, &rem).ok(), "sync fails for no reason");
    check(same(&l, &tree(&s.local)), "sync changes the local store");
    let after = all();
    for (f, x) in &before { check(node_of(&after, f).map_or(false, |y| same_node(x, y)), "sync changes what the remote store holds") }
    for i in &missing { check(file_of(&after, &files[*i]).map_or(false, |b| Some(b) == file_of(&l, &files[*i])), "an artefact is not uploaded unchanged") }
    check(after.len() == files.len(), "sync uploads something that is no build or patch");
    reach("end");
}
fn any_delay(_: usize) -> u32 { choose(3, "delay") as u32 }
fn some_delay(n: usize) -> u32 { if n == 0 { 0 } else { choose(2, "delay") as u32 } }
/// Sync to S3, for every order in which uploads complete, with a failing upload or none.
pub fn sync_s3(arg: u64) {
    let (s, rem) = s3_stores();
    let names = ["1.tar.zst", "2.tar.zst", "1-2.patch.zst", "3.tar.zst", "2-3.patch.zst"];
    let n = 2 + (arg & 3) as usize;
    let c: Vec<Vec<u8>> = (0..n).map(|i| frame(&(0..5 + i as u8).collect::<Vec<u8>>())).collect();
    let mut missing = vec![];
    for i in 0..n {
        put(&s.l(names[i]), &c[i]);
        if arg & 8 != 0 && flag("remote") { s3_put(names[i], &c[i][1..]); } else { missing.push(i) }
    }
    let before = tree(&s.local);
    let held: Vec<(String, Vec<u8>)> = server().objects.iter().map(|o| (o.key.clone(), o.body.clone())).collect();
    server().delays = Some(if arg & 4 == 0 { any_delay } else { some_delay });
    let fails = choose(missing.len() as u64 + 1, "failing");
    if fails > 0 { server().fail.push((Req::Put, fails as usize - 1, match choose(3, "failure") { 0 => Fail::Dispatch, 1 => Fail::Status(503, "slow down".into()), _ => Fail::Status(400, "<Code>BadDigest</Code>".into()) })) }
    let o = cmd_sync(&s.local, &rem);
    server().delays = None;
    check(o == Out::Ok || o == Out::Fail, "sync panics");
    check(same(&before, &tree(&s.local)), "sync changes the local store");
    for (k, b) in &held { check(server().find("end.point", "buck", k).map_or(false, |x| x.body == *b), "sync changes what the remote store holds") }
    let puts: Vec<&String> = server().log.iter().filter(|l| l.0 == Req::Put).map(|l| &l.1).collect();
    for p in &puts { check(puts.iter().filter(|q| q == &p).count() == 1, "an artefact is uploaded twice"); check(missing.iter().any(|i| **p == format!("p/{}", names[*i])), "sync uploads something else than what is missing") }
    for o in &server().objects { check(held.iter().any(|h| h.0 == o.key) || missing.iter().any(|i| o.key == format!("p/{}", names[*i]) && o.body == c[*i]), "sync uploads something wrong") }
    if fails == 0 {
        check(o.ok(), "sync fails for no reason");
        check(puts.len() == missing.len(), "sync leaves out an artefact");
        reach("complete");
        if server().max_active > 1 { reach("concurrent") }
    } else { check(o.failed(), "sync succeeds although an upload failed"); reach("failed") }
}

/// The patch in the local store turns one content into the other.
fn patch_right(s: &Stores, a: &str, b: &str, ca: &[u8], cb: &[u8]) -> bool {
    read_back(&s.l(&patch_file(a, b))).and_then(|p| apply(ca, &p)).map_or(false, |x| eq(&x, cb))
}
/// Patches between builds of every content, from every mix of stores.
pub fn create(arg: u64) {
    let s = stores();
    let names: [&str; 2] = [["1", "2"], ["v9-b", "v9-a"], ["b.tar", "2.patch"]][choose(3, "names") as usize];
    let big = arg & 15;
    let c = [bytes(choose(big + 1, "size") as usize, "c"), bytes(choose(big + 1, "size") as usize, "c")];
    let mut have = [false; 2];
    for i in 0..2 {
        let k = choose(4, "where");
        have[i] = k > 0;
        if k & 1 != 0 { put(&s.l(&build_file(names[i])), &frame_blocks(&c[i], 2)) }
        if k & 2 != 0 { put(&s.r(&build_file(names[i])), &frame_blocks(&c[i], 3)) }
    }
    let old = bytes(3, "old patch");
    let pf = patch_file(names[0], names[1]);
    let p = if have[0] && have[1] { choose(3, "patch") } else { 0 };
    if p == 1 { put(&s.l(&pf), &old) }
    if p == 2 { put(&s.r(&pf), &old) }
    // a patch the other way round
    if have[0] && have[1] { let back = patch_file(names[1], names[0]); match choose(3, "back") { 1 => put(&s.l(&back), &patch(&c[1], &c[0])), 2 => put(&s.r(&back), &patch(&c[1], &c[0])), _ => {} } }
    let same_version = flag("same");
    let rem = s.remote_storage();
    let before = (tree(&s.local), tree(&s.remote));
    let o = cmd_create_patch(&s.local, &rem, names[0], if same_version { names[0] } else { names[1] });
    let after = tree(&s.local);
    check(o == Out::Ok || o == Out::Fail, "creating a patch panics");
    check(same(&before.1, &tree(&s.remote)), "creating a patch changes the remote store");
    for (f, node) in &before.0 { check(node_of(&after, f).map_or(false, |x| same_node(x, node)), "creating a patch changes what the local store holds") }
    check(builds_right(&after, &[(names[0], &c[0]), (names[1], &c[1])]), "creating a patch changes a build");
    if same_version || !have[0] || !have[1] {
        check(o.failed(), "a patch between equal or unknown versions is not rejected");
        check(!after.iter().any(|e| e.0.ends_with(".patch.zst") && node_of(&before.0, &e.0).is_none()), "a rejected patch leaves a patch file");
        reach("rejected");
        return;
    }
    check(o.ok(), "creating a patch fails");
    if p > 0 { check(file_of(&after, &pf).map_or(false, |b| eq(b, &old)), "a patch that is already there is not kept"); reach("kept") }
    else { check(patch_right(&s, names[0], names[1], &c[0], &c[1]), "the patch does not turn the old build into the new one"); reach("made") }
    for e in &after { check(e.0 == pf || node_of(&before.0, &e.0).is_some() || names.iter().any(|n| e.0 == build_file(n)), "creating a patch leaves other files behind") }
}
/// Patches made while adding a build, or from tags.
pub fn create_other(arg: u64) {
    let s = stores();
    let c: Vec<Vec<u8>> = (0..3).map(|i| bytes(if arg == 0 { 3 + i } else { 5 - i }, "c")).collect();
    let rem = s.remote_storage();
    let names = ["m-1.1", "m-1.0", "m-0.2"];
    // where the older builds are; 0: missing
    let mut k = [0; 3];
    for i in 1..3 { k[i] = choose(3, "where"); if k[i] == 1 { s.build_l(names[i], &c[i]) } if k[i] == 2 { s.build_r(names[i], &c[i]) } }
    if flag("add") {
        let src = s.root.join("src");
        mkdir(&src);
        let f = src.join("m-1.1.tar.zst");
        put(&f, &frame(&c[0]));
        let up = flag("upload");
        let before = tree(&s.remote);
        let o = cmd_add(&s.local, &rem, &f, up, Some("m-1.0"));
        check(o == Out::Ok || o == Out::Fail, "adding a build panics");
        check(o.ok() == (k[1] > 0), "adding a build with a patch from an unknown version succeeds, or from a known one fails");
        if o.ok() {
            check(patch_right(&s, "m-1.0", "m-1.1", &c[1], &c[0]), "the patch does not turn the old build into the new one");
            if up { let (l, r) = (tree(&s.local), tree(&s.remote)); for e in artefacts(&l) { check(node_of(&r, &e.0).map_or(false, |x| e.0 == "m-1.0.tar.zst" || same_node(x, &e.1)), "something is not uploaded") } reach("uploaded") }
            else { check(same(&before, &tree(&s.remote)), "something is uploaded unasked") }
            reach("added");
        } else { check(!exists_nofollow(&s.l("m-1.0---m-1.1.patch.zst")), "a failed patch leaves a file") }
        check(builds_right(&tree(&s.local), &[(names[0], &c[0]), (names[1], &c[1]), (names[2], &c[2])]), "adding a build changes a build");
    } else {
        let w = git2::world();
        *w = git2::World::default();
        for (i, t) in ["refs/tags/1.1", "refs/tags/1.0", "refs/tags/0.2", "refs/heads/0.1", "refs/tags/x"].iter().enumerate() { w.refs.push(git2::Ref { name: t.as_bytes().to_vec(), seconds: i as i64, commit: true }) }
        let own = choose(3, "own");
        if own & 1 != 0 { s.build_l(names[0], &c[0]) }
        if own & 2 != 0 { s.build_r(names[0], &c[0]) }
        let before = tree(&s.remote);
        let o = cmd_auto_patch(&s.local, &rem, "1.1", "m-");
        check(o != Out::Panic && o != Out::Crash, "auto-patch panics");
        check(o.ok() == (own > 0 && k[1] > 0 && k[2] > 0), "auto-patch succeeds without all patches, or fails with them");
        let t = tree(&s.local);
        for i in 1..3 {
            let f = patch_file(names[i], names[0]);
            if own > 0 && k[i] > 0 { check(patch_right(&s, names[i], names[0], &c[i], &c[0]), "a patch from a tag is missing or wrong") } else { check(node_of(&t, &f).is_none(), "a patch appears that cannot be") }
        }
        check(same(&before, &tree(&s.remote)), "auto-patch changes the remote store");
        check(t.iter().filter(|e| e.0.ends_with(".patch.zst")).count() <= 2, "auto-patch makes other patches");
        check(builds_right(&t, &[(names[0], &c[0]), (names[1], &c[1]), (names[2], &c[2])]), "auto-patch changes a build");
        reach("tags");
    }
}

/// Adding files under all kinds of names, over all kinds of stores.
pub fn add(arg: u64) {
    let s = stores();
    let src = s.root.join("src");
    mkdir(&src);
    let c = frame(&bytes(1 + (arg & 15) as usize, "c"));
    let old = frame(&bytes(4, "old"));
    let (f, ver): (&str, &str) = [("1.tar.zst", "1"), ("v1.2-rc.tar.zst", "v1.2-rc"), ("plain.zst", "plain"), ("x.tar.tar.zst", "x.tar"), ("y.patch.tar.zst", "y.patch"), (".hidden.tar.zst", ".hidden"), ("bare", "bare")][choose(7, "file") as usize];
    let p = src.join(f);
    let kind = choose(5, "source");
    match kind { 0 => put(&p, &c), 1 => put(&p, b""), 2 => {}, 3 => { put(&src.join("data"), &c); link(&src.join("data"), &p) } _ => mkdir(&p) }
    // what is there already
    let dest = build_file(ver);
    let there = choose(5, "there");
    match there { 1 => put(&s.l(&dest), &old), 4 => put(&s.l(&dest), &frame(&bytes(1 + (arg & 15) as usize, "same size"))), 2 => put(&s.r(&dest), &old), 3 => put(&s.l(&dest), b""), _ => {} }
    s.build_l("0", b"zero"); s.build_r("00", b"zerozero"); put(&s.l("0-00.patch.zst"), b"p");
    let up = flag("upload");
    let rem = s.remote_storage();
    let before = (tree(&s.local), tree(&s.remote), tree(&src));
    let o = cmd_add(&s.local, &rem, &p, up, None);
    let after = (tree(&s.local), tree(&s.remote));
    check(o == Out::Ok || o == Out::Fail, "adding a build panics");
    check(same(&before.2, &tree(&src)), "adding a build changes its source");
    check(tree(&s.root.join("tmp")).is_empty(), "files are left in the temporary directory");
    if kind == 0 {
        check(o.ok(), "adding a build fails");
        check(file_of(&after.0, &dest).map_or(false, |b| eq(b, &c)), "the added build is not a copy of the file given");
        check(same(&without(&before.0, &[&dest]), &without(&after.0, &[&dest])), "adding a build changes other files");
        let (o2, known) = value(|| Some(open(&s.local, &rem)?.get_build_for_tag(ver).map(|x| x.as_str() == ver).unwrap_or(false)));
        check(o2.ok() && known == Some(true), "the added build is not known under its version");
        if up {
            check(file_of(&after.1, &dest).map_or(false, |b| eq(b, if there == 2 { &old } else { &c })), "the added build is not uploaded unchanged");
            check(file_of(&after.1, "0.tar.zst").is_some() && file_of(&after.1, "0-00.patch.zst").is_some(), "not everything is uploaded");
            reach("uploaded");
        } else { check(same(&before.1, &after.1), "something is uploaded unasked") }
        reach("added");
    } else if kind == 3 {
        // a link to the file: its name is the file it points at
        if o.ok() { check(same(&before.0, &without(&after.0, &["data.tar.zst"])), "adding a link changes other files"); check(file_of(&after.0, "data.tar.zst").map_or(false, |b| eq(b, &c)), "adding a link gives another content") }
        reach("link");
    } else {
        check(o.failed(), "adding a missing or empty file succeeds");
        check(same(&before.0, &after.0), "a failed add changes the local store");
        check(same(&before.1, &after.1), "a failed add changes the remote store");
        reach("refused");
    }
}
/// The same for packages.
pub fn add_package(arg: u64) {
    let s = stores();
    let src = s.root.join("src");
    mkdir(&src);
    let ver: &str = ["1", "v1.2-rc", "x.tar", "y.patch", "z.tar.zst", "."][choose(6, "version") as usize];
    let c = bytes(1 + (arg & 15) as usize, "c");
    let kind = choose(4, "source");
    let p = src.join("app");
    match kind { 0 => put(&p, &c), 1 => { mkdir(&p.join("d")); put(&p.join("b"), &c); put(&p.join("d/a"), b"x") } 2 => mkdir(&p), _ => {} }
    let dest = build_file(ver);
    let there = choose(4, "there");
    let old = frame(b"old");
    if there == 3 {
        // packaged before, with content of the same size
        if kind > 1 { return }
        let q = s.root.join("earlier").join("app");
        let d = bytes(c.len(), "earlier");
        if kind == 0 { mkdir(q.parent().unwrap()); put(&q, &d) } else { mkdir(&q.join("d")); put(&q.join("b"), &d); put(&q.join("d/a"), b"y") }
        check(cmd_add_package(&s.local, &s.remote_storage(), ver, &q, false, None).ok(), "packaging fails");
    }
    match there { 1 => put(&s.l(&dest), &old), 2 => put(&s.r(&dest), &old), _ => {} }
    s.build_l("0", b"zero");
    let up = flag("upload");
    let from = flag("patch");
    let rem = s.remote_storage();
    let before = (tree(&s.local), tree(&s.remote), tree(&src));
    let o = cmd_add_package(&s.local, &rem, ver, &p, up, if from { Some("0") } else { None });
    let after = (tree(&s.local), tree(&s.remote));
    check(o == Out::Ok || o == Out::Fail, "packaging panics");
    check(same(&before.2, &tree(&src)), "packaging changes its source");
    check(tree(&s.root.join("tmp")).is_empty(), "files are left in the temporary directory");
    if kind == 3 {
        check(o.failed(), "packaging nothing succeeds");
        check(same(&before.0, &after.0) && same(&before.1, &after.1), "a failed packaging changes a store");
        reach("refused");
        return;
    }
    check(o.ok(), "packaging fails");
    let pf = patch_file("0", ver);
    check(same(&without(&before.0, &[&dest]), &without(&after.0, &[&dest, &pf])), "packaging changes other files");
    let tar = file_of(&after.0, &dest).and_then(|b| unpack(b));
    check(tar.is_some(), "the package is not stored under its version");
    let tar = tar.unwrap();
    let want: Vec<(&str, &[u8])> = match kind { 0 => vec![("app", &c)], 1 => vec![("b", &c), ("d/a", b"x")], _ => vec![] };
    let got = crate::pack::entries(&tar);
    check(got.is_some(), "the package is no archive");
    let got = got.unwrap();
    check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.path == w.0.as_bytes() && eq(&g.data, w.1)), "the package does not hold what was packaged");
    if from { check(read_back(&s.l(&pf)).and_then(|p| apply(b"zero", &p)).map_or(false, |x| eq(&x, &tar)), "the patch for the package is wrong"); reach("patched") }
    if up { check(there == 2 || node_of(&after.1, &dest).map_or(false, |x| same_node(x, node_of(&after.0, &dest).unwrap())), "the package is not uploaded"); reach("uploaded") } else { check(same(&before.1, &after.1), "something is uploaded unasked") }
    reach("added");
}
