//! C04, C06, C18, C22: interrupted and parallel commands.
use crate::{hooks::*, install::*, util::*};
use artefacta::{PartialFile, Storage};
use rusoto_s3::server::server;
use std::{io::Write, path::{Path, PathBuf}};

/// What a command is to do, over stores prepared for it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Do { Install(usize), Patch(usize, usize), Add { i: usize, up: bool, from: Option<usize> }, Package { i: usize, up: bool, from: Option<usize> }, Sync, Tags }
const NAMES: [&str; 3] = ["1", "2", "3"];
const TAGS: [&str; 3] = ["0.2", "1.0", "1.1"];
struct Job { names: [&'static str; 3], s: Stores, rem: Storage, what: Do, c: Vec<Vec<u8>>, src: PathBuf, packed: Vec<u8>, before: (Tree, Tree), s3: bool }

/// Fixed content that cannot be compressed.
pub fn large(n: usize, seed: u32) -> Vec<u8> { let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345); (0..n).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect() }
/// The job an argument stands for.
fn which(arg: u64) -> u64 { arg & 15 | (arg & 32) >> 1 }
fn job(k: u64) -> Job {
    let s3 = k >= 13 && k < 16;
    let (s, rem) = if s3 { s3_stores() } else { let s = stores(); let r = s.remote_storage(); (s, r) };
    let mut c = if k >= 16 { (0..3).map(|i| large(9000 + 7 * i, i as u32)).collect() } else if s3 { fixed_contents(3, if k == 13 { 24 } else { 6 }) } else { contents(3, if k == 2 || k == 3 { 24 } else { 6 }) };
    let src = s.root.join("src");
    mkdir(&src);
    let mut packed = vec![];
    let what = match k {
        // install: fresh, over an older one, by patches, from the local store, although a patch is damaged
        0 => { s.build_r("1", &c[0]); Do::Install(0) }
        1 => { s.build_l("1", &c[0]); s.build_r("2", &c[1]); link(&s.l("1.tar.zst"), &s.current); Do::Install(1) }
        2 => { s.build_l("1", &c[0]); for i in 1..3 { put(&s.r(&build_file(NAMES[i])), &frame_blocks(&c[i], 1)); put(&s.r(&patch_file(NAMES[i - 1], NAMES[i])), &small_patch(&c[i - 1], &c[i])) } link(&s.l("1.tar.zst"), &s.current); Do::Install(2) }
        3 => { s.build_l("1", &c[0]); put(&s.r("2.tar.zst"), &frame_blocks(&c[1], 1)); put(&s.r("1-2.patch.zst"), b"nonsense"); link(&s.l("1.tar.zst"), &s.current); Do::Install(1) }
        // patches
        4 => { s.build_l("1", &c[0]); s.build_r("2", &c[1]); Do::Patch(0, 1) }
        5 => { s.build_r("1", &c[0]); s.build_r("2", &c[1]); put(&s.r("1-2.patch.zst"), &patch(&c[0], &c[1])); Do::Patch(0, 1) }
        // adding: new, replacing, with patch and upload
        6 => { put(&src.join("1.tar.zst"), &frame_blocks(&c[0], 3)); Do::Add { i: 0, up: false, from: None } }
        7 => { s.build_l("1", b"old"); put(&src.join("1.tar.zst"), &frame_blocks(&c[0], 3)); Do::Add { i: 0, up: false, from: None } }
        8 => { s.build_r("1", &c[0]); put(&src.join("2.tar.zst"), &frame(&c[1])); Do::Add { i: 1, up: true, from: Some(0) } }
        9 => { s.build_l("1", b"old"); packed = bytes(3, "packed"); put(&src.join("app"), &packed); Do::Package { i: 0, up: false, from: None } }
        10 => { s.build_l("1", &c[0]); packed = bytes(3, "packed"); put(&src.join("app"), &packed); Do::Package { i: 1, up: true, from: Some(0) } }
        // uploading
        11 | 14 => { for i in 0..2 { s.build_l(NAMES[i], &c[i]) } put(&s.l("1-2.patch.zst"), &small_patch(&c[0], &c[1])); put(&s.l("2-1.patch.zst"), &patch(&c[1], &c[0])); Do::Sync }
        12 => {
            c[2] = c[0][1..].to_vec();
            s.build_r("0.2", &c[0]); s.build_l("1.0", &c[1]); s.build_r("1.1", &c[2]);
            let w = git2::world();
            *w = git2::World::default();
            for (i, t) in ["refs/tags/1.1", "refs/tags/1.0", "refs/tags/0.2"].iter().enumerate() { w.refs.push(git2::Ref { name: t.as_bytes().to_vec(), seconds: i as i64, commit: true }) }
            Do::Tags
        }
        13 => { s.build_l("1", &c[0]); for i in 1..3 { s3_put(&build_file(NAMES[i]), &frame_blocks(&c[i], 1)); s3_put(&patch_file(NAMES[i - 1], NAMES[i]), &small_patch(&c[i - 1], &c[i])); } link(&s.l("1.tar.zst"), &s.current); Do::Install(2) }
        // files of more than one buffer
        16 => { s.build_l("1", &c[0]); s.build_l("2", &c[1]); Do::Patch(0, 1) }
        17 => { s.build_l("1", &c[0]); put(&src.join("2.tar.zst"), &frame(&c[1])); Do::Add { i: 1, up: true, from: None } }
        18 => { c[1] = [&c[0][..], &c[1][..]].concat(); s.build_l("1", &c[0]); s.build_r("2", &c[1]); put(&s.r("1-2.patch.zst"), &small_patch(&c[0], &c[1])); link(&s.l("1.tar.zst"), &s.current); Do::Install(1) }
        19 => { packed = c[2].clone(); put(&src.join("app"), &packed); Do::Package { i: 1, up: true, from: None } }
        _ => { s3_put("1.tar.zst", &frame(&c[0])); put(&src.join("2.tar.zst"), &frame(&c[1])); Do::Add { i: 1, up: true, from: Some(0) } }
    };
    let mut j = Job { names: if k == 12 { TAGS } else { NAMES }, s, rem, what, c, src, packed, before: (vec![], vec![]), s3 };
    j.before = j.trees();
    // the names of temporary files may tell the second and the process: both can come again
    freeze_clock(true);
    j
}
impl Job {
    fn trees(&self) -> (Tree, Tree) {
        let r = if self.s3 { let mut t: Tree = server().objects.iter().map(|o| (o.key[2..].to_string(), Node::File(o.body.clone()))).collect(); t.sort_by(|a, b| a.0.cmp(&b.0)); t } else { tree(&self.s.remote) };
        (tree(&self.s.local), r)
    }
    fn source(&self, i: usize) -> PathBuf { self.src.join(build_file(self.names[i])) }
    /// Runs the command in this process.
    fn act(&self) -> bool {
        let s = &self.s;
        let mut i = match open(&s.local, &self.rem) { Some(i) => i, None => return false };
        let add = |path: PathBuf, up: bool, from: Option<usize>| artefacta::cli::AddBuild { path, upload: up, calculate_patch_from: from.map(|f| v(self.names[f])) };
        match self.what {
            Do::Install(n) => block_on(artefacta::install(&mut i, v(self.names[n]), &s.current)).is_ok(),
            Do::Patch(a, b) => block_on(artefacta::create_patch(&mut i, v(self.names[a]), v(self.names[b]))).is_ok(),
            Do::Add { i: n, up, from } => block_on(artefacta::add(&mut i, add(self.source(n), up, from))).is_ok(),
            Do::Package { i: n, up, from } => block_on(artefacta::add_package(&mut i, v(self.names[n]), add(self.src.join("app"), up, from))).is_ok(),
            Do::Sync => block_on(artefacta::sync(&i)).is_ok(),
            Do::Tags => block_on(artefacta::auto_patch(&mut i, Path::new("/scratch"), v(self.names[2]), "")).is_ok(),
        }
    }
    fn go(&self) -> Out { process(|| self.act()) }
    /// The build file is complete and has the content its version is to have.
    fn right(&self, i: usize, b: &[u8]) -> bool {
        match self.what {
            Do::Package { i: n, .. } if n == i => unpack(b).and_then(|t| crate::pack::entries(&t)).map_or(false, |e| e.len() == 1 && e[0].path == b"app" && eq(&e[0].data, &self.packed)),
            _ => unpack(b).map_or(false, |u| eq(&u, &self.c[i])),
        }
    }
    fn plain(&self, t: &Tree, i: usize) -> Option<Vec<u8>> { file_of(t, &build_file(self.names[i])).and_then(|b| unpack(b)) }
    /// Every artefact of one store is what it was, or complete and right.
    fn whole(&self, before: &Tree, now: &Tree, local: &Tree) {
        for (n, x) in now {
            if !is_artefact(n) { continue }
            if [&self.before.0, &self.before.1].iter().any(|t| node_of(t, n).map_or(false, |w| same_node(w, x))) { continue }
            let b = match x { Node::File(b) => b, _ => { check(false, "an artefact is not a file"); return } };
            let mut named = false;
            for i in 0..3 {
                if *n == build_file(self.names[i]) { named = true; check(self.right(i, b), "an artefact is visible that is incomplete or wrong") }
                for k in 0..3 { if *n == patch_file(self.names[i], self.names[k]) {
                    named = true;
                    let (old, new) = match self.what { Do::Package { .. } => (self.plain(local, i), self.plain(local, k)), _ => (Some(self.c[i].clone()), Some(self.c[k].clone())) };
                    check(old.is_some() && new.is_some() && apply(&old.unwrap(), b).map_or(false, |x| eq(&x, &new.unwrap())), "an artefact is visible that is incomplete or wrong")
                } }
            }
            check(named, "a temporary file has the name of an artefact");
        }
        for (n, _) in before { if is_artefact(n) { check(node_of(now, n).is_some(), "an artefact is gone") } }
    }
    /// What an interrupted command leaves besides artefacts is hidden and in the store itself.
    fn rest_hidden(&self) {
        let t = self.trees();
        for (b, now) in &[(&self.before.0, &t.0), (&self.before.1, &t.1)] {
            for (n, x) in *now {
                if node_of(b, n).is_some() || is_artefact(n) || n == "current" { continue }
                check(n.starts_with('.') && !n.contains('/') && !matches!(x, Node::Dir), "an interrupted command leaves something in a store that is neither an artefact nor a hidden file");
            }
            for (n, x) in *b { if !is_artefact(n) && n != "current" { check(node_of(now, n).map_or(false, |y| same_node(x, y)), "a command changes a file in a store that is no artefact") } }
        }
    }
    fn all_whole(&self) { let t = self.trees(); self.whole(&self.before.0, &t.0, &t.0); self.whole(&self.before.1, &t.1, &t.0) }
    fn has_patch(&self, t: &Tree, a: usize, b: usize) -> bool {
        let (old, new) = (self.plain(t, a), self.plain(t, b));
        old.is_some() && new.is_some() && file_of(t, &patch_file(self.names[a], self.names[b])).and_then(|p| apply(&old.unwrap(), p)).map_or(false, |x| eq(&x, &new.unwrap()))
    }
    /// The command has had all its effects.
    fn done(&self) -> bool {
        let (l, r) = self.trees();
        let uploaded = |up: bool| !up || artefacts(&l).iter().all(|(n, x)| node_of(&self.before.1, n).is_some() || node_of(&r, n).map_or(false, |y| same_node(x, y)));
        let added = |n: usize| file_of(&l, &build_file(self.names[n])).map_or(false, |b| self.right(n, b));
        match self.what {
            Do::Install(n) => installed(&self.s, self.names[n], &self.c[n]),
            Do::Patch(a, b) => self.has_patch(&l, a, b),
            Do::Add { i, up, from } => added(i) && file_of(&l, &build_file(self.names[i])).map_or(false, |b| eq(b, &read_back(&self.source(i)).unwrap())) && from.map_or(true, |f| self.has_patch(&l, f, i)) && uploaded(up),
            Do::Package { i, up, from } => added(i) && from.map_or(true, |f| self.has_patch(&l, f, i)) && uploaded(up),
            Do::Sync => uploaded(true),
            Do::Tags => self.has_patch(&l, 0, 2) && self.has_patch(&l, 1, 2),
        }
    }
}
const KINDS: [u32; 6] = [CRASH, MID, ERR, SHORT, FULL, READ_ONLY];
fn interrupted(j: &Job) -> (Out, bool) {
    fault(KINDS[choose(6, "kind") as usize], sym(8, "at"));
    let o = j.go();
    let fired = fault_fired();
    fault(0, 0);
    check(o != Out::Panic, "a command panics over a fault");
    (o, fired)
}
/// Artefacts after an interruption anywhere, and after what later commands make of the rest.
pub fn whole(arg: u64) {
    let j = job(which(arg));
    let (_, fired) = interrupted(&j);
    j.all_whole();
    j.rest_hidden();
    if fired { reach("interrupted") } else { reach("complete") }
    if arg & 16 != 0 { let _ = interrupted(&j); j.all_whole(); j.rest_hidden() }
    let o = cmd_sync(&j.s.local, &j.rem);
    check(o.ok(), "what an interrupted command leaves makes sync fail");
    j.all_whole();
}
/// Success and failure under one fault, and a second try.
pub fn reports(arg: u64) {
    let j = job(which(arg));
    let (o, fired) = interrupted(&j);
    if o.ok() { check(j.done(), "a command reports success, but its result is not there") }
    if !fired { check(o.ok(), "a command fails for no reason"); reach("complete"); return }
    reach("interrupted");
    if arg & 16 != 0 { let (o, _) = interrupted(&j); if o.ok() { check(j.done(), "a command reports success, but its result is not there") } }
    check(j.go().ok(), "the same command fails when tried again");
    check(j.done(), "the same command tried again does not give the right result");
    if o.failed() { reach("failed") }
    if o.ok() { reach("coped") }
}

/// The temporary-file helper.
pub fn partial(arg: u64) {
    let root = scratch();
    let d = root.join("d");
    mkdir(&d);
    let t = d.join(["f", "1.tar.zst", ".x"][choose(3, "name") as usize]);
    let name = t.file_name().unwrap().to_str().unwrap().to_string();
    let there = choose(4, "there");
    let old = bytes(2, "old");
    match there { 1 => put(&t, &old), 2 => { put(&d.join("real"), &old); link(&d.join("real"), &t) } 3 => mkdir(&t), _ => {} }
    let before = tree(&d);
    // writes
    let big = arg & 16 != 0;
    let mut parts: Vec<Vec<u8>> = vec![];
    let n = choose(1 + (arg & 3), "writes");
    for i in 0..n { parts.push(if big && i == 0 { let mut v = vec![7u8; 8190]; v.extend(bytes(choose(4, "size") as usize, "data")); v } else { bytes(choose(3, "size") as usize, "data") }) }
    let all: Vec<u8> = parts.concat();
    let finish = choose(3, "end");
    let (kind, at) = (if arg & 32 != 0 { [CRASH, MID, SHORT][choose(3, "kind") as usize] } else { [ERR, FULL][choose(2, "kind") as usize] }, sym(8, "at"));
    let mut removing = false;
    let pr = &mut removing as *mut bool;
    let (dd, bb) = (d.clone(), before.clone());
    freeze_clock(true);
    fault(kind, at);
    let (o, wrote) = value(|| {
        let mut f = PartialFile::create(&t).ok()?;
        let seen = |what: &str| check(same(&without(&hidden_gone(&tree(&dd)), &[]), &bb), what);
        for p in &parts {
            seen("the target changes before writing is finished");
            let mut r: &[u8] = p;
            match choose(3, "how") { 0 => if f.write_all(p).is_err() { drop(f); return None }, 1 => { while !r.is_empty() { match f.write(r) { Ok(0) => { drop(f); return None } Ok(k) => r = &r[k..], Err(_) => { drop(f); return None } } } } _ => if f.write_all(p).is_err() || f.flush().is_err() { drop(f); return None } }
        }
        seen("the target changes before writing is finished");
        for (n, x) in tree(&dd) { if node_of(&bb, &n).is_none() { check(!is_artefact(&n) && n.starts_with('.') && !n.contains('/'), "the temporary file looks like an artefact, or lies elsewhere"); check(matches!(x, Node::File(_)), "the temporary file is no file") } }
        let fired = fault_fired();
        if finish == 0 { drop(f); unsafe { *pr = kind == ERR && !fired && fault_fired() } return Some(false) }
        let r = f.finish().is_ok();
        // the target is a directory, so that renaming failed, and then removing the temporary file
        unsafe { *pr = kind == ERR && there == 3 && !fired && fault_fired() }
        Some(r)
    });
    let fired = fault_fired();
    fault(0, 0);
    check(o != Out::Panic, "writing a file panics");
    let now = tree(&d);
    let new = file_of(&now, &name).map_or(false, |b| eq(b, &all)) && same(&without(&hidden_gone(&now), &[&name]), &without(&before, &[&name]));
    let unchanged = same(&hidden_gone(&now), &before);
    if o == Out::Crash { check(new && finish > 0 || unchanged, "a crash leaves the target incomplete"); reach("crash");
        // the next attempt may choose the same name for its temporary file
        let short = bytes(1, "again");
        let (o, r) = value(|| { let mut f = PartialFile::create(&t).ok()?; f.write_all(&short).ok()?; f.finish().ok() });
        check(o != Out::Panic && r.is_some() == (there != 3), "writing a file fails after a crash");
        if r.is_some() { check(file_of(&tree(&d), &name).map_or(false, |b| eq(b, &short)), "a file written after a crash does not hold what was written") }
        return }
    if wrote == Some(true) {
        check(new, "a finished file does not hold what was written");
        check(now.len() == before.len() + (there == 0) as usize, "a finished file leaves others behind");
        reach("finished");
    } else {
        check(unchanged, "a file that is not finished changes the target");
        if !removing { check(now.len() == before.len(), "a temporary file stays behind") }
        if finish > 0 && !fired { check(there == 3, "finishing fails for no reason") }
        reach(if finish == 0 { "dropped" } else { "failed" });
    }
}
fn hidden_gone(t: &Tree) -> Tree { t.iter().filter(|e| !(e.0.starts_with("._") && e.0.ends_with(".part"))).cloned().collect() }

/// Two commands at once on the same stores.
pub fn parallel(arg: u64) {
    let k = arg & 15;
    let switches = 1 + (arg >> 4) as u32;
    let s = stores();
    let rem = s.remote_storage();
    let c = contents(3, 5);
    let src = s.root.join("src");
    mkdir(&src);
    let up = Do::Add { i: 1, up: true, from: Some(0) };
    let (a, b) = match k {
        0 => { s.build_r("1", &c[0]); (Do::Install(0), Do::Install(0)) }
        1 => { s.build_r("1", &c[0]); s.build_r("2", &c[1]); (Do::Install(0), Do::Install(1)) }
        2 => { s.build_l("1", &c[0]); put(&s.r("2.tar.zst"), &frame_blocks(&c[1], 1)); put(&s.r("1-2.patch.zst"), &small_patch(&c[0], &c[1])); link(&s.l("1.tar.zst"), &s.current); (Do::Install(1), Do::Install(1)) }
        3 => { s.build_l("1", &c[0]); s.build_r("2", &c[1]); (Do::Patch(0, 1), Do::Patch(0, 1)) }
        4 => { put(&src.join("2.tar.zst"), &frame(&c[1])); (Do::Add { i: 1, up: false, from: None }, Do::Add { i: 1, up: false, from: None }) }
        5 => { s.build_l("1", &c[0]); put(&s.l("1-2.patch.zst"), &small_patch(&c[0], &c[1])); s.build_l("2", &c[1]); (Do::Sync, Do::Sync) }
        6 => { s.build_l("1", &c[0]); put(&src.join("2.tar.zst"), &frame(&c[1])); (up, Do::Sync) }
        7 => { s.build_l("1", &c[0]); s.build_r("2", &c[1]); link(&s.l("1.tar.zst"), &s.current); (Do::Install(1), Do::Patch(0, 1)) }
        8 => { s.build_l("1", &c[0]); s.build_r("3", &c[2]); put(&src.join("2.tar.zst"), &frame(&c[1])); (up, Do::Install(2)) }
        _ => { s.build_r("1", &c[0]); s.build_r("2", &c[1]); (Do::Patch(0, 1), Do::Patch(1, 0)) }
    };
    freeze_clock(true);
    let dup = |s: &Stores| Stores { root: s.root.clone(), local: s.local.clone(), remote: s.remote.clone(), current: s.current.clone() };
    let mk = |w: Do| { let mut j = Job { names: NAMES, s: dup(&s), rem: rem.clone(), what: w, c: c.clone(), src: src.clone(), packed: vec![], before: (vec![], vec![]), s3: false }; j.before = j.trees(); j };
    let (ja, jb) = (mk(a), mk(b));
    let (mut oa, mut ob) = (None, None);
    let (pa, pb) = (&mut oa as *mut Option<bool>, &mut ob as *mut Option<bool>);
    let (ra, rb) = (&ja, &jb);
    let e = par(move || { let r = ra.act(); unsafe { *pa = Some(r) } ra.all_whole() }, move || { let r = rb.act(); unsafe { *pb = Some(r) } rb.all_whole() }, switches);
    check(e.0 == End::Returned && e.1 == End::Returned, "a command panics beside another one");
    ja.all_whole();
    for (o, j) in [(oa, &ja), (ob, &jb)].iter() {
        check(*o == Some(true), "a command fails beside another one");
        if *o == Some(true) {
            // the last one decides what is installed
            let fine = j.done() || match (j.what, ja.what, jb.what) { (Do::Install(_), Do::Install(x), Do::Install(y)) if x != y => (ja.done() || jb.done()) && file_of(&j.trees().0, &build_file(NAMES[if let Do::Install(n) = j.what { n } else { 0 }])).is_some(), _ => false };
            check(fine, "a command reports success, but its result is not there");
        }
    }
    reach("end");
}

/// Nothing but artefacts is new in the stores, and the temporary directory is empty.
fn nothing_else(before: &(Tree, Tree), now: &(Tree, Tree), s: &Stores, stores_too: bool, tmp_too: bool) {
    for (b, now) in &[(&before.0, &now.0), (&before.1, &now.1)] {
        for (n, _) in *now {
            if node_of(b, n).is_some() || is_artefact(n) || n == "current" { continue }
            note("left", n.as_bytes());
            check(!stores_too, "a command leaves a temporary file in a store");
        }
    }
    if tmp_too { check(tree(&s.root.join("tmp")).is_empty(), "a command leaves files in the temporary directory") }
}
/// What commands leave that fail (or not) over a fault.
pub fn clean(arg: u64) {
    let j = job(which(arg));
    fault([ERR, SHORT, FULL][choose(3, "kind") as usize], sym(8, "at"));
    let o = j.go();
    let hit = fault_hit();
    fault(0, 0);
    // an operation that only reads may be part of removing a directory
    nothing_else(&j.before, &j.trees(), &j.s, hit != 2, hit != 1 && hit != 2);
    j.all_whole();
    reach(if o.ok() { "succeeds" } else { "fails" });
    let o = j.go();
    if hit != 2 { nothing_else(&j.before, &j.trees(), &j.s, true, hit != 1) }
    check(o.ok(), "the same command fails when tried again");
}
/// What commands leave that fail over what they are given or find.
pub fn clean_bad(_: u64) {
    let k = choose(22, "case");
    let s3 = k >= 13;
    let (s, rem) = if s3 { s3_stores() } else { let s = stores(); let r = s.remote_storage(); (s, r) };
    let c = fixed_contents(3, 24);
    let src = s.root.join("src");
    mkdir(&src);
    put(&src.join("3.tar.zst"), &frame(&c[2]));
    put(&src.join("empty.tar.zst"), b"");
    mkdir(&src.join("dir"));
    put(&src.join("dir/f"), b"f");
    s.build_l("1", &c[0]);
    link(&s.l("1.tar.zst"), &s.current);
    let far = |n: &str, b: &[u8]| if s3 { s3_put(n, b); } else { put(&s.r(n), b) };
    far("2.tar.zst", &frame(&c[1]));
    let all = || (tree(&s.local), if s3 { let mut t: Tree = server().objects.iter().map(|o| (o.key[2..].to_string(), Node::File(o.body.clone()))).collect(); t.sort_by(|a, b| a.0.cmp(&b.0)); t } else { tree(&s.remote) });
    use rusoto_s3::server::{BodyFault, Fail, Req};
    let (l, r) = (&s.local, &rem);
    match k {
        5 => { std::fs::remove_file(&s.current).unwrap(); mkdir(&s.current) }
        6 => far("2.tar.zst", b"no archive"),
        7 => { far("1-2.patch.zst", b"nonsense"); far("2.tar.zst", &frame_blocks(&c[1], 1)) }
        8 => mkdir(&s.l("2.tar.zst")),
        9 => { mkdir(&s.l("3.tar.zst")); mkdir(&s.l("1-2.patch.zst")) }
        10 => mkdir(&s.r("3.tar.zst")),
        13 => s3_put("2.tar.zst", &frame(&c[1])).tag = Some(Some("\"00000000000000000000000000000000\"".into())),
        14 => s3_put("2.tar.zst", &frame(&c[1])).fault = BodyFault::FailAfter(5),
        15 => s3_put("2.tar.zst", &frame(&c[1])).no_body = true,
        16 => s3_put("2.tar.zst", &frame(&c[1])).length = Some(None),
        17 | 18 | 19 => for i in 0..9 { server().fail.push((Req::Put, i, Fail::Dispatch)) },
        20 => for i in 0..9 { server().fail.push((Req::Get, i, Fail::Status(503, "slow down".into()))) },
        21 => for i in 0..9 { server().fail.push((Req::List, i, Fail::Status(403, "no".into()))) },
        _ => {}
    }
    let before = all();
    let o = match k {
        0 => cmd_install(l, r, "7"),
        1 => cmd_add(l, r, &src.join("nothing.tar.zst"), true, None),
        2 => cmd_add(l, r, &src.join("empty.tar.zst"), true, Some("1")),
        3 => cmd_add_package(l, r, "4", &src.join("nothing"), true, None),
        4 => cmd_add_package(l, r, "4", &src.join("dir"), true, Some("7")),
        5 | 6 | 7 | 8 | 13 | 14 | 15 | 16 | 20 | 21 => cmd_install(l, r, "2"),
        9 => cmd_add(l, r, &src.join("3.tar.zst"), true, Some("1")),
        10 => cmd_add_package(l, r, "3", &src.join("dir"), true, Some("1")),
        11 => cmd_create_patch(l, r, "1", "7"),
        12 => cmd_create_patch(l, r, "1", "1"),
        17 => cmd_sync(l, r),
        18 => cmd_add(l, r, &src.join("3.tar.zst"), true, Some("2")),
        _ => cmd_add_package(l, r, "3", &src.join("dir"), true, Some("2")),
    };
    note("case", &[k as u8]);
    check(o != Out::Panic && o != Out::Crash, "a command panics");
    // a bad patch has a way round; nothing says whether an install looks into the build it activates
    check(k == 6 || o.ok() == (k == 7), "a command does not fail that must, or the other way");
    let now = all();
    nothing_else(&before, &now, &s, true, true);
    for (b, now) in &[(&before.0, &now.0), (&before.1, &now.1)] {
        for (n, x) in *b { if n != "current" { check(node_of(now, n).map_or(false, |y| same_node(x, y)), "a failing command changes what is in a store") } }
    }
    if !o.ok() { check(match (node_of(&before.0, "current"), node_of(&now.0, "current")) { (Some(a), Some(b)) => same_node(a, b), (a, b) => a.is_none() && b.is_none() }, "a failing command changes `current`") }
    reach("end");
}
