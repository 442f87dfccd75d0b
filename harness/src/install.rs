//! C01, C02, C03, C05, C21: installing.
use crate::{hooks::*, util::*};
use rusoto_s3::server::{self, server, Req};

/// Installs over every mix of builds and patches.
pub fn layouts(arg: u64) {
    let s = stores();
    let names: [&str; 3] = match choose(if arg & 1 == 0 { 2 } else { 4 }, "names") { 0 => ["1", "2", "3"], 1 => ["V1.2-RC", "v1.10-rc", "a_B"], 2 => ["v9", "v10", "a-1"], _ => ["il-2.1", "il-2.0", "B.patch"] };
    let c = contents(3, 40);
    let mut have = [false; 3];
    let mut local = [false; 3];
    for i in 0..3 {
        let k = choose(if arg & 2 == 0 && i != 1 { 3 } else { 4 }, "where");
        have[i] = k != 0;
        local[i] = k & 2 != 0;
        if k & 1 != 0 { put(&s.r(&build_file(names[i])), &frame_blocks(&c[i], if i == 1 { 1 } else { 9 })) }
        if k & 2 != 0 { put(&s.l(&build_file(names[i])), &frame_blocks(&c[i], 7)) }
    }
    let mut pairs = vec![(0, 1), (1, 2), (0, 2)];
    if arg & 4 != 0 { pairs.push((2, 1)) }
    for &(a, b) in &pairs {
        if !have[a] || !have[b] { continue }
        let p = if a < b { small_patch(&c[a], &c[b]) } else { patch(&c[a], &c[b]) };
        let k = choose(if arg & 2 == 0 { 2 } else { 4 }, "patch");
        if k & 1 != 0 { put(&s.r(&patch_file(names[a], names[b])), &p) }
        if k & 2 != 0 { put(&s.l(&patch_file(names[a], names[b])), &p) }
    }
    // what was installed before: nothing, one of the builds, a build that is gone,
    // a build elsewhere of the same name, a build named relatively, a file
    let was = choose(8, "installed") as usize;
    if was > 0 && was < 4 { if !local[was - 1] { return } link(&s.l(&build_file(names[was - 1])), &s.current) }
    if was == 4 { link(&s.l("gone.tar.zst"), &s.current) }
    if was == 5 { let d = s.root.join("other"); mkdir(&d); put(&d.join(build_file(names[2])), &frame(&c[0])); link(&d.join(build_file(names[2])), &s.current) }
    if was == 6 { if !local[1] { return } link(std::path::Path::new(&build_file(names[1])), &s.current) }
    if was == 7 { put(&s.current, &frame(&c[1])) }
    let target = choose(4, "target") as usize;
    let tname = if target < 3 { names[target] } else { "7" };
    let rem = s.remote_storage();
    let before = (tree(&s.local), tree(&s.remote));
    let o = cmd_install(&s.local, &rem, tname);
    let after = tree(&s.local);
    check(o == Out::Ok || o == Out::Fail, "install panics or ends the process");
    check(same(&before.1, &tree(&s.remote)), "installing changes the remote store");
    if o.ok() {
        check(target < 3, "installing an unknown version succeeds");
        check(installed(&s, tname, &c[target]), "install succeeds, but `current` is not the requested build");
        check(builds_right(&after, &[(names[0], &c[0]), (names[1], &c[1]), (names[2], &c[2])]), "install leaves a wrong build behind");
        // what was there stays
        for (n, f) in &before.0 { if is_artefact(n) { check(node_of(&after, n).map_or(false, |x| same_node(x, f)), "installing changes a stored artefact") } }
        for (n, f) in &after { if n.ends_with(".patch.zst") { check(node_of(&before.0, n).or_else(|| node_of(&before.1, n)).map_or(false, |x| same_node(x, f)), "installing leaves a wrong patch behind") } check(is_artefact(n) || n == "current", "installing leaves other files behind") }
        reach("installed");
    } else {
        let known_to = target < 3 && have[target];
        if !known_to { check(same(&before.0, &after), "a failed install of an unknown version changes the local store"); reach("unknown") }
        else { check(false, "installing a version that is in a store fails") }
    }
}

/// Positions of headers and lengths in a patch written by the harness.
fn heads(f: &[u8], old: &[u8], new: &[u8]) -> Vec<usize> {
    let mut h: Vec<usize> = (4..6).collect();
    let mut p = 6;
    let n = old.len().min(new.len());
    // where the lengths are in the unpacked stream
    let mut lens = vec![8, 8 + 1 + n, 8 + 2 + n + new.len() - n];
    if small(f) == false { lens = vec![8, 9 + n / 2, 10 + n / 2, 11 + n / 2, 12 + n, 13 + n + new.len() - n] }
    let mut at = 0;
    loop {
        h.extend(p..p + 3);
        let v = f[p] as usize | (f[p + 1] as usize) << 8 | (f[p + 2] as usize) << 16;
        let rle = v >> 1 & 3 == 1;
        p += 3;
        for l in &lens { if *l >= at && *l < at + (v >> 3) && !rle { h.push(p + l - at) } }
        at += v >> 3;
        p += if rle { 1 } else { v >> 3 };
        if v & 1 != 0 { return h }
    }
}
fn small(f: &[u8]) -> bool { f[6] & 1 == 0 }
/// One damaged patch in a chain of one or two.
pub fn damaged_patch(arg: u64) {
    let s = stores();
    let chain = 1 + choose(2, "chain") as usize;
    // truncated; a byte changed; a bit of a header or length changed; replaced
    let damage = choose(4, "damage");
    // with other lengths any byte can become part of a length, so bytes are given there
    let c = if damage == 2 { fixed_contents(3, 24) } else { contents(3, 24) };
    let names = ["1", "2", "3"];
    s.build_l("1", &c[0]);
    for i in 0..chain {
        // the full builds of the later versions are in the listing, but big
        put(&s.r(&patch_file(names[i], names[i + 1])), &if arg & 1 == 0 { small_patch(&c[i], &c[i + 1]) } else { patch(&c[i], &c[i + 1]) });
    }
    // big frames: extra empty blocks make the patches the cheaper way
    let big = |content: &[u8]| { let mut f = frame_blocks(content, 1); let n = f.len(); f.truncate(n); let mut pad = vec![0x50u8, 0x2A, 0x4D, 0x18]; pad.extend_from_slice(&300u32.to_le_bytes()); pad.resize(308, 0); f.extend_from_slice(&pad); f };
    for i in 1..=chain { put(&s.r(&build_file(names[i])), &big(&c[i])) }
    link(&s.l("1.tar.zst"), &s.current);
    let k = choose(chain as u64, "which") as usize;
    let pf = s.r(&patch_file(names[k], names[k + 1]));
    let good = read_back(&pf).unwrap();
    let mut bad = good.clone();
    match damage {
        0 => { bad.truncate(choose(good.len() as u64, "kept") as usize); note("truncated", &[bad.len() as u8]) }
        1 | 2 => {
            let at = choose(good.len() as u64, "at") as usize;
            if heads(&good, &c[k], &c[k + 1]).contains(&at) != (damage == 2) { return }
            if damage == 2 { bad[at] ^= 1 << choose(8, "bit") } else { bad[at] = sym_u8("changed"); assume(bad[at] != good[at]) }
        }
        _ => {
            let n = 1 + choose(if arg & 2 == 0 { 5 } else { 10 }, "len") as usize;
            bad = bytes(n, "foreign");
            if n >= 4 { assume(bad[0] != 0x28 || bad[1] != 0xB5 || bad[2] != 0x2F || bad[3] != 0xFD) }
        }
    }
    put(&pf, &bad);
    let says = apply(&c[k], &bad);
    let rem = s.remote_storage();
    let before = tree(&s.local);
    let o = cmd_install(&s.local, &rem, names[chain]);
    check(o == Out::Ok || o == Out::Fail, "install panics over a damaged patch");
    let after = tree(&s.local);
    for i in 0..3 {
        if let Some(Node::File(b)) = node_of(&after, &build_file(names[i])) {
            let u = unpack(b);
            check(u.is_some(), "an unreadable build is left in the store");
            if says.is_none() { check(eq(&u.unwrap(), &c[i]), "a damaged patch makes a wrong build") }
        }
    }
    if says.is_none() {
        check(o.ok(), "a damaged patch makes an install fail although the full build is there");
        if o.ok() { check(installed(&s, names[chain], &c[chain]), "a damaged patch ends in a wrong installed build"); reach("fallback") }
        else { check(node_of(&after, "current") == node_of(&before, "current"), "a failed install changes `current`"); reach("failed") }
    } else { reach("plausible") }
}
/// The same where the full build is listed, but cannot be had.
pub fn missing_full(_: u64) {
    let (s, rem) = s3_stores();
    let chain = 1 + choose(2, "chain") as usize;
    let c = fixed_contents(3, 24);
    let names = ["1", "2", "3"];
    s.build_l("1", &c[0]);
    link(&s.l("1.tar.zst"), &s.current);
    let k = choose(chain as u64, "which") as usize;
    let mut says = None;
    let mut intact = false;
    for i in 0..chain {
        let good = if flag("records") { small_patch(&c[i], &c[i + 1]) } else { patch(&c[i], &c[i + 1]) };
        let mut f = good.clone();
        if i == k { match choose(4, "damage") {
            0 => {}
            1 => f.truncate(choose(good.len() as u64, "kept") as usize),
            2 => { let at = choose(good.len() as u64, "at") as usize; f[at] ^= 1 << choose(8, "bit") }
            _ => f = b"<html>404</html>".to_vec(),
        }
        says = apply(&c[i], &f); intact = f == good }
        s3_put(&patch_file(names[i], names[i + 1]), &f);
    }
    let how = choose(4, "missing");
    for i in 1..=chain {
        let o = s3_put(&build_file(names[i]), &frame(&c[i]));
        o.listed = Some(Some(5000));
        match how { 0 => o.tag = Some(Some("\"00000000000000000000000000000000\"".into())), 1 => o.fault = server::BodyFault::FailAfter(5), 2 => o.no_body = true, _ => o.length = Some(None) }
    }
    let before = tree(&s.local);
    let o = cmd_install(&s.local, &rem, names[chain]);
    check(o == Out::Ok || o == Out::Fail, "install panics over a damaged patch");
    let after = tree(&s.local);
    let right = says.as_ref().map_or(false, |x| eq(x, &c[k + 1]));
    for i in 0..3 { if let Some(Node::File(b)) = node_of(&after, &build_file(names[i])) {
        let u = unpack(b);
        check(u.is_some(), "an unreadable build is left in the store");
        if right || says.is_none() { check(eq(&u.unwrap(), &c[i]), "a damaged patch makes a wrong build") }
    } }
    if says.is_none() { check(o.failed(), "install succeeds, but neither patches nor the full build can be had"); check(node_of(&after, "current") == node_of(&before, "current"), "a failed install changes `current`"); reach("failed") }
    else if intact { check(o.ok() && installed(&s, names[chain], &c[chain]), "an upgrade by intact patches fails"); reach("patched") }
    else { reach("plausible") }
}
/// Chains of arbitrary differences.
pub fn exact_patch(arg: u64) {
    let s = stores();
    let chain = 1 + choose(2, "chain") as usize;
    let names = ["1", "2", "3"];
    let mut c = vec![bytes(choose(arg + 1, "size") as usize, "content")];
    s.build_l("1", &c[0]);
    link(&s.l("1.tar.zst"), &s.current);
    let pad = |content: &[u8]| { let mut f = frame(content); f.extend_from_slice(&[0x50, 0x2A, 0x4D, 0x18, 90, 0, 0, 0]); f.resize(f.len() + 90, 0); f };
    for i in 0..chain {
        let n = bytes(choose(arg + 1, "size") as usize, "content");
        put(&s.r(&patch_file(names[i], names[i + 1])), &frame(&diff(&c[i], &n, 1 + choose(2, "records") as usize)));
        put(&s.r(&build_file(names[i + 1])), &pad(&n));
        c.push(n);
    }
    let rem = s.remote_storage();
    let o = cmd_install(&s.local, &rem, names[chain]);
    check(o.ok(), "upgrading by patches fails");
    check(installed(&s, names[chain], &c[chain]), "upgrading by patches gives other content than the published build");
    let t = tree(&s.local);
    for i in 0..=chain { check(file_of(&t, &build_file(names[i])).and_then(|b| unpack(b)).map_or(false, |b| eq(&b, &c[i])), "a build on the way of an upgrade is missing or wrong") }
    check(file_of(&t, &patch_file(names[0], names[1])).is_some(), "the patch route was not taken");
    reach("end");
}

pub const HOST: &str = "end.point";
pub const BUCKET: &str = "buck";
pub fn s3_stores() -> (Stores, artefacta::Storage) {
    server::reset();
    let s = stores();
    quiet(true);
    let st = "s3://buck.end.point/p".parse().unwrap();
    quiet(false);
    (s, st)
}
pub fn s3_put(name: &str, body: &[u8]) -> &'static mut server::Obj { server().add(HOST, BUCKET, &format!("p/{}", name), body) }
/// Which files an upgrade fetches, for every assignment of sizes.
pub fn cheapest(arg: u64) {
    let (s, rem) = s3_stores();
    let n = 3 + (arg & 1) as usize;
    let orders: [[&str; 4]; 4] = [["1", "2", "3", "4"], ["9", "10", "11", "8"], ["d", "c", "b", "a"], ["v1-b", "v1-a", "v0", "v1-c"]];
    let names = orders[choose(4, "names") as usize];
    let c = fixed_contents(n, 6);
    let size = |t: &str| { let x = sym(8, t); assume(x < 1 << 61); assume(x > 0); x };
    // installed: the first; wanted: the last
    s.build_l(names[0], &c[0]);
    link(&s.l(&build_file(names[0])), &s.current);
    let mut bsize = vec![0u64; n];
    for i in 1..n { bsize[i] = size("build size"); s3_put(&build_file(names[i]), &frame(&c[i])).listed = Some(Some(bsize[i] as i64)) }
    let mut w: Vec<(usize, usize, u64)> = vec![];
    for a in 0..n { for b in 0..n {
        if a == b || b == 0 || a == n - 1 { continue }
        if a > b && arg & 2 == 0 { continue }
        if arg & 4 != 0 || flag("patch") {
            let x = size("patch size");
            s3_put(&patch_file(names[a], names[b]), &patch(&c[a], &c[b])).listed = Some(Some(x as i64));
            w.push((a, b, x));
        }
    } }
    let o = cmd_install(&s.local, &rem, names[n - 1]);
    check(o.ok(), "install fails");
    check(installed(&s, names[n - 1], &c[n - 1]), "install gives the wrong content");
    let gets: Vec<String> = server().log.iter().filter(|l| l.0 == Req::Get).map(|l| l.1.clone()).collect();
    for g in &gets { note("get", g.as_bytes()) }
    // every chain without repetition, with its total size
    let mut chains: Vec<(Vec<String>, u64)> = vec![];
    fn walk(at: usize, end: usize, seen: &mut Vec<usize>, keys: &mut Vec<String>, sum: u64, w: &[(usize, usize, u64)], names: &[&str], out: &mut Vec<(Vec<String>, u64)>) {
        if at == end { out.push((keys.clone(), sum)); return }
        for &(a, b, x) in w { if a == at && !seen.contains(&b) { seen.push(b); keys.push(format!("p/{}", patch_file(names[a], names[b]))); walk(b, end, seen, keys, sum + x, w, names, out); keys.pop(); seen.pop(); } }
    }
    walk(0, n - 1, &mut vec![0], &mut vec![], 0, &w, &names, &mut chains);
    let full = gets.len() == 1 && gets[0] == format!("p/{}", build_file(names[n - 1]));
    if full {
        let mut cheaper = false;
        for (_, t) in &chains { cheaper |= *t < bsize[n - 1] }
        check(!cheaper, "the full build is fetched although a chain of patches is smaller");
        reach("full");
    } else {
        let used = chains.iter().find(|x| x.0 == gets);
        check(used.is_some(), "what is fetched is neither the full build nor one chain of patches in order");
        let t = used.unwrap().1;
        let mut cheaper = false;
        for (_, x) in &chains { cheaper |= *x < t }
        check(!cheaper, "another chain of patches is smaller than the one used");
        check(t < bsize[n - 1], "patches are fetched although they are not smaller than the full build");
        reach("patches");
        if gets.len() > 1 { reach("chain") }
    }
}

/// A chain of patches of which the local store holds something already.
pub fn partly_local(arg: u64) {
    let (s, rem) = s3_stores();
    let names = [["1", "2", "3", "4"], ["d", "c", "b", "a"]][choose(if arg & 1 == 0 { 1 } else { 2 }, "names") as usize];
    let c = fixed_contents(4, 6);
    s.build_l(names[0], &c[0]);
    link(&s.l(&build_file(names[0])), &s.current);
    let mut local = [true, false, false, false];
    // bytes that no build made here has
    for i in 1..4 {
        local[i] = flag("local build");
        if local[i] { put(&s.l(&build_file(names[i])), &frame_blocks(&c[i], 5)) }
        if !local[i] || flag("remote build") { s3_put(&build_file(names[i]), &frame(&c[i])).listed = Some(Some(1 << 40)) }
    }
    let mut have = [false; 3];
    for i in 0..3 {
        let k = choose(3, "patch is");
        have[i] = k != 0;
        let p = small_patch(&c[i], &c[i + 1]);
        if have[i] { put(&s.l(&patch_file(names[i], names[i + 1])), &p) }
        if k != 1 { s3_put(&patch_file(names[i], names[i + 1]), &p).listed = Some(Some(100)) }
    }
    let before = tree(&s.local);
    let o = cmd_install(&s.local, &rem, names[3]);
    check(o.ok(), "install fails");
    check(installed(&s, names[3], &c[3]), "install gives the wrong content");
    let after = tree(&s.local);
    for (n, f) in &before { if is_artefact(n) { check(node_of(&after, n).map_or(false, |x| same_node(x, f)), "what is in the local store already is made again") } }
    let gets: Vec<String> = server().log.iter().filter(|l| l.0 == Req::Get).map(|l| l.1.clone()).collect();
    for g in &gets { note("get", g.as_bytes()) }
    // a listed size of a local file is its real one, so the whole chain is the cheapest
    let from = (0..4).rev().find(|i| local[*i]).unwrap();
    let want: Vec<String> = (from..3).filter(|i| !have[*i]).map(|i| format!("p/{}", patch_file(names[i], names[i + 1]))).collect();
    check(gets == want, "an install along patches fetches something else than the patches it lacks, in order");
    reach(if local[3] { "target is local" } else if from > 0 { "from a later build" } else { "whole chain" });
}

/// Contents and layout for the interrupted installs: by patch, by full build, fresh.
pub fn case(s: &Stores, arg: u64) -> (&'static str, Vec<Vec<u8>>) {
    let c = contents(3, 12);
    match arg {
        0 => { s.build_r("1", &c[0]); ("1", c) }
        1 => { s.build_l("1", &c[0]); s.build_r("2", &c[1]); link(&s.l("1.tar.zst"), &s.current); ("2", c) }
        2 => { s.build_l("1", &c[0]); put(&s.r("2.tar.zst"), &frame_blocks(&c[1], 1)); put(&s.r("1-2.patch.zst"), &small_patch(&c[0], &c[1])); link(&s.l("1.tar.zst"), &s.current); ("2", c) }
        3 => { s.build_l("1", &c[0]); s.build_l("2", &c[1]); link(&s.l("1.tar.zst"), &s.current); ("2", c) }
        4 => { s.build_r("1", &c[0]); link(&s.l("0.tar.zst"), &s.current); ("1", c) }
        _ => { s.build_l("1", &c[0]); put(&s.r("2.tar.zst"), &frame_blocks(&c[1], 1)); put(&s.r("3.tar.zst"), &frame_blocks(&c[2], 1));
               put(&s.r("1-2.patch.zst"), &small_patch(&c[0], &c[1])); put(&s.r("2-3.patch.zst"), &small_patch(&c[1], &c[2])); link(&s.l("1.tar.zst"), &s.current); ("3", c) }
    }
}
/// `current` after an interruption anywhere in an install.
pub fn switching(arg: u64) {
    let s = stores();
    let (target, c) = case(&s, arg);
    let rem = s.remote_storage();
    let was = tree(&s.local);
    let kind = [CRASH, MID, ERR][choose(3, "kind") as usize];
    fault(kind, sym(8, "at"));
    let o = cmd_install(&s.local, &rem, target);
    let fired = fault_fired() || o == Out::Crash;
    fault(0, 0);
    check(o != Out::Panic, "install panics");
    let now = tree(&s.local);
    let i: usize = target.parse().unwrap();
    let new = installed(&s, target, &c[i - 1]);
    let unchanged = match (node_of(&was, "current"), node_of(&now, "current")) { (Some(a), Some(b)) => same_node(a, b), (None, None) => true, _ => false };
    check(new || unchanged, "`current` is neither as before nor the requested build");
    if fired { reach("interrupted") }
    if !fired { check(o.ok() && new, "install fails without a reason"); reach("complete") }
    if o.ok() { check(new, "install succeeds, but `current` is not the requested build") }
}

/// The same command twice, after every history.
pub fn again(arg: u64) {
    let s = stores();
    let c = contents(3, 12);
    let names = ["1", "2", "3"];
    for i in 0..3 { put(&s.r(&build_file(names[i])), &frame_blocks(&c[i], 4)) }
    let lay = choose(3, "layout");
    if lay > 0 { put(&s.r("1-2.patch.zst"), &small_patch(&c[0], &c[1])) }
    if lay > 1 { put(&s.r("2-3.patch.zst"), &small_patch(&c[1], &c[2])) }
    let rem = s.remote_storage();
    let run = |k: u64| -> Out { match k {
        0..=2 => cmd_install(&s.local, &rem, names[k as usize]),
        3 => cmd_create_patch(&s.local, &rem, "1", "3"),
        4 => cmd_create_patch(&s.local, &rem, "2", "1"),
        _ => cmd_sync(&s.local, &rem),
    } };
    let steps = arg & 7;
    for _ in 0..steps { let k = choose(6, "step"); check(run(k).ok(), "a command fails for no reason") }
    let last = choose(6, "command");
    check(run(last).ok(), "a command fails for no reason");
    if last < 3 { check(installed(&s, names[last as usize], &c[last as usize]), "install gives the wrong content") }
    let a = (tree(&s.local), tree(&s.remote), ino(&s.l("1.tar.zst")), ino(&s.l("2.tar.zst")), ino(&s.l("3.tar.zst")), ino(&s.r("1-3.patch.zst")), ino(&s.l("1-3.patch.zst")), ino(&s.l("2-1.patch.zst")));
    check(run(last).ok(), "repeating a command fails");
    let b = (tree(&s.local), tree(&s.remote), ino(&s.l("1.tar.zst")), ino(&s.l("2.tar.zst")), ino(&s.l("3.tar.zst")), ino(&s.r("1-3.patch.zst")), ino(&s.l("1-3.patch.zst")), ino(&s.l("2-1.patch.zst")));
    check(same(&a.0, &b.0), "repeating a command changes the local store");
    check(same(&a.1, &b.1), "repeating a command changes the remote store");
    check((a.2, a.3, a.4, a.5, a.6, a.7) == (b.2, b.3, b.4, b.5, b.6, b.7), "repeating a command writes artefacts again");
    reach("end");
}
/// The same with an S3 remote: nothing is transferred again.
pub fn again_s3(arg: u64) {
    let (s, rem) = s3_stores();
    let c = fixed_contents(3, 12);
    let names = ["1", "2", "3"];
    for i in 0..3 { if i < 2 || arg == 0 { s3_put(&build_file(names[i]), &frame_blocks(&c[i], 4)); } else { s.build_l(names[i], &c[i]) } }
    if flag("patch") { s3_put("1-2.patch.zst", &small_patch(&c[0], &c[1])); }
    let run = |k: u64| -> Out { match k { 0..=2 => cmd_install(&s.local, &rem, names[k as usize]), 3 => cmd_create_patch(&s.local, &rem, "1", "3"), _ => cmd_sync(&s.local, &rem) } };
    for _ in 0..1 { let k = choose(5, "step"); check(run(k).ok(), "a command fails for no reason") }
    let last = choose(5, "command");
    check(run(last).ok(), "a command fails for no reason");
    let a = (tree(&s.local), server().count(Req::Get), server().count(Req::Put));
    check(run(last).ok(), "repeating a command fails");
    check(same(&a.0, &tree(&s.local)), "repeating a command changes the local store");
    check(server().count(Req::Get) == a.1, "repeating a command downloads again");
    check(server().count(Req::Put) == a.2, "repeating a command uploads again");
    reach("end");
}
