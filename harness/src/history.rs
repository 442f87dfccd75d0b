//! C26: what one machine publishes is what every other one installs.
use crate::{hooks::*, install::*, util::*};
use artefacta::Storage;
use rusoto_s3::server::server;
use std::path::PathBuf;

/// Machines with stores of their own, one remote store, and what is known of each version.
struct World { root: PathBuf, machines: Vec<Stores>, rem: Storage, far: bool, names: Vec<&'static str>, c: Vec<Vec<u8>>, block: usize }
const SETS: [[&str; 3]; 3] = [["1", "2", "3"], ["v1-b", "v1-a", "0"], ["b.tar", "B.tar", "2.patch"]];
impl World {
    fn new(n: usize, far: bool, names: &[&'static str], c: Vec<Vec<u8>>, block: usize) -> World {
        let (s, rem) = if far { s3_stores() } else { let s = stores(); let r = s.remote_storage(); (s, r) };
        let root = s.root.clone();
        let mut machines = vec![];
        for i in 0..n { let local = root.join(format!("m{}", i)); mkdir(&local); machines.push(Stores { root: root.clone(), current: local.join("current"), local, remote: s.remote.clone() }) }
        mkdir(&root.join("src"));
        for (i, n) in names.iter().enumerate() { put(&root.join("src").join(build_file(n)), &frame_blocks(&c[i], block)) }
        World { root, machines, rem, far, names: names.to_vec(), c, block }
    }
    fn remote(&self) -> Tree {
        if self.far { let mut t: Tree = server().objects.iter().map(|o| (o.key[2..].to_string(), Node::File(o.body.clone()))).collect(); t.sort_by(|a, b| a.0.cmp(&b.0)); t } else { tree(&self.machines[0].remote) }
    }
    fn source(&self, i: usize) -> PathBuf { self.root.join("src").join(build_file(self.names[i])) }
    fn known(&self, m: usize, i: usize) -> (bool, bool) { let f = build_file(self.names[i]); (file_of(&tree(&self.machines[m].local), &f).is_some(), file_of(&self.remote(), &f).is_some()) }
    /// Every artefact of a store is what its name says.
    fn right(&self, t: &Tree) {
        for (n, x) in t {
            if n == "current" { continue }
            let b = match x { Node::File(b) => b, _ => { check(false, "something else than files is in a store"); return } };
            let mut fine = false;
            for i in 0..self.names.len() {
                if *n == build_file(self.names[i]) { fine = unpack(b).map_or(false, |u| eq(&u, &self.c[i])) }
                for k in 0..self.names.len() { if *n == patch_file(self.names[i], self.names[k]) { fine = apply(&self.c[i], b).map_or(false, |x| eq(&x, &self.c[k])) } }
            }
            note("artefact", n.as_bytes());
            check(fine, "a store holds something that is not what its name says");
        }
    }
    /// Runs one command on machine `m` and compares the outcome with what it must be.
    fn act(&self, m: usize, what: Act) -> bool {
        let s = &self.machines[m];
        let before: Vec<Tree> = self.machines.iter().map(|s| tree(&s.local)).collect();
        let far = self.remote();
        let there = |i: usize| { let k = self.known(m, i); k.0 || k.1 };
        let must = match what { Act::Add(_, None, _) | Act::Sync => true, Act::Add(i, Some(f), _) => f == i || there(f), Act::Install(i) => there(i), Act::Patch(a, b) => there(a) && there(b) };
        let o = match what {
            Act::Add(i, from, up) => cmd_add(&s.local, &self.rem, &self.source(i), up, from.map(|f| self.names[f])),
            Act::Install(i) => cmd_install(&s.local, &self.rem, self.names[i]),
            Act::Patch(a, b) => cmd_create_patch(&s.local, &self.rem, self.names[a], self.names[b]),
            Act::Sync => cmd_sync(&s.local, &self.rem),
        };
        check(o == Out::Ok || o == Out::Fail, "a command panics");
        let (l, r) = (tree(&s.local), self.remote());
        if let Act::Patch(a, b) = what { if a == b { return self.after(m, &before, &far, o.ok()) } }
        if let Act::Add(i, Some(f), _) = what { if f == i { return self.after(m, &before, &far, o.ok()) } }
        check(o.ok() == must, "a command fails that must work, or the other way");
        if o.ok() { match what {
            Act::Install(i) => check(installed(s, self.names[i], &self.c[i]), "what is installed is not what was published"),
            Act::Add(i, from, up) => {
                check(file_of(&l, &build_file(self.names[i])).map_or(false, |b| eq(b, &frame_blocks(&self.c[i], self.block))), "the added build is not in the local store");
                if let Some(f) = from { check(file_of(&l, &patch_file(self.names[f], self.names[i])).is_some(), "the patch asked for is not made") }
                if up {
                    check(file_of(&r, &build_file(self.names[i])).is_some(), "the added build is not published");
                    if let Some(f) = from { check(file_of(&r, &patch_file(self.names[f], self.names[i])).is_some(), "the patch asked for is not published") }
                }
            }
            Act::Patch(a, b) => check(file_of(&l, &patch_file(self.names[a], self.names[b])).is_some(), "the patch asked for is not made"),
            Act::Sync => for (n, x) in &l { if is_artefact(n) && node_of(&far, n).is_none() && self.usable(&l, &far, n) { check(node_of(&r, n).map_or(false, |y| same_node(x, y)), "sync leaves something out") } },
        } }
        self.after(m, &before, &far, o.ok())
    }
    /// A patch counts only if both of its builds are known.
    fn usable(&self, l: &Tree, r: &Tree, n: &str) -> bool {
        let has = |i: usize| file_of(l, &build_file(self.names[i])).or(file_of(r, &build_file(self.names[i]))).is_some();
        let k = self.names.len();
        for a in 0..k { for b in 0..k { if n == patch_file(self.names[a], self.names[b]) { return has(a) && has(b) } } }
        true
    }
    fn after(&self, m: usize, before: &[Tree], far: &Tree, ok: bool) -> bool {
        for (i, s) in self.machines.iter().enumerate() {
            let t = tree(&s.local);
            if i != m { check(same(&before[i], &t), "a command changes another machine's store"); continue }
            self.right(&t);
            for (n, _) in &before[i] { check(node_of(&t, n).is_some(), "a command removes something from the local store") }
            if let Some(Node::Link(_)) = node_of(&t, "current") { check(self.names.iter().enumerate().any(|(k, n)| installed(s, n, &self.c[k])), "`current` is no build any more") }
        }
        let r = self.remote();
        self.right(&r);
        for (n, x) in far { check(node_of(&r, n).map_or(false, |y| same_node(x, y)), "a command changes what was published") }
        ok
    }
}
#[derive(Clone, Copy)]
enum Act { Add(usize, Option<usize>, bool), Install(usize), Patch(usize, usize), Sync }
fn any(w: &World, m: usize, small: bool) -> bool {
    let list: &[Act] = if small { &[Act::Install(0), Act::Install(1), Act::Add(1, Some(0), true), Act::Add(2, Some(1), false), Act::Patch(0, 1), Act::Sync] }
        else { &[Act::Install(0), Act::Install(1), Act::Install(2), Act::Add(0, None, false), Act::Add(1, Some(0), true), Act::Add(2, Some(1), false), Act::Add(2, Some(0), true), Act::Patch(0, 1), Act::Patch(1, 2), Act::Patch(2, 0), Act::Sync] };
    w.act(m, list[choose(list.len() as u64, "command") as usize])
}
/// Any history of commands on two machines, then a third one that installs what is published.
pub fn history(arg: u64) {
    let far = arg & 1 != 0;
    let names = &SETS[if arg & 8 != 0 { choose(3, "names") as usize } else { 0 }];
    let c = if far { fixed_contents(3, 24) } else { let mut c = contents(3, 24); c[2] = c[1][1..].to_vec(); c };
    // small blocks make builds big beside their patches
    let w = World::new(3, far, names, c, if flag("big builds") { 1 } else { 100 });
    // 0: nothing yet; 1: the first version is published and installed
    if flag("begun") { w.act(0, Act::Add(0, None, true)); w.act(1, Act::Install(0)); }
    let steps = 1 + (arg >> 1 & 3);
    for _ in 0..steps { any(&w, choose(2, "machine") as usize, arg & 16 == 0); }
    let r = w.remote();
    let mut best = None;
    for i in 0..3 { if file_of(&r, &build_file(w.names[i])).is_some() { best = Some(i) } }
    if let Some(i) = best {
        check(w.act(2, Act::Install(0)) == file_of(&r, &build_file(w.names[0])).is_some(), "a published build cannot be installed");
        check(w.act(2, Act::Install(i)) && w.act(1, Act::Install(i)), "a published build cannot be installed");
        reach("published");
        if !far { let l = tree(&w.machines[1].local); if file_of(&l, &build_file(w.names[1])).map_or(false, |b| Some(b) != file_of(&r, &build_file(w.names[1]))) { reach("made by patches") } }
    } else { reach("nothing published") }
}
const SIZES: [usize; 14] = [0, 1, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 32767, 32768, 65536, 131072, 131073];
/// Published and upgraded by patch, with contents around the sizes of buffers.
pub fn large(arg: u64) {
    let far = arg & 1 != 0;
    let n = SIZES[choose(14, "size") as usize];
    let more = [0, 1, 8191, 8192, 40000][choose(if arg & 2 == 0 { 3 } else { 5 }, "more") as usize];
    let mut c = vec![crate::crash::large(n, 1)];
    let mut x = c[0].clone();
    if !far { for p in &[0, n / 2, n.saturating_sub(1)] { if *p < n { x[*p] = sym_u8("byte") } } }
    if choose(2, "where") == 0 { x.extend(crate::crash::large(more, 2)) } else { let mut y = crate::crash::large(more, 2); y.extend(x); x = y }
    c.push(x);
    let w = World::new(2, far, &["1", "2"], c, [1000, 100000][choose(2, "blocks") as usize]);
    w.act(0, Act::Add(0, None, true));
    w.act(1, Act::Install(0));
    w.act(0, Act::Add(1, Some(0), true));
    w.act(1, Act::Install(1));
    reach("end");
}
