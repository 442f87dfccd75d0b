use super::hooks::*;
use artefacta::{ArtefactIndex, Storage, Version};
use std::{fs, future::Future, os::unix::fs::MetadataExt, path::{Path, PathBuf}, pin::Pin, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};

// ----- futures -----
fn rw() -> RawWaker {
    fn no(_: *const ()) {}
    fn cl(_: *const ()) -> RawWaker { rw() }
    static VT: RawWakerVTable = RawWakerVTable::new(cl, no, no, no);
    RawWaker::new(std::ptr::null(), &VT)
}
/// Polls until ready; every future here is woken by polling again.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = f;
    let mut p = unsafe { Pin::new_unchecked(&mut f) };
    let w = unsafe { Waker::from_raw(rw()) };
    let mut cx = Context::from_waker(&w);
    for _ in 0..1000 { if let Poll::Ready(v) = p.as_mut().poll(&mut cx) { return v } }
    panic!("future never finishes");
}

// ----- results of commands -----
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out { Ok, Fail, Crash, Panic, Exit(u32) }
impl Out { pub fn ok(self) -> bool { self == Out::Ok || self == Out::Exit(0) } pub fn failed(self) -> bool { match self { Out::Fail => true, Out::Exit(n) => n != 0, _ => false } } }
/// Runs `f` like a process of its own.
pub fn process<F: FnOnce() -> bool>(f: F) -> Out {
    let mut ok = false;
    let p = &mut ok as *mut bool;
    match run(move || { let r = f(); unsafe { *p = r } }) {
        End::Returned => if ok { Out::Ok } else { Out::Fail },
        End::Crashed => Out::Crash, End::Panicked => Out::Panic, End::Exited(n) => Out::Exit(n),
    }
}
pub fn value<T, F: FnOnce() -> Option<T>>(f: F) -> (Out, Option<T>) {
    let mut v: Option<T> = None;
    let p = &mut v as *mut Option<T>;
    let o = process(move || { let r = f(); let ok = r.is_some(); unsafe { std::ptr::write(p, r) } ok });
    (o, v)
}

// ----- containers -----
/// A zstd frame made of raw blocks of at most `block` bytes.
pub fn frame_blocks(content: &[u8], block: usize) -> Vec<u8> {
    let mut o = vec![0x28, 0xB5, 0x2F, 0xFD, 0, 0x50];
    let mut p = 0;
    loop {
        let n = (content.len() - p).min(block);
        let last = p + n == content.len();
        let h = ((n as u32) << 3) | last as u32;
        o.extend_from_slice(&h.to_le_bytes()[..3]);
        o.extend_from_slice(&content[p..p + n]);
        p += n;
        if last { return o }
    }
}
pub fn frame(content: &[u8]) -> Vec<u8> { frame_blocks(content, 100000) }
/// Content of a stored file, None if it is not a sequence of complete frames.
pub fn unpack(b: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut p = 0;
    if b.is_empty() { return None }
    while p < b.len() {
        if b.len() >= p + 8 && b[p] & 0xF0 == 0x50 && b[p + 1..p + 4] == [0x2A, 0x4D, 0x18] {
            // a skippable frame
            let n = b[p + 4] as usize | (b[p + 5] as usize) << 8 | (b[p + 6] as usize) << 16 | (b[p + 7] as usize) << 24;
            if b.len() - p - 8 < n { return None }
            p += 8 + n;
            continue;
        }
        if b.len() < p + 5 || b[p..p + 4] != [0x28, 0xB5, 0x2F, 0xFD] { return None }
        let f = b[p + 4];
        let single = f & 0x20 != 0;
        let fcs = match f >> 6 { 0 => single as usize, 1 => 2, 2 => 4, _ => 8 };
        p += 5 + fcs + !single as usize;
        loop {
            if b.len() < p + 3 { return None }
            let h = b[p] as usize | (b[p + 1] as usize) << 8 | (b[p + 2] as usize) << 16;
            p += 3;
            let n = h >> 3;
            match (h >> 1) & 3 {
                0 => { if b.len() < p + n { return None } out.extend_from_slice(&b[p..p + n]); p += n }
                1 => { if b.len() < p + 1 { return None } out.resize(out.len() + n, b[p]); p += 1 }
                _ => return None,
            }
            if h & 1 != 0 { break }
        }
        if f & 4 != 0 { p += 4; if p > b.len() { return None } }
    }
    Some(out)
}
fn varint(mut n: u64, o: &mut Vec<u8>) { while n >= 0x80 { o.push(0x80 | n as u8); n >>= 7 } o.push(n as u8) }
/// The bidiff stream that turns `old` into `new`, with `records` control records.
pub fn diff(old: &[u8], new: &[u8], records: usize) -> Vec<u8> {
    let mut o = vec![0xDF, 0xB1, 0, 0, 0, 0x10, 0, 0];
    let n = old.len().min(new.len());
    let mut a = 0;
    for r in 0..records {
        let b = n * (r + 1) / records;
        varint((b - a) as u64, &mut o);
        for i in a..b { o.push(new[i].wrapping_sub(old[i])) }
        let rest: &[u8] = if r + 1 == records { &new[n..] } else { &[] };
        varint(rest.len() as u64, &mut o);
        o.extend_from_slice(rest);
        varint(0, &mut o);
        a = b;
    }
    o
}
pub fn patch(old: &[u8], new: &[u8]) -> Vec<u8> { frame(&diff(old, new, 2)) }
/// What applying the patch file `p` to the content `old` must give; None if the patch is not intact.
pub fn apply(old: &[u8], p: &[u8]) -> Option<Vec<u8>> {
    let d = unpack(p)?;
    if d.len() < 8 || d[..8] != [0xDF, 0xB1, 0, 0, 0, 0x10, 0, 0] { return None }
    let mut p = 8;
    fn num(d: &[u8], p: &mut usize) -> Option<u64> { let mut v = 0u64; let mut s = 0; loop { let b = *d.get(*p)?; *p += 1; v |= ((b & 0x7f) as u64).checked_shl(s)?; if b < 0x80 { return Some(v) } s += 7 } }
    let (mut out, mut pos) = (vec![], 0i64);
    while p < d.len() {
        let n = num(&d, &mut p)? as usize;
        if p + n > d.len() || n > 0 && pos as usize + n > old.len() { return None }
        for i in 0..n { out.push(old[pos as usize + i].wrapping_add(d[p + i])) }
        p += n; pos += n as i64;
        let n = num(&d, &mut p)? as usize;
        if p + n > d.len() { return None }
        out.extend_from_slice(&d[p..p + n]);
        p += n;
        let s = num(&d, &mut p)?;
        pos = pos.checked_add((s >> 1) as i64 ^ -((s & 1) as i64))?;
        if pos < 0 { return None }
    }
    Some(out)
}

// ----- file trees -----
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node { File(Vec<u8>), Link(PathBuf), Dir }
pub type Tree = Vec<(String, Node)>;
/// Everything below `dir`, sorted by path, read without being counted or reordered.
pub fn tree(dir: &Path) -> Tree {
    fn go(d: &Path, pre: &str, out: &mut Tree) {
        let mut names: Vec<String> = match fs::read_dir(d) { Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect(), Err(_) => vec![] };
        names.sort();
        for n in names {
            let p = d.join(&n);
            let key = if pre.is_empty() { n.clone() } else { format!("{}/{}", pre, n) };
            let m = match fs::symlink_metadata(&p) { Ok(m) => m, Err(_) => continue };
            if m.file_type().is_symlink() { out.push((key, Node::Link(fs::read_link(&p).unwrap_or_default()))) }
            else if m.is_dir() { out.push((key.clone(), Node::Dir)); go(&p, &key, out) }
            else { out.push((key, Node::File(fs::read(&p).unwrap_or_default()))) }
        }
    }
    quiet(true);
    let mut t = vec![];
    go(dir, "", &mut t);
    quiet(false);
    t
}
pub fn file_of<'a>(t: &'a Tree, name: &str) -> Option<&'a Vec<u8>> { t.iter().find(|e| e.0 == name).and_then(|e| match &e.1 { Node::File(b) => Some(b), _ => None }) }
pub fn node_of<'a>(t: &'a Tree, name: &str) -> Option<&'a Node> { t.iter().find(|e| e.0 == name).map(|e| &e.1) }
pub fn is_artefact(n: &str) -> bool { n.ends_with(".tar.zst") || n.ends_with(".patch.zst") }
/// The build and patch files of a tree.
pub fn artefacts(t: &Tree) -> Tree { t.iter().filter(|e| is_artefact(&e.0) && matches!(e.1, Node::File(_))).cloned().collect() }
pub fn without<'a>(t: &Tree, names: &[&str]) -> Tree { t.iter().filter(|e| !names.contains(&e.0.as_str())).cloned().collect() }
/// equality of trees, one comparison per file so that symbolic contents stay one formula
pub fn same(a: &Tree, b: &Tree) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && same_node(&x.1, &y.1)) }
pub fn same_node(a: &Node, b: &Node) -> bool { match (a, b) { (Node::File(x), Node::File(y)) => eq(x, y), (Node::Link(x), Node::Link(y)) => x == y, (Node::Dir, Node::Dir) => true, _ => false } }
/// byte-wise equality without a branch per byte
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i] }
    d == 0
}
pub fn put(p: &Path, b: &[u8]) { quiet(true); fs::write(p, b).unwrap(); quiet(false) }
pub fn mkdir(p: &Path) { quiet(true); fs::create_dir_all(p).unwrap(); quiet(false) }
pub fn link(target: &Path, p: &Path) { quiet(true); std::os::unix::fs::symlink(target, p).unwrap(); quiet(false) }
pub fn remove(p: &Path) { quiet(true); let _ = fs::remove_file(p); quiet(false) }
pub fn read_back(p: &Path) -> Option<Vec<u8>> { quiet(true); let r = fs::read(p).ok(); quiet(false); r }
pub fn link_target(p: &Path) -> Option<PathBuf> { quiet(true); let r = fs::read_link(p).ok(); quiet(false); r }
pub fn exists_nofollow(p: &Path) -> bool { quiet(true); let r = fs::symlink_metadata(p).is_ok(); quiet(false); r }
pub fn ino(p: &Path) -> u64 { quiet(true); let r = fs::metadata(p).map(|m| m.ino()).unwrap_or(0); quiet(false); r }

// ----- stores -----
pub struct Stores { pub root: PathBuf, pub local: PathBuf, pub remote: PathBuf, pub current: PathBuf }
/// Two empty file-system stores next to each other.
pub fn stores() -> Stores {
    let root = scratch();
    let s = Stores { local: root.join("local"), remote: root.join("remote"), current: root.join("local/current"), root };
    mkdir(&s.local);
    mkdir(&s.remote);
    s
}
pub fn v(s: &str) -> Version { s.parse().unwrap() }
pub fn open(local: &Path, remote: &Storage) -> Option<ArtefactIndex> { block_on(ArtefactIndex::new(local, remote.clone())).ok() }
impl Stores {
    pub fn remote_storage(&self) -> Storage { quiet(true); let s = self.remote.to_str().unwrap().parse().unwrap(); quiet(false); s }
    pub fn l(&self, n: &str) -> PathBuf { self.local.join(n) }
    pub fn r(&self, n: &str) -> PathBuf { self.remote.join(n) }
    pub fn build_l(&self, ver: &str, content: &[u8]) { put(&self.l(&format!("{}.tar.zst", ver)), &frame(content)) }
    pub fn build_r(&self, ver: &str, content: &[u8]) { put(&self.r(&format!("{}.tar.zst", ver)), &frame(content)) }
}
// the commands, as the binary runs them
pub fn cmd_install(local: &Path, remote: &Storage, ver: &str) -> Out {
    process(|| { let mut i = match open(local, remote) { Some(i) => i, None => return false }; block_on(artefacta::install(&mut i, v(ver), &local.join("current"))).is_ok() })
}
pub fn cmd_sync(local: &Path, remote: &Storage) -> Out {
    process(|| { let i = match open(local, remote) { Some(i) => i, None => return false }; block_on(artefacta::sync(&i)).is_ok() })
}
pub fn cmd_create_patch(local: &Path, remote: &Storage, from: &str, to: &str) -> Out {
    process(|| { let mut i = match open(local, remote) { Some(i) => i, None => return false }; block_on(artefacta::create_patch(&mut i, v(from), v(to))).is_ok() })
}
pub fn cmd_add(local: &Path, remote: &Storage, path: &Path, upload: bool, from: Option<&str>) -> Out {
    process(|| { let mut i = match open(local, remote) { Some(i) => i, None => return false };
        block_on(artefacta::add(&mut i, artefacta::cli::AddBuild { path: path.into(), upload, calculate_patch_from: from.map(v) })).is_ok() })
}
pub fn cmd_add_package(local: &Path, remote: &Storage, ver: &str, path: &Path, upload: bool, from: Option<&str>) -> Out {
    process(|| { let mut i = match open(local, remote) { Some(i) => i, None => return false };
        block_on(artefacta::add_package(&mut i, v(ver), artefacta::cli::AddBuild { path: path.into(), upload, calculate_patch_from: from.map(v) })).is_ok() })
}
pub fn cmd_auto_patch(local: &Path, remote: &Storage, current: &str, prefix: &str) -> Out {
    process(|| { let mut i = match open(local, remote) { Some(i) => i, None => return false };
        block_on(artefacta::auto_patch(&mut i, Path::new("/scratch"), v(current), prefix)).is_ok() })
}

// ----- layouts -----
/// A patch file whose difference bytes are one run-length block: small where `new` starts like `old`.
pub fn small_patch(old: &[u8], new: &[u8]) -> Vec<u8> {
    let n = old.len().min(new.len());
    let mut head = vec![0xDF, 0xB1, 0, 0, 0, 0x10, 0, 0];
    varint(n as u64, &mut head);
    let mut tail = vec![];
    varint((new.len() - n) as u64, &mut tail);
    tail.extend_from_slice(&new[n..]);
    varint(0, &mut tail);
    let mut o = vec![0x28, 0xB5, 0x2F, 0xFD, 0, 0x50];
    let mut block = |kind: u32, size: usize, last: bool, b: &[u8]| { let h = ((size as u32) << 3) | kind << 1 | last as u32; o.extend_from_slice(&h.to_le_bytes()[..3]); o.extend_from_slice(b) };
    block(0, head.len(), false, &head);
    if n > 0 { block(1, n, false, &[0]) }
    block(0, tail.len(), true, &tail);
    o
}
/// Contents of successive versions: each starts like the one before.
pub fn contents(n: usize, size: usize) -> Vec<Vec<u8>> {
    let mut all = vec![];
    let mut c = bytes(size, "content");
    for i in 0..n { all.push(c.clone()); let more = bytes(1 + i % 2, "content"); c.extend_from_slice(&more) }
    all
}
/// As `contents`, with fixed bytes: what is hashed must not be symbolic.
pub fn fixed_contents(n: usize, size: usize) -> Vec<Vec<u8>> { (0..n).map(|i| (0..size + 2 * i).map(|k| (k * 7 + 3) as u8).collect()).collect() }
pub fn build_file(ver: &str) -> String { format!("{}.tar.zst", ver) }
pub fn patch_file(a: &str, b: &str) -> String { if a.contains('-') || b.contains('-') { format!("{}---{}.patch.zst", a, b) } else { format!("{}-{}.patch.zst", a, b) } }
/// `current` is a link to the build of `ver`, whose content is `want`.
pub fn installed(s: &Stores, ver: &str, want: &[u8]) -> bool {
    quiet(true);
    let ok = match std::fs::read_link(&s.current) {
        Ok(t) => { let t = if t.is_absolute() { t } else { s.local.join(t) }; std::fs::canonicalize(&t).ok() == std::fs::canonicalize(s.l(&build_file(ver))).ok() && std::fs::read(&s.current).ok().and_then(|b| unpack(&b)).map_or(false, |b| eq(&b, want)) }
        Err(_) => false,
    };
    quiet(false);
    ok
}
/// Every build among `vers` and every other artefact of the store is intact.
pub fn builds_right(t: &Tree, vers: &[(&str, &Vec<u8>)]) -> bool {
    for (ver, c) in vers { if let Some(Node::File(b)) = node_of(t, &build_file(ver)) { match unpack(b) { Some(u) => if !eq(&u, c) { return false }, None => return false } } }
    true
}
