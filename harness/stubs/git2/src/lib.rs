//! Interface of git2 that artefacta uses, answered from a list the harness sets.
use std::{fmt, path::Path};
#[derive(Debug, PartialEq)]
pub struct Error(String);
impl Error { pub fn message(&self) -> &str { &self.0 } pub fn from_str(s: &str) -> Error { Error(s.into()) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Oid([u8; 20]);
impl fmt::Debug for Oid { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for b in &self.0 { write!(f, "{:02x}", b)? } Ok(()) } }
impl fmt::Display for Oid { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self, f) } }

#[derive(Clone)]
pub struct Ref { pub name: Vec<u8>, pub seconds: i64, pub commit: bool }
#[derive(Default)]
pub struct World { pub refs: Vec<Ref>, pub no_repo: bool, pub no_refs: bool, pub asked: Vec<std::path::PathBuf> }
static mut WORLD: *mut World = std::ptr::null_mut();
pub fn world() -> &'static mut World { unsafe { if WORLD.is_null() { WORLD = Box::into_raw(Box::new(World::default())) } &mut *WORLD } }

pub struct Repository(());
impl Repository {
    pub fn discover<P: AsRef<Path>>(p: P) -> Result<Repository, Error> { world().asked.push(p.as_ref().into()); if world().no_repo { Err(Error::from_str("could not find repository")) } else { Ok(Repository(())) } }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Repository, Error> { Repository::discover(p) }
    pub fn references(&self) -> Result<References<'_>, Error> { if world().no_refs { Err(Error::from_str("corrupt refs")) } else { Ok(References { i: 0, r: self }) } }
    pub fn references_glob(&self, glob: &str) -> Result<References<'_>, Error> { let _ = glob; self.references() }
}
pub struct References<'r> { i: usize, r: &'r Repository }
impl<'r> Iterator for References<'r> {
    type Item = Result<Reference<'r>, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let r = world().refs.get(self.i)?.clone();
        self.i += 1;
        Some(Ok(Reference { r, _repo: self.r }))
    }
}
pub struct Reference<'r> { r: Ref, _repo: &'r Repository }
impl<'r> Reference<'r> {
    pub fn is_tag(&self) -> bool { self.r.name.starts_with(b"refs/tags/") }
    pub fn is_branch(&self) -> bool { self.r.name.starts_with(b"refs/heads/") }
    pub fn name(&self) -> Option<&str> { std::str::from_utf8(&self.r.name).ok() }
    pub fn name_bytes(&self) -> &[u8] { &self.r.name }
    pub fn shorthand_bytes(&self) -> &[u8] {
        for p in [&b"refs/tags/"[..], b"refs/heads/", b"refs/remotes/", b"refs/"].iter() { if self.r.name.starts_with(p) { return &self.r.name[p.len()..] } }
        &self.r.name
    }
    pub fn shorthand(&self) -> Option<&str> { std::str::from_utf8(self.shorthand_bytes()).ok() }
    pub fn peel_to_commit(&self) -> Result<Commit<'r>, Error> {
        if self.r.commit { Ok(Commit { s: self.r.seconds, _repo: self._repo }) } else { Err(Error::from_str("the reference cannot be peeled to a commit")) }
    }
    pub fn target(&self) -> Option<Oid> { Some(Oid([1; 20])) }
}
pub struct Commit<'r> { s: i64, _repo: &'r Repository }
impl<'r> Commit<'r> { pub fn time(&self) -> Time { Time(self.s) } pub fn id(&self) -> Oid { Oid([1; 20]) } }
#[derive(Clone, Copy, Debug)]
pub struct Time(i64);
impl Time { pub fn seconds(&self) -> i64 { self.0 } pub fn offset_minutes(&self) -> i32 { 0 } }
