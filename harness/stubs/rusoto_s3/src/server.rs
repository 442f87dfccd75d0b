//! The S3 server the stub client talks to.
use crate::Object as Listed;
use bytes::Bytes;
use futures::{future, stream, StreamExt, TryStreamExt};
use rusoto_core::ByteStream;
use std::{io, task::Poll};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Req { List, Get, Put, Head, Delete }
#[derive(Clone, Debug)]
pub enum Fail { Dispatch, Status(u16, String) }
#[derive(Clone, Debug)]
pub enum BodyFault { None, FailAfter(usize), EndAfter(usize) }

#[derive(Clone)]
pub struct Obj {
    pub host: String, pub bucket: String, pub key: String, pub body: Vec<u8>,
    /// size given in listings, if not the real one
    pub listed: Option<Option<i64>>,
    /// Content-Length given, if not the real one
    pub length: Option<Option<i64>>,
    /// ETag given, if not the MD5 of the body in quotes
    pub tag: Option<Option<String>>,
    /// bytes sent, if not the body
    pub sent: Option<Vec<u8>>,
    pub no_body: bool,
    pub fault: BodyFault,
    pub chunk: usize,
    /// md5 of the body as sent with the upload (base64), for uploaded objects
    pub content_md5: Option<String>,
}
impl Obj {
    pub fn etag(&self) -> Option<String> {
        match &self.tag { Some(t) => t.clone(), None => Some(format!("\"{:x}\"", md5::compute(&self.body))) }
    }
    pub fn stream(&self) -> ByteStream {
        let data = self.sent.clone().unwrap_or_else(|| self.body.clone());
        let n = data.len();
        let mut items: Vec<io::Result<Bytes>> = vec![];
        let (end, fail) = match self.fault { BodyFault::None => (n, false), BodyFault::FailAfter(k) => (k.min(n), true), BodyFault::EndAfter(k) => (k.min(n), false) };
        let mut p = 0;
        while p < end {
            let e = end.min(p + self.chunk);
            items.push(Ok(Bytes::from(data[p..e].to_vec())));
            p = e;
        }
        if fail { items.push(Err(io::Error::new(io::ErrorKind::ConnectionReset, "connection reset"))) }
        ByteStream::new(stream::iter(items))
    }
}

#[derive(Default)]
pub struct Server {
    pub objects: Vec<Obj>,
    /// every request received: kind, key (or listing prefix)
    pub log: Vec<(Req, String)>,
    /// host and bucket of every request
    pub places: Vec<(String, String)>,
    /// leave out the token that continues a listing
    pub no_token: bool,
    /// most keys the server returns in one listing page
    pub page: usize,
    /// the n-th request of this kind (0-based) fails with this
    pub fail: Vec<(Req, usize, Fail)>,
    /// how many times each request is left pending before it is answered, by request number
    pub delays: Option<fn(usize) -> u32>,
    pub started: usize,
    pub active: usize,
    pub max_active: usize,
    pub finished: Vec<usize>,
}
static mut SERVER: *mut Server = std::ptr::null_mut();
pub fn server() -> &'static mut Server {
    unsafe {
        if SERVER.is_null() { SERVER = Box::into_raw(Box::new(Server { page: 1000, ..Default::default() })) }
        &mut *SERVER
    }
}
pub fn reset() { let s = server(); *s = Server { page: 1000, ..Default::default() } }

/// Lets other requests run before this one is answered, as often as the harness says.
pub async fn delay() {
    let s = server();
    let n = s.started;
    s.started += 1;
    let mut left = match s.delays { Some(f) => f(n), None => 0 };
    future::poll_fn(move |cx| {
        if left == 0 { return Poll::Ready(()) }
        left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }).await;
    server().finished.push(n);
}
pub async fn collect(b: ByteStream) -> io::Result<Vec<u8>> {
    b.map(|x| x).try_fold(vec![], |mut a, c| async move { a.extend_from_slice(&c); Ok(a) }).await
}

impl Server {
    pub fn add(&mut self, host: &str, bucket: &str, key: &str, body: &[u8]) -> &mut Obj {
        self.objects.retain(|o| !(o.host == host && o.bucket == bucket && o.key == key));
        self.objects.push(Obj {
            host: host.into(), bucket: bucket.into(), key: key.into(), body: body.to_vec(), listed: None, length: None, tag: None, sent: None,
            no_body: false, fault: BodyFault::None, chunk: 8192, content_md5: None,
        });
        self.objects.last_mut().unwrap()
    }
    pub fn request(&mut self, r: Req, host: &str, bucket: &str, key: &str) -> Option<Fail> {
        let n = self.log.iter().filter(|l| l.0 == r).count();
        self.log.push((r, key.to_string()));
        self.places.push((host.to_string(), bucket.to_string()));
        self.fail.iter().find(|f| f.0 == r && f.1 == n).map(|f| f.2.clone())
    }
    pub fn count(&self, r: Req) -> usize { self.log.iter().filter(|l| l.0 == r).count() }
    pub fn find(&self, host: &str, bucket: &str, key: &str) -> Option<&Obj> {
        self.objects.iter().find(|o| o.host == host && o.bucket == bucket && o.key == key)
    }
    pub fn delete(&mut self, host: &str, bucket: &str, key: &str) {
        self.objects.retain(|o| !(o.host == host && o.bucket == bucket && o.key == key));
    }
    pub fn put(&mut self, host: &str, bucket: &str, key: &str, body: Vec<u8>, md5: Option<String>) -> Result<(), Fail> {
        if let Some(m) = &md5 {
            if *m != base64::encode(&*md5::compute(&body)) {
                return Err(Fail::Status(400, "<Error><Code>BadDigest</Code></Error>".into()));
            }
        }
        let o = self.add(host, bucket, key, &body);
        o.content_md5 = md5;
        Ok(())
    }
    pub fn list(&self, host: &str, bucket: &str, prefix: Option<&str>, delim: Option<&str>, after: Option<&str>, max: Option<i64>)
        -> (Vec<Listed>, Vec<String>, Option<String>) {
        let prefix = prefix.unwrap_or("");
        let mut all: Vec<&Obj> = self.objects.iter().filter(|o| o.host == host && o.bucket == bucket && o.key.starts_with(prefix)).collect();
        all.sort_by(|a, b| a.key.cmp(&b.key));
        let limit = self.page.min(max.map(|m| m as usize).unwrap_or(1000));
        let (mut out, mut pre, mut last): (Vec<Listed>, Vec<String>, Option<String>) = (vec![], vec![], None);
        for o in all {
            let group = delim.filter(|d| !d.is_empty()).and_then(|d| o.key[prefix.len()..].find(d).map(|i| o.key[..prefix.len() + i + d.len()].to_string()));
            let name = group.clone().unwrap_or_else(|| o.key.clone());
            if let Some(a) = after { if name.as_str() <= a { continue } }
            if group.is_some() && pre.last() == group.as_ref() { continue }
            if out.len() + pre.len() >= limit { return (out, pre, last) }
            last = Some(name);
            match group {
                Some(g) => pre.push(g),
                None => out.push(Listed { key: Some(o.key.clone()), size: o.listed.unwrap_or(Some(o.body.len() as i64)), e_tag: o.etag(), ..Default::default() }),
            }
        }
        (out, pre, None)
    }
}
pub fn md5_of(b: &[u8]) -> String { base64::encode(&*md5::compute(b)) }
