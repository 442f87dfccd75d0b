//! C14, C15: S3 stores.
use crate::{hooks::*, install::*, names::*, util::*};
use artefacta::Storage;
use rusoto_s3::server::{self, server, Fail, Req};

fn fetch(local: &std::path::Path, rem: &Storage, is_patch: bool) -> Out {
    process(|| { let mut i = match open(local, rem) { Some(i) => i, None => return false }; if is_patch { block_on(i.get_patch(v("0"), v("1"))).is_ok() } else { block_on(i.get_build(v("1"))).is_ok() } })
}
fn bare(t: &str) -> &str { t.trim_matches('"') }
/// A local build, and a build or patch that is only on the server.
fn prepare(size: usize, is_patch: bool) -> (Stores, Storage, String, Vec<u8>) {
    let (s, rem) = s3_stores();
    s.build_l("0", b"zero");
    let name = if is_patch { "0-1.patch.zst" } else { "1.tar.zst" }.to_string();
    let body: Vec<u8> = (0..size).map(|k| (k * 11 + 5) as u8).collect();
    if is_patch { s3_put("1.tar.zst", b"not fetched"); }
    s3_put(&name, &body);
    (s, rem, name, body)
}
fn outcome(s: &Stores, rem: &Storage, name: &str, body: &[u8], before: &Tree, o: Out, must: Option<bool>) {
    check(o == Out::Ok || o == Out::Fail, "fetching a file panics");
    let after = tree(&s.local);
    if o.ok() {
        check(must != Some(false), "a file is accepted that does not have the checksum the server gives");
        check(file_of(&after, name).map_or(false, |b| eq(b, body)), "a fetched file is not stored as it was sent");
        check(same(before, &without(&after, &[name])), "fetching a file changes others");
        reach("accepted");
    } else {
        check(must != Some(true), "a file with the right checksum is refused");
        check(same(before, &after), "a refused file leaves something in the local store");
        reach("refused");
    }
    let _ = rem;
}
/// Every checksum.
pub fn checksums(arg: u64) {
    let is_patch = flag("patch");
    let size = [1, 5, 64, 119][choose(4, "size") as usize];
    let (s, rem, name, body) = prepare(size, is_patch);
    let hex = format!("{:x}", md5::compute(&body));
    let quoted = choose(3, "quotes");
    let t: String = match choose(5, "kind") {
        // anything short
        0 => { if quoted > 0 { return } let b = bytes(choose(1 + (arg & 7), "length") as usize, "checksum"); for c in &b { assume(*c < 0x80) } unsafe { String::from_utf8_unchecked(b) } }
        // the right one, some characters changed
        1 => { let mut b = hex.clone().into_bytes(); let at = choose(if arg & 8 == 0 { 32 } else { 31 }, "at") as usize; for k in 0..(1 + (arg >> 3 & 1)) as usize { b[at + k] = sym_u8("changed"); assume(b[at + k] < 0x80) } unsafe { String::from_utf8_unchecked(b) } }
        // shorter
        2 => hex[..choose(32, "kept") as usize].to_string(),
        // longer
        3 => { let b = sym_u8("more"); assume(b < 0x80); let c = unsafe { String::from_utf8_unchecked(vec![b]) }; if flag("front") { c + &hex } else { hex.clone() + &c } }
        // the right one, of another file
        _ => if flag("other") { format!("{:x}", md5::compute(b"other")) } else { hex.clone() },
    };
    let t = match quoted { 0 => t, 1 => format!("\"{}\"", t), _ => format!("W/\"{}\"", t) };
    note("checksum", t.as_bytes());
    server().objects.iter_mut().find(|o| o.key == format!("p/{}", name)).unwrap().tag = Some(Some(t.clone()));
    let before = tree(&s.local);
    let o = fetch(&s.local, &rem, is_patch);
    let exact = t.len() == 32 && same_text(&t, &hex) || t.len() == 34 && same_text(&t, &format!("\"{}\"", hex));
    let b = bare(&t);
    // checksums of several parts cannot be checked; case does not matter
    let must = if exact { Some(true) } else if t.contains('-') || b.len() == 32 && same_text(&b.to_ascii_lowercase(), &hex) || t.starts_with("W/") && t.ends_with(&format!("\"{}\"", hex)) { None } else { Some(false) };
    outcome(&s, &rem, &name, &body, &before, o, must);
}
/// Every other way a response can be damaged.
pub fn responses(arg: u64) {
    let is_patch = flag("patch");
    let size = 3 + (arg & 15) as usize;
    let (s, rem, name, body) = prepare(size, is_patch);
    let key = format!("p/{}", name);
    let obj = server().objects.iter_mut().find(|o| o.key == key).unwrap();
    obj.chunk = 1 + choose(size as u64, "chunk") as usize;
    let mut must = Some(false);
    match choose(9, "damage") {
        0 => must = Some(true),
        1 => obj.tag = Some(None),
        2 => obj.length = Some(None),
        3 => obj.no_body = true,
        4 => obj.fault = server::BodyFault::FailAfter(choose(size as u64 + 1, "sent") as usize),
        5 => obj.fault = server::BodyFault::EndAfter(choose(size as u64, "sent") as usize),
        6 => { let mut b = body.clone(); b[choose(size as u64, "at") as usize] ^= 1 << choose(8, "bit"); obj.sent = Some(b) }
        7 => { let mut b = body.clone(); match choose(3, "other") { 0 => b.push(0), 1 => b.swap(0, 1), _ => b.clear() } obj.sent = Some(b) }
        _ => server().fail.push((Req::Get, 0, match choose(3, "failure") { 0 => Fail::Dispatch, 1 => Fail::Status(500, "oops".into()), _ => Fail::Status(403, "<Code>AccessDenied</Code>".into()) })),
    }
    let before = tree(&s.local);
    let o = fetch(&s.local, &rem, is_patch);
    outcome(&s, &rem, &name, &body, &before, o, must);
    // what can be had again once the server behaves
    if o.failed() {
        s3_put(&name, &body);
        server().fail.clear();
        check(fetch(&s.local, &rem, is_patch).ok(), "a file cannot be fetched after a failure");
        check(read_back(&s.l(&name)).map_or(false, |b| eq(&b, &body)), "a fetched file is not stored as it was sent");
    }
}

/// Location paths, objects inside and outside, pages.
pub fn namespace(arg: u64) {
    server::reset();
    let s = stores();
    let two = s.root.join("two");
    mkdir(&two);
    let w = words(arg & 7, if arg & 8 == 0 { b"/p" } else { b"/pq" }, "path");
    // one path of its own for each
    let w: String = w.bytes().map(|c| concretize(c as u64) as u8 as char).collect();
    let loc = if w.is_empty() { "s3://buck.end.point".to_string() } else { format!("s3://buck.end.point/{}", w) };
    note("location", loc.as_bytes());
    quiet(true);
    let rem: Storage = loc.parse().unwrap();
    quiet(false);
    let root = w.trim_matches('/').to_string();
    // of others
    let strange = ["8.tar.zst", "p8.tar.zst", "/8.tar.zst", "p/8.tar.zst", "q/8.tar.zst", "pp/8.tar.zst", "p/q/8.tar.zst", "p/p/8.tar.zst", "q", "p8/8.tar.zst", "p//8.tar.zst", "//8.tar.zst"];
    let k = strange[choose(strange.len() as u64, "strange") as usize];
    server().add("end.point", "buck", k, b"strange");
    server().add("end.point", "other", &format!("{}/7.tar.zst", root), b"other bucket");
    server().add("other.point", "buck", &format!("{}/7.tar.zst", root), b"other host");
    server().page = 1 + choose(3, "page") as usize;
    let c = fixed_contents(3, 5);
    let names = ["1.tar.zst", "2.tar.zst", "1-2.patch.zst"];
    let files = [frame(&c[0]), frame(&c[1]), patch(&c[0], &c[1])];
    for i in 0..3 { put(&s.l(names[i]), &files[i]) }
    check(cmd_sync(&s.local, &rem).ok(), "sync to S3 fails");
    // what was sent
    let puts: Vec<String> = server().log.iter().filter(|l| l.0 == Req::Put).map(|l| l.1.clone()).collect();
    check(puts.len() == 3, "not everything is uploaded, or something twice");
    for p in server().places.iter() { check(p.0 == "end.point" && p.1 == "buck", "a request goes to another bucket") }
    for i in 0..3 {
        let o: Vec<_> = server().objects.iter().filter(|o| o.bucket == "buck" && o.host == "end.point" && o.key.ends_with(&format!("/{}", names[i]))).collect();
        check(o.len() == 1, "an artefact is uploaded under another name");
        check(o[0].body == files[i], "an uploaded artefact has other content");
        check(o[0].content_md5 == Some(server::md5_of(&files[i])), "an upload does not carry the checksum of its bytes");
        let key = o[0].key.trim_start_matches('/').to_string();
        check(key == if root.is_empty() { names[i].to_string() } else { format!("{}/{}", root, names[i]) }, "an artefact is uploaded outside the location");
    }
    // nothing is missing for the next sync
    check(cmd_sync(&s.local, &rem).ok() && server().count(Req::Put) == 3, "what was uploaded is not recognised again");
    // seen from elsewhere, with slashes or without
    let again = format!("s3://buck.end.point{}", match choose(3, "slashes") { 0 => format!("/{}", root), 1 => format!("/{}/", root), _ => format!("/{}", w) });
    quiet(true);
    let rem2: Storage = again.parse().unwrap();
    quiet(false);
    let (o, known) = value(|| { let mut i = open(&two, &rem2)?; Some((i.get_build_for_tag("1").is_ok(), i.get_build_for_tag("2").is_ok(), i.get_build_for_tag("8").is_ok(), i.get_build_for_tag("7").is_ok(), block_on(i.get_build(v("1"))).is_ok(), block_on(i.get_patch(v("1"), v("2"))).is_ok())) });
    check(o.ok(), "an S3 store cannot be opened");
    let known = known.unwrap();
    check(known.0 && known.1, "an uploaded build is not listed again");
    let own = puts[0].clone();
    let inside = k == format!("{}8.tar.zst", &own[..own.rfind('/').map_or(0, |i| i + 1)]);
    check(known.2 == inside, "an object of another location is taken for a build, or one of this location is overlooked");
    check(!known.3, "an object of another bucket is taken for a build");
    check(known.4 && known.5, "what was uploaded cannot be fetched again");
    for i in [0, 2].iter() { check(read_back(&two.join(names[*i])).map_or(false, |b| b == files[*i]), "what was uploaded comes back changed") }
    if inside { reach("inside") } else { reach("outside") }
}
/// Listings in pages, any of which may fail.
pub fn pages(arg: u64) {
    let (s, rem) = s3_stores();
    let n = 3 + (arg & 7) as usize;
    let names: Vec<String> = (0..n).map(|i| if i % 3 == 2 { format!("{}-{}.patch.zst", i - 2, i - 1) } else { format!("{}.tar.zst", i) }).collect();
    for f in &names { s3_put(f, f.as_bytes()); }
    server().add("end.point", "buck", "p/q/x.tar.zst", b"x");
    server().add("end.point", "buck", "p0/x.tar.zst", b"x");
    server().page = 1 + choose(n as u64 + 1, "page") as usize;
    let count = (n + 1 + server().page - 1) / server().page;
    let bad = choose(count as u64 + 1, "failing") as usize;
    if bad > 0 { server().fail.push((Req::List, bad - 1, match choose(2, "failure") { 0 => Fail::Dispatch, _ => Fail::Status(503, "slow down".into()) })) }
    let lost = count > 1 && bad == 0 && flag("token");
    server().no_token = lost;
    let (o, seen) = value(|| {
        let mut i = open(&s.local, &rem)?;
        Some((0..n).map(|k| if k % 3 == 2 { block_on(i.get_patch(v(&(k - 2).to_string()), v(&(k - 1).to_string()))).is_ok() } else { i.get_build_for_tag(&k.to_string()).is_ok() }).collect::<Vec<bool>>())
    });
    check(o == Out::Ok || o == Out::Fail, "listing panics");
    if bad > 0 || lost { check(o.failed(), "an incomplete listing is taken for complete"); reach("failed"); return }
    check(o.ok(), "listing an S3 location fails");
    for x in seen.unwrap() { check(x, "an object of a later page is overlooked") }
    reach("seen");
}
/// For any text as path: uploads go to where listings look.
pub fn keys(arg: u64) {
    server::reset();
    let s = stores();
    let w = text(arg, "path");
    for c in w.bytes() { assume(c < 0x80 && c != b'?' && c != b'#') }
    let loc = format!("s3://buck.end.point/{}", w);
    note("location", loc.as_bytes());
    let (o, rem) = value(|| loc.parse::<Storage>().ok());
    check(o.ok(), "an S3 location with an odd path is refused");
    let rem = rem.unwrap();
    s.build_l("1", b"one");
    check(cmd_sync(&s.local, &rem).ok(), "sync to S3 fails");
    let l = server().log.clone();
    let puts: Vec<&String> = l.iter().filter(|x| x.0 == Req::Put).map(|x| &x.1).collect();
    check(l.len() >= 2 && l[0].0 == Req::List && puts.len() == 1, "sync lists nothing, or does not upload once");
    check(same_text(puts[0], &format!("{}1.tar.zst", l[0].1)), "an artefact is uploaded to where it is not looked for");
    let plain = w.bytes().all(|c| c.is_ascii_lowercase() || c == b'/');
    if plain { check(same_text(l[0].1.trim_matches('/'), w.trim_matches('/')), "another path is used than the location says"); reach("plain") } else { reach("odd") }
    reach("end");
}
