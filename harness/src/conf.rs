//! Conformance of the engine: what code under test may use, with known results.
//! Not a property; `bin/vp.py conform` runs it in the engine and natively.
#![allow(dead_code)]
mod hooks;
mod util;
use hooks::*;
use util::*;
use std::{collections::*, convert::TryFrom, fs, io::{self, prelude::*, BufReader, BufWriter, Cursor, SeekFrom}, os::unix::fs::{FileExt, MetadataExt, OpenOptionsExt, PermissionsExt, DirBuilderExt}, path::{Path, PathBuf}, rc::Rc, cell::{Cell, RefCell}, sync::{*, atomic::*}, time::*};
extern "C" { fn vp_native_begin() -> i32; fn vp_native_end() -> i32; }

static mut WHERE: u32 = 0;
macro_rules! t { ($($e:expr),* $(,)?) => { { $( unsafe { WHERE = line!() } let ok: bool = $e; if !ok { check(false, concat!("line ", line!(), ": ", stringify!($e))) } )* } } }
fn root() -> PathBuf { scratch() }
fn bb<T>(x: T) -> T { std::hint::black_box(x) }

fn files() {
    let r = root();
    let p = r.join("f");
    fs::write(&p, b"hello\nworld\n").unwrap();
    t!(p.exists(), p.is_file(), !p.is_dir(), p.try_exists().unwrap(), fs::exists(&p).unwrap(), !fs::exists(r.join("no")).unwrap());
    t!(fs::read(&p).unwrap() == b"hello\nworld\n", fs::read_to_string(&p).unwrap() == "hello\nworld\n", fs::metadata(&p).unwrap().len() == 12);
    t!(BufReader::new(fs::File::open(&p).unwrap()).lines().map(|l| l.unwrap()).collect::<Vec<_>>() == ["hello", "world"]);
    fs::hard_link(&p, r.join("h")).unwrap();
    t!(fs::metadata(&p).unwrap().nlink() == 2, fs::metadata(&p).unwrap().ino() == fs::metadata(r.join("h")).unwrap().ino());
    t!(fs::hard_link(&p, r.join("h")).unwrap_err().kind() == io::ErrorKind::AlreadyExists);
    fs::remove_file(r.join("h")).unwrap();
    t!(fs::copy(&p, r.join("c")).unwrap() == 12, fs::read(r.join("c")).unwrap().len() == 12);
    fs::rename(r.join("c"), r.join("d")).unwrap();
    t!(!r.join("c").exists(), r.join("d").exists());
    let mut f = fs::OpenOptions::new().append(true).open(&p).unwrap();
    f.write_all(b"more").unwrap();
    drop(f);
    t!(fs::read(&p).unwrap() == b"hello\nworld\nmore");
    t!(fs::OpenOptions::new().write(true).create_new(true).open(&p).unwrap_err().kind() == io::ErrorKind::AlreadyExists);
    let mut f = fs::OpenOptions::new().read(true).write(true).mode(0o600).create(true).open(r.join("n")).unwrap();
    t!(f.metadata().unwrap().permissions().mode() & 0o777 == 0o600);
    write!(f, "{}-{:03}", "abc", 7).unwrap();
    t!(f.stream_position().unwrap() == 7);
    f.seek(SeekFrom::Start(1)).unwrap();
    let mut s = String::new();
    f.read_to_string(&mut s).unwrap();
    t!(s == "bc-007");
    f.set_len(3).unwrap();
    f.rewind().unwrap();
    let mut v = vec![];
    f.read_to_end(&mut v).unwrap();
    t!(v == b"abc");
    f.set_len(5).unwrap();
    t!(fs::read(r.join("n")).unwrap() == b"abc\0\0");
    f.write_all_at(b"XY", 1).unwrap();
    let mut b = [0; 2];
    f.read_exact_at(&mut b, 1).unwrap();
    t!(&b == b"XY");
    t!(f.seek(SeekFrom::End(-1)).unwrap() == 4, f.seek(SeekFrom::Current(-2)).unwrap() == 2);
    let g = f.try_clone().unwrap();
    g.sync_all().unwrap();
    g.sync_data().unwrap();
    drop(g);
    fs::set_permissions(r.join("n"), fs::Permissions::from_mode(0o640)).unwrap();
    t!(fs::metadata(r.join("n")).unwrap().mode() & 0o777 == 0o640);
    f.set_permissions(fs::Permissions::from_mode(0o600)).unwrap();
    let mut ro = fs::metadata(r.join("n")).unwrap().permissions();
    ro.set_readonly(true);
    t!(ro.readonly());
    t!(fs::File::open(r.join("none")).unwrap_err().kind() == io::ErrorKind::NotFound);
    t!(fs::read(&r).is_err(), fs::read(p.join("x")).is_err());
    t!(fs::read(p.join("x")).unwrap_err().raw_os_error() == Some(20));
    t!(format!("{}", fs::File::open(r.join("none")).unwrap_err()).contains("No such file"));
    t!(fs::remove_file(r.join("none")).is_err(), fs::rename(r.join("none"), r.join("x")).is_err());
    let _ = fs::File::create(r.join("fresh")).unwrap();
    t!(fs::metadata(r.join("fresh")).unwrap().len() == 0);
    t!(fs::File::create_new(r.join("fresh")).is_err());
    fs::write(r.join("big"), vec![7u8; 20000]).unwrap();
    let mut src = fs::File::open(r.join("big")).unwrap();
    let mut dst = fs::File::create(r.join("big2")).unwrap();
    t!(io::copy(&mut src, &mut dst).unwrap() == 20000);
    t!(fs::read(r.join("big2")).unwrap() == vec![7u8; 20000]);
    let mut w = BufWriter::with_capacity(10, fs::File::create(r.join("w")).unwrap());
    for i in 0..20u8 { w.write_all(&[i]).unwrap() }
    let f = w.into_inner().unwrap();
    drop(f);
    t!(fs::read(r.join("w")).unwrap() == (0..20).collect::<Vec<u8>>());
    let mut lw = io::LineWriter::new(fs::File::create(r.join("lw")).unwrap());
    lw.write_all(b"a\nb").unwrap();
    t!(fs::read(r.join("lw")).unwrap() == b"a\n");
    drop(lw);
    t!(fs::read(r.join("lw")).unwrap() == b"a\nb");
}
fn dirs() {
    let r = root();
    fs::create_dir(r.join("a")).unwrap();
    t!(fs::create_dir(r.join("a")).unwrap_err().kind() == io::ErrorKind::AlreadyExists);
    fs::create_dir_all(r.join("a/b/c")).unwrap();
    fs::create_dir_all(r.join("a/b/c")).unwrap();
    fs::DirBuilder::new().recursive(true).mode(0o700).create(r.join("m/n")).unwrap();
    t!(r.join("a/b/c").is_dir());
    fs::write(r.join("a/b/x"), b"x").unwrap();
    t!(fs::remove_dir(r.join("a/b")).is_err());
    let mut l: Vec<_> = fs::read_dir(r.join("a/b")).unwrap().map(|e| { let e = e.unwrap(); (e.file_name().into_string().unwrap(), e.file_type().unwrap().is_dir(), e.metadata().unwrap().is_file(), e.path().starts_with(&r)) }).collect();
    l.sort();
    t!(l == [("c".to_string(), true, false, true), ("x".to_string(), false, true, true)]);
    std::os::unix::fs::symlink("b/x", r.join("a/l")).unwrap();
    std::os::unix::fs::symlink(r.join("nothing"), r.join("dang")).unwrap();
    t!(fs::read_link(r.join("a/l")).unwrap() == Path::new("b/x"), fs::read(r.join("a/l")).unwrap() == b"x");
    t!(fs::canonicalize(r.join("a/../a/l")).unwrap() == fs::canonicalize(&r).unwrap().join("a/b/x"));
    t!(r.join("a/l").is_symlink(), r.join("dang").is_symlink(), !r.join("dang").exists(), fs::canonicalize(r.join("dang")).is_err());
    t!(fs::symlink_metadata(r.join("dang")).unwrap().file_type().is_symlink(), fs::metadata(r.join("dang")).is_err());
    fs::remove_file(r.join("a/l")).unwrap();
    fs::remove_dir_all(r.join("a")).unwrap();
    t!(!r.join("a").exists());
    t!(fs::read_dir(r.join("a")).is_err());
    fs::remove_dir(r.join("m/n")).unwrap();
    t!(r.join("m").read_dir().unwrap().next().is_none());
    t!(std::env::current_dir().is_ok());
    t!(std::env::temp_dir().is_absolute());
    std::env::set_current_dir(r.join("m")).unwrap();
    fs::write("here", b"").unwrap();
    t!(r.join("m/here").exists(), Path::new("../m/here").exists());
    t!(std::env::current_dir().unwrap().ends_with("m"));
    t!(std::path::absolute("x").unwrap().ends_with("m/x"));
    std::env::set_current_dir(&r).unwrap();
    let d = tempfile::tempdir_in(&r).unwrap();
    t!(d.path().is_dir());
    let q = d.path().to_path_buf();
    fs::write(q.join("f"), b"1").unwrap();
    drop(d);
    t!(!q.exists());
    let d = tempfile::tempdir_in(&r).unwrap();
    let q = d.into_path();
    t!(q.exists());
    let mut n = tempfile::NamedTempFile::new_in(&q).unwrap();
    n.write_all(b"named").unwrap();
    n.persist(q.join("kept")).unwrap();
    t!(fs::read(q.join("kept")).unwrap() == b"named");
    let n = tempfile::Builder::new().prefix("pre").suffix(".suf").tempfile_in(&q).unwrap();
    t!(n.path().file_name().unwrap().to_str().unwrap().ends_with(".suf"));
    n.close().unwrap();
    let mut t = tempfile::tempfile_in(&q).unwrap();
    t.write_all(b"z").unwrap();
    let w: Vec<_> = walkdir::WalkDir::new(&r).sort_by_file_name().min_depth(1).into_iter().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    t!(w.contains(&"kept".to_string()));
    let w: Vec<_> = walkdir::WalkDir::new(&r).sort_by_key(|e| e.path().to_path_buf()).contents_first(true).follow_links(false).into_iter().filter_entry(|e| e.depth() < 2).filter_map(Result::ok).collect();
    t!(w.len() > 2);
}
fn io_misc() {
    let mut c = Cursor::new(b"abcdefgh".to_vec());
    let mut b = [0; 3];
    c.read_exact(&mut b).unwrap();
    t!(&b == b"abc");
    let mut s = vec![];
    (&mut c).take(2).chain(&b"xyz"[..]).read_to_end(&mut s).unwrap();
    t!(s == b"dexyz");
    t!(io::copy(&mut &b"qq"[..], &mut io::sink()).unwrap() == 2);
    t!(io::copy(&mut io::repeat(5).take(10000), &mut s).unwrap() == 10000);
    t!(s.len() == 10005);
    t!(BufReader::new(&b"a,b,c"[..]).split(b',').map(|x| x.unwrap().len()).sum::<usize>() == 3);
    let mut line = String::new();
    t!(BufReader::new(&b"l1\nl2"[..]).read_line(&mut line).unwrap() == 3);
    t!(b"abc".bytes().map(|b| b.unwrap()).last() == Some(b'c'));
    println!("to stdout {}", 1);
    eprintln!("to stderr {:?}", Some(2));
    io::stdout().lock().write_all(b"x\n").unwrap();
    io::stdout().flush().unwrap();
    writeln!(io::stderr(), "e").unwrap();
    t!(io::Error::new(io::ErrorKind::Other, "boom").to_string() == "boom");
    t!(io::Error::from_raw_os_error(2).kind() == io::ErrorKind::NotFound);
    t!(io::Error::from(io::ErrorKind::UnexpectedEof).to_string().len() > 3);
    log::info!("hello {}", 1);
}
fn collections() {
    let n = bb(200u32);
    let m: HashMap<String, u32> = (0..n).map(|i| (format!("k{}", i), i * i)).collect();
    t!(m["k7"] == 49, m.len() == 200, m.get("x").is_none(), m.values().copied().max() == Some(199 * 199));
    let mut ks: Vec<_> = m.iter().map(|(k, v)| (v, k)).collect();
    ks.sort();
    t!(ks[3].1 == "k3");
    let s: HashSet<u32> = (0..n).map(|x| x % 10).collect();
    let s2: HashSet<u32> = (5..15).collect();
    t!(s.len() == 10, s.intersection(&s2).count() == 5, s.union(&s2).count() == 15, s.difference(&s2).count() == 5, !s.is_subset(&s2));
    let mut m2: HashMap<u32, Vec<u32>> = HashMap::new();
    for i in 0..n { m2.entry(i % 7).or_default().push(i) }
    t!(m2[&3].len() == 29, m2.remove(&3).is_some(), m2.contains_key(&4));
    m2.retain(|k, _| *k > 4);
    t!(m2.len() == 2);
    let b: BTreeMap<u32, u32> = (0..n).rev().map(|i| (i * 3 % 200, i)).collect();
    t!(b.len() == 200, *b.keys().next().unwrap() == 0, b.range(10..20).count() == 10, *b.iter().next_back().unwrap().0 == 199, b.first_key_value().is_some());
    let mut b2 = b.clone();
    for i in 0..150 { t!(b2.remove(&i).is_some()) }
    t!(b2.len() == 50, b2.pop_first().unwrap().0 == 150, b2.pop_last().unwrap().0 == 199);
    let bs: BTreeSet<&str> = ["z", "a", "m"].iter().copied().collect();
    t!(bs.iter().copied().collect::<String>() == "amz", bs.contains("m"));
    let mut h: BinaryHeap<u32> = (0..n).map(|i| i * 37 % 200).collect();
    t!(h.pop() == Some(199), h.pop() == Some(198), h.clone().into_sorted_vec()[0] == 0);
    let mut h2 = BinaryHeap::new();
    h2.push(std::cmp::Reverse((5, "x")));
    h2.push(std::cmp::Reverse((3, "y")));
    t!(h2.pop().unwrap().0 .1 == "y");
    let mut d: VecDeque<u32> = (0..n).collect();
    d.rotate_left(5);
    d.push_front(1000);
    t!(d.pop_front() == Some(1000), d[0] == 5, d.pop_back() == Some(4), d.make_contiguous().len() == 199);
    let mut l: LinkedList<u32> = (0..5).collect();
    t!(l.pop_back() == Some(4), l.len() == 4);
    let mut v: Vec<u64> = (0..n as u64).map(|x| x.wrapping_mul(2654435761) % 1009).collect();
    let mut w = v.clone();
    v.sort();
    w.sort_unstable();
    t!(v == w, v.windows(2).all(|p| p[0] <= p[1]), v.binary_search(&v[77]).is_ok(), v.is_sorted());
    v.sort_by(|a, b| b.cmp(a));
    t!(v[0] >= v[199]);
    v.sort_by_key(|x| (x % 10, *x));
    v.sort_by_cached_key(|x| x.to_string());
    v.sort_unstable_by_key(|x| std::cmp::Reverse(*x));
    v.reverse();
    v.dedup();
    v.retain(|x| x % 2 == 0);
    let e: Vec<u64> = v.drain(..10).collect();
    t!(e.len() == 10, e.is_empty() == false);
    v.truncate(20); v.extend_from_slice(&e); v.insert(3, 9); v.swap(0, 1); v.swap_remove(2); v.rotate_right(3); v.resize(40, 1); v.splice(0..2, [1, 2, 3]); v.split_off(30); 
    t!(v.len() == 30, v.chunks(7).count() == 5, v.concat_len() == 30, v.iter().position(|x| *x == 2).is_some(), v.first().is_some(), v.split_first().is_some(), v.contains(&1));
    let (p, q): (Vec<u64>, Vec<u64>) = v.iter().partition(|x| **x > 50);
    t!(p.len() + q.len() == 30);
    let mut strs: Vec<String> = (0..50).map(|i| format!("{}", i * 7919 % 1000)).collect();
    strs.sort();
    t!(strs.join(",").len() > 100, strs.concat().len() > 50, strs.iter().max().is_some());
    let mut f: Vec<f64> = (0..30).map(|i| (i * 7 % 30) as f64 / 3.0).collect();
    f.sort_by(|a, b| a.partial_cmp(b).unwrap());
    t!(f[3] == 1.0, f.iter().cloned().fold(f64::NEG_INFINITY, f64::max) > 9.6, f.select_nth_unstable_by(5, |a, b| a.total_cmp(b)).1 > &mut 0.0);
    let a: [u8; 4] = std::convert::TryInto::try_into(&strs[0].as_bytes().iter().cycle().take(4).copied().collect::<Vec<u8>>()[..]).unwrap();
    t!(a.len() == 4);
    let bx: Box<[u32]> = (0..9).collect();
    let rc: Rc<[u32]> = bx.into();
    let ar: Arc<str> = "shared".into();
    t!(rc.len() == 9, &ar[..3] == "sha");
}
trait CL { fn concat_len(&self) -> usize; }
impl CL for Vec<u64> { fn concat_len(&self) -> usize { self.chunks(3).map(|c| c.to_vec()).collect::<Vec<_>>().concat().len() } }
fn strings() {
    let s = bb("Hello, Wörld-v1.20---x.tar.zst");
    t!(s.split('-').count() == 5, s.split("---").count() == 2, s.splitn(2, '.').last() == Some("20---x.tar.zst"), s.rsplitn(2, '.').next() == Some("zst"), s.split_once("---").unwrap().1 == "x.tar.zst", s.rsplit_once('.').unwrap().1 == "zst");
    t!(s.find("v1") == Some(14), s.rfind('.') == Some(s.len() - 4), s.matches('.').count() == 3, s.contains("tar"), s.starts_with("Hell"), s.strip_suffix(".zst").unwrap().strip_suffix(".tar").is_some(), s.char_indices().nth(9).is_some());
    t!(s.to_lowercase().starts_with("hello"), s.to_uppercase().contains("WÖRLD"), s.to_ascii_lowercase() != s, "ABC".eq_ignore_ascii_case("abc"), s.replace('-', "_").matches('_').count() == 4, s.replacen("l", "L", 1) != s);
    t!("  x ".trim() == "x", "xxabxx".trim_matches('x') == "ab", "00012".trim_start_matches('0') == "12", "a b\tc\n".split_whitespace().count() == 3, "l1\nl2\r\n".lines().count() == 2, "a,b;c".split(|c| c == ',' || c == ';').count() == 3, "a,b;c".split(&[',', ';'][..]).count() == 3, "abc".chars().rev().collect::<String>() == "cba");
    t!("123".parse::<u32>() == Ok(123), "-5".parse::<i64>() == Ok(-5), "x".parse::<u8>().is_err(), "256".parse::<u8>().is_err(), "+7".parse::<i32>() == Ok(7), "1.5e3".parse::<f64>() == Ok(1500.0), "true".parse::<bool>() == Ok(true), u32::from_str_radix("ff", 16) == Ok(255), "99999999999999999999999".parse::<u128>().is_ok());
    t!(format!("{:>5}|{:<5}|{:^5}|{:05}|{:+}|{:x}|{:X}|{:#b}|{:e}", "a", "b", "c", 42, 7, 255, 255, 5, 1234.5) == "    a|b    |  c  |00042|+7|ff|FF|0b101|1.2345e3");
    t!(format!("{:.2} {:8.3} {}", 3.14159, 2.5, 0.1 + 0.2) == "3.14    2.500 0.30000000000000004", format!("{:?} {:#?}", "q\"\n", (1, "x")).len() > 10, format!("{:?}", [1, 2]) == "[1, 2]", format!("{:w$.p$}", 1.23456, w = 8, p = 2) == "    1.23");
    t!(String::from_utf8_lossy(b"a\xffb") == "a\u{fffd}b", std::str::from_utf8(b"\xff").is_err(), String::from_utf8(vec![104, 105]).unwrap() == "hi", "é".len() == 2, "ß".to_uppercase() == "SS");
    t!("abc" < "abd", "10".cmp("9") == std::cmp::Ordering::Less, s.bytes().filter(|b| b.is_ascii_digit()).count() == 3, 'x'.is_alphanumeric(), 'Ä'.is_uppercase(), '7'.to_digit(10) == Some(7), char::from_digit(9, 10) == Some('9'), ' '.is_whitespace());
    let mut o = String::with_capacity(3);
    for c in "abc".chars() { o.insert(0, c) }
    o.push_str("xyz"); o.pop(); o.truncate(4); o.remove(0);
    t!(o == "bax", o.drain(..1).collect::<String>() == "b");
    o.extend(["1", "2"].iter().copied()); o.retain(|c| c != '1');
    t!(o == "ax2", o.char_indices().map(|x| x.0).sum::<usize>() == 3, o.repeat(30).len() == 90, o.is_char_boundary(1));
    t!("naïve café".chars().filter(|c| !c.is_ascii()).count() == 2, "v1.2".split(|c: char| !c.is_alphanumeric()).collect::<Vec<_>>() == ["v1", "2"], "a".repeat(100).find("aab").is_none(), "aaaaaaaaaaaaaaaaaaaab".find("aab") == Some(18), ("x".repeat(70) + "needle").find("needle") == Some(70));
    let p = Path::new("/a/b.tar.zst");
    t!(p.file_stem().unwrap() == "b.tar", p.extension().unwrap() == "zst", p.parent().unwrap() == Path::new("/a"), p.with_extension("x") == Path::new("/a/b.tar.x"), p.strip_prefix("/a").is_ok(), p.components().count() == 3, p.ancestors().count() == 3, p.join("../c").to_string_lossy().len() == 17, p.is_absolute(), p.has_root(), p.iter().count() == 3, p.ends_with("b.tar.zst"), Path::new("a") < Path::new("b"), p.to_str().is_some(), p.display().to_string().len() == 12);
    let mut pb = PathBuf::from("x"); pb.push("y"); pb.set_file_name("z"); pb.set_extension("e");
    t!(pb == Path::new("x/z.e"), pb.pop(), pb.into_os_string() == "x");
    t!(human_sort::compare("a10", "a9") == std::cmp::Ordering::Greater);
    use itertools_like::*;
    t!(join3(&["a", "b"]) == "a/b");
}
mod itertools_like { pub fn join3(x: &[&str]) -> String { x.iter().map(|s| s.to_string()).reduce(|a, b| a + "/" + &b).unwrap_or_default() } }
fn iters() {
    let n = bb(100u64);
    t!((0..n).sum::<u64>() == 4950, (1..=10u64).product::<u64>() == 3628800, (0..n).step_by(7).count() == 15, (0..n).rev().take(3).collect::<Vec<_>>() == [99, 98, 97], (0..n).zip(5..).filter(|(a, b)| (a + b) % 2 == 1).count() == 100);
    t!((0..n).flat_map(|x| vec![x; 2]).count() == 200, (0..n).scan(0, |a, x| { *a += x; Some(*a) }).last() == Some(4950), (0..n).skip_while(|x| *x < 90).take_while(|x| *x < 95).count() == 5, (0..n).max_by_key(|x| x % 13) == Some(90), (0..n).min_by(|a, b| (b % 7).cmp(&(a % 7))) == Some(6), (0..n).try_fold(0u64, |a, x| a.checked_add(x)) == Some(4950));
    t!((0..n).map(|x| if x < 200 { Ok(x) } else { Err(x) }).collect::<Result<Vec<_>, _>>().unwrap().len() == 100, (0..n).map(|x| if x < 50 { Some(x) } else { None }).collect::<Option<Vec<_>>>().is_none(), (0..n).any(|x| x == 55), (0..n).all(|x| x < 100), (0..n).find_map(|x| if x > 5 { Some(x * 2) } else { None }) == Some(12), (0..n).position(|x| x == 9) == Some(9), (0..n).unzip_len() == 100);
    let mut p = (0..n).peekable();
    t!(p.peek() == Some(&0), p.next_if(|x| *x == 0).is_some(), p.nth(3) == Some(4), p.size_hint().0 > 90);
    t!((0..n).chain(0..5).cycle().skip(100).take(7).collect::<Vec<_>>() == [0, 1, 2, 3, 4, 0, 1], (0..5).eq(0..5), (0..5).lt(1..6), (0..n).inspect(|_| ()).enumerate().map(|(i, x)| i as u64 + x).sum::<u64>() == 9900, std::iter::successors(Some(1u64), |x| Some(x * 2)).take(10).last() == Some(512), std::iter::repeat_with(|| 3).take(2).sum::<i32>() == 6, std::iter::once(1).chain(std::iter::empty()).count() == 1);
    let a: Vec<u8> = (0..=255).collect();
    let s: u32 = a.iter().map(|x| *x as u32).sum();
    t!(s == 32640, a.iter().map(|x| x.count_ones()).sum::<u32>() == 1024, a.iter().fold(0u8, |x, y| x ^ y) == 0, a.iter().rev().copied().max() == Some(255), a.iter().map(|x| *x as f32).sum::<f32>() == 32640.0, a.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64).sum::<u64>() > 0, a.iter().zip(a.iter().rev()).map(|(x, y)| (*x as i32 - *y as i32).abs()).sum::<i32>() == 32768);
    let w: Vec<u16> = a.iter().map(|x| *x as u16 * 257).collect();
    t!(w.iter().map(|x| x.swap_bytes()).eq(w.iter().copied()), w.iter().min() == Some(&0));
    let mut z = vec![0u32; 300];
    for (i, x) in z.iter_mut().enumerate() { *x = (i as u32).wrapping_mul(0x9E3779B9).rotate_left(5) >> 3 }
    t!(z.iter().fold(0u32, |a, b| a.wrapping_add(*b)) == z.iter().rev().fold(0u32, |a, b| a.wrapping_add(*b)), z.iter().map(|x| *x as u64).sum::<u64>() > 0);
}
trait UL { fn unzip_len(self) -> usize; }
impl<I: Iterator<Item = u64>> UL for I { fn unzip_len(self) -> usize { let (a, _b): (Vec<u64>, Vec<u64>) = self.map(|x| (x, x)).unzip(); a.len() } }
fn numbers() {
    let x = bb(0xDEADBEEFu32); let y = bb(1234567890123456789u64); let z = bb(-77i64); let u = bb(340282366920938463463374607431768211455u128);
    t!(x.leading_zeros() == 0, x.trailing_zeros() == 0, x.count_ones() == 24, x.swap_bytes() == 0xEFBEADDE, x.reverse_bits() == 0xF77DB57B, x.rotate_left(8) == 0xADBEEFDE, x.checked_add(x).is_none(), x.saturating_add(x) == u32::MAX, x.overflowing_mul(2).1, x.wrapping_sub(u32::MAX) == 0xDEADBEF0, x.is_power_of_two() == false, 1000u32.next_power_of_two() == 1024);
    t!(y / 1000 % 7 == 1234567890123456 % 7, y.pow(1) == y, y.checked_mul(100).is_none(), z / 10 == -7, z % 10 == -7, z.rem_euclid(10) == 3, z.div_euclid(10) == -8, z.abs() == 77, z.signum() == -1, (z as u8) == 179, (z >> 1) == -39, z.pow(2) == 5929, i64::MIN.checked_neg().is_none(), z.unsigned_abs() == 77, z.saturating_mul(i64::MAX) == i64::MIN);
    t!(u / 10 == 34028236692093846346337460743176821145, u % 1000 == 455, (u >> 64) as u64 == u64::MAX, (y as u128 * y as u128) / y as u128 == y as u128, u.to_string().len() == 39, (bb(-5i128) / 2) == -2, u.leading_zeros() == 0, (u as f64) > 3.4e38);
    let f = bb(2.0f64);
    t!(f.sqrt() == 1.4142135623730951, f.powi(10) == 1024.0, (f / 3.0 * 3.0) == 2.0, f.floor() == 2.0, bb(2.5f64).round() == 3.0, bb(-2.5f64).trunc() == -2.0, bb(2.3f64).ceil() == 3.0, bb(1e300f64) as u8 == 255, bb(-1.0f64) as u32 == 0, bb(f64::NAN) as i32 == 0, f.min(1.0) == 1.0, f.mul_add(2.0, 1.0) == 5.0, (bb(7u64) as f64 / 2.0) == 3.5, f.to_bits() == 0x4000000000000000, bb(0.1f32) as f64 != 0.1, f.abs() == 2.0, f.is_finite(), bb(5.7f64) as i64 == 5, bb(10f64).log10() == 1.0, f.powf(0.5) == f.sqrt(), bb(-0.0f64).is_sign_negative(), f.clamp(0.0, 1.0) == 1.0, bb(3u8) as f32 == 3.0, f.rem_euclid(1.5) == 0.5, f % 1.5 == 0.5);
    t!(Duration::from_millis(1500).as_secs_f64() == 1.5, Duration::from_secs(3) > Duration::from_millis(1), Duration::new(1, 5).checked_sub(Duration::from_secs(2)).is_none());
    t!(Instant::now().elapsed() < Duration::from_secs(1000), SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() > 1000, SystemTime::now().duration_since(SystemTime::now() + Duration::from_secs(5)).is_err());
    t!(u16::from_be_bytes([1, 2]) == 258, 258u16.to_le_bytes() == [2, 1], i32::try_from(bb(3_000_000_000u64)).is_err(), u8::try_from(bb(200i32)).is_ok(), char::from_u32(0x41) == Some('A'), std::num::NonZeroU32::new(x).is_some(), bb(10u32).abs_diff(13) == 3, bb(100u64).ilog2() == 6, bb(1000u64).ilog10() == 3, bb(17u32).isqrt() == 4);
}
fn shared() {
    let a = Arc::new(Mutex::new(vec![1]));
    a.lock().unwrap().push(2);
    let b = a.clone();
    t!(b.lock().unwrap().len() == 2, Arc::strong_count(&a) == 2, a.try_lock().is_ok());
    drop(b);
    t!(Arc::try_unwrap(a).unwrap().into_inner().unwrap() == [1, 2]);
    let r = RwLock::new(5);
    { t!(*r.read().unwrap() == 5); }
    *r.write().unwrap() += 1;
    t!(*r.read().unwrap() == 6, r.try_write().is_ok());
    static O: Once = Once::new();
    static C: AtomicUsize = AtomicUsize::new(0);
    O.call_once(|| { C.fetch_add(1, Ordering::SeqCst); });
    O.call_once(|| { C.fetch_add(1, Ordering::SeqCst); });
    t!(C.load(Ordering::Relaxed) == 1, C.compare_exchange(1, 7, Ordering::AcqRel, Ordering::Relaxed) == Ok(1), C.swap(3, Ordering::SeqCst) == 7, C.fetch_max(9, Ordering::SeqCst) == 3, C.fetch_sub(1, Ordering::SeqCst) == 9, C.fetch_or(16, Ordering::SeqCst) == 8, C.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| Some(x + 1)).is_ok());
    static L: OnceLock<String> = OnceLock::new();
    t!(L.get_or_init(|| "x".into()) == "x", L.get().is_some());
    static LZ: LazyLock<u32> = LazyLock::new(|| 4);
    t!(*LZ == 4);
    thread_local! { static TL: RefCell<u32> = RefCell::new(1); static TC: Cell<u8> = const { Cell::new(3) }; }
    TL.with(|t| *t.borrow_mut() += 1);
    t!(TL.with(|t| *t.borrow()) == 2, TC.get() == 3);
    let (tx, rx) = mpsc::channel();
    tx.send(1).unwrap(); tx.clone().send(2).unwrap();
    drop(tx);
    t!(rx.recv() == Ok(1), rx.iter().collect::<Vec<_>>() == [2], rx.try_recv().is_err());
    let (tx, rx) = mpsc::sync_channel(4);
    tx.send("a").unwrap();
    t!(rx.try_recv() == Ok("a"));
    let w = Rc::new(RefCell::new(1));
    let k = Rc::downgrade(&w);
    t!(k.upgrade().is_some());
    drop(w);
    t!(k.upgrade().is_none());
    std::thread::yield_now();
    std::thread::sleep(Duration::from_millis(1));
    t!(std::thread::current().name().is_some() || true, std::thread::available_parallelism().is_ok(), std::process::id() > 0, !std::thread::panicking());
    t!(std::panic::catch_unwind(|| 5).unwrap() == 5);
    std::env::set_var("VP_A", "b");
    t!(std::env::var("VP_A").unwrap() == "b", std::env::var_os("VP_NONE").is_none(), std::env::vars().any(|(k, _)| k == "VP_A"), std::env::args().count() < 99, std::env::current_exe().is_ok() || true);
    std::env::remove_var("VP_A");
    t!(std::env::var("VP_A").is_err());
    let d: Box<dyn Fn(u32) -> u32> = Box::new(|x| x + 1);
    let e: Box<dyn std::error::Error + Send + Sync> = "err".into();
    t!(d(1) == 2, e.to_string() == "err", (&5u32 as &dyn std::any::Any).downcast_ref::<u32>() == Some(&5), std::any::type_name::<u32>() == "u32", std::mem::size_of_val(&d) == 16, std::mem::replace(&mut vec![1], vec![]).len() == 1, std::mem::take(&mut String::from("x")) == "x");
    use std::hash::{Hash, Hasher, BuildHasher};
    let mut h = hash_map::DefaultHasher::new(); "abc".hash(&mut h);
    t!(h.finish() == { let mut h = hash_map::DefaultHasher::new(); "abc".hash(&mut h); h.finish() }, hash_map::RandomState::new().build_hasher().finish() != 1);
}
fn futures_() {
    use futures::{prelude::*, stream::{self, FuturesUnordered, FuturesOrdered}, future};
    async fn two() -> Result<u32, String> { Ok(2) }
    async fn bad(n: u32) -> Result<u32, String> { if n == 3 { Err("three".into()) } else { Ok(n) } }
    struct Later(u32, u32);
    impl Future for Later { type Output = u32; fn poll(mut self: std::pin::Pin<&mut Self>, c: &mut std::task::Context) -> std::task::Poll<u32> { if self.1 == 0 { std::task::Poll::Ready(self.0) } else { self.1 -= 1; c.waker().wake_by_ref(); std::task::Poll::Pending } } }
    t!(block_on(two()) == Ok(2), block_on(async { two().await? ; bad(3).await }).is_err());
    t!(block_on(future::join_all((0..5).map(|i| Later(i, 5 - i)))) == [0, 1, 2, 3, 4], block_on(future::try_join_all((0..5).map(bad))).is_err(), block_on(future::try_join(two(), bad(1))) == Ok((2, 1)), block_on(future::join(Later(1, 2), Later(2, 1))) == (1, 2), block_on(future::select(Later(1, 2), Later(2, 1))).factor_first().0 == 2);
    t!(block_on(stream::iter(0..9).map(|i| Later(i, 9 - i)).buffer_unordered(3).collect::<Vec<_>>()).len() == 9, block_on(stream::iter(0..9).map(|i| Later(i, i % 3)).buffered(4).collect::<Vec<_>>()) == (0..9).collect::<Vec<_>>(), block_on(stream::iter(0..5).then(bad).try_collect::<Vec<_>>()).is_err());
    t!(block_on(stream::iter((0..5).map(Ok::<u32, String>)).try_for_each_concurrent(3, |i| async move { bad(i).await.map(|_| ()) })).is_err(), block_on(stream::iter((4..9).map(Ok::<u32, String>)).try_for_each(|i| async move { bad(i).await.map(|_| ()) })).is_ok(), block_on(stream::iter(0..5).for_each_concurrent(None, |i| async move { Later(i, 2).await; })) == (), block_on(stream::iter(0..5u32).fold(0, |a, i| async move { a + i })) == 10, block_on(stream::iter(0..5u32).filter(|i| future::ready(i % 2 == 0)).count()) == 3, block_on(stream::iter(vec![Ok(1), Err("e")]).try_fold(0, |a, i| async move { Ok(a + i) })).is_err());
    let mut fu: FuturesUnordered<_> = (0..6).map(|i| Later(i, 6 - i)).collect();
    t!(block_on(async { let mut s = 0; while let Some(x) = fu.next().await { s += x } s }) == 15);
    let mut fo = FuturesOrdered::new(); fo.push(Later(1, 3)); fo.push(Later(2, 0));
    t!(block_on(fo.collect::<Vec<_>>()) == [1, 2]);
    let (tx, rx) = futures::channel::oneshot::channel();
    tx.send(3).unwrap();
    t!(block_on(rx) == Ok(3));
    let (mut tx, rx) = futures::channel::mpsc::channel(4);
    t!(block_on(async { tx.send(1).await.unwrap(); tx.send(2).await.unwrap(); drop(tx); rx.collect::<Vec<_>>().await }) == [1, 2]);
    t!(futures::executor::block_on(Later(4, 3)) == 4);
    let m = futures::lock::Mutex::new(1);
    t!(block_on(async { *m.lock().await += 1; *m.lock().await }) == 2);
    let b: future::BoxFuture<u32> = Later(1, 1).boxed();
    t!(block_on(b.map(|x| x + 1)) == 2, block_on(two().and_then(|x| async move { Ok(x + 1) }).map_err(|_| ()).or_else(|_| async { Err(()) })) == Ok(3));
    t!(block_on(async { let mut v = vec![]; tokio::io::AsyncReadExt::read_to_end(&mut &b"abcdef"[..], &mut v).await.unwrap(); let mut o = vec![]; tokio::io::AsyncWriteExt::write_all(&mut o, &v).await.unwrap(); tokio::io::copy(&mut &b"xy"[..], &mut o).await.unwrap(); o }) == b"abcdefxy");
    let sm = tokio::sync::Mutex::new(1);
    t!(block_on(async { *sm.lock().await += 2; *sm.lock().await }) == 3);
}
fn graphs() {
    use petgraph::{graph::{Graph, NodeIndex}, algo, visit::*, Direction};
    let mut g: Graph<&str, u64> = Graph::new();
    let n: Vec<NodeIndex> = ["a", "b", "c", "d"].iter().map(|x| g.add_node(*x)).collect();
    for (a, b, w) in [(0, 1, 1u64), (1, 2, 2), (0, 2, 5), (2, 3, 1), (0, 3, 9)] { g.add_edge(n[a], n[b], w); }
    t!(algo::dijkstra(&g, n[0], Some(n[3]), |e| *e.weight())[&n[3]] == 4, algo::astar(&g, n[0], |x| x == n[3], |e| *e.weight(), |_| 0).unwrap().1.len() == 4, algo::all_simple_paths::<Vec<_>, _>(&g, n[0], n[3], 0, None).count() == 3, algo::has_path_connecting(&g, n[0], n[3], None), !algo::is_cyclic_directed(&g), algo::toposort(&g, None).unwrap().len() == 4);
    let mut b = Bfs::new(&g, n[0]);
    let mut c = 0;
    while b.next(&g).is_some() { c += 1 }
    t!(c == 4, g.edges(n[0]).count() == 3, g.neighbors_directed(n[3], Direction::Incoming).count() == 2, g.find_edge(n[0], n[2]).is_some(), g.edges_connecting(n[0], n[2]).count() == 1, g.node_indices().count() == 4, g.edge_references().map(|e| *e.weight()).sum::<u64>() == 18, g.node_weights().count() == 4);
    let f: Graph<&str, f64> = g.map(|_, x| *x, |_, w| *w as f64);
    t!(algo::bellman_ford(&f, n[0]).unwrap().distances[3] == 4.0);
    g.update_edge(n[0], n[3], 1);
    g.retain_edges(|g, e| g[e] < 5);
    t!(g.edge_count() == 4, g.clone().remove_node(n[1]).is_some());
}
/// Loops over symbolic bytes, as the optimiser may turn into vectors.
fn floats32() {
    let x = bb(2.5f32);
    t!(x.abs() == 2.5, x.round() == 3.0, x.trunc() == 2.0, x.floor() == 2.0, x.ceil() == 3.0, (-x).abs() == 2.5, x.sqrt() > 1.58 && x.sqrt() < 1.59, x as u8 == 2, bb(-3.7f32) as i32 == -3, bb(1e20f32) as u32 == u32::MAX, x.round_ties_even() == 2.0, x.max(3.0) == 3.0, x.copysign(-1.0) == -2.5);
    let v: Vec<u32> = bb(vec![3, 9, 4, 1, 7, 2, 8, 6, 5, 10, 0, 11]);
    t!(v.iter().max() == Some(&11), v.iter().min() == Some(&0), v.iter().copied().fold(0, u32::max) == 11, v.iter().copied().fold(99, u32::min) == 0, v.iter().sum::<u32>() == 66);
    let d = Duration::from_secs_f64(1.25);
    t!(d.as_millis() == 1250, d.as_nanos() == 1250000000, d.as_secs_f32() == 1.25, format!("{:?}", d) == "1.25s");
    let b = bb(u128::MAX);
    t!((b / 1_000_000_007).to_string() == "340282364538961911690641225597", b.to_string() == "340282366920938463463374607431768211455", format!("{:x}", b).len() == 32, "340282366920938463463374607431768211455".parse() == Ok(b));
}
fn symbolic() {
    let v = bytes(8, "v");
    let c = v.clone();
    let s: u32 = v.iter().map(|x| *x as u32).sum();
    check(s <= 8 * 255, "sum");
    check(v.iter().rev().map(|x| *x as u32).sum::<u32>() == s, "sum in reverse");
    let x = v.iter().fold(0u8, |a, b| a ^ b);
    check(x ^ v[0] == v[1..].iter().fold(0u8, |a, b| a ^ b), "xor");
    let d: Vec<u8> = v.iter().zip(&c).map(|(a, b)| a.wrapping_sub(*b)).collect();
    check(d.iter().all(|b| *b == 0), "difference");
    let mut r = v.clone(); r.reverse(); r.reverse();
    check(eq(&r, &v), "reverse");
    let m = v.iter().copied().max().unwrap();
    check(v.iter().all(|b| *b <= m), "max");
    let w: Vec<u32> = v.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let back: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
    check(eq(&back, &v), "words");
    let hi = v.iter().filter(|b| **b >= 128).count();
    check(hi <= 8 && hi == v.iter().map(|b| (b >> 7) as usize).sum::<usize>(), "count");
    check(v.iter().map(|b| b.count_ones()).sum::<u32>() + v.iter().map(|b| b.count_zeros()).sum::<u32>() == 64, "ones");
    check(v.iter().map(|b| b.leading_zeros()).all(|z| z <= 8), "zeros");
    check(v.iter().map(|b| b.rotate_left(3).rotate_right(3)).eq(v.iter().copied()), "rotate");
    check(v.iter().map(|b| (*b as i8).unsigned_abs() as u32).max().unwrap() <= 128, "abs");
    let q = u64::from_le_bytes([v[0], v[1], v[2], v[3], 0, 0, 0, 0]) % 1000;
    check(q < 1000, "remainder");
    check(q.swap_bytes().swap_bytes() == q && q.reverse_bits().reverse_bits() == q, "swap");
    check(v[0].checked_add(v[1]).map_or(v[0] as u32 + v[1] as u32 > 255, |s| s as u32 == v[0] as u32 + v[1] as u32), "checked");
    check(v[0].saturating_sub(v[1]) == if v[0] > v[1] { v[0] - v[1] } else { 0 }, "saturating");
}
const CASES: &[fn()] = &[files, dirs, io_misc, collections, strings, iters, numbers, shared, futures_, graphs, symbolic, floats32];
#[no_mangle]
pub extern "C" fn vp_main_conf(_: u64) {
    let k = choose(CASES.len() as u64, "case") as usize;
    let o = process(|| { CASES[k](); true });
    note("last line", unsafe { WHERE }.to_string().as_bytes());
    check(o.ok(), "a case does not return");
    reach("end");
}
fn main() {
    let r = unsafe { vp_native_begin() };
    if r != 0 { std::process::exit(r) }
    vp_main_conf(0);
    std::process::exit(unsafe { vp_native_end() });
}
