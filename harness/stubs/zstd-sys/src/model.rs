//! Streaming zstd with raw blocks only.
//!
//! The encoder emits valid zstd frames (magic, frame header without content size,
//! raw blocks, optional absence of checksum as in the real default); the decoder
//! reads frames made of raw and RLE blocks and skippable frames.  A block of type
//! "compressed" or "reserved" is reported as corruption, as is a wrong magic.
use super::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};

/// Largest block the encoder emits (the real library: 128 KiB); a harness may lower it.
pub static mut BLOCK: usize = 131072;
/// Compression levels passed to the library, most recent last.
pub static mut LEVEL: c_int = c_int::MIN;
pub static mut LEVELS_SET: u32 = 0;

const ERR_GENERIC: usize = usize::MAX; // -1
const ERR_CORRUPT: usize = 0usize.wrapping_sub(20);
const ERR_PREFIX: usize = 0usize.wrapping_sub(10);
const ERR_PARAM: usize = 0usize.wrapping_sub(40);

struct Enc { started: bool, ended: bool, block: Vec<u8>, out: Vec<u8>, pos: usize, checksum: bool, hash_all: Vec<u8>, content_size: bool }
struct Dec { st: St, buf: Vec<u8>, need: usize, left: usize, rle: Option<u8>, last: bool, checksum: bool, hash_all: Vec<u8> }
#[derive(Clone, Copy, PartialEq)]
enum St { Magic, Fhd, Header, Block, Raw, Rle1, RleOut, Check, SkipLen, Skip }

unsafe fn enc<'a>(p: *mut ZSTD_CCtx) -> &'a mut Enc { &mut *(p as *mut Enc) }
unsafe fn dec<'a>(p: *mut ZSTD_DCtx) -> &'a mut Dec { &mut *(p as *mut Dec) }

impl Enc {
    fn new() -> Enc { Enc { started: false, ended: false, block: vec![], out: vec![], pos: 0, checksum: false, hash_all: vec![], content_size: false } }
    fn reset(&mut self) { self.started = false; self.ended = false; self.block.clear(); self.out.clear(); self.pos = 0; self.hash_all.clear() }
    fn header(&mut self) {
        if self.started { return }
        self.started = true;
        // magic, frame header descriptor (no single segment, no content size), window descriptor 1 MiB
        self.out.extend_from_slice(&[0x28, 0xB5, 0x2F, 0xFD, if self.checksum { 4 } else { 0 }, 0x50]);
    }
    fn emit(&mut self, last: bool) {
        let h = ((self.block.len() as u32) << 3) | last as u32;
        self.out.extend_from_slice(&h.to_le_bytes()[..3]);
        self.out.extend_from_slice(&self.block);
        self.block.clear();
    }
    fn drain(&mut self, o: &mut ZSTD_outBuffer) -> usize {
        let n = std::cmp::min(self.out.len() - self.pos, o.size - o.pos);
        unsafe { std::ptr::copy_nonoverlapping(self.out.as_ptr().add(self.pos), (o.dst as *mut u8).add(o.pos), n) }
        o.pos += n;
        self.pos += n;
        let left = self.out.len() - self.pos;
        if left == 0 { self.out.clear(); self.pos = 0 }
        left
    }
}
impl Dec {
    fn new() -> Dec { Dec { st: St::Magic, buf: vec![], need: 4, left: 0, rle: None, last: false, checksum: false, hash_all: vec![] } }
    fn reset(&mut self) { *self = Dec::new() }
    fn want(&mut self, st: St, n: usize) { self.st = st; self.need = n; self.buf.clear() }
}

pub fn xxh32_low(data: &[u8]) -> u32 {
    // XXH64, lower 32 bits (zstd frame checksum)
    const P1: u64 = 0x9E3779B185EBCA87; const P2: u64 = 0xC2B2AE3D27D4EB4F; const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63; const P5: u64 = 0x27D4EB2F165667C5;
    fn r64(b: &[u8]) -> u64 { u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) }
    fn round(a: u64, i: u64) -> u64 { a.wrapping_add(i.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1) }
    let mut p = data;
    let mut h;
    if p.len() >= 32 {
        let (mut a, mut b, mut c, mut d) = (P1.wrapping_add(P2), P2, 0u64, 0u64.wrapping_sub(P1));
        while p.len() >= 32 {
            a = round(a, r64(p)); b = round(b, r64(&p[8..])); c = round(c, r64(&p[16..])); d = round(d, r64(&p[24..]));
            p = &p[32..];
        }
        h = a.rotate_left(1).wrapping_add(b.rotate_left(7)).wrapping_add(c.rotate_left(12)).wrapping_add(d.rotate_left(18));
        for v in [a, b, c, d].iter() { h = (h ^ round(0, *v)).wrapping_mul(P1).wrapping_add(P4) }
    } else { h = P5 }
    h = h.wrapping_add(data.len() as u64);
    while p.len() >= 8 { h = (h ^ round(0, r64(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4); p = &p[8..] }
    if p.len() >= 4 {
        h = (h ^ (u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as u64).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        p = &p[4..];
    }
    for b in p { h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1) }
    h ^= h >> 33; h = h.wrapping_mul(P2); h ^= h >> 29; h = h.wrapping_mul(P3); h ^= h >> 32;
    h as u32
}

#[no_mangle] pub unsafe extern "C" fn ZSTD_createCCtx() -> *mut ZSTD_CCtx { Box::into_raw(Box::new(Enc::new())) as *mut _ }
#[no_mangle] pub unsafe extern "C" fn ZSTD_freeCCtx(p: *mut ZSTD_CCtx) -> usize { if !p.is_null() { drop(Box::from_raw(p as *mut Enc)) } 0 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_createDCtx() -> *mut ZSTD_DCtx { Box::into_raw(Box::new(Dec::new())) as *mut _ }
#[no_mangle] pub unsafe extern "C" fn ZSTD_freeDCtx(p: *mut ZSTD_DCtx) -> usize { if !p.is_null() { drop(Box::from_raw(p as *mut Dec)) } 0 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_CCtx_setParameter(p: *mut ZSTD_CCtx, k: ZSTD_cParameter, v: c_int) -> usize {
    let k = k as u32;
    if k == 100 { LEVEL = v; LEVELS_SET += 1; return 0 }   // out-of-range levels are clamped by the real library
    if k == 200 { enc(p).content_size = v != 0; return 0 }
    if k == 201 { enc(p).checksum = v != 0; return 0 }
    if k == 202 { return 0 }
    if k == 400 && v != 0 { return ERR_PARAM }              // multi-threading is not built in
    let _ = p;
    0
}
#[no_mangle] pub unsafe extern "C" fn ZSTD_CCtx_reset(p: *mut ZSTD_CCtx, _r: ZSTD_ResetDirective) -> usize { enc(p).reset(); 0 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_CCtx_setPledgedSrcSize(_p: *mut ZSTD_CCtx, _n: std::os::raw::c_ulonglong) -> usize { 0 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_CCtx_loadDictionary(_p: *mut ZSTD_CCtx, _d: *const c_void, n: usize) -> usize { if n == 0 { 0 } else { ERR_PARAM } }
#[no_mangle] pub unsafe extern "C" fn ZSTD_DCtx_loadDictionary(_p: *mut ZSTD_DCtx, _d: *const c_void, n: usize) -> usize { if n == 0 { 0 } else { ERR_PARAM } }
#[no_mangle] pub unsafe extern "C" fn ZSTD_DCtx_reset(p: *mut ZSTD_DCtx, _r: ZSTD_ResetDirective) -> usize { dec(p).reset(); 0 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_DCtx_setParameter(_p: *mut ZSTD_DCtx, _k: ZSTD_dParameter, _v: c_int) -> usize { 0 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_initDStream(p: *mut ZSTD_DStream) -> usize { dec(p as *mut _).reset(); 5 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_DStreamInSize() -> usize { 131075 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_DStreamOutSize() -> usize { 131072 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_CStreamInSize() -> usize { 131072 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_CStreamOutSize() -> usize { 131591 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_isError(c: usize) -> c_uint { (c > 0usize.wrapping_sub(120)) as c_uint }
#[no_mangle] pub unsafe extern "C" fn ZSTD_getErrorName(_c: usize) -> *const c_char { b"zstd error\0".as_ptr() as *const c_char }
#[no_mangle] pub unsafe extern "C" fn ZSTD_minCLevel() -> c_int { -131072 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_maxCLevel() -> c_int { 22 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_defaultCLevel() -> c_int { 3 }
#[no_mangle] pub unsafe extern "C" fn ZSTD_compressBound(n: usize) -> usize { n + (n >> 7) + 64 }

#[no_mangle] pub unsafe extern "C" fn ZSTD_compressStream(p: *mut ZSTD_CStream, o: *mut ZSTD_outBuffer, i: *mut ZSTD_inBuffer) -> usize {
    let e = enc(p as *mut _);
    let (o, i) = (&mut *o, &mut *i);
    if e.ended { e.reset() }
    if e.drain(o) > 0 { return 131072 }
    while i.pos < i.size && e.out.len() - e.pos < 131072 {
        let n = std::cmp::min(i.size - i.pos, BLOCK - e.block.len());
        let s = std::slice::from_raw_parts((i.src as *const u8).add(i.pos), n);
        e.block.extend_from_slice(s);
        if e.checksum { e.hash_all.extend_from_slice(s) }
        i.pos += n;
        if e.block.len() == BLOCK { e.header(); e.emit(false) }
    }
    e.drain(o);
    131072
}
#[no_mangle] pub unsafe extern "C" fn ZSTD_flushStream(p: *mut ZSTD_CStream, o: *mut ZSTD_outBuffer) -> usize {
    let e = enc(p as *mut _);
    if !e.block.is_empty() { e.header(); e.emit(false) }
    e.drain(&mut *o)
}
#[no_mangle] pub unsafe extern "C" fn ZSTD_endStream(p: *mut ZSTD_CStream, o: *mut ZSTD_outBuffer) -> usize {
    let e = enc(p as *mut _);
    if !e.ended {
        e.header();
        e.emit(true);
        if e.checksum { let h = xxh32_low(&e.hash_all); e.out.extend_from_slice(&h.to_le_bytes()) }
        e.ended = true;
    }
    e.drain(&mut *o)
}

#[no_mangle] pub unsafe extern "C" fn ZSTD_decompressStream(p: *mut ZSTD_DStream, o: *mut ZSTD_outBuffer, i: *mut ZSTD_inBuffer) -> usize {
    let d = dec(p as *mut _);
    let (o, i) = (&mut *o, &mut *i);
    loop {
        match d.st {
            St::RleOut => {
                let n = std::cmp::min(d.left, o.size - o.pos);
                let b = d.rle.unwrap_or(0);
                std::ptr::write_bytes((o.dst as *mut u8).add(o.pos), b, n);
                if d.checksum { let l = d.hash_all.len(); d.hash_all.resize(l + n, b) }
                o.pos += n; d.left -= n;
                if d.left > 0 { return 1 }
            }
            St::Raw => {
                let n = std::cmp::min(std::cmp::min(d.left, o.size - o.pos), i.size - i.pos);
                let src = (i.src as *const u8).add(i.pos);
                std::ptr::copy_nonoverlapping(src, (o.dst as *mut u8).add(o.pos), n);
                if d.checksum { d.hash_all.extend_from_slice(std::slice::from_raw_parts(src, n)) }
                o.pos += n; i.pos += n; d.left -= n;
                if d.left > 0 { return d.left + 3 }
            }
            St::Skip => {
                let n = std::cmp::min(d.left, i.size - i.pos);
                i.pos += n; d.left -= n;
                if d.left > 0 { return d.left }
                d.want(St::Magic, 4);
                return 0;
            }
            _ => {
                while d.buf.len() < d.need {
                    if i.pos == i.size { return d.need - d.buf.len() }
                    d.buf.push(*(i.src as *const u8).add(i.pos));
                    i.pos += 1;
                }
            }
        }
        // the current item is complete
        match d.st {
            St::Magic => {
                let m = u32::from_le_bytes([d.buf[0], d.buf[1], d.buf[2], d.buf[3]]);
                if m == 0xFD2FB528 { d.want(St::Fhd, 1) }
                else if m & 0xFFFFFFF0 == 0x184D2A50 { d.want(St::SkipLen, 4) }
                else { return ERR_PREFIX }
            }
            St::SkipLen => {
                d.left = u32::from_le_bytes([d.buf[0], d.buf[1], d.buf[2], d.buf[3]]) as usize;
                d.st = St::Skip;
            }
            St::Fhd => {
                let f = d.buf[0];
                if f & 8 != 0 { return ERR_CORRUPT }
                let single = f & 0x20 != 0;
                d.checksum = f & 4 != 0;
                let dict = [0usize, 1, 2, 4][(f & 3) as usize];
                if dict != 0 { return ERR_CORRUPT }
                let fcs = match f >> 6 { 0 => single as usize, 1 => 2, 2 => 4, _ => 8 };
                let n = fcs + (!single) as usize;
                if n == 0 { d.want(St::Block, 3) } else { d.want(St::Header, n) }
            }
            St::Header => d.want(St::Block, 3),
            St::Block => {
                let h = d.buf[0] as usize | (d.buf[1] as usize) << 8 | (d.buf[2] as usize) << 16;
                d.last = h & 1 != 0;
                let size = h >> 3;
                if size > 131072 { return ERR_CORRUPT }
                d.left = size;
                match (h >> 1) & 3 {
                    0 => d.st = St::Raw,
                    1 => d.want(St::Rle1, 1),
                    _ => return ERR_CORRUPT,
                }
                if d.st == St::Raw && size > 0 && i.pos == i.size { return size + 3 }
            }
            St::Rle1 => { d.rle = Some(d.buf[0]); d.st = St::RleOut }
            St::Raw | St::RleOut => {
                if !d.last { d.want(St::Block, 3) }
                else if d.checksum { d.want(St::Check, 4) }
                else { d.reset(); return 0 }
            }
            St::Check => {
                let w = u32::from_le_bytes([d.buf[0], d.buf[1], d.buf[2], d.buf[3]]);
                if w != xxh32_low(&d.hash_all) { return ERR_CORRUPT }
                d.reset();
                return 0;
            }
            St::Skip => { d.want(St::Magic, 4); return 0 }
        }
    }
}
#[allow(dead_code)] fn _unused() -> usize { ERR_GENERIC }
