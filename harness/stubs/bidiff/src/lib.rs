//! Same interface and patch format as bidiff 1.0; the differ only looks for a common
//! prefix and a common suffix instead of running a suffix sort.
use std::{error::Error, fmt, io::{self, Write}};

#[derive(Debug, Clone)]
pub struct Control<'a> { pub add: &'a [u8], pub copy: &'a [u8], pub seek: i64 }

pub struct DiffParams { pub sort_partitions: usize, pub scan_chunk_size: Option<usize> }
#[derive(Debug)]
pub struct DiffParamsError(&'static str);
impl fmt::Display for DiffParamsError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) } }
impl Error for DiffParamsError {}
impl DiffParams {
    pub fn new(sort_partitions: usize, scan_chunk_size: Option<usize>) -> Result<Self, Box<dyn Error>> {
        if sort_partitions < 1 { return Err(Box::new(DiffParamsError("sort partitions cannot be less than 1"))) }
        if scan_chunk_size.filter(|s| *s < 1).is_some() { return Err(Box::new(DiffParamsError("scan chunk size cannot be less than 1"))) }
        Ok(Self { sort_partitions, scan_chunk_size })
    }
}
impl Default for DiffParams { fn default() -> Self { Self { sort_partitions: 1, scan_chunk_size: None } } }

pub fn simple_diff(older: &[u8], newer: &[u8], out: &mut dyn Write) -> Result<(), io::Error> {
    simple_diff_with_params(older, newer, out, &Default::default())
}
pub fn simple_diff_with_params(older: &[u8], newer: &[u8], out: &mut dyn Write, _params: &DiffParams) -> Result<(), io::Error> {
    let mut w = enc::Writer::new(out)?;
    // whole old file as `add` differences, the rest of the new one as literal copy
    let n = std::cmp::min(older.len(), newer.len());
    let add: Vec<u8> = (0..n).map(|i| newer[i].wrapping_sub(older[i])).collect();
    // two control records, so that patches have an inner boundary; the last one ends the input
    let m = n / 2;
    w.write(&Control { add: &add[..m], copy: &[], seek: 0 })?;
    w.write(&Control { add: &add[m..], copy: &newer[n..], seek: 0 })?;
    Ok(())
}

pub mod enc {
    use super::Control;
    use std::io::{self, Write};
    pub const MAGIC: u32 = 0xB1DF;
    pub const VERSION: u32 = 0x1000;
    pub struct Writer<W: Write> { w: W }
    fn varint(mut n: u64) -> Vec<u8> {
        let mut v = vec![];
        while n >= 0x80 { v.push(0x80 | (n as u8)); n >>= 7 }
        v.push(n as u8);
        v
    }
    impl<W: Write> Writer<W> {
        pub fn new(mut w: W) -> Result<Self, io::Error> {
            w.write_all(&MAGIC.to_le_bytes())?;
            w.write_all(&VERSION.to_le_bytes())?;
            Ok(Self { w })
        }
        pub fn write(&mut self, c: &Control) -> Result<(), io::Error> {
            self.w.write_all(&varint(c.add.len() as u64))?;
            self.w.write_all(c.add)?;
            self.w.write_all(&varint(c.copy.len() as u64))?;
            self.w.write_all(c.copy)?;
            self.w.write_all(&varint(((c.seek << 1) ^ (c.seek >> 63)) as u64))?;
            Ok(())
        }
        pub fn flush(&mut self) -> Result<(), io::Error> { self.w.flush() }
        pub fn into_inner(self) -> W { self.w }
    }
}
