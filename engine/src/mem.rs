use crate::expr::{self, E};
use crate::ir::V;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<BTreeMap<u32, E>>>, pub ro: bool, pub live: bool }

#[derive(Clone, Debug)]
pub enum B { C(u8), S(E) }
impl std::fmt::Debug for crate::expr::Node { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.w) } }

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false, live: true } }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym { None => false, Some(m) => m.range(off as u32..(off + n) as u32).next().is_some() }
    }
    pub fn byte(&self, off: usize) -> B {
        if let Some(m) = &self.sym { if let Some(e) = m.get(&(off as u32)) { return B::S(e.clone()) } }
        B::C(self.data[off])
    }
    pub fn set_byte(&mut self, off: usize, b: B) {
        match b {
            B::C(c) => { self.data[off] = c; if let Some(m) = &mut self.sym { m.remove(&(off as u32)); } }
            B::S(e) => { if let Some(c) = e.c() { return self.set_byte(off, B::C(c as u8)) } self.sym.get_or_insert_with(Default::default).insert(off as u32, e); }
        }
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(m) = &mut self.sym {
            let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
            for k in ks { m.remove(&k); }
            if m.is_empty() { self.sym = None }
        }
    }
    pub fn read(&self, off: usize, n: usize) -> V {
        if self.sym.is_none() || !self.has_sym(off, n) {
            let d = &self.data[off..off + n];
            return V::C(match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                1 => d[0] as u128,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => { let mut b = [0u8; 16]; b[..n].copy_from_slice(d); u128::from_le_bytes(b) }
            });
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = match self.byte(off + i) { B::C(c) => expr::cst(c as u128, 8), B::S(e) => e };
            acc = Some(match acc { None => b, Some(a) => expr::concat(&b, &a) });
        }
        let e = acc.unwrap();
        match e.c() { Some(c) => V::C(c), None => V::S(e) }
    }
    pub fn write(&mut self, off: usize, n: usize, v: &V) {
        match v {
            V::C(c) => {
                let b = c.to_le_bytes();
                self.data[off..off + n].copy_from_slice(&b[..n]);
                if self.sym.is_some() { self.clear_sym(off, n) }
            }
            V::S(e) => {
                let e = if e.w < 8 * n as u32 { expr::zext(e, 8 * n as u32) } else { e.clone() };
                for i in 0..n { self.set_byte(off + i, B::S(expr::extract(&e, 8 * i as u32, 8))) }
            }
            V::A(_) => panic!("aggregate write"),
        }
    }
    pub fn copy_from(&mut self, doff: usize, src: &Obj, soff: usize, n: usize) {
        self.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
        if self.sym.is_some() { self.clear_sym(doff, n) }
        if let Some(m) = &src.sym {
            for (k, e) in m.range(soff as u32..(soff + n) as u32) {
                self.sym.get_or_insert_with(Default::default).insert((*k as usize - soff + doff) as u32, e.clone());
            }
        }
    }
}

#[derive(Clone)]
pub struct Mem { pub ov: BTreeMap<u32, Arc<Obj>>, pub heap: Vec<Option<Arc<Obj>>>, pub free: Vec<u32>, pub base: u32 }
impl Mem {
    pub fn new(base: u32) -> Mem { Mem { ov: BTreeMap::new(), heap: vec![], free: vec![], base } }
    pub fn alloc(&mut self, n: usize) -> u32 {
        let o = Arc::new(Obj::new(n));
        if let Some(id) = self.free.pop() { self.heap[(id - self.base) as usize] = Some(o); return id }
        self.heap.push(Some(o));
        self.base + self.heap.len() as u32 - 1
    }
    pub fn release(&mut self, id: u32) { self.heap[(id - self.base) as usize] = None; self.free.push(id) }
}
