//! LLVM IR (textual, opaque pointers) reader. Function bodies are decoded on first use.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock, RwLock};
use crate::expr::{Op, Cmp, E};

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, TyId), Struct(Vec<TyId>, bool), Vec(u32, TyId), Label, Meta, Func, Other }

/// Runtime value.
#[derive(Clone)]
pub enum V { C(u128), S(E), A(Arc<[V]>) }

#[derive(Clone)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, Zext, Sext, Bit, PtrToInt, IntToPtr, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

pub const NONE: u32 = u32::MAX;

pub enum Callee { Direct(u32), Ind(Opd), Asm(String), Intrin(Intr), }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr4 { UMin, UMax, SMin, SMax }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Nop, Memcpy, Memmove, Memset, AddOv(bool), SubOv(bool), MulOv(bool), AddSat(bool), SubSat(bool),
    Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr, UMin, UMax, SMin, SMax, SCmp, UCmp, Abs,
    IsConst, Tls, Trap, Expect, Ptrmask, ObjSize, VecReduce(u8), Pmovmskb, Unsup, Float(&'static str), FToI(bool, bool), VecMm(Intr4),
}

pub enum I {
    Bin { op: Op, ty: TyId, w: u32, d: u32, a: Opd, b: Opd },
    FBin { op: FOp, ty: TyId, d: u32, a: Opd, b: Opd },
    FNeg { ty: TyId, d: u32, a: Opd },
    ICmp { p: Pred, ty: TyId, w: u32, d: u32, a: Opd, b: Opd },
    FCmp { p: String, ty: TyId, d: u32, a: Opd, b: Opd },
    Cast { c: Cast, from: TyId, to: TyId, d: u32, a: Opd },
    Load { ty: TyId, d: u32, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { d: u32, off: u32 },
    AllocaDyn { d: u32, elem: u64, n: Opd, nw: u32 },
    Select { ty: TyId, cty: TyId, d: u32, c: Opd, a: Opd, b: Opd },
    Call { d: u32, callee: Callee, args: Vec<(TyId, Opd)>, ret: TyId, normal: u32 },
    Extract { d: u32, a: Opd, path: Vec<u32> },
    Insert { d: u32, ty: TyId, a: Opd, b: Opd, path: Vec<u32> },
    ExtractEl { d: u32, a: Opd, i: Opd },
    InsertEl { d: u32, a: Opd, b: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Vec<i64> },
    Rmw { op: Rmw, ty: TyId, d: u32, p: Opd, v: Opd },
    CmpXchg { ty: TyId, d: u32, p: Opd, a: Opd, b: Opd },
    Freeze { d: u32, a: Opd },
    Nop,
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(TyId, Opd)>),
    Unreachable,
    Unsup(String),
}
pub struct Phi { pub d: u32, pub inc: Vec<(u32, Opd)> }
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<I> }
pub struct Body { pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub stack: u32, pub id: u32 }

pub struct FuncDecl { pub name: &'static str, pub pretty: &'static str, pub ret: TyId, pub body_src: Option<&'static str>, pub body: OnceLock<Arc<Body>>, pub params_src: &'static str, pub noreturn: bool }
pub struct Global { pub name: &'static str, pub ty: TyId, pub init_src: Option<&'static str>, pub constant: bool, pub tls: bool, pub align: u32, pub init: OnceLock<Arc<crate::mem::Obj>> }

pub struct Types { pub v: Vec<Ty>, map: HashMap<Ty, TyId>, named: HashMap<String, TyId> }
impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.map.get(&t) { return *i }
        let i = self.v.len() as u32;
        self.v.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.v[t as usize] {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func | Ty::Other => (0, 1),
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let s = b.next_power_of_two(); (s, s.min(16)) }
            Ty::Ptr => (8, 8), Ty::F32 => (4, 4), Ty::F64 => (8, 8),
            Ty::Arr(n, e) => { let (s, a) = self.size_align(*e); (s * n, a) }
            Ty::Vec(n, e) => { let (s, _) = self.size_align(*e); let t = match &self.v[*e as usize] { Ty::Int(1) => ((*n as u64 + 7) / 8).next_power_of_two(), _ => s * *n as u64 }; (t, t.next_power_of_two()) }
            Ty::Struct(fs, packed) => {
                let mut off = 0; let mut al = 1;
                for f in fs { let (s, a) = self.size_align(*f); let a = if *packed { 1 } else { a }; off = (off + a - 1) / a * a; off += s; al = al.max(a) }
                ((off + al - 1) / al * al, al)
            }
        }
    }
    pub fn field_offs(&self, t: TyId) -> Vec<u32> {
        match &self.v[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                fs.iter().map(|f| { let (s, a) = self.size_align(*f); let a = if *packed { 1 } else { a }; off = (off + a - 1) / a * a; let o = off; off += s; o as u32 }).collect()
            }
            _ => vec![],
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> u64 {
        match &self.v[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, f) in fs.iter().enumerate() {
                    let (s, a) = self.size_align(*f); let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if j == i { return off }
                    off += s;
                }
                panic!("field_off")
            }
            _ => panic!("field_off of non-struct"),
        }
    }
    pub fn bits(&self, t: TyId) -> u32 { match &self.v[t as usize] { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
}

pub struct Module {
    pub types: RwLock<Types>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<Global>,
    pub syms: HashMap<&'static str, u32>, // -> object id
    pub nf: u32,
    /// function address space: object id = FBASE + func index ; globals: GBASE + index
    pub named: HashMap<String, TyId>,
}
pub const FBASE: u32 = 1;
pub fn addr(id: u32, off: u64) -> u128 { ((id as u128) << 32) | off as u128 }

impl Module {
    pub fn gbase(&self) -> u32 { FBASE + self.funcs.len() as u32 }
    pub fn heap_base(&self) -> u32 { self.gbase() + self.globals.len() as u32 }
    pub fn func_at(&self, a: u128) -> Option<u32> {
        let id = (a >> 32) as u32;
        if a & 0xffff_ffff == 0 && id >= FBASE && id < self.gbase() { Some(id - FBASE) } else { None }
    }
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read .ll").into_boxed_str());
        let mut types = Types { v: vec![], map: HashMap::new(), named: HashMap::new() };
        let mut funcs: Vec<FuncDecl> = vec![];
        let mut globals: Vec<Global> = vec![];
        struct Pend { name: &'static str, rest: &'static str }
        let mut gl: Vec<Pend> = vec![];
        let mut pos = 0;
        let b = text.as_bytes();
        let mut last_comment = "";
        let mut named_src: Vec<(&'static str, &'static str)> = vec![];
        let mut aliases: Vec<(&'static str, &'static str)> = vec![];
        while pos < b.len() {
            let eol = memchr(b, b'\n', pos).unwrap_or(b.len());
            let line = &text[pos..eol];
            let mut next = eol + 1;
            match line.as_bytes().first() {
                Some(b';') => if !line[1..].trim().starts_with("Function Attrs") { last_comment = line[1..].trim() },
                Some(b'%') => { if let Some(i) = line.find(" = type ") { named_src.push((&line[1..i], &line[i + 8..])) } }
                Some(b'@') => {
                    let mut c = Cur::new(line);
                    c.eat_ch(b'@');
                    let name = c.name();
                    c.ws(); c.eat_ch(b'=');
                    c.ws();
                    let rest = &line[c.p..];
                    if rest.contains(" alias ") || rest.starts_with("alias ") { aliases.push((name, rest)) } else { gl.push(Pend { name, rest }) }
                }
                Some(b'd') if line.starts_with("define ") || line.starts_with("declare ") => {
                    let is_def = line.starts_with("define");
                    let mut body = None;
                    if is_def {
                        // find "\n}\n"
                        let mut q = eol + 1;
                        loop {
                            let e2 = memchr(b, b'\n', q).unwrap_or(b.len());
                            if e2 - q == 1 && b[q] == b'}' { break }
                            q = e2 + 1;
                            if q >= b.len() { break }
                        }
                        body = Some(&text[eol + 1..q]);
                        next = q + 2;
                    }
                    let mut c = Cur::new(line);
                    c.word();
                    // find '@'
                    let at = find_at(line);
                    let mut c2 = Cur { s: line.as_bytes(), t: line, p: at + 1 };
                    let name = c2.name();
                    let ps = c2.p;
                    let pe = match_paren(line.as_bytes(), ps);
                    funcs.push(FuncDecl { name, pretty: if is_def && !last_comment.is_empty() { last_comment } else { name }, ret: 0,
                        body_src: body, body: OnceLock::new(), params_src: &line[ps + 1..pe], noreturn: false });
                    // return type parsed later (needs named types)
                    funcs.last_mut().unwrap().ret = at as u32; // temp
                    last_comment = "";
                    let _ = c;
                }
                _ => {}
            }
            if line.is_empty() { last_comment = "" }
            pos = next;
        }
        let named_names: Vec<_> = named_src.iter().map(|x| x.0.trim_matches('"').to_string()).collect();
        // named types: iterate until resolved
        for _ in 0..4 {
            for (i, (_, src)) in named_src.iter().enumerate() {
                let mut c = Cur::new(src);
                let t = c.ty(&mut types);
                types.named.insert(named_names[i].clone(), t);
            }
        }
        // function return types are taken from call sites; keep Void here
        for f in funcs.iter_mut() { f.ret = 0 }
        let mut syms = HashMap::new();
        for (i, f) in funcs.iter().enumerate() { syms.insert(f.name, FBASE + i as u32); }
        let gb = FBASE + funcs.len() as u32;
        for p in gl.into_iter() {
            let mut c = Cur::new(p.rest);
            let mut tls = false;
            let mut constant = false;
            let mut ext = false;
            loop {
                c.ws();
                let save = c.p;
                let w = c.word();
                match w {
                    "thread_local" => { tls = true; c.ws(); if c.peek() == b'(' { let e = match_paren(c.s, c.p); c.p = e + 1 } }
                    "constant" => { constant = true; break }
                    "global" => break,
                    "external" | "extern_weak" => ext = true,
                    "addrspace" => { let e = match_paren(c.s, c.p); c.p = e + 1 }
                    "" => panic!("global syntax: {}", p.rest),
                    _ => { let _ = save; }
                }
            }
            let ty = c.ty(&mut types);
            c.ws();
            let init = if ext { None } else { Some(&p.rest[c.p..]) };
            let mut al = 1u32;
            if let Some(i) = p.rest.rfind(", align ") { al = p.rest[i + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1) }
            syms.insert(p.name, gb + globals.len() as u32);
            globals.push(Global { name: p.name, ty, init_src: init, constant, tls, align: al, init: OnceLock::new() });
        }
        for (n, rest) in aliases {
            // alias ty, ptr @target
            if let Some(i) = rest.rfind("@") { let mut c = Cur { s: rest.as_bytes(), t: rest, p: i + 1 }; let t = c.name(); if let Some(id) = syms.get(t).copied() { syms.insert(n, id); } }
        }
        let named = types.named.clone();
        let nf = funcs.len() as u32;
        Module { types: RwLock::new(types), funcs, globals, syms, nf, named }
    }

    pub fn body(&self, f: u32) -> Arc<Body> {
        let fd = &self.funcs[f as usize];
        fd.body.get_or_init(|| {
            let mut t = self.types.write().unwrap_or_else(|e| e.into_inner());
            Arc::new(parse_body(self, &mut t, f))
        }).clone()
    }
    pub fn global_init(&self, g: u32) -> Arc<crate::mem::Obj> {
        let gd = &self.globals[g as usize];
        gd.init.get_or_init(|| {
            let mut t = self.types.write().unwrap_or_else(|e| e.into_inner());
            let (sz, _) = t.size_align(gd.ty);
            let mut data = vec![0u8; sz as usize];
            if let Some(src) = gd.init_src {
                let mut c = Cur::new(src);
                c.const_bytes(self, &mut t, gd.ty, &mut data, 0);
            }
            Arc::new(crate::mem::Obj { data, sym: None, ro: gd.constant, live: true })
        }).clone()
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> Option<usize> { b[from..].iter().position(|x| *x == c).map(|i| i + from) }

fn find_at(line: &str) -> usize {
    // first '@' outside of quotes and parens depth for attributes is always the function name
    let b = line.as_bytes();
    let mut i = 0; let mut q = false;
    while i < b.len() { match b[i] { b'"' => q = !q, b'@' if !q => return i, _ => {} } i += 1 }
    panic!("no @ in define: {}", line)
}
fn match_paren(b: &[u8], open: usize) -> usize {
    let mut d = 0; let mut i = open; let mut q = false;
    while i < b.len() {
        match b[i] { b'"' => q = !q, b'(' | b'[' | b'{' if !q => d += 1, b')' | b']' | b'}' if !q => { d -= 1; if d == 0 { return i } } _ => {} }
        i += 1
    }
    panic!("unbalanced")
}

pub struct Cur<'a> { s: &'a [u8], t: &'a str, pub p: usize }
impl<'a> Cur<'a> {
    pub fn new(t: &'a str) -> Cur<'a> { Cur { s: t.as_bytes(), t, p: 0 } }
    fn peek(&self) -> u8 { *self.s.get(self.p).unwrap_or(&0) }
    fn ws(&mut self) { while matches!(self.peek(), b' ' | b'\t') { self.p += 1 } }
    fn wsn(&mut self) { while matches!(self.peek(), b' ' | b'\t' | b'\n') { self.p += 1 } }
    fn eat_ch(&mut self, c: u8) -> bool { self.ws(); if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat_ch(c) { panic!("expected '{}' at: {}", c as char, self.ctx()) } }
    fn ctx(&self) -> &str { let mut e = (self.p + 160).min(self.t.len()); while !self.t.is_char_boundary(e) { e -= 1 } &self.t[self.p.min(e)..e] }
    fn eol(&mut self) { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1 } self.p += 1 }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while matches!(self.peek(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.') { self.p += 1 }
        &self.t[st..self.p]
    }
    fn peek_word(&mut self) -> &'a str { self.ws(); let s = self.p; let w = self.word(); self.p = s; w }
    fn name(&mut self) -> &'a str {
        if self.peek() == b'"' {
            let st = self.p + 1; self.p += 1;
            while self.peek() != b'"' { self.p += 1 }
            self.p += 1;
            return &self.t[st..self.p - 1];
        }
        let st = self.p;
        while matches!(self.peek(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'$' | b'-') { self.p += 1 }
        &self.t[st..self.p]
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let st = self.p;
        if self.peek() == b'-' { self.p += 1 }
        while self.peek().is_ascii_digit() { self.p += 1 }
        let s = &self.t[st..self.p];
        s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int at {}", self.ctx())))
    }
    pub fn ty(&mut self, t: &mut Types) -> TyId {
        self.ws();
        let r = match self.peek() {
            b'[' => { self.p += 1; let n = self.int() as u64; self.ws(); assert_eq!(self.word(), "x"); let e = self.ty(t); self.expect(b']'); t.intern(Ty::Arr(n, e)) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let f = self.ty_list(t, b'}'); self.expect(b'>'); t.intern(Ty::Struct(f, true)) }
                else { let n = self.int() as u32; self.ws(); assert_eq!(self.word(), "x"); let e = self.ty(t); self.expect(b'>'); t.intern(Ty::Vec(n, e)) }
            }
            b'{' => { self.p += 1; let f = self.ty_list(t, b'}'); t.intern(Ty::Struct(f, false)) }
            b'%' => { self.p += 1; let n = self.name(); match t.named.get(n) { Some(x) => *x, None => t.intern(Ty::Other) } }
            _ => {
                let w = self.word();
                match w {
                    "void" => t.intern(Ty::Void), "ptr" => t.intern(Ty::Ptr), "float" => t.intern(Ty::F32), "double" => t.intern(Ty::F64),
                    "label" => t.intern(Ty::Label), "metadata" => t.intern(Ty::Meta), "opaque" | "token" | "x86_fp80" | "half" | "fp128" => t.intern(Ty::Other),
                    _ if w.starts_with('i') => match w[1..].parse::<u32>() { Ok(n) => t.intern(Ty::Int(n)), Err(_) => panic!("type {} at {}", w, self.ctx()) },
                    _ => panic!("type '{}' at {}", w, self.ctx()),
                }
            }
        };
        // function type
        self.ws();
        if self.peek() == b'(' && self.p > 0 {
            // only in call/function type positions: caller handles
        }
        r
    }
    fn ty_list(&mut self, t: &mut Types, end: u8) -> Vec<TyId> {
        let mut f = vec![];
        loop { self.ws(); if self.eat_ch(end) { return f } f.push(self.ty(t)); self.eat_ch(b','); }
    }
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            match self.peek() {
                b'"' => { self.name(); if self.peek() == b'=' { self.p += 1; self.name(); } }
                b'a'..=b'z' | b'A'..=b'Z' => {
                    let w = self.peek_word();
                    match w {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat" | "asm" | "none" | "c" | "blockaddress" | "addrspacecast" | "zext" | "sext" => return,
                        _ if w.starts_with("f0x") => return,
                        _ => {}
                    }
                    if w == "noundef" || w.is_empty() { self.word(); continue }
                    self.word();
                    self.ws_nosp_paren();
                    if w == "align" { self.ws(); if self.peek().is_ascii_digit() { self.int(); } }
                }
                _ => return,
            }
        }
    }
    fn ws_nosp_paren(&mut self) { if self.peek() == b'(' { self.p = match_paren(self.s, self.p) + 1 } }

    /// Constant (or local) of type `ty`.
    fn val(&mut self, m: &Module, t: &mut Types, ty: TyId, lm: &mut Locals) -> Opd {
        self.ws();
        if self.peek() == b'%' { self.p += 1; let n = self.name(); return Opd::R(lm.reg(n)) }
        Opd::K(self.konst(m, t, ty))
    }
    fn zero(t: &Types, ty: TyId) -> V {
        match &t.v[ty as usize] {
            Ty::Arr(n, e) => { let z = Self::zero(t, *e); V::A((0..*n).map(|_| z.clone()).collect::<Vec<_>>().into()) }
            Ty::Vec(n, e) => { let z = Self::zero(t, *e); V::A((0..*n).map(|_| z.clone()).collect::<Vec<_>>().into()) }
            Ty::Struct(f, _) => V::A(f.iter().map(|x| Self::zero(t, *x)).collect::<Vec<_>>().into()),
            Ty::Int(w) if *w > 128 => V::A(vec![V::C(0), V::C(0)].into()),
            _ => V::C(0),
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at opening quote
        let mut out = vec![];
        self.p += 1;
        loop {
            let c = self.peek();
            self.p += 1;
            match c {
                b'"' => return out,
                b'\\' => {
                    if self.peek() == b'\\' { out.push(b'\\'); self.p += 1 } else {
                        out.push(u8::from_str_radix(&self.t[self.p..self.p + 2], 16).unwrap()); self.p += 2
                    }
                }
                _ => out.push(c),
            }
        }
    }
    pub fn konst(&mut self, m: &Module, t: &mut Types, ty: TyId) -> V {
        self.ws();
        match self.peek() {
            b'@' => { self.p += 1; let n = self.name(); let id = *m.syms.get(n).unwrap_or_else(|| panic!("symbol {}", n)); return V::C(addr(id, 0)) }
            b'-' | b'+' | b'0'..=b'9' => {
                if matches!(t.v[ty as usize], Ty::F32 | Ty::F64) { return V::C(self.float(matches!(t.v[ty as usize], Ty::F32))) }
                let neg = self.peek() == b'-';
                let v = self.int();
                if let Ty::Int(w) = t.v[ty as usize] { if w > 128 { return V::A(vec![V::C(v as u128), V::C(if neg { crate::expr::mask(w - 128) } else { 0 })].into()) } }
                return V::C(v as u128 & crate::expr::mask(t.bits(ty)));
            }
            b'[' | b'{' => {
                let close = if self.peek() == b'[' { b']' } else { b'}' };
                self.p += 1;
                return V::A(self.const_list(m, t, close).into());
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let v = self.const_list(m, t, b'}'); self.expect(b'>'); return V::A(v.into()) }
                return V::A(self.const_list(m, t, b'>').into());
            }
            b'"' => { let v = self.cstr(); return V::A(v.into_iter().map(|b| V::C(b as u128)).collect::<Vec<_>>().into()) }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => V::C(1), "false" => V::C(0), "null" | "none" => V::C(0),
            "undef" | "poison" | "zeroinitializer" => Self::zero(t, ty),
            "c" => { let v = self.cstr(); V::A(v.into_iter().map(|b| V::C(b as u128)).collect::<Vec<_>>().into()) }
            "splat" => {
                self.expect(b'('); let ety = self.ty(t); let v = self.konst(m, t, ety); self.expect(b')');
                let n = match &t.v[ty as usize] { Ty::Vec(n, _) => *n as u64, Ty::Arr(n, _) => *n, _ => panic!() };
                V::A((0..n).map(|_| v.clone()).collect::<Vec<_>>().into())
            }
            "getelementptr" => {
                self.skip_attrs();
                while self.peek() != b'(' { self.word(); self.ws_nosp_paren2(); self.ws() }
                self.expect(b'(');
                let sty = self.ty(t);
                self.expect(b',');
                self.ty(t);
                let V::C(base) = ({ let p = t.intern(Ty::Ptr); self.konst(m, t, p) }) else { panic!() };
                let mut off = 0i64; let mut cur = sty; let mut first = true;
                while self.eat_ch(b',') {
                    self.skip_attrs_inrange();
                    let ity = self.ty(t);
                    let V::C(i) = self.konst(m, t, ity) else { panic!() };
                    let i = crate::expr::sx(i, t.bits(ity)) as i64;
                    if first { off += i * t.size_align(sty).0 as i64; first = false } else {
                        match t.v[cur as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { off += i * t.size_align(e).0 as i64; cur = e }
                            Ty::Struct(f, _) => { off += t.field_off(cur, i as usize) as i64; cur = f[i as usize] }
                            _ => panic!("const gep"),
                        }
                    }
                }
                self.expect(b')');
                V::C((base as u64).wrapping_add(off as u64) as u128)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                while self.peek() != b'(' { self.word(); self.ws() }
                self.expect(b'(');
                let f = self.ty(t); let v = self.konst(m, t, f);
                self.ws(); assert_eq!(self.word(), "to");
                let to = self.ty(t); self.expect(b')');
                match v { V::C(x) => { let x = if w == "sext" { crate::expr::sx(x, t.bits(f)) as u128 } else { x }; V::C(x & crate::expr::mask(t.bits(to).max(1))) } v => v }
            }
            "add" | "sub" | "xor" => {
                while self.peek() != b'(' { self.word(); self.ws() }
                self.expect(b'(');
                let f = self.ty(t); let V::C(a) = self.konst(m, t, f) else { panic!() }; self.expect(b',');
                let f2 = self.ty(t); let V::C(b) = self.konst(m, t, f2) else { panic!() }; self.expect(b')');
                V::C(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & crate::expr::mask(t.bits(f)))
            }
            _ if w.starts_with("f0x") || w.starts_with("0x") => {
                V::C(u128::from_str_radix(&w[w.find('x').unwrap() + 1..], 16).unwrap())
            }
            _ => panic!("constant '{}' at {}", w, self.ctx()),
        }
    }
    fn ws_nosp_paren2(&mut self) {
        // inrange(-8, 16) directly after word
    }
    fn skip_attrs_inrange(&mut self) { self.ws(); if self.peek_word() == "inrange" { self.word(); self.ws_nosp_paren(); } }
    fn float(&mut self, f32_: bool) -> u128 {
        self.ws();
        // +inf, -inf, +qnan, -qnan, +nan(0x..), +snan(0x..)
        let neg = self.peek() == b'-';
        if matches!(self.peek(), b'-' | b'+') && self.s.get(self.p + 1).map_or(false, |c| c.is_ascii_alphabetic()) {
            self.p += 1;
            let w = self.word().to_string();
            let mut pay = 0u64;
            if self.peek() == b'(' { self.p += 1; let h = self.word(); pay = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap(); self.expect(b')') }
            let (q32, q64) = (0x7fc0_0000u64, 0x7ff8_0000_0000_0000u64);
            let b = match (w.as_str(), f32_) {
                ("inf", true) => 0x7f80_0000, ("inf", false) => 0x7ff0_0000_0000_0000,
                ("snan", true) => 0x7f80_0000 | pay, ("snan", false) => 0x7ff0_0000_0000_0000 | pay,
                ("qnan" | "nan", true) => q32 | pay, ("qnan" | "nan", false) => q64 | pay,
                _ => panic!("float constant {}", w),
            };
            return (if neg { b | if f32_ { 1 << 31 } else { 1 << 63 } } else { b }) as u128;
        }
        let st = self.p;
        while matches!(self.peek(), b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E' | b'x' | b'a'..=b'd' | b'A'..=b'D' | b'f' | b'F') { self.p += 1 }
        let s = &self.t[st..self.p];
        if let Some(h) = s.strip_prefix("0x") {
            let bits = u64::from_str_radix(h, 16).unwrap();
            return if f32_ { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 };
        }
        let v: f64 = s.parse().unwrap();
        if f32_ { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
    }
    fn const_list(&mut self, m: &Module, t: &mut Types, end: u8) -> Vec<V> {
        let mut out = vec![];
        loop {
            self.ws();
            if self.eat_ch(end) { return out }
            let ty = self.ty(t);
            out.push(self.konst(m, t, ty));
            self.eat_ch(b',');
        }
    }
    /// Write an initializer straight into bytes.
    fn const_bytes(&mut self, m: &Module, t: &mut Types, ty: TyId, out: &mut [u8], off: usize) {
        self.ws();
        let tt = t.v[ty as usize].clone();
        match (&tt, self.peek()) {
            (Ty::Arr(_, e), b'[') => {
                self.p += 1;
                let sz = t.size_align(*e).0 as usize;
                let mut i = 0;
                loop { self.ws(); if self.eat_ch(b']') { return } let et = self.ty(t); self.const_bytes(m, t, et, out, off + i * sz); i += 1; self.eat_ch(b','); }
            }
            (Ty::Arr(..), b'c') => { self.p += 1; let v = self.cstr(); out[off..off + v.len()].copy_from_slice(&v) }
            (Ty::Struct(_, packed), b'{' | b'<') => {
                self.p += 1; if *packed { self.expect(b'{') }
                let mut i = 0;
                let offs = t.field_offs(ty);
                loop {
                    self.ws();
                    if self.eat_ch(b'}') { if *packed { self.expect(b'>') } return }
                    let et = self.ty(t);
                    let fo = offs[i] as usize;
                    self.const_bytes(m, t, et, out, off + fo); i += 1; self.eat_ch(b',');
                }
            }
            _ => {
                let v = self.konst(m, t, ty);
                put(t, ty, &v, out, off);
            }
        }
        fn put(t: &Types, ty: TyId, v: &V, out: &mut [u8], off: usize) {
            match v {
                V::C(c) => { let n = t.size_align(ty).0 as usize; let b = c.to_le_bytes(); for i in 0..n.min(16) { out[off + i] = b[i] } }
                V::A(vs) => match &t.v[ty as usize] {
                    Ty::Arr(_, e) | Ty::Vec(_, e) => { let sz = t.size_align(*e).0 as usize; for (i, x) in vs.iter().enumerate() { put(t, *e, x, out, off + i * sz) } }
                    Ty::Struct(f, _) => { let fo = t.field_offs(ty); for (i, x) in vs.iter().enumerate() { put(t, f[i], x, out, off + fo[i] as usize) } }
                    _ => panic!(),
                },
                V::S(_) => unreachable!(),
            }
        }
    }
}

struct Locals { regs: HashMap<String, u32>, n: u32 }
impl Locals {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r }
        let r = self.n; self.n += 1; self.regs.insert(n.to_string(), r); r
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    let n = n.strip_prefix("llvm.")?;
    let p = |s: &str| n.starts_with(s);
    Some(if p("lifetime.") || p("experimental.noalias") || p("assume") || p("dbg.") || p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("invariant.") { Intr::Nop }
    else if p("memcpy.") || p("memcpy.inline") { Intr::Memcpy } else if p("memmove.") { Intr::Memmove } else if p("memset.") { Intr::Memset }
    else if p("uadd.with") { Intr::AddOv(false) } else if p("sadd.with") { Intr::AddOv(true) }
    else if p("usub.with") { Intr::SubOv(false) } else if p("ssub.with") { Intr::SubOv(true) }
    else if p("umul.with") { Intr::MulOv(false) } else if p("smul.with") { Intr::MulOv(true) }
    else if p("uadd.sat") { Intr::AddSat(false) } else if p("sadd.sat") { Intr::AddSat(true) }
    else if p("usub.sat") { Intr::SubSat(false) } else if p("ssub.sat") { Intr::SubSat(true) }
    else if p("ctlz.") { Intr::Ctlz } else if p("cttz.") { Intr::Cttz } else if p("ctpop.") { Intr::Ctpop }
    else if p("bswap.") { Intr::Bswap } else if p("bitreverse.") { Intr::Bitrev } else if p("fshl.") { Intr::Fshl } else if p("fshr.") { Intr::Fshr }
    else if p("umin.") { Intr::UMin } else if p("umax.") { Intr::UMax } else if p("smin.") { Intr::SMin } else if p("smax.") { Intr::SMax }
    else if p("scmp.") { Intr::SCmp } else if p("ucmp.") { Intr::UCmp } else if p("abs.") { Intr::Abs }
    else if p("is.constant") { Intr::IsConst } else if p("threadlocal.address") { Intr::Tls } else if p("trap") || p("ubsantrap") { Intr::Trap }
    else if let Some(f) = ["fabs.", "trunc.", "floor.", "ceil.", "round.", "roundeven.", "rint.", "nearbyint.", "copysign.", "sqrt.", "powi.", "pow.", "minimumnum.", "maximumnum.", "minnum.", "maxnum.", "log10.", "log2.", "log.", "exp.", "exp2.", "sin.", "cos.", "fma.", "fmuladd."].iter().find(|f| p(f)) { Intr::Float(f) }
    else if p("fptoui.sat.") { Intr::FToI(false, n.ends_with("f32")) } else if p("fptosi.sat.") { Intr::FToI(true, n.ends_with("f32")) }
    else if p("expect.") { Intr::Expect } else if p("ptrmask.") { Intr::Ptrmask } else if p("objectsize.") { Intr::ObjSize }
    else if p("x86.sse2.pmovmskb") { Intr::Pmovmskb }
    else if p("vector.reduce.or") { Intr::VecReduce(0) } else if p("vector.reduce.and") { Intr::VecReduce(1) } else if p("vector.reduce.add") { Intr::VecReduce(2) } else if p("vector.reduce.xor") { Intr::VecReduce(3) }
    else if p("vector.reduce.umax") { Intr::VecMm(Intr4::UMax) } else if p("vector.reduce.umin") { Intr::VecMm(Intr4::UMin) } else if p("vector.reduce.smax") { Intr::VecMm(Intr4::SMax) } else if p("vector.reduce.smin") { Intr::VecMm(Intr4::SMin) }
    else { Intr::Unsup })
}

fn parse_body(m: &Module, t: &mut Types, f: u32) -> Body {
    let fd = &m.funcs[f as usize];
    let src = fd.body_src.expect("body");
    let mut lm = Locals { regs: HashMap::new(), n: 0 };
    let mut params = vec![];
    let mut unnamed = 0;
    {
        let mut c = Cur::new(fd.params_src);
        loop {
            c.ws();
            if c.p >= c.s.len() { break }
            if c.t[c.p..].starts_with("...") { break }
            c.ty(t);
            c.skip_attrs();
            if c.peek() == b'%' {
                c.p += 1;
                let n = c.name().to_string();
                if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1 }
                params.push(lm.reg(&n));
            } else { params.push(lm.reg(&format!("{}", unnamed))); unnamed += 1 }
            c.eat_ch(b',');
        }
    }
    // first pass: block labels
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut first = true;
    for line in src.split('\n') {
        let b = line.as_bytes();
        if b.is_empty() || b[0] == b';' { continue }
        if b[0] != b' ' && b[0] != b'\t' {
            // label
            let mut c = Cur::new(line);
            let n = c.name().to_string();
            if c.peek() == b':' { let i = labels.len() as u32; labels.insert(n, i); first = false; continue }
        }
        if first { labels.insert(format!("{}", unnamed), 0); first = false }
    }
    let mut blocks: Vec<Block> = vec![];
    let mut cur: Option<Block> = None;
    let mut stack: u64 = 0;
    let mut c = Cur::new(src);
    let ptr_t = t.intern(Ty::Ptr);
    macro_rules! lab { ($c:expr) => {{ $c.ws(); if $c.peek_word() == "label" { $c.word(); } $c.expect(b'%'); let n = $c.name(); *labels.get(n).unwrap_or_else(|| panic!("label {} in {}", n, fd.name)) }} }
    loop {
        // start of line
        if c.p >= c.s.len() { break }
        let lb = c.peek();
        if lb == b'\n' { c.p += 1; continue }
        if lb == b';' { c.eol(); continue }
        if lb != b' ' && lb != b'\t' {
            let save = c.p;
            let _n = c.name();
            if c.peek() == b':' {
                if let Some(b) = cur.take() { blocks.push(b) }
                cur = Some(Block { phis: vec![], insts: vec![] });
                c.eol();
                continue;
            }
            c.p = save;
        }
        if cur.is_none() { cur = Some(Block { phis: vec![], insts: vec![] }) }
        c.ws();
        if c.peek() == b'\n' { c.p += 1; continue }
        if c.peek() == b';' || c.peek() == b'#' { c.eol(); continue }
        let blk = cur.as_mut().unwrap();
        let mut d = NONE;
        if c.peek() == b'%' { c.p += 1; let n = c.name().to_string(); d = lm.reg(&n); c.expect(b'='); }
        let line_start = c.p;
        let op = c.word();
        macro_rules! flags { () => { loop { let s = c.p; let w = c.word(); match w { "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => {} "inrange" => c.ws_nosp_paren(), _ => { c.p = s; break } } } } }
        let bop = |o: &str| Some(match o { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, _ => return None });
        let fop = |o: &str| Some(match o { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, "frem" => FOp::Rem, _ => return None });
        let cop = |o: &str| Some(match o { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "bitcast" => Cast::Bit, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, _ => return None });
        fn elem(t: &Types, ty: TyId) -> TyId { match &t.v[ty as usize] { Ty::Vec(_, e) => *e, _ => ty } }
        if let Some(o) = bop(op) {
            flags!();
            let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let b = c.val(m, t, ty, &mut lm);
            let w = t.bits(elem(t, ty));
            blk.insts.push(I::Bin { op: o, ty, w, d, a, b });
            c.eol(); continue;
        }
        if let Some(o) = fop(op) {
            flags!();
            let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let b = c.val(m, t, ty, &mut lm);
            blk.insts.push(I::FBin { op: o, ty, d, a, b });
            c.eol(); continue;
        }
        if let Some(o) = cop(op) {
            flags!();
            let from = c.ty(t); let a = c.val(m, t, from, &mut lm); c.ws(); let w = c.word(); assert_eq!(w, "to");
            let to = c.ty(t);
            blk.insts.push(I::Cast { c: o, from, to, d, a });
            c.eol(); continue;
        }
        match op {
            "fneg" => { flags!(); let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); blk.insts.push(I::FNeg { ty, d, a }) }
            "icmp" => {
                flags!();
                let p = match c.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let b = c.val(m, t, ty, &mut lm);
                let w = t.bits(elem(t, ty));
                blk.insts.push(I::ICmp { p, ty, w, d, a, b });
            }
            "fcmp" => {
                flags!();
                let p = c.word().to_string();
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let b = c.val(m, t, ty, &mut lm);
                blk.insts.push(I::FCmp { p, ty, d, a, b });
            }
            "load" => {
                flags!();
                let ty = c.ty(t); c.expect(b','); c.ty(t); let p = c.val(m, t, ptr_t, &mut lm);
                blk.insts.push(I::Load { ty, d, p });
            }
            "store" => {
                flags!();
                let ty = c.ty(t); let v = c.val(m, t, ty, &mut lm); c.expect(b','); c.ty(t); let p = c.val(m, t, ptr_t, &mut lm);
                blk.insts.push(I::Store { ty, v, p });
            }
            "getelementptr" => {
                flags!();
                let sty = c.ty(t); c.expect(b','); c.ty(t);
                let base = c.val(m, t, ptr_t, &mut lm);
                let mut off = 0i64; let mut idx = vec![]; let mut curt = sty; let mut first = true;
                while c.eat_ch(b',') {
                    c.ws();
                    if c.peek() == b'!' { break }
                    let ity = c.ty(t); let v = c.val(m, t, ity, &mut lm); let iw = t.bits(ity);
                    let stride = if first { first = false; t.size_align(sty).0 as i64 } else {
                        match t.v[curt as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { curt = e; t.size_align(e).0 as i64 }
                            Ty::Struct(fl, _) => {
                                let Opd::K(V::C(i)) = v else { panic!("struct gep") };
                                off += t.field_off(curt, i as usize) as i64; curt = fl[i as usize]; continue
                            }
                            _ => panic!("gep type in {}", fd.name),
                        }
                    };
                    match v { Opd::K(V::C(i)) => off = off.wrapping_add((crate::expr::sx(i, iw) as i64).wrapping_mul(stride)), v => idx.push((v, iw, stride)) }
                }
                blk.insts.push(I::Gep { d, base, off, idx });
            }
            "alloca" => {
                flags!();
                if c.peek_word() == "inalloca" { c.word(); }
                let ty = c.ty(t);
                let (sz, al) = t.size_align(ty);
                let mut al = al; let mut dynn = None;
                while c.eat_ch(b',') {
                    c.ws();
                    if c.peek() == b'!' { break }
                    if c.peek_word() == "align" { c.word(); al = al.max(c.int() as u64) } else if c.peek_word() == "addrspace" { c.word(); c.ws_nosp_paren() } else {
                        let ity = c.ty(t); let v = c.val(m, t, ity, &mut lm); dynn = Some((v, t.bits(ity)));
                    }
                }
                match dynn {
                    None | Some((Opd::K(V::C(1)), _)) => {
                        stack = (stack + al - 1) / al * al;
                        blk.insts.push(I::Alloca { d, off: stack as u32 });
                        stack += sz.max(1) + 16;
                    }
                    Some((n, nw)) => blk.insts.push(I::AllocaDyn { d, elem: sz, n, nw }),
                }
            }
            "select" => {
                flags!();
                let cty = c.ty(t); let cv = c.val(m, t, cty, &mut lm); c.expect(b','); let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); c.ty(t); let b = c.val(m, t, ty, &mut lm);
                blk.insts.push(I::Select { ty, cty, d, c: cv, a, b });
            }
            "phi" => {
                flags!();
                let ty = c.ty(t);
                let mut inc = vec![];
                loop {
                    c.expect(b'[');
                    let v = c.val(m, t, ty, &mut lm); c.expect(b',');
                    c.ws(); c.expect(b'%'); let n = c.name(); let l = *labels.get(n).unwrap_or_else(|| panic!("phi label {} in {}", n, fd.name));
                    c.expect(b']');
                    inc.push((l, v));
                    if !c.eat_ch(b',') { break }
                    c.ws(); if c.peek() == b'!' { break }
                }
                blk.phis.push(Phi { d, inc });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && !inv { let w = c.word(); assert_eq!(w, "call") }
                flags!();
                // calling convention + return attributes, until a type
                loop {
                    c.ws();
                    let s = c.p;
                    match c.peek() { b'[' | b'{' | b'<' | b'%' => break, b'"' => { c.name(); continue } _ => {} }
                    let w = c.word();
                    match w {
                        "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" => { c.p = s; break }
                        _ if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) => { c.p = s; break }
                        "align" => { c.ws(); if c.peek().is_ascii_digit() { c.int(); } else { c.ws_nosp_paren() } }
                        "cc" => { c.int(); }
                        "" => panic!("call syntax in {}: {}", fd.name, c.ctx()),
                        _ => c.ws_nosp_paren(),
                    }
                }
                let ret = c.ty(t);
                c.ws();
                if c.peek() == b'(' { c.p = match_paren(c.s, c.p) + 1; c.ws() }
                let callee;
                if c.peek() == b'@' {
                    c.p += 1;
                    let n = c.name();
                    if let Some(i) = intrinsic(n) { callee = Callee::Intrin(i) } else {
                        let id = *m.syms.get(n).unwrap_or_else(|| panic!("callee {}", n));
                        callee = Callee::Direct(id - FBASE);
                    }
                } else if c.peek_word() == "asm" {
                    c.word();
                    let s = c.p;
                    while c.peek() != b'"' { c.p += 1 }
                    let a = c.name().to_string(); c.expect(b','); c.ws(); c.name();
                    let _ = s;
                    callee = Callee::Asm(a);
                } else {
                    let v = c.val(m, t, ptr_t, &mut lm);
                    callee = match v { Opd::K(V::C(a)) => match m.func_at(a) { Some(i) => Callee::Direct(i), None => Callee::Ind(Opd::K(V::C(a))) }, v => Callee::Ind(v) };
                }
                c.expect(b'(');
                let mut args = vec![];
                loop {
                    c.ws();
                    if c.eat_ch(b')') { break }
                    if c.peek_word() == "metadata" {
                        // skip metadata argument
                        let mut dd = 0;
                        loop { let ch = c.peek(); if dd == 0 && (ch == b',' || ch == b')') { break } if ch == b'(' { dd += 1 } if ch == b')' { dd -= 1 } c.p += 1 }
                        c.eat_ch(b',');
                        continue;
                    }
                    let ty = c.ty(t);
                    c.skip_attrs();
                    let v = c.val(m, t, ty, &mut lm);
                    args.push((ty, v));
                    c.eat_ch(b',');
                }
                let mut normal = NONE;
                if inv {
                    c.eol();
                    c.wsn();
                    let w = c.word(); assert_eq!(w, "to");
                    normal = lab!(c);
                }
                blk.insts.push(I::Call { d, callee, args, ret, normal });
            }
            "extractvalue" => {
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm);
                let mut path = vec![];
                while c.eat_ch(b',') { c.ws(); if c.peek() == b'!' { break } path.push(c.int() as u32) }
                blk.insts.push(I::Extract { d, a, path });
            }
            "insertvalue" => {
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let t2 = c.ty(t); let b = c.val(m, t, t2, &mut lm);
                let mut path = vec![];
                while c.eat_ch(b',') { c.ws(); if c.peek() == b'!' { break } path.push(c.int() as u32) }
                blk.insts.push(I::Insert { d, ty, a, b, path });
            }
            "extractelement" => {
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let t2 = c.ty(t); let i = c.val(m, t, t2, &mut lm);
                blk.insts.push(I::ExtractEl { d, a, i });
            }
            "insertelement" => {
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); let t2 = c.ty(t); let b = c.val(m, t, t2, &mut lm); c.expect(b','); let t3 = c.ty(t); let i = c.val(m, t, t3, &mut lm);
                blk.insts.push(I::InsertEl { d, a, b, i });
            }
            "shufflevector" => {
                let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); c.ty(t); let b = c.val(m, t, ty, &mut lm); c.expect(b','); let t3 = c.ty(t);
                let V::A(mv) = c.konst(m, t, t3) else { panic!() };
                blk.insts.push(I::Shuffle { d, a, b, mask: mv.iter().map(|v| if let V::C(x) = v { *x as i64 } else { 0 }).collect() });
            }
            "atomicrmw" => {
                flags!();
                let o = match c.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => panic!("rmw {}", x) };
                c.ty(t); let p = c.val(m, t, ptr_t, &mut lm); c.expect(b','); let ty = c.ty(t); let v = c.val(m, t, ty, &mut lm);
                blk.insts.push(I::Rmw { op: o, ty, d, p, v });
            }
            "cmpxchg" => {
                flags!();
                c.ty(t); let p = c.val(m, t, ptr_t, &mut lm); c.expect(b','); let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); c.expect(b','); c.ty(t); let b = c.val(m, t, ty, &mut lm);
                blk.insts.push(I::CmpXchg { ty, d, p, a, b });
            }
            "freeze" => { let ty = c.ty(t); let a = c.val(m, t, ty, &mut lm); blk.insts.push(I::Freeze { d, a }) }
            "fence" => blk.insts.push(I::Nop),
            "br" => {
                c.ws();
                if c.peek_word() == "label" { let l = lab!(c); blk.insts.push(I::Br(l)) } else {
                    let ty = c.ty(t); let cv = c.val(m, t, ty, &mut lm); c.expect(b','); let tl = lab!(c); c.expect(b','); let fl = lab!(c);
                    blk.insts.push(I::CondBr { c: cv, t: tl, f: fl });
                }
            }
            "switch" => {
                let ty = c.ty(t); let w = t.bits(ty); let v = c.val(m, t, ty, &mut lm); c.expect(b','); let def = lab!(c);
                c.expect(b'[');
                let mut cases = vec![];
                loop {
                    c.wsn();
                    if c.eat_ch(b']') { break }
                    let ct = c.ty(t); let V::C(x) = c.konst(m, t, ct) else { panic!() }; c.expect(b','); let l = lab!(c);
                    cases.push((x, l));
                }
                blk.insts.push(I::Switch { w, v, def, cases });
            }
            "ret" => {
                c.ws();
                if c.peek_word() == "void" { blk.insts.push(I::Ret(None)) } else { let ty = c.ty(t); let v = c.val(m, t, ty, &mut lm); blk.insts.push(I::Ret(Some((ty, v)))) }
            }
            "unreachable" => blk.insts.push(I::Unreachable),
            "landingpad" => {
                blk.insts.push(I::Unsup("landingpad".into()));
                c.eol();
                loop {
                    let s = c.p; c.ws();
                    match c.peek_word() { "cleanup" | "catch" | "filter" => c.eol(), _ => { c.p = s; break } }
                }
                continue;
            }
            "resume" => blk.insts.push(I::Unsup("resume".into())),
            _ => { let mut e = line_start; while e < c.s.len() && c.s[e] != b'\n' { e += 1 } blk.insts.push(I::Unsup(c.t[line_start..e].trim().to_string())) }
        }
        c.eol();
    }
    if let Some(b) = cur.take() { blocks.push(b) }
    Body { nregs: lm.n, params, blocks, stack: stack as u32, id: f }
}

impl Pred {
    pub fn parts(self) -> (Cmp, bool, bool) { // (cmp, swap, negate)
        match self {
            Pred::Eq => (Cmp::Eq, false, false), Pred::Ne => (Cmp::Eq, false, true),
            Pred::Ult => (Cmp::Ult, false, false), Pred::Ule => (Cmp::Ule, false, false), Pred::Ugt => (Cmp::Ult, true, false), Pred::Uge => (Cmp::Ule, true, false),
            Pred::Slt => (Cmp::Slt, false, false), Pred::Sle => (Cmp::Sle, false, false), Pred::Sgt => (Cmp::Slt, true, false), Pred::Sge => (Cmp::Sle, true, false),
        }
    }
}
