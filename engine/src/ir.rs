//! Parser for the textual LLVM IR that rustc emits (after fat LTO), decoded lazily per function.

use crate::expr::*;
use std::collections::HashMap;
use std::sync::atomic::AtomicU8;
use std::sync::{Arc, OnceLock};

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x0100_0000_0000;
pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const STACK_BASE: u64 = 0x2000_0000_0000;
pub const SLOT: u64 = 1 << 20;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => {
                if *w == 80 {
                    16
                } else {
                    *w as u64 / 8
                }
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as u64 + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    /// Bytes a load or store of this type touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => match *w {
                16 => 2,
                32 => 4,
                64 => 8,
                _ => 16,
            },
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i as usize],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    /// Number of scalar registers a first-class value of this type occupies.
    pub fn slots(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Other => 0,
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
            Ty::Array(n, t) | Ty::Vector(n, t) => *n as usize * t.slots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.slots()).sum(),
        }
    }
    /// (offset, width) of each scalar, in slot order.
    pub fn scalars(&self, base: u64, out: &mut Vec<(u64, u16)>) {
        match self {
            Ty::Int(w) | Ty::Float(w) => out.push((base, *w)),
            Ty::Ptr => out.push((base, 64)),
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                for i in 0..*n {
                    t.scalars(base + i * t.size(), out);
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.scalars(base + self.field_off(i as u64), out);
                }
            }
            _ => {}
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            Ty::Vector(_, t) => t.width(),
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    C(E),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ind(Opnd),
    Intr(crate::exec::Intr, String),
}

pub type Lay = Arc<Vec<(u64, u16)>>;

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, Vec<Opnd>, Vec<Opnd>),
    Icmp(Pred, u32, Vec<Opnd>, Vec<Opnd>),
    /// kind: 0 trunc, 1 zext, 2 sext, 3 bit-identical
    Cast(u8, u16, u32, Vec<Opnd>),
    Bitcast(Ty, Ty, u32, Vec<Opnd>),
    Load(u32, Lay, Opnd, u64),
    Store(Lay, Vec<Opnd>, Opnd, u64),
    Gep(u32, Opnd, u64, Vec<(Opnd, u64)>),
    Alloca(u32, u64, Opnd),
    Select(u32, Vec<Opnd>, Vec<Opnd>, Vec<Opnd>),
    Copy(u32, Vec<Opnd>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Call { dst: u32, n: u32, callee: Callee, args: Vec<Opnd>, argpos: Vec<u32>, normal: Option<u32>, retw: u16 },
    Ret(Vec<Opnd>),
    Unreachable,
    ExtractElt(u32, Vec<Opnd>, Opnd),
    InsertElt(u32, Vec<Opnd>, Opnd, Opnd),
    CmpXchg(u32, u64, Opnd, Opnd, Opnd, u16),
    AtomicRmw(Rmw, u32, Opnd, Opnd, u16),
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub ins: Vec<I>,
    pub dbg: Vec<u32>,
    /// phi copies per predecessor block
    pub phis: HashMap<u32, Vec<(u32, Opnd)>>,
    pub cov: AtomicU8,
}

pub struct Func {
    pub name: String,
    pub idx: usize,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FuncDef {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range in the text, starting at "define"
    pub decoded: OnceLock<Arc<Func>>,
}

pub struct Glob {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub bytes: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncDef>,
    pub fidx: HashMap<String, usize>,
    pub globs: Vec<Glob>,
    pub gaddr: HashMap<String, u64>,
    pub meta: HashMap<u32, (usize, usize)>,
    /// slot -> glob index
    pub gslots: Vec<u32>,
    pub weak: std::collections::HashSet<String>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(String),
    Str(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
    pub t: Tok,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, t: Tok::Eof };
        l.next();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // self.i is just past the opening quote
        let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                if let Ok(b) = u8::from_str_radix(h, 16) {
                    o.push(b);
                    self.i += 3;
                } else {
                    o.push(b'\\');
                    self.i += 2;
                }
            } else {
                o.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        o
    }
    fn ident(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
    }
    pub fn next(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return std::mem::replace(&mut self.t, Tok::Eof);
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = self.s[self.i];
        let t = match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.ident())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.ident())
            }
            b'!' => {
                self.i += 1;
                Tok::Meta(self.ident())
            }
            b'#' => {
                self.i += 1;
                Tok::Attr(self.ident())
            }
            b'"' => {
                self.i += 1;
                Tok::Str(self.quoted())
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 2;
                Tok::Str(self.quoted())
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) {
                    self.i += 1;
                }
                Tok::Int(std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string())
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string())
            }
            b'.' => {
                while self.i < self.s.len() && self.s[self.i] == b'.' {
                    self.i += 1;
                }
                Tok::Word("...".into())
            }
            c => {
                self.i += 1;
                Tok::P(c as char)
            }
        };
        std::mem::replace(&mut self.t, t)
    }
    pub fn isp(&self, c: char) -> bool {
        self.t == Tok::P(c)
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(&self.t, Tok::Word(x) if x == w)
    }
    pub fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) -> Result<(), String> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c, self.t))
        }
    }
    /// Skips a balanced group starting at the current '('.
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
}

type R<T> = Result<T, String>;

pub enum CVal {
    Reg(String, Ty),
    Consts(Vec<E>),
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globs: vec![],
            gaddr: HashMap::new(),
            meta: HashMap::new(),
            gslots: vec![],
            weak: Default::default(),
        };
        let bytes = text.as_bytes();
        let mut globs: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let mut tys: Vec<(usize, usize)> = vec![];
        let mut pos = 0;
        while pos < bytes.len() {
            let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..end];
            let mut nextpos = end + 1;
            if line.starts_with("define ") {
                let close = text[pos..].find("\n}").map(|x| pos + x + 2).ok_or("no end of function")?;
                let name = Self::fname(line)?;
                m.fidx.insert(name.clone(), m.funcs.len());
                m.funcs.push(FuncDef { name, body: Some((pos, close)), decoded: OnceLock::new() });
                nextpos = close + 1;
            } else if line.starts_with("declare ") {
                let name = Self::fname(line)?;
                if line.starts_with("declare extern_weak ") {
                    m.weak.insert(name.clone());
                }
                m.fidx.insert(name.clone(), m.funcs.len());
                m.funcs.push(FuncDef { name, body: None, decoded: OnceLock::new() });
            } else if line.starts_with('@') {
                let mut l = Lex::new(line);
                let name = match l.next() {
                    Tok::Global(n) => n,
                    t => return Err(format!("global {:?}", t)),
                };
                if line.contains(" alias ") {
                    let tgt = line.rsplit('@').next().unwrap();
                    let tgt: String = tgt.trim_matches('"').chars().take_while(|c| idch(*c as u8)).collect();
                    aliases.push((name, tgt));
                } else {
                    globs.push((name, pos, end));
                }
            } else if line.starts_with('%') {
                tys.push((pos, end));
            } else if line.starts_with('!') {
                if let Some(eq) = line.find(" = ") {
                    if let Ok(n) = line[1..eq].parse::<u32>() {
                        m.meta.insert(n, (pos + eq + 3, end));
                    }
                }
            }
            pos = nextpos;
        }
        for (s, e) in tys {
            let mut l = Lex::new(&text[s..e]);
            let Tok::Local(n) = l.next() else { continue };
            l.next(); // '='
            l.next(); // type
            let t = if l.isw("opaque") { Ty::Other } else { m.ty(&mut l)? };
            m.types.insert(n, t);
        }
        m.text = text;
        // assign addresses first, then initialisers
        let mut slot = 0u64;
        let mut later = vec![];
        for (name, s, e) in globs {
            let text = std::mem::take(&mut m.text);
            let mut l = Lex::new(&text[s..e]);
            l.next();
            l.expp('=')?;
            let mut external = false;
            let constant;
            loop {
                match l.next() {
                    Tok::Word(w) => match w.as_str() {
                        "external" => external = true,
                        "extern_weak" => {
                            external = true;
                            m.weak.insert(name.clone());
                        }
                        "global" => {
                            constant = false;
                            break;
                        }
                        "constant" => {
                            constant = true;
                            break;
                        }
                        _ => {
                            if l.isp('(') {
                                l.skip_group();
                            }
                        }
                    },
                    t => return Err(format!("global {}: {:?}", name, t)),
                }
            }
            let t = m.ty(&mut l)?;
            let size = t.size();
            let addr = GLOB_BASE + slot * SLOT;
            let n = 1 + size / SLOT;
            for _ in 0..n {
                m.gslots.push(m.globs.len() as u32);
            }
            slot += n;
            let off = s + l.i;
            drop(l);
            m.text = text;
            m.gaddr.insert(name.clone(), addr);
            m.globs.push(Glob { name, addr, size, constant, bytes: vec![0; size as usize], external });
            // remember where the initialiser starts: re-lex from the type again
            later.push((s, e, t, off));
        }
        for (a, t) in aliases {
            if let Some(&f) = m.fidx.get(&t) {
                m.fidx.insert(a, f);
            } else if let Some(&g) = m.gaddr.get(&t) {
                m.gaddr.insert(a, g);
            }
        }
        let text = std::mem::take(&mut m.text);
        for (gi, (s, e, t, _)) in later.into_iter().enumerate() {
            if m.globs[gi].external {
                continue;
            }
            let mut l = Lex::new(&text[s..e]);
            loop {
                let x = l.next();
                if x == Tok::Word("global".into()) || x == Tok::Word("constant".into()) {
                    break;
                }
                if l.isp('(') {
                    l.skip_group();
                }
            }
            let _ = m.ty(&mut l)?;
            let mut buf = vec![0u8; m.globs[gi].size as usize];
            m.init(&mut l, &t, &mut buf, 0).map_err(|x| format!("{}: {}", m.globs[gi].name, x))?;
            m.globs[gi].bytes = buf;
        }
        m.text = text;
        Ok(m)
    }

    fn fname(line: &str) -> R<String> {
        let i = line.find('@').ok_or("no @")?;
        let mut l = Lex::new(&line[i..]);
        match l.next() {
            Tok::Global(n) => Ok(n),
            t => Err(format!("{:?}", t)),
        }
    }

    pub fn faddr(&self, idx: usize) -> u64 {
        FUNC_BASE + idx as u64 * 16
    }

    fn sym_addr(&self, n: &str) -> R<u64> {
        // weak externals that nobody defines resolve to null
        if self.weak.contains(n) {
            return Ok(0);
        }
        if let Some(&a) = self.gaddr.get(n) {
            return Ok(a);
        }
        if let Some(&f) = self.fidx.get(n) {
            return Ok(self.faddr(f));
        }
        Err(format!("unknown symbol @{}", n))
    }

    fn is_ty_start(&self, t: &Tok) -> bool {
        match t {
            Tok::Word(w) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token"
                ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(n) => self.types.contains_key(n),
            _ => false,
        }
    }

    pub fn ty(&self, l: &mut Lex) -> R<Ty> {
        let t = match l.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if l.isw("addrspace") {
                        l.next();
                        l.skip_group();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Other,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                w => return Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = self.int(l)?;
                l.next(); // x
                let t = self.ty(l)?;
                l.expp(']')?;
                Ty::Array(n, Box::new(t))
            }
            Tok::P('{') => {
                let f = self.tylist(l, '}')?;
                Ty::Struct(f, false)
            }
            Tok::P('<') => {
                if l.eatp('{') {
                    let f = self.tylist(l, '}')?;
                    l.expp('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.int(l)?;
                    l.next();
                    let t = self.ty(l)?;
                    l.expp('>')?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or(format!("type %{}", n))?,
            t => return Err(format!("type {:?}", t)),
        };
        Ok(t)
    }

    fn tylist(&self, l: &mut Lex, close: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if l.eatp(close) {
            return Ok(f);
        }
        loop {
            f.push(self.ty(l)?);
            if l.eatp(close) {
                return Ok(f);
            }
            l.expp(',')?;
        }
    }

    fn int(&self, l: &mut Lex) -> R<u64> {
        match l.next() {
            Tok::Int(s) => s.parse::<u64>().map_err(|e| format!("{} {}", s, e)),
            t => Err(format!("int {:?}", t)),
        }
    }

    /// Writes a constant initialiser into `buf`.
    fn init(&self, l: &mut Lex, t: &Ty, buf: &mut [u8], off: usize) -> R<()> {
        let es = match self.value(l, t)? {
            CVal::Consts(v) => v,
            _ => return Err("register in initialiser".into()),
        };
        let mut sc = vec![];
        t.scalars(0, &mut sc);
        for ((o, w), e) in sc.iter().zip(es) {
            let n = (*w as usize + 7) / 8;
            for k in 0..n {
                buf[off + *o as usize + k] = (e.v >> (8 * k)) as u8;
            }
        }
        Ok(())
    }

    fn zero(t: &Ty) -> Vec<E> {
        let mut sc = vec![];
        t.scalars(0, &mut sc);
        sc.iter().map(|(_, w)| E::c(*w, 0)).collect()
    }

    /// Parses a value of the given type.
    pub fn value(&self, l: &mut Lex, t: &Ty) -> R<CVal> {
        let one = |e: E| Ok(CVal::Consts(vec![e]));
        match l.next() {
            Tok::Local(n) => Ok(CVal::Reg(n, t.clone())),
            Tok::Global(n) => one(E::c(64, self.sym_addr(&n)? as u128)),
            Tok::Int(s) => match t {
                Ty::Float(w) => {
                    if let Some(h) = s.strip_prefix("0x") {
                        let h = h.trim_start_matches(|c| matches!(c, 'H' | 'L' | 'K' | 'M' | 'R'));
                        let bits = u128::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        if *w == 32 {
                            let d = f64::from_bits(bits as u64) as f32;
                            return one(E::c(32, d.to_bits() as u128));
                        }
                        return one(E::c(*w, bits));
                    }
                    let d: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                    if *w == 32 {
                        one(E::c(32, (d as f32).to_bits() as u128))
                    } else {
                        one(E::c(*w, d.to_bits() as u128))
                    }
                }
                Ty::Int(w) => {
                    if let Some(n) = s.strip_prefix('-') {
                        let v: u128 = n.parse().map_err(|_| format!("int {}", s))?;
                        one(E::c(*w, v.wrapping_neg()))
                    } else {
                        let v: u128 = s.parse().map_err(|_| format!("int {}", s))?;
                        one(E::c(*w, v))
                    }
                }
                _ => Err(format!("integer for {:?}", t)),
            },
            Tok::Str(b) => Ok(CVal::Consts(b.iter().map(|x| E::c(8, *x as u128)).collect())),
            Tok::P('{') => self.agg(l, '}'),
            Tok::P('[') => self.agg(l, ']'),
            Tok::P('<') => {
                if l.eatp('{') {
                    let r = self.agg(l, '}')?;
                    l.expp('>')?;
                    Ok(r)
                } else {
                    self.agg(l, '>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => one(E::b(true)),
                "false" => one(E::b(false)),
                "null" => one(E::c(64, 0)),
                "undef" | "poison" | "zeroinitializer" | "none" => Ok(CVal::Consts(Self::zero(t))),
                "splat" => {
                    l.expp('(')?;
                    let et = self.ty(l)?;
                    let v = self.cscalar(l, &et)?;
                    l.expp(')')?;
                    Ok(CVal::Consts(vec![v; t.slots()]))
                }
                "getelementptr" => {
                    while let Tok::Word(_) = l.t {
                        let inr = l.isw("inrange");
                        l.next();
                        if inr && l.isp('(') {
                            l.skip_group();
                        }
                    }
                    l.expp('(')?;
                    let bt = self.ty(l)?;
                    l.expp(',')?;
                    let pt = self.ty(l)?;
                    let base = self.cscalar(l, &pt)?;
                    let mut addr = base.v as u64;
                    let mut cur = bt;
                    let mut first = true;
                    while l.eatp(',') {
                        l.eatw("inrange");
                        let it = self.ty(l)?;
                        let i = self.cscalar(l, &it)?;
                        let k = sext128(i.v, i.w) as i64 as u64;
                        if first {
                            addr = addr.wrapping_add(k.wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            addr = addr.wrapping_add(match &cur {
                                Ty::Struct(..) => cur.field_off(k),
                                _ => k.wrapping_mul(cur.elem(0).size()),
                            });
                            cur = cur.elem(if matches!(cur, Ty::Struct(..)) { k } else { 0 }).clone();
                        }
                    }
                    l.expp(')')?;
                    one(E::c(64, addr as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    l.expp('(')?;
                    let st = self.ty(l)?;
                    let v = self.cscalar(l, &st)?;
                    if !l.eatw("to") {
                        return Err("to".into());
                    }
                    let dt = self.ty(l)?;
                    l.expp(')')?;
                    if w == "sext" {
                        return one(E::c(dt.width(), sext128(v.v, v.w) as u128));
                    }
                    one(E::c(dt.width(), v.v))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while let Tok::Word(_) = l.t {
                        l.next();
                    }
                    l.expp('(')?;
                    let at = self.ty(l)?;
                    let a = self.cscalar(l, &at)?;
                    l.expp(',')?;
                    let bt = self.ty(l)?;
                    let b = self.cscalar(l, &bt)?;
                    l.expp(')')?;
                    let op = match w.as_str() {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "xor" => Op::Xor,
                        "mul" => Op::Mul,
                        "and" => Op::And,
                        "or" => Op::Or,
                        _ => Op::Shl,
                    };
                    one(Arena::fold(op, a.w, a.v, b.v))
                }
                w => Err(format!("value {}", w)),
            },
            Tok::Meta(_) => {
                // metadata operand: skip, including a possible (...) or {...}
                if l.isp('(') {
                    l.skip_group();
                }
                if l.eatp('{') {
                    while !l.eatp('}') {
                        l.next();
                    }
                }
                Ok(CVal::Consts(vec![]))
            }
            t2 => Err(format!("value {:?} of {:?}", t2, t)),
        }
    }

    fn cscalar(&self, l: &mut Lex, t: &Ty) -> R<E> {
        match self.value(l, t)? {
            CVal::Consts(v) if v.len() == 1 => Ok(v[0]),
            _ => Err("constant scalar expected".into()),
        }
    }

    fn agg(&self, l: &mut Lex, close: char) -> R<CVal> {
        let mut out = vec![];
        if l.eatp(close) {
            return Ok(CVal::Consts(out));
        }
        loop {
            let t = self.ty(l)?;
            match self.value(l, &t)? {
                CVal::Consts(v) => out.extend(v),
                _ => return Err("register in aggregate".into()),
            }
            if l.eatp(close) {
                return Ok(CVal::Consts(out));
            }
            l.expp(',')?;
        }
    }

    fn skip_attrs(&self, l: &mut Lex) {
        // parameter / return attributes up to the next type or value token
        loop {
            match &l.t {
                Tok::Word(w) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false"
                            | "null"
                            | "undef"
                            | "poison"
                            | "zeroinitializer"
                            | "none"
                            | "getelementptr"
                            | "ptrtoint"
                            | "inttoptr"
                            | "bitcast"
                            | "splat"
                            | "asm"
                            | "ptrtoaddr"
                    ) {
                        return;
                    }
                    if (w == "trunc" || w == "sub" || w == "add" || w == "xor") && l.s[l.i] == b'(' {
                        return;
                    }
                    let al = w == "align";
                    l.next();
                    if l.isp('(') {
                        l.skip_group();
                    } else if al {
                        l.next();
                    }
                }
                Tok::Str(_) => {
                    l.next();
                    if l.eatp('=') {
                        l.next();
                    }
                }
                _ => return,
            }
        }
    }

    pub fn func(&self, idx: usize) -> R<Arc<Func>> {
        let fd = &self.funcs[idx];
        if let Some(f) = fd.decoded.get() {
            return Ok(f.clone());
        }
        let Some((s, e)) = fd.body else { return Err(format!("external function {}", fd.name)) };
        let f = Arc::new(self.decode(idx, &self.text[s..e]).map_err(|x| format!("in {}: {}", fd.name, x))?);
        let _ = fd.decoded.set(f);
        Ok(fd.decoded.get().unwrap().clone())
    }

    fn decode(&self, idx: usize, text: &str) -> R<Func> {
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut d = Dec { m: self, regs: HashMap::new(), nregs: 0, blocks: HashMap::new(), cur: 0 };
        // parameters
        let mut params = vec![];
        let mut unnamed = 0usize;
        let at = head.find('@').unwrap();
        let mut l = Lex::new(&head[at..]);
        l.next();
        l.expp('(')?;
        if !l.eatp(')') {
            loop {
                if l.isw("...") {
                    l.next();
                    l.expp(')')?;
                    break;
                }
                let t = self.ty(&mut l)?;
                self.skip_attrs(&mut l);
                let n = match &l.t {
                    Tok::Local(n) => {
                        let n = n.clone();
                        l.next();
                        n
                    }
                    _ => format!("unnamed.{}", params.len()),
                };
                if n.starts_with("unnamed.") || n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = d.reg(&n, t.slots());
                for k in 0..t.slots() {
                    params.push(r + k as u32);
                }
                if l.eatp(')') {
                    break;
                }
                l.expp(',')?;
            }
        }
        // logical lines
        let mut groups: Vec<(String, Vec<String>)> = vec![];
        for line in lines {
            if line == "}" || line.trim().is_empty() || line.trim_start().starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                let mut l = line.split(';').next().unwrap().trim().trim_end_matches(':').to_string();
                if l.starts_with('"') {
                    l = l.trim_matches('"').to_string();
                }
                groups.push((l, vec![]));
                continue;
            }
            if groups.is_empty() {
                // an unlabelled entry block takes the number after the unnamed parameters
                groups.push((unnamed.to_string(), vec![]));
            }
            let g = &mut groups.last_mut().unwrap().1;
            let t = line.trim_start();
            if t.starts_with("#dbg_") {
                continue;
            }
            let cont = line.starts_with("          ") || t == "]" || t.starts_with("], ") || line.starts_with("    ");
            if cont && !g.is_empty() {
                let p = g.last_mut().unwrap();
                p.push(' ');
                p.push_str(t);
            } else {
                g.push(t.to_string());
            }
        }
        for (i, (n, _)) in groups.iter().enumerate() {
            d.blocks.insert(n.clone(), i as u32);
        }
        // first pass: result registers need their slot counts before use; types come from the
        // definitions, so decode definitions lazily: slots are known at the definition and every
        // use names its type, which gives the same count.
        let mut blocks: Vec<Block> = vec![];
        for (i, (_, ls)) in groups.iter().enumerate() {
            d.cur = i as u32;
            let mut b = Block { ins: vec![], dbg: vec![], phis: HashMap::new(), cov: AtomicU8::new(0) };
            for line in ls {
                let dbg = match line.rfind("!dbg !") {
                    Some(k) => line[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0),
                    None => 0,
                };
                match d.instr(line, &mut b) {
                    Ok(I::Nop) => {}
                    Ok(x) => {
                        b.ins.push(x);
                        b.dbg.push(dbg);
                    }
                    Err(e) => {
                        b.ins.push(I::Unsupported(format!("{} [{}]", e, line.chars().take(160).collect::<String>())));
                        b.dbg.push(dbg);
                    }
                }
            }
            blocks.push(b);
        }
        Ok(Func { name: self.funcs[idx].name.clone(), idx, params, nregs: d.nregs as usize, blocks })
    }
}

struct Dec<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
    cur: u32,
}

impl<'m> Dec<'m> {
    fn reg(&mut self, n: &str, slots: usize) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += slots.max(1) as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opnds(&mut self, l: &mut Lex, t: &Ty) -> R<Vec<Opnd>> {
        Ok(match self.m.value(l, t)? {
            CVal::Reg(n, t) => {
                let s = t.slots();
                let r = self.reg(&n, s);
                (0..s as u32).map(|k| Opnd::R(r + k)).collect()
            }
            CVal::Consts(v) => v.into_iter().map(Opnd::C).collect(),
        })
    }
    fn op1(&mut self, l: &mut Lex, t: &Ty) -> R<Opnd> {
        let v = self.opnds(l, t)?;
        if v.len() != 1 {
            return Err("scalar operand expected".into());
        }
        Ok(v[0])
    }
    fn tyop(&mut self, l: &mut Lex) -> R<(Ty, Vec<Opnd>)> {
        let t = self.m.ty(l)?;
        self.m.skip_attrs(l);
        let v = self.opnds(l, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, l: &mut Lex) -> R<u32> {
        if !l.eatw("label") {
            return Err("label".into());
        }
        match l.next() {
            Tok::Local(n) => self.blocks.get(&n).copied().ok_or(format!("label {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn lay(t: &Ty) -> Lay {
        let mut v = vec![];
        t.scalars(0, &mut v);
        Arc::new(v)
    }

    fn instr(&mut self, line: &str, b: &mut Block) -> R<I> {
        let mut l = Lex::new(line);
        let mut dstn: Option<String> = None;
        if let Tok::Local(n) = &l.t {
            let n = n.clone();
            l.next();
            l.expp('=')?;
            dstn = Some(n);
        }
        let Tok::Word(op) = l.next() else { return Err("opcode".into()) };
        let m = self.m;
        let name = dstn.clone().unwrap_or_default();
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(&l.t, Tok::Word(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint")) {
                    l.next();
                }
                let t = m.ty(&mut l)?;
                let a = self.opnds(&mut l, &t)?;
                l.expp(',')?;
                let c = self.opnds(&mut l, &t)?;
                let o = match op.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                let dst = self.reg(&name, t.slots());
                Ok(I::Bin(o, dst, a, c))
            }
            "icmp" => {
                l.eatw("samesign");
                let Tok::Word(p) = l.next() else { return Err("pred".into()) };
                let t = m.ty(&mut l)?;
                let a = self.opnds(&mut l, &t)?;
                l.expp(',')?;
                let c = self.opnds(&mut l, &t)?;
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    p => return Err(format!("pred {}", p)),
                };
                let dst = self.reg(&name, t.slots());
                Ok(I::Icmp(p, dst, a, c))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while matches!(&l.t, Tok::Word(w) if matches!(w.as_str(), "nuw" | "nsw" | "nneg")) {
                    l.next();
                }
                let st = m.ty(&mut l)?;
                let a = self.opnds(&mut l, &st)?;
                if !l.eatw("to") {
                    return Err("to".into());
                }
                let dt = m.ty(&mut l)?;
                let dst = self.reg(&name, dt.slots());
                if op == "bitcast" {
                    if st.slots() == 1 && dt.slots() == 1 {
                        return Ok(I::Copy(dst, a));
                    }
                    return Ok(I::Bitcast(st, dt, dst, a));
                }
                let (sw, dw) = (st.width(), dt.width());
                let k = match op.as_str() {
                    "sext" => 2,
                    _ if dw < sw => 0,
                    _ if dw > sw => 1,
                    _ => 3,
                };
                Ok(I::Cast(k, dw, dst, a))
            }
            "load" => {
                while matches!(&l.t, Tok::Word(w) if w == "atomic" || w == "volatile") {
                    l.next();
                }
                let t = m.ty(&mut l)?;
                l.expp(',')?;
                let (_, p) = self.tyop(&mut l)?;
                let dst = self.reg(&name, t.slots());
                Ok(I::Load(dst, Self::lay(&t), p[0], t.store_size()))
            }
            "store" => {
                while matches!(&l.t, Tok::Word(w) if w == "atomic" || w == "volatile") {
                    l.next();
                }
                let (t, v) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, p) = self.tyop(&mut l)?;
                Ok(I::Store(Self::lay(&t), v, p[0], t.store_size()))
            }
            "getelementptr" => {
                while matches!(&l.t, Tok::Word(w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw")) {
                    l.next();
                }
                let bt = m.ty(&mut l)?;
                l.expp(',')?;
                let (pt, p) = self.tyop(&mut l)?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while l.eatp(',') {
                    if let Tok::Meta(_) = l.t {
                        break;
                    }
                    let (it, iv) = self.tyop(&mut l)?;
                    let _ = it;
                    let iv = iv[0];
                    if first {
                        match iv {
                            Opnd::C(e) => off = off.wrapping_add((sext128(e.v, e.w) as i64 as u64).wrapping_mul(cur.size())),
                            r => terms.push((r, cur.size())),
                        }
                        first = false;
                    } else {
                        match (&cur, iv) {
                            (Ty::Struct(..), Opnd::C(e)) => {
                                off = off.wrapping_add(cur.field_off(e.v as u64));
                                cur = cur.elem(e.v as u64).clone();
                            }
                            (_, Opnd::C(e)) => {
                                off = off.wrapping_add((sext128(e.v, e.w) as i64 as u64).wrapping_mul(cur.elem(0).size()));
                                cur = cur.elem(0).clone();
                            }
                            (_, r) => {
                                terms.push((r, cur.elem(0).size()));
                                cur = cur.elem(0).clone();
                            }
                        }
                    }
                }
                let dst = self.reg(&name, 1);
                Ok(I::Gep(dst, p[0], off, terms))
            }
            "alloca" => {
                let t = m.ty(&mut l)?;
                let mut n = Opnd::C(E::c(64, 1));
                if l.eatp(',') && self.m.is_ty_start(&l.t) {
                    let (_, v) = self.tyop(&mut l)?;
                    n = v[0];
                }
                let dst = self.reg(&name, 1);
                Ok(I::Alloca(dst, t.size(), n))
            }
            "select" => {
                let (ct, c) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (t, a) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, e) = self.tyop(&mut l)?;
                let dst = self.reg(&name, t.slots());
                let c = if matches!(ct, Ty::Vector(..)) { c } else { vec![c[0]; t.slots()] };
                Ok(I::Select(dst, c, a, e))
            }
            "freeze" => {
                let (t, a) = self.tyop(&mut l)?;
                let dst = self.reg(&name, t.slots());
                Ok(I::Copy(dst, a))
            }
            "phi" => {
                let t = m.ty(&mut l)?;
                let s = t.slots();
                let dst = self.reg(&name, s);
                loop {
                    l.expp('[')?;
                    let v = self.opnds(&mut l, &t)?;
                    l.expp(',')?;
                    let Tok::Local(n) = l.next() else { return Err("phi label".into()) };
                    let pb = *self.blocks.get(&n).ok_or("phi block")?;
                    l.expp(']')?;
                    // a switch can reach the same block several times: keep one set of copies
                    let e = b.phis.entry(pb).or_default();
                    if !e.iter().any(|x| x.0 == dst) {
                        for (k, o) in v.into_iter().enumerate() {
                            e.push((dst + k as u32, o));
                        }
                    }
                    if !l.isp(',') {
                        break;
                    }
                    l.next();
                    if !l.isp('[') {
                        break;
                    }
                }
                Ok(I::Nop)
            }
            "br" => {
                if l.isw("label") {
                    return Ok(I::Br(self.label(&mut l)?));
                }
                let (_, c) = self.tyop(&mut l)?;
                l.expp(',')?;
                let x = self.label(&mut l)?;
                l.expp(',')?;
                let y = self.label(&mut l)?;
                Ok(I::CondBr(c[0], x, y))
            }
            "switch" => {
                let (t, c) = self.tyop(&mut l)?;
                l.expp(',')?;
                let dflt = self.label(&mut l)?;
                l.expp('[')?;
                let mut cases = vec![];
                while !l.eatp(']') {
                    let ct = m.ty(&mut l)?;
                    let v = m.cscalar(&mut l, &ct)?;
                    l.expp(',')?;
                    let b = self.label(&mut l)?;
                    cases.push((v.v, b));
                }
                let _ = t;
                Ok(I::Switch(c[0], dflt, cases))
            }
            "ret" => {
                if l.isw("void") {
                    return Ok(I::Ret(vec![]));
                }
                let (_, v) = self.tyop(&mut l)?;
                Ok(I::Ret(v))
            }
            "unreachable" => Ok(I::Unreachable),
            "extractvalue" => {
                let (t, v) = self.tyop(&mut l)?;
                let mut base = 0usize;
                let mut cur = t;
                while l.eatp(',') {
                    let Tok::Int(s) = &l.t else { break };
                    let k: u64 = s.parse().map_err(|_| "idx")?;
                    l.next();
                    for j in 0..k {
                        base += cur.elem(j).slots();
                    }
                    cur = cur.elem(k).clone();
                }
                let n = cur.slots();
                let dst = self.reg(&name, n);
                Ok(I::Copy(dst, v[base..base + n].to_vec()))
            }
            "insertvalue" => {
                let (t, mut v) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, x) = self.tyop(&mut l)?;
                let mut base = 0usize;
                let mut cur = t.clone();
                while l.eatp(',') {
                    let Tok::Int(s) = &l.t else { break };
                    let k: u64 = s.parse().map_err(|_| "idx")?;
                    l.next();
                    for j in 0..k {
                        base += cur.elem(j).slots();
                    }
                    cur = cur.elem(k).clone();
                }
                for (k, o) in x.into_iter().enumerate() {
                    v[base + k] = o;
                }
                let dst = self.reg(&name, t.slots());
                Ok(I::Copy(dst, v))
            }
            "extractelement" => {
                let (t, v) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, i) = self.tyop(&mut l)?;
                let _ = t;
                let dst = self.reg(&name, 1);
                Ok(I::ExtractElt(dst, v, i[0]))
            }
            "insertelement" => {
                let (t, v) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, x) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, i) = self.tyop(&mut l)?;
                let dst = self.reg(&name, t.slots());
                Ok(I::InsertElt(dst, v, x[0], i[0]))
            }
            "shufflevector" => {
                let (t, mut a) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, c) = self.tyop(&mut l)?;
                l.expp(',')?;
                let mt = m.ty(&mut l)?;
                let CVal::Consts(mk) = m.value(&mut l, &mt)? else { return Err("mask".into()) };
                a.extend(c);
                let _ = t;
                let out: Vec<Opnd> = mk.iter().map(|k| a[k.v as usize]).collect();
                let dst = self.reg(&name, out.len());
                Ok(I::Copy(dst, out))
            }
            "cmpxchg" => {
                while matches!(&l.t, Tok::Word(w) if w == "weak" || w == "volatile") {
                    l.next();
                }
                let (_, p) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (t, e) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (_, n) = self.tyop(&mut l)?;
                let dst = self.reg(&name, 2);
                Ok(I::CmpXchg(dst, t.size(), p[0], e[0], n[0], t.width()))
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let Tok::Word(k) = l.next() else { return Err("rmw".into()) };
                let (_, p) = self.tyop(&mut l)?;
                l.expp(',')?;
                let (t, v) = self.tyop(&mut l)?;
                let k = match k.as_str() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "nand" => Rmw::Nand,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    k => return Err(format!("rmw {}", k)),
                };
                let dst = self.reg(&name, 1);
                Ok(I::AtomicRmw(k, dst, p[0], v[0], t.width()))
            }
            "fence" => Ok(I::Nop),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    l.next();
                }
                // cc, fast-math flags and return attributes
                loop {
                    if m.is_ty_start(&l.t) {
                        break;
                    }
                    match l.next() {
                        Tok::Word(w) => {
                            if l.isp('(') {
                                l.skip_group();
                            } else if w == "align" || w == "cc" {
                                l.next();
                            }
                        }
                        t => return Err(format!("call prefix {:?}", t)),
                    }
                }
                let rt = m.ty(&mut l)?;
                if l.isp('(') {
                    l.skip_group(); // explicit function type
                }
                enum C {
                    N(String),
                    O(Opnd),
                }
                let callee = match &l.t {
                    Tok::Global(n) => {
                        let n = n.clone();
                        l.next();
                        C::N(n)
                    }
                    Tok::Word(w) if w == "asm" => {
                        return Ok(I::Unsupported("inline asm".into()));
                    }
                    _ => C::O(self.op1(&mut l, &Ty::Ptr)?),
                };
                l.expp('(')?;
                let mut args = vec![];
                let mut argpos = vec![];
                let intr = matches!(&callee, C::N(n) if n.starts_with("llvm."));
                if let C::N(n) = &callee {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.prefetch")
                    {
                        return Ok(I::Nop);
                    }
                }
                if !l.eatp(')') {
                    loop {
                        let (_, v) = self.tyop(&mut l)?;
                        argpos.push(args.len() as u32);
                        args.extend(v);
                        if l.eatp(')') {
                            break;
                        }
                        l.expp(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !l.isw("to") {
                        if l.t == Tok::Eof {
                            return Err("invoke".into());
                        }
                        l.next();
                    }
                    l.next();
                    normal = Some(self.label(&mut l)?);
                }
                let n = rt.slots();
                let dst = if dstn.is_some() { self.reg(&name, n) } else { u32::MAX };
                let callee = match callee {
                    C::N(n) if intr => match crate::exec::Intr::by_name(&n) {
                        Some(k) => Callee::Intr(k, n),
                        None => return Ok(I::Unsupported(format!("intrinsic {}", n))),
                    },
                    C::N(n) => Callee::Func(*m.fidx.get(&n).ok_or(format!("callee {}", n))?),
                    C::O(o) => Callee::Ind(o),
                };
                let retw = if n > 0 { let mut v = vec![]; rt.scalars(0, &mut v); v[0].1 } else { 0 };
                Ok(I::Call { dst, n: n as u32, callee, args, argpos, normal, retw })
            }
            o => Err(format!("opcode {}", o)),
        }
    }
}
