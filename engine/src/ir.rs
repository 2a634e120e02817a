//! Parser for textual LLVM IR (the subset rustc emits, no debug info needed) into a compact
//! register-slot representation. Function bodies are parsed lazily.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Float(n) => *n,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match *n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => align_up(((*n + 7) / 8) as u64, self.align()),
            Ty::Ptr => 8,
            Ty::Float(n) => (*n / 8) as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i,
            _ => 0,
        }
    }
    pub fn elem(&self, i: u64) -> Option<&Ty> {
        match self {
            Ty::Struct(f, _) => f.get(i as usize),
            Ty::Arr(_, t) | Ty::Vec(_, t) => Some(t),
            _ => None,
        }
    }
    pub fn slot_off(&self, i: u64) -> u32 {
        match self {
            Ty::Struct(f, _) => f[..i as usize].iter().map(|t| t.nslots()).sum(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.nslots() * i as u32,
            _ => 0,
        }
    }
    /// flattened scalar parts: (byte offset, bit width)
    pub fn parts(&self, base: u64, out: &mut Vec<(u32, u32)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(n) => out.push((base as u32, *n)),
            Ty::Ptr => out.push((base as u32, 64)),
            Ty::Float(n) => out.push((base as u32, *n)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.parts(base + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    f[i].parts(base + self.field_off(i as u64), out)
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta(String),
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            if i + 2 < b.len() {
                if let (Some(h), Some(l)) = (hx(b[i + 1]), hx(b[i + 2])) {
                    o.push(h * 16 + l);
                    i += 3;
                    continue;
                }
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st..j])).into_owned();
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                v.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'!') {
                    i += 1
                }
                v.push(Tok::Meta(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                v.push(Tok::Str(unescape(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1
                }
                v.push(Tok::Str(unescape(&b[st..j])));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1
                }
                v.push(Tok::Num(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1
                }
                v.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

/// Operand: < CBASE a register slot, otherwise an index into the function's constant table.
pub type Opd = u32;
pub const CBASE: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Same,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord {
    Mono,
    Acq,
    Rel,
    AcqRel,
    Seq,
}
impl Ord {
    pub fn acq(self) -> bool {
        matches!(self, Ord::Acq | Ord::AcqRel | Ord::Seq)
    }
    pub fn rel(self) -> bool {
        matches!(self, Ord::Rel | Ord::AcqRel | Ord::Seq)
    }
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, a: Opd, b: Opd, dst: u32, n: u32, nuw: bool, nsw: bool },
    Cmp { p: Pred, w: u32, a: Opd, b: Opd, dst: u32, n: u32 },
    Cast { k: CastK, from: u32, to: u32, a: Opd, dst: u32, n: u32 },
    Copy { src: Opd, dst: u32, n: u32 },
    Select { c: Opd, cn: u32, a: Opd, b: Opd, dst: u32, n: u32, w: u32 },
    Load { ptr: Opd, dst: u32, parts: Box<[(u32, u32)]>, ord: Option<Ord> },
    Store { ptr: Opd, src: Opd, parts: Box<[(u32, u32)]>, ord: Option<Ord> },
    LoadVecBits { ptr: Opd, dst: u32, n: u32, w: u32 },
    StoreVecBits { ptr: Opd, src: Opd, n: u32, w: u32 },
    Gep { base: Opd, off: u64, idx: Box<[(Opd, u64, u32)]>, dst: u32 },
    Alloca { size: u64, align: u64, count: Opd, dst: u32 },
    Call { callee: Callee, args: Box<[(Opd, u32, u32)]>, dst: u32, nret: u32, retw: u32, cont: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, cases: Box<[(u128, u32)]>, def: u32 },
    Ret { v: Opd, n: u32 },
    Unreachable,
    Rmw { op: RmwOp, ptr: Opd, v: Opd, w: u32, dst: u32, ord: Ord },
    CmpXchg { ptr: Opd, cmp: Opd, new: Opd, w: u32, dst: u32, ord: Ord, ford: Ord },
    Fence(Ord),
    InsElem { v: Opd, n: u32, e: Opd, i: Opd, dst: u32 },
    ExtElem { v: Opd, n: u32, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, n: u32, mask: Box<[u32]>, dst: u32 },
    InsVal { a: Opd, n: u32, e: Opd, en: u32, off: u32, dst: u32 },
    BitVec { a: Opd, an: u32, aw: u32, dst: u32, dn: u32, dw: u32 },
    Unsup(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub ins: Vec<I>,
    pub phis: Vec<(u32, u32, Vec<(u32, Opd)>)>,
    /// per predecessor: copies (src, dst, n)
    pub edges: Vec<(u32, Box<[(Opd, u32, u32)]>)>,
    pub lines: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<(u32, u32)>,
    pub nslots: u32,
    pub consts: Vec<u128>,
    pub blocks: Vec<Block>,
    pub n_ins: usize,
}

pub enum GInit {
    Bytes(u64, Vec<u8>),
    Addr(u64, CExpr),
}
#[derive(Clone, Debug)]
pub enum CExpr {
    Int(u128),
    Sym(String, i64),
}

pub struct GVar {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub init: Vec<(u64, u32, CExpr)>, // offset, bits, value
    pub bytes: Vec<(u64, Vec<u8>)>,
    pub tls: bool,
    pub constant: bool,
    pub external: bool,
    pub addr: u64,
}

pub struct FnInfo {
    pub name: String,
    pub body: Option<(usize, usize, usize)>, // header start, body start, body end (byte offsets)
    pub addr: u64,
    pub cell: OnceLock<Box<Func>>,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub fns: Vec<FnInfo>,
    pub fn_idx: HashMap<String, u32>,
    pub gvars: Vec<GVar>,
    pub g_idx: HashMap<String, u32>,
    pub aliases: HashMap<String, (String, i64)>,
}

pub const CODE_BASE: u64 = 0x10000;
pub const DATA_BASE: u64 = 0x100_0000;

pub struct P<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub m: &'a Module,
}

fn is_int_ty(w: &str) -> Option<u32> {
    let r = w.strip_prefix('i')?;
    if r.is_empty() || !r.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    r.parse().ok()
}

pub struct FB {
    names: HashMap<String, (u32, Ty)>,
    nslots: u32,
    consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
}

impl FB {
    fn reg(&mut self, n: &str, t: &Ty) -> u32 {
        if let Some((s, _)) = self.names.get(n) {
            return *s;
        }
        let s = self.nslots;
        self.nslots += t.nslots();
        self.names.insert(n.to_string(), (s, t.clone()));
        s
    }
    fn cst(&mut self, v: u128) -> Opd {
        if let Some(i) = self.cmap.get(&v) {
            return *i;
        }
        let i = CBASE + self.consts.len() as u32;
        self.consts.push(v);
        self.cmap.insert(v, i);
        i
    }
    fn csts(&mut self, v: &[u128]) -> Opd {
        if v.len() == 1 {
            return self.cst(v[0]);
        }
        let i = CBASE + self.consts.len() as u32;
        self.consts.extend_from_slice(v);
        i
    }
}

pub type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(m: &'a Module, s: &str) -> Self {
        P { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len() - 1)..(self.i + 5).min(self.t.len())]))
        }
    }
    fn skip_paren(&mut self) {
        if !self.isp('(') {
            return;
        }
        let mut d = 0;
        while self.i < self.t.len() {
            if self.isp('(') {
                d += 1
            }
            if self.isp(')') {
                d -= 1;
                if d == 0 {
                    self.i += 1;
                    return;
                }
            }
            self.i += 1;
        }
    }
    fn word(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Word(w)) => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            x => Err(format!("expected word, got {:?}", x)),
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.peek() {
            Some(Tok::Num(w)) => {
                let r = w.parse::<u64>().map_err(|e| e.to_string());
                self.i += 1;
                r
            }
            x => Err(format!("expected number, got {:?}", x)),
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                is_int_ty(w).is_some()
                    || matches!(
                        w.as_str(),
                        "void" | "ptr" | "half" | "float" | "double" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque"
                    )
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.peek().cloned() {
            Some(Tok::Word(w)) => {
                self.i += 1;
                if let Some(n) = is_int_ty(&w) {
                    Ty::Int(n)
                } else {
                    match w.as_str() {
                        "void" => Ty::Void,
                        "ptr" => {
                            if self.isw("addrspace") {
                                self.i += 1;
                                self.skip_paren();
                            }
                            Ty::Ptr
                        }
                        "half" => Ty::Float(16),
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        "fp128" => Ty::Float(128),
                        "x86_fp80" => Ty::Float(128),
                        "label" | "metadata" | "token" | "opaque" => Ty::Other,
                        _ => return Err(format!("type? {}", w)),
                    }
                }
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                let f = self.tylist('}')?;
                Ty::Struct(f, false)
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n = self.num()?;
                self.eatw("x");
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.eatp('{') {
                    let f = self.tylist('}')?;
                    self.exp('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()?;
                    self.eatw("x");
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Some(Tok::Local(n)) => {
                self.i += 1;
                self.m.types.get(&n).cloned().ok_or_else(|| format!("unknown type {}", n))?
            }
            x => return Err(format!("type? {:?}", x)),
        };
        Ok(t)
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eatp(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eatp(end) {
                return Ok(f);
            }
            self.exp(',')?;
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr" | "splat" | "none" | "add" | "sub" | "trunc" | "bitcast" | "xor" | "mul" | "asm" | "blockaddress" | "addrspacecast"
                    ) || self.is_ty()
                    {
                        return;
                    }
                    let al = w == "align" || w == "cc";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_paren()
                    } else if al {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    // string attribute "k"="v"
                    self.i += 1;
                    if self.isp('=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
    /// constant of type t as flattened list of constant expressions
    fn cval(&mut self, t: &Ty, out: &mut Vec<CExpr>) -> R<()> {
        let mask = |b: u32, v: u128| if b >= 128 { v } else { v & ((1u128 << b) - 1) };
        match self.peek().cloned() {
            Some(Tok::Num(s)) => {
                self.i += 1;
                match t {
                    Ty::Float(w) => {
                        let v: u128 = if let Some(h) = s.strip_prefix("0x") {
                            let bits = u64::from_str_radix(h, 16).unwrap_or(0);
                            if *w == 32 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 }
                        } else {
                            let f: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                            if *w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
                        };
                        out.push(CExpr::Int(v));
                    }
                    _ => {
                        let v = if s.starts_with('-') {
                            s.parse::<i128>().map_err(|e| format!("{} {}", s, e))? as u128
                        } else {
                            s.parse::<u128>().map_err(|e| format!("{} {}", s, e))?
                        };
                        out.push(CExpr::Int(mask(t.bits(), v)));
                    }
                }
            }
            Some(Tok::Word(w)) => {
                self.i += 1;
                match w.as_str() {
                    "true" => out.push(CExpr::Int(1)),
                    "false" | "null" => out.push(CExpr::Int(0)),
                    "undef" | "poison" | "zeroinitializer" | "none" => {
                        for _ in 0..t.nslots() {
                            out.push(CExpr::Int(0))
                        }
                    }
                    "splat" => {
                        self.exp('(')?;
                        let et = self.ty()?;
                        let mut o = vec![];
                        self.cval(&et, &mut o)?;
                        self.exp(')')?;
                        for _ in 0..t.nslots() {
                            out.push(o[0].clone())
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                        self.exp('(')?;
                        let et = self.ty()?;
                        let mut o = vec![];
                        self.cval(&et, &mut o)?;
                        self.eatw("to");
                        let tt = self.ty()?;
                        self.exp(')')?;
                        let v = match (o.remove(0), w.as_str()) {
                            (CExpr::Int(v), _) => CExpr::Int(mask(tt.bits(), v)),
                            (x, _) => x,
                        };
                        out.push(v);
                    }
                    "getelementptr" => {
                        while let Some(Tok::Word(w)) = self.peek() {
                            if matches!(w.as_str(), "inbounds" | "nuw" | "nusw" | "inrange") {
                                let r = w == "inrange";
                                self.i += 1;
                                if r {
                                    self.skip_paren();
                                }
                            } else {
                                break;
                            }
                        }
                        self.exp('(')?;
                        let et = self.ty()?;
                        self.exp(',')?;
                        let bt = self.ty()?;
                        let mut o = vec![];
                        self.cval(&bt, &mut o)?;
                        let mut off: i64 = 0;
                        let mut cur = et.clone();
                        let mut first = true;
                        while self.eatp(',') {
                            self.skip_attrs();
                            let it = self.ty()?;
                            let mut io = vec![];
                            self.cval(&it, &mut io)?;
                            let iv = match io[0] {
                                CExpr::Int(v) => {
                                    let b = it.bits();
                                    let sh = 128 - b;
                                    (((v << sh) as i128) >> sh) as i64
                                }
                                _ => return Err("gep idx".into()),
                            };
                            if first {
                                off += iv * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(iv as u64) as i64;
                                cur = cur.elem(iv as u64).ok_or("gep elem")?.clone();
                            }
                        }
                        self.exp(')')?;
                        match o.remove(0) {
                            CExpr::Int(v) => out.push(CExpr::Int((v as i64).wrapping_add(off) as u64 as u128)),
                            CExpr::Sym(n, k) => out.push(CExpr::Sym(n, k + off)),
                        }
                    }
                    "add" | "sub" => {
                        while !self.isp('(') {
                            self.i += 1
                        }
                        self.exp('(')?;
                        let t1 = self.ty()?;
                        let mut o = vec![];
                        self.cval(&t1, &mut o)?;
                        self.exp(',')?;
                        let t2 = self.ty()?;
                        let mut o2 = vec![];
                        self.cval(&t2, &mut o2)?;
                        self.exp(')')?;
                        match (&o[0], &o2[0]) {
                            (CExpr::Int(a), CExpr::Int(b)) => out.push(CExpr::Int(mask(t1.bits(), if w == "add" { a.wrapping_add(*b) } else { a.wrapping_sub(*b) }))),
                            (CExpr::Sym(n, k), CExpr::Int(b)) => out.push(CExpr::Sym(n.clone(), if w == "add" { k + *b as i64 } else { k - *b as i64 })),
                            _ => return Err("const expr on two symbols".into()),
                        }
                    }
                    _ => return Err(format!("const {}", w)),
                }
            }
            Some(Tok::Global(g)) => {
                self.i += 1;
                out.push(CExpr::Sym(g, 0));
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                for b in s {
                    out.push(CExpr::Int(b as u128));
                }
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => {
                self.i += 1;
                let mut close = vec![match self.t[self.i - 1] {
                    Tok::P('{') => '}',
                    Tok::P('[') => ']',
                    _ => '>',
                }];
                if close[0] == '>' && self.isp('{') {
                    self.i += 1;
                    close.insert(0, '}');
                }
                let c0 = close[0];
                if !self.isp(c0) {
                    loop {
                        let et = self.ty()?;
                        self.cval(&et, out)?;
                        if !self.eatp(',') {
                            break;
                        }
                    }
                }
                for c in close {
                    self.exp(c)?;
                }
            }
            x => return Err(format!("const? {:?}", x)),
        }
        Ok(())
    }
    fn resolve(&self, e: &CExpr) -> R<u128> {
        match e {
            CExpr::Int(v) => Ok(*v),
            CExpr::Sym(n, k) => {
                let a = self.m.sym_addr(n).ok_or_else(|| format!("unresolved @{}", n))?;
                Ok(a.wrapping_add(*k as u64) as u128)
            }
        }
    }
    fn val(&mut self, t: &Ty, fb: &mut FB) -> R<Opd> {
        if let Some(Tok::Local(n)) = self.peek().cloned() {
            self.i += 1;
            return Ok(fb.reg(&n, t));
        }
        if let Some(Tok::Meta(_)) = self.peek() {
            self.i += 1;
            return Ok(fb.cst(0));
        }
        let mut o = vec![];
        self.cval(t, &mut o)?;
        let mut vs = vec![];
        for e in &o {
            vs.push(self.resolve(e)?);
        }
        if vs.is_empty() {
            return Ok(fb.cst(0));
        }
        if vs.len() as u32 != t.nslots() {
            return Err(format!("const slots {} vs {}", vs.len(), t.nslots()));
        }
        Ok(fb.csts(&vs))
    }
    fn tval(&mut self, fb: &mut FB) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.val(&t, fb)?;
        Ok((t, v))
    }
}

impl Module {
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(i) = self.fn_idx.get(n) {
            return Some(self.fns[*i as usize].addr);
        }
        if let Some(i) = self.g_idx.get(n) {
            return Some(self.gvars[*i as usize].addr);
        }
        if let Some((t, k)) = self.aliases.get(n) {
            return self.sym_addr(t).map(|a| a.wrapping_add(*k as u64));
        }
        None
    }
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        Module::parse(text)
    }
    pub fn parse(text: String) -> R<Module> {
        let mut m = Module { text: String::new(), types: HashMap::new(), fns: vec![], fn_idx: HashMap::new(), gvars: vec![], g_idx: HashMap::new(), aliases: HashMap::new() };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut glines: Vec<&str> = vec![];
        let mut tlines: Vec<&str> = vec![];
        while pos < bytes.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                let end = text[eol..].find("\n}\n").map(|x| eol + x + 1).unwrap_or(bytes.len());
                let at = line.find('@').ok_or("define without name")?;
                let name = match &lex(&line[at..line[at..].find('(').map(|x| x + at).unwrap_or(line.len())])[0] {
                    Tok::Global(n) => n.clone(),
                    _ => return Err("define name".into()),
                };
                m.add_fn(name, Some((pos, eol + 1, end)));
                pos = end + 2;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').ok_or("declare without name")?;
                let name = match &lex(&line[at..line[at..].find('(').map(|x| x + at).unwrap_or(line.len())])[0] {
                    Tok::Global(n) => n.clone(),
                    _ => return Err("declare name".into()),
                };
                m.add_fn(name, None);
            } else if line.starts_with('@') {
                glines.push(line);
            } else if line.starts_with('%') {
                tlines.push(line);
            }
            pos = eol + 1;
        }
        // named types (resolve in order with retries)
        let mut todo: Vec<&str> = tlines;
        loop {
            let mut rest = vec![];
            let n = todo.len();
            for l in todo {
                let eq = l.find(" = type ").ok_or("type line")?;
                let name = match &lex(&l[..eq])[0] {
                    Tok::Local(n) => n.clone(),
                    _ => return Err("type name".into()),
                };
                let r = {
                    let mut p = P::new(&m, &l[eq + 8..]);
                    p.ty()
                };
                match r {
                    Ok(t) => {
                        m.types.insert(name, t);
                    }
                    Err(_) => rest.push(l),
                }
            }
            if rest.is_empty() {
                break;
            }
            if rest.len() == n {
                return Err(format!("cannot resolve types: {}", rest[0]));
            }
            todo = rest;
        }
        for l in glines {
            m.gline(l)?;
        }
        let mut a = DATA_BASE;
        for (i, g) in m.gvars.iter_mut().enumerate() {
            if g.tls {
                g.addr = DATA_BASE - 0x40_0000 + 8 * i as u64; // symbolic handle, resolved per thread
                continue;
            }
            a = align_up(a, g.align.max(8));
            g.addr = a;
            a += g.size + 16;
        }
        m.text = text;
        Ok(m)
    }
    pub fn data_end(&self) -> u64 {
        self.gvars.iter().filter(|g| !g.tls).map(|g| g.addr + g.size + 16).max().unwrap_or(DATA_BASE)
    }
    fn add_fn(&mut self, name: String, body: Option<(usize, usize, usize)>) {
        let id = self.fns.len() as u32;
        self.fn_idx.insert(name.clone(), id);
        self.fns.push(FnInfo { name, body, addr: CODE_BASE + 16 * id as u64, cell: OnceLock::new() });
    }
    fn gline(&mut self, l: &str) -> R<()> {
        let mut g = GVar { name: String::new(), size: 0, align: 1, init: vec![], bytes: vec![], tls: false, constant: false, external: false, addr: 0 };
        let (name, alias) = {
            let mut p = P::new(self, l);
            let name = match p.peek().cloned() {
                Some(Tok::Global(n)) => n,
                _ => return Err("global".into()),
            };
            p.i += 1;
            p.exp('=')?;
            let mut alias = None;
            loop {
                match p.peek().cloned() {
                    Some(Tok::Word(w)) => {
                        p.i += 1;
                        match w.as_str() {
                            "global" => break,
                            "constant" => {
                                g.constant = true;
                                break;
                            }
                            "thread_local" => {
                                g.tls = true;
                                p.skip_paren();
                            }
                            "external" | "extern_weak" => g.external = true,
                            "alias" => {
                                let _ = p.ty()?;
                                p.exp(',')?;
                                let t = p.ty()?;
                                let mut o = vec![];
                                p.cval(&t, &mut o)?;
                                if let CExpr::Sym(n, k) = &o[0] {
                                    alias = Some((n.clone(), *k));
                                }
                                break;
                            }
                            _ => {}
                        }
                    }
                    Some(Tok::P('(')) => p.skip_paren(),
                    x => return Err(format!("global {:?} in {}", x, &l[..l.len().min(100)])),
                }
            }
            if alias.is_none() {
                let t = p.ty()?;
                g.size = t.size();
                g.align = t.align();
                if !g.external {
                    let mut o = vec![];
                    p.cval(&t, &mut o).map_err(|e| format!("{} in global {}", e, name))?;
                    let mut parts = vec![];
                    t.parts(0, &mut parts);
                    if parts.len() != o.len() {
                        return Err(format!("global {} parts {} {}", name, parts.len(), o.len()));
                    }
                    for ((off, w), e) in parts.into_iter().zip(o) {
                        if !matches!(e, CExpr::Int(0)) {
                            g.init.push((off as u64, w, e));
                        }
                    }
                }
                if let Some(ix) = l.rfind(", align ") {
                    let s: String = l[ix + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(a) = s.parse::<u64>() {
                        g.align = g.align.max(a);
                    }
                }
            }
            (name, alias)
        };
        if let Some(a) = alias {
            self.aliases.insert(name, a);
            return Ok(());
        }
        g.name = name.clone();
        self.g_idx.insert(name, self.gvars.len() as u32);
        self.gvars.push(g);
        Ok(())
    }
    pub fn func(&self, id: u32) -> R<&Func> {
        let fi = &self.fns[id as usize];
        if let Some(f) = fi.cell.get() {
            return Ok(f);
        }
        let f = self.parse_fn(id)?;
        let _ = fi.cell.set(Box::new(f));
        Ok(fi.cell.get().unwrap())
    }
    fn parse_fn(&self, id: u32) -> R<Func> {
        let fi = &self.fns[id as usize];
        let (h, b, e) = fi.body.ok_or_else(|| format!("no body for {}", fi.name))?;
        let header = &self.text[h..b];
        let body = &self.text[b..e];
        let mut fb = FB { names: HashMap::new(), nslots: 0, consts: vec![], cmap: HashMap::new() };
        // params
        let mut params = vec![];
        {
            let mut p = P::new(self, header);
            while !matches!(p.peek(), Some(Tok::Global(_))) {
                p.i += 1
            }
            p.i += 1;
            p.exp('(')?;
            let mut k = 0;
            while !p.isp(')') {
                if p.isp('.') || matches!(p.peek(), Some(Tok::Word(w)) if w.starts_with("...")) {
                    p.i += 1;
                    continue;
                }
                let t = p.ty()?;
                p.skip_attrs();
                let n = if let Some(Tok::Local(n)) = p.peek().cloned() {
                    p.i += 1;
                    n
                } else {
                    let n = format!("{}", k);
                    n
                };
                k += 1;
                let s = fb.reg(&n, &t);
                params.push((s, t.nslots()));
                p.eatp(',');
            }
        }
        // logical lines
        let mut lines: Vec<(String, u32)> = vec![];
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks_lines: Vec<Vec<(String, u32)>> = vec![];
        let mut acc = String::new();
        let mut acc_mode = false;
        let mut cur: Option<Vec<(String, u32)>> = None;
        let mut lno = 0u32;
        for raw in body.lines() {
            lno += 1;
            if acc_mode {
                acc.push(' ');
                acc.push_str(raw);
                if raw.trim_start().starts_with(']') || raw.trim_start().starts_with("to label") {
                    acc_mode = false;
                    cur.as_mut().unwrap().push((std::mem::take(&mut acc), lno));
                }
                continue;
            }
            if raw.is_empty() || raw.starts_with(';') || raw.trim_start().starts_with(';') {
                continue;
            }
            if !raw.starts_with(' ') {
                // label
                let name = if let Some(r) = raw.strip_prefix('"') {
                    let q = r.find('"').ok_or("label")?;
                    String::from_utf8_lossy(&unescape(r[..q].as_bytes())).into_owned()
                } else {
                    let c = raw.find(':').ok_or_else(|| format!("label? {}", raw))?;
                    raw[..c].to_string()
                };
                if let Some(c) = cur.take() {
                    blocks_lines.push(c);
                }
                labels.insert(name, blocks_lines.len() as u32);
                cur = Some(vec![]);
                continue;
            }
            if cur.is_none() {
                cur = Some(vec![]);
                // entry without label gets the next number
                labels.insert(format!("{}", params.len()), 0);
            }
            let tr = raw.trim_start();
            if tr.starts_with("switch ") && !tr.contains(']') {
                acc_mode = true;
                acc.push_str(raw);
                continue;
            }
            if (tr.starts_with("invoke ") || tr.contains("= invoke ")) && !tr.contains(" to label ") {
                acc_mode = true;
                acc.push_str(raw);
                continue;
            }
            cur.as_mut().unwrap().push((raw.to_string(), lno));
        }
        if let Some(c) = cur.take() {
            blocks_lines.push(c);
        }
        let _ = &mut lines;
        let mut blocks = vec![];
        let mut n_ins = 0;
        for bl in &blocks_lines {
            let mut blk = Block::default();
            for (l, ln) in bl {
                let r = self.ins(l, &mut fb, &labels, &mut blk);
                if let Err(e) = r {
                    blk.ins.push(I::Unsup(format!("{} in `{}`", e, l.trim())));
                }
                while blk.lines.len() < blk.ins.len() {
                    blk.lines.push(*ln);
                }
            }
            n_ins += blk.ins.len();
            blocks.push(blk);
        }
        for b in blocks.iter_mut() {
            let mut preds: Vec<u32> = vec![];
            for (_, _, inc) in &b.phis {
                for (p, _) in inc {
                    if !preds.contains(p) {
                        preds.push(*p)
                    }
                }
            }
            for p in preds {
                let mut v = vec![];
                for (d, n, inc) in &b.phis {
                    let (_, o) = inc.iter().find(|x| x.0 == p).ok_or("phi edge")?;
                    v.push((*o, *d, *n));
                }
                b.edges.push((p, v.into_boxed_slice()));
            }
        }
        Ok(Func { name: fi.name.clone(), id, params, nslots: fb.nslots, consts: fb.consts, blocks, n_ins })
    }
    fn ins(&self, l: &str, fb: &mut FB, labels: &HashMap<String, u32>, blk: &mut Block) -> R<()> {
        let mut p = P::new(self, l);
        let mut dname = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1).cloned()) {
            dname = Some(n);
            p.i = 2;
        }
        let lab = |p: &mut P| -> R<u32> {
            p.eatw("label");
            match p.peek().cloned() {
                Some(Tok::Local(n)) => {
                    p.i += 1;
                    labels.get(&n).copied().ok_or_else(|| format!("label {}", n))
                }
                x => Err(format!("label? {:?}", x)),
            }
        };
        let mut op = p.word()?;
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.word()?;
        }
        let vl = |t: &Ty| -> (u32, u32) {
            match t {
                Ty::Vec(n, e) => (*n as u32, e.bits()),
                _ => (1, t.bits()),
            }
        };
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let (mut nuw, mut nsw) = (false, false);
                loop {
                    if p.eatw("nuw") {
                        nuw = true
                    } else if p.eatw("nsw") {
                        nsw = true
                    } else if p.eatw("exact") || p.eatw("disjoint") {
                    } else {
                        break;
                    }
                }
                let (t, a) = p.tval(fb)?;
                p.exp(',')?;
                let b = p.val(&t, fb)?;
                let (n, w) = vl(&t);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                let dst = fb.reg(&dname.ok_or("dst")?, &t);
                blk.ins.push(I::Bin { op: o, w, a, b, dst, n, nuw, nsw });
            }
            "icmp" => {
                p.eatw("samesign");
                let pr = match p.word()?.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("pred {}", x)),
                };
                let (t, a) = p.tval(fb)?;
                p.exp(',')?;
                let b = p.val(&t, fb)?;
                let (n, w) = vl(&t);
                let rt = if n > 1 || matches!(t, Ty::Vec(..)) { Ty::Vec(n as u64, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                let dst = fb.reg(&dname.ok_or("dst")?, &rt);
                blk.ins.push(I::Cmp { p: pr, w, a, b, dst, n });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" => {
                while p.eatw("nuw") || p.eatw("nsw") || p.eatw("nneg") {}
                let (t, a) = p.tval(fb)?;
                let tt = if op == "freeze" {
                    t.clone()
                } else {
                    p.eatw("to");
                    p.ty()?
                };
                let (n, w) = vl(&t);
                let (n2, w2) = vl(&tt);
                let dst = fb.reg(&dname.ok_or("dst")?, &tt);
                if op == "freeze" {
                    blk.ins.push(I::Copy { src: a, dst, n: t.nslots() });
                } else if op == "bitcast" && (n != n2 || w != w2) {
                    blk.ins.push(I::BitVec { a, an: n, aw: w, dst, dn: n2, dw: w2 });
                } else {
                    let k = match op.as_str() {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        "ptrtoint" | "inttoptr" => {
                            if w2 < w {
                                CastK::Trunc
                            } else if w2 > w {
                                CastK::ZExt
                            } else {
                                CastK::Same
                            }
                        }
                        _ => CastK::Same,
                    };
                    blk.ins.push(I::Cast { k, from: w, to: w2, a, dst, n });
                }
            }
            "select" => {
                let (ct, c) = p.tval(fb)?;
                p.exp(',')?;
                let (t, a) = p.tval(fb)?;
                p.exp(',')?;
                let (_, b) = p.tval(fb)?;
                let dst = fb.reg(&dname.ok_or("dst")?, &t);
                let w = match &t {
                    Ty::Vec(_, e) => e.bits(),
                    Ty::Struct(..) | Ty::Arr(..) => 0,
                    _ => t.bits(),
                };
                if w == 0 {
                    // aggregates: per-slot widths are needed only for symbolic conditions
                    let mut parts = vec![];
                    t.parts(0, &mut parts);
                    for (k, (_, w)) in parts.iter().enumerate() {
                        blk.ins.push(I::Select { c, cn: 1, a: a + k as u32, b: b + k as u32, dst: dst + k as u32, n: 1, w: *w });
                    }
                } else {
                    blk.ins.push(I::Select { c, cn: ct.nslots(), a, b, dst, n: t.nslots(), w });
                }
            }
            "phi" => {
                let t = p.ty()?;
                let dst = fb.reg(&dname.ok_or("dst")?, &t);
                let mut inc = vec![];
                loop {
                    p.exp('[')?;
                    let v = p.val(&t, fb)?;
                    p.exp(',')?;
                    let b = lab(&mut p)?;
                    p.exp(']')?;
                    inc.push((b, v));
                    if !p.eatp(',') {
                        break;
                    }
                    if !p.isp('[') {
                        break;
                    }
                }
                blk.phis.push((dst, t.nslots(), inc));
            }
            "load" => {
                let atomic = p.eatw("atomic");
                p.eatw("volatile");
                let t = p.ty()?;
                p.exp(',')?;
                let (_, ptr) = p.tval(fb)?;
                let ord = if atomic { Some(self.ord(&mut p)?) } else { None };
                let dst = fb.reg(&dname.ok_or("dst")?, &t);
                if let Ty::Vec(n, e) = &t {
                    if e.bits() % 8 != 0 {
                        blk.ins.push(I::LoadVecBits { ptr, dst, n: *n as u32, w: e.bits() });
                        return Ok(());
                    }
                }
                let mut parts = vec![];
                t.parts(0, &mut parts);
                blk.ins.push(I::Load { ptr, dst, parts: parts.into_boxed_slice(), ord });
            }
            "store" => {
                let atomic = p.eatw("atomic");
                p.eatw("volatile");
                let (t, src) = p.tval(fb)?;
                p.exp(',')?;
                let (_, ptr) = p.tval(fb)?;
                let ord = if atomic { Some(self.ord(&mut p)?) } else { None };
                if let Ty::Vec(n, e) = &t {
                    if e.bits() % 8 != 0 {
                        blk.ins.push(I::StoreVecBits { ptr, src, n: *n as u32, w: e.bits() });
                        return Ok(());
                    }
                }
                let mut parts = vec![];
                t.parts(0, &mut parts);
                blk.ins.push(I::Store { ptr, src, parts: parts.into_boxed_slice(), ord });
            }
            "getelementptr" => {
                while let Some(Tok::Word(w)) = p.peek() {
                    if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") {
                        p.i += 1
                    } else {
                        break;
                    }
                }
                let et = p.ty()?;
                p.exp(',')?;
                let (bt, base) = p.tval(fb)?;
                if matches!(bt, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (it, iv) = p.tval(fb)?;
                    let cv = if iv >= CBASE {
                        let v = fb.consts[(iv - CBASE) as usize];
                        let sh = 128 - it.bits();
                        Some((((v << sh) as i128) >> sh) as i64)
                    } else {
                        None
                    };
                    if first {
                        first = false;
                        match cv {
                            Some(v) => off = off.wrapping_add(v.wrapping_mul(cur.size() as i64)),
                            None => idx.push((iv, cur.size(), it.bits())),
                        }
                    } else {
                        match cv {
                            Some(v) => {
                                off = off.wrapping_add(if matches!(cur, Ty::Struct(..)) { cur.field_off(v as u64) as i64 } else { v.wrapping_mul(cur.elem(0).ok_or("gep")?.size() as i64) });
                                let e = cur.elem(v as u64).ok_or("gep elem")?.clone();
                                cur = e;
                            }
                            None => {
                                let e = cur.elem(0).ok_or("gep elem")?.clone();
                                idx.push((iv, e.size(), it.bits()));
                                cur = e;
                            }
                        }
                    }
                }
                let dst = fb.reg(&dname.ok_or("dst")?, &Ty::Ptr);
                blk.ins.push(I::Gep { base, off: off as u64, idx: idx.into_boxed_slice(), dst });
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty()?;
                let mut count = fb.cst(1);
                let mut align = t.align();
                while p.eatp(',') {
                    if p.eatw("align") {
                        align = align.max(p.num()?);
                    } else if p.is_ty() {
                        let (_, c) = p.tval(fb)?;
                        count = c;
                    } else {
                        break;
                    }
                }
                let dst = fb.reg(&dname.ok_or("dst")?, &Ty::Ptr);
                blk.ins.push(I::Alloca { size: t.size(), align, count, dst });
            }
            "call" | "invoke" => {
                p.skip_attrs();
                let rt = p.ty()?;
                if p.isp('(') {
                    p.skip_paren();
                }
                let callee = match p.peek().cloned() {
                    Some(Tok::Global(n)) => {
                        p.i += 1;
                        let mut n = n;
                        while let Some((t, _)) = self.aliases.get(&n) {
                            n = t.clone();
                        }
                        let id = *self.fn_idx.get(&n).ok_or_else(|| format!("unknown fn {}", n))?;
                        Callee::Fn(id)
                    }
                    Some(Tok::Local(n)) => {
                        p.i += 1;
                        Callee::Ind(fb.reg(&n, &Ty::Ptr))
                    }
                    Some(Tok::Word(w)) if w == "asm" => {
                        let mut s = String::new();
                        while !p.isp('(') {
                            if let Some(Tok::Str(b)) = p.peek() {
                                s.push_str(&String::from_utf8_lossy(b));
                                s.push('|');
                            }
                            p.i += 1;
                        }
                        Callee::Asm(s)
                    }
                    Some(Tok::Word(_)) => {
                        let o = p.val(&Ty::Ptr, fb)?;
                        Callee::Ind(o)
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                p.exp('(')?;
                let mut args = vec![];
                while !p.isp(')') {
                    let t = p.ty()?;
                    p.skip_attrs();
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        while p.i < p.t.len() {
                            if p.isp('(') {
                                d += 1
                            }
                            if p.isp(')') {
                                if d == 0 {
                                    break;
                                }
                                d -= 1
                            }
                            if p.isp(',') && d == 0 {
                                break;
                            }
                            p.i += 1;
                        }
                    } else {
                        let v = p.val(&t, fb)?;
                        let w = match &t {
                            Ty::Vec(_, e) => e.bits(),
                            _ => t.bits(),
                        };
                        args.push((v, t.nslots(), w));
                    }
                    p.eatp(',');
                }
                p.i += 1;
                let mut cont = u32::MAX;
                if op == "invoke" {
                    while !p.isw("to") {
                        p.i += 1;
                        if p.i >= p.t.len() {
                            return Err("invoke".into());
                        }
                    }
                    p.i += 1;
                    cont = lab(&mut p)?;
                }
                let dst = match dname {
                    Some(n) => fb.reg(&n, &rt),
                    None => u32::MAX,
                };
                let retw = match &rt {
                    Ty::Struct(f, _) if !f.is_empty() => f[0].bits(),
                    Ty::Vec(_, e) => e.bits(),
                    _ => rt.bits(),
                };
                blk.ins.push(I::Call { callee, args: args.into_boxed_slice(), dst, nret: rt.nslots(), retw, cont });
            }
            "br" => {
                if p.isw("label") {
                    let t = lab(&mut p)?;
                    blk.ins.push(I::Br(t));
                } else {
                    let (_, c) = p.tval(fb)?;
                    p.exp(',')?;
                    let a = lab(&mut p)?;
                    p.exp(',')?;
                    let b = lab(&mut p)?;
                    blk.ins.push(I::CondBr(c, a, b));
                }
            }
            "switch" => {
                let (t, v) = p.tval(fb)?;
                p.exp(',')?;
                let def = lab(&mut p)?;
                p.exp('[')?;
                let mut cases = vec![];
                while !p.isp(']') {
                    let ct = p.ty()?;
                    let mut o = vec![];
                    p.cval(&ct, &mut o)?;
                    let c = match o[0] {
                        CExpr::Int(v) => v,
                        _ => return Err("switch case".into()),
                    };
                    p.exp(',')?;
                    let l = lab(&mut p)?;
                    cases.push((c, l));
                }
                blk.ins.push(I::Switch { v, w: t.bits(), cases: cases.into_boxed_slice(), def });
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    let z = fb.cst(0);
                    blk.ins.push(I::Ret { v: z, n: 0 });
                } else {
                    let v = p.val(&t, fb)?;
                    blk.ins.push(I::Ret { v, n: t.nslots() });
                }
            }
            "unreachable" => blk.ins.push(I::Unreachable),
            "atomicrmw" => {
                p.eatw("volatile");
                let o = match p.word()?.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "nand" => RmwOp::Nand,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => return Err(format!("rmw {}", x)),
                };
                let (_, ptr) = p.tval(fb)?;
                p.exp(',')?;
                let (t, v) = p.tval(fb)?;
                let ord = self.ord(&mut p)?;
                let dst = fb.reg(dname.as_deref().unwrap_or("\0rmw"), &t);
                blk.ins.push(I::Rmw { op: o, ptr, v, w: t.bits(), dst, ord });
            }
            "cmpxchg" => {
                p.eatw("weak");
                p.eatw("volatile");
                let (_, ptr) = p.tval(fb)?;
                p.exp(',')?;
                let (t, cmp) = p.tval(fb)?;
                p.exp(',')?;
                let (_, new) = p.tval(fb)?;
                let ord = self.ord(&mut p)?;
                let ford = self.ord(&mut p)?;
                let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
                let dst = fb.reg(dname.as_deref().unwrap_or("\0cx"), &rt);
                blk.ins.push(I::CmpXchg { ptr, cmp, new, w: t.bits(), dst, ord, ford });
            }
            "fence" => {
                let o = self.ord(&mut p)?;
                blk.ins.push(I::Fence(o));
            }
            "extractvalue" => {
                let (t, a) = p.tval(fb)?;
                let mut cur = t;
                let mut off = 0;
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let i = p.num()?;
                    off += cur.slot_off(i);
                    cur = cur.elem(i).ok_or("ev")?.clone();
                }
                let dst = fb.reg(&dname.ok_or("dst")?, &cur);
                blk.ins.push(I::Copy { src: a + off, dst, n: cur.nslots() });
            }
            "insertvalue" => {
                let (t, a) = p.tval(fb)?;
                p.exp(',')?;
                let (et, e) = p.tval(fb)?;
                let mut cur = t.clone();
                let mut off = 0;
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let i = p.num()?;
                    off += cur.slot_off(i);
                    cur = cur.elem(i).ok_or("iv")?.clone();
                }
                let dst = fb.reg(&dname.ok_or("dst")?, &t);
                blk.ins.push(I::InsVal { a, n: t.nslots(), e, en: et.nslots(), off, dst });
            }
            "insertelement" => {
                let (t, v) = p.tval(fb)?;
                p.exp(',')?;
                let (_, e) = p.tval(fb)?;
                p.exp(',')?;
                let (_, i) = p.tval(fb)?;
                let dst = fb.reg(&dname.ok_or("dst")?, &t);
                blk.ins.push(I::InsElem { v, n: t.nslots(), e, i, dst });
            }
            "extractelement" => {
                let (t, v) = p.tval(fb)?;
                p.exp(',')?;
                let (_, i) = p.tval(fb)?;
                let et = t.elem(0).ok_or("ee")?.clone();
                let dst = fb.reg(&dname.ok_or("dst")?, &et);
                blk.ins.push(I::ExtElem { v, n: t.nslots(), i, dst });
            }
            "shufflevector" => {
                let (t, a) = p.tval(fb)?;
                p.exp(',')?;
                let (_, b) = p.tval(fb)?;
                p.exp(',')?;
                let mt = p.ty()?;
                let mut o = vec![];
                p.cval(&mt, &mut o)?;
                let mask: Vec<u32> = o
                    .iter()
                    .map(|e| match e {
                        CExpr::Int(v) => *v as u32,
                        _ => 0,
                    })
                    .collect();
                let et = t.elem(0).ok_or("sv")?.clone();
                let rt = Ty::Vec(mask.len() as u64, Box::new(et));
                let dst = fb.reg(&dname.ok_or("dst")?, &rt);
                blk.ins.push(I::Shuffle { a, b, n: t.nslots(), mask: mask.into_boxed_slice(), dst });
            }
            "landingpad" | "resume" | "cleanuppad" | "catchpad" | "cleanupret" | "catchswitch" => {
                blk.ins.push(I::Unsup(format!("{} reached", op)));
                if let Some(n) = dname {
                    fb.reg(&n, &Ty::Struct(vec![Ty::Ptr, Ty::Int(32)], false));
                }
            }
            "cleanup" | "catch" | "filter" => {}
            _ => {
                return Err(format!("opcode {}", op));
            }
        }
        Ok(())
    }
    fn ord(&self, p: &mut P) -> R<Ord> {
        loop {
            match p.peek().cloned() {
                Some(Tok::Word(w)) => {
                    p.i += 1;
                    return Ok(match w.as_str() {
                        "unordered" | "monotonic" => Ord::Mono,
                        "acquire" => Ord::Acq,
                        "release" => Ord::Rel,
                        "acq_rel" => Ord::AcqRel,
                        "seq_cst" => Ord::Seq,
                        "syncscope" => {
                            p.skip_paren();
                            continue;
                        }
                        x => return Err(format!("ordering {}", x)),
                    });
                }
                x => return Err(format!("ordering {:?}", x)),
            }
        }
    }
}
