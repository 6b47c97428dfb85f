//! Parser for the textual LLVM IR produced by rustc (whole-program module).
use crate::expr::{mask, Bits, V};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Arc<Ty>),
    Vector(u64, Arc<Ty>),
    Struct(bool, Arc<Vec<Ty>>),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            t => (t.size() * 8) as u32,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(packed, fs) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Store size for scalars, allocation size for aggregates
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(_, fs) => {
                let (o, _) = self.layout();
                let end = fs
                    .last()
                    .map(|l| o[fs.len() - 1] + l.alloc_size())
                    .unwrap_or(0);
                up(end, self.align())
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        up(self.size(), self.align())
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(packed, fs) => {
                let mut off = 0;
                let mut v = vec![];
                for f in fs.iter() {
                    if !packed {
                        off = up(off, f.align());
                    }
                    v.push(off);
                    off += f.alloc_size();
                }
                (v, off)
            }
            _ => (vec![], 0),
        }
    }
    pub fn elems(&self) -> Vec<(u64, Ty)> {
        match self {
            Ty::Struct(_, fs) => {
                let (o, _) = self.layout();
                fs.iter().enumerate().map(|(i, f)| (o[i], f.clone())).collect()
            }
            Ty::Array(n, t) => (0..*n).map(|i| (i * t.alloc_size(), (**t).clone())).collect(),
            Ty::Vector(n, t) => (0..*n)
                .map(|i| (i * ((t.bits() as u64 + 7) / 8), (**t).clone()))
                .collect(),
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tok {
    Word(Box<str>),
    Local(Box<str>),
    Global(Box<str>),
    Str(Vec<u8>),
    Meta(Box<str>),
    P(char),
    NL,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ext(usize),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum GepIdx {
    Scale(Op, u32, u64),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bin, u32, Op, Op),
    VBin(u32, Bin, u32, Op, Op),
    Icmp(u32, Pred, u32, Op, Op),
    VIcmp(u32, Pred, u32, Op, Op),
    Cast(u32, Cast, u32, u32, Op),
    VCast(u32, Cast, Ty, Ty, Op),
    Select(u32, Op, Op, Op, Ty, bool),
    Alloca(u32, u64, u64, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, u64, Vec<GepIdx>),
    Extract(u32, Op, Vec<u32>),
    Insert(u32, Op, Op, Vec<u32>, Ty),
    ExtractElem(u32, Op, Op),
    InsertElem(u32, Op, Op, Op, u64),
    Shuffle(u32, Op, Op, Vec<i64>),
    Freeze(u32, Op),
    CmpXchg(u32, Op, Op, Op, u32),
    AtomicRmw(u32, String, Op, Op, u32),
    Fence,
    Call(Option<u32>, Callee, Vec<(Op, Ty)>, Ty, u32),
    Invoke(Option<u32>, Callee, Vec<(Op, Ty)>, Ty, u32, u32),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Arc<Vec<(u64, u32)>>, u32),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub param_attr_byval: bool,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
}

#[derive(Default)]
pub struct DbgLoc {
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub exts: Vec<String>,
    pub globals: Vec<Global>,
    pub gbase: u64,
    pub image: Vec<u8>,
    pub faddr: Vec<u64>,
    /// !N -> (line, scope, inlinedAt)
    pub dilocs: HashMap<u32, DbgLoc>,
    /// scope id -> (name, linkage name, file id, parent scope)
    pub discopes: HashMap<u32, (String, String, u32, u32)>,
    pub difiles: HashMap<u32, String>,
}

pub const FBASE: u64 = 0x10_0000;
pub const GBASE: u64 = 0x1000_0000;

struct Lexer<'a> {
    s: &'a [u8],
    i: usize,
}

fn namechar(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lexer<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(c);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn name(&mut self) -> Box<str> {
        if self.s[self.i] == b'"' {
            let q = self.quoted();
            return String::from_utf8_lossy(&q).into_owned().into();
        }
        let st = self.i;
        while self.i < self.s.len() && namechar(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().into()
    }
    fn lex(mut self) -> Vec<Tok> {
        let mut out = vec![];
        while self.i < self.s.len() {
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b'\n' => {
                    out.push(Tok::NL);
                    self.i += 1
                }
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                b'%' => {
                    self.i += 1;
                    out.push(Tok::Local(self.name()))
                }
                b'@' => {
                    self.i += 1;
                    out.push(Tok::Global(self.name()))
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len() && self.s[self.i] == b'{' {
                        out.push(Tok::Meta("".into()));
                    } else if self.i < self.s.len() && self.s[self.i] == b'"' {
                        self.quoted();
                        out.push(Tok::Meta("".into()));
                    } else {
                        let n = self.name();
                        out.push(Tok::Meta(n));
                    }
                }
                b'"' => {
                    let q = self.quoted();
                    // label of the form "foo":
                    if self.i < self.s.len() && self.s[self.i] == b':' {
                        out.push(Tok::Word(String::from_utf8_lossy(&q).into_owned().into()));
                    } else {
                        out.push(Tok::Str(q));
                    }
                }
                b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                    self.i += 1;
                    let q = self.quoted();
                    out.push(Tok::Str(q));
                }
                b'#' => {
                    self.i += 1;
                    let n = self.name();
                    out.push(Tok::Meta(n));
                }
                b'.' if self.s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    out.push(Tok::Word("...".into()));
                }
                c if namechar(c) => {
                    let n = self.name();
                    out.push(Tok::Word(n))
                }
                c => {
                    out.push(Tok::P(c as char));
                    self.i += 1
                }
            }
        }
        out.push(Tok::NL);
        out
    }
}

struct Ctx {
    named: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    exts: HashMap<String, usize>,
    extnames: Vec<String>,
    fidx: HashMap<String, usize>,
}

struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
    c: &'a mut Ctx,
    regs: HashMap<String, u32>,
    nregs: u32,
}

type PR<T> = Result<T, String>;

#[derive(Debug)]
enum Init {
    Val(V, Ty),
    Bytes(Vec<u8>),
    Agg(Vec<(u64, Init)>),
    Zero,
}

impl<'a> Parser<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> PR<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?} got {:?} before {:?}", self.peek(), &self.t[self.i..(self.i + 6).min(self.t.len())]))
        }
    }
    fn word(&self) -> Option<&str> {
        match self.peek() {
            Tok::Word(w) => Some(w),
            _ => None,
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_nl(&mut self) {
        while self.i < self.t.len() && matches!(self.peek(), Tok::NL) {
            self.i += 1
        }
    }
    fn skip_line(&mut self) {
        while self.i < self.t.len() && !matches!(self.peek(), Tok::NL) {
            self.i += 1
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => {
                (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(&**w, "ptr" | "void" | "float" | "double" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat")
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(n) => self.c.named.contains_key(&**n),
            _ => false,
        }
    }
    fn ty(&mut self) -> PR<Ty> {
        let t = match self.next() {
            Tok::Word(w) => match &*w {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Float,
                "double" => Ty::Double,
                "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                w => return Err(format!("bad type {w}")),
            },
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Array(n, Arc::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.tylist('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(true, Arc::new(f))
                } else {
                    let n = self.num()?;
                    if !self.eat_w("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vector(n, Arc::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(false, Arc::new(self.tylist('}')?)),
            Tok::Local(n) => self.c.named.get(&*n).cloned().ok_or(format!("unknown type {n}"))?,
            t => return Err(format!("bad type tok {t:?}")),
        };
        Ok(t)
    }
    fn tylist(&mut self, end: char) -> PR<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn num(&mut self) -> PR<u64> {
        match self.next() {
            Tok::Word(w) => w.parse().map_err(|_| format!("num {w}")),
            t => Err(format!("num {t:?}")),
        }
    }
    fn skip_parens(&mut self) {
        if self.eat_p('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    /// Skip attributes until a type
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type() {
            match self.next() {
                Tok::Word(_) | Tok::Str(_) | Tok::Meta(_) => {
                    if self.is_p('=') {
                        self.i += 2;
                    }
                    self.skip_parens();
                }
                _ => {}
            }
        }
    }
    /// skip parameter attributes; stops at a value
    fn skip_param_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => match &**w {
                    "align" => {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_parens()
                        } else {
                            self.i += 1
                        }
                    }
                    "noundef" | "nonnull" | "noalias" | "readonly" | "writeonly" | "readnone" | "captures" | "dereferenceable"
                    | "dereferenceable_or_null" | "zeroext" | "signext" | "inreg" | "sret" | "byval" | "nocapture" | "nofree" | "nest"
                    | "returned" | "range" | "initializes" | "immarg" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind"
                    | "dead_on_return" | "nofpclass" | "noext" | "swiftself" | "inalloca" | "preallocated" | "byref" | "elementtype" => {
                        self.i += 1;
                        self.skip_parens();
                    }
                    _ => return,
                },
                Tok::Str(_) => {
                    self.i += 1;
                    if self.is_p('=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, ty: &Ty) -> PR<Op> {
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Op::R(self.reg(&n)));
        }
        Ok(Op::K(self.konst(ty)?))
    }
    fn gaddr(&mut self, n: &str) -> PR<u64> {
        self.c.gaddr.get(n).copied().ok_or(format!("unknown global @{n}"))
    }
    fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => V::konst(Bits::zero(*w)),
            Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => V::Agg(Arc::new(ty.elems().iter().map(|(_, t)| Self::zero(t)).collect())),
            _ => V::C(0),
        }
    }
    fn parse_int(w: &str, bits: u32) -> PR<V> {
        let neg = w.starts_with('-');
        let d = if neg { &w[1..] } else { w };
        if bits <= 64 {
            let x: i128 = d.parse().map_err(|_| format!("int {w}"))?;
            let x = if neg { -x } else { x };
            Ok(V::C((x as u64) & mask(bits)))
        } else {
            // decimal bignum
            let mut b = Bits::zero(bits);
            for ch in d.bytes() {
                if !ch.is_ascii_digit() {
                    return Err(format!("int {w}"));
                }
                b = b.mul_small(10).add(&Bits::from_u64((ch - b'0') as u64, bits));
            }
            if neg {
                b = Bits::zero(bits).sub(&b);
            }
            Ok(V::konst(b))
        }
    }
    fn konst(&mut self, ty: &Ty) -> PR<V> {
        match self.next() {
            Tok::Word(w) => match &*w {
                "null" | "false" | "none" => Ok(V::C(0)),
                "true" => Ok(V::C(1)),
                "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(ty)),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.konst(&t)?;
                    self.exp_p(')')?;
                    match ty {
                        Ty::Vector(n, _) => Ok(V::Agg(Arc::new(vec![v; *n as usize]))),
                        _ => Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    self.eat_flags();
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    self.exp_p(',')?;
                    let bt = self.ty()?;
                    let base = self.konst(&bt)?.as_c()?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        idx.push(self.konst(&it)?.as_c()?);
                    }
                    self.exp_p(')')?;
                    let mut addr = base;
                    let mut cur = t.clone();
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            addr = addr.wrapping_add(i.wrapping_mul(cur.alloc_size()));
                        } else {
                            let (o, nt) = Self::index(&cur, *i)?;
                            addr = addr.wrapping_add(o);
                            cur = nt;
                        }
                    }
                    Ok(V::C(addr))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.konst(&t)?;
                    if !self.eat_w("to") {
                        return Err("to".into());
                    }
                    let t2 = self.ty()?;
                    self.exp_p(')')?;
                    if &*w == "trunc" || &*w == "ptrtoint" {
                        return Ok(V::C(v.as_c()? & mask(t2.bits())));
                    }
                    Ok(v)
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    self.eat_flags();
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.konst(&t)?.as_c()?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.konst(&t2)?.as_c()?;
                    self.exp_p(')')?;
                    let r = match &*w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << b,
                        _ => a.wrapping_mul(b),
                    };
                    Ok(V::C(r & mask(t.bits())))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                w if matches!(ty, Ty::Float | Ty::Double) => {
                    let d: f64 = if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {w}"))?)
                    } else {
                        w.parse().map_err(|_| format!("float {w}"))?
                    };
                    // exponent form such as 1.0e+00 may be split by the lexer
                    Ok(V::C(if matches!(ty, Ty::Float) { (d as f32).to_bits() as u64 } else { d.to_bits() }))
                }
                w => Self::parse_int(w, ty.bits()),
            },
            Tok::Global(n) => Ok(V::C(self.gaddr(&n)?)),
            Tok::Str(s) => Ok(V::Agg(Arc::new(s.iter().map(|b| V::C(*b as u64)).collect()))),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.klist('}')?;
                    self.exp_p('>')?;
                    Ok(V::Agg(Arc::new(v)))
                } else {
                    let v = self.klist('>')?;
                    Ok(V::Agg(Arc::new(v)))
                }
            }
            Tok::P('{') => Ok(V::Agg(Arc::new(self.klist('}')?))),
            Tok::P('[') => Ok(V::Agg(Arc::new(self.klist(']')?))),
            t => Err(format!("const {t:?}")),
        }
    }
    fn klist(&mut self, end: char) -> PR<Vec<V>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn index(cur: &Ty, i: u64) -> PR<(u64, Ty)> {
        match cur {
            Ty::Struct(_, fs) => {
                let (o, _) = cur.layout();
                Ok((o[i as usize], fs[i as usize].clone()))
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => Ok((i.wrapping_mul(t.alloc_size()), (**t).clone())),
            _ => Err("gep into scalar".into()),
        }
    }
    fn eat_flags(&mut self) {
        loop {
            match self.word() {
                Some("inbounds" | "nuw" | "nsw" | "nusw" | "exact" | "nneg" | "disjoint" | "samesign" | "volatile" | "atomic" | "weak"
                | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") => self.i += 1,
                Some("inrange") => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }

    fn call(&mut self, dst: Option<u32>) -> PR<(Option<u32>, Callee, Vec<(Op, Ty)>, Ty)> {
        self.eat_flags();
        self.skip_attrs_to_type();
        let ret = self.ty()?;
        if self.is_p('(') {
            self.skip_parens();
        }
        enum C {
            G(String),
            O(Op),
        }
        let callee = match self.peek().clone() {
            Tok::Global(n) => {
                self.i += 1;
                C::G(n.to_string())
            }
            Tok::Word(w) if &*w == "asm" => return Err("inline asm".into()),
            _ => C::O(self.op(&Ty::Ptr)?),
        };
        self.exp_p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                if matches!(t, Ty::Other) {
                    // metadata argument
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P('(') | Tok::P('{') => d += 1,
                            Tok::P('}') => d -= 1,
                            Tok::P(')') if d == 0 => break,
                            Tok::P(')') => d -= 1,
                            Tok::P(',') if d == 0 => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                } else {
                    let byval = matches!(self.word(), Some("byval"));
                    if byval {
                        return Err("byval".into());
                    }
                    self.skip_param_attrs();
                    let o = self.op(&t)?;
                    args.push((o, t));
                }
                if self.eat_p(')') {
                    break;
                }
                self.exp_p(',')?;
            }
        }
        let callee = match callee {
            C::O(o) => Callee::Ind(o),
            C::G(n) => {
                if let Some(f) = self.c.fidx.get(&n) {
                    Callee::Func(*f)
                } else {
                    let k = self.ext(&n);
                    Callee::Ext(k)
                }
            }
        };
        Ok((dst.filter(|_| ret != Ty::Void), callee, args, ret))
    }
    fn ext(&mut self, n: &str) -> usize {
        if let Some(k) = self.c.exts.get(n) {
            return *k;
        }
        let k = self.c.extnames.len();
        self.c.extnames.push(n.to_string());
        self.c.exts.insert(n.to_string(), k);
        k
    }
    fn blk(&mut self, blocks: &mut BlockNames) -> PR<u32> {
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next() {
            Tok::Local(n) => Ok(blocks.get(&n)),
            t => Err(format!("label {t:?}")),
        }
    }
    fn indices(&mut self) -> PR<Vec<u32>> {
        let mut v = vec![];
        while self.is_p(',') {
            if matches!(self.t[self.i + 1], Tok::Meta(_)) {
                break;
            }
            self.i += 1;
            v.push(self.num()? as u32);
        }
        Ok(v)
    }

    fn inst(&mut self, blocks: &mut BlockNames) -> PR<Option<Inst>> {
        let mut dst = None;
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            self.exp_p('=')?;
            dst = Some(self.reg(&n));
        }
        let w = match self.next() {
            Tok::Word(w) => w,
            t => return Err(format!("inst {t:?}")),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |w: &str| {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bin(&w) {
            self.eat_flags();
            let t = self.ty()?;
            let x = self.op(&t)?;
            self.exp_p(',')?;
            let y = self.op(&t)?;
            return Ok(Some(match &t {
                Ty::Vector(_, e) => Inst::VBin(d, b, e.bits(), x, y),
                _ => Inst::Bin(d, b, t.bits(), x, y),
            }));
        }
        Ok(Some(match &*w {
            "icmp" => {
                self.eat_flags();
                let p = match self.next() {
                    Tok::Word(p) => match &*p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        p => return Err(format!("pred {p}")),
                    },
                    t => return Err(format!("pred {t:?}")),
                };
                let t = self.ty()?;
                let x = self.op(&t)?;
                self.exp_p(',')?;
                let y = self.op(&t)?;
                match &t {
                    Ty::Vector(_, e) => Inst::VIcmp(d, p, e.bits(), x, y),
                    _ => Inst::Icmp(d, p, t.bits(), x, y),
                }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                self.eat_flags();
                let t = self.ty()?;
                let x = self.op(&t)?;
                if !self.eat_w("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty()?;
                let c = match &*w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" | "addrspacecast" => Cast::Bit,
                    _ => {
                        if t2.bits() < t.bits() {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                if matches!(t, Ty::Vector(..)) || matches!(t2, Ty::Vector(..)) {
                    Inst::VCast(d, c, t, t2, x)
                } else {
                    Inst::Cast(d, c, t.bits(), t2.bits(), x)
                }
            }
            "select" => {
                self.eat_flags();
                let ct = self.ty()?;
                let c = self.op(&ct)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let x = self.op(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let y = self.op(&t2)?;
                Inst::Select(d, c, x, y, t, matches!(ct, Ty::Vector(..)))
            }
            "freeze" => {
                let t = self.ty()?;
                let x = self.op(&t)?;
                Inst::Freeze(d, x)
            }
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut n = Op::K(V::C(1));
                let mut al = t.align();
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.num()?;
                    } else if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        let nt = self.ty()?;
                        n = self.op(&nt)?;
                    }
                }
                Inst::Alloca(d, t.alloc_size(), al, n)
            }
            "load" => {
                self.eat_flags();
                let t = self.ty()?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                Inst::Load(d, t, p)
            }
            "store" => {
                self.eat_flags();
                let t = self.ty()?;
                let v = self.op(&t)?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.eat_flags();
                let t = self.ty()?;
                self.exp_p(',')?;
                let bt = self.ty()?;
                let base = self.op(&bt)?;
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut k = 0;
                while self.is_p(',') {
                    if matches!(self.t[self.i + 1], Tok::Meta(_)) {
                        break;
                    }
                    self.i += 1;
                    let it = self.ty()?;
                    if matches!(it, Ty::Vector(..)) {
                        return Err("vector gep".into());
                    }
                    let o = self.op(&it)?;
                    let scale;
                    if k == 0 {
                        scale = cur.alloc_size();
                    } else {
                        match (&cur, &o) {
                            (Ty::Struct(..), Op::K(V::C(i))) => {
                                let (of, nt) = Self::index(&cur, *i)?;
                                off = off.wrapping_add(of);
                                cur = nt;
                                k += 1;
                                continue;
                            }
                            (Ty::Array(_, e), _) | (Ty::Vector(_, e), _) => {
                                let e = (**e).clone();
                                scale = e.alloc_size();
                                cur = e;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    k += 1;
                    match o {
                        Op::K(V::C(i)) => {
                            let ib = it.bits();
                            let i = crate::expr::sext64(i, ib);
                            off = off.wrapping_add(i.wrapping_mul(scale))
                        }
                        o => idx.push(GepIdx::Scale(o, it.bits(), scale)),
                    }
                }
                Inst::Gep(d, base, off, idx)
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                Inst::Extract(d, a, self.indices()?)
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let v = self.op(&t2)?;
                Inst::Insert(d, a, v, self.indices()?, t)
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.exp_p(',')?;
                let it = self.ty()?;
                let i = self.op(&it)?;
                Inst::ExtractElem(d, a, i)
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let v = self.op(&t2)?;
                self.exp_p(',')?;
                let it = self.ty()?;
                let i = self.op(&it)?;
                let n = match t {
                    Ty::Vector(n, _) => n,
                    _ => 0,
                };
                Inst::InsertElem(d, a, v, i, n)
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2)?;
                self.exp_p(',')?;
                let mt = self.ty()?;
                let m = self.konst(&mt)?;
                let m = match m {
                    V::Agg(v) => v.iter().map(|x| x.as_c().map(|c| c as i64)).collect::<PR<Vec<_>>>()?,
                    _ => return Err("mask".into()),
                };
                Inst::Shuffle(d, a, b, m)
            }
            "cmpxchg" => {
                self.eat_flags();
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let c = self.op(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let n = self.op(&t2)?;
                Inst::CmpXchg(d, p, c, n, t.bits())
            }
            "atomicrmw" => {
                self.eat_flags();
                let o = match self.next() {
                    Tok::Word(w) => w.to_string(),
                    _ => return Err("rmw".into()),
                };
                let pt = self.ty()?;
                let p = self.op(&pt)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let v = self.op(&t)?;
                Inst::AtomicRmw(d, o, p, v, t.bits())
            }
            "fence" => Inst::Fence,
            "tail" | "musttail" | "notail" => {
                if !self.eat_w("call") {
                    return Err("tail call".into());
                }
                let (a, b, c, t) = self.call(dst)?;
                Inst::Call(a, b, c, t, 0)
            }
            "call" => {
                let (a, b, c, t) = self.call(dst)?;
                Inst::Call(a, b, c, t, 0)
            }
            "invoke" => {
                let (a, b, c, t) = self.call(dst)?;
                while self.word() != Some("to") {
                    self.i += 1
                }
                self.i += 1;
                let n = self.blk(blocks)?;
                while self.word() != Some("unwind") {
                    self.i += 1
                }
                self.i += 1;
                let u = self.blk(blocks)?;
                Inst::Invoke(a, b, c, t, n, u)
            }
            "br" => {
                if self.word() == Some("label") {
                    Inst::Br(self.blk(blocks)?)
                } else {
                    let t = self.ty()?;
                    let c = self.op(&t)?;
                    self.exp_p(',')?;
                    let a = self.blk(blocks)?;
                    self.exp_p(',')?;
                    let b = self.blk(blocks)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.op(&t)?;
                self.exp_p(',')?;
                let def = self.blk(blocks)?;
                self.exp_p('[')?;
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(']') {
                        break;
                    }
                    let ct = self.ty()?;
                    let c = self.konst(&ct)?.as_c()?;
                    self.exp_p(',')?;
                    let b = self.blk(blocks)?;
                    cases.push((c, b));
                }
                Inst::Switch(v, t.bits(), Arc::new(cases), def)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.op(&t)?))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                // never executed: panics end the path
                self.skip_line();
                loop {
                    let save = self.i;
                    self.skip_nl();
                    if matches!(self.word(), Some("cleanup" | "catch" | "filter")) {
                        self.skip_line();
                    } else {
                        self.i = save;
                        break;
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => {
                self.skip_line();
                Inst::Unsupported("resume".into())
            }
            w => {
                let w = w.to_string();
                self.skip_line();
                Inst::Unsupported(w)
            }
        }))
    }

    fn init(&mut self, ty: &Ty) -> PR<Init> {
        match self.peek().clone() {
            Tok::Word(w) if matches!(&*w, "zeroinitializer" | "undef" | "poison") => {
                self.i += 1;
                Ok(Init::Zero)
            }
            Tok::Str(s) => {
                self.i += 1;
                Ok(Init::Bytes(s))
            }
            Tok::P('<') | Tok::P('{') | Tok::P('[') => {
                let packed = self.is_p('<') && matches!(self.t[self.i + 1], Tok::P('{'));
                self.i += 1;
                if packed {
                    self.i += 1;
                }
                let el = ty.elems();
                let mut v = vec![];
                let mut k = 0;
                loop {
                    if matches!(self.peek(), Tok::P('}') | Tok::P(']') | Tok::P('>')) {
                        self.i += 1;
                        break;
                    }
                    let t = self.ty()?;
                    let x = self.init(&t)?;
                    v.push((el[k].0, x));
                    k += 1;
                    self.eat_p(',');
                }
                if packed {
                    self.exp_p('>')?;
                }
                Ok(Init::Agg(v))
            }
            _ => Ok(Init::Val(self.konst(ty)?, ty.clone())),
        }
    }
}

fn write_init(img: &mut [u8], off: usize, i: &Init) -> PR<()> {
    match i {
        Init::Zero => {}
        Init::Bytes(b) => img[off..off + b.len()].copy_from_slice(b),
        Init::Agg(v) => {
            for (o, x) in v {
                write_init(img, off + *o as usize, x)?
            }
        }
        Init::Val(v, t) => {
            let n = t.size() as usize;
            let bytes = match v {
                V::C(c) => c.to_le_bytes().to_vec(),
                V::E(_) => v.as_bits()?.to_le_bytes(),
                _ => return Err("init agg".into()),
            };
            for k in 0..n {
                img[off + k] = *bytes.get(k).unwrap_or(&0);
            }
        }
    }
    Ok(())
}

#[derive(Default)]
struct BlockNames {
    m: HashMap<String, u32>,
}
impl BlockNames {
    fn get(&mut self, n: &str) -> u32 {
        let l = self.m.len() as u32;
        *self.m.entry(n.to_string()).or_insert(l)
    }
}

fn top_name(line: &str) -> Option<(String, usize)> {
    let b = line.as_bytes();
    let mut l = Lexer { s: b, i: 1 };
    let n = l.name();
    Some((n.to_string(), l.i))
}

fn meta_field<'a>(l: &'a str, f: &str) -> Option<&'a str> {
    let mut st = 0;
    loop {
        let p = l[st..].find(f)? + st;
        // must be a field start
        let ok = p == 0 || matches!(l.as_bytes()[p - 1], b' ' | b'(');
        if ok && l[p + f.len()..].starts_with(": ") {
            let r = &l[p + f.len() + 2..];
            if let Some(q) = r.strip_prefix('"') {
                let e = q.find('"')?;
                return Some(&q[..e]);
            }
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        st = p + f.len();
    }
}
fn meta_ref(s: Option<&str>) -> u32 {
    s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub fn parse(text: &str) -> PR<Module> {
    let mut ctx = Ctx {
        named: HashMap::new(),
        gaddr: HashMap::new(),
        exts: HashMap::new(),
        extnames: vec![],
        fidx: HashMap::new(),
    };
    let lines: Vec<&str> = text.lines().collect();
    let mut fn_ranges = vec![];
    let mut glob_lines = vec![];
    let mut decls = vec![];
    let mut dilocs = HashMap::new();
    let mut discopes = HashMap::new();
    let mut difiles = HashMap::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define") {
            let st = i;
            while lines[i] != "}" {
                i += 1
            }
            fn_ranges.push((st, i));
        } else if l.starts_with("declare") {
            decls.push(l);
        } else if l.starts_with('@') {
            glob_lines.push(l);
        } else if l.starts_with('%') {
            if let Some((n, e)) = top_name(l) {
                let rest = &l[e..];
                if let Some(p) = rest.find("type") {
                    let toks = Lexer { s: rest[p + 4..].as_bytes(), i: 0 }.lex();
                    let mut p = Parser { t: &toks, i: 0, c: &mut ctx, regs: HashMap::new(), nregs: 0 };
                    if let Ok(t) = p.ty() {
                        ctx.named.insert(n, t);
                    }
                }
            }
        } else if l.starts_with('!') {
            if let Some(eq) = l.find(" = ") {
                if let Ok(id) = l[1..eq].parse::<u32>() {
                    let r = l[eq + 3..].trim_start_matches("distinct ");
                    if r.starts_with("!DILocation(") {
                        dilocs.insert(
                            id,
                            DbgLoc {
                                line: meta_field(r, "line").and_then(|x| x.parse().ok()).unwrap_or(0),
                                scope: meta_ref(meta_field(r, "scope")),
                                inlined: meta_ref(meta_field(r, "inlinedAt")),
                            },
                        );
                    } else if r.starts_with("!DISubprogram(") {
                        discopes.insert(
                            id,
                            (
                                meta_field(r, "name").unwrap_or("").to_string(),
                                meta_field(r, "linkageName").unwrap_or("").to_string(),
                                meta_ref(meta_field(r, "file")),
                                0,
                            ),
                        );
                    } else if r.starts_with("!DILexicalBlock") {
                        discopes.insert(
                            id,
                            (String::new(), String::new(), meta_ref(meta_field(r, "file")), meta_ref(meta_field(r, "scope"))),
                        );
                    } else if r.starts_with("!DIFile(") {
                        let f = meta_field(r, "filename").unwrap_or("");
                        let d = meta_field(r, "directory").unwrap_or("");
                        difiles.insert(id, if f.starts_with('/') || d.is_empty() { f.to_string() } else { format!("{d}/{f}") });
                    }
                }
            }
        }
        i += 1;
    }
    // functions
    let mut names = vec![];
    for (s, _) in &fn_ranges {
        let l = lines[*s];
        let at = find_at(l).ok_or(format!("define without name: {l}"))?;
        let (n, _) = top_name(&l[at..]).unwrap();
        ctx.fidx.insert(n.clone(), names.len());
        names.push(n);
    }
    let mut faddr = vec![];
    for (k, n) in names.iter().enumerate() {
        let a = FBASE + 16 * k as u64;
        faddr.push(a);
        ctx.gaddr.insert(n.clone(), a);
    }
    let mut extbase = FBASE + 16 * names.len() as u64;
    for d in decls {
        let at = match find_at(d) {
            Some(a) => a,
            None => continue,
        };
        let (n, _) = top_name(&d[at..]).unwrap();
        let k = ctx.extnames.len();
        ctx.extnames.push(n.clone());
        ctx.exts.insert(n.clone(), k);
        if d.contains("extern_weak") {
            ctx.gaddr.insert(n.clone(), 0);
        } else {
            ctx.gaddr.insert(n.clone(), extbase + 16 * k as u64);
        }
    }
    let _ = &mut extbase;
    // globals: first pass for addresses
    let mut globals = vec![];
    let mut gtoks = vec![];
    let mut addr = GBASE;
    let mut aliases = vec![];
    for l in &glob_lines {
        let (n, e) = top_name(l).unwrap();
        let toks = Lexer { s: l[e..].as_bytes(), i: 0 }.lex();
        let mut p = Parser { t: &toks, i: 0, c: &mut ctx, regs: HashMap::new(), nregs: 0 };
        let mut constant = false;
        let mut ext = false;
        let mut alias = false;
        loop {
            match p.peek().clone() {
                Tok::Word(w) => {
                    p.i += 1;
                    match &*w {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => ext = true,
                        "thread_local" | "addrspace" => p.skip_parens(),
                        _ => {}
                    }
                }
                Tok::P(_) | Tok::Str(_) | Tok::Meta(_) => p.i += 1,
                t => return Err(format!("global {n}: {t:?}")),
            }
        }
        if alias {
            aliases.push((n, toks));
            continue;
        }
        let ty = p.ty().map_err(|e| format!("global {n}: {e}"))?;
        let pos = p.i;
        // alignment
        let mut al = ty.align();
        for k in pos..toks.len() {
            if let Tok::Word(w) = &toks[k] {
                if &**w == "align" {
                    if let Some(Tok::Word(x)) = toks.get(k + 1) {
                        if let Ok(x) = x.parse() {
                            al = x
                        }
                    }
                }
            }
        }
        addr = up(addr, al.max(8));
        let size = ty.size();
        if ext {
            // external data (weak symbols such as __dso_handle): give it an address in a zeroed area
            ctx.gaddr.insert(n.clone(), addr);
            addr += size.max(8) + 16;
            continue;
        }
        ctx.gaddr.insert(n.clone(), addr);
        globals.push(Global { name: n.clone(), addr, size, constant });
        gtoks.push((toks, pos, ty));
        addr += size + 16;
    }
    for (n, toks) in &aliases {
        for t in toks {
            if let Tok::Global(g) = t {
                if let Some(a) = ctx.gaddr.get(&**g).copied() {
                    ctx.gaddr.insert(n.clone(), a);
                    if let Some(f) = ctx.fidx.get(&**g).copied() {
                        ctx.fidx.insert(n.clone(), f);
                    }
                }
            }
        }
    }
    let mut image = vec![0u8; (addr - GBASE) as usize + 256];
    for (g, (toks, pos, ty)) in globals.iter().zip(gtoks.iter()) {
        let mut p = Parser { t: toks, i: *pos, c: &mut ctx, regs: HashMap::new(), nregs: 0 };
        let init = p.init(ty).map_err(|e| format!("init of {}: {e}", g.name))?;
        write_init(&mut image, (g.addr - GBASE) as usize, &init).map_err(|e| format!("init of {}: {e}", g.name))?;
    }
    // bodies
    let mut funcs = vec![];
    for (k, (s, e)) in fn_ranges.iter().enumerate() {
        let body = lines[*s..*e].join("\n");
        let f = parse_fn(&names[k], &body, &mut ctx).map_err(|e| format!("function {}: {e}", names[k]))?;
        funcs.push(f);
    }
    Ok(Module {
        funcs,
        fidx: ctx.fidx,
        exts: ctx.extnames,
        globals,
        gbase: GBASE,
        image,
        faddr,
        dilocs,
        discopes,
        difiles,
    })
}

fn find_at(l: &str) -> Option<usize> {
    // first '@' outside quotes
    let mut q = false;
    for (i, c) in l.bytes().enumerate() {
        match c {
            b'"' => q = !q,
            b'@' if !q => return Some(i),
            _ => {}
        }
    }
    None
}

fn parse_fn(name: &str, body: &str, ctx: &mut Ctx) -> PR<Func> {
    let toks = Lexer { s: body.as_bytes(), i: 0 }.lex();
    let mut p = Parser { t: &toks, i: 0, c: ctx, regs: HashMap::new(), nregs: 0 };
    // header: find the name, then the parameter list
    loop {
        match p.next() {
            Tok::Global(_) => break,
            Tok::NL => return Err("header".into()),
            _ => {}
        }
    }
    p.exp_p('(')?;
    let mut f = Func { name: name.to_string(), ..Default::default() };
    let mut unnamed = 0u32;
    if !p.eat_p(')') {
        loop {
            if p.eat_w("...") {
            } else {
                p.ty()?;
                if p.word() == Some("byval") {
                    f.param_attr_byval = true;
                }
                p.skip_param_attrs();
                match p.peek().clone() {
                    Tok::Local(n) => {
                        p.i += 1;
                        let r = p.reg(&n);
                        f.params.push(r);
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                    }
                    _ => {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        let r = p.reg(&n);
                        f.params.push(r);
                    }
                }
            }
            if p.eat_p(')') {
                break;
            }
            p.exp_p(',')?;
        }
    }
    p.skip_line();
    let mut bn = BlockNames::default();
    // block labels in order; the order of first mention differs, so collect (index, block) pairs
    let mut blocks: Vec<(u32, Block)> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    loop {
        p.skip_nl();
        if p.i >= p.t.len() {
            break;
        }
        // label?
        if let Tok::Word(w) = p.peek() {
            if matches!(p.t.get(p.i + 1), Some(Tok::P(':'))) {
                let id = bn.get(w);
                if let Some(c) = cur.take() {
                    blocks.push(c);
                }
                cur = Some((id, Block::default()));
                p.i += 2;
                continue;
            }
        }
        if cur.is_none() {
            // implicit entry label: numbered after the unnamed parameters
            let id = bn.get(&unnamed.to_string());
            cur = Some((id, Block::default()));
        }
        if let Tok::P('#') = p.peek() {
            p.skip_line();
            continue;
        }
        let start = p.i;
        // debug record lines start with "#dbg_value"
        if let Tok::Meta(m) = p.peek() {
            if m.starts_with("dbg_") {
                p.skip_line();
                continue;
            }
        }
        // phi
        if let (Tok::Local(n), Some(Tok::Word(w))) = (p.peek().clone(), p.t.get(p.i + 2)) {
            if &**w == "phi" {
                let d = p.reg(&n);
                p.i += 3;
                p.eat_flags();
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.exp_p('[')?;
                    let o = p.op(&t)?;
                    p.exp_p(',')?;
                    let b = match p.next() {
                        Tok::Local(n) => bn.get(&n),
                        t => return Err(format!("phi {t:?}")),
                    };
                    p.exp_p(']')?;
                    v.push((b, o));
                    if p.is_p(',') && matches!(p.t[p.i + 1], Tok::P('[')) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                cur.as_mut().unwrap().1.phis.push((d, v));
                p.skip_line();
                continue;
            }
        }
        let inst = match p.inst(&mut bn) {
            Ok(Some(i)) => i,
            Ok(None) => {
                p.skip_line();
                continue;
            }
            Err(e) => {
                let ctx: Vec<_> = p.t[start..(start + 12).min(p.t.len())].to_vec();
                // unsupported instructions are an error only when executed
                let msg = format!("{e} in {ctx:?}");
                p.i = start;
                p.skip_line();
                Inst::Unsupported(msg)
            }
        };
        // debug location
        let mut dbg = 0;
        while !matches!(p.peek(), Tok::NL) {
            if let Tok::Meta(m) = p.peek() {
                if &**m == "dbg" {
                    if let Some(Tok::Meta(n)) = p.t.get(p.i + 1) {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
            }
            p.i += 1;
        }
        let c = cur.as_mut().unwrap();
        c.1.insts.push(inst);
        c.1.dbg.push(dbg);
    }
    if let Some(c) = cur.take() {
        blocks.push(c);
    }
    let n = bn.m.len();
    let entry = blocks[0].0;
    let mut v: Vec<Block> = (0..n).map(|_| Block::default()).collect();
    for (i, b) in blocks {
        v[i as usize] = b;
    }
    f.blocks = v;
    f.nregs = p.nregs;
    if entry != 0 {
        // the entry block is always block 0
        return Err(format!("entry block is {entry}"));
    }
    Ok(f)
}
