//! Parser for textual LLVM IR (opaque pointers) into a compact executable form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool), // packed?
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Bytes written by a store of this scalar.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !p {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !p {
                        o = o.next_multiple_of(t.align());
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field_off {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero, // zeroinitializer / undef / poison
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Cst)>>),
    Global(Rc<str>, i64),
    Ex(u8, Rc<(Cst, Cst)>, u16),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    W(u128),
    G(Rc<str>, i64), // resolved to C after loading
    Agg(Rc<Vec<Opnd>>),
    Ex(u8, Rc<(Opnd, Opnd)>, u16),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr (same width)
    FpTrunc,
    FpExt,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ptr(Opnd),
    Name(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, u16, u32, Opnd, Opnd),
    FBin(FBin, u16, u32, Opnd, Opnd),
    FNeg(u16, u32, Opnd),
    Icmp(Pred, u16, u32, Opnd, Opnd),
    Fcmp(u8, u16, u32, Opnd, Opnd), // bitmask: 1 lt, 2 eq, 4 gt, 8 unordered
    Cast(CastK, u16, u16, u32, Opnd),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(u32, u64, Option<(u16, Opnd)>),
    Gep(u32, Opnd, i64, Box<[(Opnd, u16, i64)]>),
    Select(u16, u32, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u16, Opnd, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<Opnd>),
    Call(Option<u32>, Callee, Box<[(Ty, Opnd)]>, Ty),
    Extract(u32, Opnd, Box<[u32]>),
    Insert(u32, Opnd, Opnd, Box<[u32]>, Ty),
    AtomicRmw(u8, Ty, u32, Opnd, Opnd),
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd),
    Mov(u32, Opnd),
    Nop,
    Unreachable,
    Unsupported(Rc<str>),
}

#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: Ty,
}
#[derive(Debug)]
pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
}
#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<Rc<str>, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<Rc<str>, u32>,
    pub externs: Vec<Rc<str>>,
    pub xidx: HashMap<Rc<str>, u32>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub ext_sigs: HashMap<Rc<str>, Vec<Ty>>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Loc(&'a str),
    Glob(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta,
    P(u8),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    nl: bool,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let a = self.i + 1;
        let mut j = a;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        self.st(a, j)
    }
    fn next(&mut self) -> T<'a> {
        self.nl = false;
        loop {
            if self.i >= self.s.len() {
                self.nl = true;
                return T::Eof;
            }
            match self.s[self.i] {
                b'\n' => {
                    self.nl = true;
                    self.i += 1
                }
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                _ => break,
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' {
                    self.quoted()
                } else {
                    let a = self.i;
                    while self.i < self.s.len() && idc(self.s[self.i]) {
                        self.i += 1
                    }
                    self.st(a, self.i)
                };
                if c == b'%' {
                    T::Loc(n)
                } else {
                    T::Glob(n)
                }
            }
            b'!' => {
                self.i += 1;
                while self.i < self.s.len()
                    && (idc(self.s[self.i]) || self.s[self.i] == b'\\')
                {
                    self.i += 1
                }
                T::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1
                }
                T::Meta
            }
            b'"' => T::Str(self.quoted()),
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                T::CStr(self.quoted())
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let a = self.i;
                self.i += 1;
                while self.i < self.s.len()
                    && (idc(self.s[self.i]) || (self.s[self.i] == b'+' && self.s[self.i - 1] == b'e'))
                {
                    self.i += 1
                }
                T::Num(self.st(a, self.i))
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let a = self.i;
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1
                }
                let w = self.st(a, self.i);
                if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") {
                    T::Num(w)
                } else {
                    T::Word(w)
                }
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
}

pub struct Parser<'a> {
    lx: Lex<'a>,
    tok: T<'a>,
    nl: bool, // tok preceded by newline
    named: HashMap<&'a str, Ty>,
    regs: HashMap<&'a str, u32>,
    nregs: u32,
    labels: HashMap<&'a str, u32>,
    strs: HashMap<&'a str, Rc<str>>,
}

const VALKW: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint",
    "inttoptr", "splat", "trunc", "add", "sub", "bitcast", "xor", "none", "ptrtoaddr", "nan", "inf",
];

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2
            } else {
                o.push(hex(b[i + 1]) * 16 + hex(b[i + 2]));
                i += 3
            }
        } else {
            o.push(b[i]);
            i += 1
        }
    }
    o
}

impl<'a> Parser<'a> {
    pub fn parse(text: &'a str) -> Module {
        let mut p = Parser {
            lx: Lex { s: text.as_bytes(), i: 0, nl: true },
            tok: T::Eof,
            nl: true,
            named: HashMap::new(),
            regs: HashMap::new(),
            nregs: 0,
            labels: HashMap::new(),
            strs: HashMap::new(),
        };
        p.adv();
        let mut m = Module::default();
        p.module(&mut m);
        m
    }
    fn intern(&mut self, s: &'a str) -> Rc<str> {
        self.strs.entry(s).or_insert_with(|| Rc::from(s)).clone()
    }
    fn adv(&mut self) -> T<'a> {
        let t = self.lx.next();
        self.nl = self.lx.nl;
        std::mem::replace(&mut self.tok, t)
    }
    fn err(&self, m: &str) -> ! {
        let a = self.lx.i.saturating_sub(200);
        panic!(
            "parse error: {} near {:?}: ...{}",
            m,
            self.tok,
            String::from_utf8_lossy(&self.lx.s[a..self.lx.i])
        )
    }
    fn is(&self, c: u8) -> bool {
        self.tok == T::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.tok, T::Word(x) if *x == w)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected {}", c as char))
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_line(&mut self) {
        while !(self.nl || self.tok == T::Eof) {
            self.adv();
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.adv() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => self.err("eof in parens"),
                _ => {}
            }
        }
    }
    fn num_u64(&mut self) -> u64 {
        match self.adv() {
            T::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)),
            t => panic!("expected num {:?}", t),
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let t = match &self.tok {
            T::Word(w) => {
                let w = *w;
                if w == "void" {
                    self.adv();
                    Ty::Void
                } else if w == "ptr" {
                    self.adv();
                    if self.isw("addrspace") {
                        self.adv();
                        self.skip_parens();
                    }
                    Ty::Ptr
                } else if w == "float" {
                    self.adv();
                    Ty::F32
                } else if w == "double" {
                    self.adv();
                    Ty::F64
                } else if w == "label" || w == "metadata" || w == "half" || w == "fp128" || w == "bfloat" || w == "x86_fp80" {
                    self.adv();
                    Ty::Other
                } else if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    let n = w[1..].parse().unwrap();
                    self.adv();
                    Ty::Int(n)
                } else {
                    return None;
                }
            }
            T::P(b'[') => {
                self.adv();
                let n = self.num_u64();
                self.adv(); // x
                let t = self.ty();
                self.exp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'{') => {
                self.adv();
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty());
                    self.eat(b',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            T::P(b'<') => {
                self.adv();
                if self.is(b'{') {
                    self.adv();
                    let mut v = vec![];
                    while !self.eat(b'}') {
                        v.push(self.ty());
                        self.eat(b',');
                    }
                    self.exp(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num_u64();
                    self.adv();
                    let t = self.ty();
                    self.exp(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::Loc(n) => {
                let n = *n;
                match self.named.get(n) {
                    Some(t) => {
                        let t = t.clone();
                        self.adv();
                        t
                    }
                    None => return None,
                }
            }
            _ => return None,
        };
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => self.err("type"),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match &self.tok {
                T::Word(w) => {
                    let w = *w;
                    if VALKW.contains(&w) {
                        return;
                    }
                    self.adv();
                    if w == "align" && matches!(self.tok, T::Num(_)) {
                        self.adv();
                    }
                    if self.is(b'(') {
                        self.skip_parens();
                    }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                T::Meta => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
    fn parse_num(&self, s: &str, ty: &Ty) -> u128 {
        match ty {
            Ty::F32 | Ty::F64 => {
                if let Some(h) = s.strip_prefix("f0x") {
                    return u128::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", s));
                }
                let d = if let Some(h) = s.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", s)))
                } else if s == "+qnan" {
                    f64::from_bits(0x7ff8_0000_0000_0000)
                } else if s == "-qnan" {
                    f64::from_bits(0xfff8_0000_0000_0000)
                } else {
                    s.parse::<f64>().unwrap_or_else(|_| panic!("fp {}", s))
                };
                if *ty == Ty::F32 {
                    (d as f32).to_bits() as u128
                } else {
                    d.to_bits() as u128
                }
            }
            _ => {
                let w = ty.bits();
                let v: u128 = if let Some(r) = s.strip_prefix('-') {
                    (r.parse::<u128>().unwrap()).wrapping_neg()
                } else if let Some(r) = s.strip_prefix("u0x") {
                    u128::from_str_radix(r, 16).unwrap()
                } else {
                    s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
                };
                v & crate::expr::mask(w.max(1))
            }
        }
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.tok.clone() {
            T::Num(s) => {
                self.adv();
                Cst::Int(self.parse_num(s, ty))
            }
            T::CStr(s) => {
                self.adv();
                Cst::Bytes(Rc::new(unescape(s)))
            }
            T::Glob(g) => {
                self.adv();
                Cst::Global(self.intern(g), 0)
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => {
                let o = self.adv();
                let packed = if o == T::P(b'<') { self.eat(b'{') } else { false };
                let mut v = vec![];
                while !(self.is(b'}') || self.is(b']') || self.is(b'>')) {
                    let t = self.ty();
                    let c = self.cst(&t);
                    v.push((t, c));
                    self.eat(b',');
                }
                self.adv();
                if packed {
                    self.exp(b'>');
                }
                Cst::Agg(Rc::new(v))
            }
            T::Word(w) => match w {
                "true" => {
                    self.adv();
                    Cst::Int(1)
                }
                "false" | "null" => {
                    self.adv();
                    Cst::Int(0)
                }
                "undef" | "poison" | "zeroinitializer" | "none" => {
                    self.adv();
                    Cst::Zero
                }
                "splat" => {
                    self.adv();
                    self.exp(b'(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.exp(b')');
                    match ty {
                        Ty::Vec(n, _) => {
                            Cst::Agg(Rc::new((0..*n).map(|_| (t.clone(), c.clone())).collect()))
                        }
                        _ => c,
                    }
                }
                "getelementptr" => {
                    self.adv();
                    while !self.is(b'(') {
                        self.adv();
                        if self.is(b'(') && !self.lookahead_is_ty() {
                            self.skip_parens();
                        }
                    }
                    self.exp(b'(');
                    let t = self.ty();
                    self.exp(b',');
                    let pt = self.ty();
                    let base = self.cst(&pt);
                    let mut off = 0i64;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(b',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        let c = self.cst(&it);
                        let k = match c {
                            Cst::Int(v) => crate::expr::sext(v, it.bits()) as i64,
                            Cst::Zero => 0,
                            _ => self.err("gep idx"),
                        };
                        if first {
                            off += k * t.size() as i64;
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let (o, f) = cur.field_off(k as usize);
                                    off += o as i64;
                                    cur = f;
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    off += k * e.size() as i64;
                                    cur = (**e).clone();
                                }
                                _ => self.err("gep ty"),
                            }
                        }
                    }
                    self.exp(b')');
                    match base {
                        Cst::Global(g, o) => Cst::Global(g, o + off),
                        Cst::Int(v) => Cst::Int((v as u64).wrapping_add(off as u64) as u128),
                        Cst::Zero => Cst::Int(off as u64 as u128),
                        _ => self.err("gep base"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                    self.adv();
                    self.exp(b'(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.adv(); // to
                    let _ = self.ty();
                    self.exp(b')');
                    c
                }
                "sub" | "add" | "xor" | "trunc" => {
                    self.adv();
                    while !self.is(b'(') {
                        self.adv();
                    }
                    self.exp(b'(');
                    let t = self.ty();
                    let a = self.cst(&t);
                    if w == "trunc" {
                        self.adv();
                        let t2 = self.ty();
                        self.exp(b')');
                        return match a {
                            Cst::Int(v) => Cst::Int(v & crate::expr::mask(t2.bits())),
                            _ => self.err("const trunc"),
                        };
                    }
                    self.exp(b',');
                    let t = self.ty();
                    let b = self.cst(&t);
                    self.exp(b')');
                    match (w, a, b) {
                        ("sub", Cst::Int(x), Cst::Int(y)) => Cst::Int(x.wrapping_sub(y) & crate::expr::mask(t.bits())),
                        ("add", Cst::Int(x), Cst::Int(y)) => Cst::Int(x.wrapping_add(y) & crate::expr::mask(t.bits())),
                        ("add", Cst::Global(g, o), Cst::Int(y)) => Cst::Global(g, o + y as i64),
                        ("sub", Cst::Global(g, o), Cst::Int(y)) => Cst::Global(g, o - y as i64),
                        (_, a, b) => {
                            let k = match w {
                                "sub" => 1,
                                "add" => 0,
                                _ => 2,
                            };
                            Cst::Ex(k, Rc::new((a, b)), t.bits())
                        }
                    }
                }
                _ => self.err("const word"),
            },
            _ => self.err("const"),
        }
    }
    fn lookahead_is_ty(&self) -> bool {
        // at '(' : is this the operand list (starts with a type) rather than e.g. inrange(-16, 24)?
        let s = self.lx.s;
        let i = self.lx.i;
        !(s[i].is_ascii_digit() || s[i] == b'-')
    }
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn cst_opnd(c: Cst, ty: &Ty) -> Opnd {
        match c {
            Cst::Int(v) => {
                if ty.bits() > 64 {
                    Opnd::W(v)
                } else {
                    Opnd::C(v as u64)
                }
            }
            Cst::Zero => match ty {
                Ty::Struct(f, _) => Opnd::Agg(Rc::new(
                    f.iter().map(|t| Self::cst_opnd(Cst::Zero, t)).collect(),
                )),
                Ty::Arr(n, t) | Ty::Vec(n, t) => Opnd::Agg(Rc::new(
                    (0..*n).map(|_| Self::cst_opnd(Cst::Zero, t)).collect(),
                )),
                _ => {
                    if ty.bits() > 64 {
                        Opnd::W(0)
                    } else {
                        Opnd::C(0)
                    }
                }
            },
            Cst::Global(g, o) => Opnd::G(g, o),
            Cst::Ex(k, p, w) => Opnd::Ex(
                k,
                Rc::new((Self::cst_opnd(p.0.clone(), ty), Self::cst_opnd(p.1.clone(), ty))),
                w,
            ),
            Cst::Agg(v) => {
                Opnd::Agg(Rc::new(v.iter().map(|(t, c)| Self::cst_opnd(c.clone(), t)).collect()))
            }
            Cst::Bytes(b) => Opnd::Agg(Rc::new(b.iter().map(|x| Opnd::C(*x as u64)).collect())),
        }
    }
    fn val(&mut self, ty: &Ty) -> Opnd {
        if let T::Loc(n) = self.tok {
            self.adv();
            return Opnd::R(self.reg(n));
        }
        if *ty == Ty::Other {
            // metadata operands etc.
            self.adv();
            return Opnd::C(0);
        }
        let c = self.cst(ty);
        Self::cst_opnd(c, ty)
    }
    fn tyval(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self, n: &'a str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn lab_opnd(&mut self) -> u32 {
        if !self.eatw("label") {
            self.err("label")
        }
        match self.adv() {
            T::Loc(n) => self.label(n),
            _ => self.err("label name"),
        }
    }

    fn module(&mut self, m: &mut Module) {
        loop {
            match self.tok.clone() {
                T::Eof => return,
                T::Word("define") => {
                    self.adv();
                    let f = self.func();
                    let id = m.funcs.len() as u32;
                    m.fidx.insert(f.name.clone(), id);
                    m.funcs.push(f);
                }
                T::Word("declare") => {
                    self.adv();
                    // find name
                    while !matches!(self.tok, T::Glob(_)) {
                        self.adv();
                    }
                    if let T::Glob(n) = self.tok {
                        let n = self.intern(n);
                        if !m.xidx.contains_key(&n) {
                            m.xidx.insert(n.clone(), m.externs.len() as u32);
                            m.externs.push(n);
                        }
                    }
                    self.adv();
                    self.skip_line();
                }
                T::Glob(n) if self.nl => {
                    self.adv();
                    self.exp(b'=');
                    let name = self.intern(n);
                    let mut constant = false;
                    let mut external = false;
                    let mut alias = false;
                    loop {
                        match self.tok.clone() {
                            T::Word("constant") => {
                                constant = true;
                                self.adv();
                                break;
                            }
                            T::Word("global") => {
                                self.adv();
                                break;
                            }
                            T::Word("alias") => {
                                alias = true;
                                self.adv();
                                break;
                            }
                            T::Word("external") | T::Word("extern_weak") => {
                                external = true;
                                self.adv();
                            }
                            T::P(b'(') => self.skip_parens(),
                            _ => {
                                self.adv();
                            }
                        }
                    }
                    if alias {
                        // alias <ty>, ptr @x
                        while !matches!(self.tok, T::Glob(_)) {
                            self.adv();
                        }
                        if let T::Glob(t) = self.tok {
                            let t = self.intern(t);
                            m.aliases.insert(name, t);
                        }
                        self.skip_line();
                        continue;
                    }
                    let ty = self.ty();
                    let init = if external { None } else { Some(self.cst(&ty)) };
                    m.gidx.insert(name.clone(), m.globals.len() as u32);
                    m.globals.push(Global { name, ty, init, constant });
                    if !self.nl {
                        self.adv();
                        self.skip_line();
                    }
                }
                T::Loc(n) if self.nl => {
                    // named type
                    self.adv();
                    self.exp(b'=');
                    self.adv(); // type
                    if self.isw("opaque") {
                        self.adv();
                        self.named.insert(n, Ty::Other);
                    } else {
                        let t = self.ty();
                        self.named.insert(n, t);
                    }
                }
                _ => {
                    self.adv();
                    self.skip_line();
                }
            }
        }
    }
    fn func(&mut self) -> Func {
        self.regs.clear();
        self.labels.clear();
        self.nregs = 0;
        // linkage, attrs ... ret type @name(params)
        let mut ret = Ty::Void;
        let name;
        loop {
            match self.tok.clone() {
                T::Glob(n) => {
                    self.adv();
                    name = self.intern(n);
                    break;
                }
                _ => {
                    if let Some(t) = self.try_ty() {
                        ret = t;
                    } else {
                        let w = self.adv();
                        if w == T::Word("align") {
                            self.adv();
                        }
                        if self.is(b'(') {
                            self.skip_parens();
                        }
                    }
                }
            }
        }
        self.exp(b'(');
        let mut params = vec![];
        let mut pi = 0;
        while !self.eat(b')') {
            if self.is(b'.') || self.isw("...") {
                self.adv();
                continue;
            }
            let t = self.ty();
            self.skip_attrs();
            let r = if let T::Loc(n) = self.tok {
                self.adv();
                self.reg(n)
            } else {
                let s: &'a str = Box::leak(format!("{}", pi).into_boxed_str());
                self.reg(s)
            };
            pi += 1;
            params.push((r, t));
            self.eat(b',');
        }
        while !self.is(b'{') {
            self.adv();
        }
        self.adv();
        let mut blocks: Vec<Block> = vec![];
        // entry block label: either explicit or implicit number
        let mut cur: u32;
        if self.peek_label() {
            let n = self.take_label();
            cur = self.label(n);
        } else {
            let s: &'a str = Box::leak(format!("{}", pi).into_boxed_str());
            cur = self.label(s);
        }
        let put = |blocks: &mut Vec<Block>, i: u32| {
            while blocks.len() <= i as usize {
                blocks.push(Block::default())
            }
        };
        put(&mut blocks, cur);
        loop {
            if self.is(b'}') {
                self.adv();
                break;
            }
            if self.nl && self.peek_label() {
                let n = self.take_label();
                cur = self.label(n);
                put(&mut blocks, cur);
                continue;
            }
            self.instr(&mut blocks, cur);
        }
        put(&mut blocks, (self.labels.len() as u32).saturating_sub(1));
        Func { name, params, nregs: self.nregs, blocks, ret }
    }
    fn peek_label(&mut self) -> bool {
        matches!(self.tok, T::Word(_) | T::Num(_) | T::Str(_))
            && self.lx.s.get(self.lx.i) == Some(&b':')
    }
    fn take_label(&mut self) -> &'a str {
        let n = match self.adv() {
            T::Word(w) | T::Num(w) | T::Str(w) => w,
            _ => unreachable!(),
        };
        self.exp(b':');
        n
    }
    fn instr(&mut self, blocks: &mut [Block], cur: u32) {
        let mut dst = None;
        if let T::Loc(n) = self.tok {
            self.adv();
            self.exp(b'=');
            dst = Some(self.reg(n));
        }
        let op = match self.adv() {
            T::Word(w) => w,
            t => self.err(&format!("opcode {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let blk = &mut blocks[cur as usize];
        const FLAGS: &[&str] = &[
            "nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "samesign", "fast", "nnan",
            "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nusw", "volatile", "atomic",
            "weak",
        ];
        macro_rules! flags {
            () => {
                while let T::Word(w) = self.tok {
                    if FLAGS.contains(&w) {
                        self.adv();
                    } else {
                        break;
                    }
                }
            };
        }
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr"
            | "ashr" | "and" | "or" | "xor" => {
                flags!();
                let t = self.ty();
                let a = self.val(&t);
                self.exp(b',');
                let b = self.val(&t);
                let k = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    _ => Bin::Xor,
                };
                if t.bits() == 0 {
                    Ins::Unsupported(Rc::from(format!("vector {}", op)))
                } else {
                    Ins::Bin(k, t.bits(), d, a, b)
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags!();
                let t = self.ty();
                let a = self.val(&t);
                self.exp(b',');
                let b = self.val(&t);
                let k = match op {
                    "fadd" => FBin::Add,
                    "fsub" => FBin::Sub,
                    "fmul" => FBin::Mul,
                    "fdiv" => FBin::Div,
                    _ => FBin::Rem,
                };
                Ins::FBin(k, t.bits(), d, a, b)
            }
            "fneg" => {
                flags!();
                let t = self.ty();
                let a = self.val(&t);
                Ins::FNeg(t.bits(), d, a)
            }
            "icmp" => {
                flags!();
                let p = match self.adv() {
                    T::Word(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => self.err("pred"),
                    },
                    _ => self.err("pred"),
                };
                let t = self.ty();
                let a = self.val(&t);
                self.exp(b',');
                let b = self.val(&t);
                if t.bits() == 0 {
                    Ins::Unsupported(Rc::from("vector icmp"))
                } else {
                    Ins::Icmp(p, t.bits(), d, a, b)
                }
            }
            "fcmp" => {
                flags!();
                let k = match self.adv() {
                    T::Word(w) => match w {
                        "false" => 0,
                        "olt" => 1,
                        "oeq" => 2,
                        "ole" => 3,
                        "ogt" => 4,
                        "one" => 5,
                        "oge" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ult" => 9,
                        "ueq" => 10,
                        "ule" => 11,
                        "ugt" => 12,
                        "une" => 13,
                        "uge" => 14,
                        _ => 15,
                    },
                    _ => self.err("fpred"),
                };
                let t = self.ty();
                let a = self.val(&t);
                self.exp(b',');
                let b = self.val(&t);
                Ins::Fcmp(k, t.bits(), d, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptrunc" | "fpext"
            | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "addrspacecast" => {
                flags!();
                let t = self.ty();
                let a = self.val(&t);
                self.adv(); // to
                let t2 = self.ty();
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if t2.bits() < t.bits() {
                            CastK::Trunc
                        } else if t2.bits() > t.bits() {
                            CastK::ZExt
                        } else {
                            CastK::Bit
                        }
                    }
                    _ => CastK::Bit,
                };
                if t.bits() == 0 || t2.bits() == 0 {
                    Ins::Unsupported(Rc::from(format!("vector cast {}", op)))
                } else {
                    Ins::Cast(k, t.bits(), t2.bits(), d, a)
                }
            }
            "load" => {
                flags!();
                let t = self.ty();
                self.exp(b',');
                let (_, p) = self.tyval();
                Ins::Load(t, d, p)
            }
            "store" => {
                flags!();
                let (t, v) = self.tyval();
                self.exp(b',');
                let (_, p) = self.tyval();
                Ins::Store(t, v, p)
            }
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty();
                let mut cnt = None;
                if self.is(b',') {
                    let save = self.lx.i;
                    self.adv();
                    if !self.isw("align") && !matches!(self.tok, T::Meta) && !self.isw("addrspace") {
                        let (ct, cv) = self.tyval();
                        cnt = Some((ct.bits(), cv));
                    }
                    let _ = save;
                }
                let mut size = t.size();
                if let Some((_, Opnd::C(k))) = cnt {
                    size *= k;
                    cnt = None;
                }
                Ins::Alloca(d, size, cnt)
            }
            "getelementptr" => {
                flags!();
                let t = self.ty();
                self.exp(b',');
                let (_, base) = self.tyval();
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while self.is(b',') {
                    self.adv();
                    if matches!(self.tok, T::Meta) {
                        break;
                    }
                    let (it, v) = self.tyval();
                    let step = |ty: &Ty| ty.size() as i64;
                    if first {
                        first = false;
                        match v {
                            Opnd::C(k) => {
                                off += crate::expr::sext(k as u128, it.bits()) as i64 * step(&t)
                            }
                            o => terms.push((o, it.bits(), step(&t))),
                        }
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                if let Opnd::C(k) = v {
                                    let (o, f) = cur.field_off(k as usize);
                                    off += o as i64;
                                    cur = f;
                                } else {
                                    self.err("gep struct idx")
                                }
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                match v {
                                    Opnd::C(k) => {
                                        off += crate::expr::sext(k as u128, it.bits()) as i64
                                            * step(e)
                                    }
                                    o => terms.push((o, it.bits(), step(e))),
                                }
                                cur = (**e).clone();
                            }
                            _ => self.err("gep into scalar"),
                        }
                    }
                }
                Ins::Gep(d, base, off, terms.into_boxed_slice())
            }
            "select" => {
                flags!();
                let (_, c) = self.tyval();
                self.exp(b',');
                let (t, a) = self.tyval();
                self.exp(b',');
                let (_, b) = self.tyval();
                Ins::Select(t.bits(), d, c, a, b)
            }
            "br" => {
                if self.isw("label") {
                    Ins::Br(self.lab_opnd())
                } else {
                    let (_, c) = self.tyval();
                    self.exp(b',');
                    let a = self.lab_opnd();
                    self.exp(b',');
                    let b = self.lab_opnd();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.exp(b',');
                let dl = self.lab_opnd();
                self.exp(b'[');
                let mut cs = vec![];
                while !self.eat(b']') {
                    let ct = self.ty();
                    let c = self.cst(&ct);
                    self.exp(b',');
                    let l = self.lab_opnd();
                    if let Cst::Int(k) = c {
                        cs.push((k, l));
                    }
                }
                Ins::Switch(t.bits(), v, dl, Rc::new(cs))
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    self.skip_attrs();
                    let v = self.val(&t);
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "phi" => {
                flags!();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.exp(b'[');
                    let x = self.val(&t);
                    self.exp(b',');
                    let l = match self.adv() {
                        T::Loc(n) => self.label(n),
                        _ => self.err("phi label"),
                    };
                    self.exp(b']');
                    v.push((l, x));
                    if self.is(b',') && !self.nl {
                        self.adv();
                        if matches!(self.tok, T::Meta) {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                blk.phis.push((d, v));
                self.end_line();
                return;
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.adv(); // call
                }
                // flags / cc / ret attrs
                let rt;
                loop {
                    if let Some(t) = self.try_ty() {
                        rt = t;
                        break;
                    }
                    let w = self.adv();
                    if w == T::Word("align") {
                        self.adv();
                    }
                    if self.is(b'(') {
                        self.skip_parens();
                    }
                }
                // possible function type
                if self.is(b'(') {
                    self.skip_parens();
                }
                let callee = match self.tok.clone() {
                    T::Glob(n) => {
                        self.adv();
                        Callee::Name(self.intern(n))
                    }
                    T::Loc(n) => {
                        self.adv();
                        Callee::Ptr(Opnd::R(self.reg(n)))
                    }
                    T::Word("asm") => {
                        self.skip_to_call_paren();
                        Callee::Name(self.intern("__asm__"))
                    }
                    _ => {
                        let c = self.cst(&Ty::Ptr);
                        Callee::Ptr(Self::cst_opnd(c, &Ty::Ptr))
                    }
                };
                self.exp(b'(');
                let mut args = vec![];
                while !self.eat(b')') {
                    let t = self.ty();
                    self.skip_attrs();
                    let v = if t == Ty::Other {
                        // metadata arg
                        let mut dpt = 0;
                        while !((self.is(b',') || self.is(b')')) && dpt == 0) {
                            if self.is(b'(') {
                                dpt += 1
                            }
                            if self.is(b')') {
                                dpt -= 1
                            }
                            self.adv();
                        }
                        Opnd::C(0)
                    } else {
                        self.val(&t)
                    };
                    args.push((t, v));
                    self.eat(b',');
                }
                Ins::Call(dst, callee, args.into_boxed_slice(), rt)
            }
            "extractvalue" => {
                let (_, a) = self.tyval();
                let mut ix = vec![];
                while self.is(b',') {
                    self.adv();
                    if let T::Num(_) = self.tok {
                        ix.push(self.num_u64() as u32)
                    } else {
                        break;
                    }
                }
                Ins::Extract(d, a, ix.into_boxed_slice())
            }
            "insertvalue" => {
                let (t, a) = self.tyval();
                self.exp(b',');
                let (_, v) = self.tyval();
                let mut ix = vec![];
                while self.is(b',') {
                    self.adv();
                    if let T::Num(_) = self.tok {
                        ix.push(self.num_u64() as u32)
                    } else {
                        break;
                    }
                }
                Ins::Insert(d, a, v, ix.into_boxed_slice(), t)
            }
            "freeze" => {
                let (_, a) = self.tyval();
                Ins::Mov(d, a)
            }
            "fence" => Ins::Nop,
            "atomicrmw" => {
                flags!();
                let k = match self.adv() {
                    T::Word(w) => match w {
                        "xchg" => 0,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        "umax" => 6,
                        "umin" => 7,
                        "max" => 8,
                        "min" => 9,
                        _ => self.err("rmw"),
                    },
                    _ => self.err("rmw"),
                };
                let (_, p) = self.tyval();
                self.exp(b',');
                let (t, v) = self.tyval();
                Ins::AtomicRmw(k, t, d, p, v)
            }
            "cmpxchg" => {
                flags!();
                let (_, p) = self.tyval();
                self.exp(b',');
                let (t, a) = self.tyval();
                self.exp(b',');
                let (_, b) = self.tyval();
                Ins::CmpXchg(t, d, p, a, b)
            }
            _ => {
                self.end_line();
                blk.ins.push(Ins::Unsupported(Rc::from(op)));
                return;
            }
        };
        blk.ins.push(ins);
        self.end_line();
    }
    fn end_line(&mut self) {
        while !self.nl && self.tok != T::Eof {
            self.adv();
        }
    }
    fn skip_to_call_paren(&mut self) {
        // asm sideeffect "..." , "..."(args)
        while !self.is(b'(') {
            self.adv();
        }
    }
}
