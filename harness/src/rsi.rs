//! A small interpreter for the Rust text that decy generates: the language of the translated functions
//! (integers, bool, arrays, structs, references, raw pointers, blocks, if/match/while/loop, calls).
//! Arithmetic wraps (release profile). `Reject` = rustc would refuse the program; `Unsup` = outside this interpreter.
use crate::cref::extern_result;
use crate::sym;

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Id(String),
    Int(i128, String),
    Float(String),
    Str(String),
    Byte(u8),
    Life(String),
    P(&'static str),
    Eof,
}
const PUN: [&str; 52] = [
    "<<=", ">>=", "..=", "...", "->", "=>", "::", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+=", "-=", "*=", "/=", "%=",
    "&=", "|=", "^=", "..", "+", "-", "*", "/", "%", "!", "&", "|", "^", "<", ">", "=", "(", ")", "{", "}", "[", "]", ",",
    ";", ":", ".", "#", "?", "@", "_", "$", "~",
];
#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// rustc would not accept this text
    Reject(&'static str),
    /// outside the interpreter's language
    Unsup(&'static str),
    Panic(&'static str),
    Fuel,
    Break,
    Continue,
    Return(RV),
}
pub type X<A> = Result<A, Bad>;
fn rej<A>(m: &'static str) -> X<A> {
    Err(Bad::Reject(m))
}
fn uns<A>(m: &'static str) -> X<A> {
    Err(Bad::Unsup(m))
}

pub fn lex(s: &str) -> X<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    'l: while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if s[i..].starts_with("/*") {
            match s[i..].find("*/") {
                Some(k) => i += k + 2,
                None => return rej("unterminated comment"),
            }
            continue;
        }
        if s[i..].starts_with("b'") {
            // byte literal
            let (v, n) = if i + 2 < b.len() && b[i + 2] == b'\\' {
                let v = match b.get(i + 3) {
                    Some(b'n') => 10,
                    Some(b't') => 9,
                    Some(b'r') => 13,
                    Some(b'0') => 0,
                    Some(b'\\') => b'\\',
                    Some(b'\'') => b'\'',
                    Some(b'"') => b'"',
                    Some(b'x') => {
                        let h = s.get(i + 4..i + 6).and_then(|h| u8::from_str_radix(h, 16).ok());
                        match h {
                            Some(h) if b.get(i + 6) == Some(&b'\'') => {
                                o.push(Tok::Byte(h));
                                i += 7;
                                continue 'l;
                            }
                            _ => return rej("bad byte literal"),
                        }
                    }
                    _ => return rej("bad byte literal"),
                };
                (v, 5)
            } else {
                match b.get(i + 2) {
                    Some(v) if *v != b'\'' && v.is_ascii() => (*v, 4),
                    _ => return rej("bad byte literal"),
                }
            };
            if b.get(i + n - 1) != Some(&b'\'') {
                return rej("bad byte literal");
            }
            o.push(Tok::Byte(v));
            i += n;
            continue;
        }
        if c == b'"' || s[i..].starts_with("b\"") {
            let mut j = i + if c == b'"' { 1 } else { 2 };
            let st = j;
            while j < b.len() && b[j] != b'"' {
                if b[j] == b'\\' {
                    j += 1;
                }
                j += 1;
            }
            if j >= b.len() {
                return rej("unterminated string");
            }
            o.push(Tok::Str(s[st..j].to_string()));
            i = j + 1;
            continue;
        }
        if c == b'\'' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            if j < b.len() && b[j] == b'\'' {
                return uns("char literal");
            }
            o.push(Tok::Life(s[i + 1..j].to_string()));
            i = j;
            continue;
        }
        if c.is_ascii_digit() {
            let mut j = i;
            let mut v: u64 = 0;
            let hex = s[i..].starts_with("0x");
            if hex {
                j += 2;
                while j < b.len() && b[j].is_ascii_hexdigit() {
                    v = v.wrapping_mul(16).wrapping_add((b[j] as char).to_digit(16).unwrap_or(0) as u64);
                    j += 1;
                }
            } else {
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'_') {
                    if b[j] != b'_' {
                        v = v.wrapping_mul(10).wrapping_add((b[j] - b'0') as u64);
                    }
                    j += 1;
                }
                if (j + 1 < b.len() && b[j] == b'.' && b[j + 1].is_ascii_digit())
                    || (j < b.len() && (b[j] == b'e' || b[j] == b'E'))
                    || s[j..].starts_with("f32")
                    || s[j..].starts_with("f64")
                {
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.') {
                        j += 1;
                    }
                    o.push(Tok::Float(s[i..j].to_string()));
                    i = j;
                    continue;
                }
            }
            let k = j;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            o.push(Tok::Int(v as i128, s[k..j].to_string()));
            i = j;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            if s[i..j] == *"r" && b.get(j) == Some(&b'#') {
                let st = j + 1;
                j += 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                // the same identifier, unless the plain one is reserved
                let st = if keyword(&s[st..j]) { i } else { st };
                o.push(Tok::Id(s[st..j].to_string()));
            } else if &s[i..j] == "_" {
                o.push(Tok::P("_"));
            } else {
                o.push(Tok::Id(s[i..j].to_string()));
            }
            i = j;
            continue;
        }
        for p in PUN {
            if s[i..].starts_with(p) {
                o.push(Tok::P(p));
                i += p.len();
                continue 'l;
            }
        }
        return rej("unexpected character");
    }
    o.push(Tok::Eof);
    Ok(o)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RT {
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    Usize,
    Isize,
}
pub fn rt(n: &str) -> Option<RT> {
    Some(match n {
        "i8" => RT::I8,
        "u8" => RT::U8,
        "i16" => RT::I16,
        "u16" => RT::U16,
        "i32" => RT::I32,
        "u32" => RT::U32,
        "i64" => RT::I64,
        "u64" => RT::U64,
        "usize" => RT::Usize,
        "isize" => RT::Isize,
        _ => return None,
    })
}
/// Values are kept in canonical form as i64 (u64/usize as their two's complement image).
pub fn wrap(v: i64, t: RT) -> i64 {
    match t {
        RT::I8 => v as i8 as i64,
        RT::U8 => v as u8 as i64,
        RT::I16 => v as i16 as i64,
        RT::U16 => v as u16 as i64,
        RT::I32 => v as i32 as i64,
        RT::U32 => v as u32 as i64,
        _ => v,
    }
}
pub fn signed(t: RT) -> bool {
    matches!(t, RT::I8 | RT::I16 | RT::I32 | RT::I64 | RT::Isize)
}
fn bits(t: RT) -> u32 {
    match t {
        RT::I8 | RT::U8 => 8,
        RT::I16 | RT::U16 => 16,
        RT::I32 | RT::U32 => 32,
        _ => 64,
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Int(RT),
    Bool,
    Unit,
    F32,
    F64,
    Ref(bool, Box<Ty>),
    Raw(Box<Ty>),
    Slice(Box<Ty>),
    Arr(Box<Ty>, usize),
    Vec(Box<Ty>),
    Boxed(Box<Ty>),
    Named(String),
    Infer,
    Char,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Pj {
    F(String),
    I(usize),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Place {
    pub slot: usize,
    pub path: Vec<Pj>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum RV {
    I(i64, RT),
    /// integer literal whose type is still to be inferred; negated?
    Lit(i64, bool),
    B(bool),
    F32(u32),
    F64(u64),
    FLit(u64),
    Unit,
    Arr(Vec<RV>),
    St(String, Vec<(String, RV)>),
    Ref(Place, bool),
    /// raw pointer: base place (an array element when idx is used) and element offset
    Raw(Place, i64),
    Null,
    Str(String),
    Ch(i64),
}

#[derive(Clone, Debug)]
pub enum Ex {
    Int(i128, String),
    Float(String),
    Byte(u8),
    Str(String),
    Bool(bool),
    Path(String),
    Un(&'static str, Box<Ex>),
    /// & / &mut
    Addr(bool, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Asg(&'static str, Box<Ex>, Box<Ex>),
    Cast(Box<Ex>, Ty),
    Call(String, Vec<Ex>),
    Print(String, Vec<Ex>, bool),
    Meth(Box<Ex>, String, Vec<Ex>),
    Field(Box<Ex>, String),
    Index(Box<Ex>, Box<Ex>),
    Block(Vec<St>, Option<Box<Ex>>),
    If(Box<Ex>, Box<Ex>, Option<Box<Ex>>),
    Match(Box<Ex>, Vec<(Vec<Pat>, Ex)>),
    While(String, Box<Ex>, Box<Ex>),
    Loop(String, Box<Ex>),
    Brk(String),
    Cont(String),
    Ret(Option<Box<Ex>>),
    Arr(Vec<Ex>),
    Rep(Box<Ex>, Box<Ex>),
    SLit(String, Vec<(String, Ex)>),
    Unsafe(Box<Ex>),
    For(String, String, Box<Ex>, Box<Ex>, bool, Box<Ex>),
    Unit,
}
#[derive(Clone, Debug)]
pub enum Pat {
    I(i128, String, bool),
    Byte(u8),
    Wild,
    Bool(bool),
    /// a constant, or a new name for whatever is matched
    Name(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Let(String, bool, Option<Ty>, Option<Ex>),
    E(Ex),
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(String, bool, Ty)>,
    pub ret: Ty,
    pub body: Ex,
}

/// A whole generated file.
#[derive(Default)]
pub struct Prog {
    pub funcs: Vec<std::rc::Rc<Func>>,
    pub structs: Vec<(String, Vec<(String, Ty)>)>,
    /// name, is it a static, type, value
    pub values: Vec<(String, bool, Ty, Ex)>,
}
pub struct Parser {
    t: Vec<Tok>,
    p: usize,
    nostruct: bool,
    aliases: Vec<(String, Ty)>,
}
impl Parser {
    pub fn new(s: &str) -> X<Parser> {
        Ok(Parser { t: lex(s)?, p: 0, nostruct: false, aliases: vec![] })
    }
    fn pk(&self) -> &Tok {
        &self.t[self.p]
    }
    fn at(&self, p: &str) -> bool {
        matches!(self.pk(), Tok::P(q) if *q == p)
    }
    fn atk(&self, k: &str) -> bool {
        matches!(self.pk(), Tok::Id(q) if q == k)
    }
    fn nx(&mut self) -> Tok {
        let t = self.t[self.p].clone();
        if self.p + 1 < self.t.len() {
            self.p += 1;
        }
        t
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.at(p) {
            self.nx();
            true
        } else {
            false
        }
    }
    fn eatk(&mut self, p: &str) -> bool {
        if self.atk(p) {
            self.nx();
            true
        } else {
            false
        }
    }
    fn want(&mut self, p: &str) -> X<()> {
        if self.eat(p) {
            Ok(())
        } else {
            rej("syntax")
        }
    }
    fn id(&mut self) -> X<String> {
        match self.nx() {
            Tok::Id(s) if keyword(&s) => rej("keyword"),
            Tok::Id(s) => Ok(s),
            _ => rej("identifier expected"),
        }
    }
    /// split a `>>` when a single `>` is wanted
    fn gt(&mut self) -> X<()> {
        if self.eat(">") {
            return Ok(());
        }
        if self.at(">>") {
            let p = self.p;
            self.t[p] = Tok::P(">");
            return Ok(());
        }
        rej("> expected")
    }
    pub fn ty(&mut self) -> X<Ty> {
        if self.eat("&") {
            if let Tok::Life(_) = self.pk() {
                self.nx();
            }
            let m = self.eatk("mut");
            return Ok(Ty::Ref(m, Box::new(self.ty()?)));
        }
        if self.eat("*") {
            if !(self.eatk("mut") || self.eatk("const")) {
                return rej("raw pointer type");
            }
            return Ok(Ty::Raw(Box::new(self.ty()?)));
        }
        if self.eat("(") {
            self.want(")")?;
            return Ok(Ty::Unit);
        }
        if self.eat("[") {
            let e = self.ty()?;
            if self.eat(";") {
                let n = match self.nx() {
                    Tok::Int(n, _) => n as usize,
                    _ => return uns("array size"),
                };
                self.want("]")?;
                return Ok(Ty::Arr(Box::new(e), n));
            }
            self.want("]")?;
            return Ok(Ty::Slice(Box::new(e)));
        }
        if self.eat("_") {
            return Ok(Ty::Infer);
        }
        let n = self.id()?;
        if let Some(t) = rt(&n) {
            return Ok(Ty::Int(t));
        }
        Ok(match n.as_str() {
            "bool" => Ty::Bool,
            "char" => Ty::Char,
            "f32" => Ty::F32,
            "f64" => Ty::F64,
            "Vec" | "Box" => {
                self.want("<")?;
                let i = self.ty()?;
                self.gt()?;
                if n == "Vec" {
                    Ty::Vec(Box::new(i))
                } else {
                    Ty::Boxed(Box::new(i))
                }
            }
            "Option" => return uns("Option"),
            _ => match self.aliases.iter().find(|a| a.0 == n) {
                Some((_, t)) => t.clone(),
                None => Ty::Named(n),
            },
        })
    }
    pub fn program(&mut self) -> X<Prog> {
        let mut o = Prog::default();
        while !self.eof() {
            let start = self.p;
            self.attributes()?;
            self.eatk("pub");
            if self.eatk("type") {
                let n = self.id()?;
                self.want("=")?;
                let t = self.ty()?;
                self.want(";")?;
                self.aliases.push((n, t));
            } else if self.eatk("struct") {
                let n = self.id()?;
                self.want("{")?;
                let mut f = vec![];
                while !self.eat("}") {
                    self.eatk("pub");
                    let k = self.id()?;
                    self.want(":")?;
                    f.push((k, self.ty()?));
                    if !self.at("}") {
                        self.want(",")?;
                    }
                }
                o.structs.push((n, f));
            } else if self.atk("const") || self.atk("static") {
                let st = self.eatk("static");
                if !st {
                    self.eatk("const");
                }
                let m = self.eatk("mut");
                if st != m {
                    return uns("immutable static");
                }
                let n = self.id()?;
                self.want(":")?;
                let t = self.ty()?;
                self.want("=")?;
                let e = self.expr()?;
                self.want(";")?;
                if o.values.iter().any(|v| v.0 == n) {
                    return rej("name defined twice");
                }
                o.values.push((n, st, t, e));
            } else {
                self.p = start;
                let f = self.func()?;
                if o.funcs.iter().any(|g| g.name == f.name) {
                    return rej("function defined twice");
                }
                o.funcs.push(std::rc::Rc::new(f));
            }
        }
        Ok(o)
    }
    pub fn func(&mut self) -> X<Func> {
        self.attributes()?;
        self.eatk("pub");
        if !self.eatk("fn") {
            return uns("item is not a function");
        }
        self.func_rest()
    }
    fn attributes(&mut self) -> X<()> {
        while self.eat("#") {
            // attribute
            if !self.eat("[") {
                return rej("attribute");
            }
            let mut d = 1;
            while d > 0 {
                match self.nx() {
                    Tok::P("[") => d += 1,
                    Tok::P("]") => d -= 1,
                    Tok::Eof => return rej("attribute"),
                    _ => {}
                }
            }
        }
        Ok(())
    }
    fn func_rest(&mut self) -> X<Func> {
        let name = self.id()?;
        if self.eat("<") {
            while !self.eat(">") {
                match self.nx() {
                    Tok::Life(_) | Tok::P(",") | Tok::P(":") | Tok::P("+") => {}
                    _ => return uns("generics"),
                }
            }
        }
        self.want("(")?;
        let mut params = vec![];
        while !self.eat(")") {
            let m = self.eatk("mut");
            let n = self.id()?;
            self.want(":")?;
            let t = self.ty()?;
            params.push((n, m, t));
            if !self.at(")") {
                self.want(",")?;
            }
        }
        let ret = if self.eat("->") { self.ty()? } else { Ty::Unit };
        let body = self.block()?;
        Ok(Func { name, params, ret, body })
    }
    pub fn eof(&self) -> bool {
        matches!(self.pk(), Tok::Eof)
    }
    fn block(&mut self) -> X<Ex> {
        self.want("{")?;
        let save = self.nostruct;
        self.nostruct = false;
        let mut ss = vec![];
        let mut tail = None;
        loop {
            if self.eat("}") {
                break;
            }
            if self.eat(";") {
                continue;
            }
            if self.eatk("let") {
                let m = self.eatk("mut");
                let n = if self.eat("_") { "_".to_string() } else { self.id()? };
                let t = if self.eat(":") { Some(self.ty()?) } else { None };
                let e = if self.eat("=") { Some(self.expr()?) } else { None };
                self.want(";")?;
                ss.push(St::Let(n, m, t, e));
                continue;
            }
            // statement position: block-like expressions end the statement
            let blocklike = self.atk("if")
                || self.atk("while")
                || self.atk("loop")
                || self.atk("match")
                || self.atk("unsafe")
                || self.atk("for")
                || self.at("{")
                || matches!(self.pk(), Tok::Life(_));
            let e = if blocklike {
                let e = self.primary()?;
                if self.at(".") || self.at("?") {
                    // method call on a block-like expression continues it
                    let e = self.postfix(e)?;
                    self.binrest(e, 0)?
                } else {
                    if self.at("}") {
                        tail = Some(Box::new(e));
                        self.nx();
                        break;
                    }
                    if !self.eat(";") {
                        ss.push(St::E(e));
                        continue;
                    }
                    ss.push(St::E(e));
                    continue;
                }
            } else {
                self.expr()?
            };
            if self.eat(";") {
                ss.push(St::E(e));
            } else if self.eat("}") {
                tail = Some(Box::new(e));
                break;
            } else {
                return rej("missing semicolon");
            }
        }
        self.nostruct = save;
        Ok(Ex::Block(ss, tail))
    }
    pub fn expr(&mut self) -> X<Ex> {
        let l = self.bin(0)?;
        for o in ["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="] {
            if self.eat(o) {
                let r = self.expr()?;
                return Ok(Ex::Asg(o, Box::new(l), Box::new(r)));
            }
        }
        Ok(l)
    }
    fn prec(&self) -> Option<(&'static str, u8)> {
        let p = match self.pk() {
            Tok::P(p) => *p,
            _ => return None,
        };
        Some((
            p,
            match p {
                "||" => 1,
                "&&" => 2,
                "==" | "!=" | "<" | ">" | "<=" | ">=" => 3,
                "|" => 4,
                "^" => 5,
                "&" => 6,
                "<<" | ">>" => 7,
                "+" | "-" => 8,
                "*" | "/" | "%" => 9,
                _ => return None,
            },
        ))
    }
    fn bin(&mut self, min: u8) -> X<Ex> {
        let l = self.unary()?;
        self.binrest(l, min)
    }
    fn binrest(&mut self, mut l: Ex, min: u8) -> X<Ex> {
        let mut cmp = false;
        loop {
            if self.atk("as") {
                // `as` binds tighter than any binary operator
                self.nx();
                let t = self.ty()?;
                if self.at("<") || self.at("<<") {
                    return rej("`<` after a cast is parsed as generics");
                }
                l = Ex::Cast(Box::new(l), t);
                continue;
            }
            let (op, p) = match self.prec() {
                Some(x) if x.1 > min => x,
                _ => return Ok(l),
            };
            if p == 3 {
                if cmp {
                    return rej("comparison operators cannot be chained");
                }
                cmp = true;
            }
            self.nx();
            let r = self.bin(p)?;
            if p == 3 {
                if let Some((_, 3)) = self.prec() {
                    return rej("comparison operators cannot be chained");
                }
            }
            l = Ex::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self) -> X<Ex> {
        let mut e = self.unary0()?;
        while self.atk("as") {
            self.nx();
            let t = self.ty()?;
            if self.at("<") || self.at("<<") {
                return rej("`<` after a cast is parsed as generics");
            }
            e = Ex::Cast(Box::new(e), t);
        }
        Ok(e)
    }
    fn unary0(&mut self) -> X<Ex> {
        for o in ["-", "!", "*"] {
            if self.eat(o) {
                let e = self.unary0()?;
                return Ok(Ex::Un(o, Box::new(e)));
            }
        }
        if self.at("&") || self.at("&&") {
            let two = self.at("&&");
            self.nx();
            let m = self.eatk("mut");
            let e = self.unary0()?;
            let e = Ex::Addr(m, Box::new(e));
            return Ok(if two { Ex::Addr(false, Box::new(e)) } else { e });
        }
        let e = self.primary()?;
        self.postfix(e)
    }
    fn args(&mut self, close: &str) -> X<Vec<Ex>> {
        let save = self.nostruct;
        self.nostruct = false;
        let mut a = vec![];
        while !self.eat(close) {
            a.push(self.expr()?);
            if !self.at(close) {
                self.want(",")?;
            }
        }
        self.nostruct = save;
        Ok(a)
    }
    fn postfix(&mut self, mut e: Ex) -> X<Ex> {
        loop {
            if self.eat(".") {
                match self.nx() {
                    Tok::Id(n) => {
                        if self.eat("(") {
                            let a = self.args(")")?;
                            e = Ex::Meth(Box::new(e), n, a);
                        } else {
                            e = Ex::Field(Box::new(e), n);
                        }
                    }
                    Tok::Int(n, _) => e = Ex::Field(Box::new(e), n.to_string()),
                    _ => return rej("field"),
                }
            } else if self.eat("[") {
                let save = self.nostruct;
                self.nostruct = false;
                let i = self.expr()?;
                self.nostruct = save;
                self.want("]")?;
                e = Ex::Index(Box::new(e), Box::new(i));
            } else if self.eat("?") {
                return uns("?");
            } else {
                return Ok(e);
            }
        }
    }
    fn cond(&mut self) -> X<Ex> {
        let save = self.nostruct;
        self.nostruct = true;
        if self.atk("let") {
            return uns("if let");
        }
        let e = self.expr()?;
        self.nostruct = save;
        Ok(e)
    }
    fn primary(&mut self) -> X<Ex> {
        match self.nx() {
            Tok::Int(v, s) => Ok(Ex::Int(v, s)),
            Tok::Float(s) => Ok(Ex::Float(s)),
            Tok::Byte(b) => Ok(Ex::Byte(b)),
            Tok::Str(s) => Ok(Ex::Str(s)),
            Tok::P("(") => {
                if self.eat(")") {
                    return Ok(Ex::Unit);
                }
                let save = self.nostruct;
                self.nostruct = false;
                let e = self.expr()?;
                self.nostruct = save;
                if self.at(",") {
                    return uns("tuple");
                }
                self.want(")")?;
                Ok(e)
            }
            Tok::P("{") => {
                self.p -= 1;
                self.block()
            }
            Tok::P("[") => {
                if self.eat("]") {
                    return Ok(Ex::Arr(vec![]));
                }
                let f = self.expr()?;
                if self.eat(";") {
                    let n = self.expr()?;
                    self.want("]")?;
                    return Ok(Ex::Rep(Box::new(f), Box::new(n)));
                }
                let mut v = vec![f];
                while !self.eat("]") {
                    self.want(",")?;
                    if self.at("]") {
                        continue;
                    }
                    v.push(self.expr()?);
                }
                Ok(Ex::Arr(v))
            }
            Tok::Life(l) => {
                self.want(":")?;
                let mut e = self.primary()?;
                match &mut e {
                    Ex::While(n, ..) | Ex::Loop(n, ..) | Ex::For(n, ..) => *n = l,
                    _ => return uns("labelled block"),
                }
                Ok(e)
            }
            Tok::Id(n) => match n.as_str() {
                "true" => Ok(Ex::Bool(true)),
                "false" => Ok(Ex::Bool(false)),
                "unsafe" => Ok(Ex::Unsafe(Box::new(self.block()?))),
                "if" => {
                    let c = self.cond()?;
                    let t = self.block()?;
                    let e = if self.eatk("else") {
                        Some(Box::new(if self.atk("if") { self.primary()? } else { self.block()? }))
                    } else {
                        None
                    };
                    Ok(Ex::If(Box::new(c), Box::new(t), e))
                }
                "while" => {
                    let c = self.cond()?;
                    let b = self.block()?;
                    Ok(Ex::While(String::new(), Box::new(c), Box::new(b)))
                }
                "loop" => Ok(Ex::Loop(String::new(), Box::new(self.block()?))),
                "for" => {
                    let v = if self.eat("_") { "_".to_string() } else { self.id()? };
                    if !self.eatk("in") {
                        return rej("for");
                    }
                    let save = self.nostruct;
                    self.nostruct = true;
                    let a = self.bin(0)?;
                    let inc = if self.eat("..=") {
                        true
                    } else if self.eat("..") {
                        false
                    } else {
                        return uns("for over an iterator");
                    };
                    let b = self.bin(0)?;
                    self.nostruct = save;
                    let body = self.block()?;
                    Ok(Ex::For(String::new(), v, Box::new(a), Box::new(b), inc, Box::new(body)))
                }
                "match" => {
                    let c = self.cond()?;
                    self.want("{")?;
                    let mut arms = vec![];
                    while !self.eat("}") {
                        let mut ps = vec![];
                        loop {
                            ps.push(match self.nx() {
                                Tok::Int(v, s) => Pat::I(v, s, false),
                                Tok::P("-") => match self.nx() {
                                    Tok::Int(v, s) => Pat::I(v, s, true),
                                    _ => return rej("pattern"),
                                },
                                Tok::Byte(b) => Pat::Byte(b),
                                Tok::P("_") => Pat::Wild,
                                Tok::Id(k) if k == "true" => Pat::Bool(true),
                                Tok::Id(k) if k == "false" => Pat::Bool(false),
                                Tok::Id(k) => {
                                    if self.at("::") {
                                        return uns("path pattern");
                                    }
                                    Pat::Name(k)
                                }
                                _ => return rej("pattern"),
                            });
                            if !self.eat("|") {
                                break;
                            }
                        }
                        if self.atk("as") {
                            return rej("cast in a pattern");
                        }
                        if !self.at("=>") {
                            return uns("pattern");
                        }
                        self.nx();
                        let e = self.expr()?;
                        arms.push((ps, e));
                        self.eat(",");
                    }
                    Ok(Ex::Match(Box::new(c), arms))
                }
                "break" => {
                    if let Tok::Life(l) = self.pk().clone() {
                        self.nx();
                        return Ok(Ex::Brk(l));
                    }
                    Ok(Ex::Brk(String::new()))
                }
                "continue" => {
                    if let Tok::Life(l) = self.pk().clone() {
                        self.nx();
                        return Ok(Ex::Cont(l));
                    }
                    Ok(Ex::Cont(String::new()))
                }
                "return" => {
                    if self.at(";") || self.at("}") {
                        Ok(Ex::Ret(None))
                    } else {
                        Ok(Ex::Ret(Some(Box::new(self.expr()?))))
                    }
                }
k if keyword(k) => rej("keyword"),
                _ => {
                    let mut path = n;
                    while self.eat("::") {
                        if self.eat("<") {
                            let t = self.ty()?;
                            self.gt()?;
                            path = format!("{}::<{:?}>", path, t);
                        } else {
                            let k = self.id()?;
                            path = format!("{}::{}", path, k);
                        }
                    }
                    if self.at("!") && !matches!(self.t.get(self.p + 1), Some(Tok::P("="))) {
                        self.nx();
                        if path == "vec" && self.eat("[") {
                            self.p -= 1;
                            return self.primary();
                        }
                        if (path == "print" || path == "println") && self.eat("(") {
                            let mut a = self.args(")")?;
                            return match a.first() {
                                Some(Ex::Str(f)) => {
                                    let f = f.clone();
                                    a.remove(0);
                                    Ok(Ex::Print(f, a, path == "println"))
                                }
                                None if path == "println" => Ok(Ex::Print(String::new(), vec![], true)),
                                _ => rej("format argument must be a string literal"),
                            };
                        }
                        return uns("macro");
                    }
                    if self.eat("(") {
                        let a = self.args(")")?;
                        return Ok(Ex::Call(path, a));
                    }
                    if self.at("{") && !self.nostruct && path.chars().next().is_some_and(|c| c.is_ascii_uppercase()) {
                        self.nx();
                        let mut f = vec![];
                        while !self.eat("}") {
                            if self.eat("..") {
                                let _ = self.expr()?;
                                f.push(("..".to_string(), Ex::Unit));
                                continue;
                            }
                            let k = self.id()?;
                            self.want(":")?;
                            f.push((k, self.expr()?));
                            if !self.at("}") {
                                self.want(",")?;
                            }
                        }
                        return Ok(Ex::SLit(path, f));
                    }
                    Ok(Ex::Path(path))
                }
            },
            _ => rej("expression expected"),
        }
    }
}

pub struct Mach {
    pub mem: Vec<RV>,
    /// name, slot, mutable
    pub names: Vec<(String, usize, bool)>,
    pub calls: Vec<(String, Vec<i64>)>,
    pub fuel: u32,
    pub exited: Option<i64>,
    /// struct name, ordered fields with zero values
    pub structs: Vec<(String, Vec<(String, RV)>)>,
    label: String,
    pub funcs: Vec<std::rc::Rc<Func>>,
    /// names[..globals] are the file's, names[base..] those of the running function
    pub globals: usize,
    base: usize,
    /// slots of the file's `static mut`s
    pub statics: Vec<usize>,
    unsafe_: u32,
}
fn lit_fits(v: i64, t: RT) -> bool {
    match t {
        RT::U64 | RT::Usize => v >= 0,
        RT::I64 | RT::Isize => true,
        _ => wrap(v, t) == v,
    }
}
/// Give a value the expected type, as rustc's inference would.
/// Reserved words (those that can be written raw).
pub fn keyword(s: &str) -> bool {
    matches!(
        s,
        "fn" | "let" | "struct" | "type" | "const" | "static" | "mut" | "impl" | "in" | "else" | "pub" | "ref" | "trait" | "use"
            | "mod" | "move" | "dyn" | "async" | "await" | "where" | "extern" | "enum" | "abstract" | "become" | "box" | "do"
            | "final" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized" | "virtual" | "yield" | "as" | "break"
            | "continue" | "false" | "for" | "if" | "loop" | "match" | "return" | "true" | "unsafe" | "while"
    )
}
pub fn coerce(v: RV, t: &Ty) -> X<RV> {
    match (v, t) {
        (RV::Lit(v, neg), Ty::Int(r)) => {
            if neg && !signed(*r) {
                return rej("negative literal of unsigned type");
            }
            Ok(RV::I(wrap(v, *r), *r))
        }
        (RV::Lit(..), _) if *t != Ty::Infer => rej("mismatched types"),
        (RV::I(v, a), Ty::Int(r)) => {
            if a != *r {
                return rej("mismatched types");
            }
            Ok(RV::I(v, a))
        }
        (RV::I(..), Ty::Infer) => uns("infer"),
        (RV::I(..), _) => rej("mismatched types"),
        (RV::B(b), Ty::Bool) => Ok(RV::B(b)),
        (RV::B(_), _) => rej("mismatched types"),
        (RV::Unit, Ty::Unit) => Ok(RV::Unit),
        (RV::Unit, _) => rej("mismatched types"),
        (RV::FLit(b), Ty::F64) => Ok(RV::F64(b)),
        (RV::FLit(b), Ty::F32) => Ok(RV::F32((f64::from_bits(b) as f32).to_bits())),
        (RV::F32(b), Ty::F32) => Ok(RV::F32(b)),
        (RV::F64(b), Ty::F64) => Ok(RV::F64(b)),
        (RV::F32(_), _) | (RV::F64(_), _) | (RV::FLit(_), _) => rej("mismatched types"),
        (RV::Arr(v), Ty::Arr(e, n)) => {
            if v.len() != *n {
                return rej("array length");
            }
            let mut o = vec![];
            for x in v {
                o.push(coerce(x, e)?);
            }
            Ok(RV::Arr(o))
        }
        (RV::Arr(v), Ty::Vec(e)) => {
            let mut o = vec![];
            for x in v {
                o.push(coerce(x, e)?);
            }
            Ok(RV::Arr(o))
        }
        (RV::Ref(p, m), Ty::Ref(tm, _)) => {
            if *tm && !m {
                return rej("& where &mut is expected");
            }
            Ok(RV::Ref(p, m))
        }
        (RV::Ref(p, _), Ty::Raw(_)) => Ok(RV::Raw(p, 0)),
        (RV::St(n, f), Ty::Named(m)) => {
            if n != *m {
                return rej("mismatched types");
            }
            Ok(RV::St(n, f))
        }
        (RV::Raw(p, o), Ty::Raw(_)) => Ok(RV::Raw(p, o)),
        (RV::Null, Ty::Raw(_)) => Ok(RV::Null),
        (_, Ty::Unit) => rej("mismatched types"),
        _ => uns("coercion"),
    }
}
fn default_lit(v: RV) -> X<RV> {
    match v {
        RV::Lit(v, _) => Ok(RV::I(wrap(v, RT::I32), RT::I32)),
        RV::FLit(b) => Ok(RV::F64(b)),
        v => Ok(v),
    }
}

impl Mach {
    pub fn new(fuel: u32) -> Mach {
        Mach { mem: vec![], names: vec![], calls: vec![], fuel, exited: None, structs: vec![], label: String::new(), funcs: vec![], globals: 0, base: 0, statics: vec![], unsafe_: 0 }
    }
    pub fn alloc(&mut self, v: RV) -> usize {
        self.mem.push(v);
        self.mem.len() - 1
    }
    pub fn bind(&mut self, n: &str, v: RV, m: bool) -> usize {
        let s = self.alloc(v);
        self.names.push((n.to_string(), s, m));
        s
    }
    fn find(&self, n: &str) -> X<(usize, bool)> {
        for (k, s, m) in self.names[self.base..].iter().rev().chain(self.names[..self.globals.min(self.base)].iter()) {
            if k == n {
                if self.unsafe_ == 0 && self.statics.contains(s) {
                    return rej("use of a mutable static outside unsafe");
                }
                return Ok((*s, *m));
            }
        }
        rej("unknown name")
    }
    fn tick(&mut self) -> X<()> {
        if self.fuel == 0 {
            return Err(Bad::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    pub fn read(&self, p: &Place) -> X<RV> {
        let mut v = &self.mem[p.slot];
        for j in &p.path {
            v = match (v, j) {
                (RV::Arr(a), Pj::I(i)) => match a.get(*i) {
                    Some(x) => x,
                    None => return Err(Bad::Panic("index out of bounds")),
                },
                (RV::St(_, f), Pj::F(n)) => match f.iter().find(|(k, _)| k == n) {
                    Some((_, x)) => x,
                    None => return rej("no such field"),
                },
                _ => return rej("bad projection"),
            };
        }
        Ok(v.clone())
    }
    pub fn write(&mut self, p: &Place, x: RV) -> X<()> {
        let mut v = &mut self.mem[p.slot];
        for j in &p.path {
            v = match (v, j) {
                (RV::Arr(a), Pj::I(i)) => match a.get_mut(*i) {
                    Some(x) => x,
                    None => return Err(Bad::Panic("index out of bounds")),
                },
                (RV::St(_, f), Pj::F(n)) => match f.iter_mut().find(|(k, _)| k == n) {
                    Some((_, x)) => x,
                    None => return rej("no such field"),
                },
                _ => return rej("bad projection"),
            };
        }
        // the type of a place never changes
        let x = match (&*v, x) {
            (RV::I(_, t), x) => coerce(x, &Ty::Int(*t))?,
            (RV::B(_), x) => coerce(x, &Ty::Bool)?,
            (RV::F32(_), x) => coerce(x, &Ty::F32)?,
            (RV::F64(_), x) => coerce(x, &Ty::F64)?,
            (RV::Lit(..), x) => default_lit(x)?,
            (RV::Unit, _) => return uns("write to unit"),
            (_, x) => x,
        };
        *v = x;
        Ok(())
    }
    /// Place denoted by an expression, and whether it may be written.
    fn place(&mut self, e: &Ex) -> X<(Place, bool)> {
        match e {
            Ex::Path(n) => {
                let (s, m) = self.find(n)?;
                Ok((Place { slot: s, path: vec![] }, m))
            }
            Ex::Un("*", i) => {
                let v = self.eval(i)?;
                match v {
                    RV::Ref(p, m) => Ok((p, m)),
                    RV::Raw(p, o) => Ok((self.raw(&p, o)?, true)),
                    RV::Null => Err(Bad::Panic("null pointer dereference")),
                    RV::I(..) | RV::Lit(..) | RV::B(_) => rej("dereference of a non-pointer"),
                    _ => uns("dereference"),
                }
            }
            Ex::Field(o, f) => {
                let (mut p, m) = self.autoderef(o)?;
                p.path.push(Pj::F(f.clone()));
                Ok((p, m))
            }
            Ex::Index(a, i) => {
                let (mut p, m) = self.autoderef(a)?;
                let iv = self.eval(i)?;
                let iv = match iv {
                    RV::Lit(v, _) => v,
                    RV::I(v, RT::Usize) => v,
                    RV::I(..) => return rej("index is not usize"),
                    _ => return rej("index"),
                };
                let n = match self.read(&p)? {
                    RV::Arr(v) => v.len(),
                    _ => return rej("indexing a non-array"),
                };
                if !((iv >= 0) & (iv < n as i64)) {
                    return Err(Bad::Panic("index out of bounds"));
                }
                let k = sym::conc(iv as u64) as usize;
                p.path.push(Pj::I(k));
                Ok((p, m))
            }
            Ex::Block(ss, Some(t)) if ss.is_empty() => self.place(t),
            Ex::Unsafe(b) => {
                self.unsafe_ += 1;
                let r = self.place(b);
                self.unsafe_ -= 1;
                r
            }
            _ => {
                let v = self.eval(e)?;
                let v = default_lit(v)?;
                let s = self.alloc(v);
                Ok((Place { slot: s, path: vec![] }, true))
            }
        }
    }
    fn raw(&self, p: &Place, o: i64) -> X<Place> {
        if o == 0 {
            return Ok(p.clone());
        }
        let mut q = p.clone();
        match q.path.last_mut() {
            Some(Pj::I(i)) => {
                let k = *i as i64 + o;
                if k < 0 {
                    return Err(Bad::Panic("pointer before its allocation"));
                }
                *i = k as usize;
                Ok(q)
            }
            _ => Err(Bad::Panic("pointer outside its allocation")),
        }
    }
    fn autoderef(&mut self, e: &Ex) -> X<(Place, bool)> {
        let (mut p, mut m) = self.place(e)?;
        loop {
            match self.read(&p)? {
                RV::Ref(q, qm) => {
                    p = q;
                    m = qm;
                }
                RV::Raw(..) => return rej("field or index of a raw pointer"),
                _ => return Ok((p, m)),
            }
        }
    }
    fn unify(a: RV, b: RV) -> X<(RV, RV)> {
        match (&a, &b) {
            (RV::Lit(..), RV::I(_, t)) => {
                let t = Ty::Int(*t);
                Ok((coerce(a, &t)?, b))
            }
            (RV::I(_, t), RV::Lit(..)) => {
                let t = Ty::Int(*t);
                Ok((a, coerce(b, &t)?))
            }
            (RV::FLit(_), RV::F32(_)) => Ok((coerce(a, &Ty::F32)?, b)),
            (RV::F32(_), RV::FLit(_)) => Ok((a, coerce(b, &Ty::F32)?)),
            (RV::FLit(_), RV::F64(_)) | (RV::F64(_), RV::FLit(_)) => Ok((default_lit(a)?, default_lit(b)?)),
            _ => Ok((a, b)),
        }
    }
    fn binop(op: &str, a: RV, b: RV) -> X<RV> {
        if op == "<<" || op == ">>" {
            let s = match b {
                RV::I(v, _) => v,
                RV::Lit(v, _) => v,
                _ => return rej("shift amount"),
            };
            return match a {
                RV::I(v, t) => {
                    let n = bits(t);
                    let s = (s as u32) & (n - 1);
                    Ok(RV::I(
                        if op == "<<" {
                            wrap(v << s, t)
                        } else if signed(t) || n < 64 {
                            wrap(v >> s, t)
                        } else {
                            ((v as u64) >> s) as i64
                        },
                        t,
                    ))
                }
                RV::Lit(v, neg) => {
                    let s = (s as u32) & 31;
                    Ok(RV::Lit(if op == "<<" { v << s } else { v >> s }, neg))
                }
                _ => rej("shift of a non-integer"),
            };
        }
        let (a, b) = Self::unify(a, b)?;
        match (a, b) {
            (RV::I(x, t), RV::I(y, u)) => {
                if t != u {
                    return rej("mismatched integer types");
                }
                let w = bits(t) == 64;
                Ok(match op {
                    "+" => RV::I(wrap(x.wrapping_add(y), t), t),
                    "-" => RV::I(wrap(x.wrapping_sub(y), t), t),
                    "*" => RV::I(wrap(x.wrapping_mul(y), t), t),
                    "/" | "%" => {
                        if y == 0 {
                            return Err(Bad::Panic("division by zero"));
                        }
                        let div = op == "/";
                        match t {
                            RT::I32 | RT::I16 | RT::I8 => {
                                let (p, q) = (x as i32, y as i32);
                                let min = match t {
                                    RT::I32 => i32::MIN,
                                    RT::I16 => i16::MIN as i32,
                                    _ => i8::MIN as i32,
                                };
                                if (p == min) & (q == -1) {
                                    return Err(Bad::Panic("division overflow"));
                                }
                                RV::I(if div { p.wrapping_div(q) } else { p.wrapping_rem(q) } as i64, t)
                            }
                            RT::U32 | RT::U16 | RT::U8 => {
                                let (p, q) = (x as u32, y as u32);
                                RV::I(if div { p.wrapping_div(q) } else { p.wrapping_rem(q) } as i64, t)
                            }
                            RT::I64 | RT::Isize => {
                                if (x == i64::MIN) & (y == -1) {
                                    return Err(Bad::Panic("division overflow"));
                                }
                                RV::I(if div { x.wrapping_div(y) } else { x.wrapping_rem(y) }, t)
                            }
                            _ => RV::I(
                                if div { (x as u64).wrapping_div(y as u64) } else { (x as u64).wrapping_rem(y as u64) } as i64,
                                t,
                            ),
                        }
                    }
                    "&" => RV::I(x & y, t),
                    "|" => RV::I(x | y, t),
                    "^" => RV::I(wrap(x ^ y, t), t),
                    "==" => RV::B(x == y),
                    "!=" => RV::B(x != y),
                    _ => {
                        let lt = |p: i64, q: i64| if w && !signed(t) { (p as u64) < (q as u64) } else { p < q };
                        match op {
                            "<" => RV::B(lt(x, y)),
                            ">" => RV::B(lt(y, x)),
                            "<=" => RV::B(!lt(y, x)),
                            ">=" => RV::B(!lt(x, y)),
                            _ => return rej("operator on integers"),
                        }
                    }
                })
            }
            (RV::Lit(x, n1), RV::Lit(y, n2)) => {
                let neg = n1 || n2;
                Ok(match op {
                    "+" => RV::Lit(x + y, neg),
                    "-" => RV::Lit(x - y, neg),
                    "*" => RV::Lit(x.wrapping_mul(y), neg),
                    "/" | "%" => {
                        if y == 0 {
                            return rej("constant division by zero");
                        }
                        let (p, q) = (x as i32, y as i32);
                        if (p == i32::MIN) & (q == -1) {
                            return rej("constant overflow");
                        }
                        RV::Lit(if op == "/" { p.wrapping_div(q) } else { p.wrapping_rem(q) } as i64, neg)
                    }
                    "&" => RV::Lit(x & y, neg),
                    "|" => RV::Lit(x | y, neg),
                    "^" => RV::Lit(x ^ y, neg),
                    "==" => RV::B(x == y),
                    "!=" => RV::B(x != y),
                    "<" => RV::B(x < y),
                    ">" => RV::B(x > y),
                    "<=" => RV::B(x <= y),
                    ">=" => RV::B(x >= y),
                    _ => return rej("operator on integers"),
                })
            }
            (RV::B(x), RV::B(y)) => Ok(RV::B(match op {
                "&" => x & y,
                "|" => x | y,
                "^" => x ^ y,
                "==" => x == y,
                "!=" => x != y,
                "<" => !x & y,
                ">" => x & !y,
                "<=" => x <= y,
                ">=" => x >= y,
                _ => return rej("arithmetic on bool"),
            })),
            (RV::F64(x), RV::F64(y)) => {
                let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                Ok(match op {
                    "+" => RV::F64((x + y).to_bits()),
                    "-" => RV::F64((x - y).to_bits()),
                    "*" => RV::F64((x * y).to_bits()),
                    "/" => RV::F64((x / y).to_bits()),
                    "==" => RV::B(x == y),
                    "!=" => RV::B(x != y),
                    "<" => RV::B(x < y),
                    ">" => RV::B(x > y),
                    "<=" => RV::B(x <= y),
                    ">=" => RV::B(x >= y),
                    _ => return rej("operator on floats"),
                })
            }
            (RV::F32(x), RV::F32(y)) => {
                let (x, y) = (f32::from_bits(x), f32::from_bits(y));
                Ok(match op {
                    "+" => RV::F32((x + y).to_bits()),
                    "-" => RV::F32((x - y).to_bits()),
                    "*" => RV::F32((x * y).to_bits()),
                    "/" => RV::F32((x / y).to_bits()),
                    "==" => RV::B(x == y),
                    "!=" => RV::B(x != y),
                    "<" => RV::B(x < y),
                    ">" => RV::B(x > y),
                    "<=" => RV::B(x <= y),
                    ">=" => RV::B(x >= y),
                    _ => return rej("operator on floats"),
                })
            }
            (RV::FLit(x), RV::FLit(y)) => Self::binop(op, RV::F64(x), RV::F64(y)),
            (RV::Raw(p, o), RV::Raw(q, r)) if op == "==" || op == "!=" => Ok(RV::B((p == q && o == r) == (op == "=="))),
            (RV::Raw(..), RV::Null) | (RV::Null, RV::Raw(..)) if op == "==" || op == "!=" => Ok(RV::B(op == "!=")),
            (RV::Null, RV::Null) if op == "==" || op == "!=" => Ok(RV::B(op == "==")),
            (RV::St(..), _) | (RV::Arr(_), _) | (RV::Str(_), _) => uns("operator on aggregates"),
            _ => rej("mismatched operand types"),
        }
    }
    fn cast(&mut self, v: RV, t: &Ty) -> X<RV> {
        Ok(match (v, t) {
            (RV::Lit(v, neg), Ty::Int(r)) => {
                if neg && !signed(*r) {
                    return rej("negative literal of unsigned type");
                }
                RV::I(wrap(v, *r), *r)
            }
            (RV::I(v, _), Ty::Int(r)) => RV::I(wrap(v, *r), *r),
            (RV::Ch(v), Ty::Int(r)) => RV::I(wrap(v, *r), *r),
            (RV::Ch(v), Ty::Char) | (RV::I(v, RT::U8), Ty::Char) => RV::Ch(v),
            (RV::Lit(v, false), Ty::Char) if v < 256 => RV::Ch(v),
            (_, Ty::Char) => return rej("cast to char"),
            (RV::B(b), Ty::Int(r)) => RV::I(b as i64, *r),
            (RV::B(b), Ty::Bool) => RV::B(b),
            (RV::I(..), Ty::Bool) | (RV::Lit(..), Ty::Bool) => return rej("cast to bool"),
            (RV::I(v, t), Ty::F64) => {
                if bits(t) == 64 && !signed(t) {
                    return uns("u64 as f64");
                }
                RV::F64(if bits(t) == 64 { v as f64 } else if signed(t) { v as i32 as f64 } else { v as u32 as f64 }.to_bits())
            }
            (RV::I(v, t), Ty::F32) => {
                if bits(t) == 64 {
                    return uns("i64 as f32");
                }
                RV::F32(if signed(t) { v as i32 as f32 } else { v as u32 as f32 }.to_bits())
            }
            (RV::Lit(v, _), Ty::F64) => RV::F64((v as f64).to_bits()),
            (RV::Lit(v, _), Ty::F32) => RV::F32((v as f32).to_bits()),
            (RV::F64(b), Ty::F64) => RV::F64(b),
            (RV::FLit(b), Ty::F64) => RV::F64(b),
            (RV::F32(b), Ty::F32) => RV::F32(b),
            (RV::F64(b), Ty::F32) | (RV::FLit(b), Ty::F32) => RV::F32((f64::from_bits(b) as f32).to_bits()),
            (RV::F32(b), Ty::F64) => RV::F64((f32::from_bits(b) as f64).to_bits()),
            (RV::F64(b), Ty::Int(RT::I32)) => RV::I(f64::from_bits(b) as i32 as i64, RT::I32),
            (RV::F32(b), Ty::Int(RT::I32)) => RV::I(f32::from_bits(b) as i32 as i64, RT::I32),
            (RV::Ref(p, _), Ty::Raw(_)) => {
                // a reference to an array decays to a pointer to its first element
                RV::Raw(p, 0)
            }
            (RV::Raw(p, o), Ty::Raw(_)) => RV::Raw(p, o),
            (RV::Null, Ty::Raw(_)) => RV::Null,
            (RV::B(_), _) => return rej("cast of bool"),
            _ => return uns("cast"),
        })
    }
    fn boolean(&mut self, e: &Ex) -> X<bool> {
        match self.eval(e)? {
            RV::B(b) => Ok(b),
            RV::I(..) | RV::Lit(..) | RV::Unit => rej("condition is not bool"),
            _ => uns("condition"),
        }
    }
    fn elem_ptr(&self, p: Place) -> X<RV> {
        match self.read(&p)? {
            RV::Arr(_) => {
                let mut q = p;
                q.path.push(Pj::I(0));
                Ok(RV::Raw(q, 0))
            }
            _ => Ok(RV::Raw(p, 0)),
        }
    }
    pub fn eval(&mut self, e: &Ex) -> X<RV> {
        match e {
            Ex::Int(v, s) => {
                if s.is_empty() {
                    if *v > u64::MAX as i128 {
                        return rej("literal");
                    }
                    return Ok(RV::Lit(*v as i64, false));
                }
                match rt(s) {
                    Some(t) => {
                        if !(lit_fits(*v as i64, t) || (signed(t) && *v == 1i128 << (bits(t) - 1))) {
                            return rej("literal out of range");
                        }
                        Ok(RV::I(wrap(*v as i64, t), t))
                    }
                    None => match s.as_str() {
                        "f32" => Ok(RV::F32((*v as f32).to_bits())),
                        "f64" => Ok(RV::F64((*v as f64).to_bits())),
                        _ => rej("literal suffix"),
                    },
                }
            }
            Ex::Float(s) => {
                let (n, suf) = if let Some(x) = s.strip_suffix("f32") {
                    (x, 1)
                } else if let Some(x) = s.strip_suffix("f64") {
                    (x, 2)
                } else {
                    (s.as_str(), 0)
                };
                let v: f64 = match n.parse() {
                    Ok(v) => v,
                    Err(_) => return rej("float literal"),
                };
                Ok(match suf {
                    1 => RV::F32((v as f32).to_bits()),
                    2 => RV::F64(v.to_bits()),
                    _ => RV::FLit(v.to_bits()),
                })
            }
            Ex::Byte(b) => Ok(RV::I(*b as i64, RT::U8)),
            Ex::Str(s) => Ok(RV::Str(s.clone())),
            Ex::Bool(b) => Ok(RV::B(*b)),
            Ex::Unit => Ok(RV::Unit),
            Ex::Path(n) => {
                let (s, _) = self.find(n)?;
                Ok(self.mem[s].clone())
            }
            Ex::Un("*", _) | Ex::Field(..) | Ex::Index(..) => {
                let (p, _) = self.place(e)?;
                self.read(&p)
            }
            Ex::Un(op, i) => {
                let v = self.eval(i)?;
                match (*op, v) {
                    ("-", RV::Lit(v, _)) => Ok(RV::Lit(-v, true)),
                    ("-", RV::I(v, t)) => {
                        if !signed(t) {
                            return rej("negation of an unsigned value");
                        }
                        Ok(RV::I(wrap(v.wrapping_neg(), t), t))
                    }
                    ("-", RV::F64(b)) => Ok(RV::F64(b ^ (1 << 63))),
                    ("-", RV::FLit(b)) => Ok(RV::FLit(b ^ (1 << 63))),
                    ("-", RV::F32(b)) => Ok(RV::F32(b ^ (1 << 31))),
                    ("!", RV::Lit(v, n)) => Ok(RV::Lit(!v, n)),
                    ("!", RV::I(v, t)) => Ok(RV::I(wrap(!v, t), t)),
                    ("!", RV::B(b)) => Ok(RV::B(!b)),
                    _ => rej("unary operator"),
                }
            }
            Ex::Addr(m, i) => {
                let (p, pm) = self.place(i)?;
                if *m && !pm {
                    return rej("&mut of an immutable place");
                }
                Ok(RV::Ref(p, *m))
            }
            Ex::Bin(op, l, r) => match *op {
                "&&" => {
                    if !self.boolean(l)? {
                        Ok(RV::B(false))
                    } else {
                        Ok(RV::B(self.boolean(r)?))
                    }
                }
                "||" => {
                    if self.boolean(l)? {
                        Ok(RV::B(true))
                    } else {
                        Ok(RV::B(self.boolean(r)?))
                    }
                }
                _ => {
                    let a = self.eval(l)?;
                    let b = self.eval(r)?;
                    Self::binop(op, a, b)
                }
            },
            Ex::Asg(op, l, r) => {
                if !matches!(**l, Ex::Path(_) | Ex::Field(..) | Ex::Index(..) | Ex::Un("*", _)) {
                    return rej("invalid left-hand side");
                }
                let v = self.eval(r)?;
                let (p, m) = self.place(l)?;
                if !m {
                    return rej("assignment to an immutable place");
                }
                let v = if *op == "=" {
                    v
                } else {
                    let old = self.read(&p)?;
                    let o: &'static str = match *op {
                        "+=" => "+",
                        "-=" => "-",
                        "*=" => "*",
                        "/=" => "/",
                        "%=" => "%",
                        "&=" => "&",
                        "|=" => "|",
                        "^=" => "^",
                        "<<=" => "<<",
                        _ => ">>",
                    };
                    Self::binop(o, old, v)?
                };
                self.write(&p, v)?;
                Ok(RV::Unit)
            }
            Ex::Cast(i, t) => {
                let v = self.eval(i)?;
                if let (RV::Ref(p, _), Ty::Raw(_)) = (&v, t) {
                    return self.elem_ptr(p.clone());
                }
                self.cast(v, t)
            }
            Ex::Print(f, a, nl) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.eval(x)?);
                }
                let l = crate::h_fmt::rust_output(f, &v, *nl)?;
                self.calls.extend(l);
                Ok(RV::Unit)
            }
            Ex::Call(f, a) if self.funcs.iter().any(|g| g.name == *f) => self.call(f, a),
            Ex::Call(f, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.eval(x)?);
                }
                if f == "std::process::exit" {
                    match v.as_slice() {
                        [RV::Lit(k, _)] => self.exited = Some(*k),
                        [RV::I(k, RT::I32)] => self.exited = Some(*k),
                        _ => return rej("exit argument"),
                    }
                    return Err(Bad::Return(RV::Unit));
                }
                if f.starts_with("std::ptr::null") && v.is_empty() {
                    return Ok(RV::Null);
                }
                if let Some(n) = f.strip_suffix("::default") {
                    if v.is_empty() {
                        return match self.structs.iter().find(|(k, _)| k == n) {
                            Some((_, d)) => Ok(RV::St(n.to_string(), d.clone())),
                            None => rej("unknown type"),
                        };
                    }
                }
                if f.starts_with("std::") || f.contains("::") {
                    return uns("library call");
                }
                if self.find(f).is_ok() {
                    return uns("call of a value");
                }
                let mut args = vec![];
                for x in v {
                    match coerce(x, &Ty::Int(RT::I32)) {
                        Ok(RV::I(k, _)) => args.push(k),
                        _ => return rej("argument type"),
                    }
                }
                let r = extern_result(f, &args);
                self.calls.push((f.clone(), args));
                Ok(RV::I(r, RT::I32))
            }
            Ex::Meth(o, n, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.eval(x)?);
                }
                match n.as_str() {
                    "len" => {
                        let (p, _) = self.autoderef(o)?;
                        return match self.read(&p)? {
                            RV::Arr(v) => Ok(RV::I(v.len() as i64, RT::Usize)),
                            _ => uns("len"),
                        };
                    }
                    "is_empty" => {
                        let (p, _) = self.autoderef(o)?;
                        return match self.read(&p)? {
                            RV::Arr(v) => Ok(RV::B(v.is_empty())),
                            _ => uns("is_empty"),
                        };
                    }
                    "as_ptr" | "as_mut_ptr" => {
                        let (p, _) = self.autoderef(o)?;
                        return self.elem_ptr(p);
                    }
                    _ => {}
                }
                let r = self.eval(o)?;
                let r = match (r, n.as_str()) {
                    (RV::Raw(p, k), "wrapping_add" | "add") => match v.as_slice() {
                        [RV::I(d, RT::Usize)] | [RV::Lit(d, _)] => return Ok(RV::Raw(p, k.wrapping_add(sym::conc(*d as u64) as i64))),
                        _ => return rej("pointer offset type"),
                    },
                    (RV::Raw(p, k), "wrapping_sub" | "sub") => match v.as_slice() {
                        [RV::I(d, RT::Usize)] | [RV::Lit(d, _)] => return Ok(RV::Raw(p, k.wrapping_sub(sym::conc(*d as u64) as i64))),
                        _ => return rej("pointer offset type"),
                    },
                    (RV::Raw(p, k), "offset") => match v.as_slice() {
                        [RV::I(d, RT::Isize)] | [RV::Lit(d, _)] => return Ok(RV::Raw(p, k.wrapping_add(sym::conc(*d as u64) as i64))),
                        _ => return rej("pointer offset type"),
                    },
                    (RV::Raw(p, k), "offset_from") => match v.as_slice() {
                        [RV::Raw(q, j)] if p == *q => return Ok(RV::I(k - j, RT::Isize)),
                        _ => return uns("offset_from"),
                    },
                    (RV::Raw(..), "is_null") => return Ok(RV::B(false)),
                    (RV::Null, "is_null") => return Ok(RV::B(true)),
                    (r, _) => default_lit(r)?,
                };
                match (r, n.as_str(), v.as_slice()) {
                    (RV::I(x, t), "wrapping_add", [y]) => Self::binop("+", RV::I(x, t), y.clone()),
                    (RV::I(x, t), "wrapping_sub", [y]) => Self::binop("-", RV::I(x, t), y.clone()),
                    (RV::I(x, t), "wrapping_mul", [y]) => Self::binop("*", RV::I(x, t), y.clone()),
                    (RV::I(x, t), "wrapping_neg", []) => Ok(RV::I(wrap(x.wrapping_neg(), t), t)),
                    (RV::I(x, t), "wrapping_shl", [y]) => Self::binop("<<", RV::I(x, t), y.clone()),
                    (RV::I(x, t), "wrapping_shr", [y]) => Self::binop(">>", RV::I(x, t), y.clone()),
                    (RV::I(x, RT::I32), "abs", []) => Ok(RV::I((x as i32).wrapping_abs() as i64, RT::I32)),
                    _ => uns("method"),
                }
            }
            Ex::Unsafe(b) => {
                self.unsafe_ += 1;
                let r = self.eval(b);
                self.unsafe_ -= 1;
                r
            }
            Ex::Block(ss, t) => {
                let n = self.names.len();
                let r = self.block(ss, t);
                self.names.truncate(n);
                r
            }
            Ex::If(c, t, e) => {
                if self.boolean(c)? {
                    let v = self.eval(t)?;
                    if e.is_none() && v != RV::Unit {
                        return rej("if without else has a value");
                    }
                    Ok(v)
                } else {
                    match e {
                        Some(e) => self.eval(e),
                        None => Ok(RV::Unit),
                    }
                }
            }
            Ex::Match(c, arms) => {
                let v = self.eval(c)?;
                let consts: Vec<String> = self.names[..self.globals.min(self.base)]
                    .iter()
                    .filter(|n| !self.statics.contains(&n.1))
                    .map(|n| n.0.clone())
                    .collect();
                let all = |p: &Pat| match p {
                    Pat::Wild => true,
                    Pat::Name(n) => !consts.contains(n),
                    _ => false,
                };
                if !arms.iter().any(|(p, _)| p.iter().any(all)) && !matches!(v, RV::B(_)) {
                    return rej("non-exhaustive match");
                }
                for (ps, b) in arms {
                    for p in ps {
                        let hit = match (p, &v) {
                            (Pat::Wild, _) => true,
                            (Pat::Name(n), _) if !consts.contains(n) => {
                                // the name is bound to the value
                                let k = self.names.len();
                                self.bind(n, v.clone(), false);
                                let r = self.eval(b);
                                self.names.truncate(k);
                                return r;
                            }
                            (Pat::Name(n), v) => match self.names.iter().find(|k| k.0 == *n) {
                                Some(k) => matches!(Self::binop("==", self.mem[k.1].clone(), (*v).clone())?, RV::B(true)),
                                None => return rej("unknown name"),
                            },
                            (Pat::I(k, s, neg), RV::I(x, t)) => {
                                if !s.is_empty() && rt(s) != Some(*t) {
                                    return rej("pattern type");
                                }
                                let k = if *neg { -(*k as i64) } else { *k as i64 };
                                if !lit_fits(k, *t) {
                                    return rej("pattern out of range");
                                }
                                k == *x
                            }
                            (Pat::I(k, _, neg), RV::Lit(x, _)) => (if *neg { -(*k as i64) } else { *k as i64 }) == *x,
                            (Pat::Byte(k), RV::I(x, RT::U8)) => *k as i64 == *x,
                            (Pat::Bool(k), RV::B(x)) => k == x,
                            _ => return rej("pattern type"),
                        };
                        if hit {
                            return self.eval(b);
                        }
                    }
                }
                Ok(RV::Unit)
            }
            Ex::While(l, c, b) => {
                loop {
                    self.tick()?;
                    if !self.boolean(c)? {
                        break;
                    }
                    if self.body(l, b)? {
                        break;
                    }
                }
                Ok(RV::Unit)
            }
            Ex::Loop(l, b) => {
                loop {
                    self.tick()?;
                    if self.body(l, b)? {
                        break;
                    }
                }
                Ok(RV::Unit)
            }
            Ex::For(l, v, a, b, inc, body) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                let (x, y) = Self::unify(x, y)?;
                let (x, y) = (default_lit(x)?, default_lit(y)?);
                let (mut x, y, t) = match (x, y) {
                    (RV::I(x, t), RV::I(y, u)) if t == u => (x, y, t),
                    _ => return rej("range types"),
                };
                loop {
                    self.tick()?;
                    if !(if *inc { x <= y } else { x < y }) {
                        break;
                    }
                    let n = self.names.len();
                    self.bind(v, RV::I(x, t), false);
                    let r = self.body(l, body);
                    self.names.truncate(n);
                    if r? {
                        break;
                    }
                    x += 1;
                }
                Ok(RV::Unit)
            }
            Ex::Brk(l) => {
                self.label = l.clone();
                Err(Bad::Break)
            }
            Ex::Cont(l) => {
                self.label = l.clone();
                Err(Bad::Continue)
            }
            Ex::Ret(None) => Err(Bad::Return(RV::Unit)),
            Ex::Ret(Some(i)) => {
                let v = self.eval(i)?;
                Err(Bad::Return(v))
            }
            Ex::Arr(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.eval(x)?);
                }
                // elements share one type
                let t = o.iter().find_map(|x| if let RV::I(_, t) = x { Some(*t) } else { None });
                if let Some(t) = t {
                    let mut p = vec![];
                    for x in o {
                        p.push(coerce(x, &Ty::Int(t))?);
                    }
                    o = p;
                }
                Ok(RV::Arr(o))
            }
            Ex::Rep(x, n) => {
                let v = self.eval(x)?;
                let n = match self.eval(n)? {
                    RV::Lit(n, _) => n,
                    RV::I(n, RT::Usize) => sym::conc(n as u64) as i64,
                    _ => return rej("repeat count"),
                };
                if !(0..=64).contains(&n) {
                    return uns("large array");
                }
                Ok(RV::Arr(vec![v; n as usize]))
            }
            Ex::SLit(n, f) => {
                let def = match self.structs.iter().find(|(k, _)| k == n) {
                    Some((_, d)) => d.clone(),
                    None => return rej("unknown struct"),
                };
                let rest = f.iter().any(|(k, _)| k == "..");
                let mut o = vec![];
                for (k, d) in &def {
                    match f.iter().find(|(j, _)| j == k) {
                        Some((_, x)) => {
                            let v = self.eval(x)?;
                            let v = match d {
                                RV::I(_, t) => coerce(v, &Ty::Int(*t))?,
                                RV::B(_) => coerce(v, &Ty::Bool)?,
                                _ => v,
                            };
                            o.push((k.clone(), v));
                        }
                        None if rest => o.push((k.clone(), d.clone())),
                        None => return rej("missing field"),
                    }
                }
                for (k, _) in f {
                    if k != ".." && !def.iter().any(|(j, _)| j == k) {
                        return rej("unknown field");
                    }
                }
                Ok(RV::St(n.clone(), o))
            }
        }
    }
    /// Run a loop body; true = leave the loop.
    fn body(&mut self, l: &str, b: &Ex) -> X<bool> {
        match self.eval(b) {
            Ok(RV::Unit) => Ok(false),
            Ok(_) => rej("loop body has a value"),
            Err(Bad::Break) if self.label.is_empty() || self.label == l => {
                self.label.clear();
                Ok(true)
            }
            Err(Bad::Continue) if self.label.is_empty() || self.label == l => {
                self.label.clear();
                Ok(false)
            }
            Err(e) => Err(e),
        }
    }
    fn block(&mut self, ss: &[St], t: &Option<Box<Ex>>) -> X<RV> {
        for s in ss {
            self.tick()?;
            match s {
                St::Let(n, m, ty, e) => {
                    let v = match e {
                        Some(e) => self.eval(e)?,
                        None => return uns("let without a value"),
                    };
                    let v = match ty {
                        Some(t) => coerce(v, t)?,
                        None => v, // literals stay open until used
                    };
                    self.hides(n)?;
                    self.bind(n, v, *m);
                }
                St::E(e) => {
                    self.eval(e)?;
                }
            }
        }
        match t {
            Some(e) => self.eval(e),
            None => Ok(RV::Unit),
        }
    }
    /// Does a reference fit the parameter it is passed to?
    fn fits(&self, v: RV, t: &Ty) -> X<RV> {
        let mut v = coerce(v, t)?;
        // a reference to a reference is followed
        while let RV::Ref(p, m) = &v {
            match self.read(p)? {
                RV::Ref(q, n) => v = coerce(RV::Ref(q, n && *m), t)?,
                _ => break,
            }
        }
        if let (RV::Ref(p, _), Ty::Ref(_, i)) = (&v, t) {
            let ok = match (self.read(p)?, &**i) {
                (RV::I(_, a), Ty::Int(b)) => a == *b,
                (RV::B(_), Ty::Bool) => true,
                (RV::Arr(_), Ty::Slice(_)) => true,
                (RV::Arr(a), Ty::Arr(_, n)) => a.len() == *n,
                (RV::St(n, _), Ty::Named(m)) => n == *m,
                _ => false,
            };
            if !ok {
                return rej("mismatched reference types");
            }
        }
        Ok(v)
    }
    /// A binding may not have the name of a static or constant.
    fn hides(&self, n: &str) -> X<()> {
        if self.names[..self.globals].iter().any(|k| k.0 == n) {
            return rej("a binding cannot hide a static");
        }
        Ok(())
    }
    fn call(&mut self, f: &str, a: &[Ex]) -> X<RV> {
        let g = match self.funcs.iter().find(|g| g.name == f) {
            Some(g) => g.clone(),
            None => return rej("unknown function"),
        };
        if g.params.len() != a.len() {
            return rej("wrong number of arguments");
        }
        // a place borrowed mutably by one argument cannot be used by a later one, nor borrowed by an earlier one
        for (i, x) in a.iter().enumerate() {
            if let Ex::Addr(m, p) = x {
                if let Some(n) = root(p) {
                    for (j, y) in a.iter().enumerate() {
                        let both = matches!(y, Ex::Addr(..)) && mentions(y, n);
                        if i != j && *m && ((j > i && mentions(y, n)) || both) {
                            return rej("use of a mutably borrowed place");
                        }
                    }
                }
            }
        }
        let mut v = vec![];
        for (x, p) in a.iter().zip(&g.params) {
            let r = self.eval(x)?;
            v.push(self.fits(r, &p.2)?);
        }
        let (n, base, un) = (self.names.len(), self.base, self.unsafe_);
        self.base = n;
        self.unsafe_ = 0;
        for (x, p) in v.into_iter().zip(&g.params) {
            self.hides(&p.0)?;
            self.bind(&p.0, x, p.1);
        }
        self.tick()?;
        let r = self.run(&g);
        self.names.truncate(n);
        self.base = base;
        self.unsafe_ = un;
        r
    }
    /// Bring the items of a file into scope.
    pub fn load(&mut self, p: &Prog) -> X<()> {
        for (n, f) in &p.structs {
            let mut d = vec![];
            for (k, t) in f {
                d.push((k.clone(), self.zero(t)?));
            }
            self.structs.push((n.clone(), d));
        }
        for (n, st, t, e) in &p.values {
            let v = self.eval(e)?;
            let v = coerce(v, t)?;
            let s = self.bind(n, v, *st);
            if *st {
                self.statics.push(s);
            }
            // constant expressions may refer to constants above them
            self.globals = self.names.len();
        }
        self.funcs = p.funcs.clone();
        self.base = self.names.len();
        Ok(())
    }
    fn zero(&self, t: &Ty) -> X<RV> {
        Ok(match t {
            Ty::Int(t) => RV::I(0, *t),
            Ty::Bool => RV::B(false),
            Ty::Arr(e, n) => RV::Arr(vec![self.zero(e)?; *n]),
            Ty::Named(n) => match self.structs.iter().find(|s| s.0 == *n) {
                Some(s) => RV::St(n.clone(), s.1.clone()),
                None => return rej("unknown type"),
            },
            _ => return uns("field type"),
        })
    }
    /// Call a parsed function whose parameters are already bound.
    pub fn run(&mut self, f: &Func) -> X<RV> {
        match self.eval(&f.body) {
            Ok(RV::Unit) if f.ret == Ty::Unit => Ok(RV::Unit),
            Ok(v) => coerce(v, &f.ret),
            Err(Bad::Return(v)) => {
                if self.exited.is_some() {
                    return Ok(RV::Unit);
                }
                coerce(v, &f.ret)
            }
            Err(Bad::Break) | Err(Bad::Continue) => rej("break outside of a loop"),
            Err(e) => Err(e),
        }
    }
}
fn root(e: &Ex) -> Option<&str> {
    match e {
        Ex::Path(n) => Some(n),
        Ex::Field(o, _) | Ex::Index(o, _) => root(o),
        Ex::Unsafe(b) => match &**b {
            Ex::Block(s, Some(t)) if s.is_empty() => root(t),
            _ => None,
        },
        _ => None,
    }
}
fn mentions(e: &Ex, n: &str) -> bool {
    match e {
        Ex::Path(m) => m == n,
        Ex::Un(_, a) | Ex::Addr(_, a) | Ex::Cast(a, _) | Ex::Field(a, _) | Ex::Unsafe(a) => mentions(a, n),
        Ex::Bin(_, a, b) | Ex::Asg(_, a, b) | Ex::Index(a, b) => mentions(a, n) || mentions(b, n),
        Ex::Call(_, v) => v.iter().any(|a| mentions(a, n)),
        Ex::Meth(o, _, v) => mentions(o, n) || v.iter().any(|a| mentions(a, n)),
        Ex::Block(s, t) => s.is_empty() && t.as_ref().is_some_and(|t| mentions(t, n)),
        Ex::If(a, b, c) => mentions(a, n) || mentions(b, n) || c.as_ref().is_some_and(|c| mentions(c, n)),
        _ => false,
    }
}
