//! C source text for a program of the harness, together with the cursors and tokens libclang has for it.
//! Under the engine the `clang_*` functions below serve them to decy's front end; natively decy uses the real
//! libclang on the same text and `agrees` compares the cursors given here with the real ones.
use decy_hir as h;
use h::BinaryOperator as B;
use h::HirExpression as E;
use h::HirStatement as S;
use h::HirType as Ty;
use h::UnaryOperator as U;

pub const PUNCT: u32 = 0;
pub const KEYWORD: u32 = 1;
pub const IDENT: u32 = 2;
pub const LITERAL: u32 = 3;

pub struct Tok {
    pub text: Vec<u8>,
    pub kind: u32,
    pub from: u32,
    pub to: u32,
}
#[derive(Clone, PartialEq)]
pub enum CT {
    Void,
    /// const char
    CChar,
    Int,
    UInt,
    SChar,
    Char,
    Bool,
    Ptr(Box<CT>),
    Arr(Box<CT>, i64),
    Struct,
    Func,
    NoProto,
    Record,
}
pub struct Node {
    pub kind: i32,
    pub name: Vec<u8>,
    pub ty: CT,
    pub kids: Vec<usize>,
    pub from: u32,
    pub to: u32,
    pub parent: usize,
}
#[derive(Clone, Copy)]
pub struct Style {
    /// 0: a space between all tokens, 1: as few as possible, 2: every token on a line of its own
    pub space: u8,
    /// parentheses around every operand that is not a single token
    pub parens: bool,
    /// no braces around single statements
    pub unbraced: bool,
    /// 1: x op= e, 2: x++ and x-- too, 3: ++x
    pub compound: u8,
    /// 0: decimal, 1: hexadecimal, 2: octal, 3: decimal with suffix u, 4: binary
    pub lit: u8,
    /// else { if } as else if
    pub elseif: bool,
    /// braces around case bodies
    pub casebraces: bool,
    /// default first
    pub default_first: bool,
}
pub const PLAIN: Style = Style {
    space: 0,
    parens: false,
    unbraced: false,
    compound: 0,
    lit: 0,
    elseif: false,
    casebraces: false,
    default_first: false,
};
pub struct Tu {
    pub nodes: Vec<Node>,
    pub toks: Vec<Tok>,
    pub text: Vec<u8>,
    st: Style,
    vars: Vec<(String, CT)>,
    ret: CT,
    func: usize,
    /// type of the innermost switch
    sw: CT,
    spelled: Vec<(i32, Vec<u8>)>,
    /// result types of functions that do not return int
    pub rets: Vec<(usize, CT)>,
    globals: Vec<(String, CT)>,
    /// functions with prototypes: result and parameters
    sigs: Vec<(String, CT, Vec<CT>)>,
    enums: Vec<String>,
    /// values of enum constants
    pub vals: Vec<(usize, i64)>,
}
type N = usize;
fn cstr(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.push(0);
    v
}
fn ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
/// Binding strength of a C expression.
fn prec(e: &E) -> u8 {
    match e {
        E::BinaryOp { op, .. } => bprec(*op),
        E::Ternary { .. } => 3,
        E::UnaryOp { op, .. } => match op {
            U::PostIncrement | U::PostDecrement => 15,
            _ => 14,
        },
        E::PreIncrement { .. } | E::PreDecrement { .. } | E::AddressOf(_) | E::Dereference(_) | E::Cast { .. } => 14,
        E::IntLiteral(k) if *k < 0 => 14,
        _ => 15,
    }
}
fn bprec(op: B) -> u8 {
    match op {
        B::Comma => 1,
        B::Assign => 2,
        B::LogicalOr => 4,
        B::LogicalAnd => 5,
        B::BitwiseOr => 6,
        B::BitwiseXor => 7,
        B::BitwiseAnd => 8,
        B::Equal | B::NotEqual => 9,
        B::LessThan | B::GreaterThan | B::LessEqual | B::GreaterEqual => 10,
        B::LeftShift | B::RightShift => 11,
        B::Add | B::Subtract => 12,
        B::Multiply | B::Divide | B::Modulo => 13,
    }
}
fn btok(op: B) -> &'static str {
    crate::shape::opname(op)
}
pub fn ct(t: &Ty) -> CT {
    match t {
        Ty::Void => CT::Void,
        Ty::UnsignedInt => CT::UInt,
        Ty::SignedChar => CT::SChar,
        Ty::Char => CT::Char,
        Ty::Bool => CT::Bool,
        Ty::Pointer(t) => CT::Ptr(Box::new(ct(t))),
        Ty::Array { element_type, size } => CT::Arr(Box::new(ct(element_type)), size.map_or(-1, |s| s as i64)),
        Ty::Struct(_) => CT::Struct,
        _ => CT::Int,
    }
}
fn small(t: &CT) -> bool {
    matches!(t, CT::SChar | CT::Char | CT::Bool)
}
impl Tu {
    pub fn new(st: Style) -> Tu {
        let mut t = Tu { nodes: vec![], toks: vec![], text: vec![], st, vars: vec![], ret: CT::Int, func: 0, sw: CT::Int, spelled: vec![], rets: vec![], globals: vec![], sigs: vec![], enums: vec![], vals: vec![] };
        t.nodes.push(Node { kind: 350, name: cstr("input.c"), ty: CT::Void, kids: vec![], from: 0, to: 0, parent: 0 });
        t
    }
    fn tok(&mut self, s: &str, kind: u32) {
        let b = s.as_bytes();
        if let Some(&l) = self.text.last() {
            let need = (ident(l) && ident(b[0]))
                || (!ident(l) && !ident(b[0]) && matches!(l, b'+' | b'-' | b'&' | b'|' | b'<' | b'>' | b'=' | b'*' | b'/' | b'%' | b'!' | b'^')
                    && matches!(b[0], b'+' | b'-' | b'&' | b'|' | b'<' | b'>' | b'=' | b'*' | b'/'));
            match self.st.space {
                1 if !need => {}
                2 => self.text.push(b'\n'),
                _ => self.text.push(b' '),
            }
        }
        let from = self.text.len() as u32;
        self.text.extend_from_slice(b);
        let to = self.text.len() as u32;
        self.toks.push(Tok { text: cstr(s), kind, from, to });
    }
    fn p(&mut self, s: &str) {
        self.tok(s, PUNCT)
    }
    fn kw(&mut self, s: &str) {
        self.tok(s, KEYWORD)
    }
    fn id(&mut self, s: &str) {
        self.tok(s, IDENT)
    }
    /// Where the next token starts is known only when it is there: remember its index.
    fn here(&self) -> usize {
        self.toks.len()
    }
    fn node(&mut self, kind: i32, name: &str, ty: CT, start: usize, kids: Vec<N>) -> N {
        let from = self.toks[start].from;
        let to = self.toks[self.toks.len() - 1].to;
        self.nodes.push(Node { kind, name: cstr(name), ty, kids, from, to, parent: self.func });
        self.nodes.len() - 1
    }
    /// An implicit conversion around `n`.
    fn implicit(&mut self, n: N, ty: CT) -> N {
        let (from, to, name) = (self.nodes[n].from, self.nodes[n].to, self.nodes[n].name.clone());
        self.nodes.push(Node { kind: 100, name, ty, kids: vec![n], from, to, parent: self.func });
        self.nodes.len() - 1
    }
    fn ty(&self, n: N) -> CT {
        self.nodes[n].ty.clone()
    }
    fn to(&mut self, n: N, t: &CT) -> N {
        if self.nodes[n].ty == *t || matches!(t, CT::Struct | CT::Ptr(_) | CT::Void) {
            n
        } else {
            self.implicit(n, t.clone())
        }
    }
    fn lookup(&self, n: &str) -> CT {
        match self.vars.iter().rev().find(|v| v.0 == n) {
            Some(v) => v.1.clone(),
            None => CT::Int,
        }
    }
    fn is_constant(&self, e: &E) -> bool {
        matches!(e, E::Variable(n) if self.enums.contains(n) && !self.vars.iter().any(|v| v.0 == *n))
    }
    fn is_lvalue(e: &E) -> bool {
        matches!(e, E::Variable(_) | E::Dereference(_) | E::ArrayIndex { .. } | E::FieldAccess { .. } | E::PointerFieldAccess { .. })
    }
    /// An operand whose value is used.
    fn rv(&mut self, e: &E, min: u8) -> N {
        let n = self.lv(e, min);
        if !Self::is_lvalue(e) || self.is_constant(e) {
            return n;
        }
        match self.ty(n) {
            CT::Arr(t, _) => self.implicit(n, CT::Ptr(t)),
            t => self.implicit(n, t),
        }
    }
    /// A truth value or promoted operand.
    fn promoted(&mut self, e: &E, min: u8) -> N {
        let n = self.rv(e, min);
        if small(&self.nodes[n].ty) {
            self.implicit(n, CT::Int)
        } else {
            n
        }
    }
    fn int(&mut self, k: i64) -> N {
        let s = self.here();
        let (text, t) = match self.st.lit {
            1 => (format!("0x{:X}", k), CT::Int),
            2 => (format!("0{:o}", k), CT::Int),
            3 => (format!("{}u", k), CT::UInt),
            4 => (format!("0b{:b}", k), CT::Int),
            5 => (format!("{}U", k), CT::UInt),
            6 => (format!("0x{:x}", k), CT::Int),
            _ => (format!("{}", k), CT::Int),
        };
        self.tok(&text, LITERAL);
        self.node(106, "", t, s, vec![])
    }
    fn paren(&mut self, e: &E) -> N {
        let s = self.here();
        self.p("(");
        let n = self.lv0(e);
        self.p(")");
        let t = self.ty(n);
        self.node(111, "", t, s, vec![n])
    }
    fn lv(&mut self, e: &E, min: u8) -> N {
        let simple = matches!(e, E::Variable(_) | E::CharLiteral(_) | E::StringLiteral(_) | E::CompoundLiteral { .. }) || matches!(e, E::IntLiteral(k) if *k >= 0);
        if prec(e) < min || (self.st.parens && !simple && min > 1) {
            return self.paren(e);
        }
        self.lv0(e)
    }
    fn incdec(&mut self, e: &E, op: &str, pre: bool) -> N {
        let s = self.here();
        if pre {
            self.p(op);
        }
        let n = self.lv(e, if pre { 14 } else { 15 });
        if !pre {
            self.p(op);
        }
        let t = self.ty(n);
        self.node(112, "", t, s, vec![n])
    }
    fn unary(&mut self, op: &str, e: &E) -> N {
        let s = self.here();
        self.p(op);
        let n = if op == "!" { self.rv(e, 14) } else { self.promoted(e, 14) };
        let t = if op == "!" { CT::Int } else { self.ty(n) };
        self.node(112, "", t, s, vec![n])
    }
    fn type_name(&mut self, t: &CT) -> Vec<N> {
        match t {
            CT::Void => self.kw("void"),
            CT::Int | CT::Func | CT::NoProto | CT::Record => self.kw("int"),
            CT::UInt => self.kw("unsigned"),
            CT::SChar => {
                self.kw("signed");
                self.kw("char")
            }
            CT::Char | CT::CChar => self.kw("char"),
            CT::Bool => self.kw("_Bool"),
            CT::Ptr(t) => {
                let r = self.type_name(t);
                self.p("*");
                return r;
            }
            CT::Arr(t, _) => return self.type_name(t),
            CT::Struct => {
                self.kw("struct");
                let s = self.here();
                self.id("P");
                return vec![self.node(43, "struct P", CT::Struct, s, vec![])];
            }
        }
        vec![]
    }
    fn common(a: &CT, b: &CT) -> CT {
        if *a == CT::UInt || *b == CT::UInt {
            CT::UInt
        } else {
            CT::Int
        }
    }
    fn lv0(&mut self, e: &E) -> N {
        let s = self.here();
        match e {
            E::IntLiteral(k) if *k == i32::MIN => {
                // (-2147483647 - 1): the parentheses are part of it
                self.p("(");
                let s1 = self.here();
                self.p("-");
                let n = self.int(2147483647);
                let t = self.ty(n);
                let l = self.node(112, "", t.clone(), s1, vec![n]);
                self.p("-");
                let one = self.int(1);
                let b = self.node(114, "", t.clone(), s1, vec![l, one]);
                self.p(")");
                self.node(111, "", t, s, vec![b])
            }
            E::IntLiteral(k) if *k < 0 => {
                self.p("-");
                let n = self.int(-(*k as i64));
                let t = self.ty(n);
                self.node(112, "", t, s, vec![n])
            }
            E::IntLiteral(k) => self.int(*k as i64),
            E::CharLiteral(c) => {
                let spelled = self.spelled.iter().find(|x| x.0 == *c as i32).map(|x| x.1.clone());
                let t = match spelled {
                    Some(t) => String::from_utf8_lossy(&t).into_owned(),
                    None => match *c as u8 {
                        b'\n' => "'\\n'".into(),
                        b'\\' => "'\\\\'".into(),
                        b'\'' => "'\\''".into(),
                        0 => "'\\0'".into(),
                        c => format!("'{}'", c as char),
                    },
                };
                self.tok(&t, LITERAL);
                self.node(110, "", CT::Int, s, vec![])
            }
            E::Variable(n) => {
                self.id(n);
                let t = self.lookup(n);
                self.node(101, n, t, s, vec![])
            }
            E::BinaryOp { op, left, right } => {
                let p = bprec(*op);
                match op {
                    B::Assign => {
                        // the value of x++ is not that of x += 1
                        let c = self.st.compound;
                        self.st.compound = c.min(1);
                        let n = self.assign(left, right);
                        self.st.compound = c;
                        n
                    }
                    B::Comma => {
                        let l = self.rv_discarded(left, 1);
                        self.p(",");
                        let r = self.rv(right, 2);
                        let t = self.ty(r);
                        self.node(114, "", t, s, vec![l, r])
                    }
                    B::LogicalAnd | B::LogicalOr => {
                        let l = self.promoted(left, p);
                        self.p(btok(*op));
                        let r = self.promoted(right, p + 1);
                        self.node(114, "", CT::Int, s, vec![l, r])
                    }
                    _ => {
                        let l = self.promoted(left, p);
                        self.p(btok(*op));
                        let r = self.promoted(right, p + 1);
                        if matches!(op, B::LeftShift | B::RightShift) {
                            let t = self.ty(l);
                            return self.node(114, "", t, s, vec![l, r]);
                        }
                        let (lt, rt) = (self.ty(l), self.ty(r));
                        if matches!(lt, CT::Ptr(_)) || matches!(rt, CT::Ptr(_)) {
                            return self.node(114, "", lt, s, vec![l, r]);
                        }
                        // the promotion and the conversion are one step
                        let c = Self::common(&lt, &rt);
                        let l = self.converted(l, &c);
                        let r = self.converted(r, &c);
                        let t = if (9..=10).contains(&p) { CT::Int } else { c };
                        self.node(114, "", t, s, vec![l, r])
                    }
                }
            }
            E::UnaryOp { op, operand } => match op {
                U::Minus => self.unary("-", operand),
                U::LogicalNot => self.unary("!", operand),
                U::BitwiseNot => self.unary("~", operand),
                U::AddressOf => self.address(operand),
                U::PostIncrement => self.incdec(operand, "++", false),
                U::PostDecrement => self.incdec(operand, "--", false),
                U::PreIncrement => self.incdec(operand, "++", true),
                U::PreDecrement => self.incdec(operand, "--", true),
            },
            E::PostIncrement { operand } => self.incdec(operand, "++", false),
            E::PostDecrement { operand } => self.incdec(operand, "--", false),
            E::PreIncrement { operand } => self.incdec(operand, "++", true),
            E::PreDecrement { operand } => self.incdec(operand, "--", true),
            E::AddressOf(e) => self.address(e),
            E::Dereference(e) => {
                self.p("*");
                let n = self.rv(e, 14);
                let t = match self.ty(n) {
                    CT::Ptr(t) => *t,
                    t => t,
                };
                self.node(112, "", t, s, vec![n])
            }
            E::StringLiteral(text) => {
                // adjacent literals are one
                let cut = match text.as_bytes() {
                    [c, _, ..] if self.st.space == 2 && *c != b'\\' => 1,
                    _ => 0,
                };
                if cut > 0 {
                    self.tok(&format!("\"{}\"", &text[..cut]), LITERAL);
                }
                self.tok(&format!("\"{}\"", &text[cut..]), LITERAL);
                self.node(109, "", CT::Arr(Box::new(CT::Char), 1), s, vec![])
            }
            E::FunctionCall { function, arguments } if function == "printf" || function == "puts" => {
                self.id(function);
                let f = self.node(101, function, CT::Func, s, vec![]);
                let mut kids = vec![self.implicit(f, CT::Ptr(Box::new(CT::Func)))];
                self.p("(");
                let text = CT::Ptr(Box::new(CT::Char));
                for (i, a) in arguments.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    let n = if let E::StringLiteral(_) = a {
                        let n = self.lv(a, 2);
                        let n = self.implicit(n, text.clone());
                        if i > 0 {
                            n
                        } else {
                            // to const char *
                            self.implicit(n, text.clone())
                        }
                    } else {
                        self.promoted(a, 2)
                    };
                    kids.push(n);
                }
                self.p(")");
                self.node(103, function, CT::Int, s, kids)
            }
            E::FunctionCall { function, arguments } => {
                self.id(function);
                let f = self.node(101, function, CT::Func, s, vec![]);
                let mut kids = vec![self.implicit(f, CT::Ptr(Box::new(CT::Func)))];
                self.p("(");
                let sig = self.sigs.iter().find(|x| x.0 == *function).map(|x| (x.1.clone(), x.2.clone()));
                for (i, a) in arguments.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    let n = self.rv(a, 2);
                    let n = match (&sig, self.ty(n)) {
                        (_, CT::Ptr(_)) => n,
                        (Some(s), _) => self.to(n, &s.1[i]),
                        _ => self.to(n, &CT::Int),
                    };
                    kids.push(n);
                }
                self.p(")");
                let t = sig.map_or(CT::Int, |s| s.0);
                self.node(103, function, t, s, kids)
            }
            E::ArrayIndex { array, index } => {
                let a = self.rv(array, 15);
                self.p("[");
                let i = self.rv(index, 1);
                self.p("]");
                let t = match self.ty(a) {
                    CT::Ptr(t) => *t,
                    t => t,
                };
                self.node(113, "", t, s, vec![a, i])
            }
            E::FieldAccess { object, field } => {
                let o = self.lv(object, 15);
                self.p(".");
                self.id(field);
                self.node(102, field, CT::Int, s, vec![o])
            }
            E::PointerFieldAccess { pointer, field } => {
                let o = self.rv(pointer, 15);
                self.p("->");
                self.id(field);
                self.node(102, field, CT::Int, s, vec![o])
            }
            E::Cast { target_type, expr } => {
                self.p("(");
                let t = ct(target_type);
                let mut kids = self.type_name(&t);
                self.p(")");
                kids.push(self.rv(expr, 14));
                self.node(117, "", t, s, kids)
            }
            E::Ternary { condition, then_expr, else_expr } => {
                let c = self.rv(condition, 4);
                self.p("?");
                let a = self.promoted(then_expr, 2);
                self.p(":");
                let b = self.promoted(else_expr, 3);
                let t = Self::common(&self.ty(a), &self.ty(b));
                let a = self.converted(a, &t);
                let b = self.converted(b, &t);
                self.node(116, "", t, s, vec![c, a, b])
            }
            E::CompoundLiteral { literal_type, initializers } => {
                self.p("{");
                let elem = match ct(literal_type) {
                    CT::Arr(t, _) => *t,
                    _ => CT::Int,
                };
                let mut kids = vec![];
                for (i, e) in initializers.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    let n = self.rv(e, 2);
                    kids.push(self.to(n, &elem));
                }
                self.p("}");
                self.node(119, "", ct(literal_type), s, kids)
            }
            _ => panic!("no C for this expression"),
        }
    }
    /// Conversion after promotion: clang makes one step of both.
    fn converted(&mut self, n: N, t: &CT) -> N {
        let ty = self.ty(n);
        if ty == *t {
            return n;
        }
        let k = self.nodes[n].kids.first().copied();
        if self.nodes[n].kind == 100 && k.is_some_and(|k| small(&self.nodes[k].ty)) {
            self.nodes[n].ty = t.clone();
            return n;
        }
        self.implicit(n, t.clone())
    }
    fn address(&mut self, e: &E) -> N {
        let s = self.here();
        self.p("&");
        let n = self.lv(e, 14);
        let t = CT::Ptr(Box::new(self.ty(n)));
        self.node(112, "", t, s, vec![n])
    }
    fn rv_discarded(&mut self, e: &E, min: u8) -> N {
        self.rv(e, min)
    }
    /// The expression of an assignment statement.
    fn assign(&mut self, lhs: &E, value: &E) -> N {
        let s = self.here();
        if self.st.compound > 0 {
            if let E::BinaryOp { op, left, right } = value {
                if **left == *lhs && !matches!(bprec(*op), 1..=5 | 9..=10) {
                    if self.st.compound > 1 && **right == E::IntLiteral(1) && matches!(op, B::Add | B::Subtract) {
                        return self.incdec(lhs, if *op == B::Add { "++" } else { "--" }, self.st.compound == 3);
                    }
                    let l = self.lv(lhs, 14);
                    let mut o = String::from(btok(*op));
                    o.push('=');
                    self.p(&o);
                    let r = self.promoted(right, 2);
                    let t = self.ty(l);
                    let r = match op {
                        B::LeftShift | B::RightShift => r,
                        _ => {
                            let c = Self::common(&t, &self.ty(r));
                            self.converted(r, &c)
                        }
                    };
                    return self.node(115, "", t, s, vec![l, r]);
                }
            }
        }
        let l = self.lv(lhs, 14);
        self.p("=");
        let r = self.rv(value, 2);
        let t = self.ty(l);
        let r = self.to(r, &t);
        self.node(114, "", t, s, vec![l, r])
    }
    /// A declaration without its semicolon; the first of a list writes the type.
    fn declare(&mut self, name: &str, t: &Ty, init: &Option<E>, start: usize, first: bool) -> N {
        let t = ct(t);
        let mut kids = vec![];
        if first {
            kids = self.type_name(&t);
        } else if let CT::Ptr(_) = t {
            self.p("*");
        }
        // the cursor of a further declarator starts at its name
        let start = if first { start } else { self.here() };
        self.id(name);
        self.vars.push((name.into(), t.clone()));
        if let CT::Arr(_, n) = &t {
            self.p("[");
            let lit = self.st.lit;
            self.st.lit = 0;
            kids.push(self.int(*n));
            self.st.lit = lit;
            self.p("]");
        }
        if let Some(e) = init {
            self.p("=");
            let n = self.rv(e, 2);
            kids.push(match t {
                CT::Arr(..) | CT::Struct | CT::Ptr(_) => n,
                _ => self.to(n, &t),
            });
        }
        self.node(9, name, t, start, kids)
    }
    /// A list of declarations or an expression, without semicolon.
    fn simple(&mut self, s: &S) -> Option<N> {
        Some(match s {
            S::Assignment { target, value } => self.assign(&E::Variable(target.clone()), value),
            S::DerefAssignment { target: t @ (E::PointerFieldAccess { .. } | E::ArrayIndex { .. } | E::FieldAccess { .. }), value } => self.assign(t, value),
            S::DerefAssignment { target, value } => self.assign(&E::Dereference(Box::new(target.clone())), value),
            S::ArrayIndexAssignment { array, index, value } => {
                self.assign(&E::ArrayIndex { array: array.clone(), index: index.clone() }, value)
            }
            S::FieldAssignment { object, field, value } => {
                let pointer = matches!(object, E::Variable(n) if matches!(self.lookup(n), CT::Ptr(_)));
                let (o, f) = (Box::new(object.clone()), field.clone());
                let lhs = if pointer { E::PointerFieldAccess { pointer: o, field: f } } else { E::FieldAccess { object: o, field: f } };
                self.assign(&lhs, value)
            }
            S::Expression(e) => self.lv(e, 1),
            _ => return None,
        })
    }
    fn body(&mut self, b: &[S]) -> N {
        let single = b.len() == 1 && !matches!(b[0], S::VariableDeclaration { .. });
        // a dangling else would change hands
        let dangling = single && matches!(&b[0], S::If { .. });
        if self.st.unbraced && single && !dangling {
            return self.stmt(&b[0]);
        }
        if self.st.unbraced && b.is_empty() {
            let s = self.here();
            self.p(";");
            return self.node(230, "", CT::Void, s, vec![]);
        }
        self.braced(b)
    }
    fn braced(&mut self, b: &[S]) -> N {
        let s = self.here();
        self.p("{");
        let v = self.vars.len();
        let kids = b.iter().map(|s| self.stmt(s)).collect();
        self.vars.truncate(v);
        self.p("}");
        self.node(202, "", CT::Void, s, kids)
    }
    fn cond(&mut self, e: &E) -> N {
        self.p("(");
        let c = self.rv(e, 1);
        self.p(")");
        c
    }
    fn stmt(&mut self, st: &S) -> N {
        let s = self.here();
        if let Some(n) = self.simple(st) {
            self.p(";");
            return n;
        }
        match st {
            S::VariableDeclaration { name, var_type, initializer } => {
                let d = self.declare(name, var_type, initializer, s, true);
                self.p(";");
                self.node(231, "", CT::Void, s, vec![d])
            }
            S::Return(e) => {
                self.kw("return");
                let mut kids = vec![];
                if let Some(e) = e {
                    let n = self.rv(e, 1);
                    let t = self.ret.clone();
                    kids.push(self.to(n, &t));
                }
                let n = self.node(214, "", CT::Void, s, kids);
                self.p(";");
                n
            }
            S::Break => {
                self.kw("break");
                let n = self.node(213, "", CT::Void, s, vec![]);
                self.p(";");
                n
            }
            S::Continue => {
                self.kw("continue");
                let n = self.node(212, "", CT::Void, s, vec![]);
                self.p(";");
                n
            }
            S::If { condition, then_block, else_block } => {
                self.kw("if");
                let mut kids = vec![self.cond(condition)];
                kids.push(self.body(then_block));
                if let Some(b) = else_block {
                    self.kw("else");
                    let n = match &b[..] {
                        [i @ S::If { .. }] if self.st.elseif => self.stmt(i),
                        _ => self.body(b),
                    };
                    kids.push(n);
                }
                self.to_last(205, s, kids)
            }
            S::While { condition, body } => {
                if let E::FunctionCall { function, arguments } = condition {
                    if function == "do_while" {
                        self.kw("do");
                        let b = self.body(body);
                        self.kw("while");
                        let c = self.cond(&arguments[0]);
                        let n = self.node(208, "", CT::Void, s, vec![b, c]);
                        self.p(";");
                        return n;
                    }
                }
                self.kw("while");
                let c = self.cond(condition);
                let b = self.body(body);
                self.to_last(207, s, vec![c, b])
            }
            S::For { init, condition, increment, body } => {
                let v = self.vars.len();
                self.kw("for");
                self.p("(");
                let mut kids = vec![];
                let s1 = self.here();
                if matches!(init.first(), Some(S::VariableDeclaration { .. })) {
                    let mut ds = vec![];
                    for (i, d) in init.iter().enumerate() {
                        if let S::VariableDeclaration { name, var_type, initializer } = d {
                            if i > 0 {
                                self.p(",");
                            }
                            let d = self.declare(name, var_type, initializer, s1, i == 0);
                            ds.push(d);
                        }
                    }
                    self.p(";");
                    kids.push(self.node(231, "", CT::Void, s1, ds));
                } else {
                    kids.extend(self.commas(init));
                    self.p(";");
                }
                if let Some(c) = condition {
                    kids.push(self.rv(c, 1));
                }
                self.p(";");
                kids.extend(self.commas(increment));
                self.p(")");
                kids.push(self.body(body));
                self.vars.truncate(v);
                self.to_last(209, s, kids)
            }
            S::Switch { condition, cases, default_case } => {
                self.kw("switch");
                let c = {
                    self.p("(");
                    let n = self.promoted(condition, 1);
                    self.p(")");
                    n
                };
                let outer = self.sw.clone();
                self.sw = self.ty(c);
                let s1 = self.here();
                self.p("{");
                let v = self.vars.len();
                let mut kids = vec![];
                let first = self.st.default_first;
                if first {
                    self.default_label(default_case, &mut kids);
                }
                for c in cases {
                    if let Some(val) = &c.value {
                        self.label(Some(val), &c.body, &mut kids);
                    }
                }
                if !first {
                    self.default_label(default_case, &mut kids);
                }
                self.vars.truncate(v);
                self.sw = outer;
                self.p("}");
                let b = self.node(202, "", CT::Void, s1, kids);
                self.node(206, "", CT::Void, s, vec![c, b])
            }
            _ => panic!("no C for this statement"),
        }
    }
    fn default_label(&mut self, d: &Option<Vec<S>>, kids: &mut Vec<N>) {
        if let Some(b) = d {
            if self.st.default_first {
                let mut b = b.clone();
                if !matches!(b.last(), Some(S::Return(_) | S::Break)) {
                    b.push(S::Break);
                }
                self.label(None, &b, kids)
            } else {
                self.label(None, b, kids)
            }
        }
    }
    /// `case v: …` (a label holds only the statement after it) and the statements that follow it.
    fn label(&mut self, v: Option<&E>, b: &[S], kids: &mut Vec<N>) {
        let s = self.here();
        let mut k = vec![];
        match v {
            Some(v) => {
                self.kw("case");
                let n = self.rv(v, 3);
                let t = self.sw.clone();
                k.push(self.to(n, &t));
            }
            None => self.kw("default"),
        }
        self.p(":");
        let kind = if v.is_some() { 203 } else { 204 };
        if self.st.casebraces && !b.is_empty() {
            // the break stands outside
            let n = b.len() - matches!(b.last(), Some(S::Break)) as usize;
            k.push(self.braced(&b[..n]));
            kids.push(self.node(kind, "", CT::Void, s, k));
            for st in &b[n..] {
                kids.push(self.stmt(st));
            }
            return;
        }
        match b.split_first() {
            Some((f, rest)) => {
                k.push(self.stmt(f));
                kids.push(self.to_last(kind, s, k));
                for st in rest {
                    kids.push(self.stmt(st));
                }
            }
            None => {
                let s1 = self.here();
                self.p(";");
                k.push(self.node(230, "", CT::Void, s1, vec![]));
                kids.push(self.node(kind, "", CT::Void, s, k));
            }
        }
    }
    /// A statement that ends where its last part ends, without the semicolon.
    fn to_last(&mut self, kind: i32, s: usize, k: Vec<N>) -> N {
        let to = self.nodes[k[k.len() - 1]].to;
        let n = self.node(kind, "", CT::Void, s, k);
        self.nodes[n].to = to;
        n
    }
    fn commas(&mut self, b: &[S]) -> Option<N> {
        let s = self.here();
        let mut r: Option<N> = None;
        for st in b {
            if r.is_some() {
                self.p(",");
            }
            let n = self.simple(st)?;
            r = Some(match r {
                None => n,
                Some(l) => {
                    let t = self.ty(n);
                    self.node(114, "", t, s, vec![l, n])
                }
            });
        }
        r
    }
    fn params(&mut self, ps: &[(String, CT)]) -> Vec<N> {
        self.p("(");
        let mut kids = vec![];
        if ps.is_empty() {
            self.kw("void");
        }
        for (i, (n, t)) in ps.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            let s = self.here();
            let k = self.type_name(t);
            if !n.is_empty() {
                self.id(n);
            }
            kids.push(self.node(10, n, t.clone(), s, k));
        }
        self.p(")");
        kids
    }
    pub fn prototype(&mut self, name: &str, n: usize) {
        let s = self.here();
        self.kw("int");
        self.id(name);
        let me = self.nodes.len();
        self.nodes.push(Node { kind: 8, name: cstr(name), ty: CT::Func, kids: vec![], from: 0, to: 0, parent: 0 });
        self.func = me;
        // as many arguments as the caller likes
        let kids = if n == 0 {
            self.p("(");
            self.p(")");
            vec![]
        } else {
            self.params(&vec![(String::new(), CT::Int); n])
        };
        if n == 0 {
            self.nodes[me].ty = CT::NoProto;
        }
        self.finish(me, s, kids);
        self.p(";");
    }
    /// The prototype of a function the unit defines.
    pub fn declaration(&mut self, f: &h::HirFunction, names: &[&str]) {
        let s = self.here();
        let ret = ct(f.return_type());
        let mut kids = self.type_name(&ret);
        self.id(f.name());
        let me = self.nodes.len();
        self.nodes.push(Node { kind: 8, name: cstr(f.name()), ty: CT::Func, kids: vec![], from: 0, to: 0, parent: 0 });
        self.rets.push((me, ret));
        self.func = me;
        let ps: Vec<_> = f.parameters().iter().enumerate().map(|(i, p)| (names.get(i).map_or(p.name(), |n| n).to_string(), ct(p.param_type()))).collect();
        kids.extend(self.params(&ps));
        self.finish(me, s, kids);
        self.p(";");
        self.sign(f);
    }
    fn sign(&mut self, f: &h::HirFunction) {
        self.sigs.push((f.name().to_string(), ct(f.return_type()), f.parameters().iter().map(|p| ct(p.param_type())).collect()));
    }
    /// A variable at file scope.
    pub fn global(&mut self, name: &str, t: &Ty, init: &Option<E>) {
        let s = self.here();
        self.func = 0;
        let n = self.declare(name, t, init, s, true);
        self.nodes[0].kids.push(n);
        self.p(";");
        self.globals = self.vars.clone();
    }
    pub fn enumeration(&mut self, name: &str, cs: &[(&'static str, Option<i64>)]) {
        let s = self.here();
        self.func = 0;
        self.kw("enum");
        self.id(name);
        self.p("{");
        let mut kids = vec![];
        let mut next = 0;
        for (i, (n, v)) in cs.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            let s = self.here();
            self.id(n);
            let mut k = vec![];
            if let Some(v) = v {
                self.p("=");
                k.push(self.lv(&E::IntLiteral(*v as i32), 2));
                next = *v;
            }
            let c = self.node(7, n, CT::Int, s, k);
            self.vals.push((c, next));
            self.enums.push(n.to_string());
            kids.push(c);
            next += 1;
        }
        self.p("}");
        let e = self.node(5, name, CT::Int, s, kids);
        self.nodes[0].kids.push(e);
        self.p(";");
    }
    /// int name(const char *s, ...);
    pub fn printing(&mut self, name: &str, variadic: bool) {
        let s = self.here();
        self.kw("int");
        self.id(name);
        let me = self.nodes.len();
        self.nodes.push(Node { kind: 8, name: cstr(name), ty: CT::Func, kids: vec![], from: 0, to: 0, parent: 0 });
        self.func = me;
        let mut kids = vec![];
        if name == "printf" {
            // the implicit format attribute
            let n = self.here() - 1;
            kids.push(self.node(400, "", CT::Int, n, vec![]));
        }
        self.p("(");
        let t = self.here();
        self.kw("const");
        self.kw("char");
        self.p("*");
        self.id("s");
        kids.push(self.node(10, "s", CT::Ptr(Box::new(CT::CChar)), t, vec![]));
        if variadic {
            self.p(",");
            self.p("...");
        }
        self.p(")");
        self.finish(me, s, kids);
        self.p(";");
    }
    fn finish(&mut self, me: N, s: usize, kids: Vec<N>) {
        self.nodes[me].kids = kids;
        self.nodes[me].from = self.toks[s].from;
        self.nodes[me].to = self.toks[self.toks.len() - 1].to;
        self.nodes[0].kids.push(me);
        self.func = 0;
    }
    pub fn structure(&mut self) {
        let s = self.here();
        self.kw("struct");
        self.id("P");
        self.p("{");
        let mut kids = vec![];
        for f in ["a", "b"] {
            let s = self.here();
            self.kw("int");
            self.id(f);
            kids.push(self.node(6, f, CT::Int, s, vec![]));
            self.p(";");
        }
        self.p("}");
        let n = self.node(2, "P", CT::Record, s, kids);
        self.p(";");
        self.nodes[n].parent = 0;
        self.nodes[0].kids.push(n);
    }
    pub fn function(&mut self, f: &h::HirFunction) {
        let s = self.here();
        self.ret = ct(f.return_type());
        let ret = self.ret.clone();
        let mut kids = self.type_name(&ret);
        self.id(f.name());
        let me = self.nodes.len();
        self.nodes.push(Node { kind: 8, name: cstr(f.name()), ty: CT::Func, kids: vec![], from: 0, to: 0, parent: 0 });
        self.rets.push((me, ret));
        self.func = me;
        let ps: Vec<_> = f.parameters().iter().map(|p| (p.name().to_string(), ct(p.param_type()))).collect();
        self.vars = self.globals.clone();
        self.vars.extend(ps.clone());
        self.sign(f);
        kids.extend(self.params(&ps));
        kids.push(self.braced(f.body()));
        self.finish(me, s, kids);
        self.vars = self.globals.clone();
    }
    pub fn spell(&mut self, c: i32, text: &[u8]) {
        self.spelled.push((c, text.to_vec()));
    }
    fn dump(&self, n: N, d: usize, o: &mut String) {
        use std::fmt::Write;
        let x = &self.nodes[n];
        if d > 0 {
            let name = if x.kind == 109 { "".into() } else { String::from_utf8_lossy(&x.name[..x.name.len() - 1]) };
            let decl = matches!(x.kind, 2 | 6 | 8 | 9 | 10 | 117 | 119);
            let _ = writeln!(o, "{}{} {} {}..{} t{}", ".".repeat(d), x.kind, name, x.from, x.to, if decl { kind(&x.ty) } else { 0 });
        }
        for k in &x.kids {
            self.dump(*k, d + 1, o);
        }
    }
}
pub fn kind(t: &CT) -> i32 {
    match t {
        CT::Void => 2,
        CT::Bool => 3,
        CT::Int => 17,
        CT::UInt => 9,
        CT::SChar => 14,
        CT::Char | CT::CChar => 13,
        CT::Ptr(_) => 101,
        CT::Arr(..) => 112,
        CT::Struct => 119,
        CT::Func => 111,
        CT::NoProto => 110,
        CT::Record => 105,
    }
}
/// The unit decy's front end sees.
pub static mut UNIT: Option<Tu> = None;

#[cfg(not(target_arch = "riscv64"))]
mod real {
    use std::fmt::Write;
    use std::os::raw::*;
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Cursor {
        kind: c_int,
        xdata: c_int,
        data: [*const c_void; 3],
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Type {
        kind: c_int,
        data: [*mut c_void; 2],
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Range {
        ptr_data: [*const c_void; 2],
        b: c_uint,
        e: c_uint,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Loc {
        ptr_data: [*const c_void; 2],
        i: c_uint,
    }
    #[repr(C)]
    pub struct Str {
        data: *const c_void,
        f: c_uint,
    }
    #[repr(C)]
    pub struct Unsaved {
        name: *const c_char,
        text: *const c_char,
        len: c_ulong,
    }
    extern "C" {
        fn clang_createIndex(a: c_int, b: c_int) -> *mut c_void;
        fn clang_parseTranslationUnit(i: *mut c_void, f: *const c_char, a: *const *const c_char, n: c_int, u: *mut Unsaved, nu: c_uint, fl: c_uint) -> *mut c_void;
        fn clang_getTranslationUnitCursor(t: *mut c_void) -> Cursor;
        fn clang_visitChildren(c: Cursor, v: extern "C" fn(Cursor, Cursor, *mut c_void) -> c_int, d: *mut c_void) -> c_uint;
        fn clang_getCursorSpelling(c: Cursor) -> Str;
        fn clang_getCString(s: Str) -> *const c_char;
        fn clang_getCursorExtent(c: Cursor) -> Range;
        fn clang_getRangeStart(r: Range) -> Loc;
        fn clang_getRangeEnd(r: Range) -> Loc;
        fn clang_getExpansionLocation(l: Loc, f: *mut *mut c_void, a: *mut c_uint, b: *mut c_uint, o: *mut c_uint);
        fn clang_getCursorType(c: Cursor) -> Type;
        fn clang_getNumDiagnostics(t: *mut c_void) -> c_uint;
        fn clang_getDiagnostic(t: *mut c_void, i: c_uint) -> *mut c_void;
        fn clang_getDiagnosticSeverity(d: *mut c_void) -> c_uint;
        fn clang_getDiagnosticSpelling(d: *mut c_void) -> Str;
    }
    extern "C" fn visit(c: Cursor, _p: Cursor, d: *mut c_void) -> c_int {
        let (o, depth) = unsafe { &mut *(d as *mut (String, usize)) };
        unsafe {
            let name = std::ffi::CStr::from_ptr(clang_getCString(clang_getCursorSpelling(c))).to_string_lossy().into_owned();
            let name = if c.kind == 109 { String::new() } else { name };
            let r = clang_getCursorExtent(c);
            let off = |l: Loc| {
                let mut x = 0;
                clang_getExpansionLocation(l, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut(), &mut x);
                x
            };
            let decl = matches!(c.kind, 2 | 6 | 8 | 9 | 10 | 117 | 119);
            let t = if decl { clang_getCursorType(c).kind } else { 0 };
            let _ = writeln!(o, "{}{} {} {}..{} t{}", ".".repeat(*depth), c.kind, name, off(clang_getRangeStart(r)), off(clang_getRangeEnd(r)), t);
        }
        *depth += 1;
        unsafe { clang_visitChildren(c, visit, d) };
        *depth -= 1;
        1
    }
    pub fn dump(text: &[u8]) -> String {
        unsafe {
            let i = clang_createIndex(0, 0);
            let mut t = text.to_vec();
            t.push(0);
            let mut u = Unsaved { name: c"input.c".as_ptr(), text: t.as_ptr() as *const c_char, len: text.len() as c_ulong };
            let tu = clang_parseTranslationUnit(i, c"input.c".as_ptr(), std::ptr::null(), 0, &mut u, 1, 0);
            let mut d = (String::new(), 1usize);
            for k in 0..clang_getNumDiagnostics(tu) {
                let g = clang_getDiagnostic(tu, k);
                if clang_getDiagnosticSeverity(g) >= 3 {
                    let s = std::ffi::CStr::from_ptr(clang_getCString(clang_getDiagnosticSpelling(g))).to_string_lossy().into_owned();
                    d.0.push_str(&format!("error: {}\n", s));
                }
            }
            clang_visitChildren(clang_getTranslationUnitCursor(tu), visit, &mut d as *mut _ as *mut c_void);
            d.0
        }
    }
}
/// Natively: are the cursors given above those of the real libclang?
#[cfg(not(target_arch = "riscv64"))]
pub fn agrees(t: &Tu) -> bool {
    let mut a = String::new();
    t.dump(0, 0, &mut a);
    let b = real::dump(&t.text);
    if a != b && std::env::var_os("REPLAY_SHOW").is_some() {
        println!("{}\n--- model\n{}--- libclang\n{}", String::from_utf8_lossy(&t.text), a, b);
    }
    a == b
}
#[cfg(target_arch = "riscv64")]
pub fn agrees(_t: &Tu) -> bool {
    true
}

/// The functions of libclang that decy's front end calls, over the unit above.
#[cfg(target_arch = "riscv64")]
mod fake {
    use super::*;
    use std::os::raw::*;
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct CXCursor {
        kind: c_int,
        xdata: c_int,
        data: [*const c_void; 3],
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct CXType {
        kind: c_int,
        data: [*mut c_void; 2],
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct CXSourceRange {
        ptr_data: [*const c_void; 2],
        begin_int_data: c_uint,
        end_int_data: c_uint,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct CXSourceLocation {
        ptr_data: [*const c_void; 2],
        int_data: c_uint,
    }
    #[repr(C)]
    pub struct CXString {
        data: *const c_void,
        private_flags: c_uint,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct CXToken {
        int_data: [c_uint; 4],
        ptr_data: *mut c_void,
    }
    type Visitor = extern "C" fn(CXCursor, CXCursor, *mut c_void) -> c_int;
    static HANDLE: u8 = 1;
    fn handle() -> *mut c_void {
        &HANDLE as *const u8 as *mut c_void
    }
    #[allow(static_mut_refs)]
    fn tu() -> &'static Tu {
        unsafe { UNIT.as_ref().unwrap() }
    }
    fn cur(n: usize) -> CXCursor {
        CXCursor { kind: tu().nodes[n].kind, xdata: n as c_int, data: [std::ptr::null(), std::ptr::null(), handle()] }
    }
    fn node(c: &CXCursor) -> &'static Node {
        &tu().nodes[c.xdata as usize]
    }
    fn string(s: &'static [u8]) -> CXString {
        CXString { data: s.as_ptr() as *const c_void, private_flags: 0 }
    }
    fn loc(o: u32) -> CXSourceLocation {
        CXSourceLocation { ptr_data: [handle(), std::ptr::null()], int_data: o }
    }
    fn ty(t: &'static CT) -> CXType {
        CXType { kind: kind(t), data: [t as *const CT as *mut c_void, std::ptr::null_mut()] }
    }
    fn of(t: &CXType) -> &'static CT {
        unsafe { &*(t.data[0] as *const CT) }
    }
    static INVALID: CT = CT::Void;
    static INT: CT = CT::Int;
    fn invalid() -> CXType {
        CXType { kind: 0, data: [&INVALID as *const CT as *mut c_void, std::ptr::null_mut()] }
    }
    #[no_mangle]
    pub extern "C" fn clang_createIndex(_a: c_int, _b: c_int) -> *mut c_void {
        handle()
    }
    #[no_mangle]
    pub extern "C" fn clang_disposeIndex(_i: *mut c_void) {}
    #[no_mangle]
    pub extern "C" fn clang_parseTranslationUnit2(_i: *mut c_void, _f: *const c_char, _a: *const *const c_char, _n: c_int, _u: *mut c_void, _nu: c_uint, _fl: c_int, t: *mut *mut c_void) -> c_int {
        unsafe { *t = handle() };
        0
    }
    #[no_mangle]
    pub extern "C" fn clang_disposeTranslationUnit(_t: *mut c_void) {}
    #[no_mangle]
    pub extern "C" fn clang_getTranslationUnitCursor(_t: *mut c_void) -> CXCursor {
        cur(0)
    }
    #[no_mangle]
    pub extern "C" fn clang_Cursor_getTranslationUnit(_c: CXCursor) -> *mut c_void {
        handle()
    }
    #[no_mangle]
    pub extern "C" fn clang_getNumDiagnostics(_t: *mut c_void) -> c_uint {
        0
    }
    fn visit(n: usize, v: Visitor, d: *mut c_void) -> bool {
        for &k in &tu().nodes[n].kids {
            match v(cur(k), cur(n), d) {
                0 => return true,
                1 => {}
                _ => {
                    if visit(k, v, d) {
                        return true;
                    }
                }
            }
        }
        false
    }
    #[no_mangle]
    pub extern "C" fn clang_visitChildren(c: CXCursor, v: Visitor, d: *mut c_void) -> c_uint {
        visit(c.xdata as usize, v, d) as c_uint
    }
    #[no_mangle]
    pub extern "C" fn clang_getCursorKind(c: CXCursor) -> c_int {
        c.kind
    }
    #[no_mangle]
    pub extern "C" fn clang_getCursorSpelling(c: CXCursor) -> CXString {
        string(&node(&c).name)
    }
    #[no_mangle]
    pub extern "C" fn clang_getCString(s: CXString) -> *const c_char {
        s.data as *const c_char
    }
    #[no_mangle]
    pub extern "C" fn clang_disposeString(_s: CXString) {}
    #[no_mangle]
    pub extern "C" fn clang_getCursorExtent(c: CXCursor) -> CXSourceRange {
        let n = node(&c);
        CXSourceRange { ptr_data: [handle(), std::ptr::null()], begin_int_data: n.from, end_int_data: n.to }
    }
    #[no_mangle]
    pub extern "C" fn clang_getCursorLocation(c: CXCursor) -> CXSourceLocation {
        loc(node(&c).from)
    }
    #[no_mangle]
    pub extern "C" fn clang_getRangeStart(r: CXSourceRange) -> CXSourceLocation {
        loc(r.begin_int_data)
    }
    #[no_mangle]
    pub extern "C" fn clang_getRangeEnd(r: CXSourceRange) -> CXSourceLocation {
        loc(r.end_int_data)
    }
    #[no_mangle]
    pub extern "C" fn clang_getRange(a: CXSourceLocation, b: CXSourceLocation) -> CXSourceRange {
        CXSourceRange { ptr_data: [handle(), std::ptr::null()], begin_int_data: a.int_data, end_int_data: b.int_data }
    }
    unsafe fn place(l: CXSourceLocation, file: *mut *mut c_void, line: *mut c_uint, column: *mut c_uint, offset: *mut c_uint) {
        let (mut ln, mut col) = (1, 1);
        for b in &tu().text[..l.int_data as usize] {
            if *b == b'\n' {
                ln += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
        if !file.is_null() {
            *file = handle();
        }
        if !line.is_null() {
            *line = ln;
        }
        if !column.is_null() {
            *column = col;
        }
        if !offset.is_null() {
            *offset = l.int_data;
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn clang_getExpansionLocation(l: CXSourceLocation, f: *mut *mut c_void, a: *mut c_uint, b: *mut c_uint, o: *mut c_uint) {
        place(l, f, a, b, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clang_getSpellingLocation(l: CXSourceLocation, f: *mut *mut c_void, a: *mut c_uint, b: *mut c_uint, o: *mut c_uint) {
        place(l, f, a, b, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clang_getFileLocation(l: CXSourceLocation, f: *mut *mut c_void, a: *mut c_uint, b: *mut c_uint, o: *mut c_uint) {
        place(l, f, a, b, o)
    }
    #[no_mangle]
    pub extern "C" fn clang_getFileName(_f: *mut c_void) -> CXString {
        string(b"input.c\0")
    }
    /// Tokens from the start of the range until one ends at or behind its end.
    #[no_mangle]
    pub unsafe extern "C" fn clang_tokenize(_t: *mut c_void, r: CXSourceRange, out: *mut *mut CXToken, n: *mut c_uint) {
        let mut v: Vec<CXToken> = vec![];
        for (i, t) in tu().toks.iter().enumerate() {
            if t.from < r.begin_int_data {
                continue;
            }
            v.push(CXToken { int_data: [i as c_uint, 0, 0, 0], ptr_data: std::ptr::null_mut() });
            if t.to >= r.end_int_data {
                break;
            }
        }
        *n = v.len() as c_uint;
        *out = if v.is_empty() { std::ptr::null_mut() } else { Box::leak(v.into_boxed_slice()).as_mut_ptr() };
    }
    #[no_mangle]
    pub extern "C" fn clang_disposeTokens(_t: *mut c_void, _p: *mut CXToken, _n: c_uint) {}
    #[no_mangle]
    pub extern "C" fn clang_getTokenKind(t: CXToken) -> c_uint {
        tu().toks[t.int_data[0] as usize].kind
    }
    #[no_mangle]
    pub extern "C" fn clang_getTokenSpelling(_t: *mut c_void, t: CXToken) -> CXString {
        string(&tu().toks[t.int_data[0] as usize].text)
    }
    #[no_mangle]
    pub extern "C" fn clang_getTokenLocation(_t: *mut c_void, t: CXToken) -> CXSourceLocation {
        loc(tu().toks[t.int_data[0] as usize].from)
    }
    #[no_mangle]
    pub extern "C" fn clang_getTokenExtent(_t: *mut c_void, t: CXToken) -> CXSourceRange {
        let t = &tu().toks[t.int_data[0] as usize];
        CXSourceRange { ptr_data: [handle(), std::ptr::null()], begin_int_data: t.from, end_int_data: t.to }
    }
    #[no_mangle]
    pub extern "C" fn clang_getCursorType(c: CXCursor) -> CXType {
        let mut t = ty(&node(&c).ty);
        // a function's type leads back to the function
        t.data[1] = c.xdata as usize as *mut c_void;
        t
    }
    #[no_mangle]
    pub extern "C" fn clang_getResultType(t: CXType) -> CXType {
        let n = t.data[1] as usize;
        match of(&t) {
            CT::Func | CT::NoProto => match tu().rets.iter().find(|r| r.0 == n) {
                Some(r) => ty(&r.1),
                None => ty(&INT),
            },
            _ => invalid(),
        }
    }
    #[no_mangle]
    pub extern "C" fn clang_getPointeeType(t: CXType) -> CXType {
        match of(&t) {
            CT::Ptr(p) => ty(p),
            _ => invalid(),
        }
    }
    #[no_mangle]
    pub extern "C" fn clang_getCanonicalType(t: CXType) -> CXType {
        let mut t = t;
        if t.kind == 119 {
            t.kind = 105;
        }
        t
    }
    #[no_mangle]
    pub extern "C" fn clang_getTypeDeclaration(_t: CXType) -> CXCursor {
        match tu().nodes.iter().position(|n| n.kind == 2) {
            Some(n) => cur(n),
            None => cur(0),
        }
    }
    #[no_mangle]
    pub extern "C" fn clang_getTypeSpelling(t: CXType) -> CXString {
        string(match of(&t) {
            CT::Void => b"void\0",
            CT::Int | CT::Func | CT::NoProto => b"int\0",
            CT::UInt => b"unsigned int\0",
            CT::SChar => b"signed char\0",
            CT::Char => b"char\0",
            CT::CChar => b"const char\0",
            CT::Bool => b"_Bool\0",
            CT::Ptr(_) => b"int *\0",
            CT::Arr(..) => b"int[]\0",
            CT::Struct | CT::Record => b"struct P\0",
        })
    }
    #[no_mangle]
    pub extern "C" fn clang_getArrayElementType(t: CXType) -> CXType {
        match of(&t) {
            CT::Arr(e, _) => ty(e),
            _ => invalid(),
        }
    }
    #[no_mangle]
    pub extern "C" fn clang_getArraySize(t: CXType) -> c_longlong {
        match of(&t) {
            CT::Arr(_, n) => *n,
            _ => -1,
        }
    }
    #[no_mangle]
    pub extern "C" fn clang_isConstQualifiedType(t: CXType) -> c_uint {
        (*of(&t) == CT::CChar) as c_uint
    }
    #[no_mangle]
    pub extern "C" fn clang_getNumArgTypes(_t: CXType) -> c_int {
        -1
    }
    #[no_mangle]
    pub extern "C" fn clang_Cursor_getNumArguments(c: CXCursor) -> c_int {
        let n = node(&c);
        if n.kind == 8 {
            n.kids.iter().filter(|k| tu().nodes[**k].kind == 10).count() as c_int
        } else if n.kind == 103 {
            n.kids.len() as c_int - 1
        } else {
            -1
        }
    }
    #[no_mangle]
    pub extern "C" fn clang_Cursor_getArgument(c: CXCursor, i: c_uint) -> CXCursor {
        let n = node(&c);
        let k = if n.kind == 103 {
            n.kids[i as usize + 1]
        } else {
            *n.kids.iter().filter(|k| tu().nodes[**k].kind == 10).nth(i as usize).unwrap()
        };
        cur(k)
    }
    #[no_mangle]
    pub extern "C" fn clang_getEnumConstantDeclValue(c: CXCursor) -> c_longlong {
        tu().vals.iter().find(|v| v.0 == c.xdata as usize).map_or(0, |v| v.1)
    }
    #[no_mangle]
    pub extern "C" fn clang_Cursor_getStorageClass(c: CXCursor) -> c_int {
        matches!(node(&c).kind, 8 | 9 | 10) as c_int
    }
    #[no_mangle]
    pub extern "C" fn clang_getCursorSemanticParent(c: CXCursor) -> CXCursor {
        cur(node(&c).parent)
    }
    #[no_mangle]
    pub extern "C" fn clang_getNullCursor() -> CXCursor {
        CXCursor { kind: 70, xdata: 0, data: [std::ptr::null(); 3] }
    }
    #[no_mangle]
    pub extern "C" fn clang_Cursor_isNull(c: CXCursor) -> c_int {
        (c.kind == 70) as c_int
    }
    #[no_mangle]
    pub extern "C" fn clang_equalCursors(a: CXCursor, b: CXCursor) -> c_uint {
        (a.xdata == b.xdata && a.kind == b.kind) as c_uint
    }
}
