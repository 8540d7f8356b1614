//! The whole of decy from the C text on: the front end reads the text (through libclang's cursors and tokens, see
//! cc.rs) and the Rust that comes out computes what the C program says.
use crate::cc::{self, Style, Tu, PLAIN};
use crate::cref::{hty, T};
use crate::h_cg::{self, bin, compare, compare_mem, k, un, var, Case, M};
use crate::sym;
use decy_hir as h;
use decy_hir::{BinaryOperator as B, HirExpression as E, HirStatement as S, HirType, SwitchCase, UnaryOperator as U};

pub static mut FRONT: bool = false;
pub static mut STYLE: Style = PLAIN;
/// How a character literal is written.
pub static mut SPELL: Option<(i32, &'static str)> = None;

/// The unit declares printf and puts.
pub static mut PRINT: bool = false;

pub fn unit(f: &h::HirFunction) -> Tu {
    let mut t = Tu::new(unsafe { STYLE });
    if let Some((c, text)) = unsafe { SPELL } {
        t.spell(c, text.as_bytes());
    }
    t.prototype("g", 0);
    if unsafe { PRINT } {
        t.printing("printf", true);
        t.printing("puts", false);
    }
    t.structure();
    t.function(f);
    t
}
/// What `decy transpile` prints for the C text of `f`.
pub fn generate(f: &h::HirFunction) -> String {
    let t = unit(f);
    crate::sym::outs(if cc::agrees(&t) { "cursors of libclang" } else { "other cursors" });
    let text = String::from_utf8_lossy(&t.text).into_owned();
    unsafe { cc::UNIT = Some(t) };
    let r = match decy_core::transpile_with_includes(&text, None) {
        Ok(t) => t,
        Err(_) => {
            crate::sym::check(false, "decy refuses the program");
            String::new()
        }
    };
    match r.find("\nfn f") {
        Some(i) => r[i + 1..].to_string(),
        None => r,
    }
}

fn front(st: Style) {
    unsafe {
        FRONT = true;
        STYLE = st;
    }
}
macro_rules! plain {
    ($($n:ident $m:ident)*) => { $(pub fn $n() { front(style()); crate::h_cg::$m() })* };
}
plain! { xe1 e1 xe2 e2 xe3 e3 xe4 e4 xe5 e5 xe6 e6 xe7 e7 xe8 e8 xe9 e9 xe10 e10 xs1 s1 xs2 s2 xs3 s3 xs4 s4 xs5 s5 xs6 s6 xs7 s7 xd1 d1 xd2 d2 xd3 d3 xd4 d4 xd5 d5 xd6 d6 xd8 d8 }
fn style() -> Style {
    match std::option_env!("FE_STYLE").unwrap_or("0") {
        "0" => PLAIN,
        "1" => Style { space: 1, unbraced: true, compound: 1, lit: 1, elseif: true, casebraces: true, ..PLAIN },
        "2" => Style { space: 2, parens: true, unbraced: true, compound: 2, lit: 2, elseif: true, default_first: true, ..PLAIN },
        _ => Style { space: 0, parens: true, compound: 3, ..PLAIN },
    }
}

pub fn any() {
    let b = || crate::sym::choice(2) == 1;
    front(Style { space: crate::sym::choice(3) as u8, parens: b(), unbraced: b(), compound: crate::sym::choice(4) as u8, lit: crate::sym::choice(7) as u8, elseif: b(), casebraces: b(), default_first: b() });
    use crate::h_cg::*;
    let m: [fn(); 24] = [e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, s1, s2, s3, s4, s5, s6, s7, d1, d2, d3, d4, d5, d6, d8];
    m[crate::sym::choice(24)]();
}

const STYLES: [Style; 4] = [
    PLAIN,
    Style { space: 1, unbraced: true, compound: 1, lit: 1, elseif: true, casebraces: true, ..PLAIN },
    Style { space: 2, parens: true, unbraced: true, compound: 2, lit: 2, elseif: true, default_first: true, ..PLAIN },
    Style { space: 0, parens: true, compound: 3, ..PLAIN },
];
pub fn styled() {
    front(STYLES[sym::choice(4)]);
}
fn asg(t: &str, e: E) -> S {
    S::Assignment { target: t.into(), value: e }
}
fn call(e: E) -> E {
    E::FunctionCall { function: "g".into(), arguments: vec![e] }
}
fn gx(v: &str) -> S {
    S::Expression(call(var(v)))
}
fn int(n: &str, e: E) -> S {
    S::VariableDeclaration { name: n.into(), var_type: HirType::Int, initializer: Some(e) }
}
fn when(c: E, b: Vec<S>) -> S {
    S::If { condition: c, then_block: b, else_block: None }
}
fn fin(mut body: Vec<S>, strict: bool) {
    body.push(S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("x"), var("y")] }));
    body.push(S::Return(Some(var("x"))));
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: 32, fuel: 60, strict });
}
macro_rules! all {
    ($($n:ident $m:ident)*) => { $(pub fn $n() { styled(); h_cg::$m() })* };
}
all! { e1 e1 e2 e2 e3 e3 e6 e6 e7 e7 e8 e8 e9 e9 e10 e10 s1 s1 s2 s2 s3 s3 s4 s4 s6 s6 d1 d1 d2 d2 d3 d3 d5 d5 d6 d6 d8 d8 }

macro_rules! print {
    ($($n:ident $m:ident)*) => { $(pub fn $n() { styled(); unsafe { PRINT = true }; crate::h_fmt::$m() })* };
}
print! { pf_one one pf_text text pf_two two pf_three three pf_esc esc pf_str str_ pf_flow flow pf_len len }

/// for loops: every part present, absent or a list.
pub fn for_() {
    styled();
    let step = |v: &str| asg(v, bin(B::Add, var(v), k(1)));
    let mut b = vec![];
    let init = match sym::choice(6) {
        0 => vec![int("i", k(0))],
        1 => vec![int("i", k(0)), int("j", bin(B::BitwiseXor, var("x"), k(3)))],
        c => {
            b.push(int("i", k(1)));
            match c {
                2 => vec![],
                3 => vec![asg("i", k(0))],
                4 => vec![asg("i", k(0)), asg("y", bin(B::BitwiseAnd, var("y"), k(7)))],
                _ => vec![gx("i")],
            }
        }
    };
    let lt = bin(B::LessThan, var("i"), k(2));
    let cond = match sym::choice(5) {
        0 => None,
        1 => Some(lt),
        2 => Some(bin(B::LogicalAnd, lt, var("x"))),
        3 => Some(E::Ternary { condition: Box::new(lt), then_expr: Box::new(var("x")), else_expr: Box::new(k(0)) }),
        _ => Some(bin(B::Subtract, k(2), var("i"))),
    };
    let inc = match sym::choice(5) {
        0 => vec![],
        1 => vec![step("i")],
        2 => vec![step("i"), asg("y", bin(B::BitwiseXor, var("y"), k(5)))],
        3 => vec![asg("y", bin(B::BitwiseOr, var("y"), k(8))), gx("y"), step("i")],
        _ => vec![S::Expression(E::PostIncrement { operand: Box::new(var("i")) })],
    };
    let mut body = vec![];
    if inc.is_empty() {
        body.push(step("i"));
    }
    // an endless loop in C goes on: leave it
    if cond.is_none() {
        body.push(when(bin(B::GreaterThan, var("i"), k(1)), vec![S::Break]));
    }
    match sym::choice(3) {
        0 => {}
        1 => body.push(gx("i")),
        _ => {
            body.push(when(bin(B::Equal, var("i"), k(1)), vec![S::Continue]));
            body.push(gx("y"));
        }
    }
    b.push(S::For { init, condition: cond, increment: inc, body });
    fin(b, true);
}
/// do-while loops.
pub fn do_() {
    styled();
    let step = |v: &str| asg(v, bin(B::Add, var(v), k(1)));
    let jump = |j: S| when(match sym::choice(2) { 0 => bin(B::Equal, var("i"), k(1)), _ => bin(B::LessThan, var("x"), var("y")) }, vec![gx("y"), j]);
    let c = match sym::choice(5) {
        0 => bin(B::LessThan, var("i"), k(3)),
        1 => bin(B::Subtract, k(2), var("i")),
        2 => bin(B::LogicalAnd, bin(B::LessThan, var("i"), k(2)), var("x")),
        3 => un(U::LogicalNot, bin(B::GreaterEqual, var("i"), k(2))),
        _ => k(0),
    };
    let mut body = vec![step("i")];
    match sym::choice(6) {
        0 => {}
        1 => body.push(gx("i")),
        2 => body.extend([jump(S::Break), gx("x")]),
        3 => body.extend([jump(S::Continue), gx("x")]),
        4 => body.extend([jump(S::Return(Some(var("i")))), asg("x", bin(B::BitwiseXor, var("x"), var("i")))]),
        _ => body.extend([
            int("j", k(0)),
            S::While { condition: bin(B::LessThan, var("j"), k(2)), body: vec![step("j"), jump(S::Continue), gx("j")] },
        ]),
    }
    let l = S::While { condition: E::FunctionCall { function: "do_while".into(), arguments: vec![c] }, body };
    let b = match sym::choice(3) {
        0 => vec![int("i", k(0)), l],
        1 => vec![int("i", k(0)), when(var("x"), vec![l])],
        _ => vec![int("i", k(0)), S::If { condition: var("y"), then_block: vec![gx("y")], else_block: Some(vec![l, gx("x")]) }],
    };
    fin(b, true);
}
/// Integer literals in every base.
pub fn lit() {
    front(Style { lit: sym::choice(7) as u8, space: sym::choice(2) as u8, ..PLAIN });
    let c = sym::pick(&[0, 1, 7, 8, 9, 10, 26, 64, 255, 511, 4096, 65535, 123456, 0x7fffffff, -1, -10, -255, -0x7fffffff]);
    let op = sym::pick(&[B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor]);
    let body = match sym::choice(5) {
        0 => vec![S::Return(Some(k(c)))],
        1 => vec![asg("y", k(c)), S::Return(Some(bin(op, var("x"), var("y"))))],
        2 => vec![S::Return(Some(bin(op, var("x"), k(c))))],
        3 => vec![S::Return(Some(bin(op, k(c), var("x"))))],
        _ => {
            let cases = vec![SwitchCase { value: Some(k(c)), body: vec![gx("y"), S::Break] }];
            vec![S::Switch { condition: var("x"), cases, default_case: Some(vec![gx("x")]) }, S::Return(Some(var("y")))]
        }
    };
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: 32, fuel: 20, strict: false });
}
/// Character literals in every spelling.
pub fn chr() {
    let (t, c): (&'static str, i8) = sym::pick(&[
        ("'a'", 97), ("'0'", 48), ("' '", 32), ("'\"'", 34), ("'\\''", 39), ("'\\\"'", 34), ("'\\\\'", 92), ("'\\n'", 10), ("'\\t'", 9),
        ("'\\r'", 13), ("'\\a'", 7), ("'\\b'", 8), ("'\\f'", 12), ("'\\v'", 11), ("'\\0'", 0), ("'\\7'", 7), ("'\\12'", 10), ("'\\012'", 10),
        ("'\\101'", 65), ("'\\177'", 127), ("'\\377'", -1), ("'\\200'", -128), ("'\\x41'", 65), ("'\\x7f'", 127), ("'\\xff'", -1), ("'\\x9'", 9), ("'~'", 126),
        ("'('", 40), ("';'", 59), ("'='", 61), ("'+'", 43),
    ]);
    front(STYLES[sym::choice(2)]);
    unsafe { SPELL = Some((c as i32, t)) }
    let ch = E::CharLiteral(c);
    let op = sym::pick(&[B::Add, B::BitwiseXor, B::Equal, B::LessThan]);
    let (x, y) = (var("x"), var("y"));
    let body = match sym::choice(6) {
        0 => vec![S::Return(Some(ch))],
        1 => vec![asg("y", ch), S::Return(Some(bin(op, x, y)))],
        2 => vec![S::Return(Some(bin(op, x, ch)))],
        3 => vec![S::Return(Some(bin(op, ch, x)))],
        4 => vec![when(bin(B::NotEqual, x, ch), vec![gx("y")]), S::Return(Some(y))],
        _ => vec![S::VariableDeclaration { name: "c".into(), var_type: HirType::Char, initializer: Some(ch) }, S::Return(Some(bin(op, var("c"), x)))],
    };
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: 32, fuel: 20, strict: false });
}
/// Casts as operands.
pub fn cast() {
    styled();
    let t = sym::pick(&[T::I8, T::Ch, T::U32, T::I32]);
    let c = |e: E| E::Cast { target_type: hty(t), expr: Box::new(e) };
    let op = sym::pick(&[B::Add, B::Subtract, B::BitwiseAnd, B::BitwiseXor, B::BitwiseOr]);
    let (x, y) = (var("x"), var("y"));
    let e = match sym::choice(5) {
        0 => c(x),
        1 => bin(op, c(x), y),
        2 => bin(op, y, c(x)),
        3 => c(bin(op, x, y)),
        // two narrow operands: the arithmetic of C01's known findings
        _ if matches!(t, T::I8 | T::Ch) => bin(op, c(y), x),
        _ => bin(op, c(x), c(y)),
    };
    let e = if t == T::U32 { E::Cast { target_type: HirType::Int, expr: Box::new(e) } } else { e };
    let body = match sym::choice(3) {
        0 => vec![S::Return(Some(e))],
        1 => vec![asg("x", e), S::Return(Some(var("x")))],
        _ => vec![when(e, vec![gx("x")]), S::Return(Some(var("y")))],
    };
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: 32, fuel: 20, strict: false });
}
/// Assignments used as values, plain and compound.
pub fn val() {
    styled();
    let op = sym::pick(&[B::Add, B::Subtract, B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor]);
    let b = |e: E| Box::new(e);
    let (x, y) = (var("x"), var("y"));
    let a = match sym::choice(3) {
        0 => bin(B::Assign, x.clone(), y.clone()),
        1 => bin(B::Assign, x.clone(), bin(op, x.clone(), y.clone())),
        _ => bin(B::Assign, x.clone(), bin(op, x.clone(), k(3))),
    };
    let body = match sym::choice(8) {
        0 => vec![S::Return(Some(a))],
        1 => vec![asg("y", a)],
        2 => vec![int("r", bin(B::BitwiseXor, a, k(1))), gx("r")],
        3 => vec![when(bin(B::LessThan, a, k(5)), vec![gx("y")])],
        4 => vec![S::While { condition: bin(B::GreaterThan, a, k(0)), body: vec![gx("x"), S::Break] }],
        5 => vec![S::Expression(call(a))],
        6 => vec![asg("y", E::Ternary { condition: b(y), then_expr: b(a), else_expr: b(k(4)) })],
        _ => vec![asg("y", bin(B::Equal, a, k(3)))],
    };
    fin(body, false);
}
/// Every way to change every kind of variable: x op= e, x++, --x for locals, pointer targets, fields and elements.
pub fn inc() {
    styled();
    let b = |e: E| Box::new(e);
    let op = sym::pick(&[B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor, B::LeftShift, B::RightShift]);
    let hard = matches!(op, B::Multiply | B::Divide | B::Modulo);
    let mut body = vec![];
    let mut mem: Vec<(&'static str, M)> = vec![];
    let field = sym::pick(&["a", "b"]);
    let kind = sym::choice(6);
    let place = match kind {
        0 => var("x"),
        1 => {
            mem.push(("p", M::Cell));
            E::Dereference(b(var("p")))
        }
        2 => {
            mem.push(("p", M::Struct));
            E::PointerFieldAccess { pointer: b(var("p")), field: field.into() }
        }
        3 => {
            let t = HirType::Struct("P".into());
            body.push(S::VariableDeclaration { name: "q".into(), var_type: t.clone(), initializer: Some(E::CompoundLiteral { literal_type: t, initializers: vec![var("y"), k(5)] }) });
            E::FieldAccess { object: b(var("q")), field: field.into() }
        }
        _ => {
            let t = HirType::Array { element_type: Box::new(HirType::Int), size: Some(3) };
            body.push(S::VariableDeclaration { name: "t".into(), var_type: t.clone(), initializer: Some(E::CompoundLiteral { literal_type: t, initializers: vec![var("y"), k(5), k(6)] }) });
            body.push(int("i", k(1)));
            let index = if kind == 4 { var("i") } else { bin(B::Subtract, var("i"), k(1)) };
            E::ArrayIndex { array: b(var("t")), index: b(index) }
        }
    };
    let rhs = match sym::choice(3) {
        0 => k(1),
        1 => var("y"),
        _ => bin(B::BitwiseAnd, var("y"), k(3)),
    };
    let value = bin(op, place.clone(), rhs);
    let set = match &place {
        E::Dereference(p) => S::DerefAssignment { target: (**p).clone(), value },
        E::PointerFieldAccess { pointer, field } => S::FieldAssignment { object: (**pointer).clone(), field: field.clone(), value },
        E::FieldAccess { object, field } => S::FieldAssignment { object: (**object).clone(), field: field.clone(), value },
        E::ArrayIndex { array, index } => S::ArrayIndexAssignment { array: array.clone(), index: index.clone(), value },
        _ => asg("x", value),
    };
    match sym::choice(4) {
        0 => body.push(set),
        1 => body.push(when(bin(B::LessThan, var("x"), k(9)), vec![set])),
        2 => body.push(S::If { condition: var("x"), then_block: vec![gx("x")], else_block: Some(vec![set]) }),
        _ => body.push(S::For { init: vec![int("j", k(0))], condition: Some(bin(B::LessThan, var("j"), k(2))), increment: vec![asg("j", bin(B::Add, var("j"), k(1))), set], body: vec![gx("j")] }),
    }
    body.push(S::Return(Some(bin(B::BitwiseXor, var("x"), place))));
    compare_mem(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: if hard { 7 } else { 32 }, fuel: 60, strict: false }, &mem);
}
const PART: [usize; 2] = [1, 2];
macro_rules! part {
    ($($n:ident $m:ident)*) => { $(pub fn $n() { front(STYLES[PART[sym::choice(2)]]); h_cg::$m() })* };
}
part! { p7 e7 p1 s1 p6 s6 p3 d3 }
pub fn vac() {
    styled();
    h_cg::vac();
}
