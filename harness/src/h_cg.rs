//! Code generation: the emitted Rust text computes what the C meaning of the intermediate representation says.
use crate::cref::*;
use crate::rsi::{self, Bad, Mach, Parser, RT, RV};
use crate::sym;
use decy_codegen::CodeGenerator;
use decy_hir::*;
use BinaryOperator as B;
use HirExpression as E;
use HirStatement as S;
use UnaryOperator as U;

pub fn var(n: &str) -> E {
    E::Variable(n.to_string())
}
pub fn bin(op: B, l: E, r: E) -> E {
    E::BinaryOp { op, left: Box::new(l), right: Box::new(r) }
}
pub fn un(op: U, e: E) -> E {
    E::UnaryOp { op, operand: Box::new(e) }
}
pub fn k(v: i32) -> E {
    E::IntLiteral(v)
}
fn call(a: E) -> E {
    E::FunctionCall { function: "g".into(), arguments: vec![a] }
}
/// A symbolic value of a C type, in both worlds.
pub fn value(t: T, narrow: u32) -> (V, RV) {
    let w = if narrow > 0 { narrow } else { 32 };
    let s = ((sym::int(w) as i32) << (32 - w)) >> (32 - w);
    match t {
        T::I32 => (ival(s as i64), RV::I(s as i64, RT::I32)),
        T::U32 => (V { v: s as u32 as i64, t }, RV::I(s as u32 as i64, RT::U32)),
        T::I8 => (V { v: s as i8 as i64, t }, RV::I(s as i8 as i64, RT::I8)),
        T::Ch => {
            let c = (s & 127) as i64;
            (V { v: c, t }, RV::I(c, RT::U8))
        }
        T::Bool => {
            let c = s & 1 != 0;
            (V { v: c as i64, t }, RV::B(c))
        }
    }
}
fn num(v: &RV) -> Option<i64> {
    match v {
        RV::I(v, _) | RV::Lit(v, _) => Some(*v),
        RV::B(b) => Some(*b as i64),
        _ => None,
    }
}
pub struct Case {
    pub ret: T,
    pub params: Vec<(&'static str, T)>,
    pub body: Vec<S>,
    pub narrow: u32,
    pub fuel: u32,
    /// the generated text must be acceptable to rustc on every executed path
    pub strict: bool,
}
/// Parameters that refer to memory of the caller.
#[derive(Clone, Copy, PartialEq)]
pub enum M {
    /// int *p, pointing to one int
    Cell,
    /// struct P *p
    Struct,
    /// int *a, pointing to an array of 3
    Array,
    /// int n: the length of the array before it
    Len,
}
const LEN: usize = 3;
pub fn compare(c: Case) {
    compare_mem(c, &[])
}
fn pty() -> HirType {
    HirType::Struct("P".into())
}
#[cfg(not(feature = "pipe"))]
fn generate(f: &HirFunction) -> String {
    CodeGenerator::new().generate_function(f)
}
#[cfg(feature = "pipe")]
fn generate(f: &HirFunction) -> String {
    if unsafe { crate::h_fe::FRONT } {
        return crate::h_fe::generate(f);
    }
    crate::h_pipe::generate(f)
}
/// Not C: a block that declares a name twice (a parameter counts for the outermost one).
fn redeclares<'a>(b: &'a [S], names: &mut Vec<&'a str>) -> bool {
    b.iter().any(|s| match s {
        S::VariableDeclaration { name, .. } => {
            let twice = names.contains(&name.as_str());
            names.push(name);
            twice
        }
        S::If { then_block, else_block, .. } => {
            redeclares(then_block, &mut vec![]) || else_block.as_ref().is_some_and(|b| redeclares(b, &mut vec![]))
        }
        S::While { body, .. } | S::For { body, .. } => redeclares(body, &mut vec![]),
        S::Switch { cases, default_case, .. } => {
            let mut n = vec![];
            cases.iter().any(|c| redeclares(&c.body, &mut n)) || default_case.as_ref().is_some_and(|b| redeclares(b, &mut n))
        }
        _ => false,
    })
}
pub fn compare_mem(c: Case, mem: &[(&'static str, M)]) {
    let mut ps: Vec<HirParameter> = vec![];
    for (n, m) in mem {
        let t = match m {
            M::Cell | M::Array => HirType::Pointer(Box::new(HirType::Int)),
            M::Struct => HirType::Pointer(Box::new(pty())),
            M::Len => HirType::Int,
        };
        ps.push(HirParameter::new(n.to_string(), t));
    }
    ps.extend(c.params.iter().map(|(n, t)| HirParameter::new(n.to_string(), hty(*t))));
    let mut names: Vec<&str> = ps.iter().map(|p| p.name()).collect();
    sym::assume(!redeclares(&c.body, &mut names));
    let f = HirFunction::new_with_body("f".into(), hty(c.ret), ps, c.body);
    unsafe { crate::shape::CONCRETE = true }
    let mut tag = String::new();
    for (n, m) in mem {
        tag.push_str(match m {
            M::Cell => "int*",
            M::Array => "int[]",
            M::Struct => "P*",
            M::Len => "len ",
        });
        tag.push_str(n);
        tag.push(' ');
    }
    for (n, t) in &c.params {
        tag.push_str(match t {
            T::I32 => "int ",
            T::U32 => "unsigned ",
            T::I8 => "schar ",
            T::Ch => "char ",
            T::Bool => "bool ",
        });
        tag.push_str(n);
        tag.push(' ');
    }
    tag.push_str(": ");
    tag.push_str(&crate::shape::shape(f.body()));
    sym::tag(&tag);
    let text = generate(&f);
    sym::outs(&text);
    let func = match Parser::new(&text).and_then(|mut p| p.func()) {
        Ok(f) => f,
        Err(e) => return bad(e, c.strict, "unparsable"),
    };
    let mut m = Mach::new(c.fuel * 8 + 64);
    let mut r = C::new(c.fuel);
    m.structs.push(("P".into(), vec![("a".into(), RV::I(0, RT::I32)), ("b".into(), RV::I(0, RT::I32))]));
    let mut cells: Vec<(usize, usize)> = vec![];
    for (n, k) in mem {
        let i = func.params.iter().position(|p| p.0 == *n);
        if *k == M::Len {
            r.bind(n, ival(LEN as i64));
            if let Some(i) = i {
                m.bind(n, RV::I(LEN as i64, RT::I32), func.params[i].1);
            }
            continue;
        }
        let i = match i {
            Some(i) => i,
            None => return sym::check(!c.strict, "generated function lacks a parameter"),
        };
        let cnt = match k {
            M::Cell => 1,
            M::Struct => 2,
            _ => LEN,
        };
        let vals: Vec<(V, RV)> = (0..cnt).map(|_| value(T::I32, c.narrow)).collect();
        let mut hidden = String::from("#");
        hidden.push_str(n);
        let cv: Vec<V> = vals.iter().map(|v| v.0).collect();
        let (cs, rs) = match k {
            M::Cell => (Slot::S(cv[0]), vals[0].1.clone()),
            M::Struct => (
                Slot::St(vec![("a", cv[0]), ("b", cv[1])]),
                RV::St("P".into(), vec![("a".into(), vals[0].1.clone()), ("b".into(), vals[1].1.clone())]),
            ),
            _ => (Slot::Arr(cv), RV::Arr(vals.iter().map(|v| v.1.clone()).collect())),
        };
        let ci = r.vars.len();
        r.vars.push((hidden, cs));
        r.vars.push((n.to_string(), Slot::Ptr(ci)));
        let slot = m.alloc(rs);
        cells.push((ci, slot));
        let pl = rsi::Place { slot, path: vec![] };
        let b = match &func.params[i].2 {
            rsi::Ty::Ref(mu, inner) => {
                let ok = match (&**inner, k) {
                    (rsi::Ty::Int(RT::I32), M::Cell) => true,
                    (rsi::Ty::Named(n), M::Struct) => n == "P",
                    (rsi::Ty::Slice(e), M::Array) => **e == rsi::Ty::Int(RT::I32),
                    _ => false,
                };
                if !ok {
                    return bad(Bad::Reject("parameter type"), c.strict, "parameter");
                }
                RV::Ref(pl, *mu)
            }
            rsi::Ty::Raw(_) => {
                if *k == M::Array {
                    RV::Raw(rsi::Place { slot, path: vec![rsi::Pj::I(0)] }, 0)
                } else {
                    RV::Raw(pl, 0)
                }
            }
            _ => return bad(Bad::Reject("parameter type"), c.strict, "parameter"),
        };
        m.bind(n, b, func.params[i].1);
    }
    for (n, t) in c.params.iter() {
        let i = match func.params.iter().position(|p| p.0 == *n) {
            Some(i) => i,
            None => return sym::check(!c.strict, "generated function lacks a parameter"),
        };
        let (a, b) = value(*t, c.narrow);
        r.bind(n, a);
        match rsi::coerce(b, &func.params[i].2) {
            Ok(b) => {
                m.bind(&func.params[i].0, b, func.params[i].1);
            }
            Err(e) => return bad(e, c.strict, "parameter type"),
        }
    }
    let want = match r.run(f.body(), c.ret) {
        Ok(Some(v)) => v,
        Ok(None) => return,
        Err(Stop::Fuel) => return,
        Err(_) => {
            sym::reach(9);
            return;
        }
    };
    sym::reach(1);
    let got = match m.run(&func) {
        Ok(v) => v,
        Err(Bad::Panic(_)) => {
            sym::check(false, "generated function panics where the C function returns");
            return;
        }
        Err(Bad::Fuel) => {
            sym::check(false, "generated function does not terminate where the C function does");
            return;
        }
        Err(e) => return bad(e, c.strict, "rejected"),
    };
    sym::reach(2);
    match num(&got) {
        Some(v) => {
            sym::outv(v);
            sym::check(v == want.v, "generated function returns a different value");
        }
        None => bad(Bad::Reject("no value"), c.strict, "result"),
    }
    for (ci, slot) in cells {
        let want: Vec<i64> = match &r.vars[ci].1 {
            Slot::S(v) => vec![v.v],
            Slot::Arr(v) => v.iter().map(|v| v.v).collect(),
            Slot::St(f) => f.iter().map(|v| v.1.v).collect(),
            _ => return,
        };
        let got: Vec<Option<i64>> = match &m.mem[slot] {
            RV::Arr(v) => v.iter().map(num).collect(),
            RV::St(_, f) => f.iter().map(|v| num(&v.1)).collect(),
            v => vec![num(v)],
        };
        sym::check(want.len() == got.len(), "generated function changes the shape of the caller's memory");
        for (a, b) in want.iter().zip(&got) {
            sym::check(Some(*a) == *b, "generated function leaves the caller's memory in a different state");
        }
    }
    sym::check(r.calls.len() == m.calls.len(), "generated function performs a different number of calls");
    for (a, b) in r.calls.iter().zip(&m.calls) {
        sym::check(a.0 == b.0 && a.1.len() == b.1.len(), "generated function calls something else");
        for (p, q) in a.1.iter().zip(&b.1) {
            sym::check(p == q, "generated function passes a different argument");
        }
    }
    sym::reach(3);
}
fn bad(e: Bad, strict: bool, _w: &str) {
    match e {
        Bad::Reject(w) => {
            sym::reach(8);
            if strict {
                let mut s = String::from("generated text is not valid Rust: ");
                s.push_str(w);
                sym::check(false, &s);
            }
        }
        Bad::Unsup(w) => {
            sym::reach(7);
            if std::option_env!("CG_DEBUG").is_some() {
                let mut s = String::from("outside the interpreter: ");
                s.push_str(w);
                sym::check(false, &s);
            }
        }
        _ => sym::check(false, "generated function leaves a loop that does not exist"),
    }
}
const ARITH: [B; 10] = [
    B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::LeftShift, B::RightShift, B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor,
];
const REL: [B; 6] = [B::Equal, B::NotEqual, B::LessThan, B::GreaterThan, B::LessEqual, B::GreaterEqual];
const LOG: [B; 2] = [B::LogicalAnd, B::LogicalOr];
const UN: [U; 3] = [U::Minus, U::LogicalNot, U::BitwiseNot];
fn anyop() -> B {
    match sym::choice(3) {
        0 => sym::pick(&ARITH),
        1 => sym::pick(&REL),
        _ => sym::pick(&LOG),
    }
}
fn hard(op: B) -> bool {
    matches!(op, B::Multiply | B::Divide | B::Modulo)
}
/// One binary operator on two operands (int/int).
pub fn e1() {
    let op = anyop();
    let leafs = |v: &str| match sym::choice(4) {
        0 => var(v),
        1 => k(sym::pick(&[0, 1, 7, i32::MAX])),
        2 => k(sym::pick(&[-1, -5, i32::MIN])),
        _ => call(var(v)),
    };
    let l = leafs("x");
    let r = leafs("y");
    compare(Case {
        ret: T::I32,
        params: vec![("x", T::I32), ("y", T::I32)],
        body: vec![S::Return(Some(bin(op, l, r)))],
        narrow: if hard(op) { 7 } else { 32 },
        fuel: 20,
        strict: true,
    });
}
/// Two binary operators: grouping.
pub fn e2() {
    let op = anyop();
    let q = anyop();
    let left = sym::choice(2) == 0;
    let i = bin(q, var("x"), var("y"));
    let e = if left { bin(op, i, var("z")) } else { bin(op, var("z"), i) };
    let h = hard(op) as u32 + hard(q) as u32;
    compare(Case {
        ret: T::I32,
        params: vec![("x", T::I32), ("y", T::I32), ("z", T::I32)],
        strict: plain(&e),
        body: vec![S::Return(Some(e))],
        narrow: if h > 0 { 5 } else { 32 },
        fuel: 20,
    });
}
/// Unary operators, casts and ternaries around and inside binary operators.
pub fn e3() {
    let inner = |v: &str| match sym::choice(4) {
        0 => var(v),
        1 => un(sym::pick(&UN), var(v)),
        2 => un(sym::pick(&UN), un(sym::pick(&[U::Minus, U::LogicalNot]), var(v))),
        _ => E::Ternary {
            condition: Box::new(var(v)),
            then_expr: Box::new(k(3)),
            else_expr: Box::new(bin(B::Add, var("y"), k(1))),
        },
    };
    let op = sym::pick(&[B::Add, B::Subtract, B::BitwiseAnd, B::LessThan, B::LogicalAnd, B::Equal, B::RightShift]);
    let e = match sym::choice(3) {
        0 => bin(op, inner("x"), inner("y")),
        1 => un(sym::pick(&UN), bin(op, inner("x"), var("y"))),
        _ => E::Ternary {
            condition: Box::new(bin(op, inner("x"), var("y"))),
            then_expr: Box::new(inner("y")),
            else_expr: Box::new(inner("x")),
        },
    };
    compare(Case {
        ret: T::I32,
        params: vec![("x", T::I32), ("y", T::I32)],
        strict: plain(&e),
        body: vec![S::Return(Some(e))],
        narrow: 32,
        fuel: 20,
    });
}
/// Is the expression a truth value (relation, logical operator, negation)?
pub fn truthy(e: &E) -> bool {
    match e {
        E::BinaryOp { op, .. } => REL.contains(op) || LOG.contains(op),
        E::UnaryOp { op: U::LogicalNot, .. } => true,
        _ => false,
    }
}
/// Truth values are used as such (or returned), never as operands of arithmetic.
pub fn plain(e: &E) -> bool {
    match e {
        E::BinaryOp { op, left, right } => {
            plain(left) && plain(right) && (LOG.contains(op) || (!truthy(left) && !truthy(right)))
        }
        E::UnaryOp { op, operand } => plain(operand) && (*op == U::LogicalNot || !truthy(operand)),
        E::Ternary { condition, then_expr, else_expr } => {
            plain(condition) && plain(then_expr) && plain(else_expr) && !truthy(then_expr) && !truthy(else_expr)
        }
        E::Cast { expr, .. } => plain(expr) && !truthy(expr),
        E::FunctionCall { arguments, .. } => arguments.iter().all(|a| plain(a) && !truthy(a)),
        E::ArrayIndex { index, .. } => plain(index) && !truthy(index),
        _ => true,
    }
}
/// Casts around and inside operators.
pub fn e5() {
    const TS: [T; 4] = [T::I32, T::U32, T::I8, T::Ch];
    let c = |t: T, e: E| E::Cast { target_type: hty(t), expr: Box::new(e) };
    let op = anyop();
    let t = sym::pick(&TS);
    let n = if hard(op) { 7 } else { 32 };
    let e = match sym::choice(5) {
        0 => c(T::I32, c(t, bin(op, var("x"), var("y")))),
        1 => bin(op, c(T::I32, c(t, var("x"))), var("y")),
        2 => bin(op, var("x"), c(T::I32, c(t, var("y")))),
        3 => un(sym::pick(&UN), c(T::I32, c(t, var("x")))),
        _ => c(T::I32, un(sym::pick(&UN), c(t, var("x")))),
    };
    let s = plain(&e) && (t == T::I32 || !matches!(e, E::Cast { ref expr, .. } if matches!(**expr, E::UnaryOp { .. })));
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body: vec![S::Return(Some(e))], narrow: n, fuel: 20, strict: s });
}
/// Character literals.
pub fn e6() {
    let ch = E::CharLiteral(sym::pick(&[0i8, 48, 65, 97, 126, 10, 92, 39]));
    let op = anyop();
    let q = sym::pick(&[B::Add, B::BitwiseAnd, B::LessThan, B::LogicalOr]);
    let t = sym::pick(&[T::I32, T::Ch]);
    let n = if hard(op) { 7 } else { 32 };
    let e = match sym::choice(5) {
        0 => bin(op, var("x"), ch),
        1 => bin(op, ch, var("x")),
        2 => bin(op, bin(q, var("x"), var("y")), ch),
        3 => bin(op, ch, bin(q, var("x"), var("y"))),
        _ => ch,
    };
    let cmp = REL.contains(&op);
    let nested = matches!(&e, E::BinaryOp { left, right, .. } if matches!(**left, E::BinaryOp { .. }) || matches!(**right, E::BinaryOp { .. }));
    let s = plain(&e) && t == T::I32 && matches!(e, E::BinaryOp { .. }) && !(cmp && nested) && matches!(op, B::Add | B::Subtract | B::Equal | B::LessThan | B::GreaterEqual);
    compare(Case { ret: T::I32, params: vec![("x", t), ("y", T::I32)], body: vec![S::Return(Some(e))], narrow: n, fuel: 20, strict: s });
}
/// Increments, decrements, assignments and commas inside expressions.
pub fn e7() {
    let b = |e: E| Box::new(e);
    let side = |v: &str| match sym::choice(9) {
        0 => E::PostIncrement { operand: b(var(v)) },
        1 => E::PostDecrement { operand: b(var(v)) },
        2 => E::PreIncrement { operand: b(var(v)) },
        3 => E::PreDecrement { operand: b(var(v)) },
        4 => un(sym::pick(&[U::PostIncrement, U::PostDecrement]), var(v)),
        5 => un(sym::pick(&[U::PreIncrement, U::PreDecrement]), var(v)),
        6 => bin(B::Assign, var(v), bin(B::Subtract, var("z"), k(2))),
        7 => bin(B::Comma, call(var(v)), bin(B::BitwiseXor, var(v), k(5))),
        _ => var(v),
    };
    let op = sym::pick(&[B::Add, B::Subtract, B::BitwiseAnd, B::LessThan, B::Equal, B::LogicalAnd, B::LogicalOr]);
    let e = match sym::choice(4) {
        0 => bin(op, side("x"), side("y")),
        1 => un(sym::pick(&UN), side("x")),
        2 => E::Ternary { condition: b(side("x")), then_expr: b(side("y")), else_expr: b(var("z")) },
        _ => call(side("x")),
    };
    let s = plain(&e);
    let body = vec![
        S::VariableDeclaration { name: "r".into(), var_type: HirType::Int, initializer: Some(e) },
        S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("x"), var("y")] }),
        S::Return(Some(var("r"))),
    ];
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32), ("z", T::I32)], body, narrow: 32, fuel: 20, strict: s });
}
/// Mixed operand types.
pub fn e4() {
    const TS: [T; 4] = [T::I32, T::U32, T::I8, T::Ch];
    let (a, b, r) = (sym::pick(&TS), sym::pick(&TS), sym::pick(&[T::I32, T::U32]));
    let op = anyop();
    compare(Case {
        ret: r,
        params: vec![("x", a), ("y", b)],
        body: vec![S::Return(Some(bin(op, var("x"), var("y"))))],
        narrow: if hard(op) { 7 } else { 32 },
        fuel: 20,
        strict: a == b && a == r && (a == T::I32 || a == T::U32 && !REL.contains(&op) && !LOG.contains(&op)),
    });
}

fn asg(t: &str, e: E) -> S {
    S::Assignment { target: t.into(), value: e }
}
fn gx(v: &str) -> S {
    S::Expression(call(var(v)))
}
fn cond() -> E {
    match sym::choice(6) {
        0 => var("x"),
        1 => bin(B::LessThan, var("x"), var("y")),
        2 => bin(B::LogicalAnd, var("x"), bin(B::NotEqual, var("y"), k(3))),
        3 => un(U::LogicalNot, var("y")),
        4 => bin(B::BitwiseAnd, var("x"), k(1)),
        _ => k(sym::pick(&[0, 1])),
    }
}
fn simple() -> S {
    match sym::choice(6) {
        0 => asg("x", bin(B::BitwiseXor, var("x"), var("y"))),
        1 => gx("x"),
        2 => S::VariableDeclaration { name: "x".into(), var_type: HirType::Int, initializer: Some(bin(B::BitwiseAnd, var("y"), k(12))) },
        3 => S::Return(Some(bin(B::BitwiseOr, var("x"), k(2)))),
        4 => S::Expression(E::PostIncrement { operand: Box::new(var("y")) }),
        _ => S::If { condition: bin(B::LessThan, var("x"), var("y")), then_block: vec![gx("y")], else_block: None },
    }
}
fn fin(mut body: Vec<S>, fuel: u32) {
    body.push(S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("x"), var("y")] }));
    body.push(S::Return(Some(var("x"))));
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: 32, fuel, strict: true });
}
/// Branches, blocks and scopes.
pub fn s1() {
    let mut b = vec![];
    match sym::choice(3) {
        0 => {}
        1 => b.push(asg("x", bin(B::BitwiseXor, var("x"), var("y")))),
        _ => b.push(S::VariableDeclaration { name: "x".into(), var_type: HirType::Int, initializer: Some(bin(B::BitwiseAnd, var("y"), k(12))) }),
    }
    let c = cond();
    let t = match sym::choice(3) {
        0 => vec![],
        1 => vec![simple()],
        _ => vec![simple(), asg("y", k(9))],
    };
    let e = match sym::choice(3) {
        0 => None,
        1 => Some(vec![simple()]),
        _ => Some(vec![S::If { condition: cond(), then_block: vec![gx("x")], else_block: Some(vec![asg("x", k(-4))]) }]),
    };
    b.push(S::If { condition: c, then_block: t, else_block: e });
    fin(b, 40);
}
fn counter(v: &str) -> S {
    asg(v, bin(B::Add, var(v), k(1)))
}
fn loopbody(depth: u32) -> Vec<S> {
    let jump = |j: S| S::If { condition: match sym::choice(2) { 0 => bin(B::Equal, var("i"), k(1)), _ => bin(B::LessThan, var("x"), var("y")) }, then_block: vec![gx("y"), j], else_block: None };
    match sym::choice(if depth > 0 { 6 } else { 4 }) {
        0 => vec![gx("i")],
        1 => vec![jump(S::Break), gx("i")],
        2 => vec![jump(S::Continue), gx("i")],
        3 => vec![jump(S::Return(Some(var("i")))), asg("x", bin(B::BitwiseXor, var("x"), var("i")))],
        4 => vec![S::VariableDeclaration { name: "x".into(), var_type: HirType::Int, initializer: Some(var("i")) }, gx("x")],
        _ => {
            let inner = loopbody(0);
            vec![
                S::VariableDeclaration { name: "j".into(), var_type: HirType::Int, initializer: Some(k(0)) },
                S::While { condition: bin(B::LessThan, var("j"), k(2)), body: { let mut v = vec![counter("j")]; v.extend(inner); v } },
            ]
        }
    }
}
/// while loops (the counter is advanced at the top of the body).
pub fn s2() {
    let decl = S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(k(0)) };
    let mut b = vec![counter("i")];
    b.extend(loopbody(1));
    let c = match sym::choice(3) {
        0 => bin(B::LessThan, var("i"), k(3)),
        1 => bin(B::Subtract, k(2), var("i")),
        _ => bin(B::LogicalAnd, bin(B::LessThan, var("i"), k(2)), var("x")),
    };
    fin(vec![decl, S::While { condition: c, body: b }], 60);
}
/// for loops.
pub fn s3() {
    let init = S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(k(0)) };
    let c = match sym::choice(4) {
        0 => Some(bin(B::LessThan, var("i"), k(3))),
        1 => Some(bin(B::LogicalAnd, bin(B::LessThan, var("i"), k(2)), var("x"))),
        2 => None,
        _ => Some(bin(B::NotEqual, var("i"), k(2))),
    };
    let inc = match sym::choice(3) {
        0 => counter("i"),
        1 => S::Expression(E::PostIncrement { operand: Box::new(var("i")) }),
        _ => S::Expression(E::PreIncrement { operand: Box::new(var("i")) }),
    };
    let body = loopbody(1);
    fin(vec![S::For { init: vec![init], condition: c, increment: vec![inc], body }], 60);
}
/// switch statements with fall-through, break inside a branch of a case, statements after break.
pub fn s5() {
    let b0 = match sym::choice(4) {
        0 => vec![gx("x")],
        1 => vec![S::If { condition: bin(B::LessThan, var("y"), k(5)), then_block: vec![S::Break], else_block: None }, gx("x"), S::Break],
        2 => vec![gx("x"), S::Break, gx("y")],
        _ => vec![gx("x"), S::Break],
    };
    let cases = vec![SwitchCase { value: Some(k(0)), body: b0 }, SwitchCase { value: Some(k(1)), body: vec![asg("x", k(4)), S::Break] }];
    let sw = S::Switch { condition: var("x"), cases, default_case: Some(vec![gx("y")]) };
    let body = match sym::choice(2) {
        0 => vec![sw],
        _ => vec![
            S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(k(0)) },
            S::While { condition: bin(B::LessThan, var("i"), k(2)), body: vec![counter("i"), sw, gx("i")] },
        ],
    };
    fin(body, 40);
}
/// switch statements, every case ending in break or return.
pub fn s4() {
    let case = |v: Option<i32>| SwitchCase {
        value: v.map(k),
        body: match sym::choice(5) {
            0 => vec![asg("x", k(11)), S::Break],
            1 => vec![S::Return(Some(var("y")))],
            2 => vec![gx("y"), S::Break],
            3 => vec![S::If { condition: bin(B::LessThan, var("x"), k(5)), then_block: vec![gx("x")], else_block: None }, gx("y"), S::Break],
            _ => vec![gx("x"), asg("y", k(1)), S::Return(Some(bin(B::Subtract, var("y"), var("x"))))],
        },
    };
    let d = match sym::choice(4) {
        0 => None,
        1 => Some(vec![asg("x", k(7))]),
        2 => Some(vec![gx("x"), S::Break]),
        _ => Some(vec![S::Return(Some(k(3)))]),
    };
    let cases = vec![case(Some(0)), case(Some(-1)), case(Some(5))];
    let c = match sym::choice(2) {
        0 => var("x"),
        _ => bin(B::BitwiseAnd, var("y"), k(5)),
    };
    fin(vec![S::Switch { condition: c, cases, default_case: d }], 40);
}

/// Vacuity witness: a wrong expectation must be reported.
pub fn vac() {
    let e = bin(B::Subtract, var("y"), var("x"));
    let f = HirFunction::new_with_body(
        "f".into(),
        HirType::Int,
        vec![HirParameter::new("x".into(), HirType::Int), HirParameter::new("y".into(), HirType::Int)],
        vec![S::Return(Some(e))],
    );
    let text = generate(&f);
    let func = match Parser::new(&text).and_then(|mut p| p.func()) {
        Ok(f) => f,
        Err(_) => return,
    };
    let mut m = Mach::new(64);
    let (x, y) = (sym::int(8) as i64, sym::int(8) as i64);
    m.bind(&func.params[0].0, RV::I(x, RT::I32), func.params[0].1);
    m.bind(&func.params[1].0, RV::I(y, RT::I32), func.params[1].1);
    if let Ok(v) = m.run(&func) {
        sym::check(num(&v) == Some(x - y), "vacuity witness");
    }
}

fn arr(v: &str, i: E) -> E {
    E::ArrayIndex { array: Box::new(var(v)), index: Box::new(i) }
}
fn aset(v: &str, i: E, e: E) -> S {
    S::ArrayIndexAssignment { array: Box::new(var(v)), index: Box::new(i), value: e }
}
/// Local arrays: declaration, element reads and writes, indices computed from variables.
pub fn d1() {
    let aty = HirType::Array { element_type: Box::new(HirType::Int), size: Some(3) };
    let init = match sym::choice(3) {
        0 => None,
        1 => Some(E::CompoundLiteral { literal_type: aty.clone(), initializers: vec![k(7), k(8), k(9)] }),
        _ => Some(E::CompoundLiteral { literal_type: aty.clone(), initializers: vec![var("x"), k(4), var("y")] }),
    };
    let mut b = vec![S::VariableDeclaration { name: "a".into(), var_type: aty, initializer: init.clone() }];
    if init.is_none() {
        for i in 0..3 {
            b.push(aset("a", k(i), k(i + 20)));
        }
    }
    let ix = |v: &str| match sym::choice(4) {
        0 => var(v),
        1 => k(2),
        2 => bin(B::BitwiseAnd, var(v), k(1)),
        _ => bin(B::Subtract, k(2), var(v)),
    };
    match sym::choice(5) {
        0 => b.push(aset("a", ix("x"), bin(B::BitwiseXor, var("x"), var("y")))),
        1 => b.push(aset("a", ix("x"), arr("a", ix("y")))),
        2 => b.push(S::DerefAssignment { target: arr("a", ix("x")), value: bin(B::BitwiseOr, arr("a", ix("y")), k(64)) }),
        3 => b.push(S::Expression(E::PostIncrement { operand: Box::new(arr("a", k(1))) })),
        _ => {}
    }
    b.push(S::Expression(call(arr("a", k(0)))));
    b.push(S::Expression(call(arr("a", k(1)))));
    b.push(S::Return(Some(arr("a", ix("y")))));
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body: b, narrow: 32, fuel: 60, strict: true });
}

fn deref(v: &str) -> E {
    E::Dereference(Box::new(var(v)))
}
fn pset(v: &str, e: E) -> S {
    S::DerefAssignment { target: var(v), value: e }
}
fn case(body: Vec<S>) -> Case {
    Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32)], body, narrow: 32, fuel: 60, strict: true }
}
/// Pointer parameters: reads and writes through them.
pub fn d2() {
    d2n(2)
}
pub fn d2t() {
    d2n(3)
}
fn d2n(max: usize) {
    let rhs = |v: &str| match sym::choice(4) {
        0 => var("x"),
        1 => bin(B::BitwiseXor, deref(v), var("y")),
        2 => deref(v),
        _ => call(deref(v)),
    };
    let st = |w: usize| match w {
        0 => pset("p", rhs("q")),
        1 => pset("q", rhs("p")),
        2 => S::VariableDeclaration { name: "t".into(), var_type: HirType::Int, initializer: Some(rhs("p")) },
        3 => asg("x", rhs("q")),
        4 => S::If {
            condition: bin(B::LessThan, deref("p"), deref("q")),
            then_block: vec![pset("p", rhs("q"))],
            else_block: Some(vec![asg("y", deref("p"))]),
        },
        _ => S::Expression(call(deref("q"))),
    };
    let mut b = vec![];
    let n = sym::choice(max) + 1;
    for _ in 0..n {
        b.push(st(sym::choice(6)));
    }
    b.push(S::Return(Some(match sym::choice(2) {
        0 => var("x"),
        _ => bin(B::BitwiseOr, deref("p"), var("y")),
    })));
    compare_mem(case(b), &[("p", M::Cell), ("q", M::Cell)]);
}
fn fld(f: &str) -> E {
    E::FieldAccess { object: Box::new(var("q")), field: f.into() }
}
fn pfld(f: &str) -> E {
    E::PointerFieldAccess { pointer: Box::new(var("p")), field: f.into() }
}
/// Structures: fields of a local, fields through a pointer parameter.
pub fn d3() {
    let rhs = || match sym::choice(5) {
        0 => var("x"),
        1 => fld("a"),
        2 => pfld("b"),
        3 => bin(B::BitwiseXor, pfld("a"), fld("b")),
        _ => call(pfld("a")),
    };
    let st = || match sym::choice(4) {
        0 => S::FieldAssignment { object: var("q"), field: sym::pick(&["a", "b"]).into(), value: rhs() },
        1 => S::FieldAssignment { object: var("p"), field: sym::pick(&["a", "b"]).into(), value: rhs() },
        2 => S::DerefAssignment { target: pfld("b"), value: rhs() },
        _ => asg("x", rhs()),
    };
    let mut b = vec![S::VariableDeclaration {
        name: "q".into(),
        var_type: pty(),
        initializer: match sym::choice(2) {
            0 => None,
            _ => Some(E::CompoundLiteral { literal_type: pty(), initializers: vec![k(3), var("y")] }),
        },
    }];
    let n = sym::choice(2) + 1;
    for _ in 0..n {
        b.push(st());
    }
    b.push(S::Return(Some(match sym::choice(2) {
        0 => bin(B::BitwiseXor, fld("a"), fld("b")),
        _ => bin(B::BitwiseOr, pfld("b"), var("x")),
    })));
    compare_mem(case(b), &[("p", M::Struct)]);
}
/// Array parameters with their length.
pub fn d4() {
    let n = sym::pick(&["n", "len", "size"]);
    let i = |e: E| arr("a", e);
    let ld = S::VariableDeclaration { name: "s".into(), var_type: HirType::Int, initializer: Some(k(0)) };
    let acc = match sym::choice(5) {
        0 => vec![asg("s", bin(B::BitwiseXor, var("s"), i(var("i"))))],
        1 => vec![aset("a", var("i"), bin(B::BitwiseAnd, i(var("i")), var("x")))],
        2 => vec![aset("a", var("i"), i(bin(B::Subtract, bin(B::Subtract, var(n), k(1)), var("i"))))],
        3 => vec![S::If {
            condition: bin(B::LessThan, i(var("i")), var("x")),
            then_block: vec![asg("s", bin(B::BitwiseOr, var("s"), var(n)))],
            else_block: None,
        }],
        _ => vec![S::If { condition: bin(B::Equal, i(var("i")), var("x")), then_block: vec![S::Return(Some(var("i")))], else_block: None }],
    };
    let init = S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(k(0)) };
    let cnd = bin(B::LessThan, var("i"), var(n));
    let lp = match sym::choice(2) {
        0 => vec![S::For { init: vec![init], condition: Some(cnd), increment: vec![counter("i")], body: acc }],
        _ => {
            let mut b = acc;
            b.push(counter("i"));
            vec![init, S::While { condition: cnd, body: b }]
        }
    };
    let mut b = vec![ld];
    b.extend(lp);
    b.push(S::Return(Some(match sym::choice(2) {
        0 => var("s"),
        _ => bin(B::BitwiseXor, i(k(0)), var(n)),
    })));
    compare_mem(case(b), &[("a", M::Array), (n, M::Len)]);
}

fn hards(e: &E) -> u32 {
    match e {
        E::BinaryOp { op, left, right } => hard(*op) as u32 + hards(left) + hards(right),
        E::UnaryOp { operand, .. } => hards(operand),
        E::Ternary { condition, then_expr, else_expr } => hards(condition) + hards(then_expr) + hards(else_expr),
        E::Cast { expr, .. } => hards(expr),
        E::FunctionCall { arguments, .. } => arguments.iter().map(hards).sum(),
        _ => 0,
    }
}
fn width(e: &E) -> u32 {
    match hards(e) {
        0 => 32,
        1 => 5,
        2 => 4,
        _ => 3,
    }
}
/// An expression in every place an expression can stand.
pub fn e8() {
    let xy = |op: B| bin(op, var("x"), var("y"));
    let e = match sym::choice(3) {
        0 => xy(anyop()),
        1 => un(sym::pick(&UN), xy(anyop())),
        _ => un(sym::pick(&UN), un(sym::pick(&UN), xy(sym::pick(&[B::Add, B::BitwiseAnd, B::LessThan, B::LogicalOr, B::RightShift, B::Divide])))),
    };
    let b = |e: E| Box::new(e);
    let int = |n: &str, e: E| S::VariableDeclaration { name: n.into(), var_type: HirType::Int, initializer: Some(e) };
    let w = width(&e);
    let tr = truthy(&e);
    let mut s = plain(&e);
    let body = match sym::choice(12) {
        0 => vec![S::Return(Some(e))],
        1 => vec![int("r", e), S::Return(Some(var("r")))],
        2 => vec![asg("x", e), S::Return(Some(var("x")))],
        3 => vec![S::If { condition: e, then_block: vec![gx("x")], else_block: Some(vec![gx("y")]) }, S::Return(Some(var("x")))],
        4 => vec![S::While { condition: e, body: vec![gx("y"), S::Break] }, S::Return(Some(var("y")))],
        5 => {
            s &= !tr;
            vec![S::Expression(call(e)), S::Return(Some(var("x")))]
        }
        6 => vec![S::Return(Some(E::Ternary { condition: b(e), then_expr: b(var("x")), else_expr: b(k(-2)) }))],
        7 => vec![S::Return(Some(bin(B::LogicalAnd, e, var("z"))))],
        8 => vec![S::Return(Some(bin(B::LogicalOr, var("z"), e)))],
        9 => {
            s &= !tr;
            vec![S::Return(Some(E::Ternary { condition: b(var("z")), then_expr: b(e), else_expr: b(k(5)) }))]
        }
        10 => vec![S::For { init: vec![int("i", k(0))], condition: Some(e), increment: vec![counter("i")], body: vec![gx("i"), S::Break] }, S::Return(Some(var("y")))],
        _ => vec![int("r", k(0)), S::If { condition: var("z"), then_block: vec![asg("r", e)], else_block: None }, S::Return(Some(var("r")))],
    };
    compare(Case { ret: T::I32, params: vec![("x", T::I32), ("y", T::I32), ("z", T::I32)], body, narrow: w, fuel: 20, strict: s });
}
const REP: [B; 9] = [B::Add, B::Subtract, B::Multiply, B::LeftShift, B::BitwiseAnd, B::BitwiseOr, B::LessThan, B::Equal, B::LogicalAnd];
const REP9: [B; 8] = [B::Add, B::Subtract, B::LeftShift, B::BitwiseAnd, B::BitwiseOr, B::LessThan, B::Equal, B::LogicalAnd];
/// Three operators: every grouping of three binary operators, and a unary operator between two binary ones.
pub fn e9() {
    let (x, y, z, w) = (var("x"), var("y"), var("z"), var("w"));
    let e = match sym::choice(6) {
        0 => bin(sym::pick(&REP9), bin(sym::pick(&REP9), x, y), bin(sym::pick(&REP9), z, w)),
        1 => bin(sym::pick(&REP9), bin(sym::pick(&REP9), bin(sym::pick(&REP9), x, y), z), w),
        2 => bin(sym::pick(&REP9), x, bin(sym::pick(&REP9), y, bin(sym::pick(&REP9), z, w))),
        3 => bin(sym::pick(&REP9), x, bin(sym::pick(&REP9), bin(sym::pick(&REP9), y, z), w)),
        4 => bin(sym::pick(&REP9), un(sym::pick(&UN), bin(anyop(), x, y)), z),
        _ => bin(sym::pick(&REP9), x, un(sym::pick(&UN), bin(anyop(), y, z))),
    };
    let wd = width(&e);
    compare(Case {
        ret: T::I32,
        params: vec![("x", T::I32), ("y", T::I32), ("z", T::I32), ("w", T::I32)],
        strict: plain(&e),
        body: vec![S::Return(Some(e))],
        narrow: wd,
        fuel: 20,
    });
}
/// Operators with literal operands inside other operators, in the shapes programs use.
pub fn e10() {
    let lit = || k(sym::pick(&[0, 1, 10, -1]));
    let inner = match sym::choice(2) {
        0 => bin(anyop(), var("x"), lit()),
        _ => bin(anyop(), lit(), var("x")),
    };
    let e = match sym::choice(5) {
        0 => bin(sym::pick(&REP), inner, lit()),
        1 => bin(sym::pick(&REP), lit(), inner),
        2 => bin(sym::pick(&REP), inner, var("y")),
        3 => un(sym::pick(&UN), inner),
        _ => bin(sym::pick(&REP), var("y"), inner),
    };
    let wd = width(&e);
    compare(Case {
        ret: T::I32,
        params: vec![("x", T::I32), ("y", T::I32)],
        strict: plain(&e),
        body: vec![S::Return(Some(e))],
        narrow: if wd < 32 { wd + 2 } else { 32 },
        fuel: 20,
    });
}

/// What the leaves of a body do.
#[derive(Clone, Copy, PartialEq)]
enum L {
    Scalar,
    Ptr,
    Struct,
    Array,
    Local,
}
static mut LEAF: L = L::Scalar;
fn leaf(d: usize) -> Option<S> {
    let n = sym::choice(4);
    if n == 3 {
        return None;
    }
    let v = if d > 0 { ["x", "i", "j", "m"][d] } else { "x" };
    let xor = |a: E, b: E| bin(B::BitwiseXor, a, b);
    Some(match unsafe { LEAF } {
        L::Scalar => match n {
            0 => asg("x", xor(var("x"), var("y"))),
            1 => gx(v),
            _ => S::VariableDeclaration { name: "x".into(), var_type: HirType::Int, initializer: Some(bin(B::BitwiseAnd, var("y"), k(12))) },
        },
        L::Ptr => match n {
            0 => pset("p", xor(deref("q"), var(v))),
            1 => asg("x", xor(deref("p"), var("y"))),
            _ => pset("q", var(v)),
        },
        L::Struct => match n {
            0 => S::FieldAssignment { object: var("p"), field: "a".into(), value: xor(pfld("b"), var(v)) },
            1 => asg("x", pfld("a")),
            _ => S::FieldAssignment { object: var("q"), field: "b".into(), value: pfld("a") },
        },
        L::Array => match n {
            0 => aset("a", k(1), xor(arr("a", k(0)), var(v))),
            1 => asg("x", arr("a", bin(B::Subtract, var("len"), k(2)))),
            _ => S::Expression(call(arr("a", k(1)))),
        },
        L::Local => match n {
            0 => aset("a", k(1), xor(arr("a", k(0)), var(v))),
            1 => S::FieldAssignment { object: var("q"), field: "a".into(), value: arr("a", k(1)) },
            _ => asg("x", xor(fld("a"), var("y"))),
        },
    })
}
/// A block of `n` statements in all; `d` loops around it, `sw`: directly in a switch.
fn block(n: usize, d: usize, nest: usize, sw: bool) -> Vec<S> {
    let mut b = vec![];
    let mut left = n;
    while left > 0 {
        let s = if nest == 0 || left == 1 { 1 } else { 1 + sym::choice(left) };
        left -= s;
        if s == 1 {
            match leaf(d) {
                Some(l) => b.push(l),
                None => {
                    // a jump ends the block
                    sym::assume(left == 0);
                    b.push(match sym::choice(if d > 0 && !sw { 3 } else { 1 }) {
                        0 => S::Return(Some(bin(B::BitwiseOr, var("x"), k(2)))),
                        1 => S::Break,
                        _ => S::Continue,
                    });
                }
            }
            continue;
        }
        let m = s - 1;
        let c = bin(B::LessThan, var("x"), var("y"));
        let i = ["i", "j", "m", "o"][d];
        let init = S::VariableDeclaration { name: i.into(), var_type: HirType::Int, initializer: Some(k(0)) };
        let lt = bin(B::LessThan, var(i), k(2));
        match sym::choice(if m > 1 { 5 } else { 3 }) {
            0 => b.push(S::If { condition: c, then_block: block(m, d, nest - 1, sw), else_block: None }),
            1 => {
                b.push(init);
                let mut body = vec![counter(i)];
                body.extend(block(m, d + 1, nest - 1, false));
                b.push(S::While { condition: lt, body });
            }
            2 => b.push(S::For { init: vec![init], condition: Some(lt), increment: vec![counter(i)], body: block(m, d + 1, nest - 1, false) }),
            3 => {
                let a = 1 + sym::choice(m - 1);
                b.push(S::If { condition: c, then_block: block(a, d, nest - 1, sw), else_block: Some(block(m - a, d, nest - 1, sw)) });
            }
            _ => {
                let a = 1 + sym::choice(m - 1);
                let mut one = block(a, d, nest - 1, true);
                if !matches!(one.last(), Some(S::Return(_))) {
                    one.push(S::Break);
                }
                let cases = vec![SwitchCase { value: Some(k(3)), body: one }];
                b.push(S::Switch { condition: var("x"), cases, default_case: Some(block(m - a, d, nest - 1, true)) });
            }
        }
    }
    b
}
/// Every body of up to `n` statements of these kinds, in every nesting.
fn bodies(n: usize) {
    let b = block(n, 0, 3, false);
    fin(b, 90);
}
pub fn s6() {
    bodies(4)
}
pub fn s6t() {
    bodies(5)
}
/// The same with accesses to memory.
fn membodies(n: usize, l: L) {
    unsafe { LEAF = l }
    let mut b = vec![];
    if matches!(l, L::Struct | L::Local) {
        b.push(S::VariableDeclaration { name: "q".into(), var_type: pty(), initializer: Some(E::CompoundLiteral { literal_type: pty(), initializers: vec![k(3), var("y")] }) });
    }
    if l == L::Local {
        let aty = HirType::Array { element_type: Box::new(HirType::Int), size: Some(3) };
        b.push(S::VariableDeclaration { name: "a".into(), var_type: aty.clone(), initializer: Some(E::CompoundLiteral { literal_type: aty, initializers: vec![var("x"), k(4), var("y")] }) });
    }
    b.extend(block(n, 0, 3, false));
    b.push(S::Return(Some(match l {
        L::Struct | L::Local => bin(B::BitwiseXor, fld("a"), bin(B::BitwiseOr, var("x"), fld("b"))),
        _ => var("x"),
    })));
    compare_mem(
        Case { fuel: 90, ..case(b) },
        match l {
            L::Scalar | L::Local => &[],
            L::Ptr => &[("p", M::Cell), ("q", M::Cell)],
            L::Struct => &[("p", M::Struct)],
            L::Array => &[("a", M::Array), ("len", M::Len)],
        },
    );
}
pub fn d5() {
    membodies(4, L::Ptr)
}
pub fn d6() {
    membodies(4, L::Struct)
}
pub fn d7() {
    membodies(4, L::Array)
}
pub fn d8() {
    membodies(4, L::Local)
}
pub fn d5t() {
    membodies(5, sym::pick(&[L::Ptr, L::Struct, L::Array, L::Local]))
}
/// A loop variable that has the name of an outer variable, and several loops with one name.
pub fn s7() {
    let n = sym::pick(&["x", "y", "i"]);
    let lp = |n: &str, top: i32| S::For {
        init: vec![S::VariableDeclaration { name: n.into(), var_type: HirType::Int, initializer: Some(k(0)) }],
        condition: Some(bin(B::LessThan, var(n), k(top))),
        increment: vec![counter(n)],
        body: match sym::choice(3) {
            0 => vec![gx(n)],
            1 => vec![S::If { condition: bin(B::Equal, var(n), k(1)), then_block: vec![S::Continue], else_block: None }, gx("y")],
            _ => vec![S::VariableDeclaration { name: "y".into(), var_type: HirType::Int, initializer: Some(k(7)) }, gx("y")],
        },
    };
    let mut b = vec![];
    if sym::choice(2) == 1 {
        b.push(S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(k(44)) });
    } else {
        sym::assume(n != "i");
    }
    match sym::choice(3) {
        0 => b.push(lp(n, 2)),
        1 => b.extend([lp(n, 2), lp(n, 3)]),
        _ => b.push(S::If { condition: bin(B::LessThan, var("x"), var("y")), then_block: vec![lp(n, 2), gx(n)], else_block: Some(vec![lp("x", 1)]) }),
    }
    b.push(gx(n));
    fin(b, 60);
}
