//! Optimizer: the optimised function means what the original meant.
use crate::cref::*;
use crate::sym;
use crate::shape::*;
use decy_hir::*;
use BinaryOperator as B;
use HirExpression as E;
use HirStatement as S;

pub const OPS: [B; 18] = [
    B::Add, B::Subtract, B::Multiply, B::Divide, B::Modulo, B::Equal, B::NotEqual, B::LessThan, B::GreaterThan,
    B::LessEqual, B::GreaterEqual, B::LogicalAnd, B::LogicalOr, B::LeftShift, B::RightShift, B::BitwiseAnd,
    B::BitwiseOr, B::BitwiseXor,
];
/// Literals: full 32-bit range, or a 6-bit signed range where products and quotients of symbolic values nest.
static mut NARROW: u32 = 0;
fn value() -> i32 {
    let n = unsafe { NARROW };
    if n > 0 {
        ((sym::int(n) as i32) << (32 - n)) >> (32 - n)
    } else {
        sym::i32()
    }
}
fn lit() -> E {
    E::IntLiteral(if unsafe { NARROW } == 8 { sym::pick(&[-7, 0, 3, i32::MIN]) } else { value() })
}
const LINEAR: [B; 15] = [
    B::Add, B::Subtract, B::Equal, B::NotEqual, B::LessThan, B::GreaterThan, B::LessEqual, B::GreaterEqual,
    B::LogicalAnd, B::LogicalOr, B::LeftShift, B::RightShift, B::BitwiseAnd, B::BitwiseOr, B::BitwiseXor,
];
const NONLIN: [B; 3] = [B::Multiply, B::Divide, B::Modulo];
fn var(n: &str) -> E {
    E::Variable(n.to_string())
}
fn bin(op: B, l: E, r: E) -> E {
    E::BinaryOp { op, left: Box::new(l), right: Box::new(r) }
}
fn un(op: UnaryOperator, e: E) -> E {
    E::UnaryOp { op, operand: Box::new(e) }
}
const UN: [UnaryOperator; 3] = [UnaryOperator::Minus, UnaryOperator::LogicalNot, UnaryOperator::BitwiseNot];
fn leaf() -> E {
    if sym::choice(2) == 0 {
        lit()
    } else {
        var("x")
    }
}
fn call(a: E) -> E {
    E::FunctionCall { function: "g".into(), arguments: vec![a] }
}
fn sub(ops: &[B]) -> E {
    match sym::choice(5) {
        0 => lit(),
        1 => var("x"),
        2 => {
            let op = sym::pick(ops);
            bin(op, lit(), leaf())
        }
        3 => {
            let op = sym::pick(&UN);
            un(op, leaf())
        }
        _ => E::FunctionCall { function: "g".into(), arguments: vec![bin(B::Add, lit(), lit())] },
    }
}

fn run(f: &HirFunction, x: i64, y: i64, rt: T, fuel: u32) -> (R<Option<V>>, Vec<(String, Vec<i64>)>) {
    let mut c = C::new(fuel);
    c.bind("x", ival(x));
    c.bind("y", ival(y));
    let r = c.run(f.body(), rt);
    (r, c.calls)
}

fn compare(body: Vec<S>, rt: T) {
    let f = HirFunction::new_with_body(
        "f".into(),
        hty(rt),
        vec![
            HirParameter::new("x".into(), HirType::Int),
            HirParameter::new("y".into(), HirType::Int),
        ],
        body,
    );
    sym::tag(&shape(f.body()));
    let o = decy_core::optimize::optimize_function(&f);
    let (x, y) = (value() as i64, value() as i64);
    let (r1, c1) = run(&f, x, y, rt, 24);
    let r1 = match r1 {
        Ok(v) => v,
        Err(_) => return, // out of the fragment (loop bound)
    };
    let (r2, c2) = run(&o, x, y, rt, 24);
    sym::reach(1);
    let r2 = match r2 {
        Ok(v) => v,
        Err(_) => {
            sym::check(false, "optimised function does not terminate or is ill-formed");
            return;
        }
    };
    sym::outs(&format!("{}", o.body().len()));
    match (r1, r2) {
        (None, None) => sym::reach(2),
        (Some(a), Some(b)) => {
            sym::reach(3);
            sym::outv(b.v);
            sym::check(a.v == b.v, "optimised function returns a different value");
        }
        _ => sym::check(false, "optimised function returns where the original does not (or vice versa)"),
    }
    sym::check(c1.len() == c2.len(), "optimised function performs a different number of calls");
    for (a, b) in c1.iter().zip(&c2) {
        sym::check(a.0 == b.0 && a.1.len() == b.1.len(), "optimised function calls something else");
        for (p, q) in a.1.iter().zip(&b.1) {
            sym::check(p == q, "optimised function passes a different argument");
        }
    }
    sym::check(o.name() == f.name() && o.return_type() == f.return_type() && o.parameters() == f.parameters(),
        "optimised function has a different signature");
}

/// return <expr>: operators over operand shapes of depth <= 2.
pub fn expr() {
    let e = match sym::choice(9) {
        0 => match sym::choice(3) {
            0 => bin(sym::pick(&LINEAR), leaf(), leaf()),
            1 => {
                // products and quotients of two symbolic values: 10-bit operands
                unsafe { NARROW = 10 }
                bin(sym::pick(&NONLIN), leaf(), leaf())
            }
            _ => {
                // ... and of one boundary literal and one full-range value
                let k = E::IntLiteral(sym::pick(&[i32::MIN, i32::MAX, -1, 0, 1, 2, 8, -4, 65536]));
                let op = sym::pick(&OPS);
                let o = if sym::choice(3) == 0 { call(var("x")) } else { leaf() };
                if sym::choice(2) == 0 {
                    bin(op, k, o)
                } else {
                    bin(op, o, k)
                }
            }
        },
        1 => {
            // depth 2, full 32-bit values
            let op = sym::pick(&LINEAR);
            let l = sub(&LINEAR);
            let r = sub(&[B::Subtract, B::RightShift, B::LessThan, B::LogicalOr]);
            bin(op, l, r)
        }
        2 => {
            // depth 2 with products and quotients: literals from a boundary set, 8-bit variables
            unsafe { NARROW = 8 }
            let op = sym::pick(&[B::Add, B::Multiply, B::Divide, B::Modulo, B::LessThan, B::LogicalAnd]);
            let l = if sym::choice(2) == 0 { leaf() } else { bin(sym::pick(&NONLIN), lit(), leaf()) };
            let r = match sym::choice(3) {
                0 => leaf(),
                1 => bin(sym::pick(&[B::Multiply, B::Divide, B::Subtract]), leaf(), lit()),
                _ => un(UnaryOperator::Minus, lit()),
            };
            bin(op, l, r)
        }
        3 => un(sym::pick(&UN), sub(&LINEAR)),
        4 => {
            // chains (a op k) op k and k op (a op k), also with a call operand
            let (p, q) = (sym::pick(&LINEAR), sym::pick(&LINEAR));
            let a = || if sym::choice(2) == 0 { var("x") } else { call(var("x")) };
            match sym::choice(3) {
                0 => bin(p, bin(q, a(), lit()), lit()),
                1 => bin(p, lit(), bin(q, a(), lit())),
                _ => bin(p, bin(q, lit(), a()), lit()),
            }
        }
        5 => {
            // the same chains with products and quotients
            unsafe { NARROW = 8 }
            let ops = [B::Multiply, B::Divide, B::Modulo, B::Add, B::LeftShift];
            let (p, q) = (sym::pick(&ops), sym::pick(&ops));
            match sym::choice(2) {
                0 => bin(p, bin(q, var("x"), lit()), lit()),
                _ => bin(p, lit(), bin(q, var("x"), lit())),
            }
        }
        6 => {
            // repeated unary operators and operators on equal operands
            match sym::choice(2) {
                0 => un(sym::pick(&UN), un(sym::pick(&UN), leaf())),
                _ => {
                    let a = || if sym::choice(2) == 0 { var("x") } else { call(var("x")) };
                    bin(sym::pick(&LINEAR), a(), un(sym::pick(&UN), a()))
                }
            }
        }
        7 => {
            let ops = [B::Add, B::Subtract, B::LessThan, B::LogicalAnd];
            let t = bin(sym::pick(&ops), lit(), leaf());
            let u = bin(sym::pick(&ops), leaf(), lit());
            match sym::choice(2) {
                0 => E::Ternary { condition: Box::new(cond()), then_expr: Box::new(t), else_expr: Box::new(u) },
                _ => E::Cast { target_type: hty(sym::pick(&[T::I8, T::U32, T::Bool])), expr: Box::new(bin(sym::pick(&LINEAR), t, lit())) },
            }
        }
        _ => E::FunctionCall { function: "g".into(), arguments: vec![bin(sym::pick(&LINEAR), lit(), lit()), var("x")] },
    };
    let rt = sym::pick(&[T::I32, T::I8]);
    compare(vec![S::Return(Some(e))], rt);
}

fn cond() -> E {
    match sym::choice(4) {
        0 => lit(),
        1 => var("x"),
        2 => bin(B::Subtract, lit(), lit()),
        _ => bin(B::LessThan, var("x"), lit()),
    }
}
fn simple(depth: u32) -> S {
    match sym::choice(5) {
        0 => S::Assignment { target: "x".into(), value: bin(B::BitwiseXor, lit(), var("y")) },
        1 => S::VariableDeclaration {
            name: sym::pick(&["t", "x"]).into(),
            var_type: hty(sym::pick(&[T::I32, T::I8])),
            initializer: Some(bin(B::BitwiseAnd, var("y"), lit())),
        },
        2 => S::Return(Some(var(if depth > 0 { "y" } else { "x" }))),
        3 => S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("x")] }),
        _ => S::Return(Some(bin(B::BitwiseOr, lit(), lit()))),
    }
}
fn compound() -> S {
    match sym::choice(4) {
        0 => S::If { condition: cond(), then_block: vec![simple(1)], else_block: None },
        1 => S::If { condition: cond(), then_block: vec![simple(1)], else_block: Some(vec![simple(1)]) },
        2 => S::While {
            condition: cond(),
            body: match sym::choice(3) {
                0 => vec![simple(1), S::Break],
                1 => vec![
                    S::If { condition: cond(), then_block: vec![S::Break], else_block: Some(vec![S::Return(Some(var("y")))]) },
                ],
                _ => vec![S::Assignment { target: "x".into(), value: bin(B::BitwiseAnd, lit(), lit()) }, simple(1), S::Break],
            },
        },
        _ => S::For {
            init: vec![S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(bin(B::Multiply, E::IntLiteral(0), lit())) }],
            condition: Some(bin(B::LessThan, var("i"), bin(B::Subtract, E::IntLiteral(5), E::IntLiteral(3)))),
            increment: vec![S::Assignment { target: "i".into(), value: bin(B::Add, var("i"), E::IntLiteral(1)) }],
            body: vec![match sym::choice(3) {
                0 => simple(1),
                1 => S::If { condition: cond(), then_block: vec![S::Continue], else_block: None },
                _ => S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("i")] }),
            }],
        },
    }
}
/// Bodies of up to three statements with branches, loops, declarations and shadowing.
pub fn stmt() {
    let mut body = vec![];
    match sym::choice(4) {
        0 => {
            body.push(compound());
            body.push(S::Return(Some(var("x"))));
        }
        1 => {
            body.push(simple(0));
            body.push(compound());
            body.push(S::Return(Some(var("x"))));
        }
        2 => {
            let t = sym::pick(&[T::I32, T::I8, T::U32, T::Bool]);
            body.push(S::VariableDeclaration { name: "t".into(), var_type: hty(t), initializer: Some(sub(&[B::Add, B::RightShift, B::Divide, B::LessThan])) });
            body.push(S::Return(Some(var("t"))));
            if sym::choice(2) == 1 {
                body.push(S::Return(Some(var("x"))));
            }
        }
        _ => {
            body.push(S::If { condition: cond(), then_block: vec![compound()], else_block: None });
            body.push(S::Return(Some(var("x"))));
        }
    }
    compare(body, T::I32);
}
/// Vacuity witness: the harness can reach its assertions.
pub fn vac() {
    let f = HirFunction::new_with_body("f".into(), HirType::Int, vec![], vec![S::Return(Some(bin(B::Add, lit(), lit())))]);
    let o = decy_core::optimize::optimize_function(&f);
    if let (Ok(Some(a)), _) = run(&o, 0, 0, T::I32, 9) {
        sym::check(a.v != 12345, "vacuity witness");
    }
}
