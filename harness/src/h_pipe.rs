//! The whole pipeline behind the parser: an AST (handed to the parser through the decy_verif hook) goes through
//! lowering, ownership and borrow transformation, optimisation and code generation, exactly as `decy transpile` does.
use decy_hir as h;
use decy_parser::parser as a;
use h::HirExpression as E;
use h::HirStatement as S;

pub fn ty(t: &h::HirType) -> a::Type {
    match t {
        h::HirType::Int => a::Type::Int,
        h::HirType::UnsignedInt => a::Type::UnsignedInt,
        h::HirType::Char => a::Type::Char,
        h::HirType::SignedChar => a::Type::SignedChar,
        h::HirType::Bool => a::Type::Bool,
        h::HirType::Void => a::Type::Void,
        h::HirType::Struct(n) => a::Type::Struct(n.clone()),
        h::HirType::Pointer(t) => a::Type::Pointer(Box::new(ty(t))),
        h::HirType::Array { element_type, size } => {
            a::Type::Array { element_type: Box::new(ty(element_type)), size: size.map(|s| s as i64) }
        }
        _ => a::Type::Int,
    }
}
pub fn op(o: h::BinaryOperator) -> a::BinaryOperator {
    use a::BinaryOperator as A;
    use h::BinaryOperator as B;
    match o {
        B::Add => A::Add,
        B::Subtract => A::Subtract,
        B::Multiply => A::Multiply,
        B::Divide => A::Divide,
        B::Modulo => A::Modulo,
        B::Equal => A::Equal,
        B::NotEqual => A::NotEqual,
        B::LessThan => A::LessThan,
        B::GreaterThan => A::GreaterThan,
        B::LessEqual => A::LessEqual,
        B::GreaterEqual => A::GreaterEqual,
        B::LogicalAnd => A::LogicalAnd,
        B::LogicalOr => A::LogicalOr,
        B::LeftShift => A::LeftShift,
        B::RightShift => A::RightShift,
        B::BitwiseAnd => A::BitwiseAnd,
        B::BitwiseOr => A::BitwiseOr,
        B::BitwiseXor => A::BitwiseXor,
        B::Assign => A::Assign,
        B::Comma => A::Comma,
    }
}
pub fn ex(e: &E) -> a::Expression {
    use a::Expression as A;
    let b = |e: &E| Box::new(ex(e));
    match e {
        E::IntLiteral(k) => A::IntLiteral(*k),
        E::CharLiteral(k) => A::CharLiteral(*k),
        E::StringLiteral(s) => A::StringLiteral(s.clone()),
        E::Variable(n) => A::Variable(n.clone()),
        E::BinaryOp { op: o, left, right } => A::BinaryOp { op: op(*o), left: b(left), right: b(right) },
        E::UnaryOp { op: o, operand } => match o {
            h::UnaryOperator::Minus => A::UnaryOp { op: a::UnaryOperator::Minus, operand: b(operand) },
            h::UnaryOperator::LogicalNot => A::UnaryOp { op: a::UnaryOperator::LogicalNot, operand: b(operand) },
            h::UnaryOperator::BitwiseNot => A::UnaryOp { op: a::UnaryOperator::BitwiseNot, operand: b(operand) },
            h::UnaryOperator::AddressOf => A::UnaryOp { op: a::UnaryOperator::AddressOf, operand: b(operand) },
            h::UnaryOperator::PostIncrement => A::PostIncrement { operand: b(operand) },
            h::UnaryOperator::PostDecrement => A::PostDecrement { operand: b(operand) },
            h::UnaryOperator::PreIncrement => A::PreIncrement { operand: b(operand) },
            h::UnaryOperator::PreDecrement => A::PreDecrement { operand: b(operand) },
        },
        E::AddressOf(e) => A::UnaryOp { op: a::UnaryOperator::AddressOf, operand: b(e) },
        E::FunctionCall { function, arguments } => {
            A::FunctionCall { function: function.clone(), arguments: arguments.iter().map(ex).collect() }
        }
        E::Dereference(e) => A::Dereference(b(e)),
        E::ArrayIndex { array, index } => A::ArrayIndex { array: b(array), index: b(index) },
        E::FieldAccess { object, field } => A::FieldAccess { object: b(object), field: field.clone() },
        E::PointerFieldAccess { pointer, field } => {
            A::PointerFieldAccess { pointer: b(pointer), field: field.clone() }
        }
        E::PostIncrement { operand } => A::PostIncrement { operand: b(operand) },
        E::PreIncrement { operand } => A::PreIncrement { operand: b(operand) },
        E::PostDecrement { operand } => A::PostDecrement { operand: b(operand) },
        E::PreDecrement { operand } => A::PreDecrement { operand: b(operand) },
        E::Cast { target_type, expr } => A::Cast { target_type: ty(target_type), expr: b(expr) },
        E::CompoundLiteral { literal_type, initializers } => A::CompoundLiteral {
            literal_type: ty(literal_type),
            initializers: initializers.iter().map(ex).collect(),
        },
        E::Ternary { condition, then_expr, else_expr } => {
            A::Ternary { condition: b(condition), then_expr: b(then_expr), else_expr: b(else_expr) }
        }
        _ => A::NullLiteral,
    }
}
/// Spell `x = x op e` as the compound assignment the parser produces for `x op= e`.
pub static mut COMPOUND: bool = false;
fn var(e: &E) -> Option<String> {
    match e {
        E::Variable(n) => Some(n.clone()),
        _ => None,
    }
}
pub fn st(s: &S) -> a::Statement {
    use a::Statement as A;
    match s {
        S::VariableDeclaration { name, var_type, initializer } => A::VariableDeclaration {
            name: name.clone(),
            var_type: ty(var_type),
            initializer: initializer.as_ref().map(ex),
        },
        S::Return(e) => A::Return(e.as_ref().map(ex)),
        S::Assignment { target, value } => {
            if unsafe { COMPOUND } {
                if let E::BinaryOp { op: o, left, right } = value {
                    if var(left).as_deref() == Some(target.as_str()) {
                        return A::CompoundAssignment { target: target.clone(), op: op(*o), value: ex(right) };
                    }
                }
            }
            A::Assignment { target: target.clone(), value: ex(value) }
        }
        S::If { condition, then_block, else_block } => A::If {
            condition: ex(condition),
            then_block: bl(then_block),
            else_block: else_block.as_ref().map(|b| bl(b)),
        },
        S::While { condition, body } => A::While { condition: ex(condition), body: bl(body) },
        S::For { init, condition, increment, body } => A::For {
            init: bl(init),
            condition: condition.as_ref().map(ex),
            increment: bl(increment),
            body: bl(body),
        },
        S::Switch { condition, cases, default_case } => A::Switch {
            condition: ex(condition),
            cases: cases
                .iter()
                .map(|c| a::SwitchCase { value: c.value.as_ref().map(ex), body: bl(&c.body) })
                .collect(),
            default_case: default_case.as_ref().map(|b| bl(b)),
        },
        S::Break => A::Break,
        S::Continue => A::Continue,
        S::DerefAssignment { target, value } => {
            if unsafe { COMPOUND } {
                if let E::BinaryOp { op: o, left, right } = value {
                    let same = match &**left {
                        E::Dereference(p) => **p == *target,
                        l => *l == *target,
                    };
                    if same {
                        return A::DerefCompoundAssignment { target: ex(target), op: op(*o), value: ex(right) };
                    }
                }
            }
            A::DerefAssignment { target: ex(target), value: ex(value) }
        }
        S::ArrayIndexAssignment { array, index, value } => A::ArrayIndexAssignment {
            array: Box::new(ex(array)),
            index: Box::new(ex(index)),
            value: ex(value),
        },
        S::FieldAssignment { object, field, value } => {
            A::FieldAssignment { object: ex(object), field: field.clone(), value: ex(value) }
        }
        S::Expression(e) => match e {
            E::FunctionCall { function, arguments } => {
                A::FunctionCall { function: function.clone(), arguments: arguments.iter().map(ex).collect() }
            }
            E::PostIncrement { operand } if var(operand).is_some() => {
                A::PostIncrement { target: var(operand).unwrap() }
            }
            E::PreIncrement { operand } if var(operand).is_some() => A::PreIncrement { target: var(operand).unwrap() },
            E::PostDecrement { operand } if var(operand).is_some() => {
                A::PostDecrement { target: var(operand).unwrap() }
            }
            E::PreDecrement { operand } if var(operand).is_some() => A::PreDecrement { target: var(operand).unwrap() },
            E::PostIncrement { operand } => A::DerefCompoundAssignment {
                target: ex(operand),
                op: a::BinaryOperator::Add,
                value: a::Expression::IntLiteral(1),
            },
            _ => A::Break,
        },
        _ => A::Break,
    }
}
fn bl(b: &[S]) -> Vec<a::Statement> {
    b.iter().map(st).collect()
}
pub fn func(f: &h::HirFunction) -> a::Function {
    a::Function::new_with_body(
        f.name().to_string(),
        ty(f.return_type()),
        f.parameters().iter().map(|p| a::Parameter::new(p.name().to_string(), ty(p.param_type()))).collect(),
        bl(f.body()),
    )
}
/// What `decy transpile` prints for the program, from the first function on.
pub fn transpile(ast: a::Ast) -> Option<String> {
    a::verif::install(ast);
    match decy_core::transpile_with_includes("f", None) {
        Ok(t) => Some(t),
        Err(_) => None,
    }
}
pub fn program(f: &h::HirFunction) -> a::Ast {
    let mut ast = a::Ast::new();
    ast.add_struct(a::Struct::new(
        "P".into(),
        vec![a::StructField::new("a".into(), a::Type::Int), a::StructField::new("b".into(), a::Type::Int)],
    ));
    // g is known to the program by its prototype
    ast.add_function(func(f));
    ast
}
pub fn generate(f: &h::HirFunction) -> String {
    let t = transpile(program(f)).unwrap_or_default();
    match t.find("\nfn ") {
        Some(i) => t[i + 1..].to_string(),
        None => t,
    }
}
