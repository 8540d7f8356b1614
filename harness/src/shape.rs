//! Short printable form of a HIR body, used as the label of a path.
use decy_hir::*;
use BinaryOperator as B;
use HirExpression as E;
use HirStatement as S;
/// Literals are concrete in this harness: print them.
pub static mut CONCRETE: bool = false;

fn esh(e: &E, s: &mut String) {
    match e {
        E::IntLiteral(v) => {
            if unsafe { CONCRETE } {
                s.push_str(&v.to_string())
            } else {
                s.push('k')
            }
        }
        E::Variable(n) => s.push_str(n),
        E::StringLiteral(t) => {
            s.push('"');
            s.push_str(t);
            s.push('"');
        }
        E::BinaryOp { op, left, right } => {
            s.push('(');
            esh(left, s);
            s.push_str(opname(*op));
            esh(right, s);
            s.push(')');
        }
        E::UnaryOp { op, operand } => {
            s.push_str(match op {
                UnaryOperator::Minus => "-",
                UnaryOperator::LogicalNot => "!",
                UnaryOperator::BitwiseNot => "~",
                _ => "?",
            });
            esh(operand, s);
        }
        E::FunctionCall { function, arguments } => {
            s.push_str(function);
            s.push('(');
            for a in arguments {
                esh(a, s);
            }
            s.push(')');
        }
        E::Ternary { condition, then_expr, else_expr } => {
            s.push('(');
            esh(condition, s);
            s.push('?');
            esh(then_expr, s);
            s.push(':');
            esh(else_expr, s);
            s.push(')');
        }
        E::CharLiteral(c) => {
            s.push('c');
            s.push_str(&c.to_string());
        }
        E::PostIncrement { operand } => {
            esh(operand, s);
            s.push_str("++");
        }
        E::PostDecrement { operand } => {
            esh(operand, s);
            s.push_str("--");
        }
        E::PreIncrement { operand } => {
            s.push_str("++");
            esh(operand, s);
        }
        E::PreDecrement { operand } => {
            s.push_str("--");
            esh(operand, s);
        }
        E::Cast { target_type, expr } => {
            s.push('(');
            s.push_str(tn(target_type));
            s.push(')');
            esh(expr, s);
        }
        E::ArrayIndex { array, index } => {
            esh(array, s);
            s.push('[');
            esh(index, s);
            s.push(']');
        }
        E::CompoundLiteral { initializers, .. } => {
            s.push('{');
            for i in initializers {
                esh(i, s);
                s.push(',');
            }
            s.push('}');
        }
        E::FieldAccess { object, field } => {
            esh(object, s);
            s.push('.');
            s.push_str(field);
        }
        E::PointerFieldAccess { pointer, field } => {
            esh(pointer, s);
            s.push_str("->");
            s.push_str(field);
        }
        E::Dereference(p) => {
            s.push('*');
            esh(p, s);
        }
        E::AddressOf(p) => {
            s.push('&');
            esh(p, s);
        }
        _ => s.push('?'),
    }
}
pub fn opname(op: B) -> &'static str {
    match op {
        B::Add => "+",
        B::Subtract => "-",
        B::Multiply => "*",
        B::Divide => "/",
        B::Modulo => "%",
        B::Equal => "==",
        B::NotEqual => "!=",
        B::LessThan => "<",
        B::GreaterThan => ">",
        B::LessEqual => "<=",
        B::GreaterEqual => ">=",
        B::LogicalAnd => "&&",
        B::LogicalOr => "||",
        B::LeftShift => "<<",
        B::RightShift => ">>",
        B::BitwiseAnd => "&",
        B::BitwiseOr => "|",
        B::BitwiseXor => "^",
        B::Assign => "=",
        B::Comma => ",",
    }
}
fn tn(t: &HirType) -> &'static str {
    match t {
        HirType::Int => "int ",
        HirType::UnsignedInt => "unsigned ",
        HirType::SignedChar => "schar ",
        HirType::Char => "char ",
        HirType::Bool => "bool ",
        _ => "? ",
    }
}
fn ssh(b: &[S], o: &mut String) {
    for s in b {
        match s {
            S::Return(Some(e)) => {
                o.push_str("return ");
                esh(e, o);
            }
            S::Return(None) => o.push_str("return"),
            S::VariableDeclaration { name, var_type, initializer } => {
                o.push_str(tn(var_type));
                o.push_str(name);
                if let Some(e) = initializer {
                    o.push('=');
                    esh(e, o);
                }
            }
            S::Assignment { target, value } => {
                o.push_str(target);
                o.push('=');
                esh(value, o);
            }
            S::If { condition, then_block, else_block } => {
                o.push_str("if ");
                esh(condition, o);
                o.push('{');
                ssh(then_block, o);
                o.push('}');
                if let Some(e) = else_block {
                    o.push_str("else{");
                    ssh(e, o);
                    o.push('}');
                }
            }
            S::While { condition, body } => {
                o.push_str("while ");
                esh(condition, o);
                o.push('{');
                ssh(body, o);
                o.push('}');
            }
            S::For { init, condition, increment, body } => {
                o.push_str("for(");
                ssh(init, o);
                if let Some(e) = condition {
                    esh(e, o);
                }
                o.push(';');
                ssh(increment, o);
                o.push_str("){");
                ssh(body, o);
                o.push('}');
            }
            S::Expression(e) => esh(e, o),
            S::Break => o.push_str("break"),
            S::Continue => o.push_str("continue"),
            S::Switch { condition, cases, default_case } => {
                o.push_str("switch ");
                esh(condition, o);
                o.push('{');
                for c in cases {
                    o.push_str("case ");
                    if let Some(e) = &c.value {
                        esh(e, o);
                    }
                    o.push(':');
                    ssh(&c.body, o);
                }
                if let Some(d) = default_case {
                    o.push_str("default:");
                    ssh(d, o);
                }
                o.push('}');
            }
            S::ArrayIndexAssignment { array, index, value } => {
                esh(array, o);
                o.push('[');
                esh(index, o);
                o.push_str("]=");
                esh(value, o);
            }
            S::FieldAssignment { object, field, value } => {
                esh(object, o);
                o.push('.');
                o.push_str(field);
                o.push('=');
                esh(value, o);
            }
            S::DerefAssignment { target, value } => {
                o.push('*');
                esh(target, o);
                o.push('=');
                esh(value, o);
            }
            _ => o.push('?'),
        }
        o.push(';');
    }
}
pub fn shape(b: &[S]) -> String {
    let mut o = String::new();
    ssh(b, &mut o);
    o
}

