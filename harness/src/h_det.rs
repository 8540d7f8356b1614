//! Determinism (C16): whatever order hash maps iterate in, the same input gives the same text.
use crate::sym;
use decy_core::metrics::*;
use decy_parser::parser as a;
use a::Expression as X;
use a::Statement as St;

fn v(n: &str) -> X {
    X::Variable(n.into())
}
fn b(e: X) -> Box<X> {
    Box::new(e)
}
fn bin(op: a::BinaryOperator, l: X, r: X) -> X {
    X::BinaryOp { op, left: b(l), right: b(r) }
}
fn deref(n: &str) -> X {
    X::Dereference(b(v(n)))
}
fn at(n: &str, i: X) -> X {
    X::ArrayIndex { array: b(v(n)), index: b(i) }
}
fn int() -> a::Type {
    a::Type::Int
}
fn ptr(t: a::Type) -> a::Type {
    a::Type::Pointer(Box::new(t))
}
fn par(n: &str, t: a::Type) -> a::Parameter {
    a::Parameter::new(n.into(), t)
}
fn decl(n: &str, t: a::Type, i: Option<X>) -> St {
    St::VariableDeclaration { name: n.into(), var_type: t, initializer: i }
}
fn ret(e: X) -> St {
    St::Return(Some(e))
}
fn call(f: &str, args: Vec<X>) -> X {
    X::FunctionCall { function: f.into(), arguments: args }
}
fn addr(n: &str) -> X {
    X::UnaryOp { op: a::UnaryOperator::AddressOf, operand: b(v(n)) }
}
pub const KINDS: usize = 12;
/// One function of a kind; the names are not in alphabetical order of the kinds.
fn function(k: usize) -> a::Function {
    use a::BinaryOperator::*;
    let f = |n: &str, r: a::Type, p: Vec<a::Parameter>, s: Vec<St>| a::Function::new_with_body(n.into(), r, p, s);
    match k {
        0 => f("zeta", int(), vec![par("p", ptr(int()))], vec![ret(deref("p"))]),
        1 => f("beta", int(), vec![par("x", ptr(int())), par("y", ptr(int()))], vec![
            St::DerefAssignment { target: v("x"), value: deref("y") },
            ret(deref("x")),
        ]),
        2 => f("alpha", int(), vec![par("a", ptr(int())), par("n", int()), par("q", ptr(int())), par("len", int())], vec![
            decl("s", int(), Some(X::IntLiteral(0))),
            St::For {
                init: vec![decl("i", int(), Some(X::IntLiteral(0)))],
                condition: Some(bin(LessThan, v("i"), v("n"))),
                increment: vec![St::Assignment { target: "i".into(), value: bin(Add, v("i"), X::IntLiteral(1)) }],
                body: vec![St::Assignment { target: "s".into(), value: bin(Add, at("a", v("i")), at("q", v("len"))) }],
            },
            ret(v("s")),
        ]),
        3 => f("pick", ptr(int()), vec![par("u", ptr(int())), par("w", ptr(int()))], vec![
            St::If { condition: bin(GreaterThan, deref("u"), X::IntLiteral(0)), then_block: vec![ret(v("u"))], else_block: None },
            ret(v("w")),
        ]),
        4 => f("main", int(), vec![], vec![
            decl("m", int(), Some(X::IntLiteral(1))),
            decl("n", int(), Some(X::IntLiteral(2))),
            St::FunctionCall { function: "beta".into(), arguments: vec![addr("m"), addr("n")] },
            ret(call("zeta", vec![addr("m")])),
        ]),
        5 => f("scan", int(), vec![par("s", ptr(a::Type::Char)), par("t", ptr(a::Type::Char))], vec![
            decl("c", int(), Some(X::IntLiteral(0))),
            St::While {
                condition: deref("s"),
                body: vec![
                    St::Assignment { target: "s".into(), value: bin(Add, v("s"), X::IntLiteral(1)) },
                    St::Assignment { target: "c".into(), value: bin(Add, v("c"), X::IntLiteral(1)) },
                ],
            },
            ret(bin(Add, v("c"), deref("t"))),
        ]),
        6 => f("heap", int(), vec![], vec![
            decl("h1", ptr(int()), Some(call("malloc", vec![X::Sizeof { type_name: "int".into() }]))),
            decl("h2", ptr(int()), Some(call("malloc", vec![X::Sizeof { type_name: "int".into() }]))),
            St::DerefAssignment { target: v("h1"), value: X::IntLiteral(3) },
            St::DerefAssignment { target: v("h2"), value: deref("h1") },
            decl("r", int(), Some(deref("h2"))),
            St::FunctionCall { function: "free".into(), arguments: vec![v("h1")] },
            St::FunctionCall { function: "free".into(), arguments: vec![v("h2")] },
            ret(v("r")),
        ]),
        7 => f("globl", int(), vec![par("y", int())], vec![
            St::Assignment { target: "counter".into(), value: bin(Add, v("counter"), v("y")) },
            ret(bin(Add, v("counter"), v("limit"))),
        ]),
        8 => f("fields", int(), vec![par("o", ptr(a::Type::Struct("P".into()))), par("k", ptr(a::Type::Struct("P".into())))], vec![
            St::FieldAssignment { object: v("o"), field: "a".into(), value: X::PointerFieldAccess { pointer: b(v("k")), field: "b".into() } },
            ret(X::PointerFieldAccess { pointer: b(v("o")), field: "a".into() }),
        ]),
        // names that differ only in case, or of which one starts with the other
        9 => f("Zeta", int(), vec![par("p", ptr(int()))], vec![ret(bin(Add, deref("p"), X::IntLiteral(1)))]),
        10 => f("zeta_2", int(), vec![par("x", int())], vec![ret(bin(Add, v("x"), X::IntLiteral(1)))]),
        _ => f("outp", int(), vec![par("src", int()), par("out", ptr(int())), par("result", ptr(int()))], vec![
            St::DerefAssignment { target: v("out"), value: v("src") },
            St::DerefAssignment { target: v("result"), value: bin(Multiply, v("src"), X::IntLiteral(2)) },
            ret(X::IntLiteral(0)),
        ]),
    }
}
fn program(fs: &[usize], proto: bool) -> a::Ast {
    let mut ast = a::Ast::new();
    for n in ["P", "Q", "P"] {
        ast.add_struct(a::Struct::new(
            n.into(),
            vec![a::StructField::new("a".into(), int()), a::StructField::new("b".into(), int())],
        ));
    }
    for n in ["limit", "counter", "limit"] {
        ast.add_variable(a::Variable::new(n.into(), int()));
    }
    for &k in fs {
        let f = function(k);
        if proto {
            ast.add_function(a::Function::new(f.name.clone(), f.return_type.clone(), f.parameters.clone()));
        }
        ast.add_function(f);
    }
    ast
}
fn run(route: usize, ast: a::Ast) -> String {
    a::verif::install(ast);
    let r = match route {
        0 => decy_core::transpile_with_includes("f", None),
        1 => decy_core::transpile_from_file_path(std::path::Path::new("d/in.c")),
        2 => decy_core::transpile_with_box_transform("f"),
        _ => decy_core::transpile_file(std::path::Path::new("d/in.c"), &decy_core::ProjectContext::new())
            .map(|t| format!("{}\n{:?}\n{}", t.rust_code, t.functions_exported, t.ffi_declarations)),
    };
    r.unwrap_or_else(|e| format!("error {}", e))
}
fn same(route: usize, fs: &[usize], proto: bool) {
    let names: Vec<String> = fs.iter().map(|&k| function(k).name).collect();
    sym::tag(&format!("route {} {:?}{}", route, names, if proto { " with prototypes" } else { "" }));
    if route % 2 == 1 {
        let _ = std::fs::create_dir_all("d");
        std::fs::write("d/in.c", "int f;\n").expect("scratch file");
    }
    let one = run(route, program(fs, proto));
    sym::check(one.contains("fn "), "determinism: no output");
    sym::any_hash_order(|| {
        let two = run(route, program(fs, proto));
        sym::reach(1);
        sym::check(one == two, "determinism: two runs on the same program give different text");
    });
}
/// Every single function, every route.
pub fn one() {
    let k = sym::choice(KINDS);
    same(sym::choice(4), &[k], false)
}
/// Every pair of functions in either order, with and without prototypes.
pub fn two() {
    let k = sym::choice(KINDS);
    let l = sym::choice(KINDS);
    sym::assume(k != l);
    same(sym::choice(3), &[k, l], sym::choice(2) == 1)
}
/// Three functions that call each other.
pub fn three() {
    let p = sym::pick(&[[4, 1, 0], [0, 1, 4], [1, 4, 0], [7, 8, 1], [6, 11, 2], [3, 5, 8], [9, 10, 0]]);
    same(sym::choice(3), &p, true)
}
/// The text the parser is given, with built-in prototypes.
pub fn text() {
    let src = sym::pick(&[
        "#include <stdio.h>\nint f;\n",
        "#include <stdlib.h>\n#include <string.h>\n#include <stdlib.h>\nint f;\n",
        "#include <string.h>\n#include <stdio.h>\n#include <math.h>\nint f;\n",
        "#include \"x.h\"\n#include \"y.h\"\nint f;\n",
    ]);
    sym::tag(src);
    std::fs::write("x.h", "int x1;\n#include <stdlib.h>\n").expect("scratch file");
    std::fs::write("y.h", "int y1;\n#include \"x.h\"\n").expect("scratch file");
    let go = || {
        a::verif::install(program(&[0], false));
        let _ = decy_core::transpile_with_includes(src, None);
        a::verif::source()
    };
    let one = go();
    sym::check(one.contains("int f;"), "determinism: no text");
    sym::any_hash_order(|| {
        let two = go();
        sym::reach(1);
        sym::check(one == two, "determinism: the parser is given different text for the same source");
    });
}
/// The reports.
pub fn report() {
    let msgs = ["error[E0308]: x", "E0502: y", "E0382 z", "odd"];
    let n: Vec<usize> = (0..4).map(|_| sym::choice(3)).collect();
    sym::tag(&format!("{:?}", n));
    let go = || {
        let mut m = CompileMetrics::new();
        m.record_success();
        for i in 0..4 {
            for _ in 0..n[i] {
                m.record_failure(msgs[i]);
            }
        }
        (m.to_markdown(), m.to_json())
    };
    let one = go();
    sym::any_hash_order(|| {
        let two = go();
        sym::reach(1);
        sym::check(one.0 == two.0, "determinism: the metrics report differs between runs");
        sym::check(one.1 == two.1, "determinism: the metrics JSON differs between runs");
    });
}
