//! Programs of several functions (C23): what the emitted file does when `f` is called equals what the C program does.
use crate::cc;
use crate::cref::*;
use crate::h_cg::{bin, k, un, value, var};
use crate::rsi::{Bad, Mach, Parser, RT, RV};
use crate::sym;
use decy_hir::*;
use decy_parser::parser as a;
use BinaryOperator as B;
use HirExpression as E;
use HirStatement as S;
use UnaryOperator as U;

pub struct Prog {
    pub globals: Vec<(&'static str, HirType, Option<E>)>,
    /// constants of an enum, with explicit values where written
    pub enums: Vec<(&'static str, Option<i64>)>,
    pub helpers: Vec<HirFunction>,
    pub params: Vec<(&'static str, T)>,
    pub body: Vec<S>,
    pub narrow: u32,
}
/// How the definitions are laid out: `f` first, prototypes in front, prototypes behind, prototypes with other names.
static mut LAYOUT: (bool, bool, bool, bool) = (false, false, false, false);
fn prototype(h: &HirFunction, other: bool) -> a::Function {
    let ps = h.parameters().iter().enumerate().map(|(i, p)| {
        let n = if !other { p.name().to_string() } else if i == 0 { String::from("first") } else { String::from("second") };
        a::Parameter::new(n, crate::h_pipe::ty(p.param_type()))
    });
    a::Function::new(h.name().to_string(), crate::h_pipe::ty(h.return_type()), ps.collect())
}
fn call(f: &str, args: Vec<E>) -> E {
    E::FunctionCall { function: f.into(), arguments: args }
}
fn run(e: E) -> S {
    S::Expression(e)
}
fn ret(e: E) -> S {
    S::Return(Some(e))
}
fn set(n: &str, e: E) -> S {
    S::Assignment { target: n.into(), value: e }
}
fn decl(n: &str, e: E) -> S {
    S::VariableDeclaration { name: n.into(), var_type: HirType::Int, initializer: Some(e) }
}
fn iff(c: E, t: Vec<S>, e: Option<Vec<S>>) -> S {
    S::If { condition: c, then_block: t, else_block: e }
}
fn addr(n: &str) -> E {
    E::AddressOf(Box::new(var(n)))
}
fn deref(n: &str) -> E {
    E::Dereference(Box::new(var(n)))
}
fn at(n: &str, i: E) -> E {
    E::ArrayIndex { array: Box::new(var(n)), index: Box::new(i) }
}
fn put(n: &str, i: E, v: E) -> S {
    S::ArrayIndexAssignment { array: Box::new(var(n)), index: Box::new(i), value: v }
}
fn store(n: &str, v: E) -> S {
    S::DerefAssignment { target: var(n), value: v }
}
fn add(a: E, b: E) -> E {
    bin(B::Add, a, b)
}
fn int() -> HirType {
    HirType::Int
}
fn ptr(t: HirType) -> HirType {
    HirType::Pointer(Box::new(t))
}
fn pst() -> HirType {
    HirType::Struct("P".into())
}
fn fun(n: &str, r: HirType, ps: &[(&str, HirType)], b: Vec<S>) -> HirFunction {
    let ps = ps.iter().map(|(n, t)| HirParameter::new(n.to_string(), t.clone())).collect();
    HirFunction::new_with_body(n.into(), r, ps, b)
}
fn each(v: &str, n: E, body: Vec<S>) -> S {
    S::For {
        init: vec![decl(v, k(0))],
        condition: Some(bin(B::LessThan, var(v), n)),
        increment: vec![set(v, add(var(v), k(1)))],
        body,
    }
}
fn rv_nums(v: &RV, o: &mut Vec<i64>) {
    match v {
        RV::I(v, _) | RV::Lit(v, _) => o.push(*v),
        RV::B(b) => o.push(*b as i64),
        RV::Arr(v) => v.iter().for_each(|v| rv_nums(v, o)),
        RV::St(_, f) => f.iter().for_each(|v| rv_nums(&v.1, o)),
        _ => {}
    }
}
fn slot_nums(s: &Slot) -> Vec<i64> {
    match s {
        Slot::S(v) => vec![v.v],
        Slot::Arr(v) => v.iter().map(|v| v.v).collect(),
        Slot::St(f) => f.iter().map(|v| v.1.v).collect(),
        Slot::Ptr(_) => vec![],
    }
}
fn bad(e: Bad) {
    match e {
        Bad::Reject(w) => {
            let mut s = String::from("generated text is not valid Rust: ");
            s.push_str(w);
            sym::check(false, &s);
        }
        Bad::Unsup(w) => {
            sym::reach(7);
            if std::option_env!("CG_DEBUG").is_some() {
                let mut s = String::from("outside the interpreter: ");
                s.push_str(w);
                sym::check(false, &s);
            }
        }
        _ => sym::check(false, "generated function leaves a loop that does not exist"),
    }
}
fn name(t: &HirType) -> String {
    match t {
        HirType::Void => "void ".into(),
        HirType::Int => "int ".into(),
        HirType::UnsignedInt => "unsigned ".into(),
        HirType::Char => "char ".into(),
        HirType::Pointer(t) => name(t) + "*",
        HirType::Struct(_) => "P ".into(),
        HirType::Array { element_type, .. } => name(element_type) + "[] ",
        _ => "? ".into(),
    }
}
/// What decy prints for the C text of the program.
fn read(globals: &[(&'static str, HirType, Option<E>)], enums: &[(&'static str, Option<i64>)], helpers: &[HirFunction], f: &HirFunction) -> String {
    let (first, before, after, other) = unsafe { LAYOUT };
    let names: &[&str] = if other { &["first", "second"] } else { &[] };
    let mut t = cc::Tu::new(unsafe { crate::h_fe::STYLE });
    t.prototype("g", 1);
    t.structure();
    if !enums.is_empty() {
        t.enumeration("Kind", enums);
    }
    for (n, ty, i) in globals {
        t.global(n, ty, i);
    }
    // functions are declared before they are called
    if before || first || helpers.len() > 1 {
        helpers.iter().for_each(|h| t.declaration(h, names));
    }
    if first {
        t.function(f);
    }
    helpers.iter().for_each(|h| t.function(h));
    if !first {
        t.function(f);
    }
    if after {
        helpers.iter().for_each(|h| t.declaration(h, names));
    }
    sym::outs(if cc::agrees(&t) { "cursors of libclang" } else { "other cursors" });
    let text = String::from_utf8_lossy(&t.text).into_owned();
    unsafe { cc::UNIT = Some(t) };
    match decy_core::transpile_with_includes(&text, None) {
        Ok(t) => t,
        Err(_) => {
            sym::check(false, "decy refuses the program");
            String::new()
        }
    }
}
macro_rules! front {
    ($($n:ident $m:ident)*) => { $(pub fn $n() { crate::h_fe::styled(); $m() })* };
}
front! { fe_calls calls fe_kinds kinds fe_layout layout fe_ptr pointer fe_ptr2 pointer2 fe_arr array fe_arr2 array2 fe_struct structure fe_glob global fe_glob1 global1 fe_globk global_kinds fe_enum enums fe_names names }
pub fn compare(p: Prog) {
    unsafe { crate::shape::CONCRETE = true }
    let ps = p.params.iter().map(|(n, t)| HirParameter::new(n.to_string(), hty(*t))).collect();
    let f = HirFunction::new_with_body("f".into(), int(), ps, p.body);
    let mut tag = String::new();
    for (n, t, _) in &p.globals {
        tag += &name(t);
        tag += n;
        tag += "; ";
    }
    for h in p.helpers.iter().chain([&f]) {
        tag += &name(h.return_type());
        tag += h.name();
        tag += "(";
        for (i, p) in h.parameters().iter().enumerate() {
            tag += if i > 0 { "," } else { "" };
            tag += &name(p.param_type());
            tag += p.name();
        }
        tag += "){";
        tag += &crate::shape::shape(h.body());
        tag += "} ";
    }
    sym::tag(&tag);
    // the program, as the parser hands it over
    let mut ast = a::Ast::new();
    ast.add_struct(a::Struct::new(
        "P".into(),
        vec![a::StructField::new("a".into(), a::Type::Int), a::StructField::new("b".into(), a::Type::Int)],
    ));
    if !p.enums.is_empty() {
        let v = p.enums.iter().map(|(n, v)| a::EnumVariant::new(n.to_string(), *v)).collect();
        ast.add_enum(a::Enum::new("Kind".into(), v));
    }
    for (n, t, i) in &p.globals {
        ast.add_variable(match i {
            Some(e) => a::Variable::new_with_initializer(n.to_string(), crate::h_pipe::ty(t), crate::h_pipe::ex(e)),
            None => a::Variable::new(n.to_string(), crate::h_pipe::ty(t)),
        });
    }
    let (first, before, after, other) = unsafe { LAYOUT };
    if before {
        p.helpers.iter().for_each(|h| ast.add_function(prototype(h, other)));
    }
    if first {
        ast.add_function(crate::h_pipe::func(&f));
    }
    for h in &p.helpers {
        ast.add_function(crate::h_pipe::func(h));
    }
    if !first {
        ast.add_function(crate::h_pipe::func(&f));
    }
    if after {
        p.helpers.iter().for_each(|h| ast.add_function(prototype(h, other)));
    }
    let text = if unsafe { crate::h_fe::FRONT } {
        drop(ast);
        read(&p.globals, &p.enums, &p.helpers, &f)
    } else {
        crate::h_pipe::transpile(ast).unwrap_or_default()
    };
    sym::outs(&text);
    let mut prog = match Parser::new(&text).and_then(|mut p| p.program()) {
        Ok(p) => p,
        Err(e) => return bad(e),
    };
    // g stands for any function defined elsewhere
    prog.funcs.retain(|f| f.name != "g");
    let fuel = 60;
    let mut m = Mach::new(fuel * 8 + 64);
    let mut r = C::new(fuel);
    if let Err(e) = m.load(&prog) {
        return bad(e);
    }
    let func = match prog.funcs.iter().find(|g| g.name == "f") {
        Some(f) => f.clone(),
        None => return sym::check(false, "the file lacks a function"),
    };
    let mut next = 0;
    for (n, v) in &p.enums {
        next = v.unwrap_or(next);
        r.enums.push((n, next));
        next += 1;
    }
    for (n, t, i) in &p.globals {
        let d = S::VariableDeclaration { name: n.to_string(), var_type: t.clone(), initializer: i.clone() };
        if r.stmt(&d).is_err() {
            return sym::reach(9);
        }
    }
    r.globals = r.vars.len();
    r.base = r.globals;
    r.funcs = p.helpers.iter().map(|h| std::rc::Rc::new(h.clone())).collect();
    for (n, t) in p.params.iter() {
        let i = match func.params.iter().position(|p| p.0 == *n) {
            Some(i) => i,
            None => return sym::check(false, "generated function lacks a parameter"),
        };
        let (a, b) = value(*t, p.narrow);
        r.bind(n, a);
        match crate::rsi::coerce(b, &func.params[i].2) {
            Ok(b) => m.bind(n, b, func.params[i].1),
            Err(e) => return bad(e),
        };
    }
    let want = match r.run(f.body(), T::I32) {
        Ok(Some(v)) => v,
        Ok(None) | Err(Stop::Fuel) => return,
        Err(_) => return sym::reach(9),
    };
    sym::reach(1);
    let got = match m.run(&func) {
        Ok(v) => v,
        Err(Bad::Panic(_)) => return sym::check(false, "generated program panics where the C program does not"),
        Err(Bad::Fuel) => return sym::check(false, "generated program does not terminate where the C program does"),
        Err(e) => return bad(e),
    };
    sym::reach(2);
    match got {
        RV::I(v, RT::I32) => {
            sym::outv(v);
            if unsafe { VAC } {
                sym::check(v != 77, "vacuity witness");
            }
            sym::check(v == want.v, "generated program returns a different value");
        }
        _ => return sym::check(false, "generated program returns no int"),
    }
    for (n, _, _) in &p.globals {
        let i = match r.slot_global(n) {
            Some(i) => i,
            None => continue,
        };
        let want = slot_nums(&r.vars[i].1);
        let mut got = vec![];
        match m.names[..m.globals].iter().find(|x| x.0.trim_start_matches("r#") == *n) {
            Some(x) => rv_nums(&m.mem[x.1], &mut got),
            None => return sym::check(false, "the file lacks a global variable"),
        }
        sym::check(want.len() == got.len(), "a global variable has another shape");
        for (a, b) in want.iter().zip(&got) {
            sym::check(a == b, "generated program leaves a global variable with a different value");
        }
    }
    sym::check(r.calls.len() == m.calls.len(), "generated program performs a different number of calls");
    for (a, b) in r.calls.iter().zip(&m.calls) {
        sym::check(a.0 == b.0 && a.1.len() == b.1.len(), "generated program calls something else");
        for (p, q) in a.1.iter().zip(&b.1) {
            sym::check(p == q, "generated program passes a different argument");
        }
    }
    sym::reach(3);
}
fn case(helpers: Vec<HirFunction>, body: Vec<S>) {
    compare(Prog {
        globals: vec![],
        enums: vec![],
        helpers,
        params: vec![("x", T::I32), ("y", T::I32)],
        body,
        narrow: 32,
    })
}
/// Can it fail at all? The emitted program can return 77.
pub fn vac() {
    unsafe { VAC = true }
    case(vec![fun("h", int(), &[("a", int())], vec![ret(add(var("a"), k(1)))])], vec![ret(call("h", vec![var("x")]))]);
}
static mut VAC: bool = false;
fn ints() -> HirFunction {
    let ab = [("a", int()), ("b", int())];
    match sym::choice(9) {
        0 => fun("h", int(), &ab, vec![ret(bin(B::Subtract, var("a"), var("b")))]),
        1 => fun("h", int(), &ab, vec![set("a", bin(B::BitwiseXor, var("a"), k(9))), ret(bin(B::BitwiseAnd, var("a"), var("b")))]),
        2 => fun("h", int(), &ab, vec![iff(bin(B::LessThan, var("a"), var("b")), vec![ret(var("b"))], None), ret(var("a"))]),
        3 => fun("h", int(), &ab, vec![ret(bin(B::LessThan, var("a"), var("b")))]),
        4 => fun("h", int(), &ab, vec![run(call("g", vec![var("a")])), run(call("g", vec![var("b")])), ret(k(2))]),
        5 => fun("h", int(), &ab, vec![
            // recursion
            iff(bin(B::LessEqual, bin(B::BitwiseAnd, var("a"), k(3)), k(0)), vec![ret(var("b"))], None),
            ret(add(call("h", vec![bin(B::Subtract, bin(B::BitwiseAnd, var("a"), k(3)), k(1)), var("b")]), k(1))),
        ]),
        6 => fun("h", int(), &ab, vec![
            decl("x", var("b")),
            S::While { condition: bin(B::GreaterThan, var("x"), k(100)), body: vec![set("x", bin(B::RightShift, var("x"), k(20)))] },
            ret(bin(B::BitwiseOr, var("x"), var("a"))),
        ]),
        7 => fun("h", int(), &ab, vec![ret(un(U::LogicalNot, var("a")))]),
        _ => fun("h", int(), &ab, vec![S::Switch {
            condition: var("a"),
            cases: vec![
                SwitchCase { value: Some(k(0)), body: vec![ret(k(10))] },
                SwitchCase { value: Some(k(1)), body: vec![ret(var("b"))] },
            ],
            default_case: Some(vec![ret(k(30))]),
        }]),
    }
}
/// Functions of ints: values, order and nesting of calls, recursion, locals that share names with the caller's.
pub fn calls() {
    let h = ints();
    let hh = |a: E, b: E| call("h", vec![a, b]);
    let (x, y) = (|| var("x"), || var("y"));
    let body = match sym::choice(12) {
        0 => vec![ret(hh(x(), y()))],
        1 => vec![ret(hh(y(), x()))],
        2 => vec![decl("r", hh(x(), k(-3))), ret(bin(B::BitwiseXor, var("r"), x()))],
        3 => vec![ret(hh(hh(x(), y()), y()))],
        4 => vec![ret(bin(B::BitwiseOr, hh(x(), k(1)), bin(B::BitwiseXor, hh(y(), k(2)), k(1))))],
        5 => vec![iff(bin(B::GreaterThan, hh(x(), y()), k(3)), vec![ret(k(1))], Some(vec![ret(hh(y(), x()))]))],
        6 => vec![run(hh(x(), y())), set("x", hh(y(), k(5))), ret(x())],
        7 => vec![iff(hh(x(), y()), vec![run(call("g", vec![k(1)]))], None), ret(k(0))],
        8 => vec![ret(bin(B::LogicalAnd, hh(x(), y()), hh(y(), x())))],
        9 => vec![
            decl("i", k(0)),
            decl("a", y()),
            S::While {
                condition: bin(B::LessThan, var("i"), k(2)),
                body: vec![set("a", hh(var("a"), var("i"))), set("i", add(var("i"), k(1)))],
            },
            ret(var("a")),
        ],
        10 => vec![ret(E::Ternary {
            condition: Box::new(bin(B::LessThan, x(), y())),
            then_expr: Box::new(hh(x(), k(2))),
            else_expr: Box::new(hh(k(2), y())),
        })],
        _ => vec![ret(hh(bin(B::BitwiseAnd, x(), k(7)), un(U::BitwiseNot, y())))],
    };
    case(vec![h], body)
}
/// Prototypes, before and after the definitions, and definitions in either order.
pub fn layout() {
    let l = sym::choice(16);
    unsafe { LAYOUT = (l & 1 != 0, l & 2 != 0, l & 4 != 0, l & 8 != 0) }
    let (x, y) = (|| var("x"), || var("y"));
    let ab = [("a", int()), ("b", int())];
    match sym::choice(4) {
        0 => case(vec![fun("h", int(), &ab, vec![ret(bin(B::Subtract, var("a"), var("b")))])], vec![ret(call("h", vec![x(), y()]))]),
        1 => case(
            vec![fun("h", HirType::Void, &[("p", ptr(int())), ("b", int())], vec![store("p", var("b"))])],
            vec![decl("z", x()), run(call("h", vec![addr("z"), y()])), ret(var("z"))],
        ),
        2 => case(
            vec![
                fun("h", int(), &ab, vec![ret(call("e", vec![var("b"), var("a")]))]),
                fun("e", int(), &ab, vec![iff(bin(B::LessThan, var("a"), var("b")), vec![ret(k(1))], None), ret(var("b"))]),
            ],
            vec![ret(bin(B::BitwiseXor, call("h", vec![x(), y()]), call("e", vec![x(), y()])))],
        ),
        _ => case(
            vec![
                // mutual recursion
                fun("h", int(), &ab, vec![iff(bin(B::LessEqual, var("a"), k(0)), vec![ret(var("b"))], None), ret(call("e", vec![bin(B::Subtract, var("a"), k(1)), var("b")]))]),
                fun("e", int(), &ab, vec![iff(bin(B::LessEqual, var("a"), k(0)), vec![ret(k(1))], None), ret(call("h", vec![bin(B::Subtract, var("a"), k(1)), un(U::BitwiseNot, var("b"))]))]),
            ],
            vec![ret(call("h", vec![bin(B::BitwiseAnd, x(), k(3)), y()]))],
        ),
    }
}
/// Functions of other integer types.
pub fn kinds() {
    let (t, ct, lit) = match sym::choice(2) {
        0 => (HirType::UnsignedInt, T::U32, k(3)),
        _ => (HirType::Char, T::Ch, E::CharLiteral(b'0' as i8)),
    };
    let h = match sym::choice(4) {
        0 => fun("h", int(), &[("c", t.clone())], vec![
            iff(bin(B::GreaterEqual, var("c"), lit.clone()), vec![ret(k(1))], None),
            ret(k(0)),
        ]),
        1 => fun("h", t.clone(), &[("c", t.clone())], vec![ret(var("c"))]),
        2 => fun("h", t.clone(), &[("c", t.clone()), ("n", int())], vec![
            iff(bin(B::GreaterThan, var("n"), k(0)), vec![ret(lit.clone())], None),
            ret(var("c")),
        ]),
        _ => fun("h", int(), &[("c", t.clone())], vec![ret(bin(B::Equal, var("c"), lit.clone()))]),
    };
    let two = h.parameters().len() == 2;
    let back = *h.return_type() == t;
    let hh = |c: E| call("h", if two { vec![c, var("x")] } else { vec![c] });
    let body = match sym::choice(4) {
        0 if back => vec![
            S::VariableDeclaration { name: "r".into(), var_type: t.clone(), initializer: Some(hh(var("z"))) },
            iff(bin(B::Equal, var("r"), var("z")), vec![ret(k(7))], None),
            ret(k(8)),
        ],
        1 if back => vec![ret(E::Cast { target_type: int(), expr: Box::new(hh(hh(var("z")))) })],
        0 => vec![ret(hh(var("z")))],
        1 => vec![iff(hh(var("z")), vec![ret(k(4))], None), ret(k(5))],
        2 if !back => vec![ret(bin(B::BitwiseXor, hh(var("z")), hh(lit)))],
        2 => vec![iff(bin(B::NotEqual, hh(lit), var("z")), vec![ret(k(4))], None), ret(k(5))],
        _ => vec![run(hh(var("z"))), ret(k(3))],
    };
    compare(Prog {
        globals: vec![],
        enums: vec![],
        helpers: vec![h],
        params: vec![("x", T::I32), ("z", ct)],
        body,
        narrow: 32,
    })
}
fn pointers(v: &'static str) -> Vec<HirFunction> {
    let pi = || ptr(int());
    let set_ = fun("h", HirType::Void, &[("p", pi()), (v, int())], vec![store("p", var(v))]);
    match sym::choice(8) {
        0 => vec![set_],
        1 => vec![fun("h", int(), &[("p", pi()), (v, int())], vec![ret(bin(B::BitwiseXor, deref("p"), var(v)))])],
        2 => vec![fun("h", int(), &[("p", pi()), (v, int())], vec![
            store("p", bin(B::BitwiseXor, deref("p"), var(v))),
            ret(deref("p")),
        ])],
        3 => vec![fun("h", int(), &[("p", pi()), (v, int())], vec![
            iff(bin(B::GreaterThan, var(v), k(0)), vec![store("p", k(6))], None),
            ret(var(v)),
        ])],
        // passed on
        4 => vec![
            fun("h", HirType::Void, &[("p", pi()), (v, int())], vec![run(call("h1", vec![var("p"), bin(B::BitwiseOr, var(v), k(1))]))]),
            fun("h1", HirType::Void, &[("q", pi()), ("w", int())], vec![store("q", var("w"))]),
        ],
        5 => vec![
            fun("h", int(), &[("p", pi()), (v, int())], vec![ret(bin(B::BitwiseXor, call("h1", vec![var("p")]), var(v)))]),
            fun("h1", int(), &[("q", pi())], vec![ret(deref("q"))]),
        ],
        6 => vec![fun("h", HirType::Void, &[("p", pi()), (v, int())], vec![each("i", k(2), vec![store("p", bin(B::BitwiseXor, deref("p"), bin(B::LeftShift, k(1), var("i"))))])])],
        _ => vec![fun("h", int(), &[("p", pi()), (v, int())], vec![
            decl("t", deref("p")),
            store("p", var(v)),
            ret(var("t")),
        ])],
    }
}
/// Pointers to locals of the caller.
pub fn pointer() {
    pointer_to(pointers("v"))
}
/// A pointer to one int, next to a number whose name is that of a length.
pub fn pointer_n() {
    let n = sym::pick(&["n", "count", "maxlen"]);
    let ps = [("p", ptr(int())), (n, int())];
    let z = |e: E| vec![decl("z", var("x")), run(call("h", vec![addr("z"), var("y")])), ret(e)];
    match sym::choice(2) {
        0 => case(vec![fun("h", HirType::Void, &ps, vec![store("p", var(n))])], z(var("z"))),
        _ => case(vec![fun("h", int(), &ps, vec![ret(bin(B::BitwiseXor, deref("p"), var(n)))])], z(var("z"))),
    }
}
fn pointer_to(hs: Vec<HirFunction>) {
    let void = *hs[0].return_type() == HirType::Void;
    let hh = |n: &str, v: E| call("h", vec![addr(n), v]);
    let body = match sym::choice(7) {
        0 if void => vec![decl("z", k(3)), run(hh("z", var("y"))), ret(var("z"))],
        0 => vec![decl("z", k(3)), decl("r", hh("z", var("y"))), ret(bin(B::BitwiseXor, var("r"), bin(B::LeftShift, bin(B::BitwiseAnd, var("z"), k(15)), k(3))))],
        1 => vec![decl("z", var("x")), run(hh("z", var("y"))), run(hh("z", k(1))), ret(var("z"))],
        2 => vec![decl("z", var("x")), decl("w", var("y")), run(hh("z", k(4))), run(hh("w", k(5))), ret(bin(B::BitwiseXor, var("z"), un(U::BitwiseNot, var("w"))))],
        3 => vec![decl("z", k(3)), iff(bin(B::LessThan, var("x"), k(0)), vec![run(hh("z", var("y")))], Some(vec![run(hh("z", k(9)))])), ret(var("z"))],
        4 => vec![decl("z", k(3)), each("j", k(2), vec![run(hh("z", var("j")))]), ret(var("z"))],
        // a parameter of the caller
        5 => vec![run(hh("x", var("y"))), ret(var("x"))],
        _ if void => vec![decl("z", var("x")), run(hh("z", add(var("z"), k(1)))), ret(var("z"))],
        _ => vec![decl("z", var("x")), ret(hh("z", bin(B::BitwiseAnd, var("z"), k(12))))],
    };
    case(hs, body)
}
/// Two pointers; one written, one read.
pub fn pointer2() {
    let pi = || ptr(int());
    let ps = [("p", pi()), ("q", pi())];
    let h = match sym::choice(5) {
        0 => fun("h", HirType::Void, &ps, vec![decl("t", deref("p")), store("p", deref("q")), store("q", var("t"))]),
        1 => fun("h", HirType::Void, &ps, vec![store("p", deref("q"))]),
        2 => fun("h", HirType::Void, &ps, vec![store("q", bin(B::BitwiseXor, deref("p"), deref("q")))]),
        3 => fun("h", int(), &ps, vec![ret(bin(B::LessThan, deref("p"), deref("q")))]),
        _ => fun("h", int(), &ps, vec![iff(bin(B::LessThan, deref("p"), deref("q")), vec![store("p", deref("q")), ret(k(1))], None), ret(k(0))]),
    };
    let z = bin(B::BitwiseXor, var("z"), un(U::BitwiseNot, var("w")));
    let c = |a: &str, b: &str| call("h", vec![addr(a), addr(b)]);
    let mut body = vec![decl("z", var("x")), decl("w", var("y"))];
    match sym::choice(4) {
        0 => body.extend([run(c("z", "w")), ret(z)]),
        1 => body.extend([run(c("w", "z")), ret(z)]),
        2 => body.extend([run(c("z", "w")), run(c("w", "z")), ret(z)]),
        _ => body.extend([iff(bin(B::LessThan, var("x"), k(0)), vec![run(c("z", "w"))], None), ret(z)]),
    }
    case(vec![h], body)
}
fn arrays() -> Vec<HirFunction> {
    let pi = || ptr(int());
    let len = sym::pick(&["n", "len", "size", "count"]);
    let ps = |v: bool| {
        let mut p = vec![("arr", pi()), (len, int())];
        if v {
            p.push(("v", int()));
        }
        p
    };
    match sym::choice(7) {
        0 => vec![fun("h", int(), &ps(false), vec![
            decl("s", k(0)),
            each("i", var(len), vec![set("s", bin(B::BitwiseXor, bin(B::LeftShift, bin(B::BitwiseAnd, var("s"), k(255)), k(2)), at("arr", var("i"))))]),
            ret(var("s")),
        ])],
        1 => vec![fun("h", HirType::Void, &ps(true), vec![each("i", var(len), vec![put("arr", var("i"), var("v"))])])],
        2 => vec![fun("h", int(), &ps(true), vec![
            each("i", var(len), vec![iff(bin(B::Equal, at("arr", var("i")), var("v")), vec![ret(var("i"))], None)]),
            ret(k(-1)),
        ])],
        3 => vec![fun("h", HirType::Void, &ps(false), vec![
            decl("t", at("arr", k(0))),
            put("arr", k(0), at("arr", bin(B::Subtract, var(len), k(1)))),
            put("arr", bin(B::Subtract, var(len), k(1)), var("t")),
        ])],
        6 => vec![fun("h", int(), &ps(true), vec![
            each("i", var(len), vec![iff(bin(B::LessThan, at("arr", var("i")), k(0)), vec![put("arr", var("i"), var("v"))], None)]),
            ret(bin(B::BitwiseXor, var(len), k(1))),
        ])],
        4 => vec![
            fun("h", int(), &ps(false), vec![ret(bin(B::BitwiseXor, call("h1", vec![var("arr"), var(len)]), k(1)))]),
            fun("h1", int(), &[("arr", pi()), (len, int())], vec![ret(bin(B::BitwiseXor, at("arr", k(0)), at("arr", bin(B::Subtract, var(len), k(1)))))]),
        ],
        _ => vec![fun("h", int(), &ps(false), vec![
            iff(bin(B::GreaterThan, var(len), k(2)), vec![put("arr", k(1), k(77))], None),
            ret(at("arr", k(1))),
        ])],
    }
}
/// An array and its length.
pub fn array() {
    let hs = arrays();
    let v = hs[0].parameters().len() == 3;
    let hh = |n: &str, e: E| call("h", if v { vec![var(n), k(3), e] } else { vec![var(n), k(3)] });
    let t = |n: &str, e: Vec<E>| {
        let ty = HirType::Array { element_type: Box::new(int()), size: Some(3) };
        S::VariableDeclaration { name: n.into(), var_type: ty.clone(), initializer: Some(E::CompoundLiteral { literal_type: ty, initializers: e }) }
    };
    let mix = |n: &str| bin(B::BitwiseXor, at(n, k(0)), bin(B::BitwiseXor, un(U::BitwiseNot, at(n, k(1))), bin(B::BitwiseAnd, at(n, k(2)), k(0xffff))));
    let mut body = vec![t("t", vec![var("x"), var("y"), k(7)])];
    let void = *hs[0].return_type() == HirType::Void;
    match sym::choice(4) {
        0 if !void => body.push(ret(hh("t", var("y")))),
        0 => body.extend([run(hh("t", k(5))), ret(mix("t"))]),
        1 if !void => body.extend([decl("r", hh("t", k(7))), ret(bin(B::BitwiseXor, mix("t"), bin(B::BitwiseAnd, var("r"), k(255))))]),
        1 => body.extend([run(hh("t", var("x"))), put("t", k(1), k(9)), ret(mix("t"))]),
        2 => body.extend([t("u", vec![k(1), k(2), k(3)]), run(hh("u", var("x"))), ret(bin(B::BitwiseXor, mix("t"), mix("u")))]),
        _ => body.extend([each("j", k(2), vec![run(hh("t", var("j")))]), ret(mix("t"))]),
    }
    case(hs, body)
}
/// Two arrays, each with its length.
pub fn array2() {
    let pi = || ptr(int());
    let (n, m) = sym::pick(&[("n", "len"), ("num", "size"), ("a_len", "b_len"), ("count", "n")]);
    let (a, b) = ("arr", "data");
    let ps = [(a, pi()), (n, int()), (b, pi()), (m, int())];
    let h = match sym::choice(4) {
        0 => fun("h", HirType::Void, &ps, vec![each("i", var(n), vec![put(b, var("i"), at(a, var("i")))])]),
        1 => fun("h", HirType::Void, &ps, vec![each("i", var(m), vec![put(a, var("i"), bin(B::BitwiseXor, at(b, var("i")), k(1)))])]),
        2 => fun("h", int(), &ps, vec![ret(bin(B::BitwiseXor, at(a, bin(B::Subtract, var(n), k(1))), at(b, bin(B::Subtract, var(m), k(2)))))]),
        _ => fun("h", int(), &ps, vec![
            iff(bin(B::LessThan, at(a, k(0)), at(b, k(0))), vec![put(a, k(0), at(b, k(0))), put(b, k(0), var(n))], None),
            ret(at(a, k(0))),
        ]),
    };
    let t = |n: &str, e: Vec<E>| {
        let ty = HirType::Array { element_type: Box::new(int()), size: Some(3) };
        S::VariableDeclaration { name: n.into(), var_type: ty.clone(), initializer: Some(E::CompoundLiteral { literal_type: ty, initializers: e }) }
    };
    let mix = |n: &str| bin(B::BitwiseXor, at(n, k(0)), bin(B::BitwiseXor, un(U::BitwiseNot, at(n, k(1))), bin(B::BitwiseAnd, at(n, k(2)), k(0xffff))));
    let hh = |a: &str, b: &str| call("h", vec![var(a), k(3), var(b), k(3)]);
    let mut body = vec![t("t", vec![var("x"), var("y"), k(7)]), t("u", vec![k(1), var("x"), k(3)])];
    match sym::choice(3) {
        0 => body.push(run(hh("t", "u"))),
        1 => body.push(run(hh("u", "t"))),
        _ => body.extend([run(hh("t", "u")), run(hh("u", "t"))]),
    }
    body.push(ret(bin(B::BitwiseXor, mix("t"), bin(B::BitwiseAnd, mix("u"), k(0xff)))));
    case(vec![h], body)
}
/// Structures, by value and by pointer.
pub fn structure() {
    let fa = |n: &str, f: &str| E::FieldAccess { object: Box::new(var(n)), field: f.into() };
    let pf = |n: &str, f: &str| E::PointerFieldAccess { pointer: Box::new(var(n)), field: f.into() };
    let st = |n: &str, f: &str, v: E| S::FieldAssignment { object: var(n), field: f.into(), value: v };
    let pp = [("p", ptr(pst())), ("d", int())];
    let pv = [("p", pst()), ("d", int())];
    let (hs, byval) = match sym::choice(7) {
        0 => (vec![fun("h", HirType::Void, &pp, vec![st("p", "a", var("d"))])], false),
        1 => (vec![fun("h", HirType::Void, &pp, vec![st("p", "b", bin(B::BitwiseXor, pf("p", "a"), var("d")))])], false),
        2 => (vec![fun("h", int(), &pp, vec![ret(bin(B::BitwiseXor, pf("p", "b"), var("d")))])], false),
        3 => (vec![fun("h", int(), &pv, vec![ret(bin(B::BitwiseXor, fa("p", "a"), bin(B::BitwiseAnd, fa("p", "b"), var("d"))))])], true),
        // its own copy
        4 => (vec![fun("h", int(), &pv, vec![st("p", "a", var("d")), ret(bin(B::BitwiseOr, fa("p", "a"), fa("p", "b")))])], true),
        5 => (
            vec![
                fun("h", HirType::Void, &pp, vec![run(call("h1", vec![var("p")])), st("p", "b", var("d"))]),
                fun("h1", HirType::Void, &[("q", ptr(pst()))], vec![st("q", "a", k(8))]),
            ],
            false,
        ),
        _ => (
            vec![fun("h", int(), &pp, vec![iff(bin(B::LessThan, pf("p", "a"), var("d")), vec![st("p", "a", var("d")), ret(k(1))], None), ret(k(0))])],
            false,
        ),
    };
    let arg = |n: &str| if byval { var(n) } else { addr(n) };
    let hh = |n: &str, e: E| call("h", vec![arg(n), e]);
    let d = |n: &str, a: E, b: E| S::VariableDeclaration {
        name: n.into(),
        var_type: pst(),
        initializer: Some(E::CompoundLiteral { literal_type: pst(), initializers: vec![a, b] }),
    };
    let mix = |n: &str| bin(B::BitwiseXor, fa(n, "a"), un(U::BitwiseNot, fa(n, "b")));
    let void = *hs[0].return_type() == HirType::Void;
    let mut body = vec![d("s", var("x"), var("y"))];
    match sym::choice(4) {
        0 if !void => body.push(ret(hh("s", k(5)))),
        0 => body.extend([run(hh("s", k(5))), ret(mix("s"))]),
        1 if !void => body.extend([decl("r", hh("s", var("y"))), ret(bin(B::BitwiseXor, mix("s"), bin(B::LeftShift, bin(B::BitwiseAnd, var("r"), k(3)), k(4))))]),
        1 => body.extend([run(hh("s", var("x"))), st("s", "b", k(1)), run(hh("s", k(2))), ret(mix("s"))]),
        2 => body.extend([d("u", k(1), k(2)), run(hh("u", var("x"))), ret(bin(B::BitwiseXor, mix("s"), mix("u")))]),
        _ => body.extend([iff(bin(B::LessThan, var("x"), k(0)), vec![run(hh("s", k(3)))], None), ret(mix("s"))]),
    }
    case(hs, body)
}
fn globals() -> Vec<(&'static str, HirType, Option<E>)> {
    let at = HirType::Array { element_type: Box::new(int()), size: Some(3) };
    vec![
        ("counter", int(), Some(k(5))),
        ("limit", int(), None),
        ("low", int(), Some(un(U::Minus, k(2)))),
        ("tab", at.clone(), Some(E::CompoundLiteral { literal_type: at, initializers: vec![k(1), k(2), k(3)] })),
    ]
}
fn gstmt(c: &str, e: E) -> Vec<S> {
    let tern = |c: E, t: E, e: E| E::Ternary { condition: Box::new(c), then_expr: Box::new(t), else_expr: Box::new(e) };
    match sym::choice(15) {
        9 => vec![set(c, tern(bin(B::LessThan, var("low"), e), var("counter"), var("limit")))],
        10 => vec![set(c, bin(B::LogicalAnd, var(c), e))],
        11 => vec![set(c, bin(B::BitwiseXor, at("tab", bin(B::BitwiseAnd, var(c), k(1))), e))],
        12 => vec![put("tab", bin(B::BitwiseAnd, var(c), k(1)), bin(B::BitwiseOr, var("low"), e)), set(c, at("tab", k(1)))],
        13 => vec![set(c, call("id", vec![bin(B::BitwiseXor, var(c), e)]))],
        14 => vec![set("limit", tern(bin(B::Equal, var(c), k(5)), bin(B::BitwiseXor, var("low"), e), k(2)))],
        0 => vec![set(c, e)],
        1 => vec![set(c, bin(B::BitwiseXor, var(c), e))],
        2 => vec![iff(bin(B::GreaterThan, var(c), k(3)), vec![set(c, e)], Some(vec![set(c, k(4))]))],
        3 => vec![run(E::PostIncrement { operand: Box::new(var(c)) })],
        4 => vec![
            set(c, k(0)),
            S::While { condition: bin(B::LessThan, var(c), k(2)), body: vec![set(c, add(var(c), k(1))), run(call("g", vec![var(c)]))] },
        ],
        5 => vec![S::For {
            init: vec![set(c, k(0))],
            condition: Some(bin(B::LessThan, var(c), k(2))),
            increment: vec![set(c, add(var(c), k(1)))],
            body: vec![run(call("g", vec![e]))],
        }],
        6 => vec![S::Switch {
            condition: var(c),
            cases: vec![
                SwitchCase { value: Some(k(5)), body: vec![set(c, e), S::Break] },
                SwitchCase { value: Some(k(6)), body: vec![set(c, k(1)), S::Break] },
            ],
            default_case: Some(vec![set(c, k(2))]),
        }],
        7 => {
            let t = if c == "counter" { "t" } else { "u" };
            vec![run(call("g", vec![var(c)])), decl(t, bin(B::BitwiseAnd, var(c), e)), set(c, var(t))]
        }
        _ => vec![iff(var(c), vec![set(c, e)], None)],
    }
}
/// Global variables: read and written by several functions, hidden by locals and parameters.
pub fn global() {
    let h = match sym::choice(6) {
        0 => fun("h", HirType::Void, &[("d", int())], match sym::choice(3) {
            0 => vec![set("counter", var("d"))],
            1 => vec![iff(bin(B::GreaterThan, var("counter"), k(3)), vec![set("counter", var("d"))], Some(vec![set("counter", k(4))]))],
            _ => vec![run(E::PostIncrement { operand: Box::new(var("counter")) })],
        }),
        1 => fun("h", HirType::Void, &[("d", int())], {
            // the local one is meant
            let mut b = vec![decl("counter", var("d"))];
            b.extend([set("counter", k(1)), set("limit", var("counter"))]);
            b
        }),
        2 => fun("h", HirType::Void, &[("counter", int())], vec![set("counter", bin(B::BitwiseXor, var("counter"), k(1))), set("limit", var("counter"))]),
        3 => fun("h", int(), &[("d", int())], vec![ret(bin(B::BitwiseXor, var("counter"), bin(B::BitwiseXor, var("low"), var("d"))))]),
        4 => fun("h", HirType::Void, &[("d", int())], vec![each("i", k(3), vec![put("tab", var("i"), bin(B::BitwiseXor, at("tab", var("i")), var("d")))])]),
        _ => fun("h", int(), &[("d", int())], vec![
            iff(bin(B::LessThan, var("limit"), var("counter")), vec![set("limit", var("d")), ret(var("limit"))], None),
            ret(k(0)),
        ]),
    };
    let hh = |e: E| call("h", vec![e]);
    let body = match sym::choice(5) {
        0 => vec![run(hh(var("x"))), ret(bin(B::BitwiseXor, var("counter"), var("limit")))],
        1 => vec![set("counter", var("y")), run(hh(var("x"))), ret(bin(B::BitwiseXor, var("counter"), at("tab", k(1))))],
        2 => vec![run(hh(var("limit"))), run(hh(var("counter"))), ret(var("low"))],
        3 => vec![decl("counter", var("x")), run(hh(var("counter"))), ret(var("counter"))],
        _ => vec![put("tab", k(2), var("y")), run(hh(at("tab", k(2)))), ret(bin(B::BitwiseXor, at("tab", k(0)), at("tab", k(2))))],
    };
    compare(Prog {
        globals: globals(),
        enums: vec![],
        helpers: vec![h],
        params: vec![("x", T::I32), ("y", T::I32)],
        body,
        narrow: 32,
    })
}
/// One function, every use of a global.
pub fn global1() {
    let id = fun("id", int(), &[("a", int())], vec![ret(var("a"))]);
    let mut b = gstmt("counter", var("x"));
    b.extend(gstmt("limit", var("counter")));
    b.push(ret(bin(B::BitwiseXor, var("counter"), un(U::BitwiseNot, var("limit")))));
    compare(Prog {
        globals: globals(),
        enums: vec![],
        helpers: vec![id],
        params: vec![("x", T::I32), ("y", T::I32)],
        body: b,
        narrow: 32,
    })
}
/// Global variables of several kinds.
pub fn global_kinds() {
    let arr = |t: HirType| HirType::Array { element_type: Box::new(t), size: Some(3) };
    let comp = |t: HirType, e: Vec<E>| Some(E::CompoundLiteral { literal_type: t, initializers: e });
    let fa = |n: &str, f: &str| E::FieldAccess { object: Box::new(var(n)), field: f.into() };
    let st = |n: &str, f: &str, v: E| S::FieldAssignment { object: var(n), field: f.into(), value: v };
    let asint = |e: E| E::Cast { target_type: int(), expr: Box::new(e) };
    let v = || bin(B::BitwiseAnd, var("x"), k(255));
    let (g, set1, set2, read): (_, S, S, E) = match sym::choice(10) {
        0 => (("gv", int(), Some(k(7))), set("gv", var("x")), set("gv", bin(B::BitwiseXor, var("gv"), k(6))), var("gv")),
        1 => (("gv", int(), None), set("gv", var("x")), set("gv", bin(B::BitwiseXor, var("gv"), k(6))), var("gv")),
        2 => (("gv", HirType::UnsignedInt, Some(k(7))), set("gv", E::Cast { target_type: HirType::UnsignedInt, expr: Box::new(var("x")) }), set("gv", k(6)), asint(var("gv"))),
        3 => (("gv", HirType::UnsignedInt, None), set("gv", E::Cast { target_type: HirType::UnsignedInt, expr: Box::new(var("x")) }), set("gv", k(6)), asint(var("gv"))),
        4 => (("gv", HirType::Char, Some(E::CharLiteral(b'a' as i8))), set("gv", E::CharLiteral(b'z' as i8)), set("gv", E::CharLiteral(b'0' as i8)), asint(var("gv"))),
        5 => (("gv", HirType::Char, None), set("gv", E::CharLiteral(b'z' as i8)), set("gv", E::CharLiteral(b'0' as i8)), asint(var("gv"))),
        6 => (("gv", arr(int()), comp(arr(int()), vec![k(4), un(U::Minus, k(5)), k(6)])), put("gv", k(1), var("x")), put("gv", bin(B::BitwiseAnd, var("x"), k(1)), v()), bin(B::BitwiseXor, at("gv", k(1)), at("gv", bin(B::BitwiseAnd, var("x"), k(1))))),
        7 => (("gv", arr(int()), None), put("gv", k(2), var("x")), put("gv", bin(B::BitwiseAnd, var("x"), k(1)), v()), bin(B::BitwiseXor, at("gv", k(2)), at("gv", bin(B::BitwiseAnd, var("x"), k(1))))),
        8 => (("gv", pst(), comp(pst(), vec![k(4), k(5)])), st("gv", "a", var("x")), st("gv", "b", fa("gv", "a")), bin(B::BitwiseXor, fa("gv", "a"), un(U::BitwiseNot, fa("gv", "b")))),
        _ => (("gv", pst(), None), st("gv", "a", var("x")), st("gv", "b", fa("gv", "a")), bin(B::BitwiseXor, fa("gv", "a"), un(U::BitwiseNot, fa("gv", "b")))),
    };
    let mut body = vec![];
    let c = sym::choice(8);
    if c & 1 != 0 {
        body.push(set1)
    }
    if c & 2 != 0 {
        body.push(iff(bin(B::LessThan, var("x"), k(9)), vec![set2], None))
    }
    if c & 4 != 0 {
        body.push(iff(bin(B::Equal, read.clone(), k(7)), vec![ret(k(1))], None))
    }
    body.push(ret(read));
    compare(Prog { globals: vec![g], enums: vec![], helpers: vec![], params: vec![("x", T::I32)], body, narrow: 32 })
}
/// Constants of an enum.
pub fn enums() {
    let e = vec![
        ("RED", None),
        ("GREEN", Some(5)),
        ("BLUE", None),
        ("NEG", Some(-2)),
        ("LAST", None),
        ("TOP", Some(i32::MAX as i64)),
    ];
    let c = sym::pick(&["RED", "GREEN", "BLUE", "NEG", "LAST", "TOP"]);
    let h = match sym::choice(5) {
        0 => fun("h", int(), &[("c", int())], vec![iff(bin(B::Equal, var("c"), var(c)), vec![ret(k(1))], None), ret(var(c))]),
        1 => fun("h", int(), &[("c", int())], vec![ret(bin(B::BitwiseXor, var(c), var("c")))]),
        2 => fun("h", int(), &[("c", int())], vec![S::Switch {
            condition: var("c"),
            cases: vec![
                SwitchCase { value: Some(var("GREEN")), body: vec![ret(k(1))] },
                SwitchCase { value: Some(var(c)), body: vec![ret(k(2))] },
            ],
            default_case: Some(vec![ret(var("BLUE"))]),
        }]),
        3 => fun("h", int(), &[("c", int())], vec![decl("d", var(c)), set("d", bin(B::BitwiseAnd, var("d"), var("c"))), ret(var("d"))]),
        _ => fun("h", int(), &[("c", int())], vec![iff(bin(B::LessThan, var("c"), var(c)), vec![ret(k(1))], None), ret(un(U::Minus, var(c)))]),
    };
    // a case label may not occur twice
    sym::assume(!(c == "GREEN" && matches!(h.body()[0], S::Switch { .. })));
    let body = match sym::choice(3) {
        0 => vec![ret(call("h", vec![var("x")]))],
        1 => vec![ret(call("h", vec![var(c)]))],
        _ => vec![decl("r", call("h", vec![var("BLUE")])), ret(bin(B::BitwiseXor, var("r"), var("x")))],
    };
    compare(Prog { globals: vec![], enums: e, helpers: vec![h], params: vec![("x", T::I32)], body, narrow: 32 })
}
/// Names that mean something in Rust.
pub fn names() {
    let n: &'static str = sym::pick(&[
        "type", "match", "fn", "let", "mut", "ref", "move", "impl", "in", "loop", "mod", "pub", "trait", "use", "where", "as",
        "dyn", "async", "await", "unsafe", "box", "try", "yield", "final", "macro", "override", "abstract", "virtual", "become",
        "priv", "typeof", "unsized", "i32", "str", "usize", "len", "main2", "gen",
    ]);
    // a keyword in C as well
    sym::assume(n != "typeof");
    let h = fun("h", int(), &[("a", int())], vec![ret(bin(B::BitwiseXor, var("a"), k(1)))]);
    let (hs, body, globals) = match sym::choice(5) {
        // a local
        0 => (vec![h], vec![decl(n, var("x")), set(n, bin(B::BitwiseAnd, var(n), k(9))), ret(call("h", vec![var(n)]))], vec![]),
        // a parameter
        1 => (
            vec![fun("h", int(), &[(n, int())], vec![set(n, bin(B::BitwiseXor, var(n), k(3))), iff(bin(B::LessThan, var(n), k(0)), vec![ret(k(1))], None), ret(var(n))])],
            vec![ret(call("h", vec![var("x")]))],
            vec![],
        ),
        // a function
        2 => (
            vec![fun(n, int(), &[("a", int())], vec![ret(bin(B::BitwiseXor, var("a"), k(1)))])],
            vec![run(call(n, vec![k(2)])), ret(call(n, vec![var("x")]))],
            vec![],
        ),
        // a loop variable
        3 => (vec![], vec![decl("s", var("x")), each(n, k(2), vec![set("s", bin(B::BitwiseXor, var("s"), var(n)))]), ret(var("s"))], vec![]),
        // a global variable
        _ => (vec![], vec![set(n, var("x")), ret(bin(B::BitwiseXor, var(n), k(1)))], vec![(n, int(), Some(k(3)))]),
    };
    compare(Prog { globals, enums: vec![], helpers: hs, params: vec![("x", T::I32)], body, narrow: 32 })
}
