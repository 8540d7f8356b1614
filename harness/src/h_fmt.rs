//! Formatted output: what printf and puts print in C, what print! and println! print in Rust, and the comparison.
//! Output is a list of pieces in the log of calls: a byte, or a number with its base, width and flags.
use crate::cref::{ival, Stop, C, R, T, V};
use crate::h_cg::{bin, compare, un, k, var, Case};
use crate::rsi::{Bad, RT, RV, X};
use crate::sym;
use decy_hir::*;
use BinaryOperator as B;
use HirExpression as E;
use HirStatement as S;
use UnaryOperator as U;

type Log = Vec<(String, Vec<i64>)>;
fn byte(l: &mut Log, b: i64) {
    l.push(("output byte".into(), vec![b]));
}
/// value, base, upper case, width, left-aligned, padded with zeros, sign always
fn number(l: &mut Log, v: i64, base: i64, upper: bool, width: i64, left: bool, zero: bool, plus: bool) {
    let wide = width > 0;
    l.push((
        "output number".into(),
        vec![v, base, (upper && base > 10) as i64, width, (wide && left) as i64, (wide && zero && !left) as i64, plus as i64],
    ));
}
fn padded(l: &mut Log, s: &[i64], width: i64, left: bool) {
    let pad = width - s.len() as i64;
    if !left {
        (0..pad).for_each(|_| byte(l, 32));
    }
    s.iter().for_each(|b| byte(l, *b));
    if left {
        (0..pad).for_each(|_| byte(l, 32));
    }
}
/// The bytes of a C string literal.
fn c_bytes(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            o.push(b[i]);
            i += 1;
            continue;
        }
        let c = *b.get(i + 1)?;
        i += 2;
        o.push(match c {
            b'n' => 10,
            b't' => 9,
            b'r' => 13,
            b'a' => 7,
            b'b' => 8,
            b'f' => 12,
            b'v' => 11,
            b'\\' | b'"' | b'\'' | b'?' => c,
            b'x' => {
                let mut v = 0u32;
                while i < b.len() && b[i].is_ascii_hexdigit() {
                    v = v * 16 + (b[i] as char).to_digit(16)?;
                    i += 1;
                }
                v as u8
            }
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                let mut n = 1;
                while n < 3 && i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                    v = v * 8 + (b[i] - b'0') as u32;
                    i += 1;
                    n += 1;
                }
                v as u8
            }
            _ => return None,
        });
    }
    Some(o)
}
/// printf and puts of the reference semantics.
pub fn c_output(c: &mut C, f: &str, args: &[E]) -> R<V> {
    let fmt = match args.first() {
        Some(E::StringLiteral(s)) => c_bytes(s).ok_or(Stop::Unsup)?,
        _ => return Err(Stop::Unsup),
    };
    let mut l: Log = vec![];
    if f == "puts" {
        fmt.iter().for_each(|b| byte(&mut l, *b as i64));
        byte(&mut l, 10);
        c.calls.extend(l);
        return Ok(ival(0));
    }
    let mut a = 1;
    let mut i = 0;
    while i < fmt.len() {
        if fmt[i] != b'%' {
            byte(&mut l, fmt[i] as i64);
            i += 1;
            continue;
        }
        i += 1;
        let (mut left, mut zero, mut plus) = (false, false, false);
        while i < fmt.len() && b"-0+".contains(&fmt[i]) {
            left |= fmt[i] == b'-';
            zero |= fmt[i] == b'0';
            plus |= fmt[i] == b'+';
            i += 1;
        }
        let mut width = 0i64;
        while i < fmt.len() && fmt[i].is_ascii_digit() {
            width = width * 10 + (fmt[i] - b'0') as i64;
            i += 1;
        }
        let mut prec = None;
        if i < fmt.len() && fmt[i] == b'.' {
            i += 1;
            let mut p = 0i64;
            while i < fmt.len() && fmt[i].is_ascii_digit() {
                p = p * 10 + (fmt[i] - b'0') as i64;
                i += 1;
            }
            prec = Some(p);
        }
        // lengths: long is an int to decy; h and hh only with values that fit
        while i < fmt.len() && b"hl".contains(&fmt[i]) {
            i += 1;
        }
        let conv = *fmt.get(i).ok_or(Stop::Unsup)?;
        i += 1;
        if conv == b'%' {
            byte(&mut l, b'%' as i64);
            continue;
        }
        let arg = args.get(a).ok_or(Stop::Unsup)?;
        a += 1;
        if conv == b's' {
            let s = match arg {
                E::StringLiteral(s) => c_bytes(s).ok_or(Stop::Unsup)?,
                _ => return Err(Stop::Unsup),
            };
            let n = prec.map_or(s.len(), |p| (p as usize).min(s.len()));
            let s: Vec<i64> = s[..n].iter().map(|b| *b as i64).collect();
            padded(&mut l, &s, width, left);
            continue;
        }
        if prec.is_some() {
            return Err(Stop::Unsup);
        }
        let v = c.eval(arg)?.v;
        match conv {
            b'c' => padded(&mut l, &[v & 255], width, left),
            b'd' | b'i' => number(&mut l, v as i32 as i64, 10, false, width, left, zero, plus),
            b'u' => number(&mut l, v as u32 as i64, 10, false, width, left, zero, false),
            b'x' => number(&mut l, v as u32 as i64, 16, false, width, left, zero, false),
            b'X' => number(&mut l, v as u32 as i64, 16, true, width, left, zero, false),
            b'o' => number(&mut l, v as u32 as i64, 8, false, width, left, zero, false),
            _ => return Err(Stop::Unsup),
        }
    }
    c.calls.extend(l);
    Ok(ival(0))
}
/// The bytes of a Rust string literal (as written between the quotes).
pub fn rust_bytes(s: &str) -> X<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            o.push(b[i]);
            i += 1;
            continue;
        }
        i += 2;
        o.push(match b.get(i - 1) {
            Some(b'n') => 10,
            Some(b't') => 9,
            Some(b'r') => 13,
            Some(b'0') => 0,
            Some(c @ (b'\\' | b'"' | b'\'')) => *c,
            Some(b'x') => match s.get(i..i + 2).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                Some(v) if v < 128 => {
                    i += 2;
                    v
                }
                _ => return Err(Bad::Reject("escape in a string")),
            },
            Some(b'u') => {
                let e = match s[i..].find('}') {
                    Some(e) if b.get(i) == Some(&b'{') => i + e,
                    _ => return Err(Bad::Reject("escape in a string")),
                };
                match s.get(i + 1..e).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32) {
                    Some(ch) => {
                        let mut t = [0u8; 4];
                        o.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                        i = e + 1;
                        continue;
                    }
                    None => return Err(Bad::Reject("escape in a string")),
                }
            }
            _ => return Err(Bad::Reject("escape in a string")),
        });
    }
    Ok(o)
}
/// print! or println! with evaluated arguments.
pub fn rust_output(fmt: &str, args: &[RV], nl: bool) -> X<Log> {
    let rej = |m| Err(Bad::Reject(m));
    let fmt = rust_bytes(fmt)?;
    let mut l: Log = vec![];
    let mut a = 0;
    let mut i = 0;
    while i < fmt.len() {
        let c = fmt[i];
        i += 1;
        if c == b'}' {
            if fmt.get(i) != Some(&b'}') {
                return rej("unmatched } in a format");
            }
            i += 1;
            byte(&mut l, c as i64);
            continue;
        }
        if c != b'{' {
            byte(&mut l, c as i64);
            continue;
        }
        if fmt.get(i) == Some(&b'{') {
            i += 1;
            byte(&mut l, c as i64);
            continue;
        }
        let e = match fmt[i..].iter().position(|b| *b == b'}') {
            Some(e) => i + e,
            None => return rej("unmatched { in a format"),
        };
        let sp = &fmt[i..e];
        i = e + 1;
        let mut j = 0;
        let (mut align, mut plus, mut zero, mut width, mut prec) = (0u8, false, false, 0i64, None);
        if !sp.is_empty() {
            if sp[0] != b':' {
                return rej("argument of a format");
            }
            j = 1;
            if sp.len() > j && b"<>^".contains(&sp[j]) {
                align = sp[j];
                j += 1;
            } else if sp.len() > j + 1 && b"<>^".contains(&sp[j + 1]) {
                if sp[j] != b' ' {
                    return Err(Bad::Unsup("fill"));
                }
                align = sp[j + 1];
                j += 2;
            }
            if sp.get(j) == Some(&b'+') {
                plus = true;
                j += 1;
            }
            if sp.get(j) == Some(&b'#') {
                return Err(Bad::Unsup("alternate form"));
            }
            if sp.get(j) == Some(&b'0') {
                zero = true;
                j += 1;
            }
            while j < sp.len() && sp[j].is_ascii_digit() {
                width = width * 10 + (sp[j] - b'0') as i64;
                j += 1;
            }
            if sp.get(j) == Some(&b'.') {
                j += 1;
                if !sp.get(j).is_some_and(|c| c.is_ascii_digit()) {
                    return rej("precision of a format");
                }
                let mut p = 0i64;
                while j < sp.len() && sp[j].is_ascii_digit() {
                    p = p * 10 + (sp[j] - b'0') as i64;
                    j += 1;
                }
                prec = Some(p);
            }
        }
        let kind = &sp[j..];
        if align == b'^' {
            return Err(Bad::Unsup("centred"));
        }
        let v = match args.get(a) {
            Some(v) => v.clone(),
            None => return rej("a format with too few arguments"),
        };
        a += 1;
        let (base, upper) = match kind {
            b"" => (10, false),
            b"x" => (16, false),
            b"X" => (16, true),
            b"o" => (8, false),
            b"b" => (2, false),
            b"?" | b"e" | b"E" | b"p" => return Err(Bad::Unsup("kind of format")),
            _ => return rej("kind of format"),
        };
        match v {
            RV::I(..) | RV::Lit(..) => {
                let (v, t) = match v {
                    RV::I(v, t) => (v, t),
                    RV::Lit(v, _) => (v, RT::I32),
                    _ => continue,
                };
                let v = match (base, t) {
                    (10, _) => v,
                    (_, RT::I8) => v as u8 as i64,
                    (_, RT::I16) => v as u16 as i64,
                    (_, RT::I32) => v as u32 as i64,
                    _ => v,
                };
                number(&mut l, v, base, upper, width, align == b'<', zero, plus)
            }
            RV::Ch(c) if base == 10 => padded(&mut l, &[c], width, align != b'>'),
            RV::B(b) if base == 10 => {
                let s: &[u8] = if b { b"true" } else { b"false" };
                let s: Vec<i64> = s.iter().map(|b| *b as i64).collect();
                padded(&mut l, &s, width, align != b'>')
            }
            RV::Str(s) if base == 10 => {
                let s = rust_bytes(&s)?;
                let n = prec.map_or(s.len(), |p| (p as usize).min(s.len()));
                let s: Vec<i64> = s[..n].iter().map(|b| *b as i64).collect();
                padded(&mut l, &s, width, align != b'>')
            }
            RV::F32(_) | RV::F64(_) | RV::FLit(_) => return Err(Bad::Unsup("float in a format")),
            _ => return rej("argument of a format"),
        }
    }
    if a != args.len() {
        return rej("a format with unused arguments");
    }
    if nl {
        byte(&mut l, 10);
    }
    Ok(l)
}

fn lit(s: &str) -> E {
    E::StringLiteral(s.to_string())
}
const TEXT: [&str; 16] =
    ["", "a ", "{", "}", "{}", "}{", "%%", "%%d", "\\n", "\\\"", "\\\\", "{x}", "100%% {:x}", "\\t:\\r", "\\'", "{{}}"];
/// an argument of the conversion's type
fn arg(conv: u8) -> E {
    match conv {
        b'd' | b'i' => match sym::choice(9) {
            5 => un(U::LogicalNot, var("x")),
            6 => var("c"),
            7 => bin(B::LogicalAnd, var("x"), var("y")),
            8 => E::CharLiteral(b'A' as i8),
            0 => var("x"),
            1 => bin(B::Add, var("x"), k(1)),
            2 => E::FunctionCall { function: "g".into(), arguments: vec![var("y")] },
            3 => k(7),
            4 => bin(B::LessThan, var("x"), var("y")),
            _ => E::Ternary { condition: Box::new(bin(B::GreaterThan, var("x"), k(0))), then_expr: Box::new(var("x")), else_expr: Box::new(var("y")) },
        },
        b'c' => match sym::choice(5) {
            0 => var("c"),
            1 => E::CharLiteral(b'q' as i8),
            2 => E::CharLiteral(b'\'' as i8),
            3 => bin(B::Add, var("c"), k(0)),
            _ => E::CharLiteral(b'{' as i8),
        },
        b's' => lit(sym::pick(&["abc", "", "{}", "%d", "a\\n"])),
        _ => match sym::choice(2) {
            0 => var("u"),
            _ => bin(B::BitwiseXor, var("u"), var("w")),
        },
    }
}
fn simple(conv: u8) -> E {
    match conv {
        b'd' | b'i' => var("x"),
        b'c' => var("c"),
        b's' => lit("ab"),
        _ => var("u"),
    }
}
fn conv() -> u8 {
    sym::pick(&[b'd', b'i', b'u', b'x', b'X', b'o', b'c', b's'])
}
fn run(mut body: Vec<S>) {
    body.push(S::Return(Some(k(0))));
    compare(Case {
        ret: T::I32,
        params: vec![("x", T::I32), ("y", T::I32), ("u", T::U32), ("w", T::U32), ("c", T::Ch)],
        body,
        narrow: 0,
        fuel: 60,
        strict: true,
    })
}
fn printf(fmt: &str, mut args: Vec<E>) -> S {
    args.insert(0, lit(fmt));
    S::Expression(E::FunctionCall { function: "printf".into(), arguments: args })
}
/// One conversion with flags and width between two texts.
pub fn one() {
    let cv = conv();
    let fl = sym::pick(&["", "-", "0", "+", "-0", "0-", "+-", "-+", "+0"]);
    let w = sym::pick(&["", "1", "5", "12"]);
    let (cnv, intl) = (cv as char, cv != b'c' && cv != b's');
    // undefined in C: 0 with c and s, + with an unsigned conversion has no effect
    sym::assume(intl || !fl.contains('0') && !fl.contains('+'));
    // right-aligned strings are in `str_`
    sym::assume(cv != b's' || w.is_empty() || fl == "-");
    sym::assume(fl != "+0" && fl != "+" && fl != "+-" && fl != "-+" || cv == b'd' || cv == b'i');
    let mut f = String::from(sym::pick(&["", "%%", "{"]));
    f.push('%');
    f.push_str(fl);
    f.push_str(w);
    f.push(cnv);
    f.push_str(sym::pick(&["", "d", "}"]));
    run(vec![printf(&f, vec![simple(cv)])])
}
/// Texts without conversions, by printf and puts.
pub fn text() {
    let mut f = String::from(sym::pick(&TEXT));
    f.push_str(sym::pick(&TEXT));
    let s = match sym::choice(2) {
        0 => printf(&f, vec![]),
        _ => S::Expression(E::FunctionCall { function: "puts".into(), arguments: vec![lit(&f)] }),
    };
    run(vec![s])
}
/// Two conversions with arguments of every form.
pub fn two() {
    let (a, b) = (conv(), conv());
    let mut f = String::new();
    f.push('%');
    f.push(a as char);
    f.push_str(sym::pick(&["", " ", "%%"]));
    f.push('%');
    f.push(b as char);
    let args = if sym::bool() { vec![arg(a), simple(b)] } else { vec![simple(a), arg(b)] };
    run(vec![printf(&f, args)])
}
/// Three conversions: every argument reaches its own.
pub fn three() {
    let mut f = String::new();
    let mut args = vec![];
    for i in 0..3 {
        let c = sym::pick(&[b'd', b'x', b'c', b's']);
        f.push('%');
        if sym::bool() {
            f.push_str(if c == b's' { "-4" } else { "4" });
        }
        f.push(c as char);
        args.push(match (c, i) {
            (b'd', 1) => var("y"),
            (b'x', 1) => var("w"),
            (b'd', 2) => k(3),
            (b's', 1) => lit("{"),
            _ => simple(c),
        });
    }
    run(vec![printf(&f, args)])
}
/// Escapes of every kind, in formats and in arguments.
pub fn esc() {
    let e = sym::pick(&[
        "\\n", "\\t", "\\r", "\\a", "\\b", "\\f", "\\v", "\\\\", "\\\"", "\\'", "\\?", "\\0", "\\7", "\\12", "\\101", "\\1019", "\\18", "\\x41", "\\x7", "\\x7e",
    ]);
    let (mut f, g) = (String::from(sym::pick(&["", "{", "\\\\"])), sym::pick(&["", "1", "n", "\\n", "z"]));
    f.push_str(e);
    // a hexadecimal escape takes every digit that follows, and a NUL ends a string
    sym::assume(e != "\\0" && !(e.starts_with("\\x") && g == "1"));
    f.push_str(g);
    let s = match sym::choice(3) {
        0 => printf(&f, vec![]),
        1 => printf("%s", vec![lit(&f)]),
        _ => S::Expression(E::FunctionCall { function: "puts".into(), arguments: vec![lit(&f)] }),
    };
    run(vec![s])
}
/// Lengths of conversions.
pub fn len() {
    let cv = sym::pick(&[b'd', b'i', b'u', b'x', b'X', b'o']);
    let l = sym::pick(&["l", "ll", "h", "hh"]);
    let mut f = String::from("%");
    f.push_str(sym::pick(&["", "-6", "06", "3"]));
    f.push_str(l);
    f.push(cv as char);
    f.push_str(sym::pick(&["", "l", "%%", " %c"]));
    let mut a = vec![if l.starts_with('h') { var("c") } else { simple(cv) }];
    if f.ends_with('c') {
        a.push(var("c"));
    }
    run(vec![printf(&f, a)])
}
/// Strings cut and padded.
pub fn str_() {
    let mut f = String::from("%");
    f.push_str(sym::pick(&["", "-", "-3", "-6", "6", "3"]));
    f.push_str(sym::pick(&["", ".0", ".2", ".9"]));
    f.push_str("s|");
    run(vec![printf(&f, vec![lit(sym::pick(&["", "a", "abcd", "{}"]))])])
}
/// Output in the flow of control.
pub fn flow() {
    let p = || match sym::choice(3) {
        0 => printf("x", vec![]),
        1 => printf("%d\\n", vec![var("x")]),
        _ => S::Expression(E::FunctionCall { function: "puts".into(), arguments: vec![lit("{}")] }),
    };
    let cond = bin(B::LessThan, var("x"), var("y"));
    let body = match sym::choice(3) {
        0 => vec![S::If { condition: cond, then_block: vec![p()], else_block: Some(vec![p()]) }, p()],
        1 => vec![
            S::For {
                init: vec![S::VariableDeclaration { name: "i".into(), var_type: HirType::Int, initializer: Some(k(0)) }],
                condition: Some(bin(B::LessThan, var("i"), k(3))),
                increment: vec![S::Assignment { target: "i".into(), value: bin(B::Add, var("i"), k(1)) }],
                body: vec![p(), printf("%d%c", vec![var("i"), var("c")])],
            },
            p(),
        ],
        _ => vec![p(), S::Expression(E::FunctionCall { function: "g".into(), arguments: vec![var("x")] }), p()],
    };
    run(body)
}
