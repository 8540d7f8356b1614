//! Reference semantics: a direct interpreter of C (the meaning of the HIR) on 32-bit `int`, `unsigned`,
//! `signed char`, `char` (restricted to 0..127), `_Bool`, fixed-size int arrays and struct fields.
//! Undefined behaviour prunes the path: the translation promises nothing there.
use crate::sym;
use decy_hir::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    I32,
    U32,
    I8,
    Ch,
    Bool,
}
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: i64,
    pub t: T,
}
pub fn ival(v: i64) -> V {
    V { v, t: T::I32 }
}
/// Why evaluation stopped early.
#[derive(Clone, Debug)]
pub enum Stop {
    Break,
    Continue,
    Return(Option<V>),
    Fuel,
    Unsup,
}
pub type R<A> = Result<A, Stop>;

pub fn ty(t: &HirType) -> Option<T> {
    Some(match t {
        HirType::Int => T::I32,
        HirType::UnsignedInt => T::U32,
        HirType::SignedChar => T::I8,
        HirType::Char => T::Ch,
        HirType::Bool => T::Bool,
        _ => return None,
    })
}
pub fn hty(t: T) -> HirType {
    match t {
        T::I32 => HirType::Int,
        T::U32 => HirType::UnsignedInt,
        T::I8 => HirType::SignedChar,
        T::Ch => HirType::Char,
        T::Bool => HirType::Bool,
    }
}
/// Implementation-defined conversions follow the usual two's-complement rule.
pub fn conv(x: V, t: T) -> V {
    let v = match t {
        T::I32 => x.v as i32 as i64,
        T::U32 => x.v as u32 as i64,
        T::I8 => x.v as i8 as i64,
        T::Ch => {
            let c = x.v as i8 as i64;
            // plain char: only the range on which signed and unsigned char agree is in scope
            sym::assume(c >= 0);
            c
        }
        T::Bool => (x.v != 0) as i64,
    };
    V { v, t }
}
fn promote(x: V) -> V {
    match x.t {
        T::U32 => x,
        _ => V { v: x.v, t: T::I32 },
    }
}
pub fn in_i32(v: i64) -> bool {
    (v >= i32::MIN as i64) & (v <= i32::MAX as i64)
}
pub fn arith(op: BinaryOperator, a: V, b: V) -> R<V> {
    use BinaryOperator::*;
    let (a, b) = (promote(a), promote(b));
    if matches!(op, LeftShift | RightShift) {
        sym::assume((b.v >= 0) & (b.v < 32));
        let s = (b.v & 31) as u32;
        return Ok(match (op, a.t) {
            (LeftShift, T::U32) => V { v: ((a.v as u32) << s) as i64, t: T::U32 },
            (LeftShift, _) => {
                let r = (a.v as u64 as i64) << s;
                sym::assume((a.v >= 0) & in_i32(r));
                ival(r)
            }
            (_, T::U32) => V { v: ((a.v as u32) >> s) as i64, t: T::U32 },
            _ => ival(((a.v as i32) >> s) as i64),
        });
    }
    let t = if a.t == T::U32 || b.t == T::U32 { T::U32 } else { T::I32 };
    let (x, y) = (conv(a, t).v, conv(b, t).v);
    let int = |v: i64| -> V {
        if t == T::U32 {
            V { v: v as u32 as i64, t }
        } else {
            sym::assume(in_i32(v));
            V { v: v as i32 as i64, t }
        }
    };
    let cmp = |c: bool| ival(c as i64);
    Ok(match op {
        Add => int(x + y),
        Subtract => int(x - y),
        Multiply => int(x.wrapping_mul(y)),
        Divide | Modulo => {
            sym::assume(y != 0);
            if t == T::U32 {
                let (p, q) = (x as u32, y as u32);
                let r = if matches!(op, Divide) { p.wrapping_div(q) } else { p.wrapping_rem(q) };
                V { v: r as i64, t }
            } else {
                let (p, q) = (x as i32, y as i32);
                sym::assume(!((p == i32::MIN) & (q == -1)));
                let r = if matches!(op, Divide) { p.wrapping_div(q) } else { p.wrapping_rem(q) };
                V { v: r as i64, t }
            }
        }
        BitwiseAnd => V { v: conv(V { v: x & y, t }, t).v, t },
        BitwiseOr => V { v: conv(V { v: x | y, t }, t).v, t },
        BitwiseXor => V { v: conv(V { v: x ^ y, t }, t).v, t },
        Equal => cmp(x == y),
        NotEqual => cmp(x != y),
        LessThan => cmp(x < y),
        LessEqual => cmp(x <= y),
        GreaterThan => cmp(x > y),
        GreaterEqual => cmp(x >= y),
        _ => return Err(Stop::Unsup),
    })
}

#[derive(Clone)]
pub enum Slot {
    S(V),
    Arr(Vec<V>),
    St(Vec<(&'static str, V)>),
    Ptr(usize), // points to slot index
}

pub struct C {
    /// name, slot; innermost last
    pub vars: Vec<(String, Slot)>,
    pub calls: Vec<(String, Vec<i64>)>,
    pub fuel: u32,
    pub enums: Vec<(&'static str, i64)>,
    /// the other functions of the program
    pub funcs: Vec<std::rc::Rc<HirFunction>>,
    /// vars[..globals] are the file's, vars[base..] those of the running function
    pub globals: usize,
    pub base: usize,
}
impl C {
    pub fn new(fuel: u32) -> C {
        C { vars: vec![], calls: vec![], fuel, enums: vec![], funcs: vec![], globals: 0, base: 0 }
    }
    pub fn bind(&mut self, n: &str, v: V) {
        self.vars.push((n.to_string(), Slot::S(v)));
    }
    pub fn slot(&self, n: &str) -> R<usize> {
        for i in (self.base..self.vars.len()).rev().chain(0..self.globals.min(self.base)) {
            if self.vars[i].0 == n {
                return Ok(i);
            }
        }
        Err(Stop::Unsup)
    }
    pub fn slot_global(&self, n: &str) -> Option<usize> {
        self.vars[..self.globals].iter().position(|v| v.0 == n)
    }
    fn tick(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    pub fn get(&self, n: &str) -> R<V> {
        if let Ok(i) = self.slot(n) {
            return match &self.vars[i].1 {
                Slot::S(v) => Ok(*v),
                _ => Err(Stop::Unsup),
            };
        }
        for (k, v) in &self.enums {
            if *k == n {
                return Ok(ival(*v));
            }
        }
        Err(Stop::Unsup)
    }
    pub fn set(&mut self, n: &str, v: V) -> R<V> {
        let i = self.slot(n)?;
        match &mut self.vars[i].1 {
            Slot::S(o) => {
                let r = conv(v, o.t);
                *o = r;
                Ok(r)
            }
            _ => Err(Stop::Unsup),
        }
    }
    fn incdec(&mut self, e: &HirExpression, d: i64, post: bool) -> R<V> {
        let old = self.load(e)?;
        let n = arith(BinaryOperator::Add, old, ival(d))?;
        let new = self.store(e, n)?;
        Ok(if post { old } else { new })
    }
    pub fn load(&mut self, e: &HirExpression) -> R<V> {
        match e {
            HirExpression::Variable(n) => self.get(n),
            HirExpression::ArrayIndex { array, index } => {
                let (s, i) = self.elem(array, index)?;
                match &self.vars[s].1 {
                    Slot::Arr(v) => Ok(v[i]),
                    _ => Err(Stop::Unsup),
                }
            }
            HirExpression::FieldAccess { object, field } => {
                let s = self.object(object)?;
                match &self.vars[s].1 {
                    Slot::St(f) => {
                        for (k, v) in f {
                            if *k == field {
                                return Ok(*v);
                            }
                        }
                        Err(Stop::Unsup)
                    }
                    _ => Err(Stop::Unsup),
                }
            }
            HirExpression::PointerFieldAccess { pointer, field } => {
                let s = self.pointee(pointer)?;
                match &self.vars[s].1 {
                    Slot::St(f) => {
                        for (k, v) in f {
                            if *k == field {
                                return Ok(*v);
                            }
                        }
                        Err(Stop::Unsup)
                    }
                    _ => Err(Stop::Unsup),
                }
            }
            HirExpression::Dereference(p) => {
                let s = self.pointee(p)?;
                match &self.vars[s].1 {
                    Slot::S(v) => Ok(*v),
                    _ => Err(Stop::Unsup),
                }
            }
            _ => Err(Stop::Unsup),
        }
    }
    fn object(&mut self, e: &HirExpression) -> R<usize> {
        match e {
            HirExpression::Variable(n) => {
                let s = self.slot(n)?;
                Ok(s)
            }
            HirExpression::Dereference(p) => self.pointee(p),
            _ => Err(Stop::Unsup),
        }
    }
    fn pointee(&mut self, e: &HirExpression) -> R<usize> {
        match e {
            HirExpression::Variable(n) => {
                let s = self.slot(n)?;
                match self.vars[s].1 {
                    Slot::Ptr(k) => Ok(k),
                    _ => Err(Stop::Unsup),
                }
            }
            HirExpression::AddressOf(e) => self.object(e),
            _ => Err(Stop::Unsup),
        }
    }
    fn elem(&mut self, array: &HirExpression, index: &HirExpression) -> R<(usize, usize)> {
        let s = match array {
            HirExpression::Variable(n) => self.slot(n)?,
            _ => return Err(Stop::Unsup),
        };
        let s = match self.vars[s].1 {
            Slot::Ptr(k) => k,
            _ => s,
        };
        let i = self.eval(index)?.v;
        let n = match &self.vars[s].1 {
            Slot::Arr(v) => v.len(),
            _ => return Err(Stop::Unsup),
        };
        sym::assume((i >= 0) & (i < n as i64));
        Ok((s, sym::conc(i as u64) as usize))
    }
    pub fn store(&mut self, e: &HirExpression, x: V) -> R<V> {
        match e {
            HirExpression::Variable(n) => self.set(n, x),
            HirExpression::ArrayIndex { array, index } => {
                let (s, i) = self.elem(array, index)?;
                match &mut self.vars[s].1 {
                    Slot::Arr(v) => {
                        let r = conv(x, v[i].t);
                        v[i] = r;
                        Ok(r)
                    }
                    _ => Err(Stop::Unsup),
                }
            }
            HirExpression::FieldAccess { object, field } => {
                let s = self.object(object)?;
                self.set_field(s, field, x)
            }
            HirExpression::PointerFieldAccess { pointer, field } => {
                let s = self.pointee(pointer)?;
                self.set_field(s, field, x)
            }
            HirExpression::Dereference(p) => {
                let s = self.pointee(p)?;
                match &mut self.vars[s].1 {
                    Slot::S(o) => {
                        let r = conv(x, o.t);
                        *o = r;
                        Ok(r)
                    }
                    _ => Err(Stop::Unsup),
                }
            }
            _ => Err(Stop::Unsup),
        }
    }
    fn set_field(&mut self, s: usize, field: &str, x: V) -> R<V> {
        match &mut self.vars[s].1 {
            Slot::St(f) => {
                for (k, o) in f.iter_mut() {
                    if *k == field {
                        let r = conv(x, o.t);
                        *o = r;
                        return Ok(r);
                    }
                }
                Err(Stop::Unsup)
            }
            _ => Err(Stop::Unsup),
        }
    }
    pub fn truth(&mut self, e: &HirExpression) -> R<bool> {
        Ok(self.eval(e)?.v != 0)
    }
    pub fn eval(&mut self, e: &HirExpression) -> R<V> {
        use HirExpression as E;
        Ok(match e {
            E::IntLiteral(k) => ival(*k as i64),
            E::CharLiteral(c) => ival(*c as i64),
            E::BinaryOp { op, left, right } => match op {
                BinaryOperator::LogicalAnd => {
                    if !self.truth(left)? {
                        ival(0)
                    } else {
                        ival(self.truth(right)? as i64)
                    }
                }
                BinaryOperator::LogicalOr => {
                    if self.truth(left)? {
                        ival(1)
                    } else {
                        ival(self.truth(right)? as i64)
                    }
                }
                BinaryOperator::Comma => {
                    self.eval(left)?;
                    self.eval(right)?
                }
                BinaryOperator::Assign => {
                    let v = self.eval(right)?;
                    self.store(left, v)?
                }
                _ => {
                    let a = self.eval(left)?;
                    let b = self.eval(right)?;
                    arith(*op, a, b)?
                }
            },
            E::UnaryOp { op, operand } => match op {
                UnaryOperator::Minus => {
                    let a = promote(self.eval(operand)?);
                    arith(BinaryOperator::Subtract, V { v: 0, t: a.t }, a)?
                }
                UnaryOperator::LogicalNot => ival(!self.truth(operand)? as i64),
                UnaryOperator::BitwiseNot => {
                    let a = promote(self.eval(operand)?);
                    conv(V { v: !a.v, t: a.t }, a.t)
                }
                UnaryOperator::PostIncrement => self.incdec(operand, 1, true)?,
                UnaryOperator::PostDecrement => self.incdec(operand, -1, true)?,
                UnaryOperator::PreIncrement => self.incdec(operand, 1, false)?,
                UnaryOperator::PreDecrement => self.incdec(operand, -1, false)?,
                UnaryOperator::AddressOf => return Err(Stop::Unsup),
            },
            E::PostIncrement { operand } => self.incdec(operand, 1, true)?,
            E::PostDecrement { operand } => self.incdec(operand, -1, true)?,
            E::PreIncrement { operand } => self.incdec(operand, 1, false)?,
            E::PreDecrement { operand } => self.incdec(operand, -1, false)?,
            #[cfg(feature = "cg")]
            E::FunctionCall { function, arguments } if function == "printf" || function == "puts" => {
                crate::h_fmt::c_output(self, function, arguments)?
            }
            E::FunctionCall { function, arguments } if self.funcs.iter().any(|f| f.name() == function) => {
                match self.call(function, arguments)? {
                    Some(v) => v,
                    None => ival(0), // the value of a void function is not used
                }
            }
            E::FunctionCall { function, arguments } => {
                let mut a = vec![];
                for x in arguments {
                    a.push(self.eval(x)?.v);
                }
                // an uninterpreted but deterministic external function
                let r = extern_result(function, &a);
                self.calls.push((function.clone(), a));
                ival(r)
            }
            E::Cast { target_type, expr } => {
                let t = ty(target_type).ok_or(Stop::Unsup)?;
                let v = self.eval(expr)?;
                conv(v, t)
            }
            E::Ternary { condition, then_expr, else_expr } => {
                if self.truth(condition)? {
                    self.eval(then_expr)?
                } else {
                    self.eval(else_expr)?
                }
            }
            _ => self.load(e)?,
        })
    }
    fn call(&mut self, f: &str, args: &[HirExpression]) -> R<Option<V>> {
        let f = match self.funcs.iter().find(|g| g.name() == f) {
            Some(f) => f.clone(),
            None => return Err(Stop::Unsup),
        };
        let mut frame = vec![];
        for (p, a) in f.parameters().iter().zip(args) {
            let s = match p.param_type() {
                HirType::Pointer(_) | HirType::Array { .. } => Slot::Ptr(match a {
                    HirExpression::AddressOf(e) => self.object(e)?,
                    HirExpression::Variable(n) => {
                        let s = self.slot(n)?;
                        match self.vars[s].1 {
                            Slot::Ptr(k) => k,
                            _ => s,
                        }
                    }
                    _ => return Err(Stop::Unsup),
                }),
                HirType::Struct(_) => {
                    let s = self.object(a)?;
                    self.vars[s].1.clone()
                }
                t => Slot::S(conv(self.eval(a)?, ty(t).ok_or(Stop::Unsup)?)),
            };
            frame.push((p.name().to_string(), s));
        }
        let (n, base) = (self.vars.len(), self.base);
        self.base = n;
        self.vars.extend(frame);
        self.tick()?;
        let r = self.stmts(f.body());
        self.vars.truncate(n);
        self.base = base;
        match r {
            Ok(()) => Ok(None),
            Err(Stop::Return(v)) => Ok(match (v, ty(f.return_type())) {
                (Some(v), Some(t)) => Some(conv(v, t)),
                _ => None,
            }),
            Err(e) => Err(e),
        }
    }
    pub fn block(&mut self, b: &[HirStatement]) -> R<()> {
        let n = self.vars.len();
        let r = self.stmts(b);
        self.vars.truncate(n);
        r
    }
    pub fn stmts(&mut self, b: &[HirStatement]) -> R<()> {
        for s in b {
            self.stmt(s)?;
        }
        Ok(())
    }
    pub fn stmt(&mut self, s: &HirStatement) -> R<()> {
        use HirStatement as S;
        self.tick()?;
        match s {
            S::VariableDeclaration { name, var_type, initializer } => {
                match var_type {
                    HirType::Array { element_type, size: Some(n) } => {
                        let t = ty(element_type).ok_or(Stop::Unsup)?;
                        let mut v = vec![V { v: 0, t }; *n];
                        if let Some(HirExpression::CompoundLiteral { initializers, .. }) = initializer {
                            for (i, e) in initializers.iter().enumerate() {
                                v[i] = conv(self.eval(e)?, t);
                            }
                        }
                        self.vars.push((name.clone(), Slot::Arr(v)));
                    }
                    HirType::Struct(_) => {
                        let mut v = vec![("a", ival(0)), ("b", ival(0))];
                        match initializer {
                            Some(HirExpression::CompoundLiteral { initializers, .. }) => {
                                for (i, e) in initializers.iter().enumerate() {
                                    v[i].1 = conv(self.eval(e)?, T::I32);
                                }
                            }
                            None => {}
                            _ => return Err(Stop::Unsup),
                        }
                        self.vars.push((name.clone(), Slot::St(v)));
                    }
                    _ => {
                        let t = ty(var_type).ok_or(Stop::Unsup)?;
                        let v = match initializer {
                            Some(e) => {
                                let x = self.eval(e)?;
                                conv(x, t)
                            }
                            None => V { v: 0, t },
                        };
                        self.vars.push((name.clone(), Slot::S(v)));
                    }
                }
                Ok(())
            }
            S::Return(e) => {
                let v = match e {
                    Some(e) => Some(self.eval(e)?),
                    None => None,
                };
                Err(Stop::Return(v))
            }
            S::If { condition, then_block, else_block } => {
                if self.truth(condition)? {
                    self.block(then_block)
                } else if let Some(b) = else_block {
                    self.block(b)
                } else {
                    Ok(())
                }
            }
            S::While { condition, body } => {
                // do_while(c) stands for the condition after the body
                let (condition, mut first) = match condition {
                    HirExpression::FunctionCall { function, arguments } if function == "do_while" => (&arguments[0], true),
                    c => (c, false),
                };
                loop {
                    self.tick()?;
                    if !first && !self.truth(condition)? {
                        break;
                    }
                    first = false;
                    match self.block(body) {
                        Err(Stop::Break) => break,
                        Err(Stop::Continue) | Ok(()) => {}
                        Err(e) => return Err(e),
                    }
                }
                Ok(())
            }
            S::For { init, condition, increment, body } => {
                let n = self.vars.len();
                let r = self.for_(init, condition, increment, body);
                self.vars.truncate(n);
                r
            }
            S::Switch { condition, cases, default_case } => {
                let v = self.eval(condition)?;
                let mut all: Vec<&HirStatement> = vec![];
                let mut start = None;
                for c in cases {
                    if let Some(e) = &c.value {
                        let k = self.eval(e)?;
                        if start.is_none() && k.v == v.v {
                            start = Some(all.len());
                        }
                    }
                    all.extend(c.body.iter());
                }
                let dstart = all.len();
                if let Some(d) = default_case {
                    all.extend(d.iter());
                }
                let from = start.unwrap_or(dstart);
                let n = self.vars.len();
                let mut r = Ok(());
                for s in &all[from..] {
                    r = self.stmt(s);
                    if r.is_err() {
                        break;
                    }
                }
                self.vars.truncate(n);
                match r {
                    Err(Stop::Break) => Ok(()),
                    r => r,
                }
            }
            S::Break => Err(Stop::Break),
            S::Continue => Err(Stop::Continue),
            S::Assignment { target, value } => {
                let v = self.eval(value)?;
                self.set(target, v)?;
                Ok(())
            }
            S::ArrayIndexAssignment { array, index, value } => {
                let t = HirExpression::ArrayIndex { array: array.clone(), index: index.clone() };
                let v = self.eval(value)?;
                self.store(&t, v)?;
                Ok(())
            }
            S::FieldAssignment { object, field, value } => {
                let v = self.eval(value)?;
                let s = match object {
                    HirExpression::Variable(n) => {
                        let s = self.slot(n)?;
                        match self.vars[s].1 {
                            Slot::Ptr(k) => k,
                            _ => s,
                        }
                    }
                    _ => self.object(object)?,
                };
                self.set_field(s, field, v)?;
                Ok(())
            }
            S::DerefAssignment { target, value } => {
                let v = self.eval(value)?;
                // decy's convention: a DerefAssignment to an element or a field stores directly
                if matches!(
                    target,
                    HirExpression::ArrayIndex { .. }
                        | HirExpression::FieldAccess { .. }
                        | HirExpression::PointerFieldAccess { .. }
                ) {
                    self.store(target, v)?;
                    return Ok(());
                }
                let s = self.pointee(target)?;
                match &mut self.vars[s].1 {
                    Slot::S(o) => {
                        let r = conv(v, o.t);
                        *o = r;
                        Ok(())
                    }
                    _ => Err(Stop::Unsup),
                }
            }
            S::Expression(e) => {
                self.eval(e)?;
                Ok(())
            }
            _ => Err(Stop::Unsup),
        }
    }
    fn for_(
        &mut self,
        init: &[HirStatement],
        condition: &Option<HirExpression>,
        increment: &[HirStatement],
        body: &[HirStatement],
    ) -> R<()> {
        self.stmts(init)?;
        loop {
            self.tick()?;
            if let Some(c) = condition {
                if !self.truth(c)? {
                    break;
                }
            }
            match self.block(body) {
                Err(Stop::Break) => break,
                Err(Stop::Continue) | Ok(()) => {}
                Err(e) => return Err(e),
            }
            self.stmts(increment)?;
        }
        Ok(())
    }
    /// Run a function body; the result is the returned value converted to the return type.
    pub fn run(&mut self, body: &[HirStatement], ret: T) -> R<Option<V>> {
        match self.stmts(body) {
            Ok(()) => Ok(None),
            Err(Stop::Return(v)) => Ok(v.map(|v| conv(v, ret))),
            Err(e) => Err(e),
        }
    }
}
/// Result of the opaque external functions used in the harnesses.
pub fn extern_result(f: &str, a: &[i64]) -> i64 {
    let mut r: i64 = f.len() as i64;
    for x in a {
        r = (r ^ *x) as i32 as i64;
    }
    r
}
