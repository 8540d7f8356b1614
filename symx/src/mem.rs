//! Byte-granular memory with concrete addresses (object id << 32 | offset) and copy-on-write sharing.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq)]
pub struct SymB {
    pub e: E, // 0 = concrete
    pub idx: u8,
}
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<SymB>>>,
    pub ro: bool,
}
const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
}
#[derive(Clone)]
pub enum Val {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

pub fn addr(id: u32, off: u64) -> u64 {
    ((id as u64) << 32).wrapping_add(off)
}

impl Mem {
    pub fn alloc(&mut self, data: Vec<u8>, ro: bool) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next = self.next.max(1) + 1;
                self.next - 1
            }
        };
        let ci = id as usize / CH;
        while self.chunks.len() <= ci {
            self.chunks.push(Rc::new(std::array::from_fn(|_| None)));
        }
        let c = Rc::make_mut(&mut self.chunks[ci]);
        c[id as usize % CH] = Some(Rc::new(Obj { data, sym: None, ro }));
        id
    }
    pub fn release(&mut self, id: u32) {
        let ci = id as usize / CH;
        if let Some(c) = self.chunks.get_mut(ci) {
            let c = Rc::make_mut(c);
            if c[id as usize % CH].take().is_some() {
                self.free.push(id);
            }
        }
    }
    pub fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_deref())
    }
    pub fn get_rc(&self, id: u32) -> Option<Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].clone())
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    /// Locate n bytes at address a.
    pub fn find(&self, a: u64, n: u64) -> Option<(u32, usize)> {
        let id = (a >> 32) as u32;
        let off = a & 0xffff_ffff;
        let o = self.get(id)?;
        if off + n <= o.data.len() as u64 {
            Some((id, off as usize))
        } else {
            None
        }
    }
    pub fn load(&self, x: &mut Ctx, a: u64, n: u64, bits: u16) -> Option<Val> {
        let id = (a >> 32) as u32;
        let off = (a & 0xffff_ffff) as usize;
        let o = self.get(id)?;
        let n = n as usize;
        if off + n > o.data.len() {
            return None;
        }
        Some(load_obj(o, x, off, n, bits))
    }
    pub fn store(&mut self, x: &Ctx, a: u64, n: u64, v: &Val) -> Result<(), &'static str> {
        let id = (a >> 32) as u32;
        let off = (a & 0xffff_ffff) as usize;
        let n = n as usize;
        let o = match self.get_mut(id) {
            Some(o) => o,
            None => return Err("store to invalid object"),
        };
        if off + n > o.data.len() {
            return Err("store out of bounds");
        }
        if o.ro {
            return Err("store to constant");
        }
        match v {
            Val::C(k) => {
                let b = k.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    o.data[off + 8..off + n].fill(0);
                }
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(SymB { e: 0, idx: 0 });
                }
            }
            Val::W(k) => {
                let b = k.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(SymB { e: 0, idx: 0 });
                }
            }
            Val::S(e) => {
                let len = o.data.len();
                let s = o
                    .sym
                    .get_or_insert_with(|| Box::new(vec![SymB { e: 0, idx: 0 }; len]));
                debug_assert!(x.w(*e) as usize == n * 8);
                for i in 0..n {
                    s[off + i] = SymB { e: *e, idx: i as u8 };
                }
            }
            Val::A(_) => return Err("store aggregate"),
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), &'static str> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.find(src, n).ok_or("memcpy source out of bounds")?;
        let (di, d_o) = self.find(dst, n).ok_or("memcpy destination out of bounds")?;
        let n = n as usize;
        if si == di {
            let o = self.get_mut(di).unwrap();
            if o.ro {
                return Err("memcpy to constant");
            }
            o.data.copy_within(so..so + n, d_o);
            if let Some(s) = &mut o.sym {
                s.copy_within(so..so + n, d_o);
            }
        } else {
            let s = self.get_rc(si).unwrap();
            let o = self.get_mut(di).unwrap();
            if o.ro {
                return Err("memcpy to constant");
            }
            o.data[d_o..d_o + n].copy_from_slice(&s.data[so..so + n]);
            match (&s.sym, &mut o.sym) {
                (None, None) => {}
                (None, Some(d)) => d[d_o..d_o + n].fill(SymB { e: 0, idx: 0 }),
                (Some(sv), d) => {
                    let part = &sv[so..so + n];
                    if d.is_some() || part.iter().any(|b| b.e != 0) {
                        let len = o.data.len();
                        let dv =
                            d.get_or_insert_with(|| Box::new(vec![SymB { e: 0, idx: 0 }; len]));
                        dv[d_o..d_o + n].copy_from_slice(part);
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn load_obj(o: &Obj, x: &mut Ctx, off: usize, n: usize, bits: u16) -> Val {
    if let Some(s) = &o.sym {
        let sl = &s[off..off + n];
        if sl.iter().any(|b| b.e != 0) {
            // same expression, consecutive bytes?
            let f = sl[0];
            if f.e != 0 && sl.iter().enumerate().all(|(i, b)| b.e == f.e && b.idx == f.idx + i as u8) {
                let e = x.extract(f.e, f.idx as u16 * 8, n as u16 * 8);
                return fit(x, e, bits);
            }
            let mut acc: Option<E> = None;
            for i in 0..n {
                let b = sl[i];
                let be = if b.e == 0 {
                    x.cst(8, o.data[off + i] as u128)
                } else {
                    x.extract(b.e, b.idx as u16 * 8, 8)
                };
                acc = Some(match acc {
                    None => be,
                    Some(a) => x.bin(Op::Concat, be, a),
                });
            }
            let e = acc.unwrap();
            return fit(x, e, bits);
        }
    }
    let d = &o.data[off..off + n];
    if n <= 8 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(d);
        let v = u64::from_le_bytes(b);
        Val::C(if bits < 64 { v & ((1u64 << bits) - 1) } else { v })
    } else {
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(d);
        Val::W(Rc::new(u128::from_le_bytes(b)))
    }
}
pub fn fit(x: &mut Ctx, e: E, bits: u16) -> Val {
    let e = if x.w(e) > bits { x.extract(e, 0, bits) } else { e };
    match x.as_const(e) {
        Some(k) if bits <= 64 => Val::C(k as u64),
        Some(k) => Val::W(Rc::new(k)),
        None => Val::S(e),
    }
}
