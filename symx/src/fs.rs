//! In-memory file system behind the libc calls of std::fs: names are concrete, contents may be symbolic.
//! Directories are implicit (creating one always succeeds); no permissions, links or concurrent changes.
use crate::exec::*;
use crate::ir::Ty;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Fs {
    files: Rc<BTreeMap<Vec<u8>, Rc<Vec<SymB>>>>,
    dirs: Rc<BTreeMap<Vec<u8>, ()>>,
    fds: Vec<Option<(Vec<u8>, usize)>>,
}

const ENOENT: u64 = 2;

impl Exec {
    fn path(&mut self, st: &mut State, v: &Val) -> Result<Vec<u8>, End> {
        let a = self.cval(st, v) as u64;
        let mut s = vec![];
        loop {
            let b = self.load_scalar(st, &Val::C(a + s.len() as u64), 1, 8)?;
            let b = self.cval(st, &b) as u8;
            if b == 0 {
                break;
            }
            s.push(b);
        }
        // lexical normalisation: no "." components, no doubled or trailing slashes
        let abs = s.first() == Some(&b'/');
        let mut out: Vec<&[u8]> = vec![];
        for c in s.split(|b| *b == b'/') {
            match c {
                b"" | b"." => {}
                b".." if !out.is_empty() && out.last() != Some(&&b".."[..]) => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        let mut r: Vec<u8> = if abs { vec![b'/'] } else { vec![] };
        r.extend(out.join(&b'/'));
        Ok(r)
    }
    fn stat(&mut self, st: &mut State, a: u64, size: u64, dir: bool) -> Result<(), End> {
        for i in 0..16 {
            self.store_ty(st, a + i * 8, &Ty::Int(64), &Val::C(0))?;
        }
        self.store_ty(st, a + 16, &Ty::Int(32), &Val::C(if dir { 0o040755 } else { 0o100644 }))?;
        self.store_ty(st, a + 20, &Ty::Int(32), &Val::C(1))?;
        self.store_ty(st, a + 48, &Ty::Int(64), &Val::C(size))?;
        Ok(())
    }
    fn errno(&mut self, st: &mut State, e: u64) -> Result<Option<Val>, End> {
        let a = self.p.errno;
        self.store_ty(st, a, &Ty::Int(32), &Val::C(e))?;
        Ok(Some(Val::C(u64::MAX)))
    }
    pub fn fs_call(&mut self, st: &mut State, name: &str, av: &[Val]) -> Result<Option<Val>, End> {
        match name {
            "statx" => self.errno(st, 38),
            "open64" | "open" => {
                let p = self.path(st, &av[0])?;
                let flags = self.cval(st, &av[1]) as u64;
                if !st.fs.files.contains_key(&p) {
                    if flags & 0x40 == 0 {
                        return self.errno(st, ENOENT);
                    }
                    Rc::make_mut(&mut st.fs.files).insert(p.clone(), Rc::new(vec![]));
                } else if flags & 0x200 != 0 {
                    Rc::make_mut(&mut st.fs.files).insert(p.clone(), Rc::new(vec![]));
                }
                st.fs.fds.push(Some((p, 0)));
                Ok(Some(Val::C(99 + st.fs.fds.len() as u64)))
            }
            "close" => {
                let fd = (self.cval(st, &av[0]) as u64 & 0xffff_ffff).wrapping_sub(100) as usize;
                if let Some(f) = st.fs.fds.get_mut(fd) {
                    *f = None;
                }
                Ok(Some(Val::C(0)))
            }
            "fstat64" | "fstat" => {
                let fd = (self.cval(st, &av[0]) as u64 & 0xffff_ffff).wrapping_sub(100) as usize;
                let a = self.cval(st, &av[1]) as u64;
                let n = match st.fs.fds.get(fd) {
                    Some(Some((p, _))) => st.fs.files.get(p).map(|c| c.len()).unwrap_or(0),
                    _ => return self.errno(st, 9),
                };
                self.stat(st, a, n as u64, false)?;
                Ok(Some(Val::C(0)))
            }
            "stat64" | "lstat64" | "stat" | "lstat" => {
                let p = self.path(st, &av[0])?;
                let a = self.cval(st, &av[1]) as u64;
                if let Some(c) = st.fs.files.get(&p) {
                    let n = c.len() as u64;
                    self.stat(st, a, n, false)?;
                    return Ok(Some(Val::C(0)));
                }
                if st.fs.dirs.contains_key(&p) {
                    self.stat(st, a, 0, true)?;
                    return Ok(Some(Val::C(0)));
                }
                self.errno(st, ENOENT)
            }
            "lseek64" | "lseek" => {
                let fd = (self.cval(st, &av[0]) as u64 & 0xffff_ffff).wrapping_sub(100) as usize;
                let off = self.cval(st, &av[1]) as u64 as i64;
                let whence = self.cval(st, &av[2]) as u64 & 0xffff_ffff;
                let fs = &mut st.fs;
                match fs.fds.get_mut(fd) {
                    Some(Some((p, pos))) => {
                        let base = match whence {
                            0 => 0,
                            1 => *pos as i64,
                            _ => fs.files.get(p).map(|c| c.len()).unwrap_or(0) as i64,
                        };
                        *pos = (base + off).max(0) as usize;
                        Ok(Some(Val::C(*pos as u64)))
                    }
                    _ => self.errno(st, 9),
                }
            }
            "read" => {
                let fd = (self.cval(st, &av[0]) as u64 & 0xffff_ffff).wrapping_sub(100) as usize;
                let (a, n) = (self.cval(st, &av[1]) as u64, self.cval(st, &av[2]) as u64 as usize);
                let (p, pos) = match st.fs.fds.get(fd) {
                    Some(Some(x)) => x.clone(),
                    _ => return self.errno(st, 9),
                };
                let c = st.fs.files.get(&p).cloned().unwrap_or_default();
                let k = n.min(c.len().saturating_sub(pos));
                for i in 0..k {
                    let b = c[pos + i];
                    let v = if b.e == 0 { Val::C(b.idx as u64) } else { Val::S(self.bexpr(b)) };
                    self.store_ty(st, a + i as u64, &Ty::Int(8), &v)?;
                }
                st.fs.fds[fd] = Some((p, pos + k));
                Ok(Some(Val::C(k as u64)))
            }
            "fs_write" => {
                let fd = (self.cval(st, &av[0]) as u64 & 0xffff_ffff).wrapping_sub(100) as usize;
                let (a, n) = (self.cval(st, &av[1]) as u64, self.cval(st, &av[2]) as u64);
                let (p, pos) = match st.fs.fds.get(fd) {
                    Some(Some(x)) => x.clone(),
                    _ => return self.errno(st, 9),
                };
                let b = match self.bytes(st, a, n) {
                    Some(b) => b,
                    None => return Err(End::Ub("write range".into())),
                };
                let files = Rc::make_mut(&mut st.fs.files);
                let c = Rc::make_mut(files.entry(p.clone()).or_default());
                c.truncate(pos);
                c.extend(b);
                let e = c.len();
                st.fs.fds[fd] = Some((p, e));
                Ok(Some(Val::C(n)))
            }
            "mkdir" => {
                let p = self.path(st, &av[0])?;
                if st.fs.dirs.contains_key(&p) {
                    return self.errno(st, 17);
                }
                Rc::make_mut(&mut st.fs.dirs).insert(p, ());
                Ok(Some(Val::C(0)))
            }
            "unlink" => {
                let p = self.path(st, &av[0])?;
                if Rc::make_mut(&mut st.fs.files).remove(&p).is_none() {
                    return self.errno(st, ENOENT);
                }
                Ok(Some(Val::C(0)))
            }
            _ => Ok(None),
        }
    }
}
