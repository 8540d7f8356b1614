//! Symbolic-input API. Under the engine (riscv64 IR) the functions are intercepted; natively the values of one
//! path are read from a file, so that the very same harness replays a counterexample against the real code.
#[cfg(target_arch = "riscv64")]
mod imp {
    extern "C" {
        pub fn sym_int(bits: u32) -> u64;
        pub fn sym_choice(n: u32) -> u64;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, p: *const u8, n: usize);
        pub fn sym_out(p: *const u8, n: usize);
        pub fn sym_tag(p: *const u8, n: usize);
        pub fn sym_reach(k: u32);
        pub fn sym_panic_ok(k: u32);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_hash(on: u32);
    }
}
#[cfg(not(target_arch = "riscv64"))]
pub mod imp {
    pub static mut VALUES: Vec<u64> = Vec::new();
    pub static mut POS: usize = 0;
    #[allow(static_mut_refs)]
    unsafe fn next() -> u64 {
        let v = VALUES.get(POS).copied();
        POS += 1;
        match v {
            Some(v) => v,
            None => {
                println!("EXHAUSTED");
                std::process::exit(78);
            }
        }
    }
    pub unsafe fn sym_int(_b: u32) -> u64 {
        next()
    }
    pub unsafe fn sym_choice(n: u32) -> u64 {
        next() % n as u64
    }
    pub unsafe fn sym_assume(c: u32) {
        if c == 0 {
            println!("ASSUME");
            std::process::exit(77);
        }
    }
    pub unsafe fn sym_assert(c: u32, p: *const u8, n: usize) {
        if c == 0 {
            let s = std::slice::from_raw_parts(p, n);
            println!("ASSERT {}", String::from_utf8_lossy(s));
            std::process::exit(10);
        }
    }
    pub unsafe fn sym_out(p: *const u8, n: usize) {
        let s = std::slice::from_raw_parts(p, n);
        let h: String = s.iter().map(|b| format!("{:02x}", b)).collect();
        println!("OUT {}", h);
        if std::env::var_os("REPLAY_SHOW").is_some() {
            println!("  | {}", String::from_utf8_lossy(s));
        }
    }
    pub unsafe fn sym_tag(p: *const u8, n: usize) {
        let s = std::slice::from_raw_parts(p, n);
        println!("TAG {}", String::from_utf8_lossy(s));
    }
    pub unsafe fn sym_reach(_k: u32) {}
    pub unsafe fn sym_panic_ok(k: u32) {
        println!("PANICOK {}", k);
    }
    pub unsafe fn sym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_hash(_on: u32) {}
}

pub fn int(bits: u32) -> u64 {
    unsafe { imp::sym_int(bits) }
}
pub fn i32() -> i32 {
    int(32) as i32
}
pub fn u32() -> u32 {
    int(32) as u32
}
pub fn u8() -> u8 {
    int(8) as u8
}
pub fn i64() -> i64 {
    int(64) as i64
}
pub fn u64() -> u64 {
    int(64)
}
pub fn f32() -> f32 {
    f32::from_bits(u32())
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
/// A symbolic value below `n` (stays symbolic).
pub fn below(n: u32) -> u32 {
    let v = u32();
    assume(v < n);
    v
}
pub fn bool() -> bool {
    int(1) != 0
}
/// A symbolic choice that the engine splits on immediately.
pub fn choice(n: usize) -> usize {
    unsafe { imp::sym_choice(n as u32) as usize }
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choice(xs.len())]
}
pub fn conc(v: u64) -> u64 {
    unsafe { imp::sym_conc(v) }
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c as u32) }
}
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    unsafe { imp::sym_assert(c as u32, msg.as_ptr(), msg.len()) }
}
pub fn out(b: &[u8]) {
    unsafe { imp::sym_out(b.as_ptr(), b.len()) }
}
pub fn outs(s: &str) {
    out(s.as_bytes())
}
pub fn outv(v: i64) {
    out(&v.to_le_bytes())
}
pub fn tag(s: &str) {
    unsafe { imp::sym_tag(s.as_ptr(), s.len()) }
}
pub fn reach(k: u32) {
    unsafe { imp::sym_reach(k) }
}
pub fn panic_ok(b: bool) {
    unsafe { imp::sym_panic_ok(b as u32) }
}
/// Runs `f` once under the engine, with the bucket order of any one hash map free; natively (fresh seeds each time) often.
pub fn any_hash_order(mut f: impl FnMut()) {
    let runs = if cfg!(target_arch = "riscv64") { 1 } else { 200 };
    for _ in 0..runs {
        unsafe { imp::sym_hash(1) };
        f();
        unsafe { imp::sym_hash(0) };
    }
}
