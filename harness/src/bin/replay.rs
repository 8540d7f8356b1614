//! Native replay of one path: replay ENTRY VALUES-FILE
#[cfg(not(target_arch = "riscv64"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[2]).expect("values");
    unsafe {
        harness::sym::imp::VALUES = t.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect();
    }
    let h = match harness::lookup(&a[1]) {
        Some(h) => h,
        None => {
            println!("NOENTRY");
            std::process::exit(79);
        }
    };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(h).unwrap().join();
    if r.is_err() {
        std::process::exit(101);
    }
    println!("DONE");
}
#[cfg(target_arch = "riscv64")]
fn main() {}
