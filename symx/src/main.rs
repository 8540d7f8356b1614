mod exec;
mod expr;
mod fs;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::rc::Rc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn report(x: &Exec) -> String {
    let t = &x.t;
    let s = &x.s.stats;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"ok\":{},\"pruned\":{},\"viol_paths\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_solver\":{},\"max_constraints\":{},\"panics_ok\":{},\"symbolic_paths\":{},\"max_vars\":{},\"float_text\":{},",
        t.paths, t.ok, t.pruned, t.viol, t.steps, t.forks, t.asserts, t.asserts_solver, t.max_cons, t.panics_ok, t.nsym_paths, t.maxvars, t.float_text
    );
    let _ = write!(
        o,
        "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"timed_out\":{},",
        s.queries, s.cache_hits, s.sat, s.unsat, s.unknown, s.time, s.max_time, x.timed_out as u8
    );
    o.push_str("\"violations\":[");
    for (i, v) in x.viols.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let vals: Vec<String> = v.values.iter().map(|(w, k)| format!("[{},\"{}\"]", w, k)).collect();
        let _ = write!(
            o,
            "{{\"kind\":{},\"msg\":{},\"tag\":{},\"trace\":{},\"count\":{},\"values\":[{}]}}",
            js(v.kind),
            js(&v.msg),
            js(&v.tag),
            js(&v.trace),
            v.count,
            vals.join(",")
        );
    }
    o.push_str("],\"reach\":{");
    let mut r: Vec<_> = x.reach.iter().collect();
    r.sort();
    o.push_str(&r.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"incomplete\":{");
    let mut r: Vec<_> = x.incomplete.iter().collect();
    r.sort();
    o.push_str(&r.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    for (i, v) in x.samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let vals: Vec<String> = v.values.iter().map(|(w, k)| format!("[{},\"{}\"]", w, k)).collect();
        let outs: Vec<String> = v.outs.iter().map(|b| format!("\"{}\"", hex(b))).collect();
        let _ = write!(
            o,
            "{{\"values\":[{}],\"outs\":[{}],\"tag\":{},\"end\":{},\"key\":{}}}",
            vals.join(","),
            outs.join(","),
            js(&v.tag),
            js(&v.end),
            v.key
        );
    }
    o.push_str("],\"functions\":[");
    let mut fs: Vec<String> = x
        .called
        .iter()
        .enumerate()
        .filter(|(_, c)| **c)
        .map(|(i, _)| demangle(&x.p.m.funcs[i].name))
        .filter(|n| n.starts_with("decy") || !n.contains("::"))
        .collect();
    fs.sort();
    fs.dedup();
    o.push_str(&fs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "],\"nfunctions\":{}}}", x.called.iter().filter(|c| **c).count());
    o
}

fn real_main() {
    let mut file = String::new();
    let mut entry = String::from("sym_main");
    let mut out = String::from("symx.json");
    let mut jobs = 8usize;
    let mut cfg = Cfg {
        max_steps: 50_000_000,
        max_viol: 200,
        samples: 20,
        deadline: None,
        seed: 88172645463325252,
        ub_prune: false,
        dump_all: false,
    };
    let mut rlimit = 8_000_000u32;
    let mut split = 256usize;
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--deadline" => {
                cfg.deadline = Some(
                    std::time::Instant::now() + std::time::Duration::from_secs_f64(v().parse().unwrap()),
                )
            }
            "--rlimit" => rlimit = v().parse().unwrap(),
            "--split" => split = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse::<u64>().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1,
            "--ub-prune" => cfg.ub_prune = true,
            "--dump-all" => cfg.dump_all = true,
            _ => file = k,
        }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&file).expect("read ir");
    let m = ir::Parser::parse(&text);
    drop(text);
    let tp = t0.elapsed().as_secs_f64();
    let p = Rc::new(Prog::load(m));
    let mut x = Exec::new(p, cfg, rlimit);
    let s0 = x.init(&entry);
    x.work.push(s0);
    // breadth-first until enough work
    while !x.work.is_empty() && x.work.len() < split && !x.timed_out {
        let st = x.work.remove(0);
        if x.work.is_empty() || jobs > 1 {
            x.run_until_fork(st);
        } else {
            x.run(st);
        }
    }
    let mut nproc = 0;
    if !x.work.is_empty() && !x.timed_out {
        let states: Vec<State> = x.work.drain(..).collect();
        unsafe {
            let sh = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
            let ctr = &*(sh as *const std::sync::atomic::AtomicUsize);
            let mut pids = vec![];
            for j in 0..jobs {
                let pid = fork();
                if pid == 0 {
                    // reset counters; the parent's part is reported by the parent
                    x.t = Totals::default();
                    x.viols.clear();
                    x.vsig.clear();
                    x.reach.clear();
                    x.incomplete.clear();
                    x.samples.clear();
                    x.s.stats = Default::default();
                    loop {
                        let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= states.len() || x.timed_out {
                            break;
                        }
                        x.work.push(states[i].clone());
                        while let Some(st) = x.work.pop() {
                            x.run(st);
                            if x.timed_out {
                                break;
                            }
                        }
                    }
                    std::fs::write(format!("{}.{}", out, j), report(&x)).unwrap();
                    std::process::exit(0);
                }
                pids.push(pid);
                nproc += 1;
            }
            let mut bad = 0;
            for p in pids {
                let mut st = 0;
                waitpid(p, &mut st, 0);
                if st != 0 {
                    bad += 1;
                }
            }
            if bad > 0 {
                x.incomplete.insert("worker process died".into(), bad);
            }
        }
    }
    let mut parts = vec![report(&x)];
    for j in 0..nproc {
        let f = format!("{}.{}", out, j);
        if let Ok(s) = std::fs::read_to_string(&f) {
            parts.push(s);
        }
        let _ = std::fs::remove_file(&f);
    }
    let body = format!(
        "{{\"solver\":{},\"parse_s\":{:.3},\"wall_s\":{:.3},\"parts\":[{}]}}",
        js(&z3::version()),
        tp,
        t0.elapsed().as_secs_f64(),
        parts.join(",\n")
    );
    std::fs::write(&out, body).unwrap();
}

fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
