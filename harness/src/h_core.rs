//! decy-core: include expansion, build order, transpilation cache, compile metrics.
use crate::sym;
use decy_core::metrics::*;
use decy_core::*;
use std::path::{Path, PathBuf};

fn put(p: &str, s: &str) {
    if let Some(d) = Path::new(p).parent() {
        if d != Path::new("") {
            let _ = std::fs::create_dir_all(d);
        }
    }
    std::fs::write(p, s).expect("scratch file");
}

// ---------------------------------------------------------------- build order (C05)
fn order(n: usize, edges: &[(usize, usize)]) {
    let name = |i: usize| PathBuf::from(["a.c", "b.c", "c.c", "d.c"][i]);
    let mut g = DependencyGraph::new();
    for i in 0..n {
        g.add_file(&name(i));
    }
    g.add_file(&name(0));
    let mut e = vec![];
    let mut desc = String::new();
    for &(i, j) in edges {
        let k = sym::choice(2);
        for _ in 0..k {
            g.add_dependency(&name(i), &name(j));
        }
        if k > 0 {
            e.push((i, j));
            desc.push_str(&format!("{}>{} ", i, j));
        }
    }
    sym::tag(&desc);
    verdict(&g, n, &e, &name);
}
fn verdict(g: &DependencyGraph, n: usize, e: &[(usize, usize)], name: &dyn Fn(usize) -> PathBuf) {
    sym::check(g.file_count() == n && !g.is_empty(), "build order: file count");
    for i in 0..n {
        for j in 0..n {
            sym::check(g.has_dependency(&name(i), &name(j)) == e.contains(&(i, j)), "build order: dependency");
        }
    }
    // reachability
    let mut r = vec![vec![false; n]; n];
    for &(i, j) in e {
        r[i][j] = true;
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                r[i][j] |= r[i][k] && r[k][j];
            }
        }
    }
    let cyclic = (0..n).any(|i| r[i][i]);
    match g.topological_sort() {
        Err(_) => {
            sym::reach(1);
            sym::check(cyclic, "build order: refused although there is no cycle");
        }
        Ok(o) => {
            sym::reach(2);
            sym::check(!cyclic, "build order: accepted a cycle");
            sym::check(o.len() == n, "build order: number of files");
            let pos: Vec<Option<usize>> = (0..n).map(|i| o.iter().position(|p| *p == name(i))).collect();
            sym::check(pos.iter().all(|p| p.is_some()), "build order: a file is missing");
            for &(i, j) in e {
                sym::check(pos[j] < pos[i], "build order: a file comes before one it depends on");
            }
        }
    }
}
/// Every graph on three files, self-dependencies included.
pub fn order3() {
    order(3, &[(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)])
}
/// Every graph on four files.
pub fn order4() {
    order(4, &[(0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (1, 3), (2, 0), (2, 1), (2, 3), (3, 0), (3, 1), (3, 2)])
}
/// Graphs read from files: which lines are dependencies.
pub fn order_files() {
    let names = ["p/a.h", "p/b.h", "p/s/c.h"];
    let name = |i: usize| PathBuf::from(names[i]);
    let rel = [["a.h", "b.h", "s/c.h"], ["a.h", "b.h", "s/c.h"], ["../a.h", "../b.h", "c.h"]];
    let mut e = vec![];
    let mut desc = String::new();
    for i in 0..3 {
        let mut t = String::from("int x;\n");
        let lines = if i == 0 { 2 } else { 1 };
        for _ in 0..lines {
            let j = sym::choice(3);
            let k = sym::choice(6);
            let f = rel[i][j];
            let (l, dep) = match k {
                0 => (format!("#include \"{}\"\n", f), true),
                1 => (format!("  #include <{}>\n", f), true),
                2 => (format!("// #include \"{}\"\n", f), false),
                3 => (format!("#include \"{}x\"\n", f), false),
                4 => (format!("#include <stdio.h> // not \"{}\"\n", f), false),
                _ => (format!("#include \"{}\" /* <s/c.h> */\r\n", f), true),
            };
            t.push_str(&l);
            t.push_str("int y;\nint f(int a) { return a; }\n");
            if dep {
                e.push((i, j));
            }
            desc.push_str(&l);
        }
        put(names[i], &t);
    }
    sym::tag(&desc);
    let g = DependencyGraph::from_files(&(0..3).map(name).collect::<Vec<_>>()).unwrap();
    verdict(&g, 3, &e, &name);
}

// ---------------------------------------------------------------- include expansion (C07)
/// The name an `#include` line refers to, and whether it is a system header.
fn include_of(line: &str) -> Option<(String, bool)> {
    let t = line.trim();
    let rest = t.strip_prefix("#include")?;
    let i = rest.find(|c| c == '"' || c == '<')?;
    let sys = rest.as_bytes()[i] == b'<';
    let tail = &rest[i + 1..];
    let j = tail.find(if sys { '>' } else { '"' })?;
    Some((tail[..j].to_string(), sys))
}
/// Any short line after `#include`: the file name is what stands between the delimiters.
pub fn include_line() {
    let mut s = String::from("#include");
    let n = sym::choice(6);
    for i in 0..n {
        match if i == 2 || i == 0 { sym::choice(4) } else { [0, 1, 2, 4][sym::choice(4)] } {
            0 => s.push('"'),
            1 => s.push('<'),
            2 => s.push('>'),
            4 => s.push('x'),
            _ => {
                let b = sym::u8();
                sym::assume(b < 128 && b != b'"' && b != b'<' && b != b'>' && b != b'\n' && b != b'\r');
                s.push(b as char)
            }
        }
    }
    if sym::choice(3) == 0 {
        s.insert(9.min(s.len()), 'é');
    }
    let got = DependencyGraph::parse_include_directives(&s);
    let want: Vec<String> = include_of(&s).map(|x| x.0).into_iter().collect();
    sym::outv(got.len() as i64);
    if !want.is_empty() {
        sym::reach(1);
    }
    sym::check(got == want, "include: the file named by the line");
}

fn strip(s: &str) -> Vec<String> {
    s.lines().filter(|l| !l.trim_start().starts_with("//")).map(|l| l.to_string()).collect()
}
struct Exp {
    files: Vec<(&'static str, Vec<&'static str>)>,
    seen: Vec<String>,
    sys: Vec<String>,
    out: Vec<String>,
    missing: bool,
    lib: decy_stdlib::StdlibPrototypes,
}
impl Exp {
    fn norm(p: &str) -> String {
        let mut v: Vec<&str> = vec![];
        for c in p.split('/') {
            match c {
                "." | "" => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        v.join("/")
    }
    fn expand(&mut self, lines: &[&str], dir: &str) {
        for l in lines {
            if self.missing {
                return;
            }
            match include_of(l) {
                None => {
                    if !l.trim_start().starts_with("//") {
                        self.out.push(l.to_string());
                    }
                }
                Some((n, true)) => {
                    if !self.sys.contains(&n) {
                        self.sys.push(n.clone());
                        if let Some(h) = decy_stdlib::StdHeader::from_filename(&n) {
                            let t = self.lib.inject_prototypes_for_header(h);
                            self.out.extend(strip(&t));
                        }
                    }
                }
                Some((n, false)) => {
                    let p = format!("{}/{}", dir, n);
                    let key = Self::norm(&p);
                    if self.seen.contains(&key) {
                        continue;
                    }
                    let f = self.files.iter().find(|f| Self::norm(f.0) == key).map(|f| f.1.clone());
                    match f {
                        None => self.missing = true,
                        Some(ls) => {
                            self.seen.push(key);
                            let d = match p.rfind('/') {
                                Some(i) => p[..i].to_string(),
                                None => ".".to_string(),
                            };
                            self.expand(&ls, &d);
                        }
                    }
                }
            }
        }
    }
}
const LINES: [&str; 11] = [
    "#include \"c.h\"",
    "int keep;",
    "#include \"b.h\"",
    "#include \"s/c.h\"",
    "#include <errno.h>",
    "#include <unknown.h>",
    "  #include \"b.h\" // again",
    "#include \"gone.h\"",
    "#include b.h",
    "#include <errno.h> // not \"gone.h\"",
    "#define N \"#include\"",
];
const LINES_C: [&str; 6] = ["int c1;", "#include \"b.h\"", "#include \"../b.h\"", "#include \"c.h\"", "#include <errno.h>", "#include \"e.h\""];
fn expand(nmain: usize, nb: usize) {
    let mut main: Vec<&'static str> = vec!["int first;"];
    for _ in 0..nmain {
        main.push(sym::pick(&LINES));
    }
    let mut b = vec!["int in_b;"];
    for _ in 0..nb {
        b.push(sym::pick(&LINES));
    }
    b.push("int end_b;");
    let c = vec!["\tint in_c;", sym::pick(&LINES_C)];
    let files = vec![("p/b.h", b), ("p/s/c.h", c), ("p/s/e.h", vec!["int in_e;"]), ("p/c.h", vec!["int in_pc;"]), ("b.h", vec!["int wrong;"]), ("p/s/b.h", vec!["int in_sb;"])];
    for (n, l) in &files {
        put(n, &format!("{}\n", l.join("\n")));
    }
    sym::tag(&format!("{} | b.h {} | c.h {}", main.join("; "), files[0].1.join("; "), files[1].1.join("; ")));
    let mut x = Exp { files, seen: vec![], sys: vec![], out: vec![], missing: false, lib: decy_stdlib::StdlibPrototypes::new() };
    x.expand(&main, "p");
    decy_parser::parser::verif::install(decy_parser::parser::Ast::new());
    decy_parser::parser::verif::set_source("");
    let r = transpile_with_includes(&main.join("\n"), Some(Path::new("p")));
    let _ = decy_parser::parser::verif::take();
    match r {
        Err(_) => {
            sym::reach(1);
            sym::check(x.missing, "expansion: failed although every file exists");
        }
        Ok(_) => {
            sym::reach(2);
            sym::check(!x.missing, "expansion: a missing file was ignored");
            let got = strip(&decy_parser::parser::verif::source());
            if got != x.out && cfg!(not(target_arch = "riscv64")) {
                eprintln!("got  {:?}\nwant {:?}", got, x.out);
            }
            sym::check(got == x.out, "expansion: the text given to the parser");
        }
    }
}
pub fn expand2() {
    expand(2, 1)
}

// ---------------------------------------------------------------- transpilation cache (C06)
#[derive(Clone, PartialEq)]
struct Snap {
    main: Option<u8>,
    deps: Vec<Option<u8>>,
    code: String,
}
fn content(p: &str, v: Option<u8>) {
    match v {
        None => {
            let _ = std::fs::remove_file(p);
        }
        Some(b) => put(p, ["int a;", "int b;", "int  a;"][b as usize]),
    }
}
fn cache(ops: usize) {
    let names = ["w/m.c", "w/d.h", "w/e.h"];
    let mut now: [Option<u8>; 3] = [Some(0), Some(0), Some(0)];
    if sym::choice(4) == 0 {
        now[1] = None;
    }
    for i in 0..3 {
        content(names[i], now[i]);
    }
    let mut c = TranspilationCache::with_directory(Path::new("w/cache"));
    let mut saved: Option<Option<Snap>> = None;
    let mut ent: Option<Snap> = None;
    let mut hits = 0;
    let mut desc = String::new();
    let mut gen = 0;
    for k in 0..ops {
        let op = if k == 0 { 0 } else { sym::choice(6) };
        desc.push(['I', 'G', 'M', 'D', 'S', 'L'][op]);
        match op {
            0 => {
                gen += 1;
                let f = TranspiledFile::new(names[0].into(), format!("code{}", gen), vec![names[1].into(), names[2].into()], vec!["f".into()], "x".into());
                c.insert(Path::new(names[0]), &f);
                if now[0].is_some() {
                    ent = Some(Snap { main: now[0], deps: vec![now[1], now[2]], code: f.rust_code });
                }
            }
            1 => {}
            2 | 3 => {
                let i = if op == 2 { 0 } else { 1 + sym::choice(2) };
                let v = match sym::choice(3) {
                    0 => Some(1),
                    1 => None,
                    _ => Some(0),
                };
                desc.push_str(&format!("{}={:?}", i, v));
                now[i] = v;
                content(names[i], v);
            }
            4 => {
                c.save().unwrap();
                saved = Some(ent.clone());
            }
            _ => {
                c = TranspilationCache::load(Path::new("w/cache")).unwrap();
                ent = saved.clone().unwrap_or(None);
                hits = 0;
            }
        }
        sym::tag(&desc);
        let fresh = ent.as_ref().map(|s| s.main == now[0] && s.deps == vec![now[1], now[2]]).unwrap_or(false);
        if op == 1 || k + 1 == ops {
            match c.get(Path::new(names[0])) {
                Some(f) => {
                    sym::reach(1);
                    hits += 1;
                    sym::check(fresh, "cache: returned a result although the file or a dependency changed");
                    sym::check(Some(&f.rust_code) == ent.as_ref().map(|s| &s.code), "cache: returned another result than was stored");
                    sym::check(f.functions_exported == ["f"] && f.ffi_declarations == "x" && f.source_path == Path::new(names[0]), "cache: stored data changed");
                }
                None => {
                    sym::reach(2);
                    sym::check(!fresh, "cache: missed although nothing changed");
                }
            }
            sym::check(c.get(Path::new("w/other.c")).is_none(), "cache: result for a file never stored");
        }
        let st = c.statistics();
        sym::check(st.hits == hits && st.total_files == ent.is_some() as usize, "cache: statistics");
    }
}
pub fn cache4() {
    cache(4)
}
pub fn cache5() {
    cache(5)
}

// ---------------------------------------------------------------- compile metrics (C14)
fn code_of(m: &str) -> String {
    let b = m.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'E' && i + 5 <= b.len() && b[i + 1..i + 5].iter().all(|c| c.is_ascii_digit()) {
            return m[i..i + 5].to_string();
        }
    }
    if let Some(i) = m.find("[E") {
        if let Some(j) = m[i + 1..].find(']') {
            return m[i + 1..i + 1 + j].to_string();
        }
    }
    "UNKNOWN".into()
}
/// The code counted for a message, for all short messages.
pub fn code() {
    let n = 4 + sym::choice(4);
    let at = sym::pick(&[0, n - 1, n]);
    let mut s = String::new();
    for i in 0..n {
        if i == at {
            // an arbitrary byte that is not part of a code (the histogram's key stays concrete)
            let b = sym::u8();
            sym::assume(b < 128 && !b.is_ascii_digit() && b != b'E' && b != b'[' && b != b']');
            s.push(b as char);
        } else {
            s.push_str(sym::pick(match i {
                0 | 1 => &["E", "1", "[", "é"][..],
                2 | 3 | 4 => &["2", "E"][..],
                _ => &["3", "]", "日"][..],
            }));
        }
    }
    let mut m = CompileMetrics::new();
    m.record_failure(&s);
    let want = code_of(&s);
    if want != "UNKNOWN" {
        sym::reach(1);
    }
    sym::check(m.error_histogram().len() == 1 && m.error_histogram().iter().next() == Some((&want, &1)), "metrics: error code of a message");
}
/// Counters and rates after every sequence of outcomes.
pub fn counts() {
    let mut m = CompileMetrics::new();
    let (mut ok, mut bad, mut e1, mut e2) = (0u64, 0u64, 0u64, 0u64);
    for _ in 0..6 {
        match sym::choice(4) {
            0 => {
                m.record_success();
                ok += 1;
            }
            1 => {
                m.record_failure("error[E0308]: x");
                bad += 1;
                e1 += 1;
            }
            2 => {
                m.record_failure("weird");
                bad += 1;
                e2 += 1;
            }
            _ => {
                m.reset();
                ok = 0;
                bad = 0;
                e1 = 0;
                e2 = 0;
            }
        }
        sym::check(m.successes() == ok && m.failures() == bad && m.total_attempts() == ok + bad, "metrics: counters");
        let rate = if ok + bad == 0 { 0.0 } else { ok as f64 / (ok + bad) as f64 };
        sym::check(m.success_rate() == rate, "metrics: success rate");
        let g = |k: &str| m.error_histogram().get(k).copied().unwrap_or(0);
        sym::check(g("E0308") == e1 && g("UNKNOWN") == e2 && m.error_histogram().values().sum::<u64>() == bad, "metrics: histogram");
        let t = sym::f64();
        sym::check(m.meets_target(t) == (rate >= t), "metrics: target");
        sym::reach(1);
    }
}
fn rate(a: u64, b: u64) -> f64 {
    if b == 0 {
        0.0
    } else {
        a as f64 / b as f64
    }
}
/// The rate of one record, for all counters below 16.
pub fn tier1() {
    let mut x = TierMetrics::new("t");
    x.total_files = sym::choice(12) as _;
    x.transpile_success = sym::choice(12) as _;
    x.compile_success = sym::choice(12) as _;
    let mut r = ConvergenceReport::new();
    match sym::choice(3) {
        0 => sym::check(x.transpile_rate() == rate(x.transpile_success as u64, x.total_files as u64), "metrics: tier transpile rate"),
        1 => sym::check(x.compile_rate() == rate(x.compile_success as u64, x.total_files as u64), "metrics: tier compile rate"),
        _ => {
            let mut e = EquivalenceMetrics::new();
            e.total_files = x.total_files as _;
            e.equivalent = x.compile_success as _;
            sym::check(e.equivalence_rate() == rate(e.equivalent as u64, e.total_files as u64), "metrics: equivalence rate");
        }
    }
    r.add_tier(x);
    sym::reach(1);
}
/// The whole report: sums over its tiers.
pub fn tiers() {
    let n = sym::choice(3);
    let mut r = ConvergenceReport::new();
    let (mut f, mut t, mut c) = (0u64, 0u64, 0u64);
    for _ in 0..n {
        let mut x = TierMetrics::new("t");
        let (a, b, d) = (sym::pick(&[0u64, 1, 4]), sym::pick(&[0u64, 1, 3]), sym::pick(&[0u64, 1, 2]));
        x.total_files = a as _;
        x.transpile_success = b as _;
        x.compile_success = d as _;
        f += a;
        t += b;
        c += d;
        r.add_tier(x);
    }
    sym::check(r.overall_transpile_rate() == rate(t, f), "metrics: overall transpile rate");
    sym::check(r.overall_compile_rate() == rate(c, f), "metrics: overall compile rate");
    sym::reach(1);
}
pub fn vac() {
    let mut m = CompileMetrics::new();
    let t = sym::f64();
    m.record_success();
    sym::check(m.meets_target(t), "vacuity witness");
}
