mod exec;
mod expr;
mod ir;
mod mem;
mod vfs;
mod z3;

use exec::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(o: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn getpid() -> i32;
}

#[repr(C)]
struct Shared {
    active: std::sync::atomic::AtomicI32,
    stop: std::sync::atomic::AtomicI32,
    viol: std::sync::atomic::AtomicI32,
    paths: std::sync::atomic::AtomicU64,
}
use std::sync::atomic::Ordering::SeqCst;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ").replace('\r', " ")
}

struct Opts {
    ll: String,
    entries: Vec<String>,
    out: String,
    jobs: i32,
    total: f64,
    timeout: f64,
    samples: usize,
    seed: u64,
    query_ms: u32,
    input: Option<String>,
    max_viol: i32,
    cov: bool,
    ref_prefix: String,
    mem_mb: u64,
    list: Option<String>,
    select: Option<String>,
}

fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

fn write_part(ex: &Exec, path: &str) {
    let mut o = String::new();
    let s = &ex.st;
    for (k, v) in [
        ("paths", s.paths),
        ("infeasible", s.infeasible),
        ("insts", s.insts),
        ("forks", s.forks),
        ("queries", s.queries),
        ("cache_hits", s.cache_hits),
        ("sat", s.sat),
        ("unsat", s.unsat),
        ("unknown", s.unknown),
        ("solver_us", s.solver_us),
        ("checks", s.checks),
        ("sym_checks", s.sym_checks),
        ("procs", 1),
        ("left", ex.work.len() as u64),
    ] {
        o += &format!("N\t{}\t{}\n", k, v);
    }
    o += &format!("M\tmax_query_us\t{}\n", s.max_query_us);
    o += &format!("M\tmax_syms\t{}\n", s.max_syms);
    o += &format!("M\tmax_rss_mb\t{}\n", rss_mb());
    let cl = |x: &str| x.replace('\t', " ").replace('\n', " ");
    for v in &ex.violations {
        o += &format!("V\t{}\t{}\t{}\t{}\n", cl(&v.kind), cl(&v.msg), cl(&v.at), hex(&v.input));
    }
    for (k, n) in &ex.engine_errs {
        o += &format!("X\t{}\t{}\n", cl(k), n);
    }
    for (k, n) in &ex.covers {
        o += &format!("C\t{}\t{}\n", cl(k), n);
    }
    for k in &ex.expects {
        o += &format!("E\t{}\n", cl(k));
    }
    for (i, h) in &ex.samples {
        o += &format!("S\t{}\t{}\n", hex(i), h);
    }
    for (i, &b) in ex.fn_seen.iter().enumerate() {
        if b {
            let bl: String = ex.blk_cov[i]
                .as_ref()
                .map(|v| v.iter().map(|&x| if x { '1' } else { '0' }).collect())
                .unwrap_or_default();
            o += &format!("F\t{}\t{}\n", i, bl);
        }
    }
    std::fs::write(path, o).expect("write part");
}

fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    }
}

/// Runs one entry point; `gl.active` counts the worker processes of all entries.
fn run_entry(mut ex: Exec, entry: &str, idx: usize, gl: &'static Shared, o: &Opts, load_s: f64) -> (String, bool) {
    let t0 = Instant::now();
    let dir = format!("{}.parts.{}", o.out, idx);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let sh = shared();
    let root = unsafe { getpid() };
    unsafe { prctl(36, 1, 0, 0, 0) };
    match ex.initial(entry) {
        Ok(s) => ex.work.push(s),
        Err(e) => {
            *ex.engine_errs.entry(e).or_insert(0) += 1;
        }
    }
    let deadline = t0 + Duration::from_secs_f64(o.timeout);
    let memcap = o.mem_mb;
    let stopf = move |ex: &mut Exec| -> bool {
        if sh.stop.load(SeqCst) != 0 {
            return true;
        }
        if Instant::now() > deadline {
            sh.stop.store(1, SeqCst);
            return true;
        }
        let _ = ex;
        if rss_mb() > memcap {
            sh.stop.store(2, SeqCst);
            return true;
        }
        false
    };
    let mut last_fork = Instant::now();
    let mut reported = 0usize;
    while let Some(s) = ex.work.pop() {
        if stopf(&mut ex) {
            ex.work.push(s);
            break;
        }
        ex.run(s, &stopf);
        if ex.violations.len() > reported {
            sh.viol.fetch_add((ex.violations.len() - reported) as i32, SeqCst);
            reported = ex.violations.len();
            if o.max_viol > 0 && sh.viol.load(SeqCst) >= o.max_viol {
                sh.stop.store(3, SeqCst);
            }
        }
        // hand the oldest half of the pending states to a new process when a slot is free
        if ex.work.len() >= 2 && gl.active.load(SeqCst) < o.jobs && last_fork.elapsed() > Duration::from_millis(15) {
            let n = gl.active.fetch_add(1, SeqCst);
            if n >= o.jobs {
                gl.active.fetch_sub(1, SeqCst);
            } else {
                std::io::stdout().flush().unwrap();
                let pid = unsafe { fork() };
                let half = ex.work.len() / 2;
                if pid == 0 {
                    ex.work.truncate(half);
                    ex.st = Stats::default();
                    ex.violations.clear();
                    reported = 0;
                    ex.engine_errs.clear();
                    ex.covers.clear();
                    ex.samples.clear();
                    ex.rng = ex.rng.wrapping_add(unsafe { getpid() } as u64 * 0x9E37).wrapping_mul(0x2545F4914F6CDD1D) | 1;
                } else if pid > 0 {
                    ex.work.drain(..half);
                } else {
                    gl.active.fetch_sub(1, SeqCst);
                }
                last_fork = Instant::now();
            }
        }
    }
    let me = unsafe { getpid() };
    write_part(&ex, &format!("{}/{}", dir, me));
    gl.active.fetch_sub(1, SeqCst);
    if me != root {
        unsafe { _exit(0) };
    }
    // reap all descendants
    let mut crashed = 0;
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            crashed += 1;
        }
    }
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: Vec<[String; 4]> = vec![];
    let mut errs: BTreeMap<String, u64> = BTreeMap::new();
    let mut covers: BTreeMap<String, u64> = BTreeMap::new();
    let mut expects: HashSet<String> = HashSet::new();
    let mut samples: Vec<(String, String)> = vec![];
    let mut cov: BTreeMap<usize, Vec<bool>> = BTreeMap::new();
    for f in std::fs::read_dir(&dir).unwrap() {
        let t = std::fs::read_to_string(f.unwrap().path()).unwrap();
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "N" => *n.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "M" => {
                    let e = n.entry(p[1].into()).or_insert(0);
                    *e = (*e).max(p[2].parse().unwrap());
                }
                "V" => viol.push([p[1].into(), p[2].into(), p[3].into(), p[4].into()]),
                "X" => *errs.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "C" => *covers.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "E" => {
                    expects.insert(p[1].into());
                }
                "S" => samples.push((p[1].into(), p[2].into())),
                "F" => {
                    let b: Vec<bool> = p.get(2).unwrap_or(&"").bytes().map(|c| c == b'1').collect();
                    let e = cov.entry(p[1].parse().unwrap()).or_insert_with(|| vec![false; b.len()]);
                    for (i, x) in b.iter().enumerate() {
                        if *x {
                            e[i] = true;
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let stop = sh.stop.load(SeqCst);
    if crashed > 0 {
        *errs.entry("engine process crashed".into()).or_insert(0) += crashed;
    }
    if samples.len() > o.samples {
        let step = samples.len() as f64 / o.samples as f64;
        samples = (0..o.samples).map(|i| samples[(i as f64 * step) as usize].clone()).collect();
    }
    viol.sort();
    let missing: Vec<String> = expects.iter().filter(|e| !covers.contains_key(*e)).cloned().collect();
    let complete = stop == 0 && errs.is_empty() && n.get("left").copied().unwrap_or(0) == 0;
    let mut j = String::new();
    j += &format!("{{\"entry\":\"{}\",\"complete\":{},\"stop\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"stats\":{{", entry, complete, stop, t0.elapsed().as_secs_f64(), load_s);
    j += &n.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    j += "},\"violations\":[";
    j += &viol
        .iter()
        .map(|v| format!("{{\"kind\":\"{}\",\"msg\":\"{}\",\"at\":\"{}\",\"input\":\"{}\"}}", esc(&v[0]), esc(&v[1]), esc(&v[2]), v[3]))
        .collect::<Vec<_>>()
        .join(",");
    j += "],\"engine_errors\":[";
    j += &errs.iter().map(|(k, v)| format!("{{\"msg\":\"{}\",\"n\":{}}}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "],\"covers\":{";
    j += &covers.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"missing_covers\":[";
    j += &missing.iter().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(",");
    j += "],\"samples\":[";
    j += &samples.iter().map(|(i, h)| format!("[\"{}\",\"{}\"]", i, h)).collect::<Vec<_>>().join(",");
    j += "],\"functions\":[";
    let mut fl = vec![];
    let mut total = 0;
    for (i, b) in &cov {
        total += 1;
        let f = &ex.m.fns[*i];
        if f.pretty.contains(&o.ref_prefix) {
            let hit = b.iter().filter(|x| **x).count();
            let mut s = format!("{{\"name\":\"{}\",\"blocks\":{},\"hit\":{}", esc(&f.pretty), b.len(), hit);
            if o.cov && hit < b.len() {
                if let Ok(pf) = ex.m.func(*i as u32) {
                    let un: Vec<String> = b.iter().enumerate().filter(|x| !*x.1).map(|x| format!("\"{}\"", esc(&pf.blocks[x.0].name))).collect();
                    s += &format!(",\"unhit\":[{}]", un.join(","));
                }
            }
            s += "}";
            fl.push(s);
        }
    }
    j += &fl.join(",");
    j += &format!("],\"functions_total\":{},\"z3\":\"{}\"}}", total, esc(&z3::version()));
    (j, complete)
}

/// entry points are non-generic functions `<prefix>...::e::<name>`
fn is_entry(f: &ir::FnDecl, prefix: &str) -> bool {
    f.body.is_some() && f.pretty.starts_with(prefix) && !f.pretty.contains('<') && match f.pretty.rfind("::e::") {
        Some(i) => !f.pretty[i + 5..].contains("::"),
        None => false,
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        ll: String::new(),
        entries: vec![],
        out: "symex.json".into(),
        jobs: 8,
        timeout: 300.0,
        total: 1e9,
        samples: 50,
        seed: 1,
        query_ms: 20000,
        input: None,
        max_viol: 20,
        cov: false,
        ref_prefix: "speedy".into(),
        mem_mb: 3000,
        list: None,
        select: None,
    };
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => o.ll = v,
            "--entry" => o.entries.push(v),
            "--list" => o.list = Some(v),
            "--select" => o.select = Some(v),
            "--entries" => o.entries.extend(std::fs::read_to_string(&v).expect("entries file").lines().map(|x| x.to_string())),
            "--out" => o.out = v,
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--timeout" => o.timeout = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--total-timeout" => o.total = v.parse().unwrap(),
            "--query-ms" => o.query_ms = v.parse().unwrap(),
            "--input" => o.input = Some(v),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--mem-mb" => o.mem_mb = v.parse().unwrap(),
            "--cov" => {
                o.cov = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    let t = Instant::now();
    let src = std::fs::read_to_string(&o.ll).expect("read .ll");
    let m = ir::Module::load(src);
    let load_s = t.elapsed().as_secs_f64();
    if let Some(p) = &o.list {
        for f in &m.fns {
            if is_entry(f, p) {
                println!("{}", f.pretty);
            }
        }
        return;
    }
    if let Some(p) = &o.select {
        for f in &m.fns {
            if is_entry(f, p) {
                o.entries.push(f.pretty.to_string());
            }
        }
        o.entries.sort();
    }
    let gl = shared();
    let mut ex = Some(Exec::new(m, o.query_ms));
    {
        let ex = ex.as_mut().unwrap();
        ex.max_samples = o.samples;
        ex.concrete = o.input.as_deref().map(unhex);
    }
    let mut running = 0;
    let mut outs = vec![];
    let mut all_ok = true;
    let reap = |running: &mut i32, all_ok: &mut bool| {
        let mut st = 0;
        if unsafe { waitpid(-1, &mut st, 0) } > 0 {
            *running -= 1;
            if st != 0 {
                *all_ok = false;
            }
            if *running == 0 {
                gl.active.store(0, SeqCst);
            }
        }
    };
    for (i, entry) in o.entries.iter().enumerate() {
        while running > 0 && gl.active.load(SeqCst) >= o.jobs {
            // wait for a slot: some worker of some entry ends
            let mut st = 0;
            let p = unsafe { waitpid(-1, &mut st, 1) };
            if p > 0 {
                running -= 1;
                if st != 0 {
                    all_ok = false;
                }
                if running == 0 {
                    gl.active.store(0, SeqCst);
                }
            } else {
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        gl.active.fetch_add(1, SeqCst);
        let out = format!("{}.{}.part", o.out, i);
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut ex = ex.take().unwrap();
            let h = entry.bytes().fold(o.seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            o.timeout = o.timeout.min(o.total - t.elapsed().as_secs_f64()).max(0.0);
            ex.rng = h.wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let (j, ok) = run_entry(ex, entry, i, gl, &o, load_s);
            std::fs::write(&out, &j).unwrap();
            unsafe { _exit(if ok { 0 } else { 3 }) };
        }
        assert!(pid > 0, "fork");
        running += 1;
        outs.push((entry.clone(), out));
    }
    while running > 0 {
        reap(&mut running, &mut all_ok);
    }
    let mut parts = vec![];
    for (e, out) in outs {
        match std::fs::read_to_string(&out) {
            Ok(j) => parts.push(j),
            Err(_) => {
                all_ok = false;
                parts.push(format!("{{\"entry\":\"{}\",\"complete\":false,\"stop\":9,\"stats\":{{}},\"violations\":[],\"engine_errors\":[{{\"msg\":\"engine died\",\"n\":1}}],\"covers\":{{}},\"missing_covers\":[],\"samples\":[],\"functions\":[],\"functions_total\":0}}", esc(&e)));
            }
        }
        let _ = std::fs::remove_file(&out);
    }
    std::fs::write(&o.out, format!("[{}]", parts.join(",\n"))).unwrap();
    std::process::exit(if all_ok { 0 } else { 3 });
}
