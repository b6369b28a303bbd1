mod exec;
mod ir;
mod mem;
mod prog;
mod solver;
mod term;
mod z3;

use exec::*;
use std::ffi::{c_int, c_void};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

struct Args {
    ir: String,
    z3: Vec<String>,
    entries: Vec<String>,
    units: Vec<(String, u64)>,
    workers: usize,
    out: String,
    tier: u64,
    unit_secs: u64,
    total_secs: u64,
    verbose: bool,
    prof: bool,
    prints: bool,
    script: Option<Vec<Vec<u8>>>,
    samples: usize,
    seed: u64,
    every: u64,
    timeout_ms: u32,
    cross: u64,
    dump_cov: bool,
    /// seconds granted after the first violation, 0: no early stop
    grace: u64,
    /// entries whose violations do not stop the run
    quiet: Vec<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

fn load_z3(paths: &[String]) -> Rc<z3::Z3> {
    let mut err = String::new();
    for p in paths {
        match z3::Z3::load(p) {
            Ok(z) => return Rc::new(z),
            Err(e) => err = e,
        }
    }
    eprintln!("cannot load z3: {}", err);
    std::process::exit(3)
}

fn main() {
    let mut a = Args { ir: String::new(), z3: vec![], entries: vec![], units: vec![], workers: 1, out: String::new(), tier: 0, unit_secs: 600, total_secs: 3600, verbose: false, prof: false, prints: false, script: None, samples: 2, seed: 1, every: 97, timeout_ms: 60000, cross: 0, dump_cov: false, grace: 0, quiet: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--ir" => a.ir = v(),
            "--z3" => a.z3.push(v()),
            "--entry" => a.entries.push(v()),
            "--unit" => {
                let s = v();
                let (e, c) = s.rsplit_once(':').expect("entry:case");
                a.units.push((e.to_string(), c.parse().unwrap()));
            }
            "--workers" => a.workers = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--tier" => a.tier = v().parse().unwrap(),
            "--unit-secs" => a.unit_secs = v().parse().unwrap(),
            "--total-secs" => a.total_secs = v().parse().unwrap(),
            "--samples" => a.samples = v().parse().unwrap(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--every" => a.every = v().parse().unwrap(),
            "--timeout-ms" => a.timeout_ms = v().parse().unwrap(),
            "--grace" => a.grace = v().parse().unwrap(),
            "--quiet-entry" => a.quiet.push(v()),
            "--cross" => a.cross = v().parse().unwrap(),
            "--verbose" => a.verbose = true,
            "--prof" => a.prof = true,
            "--prints" => a.prints = true,
            "--coverage" => a.dump_cov = true,
            "--script" => {
                let s = std::fs::read_to_string(v()).unwrap();
                a.script = Some(
                    s.lines()
                        .map(|l| match l.as_bytes().first() {
                            Some(b's') => unhex(&l[1..]),
                            Some(b'c') => l[1..].parse::<u64>().unwrap().to_le_bytes().to_vec(),
                            _ => vec![],
                        })
                        .collect(),
                );
            }
            _ => panic!("argument {}", x),
        }
    }
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real_main(a)).unwrap();
    let r = t.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

fn real_main(a: Args) -> i32 {
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a.ir).expect("ir");
    let m = ir::parse(&text);
    drop(text);
    let mut prog = Some(prog::Prog::new(m));
    let t_load = t0.elapsed();
    let global_deadline = t0 + Duration::from_secs(a.total_secs);
    // discover the number of cases of every entry
    let mut units = a.units.clone();
    if !a.entries.is_empty() {
        let z = load_z3(&a.z3);
        // no solver work happens in the parent beyond context creation
        let s = solver::Solver::new(z);
        let mut ex = Exec::new(prog.take().unwrap(), s);
        for e in &a.entries {
            ex.discover = Some(1);
            ex.tier = a.tier;
            if let Err(m) = ex.start(e) {
                eprintln!("{}", m);
                return 3;
            }
            while let Some(st) = ex.work.pop() {
                ex.run_one(st);
                if !ex.viol.is_empty() || !ex.incon.is_empty() {
                    eprintln!("discovery of {} failed: {:?} {:?}", e, ex.viol, ex.incon);
                    return 3;
                }
                break;
            }
            ex.work.clear();
            let n = ex.discover.unwrap();
            for i in 0..n {
                units.push((e.clone(), i));
            }
        }
        prog = Some(ex.into_prog());
    }
    if a.verbose {
        eprintln!("loaded in {:?}; {} units", t_load, units.len());
    }
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut AtomicU64;
    let counter = unsafe { &*shared };
    counter.store(0, Ordering::SeqCst);
    // when to stop because of a violation; 0 while there is none
    let stop_at: &'static AtomicU64 = unsafe { &*shared.add(64) };
    stop_at.store(0, Ordering::SeqCst);
    let mut pids = vec![];
    let nw = a.workers.min(units.len()).max(1);
    for w in 0..nw {
        let pid = if a.workers == 1 { 0 } else { unsafe { fork() } };
        if pid == 0 {
            let path = if a.out.is_empty() { "/dev/stdout".to_string() } else { format!("{}/w{}.jsonl", a.out, w) };
            let mut f = std::fs::File::create(&path).expect("out");
            let mut pr = prog.take();
            let z = load_z3(&a.z3);
            loop {
                let i = counter.fetch_add(1, Ordering::SeqCst) as usize;
                if i >= units.len() {
                    break;
                }
                let (e, case) = &units[i];
                let tu = Instant::now();
                let mut s = solver::Solver::new(z.clone());
                s.timeout_ms = a.timeout_ms;
                s.cross_every = a.cross;
                if a.prof {
                    s.slow_us = 500_000;
                }
                let mut ex = Exec::new(pr.take().unwrap(), s);
                ex.case = *case;
                ex.tier = a.tier;
                ex.verbose = a.verbose;
                ex.site_prof = a.prof;
                ex.prints = a.prints;
                ex.script = a.script.clone();
                ex.max_samples = a.samples;
                ex.seed = a.seed.wrapping_mul(0x2545F4914F6CDD1D);
                ex.sample_every = a.every;
                ex.deadline = Some((tu + Duration::from_secs(a.unit_secs)).min(global_deadline));
                if a.grace > 0 {
                    ex.stop_at = Some((stop_at, t0, if a.quiet.contains(e) { 0 } else { a.grace }));
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if ex.stopped() {
                        ex.incon.push("stopped after a violation before this unit".into());
                        return;
                    }
                    if Instant::now() > global_deadline {
                        ex.incon.push("time budget exhausted before this unit".into());
                        return;
                    }
                    match ex.start(e) {
                        Ok(()) => ex.run(),
                        Err(m) => ex.incon.push(m),
                    }
                }));
                if let Err(p) = r {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    ex.incon.push(format!("engine failure: {}", m));
                    ex.work.clear();
                }
                let (audited, audit_open) = {
                    let seed = ex.seed ^ (i as u64) << 20;
                    let Exec { s, c, incon, .. } = &mut ex;
                    let (y, o, bad) = s.audit(c, 32, seed);
                    if let Some(b) = bad {
                        incon.push(format!("engine failure: a rewrite is wrong: {}", b));
                    }
                    (y, o)
                };
                let st = &ex.s.stats;
                let c = &ex.cnt;
                let viol: Vec<String> = ex.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"site\":{},\"inputs\":{},\"marks\":[{}]}}", jstr(&v.kind), jstr(&v.msg), jstr(&v.site), jlist(&v.inputs), v.marks.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
                let samples: Vec<String> = ex.samples.iter().map(|s| format!("{{\"inputs\":{},\"trace\":{}}}", jlist(&s.inputs), jstr(&s.trace))).collect();
                let covers: Vec<String> = ex.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
                let funcs: Vec<String> = ex.p.funcs.iter().filter(|f| f.target && ex.funcs_hit[f.id as usize]).map(|f| f.short.clone()).collect();
                let mut incon = ex.incon.clone();
                let nincon = incon.len();
                incon.truncate(5);
                let cov = if a.dump_cov {
                    let mut v: Vec<String> = ex.blocks_hit.iter().map(|(f, b)| format!("\"{}:{}\"", f, b)).collect();
                    v.sort();
                    format!(",\"blocks\":[{}]", v.join(","))
                } else {
                    String::new()
                };
                let _ = writeln!(
                    f,
                    "{{\"entry\":{},\"case\":{},\"secs\":{:.3},\"paths\":{},\"killed\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"asserts_trivial\":{},\"asserts_solver\":{},\"safety\":{},\"queries\":{},\"z3\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache\":{},\"model_hits\":{},\"trivial\":{},\"second\":{},\"fp_precise\":{},\"cross\":{},\"table\":{},\"audited\":{},\"audit_open\":{},\"z3_us\":{},\"z3_max_us\":{},\"terms\":{},\"viol\":[{}],\"incon\":{},\"nincon\":{},\"covers\":{{{}}},\"samples\":[{}],\"nblocks\":{},\"funcs\":{}{}}}",
                    jstr(e), case, tu.elapsed().as_secs_f64(), c.paths, c.killed, c.forks, c.insts, c.asserts, c.asserts_trivial, c.asserts_solver, c.safety,
                    st.queries, st.z3_queries, st.sat, st.unsat, st.unknown, st.cache_hits, st.model_hits, st.trivial, st.second, st.fp_precise, st.cross_checked, st.table, audited, audit_open, st.time_us, st.max_us, ex.c.t.len(),
                    viol.join(","), jlist(&incon), nincon, covers.join(","), samples.join(","), ex.blocks_hit.len(), jlist(&funcs), cov
                );
                if a.prof {
                    let mut v: Vec<_> = ex.fork_sites.iter().collect();
                    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                    for (s, n) in v.iter().take(25) {
                        eprintln!("{:6} {}", n, s);
                    }
                }
                pr = Some(ex.into_prog());
            }
            if a.workers == 1 {
                return 0;
            }
            let _ = f.flush();
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    if bad > 0 {
        eprintln!("{} workers failed", bad);
        return 3;
    }
    0
}
