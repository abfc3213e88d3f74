//! ksym: symbolic execution of LLVM IR with an SMT solver.
//!
//! usage: ksym --entry F --module X.ll [--module ..] --out R.txt [--jobs N] ...

mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

struct Opt {
    entry: String,
    modules: Vec<String>,
    out: String,
    jobs: usize,
    timeout: u64,
    query_ms: u32,
    max_steps: u64,
    max_depth: usize,
    hash_mode: u32,
    trace: bool,
    itrace: bool,
    seed: u64,
    samples: usize,
    dump: u64,
    frontier: usize,
}

fn opts() -> Opt {
    let mut o = Opt {
        entry: String::new(),
        modules: vec![],
        out: String::new(),
        jobs: 1,
        timeout: 600,
        query_ms: 60000,
        max_steps: 200_000_000,
        max_depth: 3000,
        hash_mode: 0,
        trace: false,
        itrace: false,
        seed: 1,
        samples: 8,
        dump: 0,
        frontier: 0,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap_or_else(|| panic!("missing value"));
        match &k[..] {
            "--entry" => o.entry = v(),
            "--module" => o.modules.push(v()),
            "--modules" => {
                for l in std::fs::read_to_string(v()).unwrap().lines() {
                    if !l.trim().is_empty() {
                        o.modules.push(l.trim().to_string())
                    }
                }
            }
            "--out" => o.out = v(),
            "--jobs" => o.jobs = v().parse().unwrap(),
            "--timeout" => o.timeout = v().parse().unwrap(),
            "--query-ms" => o.query_ms = v().parse().unwrap(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--max-depth" => o.max_depth = v().parse().unwrap(),
            "--hash-mode" => o.hash_mode = v().parse().unwrap(),
            "--trace" => o.trace = true,
            "--itrace" => o.itrace = true,
            "--seed" => o.seed = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--dump" => o.dump = v().parse().unwrap(),
            "--frontier" => o.frontier = v().parse().unwrap(),
            _ => {
                eprintln!("ksym: unknown option {}", k);
                std::process::exit(3)
            }
        }
    }
    o
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}

fn ins(v: &[(u8, u64)]) -> String {
    v.iter().map(|(w, x)| if *w == 0 { format!("t:{}", x) } else { format!("{}:{}", w, x) }).collect::<Vec<_>>().join(",")
}

/// Serialises what one process found; lines are additive.
fn dump(e: &Engine, complete: bool) -> String {
    let mut s = String::new();
    let st = &e.stats;
    let sv = &e.solver.stats;
    for (k, v) in [
        ("paths", st.paths),
        ("panics_ok", st.panics_ok),
        ("infeasible", st.infeasible),
        ("steps", st.steps),
        ("forks", st.forks),
        ("conc_forks", st.conc_forks),
        ("checks", st.checks),
        ("sym_checks", st.sym_checks),
        ("queries", sv.queries),
        ("sat", sv.sat),
        ("unsat", sv.unsat),
        ("unknown", sv.unknown),
        ("cache_hits", sv.cache_hits),
        ("byte_domain", sv.byte_domain),
        ("byte_confirmed", sv.byte_confirmed),
        ("solver_us", sv.solver_us),
        ("assert_queries", sv.asserts),
        ("violations", e.viol_count),
        ("incomplete", !complete as u64),
        ("left", e.work.len() as u64),
    ] {
        let _ = writeln!(s, "n\t{}\t{}", k, v);
    }
    let _ = writeln!(s, "x\tmax_query_us\t{}", sv.max_us);
    let _ = writeln!(s, "x\tmax_pc\t{}", st.max_pc);
    let _ = writeln!(s, "x\tmax_inputs\t{}", st.max_inputs);
    let _ = writeln!(s, "x\texprs\t{}", expr::ctx().nodes.len());
    for v in &e.viols {
        let _ = writeln!(
            s,
            "v\t{}\t{}\t{}\t{}",
            v.kind,
            esc(&v.msg),
            ins(&v.inputs),
            esc(&v.trace.join(" < "))
        );
    }
    for (m, n) in &e.errors {
        let _ = writeln!(s, "e\t{}\t{}", n, esc(m));
    }
    for p in &e.samples {
        let _ = writeln!(s, "s\t{}\t{}\t{}", p.outcome, p.digest, ins(&p.inputs));
    }
    for (r, n) in &e.reach {
        let _ = writeln!(s, "r\t{}\t{}", r, n);
    }
    for (i, u) in e.used.iter().enumerate() {
        if *u {
            let _ = writeln!(s, "f\t{}", e.link.fns[i].name);
        }
    }
    for (q, sat) in &e.solver.dump {
        let _ = writeln!(s, "q\t{}\t{}", *sat as u8, esc(q));
    }
    s
}

fn main() {
    let th = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = th.join().unwrap_or(3);
    std::process::exit(r);
}

fn real_main() -> i32 {
    let o = opts();
    expr::init();
    let t0 = Instant::now();
    let mut link = ir::Link::new();
    for m in &o.modules {
        link.add_module(m);
    }
    let cfg = Cfg {
        max_steps_path: o.max_steps,
        max_depth: o.max_depth,
        deadline: Some(t0 + Duration::from_secs(o.timeout)),
        hash_mode: o.hash_mode,
        random_keys: (o.seed.wrapping_mul(0x9E3779B97F4A7C15), o.seed ^ 0x5555),
        max_viol: 60,
        trace: o.trace,
        itrace: o.itrace,
        max_samples: o.samples,
        seed: o.seed,
    };
    let mut e = Engine::new(link, cfg, o.query_ms);
    e.solver.dump_every = o.dump;
    if let Err(x) = e.start(&o.entry) {
        eprintln!("ksym: {}", x);
        return 3;
    }
    let over = |e: &Engine| {
        e.viols.len() >= e.cfg.max_viol || e.hangs >= 12 || Instant::now() > e.cfg.deadline.unwrap()
    };
    // breadth first until there is enough to share
    let want = if o.jobs > 1 { if o.frontier > 0 { o.frontier } else { o.jobs * 24 } } else { usize::MAX };
    let mut complete = true;
    let mut text = String::new();
    if o.jobs > 1 {
        let t1 = Instant::now();
        while !e.work.is_empty() && e.work.len() < want {
            let st = e.work.remove(0);
            e.run(st);
            if over(&e) {
                complete = false;
                break;
            }
            // a long initial phase with little growth: go on sequentially
            if t1.elapsed().as_secs() > 20 && e.work.len() >= o.jobs {
                break;
            }
        }
        if !e.work.is_empty() && complete {
            let shared = unsafe {
                mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize
            };
            let mut pids = vec![];
            for j in 0..o.jobs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    let sh = unsafe { &*shared };
                    let init = std::mem::take(&mut e.work);
                    let mut init: Vec<Option<State>> = init.into_iter().map(Some).collect();
                    e.stats = Stats::default();
                    e.solver.stats = Default::default();
                    e.solver.dump.clear();
                    e.viols.clear();
                    e.viol_count = 0;
                    e.errors.clear();
                    e.samples.clear();
                    e.reach.clear();
                    let mut ok = true;
                    'outer: loop {
                        let i = sh.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= init.len() {
                            break;
                        }
                        e.work.push(init[i].take().unwrap());
                        while let Some(st) = e.work.pop() {
                            e.run(st);
                            if over(&e) {
                                ok = e.work.is_empty();
                                sh.store(1 << 30, std::sync::atomic::Ordering::SeqCst);
                                ok = false && ok;
                                break 'outer;
                            }
                        }
                    }
                    let s = dump(&e, ok);
                    let r = std::fs::write(format!("{}.{}", o.out, j), s);
                    unsafe { _exit(if r.is_ok() { 0 } else { 4 }) };
                }
                pids.push(pid);
            }
            e.work.clear();
            for (j, p) in pids.iter().enumerate() {
                let mut st = 0;
                unsafe { waitpid(*p, &mut st, 0) };
                let f = format!("{}.{}", o.out, j);
                match std::fs::read_to_string(&f) {
                    Ok(t) if st == 0 => text.push_str(&t),
                    _ => {
                        *e.errors.entry(format!("worker {} died with status {}", j, st)).or_insert(0) += 1;
                        complete = false;
                    }
                }
                let _ = std::fs::remove_file(&f);
            }
        }
    } else {
        while let Some(st) = e.work.pop() {
            e.run(st);
            if over(&e) {
                complete = e.work.is_empty() && Instant::now() < e.cfg.deadline.unwrap();
                break;
            }
        }
    }
    text.push_str(&dump(&e, complete));
    let _ = writeln!(text, "x\twall_ms\t{}", t0.elapsed().as_millis());
    let _ = writeln!(text, "i\tsolver\t{}", z3::version());
    std::fs::write(&o.out, text).expect("writing the result");
    0
}
