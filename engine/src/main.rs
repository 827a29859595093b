mod builtin;
mod exec;
mod expr;
mod ll;
mod mem;
mod selftest;
mod z3;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn getpid() -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
}

#[derive(Clone)]
struct Job {
    id: String,
    func: String,
    args: Vec<u64>,
    secs: u64,
    max_paths: u64,
    max_inst: u64,
    rlimit: u32,
}

/// counters shared by all worker processes
#[repr(C)]
struct Shared {
    active: AtomicU64,
    workers: AtomicU64,
    started: [AtomicU64; 4096],
    finished: [AtomicU64; 4096],
    stop: [AtomicU64; 4096],
    waiting_jobs: AtomicU64,
}
static mut SH: *mut Shared = std::ptr::null_mut();
fn sh() -> &'static Shared {
    unsafe { &*SH }
}
static mut JOB: usize = 0;
static mut OUT: Option<std::fs::File> = None;
static mut SEED: u64 = 1;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}

fn emit(e: &mut Engine, jobs: &[Job], j: usize, t0: Instant) {
    let s = &e.st;
    let inputs = |v: &Vec<(u16, u128)>| arr(v, |(w, x)| format!("[{w},{}]", js(&x.to_string())));
    let mut fns: Vec<(String, u64)> = vec![];
    for (i, n) in e.fn_inst.iter().enumerate() {
        if *n > 0 {
            fns.push((String::from_utf8_lossy(e.w.fns[i].name).into_owned(), *n));
        }
    }
    let mut builtins: Vec<String> = vec![];
    for f in &e.w.fns {
        if f.calls > 0 && matches!(f.state, ll::FState::Builtin(_)) && !f.name.starts_with(b"llvm.") {
            builtins.push(String::from_utf8_lossy(f.name).into_owned());
        }
    }
    let line = format!(
        "{{\"job\":{},\"fn\":{},\"args\":{},\"paths_done\":{},\"paths_assume\":{},\"paths_panic_ok\":{},\"paths_viol\":{},\"paths_bad\":{},\"inst\":{},\"forks\":{},\"asserts\":{},\"sym_branches\":{},\"max_depth\":{},\"queries\":{},\"cache_hits\":{},\"solver_us\":{},\"unknowns\":{},\"secs\":{:.3},\"incomplete\":{{{}}},\"reach\":{{{}}},\"viol\":{},\"samples\":{},\"fns\":{},\"builtins\":{}}}\n",
        js(&jobs[j].id),
        js(&jobs[j].func),
        arr(&jobs[j].args, |a| a.to_string()),
        s.paths_done,
        s.paths_assume,
        s.paths_panic_ok,
        s.paths_viol,
        s.paths_bad,
        s.inst,
        s.forks,
        s.asserts,
        s.sym_branches,
        s.max_depth,
        e.sv.queries,
        e.sv.cache_hits,
        e.sv.micros,
        e.sv.unknowns,
        t0.elapsed().as_secs_f64(),
        s.incomplete.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        s.reach.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        arr(&e.viol, |v| format!(
            "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"trace\":{}}}",
            js(&v.kind),
            js(&v.msg),
            inputs(&v.inputs),
            arr(&v.trace, |t| js(t))
        )),
        arr(&e.samples, |v| format!(
            "{{\"inputs\":{},\"outs\":{},\"end\":{}}}",
            inputs(&v.inputs),
            arr(&v.outs, |x| js(&x.to_string())),
            js(&v.end)
        )),
        arr(fns, |(n, c)| format!("[{},{c}]", js(&n))),
        arr(builtins, |n| js(&n)),
    );
    unsafe {
        #[allow(static_mut_refs)]
        if let Some(f) = &mut OUT {
            let _ = f.write_all(line.as_bytes());
        } else {
            print!("{line}");
        }
    }
}

/// Called between paths: hand half of the open states to a new process when a worker slot is free.
fn split(e: &mut Engine) {
    let s = sh();
    let w = s.workers.load(Ordering::Relaxed);
    if s.waiting_jobs.load(Ordering::Relaxed) > 0 {
        return;
    }
    let cur = s.active.load(Ordering::Relaxed);
    if cur >= w || s.active.compare_exchange(cur, cur + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
        return;
    }
    let j = unsafe { JOB };
    s.started[j].fetch_add(1, Ordering::SeqCst);
    let pid = unsafe { fork() };
    if pid < 0 {
        s.active.fetch_sub(1, Ordering::SeqCst);
        s.started[j].fetch_sub(1, Ordering::SeqCst);
        return;
    }
    let child = pid == 0;
    let mut i = 0;
    e.work.retain(|_| {
        i += 1;
        (i % 2 == 1) == child
    });
    if child {
        // this process reports only what it does itself
        e.st = Stats::default();
        e.viol.clear();
        e.samples.clear();
        e.rng = e.rng.wrapping_add(unsafe { getpid() } as u64);
        for x in e.fn_inst.iter_mut() {
            *x = 0;
        }
        for f in e.w.fns.iter_mut() {
            f.calls = 0;
        }
        e.sv.queries = 0;
        e.sv.cache_hits = 0;
        e.sv.micros = 0;
        e.sv.unknowns = 0;
    }
}

fn run_job(world: ll::World, jobs: &[Job], j: usize) -> ! {
    let t0 = Instant::now();
    let job = &jobs[j];
    unsafe {
        JOB = j;
    }
    let cfg = Cfg {
        max_inst: job.max_inst,
        max_paths: job.max_paths,
        deadline: t0 + Duration::from_secs(job.secs),
        trace: false,
        nsamples: 3,
        max_viol: 3,
    };
    let mut sv = z3::Solver::new(job.rlimit);
    if let Ok(d) = std::env::var("VSX_DUMP") {
        sv.dump_dir = Some(d);
        sv.dump_every = 97;
    }
    let mut e = Engine::new(world, cfg, sv);
    e.rng = unsafe { SEED }.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ j as u64;
    e.stop = Some(&sh().stop[j]);
    e.demand_split = Some(split);
    match e.initial(&job.func, &job.args) {
        Ok(s) => e.work.push(s),
        Err(x) => {
            e.st.incomplete.insert(format!("{x:?}"), 1);
        }
    }
    e.run_all();
    emit(&mut e, jobs, j, t0);
    sh().finished[j].fetch_add(1, Ordering::SeqCst);
    sh().active.fetch_sub(1, Ordering::SeqCst);
    unsafe { _exit(0) }
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let get = |k: &str| av.iter().position(|x| x == k).map(|i| av[i + 1].clone());
    if av.get(1).map(|s| s.as_str()) == Some("selftest") {
        selftest::run(get("--n").and_then(|x| x.parse().ok()).unwrap_or(20000), get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1));
        return;
    }
    let list = get("--ll-list").expect("--ll-list");
    let files: Vec<String> =
        std::fs::read_to_string(&list).expect("ll list").lines().filter(|l| !l.is_empty()).map(|s| s.to_string()).collect();
    let mut world = ll::World::new(builtin::lookup);
    let t = Instant::now();
    if let Err(e) = world.load(&files) {
        eprintln!("vsx: {e}");
        std::process::exit(2);
    }
    let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    unsafe { SEED = seed };
    if av[1] == "one" {
        eprintln!("indexed {} modules in {:?}; {}", files.len(), t.elapsed(), z3::version());
        let func = get("--fn").unwrap();
        let args: Vec<u64> =
            get("--args").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        let cfg = Cfg {
            max_inst: get("--max-inst").and_then(|x| x.parse().ok()).unwrap_or(200_000_000),
            max_paths: get("--max-paths").and_then(|x| x.parse().ok()).unwrap_or(100_000),
            deadline: Instant::now() + Duration::from_secs(get("--secs").and_then(|x| x.parse().ok()).unwrap_or(60)),
            trace: av.iter().any(|x| x == "-t"),
            nsamples: 3,
            max_viol: 3,
        };
        let mut sv = z3::Solver::new(get("--rlimit").and_then(|x| x.parse().ok()).unwrap_or(200_000_000));
        if let Ok(d) = std::env::var("VSX_DUMP") {
            sv.dump_dir = Some(d);
            sv.dump_every = std::env::var("VSX_EVERY").ok().and_then(|x| x.parse().ok()).unwrap_or(97);
        }
        let mut e = Engine::new(world, cfg, sv);
        e.traceon = av.iter().any(|x| x == "-c");
        match e.initial(&func, &args) {
            Ok(s) => e.work.push(s),
            Err(x) => {
                eprintln!("{x:?}");
                std::process::exit(2);
            }
        }
        let t0 = Instant::now();
        e.run_all();
        let s = &e.st;
        eprintln!(
            "paths done {} assume {} panic-ok {} viol {} bad {} | inst {} forks {} symbr {} asserts {} depth {} | queries {} hits {} solver {} ms unk {} | {:?}",
            s.paths_done, s.paths_assume, s.paths_panic_ok, s.paths_viol, s.paths_bad, s.inst, s.forks, s.sym_branches,
            s.asserts, s.max_depth, e.sv.queries, e.sv.cache_hits, e.sv.micros / 1000, e.sv.unknowns, t0.elapsed()
        );
        for (k, v) in &s.incomplete {
            eprintln!("INCOMPLETE {v}x {k}");
        }
        eprintln!("reach {:?}", s.reach);
        for v in &e.viol {
            eprintln!("VIOL {}: {}\n   inputs {:?}\n   {}", v.kind, v.msg, v.inputs, v.trace.join("\n   "));
        }
        for v in &e.samples {
            eprintln!("SAMPLE {:?} -> {:?} {}", v.inputs, v.outs, v.end);
        }
        if av.iter().any(|x| x == "-p") {
            let mut f: Vec<(u64, usize)> = e.fn_inst.iter().enumerate().map(|(i, n)| (*n, i)).filter(|x| x.0 > 0).collect();
            f.sort();
            for (n, i) in f.iter().rev().take(25) {
                eprintln!("{n:>12} {:>8} {}", e.w.fns[*i].calls, demangle(e.w.fns[*i].name));
            }
        }
        return;
    }
    // run: a job list
    let mut jobs: Vec<Job> = vec![];
    for l in std::fs::read_to_string(get("--jobs").expect("--jobs")).expect("jobs").lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 7 {
            continue;
        }
        jobs.push(Job {
            id: f[0].into(),
            func: f[1].into(),
            args: f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            secs: f[3].parse().unwrap(),
            max_paths: f[4].parse().unwrap(),
            max_inst: f[5].parse().unwrap(),
            rlimit: f[6].parse().unwrap(),
        });
    }
    assert!(jobs.len() <= 4096);
    let total: u64 = get("--total-secs").and_then(|x| x.parse().ok()).unwrap_or(800);
    let workers: u64 = get("--workers").and_then(|x| x.parse().ok()).unwrap_or(8);
    let out = get("--out").expect("--out");
    let _ = std::fs::remove_file(&out);
    let f = std::fs::OpenOptions::new().create(true).append(true).open(&out).expect("out");
    let t0 = Instant::now();
    unsafe {
        OUT = Some(f);
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        SH = p as *mut Shared;
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        setpgid(0, 0);
    }
    let s = sh();
    s.workers.store(workers, Ordering::SeqCst);
    s.waiting_jobs.store(jobs.len() as u64, Ordering::SeqCst);
    let mut next = 0;
    let mut pids: std::collections::HashSet<i32> = Default::default();
    let mut crashed = 0u64;
    loop {
        while next < jobs.len() && s.active.load(Ordering::SeqCst) < workers && t0.elapsed().as_secs() < total {
            s.active.fetch_add(1, Ordering::SeqCst);
            s.started[next].fetch_add(1, Ordering::SeqCst);
            s.waiting_jobs.fetch_sub(1, Ordering::SeqCst);
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0) };
                run_job(world, &jobs, next);
            }
            pids.insert(pid);
            next += 1;
        }
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 1) };
        if p > 0 {
            pids.remove(&p);
            if st & 0x7f != 0 || (st >> 8) & 0xff != 0 {
                crashed += 1;
                s.active.fetch_sub(1, Ordering::SeqCst);
            }
            continue;
        }
        if p < 0 && (next >= jobs.len() || t0.elapsed().as_secs() >= total) {
            break;
        }
        if t0.elapsed().as_secs() > total + 30 {
            // hard stop
            unsafe {
                OUT = None;
            }
            for pid in children() {
                unsafe { kill(pid, 9) };
            }
            while unsafe { waitpid(-1, &mut st, 0) } > 0 {}
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let mut f = std::fs::OpenOptions::new().append(true).open(&out).unwrap();
    for (i, j) in jobs.iter().enumerate() {
        let (a, b) = (s.started[i].load(Ordering::SeqCst), s.finished[i].load(Ordering::SeqCst));
        if a != b || a == 0 {
            let why = if a == 0 { "not started: time budget" } else { "worker process died or was killed" };
            let _ = writeln!(f, "{{\"job\":{},\"fn\":{},\"lost\":{},\"why\":{}}}", js(&j.id), js(&j.func), (a - b).max(1), js(why));
        }
    }
    let _ = writeln!(f, "{{\"end\":true,\"crashed\":{crashed},\"secs\":{:.3},\"z3\":{}}}", t0.elapsed().as_secs_f64(), js(&z3::version()));
}

fn children() -> Vec<i32> {
    let me = unsafe { getpid() };
    let mut out = vec![];
    if let Ok(d) = std::fs::read_dir("/proc") {
        for e in d.flatten() {
            let Ok(pid) = e.file_name().to_string_lossy().parse::<i32>() else { continue };
            if let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) {
                let rest = s.rsplit(')').next().unwrap_or("");
                let f: Vec<&str> = rest.split_whitespace().collect();
                // our own descendants only: parent is this process (we are the subreaper) or same group
                if f.len() > 3 && (f[1] == me.to_string() || f[2] == me.to_string()) && pid != me {
                    out.push(pid);
                }
            }
        }
    }
    out
}
