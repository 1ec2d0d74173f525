mod conc;
#[path = "../../kani/src/h.rs"]
mod kani_harnesses;
mod engine;
mod si;
mod sv;
mod sym;
mod z3;

/// Inputs of a native replay of a Kani counterexample.
mod input {
    use std::cell::RefCell;
    thread_local!(pub static IN: RefCell<std::collections::VecDeque<u64>> = RefCell::default());
    pub fn any() -> u64 {
        IN.with(|q| q.borrow_mut().pop_front()).expect("inputs used up")
    }
    pub fn assume(b: bool) {
        if !b {
            println!("REPLAY outside the assumptions");
            std::process::exit(0);
        }
    }
}
fn kreplay(h: &str, inputs: Vec<u64>) {
    input::IN.with(|q| q.borrow_mut().extend(inputs));
    use kani_harnesses::*;
    match h {
        "c07_nonzero" => c07_nonzero(),
        "c10_scale" => c10_scale(),
        "c22_pretty_f64" => c22_pretty_f64(),
        "c22_pretty_f32" => c22_pretty_f32(),
        "c23_complex64" => c23_complex64(),
        "c23_complex32" => c23_complex32(),
        "c23_csr_views" => c23_csr_views(),
        "c23_csc_views" => c23_csc_views(),
        "c23_coo_views" => c23_coo_views(),
        "c23_with" => c23_with(),
        _ => {
            eprintln!("unknown harness {h}");
            std::process::exit(2);
        }
    }
}

use conc::{run_with, Conc, Verdict, CI};
use engine::*;
use props::jobs::{self, Job};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

/// Refuses absurd allocations made by the code under test (a wrapped-around size)
/// with a witness instead of an abort.
struct Guard;
static EXPLORING: AtomicBool = AtomicBool::new(false);
static DYING: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 && EXPLORING.load(Ordering::SeqCst) {
            die_with_witness("allocation of more than 1 GiB");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // (growing vectors are left to the memory limit: the engine's own grow too)
        if n > 1 << 33 && EXPLORING.load(Ordering::SeqCst) {
            die_with_witness("allocation of more than 1 GiB");
        }
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 && EXPLORING.load(Ordering::SeqCst) {
            die_with_witness("allocation of more than 1 GiB");
        }
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static G: Guard = Guard;

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn ints(v: &[i64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

/// Last resort: the code under test hangs or asks for absurd amounts of memory.
fn die_with_witness(kind: &str) -> ! {
    if DYING.swap(true, Ordering::SeqCst) {
        std::process::exit(4);
    }
    let w = unsafe {
        if ENG_PTR.is_null() {
            None
        } else {
            (*ENG_PTR).current_inputs()
        }
    };
    if let Some(v) = w {
        println!("FOUND {{\"label\":{},\"kind\":\"resource\",\"inputs\":{}}}", esc(kind), ints(&v));
    }
    println!("DONE {{\"complete\":false,\"aborted\":{}}}", esc(kind));
    std::process::exit(0);
}

fn watchdog(hang: u64, mem_mb: u64) {
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::SeqCst), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            if !EXPLORING.load(Ordering::SeqCst) {
                continue;
            }
            let p = PROGRESS.load(Ordering::SeqCst);
            if p != last.0 || IN_Z3.load(Ordering::SeqCst) {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(hang) {
                die_with_witness("no progress (the code under test does not return)");
            }
            if let Ok(s) = std::fs::read_to_string("/proc/self/statm") {
                let pages: u64 = s.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                if pages * 4096 > mem_mb << 20 && !IN_Z3.load(Ordering::SeqCst) {
                    die_with_witness("memory limit of the exploration");
                }
            }
        }
    });
}

fn concrete(job: &Job, inputs: &[i64]) -> Verdict {
    let (h, p) = (job.h, job.p.clone());
    if (job.imin, job.imax) == (0, jobs::USIZE) {
        run_with(inputs, job.bits, job.imin, job.imax, || jobs::run::<Conc<usize>>(h, &p))
    } else {
        run_with(inputs, job.bits, job.imin, job.imax, || jobs::run::<Conc<CI>>(h, &p))
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
fn list(s: &str) -> Vec<i64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}
fn job(args: &[String]) -> Job {
    let h: &'static str = Box::leak(arg(args, "--harness").expect("--harness").into_boxed_str());
    Job {
        h,
        p: list(&arg(args, "--params").unwrap_or_default()),
        bits: arg(args, "--bits").map_or(8, |x| x.parse().unwrap()),
        imin: arg(args, "--imin").map_or(0, |x| x.parse().unwrap()),
        imax: arg(args, "--imax").map_or(jobs::USIZE, |x| x.parse().unwrap()),
        parts: 1,
    }
}

/// Very deep graphs get the stack of an ordinary thread.
fn stack(args: &[String], usual: usize) -> usize {
    if arg(args, "--harness").as_deref() == Some("deep") {
        2 << 20
    } else {
        usual
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    match args.get(1).map(|s| s.as_str()) {
        Some("jobs") => {
            let th = args[3] == "thorough";
            for j in jobs::table(&args[2], th) {
                println!(
                    "{{\"h\":{},\"p\":{},\"bits\":{},\"imin\":{},\"imax\":{},\"parts\":{}}}",
                    esc(j.h),
                    ints(&j.p),
                    j.bits,
                    j.imin,
                    j.imax,
                    j.parts
                );
            }
        }
        Some("kreplay") => {
            let inputs = arg(&args, "--inputs").unwrap_or_default();
            let inputs = inputs.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let h = arg(&args, "--harness").unwrap();
            match std::thread::spawn(move || kreplay(&h, inputs)).join() {
                Ok(()) => println!("REPLAY ok"),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                    println!("REPLAY panics: {}", m.unwrap_or_default());
                    std::process::exit(1);
                }
            }
        }
        Some("replay") => {
            let j = job(&args);
            let inputs = list(&arg(&args, "--inputs").unwrap_or_default());
            let r = std::thread::Builder::new()
                .stack_size(stack(&args, 1 << 28))
                .spawn(move || concrete(&j, &inputs))
                .unwrap()
                .join()
                .unwrap();
            match r {
                Verdict::Ok(n) => println!("REPLAY ok ({n} obligations hold)"),
                Verdict::OutsideAssumptions => println!("REPLAY outside the assumptions"),
                Verdict::Fails(l) => {
                    println!("REPLAY fails: {}", l.join("; "));
                    std::process::exit(1);
                }
                Verdict::Panics(m) => {
                    println!("REPLAY panics: {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("run") => {
            let j = job(&args);
            let secs: u64 = arg(&args, "--deadline").map_or(60, |x| x.parse().unwrap());
            let part: Vec<u64> = arg(&args, "--part").map_or(vec![0, 1, 0], |x| list(&x).iter().map(|v| *v as u64).collect());
            let validate: u64 = arg(&args, "--validate").map_or(8, |x| x.parse().unwrap());
            let cross: u64 = arg(&args, "--cross").map_or(0, |x| x.parse().unwrap());
            let hang: u64 = arg(&args, "--hang").map_or(20, |x| x.parse().unwrap());
            let verbose = args.iter().any(|a| a == "-v");
            if !verbose {
                std::panic::set_hook(Box::new(|_| {}));
            }
            watchdog(hang, 2500);
            std::thread::Builder::new()
                .stack_size(stack(&args, 1 << 29))
                .spawn(move || explore_job(j, secs, part, validate, cross))
                .unwrap()
                .join()
                .unwrap();
        }
        _ => {
            eprintln!("usage: symx jobs PROP quick|thorough | run ... | replay ...");
            std::process::exit(2);
        }
    }
}

fn explore_job(j: Job, secs: u64, part: Vec<u64>, validate_every: u64, cross_every: u64) {
    let t0 = Instant::now();
    install(Engine::new(j.bits, j.imin, j.imax, 20_000, (part[0], part[1].max(1), part[2] as usize)));
    let lim = Limits {
        deadline: t0 + Duration::from_secs(secs),
        max_found: 4,
        validate_every,
        cross_every,
    };
    let (h, p) = (j.h, j.p.clone());
    EXPLORING.store(true, Ordering::SeqCst);
    let mut validate = |inp: &[i64]| match concrete(&j, inp) {
        Verdict::Ok(n) => Ok(n),
        v => Err(format!("{v:?}")),
    };
    let out = explore(&mut || jobs::run::<sym::Sym>(h, &p), &mut validate, &lim);
    EXPLORING.store(false, Ordering::SeqCst);
    for f in &out.found {
        println!("FOUND {{\"label\":{},\"kind\":{},\"inputs\":{}}}", esc(&f.label), esc(f.kind), ints(&f.inputs));
    }
    for c in &out.cross {
        println!("CROSS {}", esc(c));
    }
    let e = eng();
    let s = &e.st;
    let (nq, tq) = (e.z.checks, e.z.nanos as f64 / 1e9);
    println!(
        "DONE {{\"complete\":{},\"paths\":{},\"killed\":{},\"decisions\":{},\"branches\":{},\"forced\":{},\"obligations\":{},\"folded\":{},\"obligation_queries\":{},\"discharged\":{},\"inconclusive\":{},\"witnesses\":{},\"validated\":{},\"validation_failures\":{},\"max_depth\":{},\"nondet\":{},\"reached\":{},\"queries\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"samples\":[{}],\"z3\":{}}}",
        out.complete, s.paths, s.killed, s.decisions, s.branches, s.forced, s.obligations, s.folded, s.obligation_queries,
        s.discharged, s.inconclusive, s.witnesses, s.validated, s.validation_failures, s.max_depth, s.nondet, out.reached,
        nq, tq, t0.elapsed().as_secs_f64(),
        out.samples.iter().map(|v| ints(v)).collect::<Vec<_>>().join(","),
        esc(&z3::version())
    );
}
