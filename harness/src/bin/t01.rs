//! T01: parallel routines under any number of CPUs, with injected delays, under
//! ThreadSanitizer and under the Miri interpreter.
use halo::*;
use hv::cpus::pretend;
use hv::tiny;
use hv::*;
use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex};

fn fields<F: PF>(ctx: &Ctx, r: &mut Rng, cpus: usize, n: usize) {
    let info = |what: &str, n: usize| format!("{} of {} elements of {} with {} CPUs", what, n, F::NAME, cpus);
    let a: Vec<F> = (0..n).map(|_| rand_f(r)).collect();
    let b: Vec<F> = (0..n).map(|_| if r.one_in(4) { F::zero() } else { rand_f(r) }).collect();
    if let Some(v) = ctx.total("compute_inner_product", || compute_inner_product(&a, &b)) {
        let mut w = F::zero();
        for (a, b) in a.iter().zip(&b) {
            w = w + *a * b;
        }
        ctx.case_str(&info("inner product", n));
        ctx.check(v == w, "compute_inner_product", || info("inner product", n));
    }
    let mut v = b.clone();
    if ctx.total("batch_invert", || F::batch_invert(&mut v)).is_some() {
        ctx.case_str(&info("batch inversion", n));
        let ok = b.iter().zip(&v).all(|(b, v)| if bool::from(b.is_zero()) { *v == *b } else { *b * v == F::one() });
        ctx.check(ok, "batch_invert", || info("batch inversion", n));
    }
    let m = r.range(1, 40);
    if n > 0 && n * m < 20_000 {
        let c: Vec<F> = (0..m).map(|_| rand_f(r)).collect();
        if let Some(v) = ctx.total("multiply_polynomials", || multiply_polynomials(b.clone(), c.clone())) {
            let mut w = vec![F::zero(); n + m - 1];
            for i in 0..n {
                for j in 0..m {
                    w[i + j] = w[i + j] + b[i] * c[j];
                }
            }
            ctx.case_str(&info("polynomial product", n * 1000 + m));
            ctx.check(v == w, "multiply_polynomials", || info("polynomial product", n));
        }
    }
}

fn points<C: PC>(ctx: &Ctx, r: &mut Rng, cpus: usize, n: usize) {
    let info = |what: &str| format!("{} of {} elements of {} with {} CPUs", what, n, C::CNAME, cpus);
    // multiples of the generator, by a walk
    let mut k = vec![];
    let mut g = vec![];
    let (mut ku, mut p) = (rand_f::<C::S>(r), C::zero());
    p = p + C::one() * &ku;
    let (ds, dp) = (C::S::from_u64(3), C::one() * &C::S::from_u64(3));
    for _ in 0..n {
        k.push(ku);
        g.push(p);
        ku = ku + ds;
        p = p + dp;
    }
    let a: Vec<C::S> = (0..n).map(|_| if r.one_in(5) { C::S::zero() } else { rand_f(r) }).collect();
    let mut w = C::S::zero();
    for (a, k) in a.iter().zip(&k) {
        w = w + *a * k;
    }
    if let Some(v) = ctx.total("multiexp", || multiexp(&a, &g)) {
        ctx.case_str(&info("multi-exponentiation"));
        ctx.check(v == C::one() * &w, "multiexp", || info("multi-exponentiation"));
    }
    if n >= 2 && n % 2 == 0 {
        let (c, ci) = (rand_f::<C::S>(r), rand_f::<C::S>(r));
        let mut v = g.clone();
        if ctx.total("parallel_generator_collapse", || parallel_generator_collapse(&mut v, c, ci)).is_some() {
            ctx.case_str(&info("basis folding"));
            for i in 0..n / 2 {
                let w = k[i] * ci + k[i + n / 2] * c;
                if !ctx.check(v[i] == C::one() * &w, "parallel_generator_collapse", || format!("{}: element {}", info("basis folding"), i)) {
                    break;
                }
            }
        }
    }
}

fn counts(ctx: &Ctx, r: &mut Rng) -> Vec<usize> {
    let mut v = if ctx.quick() {
        vec![1, 2, 3, 4, 5, 6, 7, 8, 12, 16]
    } else {
        (1..=33).collect()
    };
    v.push(r.range(9, 32));
    v.push(*r.pick(&[48, 61, 64, 96]));
    v.push(128);
    v
}

/// The repository's own generic routines with everything observed natively.
fn native(ctx: &Ctx) {
    let mut r = ctx.rng("counts", 0);
    let list = counts(ctx, &mut r);
    let mut round = 0;
    loop {
        for n in &list {
            pretend(*n);
            ctx.max("most CPUs pretended", num_cpus::get() as u64);
            let seed = r.u64();
            // the one-word field and group, all sizes
            let sizes = tiny::sizes(*n, seed | 1, 12, 700);
            tiny::DELAYS.store(200, Ordering::Relaxed);
            ctx.par(&format!("tiny/{}/{}", n, round), sizes.len(), |i, _| {
                for routine in 0..6 {
                    if routine == 5 && i > 8 {
                        continue;
                    }
                    ctx.case_str(&format!("tiny {} {} {}", routine, sizes[i], n));
                    ctx.count("calls on the one-word field", 1);
                    if let Some(e) = tiny::judge(routine, sizes[i], seed ^ i as u64) {
                        ctx.violation("one-word field", format!("{} CPUs: {}", n, e));
                    }
                }
            });
            tiny::DELAYS.store(0, Ordering::Relaxed);
            // the real ones
            let q = if ctx.quick() { 4 } else { 1 };
            ctx.par(&format!("real/{}/{}", n, round), sizes.len(), |i, r| {
                let s = sizes[i];
                fields::<Fp>(ctx, r, *n, s);
                fields::<Fq>(ctx, r, *n, s);
                if s <= 300 && i % q == (*n + round) % q {
                    ctx.count("calls on the curves", 2);
                    points::<Ec0>(ctx, r, *n, s);
                    points::<Ec1>(ctx, r, *n, s);
                }
            });
            // sizes at which one might be tempted to split the work further
            ctx.par(&format!("long/{}/{}", n, round), 4, |i, r| {
                let s = r.range(1 << (9 + i), 1 << (11 + i));
                ctx.max("longest vector", s as u64);
                if r.bool() {
                    fields::<Fp>(ctx, r, *n, s)
                } else {
                    fields::<Fq>(ctx, r, *n, s)
                }
            });
        }
        pretend(0);
        round += 1;
        if ctx.quick() || ctx.done() {
            break;
        }
    }
}

/// Orders in which threads get to run: recorded at the injected delays.
fn interleavings(ctx: &Ctx) {
    let mut r = ctx.rng("interleavings", 0);
    let mut seen = HashSet::new();
    tiny::trace_on();
    for i in 0..ctx.scale(500, 20_000) {
        if ctx.done() {
            break;
        }
        let n = r.range(2, 12);
        pretend(n);
        tiny::DELAYS.store(*r.pick(&[3, 10, 50, 200]), Ordering::Relaxed);
        let routine = r.below(5);
        let size = if r.bool() { 2 * r.range(1, 2 * n * n) } else { r.range(1, 80) };
        let e = ctx.total("one-word field", || tiny::judge(routine, size, r.u64()));
        let (h, threads, events) = tiny::trace_take();
        if let Some(Some(e)) = e {
            ctx.violation("one-word field", format!("{} CPUs, delays: {}", n, e));
        }
        ctx.case_str(&format!("order {} {} {} {}", n, routine, size, i));
        ctx.count("delays injected while recording", events);
        ctx.max("most threads heard of in one call", threads as u64);
        if threads > 1 {
            ctx.count("calls with several threads", 1);
            seen.insert((routine, h));
        }
    }
    tiny::trace_off();
    tiny::DELAYS.store(0, Ordering::Relaxed);
    pretend(0);
    ctx.count("distinct thread orders observed", seen.len() as u64);
}

/// Proving and verifying.
fn proving(ctx: &Ctx, exe: &str) {
    for (k, cpus) in [(4, "1,2,3,5,8,13,64"), (6, "3,1,9,16"), (7, "6,11,128")] {
        let seed = ctx.rng("proving", k).u64();
        judge_child(ctx, "native", &mut Command::new(exe), &[seed.to_string(), "prove".into(), cpus.into(), k.to_string()], 200);
    }
}

/// Run an instrumented workload and read its verdict.
fn judge_child(ctx: &Ctx, tool: &str, c: &mut Command, args: &[String], secs: u64) {
    // under `timeout`, with everything it starts
    let mut t = Command::new("timeout");
    t.args(["-k", "5", &secs.to_string()]).arg(c.get_program()).args(c.get_args()).args(args);
    for (k, v) in c.get_envs() {
        if let Some(v) = v {
            t.env(k, v);
        }
    }
    if let Some(d) = c.get_current_dir() {
        t.current_dir(d);
    }
    let what = format!("{}: {}", tool, args.join(" "));
    let o = match t.stdin(Stdio::null()).output() {
        Ok(o) => o,
        Err(_) => return ctx.count(&format!("{} runs without an answer", tool), 1),
    };
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let mut cpus = 0;
    for l in out.lines() {
        if l.starts_with("call ") || l.starts_with("proof ") {
            ctx.case_str(&format!("{} {} {} {}", tool, l, cpus, args.join(" ")));
            ctx.count(&format!("{} {}", tool, if l.starts_with("call") { "calls" } else { "verifications" }), 1);
        } else if let Some(n) = l.strip_prefix("cpus ") {
            cpus = n.parse().unwrap_or(0);
            ctx.max(&format!("{} most CPUs", tool), cpus);
        } else if l.starts_with("MISMATCH") {
            return ctx.violation(&format!("{} result", tool), format!("{} ({})", l, what));
        }
    }
    let from = |s: &str| -> String { err.lines().skip_while(|l| !l.contains(s)).take(30).collect::<Vec<_>>().join("\n") };
    for s in ["WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "error: Undefined Behavior", "the evaluated program deadlocked", "WARNING: MemorySanitizer"] {
        if err.contains(s) {
            return ctx.violation(&format!("{} report", tool), format!("{}\n{}", what, from(s)));
        }
    }
    if o.status.success() && out.trim_end().ends_with("END") {
        return ctx.count(&format!("{} runs completed", tool), 1);
    }
    if err.contains("panicked at") && !err.contains("failed to spawn") && !err.contains("Resource temporarily") && !err.contains("SpawnError") {
        return ctx.violation(&format!("{} panic", tool), format!("{}\n{}", what, from("panicked at")));
    }
    ctx.count(&format!("{} runs cut off", tool), 1);
}

struct Sem(Mutex<usize>, Condvar);
impl Sem {
    fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        let mut n = self.0.lock().unwrap();
        while *n == 0 {
            n = self.1.wait(n).unwrap();
        }
        *n -= 1;
        drop(n);
        let o = f();
        *self.0.lock().unwrap() += 1;
        self.1.notify_one();
        o
    }
}

const TARGET: &str = "x86_64-unknown-linux-gnu";

/// Build the workload with a sanitizer, standard library included.
fn build(ctx: &Ctx, harness: &str, dir: &str, flag: &str) -> Option<String> {
    let o = Command::new("timeout")
        .args(["400", "cargo", "+nightly", "build", "--release", "--offline", "--locked", "-q", "-Zbuild-std", "--target", TARGET, "--bin", "t01s"])
        .current_dir(harness)
        .env("CARGO_TARGET_DIR", dir)
        .env("RUSTFLAGS", format!("--cfg halo_verif -Zsanitizer={}", flag))
        .stdin(Stdio::null())
        .output();
    match o {
        Ok(o) if o.status.success() => Some(format!("{}/{}/release/t01s", dir, TARGET)),
        o => {
            ctx.count(&format!("{} builds that failed", flag), 1);
            if let Ok(o) = o {
                ctx.sample(|| format!("{} build: {}", flag, String::from_utf8_lossy(&o.stderr)));
            }
            None
        }
    }
}

fn miri(harness: &str, dir: &str, flags: &str) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--bin", "t01s", "--"])
        .current_dir(harness)
        .env("CARGO_TARGET_DIR", dir)
        .env("XDG_CACHE_HOME", format!("{}/cache", dir))
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {}", flags));
    c
}

fn main() {
    let exe = std::env::current_exe().unwrap();
    let dir = exe.parent().unwrap().to_path_buf();
    let root = dir.parent().unwrap().parent().unwrap().to_str().unwrap().to_string();
    let harness = env!("CARGO_MANIFEST_DIR");
    run(
        "T01",
        "one evaluation is one call of a parallel routine (or one proof) compared with its definition, natively with a pretended CPU count and injected delays, under ThreadSanitizer, or interpreted by Miri; distinct by routine, size, CPU count and tool",
        300,
        780,
        |ctx| {
            ctx.assume("the one-word field and group stand for the real ones where the tools are slow; the code is generic over them");
            ctx.assume("Miri does not see past the sizes it had time for");
            std::thread::scope(|s| {
                let root = &root;
                s.spawn(move || {
                    let d = format!("{}/target-tsan", root);
                    let Some(bin) = build(ctx, harness, &d, "thread") else { return };
                    let sem = Sem(Mutex::new(3), Condvar::new());
                    let mut r = ctx.rng("tsan", 0);
                    std::thread::scope(|s| {
                        for i in 0..ctx.scale(9, 60) {
                            let seed = (r.u64() >> 1).to_string();
                            let many = r.range(9, 40);
                            let (bin, sem) = (&bin, &sem);
                            s.spawn(move || {
                                sem.with(|| {
                                    if ctx.done() {
                                        return;
                                    }
                                    let mut c = Command::new(bin);
                                    c.env("TSAN_OPTIONS", "exitcode=66 halt_on_error=1");
                                    let (what, cpus, max) = match i % 9 {
                                        0 => ("tiny", "1,2,3,4,5,6,7,8".to_string(), 400),
                                        1 => ("delays", "8,2,7,3".to_string(), 300),
                                        2 => ("delays", "4,6,5".to_string(), 300),
                                        3 => ("tiny", "16,64".to_string(), 300),
                                        4 => ("delays", many.to_string(), 400),
                                        5 => ("prove", format!("2,{}", many), 4),
                                        6 => ("prove", "3,8".to_string(), 5),
                                        7 => ("prove", "5,16".to_string(), 6),
                                        _ => ("tiny", many.to_string(), 700),
                                    };
                                    judge_child(ctx, "ThreadSanitizer", &mut c, &[seed, what.into(), cpus, max.to_string()], ctx.scale(90, 200) as u64);
                                })
                            });
                        }
                    });
                    if !ctx.quick() {
                        let d = format!("{}/target-asan", root);
                        let Some(bin) = build(ctx, harness, &d, "address") else { return };
                        for (what, cpus, max) in [("tiny", "1,2,3,5,8,16", 700), ("prove", "2,7", 5)] {
                            let seed = (r.u64() >> 1).to_string();
                            judge_child(ctx, "AddressSanitizer", &mut Command::new(&bin), &[seed, what.into(), cpus.into(), max.to_string()], 200);
                        }
                    }
                });
                s.spawn(move || {
                    let d = format!("{}/target-miri", root);
                    // builds; nothing to run
                    let mut b = miri(harness, &d, "");
                    b.args(["1", "tiny", "0", "0"]);
                    match Command::new("timeout").arg("400").arg(b.get_program()).args(b.get_args()).envs(b.get_envs().filter_map(|(k, v)| v.map(|v| (k, v)))).current_dir(harness).stdin(Stdio::null()).output() {
                        Ok(o) if String::from_utf8_lossy(&o.stdout).contains("cpus ") => {}
                        o => {
                            ctx.count("Miri builds that failed", 1);
                            if let Ok(o) = o {
                                ctx.sample(|| format!("Miri: {}", String::from_utf8_lossy(&o.stderr)));
                            }
                            return;
                        }
                    }
                    let sem = Sem(Mutex::new(5), Condvar::new());
                    let mut r = ctx.rng("miri", 0);
                    let d = &d;
                    std::thread::scope(|s| {
                        for i in 0..ctx.scale(8, 64) {
                            let seed = (r.u64() >> 1).to_string();
                            let n = [3, 1, 2, 5, 8, 4, 6, 16, 7, 12][i % 10];
                            let sched = r.below(1 << 30);
                            let rate = *r.pick(&["0.01", "0.05", "0.3"]);
                            let sem = &sem;
                            s.spawn(move || {
                                sem.with(|| {
                                    if ctx.done() {
                                        return;
                                    }
                                    let mut c = miri(harness, d, &format!("-Zmiri-num-cpus={} -Zmiri-seed={} -Zmiri-preemption-rate={}", n, sched, rate));
                                    judge_child(ctx, "Miri", &mut c, &[seed, "delays".into(), "0".into(), (2 * n + 2).to_string()], ctx.scale(100, 250) as u64);
                                })
                            });
                        }
                    });
                });
                let worker = format!("{}/t01s", dir.to_str().unwrap());
                let s2 = Command::new("cargo")
                    .args(["build", "--release", "--offline", "--locked", "-q", "--bin", "t01s"])
                    .current_dir(harness)
                    .env("CARGO_TARGET_DIR", dir.parent().unwrap())
                    .stdin(Stdio::null())
                    .output();
                native(ctx);
                interleavings(ctx);
                if s2.map(|o| o.status.success()).unwrap_or(false) {
                    proving(ctx, &worker);
                }
            });
        },
    )
}
