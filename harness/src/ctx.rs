//! Verdicts, counters, evidence and the known-findings file.
use crate::rng::{hash_str, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Known {
    sig: String,
    desc: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    root: String,
    start: Instant,
    limit: Duration,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<String>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    inconclusive: Mutex<Vec<String>>,
    stop: AtomicBool,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}
static ANY_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());
static QUIET: AtomicBool = AtomicBool::new(true);

const MAX_VIOLATIONS: usize = 8;

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn rng(&self, label: &str, n: u64) -> Rng {
        Rng::labelled(self.seed, &format!("{}/{}", self.id, label), n)
    }
    /// True once enough violations are on record or the time box is used up.
    pub fn done(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || self.start.elapsed() > self.limit
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(name.to_string()).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    /// One evaluated case; `key` identifies the case for the distinct count, None
    /// marks a trivial case.
    pub fn case(&self, key: Option<u64>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(k) = key {
            let mut d = self.distinct.lock().unwrap();
            if d.len() < 4_000_000 {
                d.insert(k);
            }
        }
    }
    pub fn case_str(&self, key: &str) {
        self.case(Some(hash_str(key)))
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let mut t = s();
            if t.len() > 600 {
                let mut cut = 600;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
                t.push_str("...");
            }
            v.push(t);
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// The monitor could not decide something (not a violation).
    pub fn inconclusive(&self, s: String) {
        self.inconclusive.lock().unwrap().push(s);
    }
    /// Record a violation unless its signature is listed as a known finding.
    pub fn violation(&self, sig: &str, detail: String) {
        if self.known.iter().any(|k| k.sig == sig) {
            *self.known_hit.lock().unwrap().entry(sig.to_string()).or_insert(0) += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            eprintln!("[{}] violation {}: {}", self.id, sig, detail);
            v.push(format!("{}: {}", sig, detail));
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    /// Run code of the repository under the panic monitor.
    pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        let _ = LAST_PANIC.with(|p| p.borrow_mut().take());
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(_) => Err(LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .or_else(|| ANY_PANIC.lock().unwrap().last().cloned())
                .unwrap_or_else(|| "panic in a worker thread".into())),
        }
    }
    /// Run code that must not panic on valid input; a panic is a violation.
    pub fn total<T>(&self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match self.guard(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.panic_verdict(what, e);
                None
            }
        }
    }
    fn panic_verdict(&self, what: &str, e: String) {
        if e.contains("failed to spawn") || e.contains("Resource temporarily") {
            self.inconclusive(format!("{}: {}", what, e));
        } else {
            self.violation(&format!("panic:{}", what), e);
        }
    }
    /// `n` independent jobs over the worker threads; job i gets its own generator.
    pub fn par<J: Fn(usize, &mut Rng) + Sync>(&self, label: &str, n: usize, job: J) {
        let next = AtomicU64::new(0);
        let threads = crate::cpus::real().min(n.max(1)).min(8);
        // a stage that comes late, on a loaded machine, still gets a slice of its own
        let slice = (self.limit / 6).min(Duration::from_secs(20));
        let begun = Instant::now();
        let out = || {
            self.stop.load(Ordering::Relaxed)
                || (self.done() && (begun.elapsed() > slice || self.start.elapsed() > Duration::from_secs(700)))
        };
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= n || out() {
                            break;
                        }
                        let mut rng = self.rng(label, i as u64);
                        self.total(&format!("{}", label), || job(i, &mut rng));
                    })
                    .unwrap();
            }
        });
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "))
}

/// Entry point of every check binary.
pub fn run(id: &str, rule: &str, quick_s: u64, thorough_s: u64, body: impl FnOnce(&Ctx) + Send) -> ! {
    let root = std::env::var("HV_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut known = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let (p, g, d) = (it.next(), it.next(), it.next());
                if let (Some(p), Some(g), Some(d)) = (p, g, d) {
                    if p == format!("property={}", id) {
                        if let Some(g) = g.strip_prefix("sig=") {
                            known.push(Known {
                                sig: g.to_string(),
                                desc: d.to_string(),
                            });
                        }
                    }
                }
            }
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let t = format!("{} at {}", msg, loc);
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("panic: {}", t);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(t.clone()));
        if let Ok(mut v) = ANY_PANIC.lock() {
            if v.len() < 1000 {
                v.push(t);
            }
        }
    }));
    let ctx = Ctx {
        id: id.into(),
        tier,
        seed,
        root: root.clone(),
        start: Instant::now(),
        limit: Duration::from_secs(if tier == Tier::Quick { quick_s } else { thorough_s.min(660) }),
        evals: AtomicU64::new(0),
        distinct: Mutex::new(HashSet::new()),
        counters: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        violations: Mutex::new(vec![]),
        known,
        known_hit: Mutex::new(BTreeMap::new()),
        assumptions: Mutex::new(vec![]),
        inconclusive: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
    };
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    {
        // code that stops making progress on valid or hostile input is reported, not waited for
        let (rule, root, limit) = (rule.to_string(), root.clone(), ctx.limit);
        std::thread::spawn(move || {
            let (mut seen, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let now = ctx.evals.load(Ordering::Relaxed) + ctx.counters.lock().unwrap().values().fold(0u64, |a, b| a.wrapping_add(*b));
                if now != seen {
                    seen = now;
                    since = Instant::now();
                }
                if ctx.start.elapsed() > limit + Duration::from_secs(300) && since.elapsed() > Duration::from_secs(150) {
                    if ctx.id == "F04" {
                        ctx.inconclusive("the tools did not finish in time".into());
                    } else {
                        ctx.violation("hang", "a workload item did not finish within five minutes of the time box".into());
                    }
                    ctx.finish(&rule, &root);
                }
                if ctx.start.elapsed() > Duration::from_secs(835) {
                    // slow machine, still advancing: what was seen so far is the answer
                    ctx.finish(&rule, &root);
                }
            }
        });
    }
    crate::big::selfcheck();
    // the body runs on a big stack: some synthesisers recurse
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(s, || {
                ctx.total("workload", || body(ctx));
            })
            .unwrap()
            .join()
            .ok();
    });
    ctx.finish(rule, &root)
}

impl Ctx {
    fn finish(&self, rule: &str, root: &str) -> ! {
        let evals = self.evals.load(Ordering::Relaxed);
        let distinct = self.distinct.lock().unwrap().len();
        let viol = self.violations.lock().unwrap().clone();
        let samples = self.samples.lock().unwrap().clone();
        let counters = self.counters.lock().unwrap().clone();
        let hits = self.known_hit.lock().unwrap().clone();
        let assume = self.assumptions.lock().unwrap().clone();
        let inc = self.inconclusive.lock().unwrap().clone();
        let wall = self.start.elapsed().as_secs_f64();
        let observed = counters
            .iter()
            .map(|(k, v)| format!("{}: {}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        let known: Vec<String> = hits.iter().map(|(k, v)| format!("{} (observed {} times)", k, v)).collect();
        let json = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"observed\": {{{}}},\n    \"known_findings_observed\": {},\n    \"inconclusive\": {},\n    \"violations_detail\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            jstr(&self.id),
            jstr(if self.quick() { "quick" } else { "thorough" }),
            self.seed,
            evals,
            distinct,
            jstr(rule),
            jlist(&samples),
            observed,
            jlist(&known),
            jlist(&inc),
            jlist(&viol),
            jlist(&assume),
            wall,
            viol.len()
        );
        let dir = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.id), json) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(2);
        }
        for k in &self.known {
            if hits.contains_key(&k.sig) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, k.desc, k.sig);
            }
        }
        println!(
            "{} {:?} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
            self.id, self.tier, self.seed, evals, distinct, viol.len(), wall
        );
        for (k, v) in &counters {
            println!("  {} = {}", k, v);
        }
        if !viol.is_empty() {
            let path = format!("{}/replay-{}.txt", dir, self.id);
            let txt = format!(
                "property {}\nseed {}\ntier {:?}\nreplay: VERIF_SEED={} VERIF_TIER={} bash {}/check.sh {}\n\n{}\n",
                self.id,
                self.seed,
                self.tier,
                self.seed,
                if self.quick() { "quick" } else { "thorough" },
                root,
                self.id,
                viol.join("\n\n")
            );
            let _ = std::fs::write(&path, txt);
            println!("VIOLATION property={} replay={}", self.id, path);
            std::process::exit(1);
        }
        if evals == 0 || !inc.is_empty() {
            eprintln!("inconclusive: evaluations={} {:?}", evals, inc);
            std::process::exit(2);
        }
        std::process::exit(0);
    }
    pub fn root(&self) -> &str {
        &self.root
    }
}
