//! F04: field and group operations take no branch and no address from their operands,
//! observed by valgrind's memcheck on operands marked undefined.
use hv::*;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

/// Build the workload as users build the library (no debug assertions), at one level.
fn build(harness: &str, root: &str, level: &str) -> Result<String, String> {
    let dir = format!("{}/target-ct{}", root, level);
    let o = Command::new("timeout")
        .args(["-k", "5", "300", "cargo", "build", "--profile", "ct", "--offline", "--locked", "-q", "--bin", "f04s"])
        .current_dir(harness)
        .env("CARGO_TARGET_DIR", &dir)
        .env("CARGO_PROFILE_CT_OPT_LEVEL", level)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(format!("{}/ct/f04s", dir))
    } else {
        let e = String::from_utf8_lossy(&o.stderr);
        Err(format!("build at level {}: {}", level, e.lines().skip_while(|l| !l.starts_with("error")).take(12).collect::<Vec<_>>().join("\n")))
    }
}

struct Seen {
    /// reports per (round, position, operation)
    reports: BTreeMap<(String, usize, String), u64>,
    text: String,
}

fn observe(ctx: &Ctx, bin: &str, level: &str, seed: u64, rounds: usize) -> Result<Seen, String> {
    let o = Command::new("timeout")
        .args(["-k", "5", "400", "valgrind", "--tool=memcheck", "-q", "--error-limit=no", "--num-callers=6", "--vgdb=no", bin])
        .args([seed.to_string(), rounds.to_string()])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if !out.trim_end().ends_with("END") {
        let tail: String = err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
        return Err(format!("valgrind run at level {} gave no answer: {:?} {}", level, o.status, tail));
    }
    if !out.starts_with("valgrind 1") {
        return Err("the workload did not find itself under valgrind".into());
    }
    let mut round = "-".to_string();
    let mut reports = BTreeMap::new();
    let mut digest: [Vec<String>; 2] = Default::default();
    for l in out.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "round" => round = w[1].into(),
            "op" => {
                let n: u64 = w[3].parse().map_err(|_| format!("unreadable: {}", l))?;
                let pass = (w[1] == "1") as usize;
                digest[pass].push(format!("{} {}", w[2], w[4]));
                if pass == 0 {
                    reports.insert((round.clone(), digest[0].len(), w[2].to_string()), n);
                } else if n != 0 {
                    return Err(format!("reports without marked operands: {}", l));
                }
            }
            _ => {}
        }
    }
    if digest[0] != digest[1] || digest[0].is_empty() {
        return Err("what was computed differs between the marked and the unmarked pass".into());
    }
    for c in ["control:branch", "control:index", "control:pow_vartime"] {
        match reports.iter().find(|(k, _)| k.2 == c).map(|(_, v)| v) {
            Some(n) if *n > 0 => ctx.count("controls reported", 1),
            _ => return Err(format!("{} was not reported: the monitor is blind", c)),
        }
    }
    reports.retain(|k, _| !k.2.starts_with("control:"));
    Ok(Seen { reports, text: err })
}

fn main() {
    let exe = std::env::current_exe().unwrap();
    let root = exe.parent().unwrap().parent().unwrap().parent().unwrap().to_str().unwrap().to_string();
    let harness = env!("CARGO_MANIFEST_DIR");
    run(
        "F04",
        "one evaluation is one operation on operands marked undefined, run under memcheck and required to cause no report; distinct by operation, operand values and optimisation level",
        400,
        700,
        |ctx| {
            ctx.assume("an operation is reported only when the unoptimised and an optimised build both take a branch or an address from its operands, so that neither what the optimiser removes nor what it adds is laid at the code's door");
            ctx.assume("instructions whose own duration depends on their operands are not observed");
            let optimised: &[&str] = if ctx.quick() { &["3"] } else { &["3", "1", "2", "s"] };
            let seed = ctx.rng("operands", 0).u64() >> 1;
            let rounds = ctx.scale(8, 64);
            let levels: Vec<&str> = std::iter::once("0").chain(optimised.iter().copied()).collect();
            let seen: Vec<Option<Seen>> = std::thread::scope(|s| {
                let hs: Vec<_> = levels
                    .iter()
                    .map(|l| {
                        let root = &root;
                        s.spawn(move || match build(harness, root, l).and_then(|b| observe(ctx, &b, l, seed, rounds)) {
                            Ok(v) => Some(v),
                            Err(e) => {
                                ctx.inconclusive(e);
                                None
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (l, s) in levels.iter().zip(&seen) {
                let Some(s) = s else { continue };
                for ((round, at, op), n) in &s.reports {
                    ctx.case_str(&format!("{} {} {} {}", l, round, at, op));
                    ctx.count(&format!("operations observed at level {}", l), 1);
                    if *n > 0 {
                        ctx.count(&format!("operations reported at level {}", l), 1);
                    }
                }
            }
            let kinds = |s: &Seen| s.reports.keys().map(|k| k.2.clone()).collect::<std::collections::BTreeSet<_>>();
            let Some(plain) = &seen[0] else { return };
            ctx.max("distinct operations", kinds(plain).len() as u64);
            for (l, s) in levels.iter().zip(&seen).skip(1) {
                let Some(s) = s else { continue };
                let mut told = std::collections::BTreeSet::new();
                for (k, n) in &s.reports {
                    let m = plain.reports.get(k).copied().unwrap_or(0);
                    if *n > 0 && m > 0 && told.insert(k.2.clone()) {
                        let text: String = s.text.lines().filter(|t| !t.contains("control") && (t.contains("Conditional") || t.contains("Use of") || t.contains("halo"))).take(12).collect::<Vec<_>>().join("\n");
                        ctx.violation(
                            &k.2.clone(),
                            format!("{} depends on the value of its operands (round {}, {} reports at level {}, {} unoptimised)\n{}", k.2, k.0, n, l, m, text),
                        );
                    }
                }
            }
        },
    )
}
