//! Workload of the T01 monitor, run under interpreters and sanitizers.
//! t01s <seed> <what> <cpu counts, 0 for the real one> <largest size>
use halo::*;
use hv::tiny;
use std::sync::atomic::Ordering;

fn fail(s: String) -> ! {
    println!("MISMATCH {}", s);
    std::process::exit(3)
}

struct Squares<F: Field>(Option<F>, usize);
impl<F: Field> Circuit<F> for Squares<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let first = AllocatedNum::alloc(cs.namespace(|| "x"), || self.0.ok_or(SynthesisError::AssignmentMissing))?;
        let mut x = first.clone();
        for i in 0..self.1 {
            x = x.mul(cs.namespace(|| format!("square {}", i)), &x)?;
        }
        first.inputize(cs.namespace(|| "input"))?;
        Ok(())
    }
}

fn prove<C: Curve>(k: usize, seed: u64, cpus: &[usize]) {
    let mut params: Vec<Params<C>> = vec![];
    for c in cpus {
        hv::cpus::pretend(*c);
        params.push(Params::new(k));
    }
    for (p, c) in params.iter().zip(cpus) {
        for i in 0..1 << k {
            let xy = Option::<(C::Base, C::Base)>::from(p.generators[i].get_xy());
            if xy.is_none() || xy != Some(p.generators_xy[i]) || p.generators_xy[..i].iter().any(|g| Some(*g) == xy) {
                fail(format!("Params::new({}) with {} CPUs: generator {}", k, c, i));
            }
        }
    }
    let x = C::Scalar::from_u64(seed);
    let n = (1 << k) / 8 - 1;
    // is the prover a function of its inputs?
    let mut lefts: Vec<Leftovers<C>> = vec![];
    for (i, c) in [cpus[0], cpus[0]].iter().chain(&cpus[1..]).enumerate() {
        hv::cpus::pretend(*c);
        let old = Leftovers::dummy(&params[0]);
        match Proof::new::<_, Basic>(&params[0], &Squares(Some(x), n), &old) {
            Ok((proof, left)) => {
                for c in cpus.iter().rev().take(2) {
                    hv::cpus::pretend(*c);
                    match proof.verify::<_, Basic>(&old, &params[0], &Squares(None, n), &[x], None) {
                        Ok((true, l, d, _)) if l == left && d.verify(k) => {}
                        _ => fail(format!("a proof at k={} is refused", k)),
                    }
                    match left.verify::<_, Basic>(&params[0], &Squares(None, n)) {
                        Ok(true) => {}
                        _ => fail(format!("leftovers at k={} are refused", k)),
                    }
                    println!("proof {} {}", k, c);
                }
                let deterministic = i < 2 || lefts[0] == lefts[1];
                if deterministic && i >= 2 && left != lefts[0] {
                    fail(format!("a proof at k={} depends on the CPU count", k));
                }
                lefts.push(left)
            }
            Err(e) => fail(format!("proving at k={}: {:?}", k, e)),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let cpus: Vec<usize> = a[3].split(',').map(|x| x.parse().unwrap()).collect();
    let max: usize = a[4].parse().unwrap();
    match a[2].as_str() {
        "tiny" | "delays" => {
            if a[2] == "delays" {
                tiny::DELAYS.store(64, Ordering::Relaxed);
            }
            for c in cpus {
                hv::cpus::pretend(c);
                let n = num_cpus::get();
                println!("cpus {}", n);
                for s in tiny::sizes(n, seed, 6, max) {
                    for routine in 0..6 {
                        // what is slow to interpret, on fewer sizes
                        if cfg!(miri) && routine == 5 && s > 2 {
                            continue;
                        }
                        if cfg!(miri) && routine < 2 && ![n, n + 1, n + n / 2].contains(&s) {
                            continue;
                        }
                        if let Some(e) = tiny::judge(routine, s, seed ^ ((s as u64) << 20)) {
                            fail(format!("{} CPUs: {}", n, e));
                        }
                        println!("call {} {}", routine, s);
                    }
                }
            }
        }
        "prove" => {
            prove::<Ec0>(max, seed, &cpus);
            prove::<Ec1>(max, seed, &cpus);
        }
        _ => std::process::exit(4),
    }
    println!("END");
}
