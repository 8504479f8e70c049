//! R02: influence of every absorbed element on every later output, and absence of
//! linear relations among outputs.
use halo::rescue::Rescue;
use halo::*;
use hv::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum O {
    A,
    S,
}

fn exec<F: PF>(ops: &[O], vals: &[F]) -> Vec<F> {
    let mut s = Rescue::<F>::new();
    let mut i = 0;
    let mut out = vec![];
    for o in ops {
        match o {
            O::A => {
                s.absorb(vals[i]);
                i += 1;
            }
            O::S => out.push(s.squeeze()),
        }
    }
    out
}

/// (position within the block, outputs already produced) of each absorbed element.
fn places(ops: &[O]) -> Vec<(usize, usize)> {
    let (mut fill, mut out) = (0, 0);
    let mut v = vec![];
    let mut last = O::A;
    for o in ops {
        match o {
            O::A => {
                if last == O::S || fill == 12 {
                    fill = 0;
                }
                v.push((fill, out));
                fill += 1;
            }
            O::S => {
                out += 1;
                fill = 0;
            }
        }
        last = *o;
    }
    v
}

fn influence<F: PF>(ctx: &Ctx, r: &mut Rng, ops: &[O]) {
    let pl = places(ops);
    let vals: Vec<F> = (0..pl.len()).map(|_| hostile_f(r)).collect();
    let base = match ctx.total("sponge", || exec(ops, &vals)) {
        Some(b) => b,
        None => return,
    };
    for (i, (pos, from)) in pl.iter().enumerate() {
        let mut w = vals.clone();
        w[i] = match r.below(5) {
            0 => vals[i] + &F::one(),
            1 => -vals[i],
            2 => F::zero(),
            3 => F::one(),
            _ => hostile_f(r),
        };
        if w[i] == vals[i] {
            w[i] = vals[i] + &F::one();
        }
        let got = match ctx.total("sponge", || exec(ops, &w)) {
            Some(b) => b,
            None => return,
        };
        ctx.case(Some(hash_str(&format!("{:?}{}{:?}{:?}", ops, i, vals, w[i]))));
        let info = |j: usize| format!("{} {:?} element {} (block position {}): {:?} and {:?}, output {} equal", F::NAME, ops, i, pos, vals[i], w[i], j);
        // nothing before it changes
        for j in 0..*from {
            ctx.check(base[j] == got[j], "influences an earlier output", || info(j));
        }
        for j in *from..base.len() {
            ctx.count("influence observations", 1);
            ctx.check(base[j] != got[j], &format!("no-influence-position-{}", pos), || info(j));
        }
    }
}

fn relations<F: PF>(ctx: &Ctx, r: &mut Rng, n: usize) {
    // outputs of one block over four histories: is (o_i - o_i') / (o_j - o_j') fixed?
    let mut ops = vec![O::A; n];
    ops.extend(vec![O::S; 14]);
    let outs: Vec<Vec<F>> = (0..4)
        .map(|_| {
            let v: Vec<F> = (0..n).map(|_| hostile_f(r)).collect();
            exec(&ops, &v)
        })
        .collect();
    ctx.case(Some(hash_str(&format!("{:?}", outs))));
    let d: Vec<Vec<F>> = (1..4).map(|h| (0..14).map(|i| outs[h][i] - &outs[0][i]).collect()).collect();
    for i in 0..14 {
        for j in 0..i {
            ctx.count("relation observations", 1);
            // same ratio in every pair of histories
            let linear = (1..3).all(|h| d[0][i] * &d[h][j] == d[h][i] * &d[0][j]) && d[0][j] != F::zero();
            if linear {
                let known = i / 12 == j / 12
                    && d[0][i] * &F::from_u64(j as u64 % 12 + 1) == d[0][j] * &F::from_u64(i as u64 % 12 + 1);
                let sig = if known { "outputs-affine-in-one-sum" } else { "outputs-linearly-related" };
                ctx.violation(sig, format!("{} outputs {} and {} after {} absorbs: fixed ratio {:?}", F::NAME, j, i, n, d[0][i] * &d[0][j].invert().unwrap()));
            }
        }
        let zero = (0..3).all(|h| d[h][i] == F::zero());
        ctx.check(!zero, "output constant", || format!("{} output {} after {} absorbs", F::NAME, i, n));
    }
    // repeated or equal outputs
    for h in 0..4 {
        for i in 0..14 {
            for j in 0..i {
                ctx.check(outs[h][i] != outs[h][j], "equal outputs", || format!("{} outputs {} and {} after {} absorbs", F::NAME, j, i, n));
            }
        }
    }
}

fn main() {
    run(
        "R02",
        "one evaluation is one pair of same-shape histories differing in one element (or one set of histories for the relation test); distinct pairs are counted by shape, position and values",
        90,
        900,
        |ctx| {
            ctx.par("blocks", ctx.scale(30, 300), |i, r| {
                // every position of one and two full blocks
                let n = if i % 3 == 0 { 24 } else { r.range(1, 12) };
                let mut ops = vec![O::A; n];
                ops.extend(vec![O::S; [1, 3, 13][i % 3]]);
                if i % 2 == 0 {
                    influence::<Fp>(ctx, r, &ops)
                } else {
                    influence::<Fq>(ctx, r, &ops)
                }
            });
            ctx.par("random", ctx.scale(150, 3000), |i, r| {
                let ops: Vec<O> = {
                    let mut v = vec![];
                    for _ in 0..r.range(1, 4) {
                        v.extend(vec![O::A; r.range(0, 14)]);
                        v.extend(vec![O::S; r.range(1, 4)]);
                    }
                    v
                };
                if i % 2 == 0 {
                    influence::<Fp>(ctx, r, &ops)
                } else {
                    influence::<Fq>(ctx, r, &ops)
                }
            });
            ctx.par("relations", ctx.scale(40, 800), |i, r| {
                let n = 2 + i % 25;
                if i % 2 == 0 {
                    relations::<Fp>(ctx, r, n)
                } else {
                    relations::<Fq>(ctx, r, n)
                }
            });
        },
    )
}
