//! C03: point encodings and coordinates.
use hv::*;
use halo::{Ec0, Ec1};

fn enc(p: &Pt) -> [u8; 32] {
    match p {
        None => [0; 32],
        Some((x, y)) => {
            let mut b = x.to_le();
            b[31] |= (y.0[0] as u8 & 1) << 7;
            b
        }
    }
}
/// What the documented encoding denotes.
fn model_dec(m: &Model, b: &[u8; 32]) -> Option<Pt> {
    let sign = b[31] >> 7;
    let mut t = *b;
    t[31] &= 0x7f;
    let x = U::from_le(&t);
    if !x.lt(&m.m.p) {
        return None;
    }
    if x.is_zero() && sign == 0 {
        return Some(None);
    }
    let y = m.lift_x(&x)?;
    let y = if (y.0[0] & 1) as u8 == sign { y } else { negm(&y, &m.m.p) };
    Some(Some((x, y)))
}

fn decode<C: PC>(ctx: &Ctx, b: &[u8; 32]) {
    let m = Model::of::<C>();
    let want = model_dec(&m, b);
    let got = C::from_bytes(b);
    let acc: bool = got.is_some().into();
    ctx.count(if acc { "strings accepted" } else { "strings refused" }, 1);
    ctx.case(Some(hash_str(&format!("{}{:?}", C::CNAME, b))));
    if !ctx.check(acc == want.is_some(), &format!("{}:decode", C::CNAME), || {
        format!("{:02x?} accepted={} want={}", b, acc, want.is_some())
    }) {
        return;
    }
    if acc {
        let g = got.unwrap();
        ctx.check(pt_of_raw(&g) == want.unwrap() && g.is_on_curve(), &format!("{}:decoded", C::CNAME), || {
            format!("{:02x?} gives {} want {}", b, show_pt(&pt_of_raw(&g)), show_pt(&want.unwrap()))
        });
        ctx.check(g.to_bytes() == *b, &format!("{}:reencode", C::CNAME), || format!("{:02x?} -> {:02x?}", b, g.to_bytes()));
    }
}

fn job<C: PC>(ctx: &Ctx, r: &mut Rng, i: usize) {
    let m = Model::of::<C>();
    let p = if r.one_in(12) { None } else { m.random(r) };
    let reps: Vec<C> = match p {
        None => {
            let q = rand_pt::<C>(r);
            vec![C::zero(), q - &q, C::default(), -C::zero()]
        }
        _ => {
            let c = c_of::<C>(&p);
            vec![c, rescale(&c, r), -(-rescale(&c, r))]
        }
    };
    let want = enc(&p);
    for c in &reps {
        let got = c.to_bytes();
        ctx.count("encodings", 1);
        ctx.check(got == want, &format!("{}:encode", C::CNAME), || {
            format!("{} rep {:?} want {:02x?} got {:02x?}", show_pt(&p), c.get_xyz(), want, got)
        });
        let back = C::from_bytes(&got);
        ctx.check(
            bool::from(back.is_some()) && back.unwrap() == *c,
            &format!("{}:roundtrip", C::CNAME),
            || format!("{} {:02x?}", show_pt(&p), got),
        );
        ctx.check(pt_of(c) == p && pt_of_raw(c) == p, &format!("{}:get_xy", C::CNAME), || {
            format!("{} rep {:?} reads {}", show_pt(&p), c.get_xyz(), show_pt(&pt_of(c)))
        });
        ctx.check(c.is_on_curve(), &format!("{}:is_on_curve", C::CNAME), || show_pt(&p));
    }
    // strings
    let mut b = want;
    match i % 8 {
        0 => b[31] ^= 0x80,
        1 => b[r.below(32)] ^= 1 << r.below(8),
        2 => {
            // non-canonical x
            if let Some((x, _)) = p {
                let y = x.wadd(&m.m.p);
                let s = b[31] & 0x80;
                b = y.to_le();
                if b[31] & 0x80 == 0 {
                    b[31] |= s;
                }
            }
        }
        3 => r.fill(&mut b),
        4 => {
            b = hostile_u(r, &m.m.p).to_le();
            if r.bool() {
                b[31] |= 0x80;
            }
        }
        5 => {
            let mut u = m.m.p;
            u = if r.bool() { u.wadd(&U::from_u64(r.below(5) as u64)) } else { u.wsub(&U::from_u64(r.below(5) as u64)) };
            b = u.to_le();
            if r.bool() {
                b[31] |= 0x80;
            }
        }
        6 => {
            b = [0; 32];
            if r.bool() {
                b[31] = 0x80
            }
            if r.bool() {
                b[0] = r.below(4) as u8
            }
        }
        _ => {
            b = [0xff; 32];
            b[r.below(32)] = r.u64() as u8;
        }
    }
    decode::<C>(ctx, &b);
    // coordinates given directly
    let pr = &m.m.p;
    let xy: (U, U) = match r.below(8) {
        0 => (U::ZERO, U::ZERO),
        1 => p.unwrap_or((U::ZERO, U::ONE)),
        2 => (U::ZERO, hostile_u(r, pr)),
        3 => (hostile_u(r, pr), U::ZERO),
        4 => p.map(|(x, y)| (x, negm(&y, pr))).unwrap_or((U::ONE, U::ZERO)),
        5 => p.map(|(x, y)| (x, addm(&y, &U::ONE, pr))).unwrap_or((U::ONE, U::ONE)),
        6 => p.map(|(x, y)| (y, x)).unwrap_or((U::ONE, U::ONE)),
        _ => (hostile_u(r, pr), hostile_u(r, pr)),
    };
    let g = C::from_xy(f_of(&xy.0), f_of(&xy.1));
    let acc: bool = g.is_some().into();
    let id = xy.0.is_zero() && xy.1.is_zero();
    let on = m.on_curve(&xy.0, &xy.1);
    ctx.count(if on { "coordinates on curve" } else if id { "coordinates of identity" } else { "coordinates off curve" }, 1);
    ctx.check(acc == (on || id), &format!("{}:from_xy", C::CNAME), || format!("({}, {}) accepted={}", xy.0.hex(), xy.1.hex(), acc));
    if acc {
        let g = g.unwrap();
        let want = if id && !on { None } else { Some(xy) };
        ctx.check(pt_of_raw(&g) == want, &format!("{}:from_xy-value", C::CNAME), || {
            format!("({}, {}) gives {}", xy.0.hex(), xy.1.hex(), show_pt(&pt_of_raw(&g)))
        });
    }
    let u = C::from_xy_unchecked(f_of(&xy.0), f_of(&xy.1));
    ctx.check(u.is_on_curve() == on, &format!("{}:is_on_curve", C::CNAME), || {
        format!("({}, {}) says {}", xy.0.hex(), xy.1.hex(), u.is_on_curve())
    });
    ctx.sample(|| format!("{} {:02x?}", C::CNAME, b));
}

fn main() {
    run(
        "C03",
        "one evaluation = one 32-byte string decoded (with encodings of several representatives of one element and one coordinate pair judged alongside); distinct = distinct strings",
        60,
        300,
        |ctx| {
            ctx.par("enc", ctx.scale(30000, 500000), |i, r| {
                job::<Ec0>(ctx, r, i);
                job::<Ec1>(ctx, r, i);
            });
        },
    );
}
