//! C08: powers are exact.
use ibig::{IBig, UBig};
use mc::*;

fn one(c: &mut Chk, b: &Nat, e: usize, want: &Nat) {
    let u = to_u(b);
    c.u("pow", &u.pow(e), want);
    c.u("operand unchanged", &u, b);
    let p = to_i(&Int::pos(b.clone()));
    c.i("ibig pow", &p.pow(e), &Int::pos(want.clone()));
    let n = -p;
    let neg = e % 2 == 1 && !want.is_zero();
    c.i("-ibig pow", &n.pow(e), &Int::new(neg, want.clone()));
}

fn seq(ctx: &mut Ctx, b: &Nat, maxe: usize, maxbits: usize) {
    let mut w = Nat::from_u(1);
    for e in 0..=maxe {
        if w.bit_len() > maxbits {
            break;
        }
        ctx.state(|| format!("base={} exp={e}", b.hex()), |c| one(c, b, e, &w));
        w = w.mul(b);
    }
}

fn main() {
    mc::main("C08", |tier| {
        let mut v = vec![];
        // Every small base, every exponent up to a result of several thousand bits.
        let maxb = tier.pick(200u128, 700);
        let bits = if W == 16 { tier.pick(12_000, 30_000) } else { tier.pick(16_000, 60_000) };
        for b in 0..=maxb {
            v.push(block(format!("small-{b}"), move |ctx| seq(ctx, &Nat::from_u(b), 2100, bits)));
        }
        // Boundary-word bases.
        for (k, ch) in upto_words(&wa7(), 3).chunks(16).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("words-{k}"), move |ctx| {
                for b in &ch {
                    seq(ctx, b, tier.pick(60, 140), usize::MAX);
                }
            }));
        }
        // Powers of two and neighbours as bases.
        for s in 1..=tier.pick(6 * W, 12 * W) {
            v.push(block(format!("pow2-{s}"), move |ctx| {
                let p = Nat::pow2(s);
                for b in [p.clone(), p.add(&Nat::from_u(1)), p.sub(&Nat::from_u(1)).unwrap()] {
                    seq(ctx, &b, 18, usize::MAX);
                }
                for e in [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
                    let w = Nat::pow2(s * e);
                    ctx.state(|| format!("base=2^{s} exp={e}"), |c| one(c, &p, e, &w));
                }
            }));
        }
        // Base 2 with every exponent; trivial bases with huge exponents.
        v.push(block("two", move |ctx| {
            for e in 0..=tier.pick(12000usize, 40000) {
                let w = Nat::pow2(e);
                ctx.state(|| format!("base=2 exp={e}"), |c| one(c, &Nat::from_u(2), e, &w));
            }
        }));
        v.push(block("huge-exponents", move |ctx| {
            let mut es: Vec<usize> = vec![usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 2 + 2];
            for k in 0..usize::BITS {
                es.extend([1usize << k, (1usize << k) - 1, (1usize << k) + 1]);
            }
            for e in es {
                ctx.state(|| format!("0,1 exp={e}"), |c| {
                    let z = Nat::from_u((e == 0) as u128);
                    one(c, &Nat::zero(), e, &z);
                    one(c, &Nat::from_u(1), e, &Nat::from_u(1));
                });
            }
        }));
        // Long bases.
        for l in tier.pick(vec![4usize, 5, 6, 7, 8, 9, 10, 13, 16, 25, 33, 48, 64], vec![4, 5, 6, 7, 8, 9, 10, 13, 16, 20, 24, 25, 33, 48, 64, 100, 200]) {
            v.push(block(format!("long-{l}"), move |ctx| {
                for b in pats(l) {
                    seq(ctx, &b, 9, if W == 16 { 60_000 } else { tier.pick(60_000, 200_000) });
                }
            }));
        }
        if W == 16 {
            // Every one-word base, small exponents, against u128.
            for k in 0..16u64 {
                v.push(block(format!("all-words-{k}"), move |ctx| {
                    for b in (k * 4096)..((k + 1) * 4096) {
                        ctx.state(|| format!("base={b}"), |c| {
                            let u = UBig::from(b);
                            let mut w: u128 = 1;
                            for e in 0..=8usize {
                                if e == 8 && b >= 65536 {
                                    break;
                                }
                                c.ok(u128::try_from(u.pow(e)) == Ok(w), || format!("{b}^{e}"));
                                if e < 8 {
                                    w *= b as u128;
                                }
                            }
                            let n = -IBig::from(b);
                            c.ok(n.pow(3) == -IBig::from((b as u128).pow(3)), || format!("(-{b})^3"));
                        });
                    }
                }));
            }
        }
        v
    });
}
