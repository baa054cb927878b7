//! C09: gcd and Bezout coefficients.
use mc::*;

fn pair(c: &mut Chk, a: &Nat, b: &Nat) {
    let (ua, ub) = (to_u(a), to_u(b));
    let g = a.gcd(b);
    c.u("gcd", &ua.gcd(&ub), &g);
    let (h, x, y) = ua.extended_gcd(&ub);
    c.u("extended_gcd", &h, &g);
    bez(c, &Int::pos(a.clone()), &Int::pos(b.clone()), &g, &of_i(&x), &of_i(&y));
    c.u("operand a unchanged", &ua, a);
    c.u("operand b unchanged", &ub, b);
}

fn bez(c: &mut Chk, a: &Int, b: &Int, g: &Nat, x: &Int, y: &Int) {
    let s = a.mul(x).add(&b.mul(y));
    let ok = !s.neg && s.mag == *g;
    c.ok(ok, || format!("a*x+b*y = {} but gcd = {}; x={} y={}", s.hex(), g.hex(), x.hex(), y.hex()));
    let one = Nat::from_u(1);
    let bx = if b.mag.is_zero() { &one } else { &b.mag };
    let by = if a.mag.is_zero() { &one } else { &a.mag };
    c.ok(x.mag.cmp(bx).is_le(), || format!("|x| > max(|b|,1): x={}", x.hex()));
    c.ok(y.mag.cmp(by).is_le(), || format!("|y| > max(|a|,1): y={}", y.hex()));
}

fn signs(c: &mut Chk, a: &Nat, b: &Nat) {
    let g = a.gcd(b);
    for sa in [false, true] {
        for sb in [false, true] {
            let (ia, ib) = (Int::new(sa, a.clone()), Int::new(sb, b.clone()));
            let (x, y) = (to_i(&ia), to_i(&ib));
            c.i("ibig gcd", &x.gcd(&y), &Int::pos(g.clone()));
            let (h, p, q) = x.extended_gcd(&y);
            c.i("ibig extended_gcd", &h, &Int::pos(g.clone()));
            bez(c, &ia, &ib, &g, &of_i(&p), &of_i(&q));
        }
    }
}

fn both(ctx: &mut Ctx, a: &Nat, b: &Nat, sg: bool) {
    if a.is_zero() && b.is_zero() {
        ctx.state(|| "gcd(0,0)".into(), |c| {
            let z = to_u(&Nat::zero());
            let i = to_i(&Int::pos(Nat::zero()));
            c.panics("gcd(0,0)", || z.gcd(&z));
            c.panics("extended_gcd(0,0)", || z.extended_gcd(&z));
            c.panics("ibig gcd(0,0)", || i.gcd(&i));
            c.panics("ibig extended_gcd(0,0)", || i.extended_gcd(&i));
        });
        return;
    }
    ctx.state(|| d2(a, b), |c| {
        pair(c, a, b);
        if sg {
            signs(c, a, b);
        }
    });
}

fn main() {
    mc::main("C09", |tier| {
        let mut v = vec![];
        let n = tier.pick(900u128, 2400);
        for k in 0..16 {
            v.push(block(format!("tiny-{k}"), move |ctx| {
                for a in (k..n).step_by(16) {
                    for b in 0..n {
                        both(ctx, &Nat::from_u(a), &Nat::from_u(b), a < 40 && b < 40);
                    }
                }
            }));
        }
        let vals = {
            let mut x = upto_words(&wa7(), 2);
            x.extend(all_words(&wa4(), 3));
            x.extend(all_words(&wa3(), 4));
            x
        };
        for (k, ch) in vals.chunks(8).enumerate() {
            let (ch, vals) = (ch.to_vec(), vals.clone());
            v.push(block(format!("small-pairs-{k}"), move |ctx| {
                for a in &ch {
                    for b in &vals {
                        both(ctx, a, b, wlen(a) + wlen(b) <= 3);
                    }
                }
            }));
        }
        // All length pairs, structured contents.
        let maxl = tier.pick(if W == 16 { 32usize } else { 14 }, if W == 16 { 64 } else { 26 });
        for la in 1..=maxl {
            v.push(block(format!("lengths-{la}"), move |ctx| {
                for lb in 1..=maxl {
                    let pa = if la + lb > 12 { pats_few(la) } else { pats(la) };
                    for a in &pa {
                        for b in &pats_few(lb) {
                            both(ctx, a, b, false);
                        }
                    }
                }
            }));
        }
        // a = g*u, b = g*v with u, v coprime or consecutive Fibonacci numbers, g structured with every
        // power of two.
        for lg in 1..=tier.pick(8usize, 16) {
            v.push(block(format!("common-{lg}"), move |ctx| {
                let mut f = vec![Nat::from_u(1), Nat::from_u(1)];
                while f[f.len() - 1].bit_len() < 4 * W {
                    let n = f[f.len() - 1].add(&f[f.len() - 2]);
                    f.push(n);
                }
                for g in pats(lg) {
                    for i in (1..f.len()).step_by(5) {
                        both(ctx, &g.mul(&f[i]), &g.mul(&f[i - 1]), true);
                        both(ctx, &g.mul(&f[i - 1]), &g.mul(&f[i]), false);
                        // multiples: one round of Euclid finishes
                        both(ctx, &g.mul(&f[i]), &g, false);
                        both(ctx, &g, &g.mul(&f[i]), false);
                    }
                    both(ctx, &g, &g, true);
                }
            }));
        }
        for s in 0..=tier.pick(4 * W, 8 * W) {
            v.push(block(format!("twos-{s}"), move |ctx| {
                for t in 0..=2 * W {
                    for (x, y) in [(1u128, 1u128), (3, 5), (15, 9), (1, 7)] {
                        both(ctx, &Nat::from_u(x).shl(s), &Nat::from_u(y).shl(t), false);
                    }
                }
            }));
        }
        for l in tier.pick(vec![30usize, 50, 64, 100], vec![30, 50, 64, 100, 200, 300]) {
            for s in 0..4u64 {
                v.push(block(format!("long-{l}-{s}"), move |ctx| {
                    let (a, b) = (generic(50 + s, l), generic(60 + s, l - s as usize * 3));
                    let g = generic(70 + s, 5);
                    both(ctx, &a.mul(&g), &b.mul(&g), false);
                    both(ctx, &b, &a, true);
                    both(ctx, &pats(l)[s as usize], &b, false);
                }));
            }
        }
        v
    });
}
