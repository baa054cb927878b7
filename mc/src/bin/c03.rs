//! C03: truncating division. C04 uses the same constructions for Euclidean division.
use ibig::ops::DivRem;
use ibig::{IBig, UBig};
use mc::*;

fn dr_forms(c: &mut Chk, a: &UBig, b: &UBig, q: &Nat, r: &Nat) {
    forms!(c, a, b, /, /=, u, q);
    forms!(c, a, b, %, %=, u, r);
    for k in 0..4 {
        let (x, y) = match k {
            0 => a.div_rem(b),
            1 => a.clone().div_rem(b),
            2 => a.div_rem(b.clone()),
            _ => a.clone().div_rem(b.clone()),
        };
        c.u("div_rem.0", &x, q);
        c.u("div_rem.1", &y, r);
    }
}

fn dr_signed(c: &mut Chk, a: &UBig, b: &UBig, q: &Nat, r: &Nat, forms: bool) {
    for (sa, sb) in [(false, true), (true, false), (true, true), (false, false)] {
        let x = if sa { -IBig::from(a.clone()) } else { IBig::from(a.clone()) };
        let y = if sb { -IBig::from(b.clone()) } else { IBig::from(b.clone()) };
        let wq = Int::new(sa != sb, q.clone());
        let wr = Int::new(sa, r.clone());
        let (x, y) = (&x, &y);
        if forms {
            forms!(c, x, y, /, /=, i, &wq);
            forms!(c, x, y, %, %=, i, &wr);
        }
        for k in 0..4 {
            let (p, s) = match k {
                0 => x.div_rem(y),
                1 => x.clone().div_rem(y),
                2 => x.div_rem(y.clone()),
                _ => x.clone().div_rem(y.clone()),
            };
            c.i("idiv_rem.0", &p, &wq);
            c.i("idiv_rem.1", &s, &wr);
        }
    }
}

fn few(c: &mut Chk, a: &UBig, b: &UBig, q: &Nat, r: &Nat) {
    let (x, y) = a.div_rem(b);
    c.u("div_rem.0", &x, q);
    c.u("div_rem.1", &y, r);
    c.u("&a/&b", &(a / b), q);
    c.u("&a%&b", &(a % b), r);
}

fn by_zero(c: &mut Chk, a: &UBig) {
    let z = UBig::from(0u8);
    let (ia, iz) = (IBig::from(a.clone()), IBig::from(0u8));
    c.panics("&a/&0", || a / &z);
    c.panics("&a%&0", || a % &z);
    c.panics("a/0", || a.clone() / z.clone());
    c.panics("a%0", || a.clone() % z.clone());
    c.panics("a/&0", || a.clone() / &z);
    c.panics("a%&0", || a.clone() % &z);
    c.panics("&a/0", || a / z.clone());
    c.panics("&a%0", || a % z.clone());
    c.panics("a.div_rem(&0)", || a.div_rem(&z));
    c.panics("a.div_rem(0)", || a.clone().div_rem(z.clone()));
    c.panics("&a.div_rem(0)", || a.div_rem(z.clone()));
    c.panics("a.div_rem(&0)", || a.clone().div_rem(&z));
    c.panics("ia/0", || &ia / &iz);
    c.panics("ia%0", || -&ia % &iz);
    c.panics("ia.div_rem(0)", || (-&ia).div_rem(&iz));
    let mut x = a.clone();
    c.panics("a/=0", || x /= &z);
    let mut x = a.clone();
    c.panics("a%=0", || x %= &z);
}

fn main() {
    mc::main("C03", |tier| {
        let mut v = vec![];
        // All pairs of numbers of up to 3 words (4 for the dividend) over boundary words.
        let bs = upto_words(&wa7(), 3);
        let mut aa = bs.clone();
        aa.extend(all_words(&wa5(), 4));
        for (k, ch) in aa.chunks(40).enumerate() {
            let (ch, bs) = (ch.to_vec(), bs.clone());
            v.push(block(format!("small-pairs-{k}"), move |ctx| {
                let ub: Vec<UBig> = bs.iter().map(to_u).collect();
                for a in &ch {
                    let ua = to_u(a);
                    ctx.state(|| format!("a={} b=0", a.hex()), |c| by_zero(c, &ua));
                    for (b, u) in bs.iter().zip(&ub) {
                        if b.is_zero() {
                            continue;
                        }
                        ctx.state(|| d2(a, b), |c| {
                            // Decide by the identity: q and r are determined by a = b*q + r, r < b.
                            let (q, r) = (&ua).div_rem(u);
                            let (q, r) = (of_u(&q), of_u(&r));
                            c.ok(b.mul(&q).add(&r) == *a && r.cmp(b).is_lt(), || {
                                format!("div_rem gives q={} r={}", q.hex(), r.hex())
                            });
                            dr_forms(c, &ua, u, &q, &r);
                            if ch.len() % 2 == 0 || wlen(a) < 3 {
                                dr_signed(c, &ua, u, &q, &r, true);
                            }
                        });
                    }
                }
            }));
        }
        // Constructed dividends b*q + r for all lengths of divisor and quotient.
        let maxl = tier.pick(if W == 16 { 72usize } else { 44 }, 140);
        for lb in 1..=maxl {
            v.push(block(format!("lengths-{lb}"), move |ctx| {
                for lq in 1..=maxl {
                    let many = lb <= 6 && lq <= 6 || W == 16;
                    for b in divisors(lb, many) {
                        let ub = to_u(&b);
                        for q in quotients(lq, many) {
                            let p = b.mul(&q);
                            for r in rems(&b, many && lb <= 12) {
                                let a = p.add(&r);
                                let ua = to_u(&a);
                                ctx.state(|| d2(&a, &b), |c| {
                                    few(c, &ua, &ub, &q, &r);
                                    if lq <= 4 && lb <= 8 || lq == lb || (lq + lb) % 16 == 0 {
                                        dr_forms(c, &ua, &ub, &q, &r);
                                        dr_signed(c, &ua, &ub, &q, &r, false);
                                    }
                                });
                            }
                        }
                    }
                }
            }));
        }
        // Divide and conquer sizes.
        let lens: Vec<usize> = match W {
            16 => (33..=140).step_by(tier.pick(3, 1)).chain([160, 191, 192, 193, 256, 257, 300]).collect(),
            _ => (33..=72).step_by(tier.pick(3, 1)).chain([64, 65, 66, 96, 127, 128, 129, 130, 193]).collect(),
        };
        for lb in lens {
            v.push(block(format!("divide-conquer-{lb}"), move |ctx| {
                let mut lqs = vec![1, 2, 31, 32, 33, 34, 35, lb / 2, lb - 1, lb, lb + 1, 2 * lb - 1, 2 * lb, 2 * lb + 1, 2 * lb + 33, 3 * lb];
                lqs.sort();
                lqs.dedup();
                let mut bs = divisors(lb, true);
                bs.extend(blocky(lb, 2, 6));
                bs.extend(blocky(lb, 4, 2));
                if W != 16 && !tier.thorough() {
                    bs.truncate(24);
                }
                for lq in lqs {
                    for b in &bs {
                        let ub = to_u(b);
                        let mut qs = quotients(lq, true);
                        if W != 16 && !tier.thorough() {
                            qs.truncate(4);
                        }
                        for q in qs {
                            let p = b.mul(&q);
                            for r in rems(b, W == 16) {
                                let a = p.add(&r);
                                let ua = to_u(&a);
                                ctx.state(|| d2(&a, b), |c| {
                                    let (x, y) = (&ua).div_rem(&ub);
                                    c.u("div_rem.0", &x, &q);
                                    c.u("div_rem.1", &y, &r);
                                });
                            }
                        }
                    }
                }
            }));
        }
        // Dividends that are not constructed from a quotient: decided by the identity.
        for la in (2..=tier.pick(90usize, 200)).step_by(tier.pick(4, 1)) {
            v.push(block(format!("free-{la}"), move |ctx| {
                for lb in 1..=la {
                    for a in pats(la) {
                        let ua = to_u(&a);
                        for b in divisors(lb, false) {
                            let ub = to_u(&b);
                            ctx.state(|| d2(&a, &b), |c| {
                                let (q, r) = (&ua).div_rem(&ub);
                                let (q, r) = (of_u(&q), of_u(&r));
                                c.note(&q.le());
                                c.ok(b.mul(&q).add(&r) == a && r.cmp(&b).is_lt(), || {
                                    format!("div_rem gives q={} r={}", q.hex(), r.hex())
                                });
                                c.u("/", &(&ua / &ub), &q);
                                c.u("%", &(&ua % &ub), &r);
                            });
                        }
                    }
                }
            }));
        }
        // Storage variants moved in.
        for la in 1..=24usize {
            v.push(block(format!("storage-{la}"), move |ctx| {
                for lb in 1..=la + 1 {
                    for a in [words(&vec![MAXW; la]), generic(5, la)] {
                        for b in [words(&vec![MAXW; lb]), generic(6, lb), Nat::pow2((lb - 1) * W)] {
                            let (q, r) = a.divrem(&b);
                            ctx.state(|| d2(&a, &b), |c| {
                                for i in 0..3 {
                                    for j in 0..3 {
                                        c.u("a/b", &(mk_variant(&a, i) / mk_variant(&b, j)), &q);
                                        c.u("a%b", &(mk_variant(&a, i) % mk_variant(&b, j)), &r);
                                        c.u("&a%b", &(&mk_variant(&a, i) % mk_variant(&b, j)), &r);
                                        let (x, y) = mk_variant(&a, i).div_rem(mk_variant(&b, j));
                                        c.u("div_rem.0", &x, &q);
                                        c.u("div_rem.1", &y, &r);
                                        let (x, y) = (&mk_variant(&a, i)).div_rem(mk_variant(&b, j));
                                        c.u("&div_rem.0", &x, &q);
                                        c.u("&div_rem.1", &y, &r);
                                    }
                                }
                            });
                        }
                    }
                }
            }));
        }
        // One-word divisors: with 16-bit words every divisor, dividends next to its multiples.
        let ds: Vec<u64> = if W == 16 {
            (1..65536).collect()
        } else {
            let mut b: Vec<u64> = (0..W)
                .flat_map(|k| [1u64 << k, (1u64 << k) - 1, (1u64 << k) + 1, MAXW - ((1u64 << k) - 1), MAXW ^ (1u64 << k)])
                .collect();
            b.extend([3, 5, 6, 7, 9, 10, 11, 13, 36, 100, 1000]);
            b.extend((0..200).map(|i| gw(31, i)));
            b.sort();
            b.dedup();
            b.retain(|x| *x != 0);
            b
        };
        for (k, ch) in ds.chunks(1024).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("word-divisors-{k}"), move |ctx| {
                for &d in &ch {
                    let ud = UBig::from(d);
                    ctx.state(|| format!("d={d:#x} with boundary dividends"), |c| {
                        let mut div = |hi: u64, lo: u64| {
                            let n = ((hi as u128) << W) | lo as u128;
                            let (q, r) = UBig::from(n).div_rem(&ud);
                            c.ok(u128::try_from(&q) == Ok(n / d as u128) && u128::try_from(&r) == Ok(n % d as u128), || format!("{n:#x} / {d:#x} = {q}, {r}"));
                        };
                        for hi in [0, 1, 2, d / 2, d - 1, d, d.wrapping_add(1) & MAXW, MSB - 1, MSB, MAXW - 1, MAXW] {
                            for lo in [0, 1, d - 1, d, MSB - 1, MSB, MAXW - 1, MAXW] {
                                div(hi, lo);
                            }
                        }
                        // Next to multiples of d.
                        for q in [1u64, 2, 3, MSB - 1, MSB, MSB + 1, MAXW - 1, MAXW] {
                            let p = d as u128 * q as u128;
                            for n in [p.wrapping_sub(1), p, p + 1, p + d as u128 - 1] {
                                if n < p.wrapping_sub(1) || n >> (2 * W - 1) > 1 { continue; }
                                div((n >> W) as u64 & MAXW, n as u64 & MAXW);
                            }
                        }
                    });
                    // Longer dividends.
                    let nd = Nat::from_u(d as u128);
                    if d % 7 == 3 || d < 64 || d & d.wrapping_add(1) == 0 || d & (d - 1) == 0 || W != 16 {
                        for a in [words(&[MAXW, MAXW, MAXW]), words(&[0, 0, 0, 1]), generic(32, 5), generic(33, 3)] {
                            ctx.state(|| d2(&a, &nd), |c| {
                                let (q, r) = a.divrem_small_u64(d);
                                let ua = to_u(&a);
                                few(c, &ua, &ud, &q, &Nat::from_u(r as u128));
                            });
                        }
                    }
                }
            }));
        }
        // Two-word divisors (16-bit words: a dense grid of leading words).
        if W == 16 {
            let tops: Vec<u64> = (0..65536u64).step_by(tier.pick(37, 5)).chain([MSB, MSB + 1, MSB - 1, MAXW, 1, 2]).collect();
            for (k, ch) in tops.chunks(256).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("two-word-divisors-{k}"), move |ctx| {
                    for &t in &ch {
                        for lo in [0, 1, MSB, MAXW - 1, MAXW, 0x1234] {
                            let d = (t << 16) | lo;
                            if d == 0 { continue; }
                            let ud = UBig::from(d);
                            ctx.state(|| format!("d={d:#x}"), |c| {
                                for q in [1u64, 2, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0xffff_0000, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff] {
                                    let p = d as u128 * q as u128;
                                    for n in [p - 1, p, p + 1, p + d as u128 - 1] {
                                        let (x, y) = UBig::from(n).div_rem(&ud);
                                        c.ok(u128::try_from(&x) == Ok(n / d as u128) && u128::try_from(&y) == Ok(n % d as u128), || format!("{n:#x} / {d:#x} = {x}, {y}"));
                                    }
                                }
                            });
                        }
                    }
                }));
            }
        }
        v
    });
}
