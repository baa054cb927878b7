//! C01: addition, subtraction, negation.
use mc::*;
use ibig::{IBig, UBig};

fn unsigned_pair(c: &mut Chk, na: &Nat, nb: &Nat, a: &UBig, b: &UBig) {
    let s = na.add(nb);
    forms!(c, a, b, +, +=, u, &s);
    match na.sub(nb) {
        Some(d) => {
            forms!(c, a, b, -, -=, u, &d);
        }
        None => {
            c.panics("&a-&b", || a - b);
            c.panics("a-&b", || a.clone() - b);
            c.panics("&a-b", || a - b.clone());
            c.panics("a-b", || a.clone() - b.clone());
            let mut x = a.clone();
            c.panics("a-=&b", || x -= b);
            let mut x = a.clone();
            c.panics("a-=b", || x -= b.clone());
        }
    }
}

fn signed_pair(c: &mut Chk, na: &Int, nb: &Int, a: &IBig, b: &IBig) {
    let s = na.add(nb);
    forms!(c, a, b, +, +=, i, &s);
    let d = na.sub(nb);
    forms!(c, a, b, -, -=, i, &d);
}

fn main() {
    mc::main("C01", |tier| {
        let mut v = vec![];
        // All pairs of numbers of up to 3 words over boundary words.
        let full = upto_words(&wa7(), 3);
        let vals = if tier.thorough() { full.clone() } else {
            let mut f = full.clone();
            f.extend(all_words(&wa4(), 3));
            f
        };
        for (k, ch) in vals.chunks(40).enumerate() {
            let (ch, all) = (ch.to_vec(), vals.clone());
            v.push(block(format!("small-pairs-{k}"), move |ctx| {
                let ub: Vec<UBig> = all.iter().map(to_u).collect();
                for a in &ch {
                    let ua = to_u(a);
                    let ia = IBig::from(ua.clone());
                    for (b, u) in all.iter().zip(&ub) {
                        ctx.state(|| d2(a, b), |c| {
                            unsigned_pair(c, a, b, &ua, u);
                            for (sa, sb) in [(false, false), (false, true), (true, false), (true, true)] {
                                let (x, y) = (Int::new(sa, a.clone()), Int::new(sb, b.clone()));
                                let xi = if sa { -&ia } else { ia.clone() };
                                let yi = IBig::from(u.clone());
                                let yi = if sb { -yi } else { yi };
                                c.i("neg", &xi, &x);
                                signed_pair(c, &x, &y, &xi, &yi);
                            }
                        });
                    }
                }
            }));
        }
        // All length pairs with structured contents.
        let maxl = tier.pick(40, 100);
        for la in 1usize..=maxl {
            v.push(block(format!("lengths-{la}"), move |ctx| {
                for lb in 1..=maxl {
                    for a in pats(la) {
                        let ua = to_u(&a);
                        for b in pats_few(lb) {
                            let ub = to_u(&b);
                            ctx.state(|| d2(&a, &b), |c| {
                                unsigned_pair(c, &a, &b, &ua, &ub);
                                let (x, y) = (Int::pos(a.clone()), Int::new(true, b.clone()));
                                let (xi, yi) = (to_i(&x), to_i(&y));
                                signed_pair(c, &x, &y, &xi, &yi);
                                signed_pair(c, &x.neg(), &y, &-xi, &yi);
                            });
                        }
                    }
                }
            }));
        }
        // Carry and borrow chains: starting at word i, of every length, in numbers of every length.
        let maxl = tier.pick(22, 36);
        for la in 1usize..=maxl {
            v.push(block(format!("chains-{la}"), move |ctx| {
                for i in 0..la {
                    for j in i..=la {
                        for lb in (i + 1)..=la {
                            // a: ones in words i..j, elsewhere generic even words
                            let aw: Vec<u64> = (0..la)
                                .map(|k| if k >= i && k < j { MAXW } else { gw(9, k as u64) & !3 & (MAXW >> 1) | 4 })
                                .collect();
                            // zeros in words i..j
                            let zw: Vec<u64> = (0..la)
                                .map(|k| if k >= i && k < j { 0 } else { gw(9, k as u64) & !3 & (MAXW >> 1) | 4 })
                                .collect();
                            // b: 1 at word i, optionally more words above (zeros) up to lb
                            for top in [0u64, 1] {
                                let bw: Vec<u64> = (0..lb)
                                    .map(|k| if k == i { 1 } else if k == lb - 1 { top } else { 0 })
                                    .collect();
                                let b = words(&bw);
                                let ub = to_u(&b);
                                for a in [words(&aw), words(&zw)] {
                                    for ua in variants(&a) {
                                        ctx.state(|| d2(&a, &b), |c| {
                                            unsigned_pair(c, &a, &b, &ua, &ub);
                                            let (x, y) = (Int::pos(a.clone()), Int::pos(b.clone()));
                                            let (xi, yi) = (IBig::from(ua.clone()), IBig::from(ub.clone()));
                                            signed_pair(c, &x.neg(), &y, &-&xi, &yi);
                                            signed_pair(c, &y.neg(), &x, &-&yi, &xi);
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }));
        }
        // Storage variants moved into the operation (spare and exhausted capacity).
        let maxl = tier.pick(30, 80);
        for la in 1usize..=maxl {
            v.push(block(format!("storage-{la}"), move |ctx| {
                for lb in [1, 2, la.saturating_sub(1), la, la + 1, la + 2] {
                    if lb == 0 { continue; }
                    for a in [words(&vec![MAXW; la]), generic(5, la), Nat::pow2(la * W - 1)] {
                        for b in [Nat::from_u(1), words(&vec![MAXW; lb]), generic(6, lb)] {
                            ctx.state(|| d2(&a, &b), |c| {
                                let s = a.add(&b);
                                let d = Int::pos(a.clone()).sub(&Int::pos(b.clone()));
                                for i in 0..3 {
                                    for j in 0..3 {
                                        let mk = mk_variant;
                                        c.u("moved a+b", &(mk(&a, i) + mk(&b, j)), &s);
                                        let mut x = mk(&a, i);
                                        x += &mk(&b, j);
                                        c.u("a+=&b", &x, &s);
                                        c.u("&a+b", &(&mk(&a, i) + mk(&b, j)), &s);
                                        c.i("moved ia-ib", &(IBig::from(mk(&a, i)) - IBig::from(mk(&b, j))), &d);
                                        c.i("&ia-ib", &(&IBig::from(mk(&a, i)) - IBig::from(mk(&b, j))), &d);
                                        c.i("ia-&ib", &(IBig::from(mk(&a, i)) - &IBig::from(mk(&b, j))), &d);
                                    }
                                }
                            });
                        }
                    }
                }
            }));
        }
        // Long operands.
        let longs: Vec<usize> = tier.pick(vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025],
            vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000]);
        for la in longs.clone() {
            let longs = longs.clone();
            v.push(block(format!("long-{la}"), move |ctx| {
                for &lb in longs.iter().chain([1usize, 2, 3, 17, la - 1, la + 1].iter()) {
                    for a in pats_few(la) {
                        let ua = to_u(&a);
                        for b in pats_few(lb) {
                            let ub = to_u(&b);
                            ctx.state(|| d2(&a, &b), |c| {
                                unsigned_pair(c, &a, &b, &ua, &ub);
                                let (x, y) = (Int::pos(a.clone()), Int::pos(b.clone()));
                                let (xi, yi) = (to_i(&x), to_i(&y));
                                signed_pair(c, &x, &y, &xi, &yi);
                            });
                        }
                    }
                }
            }));
        }
        // Exhaustive one-word (16-bit words): every a with boundary b; and every 16-bit pair on a grid.
        if W == 16 {
            for hi in 0..tier.pick(16u64, 64) {
                let step = tier.pick(16u64, 64);
                v.push(block(format!("word-exhaustive-{hi}"), move |ctx| {
                    let mut bs: Vec<u64> = vec![0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff];
                    bs.extend((0..16).map(|k| 1u64 << k));
                    bs.extend((0..16).map(|k| (1u64 << k) - 1));
                    bs.sort();
                    bs.dedup();
                    let mut x = hi;
                    while x < 65536 {
                        for &y in &bs {
                            ctx.state(|| format!("a={x} b={y}"), |c| {
                                let (a, b) = (UBig::from(x), UBig::from(y));
                                c.eq("a+b", u64::try_from(&a + &b).ok(), Some(x + y));
                                let (a, b) = (IBig::from(x), IBig::from(y));
                                c.eq("ia-ib", i64::try_from(&a - &b).ok(), Some(x as i64 - y as i64));
                                c.eq("-ia-ib", i64::try_from(-a - b).ok(), Some(-(x as i64) - y as i64));
                            });
                        }
                        x += step;
                    }
                }));
            }
        }
        v
    });
}
