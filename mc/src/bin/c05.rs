//! C05: shifts.
use ibig::{IBig, UBig};
use mc::*;

fn left(c: &mut Chk, a: &Nat, n: usize, full: bool) {
    let w = a.shl(n);
    let ua = to_u(a);
    c.u("&a<<n", &(&ua << n), &w);
    let mut x = ua.clone();
    x <<= n;
    c.u("a<<=n", &x, &w);
    for k in 0..3 {
        c.u("a<<n", &(mk_variant(a, k) << n), &w);
        if full {
            let mut x = mk_variant(a, k);
            x <<= &n;
            c.u("a<<=&n", &x, &w);
        }
    }
    for neg in [false, true] {
        let (i, wi) = (Int::new(neg, a.clone()), Int::new(neg, w.clone()));
        let ia = to_i(&i);
        c.i("&ia<<n", &(&ia << n), &wi);
        c.i("ia<<n", &(ia.clone() << n), &wi);
        if full {
            c.u("&a<<&n", &(&ua << &n), &w);
            c.u("a<<&n", &(ua.clone() << &n), &w);
            c.i("&ia<<&n", &(&ia << &n), &wi);
            c.i("ia<<&n", &(ia.clone() << &n), &wi);
            let mut x = ia.clone();
            x <<= n;
            c.i("ia<<=n", &x, &wi);
            let mut x = ia.clone();
            x <<= &n;
            c.i("ia<<=&n", &x, &wi);
        }
    }
}

fn right(c: &mut Chk, a: &Nat, n: usize, full: bool) {
    let w = a.shr(n);
    let ua = to_u(a);
    c.u("&a>>n", &(&ua >> n), &w);
    let mut x = ua.clone();
    x >>= n;
    c.u("a>>=n", &x, &w);
    for k in 0..3 {
        c.u("a>>n", &(mk_variant(a, k) >> n), &w);
        if full {
            let mut x = mk_variant(a, k);
            x >>= &n;
            c.u("a>>=&n", &x, &w);
        }
    }
    for neg in [false, true] {
        let i = Int::new(neg, a.clone());
        let wi = i.shr(n);
        let ia = to_i(&i);
        c.i("&ia>>n", &(&ia >> n), &wi);
        c.i("ia>>n", &(ia.clone() >> n), &wi);
        let mut x = ia.clone();
        x >>= n;
        c.i("ia>>=n", &x, &wi);
        if full {
            c.u("&a>>&n", &(&ua >> &n), &w);
            c.u("a>>&n", &(ua.clone() >> &n), &w);
            c.i("&ia>>&n", &(&ia >> &n), &wi);
            c.i("ia>>&n", &(ia.clone() >> &n), &wi);
            let mut x = ia.clone();
            x >>= &n;
            c.i("ia>>=&n", &x, &wi);
        }
    }
}

fn main() {
    mc::main("C05", |tier| {
        let mut v = vec![];
        // Boundary-word numbers by every small amount and every amount near a word multiple.
        let vals = upto_words(&wa7(), 3);
        for (k, ch) in vals.chunks(16).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("small-{k}"), move |ctx| {
                for a in &ch {
                    for n in 0..=(4 * W + 2) {
                        ctx.state(|| format!("a={} n={n}", a.hex()), |c| {
                            left(c, a, n, true);
                            right(c, a, n, true);
                        });
                    }
                    for n in [usize::MAX, usize::MAX - 1, usize::MAX - W, usize::MAX / 2, usize::MAX / 2 + 1, 1 << (usize::BITS - 1), 1 << 20] {
                        ctx.state(|| format!("a={} n={n}", a.hex()), |c| {
                            right(c, a, n, true);
                            if a.is_zero() {
                                left(c, a, n, true);
                            } else if n >= usize::MAX - 1 && usize::BITS == 32 {
                                // This fills half a gigabyte before it panics: once.
                                if *a == words(&[MAXW, 1]) {
                                    let mut u = to_u(a);
                                    c.panics("&a<<n", || &u << n);
                                    c.panics("a<<=n", || u <<= n);
                                }
                            } else if n >= usize::MAX - 1 {
                                let u = to_u(a);
                                c.panics("&a<<n", || &u << n);
                                c.panics("a<<n", || u.clone() << n);
                                let i = -IBig::from(u.clone());
                                c.panics("&ia<<n", || &i << n);
                                c.panics("ia<<n", || i.clone() << n);
                                let mut x = u.clone();
                                c.panics("a<<=n", || x <<= n);
                            }
                        });
                    }
                }
            }));
        }
        // Longer numbers: every amount through the whole length.
        let maxl = tier.pick(32usize, 72);
        for la in 1..=maxl {
            v.push(block(format!("lengths-{la}"), move |ctx| {
                let mut aa = pats(la);
                // A single low bit at every word, under a high top: the sticky bits of floor shifts.
                for i in 0..la {
                    for bit in [0, 1, W - 1] {
                        aa.push(Nat::pow2(la * W - 1).with_bit(i * W + bit, true));
                        aa.push(Nat::pow2((la - 1) * W).with_bit(i * W + bit, true));
                    }
                }
                dedup(&mut aa);
                for a in &aa {
                    for n in 0..=(la + 2) * W {
                        ctx.state(|| format!("a={} n={n}", a.hex()), |c| {
                            right(c, a, n, false);
                            if n <= 3 * W || n % W <= 1 || n % W == W - 1 {
                                left(c, a, n, false);
                            }
                        });
                    }
                }
            }));
        }
        for la in [31usize, 32, 33, 64, 100, 128, 200, 255, 256, 257, 1000] {
            v.push(block(format!("long-{la}"), move |ctx| {
                let mut aa = pats(la);
                aa.push(Nat::pow2(la * W - 1).with_bit(0, true));
                aa.push(Nat::pow2(la * W - 1).with_bit(la / 2 * W, true));
                aa.push(Nat::pow2(la * W - 1).with_bit((la - 1) * W, true));
                for a in &aa {
                    let mut ns: Vec<usize> = (0..=la + 2).flat_map(|k| [k * W, k * W + 1, k * W + W - 1, k * W + W / 2]).collect();
                    if la > 200 {
                        ns.retain(|n| n / W < 4 || n / W > la - 3 || n / W % 64 <= 1);
                    }
                    for n in ns {
                        ctx.state(|| format!("a={} n={n}", a.hex()), |c| {
                            right(c, a, n, false);
                            left(c, a, n, false);
                        });
                    }
                }
            }));
        }
        // Growth amounts relative to spare capacity.
        for la in 1..=tier.pick(100usize, 260) {
            v.push(block(format!("grow-{la}"), move |ctx| {
                for a in pats_few(la) {
                    for g in 0..=(la / 4 + 6) {
                        for s in [0, 1, W - 1] {
                            let n = g * W + s;
                            ctx.state(|| format!("a={} n={n}", a.hex()), |c| left(c, &a, n, false));
                        }
                    }
                }
            }));
        }
        if W == 16 {
            for k in 0..16u64 {
                v.push(block(format!("words-{k}"), move |ctx| {
                    for x in (k * 4096)..((k + 1) * 4096) {
                        let (u, i) = (UBig::from(x), -IBig::from(x));
                        ctx.state(|| format!("x={x:#x}, all n up to 34"), |c| {
                            for n in 0..35usize {
                                c.ok(u64::try_from(&u << n) == Ok(x << n), || format!("x<<{n}"));
                                c.ok(u64::try_from(&u >> n) == Ok(x >> n), || format!("x>>{n}"));
                                c.ok(i64::try_from(&i << n) == Ok(-(x as i64) << n), || format!("-x<<{n}"));
                                c.ok(i64::try_from(&i >> n) == Ok(-(x as i64) >> n), || format!("-x>>{n}"));
                            }
                        });
                    }
                }));
            }
        }
        v
    });
}
