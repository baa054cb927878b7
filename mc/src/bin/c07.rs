//! C07: bit queries and updates.
use ibig::ops::NextPowerOfTwo;
use ibig::{IBig, UBig};
use mc::*;

fn npo2(a: &Nat) -> Nat {
    let n = a.bit_len();
    if n == 0 {
        return Nat::from_u(1);
    }
    if a.cmp(&Nat::pow2(n - 1)).is_eq() {
        a.clone()
    } else {
        Nat::pow2(n)
    }
}

fn queries(c: &mut Chk, a: &Nat) {
    for k in 0..3 {
        let u = mk_variant(a, k);
        c.eq("bit_len", u.bit_len(), a.bit_len());
        c.eq("trailing_zeros", u.trailing_zeros(), a.trailing_zeros());
        c.eq("is_power_of_two", u.is_power_of_two(), !a.is_zero() && a.cmp(&Nat::pow2(a.bit_len() - 1)).is_eq());
        let w = npo2(a);
        c.u("(&a).next_power_of_two", &(&u).next_power_of_two(), &w);
        c.u("operand unchanged", &u, a);
        c.u("a.next_power_of_two", &u.next_power_of_two(), &w);
        let u = mk_variant(a, k);
        c.eq("ibig trailing_zeros", IBig::from(&u).trailing_zeros(), a.trailing_zeros());
        c.eq("-ibig trailing_zeros", (-IBig::from(u)).trailing_zeros(), a.trailing_zeros());
    }
}

fn bits(c: &mut Chk, a: &Nat, n: usize, vars: usize) {
    for k in 0..vars {
        let u = mk_variant(a, k);
        c.eq("bit", u.bit(n), a.bit(n));
        let mut s = mk_variant(a, k);
        s.set_bit(n);
        c.u("set_bit", &s, &a.with_bit(n, true));
        let mut s = mk_variant(a, k);
        s.clear_bit(n);
        c.u("clear_bit", &s, &a.with_bit(n, false));
        c.ok(s == to_u(&a.with_bit(n, false)), || "clear_bit result is not equal to the same number".into());
    }
}

fn main() {
    mc::main("C07", |tier| {
        let mut v = vec![];
        let vals = upto_words(&wa7(), 4);
        for (k, ch) in vals.chunks(128).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("small-{k}"), move |ctx| {
                for a in &ch {
                    ctx.state(|| a.hex(), |c| queries(c, a));
                    if wlen(a) <= 3 {
                        for n in 0..=(wlen(a) + 2) * W {
                            ctx.state(|| format!("a={} n={n}", a.hex()), |c| bits(c, a, n, 1));
                        }
                    }
                    for n in [usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << (usize::BITS - 1), usize::MAX - W] {
                        ctx.state(|| format!("a={} n={n}", a.hex()), |c| {
                            let mut u = to_u(a);
                            c.eq("bit", u.bit(n), false);
                            u.clear_bit(n);
                            c.u("clear_bit", &u, a);
                            // With 32-bit addresses this fills half a gigabyte before it panics: once.
                            if n == usize::MAX && (usize::BITS == 64 || *a == words(&[MAXW, 1])) {
                                c.panics("set_bit", || u.set_bit(n));
                            }
                        });
                    }
                }
            }));
        }
        let maxl = tier.pick(48usize, 110);
        for la in 1..=maxl {
            v.push(block(format!("lengths-{la}"), move |ctx| {
                let mut aa = pats(la);
                for i in 0..la {
                    // one non-zero word below the top
                    for w in [1, MSB, MAXW] {
                        for top in [1, MSB, MSB - 1, MAXW] {
                            let x: Vec<u64> = (0..la).map(|j| if j == la - 1 { top } else if j == i { w } else { 0 }).collect();
                            aa.push(words(&x));
                            let x: Vec<u64> = (0..la).map(|j| if j == la - 1 { top } else if j == i { w } else { MAXW }).collect();
                            aa.push(words(&x));
                        }
                    }
                }
                dedup(&mut aa);
                for a in &aa {
                    ctx.state(|| a.hex(), |c| queries(c, a));
                }
                for a in pats(la) {
                    for n in 0..=(la + 3) * W {
                        ctx.state(|| format!("a={} n={n}", a.hex()), |c| bits(c, &a, n, 3));
                    }
                    // Far beyond the end.
                    for g in 1..=(la / 4 + 8) {
                        for n in [(la + g) * W, (la + g) * W + W - 1] {
                            ctx.state(|| format!("a={} n={n}", a.hex()), |c| bits(c, &a, n, 3));
                        }
                    }
                }
            }));
        }
        // Single top bits over anything: clearing makes the number shorter by any amount.
        for la in 2..=tier.pick(40usize, 100) {
            v.push(block(format!("shorten-{la}"), move |ctx| {
                for lo in 0..la {
                    let rests = if lo == 0 { vec![Nat::zero()] } else { pats(lo) };
                    for r in rests {
                        for bit in [0, 1, W - 1] {
                            let n = (la - 1) * W + bit;
                            let a = r.with_bit(n, true);
                            ctx.state(|| format!("a={} n={n}", a.hex()), |c| bits(c, &a, n, 3));
                        }
                    }
                }
            }));
        }
        for la in [64usize, 100, 255, 256, 257, 1000, 1024] {
            v.push(block(format!("long-{la}"), move |ctx| {
                for a in pats(la) {
                    ctx.state(|| a.hex(), |c| queries(c, &a));
                    for k in 0..la {
                        for b in [0, W - 1] {
                            if k % 17 == 0 || k + 2 > la {
                                let n = k * W + b;
                                ctx.state(|| format!("a={} n={n}", a.hex()), |c| bits(c, &a, n, 3));
                            }
                        }
                    }
                }
            }));
        }
        if W == 16 {
            for k in 0..16u64 {
                v.push(block(format!("words-{k}"), move |ctx| {
                    for x in (k * 4096)..((k + 1) * 4096) {
                        ctx.state(|| format!("x={x:#x}"), |c| {
                            let u = UBig::from(x);
                            c.ok(u.bit_len() == 64 - x.leading_zeros() as usize, || "bit_len".into());
                            c.ok(u.trailing_zeros() == if x == 0 { None } else { Some(x.trailing_zeros() as usize) }, || "trailing_zeros".into());
                            c.ok(u.is_power_of_two() == x.is_power_of_two(), || "is_power_of_two".into());
                            c.ok(u64::try_from((&u).next_power_of_two()) == Ok(x.next_power_of_two()), || "next_power_of_two".into());
                            // As the top word of a two-word number.
                            for lo in [0u64, 1, 0x8000, 0xffff] {
                                let y = (x << 16) | lo;
                                let u = UBig::from(y);
                                c.ok(u.bit_len() == 64 - y.leading_zeros() as usize, || "bit_len".into());
                                c.ok(u.is_power_of_two() == y.is_power_of_two(), || "is_power_of_two".into());
                                c.ok(u64::try_from((&u).next_power_of_two()) == Ok(y.next_power_of_two()), || "next_power_of_two".into());
                            }
                        });
                    }
                }));
            }
        }
        v
    });
}
