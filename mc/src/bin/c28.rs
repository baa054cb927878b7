//! C28: the same operations on the same numbers give the same outcome whatever the machine word and
//! with or without CPU-specific code. Every configuration runs the same enumeration (operands are
//! fixed bit patterns, not words) and records a digest per operation and first operand; check.py
//! compares the digests of all configurations.
use ibig::ops::*;
use ibig::{IBig, ModuloRing, UBig};
use mc::mem::Dig;
use mc::*;

type F2 = fn(&mut Dig, &UBig, &UBig);
type F1 = fn(&mut Dig, &UBig);

/// The outcome of f: a result or a panic.
fn o<T>(d: &mut Dig, f: impl FnOnce() -> T, put: impl FnOnce(&mut Dig, &T)) {
    match call(f) {
        Ok(v) => put(d, &v),
        Err(_) => d.b(b"panic"),
    }
}
fn u(d: &mut Dig, f: impl FnOnce() -> UBig) {
    o(d, f, |d, v| d.u(v))
}
fn i(d: &mut Dig, f: impl FnOnce() -> IBig) {
    o(d, f, |d, v| d.i(v))
}
fn s(d: &mut Dig, f: impl FnOnce() -> String) {
    o(d, f, |d, v| d.b(v.as_bytes()))
}
fn dbg<T: std::fmt::Debug>(d: &mut Dig, f: impl FnOnce() -> T) {
    o(d, f, |d, v| d.b(format!("{v:?}").as_bytes()))
}

fn signs(a: &UBig, b: &UBig) -> [(IBig, IBig); 4] {
    let (x, y) = (IBig::from(a), IBig::from(b));
    [(x.clone(), y.clone()), (-&x, y.clone()), (x.clone(), -&y), (-x, -y)]
}

fn binary() -> Vec<(&'static str, F2)> {
    vec![
        ("add", |d, a, b| { u(d, || a + b); for (x, y) in signs(a, b) { i(d, || &x + &y); i(d, || x + y) } }),
        ("sub", |d, a, b| { u(d, || a - b); u(d, || a.clone() - b.clone()); for (x, y) in signs(a, b) { i(d, || &x - &y); i(d, || x - y) } }),
        ("mul", |d, a, b| { u(d, || a * b); u(d, || b.clone() * a.clone()); for (x, y) in signs(a, b) { i(d, || x * y) } }),
        ("div", |d, a, b| {
            u(d, || a / b);
            u(d, || a.clone() % b.clone());
            o(d, || a.div_rem(b), |d, v| { d.u(&v.0); d.u(&v.1) });
            for (x, y) in signs(a, b) {
                o(d, || (&x).div_rem(&y), |d, v| { d.i(&v.0); d.i(&v.1) });
                o(d, || (&x).div_rem_euclid(&y), |d, v| { d.i(&v.0); d.i(&v.1) });
                i(d, || x % y);
            }
        }),
        ("bits", |d, a, b| {
            u(d, || a & b); u(d, || a | b); u(d, || a ^ b); u(d, || a.and_not(b));
            for (x, y) in signs(a, b) { i(d, || &x & &y); i(d, || &x | &y); i(d, || &x ^ &y); i(d, || x.and_not(y)) }
        }),
        ("gcd", |d, a, b| { u(d, || a.gcd(b)); i(d, || (-IBig::from(a)).gcd(&IBig::from(b))) }),
        ("bezout", |d, a, b| {
            o(d, || a.extended_gcd(b), |d, v| { d.u(&v.0); d.i(&v.1); d.i(&v.2) });
        }),
        ("cmp", |d, a, b| { d.b(&[a.cmp(b) as u8, (a == b) as u8]); for (x, y) in signs(a, b) { d.b(&[x.cmp(&y) as u8, (x == y) as u8]) } }),
        ("ring", |d, a, b| {
            let r = match call(|| ModuloRing::new(b)) { Ok(r) => r, Err(_) => { d.b(b"no ring"); return } };
            let x = r.from(a);
            let y = r.from(-IBig::from(a) * 3u8 + 1u8);
            u(d, || (&x * &y).residue());
            u(d, || (&x + &y).residue());
            u(d, || (&y - &x).residue());
            u(d, || (-&x).residue());
            o(d, || x.inverse().map(|z| z.residue()), |d, v| match v { Some(z) => d.u(z), None => d.b(b"none") });
            u(d, || (&y / &x).residue());
            u(d, || x.pow_signed(&IBig::from(-3)).residue());
            s(d, || format!("{x} {x:?} {y:#x}"));
        }),
    ]
}

fn unary() -> Vec<(&'static str, F1)> {
    vec![
        ("text", |d, a| {
            let n = -IBig::from(a);
            for r in 2..=36 {
                s(d, || a.in_radix(r).to_string());
                s(d, || format!("{:#}", n.in_radix(r)));
            }
            s(d, || format!("{a} {a:?} {a:x} {a:#X} {a:o} {a:#b} {n} {n:?} {n:x} {n:#X} {n:+o} {n:#b} {n:<9} {a:^+9} {a:>080} {n:#080x}"));
        }),
        ("parse", |d, a| {
            for r in [2u32, 3, 7, 8, 10, 16, 25, 32, 36] {
                let t = a.in_radix(r).to_string();
                u(d, || UBig::from_str_radix(&t, r).unwrap());
                i(d, || IBig::from_str_radix(&format!("-00_0{t}"), r).unwrap());
                dbg(d, || UBig::from_str_radix(&format!("{t}!"), r).map(|_| ()));
                dbg(d, || UBig::from_str_radix(&t, r / 2 + 1).map(|x| x.to_le_bytes()));
            }
            dbg(d, || format!("{a:#x}").parse::<UBig>());
            dbg(d, || UBig::from_str_with_radix_prefix(&format!("{a:#b}")));
            dbg(d, || IBig::from_str_with_radix_prefix(&format!("-{a:#o}")));
        }),
        ("bytes", |d, a| {
            d.b(&a.to_le_bytes());
            d.b(&a.to_be_bytes());
            u(d, || UBig::from_le_bytes(&a.to_le_bytes()));
            u(d, || UBig::from_be_bytes(&[&[0, 0, 0], &a.to_be_bytes()[..]].concat()));
        }),
        ("float", |d, a| {
            let n = -IBig::from(a);
            o(d, || (a.to_f32(), a.to_f64(), n.to_f32(), n.to_f64()), |d, v| {
                d.b(&v.0.to_bits().to_le_bytes());
                d.b(&v.1.to_bits().to_le_bytes());
                d.b(&v.2.to_bits().to_le_bytes());
                d.b(&v.3.to_bits().to_le_bytes());
            });
        }),
        ("shift", |d, a| {
            let n = -IBig::from(a);
            for k in (0..68).chain([95, 96, 97, 127, 128, 129, 191, 192, 200, 255, 256, 257]) {
                u(d, || a << k);
                u(d, || a >> k);
                u(d, || a.clone() << k);
                u(d, || a.clone() >> k);
                i(d, || &n << k);
                i(d, || &n >> k);
                d.b(&[a.bit(k) as u8]);
                u(d, || { let mut x = a.clone(); x.set_bit(k); x });
                u(d, || { let mut x = a.clone(); x.clear_bit(k); x });
            }
        }),
        ("properties", |d, a| {
            let n = -IBig::from(a);
            dbg(d, || (a.bit_len(), a.trailing_zeros(), n.trailing_zeros(), a.is_power_of_two(), n.signum(), (&n).unsigned_abs() == *a));
            u(d, || a.next_power_of_two());
            i(d, || !&n);
            i(d, || !IBig::from(a));
            i(d, || (&n).abs());
        }),
        ("powers", |d, a| {
            for e in [0usize, 1, 2, 3, 4, 5, 7, 12] {
                u(d, || a.pow(e));
                i(d, || (-IBig::from(a)).pow(e));
            }
        }),
        ("primitives", |d, a| {
            let n = -IBig::from(a);
            macro_rules! p { ($($t:ty)*) => { $(
                dbg(d, || (<$t>::try_from(a), <$t>::try_from(&n), <$t>::try_from(IBig::from(a))));
                for p in [0 as $t, 1, 7, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2 + 1] {
                    u(d, || a + p);
                    u(d, || a - p);
                    u(d, || a * p);
                    u(d, || a / p);
                    dbg(d, || a % p);
                    i(d, || &n + p);
                    i(d, || &n * p);
                    i(d, || &n / p);
                    dbg(d, || &n % p);
                    dbg(d, || (&n).rem_euclid(p));
                    dbg(d, || (&n).div_rem_euclid(p));
                    dbg(d, || &n & p);
                    i(d, || &n | p);
                    d.b(&[(*a == UBig::try_from(p).unwrap_or_default()) as u8]);
                }
            )* } }
            p!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
        }),
    ]
}

/// Numbers made of `n` blocks of `w` bits over an alphabet, whatever the machine word.
fn blocks_of(w: usize, alpha: &[u64], n: usize) -> Vec<Nat> {
    let mut v = vec![Nat::zero()];
    for k in 0..n {
        let mut next = vec![];
        for x in &v {
            for &a in alpha {
                next.push(x.add(&Nat::from_u(a as u128).shl(k * w)));
            }
        }
        v = next;
    }
    v
}

fn mask(w: usize) -> u64 {
    u64::MAX >> (64 - w)
}

/// A fixed pattern of `bits` bits.
fn fixed(seed: u64, bits: usize) -> Nat {
    let mut b = vec![];
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for _ in 0..bits.div_ceil(8) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        b.push((x >> 24) as u8);
    }
    let n = Nat::from_le(&b).with_bit(bits, false);
    let n = n.shr(n.bit_len().saturating_sub(bits));
    n.with_bit(bits.max(1) - 1, bits > 0)
}

fn short(n: &Nat) -> String {
    let h = n.hex();
    if h.len() > 60 { format!("{}..{}({} bits)", &h[..24], &h[h.len() - 16..], n.bit_len()) } else { h }
}

fn main() {
    mc::main("C28", |tier| {
        let mut v = vec![];
        // All pairs of boundary patterns of every word size.
        let mut small: Vec<Nat> = (0..=3).map(Nat::from_u).collect();
        small.extend(blocks_of(16, &[0, 1, 0x8000, 0xffff], tier.pick(4, 5)));
        small.extend(blocks_of(32, &[0, 1, 1 << 31, mask(32)], tier.pick(4, 5)));
        small.extend(blocks_of(64, &[0, 1, 1 << 63, mask(64)], 2));
        small.extend(blocks_of(64, &[0, mask(64)], 3));
        for k in 1..=13 {
            for m in [1u64, 3] {
                let p = Nat::pow2(16 * k);
                small.push(p.add(&Nat::from_u(m as u128)));
                small.push(p.sub(&Nat::from_u(m as u128)).unwrap());
            }
        }
        dedup(&mut small);
        for (k, a) in small.clone().into_iter().enumerate() {
            let bs = small.clone();
            v.push(block(format!("small-{k}"), move |ctx| {
                let x = to_u(&a);
                for (name, f) in binary() {
                    let mut d = Dig(1);
                    for b in &bs {
                        let y = to_u(b);
                        ctx.state(|| format!("{name}: {}", d2(&a, b)), |c| {
                            let d0 = d.0;
                            f(&mut d, &x, &y);
                            c.ops += 1;
                            c.note(&d.0.wrapping_sub(d0).to_le_bytes());
                        });
                    }
                    ctx.digests.push((format!("small-{k}/{name}/a={} with every b", short(&a)), d.0));
                }
                for (name, f) in unary() {
                    let mut d = Dig(2);
                    ctx.state(|| format!("{name}: {}", a.hex()), |c| {
                        f(&mut d, &x);
                        c.ops += 1;
                        c.note(&d.0.to_le_bytes());
                    });
                    ctx.digests.push((format!("small-{k}/{name}/a={}", short(&a)), d.0));
                }
            }));
        }
        // Every bit length, several contents.
        let top = tier.pick(2600, 9000);
        for part in 0..24 {
            v.push(block(format!("lengths-{part}"), move |ctx| {
                for bits in (part..top).step_by(24) {
                    for (k, n) in [fixed(bits as u64 + 9, bits), Nat::pow2(bits), Nat::pow2(bits).sub(&Nat::from_u(1)).unwrap()].into_iter().enumerate() {
                        let x = to_u(&n);
                        for (name, f) in unary() {
                            if matches!(name, "primitives" | "powers") && bits % 8 > 1 {
                                continue;
                            }
                            let mut d = Dig(3);
                            ctx.state(|| format!("{name}: {}", n.hex()), |c| {
                                f(&mut d, &x);
                                c.ops += 1;
                                c.note(&d.0.to_le_bytes());
                            });
                            ctx.digests.push((format!("lengths-{part}/{name}/{bits} bits, contents {k}"), d.0));
                        }
                    }
                }
            }));
        }
        // All pairs of lengths on a grid, then long ones.
        let step = tier.pick(128, 64);
        let grid: Vec<usize> = (1..=tier.pick(40, 80)).map(|k| k * step).collect();
        let long: Vec<usize> = vec![1536, 3100, 6200, 12300, 12800, 13000, 16000, 24000, 30000];
        for (name, pairs) in [("grid", grid.clone()), ("long", long)] {
            for &la in &pairs {
                let pairs = pairs.clone();
                v.push(block(format!("{name}-{la}"), move |ctx| {
                    for &lb in &pairs {
                        if la + lb > 60000 {
                            continue;
                        }
                        for k in 0..4u64 {
                            let mk = |s: u64, l: usize| match (k + s) % 4 {
                                0 => fixed(l as u64, l),
                                1 => Nat::pow2(l).sub(&Nat::from_u(1)).unwrap(),
                                2 => Nat::pow2(l - 1).add(&fixed(7, l / 2)),
                                _ => fixed(s + 3, l + 1).sub(&Nat::from_u(1)).unwrap(),
                            };
                            let (a, b) = (mk(0, la), mk(k / 2, lb));
                            let (x, y) = (to_u(&a), to_u(&b));
                            for (op, f) in binary() {
                                if name == "long" && matches!(op, "gcd" | "bezout" | "ring") && (k != 0 || la > 13000 || lb > 13000) {
                                    continue;
                                }
                                let mut d = Dig(4);
                                ctx.state(|| format!("{op}: {}", d2(&a, &b)), |c| {
                                    f(&mut d, &x, &y);
                                    c.ops += 1;
                                    c.note(&d.0.to_le_bytes());
                                });
                                ctx.digests.push((format!("{name}-{la}/{op}/{la} by {lb} bits, contents {k}"), d.0));
                            }
                        }
                    }
                    let n = fixed(la as u64, la);
                    let x = to_u(&n);
                    for (op, f) in unary() {
                        if op == "powers" && la > 4000 {
                            continue;
                        }
                        let mut d = Dig(5);
                        ctx.state(|| format!("{op}: {}", n.hex()), |c| {
                            f(&mut d, &x);
                            c.ops += 1;
                        });
                        ctx.digests.push((format!("{name}-{la}/{op}/{la} bits"), d.0));
                    }
                }));
            }
        }
        // Numbers up to the size limit of the smallest word (65536 bits), operations that stay within it.
        for bits in [32767usize, 32768, 40000, 65519, 65520, 65521, 65534, 65535, 65536] {
            v.push(block(format!("tall-{bits}"), move |ctx| {
                for k in 0..4u64 {
                    let n = match k {
                        0 => fixed(bits as u64, bits),
                        1 => Nat::pow2(bits).sub(&Nat::from_u(1)).unwrap(),
                        2 => Nat::pow2(bits - 1),
                        _ => Nat::pow2(bits).sub(&Nat::pow2(bits / 2 + 3)).unwrap(),
                    };
                    let x = to_u(&n);
                    for (op, f) in unary() {
                        if !matches!(op, "bytes" | "float") {
                            continue;
                        }
                        let mut d = Dig(8);
                        ctx.state(|| format!("{op}: {}", n.hex()), |c| {
                            f(&mut d, &x);
                            c.ops += 1;
                        });
                        ctx.digests.push((format!("tall-{bits}/{op}/contents {k}"), d.0));
                    }
                    let mut d = Dig(9);
                    ctx.state(|| format!("queries: {}", n.hex()), |c| {
                        let m = -IBig::from(&x);
                        dbg(&mut d, || (x.bit_len(), x.trailing_zeros(), m.trailing_zeros(), x.is_power_of_two(), m.signum(), x.bit(bits - 1), x.bit(bits)));
                        if k == 2 {
                            u(&mut d, || x.clone().next_power_of_two());
                        }
                        i(&mut d, || !&m);
                        for r in [2u32, 3, 8, 10, 32, 36] {
                            s(&mut d, || x.in_radix(r).to_string());
                            u(&mut d, || UBig::from_str_radix(&x.in_radix(r).to_string(), r).unwrap());
                        }
                        s(&mut d, || format!("{m:x} {m:?} {:#b}", x));
                        for sh in (0..70).chain([1000, 32766, 32767, 32768, bits - 65, bits - 2, bits - 1, bits, bits + 1, 1 << 20]) {
                            u(&mut d, || &x >> sh);
                            u(&mut d, || x.clone() >> sh);
                            i(&mut d, || &m >> sh);
                        }
                        c.ops += 1;
                    });
                    ctx.digests.push((format!("tall-{bits}/queries/contents {k}"), d.0));
                    for lb in [1usize, 15, 16, 17, 33, 64, 65, 1000, 16384, 32768, bits - 64, bits - 1, bits] {
                        if lb > bits {
                            continue;
                        }
                        for kb in 0..2 {
                            let b = if kb == 0 { fixed(lb as u64 + 1, lb) } else { Nat::pow2(lb).sub(&Nat::from_u(1)).unwrap() };
                            let y = to_u(&b);
                            let mut d = Dig(10);
                            ctx.state(|| d2(&n, &b), |c| {
                                u(&mut d, || &x - &y);
                                u(&mut d, || &y - &x);
                                u(&mut d, || &x & &y);
                                u(&mut d, || &x | &y);
                                u(&mut d, || &x ^ &y);
                                u(&mut d, || &x / &y);
                                u(&mut d, || &x % &y);
                                for (p, q) in signs(&x, &y) {
                                    o(&mut d, || (&p).div_rem_euclid(&q), |d, v| { d.i(&v.0); d.u(&v.1.clone().try_into().unwrap()) });
                                }
                                if lb <= 1000 || bits - lb < 100 {
                                    u(&mut d, || x.gcd(&y));
                                }
                                d.b(&[x.cmp(&y) as u8]);
                                let r = ModuloRing::new(&y);
                                u(&mut d, || r.from(&x).residue());
                                if lb <= 65 {
                                    u(&mut d, || r.from(3u8).pow(&x).residue());
                                }
                                c.ops += 1;
                                c.note(&d.0.to_le_bytes());
                            });
                            ctx.digests.push((format!("tall-{bits}/pair/{lb} bits, contents {k} {kb}"), d.0));
                        }
                    }
                }
            }));
        }
        // Rings and powers.
        for part in 0..8usize {
            v.push(block(format!("power-{part}"), move |ctx| {
                for bits in (part + 1..tier.pick(300, 700)).step_by(8) {
                    for (k, m) in [fixed(bits as u64, bits), Nat::pow2(bits).sub(&Nat::from_u(1)).unwrap(), Nat::pow2(bits - 1)].into_iter().enumerate() {
                        let mut d = Dig(6);
                        ctx.state(|| format!("modulus {}", m.hex()), |c| {
                            let mm = to_u(&m);
                            let r = ModuloRing::new(&mm);
                            for e in [1usize, 2, 15, 16, 17, 63, 64, 65, 200] {
                                let x = r.from(to_u(&fixed(e as u64, bits + 3)));
                                u(&mut d, || x.pow(&to_u(&fixed(e as u64 + 1, e))).residue());
                                u(&mut d, || x.pow(&to_u(&Nat::pow2(e))).residue());
                                u(&mut d, || x.pow_signed(&-to_i(&Int::pos(Nat::pow2(e)))).residue());
                            }
                            c.ops += 1;
                            c.note(&d.0.to_le_bytes());
                        });
                        ctx.digests.push((format!("power-{part}/pow/{bits} bits, modulus {k}"), d.0));
                    }
                }
            }));
        }
        // Text that is not a number.
        v.push(block("strings", move |ctx| {
            let al = ["", "0", "1", "9", "a", "Z", "-", "+", "_", "0x", "0b", "é", " "];
            for a in al {
                let mut d = Dig(7);
                for b in al {
                    for e in al {
                        for g in al {
                            for l in [0usize, 1, 12, 40] {
                                let t = format!("{a}{b}{}{e}{g}", "7".repeat(l));
                                ctx.state(|| format!("{t:?}"), |c| {
                                    for r in [2u32, 10, 16, 36] {
                                        dbg(&mut d, || UBig::from_str_radix(&t, r));
                                        dbg(&mut d, || IBig::from_str_radix(&t, r));
                                    }
                                    dbg(&mut d, || UBig::from_str_with_radix_prefix(&t));
                                    dbg(&mut d, || IBig::from_str_with_radix_prefix(&t));
                                    dbg(&mut d, || t.parse::<IBig>());
                                    c.ops += 1;
                                    c.note(&d.0.to_le_bytes());
                                });
                            }
                        }
                    }
                }
                ctx.digests.push((format!("strings/parse/starting with {a:?}"), d.0));
            }
        }));
        v
    });
}
