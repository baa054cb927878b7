//! C13: conversion to floating point is correctly rounded.
use mc::*;

/// Nearest-even rounding of n to p significant bits; Ok((mantissa, exponent)) or Err for overflow past
/// the largest exponent emax (value < 2^(emax+1)).
fn round(n: &Nat, p: usize, emax: usize) -> Option<(u64, usize)> {
    let l = n.bit_len();
    let (mut m, mut e) = if l <= p {
        (n.to_u128().unwrap() as u64, 0)
    } else {
        let e = l - p;
        let m = n.shr(e);
        let r = n.sub(&m.shl(e)).unwrap();
        let half = Nat::pow2(e - 1);
        let m = m.to_u128().unwrap() as u64;
        let up = match r.cmp(&half) {
            std::cmp::Ordering::Less => false,
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => m & 1 == 1,
        };
        (m + up as u64, e)
    };
    if m == 1 << p {
        m >>= 1;
        e += 1;
    }
    let top = e + (64 - m.leading_zeros() as usize);
    if top > emax + 1 {
        None
    } else {
        Some((m, e))
    }
}
fn want64(n: &Nat) -> f64 {
    match round(n, 53, 1023) {
        None => f64::INFINITY,
        // Both factors and the product are exact.
        Some((m, e)) => {
            let a = e / 2;
            m as f64 * 2f64.powi(a as i32) * 2f64.powi((e - a) as i32)
        }
    }
}
fn want32(n: &Nat) -> f32 {
    match round(n, 24, 127) {
        None => f32::INFINITY,
        Some((m, e)) => {
            let a = e / 2;
            m as f32 * 2f32.powi(a as i32) * 2f32.powi((e - a) as i32)
        }
    }
}

fn check(c: &mut Chk, n: &Nat, std: bool) {
    let (w32, w64) = (want32(n), want64(n));
    c.note(&w64.to_bits().to_le_bytes());
    if std {
        // The model's rounding agrees with the standard library's own.
        let d = n.digits(10);
        assert_eq!(d.parse::<f64>().unwrap().to_bits(), w64.to_bits(), "model f64 disagrees with std");
        assert_eq!(d.parse::<f32>().unwrap().to_bits(), w32.to_bits(), "model f32 disagrees with std");
    }
    let u = to_u(n);
    c.ok(u.to_f32().to_bits() == w32.to_bits(), || format!("to_f32: got {:e} ({:#x}) want {:e}", u.to_f32(), u.to_f32().to_bits(), w32));
    c.ok(u.to_f64().to_bits() == w64.to_bits(), || format!("to_f64: got {:e} ({:#x}) want {:e}", u.to_f64(), u.to_f64().to_bits(), w64));
    let p = to_i(&Int::pos(n.clone()));
    c.ok(p.to_f32().to_bits() == w32.to_bits() && p.to_f64().to_bits() == w64.to_bits(), || "IBig to_f32/to_f64".into());
    if !n.is_zero() {
        let m = -p;
        c.ok(m.to_f32().to_bits() == (-w32).to_bits(), || format!("negative to_f32: {:e}", m.to_f32()));
        c.ok(m.to_f64().to_bits() == (-w64).to_bits(), || format!("negative to_f64: {:e}", m.to_f64()));
    }
}

fn main() {
    mc::main("C13", |tier| {
        let mut v = vec![];
        // Mantissa patterns x guard bit x position of one more set (or no) bit below, at every bit length.
        for (name, p, lmax, chunk) in [("f32", 24usize, 140usize, 4usize), ("f64", 53, tier.pick(1100, 1200), 16)] {
            for l0 in (1..=lmax).step_by(chunk) {
                v.push(block(format!("{name}-{l0}"), move |ctx| {
                    for l in l0..(l0 + chunk).min(lmax + 1) {
                        let full = (1u128 << p) - 1;
                        let top = 1u128 << (p - 1);
                        let mut ms = vec![top, top + 1, top + 2, top + 3, full, full - 1, full - 2, full ^ 1 << (p / 2), top | 0x155 | 1 << (p - 2), top | 0x2aa];
                        ms.dedup();
                        for m in ms {
                            if l <= p {
                                let n = Nat::from_u(m >> (p - l));
                                ctx.state(|| n.hex(), |c| check(c, &n, true));
                                continue;
                            }
                            let e = l - p;
                            let base = Nat::from_u(m).shl(e);
                            for g in [false, true] {
                                let b = if g { base.with_bit(e - 1, true) } else { base.clone() };
                                ctx.state(|| b.hex(), |c| check(c, &b, m & 3 != 0 && l % 13 == 0));
                                let dense = name == "f32" || l < 200 || m <= top + 1 || m == full;
                                let step = if dense && (name == "f32" || tier.thorough() || l < 400) { 1 } else { 7 };
                                for s in (0..e.saturating_sub(1)).filter(|s| s % step == 0 || s + 70 > e || *s < W + 2) {
                                    let n = b.with_bit(s, true);
                                    ctx.state(|| n.hex(), |c| check(c, &n, false));
                                }
                                // All bits below set.
                                if e >= 2 {
                                    let n = b.add(&Nat::pow2(e - 1)).sub(&Nat::from_u(1)).unwrap();
                                    ctx.state(|| n.hex(), |c| check(c, &n, l % 17 == 0));
                                }
                            }
                        }
                    }
                }));
            }
        }
        // Around the overflow thresholds.
        v.push(block("overflow", move |ctx| {
            for (p, emax) in [(24usize, 127usize), (53, 1023)] {
                // 2^(emax+1) - 2^(emax-p): the smallest magnitude that rounds to infinity.
                let t = Nat::pow2(emax + 1).sub(&Nat::pow2(emax - p)).unwrap();
                let mut xs = vec![t.clone(), Nat::pow2(emax + 1)];
                for k in 0..=emax - p {
                    xs.push(t.sub(&Nat::pow2(k)).unwrap());
                    xs.push(t.add(&Nat::pow2(k)));
                }
                for k in 0..300 {
                    xs.push(Nat::pow2(emax + 1 + k));
                    xs.push(Nat::pow2(emax + 1 + k).sub(&Nat::from_u(1)).unwrap());
                }
                for n in xs {
                    ctx.state(|| n.hex(), |c| check(c, &n, true));
                }
            }
            for l in 1..=tier.pick(300, 900) {
                for n in pats(l) {
                    ctx.state(|| n.hex(), |c| check(c, &n, l < 40));
                }
            }
        }));
        for (k, ch) in upto_words(&wa7(), 5).chunks(2000).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("words-{k}"), move |ctx| {
                for n in &ch {
                    ctx.state(|| n.hex(), |c| check(c, n, false));
                }
            }));
        }
        // Every 18-bit value placed at every shift where its low bits are the rounding position of f32.
        for k in 0..8u64 {
            v.push(block(format!("dense-{k}"), move |ctx| {
                let step = tier.pick(2u64, 1);
                for x in ((k << 13)..((k + 1) << 13)).step_by(step as usize) {
                    for sh in [0usize, 8, 15, 16, 17, 31, 33, 48, 64, 100] {
                        // top bit, 15 fixed bits, then 16 free bits around the rounding position
                        let n = Nat::from_u((1u128 << 32) | (0x5a5au128 << 17) | x as u128).shl(sh);
                        ctx.state(|| n.hex(), |c| check(c, &n, false));
                        let n = Nat::from_u((1u128 << 61) | (0x3ff_ffff_ffffu128 << 17) | x as u128).shl(sh);
                        ctx.state(|| n.hex(), |c| check(c, &n, false));
                    }
                }
            }));
        }
        v
    });
}
