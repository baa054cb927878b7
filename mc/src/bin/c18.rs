//! C18: modular inverse, division and powers.
use ibig::ModuloRing;
use ibig::{IBig, UBig};
use mc::*;

/// Inverse by the extended Euclidean algorithm on the model.
fn inv(a: &Nat, n: &Nat) -> Option<Nat> {
    let (mut r0, mut r1) = (Int::pos(n.clone()), Int::pos(a.clone()));
    let (mut t0, mut t1) = (Int::from_i(0), Int::from_i(1));
    while !r1.mag.is_zero() {
        let (q, r) = r0.divrem(&r1);
        let t = t0.sub(&q.mul(&t1));
        r0 = r1;
        r1 = r;
        t0 = t1;
        t1 = t;
    }
    if r0.mag != Nat::from_u(1) {
        return None;
    }
    Some(t0.divrem_euclid(&Int::pos(n.clone())).1.mag)
}

fn mulm(a: &Nat, b: &Nat, n: &Nat) -> Nat {
    a.mul(b).divrem(n).1
}
fn powm(a: &Nat, e: &Nat, n: &Nat) -> Nat {
    let mut r = Nat::from_u(1).divrem(n).1;
    let mut s = a.clone();
    for i in 0..e.bit_len() {
        if e.bit(i) {
            r = mulm(&r, &s, n);
        }
        if i + 1 < e.bit_len() {
            s = mulm(&s, &s, n);
        }
    }
    r
}

fn inverse(c: &mut Chk, ring: &ModuloRing, n: &Nat, a: &Nat) -> Option<Nat> {
    let x = ring.from(to_u(a));
    let want = inv(a, n);
    match (x.inverse(), &want) {
        (Some(y), Some(w)) => {
            c.u("inverse", &y.residue(), w);
            c.ok(&x * &y == ring.from(1u8), || "x * inverse != 1".into());
            c.ok(y == ring.from(to_u(w)), || "inverse not equal to the element of its residue".into());
        }
        (None, None) => {
            c.ops += 1;
        }
        (g, w) => {
            c.ok(false, || format!("inverse: got {:?} want {:?}", g.map(|y| of_u(&y.residue()).hex()), w.as_ref().map(|y| y.hex())));
        }
    }
    c.u("operand unchanged", &x.residue(), a);
    want
}

fn division(c: &mut Chk, ring: &ModuloRing, n: &Nat, a: &Nat, b: &Nat, binv: &Option<Nat>) {
    let (x, y) = (ring.from(to_u(a)), ring.from(to_u(b)));
    match binv {
        Some(i) => {
            let w = mulm(a, i, n);
            c.u("&x/&y", &(&x / &y).residue(), &w);
            c.u("x/&y", &(x.clone() / &y).residue(), &w);
            c.u("&x/y", &(&x / y.clone()).residue(), &w);
            c.u("x/y", &(x.clone() / y.clone()).residue(), &w);
            let mut z = x.clone();
            z /= &y;
            c.u("x/=&y", &z.residue(), &w);
            let mut z = x.clone();
            z /= y.clone();
            c.u("x/=y", &z.residue(), &w);
            c.ok(z * &y == x, || "(x/y)*y != x".into());
        }
        None => {
            c.panics("&x/&y", || &x / &y);
            c.panics("x/&y", || x.clone() / &y);
            c.panics("&x/y", || &x / y.clone());
            c.panics("x/y", || x.clone() / y.clone());
            let mut z = x.clone();
            c.panics("x/=&y", || z /= &y);
            c.u("x after a failed x/=&y", &z.residue(), a);
            c.panics("x/=y", || z /= y.clone());
        }
    }
}

fn power(c: &mut Chk, ring: &ModuloRing, n: &Nat, a: &Nat, e: &Nat, want: &Nat) {
    let x = ring.from(to_u(a));
    let u = to_u(e);
    let p = x.pow(&u);
    c.u("pow", &p.residue(), want);
    c.ok(p == ring.from(to_u(want)), || "pow not equal to the element of its residue".into());
    c.u("pow_signed", &x.pow_signed(&IBig::from(&u)).residue(), want);
    c.u("base unchanged", &x.residue(), a);
    let _ = n;
}

fn neg_power(c: &mut Chk, ring: &ModuloRing, n: &Nat, a: &Nat, e: &Nat, ai: &Option<Nat>) {
    let x = ring.from(to_u(a));
    let m = -IBig::from(to_u(e));
    match ai {
        Some(i) => {
            c.u("pow_signed(-e)", &x.pow_signed(&m).residue(), &powm(i, e, n));
        }
        None => {
            c.panics("pow_signed(-e)", || x.pow_signed(&m));
        }
    }
}

/// Exponents whose bit patterns exercise every window position.
fn exponents(bits: usize, many: bool) -> Vec<Nat> {
    let one = Nat::from_u(1);
    let mut v = vec![Nat::pow2(bits - 1), Nat::pow2(bits).sub(&one).unwrap()];
    let alt: Nat = {
        let mut x = Nat::zero();
        for i in (0..bits).rev().step_by(2) {
            x = x.with_bit(i, true);
        }
        x
    };
    v.push(alt);
    let g = generic(95, bits / W + 2);
    v.push(g.shr(g.bit_len() - bits));
    let steps: Vec<usize> = if many { (0..bits).collect() } else { (0..bits).step_by((bits / 6).max(1)).collect() };
    for i in steps {
        v.push(Nat::pow2(bits - 1).with_bit(i, true));
        // a run of ones ending at bit i
        for r in [3usize, 7] {
            let mut x = Nat::pow2(bits - 1);
            for j in i..(i + r).min(bits) {
                x = x.with_bit(j, true);
            }
            v.push(x);
        }
        if many {
            v.push(Nat::pow2(bits).sub(&one).unwrap().with_bit(i, false));
        }
    }
    v.retain(|x| !x.is_zero());
    dedup(&mut v);
    v
}

fn bases(n: &Nat) -> Vec<Nat> {
    let mut v = vec![Nat::zero(), Nat::from_u(1), Nat::from_u(2), Nat::from_u(3), n.sub(&Nat::from_u(1)).unwrap(), generic(96, wlen(n)).divrem(n).1, n.shr(1)];
    v.retain(|x| x.cmp(n).is_lt());
    dedup(&mut v);
    v
}

fn main() {
    mc::main("C18", |tier| {
        let mut v = vec![];
        let top = tier.pick(60u128, 150);
        for k in 0..16 {
            v.push(block(format!("tiny-{k}"), move |ctx| {
                for n in (1 + k..=top).step_by(16) {
                    let m = Nat::from_u(n);
                    let ring = ModuloRing::new(&to_u(&m));
                    let invs: Vec<Option<Nat>> = (0..n).map(|b| inv(&Nat::from_u(b), &m)).collect();
                    for a in 0..n {
                        let na = Nat::from_u(a);
                        ctx.state(|| format!("n={n} a={a}"), |c| {
                            inverse(c, &ring, &m, &na);
                            // Exhaustive definition: coprime iff some multiple is 1.
                            let some = (0..n).any(|b| a * b % n == 1 % n);
                            c.ok(ring.from(a).inverse().is_some() == some, || "inverse exists iff some product is 1".into());
                        });
                        for b in 0..n {
                            if a % 4 == b % 4 || n < 20 {
                                ctx.state(|| format!("n={n} a={a} b={b}"), |c| division(c, &ring, &m, &na, &Nat::from_u(b), &invs[b as usize]));
                            }
                        }
                        let mut w = Nat::from_u(1 % n);
                        for e in 0..tier.pick(34u128, 70) {
                            let ne = Nat::from_u(e);
                            ctx.state(|| format!("n={n} a={a} e={e}"), |c| {
                                power(c, &ring, &m, &na, &ne, &w);
                                if e > 0 && e < 12 {
                                    neg_power(c, &ring, &m, &na, &ne, &invs[a as usize]);
                                }
                            });
                            w = mulm(&w, &na, &m);
                        }
                    }
                }
            }));
        }
        let wmax = tier.pick(6usize, 12);
        for l in 1..=wmax {
            let mut ms = if l <= 2 { pats(l) } else { pats_few(l) };
            ms.extend(divisors(l, l <= 2));
            ms.push(Nat::pow2(l * W - 1).sub(&Nat::from_u(1)).unwrap());
            ms.push(Nat::from_u(3).shl((l - 1) * W).add(&Nat::from_u(if l == 1 { 0 } else { 9 })));
            ms.retain(|x| wlen(x) == l);
            dedup(&mut ms);
            for (k, n) in ms.into_iter().enumerate() {
                v.push(block(format!("modulus-{l}-{k}"), move |ctx| {
                    let n = &n;
                    let ring = ModuloRing::new(&to_u(n));
                    let mut rs = bases(n);
                    for d in 1..12u128 {
                        rs.push(Nat::from_u(d * 7));
                        rs.push(n.sub(&Nat::from_u(d.min(n.to_u128().unwrap_or(100)))).unwrap());
                    }
                    // residues sharing a factor with n
                    for f in [2u128, 3, 5, 15, 6] {
                        let (q, r) = n.divrem(&Nat::from_u(f));
                        if r.is_zero() {
                            rs.push(q);
                        }
                    }
                    rs.retain(|x| x.cmp(n).is_lt());
                    dedup(&mut rs);
                    let mut invs = vec![];
                    for a in &rs {
                        let mut r = None;
                        ctx.state(|| format!("n={} a={}", n.hex(), a.hex()), |c| r = inverse(c, &ring, n, a));
                        invs.push(inv(a, n));
                        let _ = r;
                    }
                    for (i, b) in rs.iter().enumerate() {
                        for a in rs.iter().step_by(4) {
                            ctx.state(|| format!("n={} a={} b={}", n.hex(), a.hex(), b.hex()), |c| division(c, &ring, n, a, b, &invs[i]));
                        }
                    }
                    // Every exponent of up to 9 bits, by repeated multiplication.
                    for a in &bases(n) {
                        let mut w = Nat::from_u(1).divrem(n).1;
                        for e in 0..tier.pick(if l <= 2 { 300u128 } else { 130 }, 1100) {
                            let ne = Nat::from_u(e);
                            ctx.state(|| format!("n={} a={} e={e}", n.hex(), a.hex()), |c| power(c, &ring, n, a, &ne, &w));
                            w = mulm(&w, a, n);
                        }
                    }
                    for (i, a) in rs.iter().enumerate().step_by(3) {
                        for e in [1u128, 2, 3, 17, 255] {
                            ctx.state(|| format!("n={} a={} e=-{e}", n.hex(), a.hex()), |c| neg_power(c, &ring, n, a, &Nat::from_u(e), &invs[i]));
                        }
                        if i % 2 == 0 {
                            let e = generic(97, 2);
                            ctx.state(|| format!("n={} a={} e=-{}", n.hex(), a.hex(), e.hex()), |c| neg_power(c, &ring, n, a, &e, &invs[i]));
                        }
                    }
                }));
            }
        }
        // Exponent bit patterns of every length, across the window-size thresholds and word boundaries.
        for b0 in 0..tier.pick(100usize, 300) {
            v.push(block(format!("exponents-{b0}"), move |ctx| {
                let bits = b0 + 1;
                for l in [1usize, 2, 3] {
                    let n = &generic(98, l).with_bit(0, true);
                    let ring = ModuloRing::new(&to_u(n));
                    let a = &generic(99, l).divrem(n).1;
                    for e in exponents(bits, bits <= 3 * W && l <= 2) {
                        let w = powm(a, &e, n);
                        ctx.state(|| format!("n={} a={} e={}", n.hex(), a.hex(), e.hex()), |c| power(c, &ring, n, a, &e, &w));
                    }
                }
            }));
        }
        for bits in tier.pick(vec![127usize, 128, 129, 160, 191, 192, 193, 240, 241, 250, 256, 320, 500, 672, 680, 800, 1023, 1024, 1025, 1792, 1793, 2048, 4607, 4608, 4609], vec![240, 241, 250, 256, 320, 500, 672, 673, 680, 800, 1000, 1790, 1792, 1793, 1800, 2047, 2048, 2049, 2500, 4000, 4096, 4607, 4608, 4609, 6000, 11000, 12000]) {
            v.push(block(format!("long-exponents-{bits}"), move |ctx| {
                for l in [1usize, 2] {
                    let n = &generic(98, l).with_bit(0, true);
                    let ring = ModuloRing::new(&to_u(n));
                    let a = &generic(99, l).divrem(n).1;
                    for e in exponents(bits, false) {
                        let w = powm(a, &e, n);
                        ctx.state(|| format!("n={} a={} e={}", n.hex(), a.hex(), e.hex()), |c| power(c, &ring, n, a, &e, &w));
                    }
                }
            }));
        }
        // Larger moduli with two-word exponents.
        for l in tier.pick(vec![8usize, 16, 25, 33], vec![8, 16, 24, 25, 32, 33, 34, 48, 64, 100]) {
            v.push(block(format!("long-moduli-{l}"), move |ctx| {
                for n in [words(&vec![MAXW; l]), generic(100, l)] {
                    let ring = ModuloRing::new(&to_u(&n));
                    let a = generic(101, l).divrem(&n).1;
                    for e in [Nat::from_u(65537), Nat::from_u(0xdead_beef), Nat::from_u(2), Nat::from_u(7)] {
                        let w = powm(&a, &e, &n);
                        ctx.state(|| format!("n={} a={} e={}", n.hex(), a.hex(), e.hex()), |c| power(c, &ring, &n, &a, &e, &w));
                    }
                    ctx.state(|| format!("n={} a={}", n.hex(), a.hex()), |c| {
                        inverse(c, &ring, &n, &a);
                    });
                }
            }));
        }
        // Windows of every length over longer moduli.
        for bits in tier.pick(vec![65usize, 130, 260, 700, 1800], vec![65, 130, 200, 260, 400, 700, 1000, 1800, 2500, 5000]) {
            for l in tier.pick(vec![3usize, 5, 9, 17, 26, 34], vec![3, 4, 5, 9, 17, 25, 26, 33, 34, 50]) {
                if bits * l * l * W > 80_000_000 && !tier.thorough() {
                    continue;
                }
                v.push(block(format!("windows-{bits}-{l}"), move |ctx| {
                    for n in [words(&vec![MAXW; l]), generic(103, l).with_bit(0, true), generic(104, l).shr(W / 2 + 3)] {
                        let ring = ModuloRing::new(&to_u(&n));
                        let a = generic(105, l).divrem(&n).1;
                        let mut es = vec![Nat::pow2(bits).sub(&Nat::from_u(1)).unwrap(), generic(106, bits / W + 2).shr(W + W - bits % W)];
                        if l <= 9 || tier.thorough() {
                            // All ones but one bit, and long runs of zeros between windows.
                            es.push(es[0].with_bit(bits / 2, false));
                            es.push(Nat::pow2(bits - 1).add(&Nat::pow2(bits / 2)).add(&Nat::pow2(bits / 3)).add(&Nat::from_u(1)));
                            es.push(Nat::pow2(bits - 1).add(&Nat::pow2(W)).add(&Nat::pow2(W - 1)));
                        }
                        for e in es {
                            let w = powm(&a, &e, &n);
                            ctx.state(|| format!("n={} a={} e={}", n.hex(), a.hex(), e.hex()), |c| power(c, &ring, &n, &a, &e, &w));
                        }
                    }
                }));
            }
        }
        for l in tier.pick(vec![100usize, 194], vec![100, 193, 194, 195, 200, 400]) {
            v.push(block(format!("toom-moduli-{l}"), move |ctx| {
                for n in [words(&vec![MAXW; l]), generic(107, l).shr(5).with_bit(0, true)] {
                    let ring = ModuloRing::new(&to_u(&n));
                    let a = generic(108, l).divrem(&n).1;
                    for e in [Nat::from_u(11), Nat::from_u(0x1f3)] {
                        let w = powm(&a, &e, &n);
                        ctx.state(|| format!("n={} a={} e={}", n.hex(), a.hex(), e.hex()), |c| power(c, &ring, &n, &a, &e, &w));
                    }
                }
            }));
        }
        if W == 16 {
            // Every residue of several 16-bit moduli; every 16-bit modulus for a few residues.
            for k in 0..16u64 {
                v.push(block(format!("all-{k}"), move |ctx| {
                    fn gcd(a: u64, b: u64) -> u64 {
                        if b == 0 {
                            a
                        } else {
                            gcd(b, a % b)
                        }
                    }
                    for n in [65535u64, 65521, 32768, 65520] {
                        let ring = ModuloRing::new(&UBig::from(n));
                        for a in ((k * 4096)..((k + 1) * 4096)).filter(|a| *a < n) {
                            ctx.state(|| format!("n={n} a={a}"), |c| {
                                let x = ring.from(a);
                                match x.inverse() {
                                    Some(y) => {
                                        let r = u64::try_from(y.residue()).unwrap();
                                        c.ok(r < n && r * a % n == 1, || format!("inverse {r}"));
                                    }
                                    None => {
                                        c.ok(gcd(a, n) != 1, || "no inverse of a unit".into());
                                    }
                                }
                                let w = a * a % n * a % n;
                                c.ok(x.pow(&UBig::from(3u8)).residue() == UBig::from(w), || "cube".into());
                            });
                        }
                    }
                    for n in ((k * 4096)..((k + 1) * 4096)).filter(|n| *n > 0) {
                        ctx.state(|| format!("n={n}"), |c| {
                            let ring = ModuloRing::new(&UBig::from(n));
                            for a in [2u64, 3, n - 1, n / 2, n / 3, 30030].map(|a| a % n) {
                                let g = gcd(a, n);
                                match ring.from(a).inverse() {
                                    Some(y) => {
                                        let r = u64::try_from(y.residue()).unwrap();
                                        c.ok(g == 1 && r < n && r * a % n == 1 % n, || format!("inverse of {a}: {r}"));
                                    }
                                    None => {
                                        c.ok(g != 1, || format!("no inverse of {a}"));
                                    }
                                }
                                let mut w = 1 % n;
                                for _ in 0..13 {
                                    w = w * a % n;
                                }
                                c.ok(ring.from(a).pow(&UBig::from(13u8)).residue() == UBig::from(w), || format!("{a}^13"));
                            }
                        });
                    }
                }));
            }
        }
        v
    });
}
