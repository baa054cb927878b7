//! C17: modular values behave as integers modulo n.
use ibig::{Modulo, ModuloRing};
use mc::*;

fn md(x: &Int, n: &Nat) -> Nat {
    x.divrem_euclid(&Int::pos(n.clone())).1.mag
}

fn el<'a>(c: &mut Chk, op: &str, got: &Modulo<'a>, ring: &'a ModuloRing, want: &Nat) {
    c.u(op, &got.residue(), want);
    // Equality in the ring with the element converted from the residue.
    c.ok(*got == ring.from(to_u(want)), || format!("{op}: not equal to the element of its residue {}", want.hex()));
}

/// Reduction by repeated subtraction, for results known to be below 2n.
fn red(x: Nat, n: &Nat) -> Nat {
    match x.sub(n) {
        Some(y) => y,
        None => x,
    }
}

fn pair(c: &mut Chk, ring: &ModuloRing, n: &Nat, a: &Nat, b: &Nat) {
    let (x, y) = (ring.from(to_u(a)), ring.from(&to_u(b)));
    let sum = red(a.add(b), n);
    let dif = match a.sub(b) {
        Some(d) => d,
        None => a.add(n).sub(b).unwrap(),
    };
    let prod = if a.is_zero() || b.is_zero() { Nat::zero() } else { a.mul(b).divrem(n).1 };
    macro_rules! all {
        ($op:tt, $opa:tt, $want:expr) => {{
            el(c, concat!("&x", stringify!($op), "&y"), &(&x $op &y), ring, $want);
            el(c, concat!("x", stringify!($op), "&y"), &(x.clone() $op &y), ring, $want);
            el(c, concat!("&x", stringify!($op), "y"), &(&x $op y.clone()), ring, $want);
            el(c, concat!("x", stringify!($op), "y"), &(x.clone() $op y.clone()), ring, $want);
            let mut z = x.clone();
            z $opa &y;
            el(c, concat!("x", stringify!($opa), "&y"), &z, ring, $want);
            let mut z = x.clone();
            z $opa y.clone();
            el(c, concat!("x", stringify!($opa), "y"), &z, ring, $want);
        }};
    }
    all!(+, +=, &sum);
    all!(-, -=, &dif);
    all!(*, *=, &prod);
    c.ok((x == y) == (a == b), || "==".into());
    c.ok((x != y) == (a != b), || "!=".into());
    let mut z = y.clone();
    z.clone_from(&x);
    el(c, "clone_from", &z, ring, a);
    el(c, "operand x unchanged", &x, ring, a);
    el(c, "operand y unchanged", &y, ring, b);
}

fn single(c: &mut Chk, ring: &ModuloRing, n: &Nat, a: &Nat) {
    let x = ring.from(to_u(a));
    let neg = if a.is_zero() { Nat::zero() } else { n.sub(a).unwrap() };
    el(c, "-&x", &-&x, ring, &neg);
    el(c, "-x", &-x.clone(), ring, &neg);
    el(c, "x-x", &(&x - &x), ring, &Nat::zero());
    let (r, m) = (to_u(a), to_u(n));
    c.ok(format!("{x}") == format!("{r} (mod {m})"), || format!("display: {x}"));
    c.ok(format!("{x:?}") == format!("{r:?} (mod {m:?})"), || format!("debug: {x:?}"));
    c.ok(format!("{x:b}") == format!("{r:b} (mod {m:b})"), || format!("binary: {x:b}"));
    c.ok(format!("{x:o}") == format!("{r:o} (mod {m:o})"), || format!("octal: {x:o}"));
    c.ok(format!("{x:x}") == format!("{r:x} (mod {m:x})"), || format!("hex: {x:x}"));
    c.ok(format!("{x:X}") == format!("{r:X} (mod {m:X})"), || format!("upper hex: {x:X}"));
}

fn the_ring(c: &mut Chk, n: &Nat) {
    for u in variants(n) {
        let ring = ModuloRing::new(&u);
        c.u("modulus", &ring.modulus(), n);
        c.u("argument unchanged", &u, n);
        c.ok(format!("{ring}") == format!("mod {u}") && format!("{ring:x}") == format!("mod {u:x}"), || format!("ring display {ring}"));
        c.ok(ring == ring, || "ring == itself".into());
        let other = ModuloRing::new(&u);
        c.ok(ring != other, || "two ring objects are equal".into());
    }
}

fn conv(c: &mut Chk, ring: &ModuloRing, n: &Nat, v: &Nat) {
    let r = v.divrem(n).1;
    let neg = if r.is_zero() { Nat::zero() } else { n.sub(&r).unwrap() };
    for k in 0..3 {
        el(c, "from(UBig)", &ring.from(mk_variant(v, k)), ring, &r);
        let u = mk_variant(v, k);
        el(c, "from(&UBig)", &ring.from(&u), ring, &r);
        c.u("source unchanged", &u, v);
        let i = ibig::IBig::from(u);
        el(c, "from(&IBig)", &ring.from(&i), ring, &r);
        let i = -i;
        el(c, "from(&-IBig)", &ring.from(&i), ring, &neg);
        el(c, "from(-IBig)", &ring.from(i), ring, &neg);
    }
}

macro_rules! prims {
    ($c:expr, $ring:expr, $n:expr, $($t:ty)*) => {$(
        let mut vs: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MAX, <$t>::MAX - 1, 0, 1, 2, 3, 100, <$t>::MAX / 2, <$t>::MAX / 3];
        let mut k = 1;
        while k < <$t>::BITS - 1 {
            vs.push(1 << k);
            vs.push((0 as $t).wrapping_sub(1 << k));
            k += 3;
        }
        for x in vs {
            #[allow(unused_comparisons)]
            let i = if x < 0 { Int::from_i(x as i128) } else { Int::pos(Nat::from_u(x as u128)) };
            let want = md(&i, $n);
            el($c, concat!("from(", stringify!($t), ")"), &$ring.from(x), $ring, &want);
        }
    )*};
}

fn all_prims(c: &mut Chk, ring: &ModuloRing, n: &Nat) {
    prims!(c, ring, n, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    el(c, "from(false)", &ring.from(false), ring, &Nat::zero());
    el(c, "from(true)", &ring.from(true), ring, &md(&Int::from_i(1), n));
}

/// Residues worth trying for a modulus.
fn residues(n: &Nat, many: bool) -> Vec<Nat> {
    let one = Nat::from_u(1);
    let l = n.bit_len();
    let mut v = vec![Nat::zero(), one.clone(), Nat::from_u(2), n.sub(&one).unwrap(), n.shr(1), n.shr(1).add(&one)];
    if let Some(x) = n.sub(&Nat::from_u(2)) {
        v.push(x);
    }
    v.push(Nat::pow2(l - 1));
    v.push(Nat::pow2(l - 1).sub(&one).unwrap());
    if l > W {
        v.push(Nat::pow2(W));
        v.push(Nat::pow2(W).sub(&one).unwrap());
        v.push(generic(81, wlen(n)).shr(1));
        if many {
            v.push(n.sub(&Nat::pow2(W)).unwrap_or(one));
            v.push(generic(82, wlen(n) - 1));
            v.push(Nat::pow2(l / 2));
            v.push(n.shr(W / 2 + 1));
            v.push(n.shr(l / 2));
        }
    }
    v.retain(|x| x.cmp(n).is_lt());
    dedup(&mut v);
    v
}

fn moduli(l: usize, many: bool) -> Vec<Nat> {
    let mut v = if many { pats(l) } else { pats_few(l) };
    v.extend(divisors(l, many));
    // every normalization shift of a generic modulus
    for s in 0..W {
        if many || s % 5 == 1 || s + 2 > W {
            v.push(generic(85, l).shr(s).add(&Nat::pow2(l * W - 1 - s)));
        }
    }
    v.retain(|x| !x.is_zero() && wlen(x) == l);
    dedup(&mut v);
    v
}

fn main() {
    mc::main("C17", |tier| {
        let mut v = vec![];
        v.push(block("zero-modulus", |ctx| {
            ctx.state(|| "ModuloRing::new(0)".into(), |c| {
                let z = ibig::UBig::from(0u8);
                c.panics("ModuloRing::new(0)", || ModuloRing::new(&z));
            });
        }));
        // Every residue pair of every tiny modulus.
        let top = tier.pick(90u128, 200);
        for k in 0..8 {
            v.push(block(format!("tiny-{k}"), move |ctx| {
                for n in (1 + k..=top).step_by(8) {
                    let m = Nat::from_u(n);
                    let ring = ModuloRing::new(&to_u(&m));
                    ctx.state(|| format!("n={n}"), |c| {
                        the_ring(c, &m);
                        all_prims(c, &ring, &m);
                    });
                    for a in 0..n {
                        ctx.state(|| format!("n={n} a={a}"), |c| single(c, &ring, &m, &Nat::from_u(a)));
                        for b in 0..n {
                            ctx.state(|| format!("n={n} a={a} b={b}"), |c| pair(c, &ring, &m, &Nat::from_u(a), &Nat::from_u(b)));
                        }
                    }
                    for x in 0..300u128 {
                        ctx.state(|| format!("n={n} x={x}"), |c| conv(c, &ring, &m, &Nat::from_u(x)));
                    }
                }
            }));
        }
        // One- and two-word moduli, every shift, all residue pairs of the alphabet.
        for l in 1..=2usize {
            let mut ms = moduli(l, true);
            ms.extend(all_words(&wa7(), l));
            for s in 0..W {
                for d in 0..3u128 {
                    let p = Nat::pow2((l - 1) * W + s);
                    ms.push(p.add(&Nat::from_u(d)));
                }
            }
            ms.retain(|x| !x.is_zero() && wlen(x) == l);
            dedup(&mut ms);
            for (k, ch) in ms.chunks(10).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("words-{l}-{k}"), move |ctx| {
                    for n in &ch {
                        run(ctx, n, true);
                    }
                }));
            }
        }
        for l in 3..=tier.pick(30usize, 70) {
            for (k, ch) in moduli(l, l <= 12 || tier.thorough()).chunks(4).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("lengths-{l}-{k}"), move |ctx| {
                    for n in &ch {
                        run(ctx, n, false);
                    }
                }));
            }
        }
        // Lengths around the algorithm thresholds of multiplication and division.
        for l in tier.pick(vec![24usize, 25, 31, 32, 33, 34, 48, 49, 64, 65, 66, 97, 128, 193, 196], vec![24, 25, 31, 32, 33, 34, 48, 49, 64, 65, 66, 96, 97, 128, 200, 250]) {
            for k in 0..3 {
                v.push(block(format!("long-{l}-{k}"), move |ctx| {
                    let n = &divisors(l, false)[k + (k > 1) as usize];
                    let ring = ModuloRing::new(&to_u(n));
                    ctx.state(|| format!("n={}", n.hex()), |c| the_ring(c, n));
                    let rs = residues(n, false);
                    for (i, a) in rs.iter().enumerate() {
                        ctx.state(|| format!("n={} a={}", n.hex(), a.hex()), |c| single(c, &ring, n, a));
                        for b in &rs[i..] {
                            if a.bit_len() + b.bit_len() > n.bit_len() {
                                ctx.state(|| format!("n={} a={} b={}", n.hex(), a.hex(), b.hex()), |c| pair(c, &ring, n, a, b));
                            }
                        }
                    }
                    for x in [words(&vec![MAXW; 2 * l]), generic(90, 2 * l + 7), n.mul(n).sub(&Nat::from_u(1)).unwrap(), n.shl(l * W)] {
                        ctx.state(|| format!("n={} x={}", n.hex(), x.hex()), |c| conv(c, &ring, n, &x));
                    }
                }));
            }
        }
        if W == 16 {
            // Every 16-bit modulus; every value in a few rings.
            for k in 0..16u64 {
                v.push(block(format!("all-moduli-{k}"), move |ctx| {
                    for n in (k * 4096).max(1)..((k + 1) * 4096) {
                        ctx.state(|| format!("n={n}"), |c| {
                            let ring = ModuloRing::new(&ibig::UBig::from(n));
                            let vals = [n - 1, n / 2, n / 3 * 2, 1, 0x1234 % n, n.wrapping_sub(2) % n];
                            for a in vals {
                                let x = ring.from(a % n);
                                for b in vals {
                                    let y = ring.from(b % n);
                                    let (a, b) = (a % n, b % n);
                                    c.ok((&x * &y).residue() == ibig::UBig::from(a * b % n), || format!("{a}*{b}"));
                                    c.ok((&x + &y).residue() == ibig::UBig::from((a + b) % n), || format!("{a}+{b}"));
                                    c.ok((&x - &y).residue() == ibig::UBig::from((a + n - b) % n), || format!("{a}-{b}"));
                                }
                            }
                            for x in [0xffff_ffffu64, 0xffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, 0x1_0000, 0xfffe_ffff] {
                                c.ok(ring.from(x).residue() == ibig::UBig::from(x % n), || format!("from {x}"));
                            }
                        });
                    }
                }));
            }
        }
        fn run(ctx: &mut Ctx, n: &Nat, many: bool) {
            let ring = ModuloRing::new(&to_u(n));
            ctx.state(|| format!("n={}", n.hex()), |c| {
                the_ring(c, n);
                all_prims(c, &ring, n);
            });
            let rs = residues(n, many);
            for a in &rs {
                ctx.state(|| format!("n={} a={}", n.hex(), a.hex()), |c| single(c, &ring, n, a));
                for b in &rs {
                    ctx.state(|| format!("n={} a={} b={}", n.hex(), a.hex(), b.hex()), |c| pair(c, &ring, n, a, b));
                }
            }
            let l = wlen(n);
            let mut xs = vec![n.clone(), n.add(&Nat::from_u(1)), n.shl(1), n.mul(n), n.mul(n).sub(&Nat::from_u(1)).unwrap(), n.shl(W), n.shl(W).sub(&Nat::from_u(1)).unwrap()];
            for k in 1..=l + 3 {
                xs.push(words(&vec![MAXW; k]));
                xs.push(Nat::pow2(k * W));
                xs.push(generic(91, k));
            }
            xs.push(generic(92, 2 * l + 3));
            dedup(&mut xs);
            for x in &xs {
                ctx.state(|| format!("n={} x={}", n.hex(), x.hex()), |c| conv(c, &ring, n, x));
            }
        }
        v
    });
}
