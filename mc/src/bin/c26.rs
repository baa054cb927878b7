//! C26: the memory a number holds stays proportional to its value. Dropping a number under the
//! accounting allocator tells how much it held.
use ibig::ops::*;
use ibig::{IBig, ModuloRing, UBig};
use mc::hist::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Guard = mc::alloc::Guard;

enum V {
    U(UBig),
    I(IBig),
    /// Bytes held by a residue or a ring, and a number as long as its modulus.
    H(u64, Nat),
}
use V::*;

fn held<T>(x: T, modulus: &UBig) -> V {
    H(alloc::freed_by(|| drop(x)), of_u(modulus))
}

type Op = Box<dyn Fn(UBig, UBig) -> Vec<V> + Send + Sync>;

/// Operations on a long and a short number.
fn ops() -> Vec<(&'static str, Op)> {
    vec![
        ("clone", Box::new(|a, b| vec![U(a.clone()), U(b.clone()), U(a), U(b)])),
        ("clone_from short", Box::new(|mut a, b| { a.clone_from(&b); vec![U(a), U(b)] })),
        ("clone_from long", Box::new(|a, mut b| { b.clone_from(&a); vec![U(a), U(b)] })),
        ("clone_from, signed", Box::new(|a, b| { let (mut x, mut y) = (-IBig::from(&a), IBig::from(&b)); x.clone_from(&y); y.clone_from(&IBig::from(a)); vec![I(x), I(y)] })),
        ("clone_from one word", Box::new(|mut a, _| { a.clone_from(&UBig::from(7u8)); vec![U(a)] })),
        ("a & b", Box::new(|a, b| vec![U(&a & &b), U(a.clone() & &b), U(&b & a.clone()), U(a.clone() & b.clone()), U(b.clone() & a.clone()), { let mut x = a; x &= b; U(x) }])),
        ("a ^ (a ^ b)", Box::new(|a, b| { let c = &a ^ &b; vec![U(&a ^ &c), U(a.clone() ^ &c), U(&a ^ c.clone()), U(c.clone() ^ a.clone()), { let mut x = a; x ^= c; U(x) }] })),
        ("a and_not a", Box::new(|a, b| { let c = &a ^ &b; vec![U((&a).and_not(&c)), U(a.clone().and_not(&c)), U((&a).and_not(c.clone())), U(a.and_not(c))] })),
        ("a | b", Box::new(|a, b| vec![U(&a | &b), U(a.clone() | &b), U(&b | a.clone()), U(b | a)])),
        ("(a + b) - a", Box::new(|a, b| { let s = &a + &b; vec![U(&s - &a), U(s.clone() - &a), U(&s - a.clone()), U(s.clone() - a.clone()), { let mut x = s; x -= a; U(x) }] })),
        ("a - a", Box::new(|a, _| vec![U(&a - &a), U(a.clone() - &a), U(&a - a.clone()), I(IBig::from(a.clone()) - IBig::from(&a)), { let mut x = a.clone(); x -= &a; U(x) }])),
        ("signed cancellation", Box::new(|a, b| {
            let (s, m) = (IBig::from(&a + &b), -IBig::from(&a));
            vec![I(&s + &m), I(s.clone() + &m), I(&s + m.clone()), I(s.clone() + m.clone()), I(m.clone() + &s), { let mut x = m.clone(); x += s.clone(); I(x) }, I(&m - -s)]
        })),
        ("signed bits", Box::new(|a, b| {
            let (x, y) = (-IBig::from(&a), IBig::from(&b));
            vec![I(&x & &y), I(x.clone() & &y), I(&x & y.clone()), I(x.clone() & y.clone()), I(&x | &y), I(x.clone() | y.clone()), I(!x.clone()), I(!&x), I(&x ^ &x), I(x.clone() ^ !&x), I((&y).and_not(&x)), I(y.and_not(x))]
        })),
        ("a / b, a % b", Box::new(|a, b| {
            let (q, r) = (&a).div_rem(&b);
            let (q2, r2) = a.clone().div_rem(b.clone());
            vec![U(q), U(r), U(q2), U(r2), U(&a / &b), U(a.clone() / &b), U(&a / b.clone()), U(a.clone() % &b), U(&a % b.clone()), U(&a % &b), { let mut x = a.clone(); x %= &b; U(x) }, { let mut x = a; x /= b; U(x) }]
        })),
        ("a / a, b / a, b % a", Box::new(|a, b| {
            let (q, r) = b.clone().div_rem(&a);
            vec![U(a.clone() / &a), U(&a % a.clone()), U(&b / &a), U(b.clone() % a.clone()), U(&b % &a), U(q), U(r)]
        })),
        ("signed division", Box::new(|a, b| {
            let (x, y) = (-IBig::from(&a), IBig::from(&b));
            let (q, r) = (&x).div_rem_euclid(&y);
            vec![I(q), I(r), I(&x / &y), I(&x % &y), I(x.clone().rem_euclid(y.clone())), I(x / y)]
        })),
        ("division by a word", Box::new(|a, _| vec![U(&a / 3u8), U(a.clone() / 0xffffu16), U(UBig::from(&a % 7u8)), U(&a % UBig::from(9u8)), U(a % UBig::from(0xfff1u16))])),
        ("shift down", Box::new(|a, b| {
            let n = a.bit_len();
            let mut v = vec![];
            for k in [1, W, n / 2, n.saturating_sub(b.bit_len()), n.saturating_sub(2 * W + 1), n.saturating_sub(W), n] {
                v.push(U(&a >> k));
                v.push(U(a.clone() >> k));
                let mut x = a.clone();
                x >>= k;
                v.push(U(x));
                v.push(I(-IBig::from(&a) >> k));
                let mut x = IBig::from(&a);
                x >>= k;
                v.push(I(x));
            }
            v
        })),
        ("shift up", Box::new(|a, b| {
            let mut v = vec![];
            for k in [1, W - 1, W, 3 * W, a.bit_len()] {
                v.push(U(&b << k));
                v.push(U(b.clone() << k));
                let mut x = a.clone();
                x <<= k;
                v.push(U(x));
            }
            v
        })),
        ("clear_bit", Box::new(|a, b| {
            // Clear every bit of the long number above the short one, from the top.
            let mut x = &a ^ &(&b << 0);
            let mut v = vec![];
            for _ in 0..6 {
                if x.bit_len() > 0 {
                    let n = x.bit_len() - 1;
                    x.clear_bit(n);
                }
                v.push(U(UBig::from(x.bit_len())));
            }
            let mut y = UBig::from(5u8) + &b;
            y.set_bit(a.bit_len() + 10 * W);
            y.clear_bit(a.bit_len() + 10 * W);
            v.push(U(y));
            v.push(U(x));
            v
        })),
        ("set_bit", Box::new(|mut a, mut b| { let n = a.bit_len(); b.set_bit(n); a.set_bit(n + 1); a.set_bit(n + 40 * W); vec![U(a), U(b)] })),
        ("a * b", Box::new(|a, b| vec![U(&a * &b), U(a.clone() * b.clone()), U(&b * a.clone()), U(&a * &UBig::from(0u8)), U(a.clone() * 3u8), { let mut x = a.clone(); x *= &b; U(x) }, { let mut x = a; x *= 0u8; U(x) }])),
        ("a + b", Box::new(|a, b| vec![U(&a + &b), U(a.clone() + &b), U(&b + a.clone()), U(b.clone() + a.clone()), U(a.clone() + 1u8), { let mut x = b; x += a; U(x) }])),
        ("pow", Box::new(|a, b| vec![U(b.pow(3)), U(a.pow(2)), U(a.pow(0)), U(UBig::from(3u8).pow(a.bit_len())), U(UBig::from(2u8).pow(a.bit_len())), I((-IBig::from(b)).pow(5))])),
        ("gcd", Box::new(|a, b| {
            let (g, x, y) = a.extended_gcd(&b);
            let (g2, x2, y2) = b.extended_gcd(&a);
            vec![U(a.gcd(&b)), U(b.gcd(&a)), U(a.gcd(&a)), U(a.gcd(&(&a + 1u8))), U(g), I(x), I(y), U(g2), I(x2), I(y2)]
        })),
        ("next_power_of_two", Box::new(|a, b| vec![U((&a).next_power_of_two()), U(a.next_power_of_two()), U(b.next_power_of_two())])),
        ("text", Box::new(|a, b| {
            let mut v = vec![];
            for r in [2u32, 3, 10, 16, 36] {
                let s = b.in_radix(r).to_string();
                let z = format!("{}{}", "0".repeat(a.bit_len() / 4), s);
                v.push(U(UBig::from_str_radix(&s, r).unwrap()));
                v.push(U(UBig::from_str_radix(&z, r).unwrap()));
                v.push(I(IBig::from_str_radix(&format!("-{z}"), r).unwrap()));
                v.push(U(UBig::from_str_radix(&a.in_radix(r).to_string(), r).unwrap()));
            }
            v
        })),
        ("bytes", Box::new(|a, b| {
            let (mut l, mut g) = (b.to_le_bytes(), b.to_be_bytes());
            let z = a.bit_len() / 8;
            l.extend(vec![0; z]);
            g.splice(0..0, vec![0; z]);
            vec![U(UBig::from_le_bytes(&l)), U(UBig::from_be_bytes(&g)), U(UBig::from_le_bytes(&a.to_le_bytes())), U(UBig::from_be_bytes(&a.to_be_bytes()))]
        })),
        ("ring", Box::new(|a, b| {
            let r = ModuloRing::new(&a);
            let x = r.from(&b);
            let s = ModuloRing::new(&b);
            let y = s.from(&a);
            vec![U(x.residue()), U((&x * &x).residue()), U((&x - &x).residue()), U(y.residue()), U((&y + &y).residue()), U(r.modulus()), U(s.modulus()), U(x.inverse().map_or(UBig::from(0u8), |i| i.residue())), U(y.pow(&b).residue())]
        })),
        ("residues", Box::new(|a, b| {
            // Residues of the short and of the long ring, made small, and assigned over one another.
            let (r, s) = (ModuloRing::new(&a), ModuloRing::new(&b));
            let mut v = vec![];
            let (x, y) = (r.from(&b), s.from(&a));
            for (n, z) in [r.from(-1), r.from(&a + 1u8), &x * &x, &x - &x, -&x, x.pow(&b), &x + &x, x.clone() * x.clone(), x.clone() - x.clone()].into_iter().enumerate() {
                let mut w = y.clone();
                w.clone_from(&z);
                v.push(held(w, &a));
                let mut w = z.clone();
                w.clone_from(&y);
                v.push(held(w, &b));
                let mut w = z.clone();
                w.clone_from(&x);
                v.push(held(w, &a));
                if n % 2 == 0 {
                    v.push(held(z.clone(), &a));
                }
                v.push(held(z, &a));
            }
            if let Some(i) = x.inverse() {
                v.push(held(i, &a));
            }
            let mut w = x.clone();
            w += &x;
            w *= &x;
            w -= x.clone();
            v.push(held(w, &a));
            let mut w = y.clone();
            w.clone_from(&x);
            w.clone_from(&y);
            v.push(held(w, &b));
            drop((x, y));
            v.push(held(r, &a));
            v.push(held(s, &b));
            v.push(held(ModuloRing::new(&(&a >> (a.bit_len() - 1))), &UBig::from(1u8)));
            v
        })),
        ("conversions", Box::new(|a, b| {
            let i = IBig::from(a.clone());
            vec![U(UBig::try_from(i.clone()).unwrap()), U(UBig::try_from(&i).unwrap()), U((-i.clone()).unsigned_abs()), I((-&i).abs()), I(-i), U(UBig::from(u128::MAX)), I(IBig::from(i128::MIN)), I(IBig::from(b)), U(UBig::default()), I(IBig::default()), U(UBig::from(u64::MAX)), U(UBig::from(true))]
        })),
    ]
}

fn check(c: &mut Chk, what: &str, v: V) {
    let (n, held) = match v {
        U(u) => (of_u(&u), alloc::freed_by(|| drop(u))),
        I(i) => (of_i(&i).mag, alloc::freed_by(|| drop(i))),
        H(h, n) => (n, h),
    };
    c.ok(held <= storage_bound(&n), || {
        format!("{what}: a number of {} words held {held} bytes, bound {}", wlen(&n), storage_bound(&n))
    });
    c.note(&held.to_le_bytes());
    c.note(&(wlen(&n) as u32).to_le_bytes());
}

fn mk(n: usize, k: usize) -> Nat {
    match k {
        _ if n == 0 => Nat::zero(),
        0 => words(&vec![MAXW; n]),
        1 => generic(41, n),
        _ => Nat::pow2(n * W - 1),
    }
}

fn main() {
    mc::main("C26", |tier| {
        let mut v = vec![];
        for (name, _) in ops() {
            let heavy = matches!(name, "gcd" | "ring" | "residues" | "text" | "pow");
            let top = if heavy { tier.pick(40, 120) } else { tier.pick(90usize, 400) };
            v.push(block(format!("op {name}"), move |ctx| {
                let f = ops().into_iter().find(|x| x.0 == name).unwrap().1;
                for la in 1..=top {
                    // Short lengths, and every length near the long one.
                    let mut lbs: Vec<usize> = (1..=la.min(5)).chain(la.saturating_sub(3).max(1)..=la).chain([la / 2, la * 3 / 4, la * 4 / 5, la * 8 / 9]).filter(|x| *x > 0).collect();
                    lbs.sort();
                    lbs.dedup();
                    for lb in lbs {
                        for k in 0..3 {
                            for s in 0..3 {
                                let (na, nb) = (mk(la, k), mk(lb, (k + s) % 3));
                                ctx.state(
                                    || format!("{name}: {la} and {lb} words, contents {k}, storage {s}: a={} b={}", na.hex(), nb.hex()),
                                    |c| {
                                        alloc::start(0x5A);
                                        let r = f(mk_variant(&na, s), mk_variant(&nb, s));
                                        for (j, x) in r.into_iter().enumerate() {
                                            check(c, &format!("{name} #{j}"), x);
                                        }
                                        alloc::stop();
                                    },
                                );
                            }
                        }
                    }
                }
            }));
        }
        // Huge numbers made small in one step.
        v.push(block("huge to small", move |ctx| {
            for la in [1000usize, 1500, if W == 16 { 1900 } else { 3000 }] {
                for (name, f) in ops() {
                    if matches!(name, "gcd" | "ring" | "residues" | "text" | "pow") {
                        continue;
                    }
                    for lb in [1usize, 2, 3, 10] {
                        let (na, nb) = (mk(la, 1), mk(lb, 0));
                        ctx.state(|| format!("{name}: {la} and {lb} words"), |c| {
                            alloc::start(0x5A);
                            let r = f(to_u(&na), to_u(&nb));
                            for (j, x) in r.into_iter().enumerate() {
                                check(c, &format!("{name} #{j}"), x);
                            }
                            alloc::stop();
                        });
                    }
                }
            }
        }));
        // Histories.
        let ones = |n: usize| words(&vec![MAXW; n]);
        let mut all = bin_ops(2, &UB, false);
        all.extend(unary_ops(2, true));
        let mode = Mode { depth: tier.pick(2, 3), max_bits: 60 * W, cap: tier.pick(300, 4000), storage: true, poisons: &[0xA5] };
        let starts = [(ones(1), 0), (Nat::pow2(W), 2), (ones(9), 1), (generic(3, 6), 2), (Nat::pow2(19 * W + 1), 2), (ones(40), 0)];
        for (ka, a) in starts.iter().enumerate() {
            for (kb, b) in starts.iter().enumerate() {
                let (init, ops) = ((vec![a.clone(), b.clone()], vec![]), all.clone());
                v.push(block(format!("history-{ka}-{kb}"), move |ctx| explore(ctx, &init, &ops, mode)));
            }
        }
        let mut iops = bin_ops(2, &[B::Add, B::Sub, B::And, B::Or, B::Xor, B::AndNot, B::Rem], true);
        iops.extend(signed_unary_ops(1, 2, true));
        iops.extend([mc::hist::Op::ClearTop(0), mc::hist::Op::Drop(0), mc::hist::Op::Const(0, 4), mc::hist::Op::Const(0, 6)]);
        for (k, a) in [(ones(9), 1usize), (Nat::pow2(19 * W + 1), 2), (ones(40), 0)].into_iter().enumerate() {
            let init = (vec![(generic(5, 3), 2)], vec![(Int::new(true, a.0), a.1), (Int::new(false, generic(7, 38)), 2)]);
            let ops = iops.clone();
            v.push(block(format!("signed-history-{k}"), move |ctx| explore(ctx, &init, &ops, mode)));
        }
        // Long histories of growing and shrinking.
        let grow = vec![
            hist::Op::Shl(F::AsgRef, 0, 0, 7 * W), hist::Op::Shr(F::AsgRef, 0, 0, 2 * W + 1), hist::Op::Set(0, 5 * W + 3),
            hist::Op::Set(0, 12 * W), hist::Op::ClearTop(0), hist::Op::CloneFrom(1, 0), hist::Op::CloneFrom(0, 1),
            hist::Op::U(B::Sub, F::AsgRef, 0, 0, 1), hist::Op::U(B::Add, F::AsgRef, 1, 1, 0), hist::Op::U(B::Xor, F::ValVal, 0, 0, 1),
            hist::Op::Prim(B::Sub, 0, 1), hist::Op::Prim(B::Mul, 1, 0x8001), hist::Op::Swap(0, 1), hist::Op::U(B::Mul, F::RefRef, 0, 0, 1),
            hist::Op::Prim(B::Rem, 1, 7), hist::Op::U(B::And, F::AsgVal, 0, 0, 1),
        ];
        for (k, a) in starts.iter().enumerate() {
            let init = (vec![a.clone(), (ones(2), 0)], vec![]);
            let ops = grow.clone();
            let mode = Mode { depth: tier.pick(5, 7), cap: tier.pick(4000, 60000), ..mode };
            v.push(block(format!("long-{k}"), move |ctx| explore(ctx, &init, &ops, mode)));
        }
        v
    });
}
