//! C11: conversions between integer types.
use ibig::{IBig, UBig};
use mc::*;

macro_rules! each_uns {
    ($m:ident, $($x:tt)*) => { $m!(u8, $($x)*); $m!(u16, $($x)*); $m!(u32, $($x)*); $m!(u64, $($x)*); $m!(u128, $($x)*); $m!(usize, $($x)*); };
}
macro_rules! each_sig {
    ($m:ident, $($x:tt)*) => { $m!(i8, $($x)*); $m!(i16, $($x)*); $m!(i32, $($x)*); $m!(i64, $($x)*); $m!(i128, $($x)*); $m!(isize, $($x)*); };
}

/// The value of a model number in $t, if representable (via the shortest little-endian bytes).
macro_rules! in_t {
    ($t:ty, $n:expr) => {{
        let n: &Int = $n;
        // Representable iff min <= n <= max, computed in the model.
        let lo = if <$t>::MIN == 0 { Int::from_i(0) } else { Int::new(true, Nat::pow2(<$t>::BITS as usize - 1)) };
        let hi = if <$t>::MIN == 0 {
            Int::pos(Nat::pow2(<$t>::BITS as usize).sub(&Nat::from_u(1)).unwrap())
        } else {
            Int::pos(Nat::pow2(<$t>::BITS as usize - 1).sub(&Nat::from_u(1)).unwrap())
        };
        if n.cmp(&lo).is_lt() || n.cmp(&hi).is_gt() {
            None
        } else {
            let mut b = n.mag.le();
            b.resize((<$t>::BITS / 8) as usize, 0);
            let v = <$t>::from_le_bytes(b.try_into().unwrap());
            Some(if n.neg { (0 as $t).wrapping_sub(v) } else { v })
        }
    }};
}

macro_rules! to_prim_u {
    ($t:ty, $c:expr, $n:expr, $us:expr) => {{
        let want = in_t!($t, &Int::pos($n.clone()));
        for x in $us {
            $c.eq(concat!("<", stringify!($t), ">::try_from(&UBig)"), <$t>::try_from(x).ok(), want);
            $c.eq(concat!("<", stringify!($t), ">::try_from(UBig)"), <$t>::try_from(x.clone()).ok(), want);
        }
    }};
}
macro_rules! to_prim_i {
    ($t:ty, $c:expr, $n:expr, $x:expr) => {{
        let want = in_t!($t, $n);
        $c.eq(concat!("<", stringify!($t), ">::try_from(&IBig)"), <$t>::try_from($x).ok(), want);
        $c.eq(concat!("<", stringify!($t), ">::try_from(IBig)"), <$t>::try_from($x.clone()).ok(), want);
    }};
}

fn from_big(c: &mut Chk, n: &Nat) {
    let us = variants(n);
    c.note(&n.le());
    each_uns!(to_prim_u, c, n, &us);
    each_sig!(to_prim_u, c, n, &us);
    for neg in [false, true] {
        if neg && n.is_zero() {
            continue;
        }
        let i = Int::new(neg, n.clone());
        let x = &to_i(&i);
        each_uns!(to_prim_i, c, &i, x);
        each_sig!(to_prim_i, c, &i, x);
        c.ok(UBig::try_from(x).is_ok() == !neg, || "UBig::try_from(&IBig)".into());
        c.ok(UBig::try_from(x.clone()).is_ok() == !neg, || "UBig::try_from(IBig)".into());
        if !neg {
            c.u("UBig::try_from(&IBig)", &UBig::try_from(x).unwrap(), n);
            c.u("UBig::try_from(IBig)", &UBig::try_from(x.clone()).unwrap(), n);
        }
        c.i("source unchanged", x, &i);
    }
    for u in us {
        c.i("IBig::from(&UBig)", &IBig::from(&u), &Int::pos(n.clone()));
        c.i("IBig::from(UBig)", &IBig::from(u), &Int::pos(n.clone()));
    }
}

macro_rules! prim_u {
    ($t:ty, $ctx:expr, $vals:expr) => {
        for &x in $vals.iter() {
            let x: $t = x as $t;
            $ctx.state(|| format!("{}{}", x, stringify!($t)), |c| {
                let n = Nat::from_u(x as u128);
                let u = UBig::from(x);
                c.u("UBig::from", &u, &n);
                c.ok(u == to_u(&n), || "not equal to the same number".into());
                c.i("IBig::from", &IBig::from(x), &Int::pos(n.clone()));
                c.ok(<$t>::try_from(&u) == Ok(x), || "round trip".into());
                c.ok(<$t>::try_from(IBig::from(x)) == Ok(x), || "signed round trip".into());
            });
        }
    };
}
macro_rules! prim_i {
    ($t:ty, $ctx:expr, $vals:expr) => {
        for &x in $vals.iter() {
            for x in [x as $t, (x as $t).wrapping_neg(), !(x as $t)] {
                $ctx.state(|| format!("{}{}", x, stringify!($t)), |c| {
                    let n = Int::from_i(x as i128);
                    let i = IBig::from(x);
                    c.i("IBig::from", &i, &n);
                    c.ok(<$t>::try_from(&i) == Ok(x), || "round trip".into());
                    let u = UBig::try_from(x);
                    c.ok(u.is_ok() == (x >= 0), || "UBig::try_from accepts exactly the non-negative values".into());
                    if let Ok(u) = u {
                        c.u("UBig::try_from", &u, &n.mag);
                        c.ok(<$t>::try_from(&u) == Ok(x), || "unsigned round trip".into());
                    }
                });
            }
        }
    };
}

fn prims() -> Vec<u128> {
    // All sums and differences of pairs of powers of two, plus small values.
    let mut v: Vec<u128> = (0..300).collect();
    for i in 0..128u32 {
        let p = 1u128 << i;
        for d in 0..4 {
            v.extend([p.wrapping_add(d), p.wrapping_sub(d), p.wrapping_neg().wrapping_add(d), p.wrapping_neg().wrapping_sub(d)]);
        }
        for j in 0..i {
            v.extend([p + (1 << j), p - (1 << j), !(p + (1 << j)), !(p - (1 << j))]);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    mc::main("C11", |tier| {
        let mut v = vec![];
        v.push(block("bool", |ctx| {
            for b in [false, true] {
                ctx.state(|| format!("{b}"), |c| {
                    c.u("UBig::from(bool)", &UBig::from(b), &Nat::from_u(b as u128));
                    c.i("IBig::from(bool)", &IBig::from(b), &Int::from_i(b as i128));
                });
            }
        }));
        // Every 8- and 16-bit value; structured wider values.
        v.push(block("all-16", |ctx| {
            let a8: Vec<u128> = (0..256).collect();
            let a16: Vec<u128> = (0..65536).collect();
            prim_u!(u8, ctx, a8);
            prim_i!(i8, ctx, a8);
            prim_u!(u16, ctx, a16);
            prim_i!(i16, ctx, a16);
        }));
        macro_rules! wide {
            ($t:ty, $m:ident) => {
                v.push(block(concat!("prim-", stringify!($t)), |ctx| {
                    let p = prims();
                    $m!($t, ctx, p);
                }));
            };
        }
        wide!(u32, prim_u);
        wide!(u64, prim_u);
        wide!(u128, prim_u);
        wide!(usize, prim_u);
        wide!(i32, prim_i);
        wide!(i64, prim_i);
        wide!(i128, prim_i);
        wide!(isize, prim_i);
        // Big to primitive: everything near every power of two up to 140 bits, and structured values.
        let mut vals: Vec<Nat> = prims().into_iter().map(Nat::from_u).collect();
        for i in 100..=tier.pick(300usize, 600) {
            let p = Nat::pow2(i);
            for d in 0..4u128 {
                vals.push(p.add(&Nat::from_u(d)));
                vals.push(p.sub(&Nat::from_u(d)).unwrap());
            }
            for j in (0..i).step_by(3) {
                vals.push(p.add(&Nat::pow2(j)));
                vals.push(p.sub(&Nat::pow2(j)).unwrap());
            }
        }
        vals.extend(upto_words(&wa7(), tier.pick(5, 6)));
        vals.extend(all_words(&wa3(), 5));
        vals.extend(all_words(&wa3(), 8));
        vals.extend(all_words(&[0, 1], 9));
        for l in 1..40 {
            vals.extend(pats(l));
        }
        dedup(&mut vals);
        for (k, ch) in vals.chunks(1500).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("big-{k}"), move |ctx| {
                for n in &ch {
                    ctx.state(|| n.hex(), |c| from_big(c, n));
                }
            }));
        }
        if W == 16 {
            for k in 0..16u64 {
                v.push(block(format!("words-{k}"), move |ctx| {
                    for x in (k * 4096)..((k + 1) * 4096) {
                        ctx.state(|| format!("{x}"), |c| from_big(c, &Nat::from_u(x as u128)));
                    }
                }));
            }
        }
        v
    });
}
