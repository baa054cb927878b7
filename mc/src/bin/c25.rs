//! C25: the size limit is enforced exactly.
//!
//! With 16-bit words the limit is 65536 bits, so every operation is driven across it. On the other
//! configurations only requests past the limit that need no storage are made, and (32-bit words) one
//! history at the limit itself.
#![allow(arithmetic_overflow)]
use ibig::{ops::*, IBig, ModuloRing, UBig};
use mc::*;

const LIM: usize = UBig::MAX_BIT_LEN;

/// Evaluates f, which has the mathematical result `want`.
fn lu(c: &mut Chk, op: &str, want: &Nat, f: impl FnOnce() -> UBig) {
    if want.bit_len() <= LIM {
        match call(f) {
            Ok(g) => {
                c.u(op, &g, want);
            }
            Err(m) => {
                c.ok(false, || format!("{op}: result of {} bits fits, but panicked: {m}", want.bit_len()));
            }
        }
    } else {
        c.note(b"too large");
        c.panics_with(op, "number too large", f);
    }
}

fn li(c: &mut Chk, op: &str, want: &Int, f: impl FnOnce() -> IBig) {
    if want.mag.bit_len() <= LIM {
        match call(f) {
            Ok(g) => {
                c.i(op, &g, want);
            }
            Err(m) => {
                c.ok(false, || format!("{op}: result of {} bits fits, but panicked: {m}", want.mag.bit_len()));
            }
        }
    } else {
        c.note(b"too large");
        c.panics_with(op, "number too large", f);
    }
}

macro_rules! limforms {
    ($c:expr, $f:ident, $a:expr, $b:expr, $op:tt, $opa:tt, $want:expr) => {{
        let (a, b, w) = ($a, $b, $want);
        $f($c, concat!("&a", stringify!($op), "&b"), w, || a $op b);
        $f($c, concat!("a", stringify!($op), "&b"), w, || a.clone() $op b);
        $f($c, concat!("&a", stringify!($op), "b"), w, || a $op b.clone());
        $f($c, concat!("a", stringify!($op), "b"), w, || a.clone() $op b.clone());
        $f($c, concat!("a", stringify!($opa), "&b"), w, || { let mut x = a.clone(); x $opa b; x });
        $f($c, concat!("a", stringify!($opa), "b"), w, || { let mut x = a.clone(); x $opa b.clone(); x });
    }};
}

fn one() -> Nat {
    Nat::from_u(1)
}
fn max() -> Nat {
    Nat::pow2(LIM).sub(&one()).unwrap()
}

/// Numbers of exactly `bits` bits.
fn with_bits(bits: usize) -> Vec<Nat> {
    if bits == 0 {
        return vec![Nat::zero()];
    }
    let top = Nat::pow2(bits - 1);
    let mut v = vec![top.clone(), Nat::pow2(bits).sub(&one()).unwrap()];
    let g = generic(bits as u64, bits.div_ceil(W) + 1);
    v.push(top.add(&g.shr(g.bit_len() - (bits - 1).min(g.bit_len()))));
    v.push(top.add(&one()));
    v.retain(|n| n.bit_len() == bits);
    dedup(&mut v);
    v
}

fn mul_pair(c: &mut Chk, a: &Nat, b: &Nat, all: bool) {
    let w = a.mul(b);
    let (x, y) = (to_u(a), to_u(b));
    lu(c, "&a*&b", &w, || &x * &y);
    lu(c, "&b*&a", &w, || &y * &x);
    let n = -IBig::from(x.clone());
    let wn = Int::new(!w.is_zero(), w.clone());
    li(c, "-a*b", &wn, || &n * &IBig::from(y.clone()));
    if all {
        limforms!(c, lu, &x, &y, *, *=, &w);
        let m = -IBig::from(y.clone());
        limforms!(c, li, &n, &m, *, *=, &Int::pos(w.clone()));
    }
}

fn sizes() -> Vec<usize> {
    vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 64, 65, 127, 128, 129, 384, 400, 1000, 3000, 3072, 3088, 8192, 16384, 21845, 30000, 32767, 32768, 32769]
}

fn blocks16(tier: Tier, v: &mut Vec<Block>) {
    // Products: every pair of sizes whose sum is near the limit.
    let mut s = sizes();
    if tier.thorough() {
        s.extend((1..1024).map(|i| i * 32));
    } else {
        s.extend((1..48).map(|i| i * 683));
    }
    s.sort();
    s.dedup();
    for &ab in &s {
        v.push(block(format!("mul-{ab}"), move |ctx| {
            for total in [LIM - W, LIM - 1, LIM, LIM + 1, LIM + 2, LIM + W, LIM + W + 1, LIM + 2 * W, LIM + 4 * W, LIM + 5 * W + 1, LIM + 6 * W] {
                if total < ab || total - ab > LIM {
                    continue;
                }
                let few = ab > 4000 && tier == Tier::Quick;
                for a in with_bits(ab) {
                    for (k, b) in with_bits(total - ab).into_iter().enumerate() {
                        if few && k > 1 {
                            continue;
                        }
                        ctx.state(|| format!("a: {ab} bits {} b: {} bits {}", a.hex(), total - ab, b.hex()), |c| mul_pair(c, &a, &b, ab < 1000));
                    }
                }
            }
            // The exact threshold: b = floor(max / a) fits, b + 1 does not.
            for a in with_bits(ab) {
                if a.is_zero() || (ab > 3000 && tier == Tier::Quick && ab % 16384 > 1) {
                    continue;
                }
                let q = if a.bit_len() <= 32 { max().divrem_small(a.to_u128().unwrap() as u32).0 } else { max().divrem(&a).0 };
                for b in [q.clone(), q.add(&one())] {
                    if b.bit_len() > LIM {
                        continue;
                    }
                    ctx.state(|| format!("threshold a: {ab} bits {} b={}", a.hex(), b.hex()), |c| mul_pair(c, &a, &b, true));
                }
            }
        }));
    }
    // Additions and subtractions.
    let mut s2 = s.clone();
    s2.extend([LIM - 17, LIM - 16, LIM - 15, LIM - 2, LIM - 1, LIM]);
    for ch in s2.chunks(8) {
        let ch = ch.to_vec();
        v.push(block(format!("add-{}", ch[0]), move |ctx| {
            for &ab in &ch {
                for a in with_bits(ab) {
                    let m = max();
                    let mut bs = vec![m.clone()];
                    let r = m.sub(&a).unwrap();
                    bs.push(r.add(&one()));
                    if let Some(z) = r.sub(&one()) {
                        bs.push(z);
                    }
                    bs.push(r);
                    bs.push(Nat::pow2(LIM - 1));
                    bs.retain(|b| b.bit_len() <= LIM);
                    for b in bs {
                        ctx.state(|| format!("a: {ab} bits {} b={}", a.hex(), b.hex()), |c| {
                            let w = a.add(&b);
                            let (x, y) = (to_u(&a), to_u(&b));
                            limforms!(c, lu, &x, &y, +, +=, &w);
                            limforms!(c, lu, &y, &x, +, +=, &w);
                            let (ip, iq) = (IBig::from(x.clone()), -IBig::from(y.clone()));
                            let wi = Int::pos(a.clone()).sub(&Int::new(true, b.clone()));
                            limforms!(c, li, &ip, &iq, -, -=, &wi);
                            limforms!(c, li, &iq, &ip, -, -=, &wi.neg());
                            let wi = Int::pos(a.clone()).add(&Int::new(true, b.clone()));
                            limforms!(c, li, &ip, &iq, +, +=, &wi);
                            limforms!(c, li, &iq, &ip, +, +=, &wi);
                        });
                    }
                }
            }
        }));
    }
    // Primitive operands at the limit.
    v.push(block("primitive", move |ctx| {
        for d in 0..40u32 {
            for p in [1u128, 2, 3, 255, 256, 65535, 65536, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX] {
                ctx.state(|| format!("max-{d} with {p}"), |c| {
                    let a = max().sub(&Nat::from_u(d as u128)).unwrap();
                    let x = to_u(&a);
                    let i = -IBig::from(x.clone());
                    let w = a.add(&Nat::from_u(p));
                    lu(c, "&a+p", &w, || &x + p);
                    lu(c, "a+p", &w, || x.clone() + p);
                    lu(c, "p+a", &w, || p + x.clone());
                    lu(c, "a+=p", &w, || { let mut y = x.clone(); y += p; y });
                    li(c, "&-a-p", &Int::new(true, w.clone()), || &i - p);
                    li(c, "-a-=p", &Int::new(true, w.clone()), || { let mut y = i.clone(); y -= p; y });
                    let w = a.mul(&Nat::from_u(p));
                    lu(c, "&a*p", &w, || &x * p);
                    lu(c, "a*p", &w, || x.clone() * p);
                    lu(c, "a*=p", &w, || { let mut y = x.clone(); y *= p; y });
                    li(c, "-a*p", &Int::new(true, w.clone()), || i.clone() * p);
                    if let Ok(q) = i128::try_from(p) {
                        let w = a.add(&Nat::from_u(p));
                        lu(c, "&a-(-q)", &w, || &x - (-q));
                        li(c, "&-a+(-q)", &Int::new(true, w), || &i + (-q));
                    }
                    // Products that just fit.
                    let h = a.shr(Nat::from_u(p).bit_len());
                    let w = h.mul(&Nat::from_u(p));
                    lu(c, "h*p", &w, || to_u(&h) * p);
                });
            }
        }
    }));
    // Shifts, bits, powers of two.
    for chunk in 0..8usize {
        v.push(block(format!("shift-{chunk}"), move |ctx| {
            let mut bl: Vec<usize> = (1..=80).chain([127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 40000, LIM - 33, LIM - 32, LIM - 17, LIM - 16, LIM - 1, LIM]).collect();
            if tier.thorough() {
                bl.extend((1..500).map(|i| i * 131));
            }
            for (n, &ab) in bl.iter().enumerate() {
                if n % 8 != chunk {
                    continue;
                }
                for a in with_bits(ab) {
                    for sh in (LIM - ab).saturating_sub(2)..=(LIM - ab) + 2 * W + 2 {
                        ctx.state(|| format!("a={} << {sh}", a.hex()), |c| {
                            let x = to_u(&a);
                            let w = a.shl(sh);
                            lu(c, "&a<<", &w, || &x << sh);
                            lu(c, "a<<", &w, || x.clone() << sh);
                            lu(c, "a<<=", &w, || { let mut y = x.clone(); y <<= sh; y });
                            let i = -IBig::from(x.clone());
                            let wi = Int::new(true, w.clone());
                            li(c, "&-a<<", &wi, || &i << sh);
                            li(c, "-a<<", &wi, || i.clone() << sh);
                        });
                    }
                    let x = to_u(&a);
                    for sh in [LIM, LIM + 1, LIM.wrapping_mul(2) | LIM, usize::MAX - 64, usize::MAX / 2, usize::MAX] {
                        ctx.state(|| format!("a={} << {sh}", a.hex()), |c| {
                            c.panics_with("&a<<", "number too large", || &x << sh);
                            c.panics_with("a<<", "number too large", || x.clone() << sh);
                        });
                    }
                    for n in (LIM - 34)..(LIM + 100) {
                        ctx.state(|| format!("a={} bit {n}", a.hex()), |c| {
                            // Beyond the limit only the panic matters.
                            let w = if n < LIM { a.with_bit(n, true) } else { Nat::pow2(LIM) };
                            lu(c, "set_bit", &w, || { let mut y = x.clone(); y.set_bit(n); y });
                            let w = if n < LIM { a.with_bit(n, false) } else { a.clone() };
                            lu(c, "clear_bit", &w, || { let mut y = x.clone(); y.clear_bit(n); y });
                            c.eq("bit", x.bit(n), a.bit(n));
                        });
                    }
                    ctx.state(|| format!("a={} next_power_of_two", a.hex()), |c| {
                        let b = a.sub(&one()).unwrap().bit_len();
                        lu(c, "next_power_of_two", &Nat::pow2(b), || x.clone().next_power_of_two());
                        lu(c, "&next_power_of_two", &Nat::pow2(b), || (&x).next_power_of_two());
                    });
                }
            }
        }));
    }
    // Bitwise operations whose negative results sit at the limit.
    v.push(block("bitwise", move |ctx| {
        let mut vals: Vec<Nat> = vec![max(), max().sub(&one()).unwrap(), Nat::pow2(LIM - 1), Nat::pow2(LIM - 1).sub(&one()).unwrap(), Nat::pow2(LIM - 1).add(&one()), Nat::pow2(LIM - W), Nat::pow2(LIM - W).sub(&one()).unwrap(), generic(4, LIM / W), one(), Nat::zero(), Nat::pow2(W), Nat::pow2(2 * W).sub(&one()).unwrap()];
        // Complementary halves.
        vals.push(max().sub(&Nat::pow2(LIM / 2)).unwrap().add(&one()));
        vals.push(Nat::pow2(LIM).sub(&Nat::pow2(LIM / 2)).unwrap());
        vals.push(Nat::pow2(LIM / 2));
        let s = signed(&vals);
        for a in &s {
            ctx.state(|| format!("!{}", a.hex()), |c| {
                let x = to_i(a);
                li(c, "!&a", &a.not(), || !&x);
                li(c, "!a", &a.not(), || !x.clone());
            });
            for b in &s {
                ctx.state(|| d2i(a, b), |c| {
                    let (x, y) = (to_i(a), to_i(b));
                    limforms!(c, li, &x, &y, &, &=, &a.bitop(b, |p, q| p & q));
                    limforms!(c, li, &x, &y, |, |=, &a.bitop(b, |p, q| p | q));
                    limforms!(c, li, &x, &y, ^, ^=, &a.bitop(b, |p, q| p ^ q));
                    let w = a.bitop(b, |p, q| p & !q);
                    li(c, "and_not", &w, || (&x).and_not(&y));
                    li(c, "and_not", &w, || x.clone().and_not(y.clone()));
                    li(c, "a>>3", &a.shr(3), || &x >> 3);
                });
            }
        }
    }));
    // Powers: the largest exponent that fits and the ones after it.
    let mut bases: Vec<Nat> = (2..=tier.pick(40u128, 300)).map(Nat::from_u).collect();
    bases.extend([100u128, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 31, (1 << 32) - 1, u64::MAX as u128, 1 << 64, u128::MAX].map(Nat::from_u));
    bases.extend([generic(1, 5), generic(2, 100), generic(3, 1000), Nat::pow2(LIM / 2 - 1), Nat::pow2(LIM / 2), Nat::pow2(LIM / 2).sub(&one()).unwrap(), Nat::pow2(LIM / 2).add(&one()), Nat::pow2(LIM / 3), Nat::pow2(21845).add(&one()), Nat::pow2(LIM / 4).sub(&one()).unwrap(), max(), Nat::pow2(LIM - 1)]);
    for (k, ch) in bases.chunks(8).enumerate() {
        let ch = ch.to_vec();
        v.push(block(format!("pow-{k}"), move |ctx| {
            for b in &ch {
                // Estimate from the bit length of a moderate power, then settle by multiplication.
                let p = b.pow(16).bit_len();
                let lo = ((LIM - 64) / p * 16 + (LIM - 64) % p * 16 / p).saturating_sub(3).max(1);
                let mut w = if lo > 64 {
                    // binary powering on the model
                    let mut r = one();
                    for i in (0..usize::BITS - lo.leading_zeros()).rev() {
                        r = r.mul(&r);
                        if lo >> i & 1 == 1 {
                            r = r.mul(b);
                        }
                    }
                    r
                } else {
                    b.pow(lo)
                };
                let mut over = 0;
                for e in lo..lo + 400 {
                    if w.bit_len() > LIM || w.bit_len() > LIM - 3 * b.bit_len().min(20) {
                        ctx.state(|| format!("{}^{e}", b.hex()), |c| {
                            let x = to_u(b);
                            lu(c, "pow", &w, || x.pow(e));
                            let i = -IBig::from(x.clone());
                            li(c, "-pow", &Int::new(e % 2 == 1, w.clone()), || i.pow(e));
                        });
                        if w.bit_len() > LIM {
                            over += 1;
                        }
                        if over >= 3 {
                            break;
                        }
                    }
                    w = w.mul(b);
                }
                for e in [LIM, LIM + 1, 1 << 20, usize::MAX / 2 + 1, usize::MAX] {
                    ctx.state(|| format!("{}^{e}", b.hex()), |c| c.panics_with("pow", "number too large", || to_u(b).pow(e)));
                }
            }
        }));
    }
    // Text and bytes.
    for radix in 2..=36u32 {
        v.push(block(format!("text-{radix}"), move |ctx| {
            let m = max();
            // radix^(digits of max - 1): the smallest number with as many digits.
            let md = m.digits(radix);
            let mut vals = vec![m.clone(), m.add(&one()), Nat::pow2(LIM - 1), Nat::pow2(LIM - 1).sub(&one()).unwrap()];
            if tier.thorough() {
                vals.push(generic(radix as u64, LIM / W));
            }
            for n in vals {
                let t = n.digits(radix);
                ctx.state(|| format!("radix {radix}, {} bits, {}", n.bit_len(), n.hex()), |c| {
                    let p = |s: &str| UBig::from_str_radix(s, radix).unwrap();
                    lu(c, "parse", &n, || p(&t));
                    lu(c, "parse upper", &n, || p(&t.to_uppercase()));
                    let z = format!("+{}{t}", "0".repeat(70));
                    lu(c, "parse zeros", &n, || p(&z));
                    let s = format!("-{t}");
                    li(c, "parse -", &Int::new(true, n.clone()), || IBig::from_str_radix(&s, radix).unwrap());
                    if n.bit_len() <= LIM {
                        let x = to_u(&n);
                        let i = -IBig::from(x.clone());
                        match call(|| (x.in_radix(radix).to_string(), i.in_radix(radix).to_string())) {
                            Ok((a, b)) => {
                                c.ok(a == t, || format!("print radix {radix}: wrong text of {} characters", a.len()));
                                c.ok(b == s, || format!("print radix {radix}: wrong negative text"));
                            }
                            Err(e) => {
                                c.ok(false, || format!("print radix {radix} panicked: {e}"));
                            }
                        }
                        if radix == 10 {
                            c.ok(call(|| format!("{x}")) == Ok(t.clone()), || "Display".into());
                            c.ok(call(|| format!("{i:?}")) == Ok(s.clone()), || "Debug".into());
                        }
                        if radix == 16 {
                            c.ok(call(|| format!("{x:#x}")) == Ok(format!("0x{t}")), || "LowerHex".into());
                            lu(c, "prefix", &n, || UBig::from_str_with_radix_prefix(&format!("0x{t}")).unwrap());
                        }
                        if radix == 8 {
                            c.ok(call(|| format!("{x:#o}")) == Ok(format!("0o{t}")), || "Octal".into());
                            lu(c, "prefix", &n, || UBig::from_str_with_radix_prefix(&format!("0o{t}")).unwrap());
                        }
                        if radix == 2 {
                            c.ok(call(|| format!("{x:#b}")) == Ok(format!("0b{t}")), || "Binary".into());
                            lu(c, "prefix", &n, || UBig::from_str_with_radix_prefix(&format!("0b{t}")).unwrap());
                        }
                    }
                });
            }
            // Digit strings around the largest: 1000..., zzz..., one digit more.
            let top = char::from_digit(radix - 1, radix).unwrap();
            for len in md.len() - 1..=md.len() + 1 {
                for first in ['1', top] {
                    for rest in ['0', top] {
                        let mut t = String::new();
                        t.push(first);
                        t.extend(std::iter::repeat(rest).take(len - 1));
                        // Larger than the limit by digit count, or compared as text of equal length.
                        let fits = len < md.len() || (len == md.len() && t <= md);
                        ctx.state(|| format!("radix {radix}: {first} then {} x {rest}", len - 1), |c| {
                            let r = call(|| UBig::from_str_radix(&t, radix).unwrap());
                            match (r, fits) {
                                (Ok(x), true) => {
                                    c.ok(x.in_radix(radix).to_string() == t, || "prints differently".into());
                                }
                                (Err(m), false) => {
                                    c.ok(m.contains("number too large"), || format!("panicked with {m}"));
                                }
                                (Ok(x), false) => {
                                    c.ok(false, || format!("too large a number parsed, giving {} bits", x.bit_len()));
                                }
                                (Err(m), true) => {
                                    c.ok(false, || format!("fits but panicked: {m}"));
                                }
                            }
                        });
                    }
                }
            }
        }));
    }
    v.push(block("bytes", |ctx| {
        for len in LIM / 8 - 20..LIM / 8 + 40 {
            for first in [1u8, 0x7f, 0x80, 0xff] {
                for rest in [0u8, 0xff, 0x5a] {
                    ctx.state(|| format!("{len} bytes, top {first:#x}, rest {rest:#x}"), |c| {
                        let mut b = vec![rest; len];
                        b[len - 1] = first;
                        let n = Nat::from_le(&b);
                        lu(c, "from_le_bytes", &n, || UBig::from_le_bytes(&b));
                        let mut r = b.clone();
                        r.reverse();
                        lu(c, "from_be_bytes", &n, || UBig::from_be_bytes(&r));
                        if len <= LIM / 8 {
                            let x = UBig::from_le_bytes(&b);
                            c.ok(x.to_le_bytes() == b, || "to_le_bytes".into());
                            c.ok(x.to_be_bytes() == r, || "to_be_bytes".into());
                            c.eq("f64", x.to_f64(), f64::INFINITY);
                            c.eq("f32", (-IBig::from(x.clone())).to_f32(), f32::NEG_INFINITY);
                        }
                    });
                }
            }
        }
    }));
    // Queries about numbers at the limit, and exponents at the limit.
    for chunk in 0..4usize {
        v.push(block(format!("query-{chunk}"), move |ctx| {
            let mut vals: Vec<Nat> = vec![];
            for b in LIM - 2 * W - 1..=LIM {
                vals.extend(with_bits(b));
                for t in [1, W - 1, W, W + 1, LIM / 2, LIM / 2 + 5, b - W - 1, b - W, b - 2, b - 1] {
                    vals.push(Nat::pow2(b).sub(&Nat::pow2(t)).unwrap());
                }
            }
            dedup(&mut vals);
            for (k, n) in vals.iter().enumerate() {
                if k % 4 != chunk {
                    continue;
                }
                ctx.state(|| n.hex(), |c| {
                    let x = to_u(n);
                    let i = -IBig::from(x.clone());
                    c.eq("bit_len", x.bit_len(), n.bit_len());
                    c.eq("trailing_zeros", x.trailing_zeros(), n.trailing_zeros());
                    c.eq("-trailing_zeros", i.trailing_zeros(), n.trailing_zeros());
                    c.eq("is_power_of_two", x.is_power_of_two(), n.trailing_zeros() == Some(n.bit_len() - 1));
                    c.eq("cmp max", x.cmp(&to_u(&max())), n.cmp(&max()));
                    c.eq("f64", x.to_f64(), f64::INFINITY);
                    c.eq("zero bits", x.clone() == UBig::from(0u8), false);
                    lu(c, "unsigned_abs", n, || i.clone().unsigned_abs());
                    for sh in [1, W - 1, W, LIM / 2, LIM - 2 * W - 1, LIM - W, LIM - 2, LIM - 1, LIM, LIM + 1, LIM + W, 2 * LIM, usize::MAX] {
                        let w = if sh > LIM { Nat::zero() } else { n.shr(sh) };
                        lu(c, "&x>>sh", &w, || &x >> sh);
                        lu(c, "x>>sh", &w, || x.clone() >> sh);
                        let w = if sh > LIM { Int::from_i(-1) } else { Int::new(true, n.clone()).shr(sh) };
                        li(c, "&-x>>sh", &w, || &i >> sh);
                        li(c, "-x>>sh", &w, || i.clone() >> sh);
                    }
                    // Fermat: a^x mod p = a^(x mod (p-1)).
                    for p in [Nat::from_u(65537), Nat::pow2(31).sub(&one()).unwrap(), Nat::pow2(127).sub(&one()).unwrap()] {
                        let ring = ModuloRing::new(&to_u(&p));
                        let e = n.divrem(&p.sub(&one()).unwrap()).1;
                        let mut w = one();
                        for k in (0..e.bit_len()).rev() {
                            w = w.mul(&w).divrem(&p).1;
                            if e.bit(k) {
                                w = w.mul(&Nat::from_u(3)).divrem(&p).1;
                            }
                        }
                        lu(c, "3^x mod p", &w, || ring.from(3u8).pow(&x).residue());
                        let inv = |w: &Nat| ring.from(to_u(w)).inverse().unwrap().residue();
                        lu(c, "3^-x mod p", &of_u(&inv(&w)), || ring.from(3u8).pow_signed(&i).residue());
                    }
                });
            }
        }));
    }
    // Division, gcd and modular arithmetic of numbers at the limit.
    let mut ls: Vec<usize> = vec![1, 2, 3, 4, 5, 31, 32, 33, 34, 64, 65, 100, 500, 1000, 1365, 2000, 2047, 2048, 2049, 3000, 4000, 4060, 4062, 4063, 4064, 4065, 4090, 4093, 4094, 4095, 4096];
    if tier.thorough() {
        ls.extend((1..200).map(|i| i * 20 + 7));
        ls.sort();
    }
    for l in ls {
        v.push(block(format!("div-{l}"), move |ctx| {
            let shifts: Vec<usize> = if tier.thorough() { (0..W).collect() } else { vec![0, 1, 2, 7, 8, W - 2, W - 1] };
            for sh in shifts {
                for kind in 0..3 {
                    // A modulus of l words whose top word has sh leading zeros.
                    let nb = l * W - sh;
                    let n = with_bits(nb).into_iter().nth(kind);
                    let Some(n) = n else { continue };
                    let qb = LIM - nb;
                    for q in with_bits(qb) {
                        for r in [Nat::zero(), n.sub(&one()).unwrap(), n.shr(1)] {
                            let x = q.mul(&n).add(&r);
                            if x.bit_len() > LIM || r.cmp(&n).is_ge() {
                                continue;
                            }
                            ctx.state(|| format!("modulus {} words, shift {sh}, kind {kind}; dividend of {} bits = {} * n + {}", l, x.bit_len(), q.hex(), r.hex()), |c| {
                                let (ux, un) = (to_u(&x), to_u(&n));
                                lu(c, "x/n", &q, || &ux / &un);
                                lu(c, "x%n", &r, || &ux % &un);
                                lu(c, "rem_euclid", &r, || (&ux).rem_euclid(&un));
                                let mi = -IBig::from(ux.clone());
                                let ni = IBig::from(un.clone());
                                li(c, "-x/n", &Int::new(!q.is_zero(), q.clone()), || &mi / &ni);
                                li(c, "-x%n", &Int::new(!r.is_zero(), r.clone()), || &mi % &ni);
                                let re = if r.is_zero() { r.clone() } else { n.sub(&r).unwrap() };
                                lu(c, "-x rem_euclid n", &re, || UBig::try_from((&mi).rem_euclid(&ni)).unwrap());
                                let ring = ModuloRing::new(&un);
                                lu(c, "ring.from(x)", &r, || ring.from(&ux).residue());
                                lu(c, "ring.from(x) by value", &r, || ring.from(ux.clone()).residue());
                                lu(c, "ring.from(-x)", &re, || ring.from(&mi).residue());
                                lu(c, "ring.modulus", &n, || ring.modulus());
                            });
                        }
                    }
                }
            }
        }));
        v.push(block(format!("ring-{l}"), move |ctx| {
            for sh in [0, 1, W - 1] {
                for (kind, n) in with_bits(l * W - sh).into_iter().enumerate() {
                    if n.cmp(&Nat::from_u(4)).is_lt() {
                        continue;
                    }
                    ctx.state(|| format!("ring of {l} words, shift {sh}, kind {kind}"), |c| {
                        let un = to_u(&n);
                        let ring = ModuloRing::new(&un);
                        let m1 = n.sub(&one()).unwrap();
                        let a = ring.from(to_u(&m1));
                        lu(c, "(n-1)*(n-1)", &one(), || (&a * &a).residue());
                        lu(c, "(n-1)+(n-1)", &n.sub(&Nat::from_u(2)).unwrap(), || (&a + &a).residue());
                        lu(c, "0-(n-1)", &one(), || (-&a).residue());
                        lu(c, "(n-1)^3", &m1, || a.pow(&UBig::from(3u8)).residue());
                        if l <= 100 || (l >= 4095 && sh == 0 && kind % 2 == 1) || tier.thorough() {
                            lu(c, "1/(n-1)", &m1, || a.inverse().unwrap().residue());
                        }
                    });
                }
            }
        }));
    }
    for l in tier.pick(vec![1usize, 3, 2000], vec![1, 2, 3, 20, 500, 1365, 2000, 2048]) {
        for (k, g) in with_bits(l * W).into_iter().enumerate() {
            for (j, u) in with_bits(LIM - l * W).into_iter().enumerate() {
                let g = g.clone();
                v.push(block(format!("gcd-{l}-{k}-{j}"), move |ctx| {
                    // a = g*u, b = g*v with u = v + 1, of the largest size.
                    for swap in [false, true] {
                        let (mut a, mut b) = (g.mul(&u), g.mul(&u.sub(&one()).unwrap()));
                        if a.bit_len() > LIM || b.is_zero() {
                            continue;
                        }
                        if swap && tier == Tier::Quick && !g.trailing_zeros().is_some_and(|z| z > 0) {
                            continue;
                        }
                        if swap {
                            std::mem::swap(&mut a, &mut b);
                        }
                        ctx.state(|| d2(&a, &b), |c| {
                            let (x, y) = (to_u(&a), to_u(&b));
                            lu(c, "gcd", &g, || x.gcd(&y));
                            match call(|| x.extended_gcd(&y)) {
                                Ok((d, s, t)) => {
                                    c.u("extended gcd", &d, &g);
                                    let sum = Int::pos(a.clone()).mul(&of_i(&s)).add(&Int::pos(b.clone()).mul(&of_i(&t)));
                                    c.ok(sum == Int::pos(g.clone()), || "Bezout".into());
                                }
                                Err(m) => {
                                    c.ok(false, || format!("extended_gcd panicked: {m}"));
                                }
                            }
                        });
                    }
                }));
            }
        }
    }
}

fn main() {
    mc::main("C25", |tier| {
        let mut v = vec![];
        v.push(block("limit", |ctx| {
            ctx.state(|| format!("MAX_BIT_LEN = {LIM}"), |c| {
                c.ok(LIM % (2 * W) == 0, || "whole words".into());
                c.ok(if W == 16 { LIM == 65536 } else { LIM > 1 << 30 }, || "documented order of magnitude".into());
            });
        }));
        // Requests past the limit that are refused before any storage is needed.
        v.push(block("refused", |ctx| {
            if LIM > usize::MAX - 4096 {
                return;
            }
            for n in [LIM, LIM + 1, LIM + (W - 1), LIM.saturating_add(W), LIM.saturating_add(2 * W), LIM.saturating_add(5 * W), LIM.saturating_add(8 * W + 1), usize::MAX - 1, usize::MAX, usize::MAX / 2 + LIM / 2] {
                if n < LIM {
                    continue;
                }
                for a in upto_words(&wa4(), 3) {
                    if a.is_zero() {
                        continue;
                    }
                    ctx.state(|| format!("{} at {n}", a.hex()), |c| {
                        let x = to_u(&a);
                        c.panics_with("&a<<n", "number too large", || &x << n);
                        c.panics_with("a<<n", "number too large", || x.clone() << n);
                        c.panics_with("-a<<n", "number too large", || -IBig::from(x.clone()) << n);
                        c.panics_with("set_bit", "number too large", || { let mut y = x.clone(); y.set_bit(n); y });
                        c.panics_with("2.pow", "number too large", || UBig::from(2u8).pow(n));
                        c.eq("bit", x.bit(n), false);
                        let mut y = x.clone();
                        y.clear_bit(n);
                        c.u("clear_bit", &y, &a);
                        c.u("a>>n", &(&x >> n), &Nat::zero());
                        c.i("-a>>n", &(-IBig::from(x.clone()) >> n), &Int::from_i(-1));
                    });
                }
            }
        }));
        // One history at the limit with 32-bit words: half a gigabyte.
        if W == 32 {
            v.push(block("half-gigabyte", |ctx| {
                ctx.state(|| format!("history at {LIM} bits"), |c| {
                    let r = call(|| UBig::from(1u8) << (LIM - 1));
                    let Ok(x) = r else {
                        c.ok(false, || format!("1 << MAX_BIT_LEN-1: {:?}", r.err()));
                        return;
                    };
                    c.eq("bit_len", x.bit_len(), LIM);
                    c.eq("trailing_zeros", x.trailing_zeros(), Some(LIM - 1));
                    c.ok(x.is_power_of_two(), || "power of two".into());
                    c.panics_with("&x<<1", "number too large", || &x << 1);
                    c.eq("x >> LIM-2", &x >> (LIM - 2), UBig::from(2u8));
                    c.ok(x.bit(LIM - 1) && !x.bit(LIM - 2), || "bits".into());
                    c.panics_with("&x+&x", "number too large", || &x + &x);
                    c.panics_with("&x*2", "number too large", || &x * 2u8);
                    c.eq("x >> LIM", &x >> LIM, UBig::from(0u8));
                    c.eq("to_f64", x.to_f64(), f64::INFINITY);
                    // What a panic leaves in the operand it was changing is not specified.
                    c.panics_with("set_bit", "number too large", || x.clone().set_bit(LIM));
                    let mut y = x;
                    y -= 1u8;
                    c.eq("bit_len of x-1", y.bit_len(), LIM - 1);
                    c.eq("trailing_zeros of x-1", y.trailing_zeros(), Some(0));
                    y.set_bit(LIM - 1);
                    c.eq("bit_len of the largest number", y.bit_len(), LIM);
                    c.panics_with("max+1", "number too large", || y.clone() + 1u8);
                    c.panics_with("next_power_of_two", "number too large", || y.clone().next_power_of_two());
                    let i = -IBig::from(y);
                    c.eq("-max >> LIM-1", &i >> (LIM - 1), IBig::from(-2));
                    c.panics_with("-max-1", "number too large", || i.clone() - 1u8);
                });
            }));
        }
        if W == 16 {
            blocks16(tier, &mut v);
        }
        v
    });
}
