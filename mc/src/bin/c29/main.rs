//! C29: alternative entry points agree with the inherent operations.
use ibig::ops::*;
use ibig::{ibig, ubig, IBig, UBig};
use mc::*;
use num_traits::{Num, One, Pow, Signed, Zero};
use std::fmt::Debug;

mod lits {
    use super::*;
    include!("lits.rs");
}

/// Two outcomes (None: a panic) must agree.
fn same<T: PartialEq + Debug>(c: &mut Chk, op: &str, got: impl FnOnce() -> T, want: impl FnOnce() -> T) {
    let (g, w) = (call(got), call(want));
    match (g, w) {
        (Ok(g), Ok(w)) => {
            c.eq(op, g, w);
        }
        (Err(_), Err(_)) => {
            c.panics += 1;
            c.ops += 1;
        }
        (g, w) => {
            c.ok(false, || format!("{op}: {g:?}, but the inherent operation {w:?}"));
        }
    }
}

// The traits used generically, as a caller bound by them would.
fn g_zero<T: Zero>() -> T {
    T::zero()
}
fn g_one<T: One>() -> T {
    T::one()
}
fn g_is_zero<T: Zero>(x: &T) -> bool {
    x.is_zero()
}
fn g_is_one<T: One + PartialEq>(x: &T) -> bool {
    x.is_one()
}
fn g_set_zero<T: Zero>(mut x: T) -> T {
    x.set_zero();
    x
}
fn g_set_one<T: One>(mut x: T) -> T {
    x.set_one();
    x
}
fn g_pow<T: Pow<usize>>(x: T, e: usize) -> T::Output {
    x.pow(e)
}
fn g_abs<T: Signed>(x: &T) -> T {
    x.abs()
}
fn g_abs_sub<T: Signed>(x: &T, y: &T) -> T {
    x.abs_sub(y)
}
fn g_signum<T: Signed>(x: &T) -> T {
    x.signum()
}
fn g_signs<T: Signed>(x: &T) -> (bool, bool) {
    (x.is_positive(), x.is_negative())
}
fn g_radix<T: Num>(s: &str, r: u32) -> Result<T, T::FromStrRadixErr> {
    T::from_str_radix(s, r)
}
fn g_unsigned<T: num_traits::Unsigned>(x: T, y: T) -> (T, T, T, T)
where
    T: Clone,
{
    let s = x.clone() + y.clone();
    (s.clone() - y.clone(), x.clone() * y.clone(), s.clone() / y.clone(), s % y)
}
fn g_ops<T: num_traits::NumOps + Clone>(x: T, y: T) -> (T, T, T, T, T) {
    (x.clone() + y.clone(), x.clone() - y.clone(), x.clone() * y.clone(), x.clone() / y.clone(), x % y)
}
fn g_ref<T: num_traits::NumRef + Clone>(x: &T, y: &T) -> (T, T, T, T, T) {
    (x.clone() + y, x.clone() - y, x.clone() * y, x.clone() / y, x.clone() % y)
}
fn g_rr<T>(x: &T, y: &T) -> (T, T, T, T, T)
where
    for<'a> &'a T: num_traits::RefNum<T>,
{
    (x + y, x - y, x * y, x / y, x % y)
}
fn g_asg<T: num_traits::NumAssignRef + Clone>(x: &T, y: &T) -> (T, T, T, T, T) {
    let (mut a, mut b, mut c, mut d, mut e) = (x.clone(), x.clone(), x.clone(), x.clone(), x.clone());
    a += y;
    b -= y;
    c *= y;
    d /= y;
    e %= y;
    a -= y.clone();
    a += y.clone();
    (a, b, c, d, e)
}

fn unary(c: &mut Chk, n: &Nat) {
    let u = to_u(n);
    let zero = n.is_zero();
    c.eq("UBig is_zero", g_is_zero(&u), zero);
    c.eq("UBig is_one", g_is_one(&u), *n == Nat::from_u(1));
    c.eq("UBig set_zero", g_set_zero(u.clone()), UBig::default());
    c.eq("UBig set_one", g_set_one(u.clone()), UBig::from(1u8));
    for neg in [false, true] {
        let m = Int::new(neg && !zero, n.clone());
        let i = to_i(&m);
        c.eq("IBig is_zero", g_is_zero(&i), zero);
        c.eq("IBig is_one", g_is_one(&i), m == Int::from_i(1));
        c.eq("IBig set_zero", g_set_zero(i.clone()), IBig::default());
        c.eq("IBig set_one", g_set_one(i.clone()), IBig::from(1u8));
        c.i("Signed::abs", &g_abs(&i), &Int::pos(n.clone()));
        c.i("num_traits::abs", &num_traits::abs(i.clone()), &Int::pos(n.clone()));
        c.i("Abs for IBig", &Abs::abs(i.clone()), &Int::pos(n.clone()));
        c.i("Abs for &IBig", &Abs::abs(&i), &Int::pos(n.clone()));
        c.u("UnsignedAbs", &UnsignedAbs::unsigned_abs(i.clone()), n);
        c.u("UnsignedAbs, &", &UnsignedAbs::unsigned_abs(&i), n);
        let sg = Int::from_i(if zero { 0 } else if m.neg { -1 } else { 1 });
        c.i("Signed::signum", &g_signum(&i), &sg);
        c.i("num_traits::signum", &num_traits::signum(i.clone()), &sg);
        c.i("IBig::signum", &IBig::signum(&i), &sg);
        c.eq("is_positive, is_negative", g_signs(&i), (!zero && !m.neg, m.neg));
        if n.bit_len() < 3000 {
            let d = m.digits(10);
            c.eq("Display", i.to_string(), d.clone());
            c.eq("Debug", format!("{i:?}"), d.clone());
            c.eq("in_radix(10)", i.in_radix(10).to_string(), d.clone());
            c.eq("FromStr", d.parse::<IBig>(), Ok(i.clone()));
            c.eq("Num::from_str_radix", g_radix::<IBig>(&d, 10), Ok(i.clone()));
            c.eq("LowerHex", format!("{i:x}"), i.in_radix(16).to_string());
            c.eq("UpperHex", format!("{i:X}"), format!("{:#}", i.in_radix(16)));
            c.eq("Octal", format!("{i:o}"), i.in_radix(8).to_string());
            c.eq("Binary", format!("{i:b}"), i.in_radix(2).to_string());
            if !m.neg {
                c.eq("UBig Display", u.to_string(), d.clone());
                c.eq("UBig Debug", format!("{u:?}"), d.clone());
                c.eq("UBig in_radix(10)", u.in_radix(10).to_string(), d.clone());
                c.eq("UBig FromStr", d.parse::<UBig>(), Ok(u.clone()));
                c.eq("UBig Num::from_str_radix", g_radix::<UBig>(&d, 10), Ok(u.clone()));
                c.eq("UBig LowerHex", format!("{u:x}"), u.in_radix(16).to_string());
                c.eq("UBig UpperHex", format!("{u:X}"), format!("{:#}", u.in_radix(16)));
                c.eq("UBig Octal", format!("{u:o}"), u.in_radix(8).to_string());
                c.eq("UBig Binary", format!("{u:b}"), u.in_radix(2).to_string());
            }
            for r in 2..=36 {
                let t = i.in_radix(r).to_string();
                c.eq("Num::from_str_radix, signed", g_radix::<IBig>(&t, r), Ok(i.clone()));
                same(c, "Num::from_str_radix, unsigned", || g_radix::<UBig>(&t, r), || UBig::from_str_radix(&t, r));
            }
        }
        let (mut p, mut ps) = (Int::from_i(1), vec![]);
        for _ in 0..6 {
            ps.push(p.clone());
            p = p.mul(&m);
        }
        for (e, w) in ps.iter().enumerate() {
            if n.bit_len() * e > 30000 {
                break;
            }
            c.i("Pow for &IBig", &g_pow(&i, e), w);
            c.i("Pow for IBig", &g_pow(i.clone(), e), w);
            c.i("IBig::pow", &IBig::pow(&i, e), w);
            c.i("num_traits::pow", &num_traits::pow(i.clone(), e), w);
            if !m.neg {
                c.u("Pow for &UBig", &g_pow(&u, e), &w.mag);
                c.u("Pow for UBig", &g_pow(u.clone(), e), &w.mag);
                c.u("UBig::pow", &UBig::pow(&u, e), &w.mag);
                c.u("num_traits::pow, unsigned", &num_traits::pow(u.clone(), e), &w.mag);
            }
        }
    }
}

fn quint(a: &Int, b: &Int) -> Option<(Int, Int, Int, Int, Int)> {
    if b.mag.is_zero() {
        return None;
    }
    let (q, r) = a.divrem(b);
    Some((a.add(b), a.sub(b), a.mul(b), q, r))
}

fn quints(c: &mut Chk, op: &str, f: impl FnOnce() -> (IBig, IBig, IBig, IBig, IBig), want: &Option<(Int, Int, Int, Int, Int)>) {
    match (call(f), want) {
        (Ok(g), Some(w)) => {
            c.i(op, &g.0, &w.0);
            c.i(op, &g.1, &w.1);
            c.i(op, &g.2, &w.2);
            c.i(op, &g.3, &w.3);
            c.i(op, &g.4, &w.4);
        }
        (Err(_), None) => {
            c.panics += 1;
            c.ops += 1;
        }
        (g, w) => {
            c.ok(false, || format!("{op}: {g:?}, expected {w:?}"));
        }
    }
}

fn pair(c: &mut Chk, na: &Nat, nb: &Nat) {
    for s in 0..4 {
        let (a, b) = (Int::new(s & 1 == 1 && !na.is_zero(), na.clone()), Int::new(s & 2 == 2 && !nb.is_zero(), nb.clone()));
        let (x, y) = (to_i(&a), to_i(&b));
        let w = if a.cmp(&b).is_le() { Int::from_i(0) } else { a.sub(&b) };
        c.i("Signed::abs_sub", &g_abs_sub(&x, &y), &w);
        let q = quint(&a, &b);
        quints(c, "NumOps", || g_ops(x.clone(), y.clone()), &q);
        quints(c, "NumRef", || g_ref(&x, &y), &q);
        quints(c, "RefNum", || g_rr(&x, &y), &q);
        quints(c, "NumAssignRef", || g_asg(&x, &y), &q);
        same(c, "num_traits::clamp", || num_traits::clamp(x.clone(), y.clone().min(x.clone()), y.clone().max(x.clone())), || x.clone());
    }
    let (x, y) = (to_u(na), to_u(nb));
    let up = |t: (UBig, UBig, UBig, UBig, UBig)| (t.0.into(), t.1.into(), t.2.into(), t.3.into(), t.4.into());
    let q = if na.cmp(nb).is_lt() { None } else { quint(&Int::pos(na.clone()), &Int::pos(nb.clone())) };
    quints(c, "unsigned NumOps", || up(g_ops(x.clone(), y.clone())), &q);
    quints(c, "unsigned NumRef", || up(g_ref(&x, &y)), &q);
    quints(c, "unsigned RefNum", || up(g_rr(&x, &y)), &q);
    quints(c, "unsigned NumAssignRef", || up(g_asg(&x, &y)), &q);
    if !nb.is_zero() {
        let r = g_unsigned(x.clone(), y.clone());
        let sum = na.add(nb);
        let (q, m) = sum.divrem(nb);
        c.u("Unsigned: (x+y)-y", &r.0, na);
        c.u("Unsigned: x*y", &r.1, &na.mul(nb));
        c.u("Unsigned: (x+y)/y", &r.2, &q);
        c.u("Unsigned: (x+y)%y", &r.3, &m);
    }
}

fn strings(al: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut all = v.clone();
    for _ in 0..n {
        v = v.iter().flat_map(|s| al.iter().map(move |a| format!("{s}{a}"))).collect();
        all.extend(v.clone());
    }
    all
}

fn main() {
    mc::main("C29", |tier| {
        let mut v = vec![];
        // Constants and defaults.
        v.push(block("constants", |ctx| {
            ctx.state(|| "zero, one, default".into(), |c| {
                c.u("UBig::zero", &g_zero(), &Nat::zero());
                c.u("UBig::one", &g_one(), &Nat::from_u(1));
                c.u("UBig::default", &Default::default(), &Nat::zero());
                c.i("IBig::zero", &g_zero(), &Int::from_i(0));
                c.i("IBig::one", &g_one(), &Int::from_i(1));
                c.i("IBig::default", &Default::default(), &Int::from_i(0));
                c.i("ibig!(-5).pow(2)", &ibig!(-5).pow(2), &Int::from_i(25));
                c.i("ibig!(-_5).pow(2)", &ibig!(-_5).pow(2), &Int::from_i(25));
                c.i("2 * ibig!(-z base 36) + 1", &(2 * ibig!(-z base 36) + 1), &Int::from_i(-69));
                c.i("- ibig!(-3)", &-ibig!(-3), &Int::from_i(3));
            });
        }));
        // Single numbers.
        let mut nums: Vec<Nat> = (0..=tier.pick(300u128, 3000)).map(Nat::from_u).collect();
        nums.extend(upto_words(&wa7(), 3));
        nums.extend(upto_words(&wa4(), 3));
        for l in 3..tier.pick(60, 300) {
            nums.extend(pats_few(l));
            nums.push(generic(l as u64, l));
        }
        dedup(&mut nums);
        for part in nums.chunks(40) {
            let part = part.to_vec();
            v.push(block("numbers", move |ctx| {
                for n in &part {
                    ctx.state(|| format!("n={}", n.hex()), |c| unary(c, n));
                }
            }));
        }
        // Pairs.
        let mut ps: Vec<Nat> = (0..=tier.pick(60u128, 150)).map(Nat::from_u).collect();
        ps.extend(upto_words(&wa4(), 2));
        ps.extend(upto_words(&wa3(), 4));
        for l in [3, 4, 5, 8, 16, 25, 33, 40] {
            ps.extend(pats_few(l));
            let g = generic(l as u64, l);
            ps.extend([g.add(&Nat::from_u(1)), g.sub(&Nat::pow2((l - 1) * W)).unwrap(), g]);
        }
        dedup(&mut ps);
        for a in ps.clone() {
            let ps = ps.clone();
            v.push(block("pairs", move |ctx| {
                for b in &ps {
                    ctx.state(|| d2(&a, b), |c| pair(c, &a, b));
                }
            }));
        }
        // Parsing through the trait: values, errors and panics as the inherent function.
        let al = ["0", "1", "9", "a", "z", "A", "-", "+", "_", " ", "x", "é", "7"];
        for (k, part) in strings(&al, tier.pick(4, 5)).chunks(600).enumerate() {
            let part = part.to_vec();
            v.push(block(format!("strings-{k}"), move |ctx| {
                for s in &part {
                    ctx.state(|| format!("{s:?}"), |c| {
                        for r in (0..=40).chain([255, 256, 1 << 16, u32::MAX]) {
                            same(c, "<UBig as Num>::from_str_radix", || g_radix::<UBig>(s, r), || UBig::from_str_radix(s, r));
                            same(c, "<IBig as Num>::from_str_radix", || g_radix::<IBig>(s, r), || IBig::from_str_radix(s, r));
                        }
                        same(c, "FromStr, unsigned", || s.parse::<UBig>(), || UBig::from_str_radix(s, 10));
                        same(c, "FromStr, signed", || s.parse::<IBig>(), || IBig::from_str_radix(s, 10));
                    });
                }
            }));
        }
        // Powers with exponents at the ends.
        v.push(block("exponents", |ctx| {
            for b in 0..=2u8 {
                for e in (0..200usize).chain([1000, 65535, 65536, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX]) {
                    if b == 2 && W > 16 && e > 100_000 && e < UBig::MAX_BIT_LEN {
                        continue;
                    }
                    ctx.state(|| format!("{b} to {e}"), |c| {
                        let (u, n) = (UBig::from(b), -IBig::from(b));
                        same(c, "Pow for &UBig", || g_pow(&u, e), || UBig::pow(&u, e));
                        same(c, "Pow for UBig", || g_pow(u.clone(), e), || UBig::pow(&u, e));
                        same(c, "Pow for &IBig", || g_pow(&n, e), || IBig::pow(&n, e));
                        same(c, "Pow for IBig", || g_pow(n.clone(), e), || IBig::pow(&n, e));
                        c.note(&e.to_le_bytes());
                    });
                }
            }
        }));
        // Literals.
        for (k, part) in lits::PARTS.iter().enumerate() {
            v.push(block(format!("literals-{k}"), move |ctx| {
                for (text, val, u, i) in *part {
                    ctx.state(|| format!("ubig!({text}), ibig!({text}), ibig!(-{text})"), |c| match val {
                        None => {
                            c.panics("ubig!", u);
                            if let Some((p, n)) = i {
                                c.panics("ibig!", p);
                                c.panics("ibig!(-)", n);
                            }
                        }
                        Some(h) => {
                            let w = Nat::parse(h, 16);
                            c.u("ubig!", &u(), &w);
                            if let Some((p, n)) = i {
                                c.i("ibig!", &p(), &Int::pos(w.clone()));
                                c.i("ibig!(-)", &n(), &Int::new(!w.is_zero(), w));
                            }
                        }
                    });
                }
            }));
        }
        v
    });
}
