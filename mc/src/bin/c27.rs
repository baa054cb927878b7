//! C27: operations panic exactly in the documented cases, never hang or abort, and leave valid numbers.
#![allow(arithmetic_overflow)]
use ibig::ops::*;
use ibig::{IBig, IntoModulo, Modulo, ModuloRing, UBig};
use mc::hist::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Guard = mc::alloc::Guard;

const LIM: usize = UBig::MAX_BIT_LEN;

/// f must panic exactly if `must`.
#[inline(never)]
fn verdict(c: &mut Chk, op: &str, must: bool, r: Result<(), String>) -> bool {
    c.note(op.as_bytes());
    if must {
        c.panics += 1;
    }
    match r {
        Ok(()) => c.ok(!must, || format!("{op}: expected a panic, returned normally")),
        Err(m) => c.ok(must, || format!("{op}: unexpected panic {m:?}")),
    }
}
fn go<T>(c: &mut Chk, op: &str, must: bool, f: impl FnOnce() -> T) {
    let r = call(|| drop(f()));
    verdict(c, op, must, r);
}

fn one() -> Nat {
    Nat::from_u(1)
}

/// The variable is a number like any other.
#[inline(never)]
fn alive_u(c: &mut Chk, op: &str, x: &mut UBig) {
    let n = of_u(x);
    c.ok(*x == to_u(&n) && x.bit_len() == n.bit_len() && x.clone() == *x, || format!("{op}: the variable is not a valid number after the panic: {}", n.hex()));
    if n.bit_len() < LIM {
        *x += 1u8;
        let w = n.add(&one());
        c.ok(of_u(x) == w, || format!("{op}: after the panic, {} + 1 = {}", n.hex(), of_u(x).hex()));
        *x -= 1u8;
    }
    *x &= UBig::from(0xffu8);
    c.ok(of_u(x) == n.sub(&n.shr(8).shl(8)).unwrap(), || format!("{op}: after the panic, {} & 255 = {}", n.hex(), of_u(x).hex()));
}
#[inline(never)]
fn alive_i(c: &mut Chk, op: &str, x: &mut IBig) {
    let n = of_i(x);
    c.ok(*x == to_i(&n) && x.clone() == *x && (&*x).unsigned_abs().bit_len() == n.mag.bit_len(), || format!("{op}: the variable is not a valid number after the panic: {}", n.hex()));
    if n.mag.bit_len() < LIM {
        *x += 1u8;
        let w = n.add(&Int::from_i(1));
        c.ok(of_i(x) == w, || format!("{op}: after the panic, {} + 1 = {}", n.hex(), of_i(x).hex()));
    }
    *x = -std::mem::take(x);
}
fn asg_u(c: &mut Chk, op: &str, must: bool, a: &UBig, f: impl FnOnce(&mut UBig)) {
    let mut x = a.clone();
    let r = call(|| f(&mut x));
    let p = r.is_err();
    verdict(c, op, must, r);
    if p {
        alive_u(c, op, &mut x);
    }
}
fn asg_i(c: &mut Chk, op: &str, must: bool, a: &IBig, f: impl FnOnce(&mut IBig)) {
    let mut x = a.clone();
    let r = call(|| f(&mut x));
    let p = r.is_err();
    verdict(c, op, must, r);
    if p {
        alive_i(c, op, &mut x);
    }
}

macro_rules! forms {
    ($c:expr, $asg:ident, $a:expr, $b:expr, $op:tt, $opa:tt, $must:expr) => {{
        let (a, b, m) = ($a, $b, $must);
        go($c, concat!("&a ", stringify!($op), " &b"), m, || a $op b);
        go($c, concat!("a ", stringify!($op), " &b"), m, || a.clone() $op b);
        go($c, concat!("&a ", stringify!($op), " b"), m, || a $op b.clone());
        go($c, concat!("a ", stringify!($op), " b"), m, || a.clone() $op b.clone());
        $asg($c, concat!("a ", stringify!($opa), " &b"), m, a, |x| *x $opa b);
        $asg($c, concat!("a ", stringify!($opa), " b"), m, a, |x| *x $opa b.clone());
    }};
}
macro_rules! methods {
    ($c:expr, $a:expr, $b:expr, $must:expr, $($f:ident)*) => {{
        let (a, b, m) = ($a, $b, $must);
        $(
            go($c, concat!("&a.", stringify!($f), "(&b)"), m, || a.$f(b));
            go($c, concat!("a.", stringify!($f), "(&b)"), m, || a.clone().$f(b));
            go($c, concat!("&a.", stringify!($f), "(b)"), m, || a.$f(b.clone()));
            go($c, concat!("a.", stringify!($f), "(b)"), m, || a.clone().$f(b.clone()));
        )*
    }};
}

fn binary(c: &mut Chk, na: &Nat, nb: &Nat, ka: usize, kb: usize) {
    let (a, b) = (&mk_variant(na, ka), &mk_variant(nb, kb));
    let big = |n: &Nat| n.bit_len() > LIM;
    let zero = nb.is_zero();
    forms!(c, asg_u, a, b, +, +=, big(&na.add(nb)));
    forms!(c, asg_u, a, b, -, -=, na.cmp(nb).is_lt());
    let tm = na.bit_len() + nb.bit_len() > LIM && big(&na.mul(nb));
    forms!(c, asg_u, a, b, *, *=, tm);
    forms!(c, asg_u, a, b, /, /=, zero);
    forms!(c, asg_u, a, b, %, %=, zero);
    forms!(c, asg_u, a, b, &, &=, false);
    forms!(c, asg_u, a, b, |, |=, false);
    forms!(c, asg_u, a, b, ^, ^=, false);
    methods!(c, a, b, zero, div_rem div_euclid rem_euclid div_rem_euclid);
    methods!(c, a, b, false, and_not);
    let long = na.bit_len() > 30000 && nb.bit_len() > 30000;
    if !long {
        go(c, "gcd", na.is_zero() && zero, || a.gcd(b));
        go(c, "extended_gcd", na.is_zero() && zero, || a.extended_gcd(b));
    }
    go(c, "comparisons", false, || (a < b, a == b, a.cmp(b), a.partial_cmp(b)));
    go(c, "clone_from", false, || { let mut x = a.clone(); x.clone_from(b); x });
    c.ok(of_u(a) == *na && of_u(b) == *nb, || "a borrowed operand changed".into());
    // Signed.
    for s in 0..4 {
        let (ia, ib) = (Int::new(s & 1 == 1, na.clone()), Int::new(s & 2 == 2, nb.clone()));
        if (ia.mag.is_zero() && s & 1 == 1) || (zero && s & 2 == 2) {
            continue;
        }
        let (x, y) = (&to_i(&ia), &to_i(&ib));
        forms!(c, asg_i, x, y, +, +=, big(&ia.add(&ib).mag));
        forms!(c, asg_i, x, y, -, -=, big(&ia.sub(&ib).mag));
        forms!(c, asg_i, x, y, *, *=, tm);
        forms!(c, asg_i, x, y, /, /=, zero);
        forms!(c, asg_i, x, y, %, %=, zero);
        let near = na.bit_len() >= LIM || nb.bit_len() >= LIM;
        let bit = |f: fn(Limb, Limb) -> Limb| near && big(&ia.bitop(&ib, f).mag);
        forms!(c, asg_i, x, y, &, &=, bit(|p, q| p & q));
        forms!(c, asg_i, x, y, |, |=, bit(|p, q| p | q));
        forms!(c, asg_i, x, y, ^, ^=, bit(|p, q| p ^ q));
        // Euclidean quotients can be one larger than the truncated ones: never past the limit
        // unless dividing by one, which leaves no remainder.
        methods!(c, x, y, zero, div_rem div_euclid rem_euclid div_rem_euclid);
        methods!(c, x, y, bit(|p, q| p & !q), and_not);
        if !long {
            go(c, "signed gcd", na.is_zero() && zero, || x.gcd(y));
            go(c, "signed extended_gcd", na.is_zero() && zero, || x.extended_gcd(y));
        }
        go(c, "signed comparisons", false, || (x < y, x == y, x.cmp(y)));
        go(c, "UBig::try_from", false, || UBig::try_from(x).is_ok());
        c.ok(of_i(x) == ia && of_i(y) == ib, || "a borrowed operand changed".into());
    }
}

macro_rules! prim_body {
    ($c:expr, $a:expr, $na:expr, $p:expr, $ty:ty, $sg:ident) => {{
        let (a, p) = ($a, $p);
        let ia = Int::pos($na.clone());
        let ip = Int::from_i128_or(p as i128, p as u128, $sg!());
        let neg = |x: Int| x.neg && !x.mag.is_zero();
        let big = |x: &Int| x.mag.bit_len() > LIM;
        let z = p == 0;
        macro_rules! pf {
            ($op:tt, $opa:tt, $must:expr) => {{
                let m = $must;
                go($c, concat!("&a ", stringify!($op), " ", stringify!($ty)), m, || a $op p);
                go($c, concat!("a ", stringify!($op), " &", stringify!($ty)), m, || a.clone() $op &p);
                asg_u($c, concat!("a ", stringify!($opa), " ", stringify!($ty)), m, a, |x| *x $opa p);
                asg_u($c, concat!("a ", stringify!($opa), " &", stringify!($ty)), m, a, |x| *x $opa &p);
            }};
        }
        let sum = ia.add(&ip);
        let m = big(&sum) || neg(sum);
        pf!(+, +=, m);
        go($c, concat!(stringify!($ty), " + a"), m, || p + a.clone());
        go($c, concat!("&", stringify!($ty), " + &a"), m, || &p + a);
        let dif = ia.sub(&ip);
        let m = big(&dif) || neg(dif);
        pf!(-, -=, m);
        let prod = ia.mul(&ip);
        let m = big(&prod) || neg(prod);
        pf!(*, *=, m);
        go($c, concat!(stringify!($ty), " * a"), m, || p * a.clone());
        go($c, concat!("&", stringify!($ty), " * &a"), m, || &p * a);
        pf!(/, /=, z || neg(ia.divrem(&ip).0));
        pf!(%, %=, z);
        go($c, concat!("&a.div_rem(", stringify!($ty), ")"), z || neg(ia.divrem(&ip).0), || a.div_rem(p));
        go($c, concat!("a.div_rem(&", stringify!($ty), ")"), z || neg(ia.divrem(&ip).0), || a.clone().div_rem(&p));
        // The signed number of the same magnitude, negative.
        let b = &-IBig::from(a);
        go($c, concat!("-a + ", stringify!($ty)), big(&ia.neg().add(&ip)), || b + p);
        go($c, concat!("-a - ", stringify!($ty)), big(&ia.neg().sub(&ip)), || b - p);
        go($c, concat!("-a * ", stringify!($ty)), big(&ia.mul(&ip)), || b * p);
        go($c, concat!("-a / ", stringify!($ty)), z, || b / p);
        go($c, concat!("-a % ", stringify!($ty)), z, || b % p);
        go($c, concat!("-a div_euclid ", stringify!($ty)), z, || b.div_euclid(p));
        go($c, concat!("-a rem_euclid ", stringify!($ty)), z, || b.rem_euclid(p));
        go($c, concat!("-a div_rem ", stringify!($ty)), z, || b.div_rem(p));
        go($c, concat!("-a div_rem_euclid ", stringify!($ty)), z, || b.div_rem_euclid(p));
        asg_i($c, concat!("-a += ", stringify!($ty)), big(&ia.neg().add(&ip)), b, |x| *x += p);
        asg_i($c, concat!("-a -= ", stringify!($ty)), big(&ia.neg().sub(&ip)), b, |x| *x -= p);
        asg_i($c, concat!("-a *= ", stringify!($ty)), big(&ia.mul(&ip)), b, |x| *x *= p);
        asg_i($c, concat!("-a /= ", stringify!($ty)), z, b, |x| *x /= p);
        asg_i($c, concat!("-a %= ", stringify!($ty)), z, b, |x| *x %= p);
        go($c, concat!("-a & ", stringify!($ty)), ia.mag.bit_len() >= LIM && big(&ia.neg().bitop(&ip, |x, y| x & y)), || b.clone() & p);
        go($c, concat!("-a | ", stringify!($ty)), false, || b.clone() | p);
        go($c, concat!(stringify!($ty), "::try_from"), false, || (<$ty>::try_from(a).is_ok(), <$ty>::try_from(b).is_ok(), UBig::try_from(p).is_ok(), IBig::from(p)));
        c_unchanged($c, a, $na);
    }};
}
macro_rules! yes { () => { true } }
macro_rules! no { () => { false } }
fn c_unchanged(c: &mut Chk, a: &UBig, na: &Nat) {
    c.ok(of_u(a) == *na, || "a borrowed operand changed".into());
}
trait FromPrim {
    fn from_i128_or(s: i128, u: u128, signed: bool) -> Int;
}
impl FromPrim for Int {
    fn from_i128_or(s: i128, u: u128, signed: bool) -> Int {
        if signed {
            Int::from_i(s)
        } else {
            Int::pos(Nat::from_u(u))
        }
    }
}
macro_rules! prims_u {
    ($c:expr, $a:expr, $na:expr, $($ty:ty)*) => { $( for p in [0 as $ty, 1, 2, 7, <$ty>::MAX / 2 + 1, <$ty>::MAX] {
        prim_body!($c, $a, $na, p, $ty, no);
        let (a, z) = ($a, p == 0);
        go($c, concat!("&a & ", stringify!($ty)), false, || (a & p, a | p, a ^ p, p & a.clone(), a.and_not(p)));
        go($c, concat!("&a.div_euclid ", stringify!($ty)), z, || a.div_euclid(p));
        go($c, concat!("&a.rem_euclid ", stringify!($ty)), z, || a.rem_euclid(p));
        go($c, concat!("&a.div_rem_euclid ", stringify!($ty)), z, || a.div_rem_euclid(p));
    } )* };
}
macro_rules! prims_i {
    ($c:expr, $a:expr, $na:expr, $($ty:ty)*) => { $( for p in [0 as $ty, 1, 2, <$ty>::MAX, -1, -2, <$ty>::MIN] { prim_body!($c, $a, $na, p, $ty, yes); } )* };
}

fn unary(c: &mut Chk, n: &Nat, k: usize) {
    let a = &mk_variant(n, k);
    let b = &-IBig::from(a);
    let bits = n.bit_len();
    let room = LIM - bits;
    let dear = W > 16;
    // Shifts.
    for s in [0, 1, W - 1, W, W + 1, 3 * W, 1000, room.wrapping_sub(1), room, room.saturating_add(1), LIM - 1, LIM, usize::MAX - 1, usize::MAX] {
        let must = bits > 0 && s > room;
        // Results that would take the whole memory are not asked for.
        if dear && bits > 0 && !must && s > 100_000 {
            continue;
        }
        go(c, "&a << s", must, || a << s);
        go(c, "a << s", must, || a.clone() << s);
        go(c, "a << &s", must, || a.clone() << &s);
        asg_u(c, "a <<= s", must, a, |x| *x <<= s);
        go(c, "&-a << s", must, || b << s);
        go(c, "-a << s", must, || b.clone() << s);
        asg_i(c, "-a <<= s", must, b, |x| *x <<= s);
        go(c, "&a >> s", false, || a >> s);
        go(c, "a >> s", false, || a.clone() >> s);
        asg_u(c, "a >>= s", false, a, |x| *x >>= s);
        go(c, "&-a >> s", false, || b >> s);
        go(c, "-a >> s", false, || b.clone() >> s);
        asg_i(c, "-a >>= s", false, b, |x| *x >>= s);
    }
    for s in [0, 1, W, 5 * W, 1000, LIM - 1, LIM, LIM.saturating_add(1), usize::MAX - W, usize::MAX] {
        if !(dear && s > 100_000 && s < LIM) {
            asg_u(c, "set_bit", s >= LIM, a, |x| x.set_bit(s));
        }
        asg_u(c, "clear_bit", false, a, |x| x.clear_bit(s));
        go(c, "bit", false, || a.bit(s));
    }
    // Powers.
    for e in [0usize, 1, 2, 3, 10, 64, 1000, 65535, 65536, usize::MAX - 1, usize::MAX] {
        let p2 = n.trailing_zeros() == Some(bits.wrapping_sub(1)) && bits > 0;
        let must = if bits <= 1 {
            false
        } else if p2 {
            (bits - 1).checked_mul(e).map_or(true, |x| x >= LIM)
        } else if (bits - 1).checked_mul(e).map_or(true, |x| x >= LIM) {
            true
        } else if bits.checked_mul(e).map_or(false, |x| x <= LIM) {
            false
        } else {
            // In doubt: compute it, if small enough.
            if bits * e > 200_000 {
                continue;
            }
            n.pow(e).bit_len() > LIM
        };
        // (With larger words a power past the limit takes the memory of the machine before it fails.)
        if (!must || dear && *n != Nat::from_u(2)) && bits > 1 && bits.saturating_mul(e) > 400_000 {
            continue;
        }
        go(c, "pow", must, || a.pow(e));
        go(c, "signed pow", must, || b.pow(e));
    }
    let np = n.trailing_zeros() != Some(bits.wrapping_sub(1)) && bits >= LIM;
    go(c, "&a.next_power_of_two()", np, || a.next_power_of_two());
    go(c, "a.next_power_of_two()", np, || a.clone().next_power_of_two());
    let full = bits == LIM && n.add(&one()).bit_len() > LIM;
    go(c, "!a", full, || !&IBig::from(a));
    go(c, "!-a", false, || (!b, !b.clone()));
    go(c, "never", false, || (-b, b.clone().abs(), b.abs(), b.unsigned_abs(), b.signum(), a.bit_len(), a.trailing_zeros(), b.trailing_zeros(), a.is_power_of_two()));
    go(c, "conversions", false, || (a.to_f32(), a.to_f64(), b.to_f32(), b.to_f64(), a.to_le_bytes(), a.to_be_bytes(), IBig::from(a.clone()), UBig::try_from(b.clone()).is_ok()));
    go(c, "hash", false, || {
        use std::hash::*;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut h);
        b.hash(&mut h);
        h.finish()
    });
    if bits < 3000 {
        go(c, "fmt", false, || format!("{a} {a:?} {a:x} {a:X} {a:#o} {a:#b} {b:+040} {b:?} {b:x} {b:<20}"));
        go(c, "pow by 1 of text", false, || a.to_string().parse::<UBig>().unwrap());
    }
    for r in (0u32..40).chain([64, 100, 255, 256, 258, 1 << 16, (1 << 16) + 10, 1 << 31, u32::MAX - 1, u32::MAX]) {
        let bad = !(2..=36).contains(&r);
        if !bad && bits > 3000 {
            continue;
        }
        go(c, "in_radix", bad, || a.in_radix(r).to_string());
        go(c, "signed in_radix", bad, || format!("{:+#050}", b.in_radix(r)));
    }
    c.ok(of_u(a) == *n && of_i(b) == Int::new(!n.is_zero(), n.clone()), || "a borrowed operand changed".into());
}

fn modder(m: &Nat, x: &Nat) -> Nat {
    x.divrem(m).1
}
fn mulm(a: &Nat, b: &Nat, m: &Nat) -> Nat {
    modder(m, &a.mul(b))
}

/// The element is alive: it can be computed with and still belongs to its ring.
fn alive_m<'a>(c: &mut Chk, op: &str, x: &mut Modulo<'a>, r: &'a ModuloRing, m: &Nat) {
    let v = of_u(&x.residue());
    c.ok(v.cmp(m).is_lt(), || format!("{op}: residue {} not below the modulus {} after the panic", v.hex(), m.hex()));
    let res = call(|| {
        let y = r.from(2u8);
        *x += &y;
        let z = x.clone();
        *x *= &z;
    });
    c.ok(res.is_ok(), || format!("{op}: the element cannot be used in its ring after the panic"));
    let w = modder(m, &v.add(&Nat::from_u(2)));
    let w = mulm(&w, &w, m);
    c.ok(of_u(&x.residue()) == w, || format!("{op}: (x + 2)^2 wrong after the panic"));
}

fn asg_m<'a>(c: &mut Chk, op: &str, must: bool, a: &Modulo<'a>, r: &'a ModuloRing, m: &Nat, f: impl FnOnce(&mut Modulo<'a>)) {
    let mut x = a.clone();
    let res = call(|| f(&mut x));
    let p = res.is_err();
    verdict(c, op, must, res);
    if p {
        alive_m(c, op, &mut x, r, m);
    }
}

fn ring_pair(c: &mut Chk, m1: &Nat, m2: &Nat, same: bool, na: &Nat, nb: &Nat) {
    let (u1, u2) = (to_u(m1), to_u(m2));
    let r1 = ModuloRing::new(&u1);
    let other = ModuloRing::new(&u2);
    let r2 = if same { &r1 } else { &other };
    let (a, b) = (&r1.from(to_u(na)), &r2.from(to_u(nb)));
    let (va, vb) = (modder(m1, na), modder(m2, nb));
    let x = !same;
    macro_rules! mf {
        ($op:tt, $opa:tt, $must:expr) => {{
            let must = $must;
            go(c, concat!("ring &a ", stringify!($op), " &b"), must, || a $op b);
            go(c, concat!("ring a ", stringify!($op), " &b"), must, || a.clone() $op b);
            go(c, concat!("ring &a ", stringify!($op), " b"), must, || a $op b.clone());
            go(c, concat!("ring a ", stringify!($op), " b"), must, || a.clone() $op b.clone());
            asg_m(c, concat!("ring a ", stringify!($opa), " &b"), must, a, &r1, m1, |x| *x $opa b);
            asg_m(c, concat!("ring a ", stringify!($opa), " b"), must, a, &r1, m1, |x| *x $opa b.clone());
        }};
    }
    mf!(+, +=, x);
    mf!(-, -=, x);
    mf!(*, *=, x);
    let coprime = vb.gcd(m2) == one() || *m2 == one();
    mf!(/, /=, x || !coprime);
    go(c, "ring a == b", x, || a == b);
    go(c, "ring a != b", x, || a != b);
    go(c, "ring clone_from", false, || { let mut y = a.clone(); y.clone_from(b); y });
    go(c, "ring inverse", false, || b.inverse().is_some());
    go(c, "ring unary", false, || (-a, -a.clone(), a.residue(), format!("{a} {a:?} {a:x} {a:#b}"), r1.modulus()));
    for e in [0i64, 1, 2, -1, -2, 5, -5, i64::MAX, i64::MIN] {
        go(c, "pow_signed", e < 0 && !coprime, || b.pow_signed(&IBig::from(e)));
        go(c, "pow", false, || b.pow(&UBig::from(e.unsigned_abs())));
    }
    go(c, "pow_signed long", !coprime, || b.pow_signed(&-(IBig::from(1u8) << (3 * W))));
    c.ok(of_u(&a.residue()) == va && of_u(&b.residue()) == vb, || "a borrowed ring element changed".into());
    c.ok(of_u(&r1.modulus()) == *m1 && of_u(&r2.modulus()) == *m2, || "a modulus changed".into());
    c.ok(r1.from(3u8) == r1.from(UBig::from(3u8)), || "ring not equal to itself".into());
}

fn domain(tier: Tier) -> Vec<Nat> {
    let mut v: Vec<Nat> = (0..=3).map(Nat::from_u).collect();
    v.extend([Nat::from_u(10), Nat::from_u(255)]);
    for k in [W, 2 * W, 3 * W] {
        v.extend([Nat::pow2(k).sub(&one()).unwrap(), Nat::pow2(k), Nat::pow2(k).add(&one()), Nat::pow2(k - 1)]);
    }
    for l in [2, 3, 4, 8, 17, 25, 33, 40] {
        v.push(generic(l as u64, l));
        v.push(words(&vec![MAXW; l]));
        v.push(Nat::pow2(l * W - 1));
        let g = generic(l as u64, l);
        v.push(g.sub(&Nat::from_u(3)).unwrap());
        if tier.thorough() {
            v.push(g.shl(W));
            v.push(g.shl(7).add(&Nat::from_u(9)));
        }
    }
    if tier.thorough() {
        for l in [50, 66, 100, 193, 260] {
            v.push(generic(l as u64, l));
            v.push(words(&vec![MAXW; l]));
        }
    }
    dedup(&mut v);
    v
}

/// Near the limit, where it is reachable.
fn edge() -> Vec<Nat> {
    if W > 16 {
        return vec![];
    }
    let top = Nat::pow2(LIM).sub(&one()).unwrap();
    vec![
        top.clone(),
        Nat::pow2(LIM - 1),
        top.sub(&Nat::pow2(LIM - 1)).unwrap(),
        Nat::pow2(LIM - 1).add(&one()),
        Nat::pow2(LIM / 2),
        Nat::pow2(LIM / 2).sub(&one()).unwrap(),
        Nat::pow2(LIM - W),
        generic(5, LIM / W),
    ]
}

fn main() {
    mc::main("C27", |tier| {
        let mut v = vec![];
        let dom = domain(tier);
        for a in dom.clone() {
            let dom = dom.clone();
            v.push(block("pairs", move |ctx| {
                for b in &dom {
                    ctx.state(|| d2(&a, b), |c| binary(c, &a, b, 0, 0));
                    if wlen(&a) > 1 && wlen(b) > 1 && wlen(&a) < 10 && wlen(b) < 10 {
                        ctx.state(|| format!("storage variants, {}", d2(&a, b)), |c| {
                            for (x, y) in [(1, 2), (2, 1), (2, 2), (1, 1)] {
                                binary(c, &a, b, x, y);
                            }
                        });
                    }
                }
            }));
        }
        for a in edge() {
            let mut others = edge();
            others.extend([0u128, 1, 2, 3, 65535, 65536].map(Nat::from_u));
            others.push(generic(3, 40));
            v.push(block("pairs at the limit", move |ctx| {
                for b in &others {
                    // The cost of long Euclid is left to C25.
                    ctx.state(|| format!("bits {} and {}: {}", a.bit_len(), b.bit_len(), d2(&a, b)), |c| {
                        binary(c, &a, b, 0, 0);
                        binary(c, b, &a, 0, 0);
                    });
                }
            }));
        }
        for (k, a) in dom.iter().cloned().chain(edge()).enumerate() {
            let a2 = a.clone();
            v.push(block(format!("primitives-{k}"), move |ctx| {
                let n = &a2;
                let a = &to_u(n);
                ctx.state(|| format!("a={}", n.hex()), |c| {
                    prims_u!(c, a, n, u8 u16 u32 u64 u128 usize);
                    prims_i!(c, a, n, i8 i16 i32 i64 i128 isize);
                });
            }));
            v.push(block(format!("unary-{k}"), move |ctx| {
                for s in 0..if a.bit_len() < 60000 { 3 } else { 1 } {
                    ctx.state(|| format!("a={} storage {s}", a.hex()), |c| unary(c, &a, s));
                }
            }));
        }
        // Small values: the deciding conditions on all of them.
        for a in 0..tier.pick(100u128, 400) {
            v.push(block("small pairs", move |ctx| {
                for b in 0..tier.pick(100u128, 400) {
                    let (a, b) = (Nat::from_u(a), Nat::from_u(b));
                    ctx.state(|| d2(&a, &b), |c| binary(c, &a, &b, 0, 0));
                }
            }));
        }
        // Neighbours: subtraction decides on the last bit.
        v.push(block("neighbours", move |ctx| {
            for l in 1..tier.pick(45usize, 140) {
                for n in pats_few(l) {
                    for k in [0, 1, W / 2, (l - 1) * W, l * W - 1] {
                        let d = Nat::pow2(k);
                        let up = n.add(&d);
                        ctx.state(|| format!("n={} and n + 2^{k}", n.hex()), |c| {
                            let (a, b) = (&to_u(&n), &to_u(&up));
                            forms!(c, asg_u, a, b, -, -=, true);
                            forms!(c, asg_u, b, a, -, -=, false);
                            forms!(c, asg_u, a, a, -, -=, false);
                            let (x, y) = (&IBig::from(a), &IBig::from(b));
                            forms!(c, asg_i, x, y, -, -=, false);
                            go(c, "UBig::try_from", false, || (UBig::try_from(x - y).is_err(), UBig::try_from(y - x).is_ok()));
                        });
                    }
                }
            }
        }));
        // Rings.
        let mods: Vec<Nat> = [1u128, 2, 3, 4, 6, 9, 30, 255]
            .into_iter()
            .map(Nat::from_u)
            .chain([words(&[MAXW]), Nat::pow2(W - 1), Nat::pow2(W), Nat::pow2(W).add(&one()), Nat::pow2(2 * W).sub(&one()).unwrap(), Nat::pow2(2 * W - 1), Nat::pow2(2 * W), generic(9, 3).mul(&Nat::from_u(6)), words(&[MAXW; 5]), Nat::pow2(5 * W - 1), Nat::pow2(6 * W).sub(&Nat::pow2(W)).unwrap(), generic(9, 40)])
            .collect();
        v.push(block("zero modulus", |ctx| {
            ctx.state(|| "ModuloRing::new(0)".into(), |c| {
                go(c, "new(0)", true, || ModuloRing::new(&UBig::from(0u8)));
                go(c, "new(0)", true, || ModuloRing::new(&(UBig::from(5u8) - UBig::from(5u8))));
                go(c, "new(0)", true, || ModuloRing::new(&((UBig::from(1u8) << (9 * W)) >> (10 * W))));
            });
        }));
        for m1 in mods.clone() {
            let mods = mods.clone();
            v.push(block("rings", move |ctx| {
                let vals = |m: &Nat| {
                    let mut w: Vec<Nat> = [0u128, 1, 2, 3, 6].into_iter().map(Nat::from_u).collect();
                    w.push(m.sub(&one()).unwrap());
                    w.push(m.shr(1));
                    w.push(m.divrem(&Nat::from_u(3)).0);
                    w.push(generic(77, wlen(m) + 1));
                    dedup(&mut w);
                    w
                };
                for m2 in &mods {
                    let eq = *m2 == m1;
                    let (xs, ys) = (vals(&m1), vals(m2));
                    for (i, a) in xs.iter().enumerate() {
                        for (j, b) in ys.iter().enumerate() {
                            if eq {
                                ctx.state(|| format!("one ring, modulus {}, {}", m1.hex(), d2(a, b)), |c| ring_pair(c, &m1, m2, true, a, b));
                            }
                            if eq || i + j < 3 || (i == j) {
                                ctx.state(|| format!("rings {} and {}, {}", m1.hex(), m2.hex(), d2(a, b)), |c| ring_pair(c, &m1, m2, false, a, b));
                            }
                        }
                    }
                }
                let u = to_u(&m1);
                let r = ModuloRing::new(&u);
                ctx.state(|| format!("conversions into the ring of {}", m1.hex()), |c| {
                    fn into<'a, T: IntoModulo>(c: &mut Chk, r: &'a ModuloRing, x: T) {
                        go(c, "ring.from", false, || r.from(x));
                    }
                    for n in domain(Tier::Quick).into_iter().chain(edge()) {
                        let u = to_u(&n);
                        into(c, &r, &u);
                        into(c, &r, -IBig::from(&u));
                        into(c, &r, &IBig::from(&u));
                        into(c, &r, u);
                    }
                    macro_rules! p { ($($t:ty)*) => { $( into(c, &r, <$t>::MIN); into(c, &r, <$t>::MAX); into(c, &r, 0 as $t); into(c, &r, 1 as $t); )* } }
                    p!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
                    into(c, &r, true);
                    into(c, &r, false);
                });
            }));
        }
        // Inverses of every residue of every small modulus.
        v.push(block("small rings", move |ctx| {
            for m in 1..tier.pick(80u128, 300) {
                let u = UBig::from(m);
                let r = ModuloRing::new(&u);
                for a in 0..m {
                    let g = Nat::from_u(a).gcd(&Nat::from_u(m));
                    let ok = g == one() || m == 1;
                    ctx.state(|| format!("{a} mod {m}"), |c| {
                        let x = &r.from(a);
                        go(c, "1 / x", !ok, || r.from(1u8) / x);
                        go(c, "0 / x", !ok, || &r.from(0u8) / x.clone());
                        go(c, "x ^ -3", !ok, || x.pow_signed(&IBig::from(-3)));
                        go(c, "x ^ 3", false, || x.pow_signed(&IBig::from(3)));
                        asg_m(c, "y /= x", !ok, &r.from(2u8), &r, &Nat::from_u(m), |y| *y /= x);
                        asg_m(c, "y /= x", !ok, &r.from(2u8), &r, &Nat::from_u(m), |y| *y /= x.clone());
                        c.ok(of_u(&x.residue()) == Nat::from_u(a), || "divisor changed".into());
                    });
                }
            }
        }));
        // Text: only the radix matters.
        let strs: Vec<String> = {
            let al = ["", "0", "1", "z", "Z", "-", "+", "_", " ", "x", "0x", "é", "\u{0}", "9", "٣"];
            let mut v = vec![];
            for a in al {
                for b in al {
                    for c in al {
                        v.push(format!("{a}{b}{c}"));
                    }
                }
            }
            for n in [1usize, 5, 20, 100, 500] {
                v.extend([format!("{}é", "1".repeat(n)), format!("é{}", "1".repeat(n)), format!("-{}", "0".repeat(n)), format!("{}_", "_".repeat(n)), format!("0x{}", "f".repeat(n)), format!("{}😀{}", "1".repeat(n), "1".repeat(n))]);
            }
            v.sort();
            v.dedup();
            v
        };
        for part in strs.chunks(300) {
            let part = part.to_vec();
            v.push(block("text", move |ctx| {
                for s in &part {
                    ctx.state(|| format!("{s:?}"), |c| {
                        for r in (0u32..39).chain([100, 256 + 10, 1 << 16, (1 << 16) + 16, u32::MAX]) {
                            let bad = !(2..=36).contains(&r);
                            go(c, "UBig::from_str_radix", bad, || UBig::from_str_radix(s, r).is_ok());
                            go(c, "IBig::from_str_radix", bad, || IBig::from_str_radix(s, r).is_ok());
                        }
                        go(c, "prefix", false, || (UBig::from_str_with_radix_prefix(s).is_ok(), IBig::from_str_with_radix_prefix(s).is_ok()));
                        go(c, "parse", false, || (s.parse::<UBig>().is_ok(), s.parse::<IBig>().is_ok()));
                        go(c, "bytes", false, || (UBig::from_le_bytes(s.as_bytes()), UBig::from_be_bytes(s.as_bytes())));
                        go(c, "errors", false, || format!("{:?}{}", UBig::from_str_radix(s, 10), UBig::from_str_radix(s, 10).map_or_else(|e| e.to_string(), |x| x.to_string())));
                    });
                }
            }));
        }
        // Histories rich in panics: the state after each caught panic is audited, and histories with
        // earlier panics continue from what they left.
        let mut ops = bin_ops(2, &[B::Sub, B::Div, B::Rem, B::AndNot], false);
        ops.extend([hist::Op::Const(0, 0), hist::Op::Const(1, 0), hist::Op::Const(0, 5), hist::Op::Swap(0, 1), hist::Op::Prim(B::Sub, 0, 1), hist::Op::Prim(B::Sub, 1, 0xffff), hist::Op::Prim(B::Div, 0, 0), hist::Op::Prim(B::Rem, 1, 0), hist::Op::Shr(F::AsgRef, 0, 0, W), hist::Op::Set(1, 2 * W)]);
        let starts = [(Nat::zero(), 0usize), (one(), 0), (generic(3, 2), 2), (generic(3, 2).add(&one()), 1), (generic(5, 9), 0), (Nat::pow2(19 * W), 2)];
        for (x, a) in starts.iter().enumerate() {
            for (y, b) in starts.iter().enumerate() {
                let (init, ops) = ((vec![a.clone(), b.clone()], vec![]), ops.clone());
                let mode = Mode { depth: 3, max_bits: 60 * W, cap: tier.pick(300, 6000), storage: false, poisons: &[0xA5] };
                v.push(block(format!("history-{x}-{y}"), move |ctx| explore(ctx, &init, &ops, mode)));
            }
        }
        let mut ops = bin_ops(2, &[B::Div, B::Rem, B::DivE, B::RemE, B::Sub], true);
        ops.extend([hist::Op::Const(0, 0), hist::Op::Const(0, 1), hist::Op::ToI(F::RefRef, 0, 0), hist::Op::ToI(F::RefRef, 1, 0), hist::Op::IPrim(B::Div, 0, 0), hist::Op::IPrim(B::Sub, 0, 1), hist::Op::TryU(F::RefRef, 0, 0)]);
        for (x, a) in starts.iter().enumerate() {
            for (y, b) in starts.iter().enumerate() {
                let init = (vec![(one(), 0)], vec![(Int::new(!a.0.is_zero(), a.0.clone()), a.1), (Int::pos(b.0.clone()), b.1)]);
                let ops = ops.clone();
                let mode = Mode { depth: 3, max_bits: 60 * W, cap: tier.pick(200, 6000), storage: false, poisons: &[0xA5] };
                v.push(block(format!("signed-history-{x}-{y}"), move |ctx| explore(ctx, &init, &ops, mode)));
            }
        }
        v
    });
}
