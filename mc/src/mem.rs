//! Operations exercised for memory discipline: each maps two operands to a digest of its outcomes.
use crate::*;
use ibig::ops::*;
use ibig::{IBig, IntoModulo, ModuloRing, UBig};
use std::fmt::Write;
use std::hash::{Hash, Hasher};

/// An outcome that can be compared: bytes without allocating in the tracked region are not needed,
/// the digest is enough.
pub struct Dig(pub u64);
impl Dig {
    pub fn b(&mut self, b: &[u8]) {
        for ch in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..ch.len()].copy_from_slice(ch);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        self.0 = self.0.rotate_left(7) ^ b.len() as u64;
    }
    pub fn u(&mut self, v: &UBig) {
        self.b(&v.to_le_bytes());
    }
    pub fn i(&mut self, v: &IBig) {
        self.u(&v.unsigned_abs());
        self.b(&[(*v < IBig::from(0u8)) as u8]);
    }
}
impl Hasher for Dig {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.b(b)
    }
}

/// A writer that fails after some bytes.
struct Short(usize);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

pub type F = Box<dyn Fn(&mut Dig, &UBig, &UBig) + Send + Sync>;

pub fn binary() -> Vec<(&'static str, F)> {
    vec![
        ("add", Box::new(|d, a, b| { d.u(&(a + b)); d.u(&(a.clone() + b.clone())); let mut x = a.clone(); x += b; d.u(&x) })),
        ("sub", Box::new(|d, a, b| { let (a, b) = if a >= b { (a, b) } else { (b, a) }; d.u(&(a - b)); d.u(&(a - b.clone())); d.u(&(a.clone() - b)) })),
        ("sub-negative", Box::new(|d, a, b| { let (a, b) = if a < b { (a, b) } else { (b, a) }; d.u(&(a - b.clone())) })),
        ("sub-negative-own", Box::new(|d, a, b| { let (a, b) = if a < b { (a, b) } else { (b, a) }; let mut x = a.clone(); x -= b; d.u(&x) })),
        ("isub", Box::new(|d, a, b| { let (a, b) = (IBig::from(a), IBig::from(b)); d.i(&(&a - &b)); d.i(&(a.clone() - &b)); d.i(&(&a + -&b)); d.i(&(a - b)) })),
        ("mul", Box::new(|d, a, b| { d.u(&(a * b)); d.u(&(b.clone() * a.clone())) })),
        ("div", Box::new(|d, a, b| { let (q, r) = a.div_rem(b); d.u(&q); d.u(&r); d.u(&(a.clone() / b)); d.u(&(a % b.clone())); d.u(&(a.clone() % b.clone())) })),
        ("idiv", Box::new(|d, a, b| { let (a, b) = (-IBig::from(a), IBig::from(b)); let (q, r) = (&a).div_rem_euclid(&b); d.i(&q); d.i(&r); d.i(&(&a % &b)); d.i(&(a / -b)) })),
        ("gcd", Box::new(|d, a, b| d.u(&a.gcd(b)))),
        ("extgcd", Box::new(|d, a, b| { let (g, x, y) = a.extended_gcd(b); d.u(&g); d.i(&x); d.i(&y) })),
        ("bits", Box::new(|d, a, b| { d.u(&(a & b)); d.u(&(a | b.clone())); d.u(&(a.clone() ^ b)); d.u(&a.and_not(b)) })),
        ("ibits", Box::new(|d, a, b| { let (a, b) = (-IBig::from(a), IBig::from(b)); d.i(&(&a & &b)); d.i(&(&a | &b)); d.i(&(&a ^ !&b)); d.i(&(&b).and_not(a)) })),
        ("clonefrom", Box::new(|d, a, b| { let mut x = a.clone(); x.clone_from(b); d.u(&x); x.clone_from(a); d.u(&x); let mut y = IBig::from(b); y.clone_from(&-IBig::from(a)); d.i(&y) })),
        ("cmp", Box::new(|d, a, b| { d.b(&[(a < b) as u8, (a == b) as u8]); a.hash(d); (-IBig::from(b)).hash(d) })),
        ("ring", Box::new(|d, a, b| {
            let r = ModuloRing::new(b);
            let x = r.from(a);
            let y = r.from(a.clone() + 1u8);
            d.u(&(&x * &y).residue());
            d.u(&(&x + &y).residue());
            d.u(&(&y - x.clone()).residue());
            d.u(&(-&x).residue());
            d.u(&r.from(-IBig::from(a)).residue());
            let mut z = r.from(1u8);
            z.clone_from(&x);
            z *= y;
            d.u(&z.residue());
            d.b(&[(z == x) as u8]);
        })),
        ("ringpow", Box::new(|d, a, b| {
            let r = ModuloRing::new(b);
            let x = a.into_modulo(&r);
            d.u(&x.pow(&UBig::from(0x9876_5432u32)).residue());
            if let Some(i) = x.inverse() {
                d.u(&i.residue());
            }
            d.u(&(r.from(1u8) / x).residue());
        })),
        ("ringmix", Box::new(|d, a, b| {
            let (r, s) = (ModuloRing::new(b), ModuloRing::new(b));
            let (x, y) = (r.from(a), s.from(a));
            d.u(&(x + y).residue());
        })),
    ]
}

pub fn unary() -> Vec<(&'static str, F)> {
    vec![
        ("shl", Box::new(|d, a, b| { for k in [1, W - 1, W, 3 * W + 1, b.bit_len()] { d.u(&(a << k)); d.u(&(a.clone() << k)); let mut x = a.clone(); x <<= k; d.u(&x) } })),
        ("shr", Box::new(|d, a, b| { for k in [1, W - 1, W, 3 * W + 1, b.bit_len()] { d.u(&(a >> k)); d.u(&(a.clone() >> k)); d.i(&(-IBig::from(a) >> k)) } })),
        ("text", Box::new(|d, a, _| for r in [2, 3, 8, 10, 16, 32, 36] {
            let s = a.in_radix(r).to_string();
            d.b(s.as_bytes());
            d.u(&UBig::from_str_radix(&s, r).unwrap());
            d.b(&[IBig::from_str_radix(&(s + "?"), r).is_err() as u8]);
        })),
        ("fmt", Box::new(|d, a, _| {
            d.b(format!("{a} {a:x} {a:#X} {a:o} {a:b} {a:>80} {a:#050x} {a:?}").as_bytes());
            for k in [0, 1, 7, 40, 200] {
                d.b(&[write!(Short(k), "{a}").is_err() as u8, write!(Short(k), "{:#x}", -IBig::from(a)).is_err() as u8]);
            }
        })),
        ("bytes", Box::new(|d, a, _| { let (l, b) = (a.to_le_bytes(), a.to_be_bytes()); d.b(&l); d.b(&b); d.u(&UBig::from_le_bytes(&l)); d.u(&UBig::from_be_bytes(&b)) })),
        ("bit", Box::new(|d, a, _| for k in [0, 1, W, 2 * W + 3, a.bit_len().saturating_sub(1), a.bit_len(), a.bit_len() + 3 * W] {
            let mut x = a.clone();
            x.set_bit(k);
            d.u(&x);
            let mut x = a.clone();
            x.clear_bit(k);
            d.u(&x);
            d.b(&[a.bit(k) as u8]);
        })),
        ("pow2", Box::new(|d, a, _| { d.u(&a.next_power_of_two()); d.u(&a.clone().next_power_of_two()); d.b(&[a.is_power_of_two() as u8]); d.b(&a.trailing_zeros().unwrap_or(9).to_le_bytes()) })),
        ("float", Box::new(|d, a, _| { d.b(&a.to_f64().to_le_bytes()); d.b(&a.to_f32().to_le_bytes()) })),
        ("prim", Box::new(|d, a, _| {
            d.u(&(a * 0xfffe_u16)); d.u(&(a + 255u8)); d.u(&(a / 77u8)); d.b(&(a % 77u64).to_le_bytes());
            d.i(&(IBig::from(a) * -3i128)); d.b(&[u64::try_from(a).is_ok() as u8, i128::try_from(-IBig::from(a)).is_ok() as u8]);
            d.u(&(5u8 + a));
        })),
        ("prim-panic", Box::new(|d, a, _| { d.u(&(a.clone() * -1i8 - 1i8)) })),
        ("zero", Box::new(|d, a, _| { d.u(&(a.clone() / UBig::from(0u8))) })),
        ("zero-rem", Box::new(|d, a, _| { let mut x = IBig::from(a); x %= 0u8; d.i(&x) })),
        ("convert", Box::new(|d, a, _| { let i = -IBig::from(a); d.b(&[UBig::try_from(i.clone()).is_ok() as u8, UBig::try_from(&-&i).is_ok() as u8]); d.u(&i.clone().unsigned_abs()); d.i(&!i) })),
    ]
}

pub fn contents(n: usize, k: usize) -> Nat {
    if n == 0 {
        return Nat::zero();
    }
    match k {
        0 => words(&vec![MAXW; n]),
        1 => generic(31, n),
        2 => Nat::pow2(n * W - 1),
        _ => Nat::pow2((n - 1) * W).add(&Nat::from_u(1)),
    }
}

