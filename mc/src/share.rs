//! Values shared between threads, and the operations that read them.
use crate::mem::Dig;
use crate::*;
use ibig::ops::*;
use ibig::{IBig, IntoModulo, Modulo, ModuloRing, UBig};
use std::hash::Hash;

pub struct Shared<'r> {
    pub a: UBig,
    pub b: UBig,
    pub s: IBig,
    pub t: IBig,
    pub ring: &'r ModuloRing,
    pub x: Modulo<'r>,
    pub y: Modulo<'r>,
    pub text: String,
    pub hex: String,
    pub bytes: Vec<u8>,
}
pub struct View<'a, 'r> {
    pub a: &'a UBig,
    pub b: &'a UBig,
    pub s: &'a IBig,
    pub t: &'a IBig,
    pub x: &'a Modulo<'r>,
    pub y: &'a Modulo<'r>,
    pub v: &'a Shared<'r>,
}
/// The values are shared whatever their types promise (the promise itself is checked separately).
pub struct Force<T>(pub T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

impl<'r> Shared<'r> {
    pub fn new(na: &Nat, nb: &Nat, ring: &'r ModuloRing) -> Shared<'r> {
        let (a, b) = (to_u(na), to_u(nb));
        Shared {
            s: -IBig::from(&a),
            t: IBig::from(&b),
            x: ring.from(&a),
            y: ring.from(&b + 3u8),
            text: a.to_string(),
            hex: format!("{b:x}"),
            bytes: a.to_be_bytes(),
            ring,
            a,
            b,
        }
    }
    /// The values as one of two threads reads them (the threads exchange the operands).
    pub fn view(&self, flip: bool) -> View<'_, 'r> {
        let (a, b, s, t, x, y) = (&self.a, &self.b, &self.s, &self.t, &self.x, &self.y);
        if flip {
            View { a: b, b: a, s: t, t: s, x: y, y: x, v: self }
        } else {
            View { a, b, s, t, x, y, v: self }
        }
    }
    /// Everything the values say.
    pub fn all(&self) -> u64 {
        let mut d = Dig(7);
        d.u(&self.a);
        d.u(&self.b);
        d.i(&self.s);
        d.i(&self.t);
        d.u(&self.x.residue());
        d.u(&self.y.residue());
        d.u(&self.ring.modulus());
        d.0
    }
}

/// A writer whose every call is a scheduling point.
struct Y<'d>(&'d mut Dig);
impl std::fmt::Write for Y<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        crate::sched::point();
        self.0.b(s.as_bytes());
        crate::sched::point();
        Ok(())
    }
}
macro_rules! w {
    ($d:expr, $($t:tt)*) => {{
        use std::fmt::Write;
        write!(Y($d), $($t)*).unwrap()
    }};
}

pub type Op = (&'static str, fn(&mut Dig, &View));

/// Operations on shared values; none may influence any other.
pub fn ops() -> Vec<Op> {
    vec![
        ("decimal", |d, v| w!(d, "{}", v.a)),
        ("padded", |d, v| w!(d, "{:+>90}", v.s)),
        ("radix3", |d, v| w!(d, "{}", v.b.in_radix(3))),
        ("hex", |d, v| w!(d, "{:#X}", v.a)),
        ("parse", |d, v| { d.u(&v.v.text.parse::<UBig>().unwrap()); d.u(&UBig::from_str_radix(&v.v.hex, 16).unwrap()) }),
        ("bytes", |d, v| { d.b(&v.a.to_le_bytes()); d.u(&UBig::from_be_bytes(&v.v.bytes)) }),
        ("add", |d, v| { d.u(&(v.a + v.b)); d.i(&(v.s + v.t)) }),
        ("sub", |d, v| d.i(&(v.s - v.t))),
        ("mul", |d, v| d.u(&(v.a * v.b))),
        ("divrem", |d, v| { let (q, r) = (v.a).div_rem(v.b); d.u(&q); d.u(&r) }),
        ("euclid", |d, v| { let (q, r) = (v.s).div_rem_euclid(v.t); d.i(&q); d.i(&r) }),
        ("small", |d, v| { d.b(&(v.a % 97u8).to_le_bytes()); d.u(&(v.a * 3u8)) }),
        ("bits", |d, v| { d.u(&(v.a & v.b)); d.i(&(v.s | v.t)); d.b(&[v.a.bit(5) as u8]); d.b(&v.a.trailing_zeros().unwrap_or(1).to_le_bytes()) }),
        ("shift", |d, v| { d.u(&(v.a << 37usize)); d.i(&(v.s >> 11usize)) }),
        ("clone", |d, v| { let mut c = v.a.clone(); c += 1u8; c.clone_from(v.b); c -= 1u8; d.u(&c) }),
        ("compare", |d, v| { d.b(&[(v.a < v.b) as u8, (v.s == v.t) as u8]); v.a.hash(d); v.s.hash(d) }),
        ("float", |d, v| { d.b(&v.a.to_f64().to_le_bytes()); d.b(&v.s.to_f32().to_le_bytes()) }),
        ("pow", |d, v| d.u(&(v.b % 65521u16).pow_small())),
        ("gcd", |d, v| d.u(&UBig::from(v.a % 30030u16).gcd(&(UBig::from(v.b % 30011u16) + 1u8)))),
        ("reduce", |d, v| { d.u(&v.v.ring.from(v.s).residue()); d.u(&(v.b).into_modulo(v.v.ring).residue()) }),
        ("ringadd", |d, v| { d.u(&(v.x + v.y).residue()); d.u(&(-v.x - v.y).residue()) }),
        ("ringmul", |d, v| { let mut z = v.x.clone(); z *= v.y; d.u(&z.residue()); d.b(&[(z == *v.x) as u8]) }),
        ("ringpow", |d, v| d.u(&v.x.pow(&UBig::from(0x1_0001u32)).residue())),
        ("inverse", |d, v| if let Some(i) = (&v.v.ring.from(7u8)).inverse() { d.u(&(i * v.y).residue()) }),
        ("ringinv", |d, v| { if let Some(i) = v.x.inverse() { d.u(&i.residue()) } d.u(&v.v.ring.modulus()); d.b(&[(v.x == v.y) as u8]) }),
        ("signedpow", |d, v| d.u(&v.y.pow_signed(&IBig::from(5)).residue())),
        ("ringprint", |d, v| w!(d, "{} {:?}", v.x, v.v.ring)),
    ]
}
trait PowSmall {
    fn pow_small(self) -> UBig;
}
impl PowSmall for u16 {
    fn pow_small(self) -> UBig {
        UBig::from(self).pow(21)
    }
}
