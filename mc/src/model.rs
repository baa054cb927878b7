//! The reference model: deliberately naive arithmetic. Nothing here calls ibig except the two
//! conversion helpers at the end.
use ibig::{IBig, UBig};
use std::cmp::Ordering;

#[cfg(target_pointer_width = "64")]
pub type Limb = u64;
#[cfg(target_pointer_width = "64")]
pub type Wide = u128;
#[cfg(target_pointer_width = "32")]
pub type Limb = u32;
#[cfg(target_pointer_width = "32")]
pub type Wide = u64;
pub const LB: usize = Limb::BITS as usize;

/// Natural number, little endian limbs, no leading zeros.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Nat(pub Vec<Limb>);

impl Nat {
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    pub fn from_u(x: u128) -> Nat {
        Nat::from_le(&x.to_le_bytes())
    }
    pub fn norm(mut v: Vec<Limb>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    pub fn from_le(b: &[u8]) -> Nat {
        let mut v = vec![0 as Limb; b.len() / (LB / 8) + 1];
        for (i, x) in b.iter().enumerate() {
            v[i / (LB / 8)] |= (*x as Limb) << (8 * (i % (LB / 8)));
        }
        Nat::norm(v)
    }
    /// Minimal little-endian bytes.
    pub fn le(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.0.len() * LB / 8);
        for x in &self.0 {
            r.extend_from_slice(&x.to_le_bytes());
        }
        while r.last() == Some(&0) {
            r.pop();
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn to_u128(&self) -> Option<u128> {
        let b = self.le();
        if b.len() > 16 {
            return None;
        }
        let mut a = [0u8; 16];
        a[..b.len()].copy_from_slice(&b);
        Some(u128::from_le_bytes(a))
    }
    pub fn bit(&self, n: usize) -> bool {
        n / LB < self.0.len() && (self.0[n / LB] >> (n % LB)) & 1 == 1
    }
    pub fn bit_len(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * LB - t.leading_zeros() as usize,
        }
    }
    pub fn trailing_zeros(&self) -> Option<usize> {
        (0..self.bit_len()).find(|i| self.bit(*i))
    }
    pub fn with_bit(&self, n: usize, val: bool) -> Nat {
        let mut v = self.0.clone();
        if v.len() <= n / LB {
            v.resize(n / LB + 1, 0);
        }
        if val {
            v[n / LB] |= 1 << (n % LB);
        } else {
            v[n / LB] &= !(1 << (n % LB));
        }
        Nat::norm(v)
    }
    pub fn pow2(n: usize) -> Nat {
        Nat::zero().with_bit(n, true)
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c: Wide = 0;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as Wide + *o.0.get(i).unwrap_or(&0) as Wide;
            v.push(c as Limb);
            c >>= LB;
        }
        v.push(c as Limb);
        Nat::norm(v)
    }
    /// self - o, None if negative.
    pub fn sub(&self, o: &Nat) -> Option<Nat> {
        if self.cmp(o) == Ordering::Less {
            return None;
        }
        let mut v = self.0.clone();
        let mut borrow = false;
        for i in 0..v.len() {
            let (x, b1) = v[i].overflowing_sub(*o.0.get(i).unwrap_or(&0));
            let (x, b2) = x.overflowing_sub(borrow as Limb);
            v[i] = x;
            borrow = b1 | b2;
        }
        assert!(!borrow);
        Some(Nat::norm(v))
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0 as Limb; self.0.len() + o.0.len()];
        for (i, x) in self.0.iter().enumerate() {
            if *x == 0 {
                continue;
            }
            let mut c: Wide = 0;
            for (j, y) in o.0.iter().enumerate() {
                c += v[i + j] as Wide + *x as Wide * *y as Wide;
                v[i + j] = c as Limb;
                c >>= LB;
            }
            v[i + o.0.len()] = c as Limb;
        }
        Nat::norm(v)
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let mut v = vec![0 as Limb; n / LB];
        let s = n % LB;
        let mut c: Limb = 0;
        for x in &self.0 {
            if s == 0 {
                v.push(*x);
            } else {
                v.push((*x << s) | c);
                c = *x >> (LB - s);
            }
        }
        v.push(c);
        Nat::norm(v)
    }
    pub fn shr(&self, n: usize) -> Nat {
        let k = n / LB;
        if k >= self.0.len() {
            return Nat::zero();
        }
        let s = n % LB;
        let mut v = Vec::new();
        for i in k..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0);
            v.push(if s == 0 { self.0[i] } else { (self.0[i] >> s) | (hi << (LB - s)) });
        }
        Nat::norm(v)
    }
    /// Are any of the low n bits set?
    pub fn low_bits(&self, n: usize) -> bool {
        match self.trailing_zeros() {
            None => false,
            Some(t) => t < n,
        }
    }
    /// In-place (self * m + a).
    pub fn mul_small_add(&mut self, m: u32, a: u32) {
        let mut c: Wide = a as Wide;
        for x in self.0.iter_mut() {
            c += *x as Wide * m as Wide;
            *x = c as Limb;
            c >>= LB;
        }
        if c != 0 {
            self.0.push(c as Limb);
        }
    }
    /// (self / d, self % d)
    pub fn divrem_small(&self, d: u32) -> (Nat, u32) {
        let mut v = self.0.clone();
        let mut r: Wide = 0;
        for x in v.iter_mut().rev() {
            let cur = (r << LB) | *x as Wide;
            *x = (cur / d as Wide) as Limb;
            r = cur % d as Wide;
        }
        (Nat::norm(v), r as u32)
    }
    /// Binary long division.
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Nat::zero(), self.clone());
        }
        if let (Some(a), Some(b)) = (self.to_u128(), d.to_u128()) {
            return (Nat::from_u(a / b), Nat::from_u(a % b));
        }
        let n = self.bit_len();
        let mut q = vec![0 as Limb; self.0.len()];
        let dl = d.0.len();
        let mut r = vec![0 as Limb; dl + 1];
        for i in (0..n).rev() {
            // r = 2r + bit
            let mut c = self.bit(i) as Limb;
            for x in r.iter_mut() {
                let t = *x >> (LB - 1);
                *x = (*x << 1) | c;
                c = t;
            }
            // r >= d ?
            let mut ge = true;
            if r[dl] == 0 {
                for j in (0..dl).rev() {
                    if r[j] != d.0[j] {
                        ge = r[j] > d.0[j];
                        break;
                    }
                }
            }
            if ge {
                let mut borrow = false;
                for j in 0..=dl {
                    let y = if j < dl { d.0[j] } else { 0 };
                    let (x, b1) = r[j].overflowing_sub(y);
                    let (x, b2) = x.overflowing_sub(borrow as Limb);
                    r[j] = x;
                    borrow = b1 | b2;
                }
                q[i / LB] |= 1 << (i % LB);
            }
        }
        (Nat::norm(q), Nat::norm(r))
    }
    pub fn pow(&self, e: usize) -> Nat {
        let mut r = Nat::from_u(1);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn digits(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = Vec::new();
        let mut x = self.clone();
        // Peel several digits at a time.
        let mut k = 1;
        let mut m = radix;
        while m as u64 * (radix as u64) < 1 << 31 {
            m *= radix;
            k += 1;
        }
        while !x.is_zero() {
            let (q, mut r) = x.divrem_small(m);
            x = q;
            for _ in 0..k {
                s.push(std::char::from_digit(r % radix, radix).unwrap() as u8);
                r /= radix;
            }
        }
        while s.last() == Some(&b'0') {
            s.pop();
        }
        s.reverse();
        String::from_utf8(s).unwrap()
    }
    pub fn hex(&self) -> String {
        let mut s = String::from("0x");
        let b = self.le();
        if b.is_empty() {
            s.push('0');
        }
        for x in b.iter().rev() {
            s.push_str(&format!("{:02x}", x));
        }
        if s.len() > 1100 {
            s = format!("{}...{}({} hex digits)", &s[..40], &s[s.len() - 40..], s.len() - 2);
        }
        s
    }
}

/// Integer: sign and magnitude, zero is not negative.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}

impl Int {
    pub fn new(neg: bool, mag: Nat) -> Int {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    pub fn from_i(x: i128) -> Int {
        Int::new(x < 0, Nat::from_u(x.unsigned_abs()))
    }
    pub fn pos(mag: Nat) -> Int {
        Int::new(false, mag)
    }
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.mag.to_u128()?;
        if self.neg {
            if m <= 1 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, self.mag.add(&o.mag));
        }
        match self.mag.sub(&o.mag) {
            Some(d) => Int::new(self.neg, d),
            None => Int::new(o.neg, o.mag.sub(&self.mag).unwrap()),
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    /// Truncating division.
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.mag.divrem(&o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    /// Euclidean division.
    pub fn divrem_euclid(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.divrem(o);
        if r.neg {
            let one = Int::from_i(1);
            let q = if o.neg { q.add(&one) } else { q.sub(&one) };
            (q, r.add(&Int::pos(o.mag.clone())))
        } else {
            (q, r)
        }
    }
    pub fn shl(&self, n: usize) -> Int {
        Int::new(self.neg, self.mag.shl(n))
    }
    /// Floor shift.
    pub fn shr(&self, n: usize) -> Int {
        let q = self.mag.shr(n);
        if self.neg && self.mag.low_bits(n) {
            Int::new(true, q.add(&Nat::from_u(1)))
        } else {
            Int::new(self.neg, q)
        }
    }
    fn twos(&self, n: usize) -> Vec<Limb> {
        let mut v = self.mag.0.clone();
        v.resize(n, 0);
        if self.neg {
            let mut c = true;
            for x in v.iter_mut() {
                let (y, o) = (!*x).overflowing_add(c as Limb);
                *x = y;
                c = o;
            }
        }
        v
    }
    /// Bitwise operation on infinite two's complement.
    pub fn bitop(&self, o: &Int, f: impl Fn(Limb, Limb) -> Limb) -> Int {
        let n = self.mag.0.len().max(o.mag.0.len()) + 1;
        let mut v: Vec<Limb> =
            self.twos(n).iter().zip(o.twos(n).iter()).map(|(a, b)| f(*a, *b)).collect();
        let neg = v[n - 1] >> (LB - 1) == 1;
        if neg {
            let mut c = true;
            for x in v.iter_mut() {
                let (y, o) = (!*x).overflowing_add(c as Limb);
                *x = y;
                c = o;
            }
        }
        Int::new(neg, Nat::norm(v))
    }
    pub fn not(&self) -> Int {
        self.neg().sub(&Int::from_i(1))
    }
    pub fn pow(&self, e: usize) -> Int {
        Int::new(self.neg && e % 2 == 1, self.mag.pow(e))
    }
    pub fn hex(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.hex())
    }
    pub fn digits(&self, radix: u32) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.digits(radix))
    }
}

// Bridges between model and implementation.

pub fn to_u(n: &Nat) -> UBig {
    UBig::from_le_bytes(&n.le())
}
pub fn to_i(n: &Int) -> IBig {
    let m = IBig::from(to_u(&n.mag));
    if n.neg {
        -m
    } else {
        m
    }
}
pub fn of_u(u: &UBig) -> Nat {
    Nat::from_le(&u.to_le_bytes())
}
pub fn of_i(i: &IBig) -> Int {
    use ibig::ops::UnsignedAbs;
    let neg = *i < IBig::from(0u8);
    let mag: UBig = i.unsigned_abs();
    Int { neg, mag: of_u(&mag) }
}

impl Nat {
    /// Division by a 64-bit divisor through 128-bit arithmetic on 32-bit digits.
    pub fn divrem_small_u64(&self, d: u64) -> (Nat, u64) {
        let b = self.le();
        let mut q = vec![0u8; b.len()];
        let mut r: u128 = 0;
        for i in (0..b.len()).rev() {
            let cur = (r << 8) | b[i] as u128;
            q[i] = (cur / d as u128) as u8;
            r = cur % d as u128;
        }
        (Nat::from_le(&q), r as u64)
    }
}

impl Nat {
    /// The number denoted by valid digit characters in a radix.
    pub fn parse(s: &str, radix: u32) -> Nat {
        let mut n = Nat::zero();
        let (mut m, mut a) = (1u64, 0u64);
        for ch in s.chars() {
            let d = ch.to_digit(36).unwrap();
            assert!(d < radix);
            m *= radix as u64;
            a = a * radix as u64 + d as u64;
            if m * radix as u64 > u32::MAX as u64 {
                n.mul_small_add(m as u32, a as u32);
                m = 1;
                a = 0;
            }
        }
        if m > 1 {
            n.mul_small_add(m as u32, a as u32);
        }
        n
    }
}

/// Compares the model with the machine's and the standard library's own arithmetic on all pairs of
/// boundary values, and its long operations with each other. Run at the start of every exploration.
pub fn selfcheck() {
    let mut vals: Vec<u128> = vec![0, 1, 2, 3, 5, 7, 10, 0x1234_5678_9abc_def0];
    for k in [7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 79, 95, 96, 97, 126, 127] {
        for d in [-1i8, 0, 1] {
            vals.push((1u128 << k).wrapping_add(d as u128));
        }
    }
    vals.push(u128::MAX);
    let n = |x: u128| Nat::from_u(x);
    for &a in &vals {
        assert_eq!(n(a).to_u128(), Some(a));
        assert_eq!(n(a).bit_len() as u32, 128 - a.leading_zeros());
        assert_eq!(n(a).trailing_zeros(), if a == 0 { None } else { Some(a.trailing_zeros() as usize) });
        assert_eq!(n(a).digits(10), a.to_string());
        assert_eq!(n(a).digits(16), format!("{a:x}"));
        assert_eq!(Nat::parse(&a.to_string(), 10), n(a));
        for k in [0usize, 1, 15, 16, 31, 32, 63, 64, 65, 100, 127] {
            assert_eq!(n(a).shr(k).to_u128(), Some(a >> k));
            if a.leading_zeros() as usize >= k {
                assert_eq!(n(a).shl(k).to_u128(), Some(a << k));
            }
            let i = (a >> 1) as i128;
            assert_eq!(Int::from_i(-i).shr(k).to_i128(), Some(-i >> k));
        }
        for &b in &vals {
            assert_eq!(n(a).cmp(&n(b)), a.cmp(&b));
            assert_eq!(n(a).add(&n(b)).to_u128(), a.checked_add(b));
            assert_eq!(n(a).sub(&n(b)).map(|x| x.to_u128().unwrap()), a.checked_sub(b));
            assert_eq!(n(a).mul(&n(b)).to_u128(), a.checked_mul(b));
            if b != 0 {
                let (q, r) = n(a).divrem(&n(b));
                assert_eq!((q.to_u128(), r.to_u128()), (Some(a / b), Some(a % b)));
                // A long dividend: the identity determines quotient and remainder.
                let x = n(a).shl(77).add(&n(b).mul(&n(a)));
                let (q, r) = x.divrem(&n(b));
                assert!(r.cmp(&n(b)) == Ordering::Less && q.mul(&n(b)).add(&r) == x);
            }
            let (i, j) = ((a >> 1) as i128, (b >> 1) as i128);
            for (i, j) in [(i, j), (-i, j), (i, -j), (-i, -j)] {
                let (x, y) = (Int::from_i(i), Int::from_i(j));
                assert_eq!(x.cmp(&y), i.cmp(&j));
                assert_eq!(x.bitop(&y, |a, b| a & b).to_i128(), Some(i & j));
                assert_eq!(x.bitop(&y, |a, b| a | b).to_i128(), Some(i | j));
                assert_eq!(x.bitop(&y, |a, b| a ^ b).to_i128(), Some(i ^ j));
                if let Some(s) = i.checked_add(j) {
                    assert_eq!(x.add(&y).to_i128(), Some(s));
                }
                if let Some(s) = i.checked_sub(j) {
                    assert_eq!(x.sub(&y).to_i128(), Some(s));
                }
                if j != 0 {
                    let (q, r) = x.divrem(&y);
                    assert_eq!((q.to_i128(), r.to_i128()), (Some(i / j), Some(i % j)));
                    let (q, r) = x.divrem_euclid(&y);
                    assert_eq!((q.to_i128(), r.to_i128()), (Some(i.div_euclid(j)), Some(i.rem_euclid(j))));
                }
            }
        }
    }
    let p = |a: &Nat, e: u32| (0..e).fold(Nat::from_u(1), |x, _| x.mul(a));
    for a in [2u128, 3, 10, u64::MAX as u128, u128::MAX] {
        for e in 0..9 {
            assert_eq!(n(a).pow(e as usize), p(&n(a), e));
        }
    }
    for a in 0..40u128 {
        for b in 0..40u128 {
            if a + b > 0 {
                let g = n(a).gcd(&n(b)).to_u128().unwrap();
                let best = (1..=40).rev().find(|d| a % d == 0 && b % d == 0).unwrap();
                assert_eq!(g, best);
            }
        }
    }
}
