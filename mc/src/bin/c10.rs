//! C10: order, equality, hash and sign are functions of the numeric value.
use ibig::ops::{Abs, DivRem, UnsignedAbs};
use ibig::{IBig, UBig};
use mc::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Records exactly what is fed to it.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hashes<T: Hash>(x: &T) -> (Vec<u8>, u64) {
    let mut r = Rec::default();
    x.hash(&mut r);
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    (r.0, d.finish())
}

/// The same value by many different routes.
fn routes(n: &Nat) -> Vec<(&'static str, UBig)> {
    let l = n.bit_len();
    let u = to_u(n);
    let one = UBig::from(1u8);
    let mut v = vec![("from_le_bytes", u.clone())];
    v.push(("tight", mk_tight(n)));
    v.push(("spare", mk_spare(n)));
    let mut be = n.le();
    be.extend([0; 40]);
    v.push(("le padded", UBig::from_le_bytes(&be)));
    be.reverse();
    v.push(("be padded", UBig::from_be_bytes(&be)));
    v.push(("parse 16", UBig::from_str_radix(&format!("000{}", n.digits(16)), 16).unwrap()));
    v.push(("parse 10", n.digits(10).parse().unwrap()));
    v.push(("sub from longer", (&u + (&one << (l + 3 * W))) - (&one << (l + 3 * W))));
    v.push(("sub from one word longer", (&one << ((l / W + 1) * W)) + &u - (&one << ((l / W + 1) * W))));
    v.push(("shr", (&u << (2 * W + 3)) >> (2 * W + 3)));
    v.push(("ref shr", &(&u << (5 * W)) >> (5 * W)));
    v.push(("mul div", (&u * &(&one << (W + 1))) / &(&one << (W + 1))));
    let m = UBig::from(0x1_0000_0001u64).pow(5);
    v.push(("mul3 div", (&u * &m) / &m));
    v.push(("rem", ((&u + &one) * &m + &u) % &((&u + &one) * &m)));
    v.push(("div_rem", ((&u + &one) * &m + &u).div_rem(&((&u + &one) * &m)).1));
    v.push(("and", ((&one << (l + 100)) | &u) & &((&one << l) - &one)));
    v.push(("xor", ((&one << (l + 200)) ^ &u) ^ &(&one << (l + 200))));
    let mut s = u.clone();
    s.set_bit(l + 3 * W);
    s.clear_bit(l + 3 * W);
    v.push(("set clear", s));
    let mut s = UBig::from(0u8);
    for i in 0..l {
        if n.bit(i) {
            s.set_bit(i);
        }
    }
    v.push(("set bits", s));
    let mut s = &one << (l + 6 * W);
    s.clone_from(&u);
    v.push(("clone_from", s));
    let mut s = &u + &one;
    s -= &one;
    v.push(("add sub", s));
    v.push(("via ibig", UBig::try_from(-(IBig::from(&u) * IBig::from(-1))).unwrap()));
    v.push(("abs", (-IBig::from(&u)).unsigned_abs()));
    let mut s = u.clone();
    s.set_bit(l + 8 * W);
    s %= &(&one << (l + 8 * W));
    v.push(("rem assign", s));
    if !n.is_zero() {
        v.push(("gcd", u.gcd(&(&u * &m))));
    }
    v
}

fn sroutes(n: &Int) -> Vec<(&'static str, IBig)> {
    let u = to_u(&n.mag);
    let base = if n.neg { -IBig::from(&u) } else { IBig::from(&u) };
    let big = IBig::from(1u8) << (n.mag.bit_len() + 3 * W);
    let mut v = vec![("base", base.clone())];
    v.push(("neg neg", -(-base.clone())));
    v.push(("add sub", (&base + &big) - &big));
    v.push(("sub add", (&base - &big) + &big));
    v.push(("mul -1 -1", base.clone() * IBig::from(-1) * IBig::from(-1)));
    v.push(("not not", !!base.clone()));
    v.push(("shl shr", (&base << 77) >> 77));
    v.push(("parse", n.digits(16).to_string().parse_radix()));
    v.push(("div", (&base * &big) / &big));
    v.push(("rem", &base % &big));
    v.push(("clone_from", {
        let mut x = big.clone();
        x.clone_from(&base);
        x
    }));
    v.push(("signum*abs", base.signum() * (&base).abs()));
    v.push(("or", &base | IBig::from(0u8)));
    v.push(("0-(-x)", IBig::from(0u8) - (-base.clone())));
    v.push(("x-0", &base - IBig::from(0u8)));
    v.push(("cancel", (&base - &base) + &base));
    v
}
trait ParseRadix {
    fn parse_radix(&self) -> IBig;
}
impl ParseRadix for String {
    fn parse_radix(&self) -> IBig {
        IBig::from_str_radix(self, 16).unwrap()
    }
}

fn cmp_all(c: &mut Chk, a: &UBig, b: &UBig, o: Ordering) {
    c.ok(a.cmp(b) == o, || format!("cmp: got {:?} want {:?}", a.cmp(b), o));
    c.ok(a.partial_cmp(b) == Some(o), || "partial_cmp".into());
    c.ok((a == b) == o.is_eq(), || "==".into());
    c.ok((a != b) == o.is_ne(), || "!=".into());
    c.ok((a < b) == o.is_lt() && (a <= b) == o.is_le() && (a > b) == o.is_gt() && (a >= b) == o.is_ge(), || "<,<=,>,>=".into());
}
fn icmp_all(c: &mut Chk, a: &IBig, b: &IBig, o: Ordering) {
    c.ok(a.cmp(b) == o, || format!("ibig cmp: got {:?} want {:?}", a.cmp(b), o));
    c.ok(a.partial_cmp(b) == Some(o), || "ibig partial_cmp".into());
    c.ok((a == b) == o.is_eq(), || "ibig ==".into());
    c.ok((a != b) == o.is_ne(), || "ibig !=".into());
    c.ok((a < b) == o.is_lt() && (a <= b) == o.is_le() && (a > b) == o.is_gt() && (a >= b) == o.is_ge(), || "ibig <,<=,>,>=".into());
}

fn sign_props(c: &mut Chk, n: &Int, x: &IBig) {
    let zero = n.mag.is_zero();
    c.i("neg", &-x, &n.neg());
    c.i("neg owned", &-x.clone(), &n.neg());
    c.i("abs", &x.abs(), &Int::pos(n.mag.clone()));
    c.i("abs owned", &x.clone().abs(), &Int::pos(n.mag.clone()));
    c.u("unsigned_abs", &x.unsigned_abs(), &n.mag);
    c.u("unsigned_abs owned", &x.clone().unsigned_abs(), &n.mag);
    c.i("signum", &x.signum(), &Int::from_i(if zero { 0 } else if n.neg { -1 } else { 1 }));
    let z = IBig::from(0u8);
    icmp_all(c, x, &z, if zero { Ordering::Equal } else if n.neg { Ordering::Less } else { Ordering::Greater });
    c.ok((*x == -x) == zero, || "x == -x".into());
    c.ok(x.to_string().starts_with('-') == n.neg, || "printed sign".into());
    c.ok(UBig::try_from(x).is_ok() == !n.neg, || "conversion to unsigned".into());
}

fn main() {
    mc::main("C10", |tier| {
        let mut v = vec![];
        let mut vals = upto_words(&wa7(), 2);
        vals.extend(all_words(&wa5(), 3));
        vals.extend(all_words(&wa3(), 4));
        for l in 4..=tier.pick(70, 200) {
            vals.extend(pats(l));
        }
        dedup(&mut vals);
        for (k, ch) in vals.chunks(24).enumerate() {
            let ch = ch.to_vec();
            v.push(block(format!("routes-{k}"), move |ctx| {
                for n in &ch {
                    ctx.state(|| n.hex(), |c| {
                        let r = routes(n);
                        let h0 = hashes(&r[0].1);
                        c.note(&n.le());
                        for (name, x) in &r {
                            c.u(name, x, n);
                            c.ok(hashes(x) == h0, || format!("hash of the value built by {name} differs"));
                            for (_, y) in &r {
                                c.ok(x == y && x.cmp(y).is_eq() && x <= y, || format!("value built by {name} is not equal to the same value"));
                            }
                        }
                    });
                    for neg in [false, true] {
                        if neg && n.is_zero() {
                            continue;
                        }
                        let i = Int::new(neg, n.clone());
                        ctx.state(|| i.hex(), |c| {
                            let r = sroutes(&i);
                            let h0 = hashes(&r[0].1);
                            for (name, x) in &r {
                                c.i(name, x, &i);
                                c.ok(hashes(x) == h0, || format!("hash of the value built by {name} differs"));
                                sign_props(c, &i, x);
                                for (_, y) in &r {
                                    c.ok(x == y && x.cmp(y).is_eq(), || format!("value built by {name} is not equal to the same value"));
                                }
                            }
                        });
                    }
                }
            }));
        }
        // Order over all pairs.
        let mut small = upto_words(&wa7(), 2);
        small.extend(all_words(&wa7(), 3));
        small.extend(all_words(&wa4(), 4));
        small.extend(all_words(&wa3(), 5));
        for l in 5..=20 {
            small.extend(pats(l));
        }
        dedup(&mut small);
        let hx: Vec<(Vec<u8>, u64)> = small.iter().map(|n| hashes(&to_u(n))).collect();
        for (k, ch) in small.chunks(64).enumerate() {
            let (ch, small, hx) = (ch.to_vec(), small.clone(), hx.clone());
            v.push(block(format!("order-{k}"), move |ctx| {
                let us: Vec<UBig> = small.iter().map(to_u).collect();
                let is: Vec<IBig> = us.iter().map(|u| -IBig::from(u)).collect();
                let ps: Vec<IBig> = us.iter().map(IBig::from).collect();
                for a in &ch {
                    let (sp, ti) = (mk_spare(a), mk_tight(a));
                    let ha = hashes(&sp);
                    let (pi, ni) = (IBig::from(&sp), -IBig::from(ti.clone()));
                    for (j, b) in small.iter().enumerate() {
                        let o = a.cmp(b);
                        ctx.state(|| d2(a, b), |c| {
                            c.note(&[o as u8]);
                            cmp_all(c, &sp, &us[j], o);
                            cmp_all(c, &us[j], &ti, o.reverse());
                            c.ok(o.is_ne() || ha == hx[j], || "equal values, different hashes".into());
                            icmp_all(c, &pi, &ps[j], o);
                            icmp_all(c, &ni, &is[j], o.reverse());
                            let z = a.is_zero() && b.is_zero();
                            icmp_all(c, &pi, &is[j], if z { Ordering::Equal } else { Ordering::Greater });
                            icmp_all(c, &ni, &ps[j], if z { Ordering::Equal } else { Ordering::Less });
                        });
                    }
                }
            }));
        }
        // Long numbers that differ in exactly one bit, or by one.
        for l in tier.pick(vec![1usize, 2, 3, 4, 5, 8, 17, 33, 64, 129, 257, 1000], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 18, 33, 64, 65, 129, 257, 513, 1000, 3000]) {
            v.push(block(format!("one-bit-{l}"), move |ctx| {
                for p in pats(l) {
                    let a = to_u(&p);
                    let step = if l > 64 { 7 } else { 1 };
                    for n in (0..l * W + W).step_by(step) {
                        let q = p.with_bit(n, !p.bit(n));
                        ctx.state(|| format!("a={} flipped bit {n}", p.hex()), |c| {
                            let b = to_u(&q);
                            let o = if p.bit(n) { Ordering::Greater } else { Ordering::Less };
                            cmp_all(c, &a, &b, o);
                            cmp_all(c, &b, &a, o.reverse());
                            icmp_all(c, &-IBig::from(&a), &-IBig::from(&b), o.reverse());
                        });
                    }
                }
            }));
        }
        v
    });
}
