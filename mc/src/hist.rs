//! Operation histories over a few number variables: an explicit-state search whose states are the
//! variables' values together with the storage each of them holds (observed as the bytes that dropping
//! it releases), every transition executed on the real code by replaying its history.
use crate::alloc;
use crate::*;
use ibig::ops::*;
use ibig::{IBig, UBig};
use std::mem::take;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    AndNot,
    DivE,
    RemE,
    Gcd,
}
pub const UB: [B; 9] = [B::Add, B::Sub, B::Mul, B::Div, B::Rem, B::And, B::Or, B::Xor, B::AndNot];

/// Operand forms of a binary operation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    RefRef,
    ValRef,
    RefVal,
    ValVal,
    AsgRef,
    AsgVal,
    AsgClone,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    /// u[t] = u[x] op u[y]
    U(B, F, usize, usize, usize),
    /// i[t] = i[x] op i[y]
    I(B, F, usize, usize, usize),
    Shl(F, usize, usize, usize),
    Shr(F, usize, usize, usize),
    IShl(F, usize, usize, usize),
    IShr(F, usize, usize, usize),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    IClone(usize, usize),
    ICloneFrom(usize, usize),
    Swap(usize, usize),
    ISwap(usize, usize),
    Drop(usize),
    Set(usize, usize),
    Clear(usize, usize),
    /// Clear the highest set bit.
    ClearTop(usize),
    NextPow(F, usize, usize),
    Pow(usize, usize, usize),
    IPow(usize, usize, usize),
    /// u[t] = a constant (index into CONSTS)
    Const(usize, usize),
    /// u[x] op= small primitive
    Prim(B, usize, u16),
    IPrim(B, usize, i16),
    /// i[t] = IBig::from(u[x]), by value or by reference
    ToI(F, usize, usize),
    /// u[t] = i[x].unsigned_abs(), by value or by reference
    Abs(F, usize, usize),
    IAbs(F, usize, usize),
    /// u[t] = UBig::try_from(i[x]) if it succeeds
    TryU(F, usize, usize),
    Neg(F, usize, usize),
    Not(F, usize, usize),
    /// u[t] = parse(print(u[x], radix))
    Text(usize, usize, u32),
    IText(usize, usize, u32),
    Bytes(usize, usize),
    /// u[t] = bezout-checked gcd; i[t2] receives nothing
    ExtGcd(usize, usize, usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    pub u: Vec<Nat>,
    pub i: Vec<(bool, Nat)>,
}

pub struct R {
    pub u: Vec<UBig>,
    pub i: Vec<IBig>,
}

pub enum Out {
    Ok(M),
    /// The operation must panic; variables not listed keep their values.
    Panic(Vec<usize>, Vec<usize>),
    /// Out of bounds of the exploration.
    Skip,
}

pub fn consts() -> Vec<Nat> {
    vec![
        Nat::zero(),
        Nat::from_u(1),
        words(&[MAXW]),
        Nat::pow2(W),
        words(&[MAXW, MAXW]),
        words(&[gw(1, 0), gw(1, 1), gw(1, 2) | 1]),
        words(&[MAXW; 9]),
        Nat::pow2(23 * W + 5),
    ]
}

fn i(v: &(bool, Nat)) -> Int {
    Int::new(v.0, v.1.clone())
}

impl M {
    pub fn step(&self, op: &Op, max_bits: usize, cs: &[Nat]) -> Out {
        let mut m = self.clone();
        let mut pan: Option<(Vec<usize>, Vec<usize>)> = None;
        let bf = |f: F, x: usize, y: usize| -> Vec<usize> {
            match f {
                F::RefRef => vec![],
                F::ValRef => vec![x],
                F::RefVal => vec![y],
                F::ValVal => vec![x, y],
                F::AsgRef | F::AsgClone => vec![x],
                F::AsgVal => vec![x, y],
            }
        };
        match *op {
            Op::U(b, f, t, x, y) => {
                let (p, q) = (&self.u[x], &self.u[y]);
                let (ip, iq) = (Int::pos(p.clone()), Int::pos(q.clone()));
                let r = match b {
                    B::Add => Some(p.add(q)),
                    B::Sub => p.sub(q),
                    B::Mul => Some(p.mul(q)),
                    B::Div | B::DivE => (!q.is_zero()).then(|| p.divrem(q).0),
                    B::Rem | B::RemE => (!q.is_zero()).then(|| p.divrem(q).1),
                    B::And => Some(ip.bitop(&iq, |a, b| a & b).mag),
                    B::Or => Some(ip.bitop(&iq, |a, b| a | b).mag),
                    B::Xor => Some(ip.bitop(&iq, |a, b| a ^ b).mag),
                    B::AndNot => Some(ip.bitop(&iq, |a, b| a & !b).mag),
                    B::Gcd => (!p.is_zero() || !q.is_zero()).then(|| p.gcd(q)),
                };
                match r {
                    None => pan = Some((bf(f, x, y), vec![])),
                    Some(r) => {
                        for k in bf(f, x, y) {
                            m.u[k] = Nat::zero();
                        }
                        m.u[t] = r;
                    }
                }
            }
            Op::I(b, f, t, x, y) => {
                let (p, q) = (i(&self.i[x]), i(&self.i[y]));
                let nz = !q.mag.is_zero();
                let r = match b {
                    B::Add => Some(p.add(&q)),
                    B::Sub => Some(p.sub(&q)),
                    B::Mul => Some(p.mul(&q)),
                    B::Div => nz.then(|| p.divrem(&q).0),
                    B::Rem => nz.then(|| p.divrem(&q).1),
                    B::DivE => nz.then(|| p.divrem_euclid(&q).0),
                    B::RemE => nz.then(|| p.divrem_euclid(&q).1),
                    B::And => Some(p.bitop(&q, |a, b| a & b)),
                    B::Or => Some(p.bitop(&q, |a, b| a | b)),
                    B::Xor => Some(p.bitop(&q, |a, b| a ^ b)),
                    B::AndNot => Some(p.bitop(&q, |a, b| a & !b)),
                    B::Gcd => unreachable!(),
                };
                match r {
                    None => pan = Some((vec![], bf(f, x, y))),
                    Some(r) => {
                        for k in bf(f, x, y) {
                            m.i[k] = (false, Nat::zero());
                        }
                        m.i[t] = (r.neg, r.mag);
                    }
                }
            }
            Op::Shl(f, t, x, k) => {
                if self.u[x].bit_len() + k > max_bits {
                    return Out::Skip;
                }
                let r = self.u[x].shl(k);
                if f != F::RefRef {
                    m.u[x] = Nat::zero();
                }
                m.u[t] = r;
            }
            Op::Shr(f, t, x, k) => {
                let r = self.u[x].shr(k);
                if f != F::RefRef {
                    m.u[x] = Nat::zero();
                }
                m.u[t] = r;
            }
            Op::IShl(f, t, x, k) => {
                if self.i[x].1.bit_len() + k > max_bits {
                    return Out::Skip;
                }
                let r = i(&self.i[x]).shl(k);
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
                m.i[t] = (r.neg, r.mag);
            }
            Op::IShr(f, t, x, k) => {
                let r = i(&self.i[x]).shr(k);
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
                m.i[t] = (r.neg, r.mag);
            }
            Op::Clone(t, x) | Op::CloneFrom(t, x) => m.u[t] = self.u[x].clone(),
            Op::IClone(t, x) | Op::ICloneFrom(t, x) => m.i[t] = self.i[x].clone(),
            Op::Swap(x, y) => m.u.swap(x, y),
            Op::ISwap(x, y) => m.i.swap(x, y),
            Op::Drop(x) => m.u[x] = Nat::zero(),
            Op::Set(x, n) => {
                if n >= max_bits {
                    return Out::Skip;
                }
                m.u[x] = self.u[x].with_bit(n, true)
            }
            Op::Clear(x, n) => m.u[x] = self.u[x].with_bit(n, false),
            Op::ClearTop(x) => {
                let l = self.u[x].bit_len();
                if l == 0 {
                    return Out::Skip;
                }
                m.u[x] = self.u[x].with_bit(l - 1, false)
            }
            Op::NextPow(f, t, x) => {
                let n = &self.u[x];
                let l = n.bit_len();
                let p = if l > 0 && *n == Nat::pow2(l - 1) { n.clone() } else { Nat::pow2(l) };
                if f != F::RefRef {
                    m.u[x] = Nat::zero();
                }
                m.u[t] = p;
            }
            Op::Pow(t, x, e) => {
                if self.u[x].bit_len() * e > max_bits {
                    return Out::Skip;
                }
                m.u[t] = self.u[x].pow(e)
            }
            Op::IPow(t, x, e) => {
                if self.i[x].1.bit_len() * e > max_bits {
                    return Out::Skip;
                }
                let r = i(&self.i[x]).pow(e);
                m.i[t] = (r.neg, r.mag)
            }
            Op::Const(t, c) => m.u[t] = cs[c].clone(),
            Op::Prim(b, x, k) => {
                let (p, q) = (&self.u[x], Nat::from_u(k as u128));
                match b {
                    B::Add => m.u[x] = p.add(&q),
                    B::Mul => m.u[x] = p.mul(&q),
                    B::Div | B::Rem if k == 0 => pan = Some((vec![x], vec![])),
                    B::Div => m.u[x] = p.divrem(&q).0,
                    B::Rem => m.u[x] = p.divrem(&q).1,
                    B::Sub => match p.sub(&q) {
                        Some(r) => m.u[x] = r,
                        None => pan = Some((vec![x], vec![])),
                    },
                    B::And => {
                        m.u[x] = Int::pos(p.clone()).bitop(&Int::pos(q), |a, b| a & b).mag;
                    }
                    _ => unreachable!(),
                }
            }
            Op::IPrim(b, x, k) => {
                let (p, q) = (i(&self.i[x]), Int::from_i(k as i128));
                let r = match b {
                    B::Div | B::Rem if k == 0 => {
                        pan = Some((vec![], vec![x]));
                        Int::from_i(0)
                    }
                    B::Add => p.add(&q),
                    B::Sub => p.sub(&q),
                    B::Mul => p.mul(&q),
                    B::Div => p.divrem(&q).0,
                    B::Rem => p.divrem(&q).1,
                    _ => unreachable!(),
                };
                m.i[x] = (r.neg, r.mag);
            }
            Op::ToI(f, t, x) => {
                m.i[t] = (false, self.u[x].clone());
                if f != F::RefRef {
                    m.u[x] = Nat::zero();
                }
            }
            Op::Abs(f, t, x) => {
                m.u[t] = self.i[x].1.clone();
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
            }
            Op::IAbs(f, t, x) => {
                let r = self.i[x].1.clone();
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
                m.i[t] = (false, r);
            }
            Op::TryU(f, t, x) => {
                if !self.i[x].0 {
                    m.u[t] = self.i[x].1.clone();
                }
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
            }
            Op::Neg(f, t, x) => {
                let r = i(&self.i[x]).neg();
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
                m.i[t] = (r.neg, r.mag);
            }
            Op::Not(f, t, x) => {
                let r = i(&self.i[x]).not();
                if f != F::RefRef {
                    m.i[x] = (false, Nat::zero());
                }
                m.i[t] = (r.neg, r.mag);
            }
            Op::Text(t, x, _) | Op::Bytes(t, x) => m.u[t] = self.u[x].clone(),
            Op::IText(t, x, _) => m.i[t] = self.i[x].clone(),
            Op::ExtGcd(t, x, y) => {
                if self.u[x].is_zero() && self.u[y].is_zero() {
                    pan = Some((vec![], vec![]));
                } else {
                    m.u[t] = self.u[x].gcd(&self.u[y]);
                }
            }
        }
        if let Some((a, b)) = pan {
            return Out::Panic(a, b);
        }
        if m.u.iter().any(|n| n.bit_len() > max_bits) || m.i.iter().any(|n| n.1.bit_len() > max_bits) {
            return Out::Skip;
        }
        Out::Ok(m)
    }
}

fn two<T>(v: &mut [T], x: usize, y: usize) -> (&mut T, &mut T) {
    assert!(x != y);
    if x < y {
        let (a, b) = v.split_at_mut(y);
        (&mut a[x], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(x);
        (&mut b[0], &mut a[y])
    }
}

macro_rules! bin {
    ($v:expr, $f:expr, $t:expr, $x:expr, $y:expr, $op:tt, $opa:tt) => {
        match $f {
            F::RefRef => $v[$t] = &$v[$x] $op &$v[$y],
            F::ValRef => { let a = take(&mut $v[$x]); $v[$t] = a $op &$v[$y]; }
            F::RefVal => { let b = take(&mut $v[$y]); $v[$t] = &$v[$x] $op b; }
            F::ValVal => { let a = take(&mut $v[$x]); let b = take(&mut $v[$y]); $v[$t] = a $op b; }
            F::AsgRef => { let (a, b) = two(&mut $v, $x, $y); *a $opa &*b; }
            F::AsgVal => { let b = take(&mut $v[$y]); $v[$x] $opa b; }
            F::AsgClone => { let b = $v[$y].clone(); $v[$x] $opa b; }
        }
    };
}
macro_rules! met {
    ($v:expr, $f:expr, $t:expr, $x:expr, $y:expr, $m:ident) => {
        match $f {
            F::RefRef => $v[$t] = (&$v[$x]).$m(&$v[$y]),
            F::ValRef => { let a = take(&mut $v[$x]); $v[$t] = a.$m(&$v[$y]); }
            F::RefVal => { let b = take(&mut $v[$y]); $v[$t] = (&$v[$x]).$m(b); }
            _ => { let a = take(&mut $v[$x]); let b = take(&mut $v[$y]); $v[$t] = a.$m(b); }
        }
    };
}
macro_rules! shift {
    ($v:expr, $f:expr, $t:expr, $x:expr, $k:expr, $op:tt, $opa:tt) => {
        match $f {
            F::RefRef => $v[$t] = &$v[$x] $op $k,
            F::ValRef => { let a = take(&mut $v[$x]); $v[$t] = a $op &$k; }
            _ => { let mut a = take(&mut $v[$x]); a $opa $k; $v[$t] = a; }
        }
    };
}
macro_rules! un {
    ($v:expr, $f:expr, $t:expr, $x:expr, $a:ident => $e:expr) => {
        match $f {
            F::RefRef => { let r = { let $a = &$v[$x]; $e }; $v[$t] = r; }
            _ => { let r = { let $a = take(&mut $v[$x]); $e }; $v[$t] = r; }
        }
    };
}

impl R {
    /// Execute on the real code.
    pub fn step(&mut self, op: &Op, cs: &[UBig]) {
        match *op {
            Op::U(b, f, t, x, y) => match b {
                B::Add => bin!(self.u, f, t, x, y, +, +=),
                B::Sub => bin!(self.u, f, t, x, y, -, -=),
                B::Mul => bin!(self.u, f, t, x, y, *, *=),
                B::Div => bin!(self.u, f, t, x, y, /, /=),
                B::Rem => bin!(self.u, f, t, x, y, %, %=),
                B::And => bin!(self.u, f, t, x, y, &, &=),
                B::Or => bin!(self.u, f, t, x, y, |, |=),
                B::Xor => bin!(self.u, f, t, x, y, ^, ^=),
                B::AndNot => met!(self.u, f, t, x, y, and_not),
                B::DivE => met!(self.u, f, t, x, y, div_euclid),
                B::RemE => met!(self.u, f, t, x, y, rem_euclid),
                B::Gcd => self.u[t] = self.u[x].gcd(&self.u[y]),
            },
            Op::I(b, f, t, x, y) => match b {
                B::Add => bin!(self.i, f, t, x, y, +, +=),
                B::Sub => bin!(self.i, f, t, x, y, -, -=),
                B::Mul => bin!(self.i, f, t, x, y, *, *=),
                B::Div => bin!(self.i, f, t, x, y, /, /=),
                B::Rem => bin!(self.i, f, t, x, y, %, %=),
                B::And => bin!(self.i, f, t, x, y, &, &=),
                B::Or => bin!(self.i, f, t, x, y, |, |=),
                B::Xor => bin!(self.i, f, t, x, y, ^, ^=),
                B::AndNot => met!(self.i, f, t, x, y, and_not),
                B::DivE => met!(self.i, f, t, x, y, div_euclid),
                B::RemE => met!(self.i, f, t, x, y, rem_euclid),
                B::Gcd => unreachable!(),
            },
            Op::Shl(f, t, x, k) => shift!(self.u, f, t, x, k, <<, <<=),
            Op::Shr(f, t, x, k) => shift!(self.u, f, t, x, k, >>, >>=),
            Op::IShl(f, t, x, k) => shift!(self.i, f, t, x, k, <<, <<=),
            Op::IShr(f, t, x, k) => shift!(self.i, f, t, x, k, >>, >>=),
            Op::Clone(t, x) => self.u[t] = self.u[x].clone(),
            Op::IClone(t, x) => self.i[t] = self.i[x].clone(),
            Op::CloneFrom(t, x) => {
                let (a, b) = two(&mut self.u, t, x);
                a.clone_from(b)
            }
            Op::ICloneFrom(t, x) => {
                let (a, b) = two(&mut self.i, t, x);
                a.clone_from(b)
            }
            Op::Swap(x, y) => self.u.swap(x, y),
            Op::ISwap(x, y) => self.i.swap(x, y),
            Op::Drop(x) => drop(take(&mut self.u[x])),
            Op::Set(x, n) => self.u[x].set_bit(n),
            Op::Clear(x, n) => self.u[x].clear_bit(n),
            Op::ClearTop(x) => {
                let n = self.u[x].bit_len() - 1;
                self.u[x].clear_bit(n)
            }
            Op::NextPow(f, t, x) => un!(self.u, f, t, x, a => a.next_power_of_two()),
            Op::Pow(t, x, e) => self.u[t] = self.u[x].pow(e),
            Op::IPow(t, x, e) => self.i[t] = self.i[x].pow(e),
            Op::Const(t, c) => self.u[t] = cs[c].clone(),
            Op::Prim(b, x, k) => match b {
                B::Add => self.u[x] += k,
                B::Sub => self.u[x] -= k,
                B::Mul => self.u[x] *= k,
                B::Div => self.u[x] /= k,
                B::Rem => self.u[x] %= k,
                _ => self.u[x] &= k,
            },
            Op::IPrim(b, x, k) => match b {
                B::Add => self.i[x] += k,
                B::Sub => self.i[x] -= k,
                B::Mul => self.i[x] *= k,
                B::Div => self.i[x] /= k,
                _ => self.i[x] %= k,
            },
            Op::ToI(f, t, x) => {
                let r = match f {
                    F::RefRef => IBig::from(&self.u[x]),
                    _ => IBig::from(take(&mut self.u[x])),
                };
                self.i[t] = r;
            }
            Op::Abs(f, t, x) => {
                let r = match f {
                    F::RefRef => (&self.i[x]).unsigned_abs(),
                    _ => take(&mut self.i[x]).unsigned_abs(),
                };
                self.u[t] = r;
            }
            Op::IAbs(f, t, x) => un!(self.i, f, t, x, a => a.abs()),
            Op::TryU(f, t, x) => {
                let r = match f {
                    F::RefRef => UBig::try_from(&self.i[x]),
                    _ => UBig::try_from(take(&mut self.i[x])),
                };
                if let Ok(r) = r {
                    self.u[t] = r;
                }
            }
            Op::Neg(f, t, x) => un!(self.i, f, t, x, a => -a),
            Op::Not(f, t, x) => un!(self.i, f, t, x, a => !a),
            Op::Text(t, x, r) => {
                let s = self.u[x].in_radix(r).to_string();
                self.u[t] = UBig::from_str_radix(&s, r).unwrap()
            }
            Op::IText(t, x, r) => {
                let s = self.i[x].in_radix(r).to_string();
                self.i[t] = IBig::from_str_radix(&s, r).unwrap()
            }
            Op::Bytes(t, x) => {
                let s = self.u[x].to_be_bytes();
                self.u[t] = UBig::from_be_bytes(&s)
            }
            Op::ExtGcd(t, x, y) => {
                let (g, a, b) = self.u[x].extended_gcd(&self.u[y]);
                let s = a * IBig::from(&self.u[x]) + b * IBig::from(&self.u[y]);
                assert!(s == IBig::from(&g), "Bezout identity");
                self.u[t] = g
            }
        }
    }
}

/// Where a history starts: values and storage variants.
pub type Init = (Vec<(Nat, usize)>, Vec<(Int, usize)>);

pub fn build(init: &Init) -> R {
    R {
        u: init.0.iter().map(|(n, k)| mk_variant(n, *k)).collect(),
        i: init
            .1
            .iter()
            .map(|(n, k)| {
                let x = IBig::from(mk_variant(&n.mag, *k));
                if n.neg {
                    -x
                } else {
                    x
                }
            })
            .collect(),
    }
}

/// What to check after every transition.
#[derive(Clone, Copy)]
pub struct Mode {
    pub depth: usize,
    pub max_bits: usize,
    /// Stop expanding after this many states.
    pub cap: usize,
    /// Check the storage bound of every variable.
    pub storage: bool,
    pub poisons: &'static [u8],
}

/// Storage of a number of this magnitude: nothing for a word, else a quarter plus four words of slack.
pub fn storage_bound(n: &Nat) -> u64 {
    let l = wlen(n);
    if l <= 1 {
        0
    } else {
        ((l + l / 4 + 4) * (W / 8)) as u64
    }
}

fn same_u(c: &mut Chk, what: &str, k: usize, v: &UBig, n: &Nat) {
    let le = v.to_le_bytes();
    if le != n.le() {
        c.ok(false, || format!("{what}: variable u{k} is {} want {}", of_u(v).hex(), n.hex()));
    }
    let f = to_u(n);
    c.ok(*v == f && v.cmp(&f).is_eq() && v.bit_len() == n.bit_len(), || {
        format!("{what}: variable u{k} differs from the number it denotes")
    });
}
fn same_i(c: &mut Chk, what: &str, k: usize, v: &IBig, n: &Int) {
    let g = of_i(v);
    if g != *n {
        c.ok(false, || format!("{what}: variable i{k} is {} want {}", g.hex(), n.hex()));
    }
    let f = to_i(n);
    c.ok(*v == f && v.cmp(&f).is_eq(), || format!("{what}: variable i{k} differs from the number it denotes"));
}

fn digest(m: &M, key: &[u64]) -> u128 {
    use std::hash::{Hash, Hasher};
    let half = |salt: u64| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        salt.hash(&mut h);
        m.hash(&mut h);
        key.hash(&mut h);
        h.finish() as u128
    };
    half(1) << 64 | half(2)
}

/// Explore every history of the alphabet up to the depth.
pub fn explore(ctx: &mut Ctx, init: &Init, ops: &[Op], mode: Mode) {
    let cs = consts();
    let m0 = M {
        u: init.0.iter().map(|x| x.0.clone()).collect(),
        i: init.1.iter().map(|x| (x.0.neg, x.0.mag.clone())).collect(),
    };
    let mut seen: std::collections::HashSet<u128> = Default::default(); // 128-bit digests of states
    let mut frontier: Vec<(Vec<u16>, M)> = vec![(vec![], m0)];
    let (mut trans, mut expanded, mut skipped, mut cut) = (0u64, 0u64, 0u64, 0u64);
    let mut key: Vec<u64> = Vec::with_capacity(16);
    for d in 0..mode.depth {
        let mut next = vec![];
        for (path, m) in &frontier {
            if expanded >= mode.cap as u64 {
                cut += 1;
                continue;
            }
            if ctx.stopped() {
                return;
            }
            expanded += 1;
            for (k, op) in ops.iter().enumerate() {
                let out = m.step(op, mode.max_bits, &cs);
                if let Out::Skip = out {
                    skipped += 1;
                    continue;
                }
                trans += 1;
                key.clear();
                ctx.state(
                    || {
                        let p: Vec<String> = path.iter().map(|x| format!("{:?}", ops[*x as usize])).collect();
                        let vals: Vec<String> = init.0.iter().map(|x| format!("{}/{}", x.0.hex(), x.1))
                            .chain(init.1.iter().map(|x| format!("{}/{}", x.0.hex(), x.1))).collect();
                        format!("start [{}] history [{}] then {:?}", vals.join(", "), p.join("; "), op)
                    },
                    |c| {
                        for poison in mode.poisons {
                            alloc::start(*poison);
                            transition(c, init, path, ops, op, &out, &cs, mode, &mut key);
                            let s = alloc::stop();
                            c.ok(s.fault.is_none(), || format!("memory fault: {}", s.fault.unwrap()));
                            c.ok(s.blocks == 0 && s.bytes == 0, || {
                                format!("leak: {} blocks, {} bytes", s.blocks, s.bytes)
                            });
                        }
                        if let Out::Ok(m2) = &out {
                            for n in &m2.u {
                                c.note(&n.le());
                            }
                        }
                    },
                );
                if let Out::Ok(m2) = out {
                    if seen.insert(digest(&m2, &key)) && d + 1 < mode.depth {
                        if next.len() as u64 >= mode.cap as u64 {
                            cut += 1;
                            continue;
                        }
                        let mut p = path.clone();
                        p.push(k as u16);
                        next.push((p, m2));
                    }
                }
            }
        }
        frontier = next;
    }
    ctx.count("model_states", seen.len() as u64);
    ctx.count("model_transitions", trans);
    ctx.count("traces", trans * mode.poisons.len() as u64);
    ctx.count("states_expanded", expanded);
    ctx.count("frontier_not_expanded", cut);
    ctx.count("transitions_out_of_bounds", skipped);
}

#[allow(clippy::too_many_arguments)]
fn transition(
    c: &mut Chk,
    init: &Init,
    path: &[u16],
    ops: &[Op],
    op: &Op,
    out: &Out,
    cs: &[Nat],
    mode: Mode,
    key: &mut Vec<u64>,
) {
    let cu: Vec<UBig> = match op {
        _ if path.iter().any(|k| matches!(ops[*k as usize], Op::Const(..))) || matches!(op, Op::Const(..)) => {
            cs.iter().map(to_u).collect()
        }
        _ => vec![],
    };
    let mut r = build(init);
    for k in path {
        r.step(&ops[*k as usize], &cu);
    }
    match out {
        Out::Ok(m) => {
            r.step(op, &cu);
            for k in 0..m.u.len() {
                same_u(c, "after", k, &r.u[k], &m.u[k]);
            }
            for k in 0..m.i.len() {
                same_i(c, "after", k, &r.i[k], &i(&m.i[k]));
            }
            key.clear();
            for k in 0..m.u.len() {
                let v = take(&mut r.u[k]);
                let b = alloc::freed_by(|| drop(v));
                key.push(b);
                if mode.storage {
                    c.ok(b <= storage_bound(&m.u[k]), || {
                        format!("variable u{k}: {} words held in {b} bytes, bound {}", wlen(&m.u[k]), storage_bound(&m.u[k]))
                    });
                }
            }
            for k in 0..m.i.len() {
                let v = take(&mut r.i[k]);
                let b = alloc::freed_by(|| drop(v));
                key.push(b);
                if mode.storage {
                    let n = &m.i[k].1;
                    c.ok(b <= storage_bound(n), || {
                        format!("variable i{k}: {} words held in {b} bytes, bound {}", wlen(n), storage_bound(n))
                    });
                }
            }
        }
        Out::Panic(iu, ii) => {
            // The state before, for the variables that must keep their values.
            let (bu, bi): (Vec<Nat>, Vec<Int>) = (r.u.iter().map(of_u).collect(), r.i.iter().map(of_i).collect());
            c.panics(&format!("{op:?}"), || r.step(op, &cu));
            for k in 0..bu.len() {
                if iu.contains(&k) {
                    // Still a number, equal to itself rebuilt.
                    let n = of_u(&r.u[k]);
                    same_u(c, "after the panic", k, &r.u[k], &n);
                } else {
                    same_u(c, "after the panic (not involved)", k, &r.u[k], &bu[k]);
                }
            }
            for k in 0..bi.len() {
                if ii.contains(&k) {
                    let n = of_i(&r.i[k]);
                    same_i(c, "after the panic", k, &r.i[k], &n);
                } else {
                    same_i(c, "after the panic (not involved)", k, &r.i[k], &bi[k]);
                }
            }
            // And all of them can be used on.
            for v in &mut r.u {
                let n = of_u(v);
                *v += 1u8;
                c.u("the variable plus one, after the panic", v, &n.add(&Nat::from_u(1)));
            }
        }
        Out::Skip => unreachable!(),
    }
}

/// Binary operations in all forms over nu variables.
pub fn bin_ops(nu: usize, kinds: &[B], signed: bool) -> Vec<Op> {
    let mk = |b, f, t, x, y| if signed { Op::I(b, f, t, x, y) } else { Op::U(b, f, t, x, y) };
    let mut v = vec![];
    for &b in kinds {
        let asg = !matches!(b, B::AndNot | B::DivE | B::RemE);
        for x in 0..nu {
            for y in 0..nu {
                for t in 0..nu {
                    v.push(mk(b, F::RefRef, t, x, y));
                    if x != y {
                        v.push(mk(b, F::ValRef, t, x, y));
                        v.push(mk(b, F::RefVal, t, x, y));
                        v.push(mk(b, F::ValVal, t, x, y));
                    }
                }
                if asg {
                    if x != y {
                        v.push(mk(b, F::AsgRef, x, x, y));
                        v.push(mk(b, F::AsgVal, x, x, y));
                    }
                    v.push(mk(b, F::AsgClone, x, x, y));
                }
            }
        }
    }
    v
}

/// Operations on single variables, moves and copies among nu unsigned variables.
pub fn unary_ops(nu: usize, full: bool) -> Vec<Op> {
    let mut v = vec![];
    let fs = [F::RefRef, F::ValRef, F::AsgRef];
    for x in 0..nu {
        for t in 0..nu {
            if x != t {
                v.push(Op::Clone(t, x));
                v.push(Op::CloneFrom(t, x));
                if x < t {
                    v.push(Op::Swap(x, t));
                }
            }
            for (n, f) in fs.iter().enumerate() {
                for k in [1, W, 2 * W + 1, 7 * W] {
                    if full || n == 2 {
                        v.push(Op::Shl(*f, t, x, k));
                        v.push(Op::Shr(*f, t, x, k));
                    }
                }
            }
            if full {
                v.push(Op::NextPow(F::RefRef, t, x));
                v.push(Op::Pow(t, x, 2));
                v.push(Op::Text(t, x, 10));
                v.push(Op::Text(t, x, 16));
                v.push(Op::Bytes(t, x));
            }
            v.push(Op::NextPow(F::ValRef, t, x));
            for y in 0..nu {
                if full && x < y {
                    v.push(Op::U(B::Gcd, F::RefRef, t, x, y));
                    v.push(Op::ExtGcd(t, x, y));
                }
            }
        }
        v.push(Op::Drop(x));
        for n in [0, W - 1, W, 5 * W + 3, 12 * W] {
            v.push(Op::Set(x, n));
            if full {
                v.push(Op::Clear(x, n));
            }
        }
        v.push(Op::ClearTop(x));
        for c in 0..consts().len() {
            if full || c % 2 == 0 {
                v.push(Op::Const(x, c));
            }
        }
        for (b, k) in [(B::Add, 1), (B::Sub, 1), (B::Mul, 0x8001), (B::Div, 7), (B::Rem, 7), (B::And, 0x00ff)] {
            v.push(Op::Prim(b, x, k));
        }
    }
    v
}

pub fn signed_unary_ops(nu: usize, ni: usize, full: bool) -> Vec<Op> {
    let mut v = vec![];
    for x in 0..ni {
        for t in 0..ni {
            if x != t {
                v.push(Op::IClone(t, x));
                v.push(Op::ICloneFrom(t, x));
                if x < t {
                    v.push(Op::ISwap(x, t));
                }
            }
            for f in [F::RefRef, F::ValRef] {
                v.push(Op::Neg(f, t, x));
                v.push(Op::Not(f, t, x));
                v.push(Op::IAbs(f, t, x));
            }
            for f in [F::RefRef, F::ValRef, F::AsgRef] {
                for k in [1, W, 2 * W + 1, 7 * W] {
                    if full || f == F::AsgRef {
                        v.push(Op::IShl(f, t, x, k));
                        v.push(Op::IShr(f, t, x, k));
                    }
                }
            }
            if full {
                v.push(Op::IPow(t, x, 3));
                v.push(Op::IText(t, x, 10));
            }
        }
        for t in 0..nu {
            for f in [F::RefRef, F::ValRef] {
                v.push(Op::ToI(f, x, t));
                v.push(Op::Abs(f, t, x));
                v.push(Op::TryU(f, t, x));
            }
        }
        for (b, k) in [(B::Add, 1), (B::Add, -1), (B::Sub, 1), (B::Mul, -0x7fff), (B::Div, -7), (B::Rem, 7)] {
            v.push(Op::IPrim(b, x, k));
        }
    }
    v
}
