//! Operand alphabets.
use crate::model::{to_u, Int, Nat};
use crate::W;
use ibig::UBig;

pub const MAXW: u64 = if W == 64 { u64::MAX } else { (1 << (W % 64)) - 1 };
pub const MSB: u64 = 1 << (W - 1);

/// Number from machine words, little endian.
pub fn words(w: &[u64]) -> Nat {
    let mut b = Vec::with_capacity(w.len() * W / 8);
    for x in w {
        b.extend_from_slice(&x.to_le_bytes()[..W / 8]);
    }
    Nat::from_le(&b)
}

/// A fixed generic word for (seed, index).
pub fn gw(seed: u64, i: u64) -> u64 {
    let mut z = seed
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(i.wrapping_mul(0xD1B5_4A32_D192_ED03))
        .wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) & MAXW
}

/// Boundary words.
pub fn wa7() -> Vec<u64> {
    vec![0, 1, 2, MSB - 1, MSB, MAXW - 1, MAXW]
}
pub fn wa5() -> Vec<u64> {
    vec![0, 1, MSB, MAXW - 1, MAXW]
}
pub fn wa4() -> Vec<u64> {
    vec![0, 1, MSB, MAXW]
}
pub fn wa3() -> Vec<u64> {
    vec![0, 1, MAXW]
}

/// All numbers of exactly `len` words over the alphabet (non-zero top word).
pub fn all_words(alpha: &[u64], len: usize) -> Vec<Nat> {
    let mut r = vec![];
    if len == 0 {
        return vec![Nat::zero()];
    }
    let k = alpha.len();
    let n = k.pow(len as u32);
    for mut x in 0..n {
        let mut w = Vec::with_capacity(len);
        for _ in 0..len {
            w.push(alpha[x % k]);
            x /= k;
        }
        if w[len - 1] != 0 {
            r.push(words(&w));
        }
    }
    r
}

/// All numbers of up to `len` words over the alphabet.
pub fn upto_words(alpha: &[u64], len: usize) -> Vec<Nat> {
    (0..=len).flat_map(|l| all_words(alpha, l)).collect()
}

/// Structured numbers of exactly `len` words (len >= 1).
pub fn pats(len: usize) -> Vec<Nat> {
    let one = |f: &dyn Fn(usize) -> u64| {
        let w: Vec<u64> = (0..len).map(f).collect();
        words(&w)
    };
    let top = len - 1;
    let mut v = vec![
        one(&|i| if i == top { 1 } else { 0 }),
        one(&|_| MAXW),
        one(&|i| if i == top { 1 } else { MAXW }),
        one(&|i| if i == top { MSB } else { 0 }),
        one(&|i| if i == top { MSB } else { MAXW }),
        one(&|i| if i == 0 { 1 } else if i == top { MAXW } else { 0 }),
        one(&|i| if i == 0 { MAXW - 1 } else { MAXW }),
        one(&|i| if i == top || i % 2 == 0 { MAXW } else { 0 }),
        one(&|i| gw(1, i as u64) | if i == top { MSB } else { 0 }),
        one(&|i| if i == top { 1 } else { gw(2, i as u64) }),
        one(&|i| if i == 0 { 0 } else { gw(3, i as u64) | 1 }),
    ];
    v.retain(|x| wlen(x) == len);
    dedup(&mut v);
    v
}

/// A smaller family of structured numbers.
pub fn pats_few(len: usize) -> Vec<Nat> {
    let one = |f: &dyn Fn(usize) -> u64| {
        let w: Vec<u64> = (0..len).map(f).collect();
        words(&w)
    };
    let top = len - 1;
    let mut v = vec![
        one(&|i| if i == top { 1 } else { 0 }),
        one(&|_| MAXW),
        one(&|i| if i == top { MSB } else { MAXW }),
        one(&|i| gw(4, i as u64) | 1),
    ];
    dedup(&mut v);
    v
}

/// A generic number of exactly len words.
pub fn generic(seed: u64, len: usize) -> Nat {
    let w: Vec<u64> =
        (0..len).map(|i| gw(seed, i as u64) | if i + 1 == len { 1 } else { 0 }).collect();
    words(&w)
}

/// Numbers of exactly `len` words made of `parts` blocks, each block all zeros, all ones, one,
/// top-bit or generic content; the top block is non-zero.
pub fn blocky(len: usize, parts: usize, kinds: usize) -> Vec<Nat> {
    let bl = (len + parts - 1) / parts;
    let mut r = vec![];
    for code in 0..kinds.pow(parts as u32) {
        let mut c = code;
        let ks: Vec<usize> = (0..parts)
            .map(|_| {
                let k = c % kinds;
                c /= kinds;
                k
            })
            .collect();
        let w: Vec<u64> = (0..len)
            .map(|i| {
                let p = i / bl;
                let first = i % bl == 0;
                let last = i % bl == bl - 1 || i == len - 1;
                match ks[p] {
                    0 => 0,
                    1 => MAXW,
                    2 => gw(7, (i % bl) as u64),
                    3 => first as u64,
                    4 => {
                        if last {
                            MSB
                        } else {
                            0
                        }
                    }
                    _ => {
                        if first {
                            MAXW - 1
                        } else {
                            MAXW
                        }
                    }
                }
            })
            .collect();
        if w[len - 1] != 0 {
            r.push(words(&w));
        }
    }
    dedup(&mut r);
    r
}

pub fn dedup(v: &mut Vec<Nat>) {
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
}

/// Both signs.
pub fn signed(v: &[Nat]) -> Vec<Int> {
    let mut r = vec![];
    for n in v {
        r.push(Int::new(false, n.clone()));
        if !n.is_zero() {
            r.push(Int::new(true, n.clone()));
        }
    }
    r
}

/// Number of machine words of n.
pub fn wlen(n: &Nat) -> usize {
    (n.bit_len() + W - 1) / W
}

/// The same value with as little spare storage as a history can produce: a shorter number grown in
/// place to its final length, which fills its storage exactly for most lengths.
pub fn mk_tight(n: &Nat) -> UBig {
    let len = wlen(n);
    let cap = |m: usize| m + m / 8 + 2;
    let Some(m) = (2..len).find(|m| cap(*m) >= len) else { return to_u(n) };
    let mut u = to_u(&Nat::pow2(m * W - 1));
    let top = n.bit_len() - 1;
    u.set_bit(top);
    let now = Nat::pow2(m * W - 1).add(&Nat::pow2(top));
    let mut d = n.le();
    d.resize(d.len().max(len * W / 8), 0);
    for (x, y) in d.iter_mut().zip(now.le()) {
        *x ^= y;
    }
    u ^= &to_u(&Nat::from_le(&d));
    u
}

/// The same value with as much spare storage as a history can leave: a longer number shifted down.
pub fn mk_spare(n: &Nat) -> UBig {
    let len = wlen(n);
    if len < 2 {
        let mut u = to_u(&n.shl(3 * W));
        u >>= 3 * W;
        return u;
    }
    let mut best = len;
    let mut m = len;
    while m + m / 8 + 2 <= len + len / 4 + 4 {
        best = m;
        m += 1;
    }
    let sh = (best - len) * W;
    let mut u = to_u(&n.shl(sh));
    u >>= sh;
    u
}

/// All storage variants of a value.
pub fn variants(n: &Nat) -> [UBig; 3] {
    [to_u(n), mk_tight(n), mk_spare(n)]
}

/// The k-th storage variant (a clone would normalise the storage, so it is rebuilt).
pub fn mk_variant(n: &Nat, k: usize) -> UBig {
    match k {
        0 => to_u(n),
        1 => mk_tight(n),
        _ => mk_spare(n),
    }
}

/// Divisors of exactly n words whose leading words stress the quotient estimate.
pub fn divisors(n: usize, many: bool) -> Vec<Nat> {
    let mut v = vec![
        words(&vec![MAXW; n]),
        Nat::pow2(n * W - 1),
        Nat::pow2((n - 1) * W),
        generic(21, n),
    ];
    let mk = |f: &dyn Fn(usize) -> u64| words(&(0..n).map(f).collect::<Vec<_>>());
    if n > 1 {
        // MSB, zeros, then all ones below: the estimate is as far off as it can be.
        v.push(mk(&|i| if i == n - 1 { MSB } else { MAXW }));
        v.push(mk(&|i| if i == n - 1 { MSB } else if i == n - 2 { 0 } else { MAXW }));
        v.push(mk(&|i| if i >= n / 2 { if i == n - 1 { MSB } else { 0 } } else { MAXW }));
    }
    if many {
        v.push(mk(&|i| if i >= n / 2 { MAXW } else { 0 }));
        v.push(mk(&|i| if i == n - 1 { 1 } else { MAXW }));
        v.push(mk(&|i| if i == 0 { 1 } else if i == n - 1 { MSB } else { 0 }));
        v.push(mk(&|i| if i == n - 1 { MSB + 1 } else { gw(22, i as u64) }));
        v.push(mk(&|i| if i == 0 { MAXW - 1 } else { MAXW }));
        v.push(mk(&|i| if i == n - 1 { 3 } else if i == 0 { MAXW } else { 0 }));
    }
    v.retain(|x| !x.is_zero());
    dedup(&mut v);
    v
}

pub fn quotients(n: usize, many: bool) -> Vec<Nat> {
    let mut v = vec![words(&vec![MAXW; n]), generic(23, n), Nat::pow2(n * W - 1)];
    let mk = |f: &dyn Fn(usize) -> u64| words(&(0..n).map(f).collect::<Vec<_>>());
    v.push(mk(&|i| if i >= n / 2 { MAXW } else { 0 }.max((i == n - 1) as u64)));
    if many {
        v.push(Nat::pow2((n - 1) * W));
        v.push(mk(&|i| if i % 2 == (n - 1) % 2 { MAXW } else { 0 }));
        v.push(mk(&|i| if i < n / 2 { MAXW } else { 0 }.max((i == n - 1) as u64)));
        v.push(mk(&|i| if i == 0 { 0 } else { MAXW }));
    }
    v.retain(|x| !x.is_zero());
    dedup(&mut v);
    v
}

/// Remainders below b.
pub fn rems(b: &Nat, many: bool) -> Vec<Nat> {
    let one = Nat::from_u(1);
    let mut v = vec![Nat::zero(), b.sub(&one).unwrap()];
    if many {
        v.push(b.shr(1));
        if b.cmp(&one) == std::cmp::Ordering::Greater {
            v.push(one.clone());
            v.push(b.sub(&Nat::from_u(2)).unwrap());
        }
        v.push(b.shr(W));
    }
    dedup(&mut v);
    v
}
