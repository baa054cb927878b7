//! C15: printing in any radix gives the canonical digits and parses back.
use ibig::{IBig, UBig};
use mc::*;

fn show(c: &mut Chk, u: &UBig, radix: u32, d: &str) {
    let eq = |c: &mut Chk, op: &str, got: String, neg: bool, want: &str| {
        let ok = if neg { got.strip_prefix('-') == Some(want) } else { got == want };
        c.ok(ok, || {
            let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b);
            format!("{op}: got {:.300} want {:.300} (lengths {} and {}, first difference at {:?})", got, want, got.len(), want.len(), i)
        });
    };
    let up = d.to_ascii_uppercase();
    let neg = d != "0";
    let i = -IBig::from(u);
    eq(c, "in_radix", u.in_radix(radix).to_string(), false, d);
    eq(c, "in_radix alternate", format!("{:#}", u.in_radix(radix)), false, &up);
    eq(c, "ibig in_radix", IBig::from(u).in_radix(radix).to_string(), false, d);
    eq(c, "-ibig in_radix", i.in_radix(radix).to_string(), neg, d);
    eq(c, "-ibig in_radix alternate", format!("{:#}", i.in_radix(radix)), neg, &up);
    match radix {
        2 => {
            eq(c, "{:b}", format!("{u:b}"), false, d);
            eq(c, "ibig {:b}", format!("{i:b}"), neg, d);
        }
        8 => {
            eq(c, "{:o}", format!("{u:o}"), false, d);
            eq(c, "ibig {:o}", format!("{i:o}"), neg, d);
        }
        10 => {
            eq(c, "{}", format!("{u}"), false, d);
            eq(c, "{:?}", format!("{u:?}"), false, d);
            eq(c, "ibig {}", format!("{i}"), neg, d);
            eq(c, "ibig {:?}", format!("{i:?}"), neg, d);
        }
        16 => {
            eq(c, "{:x}", format!("{u:x}"), false, d);
            eq(c, "{:X}", format!("{u:X}"), false, &up);
            eq(c, "ibig {:x}", format!("{i:x}"), neg, d);
            eq(c, "ibig {:X}", format!("{i:X}"), neg, &up);
        }
        _ => {}
    }
    c.note(d.as_bytes());
}
fn back(c: &mut Chk, u: &UBig, radix: u32, d: &str) {
    c.ok(UBig::from_str_radix(d, radix).as_ref() == Ok(u), || "parsing the printed text does not give the number back".into());
    let i = -IBig::from(u);
    let s = format!("{:#}", i.in_radix(radix));
    c.ok(IBig::from_str_radix(&s, radix) == Ok(i), || "parsing the printed text does not give the negative number back".into());
}

fn all_radixes(c: &mut Chk, n: &Nat) {
    let u = to_u(n);
    for r in 2..=36 {
        let d = n.digits(r);
        show(c, &u, r, &d);
        back(c, &u, r, &d);
    }
}

fn dpw(radix: u32) -> usize {
    let mut n = 0;
    let mut p = 1u128;
    while p * (radix as u128) <= MAXW as u128 + if radix.is_power_of_two() { 1 } else { 0 } {
        p *= radix as u128;
        n += 1;
    }
    n
}
fn ch(d: u32) -> char {
    char::from_digit(d, 36).unwrap()
}

fn main() {
    mc::main("C15", |tier| {
        let mut v = vec![];
        let vals = {
            let mut x = upto_words(&wa7(), 3);
            x.extend(all_words(&wa4(), 4));
            x.extend(all_words(&wa3(), 5));
            x
        };
        for (k, chk) in vals.chunks(64).enumerate() {
            let chk = chk.to_vec();
            v.push(block(format!("words-{k}"), move |ctx| {
                for n in &chk {
                    ctx.state(|| n.hex(), |c| all_radixes(c, n));
                }
            }));
        }
        for l in 1..=tier.pick(120usize, 240) {
            v.push(block(format!("lengths-{l}"), move |ctx| {
                for n in pats(l) {
                    ctx.state(|| n.hex(), |c| all_radixes(c, &n));
                }
            }));
        }
        // Every bit length in the first words, power-of-two neighbours.
        for b0 in 0..8 {
            v.push(block(format!("pow2-{b0}"), move |ctx| {
                for b in (b0..tier.pick(12 * W, 40 * W)).step_by(8) {
                    let p = Nat::pow2(b);
                    for n in [p.clone(), p.sub(&Nat::from_u(1)).unwrap(), p.add(&Nat::from_u(1))] {
                        ctx.state(|| n.hex(), |c| all_radixes(c, &n));
                    }
                }
            }));
        }
        for r in 2..=36u32 {
            // Powers of the radix and neighbours; the digits are known without division.
            v.push(block(format!("powers-{r}"), move |ctx| {
                let d = dpw(r);
                let top = ch(r - 1).to_string();
                let mut p = Nat::from_u(1);
                let max = tier.pick(if r == 10 || r == 3 || r == 36 { 60 } else { 36 }, 110) * d;
                for k in 0..max {
                    let dense = k <= 4 * d || k % d <= 1 || k % d == d - 1;
                    if dense {
                        ctx.state(|| format!("{r}^{k}"), |c| {
                            show(c, &to_u(&p), r, &format!("1{}", "0".repeat(k)));
                            if k > 0 {
                                show(c, &to_u(&p.sub(&Nat::from_u(1)).unwrap()), r, &top.repeat(k));
                                show(c, &to_u(&p.add(&Nat::from_u(1))), r, &format!("1{}1", "0".repeat(k - 1)));
                                let mut q = p.clone();
                                q.mul_small_add(r - 1, 0);
                                show(c, &to_u(&q), r, &format!("{}{}", top, "0".repeat(k)));
                            }
                        });
                    }
                    p.mul_small_add(r, 0);
                }
            }));
            // Texts made of blocks aligned to the groups and chunks of the printing algorithm.
            v.push(block(format!("texts-{r}"), move |ctx| {
                let d = dpw(r);
                let top = ch(r - 1);
                let heavy = matches!(r, 3 | 7 | 10 | 36);
                let mut sizes: Vec<usize> = vec![1, d, 8 * d, 16 * d];
                if heavy || tier.thorough() {
                    sizes.extend([32 * d, 64 * d]);
                }
                for &sz in &sizes {
                    for off in [0isize, -1, 1] {
                        let n = (sz as isize + off).max(1) as usize;
                        let kinds = 4usize;
                        for code in 0..kinds.pow(4) {
                            let mut s = String::new();
                            let mut x = code;
                            for _ in 0..4 {
                                match x % kinds {
                                    0 => s.push_str(&"0".repeat(n)),
                                    1 => s.extend(std::iter::repeat(top).take(n)),
                                    2 => {
                                        s.push_str(&"0".repeat(n - 1));
                                        s.push('1');
                                    }
                                    _ => s.extend((0..n).map(|i| ch((gw(31, i as u64) % r as u64) as u32))),
                                }
                                x /= kinds;
                            }
                            let t = s.trim_start_matches('0');
                            if t.is_empty() || (W == 16 && t.len() as f64 * (r as f64).log2() > 65000.0) {
                                continue;
                            }
                            ctx.state(|| format!("radix {r} block {n} code {code}"), |c| {
                                let m = Nat::parse(t, r);
                                let u = to_u(&m);
                                show(c, &u, r, t);
                                if n < 40 || off == 0 {
                                    back(c, &u, r, t);
                                }
                            });
                        }
                    }
                }
            }));
            // Chunk boundaries of the large algorithm: r^(16*dpw*2^i) and its neighbours and multiples.
            v.push(block(format!("chunks-{r}"), move |ctx| {
                let d = dpw(r);
                let top = ch(r - 1).to_string();
                for i in 0..tier.pick(if W == 16 { 6u32 } else { 5 }, 7) {
                    for m in [1usize, 3] {
                        let k = (16 * d * m) << i;
                        if W == 16 && (k + d + 1) as f64 * (r as f64).log2() > 65000.0 {
                            continue;
                        }
                        for (name, t) in [
                            ("power", format!("1{}", "0".repeat(k))),
                            ("below", top.repeat(k)),
                            ("above", format!("1{}1", "0".repeat(k - 1))),
                            ("digit below", top.repeat(k - 1)),
                            ("digit above", format!("{}{}", top, "0".repeat(k))),
                            ("word above", format!("{}{}", top.repeat(d), "0".repeat(k))),
                            ("word above full", top.repeat(d + k)),
                            ("word above 1", format!("1{}", top.repeat(d + k - 1))),
                        ] {
                            ctx.state(|| format!("radix {r} {name} {k}"), |c| {
                                let n = Nat::parse(&t, r);
                                let u = to_u(&n);
                                show(c, &u, r, &t);
                                back(c, &u, r, &t);
                            });
                        }
                    }
                }
            }));
        }
        // More levels of the recursion than the blocks above reach, with longer words.
        if W > 16 {
            for r in [3u32, 7, 10, 36] {
                for i in 6..=tier.pick(if r == 10 { 11u32 } else { 10 }, 12) {
                    v.push(block(format!("deep-{r}-{i}"), move |ctx| {
                        let d = dpw(r);
                        let top = ch(r - 1).to_string();
                        let k = (16 * d) << i;
                        let step: String = (0..d as u64 + 1).map(|i| ch((gw(37, i) % r as u64) as u32)).collect();
                        for (name, t) in [
                            ("power", format!("1{}", "0".repeat(k))),
                            ("below", top.repeat(k)),
                            ("words above full", top.repeat(3 * d + k)),
                            ("half", format!("{}1{}", top.repeat(k / 2), "0".repeat(k / 2 - 1))),
                            ("steps", format!("1{}", step.repeat(k / (d + 1)))),
                        ] {
                            ctx.state(|| format!("radix {r} {name} {k}"), |c| {
                                let n = Nat::parse(&t, r);
                                let u = to_u(&n);
                                show(c, &u, r, &t);
                                back(c, &u, r, &t);
                            });
                        }
                    }));
                }
            }
        }
        if W == 16 {
            for k in 0..16u64 {
                v.push(block(format!("values-{k}"), move |ctx| {
                    for x in (k * 4096)..((k + 1) * 4096) {
                        ctx.state(|| format!("{x}"), |c| {
                            let u = UBig::from(x);
                            c.ok(u.to_string() == x.to_string(), || "decimal".into());
                            c.ok(format!("{u:x}") == format!("{x:x}"), || "hex".into());
                            for r in [3u32, 5, 7, 32, 35, 36] {
                                let d = Nat::from_u(x as u128).digits(r);
                                c.ok(u.in_radix(r).to_string() == d, || format!("radix {r}"));
                            }
                            // As the top word, and as the bottom word, of a two-word number.
                            for y in [(x << 16) | 0xffff, (x << 16), (1 << 16) | x, 0xffff_0000 | x, (x << 32) | 0x1234_5678] {
                                let u = UBig::from(y);
                                c.ok(u.to_string() == y.to_string(), || format!("decimal {y}"));
                                c.ok(format!("{u:o}") == format!("{y:o}"), || format!("octal {y}"));
                            }
                        });
                    }
                }));
            }
        }
        v
    });
}
