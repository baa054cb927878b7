//! C02: multiplication.
use ibig::{IBig, UBig};
use mc::*;

fn all_forms(c: &mut Chk, na: &Nat, nb: &Nat, a: &UBig, b: &UBig) {
    let w = na.mul(nb);
    forms!(c, a, b, *, *=, u, &w);
    for (sa, sb) in [(false, true), (true, false), (true, true), (false, false)] {
        let x = IBig::from(a.clone()) * if sa { IBig::from(-1) } else { IBig::from(1) };
        let y = if sb { -IBig::from(b.clone()) } else { IBig::from(b.clone()) };
        let wi = Int::new(sa != sb, w.clone());
        let (x, y) = (&x, &y);
        forms!(c, x, y, *, *=, i, &wi);
    }
}

/// Both operand orders, by reference; products of large numbers.
fn big(c: &mut Chk, na: &Nat, nb: &Nat, a: &UBig, b: &UBig) {
    let w = na.mul(nb);
    c.u("&a*&b", &(a * b), &w);
    c.u("&b*&a", &(b * a), &w);
}

fn big_forms(c: &mut Chk, na: &Nat, nb: &Nat, a: &UBig, b: &UBig) {
    let w = na.mul(nb);
    forms!(c, a, b, *, *=, u, &w);
    let wi = Int::new(true, w);
    c.i("(-a)*&b", &(-IBig::from(a.clone()) * &IBig::from(b.clone())), &wi);
    c.i("&b*(-a)", &(&IBig::from(b.clone()) * -IBig::from(a.clone())), &wi);
}

fn main() {
    mc::main("C02", |tier| {
        let mut v = vec![];
        let vals = upto_words(&wa7(), 3);
        for (k, ch) in vals.chunks(40).enumerate() {
            let (ch, all) = (ch.to_vec(), vals.clone());
            v.push(block(format!("small-pairs-{k}"), move |ctx| {
                let ub: Vec<UBig> = all.iter().map(to_u).collect();
                for a in &ch {
                    let ua = to_u(a);
                    for (b, u) in all.iter().zip(&ub) {
                        ctx.state(|| d2(a, b), |c| all_forms(c, a, b, &ua, u));
                    }
                }
            }));
        }
        // Four- and five-word operands over three-letter alphabets.
        let vals: Vec<Nat> = [4usize, 5].iter().flat_map(|l| all_words(&wa3(), *l)).collect();
        for (k, ch) in vals.chunks(36).enumerate() {
            let (ch, all) = (ch.to_vec(), vals.clone());
            v.push(block(format!("five-words-{k}"), move |ctx| {
                let ub: Vec<UBig> = all.iter().map(to_u).collect();
                for a in &ch {
                    let ua = to_u(a);
                    for (b, u) in all.iter().zip(&ub) {
                        ctx.state(|| d2(a, b), |c| big(c, a, b, &ua, u));
                    }
                }
            }));
        }
        // All length pairs through the schoolbook and small Karatsuba range.
        let maxl = tier.pick(110usize, 200);
        for la in 1..=maxl {
            v.push(block(format!("lengths-{la}"), move |ctx| {
                for lb in 1..=la {
                    for a in pats(la) {
                        let ua = to_u(&a);
                        for b in pats_few(lb) {
                            let ub = to_u(&b);
                            ctx.state(|| d2(&a, &b), |c| big(c, &a, &b, &ua, &ub));
                        }
                    }
                }
            }));
        }
        // Equal and nearly equal lengths through the Karatsuba and Toom-3 ranges, block-structured
        // contents so that every intermediate difference takes every sign and zero.
        let lens: Vec<usize> = if W == 16 {
            (20..=tier.pick(420, 640)).collect()
        } else {
            let step = tier.pick(if W == 64 { 3 } else { 2 }, 1);
            let mut l: Vec<usize> = (20..60).collect();
            l.extend((60..230).step_by(step));
            l.extend([95, 96, 97, 98, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200]);
            l.sort();
            l.dedup();
            l
        };
        for l in lens {
            v.push(block(format!("blocks-{l}"), move |ctx| {
                let toom = l > 192;
                let aa = if toom { blocky(l, 3, 4) } else { blocky(l, 2, 6) };
                let mut bb = if toom { blocky(l, 3, 3) } else { blocky(l, 2, 4) };
                if W != 16 && !tier.thorough() {
                    bb.truncate(if l > 60 { 6 } else { 12 });
                }
                let mut more = if l > 21 { blocky(l - 1, if toom { 3 } else { 2 }, 3) } else { vec![] };
                more.truncate(5);
                bb.extend(more);
                let ub: Vec<UBig> = bb.iter().map(to_u).collect();
                for a in &aa {
                    let ua = to_u(a);
                    for (b, u) in bb.iter().zip(&ub) {
                        ctx.state(|| d2(a, b), |c| big(c, a, b, &ua, u));
                    }
                    ctx.state(|| d2(a, a), |c| c_square(c, a, &ua));
                }
            }));
        }
        // Toom-3 with every block pattern over six block kinds.
        let lens: Vec<usize> = if W == 16 { vec![193, 194, 195, 578] } else { vec![194] };
        for l in lens {
            let aa = blocky(l, 3, if W == 16 { 6 } else { 5 });
            for (k, ch) in aa.chunks(24).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("toom-{l}-{k}"), move |ctx| {
                    let bb = if W == 16 || tier.thorough() { blocky(l, 3, 5) } else { blocky(l, 3, 2) };
                    let ub: Vec<UBig> = bb.iter().map(to_u).collect();
                    for a in &ch {
                        let ua = to_u(a);
                        for (b, u) in bb.iter().zip(&ub) {
                            ctx.state(|| d2(a, b), |c| {
                                let w = a.mul(b);
                                c.u("&a*&b", &(&ua * u), &w);
                            });
                        }
                    }
                }));
            }
        }
        // Recursive Toom-3 and unbalanced operands: la = k*lb + r.
        let shorts: Vec<usize> = match W {
            16 => vec![24, 25, 26, 27, 48, 49, 50, 51, 96, 97, 98, 99, 191, 192, 193, 194, 195, 196, 197],
            _ => vec![24, 25, 26, 49, 50, 98, 192, 193, 194],
        };
        for lb in shorts {
            v.push(block(format!("unbalanced-{lb}"), move |ctx| {
                for k in 1..=4usize {
                    let mut rs = vec![0, 1, 2, 3, 23, 24, 25, 26, lb / 3, lb / 2, lb / 2 + 1, lb - 2, lb - 1];
                    if W == 16 {
                        rs.extend([47, 48, 49, 50, 97, 98, 191]);
                    }
                    rs.retain(|r| *r < lb);
                    rs.sort();
                    rs.dedup();
                    for r in rs {
                        let la = k * lb + r;
                        for a in pats_few(la).into_iter().chain([generic(11, la)]) {
                            let ua = to_u(&a);
                            for b in [words(&vec![MAXW; lb]), generic(12, lb), generic(13, lb).add(&Nat::pow2(lb * W - 1))] {
                                let ub = to_u(&b);
                                ctx.state(|| d2(&a, &b), |c| big_forms(c, &a, &b, &ua, &ub));
                            }
                        }
                    }
                }
            }));
        }
        let lens: Vec<usize> = match W {
            16 => vec![384, 385, 400, 575, 576, 577, 578, 579, 580, 581, 582, 600, 768, 1000, 1023, 1024, 1025, 1727, 1728, 1729, 1736, 2000],
            32 => vec![385, 576, 577, 579, 583, 1024],
            _ => vec![385, 577, 583],
        };
        for l in lens {
            v.push(block(format!("large-{l}"), move |ctx| {
                for a in blocky(l, 3, 3).into_iter().chain(pats_few(l)) {
                    let ua = to_u(&a);
                    for b in [words(&vec![MAXW; l]), generic(14, l), generic(15, l - 1)] {
                        let ub = to_u(&b);
                        ctx.state(|| d2(&a, &b), |c| big(c, &a, &b, &ua, &ub));
                    }
                }
            }));
        }
        // Long times short (the schoolbook method works on the longer operand in chunks).
        for la in [1000usize, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 3072, 3073] {
            v.push(block(format!("long-{la}"), move |ctx| {
                for lb in 1..=26usize {
                    for a in [words(&vec![MAXW; la]), generic(16, la), Nat::pow2(la * W - 1)] {
                        let ua = to_u(&a);
                        for b in [words(&vec![MAXW; lb]), generic(17, lb)] {
                            let ub = to_u(&b);
                            ctx.state(|| d2(&a, &b), |c| big_forms(c, &a, &b, &ua, &ub));
                        }
                    }
                }
            }));
        }
        // Storage variants moved in.
        for la in 1..=30usize {
            v.push(block(format!("storage-{la}"), move |ctx| {
                for lb in 1..=8usize {
                    for a in [words(&vec![MAXW; la]), generic(5, la), Nat::pow2(la * W - 1)] {
                        for b in [Nat::from_u(1), words(&vec![MAXW; lb]), generic(6, lb)] {
                            let w = a.mul(&b);
                            ctx.state(|| d2(&a, &b), |c| {
                                for i in 0..3 {
                                    for j in 0..3 {
                                        c.u("a*b", &(mk_variant(&a, i) * mk_variant(&b, j)), &w);
                                        let mut x = mk_variant(&a, i);
                                        x *= mk_variant(&b, j);
                                        c.u("a*=b", &x, &w);
                                        c.u("b*a", &(mk_variant(&b, j) * mk_variant(&a, i)), &w);
                                        c.u("&a*b", &(&mk_variant(&a, i) * mk_variant(&b, j)), &w);
                                    }
                                }
                            });
                        }
                    }
                }
            }));
        }
        // Every one-word value times boundary words and powers of two (16-bit words: exhaustive).
        let ws: Vec<u64> = {
            let mut b: Vec<u64> = (0..W).flat_map(|k| [1u64 << k, (1u64 << k) - 1, MAXW - ((1u64 << k) - 1)]).collect();
            b.extend(wa7());
            b.extend([3, 5, 7, 10, 0x5555, 0xaaaa, 0x1234, 0xfedc]);
            b.sort();
            b.dedup();
            b
        };
        let xs: Vec<u64> = if W == 16 { (0..65536).collect() } else { ws.clone() };
        for (k, ch) in xs.chunks(2048).enumerate() {
            let (ch, ws) = (ch.to_vec(), ws.clone());
            v.push(block(format!("words-{k}"), move |ctx| {
                for &x in &ch {
                    let ux = UBig::from(x);
                    ctx.state(|| format!("x={x:#x} times all boundary words"), |c| {
                        for &y in &ws {
                            let p = x as u128 * y as u128;
                            c.ok(u128::try_from(&ux * UBig::from(y)) == Ok(p), || format!("y={y:#x}"));
                        }
                    });
                }
            }));
        }
        v
    });
}

fn c_square(c: &mut Chk, a: &Nat, ua: &UBig) {
    let w = a.mul(a);
    c.u("&a*&a", &(ua * ua), &w);
}
