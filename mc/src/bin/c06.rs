//! C06: bitwise operators on infinite two's complement.
use ibig::ops::AndNot;
use ibig::{IBig, UBig};
use mc::*;

fn u_all(c: &mut Chk, na: &Nat, nb: &Nat, a: &UBig, b: &UBig) {
    let (x, y) = (Int::pos(na.clone()), Int::pos(nb.clone()));
    let w = x.bitop(&y, |p, q| p & q).mag;
    forms!(c, a, b, &, &=, u, &w);
    let w = x.bitop(&y, |p, q| p | q).mag;
    forms!(c, a, b, |, |=, u, &w);
    let w = x.bitop(&y, |p, q| p ^ q).mag;
    forms!(c, a, b, ^, ^=, u, &w);
    let w = x.bitop(&y, |p, q| p & !q).mag;
    mforms!(c, a, b, and_not, u, &w);
}

fn i_all(c: &mut Chk, x: &Int, y: &Int, a: &IBig, b: &IBig) {
    let w = x.bitop(y, |p, q| p & q);
    forms!(c, a, b, &, &=, i, &w);
    let w = x.bitop(y, |p, q| p | q);
    forms!(c, a, b, |, |=, i, &w);
    let w = x.bitop(y, |p, q| p ^ q);
    forms!(c, a, b, ^, ^=, i, &w);
    let w = x.bitop(y, |p, q| p & !q);
    mforms!(c, a, b, and_not, i, &w);
}

fn all_signs(c: &mut Chk, na: &Nat, nb: &Nat, ua: &UBig, ub: &UBig) {
    u_all(c, na, nb, ua, ub);
    let (ia, ib) = (IBig::from(ua), IBig::from(ub));
    let (ja, jb) = (-&ia, -&ib);
    for (sa, sb) in [(false, false), (false, true), (true, false), (true, true)] {
        i_all(
            c,
            &Int::new(sa, na.clone()),
            &Int::new(sb, nb.clone()),
            if sa { &ja } else { &ia },
            if sb { &jb } else { &ib },
        );
    }
}

fn not(c: &mut Chk, a: &Int) {
    let i = to_i(a);
    let w = a.not();
    c.i("!&a", &!&i, &w);
    c.i("!a", &!i.clone(), &w);
    c.i("!!a", &!!i, a);
}

fn main() {
    mc::main("C06", |tier| {
        let mut v = vec![];
        let vals = upto_words(&wa7(), 3);
        for (k, ch) in vals.chunks(20).enumerate() {
            let (ch, all) = (ch.to_vec(), vals.clone());
            v.push(block(format!("small-pairs-{k}"), move |ctx| {
                let ub: Vec<UBig> = all.iter().map(to_u).collect();
                for a in &ch {
                    let ua = to_u(a);
                    for (b, u) in all.iter().zip(&ub) {
                        ctx.state(|| d2(a, b), |c| all_signs(c, a, b, &ua, u));
                    }
                    ctx.state(|| format!("!{}", a.hex()), |c| {
                        not(c, &Int::pos(a.clone()));
                        not(c, &Int::new(true, a.clone()));
                    });
                }
            }));
        }
        // 4-bit exhaustive: all pairs of small signed values.
        v.push(block("tiny", move |ctx| {
            let lim = tier.pick(200i128, 520);
            for x in -lim..=lim {
                for y in -lim..=lim {
                    ctx.state(|| format!("a={x} b={y}"), |c| {
                        let (a, b) = (IBig::from(x), IBig::from(y));
                        c.i("&", &(&a & &b), &Int::from_i(x & y));
                        c.i("|", &(&a | &b), &Int::from_i(x | y));
                        c.i("^", &(&a ^ &b), &Int::from_i(x ^ y));
                        c.i("and_not", &(&a).and_not(&b), &Int::from_i(x & !y));
                    });
                }
                ctx.state(|| format!("!{x}"), |c| not(c, &Int::from_i(x)));
            }
        }));
        // Ripples: zero runs of every length at the bottom of negative operands.
        let maxl = tier.pick(16usize, 26);
        for la in 1..=maxl {
            v.push(block(format!("ripple-{la}"), move |ctx| {
                let fam = |l: usize| {
                    let mut r = vec![];
                    for z in 0..l {
                        // z low zero words (or all-one words), then generic / minimal / all-one rest
                        for low in [0, MAXW] {
                            for rest in 0..3u64 {
                                let w: Vec<u64> = (0..l)
                                    .map(|i| if i < z { low } else { match rest { 0 => gw(41, i as u64) | 1, 1 => (i == l - 1) as u64, _ => MAXW } })
                                    .collect();
                                r.push(words(&w));
                            }
                        }
                    }
                    dedup(&mut r);
                    r.retain(|n| wlen(n) == l);
                    r
                };
                let aa = fam(la);
                for lb in 1..=la {
                    let bb = fam(lb);
                    for a in &aa {
                        let ua = to_u(a);
                        for b in &bb {
                            let ub = to_u(b);
                            ctx.state(|| d2(a, b), |c| {
                                all_signs(c, a, b, &ua, &ub);
                                if lb != la {
                                    all_signs(c, b, a, &ub, &ua);
                                }
                            });
                        }
                    }
                    for a in &aa {
                        ctx.state(|| format!("!{}", a.hex()), |c| {
                            not(c, &Int::pos(a.clone()));
                            not(c, &Int::new(true, a.clone()));
                        });
                    }
                }
            }));
        }
        // All length pairs.
        let maxl = tier.pick(70usize, 160);
        for la in 1..=maxl {
            v.push(block(format!("lengths-{la}"), move |ctx| {
                for lb in 1..=maxl {
                    for a in pats_few(la) {
                        let ua = to_u(&a);
                        for b in pats_few(lb) {
                            let ub = to_u(&b);
                            ctx.state(|| d2(&a, &b), |c| all_signs(c, &a, &b, &ua, &ub));
                        }
                    }
                }
            }));
        }
        // Storage variants moved in.
        for la in 1..=24usize {
            v.push(block(format!("storage-{la}"), move |ctx| {
                for lb in 1..=(la + 8) {
                    for a in [words(&vec![MAXW; la]), generic(5, la)] {
                        for b in [words(&vec![MAXW; lb]), generic(6, lb), Nat::pow2((lb - 1) * W)] {
                            ctx.state(|| d2(&a, &b), |c| {
                                let (x, y) = (Int::pos(a.clone()), Int::pos(b.clone()));
                                let o = x.bitop(&y, |p, q| p | q).mag;
                                let n = x.bitop(&y, |p, q| p & q).mag;
                                let e = x.bitop(&y, |p, q| p ^ q).mag;
                                let d = x.bitop(&y, |p, q| p & !q).mag;
                                let (nx, ny) = (x.neg(), y.neg());
                                let no = nx.bitop(&y, |p, q| p | q);
                                let nn = nx.bitop(&ny, |p, q| p & q);
                                let ne = x.bitop(&ny, |p, q| p ^ q);
                                let one = Int::from_i(1);
                                let (nota, notna) = (nx.sub(&one), x.sub(&one));
                                let nd = nx.bitop(&y, |p, q| p & !q);
                                let dn = x.bitop(&ny, |p, q| p & !q);
                                let noo = nx.bitop(&ny, |p, q| p | q);
                                for i in 0..3 {
                                    for j in 0..3 {
                                        let (p, q) = (|| mk_variant(&a, i), || mk_variant(&b, j));
                                        c.u("a|b", &(p() | q()), &o);
                                        c.u("a|&b", &(p() | &q()), &o);
                                        c.u("&a|b", &(&p() | q()), &o);
                                        c.u("a&b", &(p() & q()), &n);
                                        c.u("a&&b", &(p() & &q()), &n);
                                        c.u("a^b", &(p() ^ q()), &e);
                                        c.u("a^&b", &(p() ^ &q()), &e);
                                        c.u("&a^b", &(&p() ^ q()), &e);
                                        c.u("a.and_not(b)", &p().and_not(q()), &d);
                                        c.u("a.and_not(&b)", &p().and_not(&q()), &d);
                                        let (ip, iq) = (|| IBig::from(p()), || IBig::from(q()));
                                        c.i("!a", &!ip(), &nota);
                                        c.i("!-a", &!-ip(), &notna);
                                        c.i("-a.and_not(b)", &(-ip()).and_not(iq()), &nd);
                                        c.i("a.and_not(-b)", &ip().and_not(-iq()), &dn);
                                        c.i("-a|b", &(-ip() | iq()), &no);
                                        c.i("-a|-b", &(-ip() | -iq()), &noo);
                                        c.i("-a&-b", &(-ip() & -iq()), &nn);
                                        c.i("a^-b", &(ip() ^ -iq()), &ne);
                                        c.i("a^&-b", &(ip() ^ &-iq()), &ne);
                                    }
                                }
                            });
                        }
                    }
                }
            }));
        }
        v
    });
}
