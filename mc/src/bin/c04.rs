//! C04: Euclidean division.
use ibig::ops::{DivEuclid, DivRemEuclid, RemEuclid};
use ibig::{IBig, UBig};
use mc::*;

fn u_forms(c: &mut Chk, a: &UBig, b: &UBig, q: &Nat, r: &Nat) {
    mforms!(c, a, b, div_euclid, u, q);
    mforms!(c, a, b, rem_euclid, u, r);
    for k in 0..4 {
        let (x, y) = match k {
            0 => a.div_rem_euclid(b),
            1 => a.clone().div_rem_euclid(b),
            2 => a.div_rem_euclid(b.clone()),
            _ => a.clone().div_rem_euclid(b.clone()),
        };
        c.u("div_rem_euclid.0", &x, q);
        c.u("div_rem_euclid.1", &y, r);
    }
}

fn i_forms(c: &mut Chk, a: &IBig, b: &IBig, q: &Int, r: &Int) {
    mforms!(c, a, b, div_euclid, i, q);
    mforms!(c, a, b, rem_euclid, i, r);
    for k in 0..4 {
        let (x, y) = match k {
            0 => a.div_rem_euclid(b),
            1 => a.clone().div_rem_euclid(b),
            2 => a.div_rem_euclid(b.clone()),
            _ => a.clone().div_rem_euclid(b.clone()),
        };
        c.i("idiv_rem_euclid.0", &x, q);
        c.i("idiv_rem_euclid.1", &y, r);
    }
}

fn zero_div(c: &mut Chk, a: &Int) {
    let (ia, iz) = (to_i(a), IBig::from(0));
    let (ua, uz) = (to_u(&a.mag), UBig::from(0u8));
    macro_rules! z {
        ($x:expr, $z:expr, $m:ident) => {{
            let (x, z) = ($x, $z);
            c.panics(stringify!($m), || x.$m(z));
            c.panics(stringify!($m), || x.clone().$m(z));
            c.panics(stringify!($m), || x.$m(z.clone()));
            c.panics(stringify!($m), || x.clone().$m(z.clone()));
        }};
    }
    z!(&ia, &iz, div_euclid);
    z!(&ia, &iz, rem_euclid);
    z!(&ia, &iz, div_rem_euclid);
    z!(&ua, &uz, div_euclid);
    z!(&ua, &uz, rem_euclid);
    z!(&ua, &uz, div_rem_euclid);
}

/// All sign combinations for a magnitude division |a| = |b| q + r.
fn all(c: &mut Chk, na: &Nat, nb: &Nat, unsigned: bool) {
    let (ua, ub) = (to_u(na), to_u(nb));
    for (sa, sb) in [(false, false), (false, true), (true, false), (true, true)] {
        let (a, b) = (Int::new(sa, na.clone()), Int::new(sb, nb.clone()));
        let (q, r) = a.divrem_euclid(&b);
        // The model's own answer must satisfy the definition.
        assert!(!r.neg && r.mag.cmp(nb).is_lt() && b.mul(&q).add(&r) == a);
        if unsigned && !sa && !sb {
            u_forms(c, &ua, &ub, &q.mag, &r.mag);
        }
        i_forms(c, &to_i(&a), &to_i(&b), &q, &r);
    }
}

/// As all, with the magnitude quotient known by construction.
fn all_known(c: &mut Chk, na: &Nat, nb: &Nat, q: &Nat, r: &Nat, forms: bool) {
    let (ua, ub) = (to_u(na), to_u(nb));
    let one = Int::from_i(1);
    for (sa, sb) in [(false, false), (false, true), (true, false), (true, true)] {
        let mut wq = Int::new(sa != sb, q.clone());
        let mut wr = Int::new(sa, r.clone());
        if wr.neg {
            wq = if sb { wq.add(&one) } else { wq.sub(&one) };
            wr = wr.add(&Int::pos(nb.clone()));
        }
        let x = if sa { -IBig::from(ua.clone()) } else { IBig::from(ua.clone()) };
        let y = if sb { -IBig::from(ub.clone()) } else { IBig::from(ub.clone()) };
        if forms {
            if !sa && !sb {
                u_forms(c, &ua, &ub, q, r);
            }
            i_forms(c, &x, &y, &wq, &wr);
        } else {
            let (p, s) = (&x).div_rem_euclid(&y);
            c.i("div_rem_euclid.0", &p, &wq);
            c.i("div_rem_euclid.1", &s, &wr);
        }
    }
}

fn mk_int(neg: bool, n: &Nat, k: usize) -> IBig {
    let x = IBig::from(mk_variant(n, k));
    if neg {
        -x
    } else {
        x
    }
}

/// Every storage variant of both operands, moved in.
fn stored(c: &mut Chk, na: &Nat, nb: &Nat) {
    let (q, r) = na.divrem(nb);
    let (q, r) = (Int::pos(q), Int::pos(r));
    let b = Int::pos(nb.clone());
    let one = Int::from_i(1);
    for (i, j) in (0..3).flat_map(|i| (0..3).map(move |j| (i, j))) {
        let u = || mk_variant(na, i);
        let w = || mk_variant(nb, j);
        c.u("a.div_euclid(b)", &u().div_euclid(w()), &q.mag);
        c.u("a.rem_euclid(b)", &u().rem_euclid(w()), &r.mag);
        let (x, y) = u().div_rem_euclid(w());
        c.u("a.div_rem_euclid(b).0", &x, &q.mag);
        c.u("a.div_rem_euclid(b).1", &y, &r.mag);
        for (sa, sb) in [(false, true), (true, false), (true, true)] {
            let mut wq = if sa != sb { q.neg() } else { q.clone() };
            let mut wr = if sa { r.neg() } else { r.clone() };
            if wr.neg {
                wq = if sb { wq.add(&one) } else { wq.sub(&one) };
                wr = wr.add(&b);
            }
            let u = || mk_int(sa, na, i);
            let w = || mk_int(sb, nb, j);
            c.i("i.div_euclid(j)", &u().div_euclid(w()), &wq);
            c.i("i.rem_euclid(j)", &u().rem_euclid(w()), &wr);
            c.i("&i.rem_euclid(j)", &(&u()).rem_euclid(w()), &wr);
            c.i("i.rem_euclid(&j)", &u().rem_euclid(&w()), &wr);
            let (x, y) = u().div_rem_euclid(w());
            c.i("i.div_rem_euclid(j).0", &x, &wq);
            c.i("i.div_rem_euclid(j).1", &y, &wr);
        }
    }
}

fn main() {
    mc::main("C04", |tier| {
        let mut v = vec![];
        // Exhaustive small values.
        let lim = tier.pick(130i128, 400);
        v.push(block("tiny", move |ctx| {
            for a in -lim..=lim {
                for b in -lim..=lim {
                    if b == 0 {
                        continue;
                    }
                    ctx.state(|| format!("a={a} b={b}"), |c| {
                        let (q, r) = (Int::from_i(a.div_euclid(b)), Int::from_i(a.rem_euclid(b)));
                        i_forms(c, &IBig::from(a), &IBig::from(b), &q, &r);
                    });
                }
                ctx.state(|| format!("a={a} b=0"), |c| zero_div(c, &Int::from_i(a)));
            }
        }));
        let bs = upto_words(&wa7(), 2);
        let mut aa = upto_words(&wa5(), 3);
        aa.extend(bs.clone());
        dedup(&mut aa);
        let bs: Vec<Nat> = bs.into_iter().chain(all_words(&wa4(), 3)).collect();
        for (k, ch) in aa.chunks(8).enumerate() {
            let (ch, bs) = (ch.to_vec(), bs.clone());
            v.push(block(format!("small-pairs-{k}"), move |ctx| {
                for a in &ch {
                    ctx.state(|| format!("a={} b=0", a.hex()), |c| zero_div(c, &Int::new(true, a.clone())));
                    for b in &bs {
                        if b.is_zero() {
                            continue;
                        }
                        ctx.state(|| d2(a, b), |c| all(c, a, b, true));
                    }
                }
            }));
        }
        let maxl = tier.pick(90usize, 160);
        for lb in 1..=maxl {
            v.push(block(format!("lengths-{lb}"), move |ctx| {
                for lq in 1..=maxl {
                    for b in divisors(lb, W == 16 && lb < 20) {
                        for q in quotients(lq, false) {
                            for r in rems(&b, lb < 8) {
                                let a = b.mul(&q).add(&r);
                                ctx.state(|| d2(&a, &b), |c| {
                                    all_known(c, &a, &b, &q, &r, lq <= 6 || lq == lb || lq + 2 > maxl)
                                });
                            }
                        }
                    }
                }
            }));
        }
        // Dividend shorter than the divisor, and equal lengths.
        for lb in 1..=30usize {
            v.push(block(format!("short-dividend-{lb}"), move |ctx| {
                for la in 0..=lb {
                    let aa = if la == 0 { vec![Nat::zero()] } else { pats(la) };
                    for a in aa {
                        for b in pats(lb) {
                            let (q, r) = if a.cmp(&b).is_lt() { (Nat::zero(), a.clone()) } else { a.divrem(&b) };
                            ctx.state(|| d2(&a, &b), |c| all_known(c, &a, &b, &q, &r, true));
                        }
                    }
                }
            }));
        }
        // Operands moved in that fill their storage exactly, or have all the slack they can.
        for la in 1..=24usize {
            v.push(block(format!("storage-{la}"), move |ctx| {
                for lb in 1..=la + 1 {
                    let xs = [words(&vec![MAXW; la]), generic(5, la), Nat::pow2((la - 1) * W)];
                    let ys = [words(&vec![MAXW; lb]), generic(6, lb), Nat::pow2((lb - 1) * W), Nat::from_u(1)];
                    for (na, nb) in xs.iter().flat_map(|x| ys.iter().map(move |y| (x, y))) {
                        ctx.state(|| d2(na, nb), |c| stored(c, na, nb));
                    }
                }
            }));
        }
        v
    });
}
