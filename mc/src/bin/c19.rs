//! C19: ring identity over operation histories.
//!
//! Model state: for each of three variables, (ring number, residue). Every operation is applied to the
//! model and to real elements; after each step every pair of variables is compared.
use ibig::{Modulo, ModuloRing, UBig};
use mc::*;
use std::collections::{HashSet, VecDeque};

const V: usize = 3;
type St = [(u8, Nat); V];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// v[i] = ring[r].from(x)
    Set(u8, u8, u8),
    Clone(u8, u8),
    CloneFrom(u8, u8),
    Swap(u8, u8),
    /// move through an array and back
    Replace(u8, u8),
    AddA(u8, u8),
    SubA(u8, u8),
    MulA(u8, u8),
    DivA(u8, u8),
    /// v[i] = &v[i] - v[j].clone()  (writes into the clone of v[j])
    SubSwap(u8, u8),
    /// v[i] = v[i] + v[j], consuming clones
    AddOwn(u8, u8),
    MulRefOwn(u8, u8),
    Neg(u8),
    Sq(u8),
    Inv(u8),
}

fn ops(rings: u8) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..V as u8 {
        for r in 0..rings {
            for x in 0..2 {
                v.push(Op::Set(i, r, x));
            }
        }
        v.extend([Op::Neg(i), Op::Sq(i), Op::Inv(i)]);
        for j in 0..V as u8 {
            v.extend([Op::AddA(i, j), Op::SubA(i, j), Op::MulA(i, j), Op::DivA(i, j), Op::SubSwap(i, j), Op::AddOwn(i, j), Op::MulRefOwn(i, j)]);
            if i != j {
                v.extend([Op::Clone(i, j), Op::CloneFrom(i, j), Op::Replace(i, j)]);
                if i < j {
                    v.push(Op::Swap(i, j));
                }
            }
        }
    }
    v
}

/// (variables written, variables read or written)
fn vars(o: Op) -> (Vec<u8>, Vec<u8>) {
    use Op::*;
    match o {
        Set(i, _, _) | Neg(i) | Sq(i) | Inv(i) => (vec![i], vec![i]),
        Swap(i, j) | Replace(i, j) => (vec![i, j], vec![i, j]),
        Clone(i, j) | CloneFrom(i, j) | AddA(i, j) | SubA(i, j) | MulA(i, j) | DivA(i, j) | SubSwap(i, j) | AddOwn(i, j) | MulRefOwn(i, j) => (vec![i], vec![i, j]),
    }
}

/// Whether b uses a variable that a wrote.
fn touches(a: Op, b: Op) -> bool {
    let (w, r) = (vars(a).0, vars(b).1);
    w.iter().any(|x| r.contains(x))
}

/// The moduli of a family of rings; equal moduli occur in different rings.
fn family(k: usize) -> Vec<Nat> {
    let s = Nat::from_u(7);
    let big = Nat::pow2(2 * W).add(&Nat::from_u(13));
    let big2 = words(&[MAXW, MAXW, MSB]);
    match k {
        // two small equal, one small different, two large equal, one longer
        0 => vec![s.clone(), s, Nat::from_u(11), big.clone(), big, big2],
        1 => vec![Nat::from_u(1), Nat::from_u(1), words(&[MAXW]), words(&[MAXW]), words(&[0, 1]), words(&[0, 1])],
        // same length, different values; different lengths
        2 => vec![words(&[3, MSB]), words(&[5, MSB]), words(&[3, MSB]), words(&[9, 9, 9, 9, 1]), words(&[9, 9, 9, 9, 1]), words(&[MAXW])],
        _ => vec![Nat::from_u(6), big2.clone(), big2, Nat::from_u(6), words(&[1, 0, 0, 0, 0, 0, 0, 1]), words(&[1, 2, 3])],
    }
}

fn val(n: &Nat, x: u8) -> Nat {
    match x {
        0 => Nat::from_u(3).divrem(n).1,
        _ => n.sub(&Nat::from_u(1)).unwrap(),
    }
}

fn inv(a: &Nat, n: &Nat) -> Option<Nat> {
    let (mut r0, mut r1) = (Int::pos(n.clone()), Int::pos(a.clone()));
    let (mut t0, mut t1) = (Int::from_i(0), Int::from_i(1));
    while !r1.mag.is_zero() {
        let (q, r) = r0.divrem(&r1);
        let t = t0.sub(&q.mul(&t1));
        (r0, r1) = (r1, r);
        (t0, t1) = (t1, t);
    }
    if r0.mag != Nat::from_u(1) {
        return None;
    }
    Some(t0.divrem_euclid(&Int::pos(n.clone())).1.mag)
}

/// The model's next state, or None if the operation must panic.
fn step(m: &[Nat], s: &St, op: Op) -> Option<St> {
    let mut t = s.clone();
    let bin = |i: u8, j: u8, f: &dyn Fn(&Int, &Int) -> Int| -> Option<St> {
        let (i, j) = (i as usize, j as usize);
        if s[i].0 != s[j].0 {
            return None;
        }
        let n = &m[s[i].0 as usize];
        let r = f(&Int::pos(s[i].1.clone()), &Int::pos(s[j].1.clone()));
        let mut t = s.clone();
        t[i].1 = r.divrem_euclid(&Int::pos(n.clone())).1.mag;
        Some(t)
    };
    match op {
        Op::Set(i, r, x) => t[i as usize] = (r, val(&m[r as usize], x)),
        Op::Clone(i, j) | Op::CloneFrom(i, j) => t[i as usize] = s[j as usize].clone(),
        Op::Swap(i, j) | Op::Replace(i, j) => t.swap(i as usize, j as usize),
        Op::AddA(i, j) | Op::AddOwn(i, j) => return bin(i, j, &|a, b| a.add(b)),
        Op::SubA(i, j) | Op::SubSwap(i, j) => return bin(i, j, &|a, b| a.sub(b)),
        Op::MulA(i, j) | Op::MulRefOwn(i, j) => return bin(i, j, &|a, b| a.mul(b)),
        Op::DivA(i, j) => {
            if s[i as usize].0 != s[j as usize].0 {
                return None;
            }
            let b = inv(&s[j as usize].1, &m[s[j as usize].0 as usize])?;
            return bin(i, j, &|a, _| a.mul(&Int::pos(b.clone())));
        }
        Op::Neg(i) => return bin(i, i, &|a, _| a.neg()),
        Op::Sq(i) => return bin(i, i, &|a, _| a.mul(a)),
        Op::Inv(i) => {
            let i = i as usize;
            t[i].1 = inv(&s[i].1, &m[s[i].0 as usize])?;
        }
    }
    Some(t)
}

/// Two distinct variables.
fn two<'x, 'a>(v: &'x mut [Modulo<'a>; V], i: u8, j: u8) -> (&'x mut Modulo<'a>, &'x Modulo<'a>) {
    let (i, j) = (i as usize, j as usize);
    assert!(i != j);
    let p = v.as_mut_ptr();
    // Distinct elements of one array.
    unsafe { (&mut *p.add(i), &*p.add(j)) }
}

fn real<'a>(rings: &'a [ModuloRing], m: &[Nat], v: &mut [Modulo<'a>; V], op: Op) {
    macro_rules! assign {
        ($i:expr, $j:expr, $opa:tt) => {{
            if $i == $j {
                let b = v[$j as usize].clone();
                v[$i as usize] $opa &b;
            } else {
                let (a, b) = two(v, $i, $j);
                *a $opa b;
            }
        }};
    }
    match op {
        Op::Set(i, r, x) => v[i as usize] = rings[r as usize].from(to_u(&val(&m[r as usize], x))),
        Op::Clone(i, j) => v[i as usize] = v[j as usize].clone(),
        Op::CloneFrom(i, j) => {
            let (a, b) = two(v, i, j);
            a.clone_from(b);
        }
        Op::Swap(i, j) => v.swap(i as usize, j as usize),
        Op::Replace(i, j) => {
            let c = v[j as usize].clone();
            let old = std::mem::replace(&mut v[i as usize], c);
            let moved = vec![old];
            v[j as usize] = moved.into_iter().next().unwrap();
        }
        Op::AddA(i, j) => assign!(i, j, +=),
        Op::SubA(i, j) => assign!(i, j, -=),
        Op::MulA(i, j) => assign!(i, j, *=),
        Op::DivA(i, j) => assign!(i, j, /=),
        Op::SubSwap(i, j) => v[i as usize] = &v[i as usize] - v[j as usize].clone(),
        Op::AddOwn(i, j) => v[i as usize] = v[i as usize].clone() + v[j as usize].clone(),
        Op::MulRefOwn(i, j) => v[i as usize] = &v[i as usize] * v[j as usize].clone(),
        Op::Neg(i) => v[i as usize] = -&v[i as usize],
        Op::Sq(i) => v[i as usize] = v[i as usize].pow(&UBig::from(2u8)),
        Op::Inv(i) => v[i as usize] = v[i as usize].inverse().expect("no inverse"),
    }
}

/// Compares every variable, and every pair of variables, with the model.
fn audit(c: &mut Chk, s: &St, v: &[Modulo; V], m: &[Nat], rings: &[ModuloRing], deep: bool) {
    for i in 0..V {
        c.u("residue", &v[i].residue(), &s[i].1);
        let r = &rings[s[i].0 as usize];
        c.ok(v[i] == r.from(to_u(&s[i].1)), || format!("variable {i} is not the element of ring {}", s[i].0));
        for j in 0..V {
            if s[i].0 == s[j].0 {
                c.ok((v[i] == v[j]) == (s[i].1 == s[j].1), || format!("v{i} == v{j}"));
            } else if deep || i < j {
                c.panics(&format!("v{i} == v{j} across rings"), || v[i] == v[j]);
                c.panics(&format!("v{i} != v{j} across rings"), || v[i] != v[j]);
                if deep {
                    c.panics("&+&", || &v[i] + &v[j]);
                    c.panics("+&", || v[i].clone() + &v[j]);
                    c.panics("&+", || &v[i] + v[j].clone());
                    c.panics("+", || v[i].clone() + v[j].clone());
                    c.panics("&-&", || &v[i] - &v[j]);
                    c.panics("-&", || v[i].clone() - &v[j]);
                    c.panics("&-", || &v[i] - v[j].clone());
                    c.panics("-", || v[i].clone() - v[j].clone());
                    c.panics("&*&", || &v[i] * &v[j]);
                    c.panics("*&", || v[i].clone() * &v[j]);
                    c.panics("&*", || &v[i] * v[j].clone());
                    c.panics("*", || v[i].clone() * v[j].clone());
                    c.panics("&/&", || &v[i] / &v[j]);
                    c.panics("/&", || v[i].clone() / &v[j]);
                    c.panics("&/", || &v[i] / v[j].clone());
                    c.panics("/", || v[i].clone() / v[j].clone());
                    for k in 0..8 {
                        let mut z = v[i].clone();
                        let e = call(|| match k {
                            0 => z += &v[j],
                            1 => z -= &v[j],
                            2 => z *= &v[j],
                            3 => z /= &v[j],
                            4 => z += v[j].clone(),
                            5 => z -= v[j].clone(),
                            6 => z *= v[j].clone(),
                            _ => z /= v[j].clone(),
                        });
                        c.ok(e.is_err(), || format!("assigning operator {k} across rings v{i}, v{j} returned"));
                        c.ok(z == v[i], || format!("assigning operator {k} across rings changed its target"));
                    }
                }
            }
        }
    }
    let _ = m;
}

fn init<'a>(rings: &'a [ModuloRing], s: &St) -> [Modulo<'a>; V] {
    [0, 1, 2].map(|i| rings[s[i].0 as usize].from(to_u(&s[i].1)))
}

/// Runs one history on the implementation, auditing after its last `check` steps.
fn trace(c: &mut Chk, m: &[Nat], s0: &St, h: &[Op], check: usize) {
    let rings: Vec<ModuloRing> = m.iter().map(|n| ModuloRing::new(&to_u(n))).collect();
    let mut v = init(&rings, s0);
    let mut s = s0.clone();
    for (k, &op) in h.iter().enumerate() {
        let t = step(m, &s, op);
        let r = call(|| real(&rings, m, &mut v, op));
        c.ok(r.is_ok() == t.is_some(), || format!("step {k} {op:?}: returned {:?}, expected {}", r, if t.is_some() { "a result" } else { "a panic" }));
        if c.fail.is_some() {
            return;
        }
        if let Some(t) = t {
            s = t;
        } else {
            c.panics += 1;
        }
        if k + check >= h.len() {
            audit(c, &s, &v, m, &rings, false);
        }
    }
}

fn main() {
    mc::main("C19", |tier| {
        let mut v = vec![];
        for fam in 0..4usize {
            let m = family(fam);
            let all = ops(m.len() as u8);
            let s0: St = [(0, val(&m[0], 0)), (1, val(&m[1], 1)), (3, val(&m[3], 0))];
            // Every pair of operations after every assignment of rings to the variables.
            for r0 in 0..m.len() as u8 {
                let (m, all) = (m.clone(), all.clone());
                v.push(block(format!("pairs-{fam}-{r0}"), move |ctx| {
                    for r1 in 0..m.len() as u8 {
                        for r2 in 0..m.len() as u8 {
                            let s: St = [(r0, val(&m[r0 as usize], 0)), (r1, val(&m[r1 as usize], 1)), (r2, val(&m[r2 as usize], 0))];
                            ctx.state(|| format!("family {fam} rings {r0},{r1},{r2}"), |c| {
                                let rings: Vec<ModuloRing> = m.iter().map(|n| ModuloRing::new(&to_u(n))).collect();
                                audit(c, &s, &init(&rings, &s), &m, &rings, true);
                            });
                            // The variables are interchangeable: one order of each assignment, and two
                            // variables of one ring (three rings: one-operation histories only).
                            let short = tier == Tier::Quick && (r0 == r1 || r1 == r2) == false;
                            if tier == Tier::Quick && !(r0 <= r1 && r1 <= r2) {
                                continue;
                            }
                            for &a in &all {
                                ctx.count("traces", 1);
                                ctx.state(|| format!("family {fam} start {s:?} history {:?}", [a]), |c| trace(c, &m, &s, &[a], 1));
                                for &b in &all {
                                    // An operation that touches nothing the first one wrote commutes with it.
                                    if short || !touches(a, b) {
                                        continue;
                                    }
                                    ctx.count("traces", 1);
                                    ctx.state(|| format!("family {fam} start {s:?} history {:?}", [a, b]), |c| trace(c, &m, &s, &[a, b], 1));
                                }
                            }
                        }
                    }
                }));
            }
            // Breadth-first over model states; every transition out of every state is executed.
            let (m2, all2, s02) = (m.clone(), all.clone(), s0.clone());
            v.push(block(format!("bfs-{fam}"), move |ctx| {
                let cap = tier.pick(1200usize, 30000);
                let mut seen: HashSet<St> = HashSet::new();
                let mut q: VecDeque<(St, Vec<Op>)> = VecDeque::new();
                seen.insert(s02.clone());
                q.push_back((s02.clone(), vec![]));
                let mut done = 0;
                while let Some((s, h)) = q.pop_front() {
                    if done >= cap || ctx.stopped() {
                        break;
                    }
                    done += 1;
                    for &op in &all2 {
                        let mut h2 = h.clone();
                        h2.push(op);
                        ctx.count("model_transitions", 1);
                        ctx.count("traces", 1);
                        ctx.state(|| format!("family {fam} history {h2:?}"), |c| trace(c, &m2, &s02, &h2, 1));
                        if let Some(t) = step(&m2, &s, op) {
                            if seen.insert(t.clone()) {
                                q.push_back((t, h2));
                            }
                        }
                    }
                }
                ctx.count("model_states", done as u64);
                ctx.count("model_states_frontier", (seen.len() - done) as u64);
            }));
            // All histories of three operations that move elements between variables and rings.
            let moves: Vec<Op> = all.iter().copied().filter(|o| matches!(o, Op::Set(_, _, 0) | Op::Clone(..) | Op::CloneFrom(..) | Op::Swap(..) | Op::AddA(..) | Op::SubSwap(..) | Op::MulA(..))).filter(|o| !matches!(o, Op::AddA(i, j) | Op::SubSwap(i, j) | Op::MulA(i, j) if i == j)).collect();
            for (k, ch) in moves.chunks(6).enumerate() {
                let (m, moves, ch, s0) = (m.clone(), moves.clone(), ch.to_vec(), s0.clone());
                v.push(block(format!("moves-{fam}-{k}"), move |ctx| {
                    for &a in &ch {
                        for &b in &moves {
                            for &d in &moves {
                                ctx.count("traces", 1);
                                ctx.state(|| format!("family {fam} history {:?}", [a, b, d]), |c| trace(c, &m, &s0, &[a, b, d], 1));
                                if tier.thorough() {
                                    for &e in &moves {
                                        ctx.count("traces", 1);
                                        ctx.state(|| format!("family {fam} history {:?}", [a, b, d, e]), |c| trace(c, &m, &s0, &[a, b, d, e], 1));
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        }
        v
    });
}
