//! C24 under the Miri interpreter: the same operations on small sizes, where every read of
//! uninitialised or out-of-bounds memory, every aliasing violation and every leak is an error.
//! (A plain program: Miri itself is the monitor.)
use mc::mem::*;
use mc::*;

fn main() {
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let part: usize = std::env::args().nth(2).map_or(0, |x| x.parse().unwrap());
    let parts: usize = std::env::args().nth(3).map_or(1, |x| x.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let verdict = |r: Result<(), String>| {
        if let Err(m) = r {
            if ["internal", "index out of", "assertion", "unwrap", "overflow"].iter().any(|s| m.contains(s)) {
                eprintln!("FAULT {m}");
                std::process::exit(3);
            }
        }
    };
    let mut n = 0usize;
    let mut done = 0u64;
    let mut mine = |name: &str, a: usize, b: usize| {
        n += 1;
        let m = n % parts == part;
        if m {
            done += 1;
            println!("OP {name} of {a} and {b} words");
        }
        m
    };
    let mut pairs = vec![];
    let small = if thorough { 5usize } else { 3 };
    for a in 0..=small {
        for b in 0..=small {
            pairs.push((a, b));
        }
    }
    pairs.extend([(26, 33), (67, 34)]);
    if thorough {
        pairs.extend([(9, 5), (25, 25), (49, 25), (66, 33), (100, 40), (33, 67)]);
    }
    let mut big = if thorough { vec![(193, 193), (200, 194), (400, 193), (620, 199)] } else { vec![(193, 194)] };
    for (name, f) in binary() {
        let mut ps = pairs.clone();
        if name == "mul" {
            ps.append(&mut big);
        }
        for (k, (la, lb)) in ps.into_iter().enumerate() {
            if name.starts_with("ring") && lb == 0 {
                continue;
            }
            if (name == "ringpow" || name == "extgcd") && la + lb > if thorough { 60 } else { 20 } {
                continue;
            }
            if !mine(name, la, lb) {
                continue;
            }
            let (x, y) = (to_u(&contents(la, k % 4)), to_u(&contents(lb, (k + 1) % 4)));
            let mut d = Dig(1);
            verdict(call(|| f(&mut d, &x, &y)));
        }
    }
    for (name, f) in unary() {
        let lens: &[usize] = if thorough { &[0, 1, 2, 3, 4, 9, 34, 65] } else { &[0, 1, 2, 3, 18] };
        for &l in lens {
            if !mine(name, l, 0) {
                continue;
            }
            let (x, y) = (to_u(&contents(l, l % 4)), to_u(&contents((l / 2).max(1), 1)));
            let mut d = Dig(1);
            verdict(call(|| f(&mut d, &x, &y)));
        }
    }
    println!("operations {done}");
}
