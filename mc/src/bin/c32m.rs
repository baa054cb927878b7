//! C32 under the Miri interpreter: two threads run all reading operations on the same values, with
//! nothing but their start and end ordered. Every pair of conflicting accesses is then a data race, which
//! Miri reports whatever the schedule. (A plain program: Miri itself is the monitor.)
use mc::mem::{contents, Dig};
use mc::share::*;
use mc::*;

fn main() {
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let part: usize = std::env::args().nth(2).map_or(0, |x| x.parse().unwrap());
    let parts: usize = std::env::args().nth(3).map_or(1, |x| x.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    // words of a, of b, of the modulus; contents
    let mut shapes = vec![];
    let lens: &[(usize, usize)] = &[(1, 1), (2, 1), (3, 2), (3, 3), (5, 4), (9, 5), (18, 7), (4, 6)];
    for (k, &(la, lb)) in lens.iter().enumerate() {
        for lm in if thorough { vec![1, 2, 3, 5, 9] } else { vec![1, 2, 3] } {
            shapes.push((la, lb, lm, k + lm));
        }
    }
    if thorough {
        shapes.extend([(34, 26, 3, 1), (68, 34, 2, 0), (40, 40, 9, 1), (26, 70, 4, 3), (1, 3, 3, 1), (3, 1, 1, 3), (2, 2, 2, 2), (6, 6, 6, 0)]);
    }
    let mut done = 0u64;
    for (k, (la, lb, lm, c)) in shapes.into_iter().enumerate() {
        if k % parts != part {
            continue;
        }
        let m = contents(lm, (c + 1) % 4).add(&Nat::from_u(1 + (c as u128 & 1)));
        let ring = ibig::ModuloRing::new(&to_u(&m));
        let v = Force(Shared::new(&contents(la, c % 4), &contents(lb, (c + 1) % 4), &ring));
        let ops = ops();
        println!("OP shared values of {la} and {lb} words, ring of {lm}");
        let run = |rev: bool, flip: bool| {
            let v = &v;
            let ops = &ops;
            move || {
                let n = ops.len();
                (0..n)
                    .map(|i| {
                        let op = &ops[if rev { n - 1 - i } else { i }];
                        let mut d = Dig(1);
                        let r = call(|| (op.1)(&mut d, &v.0.view(flip))).map(|_| d.0);
                        (op.0, r)
                    })
                    .collect::<Vec<_>>()
            }
        };
        for flip in if thorough { vec![true, false] } else { vec![true] } {
        let (x, mut y) = std::thread::scope(|s| {
            let a = s.spawn(run(false, false));
            let b = s.spawn(run(true, flip));
            (a.join().unwrap(), b.join().unwrap())
        });
        y.reverse();
        // The outcomes of one thread alone.
        let (x1, y1) = (run(false, false)(), run(false, flip)());
        for (p, q) in x.iter().chain(&y).zip(x1.iter().chain(&y1)) {
            if p != q {
                eprintln!("FAULT outcome {p:?}, alone {q:?}");
                std::process::exit(3);
            }
        }
        done += 2 * ops.len() as u64;
        }
    }
    println!("operations {done}");
}
