//! C16: formatting flags compose as for primitive integers; writer errors propagate.
use ibig::{IBig, UBig};
use mc::fmtx::*;
use mc::*;
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerHex, Octal, UpperHex};

struct StdRadix(bool, String);
impl Display for StdRadix {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        if f.alternate() {
            f.pad_integral(!self.0, "", &self.1.to_ascii_uppercase())
        } else {
            f.pad_integral(!self.0, "", &self.1)
        }
    }
}

struct URad(UBig, u32);
impl Display for URad {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Display::fmt(&self.0.in_radix(self.1), f)
    }
}
struct IRad(IBig, u32);
impl Display for IRad {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Display::fmt(&self.0.in_radix(self.1), f)
    }
}

table!(t_display, "", dyn Display);
table!(t_debug, "?", dyn Debug);
table!(t_bin, "b", dyn Binary);
table!(t_oct, "o", dyn Octal);
table!(t_lhex, "x", dyn LowerHex);
table!(t_uhex, "X", dyn UpperHex);

fn both(c: &mut Chk, n: &Int, kind: usize) {
    let s = Std::new(n);
    let i = to_i(n);
    let u = to_u(&n.mag);
    macro_rules! go {
        ($t:ident, $d:ty) => {{
            let t = $t();
            all_flags!(c, t, $d, &i, &s);
            if !n.neg {
                all_flags!(c, t, $d, &u, &s);
            }
        }};
    }
    match kind {
        0 => go!(t_display, dyn Display),
        1 => go!(t_debug, dyn Debug),
        2 => go!(t_bin, dyn Binary),
        3 => go!(t_oct, dyn Octal),
        4 => go!(t_lhex, dyn LowerHex),
        5 => go!(t_uhex, dyn UpperHex),
        _ => {
            let t = t_display();
            for r in [2u32, 3, 10, 11, 16, 35, 36] {
                let s = StdRadix(n.neg, n.mag.digits(r));
                all_flags!(c, t, dyn Display, &IRad(i.clone(), r), &s);
                if !n.neg {
                    all_flags!(c, t, dyn Display, &URad(u.clone(), r), &s);
                }
            }
        }
    }
}

fn fault(c: &mut Chk, n: &Int, kind: usize, all: bool) {
    let s = Std::new(n);
    let i = to_i(n);
    let u = to_u(&n.mag);
    macro_rules! go {
        ($t:ident, $d:ty) => {{
            let t = $t();
            faults!(c, t, $d, &i, &s, all);
            if !n.neg {
                faults!(c, t, $d, &u, &s, all);
            }
        }};
    }
    match kind {
        0 => go!(t_display, dyn Display),
        1 => go!(t_debug, dyn Debug),
        2 => go!(t_bin, dyn Binary),
        3 => go!(t_oct, dyn Octal),
        4 => go!(t_lhex, dyn LowerHex),
        5 => go!(t_uhex, dyn UpperHex),
        _ => {
            let t = t_display();
            for r in [3u32, 16, 36] {
                let s = StdRadix(n.neg, n.mag.digits(r));
                faults!(c, t, dyn Display, &IRad(i.clone(), r), &s, all);
            }
        }
    }
}

fn main() {
    mc::main("C16", |tier| {
        let mut v = vec![];
        // The wrapper pads exactly as primitive integers do.
        v.push(block("std", |ctx| {
            for x in [0i64, 1, 5, 9, 10, 255, 4096, 1234567, i64::MAX] {
                ctx.state(|| format!("std {x}"), |c| {
                    let s = Std::new(&Int::from_i(x as i128));
                    all_flags!(c, t_display(), dyn Display, &x, &s);
                    all_flags!(c, t_debug(), dyn Debug, &x, &s);
                    all_flags!(c, t_bin(), dyn Binary, &x, &s);
                    all_flags!(c, t_oct(), dyn Octal, &x, &s);
                    all_flags!(c, t_lhex(), dyn LowerHex, &x, &s);
                    all_flags!(c, t_uhex(), dyn UpperHex, &x, &s);
                    let m = Std::new(&Int::from_i(-x as i128));
                    all_flags!(c, t_display(), dyn Display, &(-x), &m);
                });
            }
        }));
        let mut mags: Vec<Nat> = (0..20).map(Nat::from_u).collect();
        mags.extend(upto_words(&wa5(), 2));
        for l in 3..=tier.pick(8, 14) {
            mags.extend(pats_few(l));
        }
        for l in [18usize, 20, 33] {
            mags.extend(pats_few(l));
        }
        dedup(&mut mags);
        for kind in 0..7usize {
            for (k, ch) in mags.chunks(10).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("flags-{kind}-{k}"), move |ctx| {
                    for n in signed(&ch) {
                        ctx.state(|| format!("{} kind {kind}", n.hex()), |c| both(c, &n, kind));
                    }
                }));
                let mut few: Vec<Nat> = mags.iter().skip(k * 10).take(10).step_by(3).cloned().collect();
                few.dedup();
                v.push(block(format!("faults-{kind}-{k}"), move |ctx| {
                    for n in signed(&few) {
                        ctx.state(|| format!("{} kind {kind}", n.hex()), |c| fault(c, &n, kind, wlen(&n.mag) <= 1));
                    }
                }));
            }
            // A long number through failing writers: every position at which the writer can fail.
            v.push(block(format!("faults-long-{kind}"), move |ctx| {
                for l in [40usize, 70, 150] {
                    for n in signed(&pats_few(l)[1..3]) {
                        ctx.state(|| format!("{} kind {kind}", n.hex()), |c| fault(c, &n, kind, false));
                    }
                }
            }));
        }
        // Huge widths.
        v.push(block("wide", |ctx| {
            for n in signed(&upto_words(&wa3(), 2)) {
                for w in [1000usize, 4095, 4096, 65535] {
                    ctx.state(|| format!("{} width {w}", n.hex()), |c| {
                        let (i, s) = (to_i(&n), Std::new(&n));
                        c.ok(format!("{i:w$}") == format!("{s:w$}"), || "plain".into());
                        c.ok(format!("{i:^w$}") == format!("{s:^w$}"), || "centre".into());
                        c.ok(format!("{i:#0w$x}") == format!("{s:#0w$x}"), || "zero".into());
                        c.ok(format!("{i:é<+w$}") == format!("{s:é<+w$}"), || "left".into());
                    });
                }
            }
        }));
        // The radix form borrows its number: formatting it twice gives the same text.
        v.push(block("twice", |ctx| {
            for n in pats(5) {
                ctx.state(|| n.hex(), |c| {
                    let u = to_u(&n);
                    let r = u.in_radix(7);
                    c.ok(r.to_string() == n.digits(7) && r.to_string() == n.digits(7), || "second formatting differs".into());
                    c.u("operand unchanged", &u, &n);
                    let i = -IBig::from(&u);
                    c.ok(format!("{i}{i:x}") == format!("-{}-{}", n.digits(10), n.digits(16)), || "combined".into());
                    let _ = UBig::from(1u8);
                });
            }
        }));
        v
    });
}
