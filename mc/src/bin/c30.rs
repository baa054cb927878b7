//! C30: elements of rings and rings print as their residue and modulus; writer errors propagate.
use ibig::{Modulo, ModuloRing, UBig};
use mc::fmtx::*;
use mc::*;
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerHex, Octal, UpperHex};

/// The expected text: each number as the standard library pads it.
struct Want {
    r: Option<Std>,
    m: Std,
}
macro_rules! want {
    ($($t:ident)*) => {$(
        impl $t for Want {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                match &self.r {
                    None => {
                        f.write_str("mod ")?;
                        $t::fmt(&self.m, f)
                    }
                    Some(r) => {
                        $t::fmt(r, f)?;
                        f.write_str(" (mod ")?;
                        $t::fmt(&self.m, f)?;
                        f.write_str(")")
                    }
                }
            }
        }
    )*};
}
want!(Display Debug Binary Octal LowerHex UpperHex);

table!(t_display, "", dyn Display);
table!(t_debug, "?", dyn Debug);
table!(t_bin, "b", dyn Binary);
table!(t_oct, "o", dyn Octal);
table!(t_lhex, "x", dyn LowerHex);
table!(t_uhex, "X", dyn UpperHex);

macro_rules! flags {
    ($c:expr, $table:expr, $t:ty, $got:expr, $want:expr, $ws:expr) => {{
        let (got, want): (&$t, &$t) = ($got, $want);
        for row in &$table {
            for (k, r) in row.iter().enumerate() {
                for &n in if k == 0 { &$ws[..1] } else { &$ws[..] } {
                    if k == 2 && n > 12 {
                        continue;
                    }
                    let (g, w) = (text(r, got, n), text(r, want, n));
                    $c.ok(g == w, || format!("{} n={n}: got {g:?} want {w:?}", r.spec));
                }
            }
        }
        $c.note(text(&$table[1][1], want, 9).as_bytes());
    }};
}

struct E<'a> {
    name: &'static str,
    x: &'a dyn Any6,
    want: Want,
}
trait Any6: Display + Debug + Binary + Octal + LowerHex + UpperHex {}
impl<T: Display + Debug + Binary + Octal + LowerHex + UpperHex> Any6 for T {}

/// The ring and elements with the given residue obtained along several routes.
fn each(m: &Nat, r: &Nat, f: &mut dyn FnMut(E)) {
    let ring = ModuloRing::new(&to_u(m));
    let one = Nat::from_u(1);
    let w = || Want { r: Some(Std::new(&Int::pos(r.clone()))), m: Std::new(&Int::pos(m.clone())) };
    f(E { name: "ring", x: &ring, want: Want { r: None, m: Std::new(&Int::pos(m.clone())) } });
    let a = ring.from(to_u(r));
    f(E { name: "from", x: &a, want: w() });
    let b = ring.from(&to_u(&r.add(m))) + ring.from(1u8) - ring.from(&UBig::from(1u8));
    f(E { name: "r+m+1-1", x: &b, want: w() });
    let c = -ring.from(to_u(&m.sub(r).unwrap()));
    f(E { name: "-(m-r)", x: &c, want: w() });
    let mut d: Modulo = ring.from(to_u(&m.sub(&one).unwrap()));
    d.clone_from(&b);
    f(E { name: "clone_from", x: &d, want: w() });
    let e = ring.from(to_u(r)) * ring.from(to_u(&m.add(&one)));
    f(E { name: "r*(m+1)", x: &e, want: w() });
}

fn check(c: &mut Chk, m: &Nat, r: &Nat, kind: usize, all_routes: bool) {
    each(m, r, &mut |e: E| {
        // The full table of flags once per ring, once per element (every route in the thorough tier).
        if !all_routes && !(e.name == "ring" && r.is_zero() || e.name == "clone_from") {
            c.ok(format!("{}", e.x) == format!("{}", e.want), || format!("{}: got {} want {}", e.name, e.x, e.want));
            c.ok(format!("{:#X}", e.x) == format!("{:#X}", e.want), || format!("{}: got {:#X} want {:#X}", e.name, e.x, e.want));
            return;
        }
        macro_rules! go {
            ($t:ident, $d:ty) => {{
                let t = $t();
                let (l1, l2) = (e.want.r.as_ref().map_or(0, |s| text(&t[0][0], s as &$d, 0).len()), text(&t[0][0], &e.want.m as &$d, 0).len());
                let mut ws = vec![0, 1, 2, l1, l1 + 1, l1 + 2, l1 + 3, l1 + 4, l2.max(1) - 1, l2, l2 + 1, l2 + 2, l2 + 3, l2 + 4, l1.max(l2) + 11, 64];
                ws.sort();
                ws.dedup();
                let x: &dyn Any6 = e.x;
                flags!(c, t, $d, &wrap(x), &e.want, ws);
            }};
        }
        match kind {
            0 => go!(t_display, dyn Display),
            1 => go!(t_debug, dyn Debug),
            2 => go!(t_bin, dyn Binary),
            3 => go!(t_oct, dyn Octal),
            4 => go!(t_lhex, dyn LowerHex),
            _ => go!(t_uhex, dyn UpperHex),
        }
    });
}
fn fault(c: &mut Chk, m: &Nat, r: &Nat, kind: usize, all: bool) {
    each(m, r, &mut |e: E| {
        if !(e.name == "from" || e.name == "ring" && r.is_zero()) {
            return;
        }
        macro_rules! go {
            ($t:ident, $d:ty) => {{
                let t = $t();
                faults!(c, t, $d, &wrap(e.x), &e.want, all);
            }};
        }
        match kind {
            0 => go!(t_display, dyn Display),
            1 => go!(t_debug, dyn Debug),
            2 => go!(t_bin, dyn Binary),
            3 => go!(t_oct, dyn Octal),
            4 => go!(t_lhex, dyn LowerHex),
            _ => go!(t_uhex, dyn UpperHex),
        }
    });
}
/// The tables take types without borrowed parts; the wrapper lives no longer than what it wraps.
struct Wrap(&'static dyn Any6);
fn wrap(x: &dyn Any6) -> Wrap {
    Wrap(unsafe { std::mem::transmute::<&dyn Any6, &'static dyn Any6>(x) })
}
macro_rules! wraps {
    ($($t:ident)*) => {$(
        impl $t for Wrap {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                $t::fmt(self.0, f)
            }
        }
    )*};
}
wraps!(Display Debug Binary Octal LowerHex UpperHex);

fn main() {
    mc::main("C30", |tier| {
        let mut v = vec![];
        let mut mods: Vec<Nat> = (1..=20).map(Nat::from_u).collect();
        mods.extend([36u128, 64, 100, 255, 256, 257, 1000].map(Nat::from_u));
        mods.extend(upto_words(&wa5(), 2).into_iter().filter(|m| !m.is_zero()));
        for l in (3..=tier.pick(5, 12)).chain([17, 33]) {
            mods.extend(pats_few(l));
            mods.extend([generic(31, l), generic(32, l).shl(W / 2).add(&Nat::from_u(6))]);
        }
        dedup(&mut mods);
        let one = Nat::from_u(1);
        let residues = |m: &Nat| -> Vec<Nat> {
            let mut r: Vec<Nat> = [0u128, 1, 2, 9, 10, 15, 16].map(Nat::from_u).to_vec();
            r.extend([m.sub(&one).unwrap(), m.shr(1), m.shr(W), m.shr(m.bit_len() / 2), Nat::pow2(m.bit_len() - 1).sub(&one).unwrap(), Nat::pow2(m.bit_len() / W * W)]);
            r.retain(|x| x.cmp(m) == std::cmp::Ordering::Less);
            dedup(&mut r);
            r
        };
        for kind in 0..6usize {
            for (k, ch) in mods.chunks(6).enumerate() {
                let ch: Vec<(Nat, Vec<Nat>)> = ch.iter().map(|m| (m.clone(), residues(m))).collect();
                let ch2 = ch.clone();
                v.push(block(format!("flags-{kind}-{k}"), move |ctx| {
                    for (m, rs) in &ch {
                        for r in rs {
                            ctx.state(|| format!("{} mod {} kind {kind}", r.hex(), m.hex()), |c| check(c, m, r, kind, tier.thorough()));
                        }
                    }
                }));
                v.push(block(format!("faults-{kind}-{k}"), move |ctx| {
                    for (i, (m, rs)) in ch2.iter().enumerate() {
                        for (j, r) in rs.iter().enumerate() {
                            if tier.thorough() || (j + i) % 6 == 0 {
                                ctx.state(|| format!("{} mod {} kind {kind}, failing writer", r.hex(), m.hex()), |c| fault(c, m, r, kind, tier.thorough() && i == 0));
                            }
                        }
                    }
                }));
            }
        }
        // Every residue of every small modulus.
        for kind in 0..6usize {
            v.push(block(format!("small-{kind}"), move |ctx| {
                for m in 1..=tier.pick(40u128, 120) {
                    let ring = ModuloRing::new(&UBig::from(m));
                    for r in 0..m {
                        ctx.state(|| format!("{r} mod {m} kind {kind}"), |c| {
                            let x = ring.from(r);
                            let w = Want { r: Some(Std::new(&Int::from_i(r as i128))), m: Std::new(&Int::from_i(m as i128)) };
                            let (g, w) = match kind {
                                0 => (format!("{x}|{x:5}|{x:<+#06}"), format!("{w}|{w:5}|{w:<+#06}")),
                                1 => (format!("{x:?}|{x:5?}|{x:<+#06?}"), format!("{w:?}|{w:5?}|{w:<+#06?}")),
                                2 => (format!("{x:b}|{x:5b}|{x:<+#06b}"), format!("{w:b}|{w:5b}|{w:<+#06b}")),
                                3 => (format!("{x:o}|{x:5o}|{x:<+#06o}"), format!("{w:o}|{w:5o}|{w:<+#06o}")),
                                4 => (format!("{x:x}|{x:5x}|{x:<+#06x}"), format!("{w:x}|{w:5x}|{w:<+#06x}")),
                                _ => (format!("{x:X}|{x:5X}|{x:<+#06X}"), format!("{w:X}|{w:5X}|{w:<+#06X}")),
                            };
                            c.ok(g == w, || format!("got {g:?} want {w:?}"));
                            c.note(g.as_bytes());
                        });
                    }
                }
            }));
        }
        v
    });
}
