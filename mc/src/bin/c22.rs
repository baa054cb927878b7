//! C22: mixed operators with the twelve primitive integer types.
use ibig::ops::{AndNot, DivEuclid, DivRem, DivRemEuclid, RemEuclid};
use ibig::{IBig, UBig};
use mc::*;

trait V {
    fn v(self) -> Int;
}
impl V for UBig {
    fn v(self) -> Int {
        Int::pos(of_u(&self))
    }
}
impl V for IBig {
    fn v(self) -> Int {
        of_i(&self)
    }
}
macro_rules! prim_v {
    ($($u:ty)*; $($i:ty)*) => {
        $(impl V for $u { fn v(self) -> Int { Int::pos(Nat::from_u(self as u128)) } })*
        $(impl V for $i { fn v(self) -> Int { Int::from_i(self as i128) } })*
    };
}
prim_v!(u8 u16 u32 u64 u128 usize; i8 i16 i32 i64 i128 isize);

/// Compare an outcome (None = panic) with the model's.
#[inline(never)]
fn cmp(c: &mut Chk, ty: &str, name: &str, got: Result<Int, String>, want: &Option<Int>) {
    match (got, want) {
        (Ok(g), Some(w)) => {
            if c.fail.is_none() {
                c.note(&w.mag.le());
                c.note(&[w.neg as u8]);
            }
            c.ok(g == *w, || format!("{name} ({ty}): got {} want {}", g.hex(), w.hex()));
        }
        (Ok(g), None) => {
            c.ok(false, || format!("{name} ({ty}): got {} want a panic", g.hex()));
        }
        (Err(m), Some(w)) => {
            c.ok(false, || format!("{name} ({ty}): panicked with {m:?} want {}", w.hex()));
        }
        (Err(_), None) => {
            c.ops += 1;
            c.panics += 1;
        }
    }
}

fn cmp2(c: &mut Chk, ty: &str, name: &str, got: Result<(Int, Int), String>, want: &Option<(Int, Int)>) {
    let (g, w) = match got {
        Ok((a, b)) => {
            let w = want.clone().map(|w| w.1);
            cmp(c, ty, name, Ok(b), &w);
            (Ok(a), want.clone().map(|w| w.0))
        }
        Err(m) => (Err(m), want.clone().map(|w| w.0)),
    };
    cmp(c, ty, name, g, &w);
}

macro_rules! f {
    ($c:expr, $t:ty, $out:ty, $want:expr, $e:expr) => {
        cmp($c, stringify!($t), stringify!($e), call(|| -> Int { let r: $out = $e; r.v() }), $want)
    };
}
macro_rules! f2 {
    ($c:expr, $t:ty, $o1:ty, $o2:ty, $want:expr, $e:expr) => {
        cmp2($c, stringify!($t), stringify!($e),
            call(|| -> (Int, Int) { let r: ($o1, $o2) = $e; (r.0.v(), r.1.v()) }), $want)
    };
}
/// Big number on the left: four forms.
macro_rules! left {
    ($c:expr, $t:ty, $out:ty, $want:expr, $a:ident $op:tt $p:ident) => {
        f!($c, $t, $out, $want, fresh($a) $op $p);
        f!($c, $t, $out, $want, $a $op $p);
        f!($c, $t, $out, $want, fresh($a) $op &$p);
        f!($c, $t, $out, $want, $a $op &$p);
    };
}
macro_rules! right {
    ($c:expr, $t:ty, $out:ty, $want:expr, $p:ident $op:tt $a:ident) => {
        f!($c, $t, $out, $want, $p $op fresh($a));
        f!($c, $t, $out, $want, $p $op $a);
        f!($c, $t, $out, $want, &$p $op fresh($a));
        f!($c, $t, $out, $want, &$p $op $a);
    };
}
macro_rules! asg {
    ($c:expr, $t:ty, $big:ty, $want:expr, $a:ident $op:tt $p:ident) => {
        f!($c, $t, $big, $want, { let mut x = fresh($a); x $op $p; x });
        f!($c, $t, $big, $want, { let mut x = fresh($a); x $op &$p; x });
    };
}
macro_rules! meth {
    ($c:expr, $t:ty, $out:ty, $want:expr, $a:ident $m:ident $p:ident) => {
        f!($c, $t, $out, $want, fresh($a).$m($p));
        f!($c, $t, $out, $want, $a.$m($p));
        f!($c, $t, $out, $want, fresh($a).$m(&$p));
        f!($c, $t, $out, $want, $a.$m(&$p));
    };
}
macro_rules! meth2 {
    ($c:expr, $t:ty, $o1:ty, $o2:ty, $want:expr, $a:ident $m:ident $p:ident) => {
        f2!($c, $t, $o1, $o2, $want, fresh($a).$m($p));
        f2!($c, $t, $o1, $o2, $want, $a.$m($p));
        f2!($c, $t, $o1, $o2, $want, fresh($a).$m(&$p));
        f2!($c, $t, $o1, $o2, $want, $a.$m(&$p));
    };
}

/// What the model says of one pair.
struct W {
    add: Option<Int>,
    sub: Option<Int>,
    rsub: Option<Int>,
    mul: Option<Int>,
    div: Option<Int>,
    rem: Option<Int>,
    dr: Option<(Int, Int)>,
    dive: Option<Int>,
    reme: Option<Int>,
    dre: Option<(Int, Int)>,
    and: Option<Int>,
    or: Option<Int>,
    xor: Option<Int>,
    andnot: Option<Int>,
}

fn model(x: &Int, p: &Int, unsigned: bool) -> W {
    // An unsigned result that is negative is a panic.
    let k = |v: Int| if unsigned && v.neg { None } else { Some(v) };
    let (mut dr, mut dre, mut rem, mut reme) = (None, None, None, None);
    if !p.mag.is_zero() {
        let (q, r) = x.divrem(p);
        rem = Some(r.clone());
        dr = k(q).map(|q| (q, r));
        let (q, r) = x.divrem_euclid(p);
        reme = Some(r.clone());
        dre = k(q).map(|q| (q, r));
    }
    W {
        add: k(x.add(p)),
        sub: k(x.sub(p)),
        rsub: k(p.sub(x)),
        mul: k(x.mul(p)),
        div: dr.clone().map(|d| d.0),
        rem,
        dr,
        dive: dre.clone().map(|d| d.0),
        reme,
        dre,
        and: k(x.bitop(p, |a, b| a & b)),
        or: k(x.bitop(p, |a, b| a | b)),
        xor: k(x.bitop(p, |a, b| a ^ b)),
        andnot: k(x.bitop(p, |a, b| a & !b)),
    }
}

/// Everything both kinds of big number offer; the types of the results are parameters.
macro_rules! common {
    ($c:expr, $t:ty, $big:ty, $and:ty, $rem:ty, $w:ident, $a:ident, $p:ident) => {
        left!($c, $t, $big, &$w.add, $a + $p);
        right!($c, $t, $big, &$w.add, $p + $a);
        asg!($c, $t, $big, &$w.add, $a += $p);
        left!($c, $t, $big, &$w.sub, $a - $p);
        asg!($c, $t, $big, &$w.sub, $a -= $p);
        left!($c, $t, $big, &$w.mul, $a * $p);
        right!($c, $t, $big, &$w.mul, $p * $a);
        asg!($c, $t, $big, &$w.mul, $a *= $p);
        left!($c, $t, $big, &$w.div, $a / $p);
        asg!($c, $t, $big, &$w.div, $a /= $p);
        left!($c, $t, $rem, &$w.rem, $a % $p);
        asg!($c, $t, $big, &$w.rem, $a %= $p);
        meth2!($c, $t, $big, $rem, &$w.dr, $a div_rem $p);
        meth!($c, $t, $big, &$w.dive, $a div_euclid $p);
        meth!($c, $t, $t, &$w.reme, $a rem_euclid $p);
        meth2!($c, $t, $big, $t, &$w.dre, $a div_rem_euclid $p);
        left!($c, $t, $and, &$w.and, $a & $p);
        right!($c, $t, $and, &$w.and, $p & $a);
        asg!($c, $t, $big, &$w.and, $a &= $p);
        left!($c, $t, $big, &$w.or, $a | $p);
        right!($c, $t, $big, &$w.or, $p | $a);
        asg!($c, $t, $big, &$w.or, $a |= $p);
        left!($c, $t, $big, &$w.xor, $a ^ $p);
        right!($c, $t, $big, &$w.xor, $p ^ $a);
        asg!($c, $t, $big, &$w.xor, $a ^= $p);
        meth!($c, $t, $big, &$w.andnot, $a and_not $p);
    };
}

/// One primitive type: its name and its two checks.
struct Ty {
    name: &'static str,
    min: Int,
    max: Int,
    u: fn(&mut Chk, &UBig, &Int, &Int),
    i: fn(&mut Chk, &IBig, &Int, &Int),
}

macro_rules! ty {
    ($t:ident, $uand:ty, $urem:ty, $iand:ty, $irem:ty, $conv:expr) => {{
        fn u(c: &mut Chk, a: &UBig, x: &Int, p: &Int) {
            let w = model(x, p, true);
            let p: $t = $conv(p);
            common!(c, $t, UBig, $uand, $urem, w, a, p);
        }
        fn i(c: &mut Chk, a: &IBig, x: &Int, p: &Int) {
            let w = model(x, p, false);
            let p: $t = $conv(p);
            common!(c, $t, IBig, $iand, $irem, w, a, p);
            right!(c, $t, IBig, &w.rsub, p - a);
        }
        Ty { name: stringify!($t), min: <$t>::MIN.v(), max: <$t>::MAX.v(), u, i }
    }};
}
macro_rules! tyu {
    ($t:ident) => {
        ty!($t, $t, $t, $t, IBig, |p: &Int| p.mag.to_u128().unwrap() as $t)
    };
}
macro_rules! tyi {
    ($t:ident) => {
        ty!($t, UBig, $t, IBig, $t, |p: &Int| p.to_i128().unwrap() as $t)
    };
}

fn types() -> Vec<Ty> {
    vec![
        tyu!(u8), tyu!(u16), tyu!(u32), tyu!(u64), tyu!(u128), tyu!(usize),
        tyi!(i8), tyi!(i16), tyi!(i32), tyi!(i64), tyi!(i128), tyi!(isize),
    ]
}

fn inside(t: &Ty, x: &Int) -> bool {
    x.cmp(&t.min).is_ge() && x.cmp(&t.max).is_le()
}

/// Primitive values: bounds, small values, everything next to a power of two.
fn prims(t: &Ty, dense: bool) -> Vec<Int> {
    let one = Int::from_i(1);
    let mut v = vec![];
    for e in [7usize, 8, 15, 16, 31, 32, 48, 63, 64, 80, 112, 127, 128] {
        let p = Int::pos(Nat::pow2(e));
        v.extend([p.sub(&one), p.clone(), p.add(&one)]);
        if dense {
            v.extend([p.sub(&Int::from_i(2)), Int::pos(generic(e as u64, e / W + 1)), p.add(&Int::pos(Nat::pow2(e / 2)))]);
        }
    }
    v.extend((0..=tier_small(dense)).map(Int::from_i));
    v.extend([10, 12, 100].map(Int::from_i));
    let n: Vec<Int> = v.iter().map(|x| x.neg()).collect();
    v.extend(n);
    v.extend([t.min.clone(), t.max.clone(), t.min.add(&one), t.max.sub(&one)]);
    v.retain(|x| inside(t, x));
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert((x.neg, x.mag.clone())));
    v
}

fn tier_small(dense: bool) -> i128 {
    if dense {
        9
    } else {
        2
    }
}

thread_local! {
    /// The storage variant that operands passed by value get.
    static KIND: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// An operand of its own, stored as asked for.
trait Fresh: Clone {
    fn stored(&self, k: usize) -> Self;
}
impl Fresh for UBig {
    fn stored(&self, k: usize) -> UBig {
        mk_variant(&of_u(self), k)
    }
}
impl Fresh for IBig {
    fn stored(&self, k: usize) -> IBig {
        let x = of_i(self);
        let m = IBig::from(mk_variant(&x.mag, k));
        if x.neg { -m } else { m }
    }
}
fn fresh<T: Fresh>(a: &T) -> T {
    match KIND.get() {
        0 => a.clone(),
        k => a.stored(k),
    }
}

/// Every check of one big magnitude against one primitive.
fn pair(c: &mut Chk, t: &Ty, n: &Nat, p: &Int) {
    let u = to_u(n);
    (t.u)(c, &u, &Int::pos(n.clone()), p);
    for neg in [false, true] {
        let x = Int::new(neg, n.clone());
        (t.i)(c, &to_i(&x), &x, p);
    }
}

fn main() {
    mc::main("C22", |tier| {
        let mut v = vec![];
        // Boundary-word numbers and numbers around the primitive itself, every type.
        let mut bigs = upto_words(&wa3(), 3);
        bigs.extend(upto_words(&wa5(), 2));
        bigs.extend(tier.pick(vec![5usize], (4..20).collect()).into_iter().flat_map(pats));
        bigs.extend((0..12).map(|x| Nat::from_u(x)));
        if tier.thorough() {
            bigs.extend(upto_words(&wa5(), 3));
        }
        for e in [7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
            let p = Nat::pow2(e);
            bigs.extend([p.sub(&Nat::from_u(1)).unwrap(), p.add(&Nat::from_u(1)), p]);
        }
        dedup(&mut bigs);
        for k in 0..12 {
            let ps = prims(&types()[k], tier.thorough());
            for (j, ch) in ps.chunks(4).enumerate() {
                let (ch, bigs) = (ch.to_vec(), bigs.clone());
                v.push(block(format!("{}-{j}", types()[k].name), move |ctx| {
                    let t = &types()[k];
                    for p in &ch {
                        for n in &bigs {
                            ctx.state(|| format!("{} a={} p={}", t.name, n.hex(), p.hex()), |c| pair(c, t, n, p));
                        }
                        // Multiples of the primitive and neighbours; its own magnitude.
                        if !p.mag.is_zero() {
                            for q in [Nat::from_u(1), Nat::from_u(2), Nat::pow2(W), words(&[MAXW, MAXW]), generic(5, 4)] {
                                let m = p.mag.mul(&q);
                                let one = Nat::from_u(1);
                                for n in [m.sub(&one).unwrap(), m.add(&one), m] {
                                    ctx.state(|| format!("{} a={} p={}", t.name, n.hex(), p.hex()), |c| pair(c, t, &n, p));
                                }
                            }
                        }
                    }
                }));
            }
        }
        // Numbers that fill their storage exactly, or have all the slack they can.
        let full: Vec<Nat> = [2usize, 3, 4, 5, 6, 9, 11].into_iter()
            .flat_map(|n| [words(&vec![MAXW; n]), Nat::pow2(n * W - 1), generic(n as u64, n)]).collect();
        for k in 0..12 {
            let full = full.clone();
            v.push(block(format!("storage-{}", types()[k].name), move |ctx| {
                let t = &types()[k];
                let one = Int::from_i(1);
                let mut ps: Vec<Int> = vec![Int::from_i(0), one.clone(), one.neg(), Int::from_i(7), Int::from_i(64), t.min.clone(), t.max.clone(), t.max.sub(&one)];
                ps.retain(|x| inside(t, x));
                for kind in [1, 2] {
                    for n in &full {
                        for p in &ps {
                            ctx.state(|| format!("{} a={} p={} storage {kind}", t.name, n.hex(), p.hex()), |c| {
                                KIND.set(kind);
                                pair(c, t, n, p);
                                KIND.set(0);
                            });
                        }
                    }
                }
            }));
        }
        // Every 8-bit value of both 8-bit types against a range of small numbers.
        for k in [0usize, 6] {
            for lo in (0..256i128).step_by(32) {
                v.push(block(format!("every-{}-{lo}", types()[k].name), move |ctx| {
                    let t = &types()[k];
                    for d in 0..32 {
                        let p = t.min.add(&Int::from_i(lo + d));
                        let mut ns: Vec<Nat> = tier.pick(
                            vec![0u128, 1, 2, 3, 5, 126, 127, 128, 129, 200, 254, 255, 256, 257, 65535],
                            (0..260).collect()).into_iter().map(Nat::from_u).collect();
                        ns.extend([Nat::pow2(W), words(&[MAXW, MAXW, 5]), generic(9, 3)]);
                        for n in &ns {
                            ctx.state(|| format!("{} a={} p={}", t.name, n.hex(), p.hex()), |c| pair(c, t, n, &p));
                        }
                    }
                }));
            }
        }
        v
    });
}
