//! Formatting flags: reference formatting by the standard library, tables of specifications, failing writers.
use crate::model::Int;
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerHex, Octal, UpperHex, Write};

/// An integer given by its sign and digits, padded by the standard library's own routine.
pub struct Std {
    pub neg: bool,
    pub d: Vec<(u32, String)>,
}
impl Std {
    pub fn new(n: &Int) -> Std {
        Std { neg: n.neg, d: [2, 8, 10, 16].iter().map(|&r| (r, n.mag.digits(r))).collect() }
    }
    pub fn get(&self, r: u32) -> &str {
        &self.d.iter().find(|x| x.0 == r).unwrap().1
    }
}
impl Display for Std {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "", self.get(10))
    }
}
impl Debug for Std {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "", self.get(10))
    }
}
impl Binary for Std {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "0b", self.get(2))
    }
}
impl Octal for Std {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "0o", self.get(8))
    }
}
impl LowerHex for Std {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "0x", self.get(16))
    }
}
impl UpperHex for Std {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "0x", &self.get(16).to_ascii_uppercase())
    }
}
pub type F<T> = fn(&mut dyn Write, &T, usize) -> fmt::Result;
pub struct Row<T: ?Sized + 'static> {
    pub spec: &'static str,
    pub f: F<T>,
}
/// No width, width, width and precision for one specification.
#[macro_export]
macro_rules! push {
    ($spec:literal, $ty:literal, $v:ident, $t:ty) => {
        $v.push([
            Row::<$t> { spec: concat!("{:", $spec, $ty, "}"), f: |w, x, _n| write!(w, concat!("{:", $spec, $ty, "}"), x) },
            Row::<$t> { spec: concat!("{:", $spec, "n$", $ty, "}"), f: |w, x, n| write!(w, concat!("{:", $spec, "n$", $ty, "}"), x, n = n) },
            Row::<$t> { spec: concat!("{:", $spec, "n$.3", $ty, "}"), f: |w, x, n| write!(w, concat!("{:", $spec, "n$.3", $ty, "}"), x, n = n) },
        ]);
    };
}
#[macro_export]
macro_rules! table {
    ($name:ident, $ty:literal, $t:ty) => {
        fn $name() -> Vec<[Row<$t>; 3]> {
            let mut v: Vec<[Row<$t>; 3]> = vec![];
            specs!(push, $ty, v, $t);
            v
        }
    };
}
pub fn text<T: ?Sized>(r: &Row<T>, x: &T, n: usize) -> String {
    let mut s = String::new();
    (r.f)(&mut s, x, n).unwrap();
    s
}

pub fn widths(len: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, len.saturating_sub(1), len, len + 1, len + 2, len + 3, len + 4, len + 9, len + 40, 33, 34, 64, 65];
    v.sort();
    v.dedup();
    v
}

#[macro_export]
macro_rules! all_flags {
    ($c:expr, $table:expr, $t:ty, $got:expr, $want:expr) => {{
        let (got, want): (&$t, &$t) = ($got, $want);
        let len = text(&$table[0][0], want, 0).chars().count();
        let ws = widths(len);
        for row in &$table {
            for (k, r) in row.iter().enumerate() {
                for &n in if k == 0 { &ws[..1] } else { &ws[..] } {
                    if k == 2 && n > len + 2 {
                        continue;
                    }
                    let (g, w) = (text(r, got, n), text(r, want, n));
                    $c.ok(g == w, || format!("{} n={n}: got {g:?} want {w:?}", r.spec));
                }
            }
        }
        $c.note(text(&$table[1][1], want, len + 3).as_bytes());
    }};
}

/// Accepts `calls` write calls or `bytes` bytes, then fails; counts what comes after the failure.
pub struct Sink {
    pub calls: usize,
    pub bytes: usize,
    pub failed: bool,
    pub after: usize,
    pub got: String,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if self.calls == 0 || s.len() > self.bytes {
            let mut k = s.len().min(if self.calls == 0 { 0 } else { self.bytes });
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            self.got.push_str(&s[..k]);
            self.failed = true;
            return Err(fmt::Error);
        }
        self.calls -= 1;
        self.bytes -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

#[macro_export]
macro_rules! faults {
    ($c:expr, $table:expr, $t:ty, $got:expr, $want:expr, $all:expr) => {{
        let (got, want): (&$t, &$t) = ($got, $want);
        let len = text(&$table[0][0], want, 0).len();
        for (j, row) in $table.iter().enumerate() {
            if !$all && j % 19 != 0 {
                continue;
            }
            for (k, n) in [(0usize, 0usize), (1, len + 5), (1, len + 1)] {
                let full = text(&row[k], want, n);
                for by_calls in [true, false] {
                    let mut limit = 0usize;
                    loop {
                        let mut s = Sink { calls: usize::MAX, bytes: usize::MAX, failed: false, after: 0, got: String::new() };
                        if by_calls {
                            s.calls = limit;
                        } else {
                            s.bytes = limit;
                        }
                        let r = (row[k].f)(&mut s, got, n);
                        $c.ok(r.is_err() == s.failed, || format!("{} n={n}: writer failed={} at limit {limit}, result {r:?}", row[k].spec, s.failed));
                        $c.ok(s.after == 0, || format!("{} n={n}: {} writes after the writer's error at limit {limit}", row[k].spec, s.after));
                        $c.ok(full.starts_with(&s.got), || format!("{} n={n}: wrote {:?} before the error at {limit}, full text {full:?}", row[k].spec, s.got));
                        if !s.failed {
                            $c.ok(s.got == full, || format!("{} n={n}: got {:?} want {full:?}", row[k].spec, s.got));
                            break;
                        }
                        limit += if !by_calls && full.len() > 400 { 1 + full.len() / 97 } else { 1 };
                        if limit > full.len() + 50 {
                            break;
                        }
                    }
                }
            }
        }
    }};
}

