//! C14: parsing accepts exactly the documented grammar and yields the denoted value.
use ibig::error::ParseError;
use ibig::{IBig, UBig};
use mc::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    NoDigits,
    Invalid,
    Value,
}

fn digit(ch: char) -> Option<u32> {
    match ch {
        '0'..='9' => Some(ch as u32 - '0' as u32),
        'a'..='z' => Some(ch as u32 - 'a' as u32 + 10),
        'A'..='Z' => Some(ch as u32 - 'A' as u32 + 10),
        _ => None,
    }
}

fn body(s: &str, radix: u32) -> Want {
    if s.is_empty() {
        Want::NoDigits
    } else if s.chars().all(|c| digit(c).map_or(false, |d| d < radix)) {
        Want::Value
    } else {
        Want::Invalid
    }
}

/// Sign, then the rest.
fn sign(s: &str, minus: bool) -> (bool, &str) {
    if let Some(r) = s.strip_prefix('+') {
        (false, r)
    } else if minus && s.starts_with('-') {
        (true, &s[1..])
    } else {
        (false, s)
    }
}

fn cmp_u(c: &mut Chk, op: &str, got: Result<UBig, ParseError>, w: Want, digits: &str, radix: u32, val: Option<&Nat>) {
    c.note(&[w as u8]);
    match (got, w) {
        (Err(ParseError::NoDigits), Want::NoDigits) | (Err(ParseError::InvalidDigit), Want::Invalid) => {
            c.ops += 1;
        }
        (Ok(u), Want::Value) => {
            let n;
            let v = match val {
                Some(v) => v,
                None => {
                    n = Nat::parse(digits, radix);
                    &n
                }
            };
            c.u(op, &u, v);
            c.ok(u == to_u(v), || format!("{op}: not equal to the same number"));
        }
        (g, w) => {
            c.ok(false, || format!("{op}: got {:?} want {:?}", g.map(|u| of_u(&u).hex()), w));
        }
    }
}
fn cmp_i(c: &mut Chk, op: &str, got: Result<IBig, ParseError>, w: Want, neg: bool, digits: &str, radix: u32, val: Option<&Nat>) {
    match (got, w) {
        (Err(ParseError::NoDigits), Want::NoDigits) | (Err(ParseError::InvalidDigit), Want::Invalid) => {
            c.ops += 1;
        }
        (Ok(u), Want::Value) => {
            let n = match val {
                Some(v) => v.clone(),
                None => Nat::parse(digits, radix),
            };
            c.i(op, &u, &Int::new(neg, n));
        }
        (g, w) => {
            c.ok(false, || format!("{op}: got {:?} want {:?}", g.map(|u| of_i(&u).hex()), w));
        }
    }
}

fn one(c: &mut Chk, s: &str, radix: u32, val: Option<&Nat>) {
    let (_, r) = sign(s, false);
    let w = body(r, radix);
    cmp_u(c, "UBig::from_str_radix", UBig::from_str_radix(s, radix), w, r, radix, val);
    let (n, r) = sign(s, true);
    let w = body(r, radix);
    cmp_i(c, "IBig::from_str_radix", IBig::from_str_radix(s, radix), w, n, r, radix, val);
    if radix == 10 {
        let (_, r) = sign(s, false);
        cmp_u(c, "UBig::from_str", s.parse(), body(r, 10), r, 10, val);
        let (n, r) = sign(s, true);
        cmp_i(c, "IBig::from_str", s.parse(), body(r, 10), n, r, 10, val);
    }
}

fn pref(s: &str) -> (u32, &str) {
    for (p, r) in [("0b", 2), ("0o", 8), ("0x", 16)] {
        if let Some(t) = s.strip_prefix(p) {
            return (r, t);
        }
    }
    (10, s)
}
fn prefixed(c: &mut Chk, s: &str) {
    let (_, r) = sign(s, false);
    let (radix, r) = pref(r);
    cmp_u(c, "UBig::from_str_with_radix_prefix", UBig::from_str_with_radix_prefix(s), body(r, radix), r, radix, None);
    let (n, r) = sign(s, true);
    let (radix, r) = pref(r);
    cmp_i(c, "IBig::from_str_with_radix_prefix", IBig::from_str_with_radix_prefix(s), body(r, radix), n, r, radix, None);
}

fn dpw(radix: u32) -> usize {
    let mut n = 0;
    let mut p = 1u128;
    while p * (radix as u128) <= MAXW as u128 + if radix.is_power_of_two() { 1 } else { 0 } {
        p *= radix as u128;
        n += 1;
    }
    n
}
fn ch(d: u32) -> char {
    char::from_digit(d, 36).unwrap()
}

/// Digit strings of the given length (no leading zero unless stated).
fn strings(radix: u32, len: usize) -> Vec<String> {
    let m = ch(radix - 1);
    let mut v = vec![
        m.to_string().repeat(len),
        format!("1{}", "0".repeat(len - 1)),
        (0..len).map(|i| ch((gw(9, i as u64) % radix as u64) as u32)).collect(),
    ];
    if len > 1 {
        v.push(format!("{}1", "0".repeat(len - 1)));
        v.push(format!("1{}", m.to_string().repeat(len - 1)));
        v.push((0..len).map(|i| if i % 2 == 0 { m.to_ascii_uppercase() } else { '0' }).collect());
    }
    v
}

fn main() {
    mc::main("C14", |tier| {
        let mut v = vec![];
        // Every short string over an alphabet with every class of character, every radix.
        let alpha: Vec<char> = "0179aAfgGzZxbo+-_ .é\u{0}/:@[`{".chars().collect();
        for r0 in 0..7u32 {
            let alpha = alpha.clone();
            v.push(block(format!("short-{r0}"), move |ctx| {
                for radix in (2..=36).filter(|r| r % 7 == r0) {
                    let full = matches!(radix, 2 | 8 | 10 | 11 | 16 | 36) || tier.thorough();
                    for len in 0..=if full { 3u32 } else { 2 } {
                        for mut x in 0..alpha.len().pow(len) {
                            let mut s = String::new();
                            for _ in 0..len {
                                s.push(alpha[x % alpha.len()]);
                                x /= alpha.len();
                            }
                            ctx.state(|| format!("{s:?} radix {radix}"), |c| one(c, &s, radix, None));
                        }
                    }
                }
            }));
        }
        {
            let alpha: Vec<char> = "019abfxBoOX+-_é".chars().collect();
            for first in 0..alpha.len() {
                let alpha = alpha.clone();
                v.push(block(format!("prefix-{first}"), move |ctx| {
                    for len in 0..=tier.pick(4u32, 5) {
                        for mut x in 0..alpha.len().pow(len) {
                            let mut s = String::new();
                            s.push(alpha[first]);
                            for _ in 0..len {
                                s.push(alpha[x % alpha.len()]);
                                x /= alpha.len();
                            }
                            ctx.state(|| format!("{s:?}"), |c| {
                                prefixed(c, &s);
                                one(c, &s, 10, None);
                            });
                        }
                    }
                    ctx.state(|| "empty".into(), |c| prefixed(c, ""));
                }));
            }
        }
        // Every single character up to U+07FF and others, alone and inside digits, in every radix.
        v.push(block("chars", |ctx| {
            let mut cs: Vec<char> = (0..0x800u32).filter_map(char::from_u32).collect();
            cs.extend(['０', '１', '٣', '²', 'Ⅷ', '𝟘', '\u{10ffff}', 'Ａ', 'ａ', '一', '\u{feff}', '−', '＋']);
            for radix in 2..=36 {
                for &x in &cs {
                    ctx.state(|| format!("{x:?} radix {radix}"), |c| {
                        one(c, &x.to_string(), radix, None);
                        one(c, &format!("1{x}"), radix, None);
                        one(c, &format!("{x}1"), radix, None);
                        one(c, &format!("0{x}0"), radix, None);
                    });
                }
            }
        }));
        // Every length up to several words, every radix; one invalid character at every position; leading zeros.
        for radix in 2..=36u32 {
            v.push(block(format!("lengths-{radix}"), move |ctx| {
                let d = dpw(radix);
                let bad: Vec<char> = vec!['-', '+', '_', 'é', ' ', '.', '@', '`', '\u{0}', '\u{10}', '\u{19}', '\u{ff11}', '/', ':', if radix < 36 { ch(radix) } else { '{' }, if radix < 36 { ch(radix).to_ascii_uppercase() } else { '[' }];
                for len in 1..=(tier.pick(6, 12) * d + 3) {
                    for s in strings(radix, len) {
                        ctx.state(|| format!("{s:?} radix {radix}"), |c| {
                            let n = Nat::parse(&s, radix);
                            one(c, &s, radix, Some(&n));
                            one(c, &s.to_ascii_uppercase(), radix, Some(&n));
                            one(c, &format!("+{s}"), radix, Some(&n));
                            one(c, &format!("-{s}"), radix, Some(&n));
                            for z in [1, 2, d - 1, d, d + 1, 2 * d, 300 * d] {
                                if z < 10 * d || len < 3 {
                                    one(c, &format!("{}{s}", "0".repeat(z)), radix, Some(&n));
                                }
                            }
                        });
                    }
                    let s = &strings(radix, len)[2];
                    ctx.state(|| format!("{s:?} radix {radix} with one bad character"), |c| {
                        for (i, _) in s.char_indices() {
                            for &b in &bad {
                                let mut t = s.clone();
                                t.replace_range(i..i + 1, &b.to_string());
                                one(c, &t, radix, None);
                            }
                        }
                    });
                }
            }));
        }
        // Prefixes: every combination of sign, prefix, second sign and leading zeros in front of digits of every length;
        // one foreign character at every position; the same strings without prefix handling.
        for (k, (p, radix)) in [("0b", 2u32), ("0o", 8), ("0x", 16), ("", 10)].into_iter().enumerate() {
            for part in 0..4usize {
                v.push(block(format!("prefix-lengths-{k}-{part}"), move |ctx| {
                    let d = dpw(radix);
                    let mut lens: Vec<usize> = (0..=(tier.pick(6, 12) * d + 3)).collect();
                    for x in [8, 16, 33] {
                        lens.extend([x * d - 1, x * d, x * d + 1]);
                    }
                    for &len in lens.iter().skip(part).step_by(4) {
                        for s in if len == 0 { vec![String::new()] } else { strings(radix, len) } {
                            let heads = ["", "+", "-", "++", "+-", "-+", "--", " ", "0", "_"];
                            let mids = ["", "+", "-", "0", "00", "_", "0_", " ", "0b", "0o", "0x", "+0", "0+"];
                            for h in heads {
                                ctx.state(|| format!("{h}{p} .. {s:?}"), |c| {
                                    for m in mids {
                                        let t = format!("{h}{p}{m}{s}");
                                        prefixed(c, &t);
                                        one(c, &t, radix, None);
                                        one(c, &t, 10, None);
                                        one(c, &t, 36, None);
                                    }
                                    for up in ["0B", "0O", "0X"] {
                                        prefixed(c, &format!("{h}{up}{s}"));
                                    }
                                    for tail in ["+", "-", " ", "_", "\n", "\0", "u", "h", "b", "x", "e1", ".0", "é"] {
                                        prefixed(c, &format!("{h}{p}{s}{tail}"));
                                    }
                                });
                            }
                        }
                        if len > 0 && len <= 4 * d + 3 {
                            let s = format!("{p}{}", strings(radix, len)[2.min(strings(radix, len).len() - 1)]);
                            ctx.state(|| format!("{s:?} with one foreign character"), |c| {
                                for i in 0..s.len() {
                                    for b in ["+", "-", "_", "é", "/", ":", "x", "b", "o", "X", "0", "g", "@", "`", "{", "["] {
                                        let mut t = s.clone();
                                        t.replace_range(i..i + 1, b);
                                        prefixed(c, &t);
                                    }
                                }
                            });
                        }
                    }
                }));
            }
        }
        // More levels of the divide and conquer algorithm, with longer words; and long runs of leading zeros.
        if W > 16 {
            for radix in [3u32, 10, 35] {
                for i in 3..=tier.pick(6u32, 9) {
                    v.push(block(format!("deep-{radix}-{i}"), move |ctx| {
                        let chunk = 256 * dpw(radix);
                        for len in [(chunk << i) - 1, chunk << i, (chunk << i) + 1, (chunk << i) + chunk, 3 * (chunk << (i - 1)) + 1] {
                            let all = strings(radix, len);
                            for s in [&all[0], &all[2], &all[1]].into_iter().take(if len == (chunk << i) + 1 { 3 } else { 2 }) {
                                ctx.state(|| format!("length {len} radix {radix} {}...", &s[..10]), |c| {
                                    let n = Nat::parse(s, radix);
                                    cmp_u(c, "from_str_radix", UBig::from_str_radix(s, radix), Want::Value, s, radix, Some(&n));
                                    let z = format!("{}{s}", "0".repeat(chunk));
                                    cmp_u(c, "from_str_radix", UBig::from_str_radix(&z, radix), Want::Value, &z, radix, Some(&n));
                                });
                            }
                            for tail in [0usize, 1, dpw(radix), dpw(radix) + 1, chunk, chunk + 1] {
                                let s = format!("{}{}", "0".repeat(len - tail), ch(radix - 1).to_string().repeat(tail));
                                ctx.state(|| format!("length {len} radix {radix}, all zeros but {tail}"), |c| {
                                    let n = Nat::parse(&s, radix);
                                    cmp_u(c, "from_str_radix", UBig::from_str_radix(&s, radix), Want::Value, &s, radix, Some(&n));
                                });
                            }
                            for i in [0, len / 2, len - chunk - 1, len - chunk, len - 1] {
                                let mut t = all[0].clone();
                                t.replace_range(i..i + 1, "{");
                                ctx.state(|| format!("length {len} radix {radix}, bad at {i}"), |c| {
                                    c.ok(UBig::from_str_radix(&t, radix) == Err(ibig::error::ParseError::InvalidDigit), || "bad character not refused".into());
                                });
                            }
                        }
                    }));
                }
            }
        }
        // Around the chunk boundaries of the divide and conquer algorithm.
        for radix in 2..=36u32 {
            v.push(block(format!("chunks-{radix}"), move |ctx| {
                let chunk = 256 * dpw(radix);
                let mut lens = vec![];
                let all = tier.thorough() || matches!(radix, 3 | 10 | 36);
                for k in if W == 16 { if all { vec![1usize, 2, 3, 4, 5, 6, 7, 8, 9] } else { vec![1, 2, 3, 4, 8] } } else if tier.thorough() { vec![1, 2, 3, 4, 5] } else { vec![1, 2, 4] } {
                    for d in if all { vec![0usize, 1, 2, 3, 5] } else { vec![0, 1, 2] } {
                        lens.push(chunk * k + d - if d == 2 { 3 } else { 0 });
                    }
                    lens.push(chunk * k + dpw(radix));
                    lens.push(chunk * k + dpw(radix) + 1);
                    lens.push(chunk * k + chunk / 2);
                }
                for len in lens {
                    if len as f64 * (radix as f64).log2() > if W == 16 { 65000.0 } else { 1e9 } {
                        continue;
                    }
                    for s in strings(radix, len) {
                        ctx.state(|| format!("length {len} radix {radix} {}...", &s[..10.min(s.len())]), |c| {
                            let n = Nat::parse(&s, radix);
                            one(c, &s, radix, Some(&n));
                            let z = format!("{}{s}", "0".repeat(7));
                            cmp_u(c, "from_str_radix", UBig::from_str_radix(&z, radix), Want::Value, &z, radix, Some(&n));
                        });
                    }
                    // A bad character in each region.
                    let s = &strings(radix, len)[0];
                    ctx.state(|| format!("length {len} radix {radix} with one bad character"), |c| {
                        for i in [0, 1, 2, len / 3, len / 2, len - chunk.min(len), len - 2, len - 1, len - len.min(chunk + 1), len - len.min(2 * chunk), len - len.min(2 * chunk + 1)] {
                            for b in ['+', '\u{e9}', '{'] {
                                let mut t = s.clone();
                                t.replace_range(i..i + 1, &b.to_string());
                                one(c, &t, radix, None);
                            }
                        }
                    });
                }
            }));
        }
        // Invalid radixes panic, whatever the string.
        v.push(block("radix", |ctx| {
            for radix in [0u32, 1, 37, 38, 64, 100, 255, 256, 258, 266, u32::MAX, u32::MAX - 1, 1 << 31, 65536 + 10] {
                for s in ["", "0", "1", "+", "z", "12345678901234567890123"] {
                    ctx.state(|| format!("{s:?} radix {radix}"), |c| {
                        c.panics("UBig::from_str_radix", || UBig::from_str_radix(s, radix));
                        c.panics("IBig::from_str_radix", || IBig::from_str_radix(s, radix));
                        c.panics("UBig::in_radix", || UBig::from(5u8).in_radix(radix).to_string());
                        c.panics("IBig::in_radix", || IBig::from(5u8).in_radix(radix).to_string());
                    });
                }
            }
        }));
        // Every value of one and two words in 16-bit words, decimal.
        if W == 16 {
            for k in 0..16u64 {
                v.push(block(format!("values-{k}"), move |ctx| {
                    for x in (k * 4096)..((k + 1) * 4096) {
                        ctx.state(|| format!("{x}"), |c| {
                            for r in [10u32, 16, 3, 36, 7] {
                                for y in [x, (x << 16) | 0xffff, (x << 16) | (x ^ 0x1234)] {
                                    let s = Nat::from_u(y as u128).digits(r);
                                    c.ok(UBig::from_str_radix(&s, r) == Ok(UBig::from(y)), || format!("{s} radix {r}"));
                                }
                            }
                        });
                    }
                }));
            }
        }
        v
    });
}
