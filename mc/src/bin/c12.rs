//! C12: byte-array conversions.
use ibig::UBig;
use mc::*;

/// Checks one byte string in both orders.
fn bytes(c: &mut Chk, le: &[u8]) {
    let n = Nat::from_le(le);
    let u = UBig::from_le_bytes(le);
    let mut be = le.to_vec();
    be.reverse();
    let v = UBig::from_be_bytes(&be);
    // Independent reading of the numbers back: 64-bit pieces through shifts would use the code under
    // test, so compare with the shortest strings the model gives.
    let want = n.le();
    c.note(&want);
    let mut wbe = want.clone();
    wbe.reverse();
    let (g, h) = (u.to_le_bytes(), v.to_be_bytes());
    c.ok(g == want, || format!("from_le_bytes then to_le_bytes: got {g:x?} want {want:x?}"));
    c.ok(h == wbe, || format!("from_be_bytes then to_be_bytes: got {h:x?} want {wbe:x?}"));
    c.ok(u.to_be_bytes() == wbe, || "to_be_bytes".into());
    c.ok(v.to_le_bytes() == want, || "to_le_bytes".into());
    c.ok(u == v, || "the two orders give different numbers".into());
    if let Some(x) = n.to_u128() {
        c.ok(u == UBig::from(x), || "not the number denoted".into());
        c.ok(u128::try_from(&v) == Ok(x), || "not the number denoted (be)".into());
    }
}

/// The value by independent means: printed in hexadecimal.
fn denoted(c: &mut Chk, le: &[u8]) {
    let u = UBig::from_le_bytes(le);
    let mut s = String::new();
    for b in le.iter().rev() {
        s.push_str(&format!("{b:02x}"));
    }
    let t = s.trim_start_matches('0');
    let t = if t.is_empty() { "0" } else { t };
    let g = format!("{u:x}");
    c.ok(g == t, || format!("denotes {t}, number is {g}"));
    // Built bit by bit.
    let mut m = UBig::from(0u8);
    for (i, b) in le.iter().enumerate() {
        for k in 0..8 {
            if b >> k & 1 == 1 {
                m.set_bit(8 * i + k);
            }
        }
    }
    c.ok(m == u, || "differs from the number with the same bits set".into());
    c.ok(m.to_le_bytes() == Nat::from_le(le).le(), || "to_le_bytes of the number with the same bits set".into());
}

fn main() {
    mc::main("C12", |tier| {
        let mut v = vec![];
        v.push(block("all-0-2", |ctx| {
            ctx.state(|| "empty".into(), |c| {
                bytes(c, &[]);
                denoted(c, &[]);
            });
            for a in 0..=255u8 {
                ctx.state(|| format!("{:x?}", [a]), |c| {
                    bytes(c, &[a]);
                    denoted(c, &[a]);
                });
                for b in 0..=255u8 {
                    ctx.state(|| format!("{:x?}", [a, b]), |c| {
                        bytes(c, &[a, b]);
                        denoted(c, &[a, b]);
                    });
                }
            }
        }));
        if W == 16 {
            // Two-word numbers: every 3-byte string with the middle byte anything.
            for k in 0..16u32 {
                v.push(block(format!("all-3-{k}"), move |ctx| {
                    let step = tier.pick(1u32, 1);
                    for x in ((k << 20)..((k + 1) << 20)).step_by(step as usize) {
                        let b = x.to_le_bytes();
                        ctx.state(|| format!("{:x?}", &b[..3]), |c| bytes(c, &b[..3]));
                    }
                }));
            }
        }
        // Every string over a boundary alphabet.
        let al: [u8; 6] = [0, 1, 0x7f, 0x80, 0xfe, 0xff];
        for len in 3..=tier.pick(8u32, 9) {
            v.push(block(format!("alpha6-{len}"), move |ctx| {
                for mut x in 0..6usize.pow(len) {
                    let mut b = vec![];
                    for _ in 0..len {
                        b.push(al[x % 6]);
                        x /= 6;
                    }
                    ctx.state(|| format!("{b:x?}"), |c| {
                        bytes(c, &b);
                        if len <= 5 {
                            denoted(c, &b);
                        }
                    });
                }
            }));
        }
        for len in 7..=tier.pick(12u32, 14) {
            v.push(block(format!("alpha3-{len}"), move |ctx| {
                for mut x in 0..3usize.pow(len) {
                    let mut b = vec![];
                    for _ in 0..len {
                        b.push([0, 0x80, 0xff][x % 3]);
                        x /= 3;
                    }
                    ctx.state(|| format!("{b:x?}"), |c| bytes(c, &b));
                }
            }));
        }
        for len in 8..=tier.pick(20u32, 22) {
            v.push(block(format!("alpha2-{len}"), move |ctx| {
                for x in 0..1usize << len {
                    let b: Vec<u8> = (0..len).map(|i| if x >> i & 1 == 1 { 0xA5 } else { 0 }).collect();
                    ctx.state(|| format!("{b:x?}"), |c| bytes(c, &b));
                }
            }));
        }
        // Every length with structured contents and any number of redundant zero bytes.
        for l0 in 0..8usize {
            v.push(block(format!("lengths-{l0}"), move |ctx| {
                for len in (l0..=tier.pick(1400usize, 4000)).step_by(8) {
                    let mut base: Vec<Vec<u8>> = vec![
                        vec![0xff; len],
                        (0..len).map(|i| gw(5, i as u64) as u8).collect(),
                        (0..len).map(|i| (i + 1 == len) as u8).collect(),
                        (0..len).map(|i| if i + 1 == len { 0x80 } else { 0 }).collect(),
                        (0..len).map(|i| (i == 0) as u8 * 0x10).collect(),
                        (0..len).map(|i| i as u8).collect(),
                        (0..len).map(|i| (i as u8).wrapping_mul(0x11) ^ 0x5a).collect(),
                    ];
                    base.dedup();
                    for b in &base {
                        ctx.state(|| format!("len {len} {:x?}...", &b[..len.min(8)]), |c| {
                            bytes(c, b);
                            if len <= 300 {
                                denoted(c, b);
                            }
                        });
                    }
                    if len <= 200 {
                        for z in 0..=len.min(40) {
                            for b in base.iter().take(2) {
                                let mut hi = b.clone();
                                let mut lo = b.clone();
                                for i in 0..z {
                                    hi[len - 1 - i] = 0;
                                    lo[i] = 0;
                                }
                                ctx.state(|| format!("len {len} with {z} zero top bytes"), |c| bytes(c, &hi));
                                ctx.state(|| format!("len {len} with {z} zero bottom bytes"), |c| bytes(c, &lo));
                            }
                        }
                    }
                }
            }));
        }
        v
    });
}
