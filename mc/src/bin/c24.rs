//! C24: memory discipline. Every operation is executed under a checking allocator (guard zones, exact
//! layouts, poisoned fresh and released blocks, leak accounting), several times with different poison;
//! the outcomes must not depend on the poison.
use ibig::{IBig, UBig};
use ibig::ops::NextPowerOfTwo;
use mc::hist::*;
use mc::mem::{self, *};
use mc::*;

#[global_allocator]
static A: mc::alloc::Guard = mc::alloc::Guard;

/// Run one operation on operands built anew under every poison; all outcomes must agree.
fn guarded(c: &mut Chk, a: &dyn Fn() -> UBig, b: &dyn Fn() -> UBig, f: &mem::F) {
    let mut first: Option<Result<u64, String>> = None;
    for poison in [0xA5u8, 0x00, 0xFF] {
        alloc::start(poison);
        let r = {
            let (x, y) = (a(), b());
            let mut d = Dig(1);
            let r = call(|| f(&mut d, &x, &y));
            // Operands are unchanged.
            d.u(&x);
            d.u(&y);
            r.map(|_| d.0)
        };
        let r = {
            // Move the message out of the tracked heap.
            alloc::pause(false);
            let s = r.as_ref().map(|x| *x).map_err(|e| e.to_string());
            alloc::pause(true);
            drop(r);
            s
        };
        let s = alloc::stop();
        c.ok(s.fault.is_none(), || format!("memory fault: {}", s.fault.unwrap()));
        c.ok(s.blocks == 0 && s.bytes == 0, || format!("leak: {} blocks, {} bytes", s.blocks, s.bytes));
        if let Err(m) = &r {
            c.panics += 1;
            c.ok(!m.contains("internal error") && !m.contains("index out of") && !m.contains("assertion")
                && !m.contains("unwrap") && !m.contains("out of memory") && !m.contains("overflow"), || format!("internal failure: {m}"));
        }
        match &first {
            None => first = Some(r),
            Some(w) => {
                c.ok(*w == r, || format!("outcome depends on memory contents: {w:?} and {r:?}"));
            }
        }
    }
    if let Some(Ok(d)) = first {
        c.note(&d.to_le_bytes());
    }
    c.ok(!alloc::STRAY.load(std::sync::atomic::Ordering::Relaxed), || "memory fault outside a run".into());
}

fn sizes(t: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let m = t.pick(36, 72);
    for a in 0..=m {
        for b in 0..=m {
            v.push((a, b));
        }
    }
    // Around the thresholds of multiplication (24, 192) and division (32), balanced and not.
    for a in [23usize, 24, 25, 26, 27, 31, 32, 33, 34, 47, 48, 49, 50, 51, 63, 64, 65, 66, 67, 95, 96, 97, 100, 128, 129, 130] {
        for b in [1usize, 2, 3, 12, 24, 25, 26, 31, 32, 33, 34, 35, 36, 48, 49, 50, 51, 52, 64, 65, 66, 67, 97, 98, 100] {
            v.push((a, b));
        }
    }
    for b in t.pick(vec![190usize, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 203, 291, 292, 385, 577, 579, 581], (190..230).collect()) {
        for a in [b, b + 1, b + 2, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b + 1, 3 * b + 24, 3 * b + 26, 2 * b + 33] {
            v.push((a, b));
        }
    }
    if t.thorough() {
        for b in [300usize, 400, 577, 578, 579, 580, 600, 700, 1024, 1025, 1026, 1152, 1153] {
            for a in [b, b + 1, 2 * b + 1, 3 * b + 193] {
                v.push((a, b));
            }
        }
    }
    v
}

fn main() {
    mc::main("C24", |tier| {
        let mut v = vec![];
        let sz = sizes(tier);
        for (name, _) in binary() {
            let heavy = matches!(name, "extgcd" | "gcd" | "ringpow");
            for (k, ch) in sz.chunks(100).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("{name}-{k}"), move |ctx| {
                    let f = binary().into_iter().find(|x| x.0 == name).unwrap().1;
                    for (la, lb) in &ch {
                        if heavy && la.max(lb) > &tier.pick(200, 600) {
                            continue;
                        }
                        for k in 0..if la + lb > 60 { 2 } else { 4 } {
                            let (na, nb) = (contents(*la, k), contents(*lb, (k + 1) % 4));
                            if name == "ringpow" && lb + la > 140 && !tier.thorough() {
                                continue;
                            }
                            if (name.starts_with("ring")) && nb.is_zero() {
                                continue;
                            }
                            ctx.state(
                                || format!("{name} of {la} and {lb} words, contents {k}: a={} b={}", na.hex(), nb.hex()),
                                |c| guarded(c, &|| to_u(&na), &|| to_u(&nb), &f),
                            );
                        }
                    }
                }));
            }
        }
        for (name, _) in unary() {
            let f = unary().into_iter().find(|x| x.0 == name).unwrap().1;
            let lens: Vec<usize> = tier.pick((0..=40).chain([63, 64, 65, 66, 130, 190, 200, 260, 300, 520]).collect(),
                (0..=300).chain((300..1200).step_by(37)).collect());
            v.push(block(format!("unary-{name}"), move |ctx| {
                for l in &lens {
                    for k in 0..4 {
                        for s in 0..3 {
                            let (na, nb) = (contents(*l, k), contents((*l / 2).max(1), 1));
                            ctx.state(
                                || format!("{name} of {l} words, contents {k}, storage {s}: a={}", na.hex()),
                                |c| guarded(c, &|| mk_variant(&na, s), &|| to_u(&nb), &f),
                            );
                        }
                    }
                }
            }));
        }
        // Powers.
        v.push(block("pow", move |ctx| {
            for l in 1..=tier.pick(6, 12) {
                for k in 0..4 {
                    for e in 0..tier.pick(24, 70) {
                        let na = contents(l, k);
                        let f: mem::F = Box::new(move |d, a, _| { d.u(&a.pow(e)); d.i(&(-IBig::from(a)).pow(e)) });
                        ctx.state(|| format!("({}).pow({e})", na.hex()), |c| guarded(c, &|| to_u(&na), &|| to_u(&na), &f));
                    }
                }
            }
        }));
        // Results past the size limit: the unwinding paths (16-bit words reach the limit).
        if W == 16 {
            let max = UBig::MAX_BIT_LEN / W;
            for (name, _) in binary().into_iter().filter(|x| matches!(x.0, "mul" | "add" | "extgcd" | "div" | "bits" | "clonefrom")) {
                v.push(block(format!("limit-{name}"), move |ctx| {
                    let f = binary().into_iter().find(|x| x.0 == name).unwrap().1;
                    for (la, lb) in [(max, 1), (max, max), (max, max / 2), (max - 1, 2), (max / 2, max / 2), (max / 2 + 1, max / 2)] {
                        if name == "extgcd" && lb > 2 && !tier.thorough() {
                            continue;
                        }
                        let (na, nb) = (contents(la, 0), contents(lb, 0));
                        ctx.state(|| format!("{name} of {la} and {lb} words"), |c| guarded(c, &|| to_u(&na), &|| to_u(&nb), &f));
                    }
                }));
            }
            v.push(block("limit-unary", move |ctx| {
                let fs: Vec<mem::F> = vec![
                    Box::new(|d, a, _| d.u(&(a << W))),
                    Box::new(|d, a, _| { let mut x = a.clone(); x <<= 1; d.u(&x) }),
                    Box::new(|d, a, _| { let mut x = a.clone(); x.set_bit(UBig::MAX_BIT_LEN); d.u(&x) }),
                    Box::new(|d, a, _| { d.u(&a.next_power_of_two()) }),
                    Box::new(|d, a, _| { d.u(&a.pow(2)) }),
                    Box::new(|d, a, _| { d.i(&!IBig::from(a)) }),
                    Box::new(|d, a, _| { d.u(&(a * 3u8)) }),
                    Box::new(|d, a, _| { let s = "f".repeat(a.bit_len() / 4 + 1); d.b(&[UBig::from_str_radix(&s, 16).is_ok() as u8]) }),
                    Box::new(|d, a, _| { let s = "9".repeat(a.bit_len() / 3); d.b(&[UBig::from_str_radix(&s, 10).is_ok() as u8]) }),
                    Box::new(|d, a, _| { let s = vec![1u8; a.bit_len() / 8 + 1]; d.u(&UBig::from_le_bytes(&s)) }),
                    Box::new(|d, a, _| { let s = vec![1u8; a.bit_len() / 8 + 1]; d.u(&UBig::from_be_bytes(&s)) }),
                ];
                for (k, f) in fs.iter().enumerate() {
                    for n in [contents(max, 0), contents(max, 3)] {
                        ctx.state(|| format!("unary {k} at the size limit"), |c| guarded(c, &|| to_u(&n), &|| to_u(&n), f));
                    }
                }
            }));
        }
        // Histories with reused storage under every poison.
        let ones = |n: usize| words(&vec![MAXW; n]);
        let mut ops = bin_ops(2, &UB, false);
        ops.extend(unary_ops(2, true));
        let mode = Mode { depth: 2, max_bits: 40 * W, cap: tier.pick(60, 2000), storage: false, poisons: &[0x00, 0xFF] };
        let starts = [(ones(1), 0), (Nat::pow2(W), 2), (ones(9), 1), (generic(3, 6), 2), (Nat::pow2(19 * W + 1), 2)];
        for (ka, a) in starts.iter().enumerate() {
            for (kb, b) in starts.iter().enumerate() {
                let (init, ops) = ((vec![a.clone(), b.clone()], vec![]), ops.clone());
                v.push(block(format!("history-{ka}-{kb}"), move |ctx| explore(ctx, &init, &ops, mode)));
            }
        }
        v
    });
}
