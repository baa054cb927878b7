//! C20: random sampling, with the generator as the environment: its answers are enumerated.
#[cfg(feature = "use_rand")]
mod go {
    use ibig::{IBig, UBig};
    use mc::*;
    use rand::distributions::uniform::{UniformSampler, Uniform};
    use rand::distributions::Distribution;
    use rand::{Error, Rng, RngCore};
    use std::collections::{BTreeMap, BTreeSet};

    const PHI: u64 = 0x9E37_79B9_7F4A_7C15;

    /// One answer of the generator.
    #[derive(Clone, Debug)]
    pub enum Ans {
        /// Member c of a family of 2^k answers which is spread evenly over the leading bits of every word.
        Grid(u64, u32),
        /// Some varied answer.
        Weyl(u64),
        /// The same word everywhere (as the low word and, shifted, as the high word).
        Raw(u64),
        /// These bytes, repeated.
        Bytes(Vec<u8>),
    }

    /// Answers `script[k]` to the k-th request and then a varied sequence determined by `salt`.
    pub struct Script<'a> {
        script: &'a [Ans],
        pub calls: usize,
        salt: u64,
    }

    impl Script<'_> {
        fn next(&mut self) -> Ans {
            let k = self.calls;
            self.calls += 1;
            if k >= 20_000 {
                panic!("the sampler does not accept any of 20000 varied answers");
            }
            match self.script.get(k) {
                Some(a) => a.clone(),
                None => Ans::Weyl(mix(self.salt, k as u64)),
            }
        }
    }

    fn mix(a: u64, b: u64) -> u64 {
        let mut h = a.wrapping_mul(PHI) ^ b.wrapping_add(1).wrapping_mul(0x632B_E59B_D9B4_E019);
        for _ in 0..2 {
            h = (h ^ h >> 29).wrapping_mul(0xff51_afd7_ed55_8ccd);
        }
        h ^ h >> 32
    }

    fn word(a: &Ans, j: u64) -> u64 {
        match a {
            Ans::Weyl(c) if j == 0 => c.wrapping_mul(PHI).wrapping_add(PHI >> 3),
            Ans::Weyl(c) => mix(*c, j),
            Ans::Grid(c, k) => {
                // The top k bits of each W-bit word permute c; the rest is scrambled.
                let mut x = 0u64;
                for p in 0..(64 / W) as u64 {
                    let h = c.wrapping_add(1 + j * 4 + p).wrapping_mul(PHI);
                    let h = (h ^ h >> 29).wrapping_mul(0xff51_afd7_ed55_8ccd);
                    // A different permutation for every word, unrelated to the others.
                    let mask = (1u64 << k) - 1;
                    let mut perm = *c;
                    for t in 0..3 {
                        perm = perm.wrapping_mul(mix(j * 4 + p, t) | 1).wrapping_add(mix(t, j * 4 + p)) & mask;
                        perm ^= perm >> (k / 2 + 1);
                    }
                    let top = if p == (64 / W) as u64 - 1 && j == 0 { *c } else { perm };
                    let w = top << (W as u32 - k) | (h ^ h >> 32) & ((1u64 << (W as u32 - k)) - 1);
                    x |= w << (p as usize * W);
                }
                x
            }
            Ans::Raw(w) => *w,
            Ans::Bytes(b) => {
                let mut x = [0u8; 8];
                for i in 0..8 {
                    x[i] = b[(j as usize * 8 + i) % b.len()];
                }
                u64::from_le_bytes(x)
            }
        }
    }

    impl RngCore for Script<'_> {
        fn next_u32(&mut self) -> u32 {
            match self.next() {
                a @ (Ans::Weyl(_) | Ans::Grid(..)) => (word(&a, 0) >> 32) as u32,
                a => word(&a, 0) as u32,
            }
        }
        fn next_u64(&mut self) -> u64 {
            let a = self.next();
            word(&a, 0)
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            let a = self.next();
            for (j, ch) in dest.chunks_mut(8).enumerate() {
                let w = word(&a, j as u64).to_le_bytes();
                ch.copy_from_slice(&w[..ch.len()]);
            }
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }

    /// Offsets as integers; the unsigned sampler is used when the offset is not negative.
    fn offsets(range: &Nat) -> Vec<Int> {
        let mut v = vec![Int::from_i(0), Int::from_i(1), Int::pos(words(&[MAXW])), Int::pos(words(&[3, 0, MAXW]))];
        v.extend([Int::from_i(-1), Int::pos(range.clone()).neg(), Int::pos(range.shr(1)).neg(), Int::pos(words(&[MAXW, MAXW, MAXW])).neg()]);
        v
    }

    /// The tree of answers: every sequence of `depth` answers from `alpha`; a run that asks for fewer is
    /// executed once.
    fn tree(alpha: &[Ans], depth: usize, f: &mut dyn FnMut(&[Ans], &[usize]) -> usize) {
        let mut idx: Vec<usize> = vec![0; depth];
        loop {
            let s: Vec<Ans> = idx.iter().map(|&i| alpha[i].clone()).collect();
            let used = f(&s, &idx).min(depth);
            // Advance the last consumed choice.
            let mut k = used;
            loop {
                if k == 0 {
                    return;
                }
                k -= 1;
                if idx[k] + 1 < alpha.len() {
                    idx[k] += 1;
                    for x in &mut idx[k + 1..] {
                        *x = 0;
                    }
                    break;
                }
            }
        }
    }

    /// One sample by one of the entry points.
    fn sample_u(lo: &UBig, hi: &UBig, incl: &UBig, how: usize, r: &mut Script) -> UBig {
        match how {
            0 => r.gen_range(lo.clone()..hi.clone()),
            1 => r.gen_range(lo.clone()..=incl.clone()),
            2 => Uniform::new(lo, hi).sample(r),
            3 => Uniform::new_inclusive(lo.clone(), incl).sample(r),
            4 => Uniform::from(lo.clone()..hi.clone()).sample(r),
            5 => <UBig as rand::distributions::uniform::SampleUniform>::Sampler::sample_single(lo, hi, r),
            _ => <UBig as rand::distributions::uniform::SampleUniform>::Sampler::sample_single_inclusive(lo, incl, r),
        }
    }
    fn sample_i(lo: &IBig, hi: &IBig, incl: &IBig, how: usize, r: &mut Script) -> IBig {
        match how {
            0 => r.gen_range(lo.clone()..hi.clone()),
            1 => r.gen_range(lo.clone()..=incl.clone()),
            2 => Uniform::new(lo, hi).sample(r),
            3 => Uniform::new_inclusive(lo.clone(), incl).sample(r),
            4 => Uniform::from(lo.clone()..hi.clone()).sample(r),
            5 => <IBig as rand::distributions::uniform::SampleUniform>::Sampler::sample_single(lo, hi, r),
            _ => <IBig as rand::distributions::uniform::SampleUniform>::Sampler::sample_single_inclusive(lo, incl, r),
        }
    }

    /// A sampler of [0, range): returns the sample less the offset, in the model.
    struct Src {
        lo: Int,
        how: usize,
        ul: Option<(UBig, UBig, UBig)>,
        il: (IBig, IBig, IBig),
        signed: bool,
        range: Nat,
    }
    impl Src {
        fn new(range: &Nat, lo: &Int, how: usize, signed: bool) -> Src {
            let hi = lo.add(&Int::pos(range.clone()));
            let incl = hi.sub(&Int::from_i(1));
            let ul = (!lo.neg).then(|| (to_u(&lo.mag), to_u(&hi.mag), to_u(&incl.mag)));
            Src { lo: lo.clone(), how, ul, il: (to_i(lo), to_i(&hi), to_i(&incl)), signed, range: range.clone() }
        }
        /// The sample, if in range, relative to the low end.
        fn get(&self, s: &[Ans], salt: u64) -> (Result<Nat, String>, usize) {
            let mut r = Script { script: s, calls: 0, salt };
            let x = call(|| {
                if self.signed || self.ul.is_none() {
                    of_i(&sample_i(&self.il.0, &self.il.1, &self.il.2, self.how, &mut r))
                } else {
                    let u = self.ul.as_ref().unwrap();
                    Int::pos(of_u(&sample_u(&u.0, &u.1, &u.2, self.how, &mut r)))
                }
            });
            let res = match x {
                Err(m) => Err(format!("panic: {m}")),
                Ok(x) => {
                    let d = x.sub(&self.lo);
                    if d.neg || d.mag.cmp(&self.range).is_ge() {
                        Err(format!("sample {} outside its range", x.hex()))
                    } else {
                        Ok(d.mag)
                    }
                }
            };
            (res, r.calls)
        }
        fn name(&self) -> String {
            format!("range {} from {} by entry point {}{}", self.range.hex(), self.lo.hex(), self.how, if self.signed { " signed" } else { "" })
        }
    }

    /// Range sizes.
    fn ranges(tier: Tier) -> Vec<Nat> {
        let mut v: Vec<Nat> = (1..=tier.pick(24u128, 70)).map(Nat::from_u).collect();
        v.extend(upto_words(&[0, 1, 2, 5, MSB, MAXW - 1, MAXW], 2));
        v.extend(all_words(&[0, 1, MSB, MAXW], 3));
        v.extend([words(&[3 << (W - 2)]), words(&[0, 3]), words(&[5 << (W - 4), 2]), words(&[MSB, 1])]);
        v.extend([words(&[0, 0, 0, 1]), words(&[1, 0, 0, 1]), words(&[MAXW, 0, 0, 1]), words(&[7, 7, 7, 7, 7]), words(&[0, MSB, 0, 3, 2]), generic(3, 6), generic(4, 9)]);
        v.retain(|n| !n.is_zero());
        dedup(&mut v);
        v
    }

    /// Adversarial answers for a range.
    fn adversarial(range: &Nat) -> Vec<Ans> {
        let mut ws: Vec<u64> = vec![0, u64::MAX];
        let mut b = range.le();
        while b.len() % (W / 8) != 0 {
            b.push(0);
        }
        let top = b.chunks(W / 8).last().unwrap().iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
        for ch in b.chunks(W / 8) {
            let w = ch.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
            for d in [w.wrapping_sub(1) & MAXW, w, w.wrapping_add(1) & MAXW] {
                ws.push(d);
            }
        }
        let mut v: Vec<Ans> = vec![];
        ws.sort();
        ws.dedup();
        if ws.len() > 14 {
            ws.truncate(14);
        }
        for w in ws {
            v.push(Ans::Raw(w));
        }
        // Answers which a widening multiplication maps to 0, top - 1 and top.
        for m in [top as u128, top as u128 + 1] {
            for d in [1, 2] {
                if m > d && m <= u64::MAX as u128 {
                    let bits = if W == 64 { 64 } else { 32 };
                    v.push(Ans::Raw((((m - d) << bits).div_ceil(m)) as u64));
                }
            }
        }
        v.push(Ans::Bytes(b.clone()));
        let mut r1 = range.sub(&Nat::from_u(1)).unwrap().le();
        while r1.len() < b.len() {
            r1.push(0);
        }
        v.push(Ans::Bytes(r1));
        v.push(Ans::Weyl(12345));
        v
    }

    pub fn main() {
        mc::main("C20", |tier| {
            let mut v = vec![];
            // Every sequence of adversarial answers.
            for (k, ch) in ranges(tier).chunks(4).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("adversarial-{k}"), move |ctx| {
                    for range in &ch {
                        let alpha = adversarial(range);
                        let depth = tier.pick(3, 4).min(1 + wlen(range));
                        let last = range.sub(&Nat::from_u(1)).unwrap();
                        for (m, lo) in offsets(range).iter().enumerate() {
                            for signed in [false, true] {
                                if !signed && lo.neg {
                                    continue;
                                }
                                for how in 0..7 {
                                    if m > 0 && how != (m + signed as usize * 3) % 7 && how != (m + 4) % 7 {
                                        continue;
                                    }
                                    let src = Src::new(range, lo, how, signed);
                                    let (mut zero, mut end) = (false, false);
                                    let mut n = 0u64;
                                    ctx.state(|| format!("{}: all sequences of {depth} of {} answers", src.name(), alpha.len()), |c| {
                                        tree(&alpha, depth, &mut |s, _| {
                                            n += 1;
                                            let (x, used) = src.get(s, 0);
                                            match x {
                                                Err(e) => {
                                                    c.ok(false, || format!("{e} for answers {s:?}"));
                                                    // leave this tree
                                                    return 0;
                                                }
                                                Ok(x) => {
                                                    c.ok(true, String::new);
                                                    zero |= x.is_zero();
                                                    end |= x == last;
                                                }
                                            }
                                            used
                                        });
                                        // The same answers throughout, or after the first.
                                        for a in &alpha {
                                            for b in &alpha {
                                                if zero && end {
                                                    break;
                                                }
                                                let mut s = vec![b.clone(); 40];
                                                s[0] = a.clone();
                                                if let (Ok(x), _) = src.get(&s, 0) {
                                                    zero |= x.is_zero();
                                                    end |= x == last;
                                                }
                                            }
                                        }
                                        if c.fail.is_none() {
                                            c.note(format!("{}{zero}{end}", range.hex()).as_bytes());
                                            c.ok(zero, || "the low end is never produced".into());
                                            if wlen(range) <= 2 {
                                                c.ok(end, || "the high end is never produced".into());
                                            }
                                        }
                                    });
                                    ctx.count("answer_sequences", n);
                                }
                            }
                        }
                    }
                }));
            }
            // Equidistributed answers: every value reached, with equal weights.
            let g = tier.pick(4096usize, 16384);
            let mut small: Vec<u64> = (1..=tier.pick(40, 120)).collect();
            small.extend([64, 100, 127, 128, 255, 256, 257]);
            for (k, ch) in small.chunks(4).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("uniform-small-{k}"), move |ctx| {
                    let alpha: Vec<Ans> = (0..g as u64).map(Ans::Weyl).collect();
                    for &n in &ch {
                        let range = Nat::from_u(n as u128);
                        for how in 0..7 {
                            let signed = how % 2 == 1;
                            let src = Src::new(&range, &Int::from_i(if signed { -5 } else { 9 }), how, signed);
                            ctx.state(|| format!("{}: each of {g} equidistributed answers", src.name()), |c| {
                                let mut hist: BTreeMap<u64, u64> = BTreeMap::new();
                                let mut taken = 0;
                                for a in &alpha {
                                    // After a rejected first answer any other may follow; only one is used.
                                    let (x, used) = src.get(std::slice::from_ref(a), 0);
                                    if used > 1 && x.is_ok() {
                                        continue;
                                    }
                                    taken += 1;
                                    match x {
                                        Ok(x) => *hist.entry(x.to_u128().unwrap() as u64).or_insert(0) += 1,
                                        Err(e) => {
                                            c.ok(false, || format!("{e} for answer {a:?}"));
                                            return;
                                        }
                                    }
                                }
                                c.ok(taken * 5 >= g, || format!("only {taken} of {g} answers accepted"));
                                let want = taken as f64 / n as f64;
                                for x in 0..n {
                                    let got = *hist.get(&x).unwrap_or(&0) as f64;
                                    // Equidistribution puts each count within a few of the ideal.
                                    c.ok(got > 0.0 && (got - want).abs() <= 6.0 + want * 0.15, || format!("value {x} produced by {got} of {taken} answers, expected about {want:.1}"));
                                }
                                c.note(format!("{n}").as_bytes());
                            });
                        }
                    }
                }));
            }
            // Larger ranges: the probability of intervals, and of bits of every word, over the tree of
            // equidistributed answers.
            let mut big: Vec<Nat> = vec![words(&[3 << (W - 2)]), words(&[5 << (W - 3)]), words(&[MSB + 1]), words(&[MAXW])];
            big.extend(all_words(&[0, MSB, 3 << (W - 2), MAXW], 2));
            big.extend([words(&[0, 1]), words(&[1, 1]), words(&[MSB, 1]), words(&[MSB, 2]), words(&[MAXW, 1]), words(&[0, 3]), words(&[0, 5, 1]), words(&[0, 0, 1]), words(&[0, MSB, 1]), words(&[MAXW, MAXW, 1]), words(&[5, MSB, 2]), words(&[1, 1, 1, 3]), words(&[0, 0, MSB, 1]), generic(5, 3), generic(6, 5), generic(7, 8)]);
            big.retain(|n| n.bit_len() > 8);
            dedup(&mut big);
            for (k, range) in big.into_iter().enumerate() {
                v.push(block(format!("uniform-large-{k}"), move |ctx| {
                  // All pairs of first answers; and many more first answers, with a finer measure.
                  for (k, depth, tol, low) in [(tier.pick(9u32, 10), 2usize, 0.1, 0.2), (tier.pick(15, 16).min(W as u32 - 1), 1, 0.02, 0.45)] {
                    let g = 1usize << k;
                    let alpha: Vec<Ans> = (0..g as u64).map(|c| Ans::Grid(c, k)).collect();
                    for (signed, how) in tier.pick(vec![(false, 0), (true, 3)], vec![(false, 0), (true, 3), (false, 5), (true, 6)]) {
                        let src = Src::new(&range, &if signed { Int::pos(range.shr(1)).neg() } else { Int::from_i(0) }, how, signed);
                        let total = (g as f64).powi(depth as i32);
                        let mut seqs = 0u64;
                        ctx.state(|| format!("{}: all sequences of {depth} of {g} equidistributed answers", src.name()), |c| {
                            let nb = [3usize, 4, 5, 8];
                            let mut hist: Vec<Vec<f64>> = nb.iter().map(|&b| vec![0.0; b]).collect();
                            let bl = range.bit_len();
                            let mut bits = vec![0.0f64; bl];
                            let rf = f(&range);
                            tree(&alpha, depth, &mut |s, idx| {
                                seqs += 1;
                                // Requests beyond the tree get answers that vary with the path taken.
                                let (x, used) = src.get(s, idx.iter().fold(0, |h, i| mix(h, *i as u64)));
                                let w = (g as f64).powi((depth - used.min(depth)) as i32) / total;
                                match x {
                                    Ok(x) => {
                                        let p = f(&x) / rf;
                                        for (h, &b) in hist.iter_mut().zip(&nb) {
                                            h[((p * b as f64) as usize).min(b - 1)] += w;
                                        }
                                        for i in 0..bl {
                                            if x.bit(i) {
                                                bits[i] += w;
                                            }
                                        }
                                        used
                                    }
                                    Err(e) => {
                                        c.ok(false, || format!("{e} for answers {s:?}"));
                                        0
                                    }
                                }
                            });
                            if c.fail.is_some() {
                                return;
                            }
                            c.note(range.hex().as_bytes());
                            for (h, &b) in hist.iter().zip(&nb) {
                                for (i, &p) in h.iter().enumerate() {
                                    c.ok((p - 1.0 / b as f64).abs() <= tol, || format!("interval {i} of {b} has probability {p:.4}"));
                                }
                            }
                            // Bits well below the top are balanced.
                            for i in 0..bl.saturating_sub(6) {
                                c.ok(bits[i] > low && bits[i] < 1.0 - low, || format!("bit {i} is set with probability {:.4}", bits[i]));
                            }
                        });
                        ctx.count("answer_sequences", seqs);
                    }
                  }
                }));
            }
            if W == 16 {
                // Every value of ranges just above one word, from every low half of the last answer.
                for (k, &n) in [65536u64, 65537, 65600, 100000, 131072, 131075, 200000].iter().enumerate() {
                    v.push(block(format!("reach-{k}"), move |ctx| {
                        let range = Nat::from_u(n as u128);
                        let src = Src::new(&range, &Int::from_i(-7), 2, true);
                        ctx.state(|| src.name(), |c| {
                            let mut seen = BTreeSet::new();
                            let tops: Vec<Ans> = (0..16u64).map(|i| Ans::Raw((i << 28) | 1 << 27)).collect();
                            for t in &tops {
                                for low in 0..65536u64 {
                                    let s = [t.clone(), Ans::Raw(low | low << 16), Ans::Raw(low)];
                                    match src.get(&s, 0).0 {
                                        Ok(x) => {
                                            seen.insert(x.to_u128().unwrap() as u64);
                                        }
                                        Err(e) => {
                                            c.ok(false, || e);
                                            return;
                                        }
                                    }
                                }
                            }
                            c.ops += 16 * 65536;
                            if (seen.len() as u64) < n {
                                // In the other order, and all at once.
                                for hi in 0..4u64 {
                                    for low in 0..65536u64 {
                                        let both = Ans::Raw(low | hi << 16);
                                        for s in [vec![Ans::Raw(low), Ans::Raw(hi << 29 | 1 << 28)], vec![both.clone()], vec![both, tops[hi as usize].clone()]] {
                                            if let Ok(x) = src.get(&s, low).0 {
                                                seen.insert(x.to_u128().unwrap() as u64);
                                            }
                                        }
                                    }
                                }
                            }
                            c.eq("number of values produced", seen.len() as u64, n);
                        });
                    }));
                }
            }
            // Empty ranges panic, others do not.
            v.push(block("empty", |ctx| {
                let vals = signed(&[Nat::zero(), Nat::from_u(1), Nat::from_u(2), words(&[MAXW]), words(&[0, 1]), words(&[1, 1]), words(&[MAXW, MAXW]), words(&[0, 0, 1])]);
                for a in &vals {
                    for b in &vals {
                        ctx.state(|| d2i(a, b), |c| {
                            let (x, y) = (to_i(a), to_i(b));
                            let lt = a.cmp(b).is_lt();
                            let le = a.cmp(b).is_le();
                            let mut r = Script { script: &[], calls: 0, salt: 0 };
                            for (how, ok) in [lt, le, lt, le, lt, lt, le].into_iter().enumerate() {
                                let e = call(|| sample_i(&x, &y, &y, how, &mut r));
                                c.ok(e.is_ok() == ok, || format!("signed entry point {how}: {e:?}"));
                                if let Ok(s) = e {
                                    c.ok(x <= s && s <= y && (s < y || how % 2 == 1 || how == 6), || format!("signed entry point {how}: {s}"));
                                }
                                if !a.neg && !b.neg {
                                    let (x, y) = (to_u(&a.mag), to_u(&b.mag));
                                    let e = call(|| sample_u(&x, &y, &y, how, &mut r));
                                    c.ok(e.is_ok() == ok, || format!("entry point {how}: {e:?}"));
                                    if let Ok(s) = e {
                                        c.ok(x <= s && s <= y && (s < y || how % 2 == 1 || how == 6), || format!("entry point {how}: {s}"));
                                    }
                                }
                            }
                        });
                    }
                }
            }));
            v
        });
    }

    fn f(n: &Nat) -> f64 {
        n.le().iter().rev().fold(0.0, |a, b| a * 256.0 + *b as f64)
    }
}

fn main() {
    #[cfg(feature = "use_rand")]
    go::main();
    #[cfg(not(feature = "use_rand"))]
    panic!("needs the feature use_rand");
}
