//! C21: serialization.
#[cfg(feature = "use_serde")]
mod go {
    use ibig::{IBig, UBig};
    use mc::*;
    use serde::de::value::{Error as VErr, SeqDeserializer};
    use serde::de::{Deserializer, IntoDeserializer, Visitor};
    use serde::{forward_to_deserialize_any, Deserialize, Serialize};

    fn words64(n: &Nat) -> Vec<u64> {
        n.le().chunks(8).map(|c| c.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64)).collect()
    }

    /// An element of a sequence, as a format may present it.
    #[derive(Clone, Copy)]
    enum Elem {
        U64(u64),
        /// The narrowest unsigned type that holds it (as self-describing binary formats do).
        Narrow(u64),
        /// A non-negative signed integer where it fits.
        Signed(u64),
    }
    impl<'de> Deserializer<'de> for Elem {
        type Error = VErr;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
            match self {
                Elem::U64(x) => v.visit_u64(x),
                Elem::Narrow(x) => match x {
                    0..=0xff => v.visit_u8(x as u8),
                    0x100..=0xffff => v.visit_u16(x as u16),
                    0x1_0000..=0xffff_ffff => v.visit_u32(x as u32),
                    _ => v.visit_u64(x),
                },
                Elem::Signed(x) => match i64::try_from(x) {
                    Ok(y) => v.visit_i64(y),
                    Err(_) => v.visit_u64(x),
                },
            }
        }
        forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    impl<'de> IntoDeserializer<'de, VErr> for Elem {
        type Deserializer = Elem;
        fn into_deserializer(self) -> Elem {
            self
        }
    }

    /// An iterator that does not know its length.
    struct NoHint<I>(I);
    impl<I: Iterator> Iterator for NoHint<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }

    /// A sequence of elements with or without a length hint.
    #[derive(Clone)]
    struct Seq(Vec<Elem>, bool);
    impl<'de> Deserializer<'de> for Seq {
        type Error = VErr;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
            if self.1 {
                let mut d = SeqDeserializer::<_, VErr>::new(self.0.into_iter());
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            } else {
                let mut d = SeqDeserializer::<_, VErr>::new(NoHint(self.0.into_iter()));
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
        }
        forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }

    /// A signed number: (sign, words).
    enum Part {
        Sign(&'static str),
        Mag(Seq),
    }
    impl<'de> Deserializer<'de> for Part {
        type Error = VErr;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
            match self {
                Part::Sign(s) => {
                    let d: serde::de::value::StrDeserializer<VErr> = s.into_deserializer();
                    d.deserialize_enum("Sign", &["Positive", "Negative"], v)
                }
                Part::Mag(s) => s.deserialize_seq(v),
            }
        }
        forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    impl<'de> IntoDeserializer<'de, VErr> for Part {
        type Deserializer = Part;
        fn into_deserializer(self) -> Part {
            self
        }
    }

    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Record {
        a: UBig,
        b: Vec<IBig>,
        c: Option<UBig>,
        d: (u8, IBig),
    }

    fn json_words(w: &[u64]) -> String {
        format!("[{}]", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
    fn bin_words(w: &[u64]) -> Vec<u8> {
        let mut v = (w.len() as u64).to_le_bytes().to_vec();
        for x in w {
            v.extend(x.to_le_bytes());
        }
        v
    }

    fn roundtrip(c: &mut Chk, n: &Nat, pads: usize) {
        for k in 0..3 {
            let u = if k == 0 || n.bit_len() > 30000 { to_u(n) } else { mk_variant(n, k) };
            let w = words64(n);
            c.eq("json text", serde_json::to_string(&u).unwrap(), json_words(&w));
            c.ok(bincode::serialize(&u).unwrap() == bin_words(&w), || "bincode bytes".into());
            let v: UBig = serde_json::from_str(&serde_json::to_string(&u).unwrap()).unwrap();
            c.u("json", &v, n);
            c.ok(v == u, || "json: not equal".into());
            let v: UBig = bincode::deserialize(&bincode::serialize(&u).unwrap()).unwrap();
            c.u("bincode", &v, n);
            c.ok(v == u, || "bincode: not equal".into());
        }
        let neg = -to_i(&Int::pos(n.clone()));
        let pos = to_i(&Int::pos(n.clone()));
        for (x, sign) in [(&pos, false), (&neg, true)] {
            let m = Int::new(sign && !n.is_zero(), n.clone());
            let w = words64(n);
            c.eq("ibig json text", serde_json::to_string(x).unwrap(), format!("[\"{}\",{}]", if m.neg { "Negative" } else { "Positive" }, json_words(&w)));
            let mut b = (m.neg as u32).to_le_bytes().to_vec();
            b.extend(bin_words(&w));
            c.ok(bincode::serialize(x).unwrap() == b, || "ibig bincode bytes".into());
            c.i("ibig json", &serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap(), &m);
            c.i("ibig bincode", &bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap(), &m);
        }
        // Redundant leading zero words, every presentation.
        for pad in 0..=pads {
            let mut w = words64(n);
            w.resize(w.len() + pad, 0);
            let v: UBig = serde_json::from_str(&json_words(&w)).unwrap();
            norm(c, "json padded", &v, n);
            let v: UBig = bincode::deserialize(&bin_words(&w)).unwrap();
            norm(c, "bincode padded", &v, n);
            for hint in [false, true] {
                for kind in 0..3 {
                    let e: Vec<Elem> = w
                        .iter()
                        .map(|&x| match kind {
                            0 => Elem::U64(x),
                            1 => Elem::Narrow(x),
                            _ => Elem::Signed(x),
                        })
                        .collect();
                    let s = Seq(e, hint);
                    match UBig::deserialize(s.clone()) {
                        Ok(v) => norm(c, "sequence", &v, n),
                        Err(x) => {
                            c.ok(false, || format!("sequence (hint {hint}, kind {kind}): {x}"));
                        }
                    }
                    for sign in ["Positive", "Negative"] {
                        let m = Int::new(sign == "Negative" && !n.is_zero(), n.clone());
                        for outer in [false, true] {
                            let parts = vec![Part::Sign(sign), Part::Mag(s.clone())];
                            let r: Result<IBig, VErr> = if outer { IBig::deserialize(SeqDeserializer::<_, VErr>::new(parts.into_iter())) } else { IBig::deserialize(SeqDeserializer::<_, VErr>::new(NoHint(parts.into_iter()))) };
                            match r {
                                Ok(v) => {
                                    c.i("ibig sequence", &v, &m);
                                    c.ok(v == to_i(&m), || "ibig sequence: not equal to the number".into());
                                }
                                Err(x) => {
                                    c.ok(false, || format!("ibig sequence: {x}"));
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    /// Equal to n, and normalised: comparisons and further operations agree.
    fn norm(c: &mut Chk, op: &str, v: &UBig, n: &Nat) {
        c.u(op, v, n);
        let u = to_u(n);
        c.ok(*v == u && v.cmp(&u).is_eq(), || format!("{op}: not equal to the number"));
        c.eq(op, v.bit_len(), n.bit_len());
        c.ok(!(v > &u), || format!("{op}: order"));
        if n.bit_len() < UBig::MAX_BIT_LEN {
            c.ok((v + 1u8) > u, || format!("{op}: successor"));
        }
    }

    pub fn main() {
        mc::main("C21", |tier| {
            let mut v = vec![];
            let mut vals = upto_words(&wa7(), 4);
            vals.extend((0..300u32).map(|x| Nat::from_u(x as u128)));
            for k in 0..tier.pick(3000, 20000) {
                let p = Nat::pow2(k);
                vals.extend([p.sub(&Nat::from_u(1)).unwrap(), p.add(&Nat::from_u(1)), p]);
            }
            dedup(&mut vals);
            for (k, ch) in vals.chunks(200).enumerate() {
                let ch = ch.to_vec();
                v.push(block(format!("values-{k}"), move |ctx| {
                    for n in &ch {
                        ctx.state(|| n.hex(), |c| roundtrip(c, n, tier.pick(6, 8)));
                    }
                }));
            }
            for l in 1..=tier.pick(300usize, 900) {
                v.push(block(format!("lengths-{l}"), move |ctx| {
                    for n in pats(l) {
                        ctx.state(|| n.hex(), |c| roundtrip(c, &n, 2));
                    }
                }));
            }
            for l in [100usize, 255, 256, 257, 1000, 1023, 1024].into_iter().filter(|l| l * 64 <= UBig::MAX_BIT_LEN) {
                v.push(block(format!("long-{l}"), move |ctx| {
                    for d in 0..(64 / W) {
                        for n in pats_few(l * (64 / W) - d) {
                            ctx.state(|| n.hex(), |c| roundtrip(c, &n, if n.bit_len() > UBig::MAX_BIT_LEN - 64 { 0 } else { 1 }));
                        }
                    }
                }));
            }
            // Inside other structures.
            v.push(block("records", move |ctx| {
                let vals = upto_words(&wa3(), 3);
                for a in &vals {
                    for b in &vals {
                        ctx.state(|| d2(a, b), |c| {
                            let i = -to_i(&Int::pos(b.clone()));
                            let r = Record { a: to_u(a), b: vec![i.clone(), to_i(&Int::pos(a.clone())), IBig::from(0u8)], c: Some(to_u(b)), d: (7, i) };
                            let t = serde_json::to_string(&r).unwrap();
                            c.ok(serde_json::from_str::<Record>(&t).ok().as_ref() == Some(&r), || "json record".into());
                            let val = serde_json::to_value(&r).unwrap();
                            c.ok(serde_json::from_value::<Record>(val).ok().as_ref() == Some(&r), || "json value record".into());
                            let t = bincode::serialize(&r).unwrap();
                            c.ok(bincode::deserialize::<Record>(&t).ok().as_ref() == Some(&r), || "bincode record".into());
                        });
                    }
                }
            }));
            // Data that denotes no number is an error, not a panic.
            v.push(block("malformed", |ctx| {
                for t in ["", "[", "[1", "[1,]", "{}", "null", "1", "\"1\"", "[-1]", "[1.5]", "[\"1\"]", "[null]", "[18446744073709551616]", "[1,2,-3]", "[[1]]", "[true]", "[1,2,18446744073709551616]"] {
                    ctx.state(|| t.to_string(), |c| {
                        c.ok(serde_json::from_str::<UBig>(t).is_err(), || "accepted".into());
                        c.ok(serde_json::from_str::<IBig>(t).is_err(), || "accepted as signed".into());
                        let s = format!("[\"Negative\",{t}]");
                        c.ok(serde_json::from_str::<IBig>(&s).is_err(), || "accepted as magnitude".into());
                        c.note(t.as_bytes());
                    });
                }
                for t in ["[\"Negative\"]", "[\"Neg\",[1]]", "[[1],\"Positive\"]", "[\"Positive\",[1],[2]]", "[]", "[0,[1]]", "[\"Positive\",[1]"] {
                    ctx.state(|| t.to_string(), |c| {
                        c.ok(serde_json::from_str::<IBig>(t).is_err(), || "accepted".into());
                        c.note(t.as_bytes());
                    });
                }
                // Every truncation of a binary form.
                for n in upto_words(&[1, MAXW], 5) {
                    let b = bin_words(&words64(&n));
                    for k in 0..b.len() {
                        ctx.state(|| format!("{} cut to {k} bytes", n.hex()), |c| {
                            c.ok(bincode::deserialize::<UBig>(&b[..k]).is_err(), || "accepted".into());
                            c.note(&b[..k]);
                        });
                    }
                }
            }));
            // A binary form whose length field says more or less than there is.
            v.push(block("false-length", |ctx| {
                let mut claims: Vec<u64> = (0..12).collect();
                for k in 3..64 {
                    claims.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
                }
                claims.push(u64::MAX);
                claims.sort();
                claims.dedup();
                for m in 0..6usize {
                    for k in 0..3usize {
                        let data: Vec<u64> = (0..m).map(|i| [u64::MAX, 1, 0][(i + k) % 3]).collect();
                        for &n in &claims {
                            ctx.state(|| format!("{data:x?} with length field {n}"), |c| {
                                let mut b = n.to_le_bytes().to_vec();
                                for x in &data {
                                    b.extend(x.to_le_bytes());
                                }
                                let mut s = 1u32.to_le_bytes().to_vec();
                                s.extend(&b);
                                let (u, i) = (bincode::deserialize::<UBig>(&b), bincode::deserialize::<IBig>(&s));
                                // Bytes after the number are ignored by bincode.
                                let want: Option<Vec<u8>> = (n <= m as u64).then(|| data[..n as usize].iter().flat_map(|x| x.to_le_bytes()).collect());
                                match want {
                                    None => {
                                        c.ok(u.is_err() && i.is_err(), || "accepted".into());
                                        c.note(&n.to_le_bytes());
                                        c.note(&[m as u8]);
                                    }
                                    Some(w) => {
                                        let w = Nat::from_le(&w);
                                        match (u, i) {
                                            (Ok(u), Ok(i)) => {
                                                c.u("value", &u, &w);
                                                c.u("magnitude", &ibig::ops::UnsignedAbs::unsigned_abs(&i), &w);
                                            }
                                            _ => {
                                                c.ok(false, || "refused".into());
                                            }
                                        }
                                    }
                                }
                            });
                        }
                    }
                }
            }));
            v
        });
    }
}

fn main() {
    #[cfg(feature = "use_serde")]
    go::main();
    #[cfg(not(feature = "use_serde"))]
    panic!("needs the feature use_serde");
}
