/* ---------- C07 bits ---------- */

fn jobs_bits(j: &mut Jobs) {
    fn msb(n: u8) -> Vec<bool> { (0..8).map(|i| (n >> (7 - i)) & 1 == 1).collect() }
    fn pack(bits: &[bool]) -> Vec<u8> {
        bits.chunks(8).map(|c| { let mut b = 0u8; for (i, x) in c.iter().enumerate() { if *x { b |= 0x80 >> i; } } b }).collect()
    }
    fn to_bit(b: bool) -> Bit { if b { Bit::One } else { Bit::Zero } }
    #[derive(Clone, Debug)]
    enum Op { Bit(bool), Byte(u8), Arr(Vec<bool>), Flush }
    fn run_ops(ops: &[Op]) -> Result<(), String> {
        let mut out: Vec<u8> = vec![];
        let mut model: Vec<bool> = vec![];
        {
            let mut w = IoBitWriter::new(&mut out, BitOrder::MsbFirst);
            for o in ops {
                match o {
                    Op::Bit(b) => { w.write(to_bit(*b)).map_err(|e| format!("{:?}", e))?; model.push(*b); }
                    Op::Byte(n) => { w.write_byte(*n).map_err(|e| format!("{:?}", e))?; model.extend(msb(*n)); }
                    Op::Arr(a) => {
                        let bits: Vec<Bit> = a.iter().map(|b| to_bit(*b)).collect();
                        let arr = BitArray::from_slice(&bits, BitOrder::MsbFirst);
                        if arr.len() != a.len() { return Err(format!("packed array of {} bits reports length {}", a.len(), arr.len())); }
                        w.write_arr(&arr).map_err(|e| format!("{:?}", e))?; model.extend(a);
                    }
                    Op::Flush => { w.pad_and_flush().map_err(|e| format!("{:?}", e))?; while model.len() % 8 != 0 { model.push(false); } }
                }
            }
            w.pad_and_flush().map_err(|e| format!("{:?}", e))?;
        }
        while model.len() % 8 != 0 { model.push(false); }
        if out != pack(&model) { return Err(format!("wrote {:02x?}, expected {:02x?}", out, pack(&model))); }
        let back: Vec<bool> = bit_reader(out.into_iter(), BitOrder::MsbFirst).map(|b| b == Bit::One).collect();
        if back != model { return Err("bits read back differ from the bits written".into()); }
        Ok(())
    }
    j.add("writer: every offset x every byte", |c| {
        for off in 0..8usize { for n in 0..=255u8 {
            for lead in [0x00u8, 0xff, 0xa5] {
                let mut ops: Vec<Op> = msb(lead)[..off].iter().map(|b| Op::Bit(*b)).collect();
                ops.push(Op::Byte(n)); ops.push(Op::Byte(!n)); ops.push(Op::Bit(true));
                c.case(&format!("offset {} byte {} lead {}", off, n, lead), &[off as u8, n, lead], true, || run_ops(&ops));
            }
        }}
    });
    j.add("writer: every array up to 11 bits x offset", |c| {
        for off in 0..8usize { for len in 0..=11usize { for k in 0..(1usize << len) {
            let mut ops: Vec<Op> = msb(0xb6)[..off].iter().map(|b| Op::Bit(*b)).collect();
            ops.push(Op::Arr((0..len).map(|i| (k >> i) & 1 == 1).collect()));
            ops.push(Op::Bit(true)); ops.push(Op::Arr(vec![false, true, true]));
            c.case(&format!("offset {} len {} #{}", off, len, k), &[off as u8, len as u8, k as u8, (k >> 8) as u8], true, || run_ops(&ops));
        }}}
    });
    for part in 0..4u64 {
        j.add(&format!("writer: random operations {}", part), |c| {
            for i in 0..(if c.thorough { 60_000 } else { 4_000 }) {
                if c.expired() { return; }
                let n = c.rng.range(0, 30);
                let mut ops = vec![];
                for _ in 0..n {
                    ops.push(match c.rng.below(8) {
                        0 | 1 | 2 => Op::Bit(c.rng.below(2) == 1),
                        3 | 4 => Op::Byte(c.rng.byte()),
                        5 | 6 => { let l = c.rng.range(0, 70); Op::Arr((0..l).map(|_| c.rng.below(2) == 1).collect()) }
                        _ => Op::Flush,
                    });
                }
                c.case(&format!("#{} {:?}", i, ops), &[], true, || run_ops(&ops));
            }
        });
    }
    j.add("reader and packing", |c| {
        for n in 0..=255u8 {
            c.case(&format!("byte {}", n), &[n], true, || {
                let v: Vec<bool> = bit_reader(vec![n, !n].into_iter(), BitOrder::MsbFirst).map(|b| b == Bit::One).collect();
                let mut e = msb(n); e.extend(msb(!n));
                if v != e { return Err(format!("read {:?}", v)); }
                Ok(())
            });
        }
        for len in [16usize, 17, 63, 64, 65, 128, 1000] {
            let a: Vec<bool> = (0..len).map(|_| c.rng.below(2) == 1).collect();
            let ops = vec![Op::Bit(true), Op::Arr(a.clone()), Op::Arr(a.clone())];
            c.case(&format!("array of {}", len), &[len as u8], true, || run_ops(&ops));
        }
    });
}

/* ---------- functions on few values: every input ---------- */

fn jobs_finite(j: &mut Jobs) {
    fn bad<T: std::fmt::Debug, U: std::fmt::Debug>(what: String, got: T, want: U) -> Result<(), String> { Err(format!("{}: {:?}, expected {:?}", what, got, want)) }
    j.add("finite: bit", |c| {
        use crate::bit::{push_bit, nth, bit_array, bit_mask};
        c.case("Bit::byte and From", &[], true, || {
            if Bit::Zero.byte() != 0 || Bit::One.byte() != 1 || u8::from(&Bit::Zero) != 0 || u8::from(&Bit::One) != 1 { return Err("value of a bit".into()); }
            Ok(())
        });
        c.case("bit_mask", &[], true, || {
            for n in 0..=8u8 { let e = ((1u32 << n) - 1) as u8; if bit_mask(n) != e { return bad(format!("bit_mask({})", n), bit_mask(n), e); } }
            Ok(())
        });
        c.case("nth and bit_array", &[], true, || {
            for byte in 0..=255u8 { for bo in [BitOrder::MsbFirst, BitOrder::LsbFirst] {
                let arr = bit_array(byte, bo);
                for i in 0..8u8 {
                    let k = if bo == BitOrder::MsbFirst { 7 - i } else { i };
                    let e = if (byte >> k) % 2 == 1 { Bit::One } else { Bit::Zero };
                    if nth(byte, i, bo) != e { return bad(format!("nth({}, {}, {:?})", byte, i, bo), nth(byte, i, bo), e); }
                    if arr[i as usize] != e { return bad(format!("bit_array({}, {:?})[{}]", byte, bo, i), arr[i as usize], e); }
                }
            }}
            Ok(())
        });
        c.case("push_bit", &[], true, || {
            for byte in 0..=255u8 { for bo in [BitOrder::MsbFirst, BitOrder::LsbFirst] { for b in [Bit::Zero, Bit::One] {
                let one = b == Bit::One;
                let mut n = byte;
                push_bit(&mut n, b, bo);
                let e = if bo == BitOrder::MsbFirst { (byte as u16 * 2) as u8 + one as u8 } else { byte / 2 + if one { 128 } else { 0 } };
                if n != e { return bad(format!("push_bit({}, {:?}, {:?})", byte, b, bo), n, e); }
            }}}
            Ok(())
        });
    });
    /* the writer in every state it can be in (the last eight bits and how many of them wait), each operation, on a
       sink that takes everything and on one that takes nothing more */
    j.add("finite: bit writer", |c| {
        struct Sink { out: Arc<Mutex<(Vec<u8>, usize, bool, bool)>> } // bytes, flushes, writes refused, flushes refused
        impl Write for Sink {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                let mut o = self.out.lock().unwrap();
                if o.2 { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
                o.0.extend_from_slice(b); Ok(b.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                let mut o = self.out.lock().unwrap();
                o.1 += 1;
                if o.3 { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
                Ok(())
            }
        }
        fn to_bit(b: bool) -> Bit { if b { Bit::One } else { Bit::Zero } }
        fn pack(bits: &[bool], msb: bool) -> Vec<u8> {
            bits.chunks(8).map(|ch| { let mut b = 0u8; for (i, x) in ch.iter().enumerate() { if *x { b |= if msb { 0x80 >> i } else { 1 << i }; } } b }).collect()
        }
        for bo in [BitOrder::MsbFirst, BitOrder::LsbFirst] {
            let msb = bo == BitOrder::MsbFirst;
            for count in 0..8usize { for hist in 0..=255u8 {
                c.case(&format!("{:?}, {} bits waiting, last eight {:08b}", bo, count, hist), &[count as u8, hist, msb as u8], true, || {
                    // op: 0, 1 a bit; 2 pad; 3 + n a byte
                    for op in 0..259usize {
                        if op >= 3 && !msb && count != 0 { continue; } // not supported in this order
                        if op == 2 && !msb && count != 0 { continue; }
                        for refuse in 0..3 {
                            if refuse == 2 && op != 2 { continue; }
                            let shared = Arc::new(Mutex::new((vec![], 0, false, false)));
                            let mut w = IoBitWriter::new(Sink { out: shared.clone() }, bo);
                            let mut model: Vec<bool> = (0..count).map(|i| i % 2 == 0).collect();
                            for b in &model { w.write(to_bit(*b)).map_err(|e| format!("{:?}", e))?; }
                            for k in (0..8).rev() { let b = (hist >> k) & 1 == 1; model.push(b); w.write(to_bit(b)).map_err(|e| format!("{:?}", e))?; }
                            let before = shared.lock().unwrap().0.len();
                            if before != model.len() / 8 { return Err(format!("{} bytes written for {} bits", before, model.len())); }
                            match refuse { 1 => shared.lock().unwrap().2 = true, 2 => shared.lock().unwrap().3 = true, _ => {} }
                            let r = match op {
                                0 | 1 => { model.push(op == 1); w.write(to_bit(op == 1)) }
                                2 => { while model.len() % 8 != 0 { model.push(false); } w.pad_and_flush() }
                                _ => { let n = (op - 3) as u8; for i in 0..8 { model.push(if msb { (n >> (7 - i)) & 1 == 1 } else { (n >> i) & 1 == 1 }); } w.write_byte(n) }
                            };
                            let writes = model.len() / 8 > before;
                            let want_err = (refuse == 1 && writes) || refuse == 2;
                            if r.is_err() != want_err { return Err(format!("operation {} with a sink that {}: {:?}", op, ["takes everything", "refuses to write", "refuses to flush"][refuse], r.is_err())); }
                            if refuse != 0 { continue; }
                            let flushes = shared.lock().unwrap().1;
                            if op == 2 && flushes == 0 { return Err("padding did not flush".into()); }
                            { let o = shared.lock().unwrap(); if o.0 != pack(&model[..model.len() / 8 * 8], msb) { return Err(format!("operation {}: {:02x?} written", op, o.0)); } }
                            // what still waits comes out with the bits that follow
                            if op < 3 || op % 16 == 5 {
                                while model.len() % 8 != 0 { model.push(true); w.write(Bit::One).map_err(|e| format!("{:?}", e))?; }
                                let o = shared.lock().unwrap();
                                if o.0 != pack(&model, msb) { return Err(format!("operation {}, filled up: {:02x?} written", op, o.0)); }
                            } else if msb {
                                while model.len() % 8 != 0 { model.push(false); }
                                w.pad_and_flush().map_err(|e| format!("{:?}", e))?;
                                let o = shared.lock().unwrap();
                                if o.0 != pack(&model, msb) { return Err(format!("operation {}, padded: {:02x?} written", op, o.0)); }
                            }
                        }
                    }
                    Ok(())
                });
            }}
        }
    });
    j.add("finite: ser", |c| {
        struct Full;
        impl Write for Full {
            fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::Error::new(io::ErrorKind::Other, "full")) }
            fn flush(&mut self) -> io::Result<()> { Ok(()) }
        }
        fn both<T: Serialize + Deserialize + PartialEq + Copy + std::fmt::Debug>(x: T, e: &[u8]) -> Result<(), String> {
            let mut v = vec![0x77u8];
            x.serialize(&mut v).map_err(|e| format!("{:?}", e))?;
            if v[0] != 0x77 || v[1..] != *e { return bad(format!("{:?} written", x), &v[1..], e); }
            if x.serialize(&mut Full).is_ok() { return Err(format!("{:?} written into a full sink", x)); }
            let mut st = e.iter().cloned().chain(std::iter::once(0x99));
            let y = T::deserialize(&mut st);
            if y != Some(x) { return bad(format!("{:02x?} read", e), y, x); }
            if st.next() != Some(0x99) { return Err(format!("reading {:?} takes another number of bytes", x)); }
            for k in 0..e.len() { if let Some(y) = T::deserialize(&mut e[..k].iter().cloned()) { return Err(format!("{:?} read from {:02x?}", y, &e[..k])); } }
            Ok(())
        }
        c.case("u8, char", &[], true, || {
            for n in 0..=255u8 { both::<u8>(n, &[n])?; both::<char>(n as char, &[n])?; }
            for n in 256..=0x10ffffu32 { if let Some(ch) = char::from_u32(n) {
                let mut v = vec![];
                if ch.serialize(&mut v).is_ok() { return Err(format!("{:?} written", ch)); }
                if !v.is_empty() { return Err(format!("{:?} refused after {:02x?}", ch, v)); }
            }}
            Ok(())
        });
        c.case("u16", &[], true, || { for n in 0..=65535u16 { both::<u16>(n, &[(n % 256) as u8, (n / 256) as u8])?; } Ok(()) });
        c.case("i16", &[], true, || { for n in 0..=65535u16 { both::<i16>(n as i16, &[(n % 256) as u8, (n / 256) as u8])?; } Ok(()) });
    });
}

/* ---------- C08 serialization ---------- */

fn jobs_ser(j: &mut Jobs) {
    fn check<S: Serialize, T: Deserialize>(x: &S, expect: &[u8], same: impl Fn(&T) -> bool) -> Result<(), String> {
        let mut v = vec![];
        x.serialize(&mut v).map_err(|e| format!("{:?}", e))?;
        if v != expect { return Err(format!("wrote {:02x?}, expected {:02x?}", v, expect)); }
        let tail = [0xEEu8, 0x01, 0x7f];
        let mut st = v.iter().cloned().chain(tail.iter().cloned());
        match T::deserialize(&mut st) {
            Some(y) => if !same(&y) { return Err("value read back differs".into()); },
            None => return Err("value does not read back".into()),
        }
        let rest: Vec<u8> = st.collect();
        if rest != tail { return Err(format!("reading consumed the wrong number of bytes; left {:02x?}", rest)); }
        // every proper prefix is refused
        for k in 0..v.len().min(40) {
            let r = catch_unwind(AssertUnwindSafe(|| T::deserialize(&mut v[..k].iter().cloned()).is_some()));
            match r { Ok(false) => {}, Ok(true) => return Err(format!("a value was read from the first {} of {} bytes", k, v.len())), Err(e) => return Err(format!("panic on a {} byte prefix: {}", k, msg_of(e))) }
        }
        // the stream adapter produces the same bytes
        Ok(())
    }
    fn le(mut n: u128, k: usize) -> Vec<u8> { let mut v = vec![]; for _ in 0..k { v.push(n as u8); n >>= 8; } v }
    j.add("u8 all", |c| for n in 0..=255u8 { c.case(&format!("{}", n), &[n], true, || check::<_, u8>(&n, &[n], |y| *y == n)); });
    j.add("u16/i16 all", |c| {
        for n in 0..=65535u16 {
            c.case(&format!("{}", n), &n.to_le_bytes(), true, || {
                check::<_, u16>(&n, &[(n & 255) as u8, (n >> 8) as u8], |y| *y == n)?;
                let m = n as i16;
                check::<_, i16>(&m, &[(n & 255) as u8, (n >> 8) as u8], |y| *y == m)
            });
        }
    });
    j.add("u32 u64 usize", |c| {
        let mut vals: Vec<u64> = vec![0, 1, u64::MAX];
        for s in 0..64 { vals.push(1u64 << s); vals.push((1u64 << s).wrapping_sub(1)); vals.push(0x5au64 << (s % 57)); }
        for _ in 0..(if c.thorough { 100_000 } else { 3000 }) { vals.push(c.rng.next()); }
        for n in vals { c.case(&format!("{}", n), &n.to_le_bytes(), true, || {
            check::<_, u64>(&n, &le(n as u128, 8), |y| *y == n)?;
            check::<_, usize>(&(n as usize), &le(n as u128, 8), |y| *y == n as usize)?;
            let m = n as u32; check::<_, u32>(&m, &le(m as u128, 4), |y| *y == m)?;
            let m2 = (n >> 32) as u32; check::<_, u32>(&m2, &le(m2 as u128, 4), |y| *y == m2)
        }); }
    });
    j.add("char", |c| {
        for n in 0..=127u8 { let ch = n as char; c.case(&format!("{:?}", ch), &[n], true, || check::<_, char>(&ch, &[n], |y| *y == ch)); }
        for ch in ['\u{100}', '\u{20AC}', '\u{1F600}', '\u{141}'] {
            c.case(&format!("{:?}", ch), &[], true, || {
                let mut v = vec![];
                match ch.serialize(&mut v) { Err(_) if v.is_empty() => Ok(()), Err(_) => Err("bytes written for an unsupported character".into()), Ok(()) => Err(format!("an unsupported character was written as {:02x?}", v)) }
            });
        }
    });
    j.add("sequences, tuples, arrays, colours", |c| {
        for i in 0..(if c.thorough { 20_000 } else { 1500 }) {
            if c.expired() { return; }
            let n = match c.rng.below(5) { 0 => c.rng.range(250, 260), 1 => 0, 2 => c.rng.range(1000, 1030), _ => c.rng.range(0, 40) } as usize;
            let v: Vec<u8> = (0..n).map(|_| c.rng.byte()).collect();
            let mut e = le(n as u128, 8); e.extend_from_slice(&v);
            c.case(&format!("bytes #{} len {}", i, n), &v, true, || check::<&[u8], Vec<u8>>(&&v[..], &e, |y| *y == v));
            let w: Vec<(u16, u32)> = (0..n.min(50)).map(|_| (c.rng.next() as u16, c.rng.next() as u32)).collect();
            let mut e = le(w.len() as u128, 8); for (a, b) in &w { e.extend(le(*a as u128, 2)); e.extend(le(*b as u128, 4)); }
            c.case(&format!("pairs #{} len {}", i, w.len()), &e, true, || check::<&[(u16, u32)], Vec<(u16, u32)>>(&&w[..], &e, |y| *y == w));
            let a: [i16; 3] = [c.rng.next() as i16, c.rng.next() as i16, c.rng.next() as i16];
            let mut e = vec![]; for x in &a { e.extend_from_slice(&x.to_le_bytes()); }
            c.case(&format!("array #{}", i), &e, true, || check::<[i16; 3], [i16; 3]>(&a, &e, |y| *y == a));
            let a5: [u64; 5] = [c.rng.next(), 0, c.rng.next(), 1, c.rng.next()];
            let mut e = vec![]; for x in &a5 { e.extend_from_slice(&x.to_le_bytes()); }
            c.case(&format!("array5 #{}", i), &e, true, || check::<[u64; 5], [u64; 5]>(&a5, &e, |y| *y == a5));
            let p = Rgb([c.rng.byte(), c.rng.byte(), c.rng.byte()]);
            let mut e = le(3, 8); e.extend_from_slice(&p.0);
            c.case(&format!("rgb #{}", i), &e, true, || check::<Rgb<u8>, Rgb<u8>>(&p, &e, |y| *y == p));
            let nested: Vec<Vec<u8>> = (0..n.min(6)).map(|k| v[..k.min(v.len())].to_vec()).collect();
            let refs: Vec<&[u8]> = nested.iter().map(|x| &x[..]).collect();
            let mut e = le(nested.len() as u128, 8); for x in &nested { e.extend(le(x.len() as u128, 8)); e.extend_from_slice(x); }
            c.case(&format!("nested #{}", i), &e, true, || check::<&[&[u8]], Vec<Vec<u8>>>(&&refs[..], &e, |y| *y == nested));
        }
    });
    j.add("stream adapters", |c| {
        for i in 0..(if c.thorough { 10_000 } else { 800 }) {
            if c.expired() { return; }
            let n = c.rng.range(0, 40) as usize;
            let v: Vec<(u32, u16)> = (0..n).map(|_| (c.rng.next() as u32, c.rng.next() as u16)).collect();
            let b = bytes_of(&v);
            c.case(&format!("#{} len {}", i, n), &b, n > 0, || {
                let s: Vec<u8> = SerStream::from_iter(v.iter().cloned()).collect();
                diff(&b, &s)?;
                if n > 0 { let s: Vec<u8> = SerStream::from_value(v[0]).collect(); diff(&bytes_of(&v[..1]), &s)?; }
                let mut it = b.iter().cloned();
                let back: Vec<(u32, u16)> = crate::ser::deser_stream(&mut it).collect();
                if back != v { return Err("values read from the byte stream differ".into()); }
                Ok(())
            });
        }
    });
}

/* ---------- C09 Huffman code shape ---------- */

#[derive(Debug)]
struct CodeTable { codes: Vec<(Vec<u8>, Vec<bool>)>, used: usize, bytes: usize }

/// Own reader for the serialized code tree (0 = leaf + symbol, 1 = branch + two subtrees).
fn parse_tree(v: &[u8], symlen: usize) -> Result<CodeTable, String> {
    let mut t = CodeTable { codes: vec![], used: 0, bytes: 0 };
    let mut pos = 0usize;
    let mut stack: Vec<Vec<bool>> = vec![vec![]];
    while let Some(path) = stack.pop() {
        match v.get(pos) {
            Some(0) => {
                pos += 1;
                if pos + symlen > v.len() { return Err("tree is cut short".into()); }
                t.codes.push((v[pos..pos + symlen].to_vec(), path)); pos += symlen;
            }
            Some(1) => {
                pos += 1;
                let mut r = path.clone(); r.push(true); let mut l = path; l.push(false);
                stack.push(r); stack.push(l);
            }
            x => return Err(format!("bad tree node tag {:?}", x)),
        }
    }
    t.bytes = pos; t.used = t.codes.len();
    Ok(t)
}

fn optimal_cost(freqs: &[u64]) -> u64 {
    use std::collections::BinaryHeap; use std::cmp::Reverse;
    let mut h: BinaryHeap<Reverse<u64>> = freqs.iter().map(|f| Reverse(*f)).collect();
    let mut cost = 0;
    while h.len() > 1 { let a = h.pop().unwrap().0; let b = h.pop().unwrap().0; cost += a + b; h.push(Reverse(a + b)); }
    cost
}

fn check_code<T>(syms: &[T], symlen: usize) -> Result<(), String>
    where T: Eq + std::hash::Hash + Clone + Serialize
{
    let mut v = Vec::new();
    crate::huf::encode_all(|| syms.iter().cloned(), &mut v).map_err(|e| format!("{:?}", e))?;
    let t = parse_tree(&v, symlen)?;
    let mut freq: HashMap<Vec<u8>, u64> = HashMap::new();
    for s in syms { *freq.entry(bytes_of(std::slice::from_ref(s))).or_insert(0) += 1; }
    if t.codes.len() != freq.len() { return Err(format!("{} codes for {} distinct symbols", t.codes.len(), freq.len())); }
    let mut by: HashMap<Vec<u8>, Vec<bool>> = HashMap::new();
    for (s, c) in &t.codes {
        if !freq.contains_key(s) { return Err(format!("a code is assigned to {:02x?}, which does not occur", s)); }
        if by.insert(s.clone(), c.clone()).is_some() { return Err(format!("symbol {:02x?} has two codes", s)); }
    }
    let mut all: Vec<&Vec<bool>> = by.values().collect();
    all.sort();
    for w in all.windows(2) { if w[1].starts_with(&w[0][..]) { return Err("one code is a prefix of another".into()); } }
    let cost: u64 = by.iter().map(|(s, c)| freq[s] * c.len() as u64).sum();
    let best = optimal_cost(&freq.values().cloned().collect::<Vec<_>>());
    if cost != best { return Err(format!("code uses {} bits, the minimum is {}", cost, best)); }
    // the payload is exactly the concatenation of the codes, zero padded
    let mut bits: Vec<bool> = vec![];
    for s in syms { bits.extend(&by[&bytes_of(std::slice::from_ref(s))]); }
    let mut e = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() { if *b { e[i / 8] |= 0x80 >> (i % 8); } }
    if v[t.bytes..] != e[..] { return Err("payload is not the concatenation of the symbols' codes".into()); }
    Ok(())
}

fn jobs_huffman_code(j: &mut Jobs) {
    j.add("exhaustive small frequency vectors", |c| {
        for n in 1..=4usize { for k in 0..6usize.pow(n as u32) {
            let mut t = k; let f: Vec<u64> = (0..n).map(|_| { let x = 1 + (t % 6) as u64; t /= 6; x }).collect();
            let s = with_freqs(&f, &mut c.rng);
            c.case(&format!("{:?}", f), &bytes_of(&s), n > 1, || check_code(&s, 2));
        }}
    });
    for part in 0..4 {
        j.add(&format!("frequency families {}", part), |c| {
            for round in 0..2 {
                let fams = freq_families(&mut c.rng, c.thorough);
                for (i, f) in fams.iter().enumerate() {
                    if c.expired() { return; }
                    let s = with_freqs(f, &mut c.rng);
                    c.case(&format!("round {} family {} ({} symbols, {} distinct)", round, i, s.len(), f.len()), &bytes_of(&s), s.len() > 1, || check_code(&s, 2));
                }
            }
        });
        j.add(&format!("powers and ties {}", part), |c| {
            for i in 0..(if c.thorough { 3000 } else { 200 }) {
                if c.expired() { return; }
                let n = c.rng.range(1, 14) as usize;
                let f: Vec<u64> = (0..n).map(|_| if c.rng.below(2) == 0 { 1u64 << c.rng.below(9) } else { c.rng.range(1, 5) }).collect();
                let s = with_freqs(&f, &mut c.rng);
                c.case(&format!("#{} {:?}", i, f), &bytes_of(&s), n > 1, || check_code(&s, 2));
            }
        });
    }
    j.add("large counts", |c| {
        // counts beyond 8, 16 and 17 bits decide the shape of the code
        let fs: [&[u64]; 8] = [&[65_535, 65_536, 1], &[70_000, 40_000, 35_000, 1], &[140_000, 66_000, 65_537, 70_000],
            &[255, 256, 257, 511, 1], &[32_768, 32_767, 65_537, 1, 1], &[90_000, 80_000, 9_000, 81_000, 2, 70_000], &[300_000, 1, 2, 200_000, 66_000], &[66_000; 5]];
        for f in fs {
            if c.expired() { return; }
            let s = with_freqs(f, &mut c.rng);
            c.case(&format!("{:?}", f), &bytes_of(&s[..2000.min(s.len())]), true, || check_code(&s, 2));
        }
        for i in 0..(if c.thorough { 200 } else { 10 }) {
            if c.expired() { return; }
            let n = c.rng.range(3, 8);
            let f: Vec<u64> = (0..n).map(|_| { let x = 1u64 << c.rng.below(18); x + c.rng.below(x.min(3) + 1) }).collect();
            let s = with_freqs(&f, &mut c.rng);
            c.case(&format!("#{} {:?}", i, f), &bytes_of(&s[..2000.min(s.len())]), true, || check_code(&s, 2));
        }
    });
    j.add("more symbols than 16 bits count", |c| {
        for n in [65_535usize, 65_536, 65_537, 80_000] {
            if c.expired() { return; }
            let s: Vec<u32> = (0..n as u32 + 7).map(|k| (k % n as u32).wrapping_mul(2_654_435_761)).collect();
            c.case(&format!("{} distinct symbols", n), &bytes_of(&s[..2000]), true, || check_code(&s, 4));
        }
    });
    j.add("image streams", |c| {
        for k in 0..NKINDS { for (w, h) in [(17u32, 23u32), (64, 64), (1, 50)] {
            let img = gen_image(w, h, k, &mut c.rng);
            c.case(&format!("{}x{} kind {}", w, h, k), &raw(&img), true, || {
                let v = encode(&codec("hufman")?, &img)?;
                header_ok(&v, &img)?;
                let px: Vec<Rgb<u8>> = img.pixels().map(|(_, _, p)| p.to_rgb()).collect();
                check_code(&px, 11)?;
                let t = parse_tree(&v[8..], 11)?;
                let mut freq: HashMap<Vec<u8>, u64> = HashMap::new();
                for s in &px { *freq.entry(bytes_of(&[*s])).or_insert(0) += 1; }
                let cost: u64 = t.codes.iter().map(|(s, c)| freq.get(s).cloned().unwrap_or(0) * c.len() as u64).sum();
                if v.len() as u64 != 8 + t.bytes as u64 + (cost + 7) / 8 { return Err("stream length is not header + tree + payload".into()); }
                Ok(())
            });
        }}
    });
}

/* ---------- C10 k-means ---------- */

#[derive(Debug, PartialEq)]
struct Pt { id: u64, x: i64, y: i64 }
impl crate::geom::Distance for Pt {
    fn dist(&self, o: &Self) -> f64 { (((self.x - o.x) * (self.x - o.x) + (self.y - o.y) * (self.y - o.y)) as f64).sqrt() }
}
impl crate::kmeans::Point for Pt {
    fn mean(p: &[Self]) -> Option<Self> {
        if p.is_empty() { return None; }
        let n = p.len() as i64;
        Some(Pt { id: u64::MAX, x: p.iter().map(|q| q.x).sum::<i64>() / n, y: p.iter().map(|q| q.y).sum::<i64>() / n })
    }
}

fn km_check(pts: &[(i64, i64)], n: usize) -> Result<(), String> {
    let data: Vec<Pt> = pts.iter().enumerate().map(|(i, p)| Pt { id: i as u64, x: p.0, y: p.1 }).collect();
    let clusters = crate::kmeans::cluster(data, n);
    let mut seen = vec![0u32; pts.len()];
    let mut count = 0;
    for (_c, ps) in clusters.into_iter() {
        count += 1;
        if ps.is_empty() { return Err("an empty cluster".into()); }
        for p in ps {
            if p.id as usize >= pts.len() { return Err("an invented point appears in a cluster".into()); }
            if (p.x, p.y) != pts[p.id as usize] { return Err(format!("point {} was altered", p.id)); }
            seen[p.id as usize] += 1;
        }
    }
    if let Some(i) = seen.iter().position(|s| *s != 1) { return Err(format!("point {} appears {} times", i, seen[i])); }
    let want = n.min(pts.len());
    if count != want { return Err(format!("{} clusters returned, expected {}", count, want)); }
    Ok(())
}

fn gen_points(kind: u64, n: usize, rng: &mut Rng) -> Vec<(i64, i64)> {
    match kind {
        0 => (0..n).map(|_| (rng.range(0, 1000) as i64 - 500, rng.range(0, 1000) as i64 - 500)).collect(),
        1 => { let k = rng.range(1, 6); let ctr: Vec<(i64, i64)> = (0..k).map(|_| (rng.range(0, 4000) as i64, rng.range(0, 4000) as i64)).collect();
               (0..n).map(|_| { let c = ctr[rng.below(k) as usize]; (c.0 + rng.range(0, 30) as i64, c.1 + rng.range(0, 30) as i64) }).collect() }
        2 => (0..n).map(|i| (i as i64 * 3, 0)).collect(),
        3 => (0..n).map(|i| ((i % 7) as i64, (i / 7) as i64)).collect(),
        4 => (0..n).map(|_| (rng.range(0, 3) as i64, rng.range(0, 3) as i64)).collect(),
        5 => (0..n).map(|i| (if i % 2 == 0 { 0 } else { 10_000 } + (i as i64) / 2, 0)).collect(),
        _ => (0..n).map(|i| { let k = (i * 7919) % 4096; ((k % 64) as i64, (k / 64) as i64) }).collect(),
    }
}

fn jobs_kmeans(j: &mut Jobs) {
    j.add("small grids", |c| {
        for npts in 1..=7usize { for n in 1..=npts + 2 { for kind in [0u64, 2, 3, 5] { for r in 0..3 {
            let p = gen_points(kind, npts, &mut c.rng);
            let mut b = vec![n as u8]; for q in &p { b.extend_from_slice(&q.0.to_le_bytes()); b.extend_from_slice(&q.1.to_le_bytes()); }
            c.case(&format!("{} points into {} clusters kind {} #{} {:?}", npts, n, kind, r, p), &b, npts > 1, || km_check(&p, n));
        }}}}
    });
    for part in 0..6 {
        j.add(&format!("random {}", part), |c| {
            let rounds = if c.thorough { 1500 } else { 90 };
            for i in 0..rounds {
                if c.expired() { return; }
                let top = if c.rng.below(6) == 0 { 1500 } else { 150 }; let npts = c.rng.range(1, top) as usize;
                let n = match c.rng.below(4) { 0 => npts, 1 => 1, 2 => c.rng.range(1, npts as u64) as usize, _ => c.rng.range(1, 12) as usize };
                let kind = c.rng.below(7);
                let p = gen_points(kind, npts, &mut c.rng);
                let mut b = vec![]; for q in &p { b.extend_from_slice(&q.0.to_le_bytes()); b.extend_from_slice(&q.1.to_le_bytes()); }
                c.case(&format!("#{} {} points into {} clusters kind {}", i, npts, n, kind), &b, npts > 1 && n > 1, || km_check(&p, n));
            }
        });
    }
}

/* ---------- C11 cluster-colors ---------- */

fn cc_check(img: &DynamicImage, n: usize) -> Result<(), String> {
    let c = codec(&format!("cluster-colors({})", n))?;
    let v = encode(&c, img)?;
    header_ok(&v, img)?;
    let d = c.decode(&mut v.into_iter()).ok_or("decoding the codec's own output failed")?;
    if d.dimensions() != img.dimensions() { return Err("dimensions changed".into()); }
    let mut map: HashMap<[u8; 3], [u8; 3]> = HashMap::new();
    let mut cols: HashSet<[u8; 3]> = HashSet::new();
    for ((_, _, a), (_, _, b)) in img.pixels().zip(d.pixels()) {
        let (a, b) = (a.to_rgb().0, b.to_rgb().0);
        cols.insert(b);
        if let Some(o) = map.insert(a, b) { if o != b { return Err(format!("colour {:?} became both {:?} and {:?}", a, o, b)); } }
    }
    if cols.len() > n { return Err(format!("{} colours in the result, {} allowed", cols.len(), n)); }
    // each channel of a centroid is a mean of the channel values of the image
    for ch in 0..3 {
        let lo = map.keys().map(|c| c[ch]).min().unwrap(); let hi = map.keys().map(|c| c[ch]).max().unwrap();
        for o in &cols { if o[ch] < lo || o[ch] > hi { return Err(format!("colour {:?} lies outside the range of the image", o)); } }
    }
    if n == 1 {
        // one cluster: the weighted mean of all pixels
        let tot = img.pixels().count() as u64; let mut s = [0u64; 3];
        for (_, _, p) in img.pixels() { for q in 0..3 { s[q] += p.to_rgb().0[q] as u64; } }
        let o = cols.iter().next().unwrap();
        for q in 0..3 { if (o[q] as f64 - s[q] as f64 / tot as f64).abs() > 1.0 { return Err(format!("single colour {:?} is not the mean of the pixels", o)); } }
    }
    Ok(())
}

fn jobs_cluster_colors(j: &mut Jobs) {
    j.add("tiny", |c| {
        for w in 1..=4u32 { for h in 1..=4u32 { for n in [1usize, 2, 3, 5, 16, 300] { for k in [0u64, 1, 2, 4] {
            let img = gen_image(w, h, k, &mut c.rng);
            c.case(&format!("{}x{} kind {} n {}", w, h, k, n), &raw(&img), true, || cc_check(&img, n));
        }}}}
    });
    for (w, h) in [(257u32, 256u32), (300, 300), (512, 257), (70_000, 1), (1, 66_000), (1100, 1000), (4200, 4100)] {
        j.add(&format!("few colours {}x{}", w, h), move |c| {
            // colours that occur more often than 16 bits can count
            for (i, share) in [(0u32, 1u32), (1, 2), (2, 3), (3, 10), (4, 1000)] {
                if c.expired() || (w * h > 1 << 24 && i > 0 && !c.thorough) { return; }
                let a = [c.rng.byte(), c.rng.byte(), 255]; let b = [a[0] ^ 255, a[1] ^ 255, c.rng.byte()];
                let px: Vec<[u8; 3]> = (0..w * h).map(|q| if share > 1 && (q / 7) % share == 0 { b } else { a }).collect();
                let img = from_px(w, h, &px);
                for n in [1usize, 2, 3] {
                    if w * h > 1 << 24 && n > 1 { break; }
                    c.case(&format!("#{} {}x{} one in {} n {}", i, w, h, share, n), &raw(&img)[..4096], true, || cc_check(&img, n));
                }
            }
        });
    }
    for part in 0..7 {
        j.add(&format!("random {}", part), |c| {
            for i in 0..(if c.thorough { 2000 } else { 120 }) {
                if c.expired() { return; }
                let (w, h) = (c.rng.range(1, 50) as u32, c.rng.range(1, 50) as u32);
                let k = c.rng.below(NKINDS);
                let n = match c.rng.below(4) { 0 => 1, 1 => c.rng.range(2, 6), 2 => c.rng.range(6, 64), _ => c.rng.range(64, 300) } as usize;
                let img = gen_image(w, h, k, &mut c.rng);
                let img = reformat(&img, i);
                c.case(&format!("#{} {}x{} kind {} n {}", i, w, h, k, n), &raw(&img), w * h > 1, || cc_check(&img, n));
            }
        });
    }
}

/* ---------- C12 voronoi ---------- */

struct Cen { x: u32, y: u32, c: [u8; 3] }
fn vor_parse(v: &[u8]) -> Result<(u32, u32, Vec<Cen>), String> {
    if v.len() < 16 { return Err("stream too short".into()); }
    let u32a = |i: usize| u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
    let n = u64::from_le_bytes(v[8..16].try_into().unwrap());
    if (v.len() - 16) as u64 != n.wrapping_mul(19) { return Err(format!("header announces {} centroids but {} bytes follow", n, v.len() - 16)); }
    let mut r = vec![];
    for k in 0..n as usize {
        let o = 16 + 19 * k;
        if v[o + 8..o + 16] != [3, 0, 0, 0, 0, 0, 0, 0] { return Err("bad colour framing".into()); }
        r.push(Cen { x: u32a(o), y: u32a(o + 4), c: [v[o + 16], v[o + 17], v[o + 18]] });
    }
    Ok((u32a(0), u32a(4), r))
}

fn vor_decode_check(v: &[u8]) -> Result<(), String> {
    let (w, h, cs) = vor_parse(v)?;
    let d = codec("voronoi(4)")?.decode(&mut v.to_vec().into_iter()).ok_or("decoding failed")?;
    if d.dimensions() != (w, h) { return Err("decoded dimensions differ from the header".into()); }
    for (x, y, p) in d.pixels() {
        let dist = |c: &Cen| { let dx = (c.x as i128 - x as i128).abs(); let dy = (c.y as i128 - y as i128).abs(); dx * dx + dy * dy };
        let m = cs.iter().map(|c| dist(c)).min().unwrap();
        if !cs.iter().any(|c| dist(c) == m && c.c == p.to_rgb().0) { return Err(format!("pixel ({},{}) is {:?}, not the colour of a nearest centroid", x, y, p.to_rgb().0)); }
    }
    Ok(())
}

fn vor_check(img: &DynamicImage, n: usize) -> Result<(), String> {
    let c = codec(&format!("voronoi({})", n))?;
    let v = encode(&c, img)?;
    header_ok(&v, img)?;
    let (w, h, cs) = vor_parse(&v)?;
    if cs.len() != n.min((w * h) as usize) { return Err(format!("{} centroids for {} requested and {} pixels", cs.len(), n, w * h)); }
    let px: Vec<[u8; 3]> = img.pixels().map(|(_, _, p)| p.to_rgb().0).collect();
    let lo: Vec<u8> = (0..3).map(|q| px.iter().map(|p| p[q]).min().unwrap()).collect();
    let hi: Vec<u8> = (0..3).map(|q| px.iter().map(|p| p[q]).max().unwrap()).collect();
    for k in &cs {
        if k.x >= w || k.y >= h { return Err(format!("centroid ({},{}) outside the image", k.x, k.y)); }
        for q in 0..3 { if k.c[q] < lo[q] || k.c[q] > hi[q] { return Err(format!("the colour {:?} of a centroid lies outside the range of the image", k.c)); } }
    }
    vor_decode_check(&v)?;
    Ok(())
}

fn jobs_voronoi(j: &mut Jobs) {
    j.add("tiny", |c| {
        for w in 1..=4u32 { for h in 1..=4u32 { for n in [1usize, 2, 3, 5, 20] { for k in [0u64, 1, 3] {
            let img = gen_image(w, h, k, &mut c.rng);
            c.case(&format!("{}x{} kind {} n {}", w, h, k, n), &raw(&img), true, || vor_check(&img, n));
        }}}}
    });
    for part in 0..5 {
        j.add(&format!("random {}", part), |c| {
            for i in 0..(if c.thorough { 400 } else { 25 }) {
                if c.expired() { return; }
                let (w, h) = (c.rng.range(1, 30) as u32, c.rng.range(1, 30) as u32);
                let k = c.rng.below(NKINDS);
                let top = if c.rng.below(2) == 0 { 6 } else { 60 }; let n = c.rng.range(1, top) as usize;
                let img = gen_image(w, h, k, &mut c.rng);
                let img = reformat(&img, i);
                c.case(&format!("#{} {}x{} kind {} n {}", i, w, h, k, n), &raw(&img), w * h > 1, || vor_check(&img, n));
            }
        });
    }
    for (w, h) in [(257u32, 257u32), (300, 300), (70_000, 1), (1, 66_000), (140_000, 1), (1, 140_001), (2100, 2101)] {
        j.add(&format!("big regions {}x{}", w, h), move |c| {
            for (n, k) in [(1usize, 0u64), (1, 9), (1, 3), (2, 4), (3, 11)] {
                if c.expired() || (w * h > 1_000_000 && n > 1 && !c.thorough) { return; }
                let img = gen_image(w, h, k, &mut c.rng);
                c.case(&format!("{}x{} kind {} n {}", w, h, k, n), &raw(&img)[..4096], true, || vor_check(&img, n));
            }
        });
    }
    j.add("decode arbitrary centroids", |c| {
        for i in 0..(if c.thorough { 5000 } else { 500 }) {
            if c.expired() { return; }
            let (w, h) = (c.rng.range(1, 40) as u32, c.rng.range(1, 40) as u32);
            let n = c.rng.range(1, 20);
            let mut v = vec![]; v.extend_from_slice(&w.to_le_bytes()); v.extend_from_slice(&h.to_le_bytes()); v.extend_from_slice(&n.to_le_bytes());
            for _ in 0..n {
                let far = c.rng.below(8) == 0;
                let (x, y) = if far { (c.rng.range(0, 60_000) as u32, c.rng.range(0, 60_000) as u32) } else { (c.rng.range(0, w as u64) as u32, c.rng.range(0, h as u64) as u32) };
                v.extend_from_slice(&x.to_le_bytes()); v.extend_from_slice(&y.to_le_bytes());
                v.extend_from_slice(&3u64.to_le_bytes()); for _ in 0..3 { v.push(c.rng.byte()); }
            }
            c.case(&format!("#{} {}x{} {} centroids", i, w, h, n), &v, true, || vor_decode_check(&v));
        }
    });
    j.add("large images", |c| {
        for (w, h) in [(40_000u32, 1u32), (1, 70_000), (140_000, 1), (1, 140_000), (70_000, 3), (300, 200)] {
            let mut v = vec![]; v.extend_from_slice(&w.to_le_bytes()); v.extend_from_slice(&h.to_le_bytes()); v.extend_from_slice(&3u64.to_le_bytes());
            for (x, y) in [(0, 0), (w - 1, h - 1), (w / 3, h / 3)] {
                v.extend_from_slice(&x.to_le_bytes()); v.extend_from_slice(&y.to_le_bytes());
                v.extend_from_slice(&3u64.to_le_bytes()); for _ in 0..3 { v.push(c.rng.byte()); }
            }
            c.case(&format!("{}x{}", w, h), &v, true, || vor_decode_check(&v));
        }
    });
}

/* ---------- C13 traversal ---------- */

fn scan_check(w: usize, h: usize) -> Result<(), String> {
    let mut seen = vec![false; w * h]; let mut n = 0;
    let mut order = vec![];
    for (x, y) in crate::hilbert::iter(w, h) {
        if x >= w || y >= h { return Err(format!("({},{}) is outside the {}x{} image", x, y, w, h)); }
        if seen[y * w + x] { return Err(format!("({},{}) visited twice", x, y)); }
        seen[y * w + x] = true; n += 1; order.push((x, y));
    }
    if n != w * h { return Err(format!("{} of {} pixels visited", n, w * h)); }
    if w * h <= 20_000 {
        let img: RgbImage = ImageBuffer::from_fn(w as u32, h as u32, |x, y| { let k = y as usize * w + x as usize; Rgb([k as u8, (k >> 8) as u8, (k >> 16) as u8]) });
        let px: Vec<[u8; 3]> = crate::hilbert::linearize(&img).map(|p| p.0).collect();
        if px.len() != order.len() { return Err(format!("linearised {} of {} pixels", px.len(), order.len())); }
        for (i, (x, y)) in order.iter().enumerate() { if img.get_pixel(*x as u32, *y as u32).0 != px[i] { return Err(format!("item {} of the linearised image is not the pixel at ({},{})", i, x, y)); } }
        let big: Vec<[u8; 3]> = crate::hilbert::linearize_large(&img).map(|p| p.0).collect();
        let s: HashSet<[u8; 3]> = big.iter().cloned().collect();
        if big.len() != w * h || s.len() != w * h { return Err(format!("enclosing-square traversal yields {} pixels, {} distinct, of {}", big.len(), s.len(), w * h)); }
    }
    Ok(())
}

fn jobs_hilbert_scan(j: &mut Jobs) {
    for part in 0..4usize {
        j.add(&format!("all dims {}", part), move |c| {
            let m = if c.thorough { 90 } else { 44 };
            for w in 1..=m { for h in 1..=m { if (w + h) % 4 == part {
                if c.expired() { return; }
                c.case(&format!("{}x{}", w, h), &[], true, || scan_check(w, h));
            }}}
        });
    }
    j.add("thin and large", |c| {
        for n in [100usize, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65_535, 65_537] { for m in [1usize, 2, 3] {
            c.case(&format!("{}x{}", n, m), &[], true, || scan_check(n, m));
            c.case(&format!("{}x{}", m, n), &[], true, || scan_check(m, n));
        }}
        for _ in 0..(if c.thorough { 60 } else { 8 }) { if c.expired() { return; }
            let (w, h) = (c.rng.range(50, 900) as usize, c.rng.range(50, 900) as usize);
            c.case(&format!("{}x{}", w, h), &[], true, || scan_check(w, h)); }
    });
}

/* ---------- C14 argument parsing ---------- */

/// Reference: name '(' args ')' with balanced parentheses; arguments are the
/// non-empty comma separated pieces at depth one; `a()` has no arguments.
fn ref_call(s: &str) -> Option<(String, Vec<String>)> {
    let open = s.find('(')?;
    let name = &s[..open];
    if name.is_empty() || name.contains(')') || name.contains(',') || !s.ends_with(')') { return None; }
    let body = &s[open + 1..s.len() - 1];
    let mut depth = 0i64; let mut args = vec![]; let mut cur = String::new();
    for ch in body.chars() {
        match ch {
            '(' => { depth += 1; cur.push(ch); }
            ')' => { depth -= 1; if depth < 0 { return None; } cur.push(ch); }
            ',' if depth == 0 => { args.push(std::mem::take(&mut cur)); }
            c => cur.push(c),
        }
    }
    if depth != 0 { return None; }
    if body.is_empty() { return Some((name.into(), vec![])); }
    args.push(cur);
    if args.iter().any(|a| a.is_empty()) { return None; }
    Some((name.into(), args))
}

fn call_check(s: &str) -> Result<(), String> {
    let got = crate::prs::fun_call(s).map(|(n, a)| (n.to_string(), a.into_iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let want = ref_call(s);
    if got != want { return Err(format!("{:?} parsed as {:?}, expected {:?}", s.chars().take(200).collect::<String>(), got.map(|g| (g.0, g.1.len())), want.map(|g| (g.0, g.1.len())))); }
    Ok(())
}

/// Reference acceptor for complete codec arguments; gives the codec's reported name.
fn ref_codec(s: &str) -> Option<String> {
    fn num(s: &str, pre: &[&str]) -> Option<usize> {
        for p in pre { if let Some(r) = s.strip_prefix(p) { if let Some(d) = r.strip_suffix(')') {
            if !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) { return d.parse().ok(); } } } }
        None
    }
    if let Some(n) = num(s, &["ccol(", "c-col(", "ccolors(", "c-colors(", "clustercol(", "cluster-col(", "clustercolors(", "cluster-colors("]) { if n > 0 { return Some(format!("cluster-colors_{}", n)); } }
    if let Some(n) = num(s, &["voronoi("]) { if n > 0 { return Some(format!("voronoi_{}", n)); } }
    if s == "delta" { return Some("delta".into()); }
    if s.eq_ignore_ascii_case("hufman") { return Some("Hufman".into()); }
    if s == "zip(dict)" { return Some("zip-dict".into()); }
    if s == "zip(back)" { return Some("zip-back".into()); }
    for h in ["hilbert(", "Hilbert("] { if let Some(r) = s.strip_prefix(h).and_then(|r| r.strip_suffix(')')) {
        if r == "rle" { return Some("hilbert-rle".into()); }
        if r == "zip" { return Some("hilbert-zip".into()); }
        if let Some(d) = r.strip_prefix("rle(").and_then(|r| r.strip_suffix(')')) {
            if let Ok(f) = d.parse::<f64>() { return Some(if f == 0.0 { "hilbert-rle".into() } else { format!("hilbert-rle-approx_{}", f) }); }
        }
    }}
    None
}

fn codec_check(s: &str) -> Result<(), String> {
    let got = AnyCodec::from_str(s).ok().map(|c| c.name());
    let want = ref_codec(s);
    if got != want { return Err(format!("codec argument {:?} gives {:?}, expected {:?}", s, got, want)); }
    Ok(())
}

fn jobs_parse(j: &mut Jobs) {
    j.add("calls: exhaustive", |c| {
        let al = ["a", "(", ")", ","];
        for n in 0..=8usize { for k in 0..4usize.pow(n as u32) {
            let mut t = k; let mut s = String::new(); for _ in 0..n { s.push_str(al[t % 4]); t /= 4; }
            c.case(&s.clone(), s.as_bytes(), n > 2, || call_check(&s));
        }}
    });
    j.add("calls: non-ASCII exhaustive", |c| {
        let al = ["é", "(", ")", ",", "b", "語"];
        for n in 0..=5usize { for k in 0..6usize.pow(n as u32) {
            let mut t = k; let mut s = String::new(); for _ in 0..n { s.push_str(al[t % 6]); t /= 6; }
            c.case(&s.clone(), s.as_bytes(), n > 2, || call_check(&s));
        }}
    });
    for part in 0..3 {
        j.add(&format!("calls: random {}", part), |c| {
            let al = ["a", "b1", "(", ")", ",", "(", ")", " ", "é", "😀", "-", ".5", "rle", "\n"];
            for i in 0..(if c.thorough { 100_000 } else { 8_000 }) {
                if c.expired() { return; }
                let mut s = String::new();
                if c.rng.below(2) == 0 {
                    for _ in 0..c.rng.range(0, 24) { s.push_str(al[c.rng.below(al.len() as u64) as usize]); }
                } else {
                    fn term(r: &mut Rng, d: u32, s: &mut String) {
                        let w = ["foo", "x", "é語", "r2d2", "a b"][r.below(5) as usize]; s.push_str(w);
                        if d > 0 && r.below(3) > 0 { s.push('('); let n = r.below(4); for k in 0..n { if k > 0 { s.push(','); } term(r, d - 1, s); } s.push(')'); }
                    }
                    term(&mut c.rng, 5, &mut s);
                }
                c.case(&format!("#{} {}", i, s), s.as_bytes(), s.contains('('), || call_check(&s));
            }
        });
    }
    for part in 0..2u32 {
        j.add(&format!("calls: every character {}", part), move |c| {
            // 64 neighbours at a time: in a name, in an argument, in a nested one
            for k in 0..0x11_0000u32 / 64 {
                if k % 2 != part { continue; }
                if c.expired() { return; }
                let w: String = (k * 64..k * 64 + 64).filter_map(char::from_u32).filter(|c| !"(),".contains(*c)).collect();
                if w.is_empty() { continue; }
                let s = format!("{}({}({}),{}x,y)", w, w, w, w);
                c.case(&format!("characters from U+{:04X}", k * 64), s.as_bytes(), true, || call_check(&s));
            }
        });
    }
    j.add("calls: deep nesting", |c| {
        for d in [10usize, 254, 255, 256, 1000, 65_534, 65_535, 65_536, 70_000, 140_000] {
            let s = format!("f{}x{}", "(a".repeat(d), ")".repeat(d));
            c.case(&format!("balanced depth {}", d), &[], true, || call_check(&s));
            let s2 = "f(".to_string() + &"(".repeat(d);
            c.case(&format!("unbalanced depth {}", d), &[], true, || call_check(&s2));
            let s3 = format!("f({}a)", "a,".repeat(d));
            c.case(&format!("{} arguments", d + 1), &[], true, || call_check(&s3));
        }
    });
    j.add("codec arguments", |c| {
        let good = ["hufman", "Hufman", "HUFMAN", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "Hilbert(rle)", "hilbert(zip)", "Hilbert(zip)", "hilbert(rle(0))",
            "hilbert(rle(0.0))", "hilbert(rle(1))", "hilbert(rle(2.5))", "hilbert(rle(16))", "hilbert(rle(1e3))", "ccol(4)", "cluster-colors(16)", "clustercol(3)", "c-colors(256)", "cluster-col(7)", "ccolors(9)", "c-col(1)", "voronoi(1)", "voronoi(64)", "voronoi(2048)"];
        let bad = ["", "(", ")", "hufmann", "huf", "delta()", "delta(1)", "Delta", "zip", "zip()", "zip(dict,back)", "zip(dictt)", "zip(Dict)", "hilbert", "hilbert()", "hilbert(rle,zip)",
            "hilbert(rle())", "hilbert(rle(1,2))", "hilbert(rle(x))", "hilbert(foo)", "hilbert(zip(1))", "hilbert(zip())", "ccol()", "ccol", "ccol(x)", "ccol(-1)", "ccol(1.5)", "voronoi", "voronoi()", "voronoi(a)",
            "hilbert(voronoi(3))", "zip(ccol(4))", "xccol(4)", "ccol(4)x", "voronoi(3)y", " voronoi(3)", "myvoronoi(3)", "foo(voronoi(3),1)", "ccol(99999999999999999999999)", "é", "é(1)", "hilbert(é)", "hilbert(rle(é))", "voronoi(é)", "ｖoronoi(3)", "hufman\n", "delta\n", "zip(dict)\n", "voronoi(3)\n",
            "hilbert(rle))", "hilbert((rle)", "ccol(0)", "voronoi(0)", "voronoi(00)"];
        for s in good.iter().chain(bad.iter()) { c.case(s, s.as_bytes(), true, || codec_check(s)); }
        // numbers at the ends of the integer types
        for n in ["127", "128", "255", "256", "257", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807",
            "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103233", "007", "0000000000000000000000000000000000000001"] {
            for f in ["ccol", "cluster-colors", "voronoi", "delta", "hilbert", "hufman"] { let s = format!("{}({})", f, n); c.case(&s, s.as_bytes(), true, || codec_check(&s)); }
        }
        for d in ["0.1", "1e-300", "1e300", "1e400", "4.9e-324", "16777217", "0.30000000000000004", "9007199254740993", "-0", "-0.0", "-1", "inf", "-inf", "nan", "NaN", "infinity", "+1", "1.", ".5", "1e", "1_0", "0x1", " 1", "1 ", "1f64"] {
            let s = format!("hilbert(rle({}))", d); c.case(&s, s.as_bytes(), true, || codec_check(&s));
        }
        // mutations of the good ones
        for i in 0..(if c.thorough { 50_000 } else { 4000 }) {
            if c.expired() { return; }
            let mut s: Vec<char> = good[c.rng.below(good.len() as u64) as usize].chars().collect();
            for _ in 0..c.rng.range(1, 3) {
                let p = c.rng.below(s.len() as u64 + 1) as usize;
                let ch = ['(', ')', ',', 'a', 'é', '1', '0', 'e', ' ', '-'][c.rng.below(10) as usize];
                match c.rng.below(3) { 0 => s.insert(p, ch), 1 if p < s.len() => { s.remove(p); } _ if p < s.len() => s[p] = ch, _ => {} }
            }
            let s: String = s.into_iter().collect();
            c.case(&format!("#{} {}", i, s), s.as_bytes(), true, || codec_check(&s));
        }
    });
}

/// the facts that contracts/text.rs assumes about the patterns, against the regex crate
fn pattern_fact(pat: &str, words: &[&str], numbered: bool, s: &str) -> Result<(), String> {
    let want: Option<Vec<String>> = if numbered {
        words.iter().find_map(|w| s.strip_prefix(w).and_then(|r| r.strip_prefix('(')).and_then(|r| r.strip_suffix(')'))
            .filter(|d| !d.is_empty() && d.chars().all(|c| if c.is_ascii() { c.is_ascii_digit() } else { regex::Regex::new(r"^\d$").unwrap().is_match(&c.to_string()) }))
            .map(|d| vec![s.to_string(), d.to_string()]))
    } else if words.contains(&s) { Some(vec![s.to_string()]) } else { None };
    let got = regex::Regex::new(pat).map_err(|e| e.to_string())?.captures(s)
        .map(|c| c.iter().map(|m| m.map(|m| m.as_str().to_string()).unwrap_or("-".into())).collect::<Vec<_>>());
    if got != want { return Err(format!("assumed of the pattern {}: {:?} gives {:?}, the regex crate says {:?}", pat, s, want, got)); }
    Ok(())
}

fn jobs_patterns(j: &mut Jobs) {
    j.add("assumed patterns", |c| {
        let cc = ["ccol", "c-col", "ccolors", "c-colors", "clustercol", "cluster-col", "clustercolors", "cluster-colors"];
        let pats: [(&str, &[&str], bool); 9] = [(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$", &cc, true), (r"^voronoi\((\d+)\)$", &["voronoi"], true),
            ("^[Hh]ilbert$", &["hilbert", "Hilbert"], false), ("^rle$", &["rle"], false), ("^zip$", &["zip"], false),
            ("^delta$", &["delta"], false), ("^hufman$", &["hufman"], false), ("^dict$", &["dict"], false), ("^back$", &["back"], false)];
        let bits = ["c", "luster", "-", "col", "ors", "(", ")", "1", "07", "\u{663}", "\u{ff11}", "voronoi", "\n", "hilbert", "Hilbert", "rle", "zip", "é", "", "1\u{663}", "delta", "C"];
        let n = bits.len() as u64;
        for (p, words, num) in pats {
            for i in 0..(if c.thorough { 20_000u64 } else { 1500 }) {
                if c.expired() { return; }
                let mut s = String::new();
                if c.rng.below(2) == 0 { for _ in 0..c.rng.range(0, 8) { s.push_str(bits[c.rng.below(n) as usize]); } }
                else {
                    s.push_str(words[c.rng.below(words.len() as u64) as usize]);
                    if num { s.push('('); for _ in 0..c.rng.range(0, 4) { s.push_str(["1", "07", "9", "\u{663}", "\u{ff11}", "\u{1d7d9}", "x"][c.rng.below(7) as usize]); } s.push(')'); }
                    if c.rng.below(2) == 0 {
                        let mut v: Vec<char> = s.chars().collect(); let at = c.rng.below(v.len() as u64 + 1) as usize;
                        match c.rng.below(3) { 0 => v.insert(at, ['\n', 'x', '1', ')', '(', '-'][c.rng.below(6) as usize]), 1 if at < v.len() => { v.remove(at); } _ => {} }
                        s = v.into_iter().collect();
                    }
                }
                c.case(&format!("{} #{} {:?}", p, i, s), s.as_bytes(), true, || pattern_fact(p, words, num, &s));
            }
        }
    });
}

/// what contracts/fl.rs assumes about f64; the facts about means and roots for every number they are stated for
fn jobs_arithmetic(j: &mut Jobs) {
    j.add("assumed arithmetic", |c| {
        for n in 1..=255i64 {
            c.case(&format!("means of {} values", n), &[], true, || {
                for s in 0..=255 * n {
                    let m = s as f64 / n as f64;
                    if m > 255.0 || m.round() as u8 as i64 != (2 * s + n) / (2 * n) { return Err(format!("{} / {} rounds to {}", s, n, m.round() as u8)); }
                }
                Ok(())
            });
        }
        for k in 0..256i64 {
            c.case(&format!("roots of {} and on", k << 16), &[], true, || {
                let mut last = (((k << 16) - 1).max(-1)) as f64; last = if last < 0.0 { -1.0 } else { last.sqrt() };
                for a in k << 16..(k + 1) << 16 { let r = (a as f64).sqrt(); if r <= last { return Err(format!("the root of {} is not above the one before", a)); } last = r; }
                if k == 255 && (16_777_216f64).sqrt() <= last { return Err("the root of 2^24".into()); }
                Ok(())
            });
        }
        for i in 0..3000 {
            let (a, b, n) = (c.rng.next() >> (12 + c.rng.below(50)), c.rng.next() >> (13 + c.rng.below(50)), (c.rng.next() >> c.rng.below(60)) as usize);
            c.case(&format!("#{} {} {} {}", i, a, b, n), &[], true, || {
                if a < 1 << 52 && b < (1 << 52) - a && a as f64 + b as f64 != (a + b) as f64 { return Err(format!("{} + {} is not exact", a, b)); }
                if (0.99 * n as f64) as usize > n { return Err(format!("0.99 * {} as a whole number is more", n)); }
                if a as f64 > 18446744073709551616.0 || !(a as f64).is_finite() { return Err("a whole number is more than 2^64".into()); }
                Ok(())
            });
        }
    });
}

/* ---------- C15 approximate RLE ---------- */

fn approx_check(img: &DynamicImage, d: f64) -> Result<(), String> {
    let c = codec(&format!("hilbert(rle({}))", d))?;
    let v = encode(&c, img)?;
    header_ok(&v, img)?;
    let runs = rle_parse(&v)?;
    let px: Vec<[u8; 3]> = crate::hilbert::linearize(img).map(|p| p.to_rgb().0).collect();
    let mut i = 0usize;
    let mut painted: Vec<[u8; 3]> = vec![];
    const EPS: f64 = 1e-6;
    for (k, (n, col)) in runs.iter().enumerate() {
        let n = *n as usize;
        if n == 0 { return Err(format!("run {} has length 0", k)); }
        if i + n > px.len() { return Err(format!("runs cover more than the {} pixels", px.len())); }
        let mut sum = [0f64; 3];
        for q in 0..n {
            let p = px[i + q];
            if q > 0 {
                let dist = (0..3).map(|c| (sum[c] / q as f64 - p[c] as f64).powi(2)).sum::<f64>().sqrt();
                if dist > d + EPS { return Err(format!("pixel {} is at distance {} from the mean of run {}, more than {}", i + q, dist, k, d)); }
            }
            for c in 0..3 { sum[c] += p[c] as f64; }
            painted.push(*col);
        }
        for c in 0..3 {
            let m = sum[c] / n as f64;
            if (m - col[c] as f64).abs() > 0.5 + EPS { return Err(format!("run {} is painted {:?} but the mean of channel {} is {}", k, col, c, m)); }
        }
        i += n;
        if n < 255 && i < px.len() {
            let p = px[i];
            let dist = (0..3).map(|c| (sum[c] / n as f64 - p[c] as f64).powi(2)).sum::<f64>().sqrt();
            // exactly at the distance: decided in integers where the arithmetic is exact
            let far: i64 = (0..3).map(|c| (sum[c] as i64 - n as i64 * p[c] as i64).pow(2)).sum();
            let d4 = (d * 4.0) as i64;
            let tie = n.is_power_of_two() && d4 as f64 == d * 4.0 && 16 * far == d4 * d4 * (n * n) as i64;
            if dist < d - EPS || tie { return Err(format!("run {} stops after {} pixels although the next one is at distance {}", k, n, dist)); }
        }
    }
    if i != px.len() { return Err(format!("runs cover {} of {} pixels", i, px.len())); }
    let dimg = c.decode(&mut v.into_iter()).ok_or("decoding the codec's own output failed")?;
    same_pixels(&along_curve(img.width(), img.height(), &painted), &dimg)
}

fn jobs_rle_approx(j: &mut Jobs) {
    let ds = [0.25f64, 0.5, 1.0, 1.5, 2.0, 4.0, 8.0, 16.0, 50.0, 100.0, 441.0, 500.0];
    j.add("tiny", move |c| {
        for w in 1..=4u32 { for h in 1..=4u32 { for k in 0..NKINDS { for d in [0.5, 4.0, 500.0] {
            let img = gen_image(w, h, k, &mut c.rng);
            c.case(&format!("{}x{} kind {} d {}", w, h, k, d), &raw(&img), true, || approx_check(&img, d));
        }}}}
    });
    for part in 0..4 {
        j.add(&format!("random {}", part), move |c| {
            for i in 0..(if c.thorough { 6000 } else { 600 }) {
                if c.expired() { return; }
                let (w, h) = (c.rng.range(1, 60) as u32, c.rng.range(1, 60) as u32);
                let k = c.rng.below(NKINDS);
                let d = ds[c.rng.below(ds.len() as u64) as usize];
                let img = gen_image(w, h, k, &mut c.rng);
                let img = reformat(&img, i);
                c.case(&format!("#{} {}x{} kind {} d {}", i, w, h, k, d), &raw(&img), w * h > 1, || approx_check(&img, d));
            }
        });
    }
    j.add("exactly at the distance", move |c| {
        let vs: [([i32; 3], f64); 9] = [([3, 4, 0], 5.0), ([5, 0, 0], 5.0), ([1, 2, 2], 3.0), ([2, 3, 6], 7.0), ([0, 0, 1], 1.0), ([4, 4, 7], 9.0), ([0, 9, 12], 15.0), ([2, 6, 9], 11.0), ([8, 9, 12], 17.0)];
        for (v, d) in vs { for lead in [1usize, 2, 3, 4, 8, 16] { for sgn in [1i32, -1] { for perm in 0..3usize {
            let v = [v[perm % 3] * sgn, v[(perm + 1) % 3] * sgn, v[(perm + 2) % 3] * sgn];
            let base = [100i32 + c.rng.below(20) as i32, 100, 130];
            let at = |k: i32| [(base[0] + k * v[0]) as u8, (base[1] + k * v[1]) as u8, (base[2] + k * v[2]) as u8];
            let mut col = vec![at(0); lead]; col.push(at(1)); col.push(at(-3)); col.push(at(-2)); col.push(at(3)); col.push(at(4));
            let n = col.len() as u32;
            let img = along_curve(n, 1, &col);
            c.case(&format!("{} pixels then {:?} away, d {}", lead, v, d), &raw(&img), true, || approx_check(&img, d));
            for e in [0.25, -0.25] { c.case(&format!("{} pixels then {:?} away, d {}", lead, v, d + e), &raw(&img), true, || approx_check(&img, d + e)); }
        }}}}
    });
    j.add("close to the distance", move |c| {
        for i in 0..(if c.thorough { 20_000 } else { 1500 }) {
            if c.expired() { return; }
            // a run, then a pixel whose distance is a little more or less than allowed
            let n = c.rng.range(1, 60) as usize; let spread = c.rng.range(1, 12);
            let mut base = [0u64; 3]; for q in 0..3 { base[q] = c.rng.range(0, 240); }
            let mut col: Vec<[u8; 3]> = (0..n).map(|_| { let mut p = [0u8; 3]; for q in 0..3 { p[q] = (base[q] + c.rng.below(spread)) as u8; } p }).collect();
            let last = { let mut p = [0u8; 3]; for q in 0..3 { p[q] = c.rng.byte(); } p };
            let dist = (0..3).map(|q| (col.iter().map(|p| p[q] as f64).sum::<f64>() / n as f64 - last[q] as f64).powi(2)).sum::<f64>().sqrt();
            col.push(last);
            let by = [3e-6, 1e-5, 1e-4, 1e-3][c.rng.below(4) as usize] * if c.rng.below(2) == 0 { 1.0 } else { -1.0 };
            let d = dist + by; if d <= 0.0 { continue; }
            let img = along_curve(n as u32 + 1, 1, &col);
            c.case(&format!("#{} {} pixels, the next at {} from their mean, d {}", i, n, dist, d), &raw(&img), true, || approx_check(&img, d));
        }
    });
    j.add("run length limits", move |c| {
        for n in [253u32, 254, 255, 256, 257, 509, 510, 511, 600, 1021] { for d in [0.5f64, 8.0, 500.0] {
            let mut col = vec![]; for i in 0..n { col.push([(100 + i % 2) as u8, 100, (7 * (i % 2)) as u8]); } col.push([255, 0, 255]);
            let img = along_curve(n + 1, 1, &col);
            c.case(&format!("{} similar pixels d {}", n, d), &raw(&img), true, || approx_check(&img, d));
            let col: Vec<[u8; 3]> = (0..n).map(|i| if i % 2 == 0 { [255, 255, 255] } else { [0, 0, 0] }).collect();
            let img = along_curve(n, 1, &col);
            c.case(&format!("{} alternating d {}", n, d), &raw(&img), true, || approx_check(&img, d));
        }}
    });
}

/* ---------- C16 truncation / C17 write errors ---------- */

const ALL: [&str; 9] = ["hufman", "zip(dict)", "zip(back)", "delta", "hilbert(rle)", "hilbert(rle(8))", "hilbert(zip)", "ccol(4)", "voronoi(3)"];

fn jobs_truncation(j: &mut Jobs) {
    for spec in ALL {
        j.add(&format!("truncated {}", spec), move |c| {
            let mut shapes: Vec<(u32, u32, u64)> = vec![];
            for k in 0..NKINDS { shapes.push((1, 1, k)); shapes.push((5, 3, k)); shapes.push((2, 1, k)); shapes.push((13, 9, k)); }
            for k in [0u64, 1, 2, 9] { shapes.push((33, 20, k)); }
            for (w, h, k) in shapes {
                if c.expired() { return; }
                let img = gen_image(w, h, k, &mut c.rng);
                let v = match codec(spec).and_then(|q| encode(&q, &img)) { Ok(v) => v, Err(e) => { c.case("encode", &raw(&img), true, || Err(e)); return; } };
                let cuts: Vec<usize> = if v.len() <= 400 || c.thorough { (0..v.len()).collect() } else {
                    let mut x: Vec<usize> = (0..60).chain(v.len() - 60..v.len()).collect(); for _ in 0..80 { x.push(c.rng.below(v.len() as u64) as usize); } x };
                for cut in cuts {
                    c.case(&format!("{}x{} kind {}: first {} of {} bytes", w, h, k, cut, v.len()), &v[..cut], true, || {
                        let q = codec(spec)?;
                        match q.decode(&mut v[..cut].iter().cloned()) { None => Ok(()), Some(_) => Err("an image was returned for a truncated stream".into()) }
                    });
                }
                c.case(&format!("{}x{} kind {}: whole stream", w, h, k), &v, true, || {
                    codec(spec)?.decode(&mut v.iter().cloned()).map(|_| ()).ok_or("the whole stream is refused".into()) });
            }
        });
    }
}

fn jobs_truncation_many(j: &mut Jobs) {
    for spec in ALL {
        j.add(&format!("truncated, small random {}", spec), move |c| {
            for i in 0..(if c.thorough { 400 } else { 40 }) {
                if c.expired() { return; }
                let (w, h) = (c.rng.range(1, 14) as u32, c.rng.range(1, 9) as u32); let k = c.rng.below(NKINDS);
                let img = gen_image(w, h, k, &mut c.rng);
                let v = match codec(spec).and_then(|q| encode(&q, &img)) { Ok(v) => v, Err(e) => { c.case("encode", &raw(&img), true, || Err(e)); return; } };
                for cut in v.len() - v.len().min(26)..v.len() {
                    c.case(&format!("#{} {}x{} kind {}: first {} of {} bytes", i, w, h, k, cut, v.len()), &v[..cut], true, || {
                        match codec(spec)?.decode(&mut v[..cut].iter().cloned()) { None => Ok(()), Some(_) => Err("an image was returned for a truncated stream".into()) }
                    });
                }
            }
        });
    }
}

/// Interrupts every other write, or once accepts nothing without an error.
struct Odd { interrupt: bool, zero_at: usize, turn: bool, wrote: Vec<u8>, refused: bool, interrupted: bool }
impl Write for Odd {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        self.turn = !self.turn;
        if self.interrupt && self.turn { self.interrupted = true; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if self.wrote.len() >= self.zero_at { self.refused = true; return Ok(0); }
        let n = if self.interrupt { b.len().min(2) } else { b.len() };
        self.wrote.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn jobs_write_odd(j: &mut Jobs) {
    for spec in ALL {
        j.add(&format!("odd sink {}", spec), move |c| {
            for (w, h, k) in [(1u32, 1u32, 0u64), (3, 2, 1), (9, 7, 2), (5, 8, 6), (12, 10, 9)] {
                if c.expired() { return; }
                let img = gen_image(w, h, k, &mut c.rng);
                let total = match codec(spec).and_then(|q| encode(&q, &img)) { Ok(v) => v.len(), Err(e) => { c.case("encode", &raw(&img), true, || Err(e)); return; } };
                let step = 1 + total / 40;
                for at in (0..total).step_by(step) {
                    c.case(&format!("{}x{} kind {}: the sink takes nothing more after {} bytes", w, h, k, at), &raw(&img), true, || {
                        let mut s = Odd { interrupt: false, zero_at: at, turn: false, wrote: vec![], refused: false, interrupted: false };
                        let r = codec(spec)?.encode(&img, &mut s);
                        if s.refused && r.is_ok() { return Err("the sink took no more bytes but encoding reported success".into()); }
                        Ok(())
                    });
                }
                c.case(&format!("{}x{} kind {}: interrupted writes", w, h, k), &raw(&img), true, || {
                    let mut s = Odd { interrupt: true, zero_at: usize::MAX, turn: false, wrote: vec![], refused: false, interrupted: false };
                    let q = codec(spec)?;
                    if q.encode(&img, &mut s).is_ok() {
                        let d = q.decode(&mut s.wrote.into_iter()).ok_or("success was reported but the bytes accepted do not decode")?;
                        if q.is_lossless() { same_pixels(&img, &d)?; }
                    }
                    Ok(())
                });
            }
        });
    }
    // these end by flushing: what the sink holds back until then is part of the encoding
    for spec in ["hufman", "delta", "ccol(4)"] {
        j.add(&format!("failing flush {}", spec), move |c| {
            for w in 1..=24u32 { for k in 0..NKINDS {
                if c.expired() { return; }
                let img = gen_image(w, 1 + w % 3, k, &mut c.rng);
                c.case(&format!("{}x{} kind {}: a sink that buffers and fails when flushed", w, 1 + w % 3, k), &raw(&img), true, || {
                    let mut s = FailAt { left: usize::MAX, chunk: usize::MAX, wrote: vec![], fail_flush: true, refused: false };
                    if codec(spec)?.encode(&img, &mut s).is_ok() { return Err("encoding reported success, the buffered bytes were never handed over".into()); }
                    Ok(())
                });
            }}
        });
    }
}

struct FailAt { left: usize, chunk: usize, wrote: Vec<u8>, fail_flush: bool, refused: bool }
impl Write for FailAt {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = b.len().min(self.left).min(self.chunk);
        if n == 0 { self.refused = true; return Err(io::Error::new(io::ErrorKind::Other, "sink is full")); }
        self.left -= n; self.wrote.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { if self.fail_flush { self.refused = true; Err(io::Error::new(io::ErrorKind::Other, "flush failed")) } else { Ok(()) } }
}

fn jobs_write_errors(j: &mut Jobs) {
    for spec in ALL {
        j.add(&format!("failing sink {}", spec), move |c| {
            for (w, h, k) in [(1u32, 1u32, 0u64), (3, 2, 1), (9, 7, 2), (9, 7, 0), (12, 10, 9), (20, 14, 5)] {
                if c.expired() { return; }
                let img = gen_image(w, h, k, &mut c.rng);
                let total = match codec(spec).and_then(|q| encode(&q, &img)) { Ok(v) => v.len(), Err(e) => { c.case("encode", &raw(&img), true, || Err(e)); return; } };
                // the clustering codecs are randomised, the others are not: stay below the smallest total
                let mut cuts: Vec<usize> = (0..total.min(if c.thorough { 4000 } else { 260 })).collect();
                for d in 1..40 { if total > d { cuts.push(total - d); } }
                for left in cuts { for chunk in [usize::MAX, 1] {
                    c.case(&format!("{}x{} kind {}: sink accepts {} of {} bytes, {} at a time", w, h, k, left, total, chunk), &raw(&img), true, || {
                        let q = codec(spec)?;
                        let mut s = FailAt { left, chunk, wrote: vec![], fail_flush: false, refused: false };
                        let r = q.encode(&img, &mut s);
                        if s.refused && r.is_ok() { return Err("the sink refused a write but encoding reported success".into()); }
                        if !s.refused && r.is_err() { return Err("the sink accepted everything but encoding reported an error".into()); }
                        Ok(())
                    });
                }}
                c.case(&format!("{}x{} kind {}: flush fails", w, h, k), &raw(&img), true, || {
                    let q = codec(spec)?;
                    let mut s = FailAt { left: usize::MAX, chunk: usize::MAX, wrote: vec![], fail_flush: true, refused: false };
                    let r = q.encode(&img, &mut s);
                    if s.refused && r.is_ok() { return Err("flushing failed but encoding reported success".into()); }
                    Ok(())
                });
                c.case(&format!("{}x{} kind {}: byte by byte sink", w, h, k), &raw(&img), true, || {
                    let q = codec(spec)?;
                    let mut s = FailAt { left: usize::MAX, chunk: 1, wrote: vec![], fail_flush: false, refused: false };
                    q.encode(&img, &mut s).map_err(|e| format!("{:?}", e))?;
                    let d = q.decode(&mut s.wrote.into_iter()).ok_or("output through a byte-by-byte sink does not decode")?;
                    if q.is_lossless() { same_pixels(&img, &d)?; }
                    Ok(())
                });
            }
        });
    }
}

/* ---------- C18 dictionary stream format ---------- */

/// Reference encoder: greedy longest match over the current dictionary, pairs
/// of 16-bit symbols, a new code for each pair, 65535 never a code.
fn ref_dict(s: &[u8]) -> Vec<u16> {
    #[derive(Default)]
    struct N { kids: HashMap<u8, usize>, code: Option<u16> }
    let mut t: Vec<N> = vec![N::default()];
    fn put(t: &mut Vec<N>, q: &[u8], c: u16) { let mut k = 0; for b in q { k = match t[k].kids.get(b) { Some(x) => *x, None => { t.push(N::default()); let n = t.len() - 1; t[k].kids.insert(*b, n); n } }; } t[k].code = Some(c); }
    for b in 0..=255u8 { put(&mut t, &[b], b as u16); }
    let find = |t: &Vec<N>, p: usize| { let mut k = 0; let mut best = None; let mut q = p; while q < s.len() { match t[k].kids.get(&s[q]) { Some(x) => { k = *x; q += 1; if let Some(c) = t[k].code { best = Some((c, q)); } } None => break } } best };
    let mut next = 256u32; let mut p = 0; let mut out = vec![];
    while p < s.len() {
        let (c1, q1) = find(&t, p).unwrap(); out.push(c1);
        if q1 == s.len() { out.push(65535); break; }
        let (c2, q2) = find(&t, q1).unwrap(); out.push(c2);
        if next < 65535 { put(&mut t, &s[p..q2], next as u16); next += 1; }
        p = q2;
    }
    out
}

fn ref_undict(v: &[u16]) -> Result<Vec<u8>, String> {
    if v.len() % 2 != 0 { return Err("odd number of symbols".into()); }
    let mut d: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    let mut out = vec![];
    for (i, p) in v.chunks(2).enumerate() {
        let a = d.get(p[0] as usize).ok_or(format!("pair {} uses the undefined code {}", i, p[0]))?.clone();
        let b = if p[1] == 65535 { if i * 2 + 2 != v.len() { return Err("the end marker is not at the end".into()); } vec![] } else { d.get(p[1] as usize).ok_or(format!("pair {} uses the undefined code {}", i, p[1]))?.clone() };
        let mut s = a; s.extend(b);
        out.extend_from_slice(&s);
        if d.len() < 65535 { d.push(s); }
    }
    Ok(out)
}

fn dict_format(s: &[u8]) -> Result<(), String> {
    let mut v = vec![];
    crate::zip::zip_dict_encode(s.iter().cloned(), &mut v).map_err(|e| format!("{:?}", e))?;
    if v.len() % 4 != 0 { return Err(format!("{} bytes is not a whole number of symbol pairs", v.len())); }
    let sy: Vec<u16> = v.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
    diff(s, &ref_undict(&sy)?).map_err(|e| format!("independent decoder: {}", e))?;
    let want = ref_dict(s);
    if sy != want { let k = sy.iter().zip(want.iter()).position(|(a, b)| a != b); return Err(format!("symbol stream differs from greedy longest match at symbol {:?} (lengths {} and {})", k, sy.len(), want.len())); }
    // and the crate's decoder understands the independent encoder's stream
    let b: Vec<u8> = want.iter().flat_map(|x| x.to_le_bytes()).collect();
    let d: Vec<u8> = crate::zip::zip_dict_decode(b.into_iter()).take(s.len() + 10).collect();
    diff(s, &d)
}

fn jobs_dict_format(j: &mut Jobs) {
    stream_jobs(j, "dict format", dict_format, 80, 20_000, 10);
    exhausting_streams(j, dict_format);
}

/* ---------- C19 back-reference stream format ---------- */

fn back_format(s: &[u8]) -> Result<(), String> {
    let mut v = vec![];
    crate::zip::zip_back_encode(s.iter().cloned(), &mut v).map_err(|e| format!("{:?}", e))?;
    let mut p = 0usize; let mut out: Vec<u8> = Vec::with_capacity(s.len()); let mut k = 0;
    while p < v.len() {
        if p + 2 > v.len() { return Err("stream ends inside a symbol".into()); }
        let l = v[p] as usize | (v[p + 1] as usize) << 8; p += 2;
        let len = l & 0x7fff;
        if l & 0x8000 == 0 {
            if len == 0 { return Err(format!("symbol {} is an empty literal", k)); }
            if p + len > v.len() { return Err(format!("literal {} runs past the end", k)); }
            out.extend_from_slice(&v[p..p + len]); p += len;
        } else {
            if p + 2 > v.len() { return Err("stream ends inside a symbol".into()); }
            let back = v[p] as usize | (v[p + 1] as usize) << 8; p += 2;
            if back == 0 || back > out.len().min(65535) { return Err(format!("reference {} goes back {} of {} bytes", k, back, out.len())); }
            if len < 6 { return Err(format!("reference {} copies only {} bytes", k, len)); }
            if len > back { return Err(format!("reference {} copies {} bytes from only {} back", k, len, back)); }
            let st = out.len() - back;
            for q in 0..len { let b = out[st + q]; out.push(b); }
        }
        k += 1;
    }
    diff(s, &out).map_err(|e| format!("independent decoder: {}", e))
}

fn back_decode_ref(symbols: &[(bool, Vec<u8>, usize, usize)]) -> (Vec<u8>, Vec<u8>) {
    let (mut enc, mut out) = (vec![], vec![]);
    for (lit, d, len, back) in symbols {
        if *lit { enc.extend_from_slice(&(d.len() as u16).to_le_bytes()); enc.extend_from_slice(d); out.extend_from_slice(d); }
        else { enc.extend_from_slice(&((*len as u16) | 0x8000).to_le_bytes()); enc.extend_from_slice(&(*back as u16).to_le_bytes());
            let st = out.len() - back; for q in 0..*len { let b: u8 = out[st + q]; out.push(b); } }
    }
    (enc, out)
}

fn jobs_back_format(j: &mut Jobs) {
    stream_jobs(j, "back format", back_format, 50, 10_000, 10);
    big_back_streams(j, back_format);
    for part in 0..2 {
        j.add(&format!("decode independent streams {}", part), |c| {
            for i in 0..(if c.thorough { 600 } else { 60 }) {
                if c.expired() { return; }
                let mut sy = vec![]; let mut n = 0usize;
                let target = [300usize, 3000, 70_000, 200_000][c.rng.below(4) as usize];
                while n < target {
                    if n == 0 || c.rng.below(3) == 0 {
                        let l = [1usize, 7, 300, 32_767][c.rng.below(4) as usize].min(target); let l = c.rng.range(1, l as u64) as usize;
                        let d = gen_stream(0, l, &mut c.rng); n += l; sy.push((true, d, 0, 0));
                    } else {
                        let w = n.min(65_535); let back = if c.rng.below(5) == 0 { w } else { c.rng.range(1, w as u64) as usize };
                        let len = c.rng.range(1, back.min(32_767) as u64) as usize; n += len; sy.push((false, vec![], len, back));
                    }
                }
                let (enc, want) = back_decode_ref(&sy);
                c.case(&format!("#{} {} symbols, {} bytes", i, sy.len(), n), &enc, true, || {
                    let d: Vec<u8> = crate::zip::zip_back_decode(enc.iter().cloned()).take(want.len() + 10).collect();
                    diff(&want, &d)
                });
            }
        });
    }
}
