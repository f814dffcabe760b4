@@module bit src/bit.rs

@@top
use vstd::std_specs::iter::IteratorSpec;

/// The i-th bit of a byte, in the given order
pub open spec fn bit_at(byte: u8, i: int, bo: BitOrder) -> Bit {
    match bo {
        BitOrder::MsbFirst => if byte & (0x80u8 >> (i as u8)) == 0 { Bit::Zero } else { Bit::One },
        BitOrder::LsbFirst => if byte & (1u8 << (i as u8)) == 0 { Bit::Zero } else { Bit::One },
    }
}

pub open spec fn byte_bits(byte: u8, bo: BitOrder) -> Seq<Bit> {
    Seq::new(8, |i: int| bit_at(byte, i, bo))
}

/// The bits of a sequence of bytes, in order, without gaps
pub open spec fn bytes_bits(s: Seq<u8>, bo: BitOrder) -> Seq<Bit>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { bytes_bits(s.drop_last(), bo) + byte_bits(s.last(), bo) }
}

pub open spec fn zeros(n: nat) -> Seq<Bit> { Seq::new(n, |i: int| Bit::Zero) }

pub open spec fn pad_len(n: nat) -> nat { ((8 - n % 8) % 8) as nat }

/// the n most recently pushed bits of an accumulator, oldest first
pub open spec fn recent(byte: u8, n: int, bo: BitOrder) -> Seq<Bit> {
    Seq::new(n as nat, |i: int| bit_at(byte, 8 - n + i, bo))
}

pub proof fn lemma_bits_push(s: Seq<u8>, b: u8, bo: BitOrder)
    ensures bytes_bits(s.push(b), bo) == bytes_bits(s, bo) + byte_bits(b, bo),
{
    assert(s.push(b).drop_last() =~= s);
}

pub proof fn lemma_bits_append(s: Seq<u8>, t: Seq<u8>, bo: BitOrder)
    ensures bytes_bits(s + t, bo) == bytes_bits(s, bo) + bytes_bits(t, bo),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(bytes_bits(s, bo) + bytes_bits(t, bo) =~= bytes_bits(s, bo));
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_bits_append(s, t.drop_last(), bo);
        assert(bytes_bits(s, bo) + bytes_bits(t, bo)
            =~= bytes_bits(s, bo) + bytes_bits(t.drop_last(), bo) + byte_bits(t.last(), bo));
    }
}

pub proof fn lemma_bits_len(s: Seq<u8>, bo: BitOrder)
    ensures bytes_bits(s, bo).len() == 8 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_bits_len(s.drop_last(), bo); }
}

/// bytes_bits from the front
pub proof fn lemma_bits_first(s: Seq<u8>, bo: BitOrder)
    requires s.len() > 0,
    ensures bytes_bits(s, bo) == byte_bits(s[0], bo) + bytes_bits(s.drop_first(), bo),
{
    assert(s =~= seq![s[0]] + s.drop_first());
    lemma_bits_append(seq![s[0]], s.drop_first(), bo);
    assert(seq![s[0]].drop_last() =~= Seq::<u8>::empty());
    assert(bytes_bits(seq![s[0]], bo) =~= byte_bits(s[0], bo)) by {
        assert(bytes_bits(seq![s[0]].drop_last(), bo) =~= Seq::<Bit>::empty());
    }
}

pub open spec fn bit_val(b: Bit) -> u8 { match b { Bit::Zero => 0u8, Bit::One => 1u8 } }

pub proof fn lemma_push_msb(n: u8, v: u8)
    requires v == 0 || v == 1,
    ensures
        forall|i: int| 0 <= i < 7 ==> #[trigger] bit_at((n << 1u8) | v, i, BitOrder::MsbFirst) == bit_at(n, i + 1, BitOrder::MsbFirst),
        bit_at((n << 1u8) | v, 7, BitOrder::MsbFirst) == (if v == 0 { Bit::Zero } else { Bit::One }),
{
    assert forall|i: int| 0 <= i < 7 implies #[trigger] bit_at((n << 1u8) | v, i, BitOrder::MsbFirst) == bit_at(n, i + 1, BitOrder::MsbFirst) by {
        let u = i as u8;
        assert((v == 0 || v == 1) && u < 7 ==> ((((n << 1u8) | v) & (0x80u8 >> u)) == 0 <==> n & (0x80u8 >> add(u, 1)) == 0)) by (bit_vector);
    }
    assert((v == 0 || v == 1) ==> (((((n << 1u8) | v) & (0x80u8 >> 7u8)) == 0) <==> v == 0)) by (bit_vector);
}

pub proof fn lemma_push_lsb(n: u8, v: u8)
    requires v == 0 || v == 1,
    ensures
        forall|i: int| 0 <= i < 7 ==> #[trigger] bit_at((n >> 1u8) | (v << 7u8), i, BitOrder::LsbFirst) == bit_at(n, i + 1, BitOrder::LsbFirst),
        bit_at((n >> 1u8) | (v << 7u8), 7, BitOrder::LsbFirst) == (if v == 0 { Bit::Zero } else { Bit::One }),
{
    assert forall|i: int| 0 <= i < 7 implies #[trigger] bit_at((n >> 1u8) | (v << 7u8), i, BitOrder::LsbFirst) == bit_at(n, i + 1, BitOrder::LsbFirst) by {
        let u = i as u8;
        assert((v == 0 || v == 1) && u < 7 ==> ((((n >> 1u8) | (v << 7u8)) & (1u8 << u)) == 0 <==> n & (1u8 << add(u, 1)) == 0)) by (bit_vector);
    }
    assert((v == 0 || v == 1) ==> (((((n >> 1u8) | (v << 7u8)) & (1u8 << 7u8)) == 0) <==> v == 0)) by (bit_vector);
}

impl vstd::std_specs::convert::FromSpecImpl<&Bit> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: &Bit) -> u8 { bit_val(*b) }
}

impl BitArray {
    pub open spec fn view(&self) -> Seq<Bit> {
        bytes_bits(self.full_bytes@, self.bit_order) + recent(self.partial_byte, self.partial_count as int, self.bit_order)
    }
    pub open spec fn wf(&self) -> bool { self.partial_count < 8 && 8 * self.full_bytes@.len() + self.partial_count <= usize::MAX }
}

pub proof fn lemma_write_byte(curr: u8, n: u8, k: u8)
    requires k < 8,
    ensures
        k > 0 ==> {
            let c = (curr << ((8 - k) as u8)) | (n >> k);
            let m = n & (((1u16 << k) - 1) as u8);
            &&& forall|i: int| 0 <= i < k ==> #[trigger] bit_at(c, i, BitOrder::MsbFirst) == bit_at(curr, 8 - k + i, BitOrder::MsbFirst)
            &&& forall|i: int| k <= i < 8 ==> #[trigger] bit_at(c, i, BitOrder::MsbFirst) == bit_at(n, i - k, BitOrder::MsbFirst)
            &&& forall|i: int| 8 - k <= i < 8 ==> #[trigger] bit_at(m, i, BitOrder::MsbFirst) == bit_at(n, i, BitOrder::MsbFirst)
        },
{
    if k > 0 {
        let c = (curr << ((8 - k) as u8)) | (n >> k);
        let m = n & (((1u16 << k) - 1) as u8);
        assert forall|i: int| 0 <= i < k implies #[trigger] bit_at(c, i, BitOrder::MsbFirst) == bit_at(curr, 8 - k + i, BitOrder::MsbFirst) by {
            let u = i as u8;
            assert(0 < k < 8 && u < k ==> ((((curr << sub(8, k)) | (n >> k)) & (0x80u8 >> u)) == 0 <==> curr & (0x80u8 >> add(sub(8, k), u)) == 0)) by (bit_vector);
        }
        assert forall|i: int| k <= i < 8 implies #[trigger] bit_at(c, i, BitOrder::MsbFirst) == bit_at(n, i - k, BitOrder::MsbFirst) by {
            let u = i as u8;
            assert(0 < k < 8 && k <= u < 8 ==> ((((curr << sub(8, k)) | (n >> k)) & (0x80u8 >> u)) == 0 <==> n & (0x80u8 >> sub(u, k)) == 0)) by (bit_vector);
        }
        assert forall|i: int| 8 - k <= i < 8 implies #[trigger] bit_at(m, i, BitOrder::MsbFirst) == bit_at(n, i, BitOrder::MsbFirst) by {
            let u = i as u8;
            assert(0 < k < 8 ==> 1u16 << k >= 1 && 1u16 << k <= 128) by (bit_vector);
            assert(0 < k < 8 && sub(8, k) <= u < 8 ==> ((n & (sub(1u16 << k, 1) as u8)) & (0x80u8 >> u) == 0 <==> n & (0x80u8 >> u) == 0)) by (bit_vector);
        }
    }
}

pub proof fn lemma_pad(curr: u8, k: u8)
    requires k < 8,
    ensures
        k > 0 ==> {
            let c = curr << ((8 - k) as u8);
            &&& forall|i: int| 0 <= i < k ==> #[trigger] bit_at(c, i, BitOrder::MsbFirst) == bit_at(curr, 8 - k + i, BitOrder::MsbFirst)
            &&& forall|i: int| k <= i < 8 ==> #[trigger] bit_at(c, i, BitOrder::MsbFirst) == Bit::Zero
        },
{
    if k > 0 {
        let c = curr << ((8 - k) as u8);
        assert forall|i: int| 0 <= i < k implies #[trigger] bit_at(c, i, BitOrder::MsbFirst) == bit_at(curr, 8 - k + i, BitOrder::MsbFirst) by {
            let u = i as u8;
            assert(0 < k < 8 && u < k ==> (((curr << sub(8, k)) & (0x80u8 >> u)) == 0 <==> curr & (0x80u8 >> add(sub(8, k), u)) == 0)) by (bit_vector);
        }
        assert forall|i: int| k <= i < 8 implies #[trigger] bit_at(c, i, BitOrder::MsbFirst) == Bit::Zero by {
            let u = i as u8;
            assert(0 < k < 8 && k <= u < 8 ==> ((curr << sub(8, k)) & (0x80u8 >> u)) == 0) by (bit_vector);
        }
    }
}

pub proof fn lemma_flat_bits(s: Seq<u8>, bo: BitOrder)
    ensures flat_with(s, |n: u8| byte_bits(n, bo)) == bytes_bits(s, bo),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_bits_first(s, bo);
        lemma_flat_bits(s.drop_first(), bo);
    }
}

@@attr Bit :: #[derive(Structural)]
@@attr BitOrder :: #[derive(Structural)]

@@fn Bit::byte ret r
@@spec
    ensures r == bit_val(*self),

@@fn <u8 as From<&Bit>>::from

@@fn push_bit
@@spec
    ensures
        bit_at(*final(n), 7, bo) == b,
        forall|i: int| 0 <= i < 7 ==> #[trigger] bit_at(*final(n), i, bo) == bit_at(*old(n), i + 1, bo),
        forall|k: int| 0 <= k <= 7 ==> recent(*final(n), k + 1, bo) == (#[trigger] recent(*old(n), k, bo)).push(b),
@@finish
    proof {
        lemma_push_msb(*old(n), bit_val(b));
        lemma_push_lsb(*old(n), bit_val(b));
        assert forall|k: int| 0 <= k <= 7 implies recent(*n, k + 1, bo) == (#[trigger] recent(*old(n), k, bo)).push(b) by {
            assert(recent(*n, k + 1, bo) =~= recent(*old(n), k, bo).push(b));
        }
    }

@@fn byte_from_slice ret r
@@spec
    ensures
        bits@.len() == 8 ==> r is Some && byte_bits(r.unwrap(), bo) == bits@,
        bits@.len() != 8 ==> r is None,
@@loop 0 iter it
    invariant
        bits@.len() == 8,
        it.seq().len() == 8,
        forall|i: int| 0 <= i < 8 ==> *#[trigger] it.seq()[i] == bits@[i],
        recent(n, it.index@ as int, bo) == bits@.subrange(0, it.index@ as int),
@@bodyend 0
    proof { assert(bits@.subrange(0, it.index@ + 1) =~= bits@.subrange(0, it.index@ as int).push(bits@[it.index@ as int])); }
@@before return Some(n);
    proof {
        assert(recent(n, 8, bo) =~= byte_bits(n, bo));
        assert(bits@.subrange(0, 8) =~= bits@);
    }

@@fn nth ret r
@@spec
    requires idx < 8,
    ensures r == bit_at(byte, idx as int, bo),

@@fn bit_array ret r
@@spec
    ensures r@ == byte_bits(byte, bo),

@@fn bit_mask ret r
@@spec
    requires nbits <= 8,
    ensures r as int == ((1u16 << nbits) - 1) as int,
@@start
    assert(nbits <= 8 ==> 1u16 <= 1u16 << nbits <= 256) by (bit_vector);

@@fn BitArray::from_slice ret r
@@spec
    ensures r@ == bits@, r.wf(), r.bit_order == bo,
@@loop 0
    invariant
        pos + rem_bits == bits@.len(), bits@.len() <= usize::MAX, pos == 8 * packed_bits@.len(),
        bytes_bits(packed_bits@, bo) == bits@.subrange(0, pos as int),
    decreases rem_bits,
@@loop 1
    invariant
        rem_bits < 8, bits@.len() <= usize::MAX, pos <= bits@.len(), bits@.len() == 8 * packed_bits@.len() + rem_bits,
        pos >= 8 * packed_bits@.len(),
        bytes_bits(packed_bits@, bo) == bits@.subrange(0, (8 * packed_bits@.len()) as int),
        recent(incomplete_byte, pos - 8 * packed_bits@.len(), bo) == bits@.subrange((8 * packed_bits@.len()) as int, pos as int),
    decreases bits@.len() - pos,
@@bodystart 0
    let ghost g_packed = packed_bits@;
@@bodyend 0
    proof {
        let b = packed_bits@.last();
        assert(packed_bits@ =~= g_packed.push(b));
        lemma_bits_push(g_packed, b, bo);
        assert(bits@.subrange(0, pos as int) =~= bits@.subrange(0, pos - 8) + bits@.subrange(pos - 8, pos as int));
    }
@@bodyend 1
    proof {
        let a = (8 * packed_bits@.len()) as int;
        assert(bits@.subrange(a, pos as int) =~= bits@.subrange(a, pos - 1).push(bits@[pos - 1]));
    }
@@before BitArray {
    proof {
        assert(bytes_bits(packed_bits@, bo) + recent(incomplete_byte, rem_bits as int, bo) =~= bits@);
    }

@@fn BitArray::len ret r
@@spec
    requires self.wf(),
    ensures r == self@.len(),
@@start
    proof { lemma_bits_len(self.full_bytes@, self.bit_order); }

@@inside WriteBit
    /// everything written so far, oldest first
    spec fn bits(&self) -> Seq<Bit>;
    /// the bytes handed to the underlying sink so far
    spec fn out(&self) -> Seq<u8>;
    /// what the final destination will hold in the end
    #[verifier::prophetic]
    spec fn fut(&self) -> crate::rtw::Fut;
    spec fn wf(&self) -> bool;
    /// how often the sink has been flushed
    spec fn flushes(&self) -> nat;
    /// writing cannot fail
    spec fn sure(&self) -> bool;
    spec fn order(&self) -> BitOrder;

@@fn WriteBit::write ret r
@@spec
    requires old(self).wf(),
    ensures
        r is Ok ==> final(self).wf() && final(self).order() == old(self).order() && final(self).fut() == old(self).fut() && final(self).flushes() == old(self).flushes()
            && final(self).bits() == old(self).bits().push(b),
        old(self).sure() ==> r is Ok && final(self).sure(),

@@fn WriteBit::write_byte ret r
@@spec
    requires old(self).wf(),
    ensures
        r is Ok ==> final(self).wf() && final(self).order() == old(self).order() && final(self).fut() == old(self).fut() && final(self).flushes() == old(self).flushes()
            && final(self).bits() == old(self).bits() + byte_bits(n, old(self).order()),
        old(self).sure() ==> r is Ok && final(self).sure(),

@@fn WriteBit::write_arr ret r
@@spec
    requires old(self).wf(), arr.wf(), arr.bit_order == old(self).order(),
    ensures
        r is Ok ==> final(self).wf() && final(self).order() == old(self).order() && final(self).fut() == old(self).fut() && final(self).flushes() == old(self).flushes()
            && final(self).bits() == old(self).bits() + arr@,
        old(self).sure() ==> r is Ok && final(self).sure(),
@@loop 0 iter it
    invariant
        self.wf(), self.order() == old(self).order(), self.fut() == old(self).fut(), self.flushes() == old(self).flushes(), old(self).sure() ==> self.sure(), arr.wf(), arr.bit_order == old(self).order(),
        it.seq().len() == arr.full_bytes@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == arr.full_bytes@[i],
        self.bits() == old(self).bits() + bytes_bits(arr.full_bytes@.subrange(0, it.index@), arr.bit_order),
@@bodyend 0
    proof {
        let k = it.index@;
        let s = arr.full_bytes@;
        assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
        lemma_bits_push(s.subrange(0, k), s[k], arr.bit_order);
        assert(self.bits() =~= old(self).bits() + bytes_bits(s.subrange(0, k + 1), arr.bit_order));
    }
@@loop 1 iter jt
    invariant
        self.wf(), self.order() == old(self).order(), self.fut() == old(self).fut(), self.flushes() == old(self).flushes(), old(self).sure() ==> self.sure(), arr.wf(), arr.bit_order == old(self).order(),
        starting_bit == 8 - arr.partial_count,
        self.bits() == old(self).bits() + bytes_bits(arr.full_bytes@, arr.bit_order)
            + recent(arr.partial_byte, arr.partial_count as int, arr.bit_order).subrange(0, jt.index@),
@@bodyend 1
    proof {
        let rec = recent(arr.partial_byte, arr.partial_count as int, arr.bit_order);
        assert(rec.subrange(0, jt.index@ + 1) =~= rec.subrange(0, jt.index@).push(rec[jt.index@]));
        assert(self.bits() =~= old(self).bits() + bytes_bits(arr.full_bytes@, arr.bit_order) + rec.subrange(0, jt.index@ + 1));
    }
@@before let starting_bit
    proof {
        assert(arr.full_bytes@.subrange(0, arr.full_bytes@.len() as int) =~= arr.full_bytes@);
        assert(self.bits() =~= old(self).bits() + bytes_bits(arr.full_bytes@, arr.bit_order)
            + recent(arr.partial_byte, arr.partial_count as int, arr.bit_order).subrange(0, 0));
    }
@@before Ok(())
    proof {
        let rec = recent(arr.partial_byte, arr.partial_count as int, arr.bit_order);
        assert(rec.subrange(0, rec.len() as int) =~= rec);
        assert(self.bits() =~= old(self).bits() + arr@);
    }

@@fn WriteBit::pad_and_flush ret r
@@spec
    requires old(self).wf(),
    ensures
        r is Ok ==> final(self).wf() && final(self).order() == old(self).order() && final(self).fut() == old(self).fut() && final(self).flushes() == old(self).flushes() + 1
            && final(self).bits() == old(self).bits() + zeros(pad_len(old(self).bits().len()))
            && final(self).bits() == bytes_bits(final(self).out(), old(self).order()),
        old(self).sure() ==> r is Ok && final(self).sure(),

@@fn IoBitWriter::new ret r
@@spec
    ensures
        r.writer == writer, r.bit_count == 0, r.bit_order == bo,

@@inside <IoBitWriter as WriteBit>
    open spec fn bits(&self) -> Seq<Bit> {
        bytes_bits(self.writer.written(), self.bit_order) + recent(self.curr_bits, self.bit_count as int, self.bit_order)
    }
    open spec fn out(&self) -> Seq<u8> { self.writer.written() }
    #[verifier::prophetic]
    open spec fn fut(&self) -> crate::rtw::Fut { self.writer.fut() }
    open spec fn flushes(&self) -> nat { self.writer.flushes() }
    open spec fn sure(&self) -> bool { self.writer.infallible() }
    open spec fn wf(&self) -> bool { self.bit_count < 8 && self.bit_order == BitOrder::MsbFirst }
    open spec fn order(&self) -> BitOrder { self.bit_order }

@@fn <IoBitWriter as WriteBit>::write
@@before Ok(())
    proof {
        let k = old(self).bit_count as int;
        assert(recent(self.curr_bits, k + 1, self.bit_order) == recent(old(self).curr_bits, k, self.bit_order).push(b));
        let r8 = recent(self.curr_bits, 8, self.bit_order);
        assert(r8 =~= byte_bits(self.curr_bits, self.bit_order));
        lemma_bits_push(old(self).writer.written(), self.curr_bits, self.bit_order);
        assert(old(self).writer.written() + seq![self.curr_bits] =~= old(self).writer.written().push(self.curr_bits));
        assert(self.bit_order == old(self).bit_order);
        if k == 7 {
            assert(self.bit_count == 0);
            assert(self.writer.written() == old(self).writer.written() + seq![self.curr_bits]);
            assert(self.bits() =~= old(self).bits().push(b));
        } else {
            assert(self.bit_count == k + 1);
            assert(self.writer.written() == old(self).writer.written());
            assert(self.bits() =~= old(self).bits().push(b));
        }
    }

@@fn <IoBitWriter as WriteBit>::write_byte
@@before Ok(())
    proof { lemma_write_byte(old(self).curr_bits, n, old(self).bit_count);
        let w = old(self).writer.written();
        let c = if old(self).bit_count == 0 { n } else { (old(self).curr_bits << ((8 - old(self).bit_count) as u8)) | (n >> old(self).bit_count) };
        lemma_bits_push(w, c, self.bit_order);
        assert(self.writer.written() == w + seq![c]);
        assert(w + seq![c] =~= w.push(c));
        let k = old(self).bit_count as int;
        if k == 0 {
            assert(self.bits() =~= old(self).bits() + byte_bits(n, self.bit_order));
        } else {
            assert(byte_bits(c, self.bit_order) =~= recent(old(self).curr_bits, k, self.bit_order) + byte_bits(n, self.bit_order).subrange(0, 8 - k));
            assert(recent(self.curr_bits, k, self.bit_order) =~= byte_bits(n, self.bit_order).subrange(8 - k, 8));
            assert(self.bits() =~= old(self).bits() + byte_bits(n, self.bit_order));
        }
    }

@@fn <IoBitWriter as WriteBit>::pad_and_flush
@@before self.writer.flush()
    proof { lemma_pad(old(self).curr_bits, old(self).bit_count);
        let w = old(self).writer.written();
        lemma_bits_len(w, self.bit_order);
        if old(self).bit_count != 0 {
            let c = old(self).curr_bits << ((8 - old(self).bit_count) as u8);
            lemma_bits_push(w, c, self.bit_order);
            assert(self.writer.written() == w + seq![c]);
            assert(w + seq![c] =~= w.push(c));
            let k = old(self).bit_count as int;
            assert(byte_bits(c, self.bit_order) =~= recent(old(self).curr_bits, k, self.bit_order) + zeros((8 - k) as nat));
            assert(self.bits() =~= old(self).bits() + zeros(pad_len(old(self).bits().len())));
        } else {
            assert(self.bits() =~= old(self).bits() + zeros(pad_len(old(self).bits().len())));
        }
        assert(self.bits() =~= bytes_bits(self.writer.written(), self.bit_order));
    }

@@fn bit_reader ret r
@@spec
    ensures
        bytes.obeys_prophetic_iter_laws() ==> r.obeys_prophetic_iter_laws() && r.remaining() == bytes_bits(bytes.remaining(), bo),
@@start
    proof { lemma_flat_bits(bytes.remaining(), bo); }
@@rewrite bytes.flat_map( ==> crate::rt::flat_map_arr(bytes, -- Iterator::flat_map called through its assumed contract
@@rewrite move |n| bit_array(n, bo).into_iter() ==> move |n: u8| -> (a: [Bit; 8]) ensures a@ == byte_bits(n, bo) { bit_array(n, bo) } -- closure given its contract
