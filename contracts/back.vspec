@@module zip::back src/zip/back.rs

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::ser::{ser_post, deser_post};

/* ---- the format ---- */

/// a symbol: bytes as they are, or a stretch of what came before
pub ghost enum Sym { Ex(Seq<u8>), Lb(nat, nat) }

/// the last n elements
pub open spec fn last_n<T>(s: Seq<T>, n: nat) -> Seq<T> { if s.len() <= n { s } else { s.skip(s.len() - n) } }

/// the window behind the current position
pub open spec fn slid(h: Seq<u8>, x: Seq<u8>) -> Seq<u8> { last_n(h + x, MAX_RING_BUFFER_SIZE as nat) }

/// what a symbol stands for
pub open spec fn expand(h: Seq<u8>, y: Sym) -> Seq<u8> {
    match y { Sym::Ex(d) => d, Sym::Lb(len, back) => h.skip(h.len() - back).take(len as int) }
}

/// a symbol the format allows here: it stands for at least one byte, its
/// length can be written down, and a reference lies within the data so far
pub open spec fn fits(h: Seq<u8>, y: Sym) -> bool {
    match y {
        Sym::Ex(d) => 0 < d.len() <= 32767,
        Sym::Lb(len, back) => 0 < len <= 32767 && len <= back <= h.len() && back <= 65535,
    }
}

pub open spec fn symv(s: Symbol) -> Sym {
    match s { Symbol::Explicit(d) => Sym::Ex(d@), Symbol::LookBack(lb) => Sym::Lb(lb.len as nat, lb.back as nat) }
}

pub open spec fn sym_bytes(y: Sym) -> Seq<u8> {
    match y {
        Sym::Ex(d) => le_seq(d.len(), 2) + d,
        Sym::Lb(len, back) => le_seq(32768 + len, 2) + le_seq(back, 2),
    }
}

pub open spec fn sym_ok(y: Sym) -> bool {
    match y { Sym::Ex(d) => d.len() <= 32767, Sym::Lb(len, back) => len <= 32767 && back <= 65535 }
}

/// the symbol that the bytes start with
pub open spec fn sym_at(s: Seq<u8>) -> Option<(Sym, nat)> {
    let c = le_val(s.take(2));
    if s.len() < 2 { None }
    else if c < 32768 { if s.len() - 2 < c { None } else { Some((Sym::Ex(s.skip(2).take(c as int)), 2 + c)) } }
    else if s.len() < 4 { None }
    else { Some((Sym::Lb((c - 32768) as nat, le_val(s.skip(2).take(2))), 4)) }
}

/// what the bytes stand for (as far as the format allows them)
pub open spec fn bdec(h: Seq<u8>, s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    match sym_at(s) {
        None => Seq::empty(),
        Some((y, n)) => if !fits(h, y) || n == 0 || n > s.len() { Seq::empty() } else {
            expand(h, y) + bdec(slid(h, expand(h, y)), s.skip(n as int))
        },
    }
}

/* symbols in a row */

pub open spec fn syms_ok(h: Seq<u8>, ss: Seq<Sym>) -> bool
    decreases ss.len(),
{
    ss.len() > 0 ==> fits(h, ss[0]) && syms_ok(slid(h, expand(h, ss[0])), ss.drop_first())
}

pub open spec fn expand_all(h: Seq<u8>, ss: Seq<Sym>) -> Seq<u8>
    decreases ss.len(),
{
    if ss.len() == 0 { Seq::empty() } else { expand(h, ss[0]) + expand_all(slid(h, expand(h, ss[0])), ss.drop_first()) }
}

pub open spec fn syms_bytes(ss: Seq<Sym>) -> Seq<u8>
    decreases ss.len(),
{
    if ss.len() == 0 { Seq::empty() } else { syms_bytes(ss.drop_last()) + sym_bytes(ss.last()) }
}

pub open spec fn symsv(s: Seq<Symbol>) -> Seq<Sym> { Seq::new(s.len(), |i: int| symv(s[i])) }

/// a complete encoding of the data
pub open spec fn back_encodes(data: Seq<u8>, b: Seq<u8>) -> bool {
    exists|ss: Seq<Sym>| b == syms_bytes(ss) && #[trigger] syms_ok(Seq::empty(), ss) && expand_all(Seq::empty(), ss) == data
}

pub proof fn lemma_slid(h: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures slid(slid(h, a), b) == slid(h, a + b), slid(h, a).len() <= MAX_RING_BUFFER_SIZE,
{
    assert(slid(slid(h, a), b) =~= slid(h, a + b));
}

pub proof fn lemma_slid_nothing(h: Seq<u8>)
    requires h.len() <= MAX_RING_BUFFER_SIZE,
    ensures slid(h, Seq::empty()) == h,
{
    assert(slid(h, Seq::empty()) =~= h);
}

/// one symbol more at the end
pub proof fn lemma_push(h: Seq<u8>, ss: Seq<Sym>, y: Sym)
    requires syms_ok(h, ss), h.len() <= MAX_RING_BUFFER_SIZE, fits(slid(h, expand_all(h, ss)), y),
    ensures
        syms_ok(h, ss.push(y)),
        expand_all(h, ss.push(y)) == expand_all(h, ss) + expand(slid(h, expand_all(h, ss)), y),
    decreases ss.len(),
{
    let t = ss.push(y);
    if ss.len() == 0 {
        lemma_slid_nothing(h);
        assert(t.drop_first() =~= Seq::<Sym>::empty());
        let h1 = slid(h, expand(h, y));
        assert(syms_ok(h1, t.drop_first()));
        assert(expand_all(h1, t.drop_first()) =~= Seq::<u8>::empty());
        assert(expand_all(h, t) =~= expand(h, y));
        assert(expand_all(h, ss) + expand(h, y) =~= expand(h, y));
    } else {
        let x = expand(h, ss[0]);
        let h1 = slid(h, x);
        assert(t.drop_first() =~= ss.drop_first().push(y));
        lemma_slid(h, x, expand_all(h1, ss.drop_first()));
        lemma_push(h1, ss.drop_first(), y);
        assert(x + (expand_all(h1, ss.drop_first()) + expand(slid(h, expand_all(h, ss)), y)) =~= expand_all(h, ss) + expand(slid(h, expand_all(h, ss)), y));
    }
}

/// two stretches of symbols after one another
pub proof fn lemma_join(h: Seq<u8>, a: Seq<Sym>, b: Seq<Sym>)
    requires syms_ok(h, a), h.len() <= MAX_RING_BUFFER_SIZE, syms_ok(slid(h, expand_all(h, a)), b),
    ensures
        syms_ok(h, a + b),
        expand_all(h, a + b) == expand_all(h, a) + expand_all(slid(h, expand_all(h, a)), b),
    decreases a.len(),
{
    if a.len() == 0 {
        lemma_slid_nothing(h);
        assert(a + b =~= b);
        assert(expand_all(h, a) + expand_all(h, b) =~= expand_all(h, b));
    } else {
        let x = expand(h, a[0]);
        let h1 = slid(h, x);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_slid(h, x, expand_all(h1, a.drop_first()));
        lemma_join(h1, a.drop_first(), b);
        assert(expand_all(h, a + b) =~= expand_all(h, a) + expand_all(slid(h, expand_all(h, a)), b));
    }
}

pub proof fn lemma_bytes_join(a: Seq<Sym>, b: Seq<Sym>)
    ensures syms_bytes(a + b) == syms_bytes(a) + syms_bytes(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(syms_bytes(a) + syms_bytes(b) =~= syms_bytes(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_bytes_join(a, b.drop_last());
        assert(syms_bytes(a + b) =~= syms_bytes(a) + syms_bytes(b));
    }
}

pub proof fn lemma_bytes_first(ss: Seq<Sym>)
    requires ss.len() > 0,
    ensures syms_bytes(ss) == sym_bytes(ss[0]) + syms_bytes(ss.drop_first()),
{
    let a = seq![ss[0]];
    reveal_with_fuel(syms_bytes, 2);
    assert(a + ss.drop_first() =~= ss);
    lemma_bytes_join(a, ss.drop_first());
    assert(a.drop_last() =~= Seq::<Sym>::empty());
    assert(syms_bytes(a) =~= sym_bytes(ss[0]));
}

/// a symbol is read back, whatever follows it, and refused when cut short
pub proof fn lemma_sym_at(y: Sym, tail: Seq<u8>)
    requires sym_ok(y),
    ensures
        sym_at(sym_bytes(y) + tail) == Some((y, sym_bytes(y).len())),
        sym_bytes(y).len() >= 2,
        (sym_bytes(y) + tail).skip(sym_bytes(y).len() as int) == tail,
{
    crate::rt::lemma_pow256();
    let s = sym_bytes(y) + tail;
    assert(s.skip(sym_bytes(y).len() as int) =~= tail);
    match y {
        Sym::Ex(d) => {
            crate::rt::lemma_le_roundtrip(d.len(), 2);
            crate::rt::lemma_le_len(d.len(), 2);
            assert(s.take(2) =~= le_seq(d.len(), 2));
            assert(s.skip(2).take(d.len() as int) =~= d);
        }
        Sym::Lb(len, back) => {
            crate::rt::lemma_le_roundtrip(32768 + len, 2);
            crate::rt::lemma_le_roundtrip(back, 2);
            crate::rt::lemma_le_len(32768 + len, 2);
            crate::rt::lemma_le_len(back, 2);
            assert(s.take(2) =~= le_seq(32768 + len, 2));
            assert(s.skip(2).take(2) =~= le_seq(back, 2));
        }
    }
}

pub proof fn lemma_sym_cut(y: Sym, k: int)
    requires sym_ok(y), 0 <= k < sym_bytes(y).len(),
    ensures sym_at(sym_bytes(y).take(k)) is None,
{
    crate::rt::lemma_pow256();
    let s = sym_bytes(y).take(k);
    match y {
        Sym::Ex(d) => {
            crate::rt::lemma_le_roundtrip(d.len(), 2);
            crate::rt::lemma_le_len(d.len(), 2);
            if k >= 2 { assert(s.take(2) =~= le_seq(d.len(), 2)); }
        }
        Sym::Lb(len, back) => {
            crate::rt::lemma_le_roundtrip(32768 + len, 2);
            crate::rt::lemma_le_len(32768 + len, 2);
            crate::rt::lemma_le_len(back, 2);
            if k >= 2 { assert(s.take(2) =~= le_seq(32768 + len, 2)); }
        }
    }
}

/// decoding what was encoded gives it back, whatever follows
pub proof fn lemma_bdec(h: Seq<u8>, ss: Seq<Sym>, tail: Seq<u8>)
    requires syms_ok(h, ss), h.len() <= MAX_RING_BUFFER_SIZE,
    ensures bdec(h, syms_bytes(ss) + tail) == expand_all(h, ss) + bdec(slid(h, expand_all(h, ss)), tail),
    decreases ss.len(),
{
    if ss.len() == 0 {
        lemma_slid_nothing(h);
        assert(syms_bytes(ss) + tail =~= tail);
        assert(expand_all(h, ss) + bdec(h, tail) =~= bdec(h, tail));
    } else {
        let rest = syms_bytes(ss.drop_first()) + tail;
        lemma_bytes_first(ss);
        assert(syms_bytes(ss) + tail =~= sym_bytes(ss[0]) + rest);
        lemma_sym_at(ss[0], rest);
        let x = expand(h, ss[0]);
        lemma_bdec(slid(h, x), ss.drop_first(), tail);
        lemma_slid(h, x, expand_all(slid(h, x), ss.drop_first()));
        assert(bdec(h, sym_bytes(ss[0]) + rest) == x + bdec(slid(h, x), rest));
        assert(x + (expand_all(slid(h, x), ss.drop_first()) + bdec(slid(h, expand_all(h, ss)), tail)) =~= expand_all(h, ss) + bdec(slid(h, expand_all(h, ss)), tail));
    }
}

pub proof fn lemma_expand_some(h: Seq<u8>, y: Sym)
    requires fits(h, y),
    ensures expand(h, y).len() > 0, sym_ok(y),
{
}

/// a stream cut short gives a proper prefix
pub proof fn lemma_bdec_cut(h: Seq<u8>, ss: Seq<Sym>, k: int)
    requires syms_ok(h, ss), 0 <= k < syms_bytes(ss).len(),
    ensures
        bdec(h, syms_bytes(ss).take(k)).len() < expand_all(h, ss).len(),
        bdec(h, syms_bytes(ss).take(k)) == expand_all(h, ss).take(bdec(h, syms_bytes(ss).take(k)).len() as int),
    decreases ss.len(),
{
    if ss.len() > 0 {
        lemma_bytes_first(ss);
        let y = ss[0];
        let x = expand(h, y);
        let n = sym_bytes(y).len() as int;
        let t = syms_bytes(ss).take(k);
        let rest = syms_bytes(ss.drop_first());
        lemma_expand_some(h, y);
        if k < n {
            assert(t =~= sym_bytes(y).take(k));
            lemma_sym_cut(y, k);
            assert(bdec(h, t) =~= Seq::<u8>::empty());
            assert(expand_all(h, ss).take(0) =~= Seq::<u8>::empty());
        } else {
            assert(t =~= sym_bytes(y) + rest.take(k - n));
            lemma_sym_at(y, rest.take(k - n));
            lemma_bdec_cut(slid(h, x), ss.drop_first(), k - n);
            assert(bdec(h, t) == x + bdec(slid(h, x), rest.take(k - n)));
            assert(bdec(h, t) =~= expand_all(h, ss).take(bdec(h, t).len() as int));
        }
    }
}

/// what zip_back_encode writes, zip_back_decode reads back, whatever follows
pub proof fn theorem_lossless(data: Seq<u8>, b: Seq<u8>, tail: Seq<u8>)
    requires back_encodes(data, b),
    ensures
        bdec(Seq::empty(), b + tail).len() >= data.len(),
        bdec(Seq::empty(), b + tail).take(data.len() as int) == data,
        tail.len() == 0 ==> bdec(Seq::empty(), b + tail) == data,
{
    let ss = choose|ss: Seq<Sym>| b == syms_bytes(ss) && #[trigger] syms_ok(Seq::empty(), ss) && expand_all(Seq::empty(), ss) == data;
    lemma_bdec(Seq::empty(), ss, tail);
    let x = bdec(slid(Seq::empty(), data), tail);
    assert((data + x).take(data.len() as int) =~= data);
    if tail.len() == 0 { assert(x =~= Seq::<u8>::empty()); assert(data + x =~= data); }
}

/// and gives less of it when the stream ends early
pub proof fn theorem_truncated(data: Seq<u8>, b: Seq<u8>, k: int)
    requires back_encodes(data, b), 0 <= k < b.len(),
    ensures ({
        let x = bdec(Seq::empty(), b.take(k));
        x.len() < data.len() && x == data.take(x.len() as int)
    }),
{
    let ss = choose|ss: Seq<Sym>| b == syms_bytes(ss) && #[trigger] syms_ok(Seq::empty(), ss) && expand_all(Seq::empty(), ss) == data;
    lemma_bdec_cut(Seq::empty(), ss, k);
}

/// every reference of a complete encoding lies within the data before it (C19)
pub proof fn theorem_references(h: Seq<u8>, ss: Seq<Sym>, i: int)
    requires syms_ok(h, ss), 0 <= i < ss.len(), h.len() <= MAX_RING_BUFFER_SIZE,
    ensures fits(slid(h, expand_all(h, ss.take(i))), ss[i]),
    decreases ss.len(),
{
    if i == 0 {
        assert(ss.take(0) =~= Seq::<Sym>::empty());
        lemma_slid_nothing(h);
    } else {
        let x = expand(h, ss[0]);
        lemma_slid(h, x, expand_all(slid(h, x), ss.drop_first().take(i - 1)));
        theorem_references(slid(h, x), ss.drop_first(), i - 1);
        assert(ss.take(i).drop_first() =~= ss.drop_first().take(i - 1));
        assert(ss.take(i)[0] == ss[0]);
    }
}

/* ---- the symbols' byte forms ---- */

pub proof fn lemma_mask(len: u16, c: u16)
    ensures
        (1u16 >> 1) | (1u16 << 15) == 0x8000u16, (0u16 >> 1) | (0u16 << 15) == 0u16,
        len <= 32767 ==> len | 0x8000u16 == len + 0x8000, len | 0u16 == len,
        c < 0x8000 ==> c & 0x8000u16 == 0 && c & !0x8000u16 == c,
        c >= 0x8000 ==> c & 0x8000u16 == 0x8000 && c & !0x8000u16 == c - 0x8000,
        (0x8000u16 << 1) | (0x8000u16 >> 15) == 1u16, (0u16 << 1) | (0u16 >> 15) == 0u16,
        // other ways to write the same
        0xffffu16 >> 1 == 0x7fff, 1u16 << 15 == 0x8000, 0u16 << 15 == 0,
        c < 0x8000 ==> c >> 15 == 0 && c & 0x7fff == c && c ^ 0x8000 == c + 0x8000,
        c >= 0x8000 ==> c >> 15 == 1 && c & 0x7fff == c - 0x8000 && c ^ 0x8000 == c - 0x8000,
        len <= 32767 ==> len ^ 0x8000u16 == len + 0x8000 && 0x8000u16 ^ len == len + 0x8000,
        len <= 32767 ==> 0x8000u16 | len == len + 0x8000, 0u16 | len == len, len <= 32767 ==> len & 0x7fff == len,
        0x8000u16 & c == c & 0x8000u16, !0x8000u16 & c == c & !0x8000u16, 0x7fffu16 & c == c & 0x7fff,
{
    assert(len <= 32767 ==> 0x8000u16 ^ len == len + 0x8000) by (bit_vector);
    assert(len <= 32767 ==> 0x8000u16 | len == len + 0x8000) by (bit_vector);
    assert(0u16 | len == len) by (bit_vector);
    assert(len <= 32767 ==> len & 0x7fff == len) by (bit_vector);
    assert(0x8000u16 & c == c & 0x8000u16 && !0x8000u16 & c == c & !0x8000u16 && 0x7fffu16 & c == c & 0x7fff) by (bit_vector);

    assert(0xffffu16 >> 1 == 0x7fff && 1u16 << 15 == 0x8000 && 0u16 << 15 == 0) by (bit_vector);
    assert(c < 0x8000 ==> c >> 15 == 0 && c & 0x7fff == c && c ^ 0x8000 == c + 0x8000) by (bit_vector);
    assert(c >= 0x8000 ==> c >> 15 == 1 && c & 0x7fff == c - 0x8000 && c ^ 0x8000 == c - 0x8000) by (bit_vector);
    assert(len <= 32767 ==> len ^ 0x8000u16 == len + 0x8000) by (bit_vector);
    assert((1u16 >> 1) | (1u16 << 15) == 0x8000u16) by (bit_vector);
    assert((0u16 >> 1) | (0u16 << 15) == 0u16) by (bit_vector);
    assert((0x8000u16 << 1) | (0x8000u16 >> 15) == 1u16) by (bit_vector);
    assert((0u16 << 1) | (0u16 >> 15) == 0u16) by (bit_vector);
    assert(len | 0u16 == len) by (bit_vector);
    assert(len <= 32767 ==> len | 0x8000u16 == len + 0x8000) by (bit_vector);
    assert(c < 0x8000 ==> c & 0x8000u16 == 0 && c & !0x8000u16 == c) by (bit_vector);
    assert(c >= 0x8000 ==> c & 0x8000u16 == 0x8000 && c & !0x8000u16 == sub(c, 0x8000)) by (bit_vector);
}

@@fn Symbol::mask ret r
@@spec
    ensures msb == 0 ==> r == 0, msb == 1 ==> r == 0x8000,
@@start
    proof { lemma_mask(0, 0); }
@@fn Symbol::compress_len ret r
@@spec
    requires len <= 32767, enum_decider <= 1,
    ensures r == len + enum_decider * 0x8000,
@@start
    proof { lemma_mask(len as u16, 0); assert(u16::MAX >> 1 == 32767) by (compute); }
@@fn Symbol::decompress_len ret r
@@spec
    ensures compressed_len < 0x8000 ==> r == (0u8, compressed_len as usize), compressed_len >= 0x8000 ==> r == (1u8, (compressed_len - 0x8000) as usize),
@@start
    proof { lemma_mask(0, compressed_len); }

@@inside <Symbol as Serialize>
    open spec fn ser(&self) -> Seq<u8> { sym_bytes(symv(*self)) }
    open spec fn ser_ok(&self) -> bool { sym_ok(symv(*self)) }
@@inside <Symbol as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { match sym_at(s) { None => None, Some(x) => Some(x.1) } }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { sym_at(s) is Some && symv(v) == sym_at(s)->Some_0.0 }

@@fn <Symbol as Serialize>::serialize
@@start
    proof { let _ = self.ser(); crate::rt::precondition(self.ser_ok()); }
    let ghost w0 = (*writer).written();
@@loop 0 iter it
    invariant
        it.seq().len() == explicit_data@.len(), forall|i: int| 0 <= i < explicit_data@.len() ==> *it.seq()[i] == explicit_data@[i],
        (*writer).written() == w0 + le_seq(explicit_data@.len(), 2) + explicit_data@.take(it.index@),
        (*writer).fut() == (*old(writer)).fut(), (*old(writer)).infallible() ==> (*writer).infallible(),
@@before for b in explicit_data.iter()
    proof { assert((*writer).written() =~= w0 + le_seq(explicit_data@.len(), 2) + explicit_data@.take(0)); }
@@bodyend 0
    proof { assert((*writer).written() =~= w0 + le_seq(explicit_data@.len(), 2) + explicit_data@.take(it.index@ + 1)); }
@@before Ok(())
    proof {
        match self { Symbol::Explicit(d) => { assert(d@.take(d@.len() as int) =~= d@); }, _ => { } }
        assert((*writer).written() =~= w0 + self.ser());
    }
@@fn <Symbol as Deserialize>::deserialize ret r
@@spec
    ensures r is None && old(stream).obeys_prophetic_iter_laws() ==> old(stream).will_return_none() && (*final(stream)).remaining().len() < 2,
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite stream.take($N).collect() ==> crate::rt::collect_up_to(stream, $N) -- assumed contract of Iterator::take and collect
@@after let (enum_decider, len) = Self::decompress_len(compressed_len);
    proof { lemma_sym_read(old(stream).remaining(), compressed_len as nat); }
@@top
pub proof fn lemma_sym_read(s: Seq<u8>, c: nat)
    ensures
        s.len() >= 2 && c == le_val(s.take(2)) && c >= 32768 ==> (s.len() < 4 ==> sym_at(s) is None) && (s.len() >= 4 ==> s.skip(2).skip(2) == s.skip(4)),
        forall|n: int| 0 <= n && 2 + n <= s.len() ==> #[trigger] s.skip(2).skip(n) == s.skip(2 + n),
        s.len() >= 2 ==> s.skip(2).len() == s.len() - 2,
{
    if s.len() >= 4 { assert(s.skip(2).skip(2) =~= s.skip(4)); }
    assert forall|n: int| 0 <= n && 2 + n <= s.len() implies #[trigger] s.skip(2).skip(n) == s.skip(2 + n) by { assert(s.skip(2).skip(n) =~= s.skip(2 + n)); }
}

@@fn zip_back_decode ret r
@@spec
    requires input.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(), r.remaining() == bdec(Seq::empty(), input.remaining()), r.will_return_none() == input.will_return_none(),

@@# ---- the window ----

@@top
impl<T, const N: usize> RingBuffer<T, N> {
    /// the values held, oldest first
    pub open spec fn view(&self) -> Seq<T> {
        if self.start > 0 { self.data@.skip(self.write_pos as int) + self.data@.take(self.write_pos as int) } else { self.data@.take(self.write_pos as int) }
    }

    pub open spec fn wf(&self) -> bool { self.write_pos <= N && 0 < N < 0x1_0000_0000 && self.start < 0x7fff_ffff_ffff_ffff }

    /// how many values were written so far
    pub open spec fn end(&self) -> nat { (self.start + self.view().len()) as nat }
}

@@fn <RingBuffer as Default>::default ret r
@@spec
    ensures r.start == 0, r.write_pos == 0, r.view().len() == 0,
@@fn RingBuffer::contains ret r
@@spec
    requires self.wf(),
    ensures r ==> self.start <= pos && (self.start == 0 ==> pos < self.end()),
@@fn RingBuffer::wrapped_around ret r
@@spec
    ensures r == (self.start > 0),
@@fn RingBuffer::iter ret r
@@spec
    requires self.wf(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        self.start == 0 ==> r.remaining().len() == self.view().len() && forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == self.view()[i],
@@rewrite self.valid_slice() .into_iter() ==> crate::rt::slice_iter(self.valid_slice()) -- assumed contract of slice iterators
@@fn RingBuffer::valid_slice ret r
@@spec
    requires self.wf(),
    ensures self.start > 0 ==> r@ == self.data@, self.start == 0 ==> r@ == self.view(),
@@fn RingBuffer::len ret r
@@spec
    requires self.wf(),
    ensures r == self.view().len(), r <= N,
@@fn RingBuffer::iter_starting ret r
@@spec
    requires self.wf(), self.start <= iter_start <= self.end(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        r.remaining().len() == self.end() - iter_start,
        forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == self.view()[iter_start - self.start + i],
@@rewrite left.into_iter() .chain(right.into_iter()) ==> crate::rt::chain(crate::rt::slice_iter(left), crate::rt::slice_iter(right)) -- assumed contracts of Iterator::chain and of slice iterators
@@fn RingBuffer::as_slices ret r
@@spec
    requires self.wf(),
    ensures r.0@ + r.1@ == self.view(),
@@fn RingBuffer::write
@@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).view() == last_n(old(self).view().push(x), N as nat), final(self).end() == old(self).end() + 1,
        final(self).start >= old(self).start,
@@start
    proof { crate::rt::stays_small((self.start + 1) as usize); }
@@finish
    proof { assert(self.view() =~= last_n(old(self).view().push(x), N as nat)); }
@@fn RingBuffer::lookback_value ret r
@@spec
    requires self.wf(), self.start <= pos <= self.end(),
    ensures r == self.end() - pos,
@@fn RingBuffer::lookback_pos ret r
@@spec
    requires self.wf(), pos <= self.view().len(),
    ensures r == self.end() - pos,
@@fn RingBuffer::read_pos ret r
@@spec
    requires self.wf(),
    ensures r == self.end(),
@@fn RingBuffer::lookback_sequence ret r
@@spec
    requires self.wf(), lb.back <= self.view().len(),
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        r.remaining().len() == if lb.len <= lb.back { lb.len } else { lb.back },
        forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == self.view()[self.view().len() - lb.back + i],
@@rewrite self.iter_starting(global_start) .take($N) ==> crate::rt::take(self.iter_starting(global_start), $N) -- assumed contract of Iterator::take
@@fn RingBuffer::write_all
@@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).view() == last_n(old(self).view() + new_data@, N as nat), final(self).end() == old(self).end() + new_data@.len(),
@@loop 0 iter it
    invariant
        self.wf(), it.seq().len() == new_data@.len(), forall|i: int| 0 <= i < new_data@.len() ==> *it.seq()[i] == new_data@[i],
        self.view() == last_n(old(self).view() + new_data@.take(it.index@), N as nat), self.end() == old(self).end() + it.index@,
@@start
    proof { assert(old(self).view() + new_data@.take(0) =~= old(self).view()); assert(self.view() =~= last_n(old(self).view() + new_data@.take(0), N as nat)); }
@@bodyend 0
    proof {
        let a = old(self).view() + new_data@.take(it.index@);
        assert(old(self).view() + new_data@.take(it.index@ + 1) =~= a.push(*x));
        assert(self.view() =~= last_n(a.push(*x), N as nat));
    }
@@finish
    proof { assert(new_data@.take(new_data@.len() as int) =~= new_data@); }

@@# ---- the decoder ----

@@top
impl<I: Iterator<Item = u8>> Decoder<I> {
    pub open spec fn wf(&self) -> bool { self.iter.obeys_prophetic_iter_laws() && self.history.wf() }
}

impl<I: Iterator<Item = u8>> vstd::std_specs::iter::IteratorSpecImpl for Decoder<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<u8> { self.decoded@ + bdec(self.history.view(), self.iter.remaining()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.iter.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<u8> { None }
}

@@fn Decoder::new ret r
@@spec
    ensures r.iter == input, r.history.wf(), r.history.view().len() == 0, r.decoded@.len() == 0,
@@fn Decoder::decode_next
@@spec
    requires old(self).wf(), old(self).decoded@.len() == 0,
    ensures
        final(self).wf(),
        final(self).decoded@ + bdec(final(self).history.view(), final(self).iter.remaining()) == bdec(old(self).history.view(), old(self).iter.remaining()),
        final(self).iter.will_return_none() == old(self).iter.will_return_none(),
        final(self).decoded@.len() == 0 ==> bdec(old(self).history.view(), old(self).iter.remaining()).len() == 0
            && bdec(final(self).history.view(), final(self).iter.remaining()).len() == 0 && final(self).iter.will_return_none(),
@@after Symbol::deserialize(&mut self.iter);
    proof { crate::rt::well_formed(symbol is Some ==> fits(self.history.view(), symv(symbol->Some_0))); }
@@rewrite self.decoded.extend(&explicit_data); ==> crate::rt::deque_extend(&mut self.decoded, &explicit_data); -- assumed contract of VecDeque::extend
@@rewrite self.decoded.extend(lookback_slice); ==> crate::rt::deque_extend(&mut self.decoded, &lookback_slice); -- assumed contract of VecDeque::extend
@@fn Decoder::duplicate ret r
@@spec
    requires old(self).history.wf(), lb.len <= lb.back <= old(self).history.view().len(),
    ensures
        final(self).iter == old(self).iter, final(self).decoded == old(self).decoded, final(self).history.wf(),
        r@ == expand2(old(self).history.view(), lb.len as nat, lb.back as nat),
        final(self).history.view() == last_n(old(self).history.view() + r@, MAX_RING_BUFFER_SIZE as nat),
@@top
pub open spec fn expand2(h: Seq<u8>, len: nat, back: nat) -> Seq<u8> { expand(h, Sym::Lb(len, back)) }
@@rewrite self.history .lookback_sequence(lb) .cloned() .collect() ==> crate::rt::collect(crate::rt::cloned(self.history.lookback_sequence(lb))) -- assumed contracts of cloned and collect
@@after .collect();
    proof { assert(bytes_to_copy@ =~= expand2(self.history.view(), lb.len as nat, lb.back as nat)); }
@@fn <Decoder as Iterator>::next ret r
@@rewrite self.decoded .pop_front() .or_else(|| { self.decode_next(); self.decoded.pop_front() }) ==> match self.decoded.pop_front() { Some(x) => Some(x), None => { self.decode_next(); proof { lemma_pop_front(self.decoded@, bdec(self.history.view(), self.iter.remaining())); } self.decoded.pop_front() } } -- Option::or_else with a closure borrowing self, written out
@@start
    proof { crate::rt::class_invariant(self.wf()); lemma_pop_front(self.decoded@, bdec(self.history.view(), self.iter.remaining())); }
@@top
pub proof fn lemma_pop_front(d: Seq<u8>, e: Seq<u8>)
    ensures
        d.len() > 0 ==> (d + e)[0] == d[0] && (d + e).drop_first() == d.drop_first() + e && (d + e).len() > 0,
        d.len() == 0 ==> d + e == e,
{
    if d.len() > 0 { assert((d + e).drop_first() =~= d.drop_first() + e); } else { assert(d + e =~= e); }
}

@@# ---- the index: positions seen so far, which is all that matters here ----

@@top
/// every position noted is one already written
pub open spec fn bounded(m: Map<Key, Vec<usize>>, p: nat) -> bool {
    forall|k: Key, i: int| #[trigger] m.contains_key(k) && 0 <= i < m[k]@.len() ==> (#[trigger] m[k]@[i]) < p
}

impl Index {
    pub open spec fn wf(&self, p: nat) -> bool {
        &&& bounded(self.old@, p)
        &&& bounded(self.new@, p)
        &&& forall|i: int| 0 <= i < self.incomplete@.len() ==> (#[trigger] self.incomplete@[i]).0 < p
    }
}

/* Hash and Eq of an array of bytes are lawful */
#[verifier::external_body]
pub proof fn axiom_key()
    ensures vstd::std_specs::hash::obeys_key_model::<Key>(),
{
}

/* what is under a key, or nothing */
#[verifier::external_body]
pub fn positions<'a>(v: Option<&'a Vec<usize>>) -> (r: It<'a, usize>)
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(),
        v is Some ==> r.remaining() == v->Some_0@, v is None ==> r.remaining().len() == 0,
{ crate::rt::cloned(crate::rt::slice_iter(v.map(|v| v.as_slice()).unwrap_or(&[]))) }

/* entry(k).and_modify(push x).or_insert(vec![x]) */
#[verifier::external_body]
pub fn note(m: &mut HashMap<Key, Vec<usize>>, k: Key, x: usize)
    ensures
        (*final(m))@.dom() == old(m)@.dom().insert(k),
        forall|j: Key| j != k && old(m)@.contains_key(j) ==> #[trigger] (*final(m))@[j] == old(m)@[j],
        old(m)@.contains_key(k) ==> (*final(m))@[k]@ == old(m)@[k]@.push(x),
        !old(m)@.contains_key(k) ==> (*final(m))@[k]@ == seq![x],
{ m.entry(k).and_modify(|v| v.push(x)).or_insert(vec![x]); }

@@fn Index::new ret r
@@spec
    ensures r.wf(0),
@@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_key(); }
@@fn Index::start_indices_for ret r
@@spec
    requires rbuf.wf(), self.wf(rbuf.end()),
    ensures
        r.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < r.remaining().len() ==> rbuf.start <= #[trigger] r.remaining()[i] < rbuf.end(),
@@rewrite |m: &'a HashMap<Key, Vec<usize>>| { ==> |m: &'a HashMap<Key, Vec<usize>>| -> (r: It<'a, usize>) requires rbuf.wf(), bounded(m@, rbuf.end()), ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), forall|i: int| 0 <= i < r.remaining().len() ==> rbuf.start <= #[trigger] r.remaining()[i] < rbuf.end(), { -- the closure's contract
@@rewrite m.get(seq_start) .map(|v| v.iter()) .unwrap_or_else(|| (&[]).into_iter()) .cloned() .filter(|x| $E) ==> crate::rt::filter(positions(m.get(seq_start)), |x: &usize| -> (b: bool) requires rbuf.wf(), ensures b ==> rbuf.start <= *x && (rbuf.start == 0 ==> *x < rbuf.end()), { $E }) -- assumed contract of Iterator::filter; the positions under a key
@@rewrite old_indices.chain(new_indices) ==> crate::rt::chain(old_indices, new_indices) -- assumed contract of Iterator::chain
@@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_key(); }
@@fn Index::update
@@spec
    requires old(self).wf(latest_pos as nat), latest_pos < usize::MAX,
    ensures final(self).wf((latest_pos + 1) as nat),
@@rewrite self.new .entry(key_val) .and_modify(|v| v.push(key_pos)) .or_insert(vec![key_pos]); ==> note(&mut self.new, key_val, key_pos); -- assumed contract of the entry API
@@start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { axiom_key(); }
@@fn Index::update_incomplete_keys ret r
@@spec
    requires old(self).wf(latest_pos as nat), latest_pos < usize::MAX,
    ensures
        final(self).old == old(self).old, final(self).new == old(self).new,
        final(self).wf((latest_pos + 1) as nat),
        r is Some ==> r->Some_0.0 <= latest_pos,
@@rewrite for (_, k) in self.incomplete.iter_mut() ==> for vp_i in it: 0..self.incomplete.len() -- iter_mut written as its elements one by one
@@loop 0
    invariant
        self.old == old(self).old, self.new == old(self).new, self.incomplete@.len() > 0, it.seq().len() == self.incomplete@.len(),
        forall|i: int| 0 <= i < self.incomplete@.len() ==> (#[trigger] self.incomplete@[i]).0 < latest_pos + 1,
@@bodystart 0
    let k = &mut crate::rt::deque_mut(&mut self.incomplete, vp_i).1;
@@rewrite self.incomplete.front().unwrap() ==> crate::rt::deque_get(&self.incomplete, 0).unwrap() -- front() is get(0)
@@rewrite vec.try_into().unwrap() ==> crate::rt::vec_to_array(vec).unwrap() -- assumed contract of Vec::try_into
@@fn IndexedHistory::new ret r
@@spec
    ensures r.wf(), r.data.view().len() == 0,
@@top
impl IndexedHistory {
    pub open spec fn wf(&self) -> bool { self.data.wf() && self.index.wf(self.data.end()) }
}
@@fn IndexedHistory::subseqs_starting ret r
@@rewrite impl Iterator<Item = (usize, impl Iterator<Item = u8> + '_)> ==> It<'_, (usize, It<'_, u8>)> -- the iterator type named
@@spec
    requires self.wf(),
    ensures
        r.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < r.remaining().len() ==> {
            let (back, rest) = #[trigger] r.remaining()[i];
            back <= self.data.view().len() && rest.obeys_prophetic_iter_laws() && rest.remaining() == self.data.view().skip(self.data.view().len() - back)
        },
@@rewrite let valid_entries = self.index .start_indices_for(prefix, &self.data) .count(); ==>  -- only printed
@@rewrite self.index .start_indices_for(prefix, &self.data) .map(|starting_index| { ==> crate::rt::map(self.index.start_indices_for(prefix, &self.data), |starting_index: usize| -> (r: (usize, It<'_, u8>)) requires self.wf(), self.data.start <= starting_index < self.data.end(), ensures r.0 <= self.data.view().len(), r.1.obeys_prophetic_iter_laws(), r.1.remaining() == self.data.view().skip(self.data.view().len() - r.0), { -- Iterator::map through its assumed contract; the closure given its own
@@rewrite (lookback, subseq.cloned()) ==> let vp_c = crate::rt::cloned(subseq); proof { assert(vp_c.remaining() =~= self.data.view().skip(self.data.view().len() - lookback)); } (lookback, vp_c) -- assumed contract of cloned
@@fn IndexedHistory::write
@@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data.view() == slid(old(self).data.view(), seq![b]),
@@finish
    proof { assert(old(self).data.view() + seq![b] =~= old(self).data.view().push(b)); }
@@fn IndexedHistory::write_all
@@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data.view() == slid(old(self).data.view(), bytes@),
@@start
    proof { assert(self.data.view() + bytes@.take(0) =~= self.data.view()); lemma_slid_nothing(self.data.view()); assert(bytes@.take(0) =~= Seq::<u8>::empty()); }
@@loop 0 iter it
    invariant
        self.wf(), it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *it.seq()[i] == bytes@[i],
        self.data.view() == slid(old(self).data.view(), bytes@.take(it.index@)),
@@bodyend 0
    proof {
        lemma_slid(old(self).data.view(), bytes@.take(it.index@), seq![*b]);
        assert(bytes@.take(it.index@ + 1) =~= bytes@.take(it.index@) + seq![*b]);
    }
@@finish
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }

@@# ---- buffered input ----

@@top
impl<I: Iterator<Item = T>, T> Buffered<I, T> {
    /// everything not yet accepted
    #[verifier::prophetic]
    pub open spec fn pending(&self) -> Seq<T> { self.saved@ + self.iter.remaining() }
    pub open spec fn wf(&self) -> bool { self.read_pos <= self.saved@.len() && self.iter.obeys_prophetic_iter_laws() }
}

impl<I: Iterator<Item = T>, T: Copy> vstd::std_specs::iter::IteratorSpecImpl for Buffered<I, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<T> { self.pending().skip(self.read_pos as int) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.iter.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<T> { None }
}

/* b.take(n), element by element into a vector */
fn take_into<I: Iterator<Item = u8>>(b: &mut Buffered<I, u8>, n: usize, out: &mut Vec<u8>) -> (got: usize)
    requires old(b).wf(),
    ensures
        (*final(b)).wf(), (*final(b)).pending() == old(b).pending(), (*final(b)).read_pos == old(b).read_pos + got,
        got <= n, got < n ==> (*final(b)).pending().len() == (*final(b)).read_pos,
        got < n ==> (*final(b)).iter.will_return_none(),
        (*final(out))@ == old(out)@ + (*final(b)).saved@.subrange(old(b).read_pos as int, (*final(b)).read_pos as int),
        old(b).saved@.len() <= (*final(b)).saved@.len(),
        old(b).saved@ == (*final(b)).saved@.take(old(b).saved@.len() as int),
{
    let mut got = 0usize;
    proof { assert(out@ + b.saved@.subrange(b.read_pos as int, b.read_pos as int) =~= out@); assert(b.saved@.take(b.saved@.len() as int) =~= b.saved@); }
    while got < n
        invariant
            (*b).wf(), (*b).pending() == old(b).pending(), (*b).read_pos == old(b).read_pos + got,
            got <= n,
            (*out)@ == old(out)@ + (*b).saved@.subrange(old(b).read_pos as int, (*b).read_pos as int),
            old(b).saved@.len() <= (*b).saved@.len(),
            old(b).saved@ == (*b).saved@.take(old(b).saved@.len() as int),
        decreases n - got,
    {
        let ghost s0 = b.saved@;
        match b.next() {
            Some(x) => {
                out.push(x);
                got = got + 1;
                proof {
                    assert(b.saved@.take(old(b).saved@.len() as int) =~= s0.take(old(b).saved@.len() as int));
                    assert(out@ =~= old(out)@ + b.saved@.subrange(old(b).read_pos as int, b.read_pos as int));
                }
            }
            None => { return got; }
        }
    }
    got
}

@@fn Buffered::new ret r
@@spec
    ensures r.iter == iter, r.saved@.len() == 0, r.read_pos == 0,
@@fn Buffered::restore
@@spec
    ensures final(self).iter == old(self).iter, final(self).saved == old(self).saved, final(self).read_pos == 0,
@@fn Buffered::accept
@@spec
    requires old(self).saved@.len() >= n, old(self).read_pos >= n,
    ensures final(self).iter == old(self).iter, final(self).saved@ == old(self).saved@.skip(n as int), final(self).read_pos == old(self).read_pos - n,
@@loop 0 iter it
    invariant
        it.seq().len() == n, self.iter == old(self).iter, self.read_pos == old(self).read_pos,
        self.saved@ == old(self).saved@.skip(it.index@ as int),
        old(self).saved@.len() >= n,
@@bodyend 0
    proof { assert(self.saved@ =~= old(self).saved@.skip(it.index@ + 1)); }
@@fn Buffered::can_read_saved ret r
@@spec
    ensures r == (self.read_pos < self.saved@.len()), r ==> self.read_pos < usize::MAX,
@@fn Buffered::next_saved ret r
@@spec
    ensures
        final(self).iter == old(self).iter, final(self).saved == old(self).saved,
        old(self).read_pos < old(self).saved@.len() ==> r is Some && *r->Some_0 == old(self).saved@[old(self).read_pos as int] && final(self).read_pos == old(self).read_pos + 1,
        old(self).read_pos >= old(self).saved@.len() ==> r is None && final(self).read_pos == old(self).read_pos,
@@rewrite self.saved.get(read_pos) ==> crate::rt::deque_get(&self.saved, read_pos) -- assumed contract of VecDeque::get
@@fn Buffered::read_and_save
@@spec
    ensures
        final(self).read_pos == old(self).read_pos,
        final(self).saved@ == old(self).saved@ || final(self).saved@.len() == old(self).saved@.len() + 1 && final(self).saved@.drop_last() == old(self).saved@,
        final(self).iter.obeys_prophetic_iter_laws() == old(self).iter.obeys_prophetic_iter_laws(),
        old(self).iter.obeys_prophetic_iter_laws() ==> {
            &&& final(self).iter.will_return_none() == old(self).iter.will_return_none()
            &&& final(self).pending() == old(self).pending()
            &&& final(self).saved@ == old(self).saved@ ==> final(self).iter.remaining().len() == 0 && final(self).iter.will_return_none()
        },
@@finish
    proof { if old(self).iter.obeys_prophetic_iter_laws() { assert(self.pending() =~= old(self).pending()); } }
@@fn <Buffered as Iterator>::next ret r
@@spec
    ensures
        old(self).wf() ==> {
            &&& final(self).wf()
            &&& final(self).pending() == old(self).pending()
            &&& final(self).read_pos == old(self).read_pos + if r is Some { 1int } else { 0 }
            &&& r is Some ==> r->Some_0 == final(self).saved@[old(self).read_pos as int]
            &&& r is None ==> final(self).iter.will_return_none() && final(self).pending().len() == final(self).read_pos
            &&& old(self).saved@.len() <= final(self).saved@.len()
            &&& final(self).saved@.take(old(self).saved@.len() as int) == old(self).saved@
        },
@@start
    proof { crate::rt::class_invariant(self.read_pos <= self.saved@.len()); }
@@rewrite self.next_saved() .map(|x| *x) ==> let vp_r = match self.next_saved() { Some(x) => Some(*x), None => None }; proof { lemma_pending(old(self).pending(), old(self).read_pos as int, self.saved@, self.iter.remaining()); if old(self).wf() { assert(self.saved@.take(old(self).saved@.len() as int) =~= old(self).saved@); } } vp_r -- Option::map with a copying closure, written out
@@top
pub proof fn lemma_pending<T>(p: Seq<T>, k: int, saved: Seq<T>, more: Seq<T>)
    ensures
        p == saved + more && 0 <= k < saved.len() ==> p.skip(k).len() > 0 && p.skip(k)[0] == saved[k] && p.skip(k).drop_first() == p.skip(k + 1),
        p == saved + more && k >= saved.len() && more.len() == 0 ==> p.len() <= k,
        p.len() == k ==> p.skip(k).len() == 0,
{
    if p == saved + more && 0 <= k < saved.len() { assert(p.skip(k).drop_first() =~= p.skip(k + 1)); }
}

@@# ---- the encoder ----

@@top
impl<I: Iterator<Item = u8>> Encoder<I> {
    pub open spec fn wf(&self) -> bool { self.history.wf() && self.input.wf() }
    pub open spec fn hist(&self) -> Seq<u8> { self.history.data.view() }
}

/// a repetition: the next bytes are already there, behind the current position
pub open spec fn repeats(h: Seq<u8>, lb: LookBack, next: Seq<u8>) -> bool {
    &&& lb.len <= lb.back <= h.len()
    &&& lb.len <= 32767 && lb.len <= next.len()
    &&& h.skip(h.len() - lb.back).take(lb.len as int) == next.take(lb.len as int)
}

@@fn Encoder::new ret r
@@spec
    ensures r.history.wf(), r.history.data.view().len() == 0, r.input.iter == input, r.input.saved@.len() == 0, r.input.read_pos == 0,
@@fn Encoder::next_symbols
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@spec
    requires old(self).wf(), old(self).input.read_pos == 0, old(channel)@.len() == 0,
    ensures
        final(self).wf(), final(self).input.read_pos == 0,
        syms_ok(old(self).hist(), symsv((*final(channel))@)),
        final(self).hist() == slid(old(self).hist(), expand_all(old(self).hist(), symsv((*final(channel))@))),
        old(self).input.pending() == expand_all(old(self).hist(), symsv((*final(channel))@)) + final(self).input.pending(),
        (*final(channel))@.len() == 0 ==> old(self).input.pending().len() == 0 && final(self).input.iter.will_return_none(),
@@rewrite let mut curr_explicit: Vec<u8> = Vec::new(); ==> let mut curr_explicit: Vec<u8> = Vec::new(); let ghost mut fuel = self.input.pending().len() + 1; let ghost h0 = self.hist(); proof { lemma_slid_nothing(h0); assert(channel@ =~= Seq::<Symbol>::empty()); lemma_no_syms(h0); assert(curr_explicit@ + self.input.pending() =~= self.input.pending()); } -- ghost state only
@@loop 0
    invariant
        self.wf(), channel@.len() == 0, h0.len() <= MAX_RING_BUFFER_SIZE, self.input.read_pos == 0,
        h0 == old(self).hist(), self.hist() == slid(h0, curr_explicit@),
        old(self).input.pending() == curr_explicit@ + self.input.pending(),
        self.input.pending().len() < fuel,
@@bodystart 0
    proof { fuel = self.input.pending().len(); }
@@rewrite match self.next_repetition() { Some(lb@LookBack { len: rep_len, .. }) if $E => { ==> let vp_rep = self.next_repetition(); let vp_use = match &vp_rep { Some(LookBack { len: rep_len, .. }) => { let rep_len = *rep_len; $E } None => false }; match vp_use { true => { let lb = vp_rep.unwrap(); -- the guard evaluated before the match (Verus loses track of self behind guards)
@@before push_explicit(curr_explicit, channel);
    let ghost ce = curr_explicit@;
    proof { lemma_no_syms(h0); assert(channel@ =~= Seq::<Symbol>::empty()); }
@@before push_explicit(curr_explicit, channel); #1
    let ghost ce2 = curr_explicit@;
    proof { lemma_no_syms(h0); assert(channel@ =~= Seq::<Symbol>::empty()); }
@@after push_explicit(curr_explicit, channel); #1
    proof { assert(expand_all(h0, symsv(channel@)) == ce2); }
@@before push_lookback(self, lb, channel);
    let ghost (ch1, hist1, pend1) = (channel@, self.hist(), self.input.pending());
    proof { assert(expand_all(h0, symsv(ch1)) == ce); }
@@after push_lookback(self, lb, channel);
    proof {
        let y = symv(Symbol::LookBack(lb));
        assert(symsv(channel@) =~= symsv(ch1).push(y));
        lemma_push(h0, symsv(ch1), y);
        lemma_slid(h0, ce, expand(hist1, y));
    }
    proof { lemma_seq_assoc3(ce, expand(hist1, symv(Symbol::LookBack(lb))), self.input.pending()); }
@@before let must_return
    let ghost (ce0, hist0) = (curr_explicit@, self.hist());
@@after let must_return = extend_explicit(self, &mut curr_explicit);
    proof {
        let d = curr_explicit@.skip(ce0.len() as int);
        assert(ce0 + d =~= curr_explicit@);
        lemma_slid(h0, ce0, d);
    }
    proof { lemma_seq_assoc3(ce0, curr_explicit@.skip(ce0.len() as int), self.input.pending()); }
@@top
pub proof fn lemma_seq_assoc3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures a + (b + c) == (a + b) + c,
{
    assert(a + (b + c) =~= (a + b) + c);
}
pub proof fn lemma_no_syms(h: Seq<u8>)
    ensures
        symsv(Seq::empty()) == Seq::<Sym>::empty(), syms_ok(h, symsv(Seq::empty())), expand_all(h, symsv(Seq::empty())) == Seq::<u8>::empty(),
        forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x,
{
    assert(symsv(Seq::empty()) =~= Seq::<Sym>::empty());
    assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); }
}
@@fn Encoder::next_symbols/push_explicit
@@spec
    ensures
        forall|h: Seq<u8>| h.len() <= MAX_RING_BUFFER_SIZE && #[trigger] syms_ok(h, symsv(old(channel)@)) ==> syms_ok(h, symsv((*final(channel))@))
            && expand_all(h, symsv((*final(channel))@)) == expand_all(h, symsv(old(channel)@)) + curr_explicit@,
        (*final(channel))@.len() == old(channel)@.len() ==> curr_explicit@.len() == 0,
        (*final(channel))@.len() >= old(channel)@.len(),
@@loop 0
    invariant
        forall|h: Seq<u8>| h.len() <= MAX_RING_BUFFER_SIZE && #[trigger] syms_ok(h, symsv(old(channel)@)) ==> syms_ok(h, symsv(channel@))
            && expand_all(h, symsv(channel@)) + curr_explicit@ == expand_all(h, symsv(old(channel)@)) + c0,
        channel@.len() >= old(channel)@.len(),
        channel@.len() == old(channel)@.len() ==> curr_explicit@ == c0,
    decreases curr_explicit@.len(),
@@start
    let ghost c0 = curr_explicit@;
    proof { assert(u16::MAX >> 1 == 32767) by (compute); assert(Symbol::MAX_LEN == 32767); }
@@bodystart 0
    proof { assert(u16::MAX >> 1 == 32767) by (compute); assert(Symbol::MAX_LEN == 32767); }
@@before let rest = curr_explicit.split_off(Symbol::MAX_LEN);
    let ghost (ch0, c1) = (channel@, curr_explicit@);
@@bodyend 0
    proof { assert(channel@.drop_last() =~= ch0); assert(c1 =~= c1.take(32767) + curr_explicit@); lemma_push_explicit(ch0, channel@, c1.take(32767), c1, curr_explicit@); }
@@before if !curr_explicit.is_empty()
    let ghost (ch2, c2) = (channel@, curr_explicit@);
@@finish
    proof {
        if c2.len() > 0 { assert(channel@.drop_last() =~= ch2); assert(c2 + Seq::<u8>::empty() =~= c2); lemma_push_explicit(ch2, channel@, c2, c2, Seq::empty()); }
        assert forall|h: Seq<u8>| h.len() <= MAX_RING_BUFFER_SIZE && #[trigger] syms_ok(h, symsv(old(channel)@)) implies
            syms_ok(h, symsv(channel@)) && expand_all(h, symsv(channel@)) == expand_all(h, symsv(old(channel)@)) + c0 by {
            assert(expand_all(h, symsv(ch2)) + c2 == expand_all(h, symsv(old(channel)@)) + c0);
            if c2.len() > 0 { assert(expand_all(h, symsv(channel@)) + Seq::<u8>::empty() =~= expand_all(h, symsv(channel@))); }
            else { assert(expand_all(h, symsv(ch2)) + c2 =~= expand_all(h, symsv(ch2))); }
        }
    }
@@top
/// one explicit symbol more
pub proof fn lemma_push_explicit(ch0: Seq<Symbol>, ch1: Seq<Symbol>, d: Seq<u8>, c0: Seq<u8>, c1: Seq<u8>)
    requires
        ch1.len() == ch0.len() + 1, ch1.drop_last() == ch0, symv(ch1.last()) == Sym::Ex(d), 0 < d.len() <= 32767, c0 == d + c1,
    ensures
        forall|h: Seq<u8>| h.len() <= MAX_RING_BUFFER_SIZE && #[trigger] syms_ok(h, symsv(ch0)) ==> syms_ok(h, symsv(ch1))
            && expand_all(h, symsv(ch1)) + c1 == expand_all(h, symsv(ch0)) + c0,
{
    assert forall|h: Seq<u8>| h.len() <= MAX_RING_BUFFER_SIZE && #[trigger] syms_ok(h, symsv(ch0)) implies syms_ok(h, symsv(ch1))
            && expand_all(h, symsv(ch1)) + c1 == expand_all(h, symsv(ch0)) + c0 by {
        lemma_push(h, symsv(ch0), Sym::Ex(d));
        assert(symsv(ch1) =~= symsv(ch0).push(Sym::Ex(d))) by {
            assert forall|i: int| 0 <= i < ch0.len() implies ch1[i] == ch0[i] by { assert(ch1.drop_last()[i] == ch1[i]); }
        }
        assert(expand_all(h, symsv(ch0)) + d + c1 =~= expand_all(h, symsv(ch0)) + c0);
    }
}
@@fn Encoder::next_symbols/push_lookback
@@spec
    requires
        old(encoder).wf(), lb.len > 0, repeats(old(encoder).hist(), lb, old(encoder).input.saved@),
    ensures
        (*final(encoder)).wf(), (*final(encoder)).input.read_pos == 0,
        (*final(channel))@ == old(channel)@.push(Symbol::LookBack(lb)),
        (*final(encoder)).hist() == slid(old(encoder).hist(), expand(old(encoder).hist(), symv(Symbol::LookBack(lb)))),
        old(encoder).input.pending() == expand(old(encoder).hist(), symv(Symbol::LookBack(lb))) + (*final(encoder)).input.pending(),
@@start
    proof { assert(encoder.input.saved@.take(lb.len as int) =~= expand(encoder.hist(), Sym::Lb(lb.len as nat, lb.back as nat))); }
@@fn Encoder::next_symbols/extend_explicit ret r
@@spec
    requires old(encoder).wf(),
    ensures
        (*final(encoder)).wf(), (*final(encoder)).input.read_pos == 0,
        (*final(curr_explicit))@.len() >= old(curr_explicit)@.len(),
        (*final(curr_explicit))@.take(old(curr_explicit)@.len() as int) == old(curr_explicit)@,
        (*final(encoder)).hist() == slid(old(encoder).hist(), (*final(curr_explicit))@.skip(old(curr_explicit)@.len() as int)),
        old(encoder).input.pending() == (*final(curr_explicit))@.skip(old(curr_explicit)@.len() as int) + (*final(encoder)).input.pending(),
        !r ==> (*final(curr_explicit))@.len() > old(curr_explicit)@.len(),
        r ==> (*final(encoder)).input.pending().len() == 0 && (*final(encoder)).input.iter.will_return_none(),
@@rewrite let mut new_bytes: Vec<u8> = (&mut encoder.input) .take($N) .collect(); ==> let mut new_bytes: Vec<u8> = Vec::new(); let vp_got = take_into(&mut encoder.input, $N, &mut new_bytes); -- take(n).collect() written as reading element by element
@@fn Encoder::next_repetition ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@fattr #[verifier::loop_isolation(false)]
@@spec
    requires old(self).wf(), old(self).input.read_pos == 0,
    ensures
        final(self).wf(), final(self).history == old(self).history, final(self).input.pending() == old(self).input.pending(),
        r is Some ==> repeats(final(self).hist(), r->Some_0, final(self).input.saved@),
@@rewrite enc.rep_buf.extend((&mut enc.input).take($N)); ==> let vp_n = $N; take_into(&mut enc.input, vp_n, &mut enc.rep_buf); proof { lemma_more(s0, n0, b0, enc.input.saved@, enc.input.read_pos as int, enc.rep_buf@); } -- extend(take(n)) written as reading element by element
@@rewrite |enc: &mut Encoder<I>| { ==> |enc: &mut Encoder<I>| requires filling(*old(enc)), ensures filling(*final(enc)), (*final(enc)).history == old(enc).history, (*final(enc)).input.pending() == old(enc).input.pending(), old(enc).rep_buf@.len() <= (*final(enc)).rep_buf@.len(), old(enc).rep_buf@ == (*final(enc)).rep_buf@.take(old(enc).rep_buf@.len() as int), { let ghost (s0, n0, b0) = (enc.input.saved@, enc.input.read_pos as int, enc.rep_buf@); -- the closure's contract
@@start
    let ghost mut fuel: int = self.input.pending().len() as int + 1;
@@loop 0
    invariant
        filling(*self), self.history == old(self).history, self.input.pending() == old(self).input.pending(),
        self.input.pending().len() - self.rep_buf@.len() < fuel,
@@bodystart 0
    proof { fuel = self.input.pending().len() - self.rep_buf@.len(); }
@@rewrite match self.buffered_repetition() { Some(lb) if $E => { ==> let vp_res = self.buffered_repetition(); let vp_full = match &vp_res { Some(lb) => $E, None => false }; match vp_full { true => { let lb = vp_res.unwrap(); -- the guard evaluated before the match (Verus loses track of self behind guards)
@@rewrite res@_ => return res ==> false => return vp_res -- the same
@@before return Some(lb);
    proof { assert(self.rep_buf@.take(prev_len as int) =~= self.rep_buf@); lemma_repeats(self.hist(), lb, self.rep_buf@, self.input.saved@, self.input.read_pos as int); }
@@before more_data(self);
    proof { if self.rep_buf@.len() == 0 { assert(self.rep_buf@ =~= self.input.saved@.take(0)); } }
@@top
pub proof fn lemma_more(s0: Seq<u8>, n0: int, b0: Seq<u8>, s1: Seq<u8>, n1: int, b1: Seq<u8>)
    requires 0 <= n0 <= n1 <= s1.len(), n0 <= s0.len() <= s1.len(), s0 == s1.take(s0.len() as int), b0 == s0.take(n0), b1 == b0 + s1.subrange(n0, n1),
    ensures b1 == s1.take(n1), b0.len() <= b1.len(), b0 == b1.take(b0.len() as int),
{
    assert(b0 =~= b1.take(b0.len() as int));
    assert(b1 =~= s1.take(n1));
}
/// rep_buf holds what was read of the input
pub open spec fn filling<I: Iterator<Item = u8>>(e: Encoder<I>) -> bool {
    e.wf() && e.input.read_pos == e.rep_buf@.len() && e.rep_buf@ == e.input.saved@.take(e.input.read_pos as int)
}
@@fn Encoder::buffered_repetition ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@spec
    requires old(self).wf(), old(self).rep_buf@ == old(self).input.saved@.take(old(self).input.read_pos as int),
    ensures
        *final(self) == *old(self),
        r is Some ==> repeats(final(self).hist(), r->Some_0, final(self).rep_buf@),
        r is Some ==> repeats(final(self).hist(), r->Some_0, final(self).input.saved@),
@@rewrite <&[u8] as TryInto<&Key>>::try_into(&self.rep_buf[$R]) .unwrap() .clone() ==> key_of(&self.rep_buf[$R]) -- assumed contract of the conversion from slices to arrays
@@forwhile 0 vp_found
@@loop 0
    invariant
        self.wf(), *self == *old(self), vp_found.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < vp_found.remaining().len() ==> {
            let (back, rest) = #[trigger] vp_found.remaining()[i];
            back <= self.hist().len() && rest.obeys_prophetic_iter_laws() && rest.remaining() == self.hist().skip(self.hist().len() - back)
        },
        repeats(self.hist(), LookBack { len: max_rep_len, back: max_rep_back }, self.rep_buf@),
@@start
    proof { assert(u16::MAX >> 1 == 32767) by (compute); }
@@before let mut max_rep_len = 0;
    proof { lemma_same_start(self.hist(), 0, self.rep_buf@, 0); }
@@bodystart 0
    let ghost sub = subseq.remaining();
    proof { assert(u16::MAX >> 1 == 32767) by (compute); assert(Symbol::MAX_LEN == 32767); }
@@before if rep_len > max_rep_len
    proof { lemma_same_start(self.hist(), lookback as int, self.rep_buf@, rep_len as int); }
@@before Some(LookBack { len: max_rep_len, back: max_rep_back })
    proof { lemma_repeats(self.hist(), LookBack { len: max_rep_len, back: max_rep_back }, self.rep_buf@, self.input.saved@, self.input.read_pos as int); }
@@rewrite self.rep_buf.iter().cloned().take($N) ==> crate::rt::take(crate::rt::cloned(crate::rt::slice_iter(&self.rep_buf)), $N) -- assumed contracts of iter, cloned and take
@@rewrite input_iter.zip(subseq) .take_while(|(a, b)| $E) .count() ==> { let ghost vp_a = input_iter.remaining(); let vp_z = crate::rt::zip(input_iter, subseq); let ghost vp_p = vp_z.remaining(); let vp_n = crate::rt::count_while(vp_z, |p: &(u8, u8)| -> (e: bool) ensures e == (p.0 == p.1), { let (a, b) = p; $E }); proof { lemma_zipped(vp_p, vp_a, sub, vp_n as int); assert(vp_a =~= crate::rt::take_upto(self.rep_buf@, 32767)); } vp_n } -- assumed contracts of zip, take_while and count
@@top
pub proof fn lemma_zipped(p: Seq<(u8, u8)>, a: Seq<u8>, b: Seq<u8>, n: int)
    requires
        0 <= n <= p.len(), p.len() <= a.len(), p.len() <= b.len(),
        forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == (a[i], b[i]),
        forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).0 == p[i].1,
    ensures forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i],
{
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == a[i] by { let x = p[i]; }
}
pub proof fn lemma_same_start(h: Seq<u8>, back: int, next: Seq<u8>, n: int)
    requires 0 <= back <= h.len(), 0 <= n <= back, n <= next.len(), forall|i: int| 0 <= i < n ==> #[trigger] h.skip(h.len() - back)[i] == next[i],
    ensures h.skip(h.len() - back).take(n) == next.take(n), n == 0 ==> h.skip(h.len() as int).take(0) == next.take(0),
{
    assert(h.skip(h.len() - back).take(n) =~= next.take(n));
    assert(h.skip(h.len() as int).take(0) =~= next.take(0));
}
/// what repeats the start of the input repeats the input
pub proof fn lemma_repeats(h: Seq<u8>, lb: LookBack, start: Seq<u8>, input: Seq<u8>, n: int)
    requires repeats(h, lb, start), 0 <= n <= input.len(), start == input.take(n),
    ensures repeats(h, lb, input),
{
    assert(start.take(lb.len as int) =~= input.take(lb.len as int));
}
#[verifier::external_body]
pub fn key_of(s: &[u8]) -> (r: Key)
    requires s@.len() == 6,
    ensures r@ == s@,
{ s.try_into().unwrap() }
@@fn Encoder::commit_bytes
@@spec
    requires old(self).wf(), nbytes <= old(self).input.saved@.len(),
    ensures
        final(self).wf(), final(self).input.read_pos == 0,
        final(self).hist() == slid(old(self).hist(), old(self).input.saved@.take(nbytes as int)),
        old(self).input.pending() == old(self).input.saved@.take(nbytes as int) + final(self).input.pending(),
@@start
    let ghost s0 = self.input.saved@;
@@loop 0 iter it
    invariant
        self.wf(), it.seq().len() == nbytes, self.input.read_pos == it.index@, nbytes <= s0.len(),
        s0.len() <= self.input.saved@.len(), self.input.saved@.take(s0.len() as int) == s0,
        self.input.pending() == old(self).input.pending(),
        self.hist() == slid(old(self).hist(), s0.take(it.index@)),
@@fn zip_back_encode ret r
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@spec
    requires bytes.obeys_prophetic_iter_laws(),
    ensures
        r is Ok ==> exists|b: Seq<u8>| #[trigger] back_encodes(bytes.remaining(), b) && (*final(output)).written() == (*old(output)).written() + b,
        r is Ok ==> (*final(output)).fut() == (*old(output)).fut(),
        (*old(output)).infallible() ==> r is Ok,
@@rewrite for s in channel.drain(..) ==> let vp_all = crate::rt::drain_all(&mut channel); for vp_i in it: 0..vp_all.len() -- drain(..) written as taking all elements and visiting them one by one
@@after encoder.next_symbols(&mut channel); #0
    let ghost h1 = Seq::<u8>::empty();
    let ghost mut fuel = encoder.input.pending().len() + expand_all(Seq::empty(), symsv(channel@)).len() + 1;
    let ghost mut ss: Seq<Sym> = Seq::empty();
    let ghost mut h2: Seq<u8> = Seq::empty();
    proof {
        lemma_no_syms(h1); lemma_slid_nothing(h1);
        assert((*output).written() + syms_bytes(ss) =~= (*output).written());
        assert(bytes.remaining() =~= Seq::<u8>::empty() + bytes.remaining());
        lemma_seq_assoc3(expand_all(h1, ss), expand_all(h1, symsv(channel@)), encoder.input.pending());
    }
@@loop 0
    invariant
        encoder.wf(), encoder.input.read_pos == 0,
        h1 == Seq::<u8>::empty(), syms_ok(h1, ss), h2 == slid(h1, expand_all(h1, ss)), syms_ok(h2, symsv(channel@)),
        encoder.hist() == slid(h2, expand_all(h2, symsv(channel@))),
        (*output).written() == (*old(output)).written() + syms_bytes(ss),
        bytes.remaining() == expand_all(h1, ss) + expand_all(h2, symsv(channel@)) + encoder.input.pending(),
        channel@.len() == 0 ==> encoder.input.pending().len() == 0,
        (*output).fut() == (*old(output)).fut(), (*old(output)).infallible() ==> (*output).infallible(),
        encoder.input.pending().len() + expand_all(h2, symsv(channel@)).len() < fuel,
@@bodystart 0
    proof { fuel = encoder.input.pending().len() + expand_all(h2, symsv(channel@)).len(); }
    let ghost (ss0, all, w1) = (ss, channel@, (*output).written());
    proof { lemma_join(h1, ss0, symsv(all)); lemma_slid(h1, expand_all(h1, ss0), expand_all(h2, symsv(all))); assert(symsv(all.take(0)) =~= Seq::<Sym>::empty()); assert(w1 + syms_bytes(symsv(all.take(0))) =~= w1); }
@@loop 1
    invariant
        it.seq().len() == vp_all@.len(), vp_all@ == all, channel@.len() == 0,
        h2.len() <= MAX_RING_BUFFER_SIZE, syms_ok(h2, symsv(all)),
        (*output).written() == w1 + syms_bytes(symsv(all.take(it.index@))),
        (*output).fut() == (*old(output)).fut(), (*old(output)).infallible() ==> (*output).infallible(),
@@bodystart 1
    let s = &vp_all[vp_i];
    proof {
        theorem_references(h2, symsv(all), vp_i as int);
        lemma_expand_some(slid(h2, expand_all(h2, symsv(all).take(vp_i as int))), symsv(all)[vp_i as int]);
        let _ = s.ser_ok(); let _ = s.ser();
    }
@@bodyend 1
    proof {
        let t = symsv(all.take(vp_i + 1));
        assert(t.drop_last() =~= symsv(all.take(vp_i as int)));
        assert(t.last() == symv(*s));
        assert((*output).written() =~= w1 + syms_bytes(t));
    }
@@before encoder.next_symbols(&mut channel); #1
    proof {
        assert(all.take(all.len() as int) =~= all);
        lemma_bytes_join(ss0, symsv(all));
        ss = ss0 + symsv(all);
        h2 = encoder.hist();
        assert((*output).written() =~= (*old(output)).written() + syms_bytes(ss));
    }
    let ghost pend = encoder.input.pending();
@@after encoder.next_symbols(&mut channel); #1
    proof { lemma_seq_assoc3(expand_all(h1, ss), expand_all(h2, symsv(channel@)), encoder.input.pending()); }
@@before Ok(())
    proof {
        lemma_no_syms(h2);
        assert(symsv(channel@) =~= Seq::<Sym>::empty());
        assert(expand_all(h1, ss) + Seq::<u8>::empty() + encoder.input.pending() =~= expand_all(h1, ss));
        assert(back_encodes(bytes.remaining(), syms_bytes(ss)));
    }
