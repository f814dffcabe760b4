@@module ser src/ser.rs

@@top
use vstd::std_specs::iter::IteratorSpec;

/* What a byte sequence parses to: `plen` is the number of bytes consumed
   (None: refused), `pval` tells whether v is the value. */

/// everything deserialize promises about the stream it reads from
#[verifier::prophetic]
pub open spec fn deser_post<I: Iterator<Item = u8>, T>(pre: I, post: I, len: Option<nat>, r: Option<T>) -> bool {
    &&& post.obeys_prophetic_iter_laws()
    &&& post.will_return_none() == pre.will_return_none()
    &&& (post.decrease() is Some <==> pre.decrease() is Some)
    &&& match len {
        Some(n) => n <= pre.remaining().len() && r is Some && post.remaining() == pre.remaining().skip(n as int),
        None => r is None && post.remaining().len() <= pre.remaining().len(),
    }
}

/// everything serialize promises about the sink it writes to
#[verifier::prophetic]
pub open spec fn ser_post<W: io::Write>(pre: W, post: W, ok: bool, bytes: Seq<u8>, r: io::Result<()>) -> bool {
    &&& r is Ok ==> ok && post.written() == pre.written() + bytes && post.fut() == pre.fut()
    &&& pre.infallible() && ok ==> r is Ok && post.infallible()
}

pub open spec fn fixed_len(s: Seq<u8>, n: nat) -> Option<nat> {
    if s.len() >= n { Some(n) } else { None }
}

/// n values one after the other
pub open spec fn plen_n<T: Deserialize>(s: Seq<u8>, n: nat) -> Option<nat>
    decreases n,
{
    if n == 0 { Some(0) } else {
        match plen_n::<T>(s, (n - 1) as nat) {
            None => None,
            Some(a) => match T::plen(s.skip(a as int)) {
                None => None,
                Some(b) => Some(a + b),
            },
        }
    }
}

pub open spec fn pval_n<T: Deserialize>(s: Seq<u8>, v: Seq<T>) -> bool
    decreases v.len(),
{
    v.len() == 0 || (pval_n(s, v.drop_last()) && plen_n::<T>(s, (v.len() - 1) as nat) is Some
        && T::pval(s.skip(plen_n::<T>(s, (v.len() - 1) as nat)->Some_0 as int), v.last()))
}

pub open spec fn ser_n<T: Serialize>(v: Seq<T>) -> Seq<u8>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { ser_n(v.drop_last()) + v.last().ser() }
}

pub open spec fn ser_ok_n<T: Serialize>(v: Seq<T>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ser_ok()
}

/// the byte forms one after the other
pub open spec fn flat_ser<T: Serialize>(v: Seq<T>) -> Seq<u8>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { v[0].ser() + flat_ser(v.drop_first()) }
}

/// what a SerStream still has to deliver
pub open spec fn ser_stream_remaining<T: Serialize>(extra: Seq<u8>, items: Seq<T>) -> Seq<u8> {
    extra + flat_ser(items)
}

pub proof fn lemma_flat_ser_step<T: Serialize>(v: Seq<T>)
    ensures
        v.len() == 0 ==> flat_ser(v) == Seq::<u8>::empty(),
        v.len() > 0 ==> flat_ser(v) == v[0].ser() + flat_ser(v.drop_first()),
{
}

pub proof fn lemma_flat_ser_n<T: Serialize>(v: Seq<T>)
    ensures flat_ser(v) == ser_n(v),
    decreases v.len(),
{
    if v.len() == 1 {
        assert(v.drop_first() =~= Seq::<T>::empty());
        assert(v.drop_last() =~= Seq::<T>::empty());
        assert(flat_ser(Seq::<T>::empty()) =~= Seq::<u8>::empty());
        assert(ser_n(Seq::<T>::empty()) =~= Seq::<u8>::empty());
        assert(flat_ser(v) =~= v[0].ser());
        assert(ser_n(v) =~= v[0].ser());
    } else if v.len() > 1 {
        lemma_flat_ser_n(v.drop_first());
        lemma_flat_ser_n(v.drop_last());
        let mid = v.drop_first().drop_last();
        assert(mid =~= v.drop_last().drop_first());
        lemma_flat_ser_n(mid);
        assert(flat_ser(v) =~= v[0].ser() + (ser_n(mid) + v.last().ser()));
        assert(ser_n(v) =~= (v[0].ser() + flat_ser(mid)) + v.last().ser());
    }
}

/// state of a loop that has read v so far
#[verifier::prophetic]
pub open spec fn deser_n_inv<I: Iterator<Item = u8>, T: Deserialize>(pre: I, now: I, s: Seq<u8>, v: Seq<T>) -> bool {
    &&& now.obeys_prophetic_iter_laws()
    &&& now.will_return_none() == pre.will_return_none()
    &&& (now.decrease() is Some <==> pre.decrease() is Some)
    &&& plen_n::<T>(s, v.len()) is Some
    &&& plen_n::<T>(s, v.len())->Some_0 <= s.len()
    &&& now.remaining() == s.skip(plen_n::<T>(s, v.len())->Some_0 as int)
    &&& pval_n(s, v)
}

/// once the parse of m values fails, the parse of more fails too
pub proof fn lemma_plen_mono<T: Deserialize>(s: Seq<u8>, m: nat, n: nat)
    requires m <= n,
    ensures plen_n::<T>(s, m) is None ==> plen_n::<T>(s, n) is None,
    decreases n,
{
    if m < n { lemma_plen_mono::<T>(s, m, (n - 1) as nat); }
}

/// reads n values
pub fn deser_n<T: Deserialize, I: Iterator<Item = u8>>(stream: &mut I, n: usize) -> (r: Option<Vec<T>>)
    requires old(stream).obeys_prophetic_iter_laws(),
    ensures
        (*final(stream)).obeys_prophetic_iter_laws(),
        (*final(stream)).will_return_none() == old(stream).will_return_none(),
        (*final(stream)).decrease() is Some <==> (*old(stream)).decrease() is Some,
        match plen_n::<T>(old(stream).remaining(), n as nat) {
            Some(k) => k <= old(stream).remaining().len() && r is Some && r->Some_0@.len() == n
                && pval_n(old(stream).remaining(), r->Some_0@)
                && (*final(stream)).remaining() == old(stream).remaining().skip(k as int),
            None => r is None && (*final(stream)).remaining().len() <= old(stream).remaining().len(),
        },
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    let ghost s = stream.remaining();
    proof { assert(s.skip(0) =~= s); }
    while i < n
        invariant
            i <= n,
            s == old(stream).remaining(),
            v@.len() == i,
            deser_n_inv(*old(stream), *stream, s, v@),
        decreases n - i,
    {
        let ghost v0 = v@;
        proof { lemma_plen_mono::<T>(s, (i + 1) as nat, n as nat); }
        match T::deserialize(stream) {
            Some(x) => { v.push(x); }
            None => { return None; }
        }
        i += 1;
        proof {
            assert(v@.drop_last() =~= v0);
            assert(stream.remaining() =~= s.skip(plen_n::<T>(s, v@.len())->Some_0 as int));
        }
    }
    Some(v)
}

pub trait ToArray<T> {
    fn to_array_n<const N: usize>(self) -> (r: Option<[T; N]>);
}

impl<T> ToArray<T> for Vec<T> {
    fn to_array_n<const N: usize>(self) -> (r: Option<[T; N]>)
        ensures
            self@.len() == N ==> r is Some && r->Some_0@ == self@,
            self@.len() != N ==> r is None,
    {
        crate::rt::vec_to_array::<T, N>(self)
    }
}

global size_of usize == 8;

@@inside Serialize
    /// the byte form
    spec fn ser(&self) -> Seq<u8>;
    /// values that have one
    spec fn ser_ok(&self) -> bool;

@@fn Serialize::serialize ret r
@@spec
    ensures ser_post(*old(writer), *final(writer), self.ser_ok(), self.ser(), r),

@@inside Deserialize
    spec fn plen(s: Seq<u8>) -> Option<nat>;
    spec fn pval(s: Seq<u8>, v: Self) -> bool;

@@fn Deserialize::deserialize ret r
@@spec
    requires old(stream).obeys_prophetic_iter_laws(),
    ensures
        deser_post(*old(stream), *final(stream), Self::plen(old(stream).remaining()), r),
        r is Some ==> Self::pval(old(stream).remaining(), r->Some_0),

@@inside <u8 as Serialize>
    open spec fn ser(&self) -> Seq<u8> { seq![*self] }
    open spec fn ser_ok(&self) -> bool { true }
@@inside <u8 as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 1) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v == s[0] }
@@fn <u8 as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@fn <u8 as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }

@@inside <u16 as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(*self as nat, 2) }
    open spec fn ser_ok(&self) -> bool { true }
@@inside <u16 as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 2) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v as nat == le_val(s.take(2)) }
@@fn <u16 as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@rewrite self.to_le_bytes() ==> crate::rt::u16_to_le(*self) -- assumed contract of u16::to_le_bytes
@@fn <u16 as Deserialize>::deserialize ret r
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@spec
    ensures r is None ==> old(stream).will_return_none() && (*final(stream)).remaining().len() == 0,
@@rewrite u16::from_le_bytes ==> crate::rt::u16_from_le -- assumed contract of u16::from_le_bytes
@@before Some(n)
    proof { let s = old(stream).remaining(); assert(s.take(2) =~= seq![s[0], s[1]]); assert(stream.remaining() =~= s.skip(2)); }

@@inside <i16 as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(i16_bits(*self), 2) }
    open spec fn ser_ok(&self) -> bool { true }
@@inside <i16 as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 2) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { i16_bits(v) == le_val(s.take(2)) }
@@fn <i16 as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@rewrite self.to_le_bytes() ==> crate::rt::i16_to_le(*self) -- assumed contract of i16::to_le_bytes
@@fn <i16 as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite i16::from_le_bytes ==> crate::rt::i16_from_le -- assumed contract of i16::from_le_bytes
@@before Some(n)
    proof { let s = old(stream).remaining(); assert(s.take(2) =~= seq![s[0], s[1]]); assert(stream.remaining() =~= s.skip(2)); }

@@inside <u32 as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(*self as nat, 4) }
    open spec fn ser_ok(&self) -> bool { true }
@@inside <u32 as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 4) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v as nat == le_val(s.take(4)) }
@@fn <u32 as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@rewrite self.to_le_bytes() ==> crate::rt::u32_to_le(*self) -- assumed contract of u32::to_le_bytes
@@fn <u32 as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite u32::from_le_bytes ==> crate::rt::u32_from_le -- assumed contract of u32::from_le_bytes
@@before Some(n)
    proof { let s = old(stream).remaining(); assert(s.take(4) =~= seq![s[0], s[1], s[2], s[3]]); assert(stream.remaining() =~= s.skip(4)); }

@@inside <u64 as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(*self as nat, 8) }
    open spec fn ser_ok(&self) -> bool { true }
@@inside <u64 as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 8) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v as nat == le_val(s.take(8)) }
@@fn <u64 as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@rewrite self.to_le_bytes() ==> crate::rt::u64_to_le(*self) -- assumed contract of u64::to_le_bytes
@@fn <u64 as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite u64::from_le_bytes ==> crate::rt::u64_from_le -- assumed contract of u64::from_le_bytes
@@before Some(n)
    proof { let s = old(stream).remaining(); assert(s.take(8) =~= seq![s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]); assert(stream.remaining() =~= s.skip(8)); }

@@inside <usize as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(*self as nat, 8) }
    open spec fn ser_ok(&self) -> bool { true }
@@inside <usize as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 8) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v as nat == le_val(s.take(8)) }
@@fn <usize as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@fn <usize as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }

@@inside <char as Serialize>
    open spec fn ser(&self) -> Seq<u8> { seq![(*self as u32) as u8] }
    open spec fn ser_ok(&self) -> bool { *self as u32 <= 0xff }
@@inside <char as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { fixed_len(s, 1) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v as u32 == s[0] as u32 }
@@fn <char as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@rewrite u8::try_from(*self).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e)) ==> crate::rt::char_to_u8(*self) -- assumed contract of u8::try_from(char)
@@fn <char as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite ascii.into() ==> ascii as char -- u8 into char

@@inside <(T,U) as Serialize>
    open spec fn ser(&self) -> Seq<u8> { self.0.ser() + self.1.ser() }
    open spec fn ser_ok(&self) -> bool { self.0.ser_ok() && self.1.ser_ok() }
@@inside <(T,U) as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> {
        match T::plen(s) {
            None => None,
            Some(a) => match U::plen(s.skip(a as int)) { None => None, Some(b) => Some(a + b) },
        }
    }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool {
        T::pval(s, v.0) && T::plen(s) is Some && U::pval(s.skip(T::plen(s)->Some_0 as int), v.1)
    }
@@fn <(T,U) as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@start
    broadcast use crate::rt::lemma_seq_assoc;
@@fn <(T,U) as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@before Some((a, b))
    proof {
        let s = old(stream).remaining();
        let n = T::plen(s)->Some_0;
        let m = U::plen(s.skip(n as int))->Some_0;
        assert(stream.remaining() =~= s.skip((n + m) as int));
    }

@@inside <&[T] as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(self@.len(), 8) + ser_n(self@) }
    open spec fn ser_ok(&self) -> bool { ser_ok_n(self@) }
@@fn <&[T] as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@before for x
    proof { assert(self@.take(0) =~= Seq::empty()); assert(writer.written() =~= (*writer).written() + ser_n(self@.take(0))); }
@@loop 0 iter it
    invariant
        it.seq().len() == self@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self@[i],
        ser_ok_n(self@.take(it.index@ as int)),
        (*writer).written() == (*old(writer)).written() + le_seq(self@.len(), 8) + ser_n(self@.take(it.index@ as int)),
        (*writer).fut() == (*old(writer)).fut(),
        (*old(writer)).infallible() && ser_ok_n(self@) ==> (*writer).infallible(),
@@bodystart 0
    proof { assert(*x == self@[it.index@ as int]); assert(ser_ok_n(self@) ==> self@[it.index@ as int].ser_ok()); }
@@bodyend 0
    proof {
        let i = it.index@ as int;
        let p = self@.take(i + 1);
        assert(p.drop_last() =~= self@.take(i));
        assert(p.last() == self@[i]);
        assert(*x == self@[i]);
        assert(ser_n(p) == ser_n(self@.take(i)) + self@[i].ser());
        assert(writer.written() =~= (*old(writer)).written() + le_seq(self@.len(), 8) + ser_n(p));
        assert(ser_ok_n(p)) by {
            assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).ser_ok() by {
                if j < i { assert(self@.take(i)[j].ser_ok()); }
            }
        }
    }
@@before Ok(())
    proof {
        assert(self@.take(self@.len() as int) =~= self@);
        assert(ser_ok_n(self@));
        assert(old(writer).infallible() ==> (*writer).infallible());
        assert(writer.written() =~= (*old(writer)).written() + (le_seq(self@.len(), 8) + ser_n(self@)));
        assert(writer.written() == (*old(writer)).written() + self.ser());
    }

@@inside <Vec as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> {
        if s.len() < 8 { None } else {
            match plen_n::<T>(s.skip(8), le_val(s.take(8))) { None => None, Some(b) => Some(8 + b) }
        }
    }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { v@.len() == le_val(s.take(8)) && pval_n(s.skip(8), v@) }
@@fn <Vec as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@loop 0 iter it
    invariant
        old(stream).obeys_prophetic_iter_laws(),
        old(stream).remaining().len() >= 8,
        len as nat == le_val(old(stream).remaining().take(8)),
        vec@.len() == it.index@,
        deser_n_inv(*old(stream), *stream, old(stream).remaining().skip(8), vec@),
@@before for _
    proof { assert(stream.remaining() =~= old(stream).remaining().skip(8).skip(0)); }
@@bodystart 0
    let ghost v0 = vec@;
    let ghost s0 = stream.remaining();
    proof {
        lemma_plen_mono::<T>(old(stream).remaining().skip(8), (v0.len() + 1) as nat, len as nat);
    }
@@bodyend 0
    proof {
        assert(vec@.drop_last() =~= v0);
        let s8 = old(stream).remaining().skip(8);
        let a = plen_n::<T>(s8, v0.len())->Some_0;
        assert(s8.skip(a as int).len() == s8.len() - a);
        assert(stream.remaining() =~= s8.skip(plen_n::<T>(s8, vec@.len())->Some_0 as int));
    }
@@before Some(vec)
    proof { assert(stream.remaining() =~= old(stream).remaining().skip(<Vec<T> as Deserialize>::plen(old(stream).remaining())->Some_0 as int)); }

@@inside <[T;N] as Serialize>
    open spec fn ser(&self) -> Seq<u8> { ser_n(self@) }
    open spec fn ser_ok(&self) -> bool { ser_ok_n(self@) }
@@fn <[T;N] as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@start
    proof { assert(self@.take(0) =~= Seq::empty()); assert(writer.written() =~= (*writer).written() + ser_n(self@.take(0))); }
@@loop 0 iter it
    invariant
        self@.len() == N,
        ser_ok_n(self@.take(it.index@ as int)),
        (*writer).written() == (*old(writer)).written() + ser_n(self@.take(it.index@ as int)),
        (*writer).fut() == (*old(writer)).fut(),
        (*old(writer)).infallible() && ser_ok_n(self@) ==> (*writer).infallible(),
@@bodystart 0
    proof { assert(ser_ok_n(self@) ==> self@[i as int].ser_ok()); }
@@bodyend 0
    proof {
        let p = self@.take(i + 1);
        assert(p.drop_last() =~= self@.take(i as int));
        assert(p.last() == self@[i as int]);
        assert(ser_n(p) == ser_n(self@.take(i as int)) + self@[i as int].ser());
        assert(writer.written() =~= (*old(writer)).written() + ser_n(p));
        assert(ser_ok_n(p)) by {
            assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).ser_ok() by {
                if j < i { assert(self@.take(i as int)[j].ser_ok()); }
            }
        }
    }
@@before Ok(())
    proof { assert(self@.take(N as int) =~= self@); assert(ser_ok_n(self@)); }

@@inside <[T;N] as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> { plen_n::<T>(s, N as nat) }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { pval_n(s, v@) }
@@fn <[T;N] as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite (0..N).map(|_| T::deserialize(stream)).collect::<Option<Vec<T>>>() ==> deser_n::<T, I>(stream, N) -- the iterator chain with a closure over the stream, written out as a loop (deser_n, verified)
@@rewrite ? .try_into().ok() ==> ?.to_array_n::<N>() -- assumed contract of the conversion of a vector to an array

@@inside <image::Rgb as Serialize>
    open spec fn ser(&self) -> Seq<u8> { le_seq(3, 8) + ser_n(self.0@) }
    open spec fn ser_ok(&self) -> bool { ser_ok_n(self.0@) }
@@fn <image::Rgb as Serialize>::serialize
@@start
    proof { let _ = self.ser(); let _ = self.ser_ok(); }
@@start
    proof { assert(self.0@.len() == 3); assert(self.0@.subrange(0, 3) =~= self.0@); }

@@inside <image::Rgb as Deserialize>
    open spec fn plen(s: Seq<u8>) -> Option<nat> {
        if s.len() < 8 || le_val(s.take(8)) != 3 { None } else {
            match plen_n::<T>(s.skip(8), 3) { None => None, Some(b) => Some(8 + b) }
        }
    }
    open spec fn pval(s: Seq<u8>, v: Self) -> bool { pval_n(s.skip(8), v.0@) }
@@fn <image::Rgb as Deserialize>::deserialize
@@start
    proof { let _ = Self::plen(stream.remaining()); let _ = |v: Self| Self::pval(stream.remaining(), v); }
@@rewrite vec.try_into().ok() ==> vec.to_array_n::<3>() -- assumed contract of the conversion of a vector to an array
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@grewrite iter::Once ==> crate::rt::Once -- stand-in for std::iter::Once (verified)
@@grewrite iter::once ==> crate::rt::once -- stand-in for std::iter::once (verified)

@@fn SerStream::from_value ret r
@@spec
    ensures r.iter.0 == Some(value), r.extra@.len() == 0,

@@fn SerStream::from_iter ret r
@@spec
    ensures r.iter == iter, r.extra@.len() == 0,

@@fn <SerStream as Iterator>::next
@@fattr #[verifier::exec_allows_no_decreases_clause]
@@start
    proof { lemma_flat_ser_step::<T>(self.iter.remaining()); }
    let ghost mut fuel = self.iter.remaining().len() + 1;
@@loop 0
    invariant
        self.iter.obeys_prophetic_iter_laws() == old(self).iter.obeys_prophetic_iter_laws(),
        old(self).iter.obeys_prophetic_iter_laws() ==> {
            &&& self.iter.will_return_none() == old(self).iter.will_return_none()
            &&& ser_stream_remaining(self.extra@, self.iter.remaining()) == ser_stream_remaining(old(self).extra@, old(self).iter.remaining())
            &&& self.iter.remaining().len() < fuel
        },
@@bodystart 0
    proof { fuel = self.iter.remaining().len(); }
    let ghost it0 = self.iter;
    let ghost e0 = self.extra@;
    proof { lemma_flat_ser_step::<T>(it0.remaining()); }
@@rewrite x.serialize(&mut self.extra).unwrap() ==> crate::rt::unwrap_ok_if(Ghost(x.ser_ok()), x.serialize(&mut self.extra)) -- unwrap of a serialization into memory: must not fail on serializable values
@@bodyend 0
    proof {
        if old(self).iter.obeys_prophetic_iter_laws() {
            assert(ser_stream_remaining(self.extra@, self.iter.remaining()) =~= ser_stream_remaining(e0, it0.remaining()));
        }
    }

@@top
/// iter::from_fn over the closure that calls T::deserialize, written out as a type
pub struct DeserStream<I, T> { pub stream: I, pub item: std::marker::PhantomData<T> }

impl<I: Iterator<Item = u8>, T: Deserialize> Iterator for DeserStream<I, T> {
    type Item = T;
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self).stream.obeys_prophetic_iter_laws() ==> deser_post(old(self).stream, final(self).stream, T::plen(old(self).stream.remaining()), r)
            && (r is Some ==> T::pval(old(self).stream.remaining(), r->Some_0)),
    {
        proof { class_invariant(self.stream.obeys_prophetic_iter_laws()); }
        T::deserialize(&mut self.stream)
    }
}

impl<I: Iterator<Item = u8>, T: Deserialize> vstd::std_specs::iter::IteratorSpecImpl for DeserStream<I, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<T>;
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<T> { None }
}

@@grewrite impl Iterator<Item = T> + '_ ==> DeserStream<&mut I, T> -- the type written out
@@fn deser_stream ret r
@@spec
    ensures *r.stream == *old(stream),
@@rewrite iter::from_fn(|| T::deserialize(stream)) ==> DeserStream { stream, item: std::marker::PhantomData } -- iter::from_fn written out as a type

@@bottom
impl<T: Serialize, I: Iterator<Item = T>> vstd::std_specs::iter::IteratorSpecImpl for SerStream<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.iter.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<u8> { ser_stream_remaining(self.extra@, self.iter.remaining()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.iter.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, index: int) -> Option<u8> { None }
}

/* ---- round trip and self-delimitation, as lemmas over the contracts ---- */

pub trait RoundTrip: Serialize + Deserialize {
    /// reading back the byte form consumes exactly it and gives the value
    proof fn rt(x: Self, tail: Seq<u8>)
        requires x.ser_ok(),
        ensures
            Self::plen(x.ser() + tail) == Some(x.ser().len()),
            forall|v: Self| #[trigger] Self::pval(x.ser() + tail, v) ==> v == x,
    ;

    /// what follows the bytes read makes no difference
    proof fn mono(s: Seq<u8>, t: Seq<u8>)
        requires Self::plen(s) is Some,
        ensures
            Self::plen(s)->Some_0 <= s.len(),
            Self::plen(s + t) == Self::plen(s),
            forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v),
    ;
}

/// every proper prefix of a byte form is refused
pub proof fn lemma_prefix_refused<T: RoundTrip>(x: T, k: int)
    requires x.ser_ok(), 0 <= k < x.ser().len(),
    ensures T::plen(x.ser().take(k)) is None,
{
    let s = x.ser().take(k);
    let t = x.ser().skip(k);
    assert(s + t =~= x.ser());
    T::rt(x, Seq::empty());
    assert(x.ser() + Seq::<u8>::empty() =~= x.ser());
    if T::plen(s) is Some { T::mono(s, t); }
}

impl RoundTrip for u8 {
    proof fn rt(x: Self, tail: Seq<u8>) { assert((x.ser() + tail)[0] == x); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { assert((s + t)[0] == s[0]); }
}

proof fn lemma_le_rt(x: nat, n: nat, tail: Seq<u8>)
    requires x < pow256(n),
    ensures
        (le_seq(x, n) + tail).len() >= n,
        le_seq(x, n).len() == n,
        le_val((le_seq(x, n) + tail).take(n as int)) == x,
{
    lemma_le_roundtrip(x, n);
    assert((le_seq(x, n) + tail).take(n as int) =~= le_seq(x, n));
}

proof fn lemma_take_mono(s: Seq<u8>, t: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures (s + t).take(n) == s.take(n), (s + t).skip(n) == s.skip(n) + t,
{
    assert((s + t).take(n) =~= s.take(n));
    assert((s + t).skip(n) =~= s.skip(n) + t);
}

impl RoundTrip for u16 {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_pow256(); lemma_le_rt(x as nat, 2, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { lemma_take_mono(s, t, 2); }
}
impl RoundTrip for i16 {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_pow256(); lemma_le_rt(i16_bits(x), 2, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { lemma_take_mono(s, t, 2); }
}
impl RoundTrip for u32 {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_pow256(); lemma_le_rt(x as nat, 4, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { lemma_take_mono(s, t, 4); }
}
impl RoundTrip for u64 {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_pow256(); lemma_le_rt(x as nat, 8, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { lemma_take_mono(s, t, 8); }
}
impl RoundTrip for usize {
    proof fn rt(x: Self, tail: Seq<u8>) { lemma_pow256(); lemma_le_rt(x as nat, 8, tail); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { lemma_take_mono(s, t, 8); }
}
impl RoundTrip for char {
    proof fn rt(x: Self, tail: Seq<u8>) { assert((x.ser() + tail)[0] == x.ser()[0]); }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) { assert((s + t)[0] == s[0]); }
}
impl<T: RoundTrip, U: RoundTrip> RoundTrip for (T, U) {
    proof fn rt(x: Self, tail: Seq<u8>) {
        let a = x.0.ser();
        let b = x.1.ser();
        assert(x.ser() + tail =~= a + (b + tail));
        T::rt(x.0, b + tail);
        assert((a + (b + tail)).skip(a.len() as int) =~= b + tail);
        U::rt(x.1, tail);
        assert forall|v: Self| #[trigger] Self::pval(x.ser() + tail, v) implies v == x by {
            assert(T::pval(a + (b + tail), v.0));
            assert(U::pval(b + tail, v.1));
        }
    }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        T::mono(s, t);
        let n = T::plen(s)->Some_0 as int;
        lemma_take_mono(s, t, n);
        U::mono(s.skip(n), t);
        assert forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v) by {
            assert(T::pval(s, v.0) == T::pval(s + t, v.0));
            assert(U::pval(s.skip(n), v.1) == U::pval(s.skip(n) + t, v.1));
        }
    }
}

/// n values in a row
pub proof fn lemma_rt_n<T: RoundTrip>(x: Seq<T>, tail: Seq<u8>)
    requires ser_ok_n(x),
    ensures
        plen_n::<T>(ser_n(x) + tail, x.len()) == Some(ser_n(x).len()),
        forall|v: Seq<T>| v.len() == x.len() && #[trigger] pval_n(ser_n(x) + tail, v) ==> v == x,
    decreases x.len(),
{
    let s = ser_n(x) + tail;
    if x.len() > 0 {
        let y = x.drop_last();
        let l = x.last();
        assert(ser_ok_n(y)) by { assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).ser_ok() by { assert(y[i] == x[i]); assert(x[i].ser_ok()); } }
        assert(l.ser_ok()) by { assert(x[x.len() - 1].ser_ok()); }
        lemma_rt_n(y, l.ser() + tail);
        assert(s =~= ser_n(y) + (l.ser() + tail));
        assert(s.skip(ser_n(y).len() as int) =~= l.ser() + tail);
        T::rt(l, tail);
        assert forall|v: Seq<T>| v.len() == x.len() && #[trigger] pval_n(s, v) implies v == x by {
            assert(pval_n(s, v.drop_last()));
            assert(v.drop_last() == y);
            assert(v.last() == l);
            assert(v =~= v.drop_last().push(v.last()));
            assert(x =~= y.push(l));
        }
    } else {
        assert forall|v: Seq<T>| v.len() == x.len() && #[trigger] pval_n(s, v) implies v == x by { assert(v =~= x); }
    }
}

pub proof fn lemma_mono_n<T: RoundTrip>(s: Seq<u8>, t: Seq<u8>, n: nat)
    requires plen_n::<T>(s, n) is Some,
    ensures
        plen_n::<T>(s, n)->Some_0 <= s.len(),
        plen_n::<T>(s + t, n) == plen_n::<T>(s, n),
        forall|v: Seq<T>| v.len() == n ==> pval_n(s, v) == #[trigger] pval_n(s + t, v),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_mono_n::<T>(s, t, m);
        let a = plen_n::<T>(s, m)->Some_0 as int;
        lemma_take_mono(s, t, a);
        T::mono(s.skip(a), t);
        assert forall|v: Seq<T>| v.len() == n implies pval_n(s, v) == #[trigger] pval_n(s + t, v) by {
            assert(pval_n(s, v.drop_last()) == pval_n(s + t, v.drop_last()));
            assert(T::pval(s.skip(a), v.last()) == T::pval(s.skip(a) + t, v.last()));
        }
    }
}

impl<T: RoundTrip, const N: usize> RoundTrip for [T; N] {
    proof fn rt(x: Self, tail: Seq<u8>) {
        lemma_rt_n(x@, tail);
        assert forall|v: Self| #[trigger] Self::pval(x.ser() + tail, v) implies v == x by {
            assert(pval_n(ser_n(x@) + tail, v@));
            assert(v =~= x);
        }
    }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        lemma_mono_n::<T>(s, t, N as nat);
        assert forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v) by {
            assert(v@.len() == N);
            assert(pval_n(s, v@) == pval_n(s + t, v@));
        }
    }
}

impl<T: RoundTrip> RoundTrip for crate::image::Rgb<T> {
    proof fn rt(x: Self, tail: Seq<u8>) {
        lemma_pow256();
        assert(x.0@.len() == 3);
        let h = le_seq(3, 8);
        lemma_le_rt(3, 8, ser_n(x.0@) + tail);
        assert(x.ser() + tail =~= h + (ser_n(x.0@) + tail));
        assert((x.ser() + tail).skip(8) =~= ser_n(x.0@) + tail);
        lemma_rt_n(x.0@, tail);
        assert forall|v: Self| #[trigger] Self::pval(x.ser() + tail, v) implies v == x by {
            assert(v.0@.len() == 3);
            assert(pval_n(ser_n(x.0@) + tail, v.0@));
            assert(v.0 =~= x.0);
        }
    }
    proof fn mono(s: Seq<u8>, t: Seq<u8>) {
        lemma_take_mono(s, t, 8);
        lemma_mono_n::<T>(s.skip(8), t, 3);
        assert forall|v: Self| Self::pval(s, v) == #[trigger] Self::pval(s + t, v) by {
            assert(v.0@.len() == 3);
            assert(pval_n(s.skip(8), v.0@) == pval_n(s.skip(8) + t, v.0@));
        }
    }
}

/// a slice is read back as a vector with the same elements
pub proof fn lemma_rt_slice<T: RoundTrip>(x: &[T], tail: Seq<u8>)
    requires x.ser_ok(),
    ensures
        <Vec<T> as Deserialize>::plen(x.ser() + tail) == Some(x.ser().len()),
        forall|v: Vec<T>| #[trigger] <Vec<T> as Deserialize>::pval(x.ser() + tail, v) ==> v@ == x@,
{
    lemma_pow256();
    assert(vstd::slice::spec_slice_len(x) == x@.len());
    lemma_le_rt(x@.len(), 8, ser_n(x@) + tail);
    assert(x.ser() + tail =~= le_seq(x@.len(), 8) + (ser_n(x@) + tail));
    assert((x.ser() + tail).skip(8) =~= ser_n(x@) + tail);
    lemma_rt_n(x@, tail);
    assert forall|v: Vec<T>| #[trigger] <Vec<T> as Deserialize>::pval(x.ser() + tail, v) implies v@ == x@ by {
        assert(pval_n(ser_n(x@) + tail, v@));
    }
}

/// and every proper prefix of its byte form is refused
pub proof fn lemma_prefix_refused_slice<T: RoundTrip>(x: &[T], k: int)
    requires x.ser_ok(), 0 <= k < x.ser().len(),
    ensures <Vec<T> as Deserialize>::plen(x.ser().take(k)) is None,
{
    let s = x.ser().take(k);
    let t = x.ser().skip(k);
    assert(s + t =~= x.ser());
    lemma_rt_slice(x, Seq::empty());
    assert(x.ser() + Seq::<u8>::empty() =~= x.ser());
    if s.len() >= 8 {
        lemma_take_mono(s, t, 8);
        let n = le_val(s.take(8));
        if plen_n::<T>(s.skip(8), n) is Some { lemma_mono_n::<T>(s.skip(8), t, n); }
    }
}

/// a SerStream delivers the concatenation of the byte forms of its items
pub proof fn lemma_ser_stream<T: Serialize, I: Iterator<Item = T>>(st: SerStream<I>)
    requires st.extra@.len() == 0,
    ensures IteratorSpec::remaining(&st) == ser_n(st.iter.remaining()),
{
    lemma_flat_ser_n(st.iter.remaining());
    assert(IteratorSpec::remaining(&st) =~= ser_n(st.iter.remaining()));
}
