@@module codec::hufc src/codec/hufc.rs

@@drop <Hufman as FromStr> -- under contract as codec::args_hufc
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::codec::*;
use crate::image::{Rgba, area, lemma_area, axiom_dynamic, axiom_rgb_key, lemma_px_len};
use crate::huf::{huf_encodes, lemma_deliver, lemma_delivered, dec_n, dec_all, trie_plen, trie_pval, payload, BinTrie};
use crate::bit::{bytes_bits, BitOrder};
use crate::ser::Deserialize;

pub open spec fn file(img: Img, b: Seq<u8>, rest: Seq<u8>) -> bool {
    with_dims(img, b, rest) && huf_encodes(img.rgb(), rest)
}

/// b is a complete file of img
pub open spec fn is_file(img: Img, b: Seq<u8>) -> bool { exists|rest: Seq<u8>| #[trigger] file(img, b, rest) }

@@inside <Hufman as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { is_file(img, b) }
    open spec fn exact(&self) -> bool { true }
    open spec fn handles(&self, img: Img) -> bool { true }
    open spec fn faithful(&self, img: Img, out: Img) -> bool { true }

@@fn <Hufman as Codec>::encode
@@rewrite || img.pixels().map(|(_x, _y, px)| $E) ==> || -> (r: It<'_, Rgb<u8>>) ensures r.obeys_prophetic_iter_laws(), r.remaining() == img.rgb() { let r = crate::rt::map(img.pixels(), |p: (u32, u32, Rgba<u8>)| -> (c: Rgb<u8>) ensures c == p.2.rgb() { let (_x, _y, px) = p; $E }); proof { assert(r.remaining() =~= img.rgb()); } r } -- Iterator::map through its assumed contract; closures given theirs
@@start
    proof { assert(crate::huf::clone_is_eq::<Rgb<u8>>()); lemma_px_len(*img); lemma_area(img.dims()); axiom_rgb_key(); }
@@before huf::encode_all
    proof { assert(crate::huf::yields(pixels_iter, img.rgb())); assert(img.rgb().len() == area(img.dims())); }
@@tail
    proof {
        if vp_r is Ok {
            let w0 = (*old(writer)).written();
            let rest = choose|rest: Seq<u8>| #[trigger] huf_encodes(img.rgb(), rest) && (*final(writer)).written() == w0 + img.dims().ser() + rest;
            let b = img.dims().ser() + rest;
            assert(file(*img, b, rest));
            assert(self.encodes(*img, b));
            assert((*final(writer)).written() =~= w0 + b);
        }
    }

@@top
pub proof fn lemma_complete(img: Img, b: Seq<u8>, tail: Seq<u8>, t: BinTrie<Rgb<u8>>)
    requires exists|rest: Seq<u8>| #[trigger] file(img, b, rest),
    ensures
        <(u32, u32) as Deserialize>::plen(b + tail) == Some(8nat),
        forall|v: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(b + tail, v) ==> v == img.dims(),
        trie_plen::<Rgb<u8>>((b + tail).skip(8)) is Some,
        trie_pval((b + tail).skip(8), t) ==> dec_n(t, payload::<Rgb<u8>>((b + tail).skip(8)), img.rgb().len()) == Some(img.rgb()),
{
    let rest = choose|rest: Seq<u8>| #[trigger] file(img, b, rest);
    lemma_dims(img.dims(), rest + tail);
    assert(b + tail =~= img.dims().ser() + (rest + tail));
    crate::huf::theorem_lossless(img.rgb(), rest, tail, t);
}

pub proof fn lemma_cut(img: Img, b: Seq<u8>, k: int, t: BinTrie<Rgb<u8>>)
    requires (exists|rest: Seq<u8>| #[trigger] file(img, b, rest)), 0 <= k < b.len(),
    ensures
        k < 8 ==> <(u32, u32) as Deserialize>::plen(b.take(k)) is None,
        k >= 8 ==> {
            &&& <(u32, u32) as Deserialize>::plen(b.take(k)) == Some(8nat)
            &&& forall|v: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(b.take(k), v) ==> v == img.dims()
            &&& trie_plen::<Rgb<u8>>(b.take(k).skip(8)) is Some && trie_pval(b.take(k).skip(8), t)
                ==> dec_n(t, payload::<Rgb<u8>>(b.take(k).skip(8)), img.rgb().len()) is None
        },
{
    let rest = choose|rest: Seq<u8>| #[trigger] file(img, b, rest);
    lemma_dims(img.dims(), rest);
    lemma_dims_cut(img.dims(), rest, k);
    if k >= 8 {
        lemma_dims(img.dims(), rest.take(k - 8));
        crate::huf::theorem_truncated(img.rgb(), rest, k - 8, t);
    }
}

pub proof fn lemma_skip_step<T>(s: Seq<T>, i: int)
    ensures 0 <= i < s.len() ==> s.skip(i)[0] == s[i] && s.skip(i).drop_first() == s.skip(i + 1),
{
    if 0 <= i < s.len() { assert(s.skip(i).drop_first() =~= s.skip(i + 1)); }
}

/// a complete file starts with dimensions and a trie
pub proof fn lemma_start(s: Seq<u8>)
    ensures
        <(u32, u32) as Deserialize>::plen(s) is Some ==> <(u32, u32) as Deserialize>::plen(s) == Some(8nat),
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) && s == #[trigger] (b + tail)
            ==> <(u32, u32) as Deserialize>::plen(s) is Some && trie_plen::<Rgb<u8>>(s.skip(8)) is Some,
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) && s == #[trigger] (b + tail)
        implies <(u32, u32) as Deserialize>::plen(s) is Some && trie_plen::<Rgb<u8>>(s.skip(8)) is Some by {
        lemma_complete(img, b, tail, arbitrary());
    }
}

/// the stream ended early: it was no complete file
pub proof fn lemma_none(s: Seq<u8>, t: BinTrie<Rgb<u8>>, n: nat, d: (u32, u32))
    requires <(u32, u32) as Deserialize>::pval(s, d), n == area(d), trie_pval(s.skip(8), t), dec_n(t, payload::<Rgb<u8>>(s.skip(8)), n) is None,
    ensures forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) ==> s != #[trigger] (b + tail),
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) implies s != #[trigger] (b + tail) by {
        if s == b + tail { lemma_complete(img, b, tail, t); lemma_px_len(img); }
    }
}

/// all pixels were delivered: the file was not cut short, and they are right
pub proof fn lemma_some(s: Seq<u8>, t: BinTrie<Rgb<u8>>, d: (u32, u32), px: Seq<Rgb<u8>>)
    requires
        <(u32, u32) as Deserialize>::pval(s, d), px.len() == area(d), trie_plen::<Rgb<u8>>(s.skip(8)) is Some, trie_pval(s.skip(8), t),
        dec_n(t, payload::<Rgb<u8>>(s.skip(8)), px.len()) == Some(px), <(u32, u32) as Deserialize>::plen(s) is Some,
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) && s == #[trigger] (b + tail) ==> img.dims() == d && img.rgb() == px,
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Hufman.encodes(img, b) && 0 <= k < b.len() ==> s != #[trigger] b.take(k),
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] Hufman.encodes(img, b) && s == #[trigger] (b + tail) implies img.dims() == d && img.rgb() == px by {
        lemma_complete(img, b, tail, t);
        lemma_px_len(img);
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] Hufman.encodes(img, b) && 0 <= k < b.len() implies s != #[trigger] b.take(k) by {
        if s == b.take(k) { lemma_cut(img, b, k, t); lemma_px_len(img); }
    }
}

@@fn <Hufman as Codec>::decode
@@rewrite for px in img.pixels_mut() ==> for vp_i in it: 0..img.pixel_count() -- pixels_mut written as pixel_mut(0), pixel_mut(1), ...
@@start
    let ghost s0 = reader.remaining();
    proof { lemma_start(s0); assert(crate::huf::clone_is_eq::<Rgb<u8>>()); }
@@after huf::decode_all::<_, Rgb<u8>>(reader)?;
    let ghost t = symbols.dec.trie;
    let ghost bits = symbols.bits.remaining();
    let ghost all = dec_all(t, bits);
    let ghost n = img.px().len();
    let ghost d = img.dims();
    proof { assert(all.skip(0) =~= all); lemma_deliver(t, bits, n); }
@@loop 0
    invariant
        n == area(d), <(u32, u32) as Deserialize>::plen(s0) is Some, <(u32, u32) as Deserialize>::pval(s0, d),
        trie_plen::<Rgb<u8>>(s0.skip(8)) is Some, trie_pval(s0.skip(8), t), bits == payload::<Rgb<u8>>(s0.skip(8)), all == dec_all(t, bits),
        s0 == old(reader).remaining(),
        img.px().len() == n, img.dims() == d, it.seq().len() == n,
        symbols.dec.trie == t, symbols.bits.obeys_prophetic_iter_laws(), crate::huf::clone_is_eq::<Rgb<u8>>(),
        t is Branch ==> vp_i <= all.len() && symbols.remaining() == all.skip(vp_i as int) && forall|j: int| 0 <= j < vp_i ==> img.px()[j] == all[j],
        t is Leaf ==> forall|j: int| 0 <= j < vp_i ==> img.px()[j] == t->Leaf_0,
@@bodystart 0
    let px = img.pixel_mut(vp_i);
    proof { lemma_skip_step(all, vp_i as int); }
@@before return None;
    proof { lemma_deliver(t, bits, n); lemma_none(s0, t, n, d); }
@@before Some(img.into())
    proof {
        lemma_delivered(t, bits, img.px());
        lemma_some(s0, t, d, img.px());
        axiom_dynamic(img);
    }

@@fn <Hufman as Codec>::name
@@fn <Hufman as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),
