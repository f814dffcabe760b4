@@module codec src/codec.rs

@@grewrite image:: ==> crate::image:: -- stand-in for the image crate
@@grewrite use crate::prs::{ParseError, ParseAlternatives}; ==>  -- used by the argument parsers only
@@drop gen_struct! -- AnyCodec: each method hands on to the codec it holds
@@drop gen_from_str_impl! -- argument parsing
@@drop gen_codec_impl! -- AnyCodec: each method hands on to the codec it holds
@@drop gen_from_impl! -- conversions into AnyCodec
@@drop gen_all! -- AnyCodec
@@drop gen_all!() -- AnyCodec

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::ser::{Serialize, RoundTrip};
use crate::image::{GenericImageView, area, lemma_area, axiom_dynamic};

/// an image with at least one pixel
pub open spec fn nonempty(img: Img) -> bool { img.dims().0 > 0 && img.dims().1 > 0 }

/// the same dimensions and colours
pub open spec fn same(a: Img, b: Img) -> bool { a.dims() == b.dims() && a.rgb() == b.rgb() }

/// the dimensions come first
pub open spec fn with_dims(img: Img, b: Seq<u8>, rest: Seq<u8>) -> bool { b == img.dims().ser() + rest }

/* reading the dimensions back, and refusing them when they are cut short */
pub proof fn lemma_dims(d: (u32, u32), rest: Seq<u8>)
    ensures
        d.ser() == le_seq(d.0 as nat, 4) + le_seq(d.1 as nat, 4),
        d.ser().len() == 8,
        <(u32, u32) as Deserialize>::plen(d.ser() + rest) == Some(8nat),
        forall|v: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(d.ser() + rest, v) ==> v == d,
        (d.ser() + rest).skip(8) == rest,
{
    <(u32, u32) as RoundTrip>::rt(d, rest);
    crate::rt::lemma_le_len(d.0 as nat, 4);
    crate::rt::lemma_le_len(d.1 as nat, 4);
    assert((d.ser() + rest).skip(8) =~= rest);
}

pub proof fn lemma_dims_cut(d: (u32, u32), rest: Seq<u8>, k: int)
    requires 0 <= k <= 8 + rest.len(),
    ensures
        k < 8 ==> <(u32, u32) as Deserialize>::plen((d.ser() + rest).take(k)) is None,
        k >= 8 ==> (d.ser() + rest).take(k) == d.ser() + rest.take(k - 8),
{
    lemma_dims(d, rest);
    if k < 8 {
        crate::ser::lemma_prefix_refused(d, k);
        assert((d.ser() + rest).take(k) =~= d.ser().take(k));
    } else {
        assert((d.ser() + rest).take(k) =~= d.ser() + rest.take(k - 8));
    }
}

@@inside Codec
    /// b is a complete encoding of img
    spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool;
    /// decoding gives the image back
    spec fn exact(&self) -> bool;
    /// images the codec claims to encode
    spec fn handles(&self, img: Img) -> bool;
    /// what decoding may make of the image
    spec fn faithful(&self, img: Img, out: Img) -> bool;

@@fn Codec::encode ret r
@@spec
    requires nonempty(*img), self.handles(*img),
    ensures
        r is Ok ==> exists|b: Seq<u8>| #[trigger] self.encodes(*img, b) && (*final(writer)).written() == (*old(writer)).written() + b,
        (*old(writer)).infallible() ==> r is Ok,
@@fn Codec::decode ret r
@@spec
    requires old(reader).obeys_prophetic_iter_laws(),
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] self.encodes(img, b) && old(reader).remaining() == #[trigger] (b + tail)
            ==> r is Some && (self.exact() ==> same(img, r->Some_0)) && self.faithful(img, r->Some_0),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] self.encodes(img, b) && 0 <= k < b.len() && old(reader).remaining() == #[trigger] b.take(k)
            ==> r is None,
@@fn Codec::name
@@fn Codec::is_lossless

@@fn create_image_buffer_standard ret r
@@spec
    requires old(reader).obeys_prophetic_iter_laws(),
    ensures
        r is Some <==> <(u32, u32) as Deserialize>::plen(old(reader).remaining()) is Some,
        r is Some ==> <(u32, u32) as Deserialize>::pval(old(reader).remaining(), r->Some_0.0)
            && r->Some_0.1.dims() == r->Some_0.0 && r->Some_0.1.px().len() == area(r->Some_0.0)
            && (*final(reader)).obeys_prophetic_iter_laws()
            && (*final(reader)).will_return_none() == old(reader).will_return_none()
            && (*final(reader)).remaining() == old(reader).remaining().skip(<(u32, u32) as Deserialize>::plen(old(reader).remaining())->Some_0 as int),
