@@module codec::zipc src/codec/zipc.rs

@@grewrite use crate::{prs, ==> use crate::{ -- used by the argument parser only
@@drop <Zip as FromStr> -- under contract as codec::args_zipc
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::codec::*;
use crate::image::{Rgba, Rgb, area, lemma_area, axiom_dynamic, lemma_px_len};
use crate::ser::{Serialize, RoundTrip, ser_n, plen_n, pval_n, lemma_rt_n, lemma_mono_n, lemma_ser_stream};
use crate::zip::dict::{sdec, enc, singles, pair_bytes, after};
use crate::zip::back::{bdec, back_encodes};

/// what is compressed: the dimensions, then the colours row by row
pub open spec fn raw(img: Img) -> Seq<u8> { img.dims().ser() + ser_n(img.rgb()) }

/// what the decompressor makes of a stream
pub open spec fn unzipped(z: Zip, s: Seq<u8>) -> Seq<u8> {
    match z { Zip::Dict => sdec(singles(256), s), Zip::Back => bdec(Seq::empty(), s) }
}

/// the image at the start of the bytes, or none when they end before it does
pub open spec fn rebuilt(s: Seq<u8>, r: Option<Img>) -> bool {
    match r {
        Some(img) => <(u32, u32) as Deserialize>::plen(s) == Some(8nat) && <(u32, u32) as Deserialize>::pval(s, img.dims())
            && plen_n::<Rgb<u8>>(s.skip(8), area(img.dims())) is Some && pval_n(s.skip(8), img.rgb()),
        None => <(u32, u32) as Deserialize>::plen(s) == Some(8nat)
            ==> exists|d: (u32, u32)| #[trigger] <(u32, u32) as Deserialize>::pval(s, d) && plen_n::<Rgb<u8>>(s.skip(8), area(d)) is None,
    }
}

pub proof fn lemma_once(v: (u32, u32))
    ensures ser_n(seq![v]) == v.ser(),
{
    assert(seq![v].drop_last() =~= Seq::<(u32, u32)>::empty());
    assert(ser_n(Seq::<(u32, u32)>::empty()) =~= Seq::<u8>::empty());
    assert(ser_n(seq![v]) =~= v.ser());
}

/// no number of items is read where a smaller number is refused
pub proof fn lemma_fewer(s: Seq<u8>, i: nat, n: nat)
    requires plen_n::<Rgb<u8>>(s, i) is None, i <= n,
    ensures plen_n::<Rgb<u8>>(s, n) is None,
    decreases n - i,
{
    if i < n { assert(plen_n::<Rgb<u8>>(s, i + 1) is None); lemma_fewer(s, i + 1, n); }
}

pub proof fn lemma_item(body: Seq<u8>, i: nat, n: nat)
    ensures
        i < n && plen_n::<Rgb<u8>>(body, i) is Some && <Rgb<u8> as Deserialize>::plen(body.skip(plen_n::<Rgb<u8>>(body, i)->Some_0 as int)) is None
            ==> plen_n::<Rgb<u8>>(body, n) is None,
{
    if i < n && plen_n::<Rgb<u8>>(body, i) is Some && <Rgb<u8> as Deserialize>::plen(body.skip(plen_n::<Rgb<u8>>(body, i)->Some_0 as int)) is None {
        assert(plen_n::<Rgb<u8>>(body, i + 1) is None);
        lemma_fewer(body, i + 1, n);
    }
}

pub proof fn lemma_raw(img: Img, rest: Seq<u8>, r: Option<Img>)
    requires rebuilt(raw(img) + rest, r),
    ensures r is Some, same(img, r->Some_0),
{
    let s = raw(img) + rest;
    let tail = ser_n(img.rgb()) + rest;
    lemma_dims(img.dims(), tail);
    assert(s =~= img.dims().ser() + tail);
    lemma_px_len(img);
    assert forall|i: int| 0 <= i < img.rgb().len() implies (#[trigger] img.rgb()[i]).ser_ok() by { }
    lemma_rt_n(img.rgb(), rest);
    if r is Some { lemma_px_len(r->Some_0); }
}

pub proof fn lemma_raw_cut(img: Img, k: int, r: Option<Img>)
    requires rebuilt(raw(img).take(k), r), 0 <= k < raw(img).len(),
    ensures r is None,
{
    let body = ser_n(img.rgb());
    lemma_dims(img.dims(), body);
    lemma_dims_cut(img.dims(), body, k);
    lemma_px_len(img);
    if k >= 8 {
        let p = body.take(k - 8);
        let n = img.rgb().len();
        lemma_dims(img.dims(), p);
        lemma_rt_n(img.rgb(), Seq::empty());
        assert(body + Seq::<u8>::empty() =~= body);
        if plen_n::<Rgb<u8>>(p, n) is Some {
            lemma_mono_n::<Rgb<u8>>(p, body.skip(k - 8), n);
            assert(p + body.skip(k - 8) =~= body);
        }
        if r is Some { lemma_px_len(r->Some_0); }
    }
}

pub proof fn lemma_file(z: Zip, img: Img, b: Seq<u8>, tail: Seq<u8>, r: Option<Img>)
    requires z.encodes(img, b), rebuilt(unzipped(z, b + tail), r),
    ensures r is Some, same(img, r->Some_0),
{
    match z {
        Zip::Dict => {
            crate::zip::dict::theorem_lossless_tail(raw(img), tail);
            lemma_raw(img, sdec(after(singles(256), enc(singles(256), raw(img))), tail), r);
        }
        Zip::Back => {
            let x = bdec(Seq::empty(), b + tail);
            crate::zip::back::theorem_lossless(raw(img), b, tail);
            assert(x =~= raw(img) + x.skip(raw(img).len() as int));
            lemma_raw(img, x.skip(raw(img).len() as int), r);
        }
    }
}

pub proof fn lemma_file_cut(z: Zip, img: Img, b: Seq<u8>, k: int, r: Option<Img>)
    requires z.encodes(img, b), 0 <= k < b.len(), rebuilt(unzipped(z, b.take(k)), r),
    ensures r is None,
{
    let x = unzipped(z, b.take(k));
    match z {
        Zip::Dict => { crate::zip::dict::theorem_truncated(raw(img), k); }
        Zip::Back => { crate::zip::back::theorem_truncated(raw(img), b, k); }
    }
    lemma_raw_cut(img, x.len() as int, r);
}

/// an answer that is right for every complete file and every one cut short
pub proof fn lemma_answers(z: Zip, s: Seq<u8>, r: Option<Img>)
    requires rebuilt(unzipped(z, s), r),
    ensures
        forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] z.encodes(img, b) && s == #[trigger] (b + tail) ==> r is Some && same(img, r->Some_0),
        forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] z.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) ==> r is None,
{
    assert forall|img: Img, b: Seq<u8>, tail: Seq<u8>| nonempty(img) && #[trigger] z.encodes(img, b) && s == #[trigger] (b + tail) implies r is Some && same(img, r->Some_0) by {
        lemma_file(z, img, b, tail, r);
    }
    assert forall|img: Img, b: Seq<u8>, k: int| nonempty(img) && #[trigger] z.encodes(img, b) && 0 <= k < b.len() && s == #[trigger] b.take(k) implies r is None by {
        lemma_file_cut(z, img, b, k, r);
    }
}

@@top
pub open spec fn zip_file(z: Zip, img: Img, b: Seq<u8>) -> bool {
    match z { Zip::Dict => b == pair_bytes(enc(singles(256), raw(img))), Zip::Back => back_encodes(raw(img), b) }
}

@@inside <Zip as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { zip_file(*self, img, b) }
    open spec fn exact(&self) -> bool { true }
    open spec fn handles(&self, img: Img) -> bool { true }
    open spec fn faithful(&self, img: Img, out: Img) -> bool { true }

@@fn <Zip as Codec>::encode
@@start
    proof { let _ = |b: Seq<u8>| self.encodes(*img, b); }
@@rewrite SerStream::from_value(img.dimensions()) .chain(SerStream::from_iter(img.pixels() .map(|(_, _, rgba)| rgba.to_rgb()))) ==> { let vp_a = SerStream::from_value(img.dimensions()); let vp_m = crate::rt::map(img.pixels(), |p: (u32, u32, Rgba<u8>)| -> (c: Rgb<u8>) ensures c == p.2.rgb() { let (_, _, rgba) = p; rgba.to_rgb() }); proof { assert(vp_m.remaining() =~= img.rgb()); lemma_ser_stream::<(u32, u32), crate::rt::Once<(u32, u32)>>(vp_a); lemma_once(img.dims()); } let vp_b = SerStream::from_iter(vp_m); proof { lemma_ser_stream::<Rgb<u8>, crate::rt::It<'_, Rgb<u8>>>(vp_b); } let vp_c = crate::rt::chain(vp_a, vp_b); proof { assert(vp_c.remaining() == raw(*img)); } vp_c } -- Iterator::map and chain through their assumed contracts
@@tail
    proof {
        if vp_r is Ok {
            match *self {
                Zip::Dict => { assert(self.encodes(*img, pair_bytes(enc(singles(256), raw(*img))))); }
                Zip::Back => {
                    let b = choose|b: Seq<u8>| #[trigger] back_encodes(raw(*img), b) && (*final(writer)).written() == (*old(writer)).written() + b;
                    assert(self.encodes(*img, b));
                }
            }
        }
    }
@@fn <Zip as Codec>::decode
@@start
    let ghost s0 = reader.remaining();
@@tail
    proof { lemma_answers(*self, s0, vp_r); let _ = |img: Img, b: Seq<u8>| self.encodes(img, b); let _ = self.exact(); }
@@fn <Zip as Codec>::decode/rebuild_image ret r
@@fattr #[verifier::loop_isolation(false)]
@@spec
    requires decoded_bytes.obeys_prophetic_iter_laws(),
    ensures rebuilt(decoded_bytes.remaining(), r),
@@rewrite for px in img.pixels_mut() ==> for vp_i in it: 0..img.pixel_count() -- pixels_mut written as pixel_mut(0), pixel_mut(1), ...
@@start
    let ghost s0 = decoded_bytes.remaining();
@@after Deserialize::deserialize(&mut decoded_bytes)?; #0
    let ghost body = s0.skip(8);
@@loop 0
    invariant
        decoded_bytes.obeys_prophetic_iter_laws(),
        img.px().len() == area(dims), img.dims() == dims, it.seq().len() == area(dims),
        plen_n::<Rgb<u8>>(body, vp_i as nat) is Some, decoded_bytes.remaining() == body.skip(plen_n::<Rgb<u8>>(body, vp_i as nat)->Some_0 as int),
        plen_n::<Rgb<u8>>(body, vp_i as nat)->Some_0 <= body.len(),
        pval_n(body, img.px().take(vp_i as int)),
        body == s0.skip(8), <(u32, u32) as Deserialize>::plen(s0) == Some(8nat), <(u32, u32) as Deserialize>::pval(s0, dims),
@@bodystart 0
    let ghost px0 = img.px();
    proof { lemma_item(body, vp_i as nat, area(dims)); }
    let px = img.pixel_mut(vp_i);
@@bodyend 0
    proof {
        let t = img.px().take(vp_i + 1);
        assert(t.drop_last() =~= px0.take(vp_i as int));
        assert(t.last() == img.px()[vp_i as int]);
    }
@@before Some(img.into())
    proof { assert(img.px().take(img.px().len() as int) =~= img.px()); axiom_dynamic(img); }
@@fn <Zip as Codec>::name
@@fn <Zip as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),
