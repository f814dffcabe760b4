@@module codec::any src/codec.rs
@@expand
@@grewrite use crate::prs::{ParseError, ParseAlternatives}; ==>  -- used by the argument parser only
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate
@@only AnyCodec
@@only <AnyCodec as Codec>
@@only <AnyCodec as From<clusterc::ClusterColors>>
@@only <AnyCodec as From<clusterc::VoronoiCluster>>
@@only <AnyCodec as From<hilbertc::Delta>>
@@only <AnyCodec as From<hilbertc::Hilbert>>
@@only <AnyCodec as From<hufc::Hufman>>
@@only <AnyCodec as From<zipc::Zip>>

@@top
use vstd::std_specs::iter::IteratorSpec;
use crate::codec::*;
use crate::codec::{clusterc, hilbertc, hufc, zipc};

/// what the codec's files look like; written out, for the trait's functions would make this depend on the codecs' code
pub open spec fn any_file(a: AnyCodec, img: Img, b: Seq<u8>) -> bool {
    match a {
        AnyCodec::ClusterColors(c) => exists|red: Img| #[trigger] clusterc::in_colors(c.0 as nat, img, red, b),
        AnyCodec::VoronoiCluster(c) => exists|cents: Seq<clusterc::ColorPos>| #[trigger] clusterc::vor_of(c.0 as nat, img, cents, b),
        AnyCodec::Delta(_) => exists|rest: Seq<u8>| #[trigger] hilbertc::delta_file(img, b, rest),
        AnyCodec::Hilbert(h) => hilbertc::hilbert_file(h.compress, img, b),
        AnyCodec::Hufman(_) => hufc::is_file(img, b),
        AnyCodec::Zip(z) => zipc::zip_file(z, img, b),
    }
}

@@inside <AnyCodec as Codec>
    open spec fn encodes(&self, img: Img, b: Seq<u8>) -> bool { any_file(*self, img, b) }
    open spec fn exact(&self) -> bool {
        match self {
            AnyCodec::ClusterColors(_) | AnyCodec::VoronoiCluster(_) => false,
            AnyCodec::Hilbert(h) => h.compress is RLE ==> crate::fl::f_is_zero(h.compress->RLE_0),
            _ => true,
        }
    }
    open spec fn handles(&self, img: Img) -> bool {
        match self {
            AnyCodec::ClusterColors(c) => c.0 > 0 && crate::image::area(img.dims()) <= 0xffff_ffff,
            AnyCodec::VoronoiCluster(c) => c.0 > 0 && crate::image::area(img.dims()) <= 0xffff_ffff,
            _ => true,
        }
    }
    open spec fn faithful(&self, img: Img, out: Img) -> bool {
        match self {
            AnyCodec::ClusterColors(c) => clusterc::reduced(c.0 as nat, img, out),
            AnyCodec::VoronoiCluster(c) => exists|cents: Seq<clusterc::ColorPos>| #[trigger] clusterc::redrawn(c.0 as nat, img, cents, out),
            _ => true,
        }
    }
@@fn <AnyCodec as Codec>::encode ret r
@@start
    let ghost w0 = (*writer).written();
@@tail
    proof {
        if vp_r is Ok { match self {
            AnyCodec::ClusterColors(c) => { let b = choose|b: Seq<u8>| #[trigger] c.encodes(*img, b) && (*writer).written() == w0 + b; assert(self.encodes(*img, b)); }
            AnyCodec::VoronoiCluster(c) => { let b = choose|b: Seq<u8>| #[trigger] c.encodes(*img, b) && (*writer).written() == w0 + b; assert(self.encodes(*img, b)); }
            AnyCodec::Delta(c) => { let b = choose|b: Seq<u8>| #[trigger] c.encodes(*img, b) && (*writer).written() == w0 + b; assert(self.encodes(*img, b)); }
            AnyCodec::Hilbert(c) => { let b = choose|b: Seq<u8>| #[trigger] c.encodes(*img, b) && (*writer).written() == w0 + b; assert(self.encodes(*img, b)); }
            AnyCodec::Hufman(c) => { let b = choose|b: Seq<u8>| #[trigger] c.encodes(*img, b) && (*writer).written() == w0 + b; assert(self.encodes(*img, b)); }
            AnyCodec::Zip(c) => { let b = choose|b: Seq<u8>| #[trigger] c.encodes(*img, b) && (*writer).written() == w0 + b; assert(self.encodes(*img, b)); }
        } }
    }
@@fn <AnyCodec as Codec>::decode ret r
@@start
    proof {
        assert forall|img: Img, b: Seq<u8>| #[trigger] self.encodes(img, b) == (match self {
            AnyCodec::ClusterColors(c) => c.encodes(img, b),
            AnyCodec::VoronoiCluster(c) => c.encodes(img, b),
            AnyCodec::Delta(c) => c.encodes(img, b),
            AnyCodec::Hilbert(c) => c.encodes(img, b),
            AnyCodec::Hufman(c) => c.encodes(img, b),
            AnyCodec::Zip(c) => c.encodes(img, b),
        }) by { }
    }
@@fn <AnyCodec as Codec>::name
@@fn <AnyCodec as Codec>::is_lossless ret r
@@spec
    ensures r == self.exact(),

@@top
impl vstd::std_specs::convert::FromSpecImpl<clusterc::ClusterColors> for AnyCodec { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: clusterc::ClusterColors) -> Self { AnyCodec::ClusterColors(v) } }
impl vstd::std_specs::convert::FromSpecImpl<clusterc::VoronoiCluster> for AnyCodec { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: clusterc::VoronoiCluster) -> Self { AnyCodec::VoronoiCluster(v) } }
impl vstd::std_specs::convert::FromSpecImpl<hilbertc::Delta> for AnyCodec { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: hilbertc::Delta) -> Self { AnyCodec::Delta(v) } }
impl vstd::std_specs::convert::FromSpecImpl<hilbertc::Hilbert> for AnyCodec { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: hilbertc::Hilbert) -> Self { AnyCodec::Hilbert(v) } }
impl vstd::std_specs::convert::FromSpecImpl<hufc::Hufman> for AnyCodec { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: hufc::Hufman) -> Self { AnyCodec::Hufman(v) } }
impl vstd::std_specs::convert::FromSpecImpl<zipc::Zip> for AnyCodec { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: zipc::Zip) -> Self { AnyCodec::Zip(v) } }

@@fn <AnyCodec as From<clusterc::ClusterColors>>::from ret r
@@fn <AnyCodec as From<clusterc::VoronoiCluster>>::from ret r
@@fn <AnyCodec as From<hilbertc::Delta>>::from ret r
@@fn <AnyCodec as From<hilbertc::Hilbert>>::from ret r
@@fn <AnyCodec as From<hufc::Hufman>>::from ret r
@@fn <AnyCodec as From<zipc::Zip>>::from ret r
