@@module codec::args_hilbertc src/codec/hilbertc.rs
@@only <Hilbert as FromStr>
@@only <CompressionMethod as FromStr>
@@only <Delta as FromStr>
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@top
use crate::codec::*;
use crate::codec::hilbertc::*;
use crate::fl::*;

@@# arguments
@@top
/// the argument that names the compression
pub open spec fn spells_method(s: Seq<char>, m: CompressionMethod) -> bool {
    match m {
        CompressionMethod::RLE(d) => (s == "rle"@ && d == f_int(0))
            || exists|t: Seq<char>| #[trigger] crate::prs::is_call(s, "rle"@, crate::prs::one(t)) && crate::text::f64_of(t) == Some(d),
        CompressionMethod::Zip => s == "zip"@,
    }
}

pub open spec fn not_rle(s: Seq<char>) -> bool { forall|m: CompressionMethod| m is RLE ==> !#[trigger] spells_method(s, m) }
pub open spec fn not_zip(s: Seq<char>) -> bool { forall|m: CompressionMethod| m is Zip ==> !#[trigger] spells_method(s, m) }

/// the argument that names the codec
pub open spec fn spelled(s: Seq<char>, h: Hilbert) -> bool {
    exists|n: Seq<char>, t: Seq<char>| #[trigger] crate::prs::is_call(s, n, crate::prs::one(t)) && (n == "hilbert"@ || n == "Hilbert"@) && spells_method(t, h.compress)
}

pub open spec fn spelled_delta(s: Seq<char>) -> bool { s == "delta"@ }

pub proof fn lemma_words()
    ensures
        crate::text::letters("rle"@), crate::text::letters("zip"@), crate::text::letters("delta"@),
        "rle"@ != "zip"@, 
        forall|n: Seq<char>, a: Seq<Seq<char>>| !#[trigger] crate::prs::is_call("rle"@, n, a),
        forall|n: Seq<char>, a: Seq<Seq<char>>| !#[trigger] crate::prs::is_call("zip"@, n, a),
{
    reveal_strlit("rle"); reveal_strlit("zip"); reveal_strlit("delta");
    assert("rle"@[0] != "zip"@[0]);
    crate::prs::lemma_no_special("rle"@);
    crate::prs::lemma_no_special("zip"@);
}

@@fn <Hilbert as FromStr>::from_str ret r
@@spec
    ensures
        r is Ok ==> spelled(s@, r->Ok_0),
        r is Err ==> forall|h: Hilbert| !spelled(s@, h),
@@start
    proof { crate::text::axiom_hilbert(); crate::prs::lemma_once(s@); crate::prs::lemma_views(); }

@@fn <CompressionMethod as FromStr>::from_str ret r
@@spec
    ensures
        r is Ok ==> spells_method(s@, r->Ok_0),
        r is Err ==> forall|m: CompressionMethod| !spells_method(s@, m),
@@start
    proof {
        lemma_words(); crate::text::axiom_letters("rle"@); crate::text::axiom_letters("zip"@);
        crate::prs::lemma_once(s@); crate::prs::lemma_views();
    }
@@rewrite let parse_rle = |s| { ==> let parse_rle = |s: &str| -> (x: Result<Self, ParseError>) ensures x is Ok ==> x->Ok_0 is RLE && spells_method(s@, x->Ok_0), x is Err ==> not_rle(s@) { proof { lemma_words(); crate::prs::lemma_once(s@); crate::prs::lemma_views(); } -- contract of the closure
@@rewrite 0.0 ==> crate::fl::zero() -- f64 operations as functions
@@rewrite f64::from_str( ==> crate::text::parse_f64( -- f64::from_str through its assumed contract
@@rewrite let parse_zip = |s| { ==> let parse_zip = |s: &str| -> (x: Result<Self, ParseError>) ensures x is Ok ==> x->Ok_0 is Zip && spells_method(s@, x->Ok_0), x is Err ==> not_zip(s@) { -- contract of the closure

@@fn <Delta as FromStr>::from_str ret r
@@spec
    ensures r is Ok <==> spelled_delta(s@),
@@start
    proof { lemma_words(); crate::text::axiom_letters("delta"@); }
