@@module codec::args_any src/codec.rs
@@expand
@@only <AnyCodec as FromStr>
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate

@@top
use crate::codec::*;
use crate::codec::any::AnyCodec;
use crate::codec::{clusterc, hilbertc, hufc, zipc, args_clusterc, args_hilbertc, args_hufc, args_zipc};
use crate::prs::{is_call, is_name, lemma_name, one, written, special};
use crate::text::{applied, ccol_word, like, alike};

/// the argument that names the codec with its parameters
pub open spec fn spelled(s: Seq<char>, c: AnyCodec) -> bool {
    match c {
        AnyCodec::ClusterColors(x) => args_clusterc::spelled_ccol(s, x.0),
        AnyCodec::VoronoiCluster(x) => args_clusterc::spelled_vor(s, x.0),
        AnyCodec::Delta(_) => args_hilbertc::spelled_delta(s),
        AnyCodec::Hilbert(h) => args_hilbertc::spelled(s, h),
        AnyCodec::Hufman(_) => args_hufc::spelled(s),
        AnyCodec::Zip(z) => args_zipc::spelled(s, z),
    }
}

/// the name that a codec goes by, in front of a parenthesis
pub open spec fn word_of(c: AnyCodec, w: Seq<char>) -> bool {
    match c {
        AnyCodec::ClusterColors(_) => ccol_word(w),
        AnyCodec::VoronoiCluster(_) => w == "voronoi"@,
        AnyCodec::Hilbert(_) => w == "hilbert"@ || w == "Hilbert"@,
        AnyCodec::Zip(_) => w == "zip"@,
        _ => false,
    }
}


@@top
/// s names no codec of this kind
pub open spec fn none_of(s: Seq<char>, kind: spec_fn(AnyCodec) -> bool) -> bool { forall|c: AnyCodec| kind(c) ==> !#[trigger] spelled(s, c) }

pub open spec fn answers(s: Seq<char>, kind: spec_fn(AnyCodec) -> bool, r: Result<AnyCodec, ParseError>) -> bool {
    match r { Ok(c) => kind(c) && spelled(s, c), Err(_) => none_of(s, kind) }
}

pub open spec fn is_clustercolors() -> spec_fn(AnyCodec) -> bool { |c: AnyCodec| c is ClusterColors }
pub open spec fn is_voronoicluster() -> spec_fn(AnyCodec) -> bool { |c: AnyCodec| c is VoronoiCluster }
pub open spec fn is_delta() -> spec_fn(AnyCodec) -> bool { |c: AnyCodec| c is Delta }
pub open spec fn is_hilbert() -> spec_fn(AnyCodec) -> bool { |c: AnyCodec| c is Hilbert }
pub open spec fn is_hufman() -> spec_fn(AnyCodec) -> bool { |c: AnyCodec| c is Hufman }
pub open spec fn is_zip() -> spec_fn(AnyCodec) -> bool { |c: AnyCodec| c is Zip }

@@fn <AnyCodec as FromStr>::from_str ret r
@@spec
    ensures
        r is Ok ==> spelled(s@, r->Ok_0),
        r is Err ==> forall|c: AnyCodec| !spelled(s@, c),
@@rewrite |s| { clusterc::ClusterColors::from_str(s) .map(Into::into) .map_err(Into::into) } ==> |s: &str| -> (x: Result<AnyCodec, ParseError>) ensures answers(s@, is_clustercolors(), x) { match clusterc::ClusterColors::from_str(s) { Ok(v) => Ok(AnyCodec::from(v)), Err(_) => Err(ParseError::Other(crate::rt::some_string())) } } -- map and map_err with Into::into written out, the closure with its contract
@@rewrite |s| { clusterc::VoronoiCluster::from_str(s) .map(Into::into) .map_err(Into::into) } ==> |s: &str| -> (x: Result<AnyCodec, ParseError>) ensures answers(s@, is_voronoicluster(), x) { match clusterc::VoronoiCluster::from_str(s) { Ok(v) => Ok(AnyCodec::from(v)), Err(_) => Err(ParseError::Other(crate::rt::some_string())) } } -- map and map_err with Into::into written out, the closure with its contract
@@rewrite |s| { hilbertc::Delta::from_str(s) .map(Into::into) .map_err(Into::into) } ==> |s: &str| -> (x: Result<AnyCodec, ParseError>) ensures answers(s@, is_delta(), x) { match hilbertc::Delta::from_str(s) { Ok(v) => Ok(AnyCodec::from(v)), Err(_) => Err(ParseError::Other(crate::rt::some_string())) } } -- map and map_err with Into::into written out, the closure with its contract
@@rewrite |s| { hilbertc::Hilbert::from_str(s) .map(Into::into) .map_err(Into::into) } ==> |s: &str| -> (x: Result<AnyCodec, ParseError>) ensures answers(s@, is_hilbert(), x) { match hilbertc::Hilbert::from_str(s) { Ok(v) => Ok(AnyCodec::from(v)), Err(_) => Err(ParseError::Other(crate::rt::some_string())) } } -- map and map_err with Into::into written out, the closure with its contract
@@rewrite |s| { hufc::Hufman::from_str(s) .map(Into::into) .map_err(Into::into) } ==> |s: &str| -> (x: Result<AnyCodec, ParseError>) ensures answers(s@, is_hufman(), x) { match hufc::Hufman::from_str(s) { Ok(v) => Ok(AnyCodec::from(v)), Err(_) => Err(ParseError::Other(crate::rt::some_string())) } } -- map and map_err with Into::into written out, the closure with its contract
@@rewrite |s| { zipc::Zip::from_str(s) .map(Into::into) .map_err(Into::into) } ==> |s: &str| -> (x: Result<AnyCodec, ParseError>) ensures answers(s@, is_zip(), x) { match zipc::Zip::from_str(s) { Ok(v) => Ok(AnyCodec::from(v)), Err(_) => Err(ParseError::Other(crate::rt::some_string())) } } -- map and map_err with Into::into written out, the closure with its contract

@@top
/* a string names at most one codec */

pub proof fn lemma_words()
    ensures
        forall|w: Seq<char>| #[trigger] ccol_word(w) ==> is_name(w) && w[0] == 'c',
        is_name("voronoi"@), "voronoi"@[0] == 'v', is_name("zip"@), "zip"@[0] == 'z',
        is_name("hilbert"@), is_name("Hilbert"@), "hilbert"@[0] == 'h', "Hilbert"@[0] == 'H',
        is_name("delta"@), "delta"@[0] == 'd', is_name("hufman"@), "hufman"@[0] == 'h', "rle"@ != "zip"@,
{
    reveal_strlit("ccol"); reveal_strlit("c-col"); reveal_strlit("ccolors"); reveal_strlit("c-colors");
    reveal_strlit("clustercol"); reveal_strlit("cluster-col"); reveal_strlit("clustercolors"); reveal_strlit("cluster-colors");
    reveal_strlit("voronoi"); reveal_strlit("zip"); reveal_strlit("hilbert"); reveal_strlit("Hilbert"); reveal_strlit("delta"); reveal_strlit("hufman"); reveal_strlit("rle");
    assert("rle"@[0] != "zip"@[0]);
}

/// a codec with parameters is a name, a parenthesis and something
pub proof fn lemma_shape(s: Seq<char>, c: AnyCodec) -> (wb: (Seq<char>, Seq<char>))
    requires spelled(s, c), !(c is Delta), !(c is Hufman),
    ensures
        word_of(c, wb.0), is_name(wb.0), s == written(wb.0, wb.1),
        match c {
            AnyCodec::ClusterColors(x) => args_clusterc::counts(wb.1, x.0),
            AnyCodec::VoronoiCluster(x) => args_clusterc::counts(wb.1, x.0),
            _ => true,
        },
{
    lemma_words();
    match c {
        AnyCodec::ClusterColors(x) => {
            let (w, n) = choose|w: Seq<char>, n: Seq<char>| s == #[trigger] applied(w, n) && ccol_word(w) && args_clusterc::counts(n, x.0);
            (w, n)
        },
        AnyCodec::VoronoiCluster(x) => {
            let n = choose|n: Seq<char>| s == #[trigger] applied("voronoi"@, n) && args_clusterc::counts(n, x.0);
            ("voronoi"@, n)
        },
        AnyCodec::Hilbert(h) => {
            let (n, t) = choose|n: Seq<char>, t: Seq<char>| #[trigger] is_call(s, n, one(t)) && (n == "hilbert"@ || n == "Hilbert"@) && args_hilbertc::spells_method(t, h.compress);
            (n, choose|b: Seq<char>| crate::prs::call_with(s, n, one(t), b))
        },
        AnyCodec::Zip(z) => {
            let a = one(match z { zipc::Zip::Dict => "dict"@, zipc::Zip::Back => "back"@ });
            ("zip"@, choose|b: Seq<char>| crate::prs::call_with(s, "zip"@, a, b))
        },
        _ => { assert(false); (s, s) },
    }
}

pub proof fn lemma_method(t: Seq<char>, a: hilbertc::CompressionMethod, b: hilbertc::CompressionMethod)
    requires args_hilbertc::spells_method(t, a), args_hilbertc::spells_method(t, b),
    ensures a == b,
{
    lemma_words();
    args_hilbertc::lemma_words();
    crate::prs::lemma_once(t);
    match (a, b) {
        (hilbertc::CompressionMethod::RLE(d), hilbertc::CompressionMethod::RLE(e)) => {
            if t != "rle"@ {
                let x = choose|x: Seq<char>| #[trigger] is_call(t, "rle"@, one(x)) && crate::text::f64_of(x) == Some(d);
                let y = choose|y: Seq<char>| #[trigger] is_call(t, "rle"@, one(y)) && crate::text::f64_of(y) == Some(e);
                assert(one(x)[0] == x && one(y)[0] == y);
            }
        },
        _ => { },
    }
}

pub proof fn theorem_one_codec(s: Seq<char>, c: AnyCodec, d: AnyCodec)
    requires spelled(s, c), spelled(s, d),
    ensures c == d,
{
    lemma_words();
    lemma_plain(s, c);
    lemma_plain(s, d);
    if !(c is Delta) && !(c is Hufman) && !(d is Delta) && !(d is Hufman) {
        let (w, x) = lemma_shape(s, c);
        let (v, y) = lemma_shape(s, d);
        lemma_name(s, w, x, v, y);
        crate::prs::lemma_once(s);
        match (c, d) {
            (AnyCodec::Hilbert(h), AnyCodec::Hilbert(g)) => {
                let (n, t) = choose|n: Seq<char>, t: Seq<char>| #[trigger] is_call(s, n, one(t)) && (n == "hilbert"@ || n == "Hilbert"@) && args_hilbertc::spells_method(t, h.compress);
                let (m, u) = choose|m: Seq<char>, u: Seq<char>| #[trigger] is_call(s, m, one(u)) && (m == "hilbert"@ || m == "Hilbert"@) && args_hilbertc::spells_method(u, g.compress);
                assert(one(t)[0] == t && one(u)[0] == u);
                lemma_method(t, h.compress, g.compress);
            },
            (AnyCodec::Zip(z), AnyCodec::Zip(q)) => {
                args_zipc::lemma_words();
                assert(one("dict"@)[0] == "dict"@ && one("back"@)[0] == "back"@);
            },
            _ => { },
        }
    }
}

/// those without parameters are words without parentheses
pub proof fn lemma_plain(s: Seq<char>, c: AnyCodec)
    requires spelled(s, c),
    ensures
        c is Delta ==> s.len() > 0 && s[0] == 'd' && is_name(s),
        c is Hufman ==> s.len() > 0 && alike(s[0], 'h') && is_name(s),
        !(c is Delta) && !(c is Hufman) ==> !is_name(s),
{
    lemma_words();
    if c is Hufman {
        let h = "hufman"@;
        reveal_strlit("hufman");
        assert(alike(s[0], h[0]));
        assert forall|i: int| 0 <= i < s.len() implies !special(#[trigger] s[i]) by { assert(alike(s[i], h[i])); }
    } else if !(c is Delta) {
        let (w, b) = lemma_shape(s, c);
        assert(s[w.len() as int] == '(');
    }
}
