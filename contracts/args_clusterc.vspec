@@module codec::args_clusterc src/codec/clusterc.rs
@@only <ClusterColors as FromStr>
@@only <VoronoiCluster as FromStr>
@@grewrite image:: ==> crate::image:: -- stand-in for the image crate
@@grewrite use regex::Regex; ==> use crate::text::Regex; -- stand-in for the regex crate

@@top
use crate::codec::*;
use crate::codec::clusterc::*;

@@# arguments
@@top
/// n spells a positive number that fits
pub open spec fn counts(n: Seq<char>, k: usize) -> bool { crate::text::digits(n) && crate::text::value(n) == k && k > 0 }

/// the argument that names the codec
pub open spec fn spelled_ccol(s: Seq<char>, k: usize) -> bool {
    exists|w: Seq<char>, n: Seq<char>| s == #[trigger] crate::text::applied(w, n) && crate::text::ccol_word(w) && counts(n, k)
}

pub open spec fn spelled_vor(s: Seq<char>, k: usize) -> bool {
    exists|n: Seq<char>| s == #[trigger] crate::text::applied("voronoi"@, n) && counts(n, k)
}

/// digits match \d, and what matches \d and is a number is digits
pub proof fn lemma_decimals()
    ensures
        forall|n: Seq<char>| #[trigger] crate::text::digits(n) ==> crate::text::decimals(n),
        forall|n: Seq<char>| #[trigger] crate::text::decimals(n) ==> n.len() > 0 && n[0] != '+',
{
    broadcast use crate::text::axiom_decimal;
    assert forall|n: Seq<char>| #[trigger] crate::text::decimals(n) implies n.len() > 0 && n[0] != '+' by { assert(crate::text::decimal(n[0])); }
}

/// the same text, the same number
pub proof fn lemma_applied(w: Seq<char>, n: Seq<char>, v: Seq<char>, m: Seq<char>)
    requires crate::text::applied(w, n) == crate::text::applied(v, m), crate::prs::is_name(w), crate::prs::is_name(v),
    ensures w == v, n == m,
{
    crate::prs::lemma_name(crate::text::applied(w, n), w, n, v, m);
}

@@fn <ClusterColors as FromStr>::from_str ret r
@@spec
    ensures
        r is Ok ==> spelled_ccol(s@, r->Ok_0.0),
        r is Err ==> forall|k: usize| !spelled_ccol(s@, k),
@@start
    proof { lemma_decimals(); crate::text::axiom_ccol(); }
@@rewrite usize::from_str( ==> crate::text::parse_usize( -- usize::from_str through its assumed contract

@@fn <VoronoiCluster as FromStr>::from_str ret r
@@spec
    ensures
        r is Ok ==> spelled_vor(s@, r->Ok_0.0),
        r is Err ==> forall|k: usize| !spelled_vor(s@, k),
@@start
    proof { lemma_decimals(); crate::text::axiom_voronoi(); }
@@rewrite usize::from_str( ==> crate::text::parse_usize( -- usize::from_str through its assumed contract
