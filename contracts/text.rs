// Strings: UTF-8 offsets and slices (assumed contracts of core::str), regular expressions (assumed contract of the
// regex crate).  A string is the sequence of its characters; positions are byte offsets.
use vstd::prelude::*;
use crate::rt::It;
use vstd::std_specs::iter::IteratorSpec;

verus! {

/// bytes that a character takes in UTF-8
pub open spec fn width(c: char) -> nat {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}

/// the byte offset of character i
pub open spec fn offset(s: Seq<char>, i: int) -> nat
    decreases i,
{
    if i <= 0 { 0 } else { offset(s, i - 1) + width(s[i - 1]) }
}

pub open spec fn at(s: Seq<char>, a: usize, i: int) -> bool { 0 <= i <= s.len() && offset(s, i) == a }
pub open spec fn boundary(s: Seq<char>, a: usize) -> bool { exists|i: int| #[trigger] at(s, a, i) }

pub proof fn lemma_offset(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j,
    ensures offset(s, i) < offset(s, j), offset(s, i) + (j - i) <= offset(s, j),
    decreases j - i,
{
    if i < j - 1 { lemma_offset(s, i, j - 1); }
}

/// the characters with their positions
pub open spec fn indices(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |k: int| (offset(s, k) as usize, s[k])) }

#[verifier::external_body]
pub fn char_indices<'a>(s: &'a str) -> (r: It<'a, (usize, char)>)
    ensures
        r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == indices(s@),
        offset(s@, s@.len() as int) <= usize::MAX,
{ It::of(s.char_indices()) }

/// s.len()
#[verifier::external_body]
pub fn len(s: &str) -> (r: usize)
    ensures r == offset(s@, s@.len() as int),
{ s.len() }

/// &s[a..b]
#[verifier::external_body]
pub fn slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, boundary(s@, a), boundary(s@, b),
    ensures forall|i: int, j: int| #[trigger] at(s@, a, i) && #[trigger] at(s@, b, j) ==> i <= j && r@ == s@.subrange(i, j),
{ &s[a..b] }

/// it.filter(f)
#[verifier::external_body]
pub fn filter<'a, I: Iterator + 'a, F: Fn(&I::Item) -> bool + 'a>(it: I, f: F, Ghost(p): Ghost<spec_fn(I::Item) -> bool>) -> (r: It<'a, I::Item>)
    requires
        it.obeys_prophetic_iter_laws(), it.will_return_none(),
        forall|x: I::Item| #[trigger] f.requires((&x,)),
        forall|x: I::Item, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == it.remaining().filter(p),
{ It::of(it.filter(f)) }

/// a == b
#[verifier::external_body]
pub fn eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

pub open spec fn alike(a: char, b: char) -> bool {
    a == b || ('A' <= a <= 'Z' && b as u32 == a as u32 + 32) || ('A' <= b <= 'Z' && a as u32 == b as u32 + 32)
}

/// the same but for the case of ASCII letters
pub open spec fn like(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] alike(a[i], b[i])
}

/// a.eq_ignore_ascii_case(b)
#[verifier::external_body]
pub fn eq_ignore_ascii_case(a: &str, b: &str) -> (r: bool)
    ensures r == like(a@, b@),
{ a.eq_ignore_ascii_case(b) }

/* numbers */

pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }

/// the number that decimal digits spell
pub open spec fn value(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { (value(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32)) as nat }
}

#[verifier::external_body]
#[derive(Debug)]
pub struct NumberError { e: String }

/// usize::from_str(s)
#[verifier::external_body]
pub fn parse_usize(s: &str) -> (r: Result<usize, NumberError>)
    ensures
        digits(s@) ==> (r is Ok <==> value(s@) <= usize::MAX) && (r is Ok ==> r->Ok_0 == value(s@)),
        r is Ok ==> digits(s@) || (s@.len() > 0 && s@[0] == '+'),
{ unimplemented!() }

/// the number that a text spells
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;

/// f64::from_str(s)
#[verifier::external_body]
pub fn parse_f64(s: &str) -> (r: Result<f64, NumberError>)
    ensures r is Ok <==> f64_of(s@) is Some, r is Ok ==> f64_of(s@) == Some(r->Ok_0),
{ unimplemented!() }

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}

} // verus!

verus! {

/* regex::Regex */

#[verifier::external_body]
pub struct Regex { r: String }

impl View for Regex {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

/// p is a regular expression
pub uninterp spec fn valid(p: Seq<char>) -> bool;

/// the groups of the leftmost match of p in s
pub uninterp spec fn search(p: Seq<char>, s: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;

#[verifier::external_body]
#[derive(Debug)]
pub struct RegexError { e: String }

#[verifier::external_body]
pub struct Captures<'a> { c: &'a str }

#[verifier::external_body]
pub struct Match<'a> { c: &'a str }

impl<'a> Captures<'a> {
    pub uninterp spec fn groups(&self) -> Seq<Option<Seq<char>>>;

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.groups().len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'a>>)
        ensures
            r is Some <==> i < self.groups().len() && self.groups()[i as int] is Some,
            r is Some ==> self.groups()[i as int] == Some(r->0.text()),
    { unimplemented!() }
}

impl<'a> Match<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;

    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str)
        ensures r@ == self.text(),
    { unimplemented!() }
}

impl Regex {
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>)
        ensures valid(p@) ==> r is Ok, r is Ok ==> r->Ok_0@ == p@,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn captures<'a>(&self, s: &'a str) -> (r: Option<Captures<'a>>)
        ensures
            r is Some <==> search(self@, s@) is Some,
            r is Some ==> search(self@, s@) == Some(r->0.groups()),
    { unimplemented!() }
}

/// format!("^{}$", p)
pub open spec fn anchored(p: Seq<char>) -> Seq<char> { seq!['^'] + p + seq!['$'] }

#[verifier::external_body]
pub fn anchor(p: &str) -> (r: String)
    ensures r@ == anchored(p@),
{ format!("^{}$", p) }

/* what the regular expressions used here match, anchored at both ends */

/// a character that \d matches
pub uninterp spec fn decimal(c: char) -> bool;

#[verifier::external_body]
pub broadcast proof fn axiom_decimal(c: char)
    ensures (c as u32) < 0x80 ==> (#[trigger] decimal(c) <==> '0' <= c <= '9'),
{ }

pub open spec fn decimals(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> decimal(#[trigger] s[i]) }

pub open spec fn letters(p: Seq<char>) -> bool { forall|i: int| 0 <= i < p.len() ==> 'a' <= #[trigger] p[i] <= 'z' }

/// w, a number in parentheses
pub open spec fn applied(w: Seq<char>, n: Seq<char>) -> Seq<char> { w + seq!['('] + n + seq![')'] }

/// letters stand for themselves
#[verifier::external_body]
pub proof fn axiom_letters(p: Seq<char>)
    requires letters(p),
    ensures
        valid(anchored(p)),
        forall|s: Seq<char>| #[trigger] search(anchored(p), s) == if s == p { Some(seq![Some(s)]) } else { None },
{ }

#[verifier::external_body]
pub proof fn axiom_hilbert()
    ensures
        valid(anchored("[Hh]ilbert"@)),
        forall|s: Seq<char>| #[trigger] search(anchored("[Hh]ilbert"@), s) == if s == "hilbert"@ || s == "Hilbert"@ { Some(seq![Some(s)]) } else { None },
{ }

pub open spec fn ccol_word(w: Seq<char>) -> bool {
    w == "ccol"@ || w == "c-col"@ || w == "ccolors"@ || w == "c-colors"@
    || w == "clustercol"@ || w == "cluster-col"@ || w == "clustercolors"@ || w == "cluster-colors"@
}

#[verifier::external_body]
pub proof fn axiom_ccol()
    ensures
        valid("^c(?:luster)?-?col(?:ors)?\\((\\d+)\\)$"@),
        forall|s: Seq<char>| #[trigger] search("^c(?:luster)?-?col(?:ors)?\\((\\d+)\\)$"@, s) is Some
            ==> exists|w: Seq<char>, n: Seq<char>| ccol_word(w) && decimals(n) && s == #[trigger] applied(w, n)
                && search("^c(?:luster)?-?col(?:ors)?\\((\\d+)\\)$"@, s) == Some(seq![Some(s), Some(n)]),
        forall|w: Seq<char>, n: Seq<char>| ccol_word(w) && decimals(n)
            ==> search("^c(?:luster)?-?col(?:ors)?\\((\\d+)\\)$"@, #[trigger] applied(w, n)) == Some(seq![Some(applied(w, n)), Some(n)]),
{ }

#[verifier::external_body]
pub proof fn axiom_voronoi()
    ensures
        valid("^voronoi\\((\\d+)\\)$"@),
        forall|s: Seq<char>| #[trigger] search("^voronoi\\((\\d+)\\)$"@, s) is Some
            ==> exists|n: Seq<char>| decimals(n) && s == #[trigger] applied("voronoi"@, n)
                && search("^voronoi\\((\\d+)\\)$"@, s) == Some(seq![Some(s), Some(n)]),
        forall|n: Seq<char>| decimals(n)
            ==> search("^voronoi\\((\\d+)\\)$"@, #[trigger] applied("voronoi"@, n)) == Some(seq![Some(applied("voronoi"@, n)), Some(n)]),
{ }

} // verus!
